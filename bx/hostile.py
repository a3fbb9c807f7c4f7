"""Hostile inputs for the memory-safety, termination, determinism and logging checks."""
import os, re
from . import gen, uni, build as B

STOCK = os.path.join(B.REPO, 'boxes-config')
_stock = {}

CTRL = ['\x01', '\x07', '\x08', '\x0b', '\x0c', '\x0e', '\x1f', '\x7f', '\x85', '\x9b', '\u2028', '\u2029', '\u200e']
ESC = ['\x1b', '\x1b[', '\x1b[31', '\x1b[31m', '\x1b[0m', '\x1b[;m', '\x1b]0;t\x07', '\x1b(B', '\x1b[1A', '\x1b[999999999m',
       '\x1b\x1b', '\x1b[m\x1b[m', '\x1b[38;2;1;2;3m', '\x1bm', '\x1b[\u4e00m']
ODD = ['\u3000', '\u00a0', '\u2003', '\u200b', '\u0301', '\u0301\u0301', '\ufeff', '\U0001F468\u200d\U0001F469', '\ufffd',
       '\uffff', '\U0010ffff', '\u6f22', '\u00ad', '\u180e', '\ue000']


def stock_text():
    if 'text' not in _stock:
        with open(STOCK, encoding='utf-8') as f:
            _stock['text'] = f.read()
    return _stock['text']


def stock_names():
    if 'names' not in _stock:
        _stock['names'] = [m.group(1) for m in re.finditer(r'^BOX\s+([^\s,]+)', stock_text(), re.M)]
    return _stock['names']


def stock_designs():
    """source text of every stock design"""
    if 'designs' not in _stock:
        _stock['designs'] = re.findall(r'^BOX .*?^END [^\n]*\n', stock_text(), re.M | re.S)
    return _stock['designs']


def piece(rng):
    r = rng.random()
    if r < 0.35:
        return ''.join(rng.choice(gen.ASCII_WORD + gen.PUNCT) for _ in range(rng.randint(1, 8)))
    if r < 0.5:
        return ' ' * rng.choice([1, 1, 2, 5, 40])
    if r < 0.6:
        return '\t' * rng.choice([1, 1, 2, 3])
    if r < 0.72:
        return rng.choice(ESC)
    if r < 0.8:
        return rng.choice(ODD) * rng.choice([1, 1, 3])
    if r < 0.85:
        return rng.choice(CTRL)
    if r < 0.95:
        return ''.join(rng.choice(gen.LATIN + gen.OTHER + gen.WIDE + gen.COMB) for _ in range(rng.randint(1, 6)))
    return ''.join(rng.choice('-|+*#/\\') for _ in range(rng.randint(1, 12)))


def hostile_string(rng, n=None):
    return ''.join(piece(rng) for _ in range(n if n is not None else rng.choice([0, 1, 1, 2, 3, 6])))


def soft_string(rng):
    """no control characters"""
    while True:
        s = hostile_string(rng)
        if not any(c in s for c in CTRL):
            return s


def hostile_text(rng):
    r = rng.random()
    if r < 0.35:
        pr = gen.Profile(tabs=rng.choice([0, 0.2]), esc=rng.choice([0, 0.5]), nbsp=0.1, ublank=0.1)
        t, _ = gen.join(rng, gen.text_lines(rng, pr), pr)
        return t.encode('utf-8', 'surrogateescape')
    n = rng.choice([0, 1, 1, 2, 3, 5, 9])
    fn = soft_string if rng.random() < 0.75 else hostile_string
    out = []
    for _ in range(n):
        out.append(fn(rng))
        if rng.random() < 0.03:
            out[-1] = out[-1] * rng.choice([50, 500, 3000])
        out.append(rng.choice(['\n'] * 12 + ['\r\n', '\r', '\n\n', '\r\r\n']))
    if out and rng.random() < 0.3:
        out.pop()
    b = ''.join(out).encode('utf-8', 'surrogateescape')
    if rng.random() < 0.12:
        b = mutate_bytes(rng, b)
    return b


def mutate_bytes(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 2, 4, 10])):
        k = rng.random()
        p = rng.randint(0, len(b))
        if k < 0.4 and b:
            p = rng.randrange(len(b))
            b[p] = rng.choice([rng.randrange(256), 0, 0x80, 0xff, 0xc3, 0xe6, 0x1b, 0x0a, 0x0d, 0x09, 0x20])
        elif k < 0.6:
            b[p:p] = bytes([rng.randrange(256) for _ in range(rng.randint(1, 4))])
        elif k < 0.8 and b:
            q = min(len(b), p + rng.choice([1, 2, 5, 20]))
            del b[p:q]
        elif b:
            q = min(len(b), p + rng.choice([1, 5, 30]))
            b[p:p] = b[p:q] * rng.choice([1, 3])
    return bytes(b)


def mutate_box(rng, lines):
    """damage a drawn box: lines is a list of str"""
    lines = list(lines)
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        if not lines:
            break
        k = rng.randrange(9)
        i = rng.randrange(len(lines))
        s = lines[i]
        p = rng.randint(0, len(s))
        if k == 0:
            del lines[i]
        elif k == 1:
            lines.insert(i, s)
        elif k == 2:
            lines[i] = s[:p]
        elif k == 3:
            lines[i] = s[p:]
        elif k == 4:
            lines[i] = s[:p] + rng.choice([' ', '  ', 'x', '\t', '\u6f22', '\u0301', '\x1b[1m']) + s[p:]
        elif k == 5:
            lines[i] = s + soft_string(rng)
        elif k == 6:
            lines.insert(i, rng.choice(['', ' ', soft_string(rng)]))
        elif k == 7:
            ind = ' ' * rng.randint(1, 5)
            lines = [ind + x for x in lines]
        else:
            j = rng.randrange(len(lines))
            lines[i], lines[j] = lines[j], lines[i]
    return lines


RX = ['a', 'a+', '(a)(b)?', '^', '$', '.', '.*', '^.*$', '(.*)', '\\\\s+', '[', '(', '\\\\d{2,3}', '(?i)X', 'a|b', '(?<n>x)', '\\\\',
      '*', 'x*', '\\\\b', '(?=a)', '\\\\x{1F600}', '[^a]', '\u6f22', '', '(a+)+$']
RS = ['', 'b', '$1', '${1}', '$0$0', '$9', '$n', '${n}', '\\\\', '\\\\U$1', '${1:-x}', '${1:+a:b}', '$', '\\\\E', 'xxxxxxxxxxxxxxxxxxxx',
      '\\t', '\t', '\x1b[31m$0\x1b[0m', '\u6f22', '\\\\n', '\\\\x07', '$*MARK']


def hostile_design(rng, name=None, soft=True):
    d = gen.design(rng, maxdim=rng.choice([2, 3, 5]), color=rng.choice([0, 0, 0.7]))
    d.name = name or rng.choice(['d', 'd', 'foo', 'a-b', 'X1'])
    st = soft_string if soft else hostile_string
    if rng.random() < 0.4:
        for _ in range(rng.choice([1, 1, 3])):
            k = rng.choice(gen.SHAPES)
            r = rng.random()
            if r < 0.25 and k in d.shapes:
                del d.shapes[k]
            elif r < 0.5:
                d.shapes[k] = [''] * rng.randint(1, 3)
            elif r < 0.75:
                d.shapes[k] = [st(rng) for _ in range(rng.randint(1, 3))]
            elif k in d.shapes:
                s = d.shapes[k]
                i = rng.randrange(len(s))
                s[i] = s[i][:-1] + st(rng)
    if rng.random() < 0.2:
        d.elastic = [rng.choice(gen.SHAPES) for _ in range(rng.randint(1, 6))]
    if rng.random() < 0.3:
        d.sample = [st(rng) for _ in range(rng.randint(1, 3))]
    for f in ('author', 'designer'):
        if rng.random() < 0.2:
            setattr(d, f, st(rng))
    if rng.random() < 0.3:
        d.tags = [rng.choice(['a', 'b-c', 'x1', st(rng)]) for _ in range(rng.randint(1, 3))]
    for rules in (d.reprules, d.revrules):
        while rng.random() < 0.3:
            rules.append((rng.choice([None, 'global', 'once']), rng.choice(RX), rng.choice(RS)))
    return d


def hostile_config(rng):
    """(bytes, design names)"""
    r = rng.random()
    if r < 0.55:
        n = rng.choice([1, 1, 1, 2, 3])
        names = []
        txt = []
        soft = rng.random() < 0.8
        for i in range(n):
            d = hostile_design(rng, soft=soft)
            if rng.random() < 0.8:
                d.name = '%s%d' % (d.name, i)
            names.append(d.name)
            if rng.random() < 0.2:
                d.aliases = [rng.choice(['al', 'be', 'd', 'x-%d' % i])]
                names += d.aliases
            txt.append(config_variant(rng, d))
        b = '\n'.join(txt).encode('utf-8', 'surrogateescape')
    else:
        k = rng.randint(1, 3)
        ds = [rng.choice(stock_designs()) for _ in range(k)]
        names = [re.match(r'BOX\s+([^\s,]+)', x).group(1) for x in ds]
        b = '\n'.join(ds).encode()
    r = rng.random()
    if r < 0.25:
        b = mutate_tokens(rng, b.decode('utf-8', 'surrogateescape')).encode('utf-8', 'surrogateescape')
    elif r < 0.35:
        b = mutate_bytes(rng, b)
    if rng.random() < 0.03:      # a token that exceeds the initial size of all buffers
        big = rng.choice([b'x', b'\\', b' ', b'\xc3\xa4', b'-']) * rng.choice([5000, 16384, 17000, 30000])
        i = rng.choice([m.start() for m in re.finditer(rb'"|\n|\w\b', b)] or [0])
        b = b[:i + 1] + rng.choice([b'', b'#', b'"']) + big + b[i + 1:]
    return b, names


def config_variant(rng, d):
    t = gen.config_of(d)
    if rng.random() < 0.15:
        t = t.replace('"', rng.choice(['"', '"']))
    return t


TOK = re.compile(r'"(?:\\.|[^"\\])*"|\w+|\s+|.', re.S)
WORDS = ['BOX', 'END', 'shapes', 'elastic', 'sample', 'ends', '{', '}', '(', ')', ',', '"', '\\', 'padding', 'left', '1', '-1',
         '77', 'nw', 'n', 'ne', 'w', 'replace', 'reverse', 'global', 'once', 'with', 'to', 'tags', 'delim', 'delimiter',
         '^"', 'parent', ':global:', '#', '\n', 'author', 'designer', 'indent', '"box"', '""', '"a"', '"\t"', '\t', '\x01', ';', '0']


def mutate_tokens(rng, t):
    toks = TOK.findall(t)
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        if not toks:
            break
        i = rng.randrange(len(toks))
        k = rng.randrange(5)
        if k == 0:
            del toks[i]
        elif k == 1:
            toks.insert(i, toks[i])
        elif k == 2:
            toks[i] = rng.choice(WORDS)
        elif k == 3:
            toks.insert(i, rng.choice(WORDS))
        else:
            j = rng.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
    return ''.join(toks)


def hostile_options(rng, names, draw_only=False):
    a = []
    if rng.random() < 0.8:
        a += ['-d', rng.choice(names + names + names + ['nope', '', hostile_string(rng).replace('\0', '')])
              if rng.random() < 0.1 else rng.choice(names)]
    o = gen.options(rng, tab=0.3, eol=0.15)
    a += o.args()
    if rng.random() < 0.45 and not draw_only:
        a.append(rng.choice(['-r', '-r', '-m']))
    if rng.random() < 0.2:
        a.append(rng.choice(['-k', '--kill-blank', '--no-kill-blank', '-k=true', '-kfalse']))
    if rng.random() < 0.2:
        a.append(rng.choice(['--color', '--no-color']))
    if rng.random() < 0.1:
        a += ['-n', rng.choice(['UTF-8', 'ISO-8859-1', 'ISO-8859-15', 'CP1252', 'ASCII', 'SHIFT_JIS', 'EUC-JP', 'GB18030',
                                'UTF-16', 'UTF-32', 'nope', '', 'UTF-7', 'BIG5'])]
    if rng.random() < 0.06:
        a += ['-c', rng.choice(['#', '', ' ', '\t', '\u6f22', '\x1b[31m#\x1b[0m', '\u00e9', '\u0301', hostile_string(rng).replace('\0', '')])]
    if rng.random() < 0.15:
        a += ['-x', rng.choice(['debug', 'debug:main', 'debug:all', 'debug:parser,lexer', 'debug:regexp,discovery', 'debug:input',
                                'debug:tools,remove', 'debug:nope', 'debug:main, ,parser', 'debug: ', 'debug:,,all', '(undoc)', 'x'])]
    if rng.random() < 0.12:
        a += rng.choice([['-s', '20000x3'], ['-s', 'x2000'], ['-s', '0'], ['-s', '-1x-1'], ['-s', '999999999999999999999x2'],
                         ['-s', '3x'], ['-s', 'x'], ['-s', ''], ['-p', 'a99999999999'], 
                         ['-p', ''], ['-p', 'q'], ['-p', 'a-1'], ['-a', ''], ['-a', 'hx'], ['-a', 'h'], ['-a', 'zz'], ['-t', ''],
                         ['-t', '0'], ['-t', '200'], ['-t', '8z'], ['-t', '999999999999'], ['-e', ''], ['-e', 'x'], ['-i', ''],
                         ['-i', 'q'], ['-q', ''], ['-q', '('], ['-q', 'a,'], ['-q', '+a,-a'], ['-q', '(all)'], ['-q', hostile_string(rng).replace('\0', '')],
                         ['-z'], ['--nope'], ['-l'], ['-h'], ['-v'], ['-e', 'CR'], ['-p', 'h3000'], ['-p', 'a1' * 50]])
    if rng.random() < 0.05:
        a.append('-l')
    return a
