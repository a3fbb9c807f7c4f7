"""C26: the string type - consistency of its measurements, and what its operations promise."""
import re
import subprocess
from .. import build as B
from .. import harness, uni
from .. import run as R
from ..harness import Violation, Inconclusive

ESCS = ['\x1b[31m', '\x1b[0m', '\x1b[1m', '\x1b[39m', '\x1b[49m', '\x1b[m', '\x1b[38;5;10m', '\x1bM', '\x1b(B', '\x1b[10m', '\x1b[2K', '\x1b[90m', '\x1b[00m',
        '\x1b[59m', '\x1b[75m', '\x1b[1;0m', '\x1b[3m', '\x1b[4m', '\x1b[7m', '\x1b[5m',
        '\x1b\\', '\x1b]', '\x1b^', '\x1b_', '\x1b@', '\x1bZ', '\x1b[~', '\x1b[@']
BROKEN = ['\x1b', '\x1b[', '\x1b[3', '\x1b[;', '\x1b(']
COMB = ['\u0301', '\u20d7', '\u200b', '\u200d', '\ufe0f']
BLANKS = [' '] * 8 + ['\u2003', '\u00a0', '\u3000']
WIDE = list('\u6f22\u5b57\U0001f600\uff01\U00020000')
OTHER = list('\u00e4\u20ac\u2502\u03a9\u0416\ufffd\u00ad\ue000')


def is_reset(e):
    """an escape sequence that returns to a default"""
    return re.match(r'\x1b[\[(](0|10|39|49|59|75)?[\x40-\x7e]$', e) is not None


class Str:
    """the measurements as documented, computed from the text alone"""

    def __init__(self, mem):
        self.mem = mem
        self.first, self.vis = [], []
        i = 0
        pending = None
        cols = 0
        ascii = []
        esc = 0
        for kind, t in uni.tokens(mem):
            if kind == 'e':
                if is_reset(t):
                    pending = None
                elif pending is None:
                    pending = i
                esc += len(t)
            else:
                self.vis.append(i)
                self.first.append(i if pending is None else pending)
                pending = None
                w = uni.cwidth(t)
                cols += w
                o = ord(t)
                ascii.append(t if 0x20 <= o < 0x7f else (' ' if uni.is_blank(t) else 'x') * w)
            i += len(t)
        chars = [mem[k] for k in self.vis]
        self.chars = chars
        self.n = len(chars)
        self.first.append(len(mem))
        self.vis.append(len(mem))
        self.invis = esc
        self.cols = cols
        self.ascii = ''.join(ascii)
        self.indent = 0
        for ch in chars:
            if not uni.is_blank(ch) or uni.cwidth(ch) != 1:
                break
            self.indent += 1
        self.trailing = 0
        if any(not uni.is_blank(ch) for ch in chars):
            while uni.is_blank(chars[self.n - 1 - self.trailing]):
                self.trailing += 1

    def state(self):
        return '%s|%s|%d|%d|%d|%d|%d|%d|%s|%s' % (hexs(self.mem), hexs(self.ascii), self.indent, self.cols, len(self.mem), self.n, self.invis,
                                                 self.trailing, ','.join(map(str, self.first)), ','.join(map(str, self.vis)))


FIELDS = ['memory', 'ascii', 'indent', 'num_columns', 'num_chars', 'num_chars_visible', 'num_chars_invisible', 'trailing', 'first_char', 'visible_char']


def hexs(s):
    return '*' if s is None else ','.join('%x' % ord(ch) for ch in s) or '-'


def hexb(b):
    return ','.join('%x' % x for x in b) or '-'


def st(s):
    return '*' if s is None else s.state()


class Check(harness.Check):
    ID = 'C26'
    QUICK = 15000
    THOROUGH = 600000
    VARIANTS = ('asan',)
    RULE = ('random histories of up to 60 operations on a pool of strings (created from ASCII, blanks, single- and double-width, '
            'combining and zero-width characters, complete, consecutive, resetting and broken escape sequences), executed by the real '
            'library in an instrumented driver; after each operation the complete record of the result and of every argument is compared '
            'with the measurements computed from the text alone, and the text with what the operation promises; all results are freed '
            'in the end (shared memory would be freed twice); further text functions are compared with their descriptions; non-trivial: '
            'the history contains strings with escape sequences and wide characters')
    NEEDS = dict(operations=60000, records=100000, esc_strings=5000, trimmed=1000, cut=2000, appended=1500, prepended=1500, blank_strings=1000,
                 text=3000, bytes=1500, out_of_range=500)
    MIN_NONTRIVIAL = 0.6

    def prepare(self):
        self.driver = B.build_c('bxs_driver', 'csrc/bxs_driver.c', 'asan', objs=True)

    # ---- generation ----

    def string(self, rng, n=None, broken=True):
        n = rng.choice([0, 1, 2, 3, 5, 9, 20]) if n is None else n
        esc = rng.choice([0, 0.2, 0.5])
        blank = rng.choice([0.1, 0.3, 0.9])
        out = []
        for i in range(n):
            while rng.random() < esc:
                out.append(rng.choice(ESCS if not broken or rng.random() < 0.9 else BROKEN))
            r = rng.random()
            if r < blank:
                out.append(rng.choice(BLANKS) * rng.choice([1, 1, 2, 4]))
            elif r < blank + (1 - blank) * 0.5:
                out.append(rng.choice('abcXYZ019-_.[(;m'))
            else:
                out.append(rng.choice(rng.choice([COMB, WIDE, OTHER])))
        while rng.random() < esc:
            out.append(rng.choice(ESCS if not broken or rng.random() < 0.9 else BROKEN))
        if rng.random() < 0.3:
            out.insert(0, ' ' * rng.randint(1, 5))
        if rng.random() < 0.3:
            out.append(' ' * rng.randint(1, 5))
        if rng.random() < 0.02:
            out.insert(rng.randint(0, len(out)), rng.choice(['\u2028', '\x07', '\x7f', '\x85']))       # not allowed
        s = ''.join(out)
        if s and rng.random() < 0.002:
            self.long = 1
            s *= rng.choice([300, 1000, 5000]) // len(s) + 1
        return s

    def index(self, rng, c, n):
        """0..n, sometimes beyond"""
        if rng.random() < 0.1:
            c.count('out_of_range')
            return n + rng.randint(1, 3)
        return rng.randint(0, n)

    # ---- histories ----

    def case(self, c):
        rng = c.rng
        self.long = 0
        if rng.random() < 0.3:
            self.functions(c)
            c.count('long', self.long)
            return
        pool = {}
        script = []       # (line, expected)
        flags = set()

        def add(line, expected):
            script.append((line, expected))

        def src(null=0.03):
            if not pool or rng.random() < null:
                return None, 63
            k = rng.choice(list(pool))
            return pool[k], k

        def put(k, mem):
            """store a new string in slot k"""
            if mem is None or any(uni.is_cntrl(ch) and ch not in '\t\r\n\x1b' for ch in uni.strip_esc(mem)):
                if mem is not None:
                    c.count('illegal')
                pool.pop(k, None)
                return None
            s = pool[k] = Str(mem)
            if s.invis:
                c.count('esc_strings')
                flags.add('esc')
            if s.cols > s.n:
                flags.add('wide')
            if s.n and s.indent == s.n:
                c.count('blank_strings')
            return s

        for _ in range(rng.choice([5, 20, 60])):
            op = rng.choice(['new', 'new', 'new', 'ascii', 'dup', 'trimdup', 'trimdup', 'substr', 'substr', 'strcat', 'strcat', 'concat', 'cut', 'cut',
                             'trim', 'trim', 'rtrim', 'ltrim', 'prepend', 'prepend', 'append', 'append', 'append', 'queries', 'queries', 'strchr',
                             'strcmp', 'empty', 'ascii_id'])
            k = rng.randrange(12)
            if op == 'new':
                m = self.string(rng)
                add('new %d %s' % (k, hexs(m)), '%s %s' % (st(put(k, m)), hexs(m)))
                continue
            if op == 'ascii':
                m = ''.join(rng.choice('ab Z 9~') for _ in range(rng.choice([0, 1, 3, 8])))
                add('ascii %d %s' % (k, hexs(m)), '%s %s' % (st(put(k, m)), hexb(m.encode())))
                continue
            if op == 'empty':
                add('empty %d' % k, st(put(k, '')))
                continue
            s, j = src()
            before = st(s)
            if op == 'append':
                n = rng.choice([0, 1, 2, 7])
                if s is None:
                    add('append 0 63 %d' % n, '*')
                else:
                    add('append 0 %d %d' % (j, n), st(put(j, s.mem + ' ' * n)))
                    c.count('appended')
                continue
            if op == 'prepend':
                n = rng.choice([0, 1, 2, 7])
                m = s.mem if s else None
                if k == j:
                    k = (k + 1) % 12
                res = put(k, None if m is None and n == 0 else ' ' * n + (m or ''))
                add('prepend %d %d %d' % (k, j, n), '%s < %s' % (st(res), before))
                c.count('prepended')
                continue
            if s is None and op not in ('strcmp', 'queries'):
                if op in ('concat', 'strchr', 'ascii_id'):
                    continue
                # without a string there is no result
                t = self.string(rng) if op == 'strcat' else None
                res = put(k, t or None)
                add('%s %d 63 %s 0' % (op, k, hexs(t) if op == 'strcat' else '0'),
                    '*' + ' < *' if op == 'ltrim' else '%s < *' % st(res))
                continue
            if k == j:
                k = (k + 1) % 12
            if op == 'dup':
                add('dup %d %d' % (k, j), '%s < %s' % (st(put(k, s.mem)), before))
            elif op == 'trimdup':
                a, b = self.index(rng, c, s.n), self.index(rng, c, s.n)
                if a > b and rng.random() < 0.9:
                    a, b = b, a
                if a > s.n or b > s.n or b < a:
                    res = None
                else:
                    x, y = a, b
                    while x < y and uni.is_blank(s.chars[x]):
                        x += 1
                    while x < y and uni.is_blank(s.chars[y - 1]):
                        y -= 1
                    res = s.mem[s.first[x]:s.first[y]]
                add('trimdup %d %d %d %d' % (k, j, a, b), '%s < %s' % (st(put(k, res)), before))
                c.count('trimmed')
            elif op == 'substr':
                a, b = self.index(rng, c, len(s.mem)), self.index(rng, c, len(s.mem))
                if a > b and rng.random() < 0.9:
                    a, b = b, a
                x, y = min(a, len(s.mem)), min(b, len(s.mem))
                res = None if y < x else s.mem[x:y]
                add('substr %d %d %d %d' % (k, j, a, b), '%s < %s' % (st(put(k, res)), before))
            elif op == 'strcat':
                t = None if rng.random() < 0.05 else self.string(rng)
                add('strcat %d %d %s' % (k, j, hexs(t)), '%s < %s' % (st(put(k, s.mem + (t or ''))), before))
            elif op == 'concat':
                a, b = rng.choice(list(pool)), rng.choice(list(pool))
                m = s.mem + pool[a].mem + pool[b].mem
                add('concat %d %d %d %d' % (k, j, a, b), '%s < %s' % (st(put(k, m)), before))
            elif op == 'cut':
                n = self.index(rng, c, s.n)
                add('cut %d %d %d' % (k, j, n), '%s < %s' % (st(put(k, s.mem if n == 0 and s.n else '' if n >= s.n else s.mem[s.first[n]:])), before))
                c.count('cut')
            elif op == 'trim':
                if s.indent < s.n and uni.is_blank(s.chars[s.indent]):
                    continue        # double-width blanks: not counted as indentation
                res = s.mem if not s.indent and not s.trailing else s.mem[s.first[s.indent]:s.first[s.n - s.trailing]] if s.indent < s.n else ''
                add('trim %d %d' % (k, j), '%s < %s' % (st(put(k, res)), before))
                c.count('trimmed')
            elif op == 'rtrim':
                res = s.mem if not s.trailing else s.mem[:s.first[s.n - s.trailing]]
                add('rtrim %d %d' % (k, j), '%s < %s' % (st(put(k, res)), before))
                c.count('trimmed')
            elif op == 'ltrim':
                n = self.index(rng, c, s.n)
                x = 0
                while x < min(n, s.n) and uni.is_blank(s.chars[x]):
                    x += 1
                add('ltrim %d %d %d' % (k, j, n), '%s < %s' % (hexs(s.mem[s.first[x]:]), before))
                c.count('trimmed')
            elif op == 'queries':
                add('queries 0 %d' % j, '%s < %s' % (self.queries(s), before))
            elif op == 'strchr':
                ch = rng.choice(s.mem or 'a') if rng.random() < 0.8 else rng.choice('a ;[m')
                at = [i for i in range(s.n) if s.chars[i] == ch]
                want = [str(s.vis[at[0]]) if at else '*'] + ['%d@%d' % (s.vis[i], i) for i in at] + [str(at[-1]) if at else '-1']
                add('strchr 0 %d %x' % (j, ord(ch)), '%s < %s' % (' '.join(want), before))
            elif op == 'strcmp':
                o = rng.choice(list(pool)) if pool and rng.random() < 0.95 else 62
                a, b = (pool[o].mem if o in pool else None), (s.mem if s else None)
                if a is None or b is None:
                    r = 0 if a is b else 1 if a is None else -1
                else:
                    r = (a > b) - (a < b)       # by code point
                add('strcmp %d %d' % (o, j), '%d %d %d 0 < %s' % (r, -r, r == 0, before))
            elif op == 'ascii_id':
                add('ascii_id 0 %d' % j, '%d %d < %s' % (ident(s.mem, False), ident(s.mem, True), before))
        c.count('operations', len(script))
        c.nontrivial = flags >= {'esc', 'wide'}
        self.execute(c, script)
        c.count('long', self.long)
        c.seen(*sorted({x[0].split()[0] for x in script}))

    def queries(self, s):
        if s is None:
            return '1 1 * 4e,55,4c,4c 4e,55,4c,4c * * 0:0 0:9999 0:9999 0:9999 0:0 000000'
        ctl = [uni.is_cntrl(ch) and ch not in '\t\r\n\x1b' for ch in s.mem]

        def valid(bad, need_visible, no_esc=False):
            if need_visible and not s.n or no_esc and s.invis:
                return '0:9999'
            p = next((i for i, b in enumerate(bad) if b), None)
            return '1:9999' if p is None else '0:%d' % p
        eol = [x or ch in '\r\n' for x, ch in zip(ctl, s.mem)]
        kv = [x or ch in '\r\n\x1b' for x, ch in zip(ctl, s.mem)]
        vis = ''.join(s.chars)
        out = [str(int(not s.mem)), str(int(all(uni.is_blank(ch) or ch == '\r' for ch in vis))), hexs(vis), hexb(vis.encode()), hexb(s.mem.encode()),
               str(len(s.mem)), str(s.first[s.indent]), valid(ctl, False), valid(eol, True), valid(ctl, True), valid(kv, True, True), valid(kv, False)]
        out.append(''.join('1' if i in s.vis[:-1] else '0' for i in range(len(s.mem) + 3)))
        out += [str(s.first[min(i, s.n)]) for i in range(s.n + 3)]
        return ' '.join(out)

    # ---- other text functions ----

    def functions(self, c):
        rng = c.rng
        script = []
        c.nontrivial = True
        for _ in range(rng.choice([5, 15])):
            k = rng.randrange(4)
            if k == 0 or k == 1:
                s = self.string(rng)
                if rng.random() < 0.4:
                    # tabs, but not inside of (broken) escape sequences
                    s = ''.join(rng.choice(['\t', '\t\t', 'a', ' ', '\u6f22', '\u0301']) + (x if '\t' not in x else '') for x in
                                [rng.choice(['', 'xy', rng.choice(ESCS) + 'a']) for _ in range(rng.randint(1, 5))])
                a, b = rng.randint(0, len(s) + 2), rng.choice([0, 1, 3])
                script.append(('text 0 %s %d %d' % (hexs(s), a, b), self.text(s, a, b)))
                c.count('text')
            elif k == 2:
                h = ''.join(rng.choice('ab\u6f22 ') for _ in range(rng.randint(0, 12)))
                d = ''.join(rng.choice('ab\u6f22 ') for _ in range(rng.randint(0, 3)))
                script.append(('strnrstr 0 %s %s' % (hexs(h), hexs(d)), str(0 if not d else h.rfind(d))))
            else:
                s = rng.choice([''.join(rng.choice(' \tab-z1') for _ in range(rng.randint(0, 9))), rng.choice(
                    ['on', 'Yes', 'TRUE', '1', 't', 'off', 'No', 'false', '0', 'F', '', 'onx', 'yes ', 'ye', 'none', 'nonesuch', 'a-b', 'a--b', 'a-', '-a', '9a', 'a9',
                     'Ab', 'a_b'])])
                t = rng.choice([' ', ' \t', 'ab', 'x', '-', ''])
                n = rng.choice([0, 1, 2, 5])
                script.append(('bytes 0 %s %s %d' % (hexs(s), hexs(t), n), self.bytes(s, t, n)))
                c.count('bytes')
        c.count('operations', len(script))
        self.execute(c, script)
        c.seen('functions', len(script))

    def text(self, s, a, b):
        walk = []
        i = n = 0
        for kind, t in uni.tokens(s):
            i += len(t)
            walk.append('%d:%d,' % (i, len(t) if kind == 'e' else 0))
            n += kind == 'e'
        invis = sum(len(t) for kind, t in uni.tokens(s) if kind == 'e')
        m = re.match(r'\x1b[\[(](0|10|39|49|59|75)?[\x40-\x7e]', s)
        at = min(a, len(s))
        out = [str(int(not s)), str(int(all(uni.is_blank(ch) for ch in s))), str(int(m is not None)), hexs(s[:at] + ' ' * b + s[at:]), hexs(' ' * b),
               hexb(s.encode()), hexs(s), ''.join(walk), '%d:%d' % (invis, n)]
        for ts in (1, 8):
            x = uni.expand_tabs(s, ts)
            pos = [str(uni.width(uni.expand_tabs(s[:i], ts))) for i in range(len(s)) if s[i] == '\t']
            out.append('%d/%s/%s' % (len(x), hexs(x), ','.join(pos)))
        return ' '.join(out)

    def bytes(self, s, t, n):
        k = 0
        while k < len(s) and s[len(s) - 1 - k] in t:
            k += 1
        w = s.rstrip('\n\r\t ')
        return ' '.join([hexs(s.strip(' \t')), hexs(s[:n]), hexs(s * n), hexs(s + t + s), hexs(' ' * n), str(k),
                         str(int(s.lower() in ('on', 'yes', 'true', '1', 't'))), str(int(s.lower() in ('off', 'no', 'false', '0', 'f'))),
                         str(int(ident(s, True))), str(len(w)), hexs(w)])

    # ---- execution ----

    def execute(self, c, script):
        stdin = ''.join(x[0] + '\n' for x in script).encode()
        rec = dict(args=['(bxs_driver)'], stdin=stdin, env=None, variant='asan', cwd=None)
        c.runs.append(rec)
        c.evals += 1
        e = dict(R.BASE_ENV)
        p = subprocess.run([self.driver], input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=120)
        res = R.Res()
        res.out, res.err, res.rc = p.stdout, p.stderr, p.returncode
        rec['res'] = res
        got = p.stdout.decode('ascii', 'replace').split('\n')
        san = R.san_key(p.stderr)
        for i, (line, want) in enumerate(script):
            op = line.split()[0]
            w = ' '.join((op + ' ' + want).split())
            g = ' '.join(got[i].split()) if i < len(got) else ''
            if san and (i >= len(got) - 1):
                raise Violation('operation %d, %s: sanitizer report: %s' % (i + 1, line[:200], san), key='san:' + san)
            if g != w:
                raise Violation('operation %d, %s: %s' % (i + 1, line[:300], self.explain(w, g)), key='op:' + op)
            c.count('records', g.count('|') // 9)
        if san or p.returncode or got[len(script)] != 'end':
            raise Violation('after the last operation: status %d, %s' % (p.returncode, san or p.stderr[:200]), key='san:end')

    def explain(self, w, g):
        a, b = w.split(), g.split()
        for i in range(max(len(a), len(b))):
            x, y = (a[i] if i < len(a) else '<nothing>'), (b[i] if i < len(b) else '<nothing>')
            if x != y:
                if x.count('|') == 9 and y.count('|') == 9:
                    for name, u, v in zip(FIELDS, x.split('|'), y.split('|')):
                        if u != v:
                            return 'field %s is %s, should be %s (text %s)' % (name, v, u, x.split('|')[0])
                return 'result %d is %s, should be %s' % (i, y[:300], x[:300])
        return 'no difference'


def ident(s, strict):
    rx = r'[a-z]([a-z0-9]|-(?=[a-z0-9]))*\Z' if strict else r'[A-Za-z]([A-Za-z0-9]|[-_](?=[A-Za-z0-9]))*\Z'
    return re.match(rx, s) is not None and s != 'none'
