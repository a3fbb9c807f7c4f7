"""C17: configuration files - good designs are taken as written, bad ones are reported and skipped."""
import re
from .. import harness, gen, model, uni, cfgtext, listing, drawing
from ..harness import Violation

TEXTS = ['Joe Doe <joe@example.com>', 'a', "O'Reilly \"Bob\" \\ backslash", 'J\u00f6rg M\u00fcller', '\u5c71\u7530', 'x # not a comment', '100%',
         'END', '%s%n', 'a|b;c:d=e~f', ' lead and trail ', "''", '`']
SAMPLES = [['    sample'], ['  +----+', '  | hi |', '  +----+'], ['a', '', '   ', 'b'], ['my friends', ' weekends', 'x'], ['ends here'],
           ['END x', 'SHAPES {'], ['# not a comment'], ['"unbalanced', "'"], ['  \u250c\u2500\u2510', '  \u2514\u2500\u2518'], ['  x  ', 'y'],
           ['endsx', ' ends .'], ['\\n'], ['\tx'], ['    x   ', '   \u6f22']]
TAGS = ['comment', 'programming', 'c', 'c-lang', 'x1', 'big', 'shell', 'art', 'a-b-c', 'q']
RULES = [('\u00a7', 'x'), ('\u00a7(a)', '${1}\\\\'), ('\u00a7"', "'"), ('\u00a7\\\\', '/'), ('\u00a7[0-9]+', ''), ('\u00a7 \t', ' ')]


def make(rng, taken, rules=True):
    d = gen.design(rng, maxdim=2, color=0.1)
    if rng.random() < 0.3:
        for k, v in d.shapes.items():            # delimiters and escape characters in shapes
            d.shapes[k] = [''.join(rng.choice('"\\\'~`=;%|#/.') if ch != ' ' and ch.isascii() and '\x1b' not in s and rng.random() < 0.4
                                   else ch for ch in s) for s in v]
    n = rng.choice([0, 0, 1, 2])
    ids = []
    for _ in range(n + 1):
        ids.append(cfgtext.ident(rng, taken))
        taken.add(ids[-1].lower())
    d.name, d.aliases = ids[0], ids[1:]
    if rng.random() < 0.5:
        d.author = rng.choice(TEXTS)
    if rng.random() < 0.5:
        d.designer = rng.choice(TEXTS)
    d.tags = rng.sample(TAGS, rng.choice([0, 0, 1, 2, 3]))
    d.sample = rng.choice(SAMPLES)
    if rules:
        d.reprules = [(rng.choice([None, 'global', 'once']),) + rng.choice(RULES) for _ in range(rng.choice([0, 0, 1, 2]))]
        d.revrules = [(rng.choice([None, 'global', 'once']),) + rng.choice(RULES) for _ in range(rng.choice([0, 0, 1, 2]))]
    return d


BAD_SHAPES = [  # shapes, elastic
    ([('nw', ['+']), ('n', ['-', '-']), ('ne', ['+'])], ['n']),
    ([('nw', ['+']), ('w', ['||']), ('sw', ['+'])], ['w']),
    ([('se', ['+']), ('e', ['|']), ('ese', ['||'])], ['e']),
    ([('ssw', ['-', '-']), ('s', ['-'])], ['s']),
    ([('n', ['-', '--'])], ['n']),
    ([('w', ['ab', 'a\u6f22'])], ['w']),
    ([('n', ['-']), ('nw', ['+'])], ['n', 'nw']),
    ([('w', ['|'])], ['w', 'wsw']),
    ([('w', ['|'])], ['w', 'e', 'ene']),
    ([('w', ['|']), ('wsw', ['#'])], ['w', 'wsw']),
    ([('nnw', ['a']), ('n', ['b']), ('nne', ['c'])], ['nnw', 'n', 'nne']),
    ([('nnw', ['a']), ('n', ['b']), ('nne', ['c'])], ['nne', 'n']),
    ([('w', ['|']), ('e', ['|'])], ['w']),
    ([('w', ['|']), ('w', ['|'])], ['w']),
    ([('n', [''])], ['n']),
    ([('n', ['-', ''])], ['n']),
    ([('n', ['\x01'])], ['n']),
    ([('w', ['|\x7f'])], ['w']),
    ([('n', [])], ['n']),
    ([], ['n']),
    ([('w', ['|'])], []),
]


def mangle(rng, d):
    """(shapes, elastic, description) of the design with one rule about its sides broken, or None"""
    shapes = {k: list(v) for k, v in d.shapes.items()}
    el = list(d.elastic)
    side = rng.choice(gen.SIDES)
    mid = side[1:4]
    have = [m for m in mid if m in shapes]
    k = rng.choice(['corner', 'undefined', 'none', 'adjoin', 'adjoin', 'size', 'size', 'line'])
    if not have:
        return None
    if k == 'corner':
        corners = [x for x in gen.SHAPES[::4] if x in shapes]
        if not corners:
            return None
        el.append(rng.choice(corners))
    elif k == 'undefined':
        none = [m for m in mid if m not in shapes]
        if not none:
            return None
        el.append(rng.choice(none))
    elif k == 'none':
        el = [x for x in el if x not in mid]
    elif k == 'adjoin':
        if not any(x in el for x in have):
            return None
        form = rng.choice(['110', '101', '011', '112', '211', '111'])     # 1: elastic, 2: not elastic, 0: undefined
        src = shapes[have[0]]
        el = [x for x in el if x not in mid]
        for m, f in zip(mid, form):
            shapes.pop(m, None)
            if f != '0':
                shapes[m] = list(src)
            if f == '1':
                el.append(m)
        k += form
    else:
        there = [m for m in side if m in shapes]
        if len(there) < 2 or k == 'line':
            m = rng.choice(list(shapes))
            if len(shapes[m]) < 2:
                return None
            i = rng.randrange(len(shapes[m]))
            shapes[m][i] += rng.choice([' ', 'x', '\u6f22'])
            k = 'line'
        else:
            m = rng.choice(there)
            if side in (gen.NORTH, gen.SOUTH):
                if len(shapes[m]) > 1 and rng.random() < 0.5:
                    shapes[m].pop()
                else:
                    shapes[m].append(shapes[m][-1])
            else:
                shapes[m] = [x + ' ' for x in shapes[m]]
    return list(shapes.items()), el, k


JUNK = [')', '$', '[', '17', 'foo bar', 'author', 'author author', 'replace "a" to "b"', 'reverse "a" with "b"', 'replace once "a"',
        'replace twice "a" with "b"', 'padding { left }', 'padding { 3 }', 'padding left 3', 'padding { all x }', 'padding { }', 'indent "boxy"',
        'indent ""', 'indent', 'tags', 'tags ()', 'tags ("a" "b")', 'elastic (foo)', 'shapes { foo ("x") }', 'delim x ', 'delim "" ', 'delim \\x ',
        'delim abc ', 'author "unterminated\n', 'foo "unterminated \\"\n', "author 'wrong delimiter'", 'to', 'with "x"', 'once', '"string"', 'author "a\x01b"',
        'designer "\x7f"', 'sample\n\nends\n', 'sample\n   \t\nends\n', 'sample\n a\x02b\nends\n', '\u00e4', 'replace ( "a" ) with "b"',
        'created 2001', 'author = "x"', 'author "a", "b"']


def wrong_area(rng):
    """a word that is nearly the name of a padding area"""
    a = rng.choice(['all', 'horizontal', 'vertical', 'top', 'bottom', 'left', 'right'])
    n = rng.randint(1, len(a))
    return a[:n] + rng.choice('jkqyxw') + rng.choice(['', 'a', a[n:], a[n + 1:]])


class Check(harness.Check):
    ID = 'C17'
    QUICK = 11000
    THOROUGH = 120000
    RULE = ('1-4 random designs written in random layout (white space, comments, letter case, order of entries, delimiters, escapes, '
            'alternative forms) with ill-formed designs of 60 kinds in between; details of every design, the list, the query of all '
            'designs and a drawing compared with what was written; every complaint must name file and line of an ill-formed design '
            'and every ill-formed design must be complained about')
    NEEDS = dict(details=4000, ill_formed=1500, mangled=500, listings=1500, drawings=1200, reports_checked=1500, mixed_tags=150)
    MIN_NONTRIVIAL = 0.9

    def bad(self, c, rng, w, good, taken):
        """writes an ill-formed design; returns a description of what is wrong"""
        d = make(rng, taken, rules=False)
        k = rng.choice(['shapes', 'shapes', 'junk', 'junk', 'junk', 'dup', 'missing', 'end', 'head', 'name'])
        es = w.entries(d)
        head = end = None
        std = len(es)
        if k == 'shapes':
            i = rng.randrange(len(BAD_SHAPES))
            shapes, elastic = BAD_SHAPES[i]
            x = mangle(rng, d) if rng.random() < 0.6 else None
            if x:
                shapes, elastic, i = x
                c.count('mangled')
            es = [[w.entry_sample(d.sample)], [w.entry_shapes(shapes)], [w.entry_elastic(elastic)]]
            if rng.random() < 0.3:
                es.append([w.entry_string('author', 'x')])
            # the order of items is significant for what is reported, not for whether
            what = 'shapes %s' % i
        elif k == 'junk':
            j = rng.choice(JUNK)
            esc = ('\\', '"')

            def f():
                if (w.esc, w.delim) != esc:
                    w.put('delim \\" ')
                    w.esc, w.delim = esc
                w.put(j)
            es.append([f])
            what = 'junk:' + j.split('\n')[0]
        elif k == 'dup':
            if rng.random() < 0.5:
                es.append([w.entry_sample(['again'])])
                what = 'second sample'
            else:
                n = next(iter(d.shapes))
                es = [e for e in es]
                es.append([w.entry_shapes(list(d.shapes.items()) + [(n, d.shapes[n])])])
                es = [[w.entry_sample(d.sample)], es[-1], [w.entry_elastic(d.elastic)]]
                what = 'second %s' % 'shape'
        elif k == 'missing':
            m = rng.choice(['sample', 'shapes', 'elastic', 'all'])
            es = []
            if m not in ('sample', 'all'):
                es.append([w.entry_sample(d.sample)])
            if m not in ('shapes', 'all'):
                es.append([w.entry_shapes(list(d.shapes.items()))])
            if m not in ('elastic', 'all'):
                es.append([w.entry_elastic(d.elastic)])
            es.append([w.entry_string('author', 'x')])
            what = 'missing ' + m
        elif k == 'end':
            end = d.name + rng.choice(['x', '-', '_1'])
            what = 'other name at end'
        elif k == 'head':
            head = rng.choice([d.name + ',', d.name + ' ' + d.name, '\u00e4' + d.name, d.name + '\u00df', '"%s"' % d.name, '42', d.name + ', 5', ', ' + d.name,
                               d.name + ',,x', '-x'])
            what = 'head'
        else:
            names = [n for g in good for n in [g.name] + g.aliases]
            if not names:
                end = d.name + 'y'
                what = 'other name at end'
            else:
                n = cfgtext.anycase(rng, rng.choice(names))
                if rng.random() < 0.5:
                    d.name, d.aliases = n, []
                    what = 'duplicate name'
                else:
                    head = d.name + ', ' + n
                    what = 'duplicate alias'
        w.design(d, es, end, head)
        return what

    def case(self, c):
        rng = c.rng
        w = cfgtext.Writer(rng)
        taken = set()
        good, bads, warned = [], [], []
        if rng.random() < 0.05:
            w.put('\ufeff')
        n = rng.randint(1, 4)
        with_bad = rng.random() < 0.6
        plan = ['g'] * n + ['b'] * (rng.randint(1, 3) if with_bad else 0)
        rng.shuffle(plan)
        starts = []
        for p in plan:
            w.ws(True, line=True)
            starts.append(w.lineno())
            if p == 'g':
                d = make(rng, taken)
                es = None
                if rng.random() < 0.1:
                    # something that is tolerated with a message
                    mixed = rng.random() < 0.5
                    if mixed:
                        d.tags = []
                    es = w.entries(d)
                    if mixed:
                        # the other tags of the list are accepted
                        ok = rng.sample(TAGS, rng.randint(1, 3))
                        d.tags = list(ok)
                        for _ in range(rng.randint(1, 2)):
                            bad = rng.choice(['NotATag', 'none', 'a--b', 'x-', '-x', 'a b', '\u00e4', '9x', ''] + ok)
                            ok.insert(rng.randint(ok.index(bad) + 1 if bad in ok else 0, len(ok)), bad)
                        c.count('mixed_tags')
                    es.append([w.entry_tags(ok) if mixed else rng.choice([w.entry_tags(['NotATag!']), w.entry_tags(['none']), w.entry_tags(['a--b']),
                                           w.entry_padding([('left', '-1')]), w.entry_padding([('foo', '3')]),
                                           w.entry_padding([(wrong_area(rng), '3')]), w.entry_padding([(wrong_area(rng), '4')])])])
                    warned.append(len(starts) - 1)
                w.design(d, es)
                good.append(d)
            else:
                bads.append((len(starts) - 1, self.bad(c, rng, w, good, taken)))
        if rng.random() < 0.7:
            w.ws(True, line=True)
        text = w.text()
        nlines = text.count('\n') + 1
        cfg = c.cfg(text, rng.choice(['boxes.cfg', 'my boxes.cfg', 'cfg']))
        what = '+'.join(x for _, x in bads) or 'well-formed'
        for _, x in bads:
            c.count('ill_formed')
            c.seen('bad', x)
        # the list of all designs
        r = c.boxes(['-f', cfg, '-l'])
        self.reports(c, r, cfg, starts, nlines, bads, warned, what)
        if r.rc != 0:
            raise Violation('%s: -l ended with status %d' % (what, r.rc), key='status')
        got, want = r.out.decode('utf-8', 'replace'), listing.listing(good, cfg)
        if got != want:
            raise Violation('%s: list of designs: %s' % (what, drawing.diff(want, got)), key='list', want=want, got=got)
        c.count('listings')
        r = c.boxes(['-f', cfg, '-q', '(all)'])
        got, want = r.out.decode('utf-8', 'replace'), listing.query(good)
        if got != want or r.rc:
            raise Violation('%s: query of all designs: %s' % (what, drawing.diff(want, got)), key='query')
        for d in good:
            nm = cfgtext.anycase(rng, rng.choice([d.name] + d.aliases))
            smp = rng.random() < 0.2
            col = rng.random() < 0.5
            r = c.boxes(['-f', cfg, '-l', '-d', nm] + (['-x', '(undoc)'] if smp else []) + (['--color'] if col else []))
            got = r.out.decode('utf-8', 'replace')
            want = listing.details(d, cfg, sample=smp, color=col)
            if r.rc or got != want:
                raise Violation('%s: details of %s: status %d: %s' % (what, nm, r.rc, drawing.diff(want, got)), key='details', want=want, got=got)
            if r.err and not bads and not warned:
                raise Violation('message about a well-formed configuration: %r' % r.err[:300], key='message')
            c.count('details')
        # a drawing
        d = rng.choice(good)
        nm = rng.choice([d.name] + d.aliases)
        args = ['-f', cfg, '--no-color', '-d', nm]
        if rng.random() < 0.3:
            d = good[0]                 # the default is the first one
            args = ['-f', cfg, '--no-color']
        lines = gen.text_lines(rng, gen.Profile(maxlines=4, maxlen=12, punct=0))
        lines = [s.replace('\u00a7', 's') for s in lines]
        r = c.boxes(args, '\n'.join(lines) + '\n')
        try:
            o = gen.Opts()
            b = model.draw(d, [uni.strip_esc(s) for s in lines], o, None)
        except model.Unreachable:
            return
        if any('\x1b' in s for v in d.shapes.values() for s in v):
            return
        want = model.render(b, '\n', True)
        got = r.out.decode('utf-8', 'replace')
        if r.rc or want != got:
            raise Violation('%s: drawing %s: status %d: %s %r' % (what, nm, r.rc, drawing.diff(want, got), r.err[:200]), key='drawing')
        c.count('drawings')

    def reports(self, c, r, cfg, starts, nlines, bads, warned, what):
        err = r.err.decode('utf-8', 'replace')
        rx = re.compile(re.escape('boxes: %s: line ' % cfg) + r'(\d+): .+')
        nums = []
        for s in err.split('\n'):
            if not s:
                continue
            m = rx.match(s)
            if not m:
                if not bads and not warned:
                    raise Violation('message about a well-formed configuration: %r' % s[:200], key='message')
                continue
            nums.append(int(m.group(1)))
        ranges = {}
        for i, _ in list(bads) + [(x, 'w') for x in warned]:
            ranges[i] = (starts[i], starts[i + 1] if i + 1 < len(starts) else nlines)
        for n in nums:
            if not any(a <= n <= b for a, b in ranges.values()):
                raise Violation('%s: message about line %d, where nothing is wrong: %r' % (what, n, err[:300]), key='line')
        for i, x in list(bads) + [(x, 'tolerated') for x in warned]:
            a, b = ranges[i]
            if not any(a <= n <= b for n in nums):
                raise Violation('ill-formed design (%s) in lines %d-%d was not reported: %r' % (x, a, b, err[:300]), key='unreported')
            c.count('reports_checked')
