"""C21: listings."""
from .. import harness, gen, cfgtext, listing, stock, hostile, drawing, uni
from ..harness import Violation
from . import c17, c20

SAMPLES = c17.SAMPLES + [['\t+--+', '\t|  |  '], ['\x1b[31mred\x1b[0m', '\x1b[1mb'], ['x' * 200], ['/*', ' * x', ' */'] * 10, ['\u00a0x', '\u3000y'],
                         ['%s %d %n', '%'], ['e\u0301 \u200b.']]
CREDITS = c17.TEXTS + ['A', 'B', 'Joe', 'joe', '%s%s%s', 'x' * 120, '\u00e9', 'e\u0301']


class Check(harness.Check):
    ID = 'C21'
    QUICK = 9000
    THOROUGH = 120000
    RULE = ('configurations of 1-40 random designs (names differing in case order, many aliases, all combinations of credits, hostile '
            'samples, shared tags), or the shipped one, and their parents; complete list, details of every kind of design and both '
            'forms of the details compared with what the definitions say, in all line terminators; non-trivial: more than one design')
    NEEDS = dict(lists=2000, designs_listed=15000, details=3500, with_parents=300, tag_counts=4000)
    MIN_NONTRIVIAL = 0.6

    def case(self, c):
        rng = c.rng
        parents, texts = [], []
        eol = rng.choice([None, None, None, 'CRLF', 'CR', 'LF'])
        e = {'CRLF': '\r\n', 'CR': '\r'}.get(eol, '\n')
        color = rng.random() < 0.4
        extra = (['-e', eol] if eol else []) + (['--color'] if color else ['--no-color'] if rng.random() < 0.5 else [])
        if rng.random() < 0.03:
            cfg, ds, where = hostile.STOCK, stock.designs(), {}
        else:
            taken = set()
            n = rng.choice([1, 2, 3, 6, 12, 40])
            pool = rng.sample(c20.POOL, 6)
            ds = []
            for _ in range(n):
                if rng.random() < 0.5:
                    d = c17.make(rng, taken)
                else:
                    d = c20.small(rng, taken, pool)
                d.tags = rng.sample(pool, rng.choice([0, 0, 1, 2, 4]))
                d.sample = rng.choice(SAMPLES)
                d.author = rng.choice(CREDITS) if rng.random() < 0.6 else None
                d.designer = rng.choice(CREDITS) if rng.random() < 0.6 else None
                if rng.random() < 0.08:
                    k = rng.choice('we')
                    d.shapes = {k: [''.join(rng.choice('\\"\\"x') for _ in range(rng.choice([1, 5, 30, 60])))]}
                    d.elastic = [k]
                    d.sample = ['x']
                if d.author and rng.random() < 0.2:
                    d.designer = d.author
                ds.append(d)
            nf = rng.choice([1, 1, 1, 2, 3]) if n > 2 else 1
            cfg = c.path(rng.choice(['boxes.cfg', 'a b.cfg', '\u00fc.cfg', '\u6f22\u5b57.cfg']))
            files = [cfg] + [c.path('parent%d' % i) for i in range(1, nf)]
            parents = files[1:]
            where = {}
            parts = [[] for _ in files]
            for i, d in enumerate(ds):
                j = i if i < nf else rng.randrange(nf)
                parts[j].append(d)
                where[d.name] = files[j]
            for j, f in enumerate(files):
                w = cfgtext.Writer(rng, layout=rng.choice([0, 0, 0.5]), crlf=False)
                if j == 0:
                    for p in parents:
                        w.put('parent %s\n' % p)
                for d in parts[j]:
                    w.design(d)
                    w.put('\n')
                c.write(f, w.text())
        c.nontrivial = len(ds) > 1

        def clean(d):
            d.sample = [s.rstrip() if i == len(d.sample) - 1 else s for i, s in enumerate(d.sample)]
            return d
        for d in ds:
            clean(d)
        cl = (lambda s: s) if color else uni.strip_esc
        shown = []
        for d in ds:
            d2 = gen.Design()
            d2.__dict__.update(d.__dict__)
            d2.sample = [cl(s) for s in d.sample]
            shown.append(d2)
        r = c.boxes(['-f', cfg, '-l'] + extra)
        got = r.out.decode('utf-8', 'replace')
        # the order of the parents is not specified
        listed = [s[6:-len(' (parent)')] for s in got.split(e)[:len(parents) + 8] if s.endswith(' (parent)')]
        want = listing.listing(shown, cfg, listed if sorted(listed) == sorted(parents) else parents, e)
        if r.rc or r.err or got != want:
            raise Violation('list of designs: status %d %r: %s' % (r.rc, r.err[:200], drawing.diff(want.replace('\r', '\u240d'), got.replace('\r', '\u240d'))),
                            key='list', want=want, got=got)
        c.count('lists')
        c.count('designs_listed', len(ds))
        c.count('tag_counts', len({t for d in ds for t in d.tags}))
        if parents:
            c.count('with_parents')
        for d in rng.sample(shown, min(3, len(shown))):
            smp = rng.random() < 0.3
            nm = cfgtext.anycase(rng, rng.choice([d.name] + d.aliases))
            r = c.boxes(['-f', cfg] + rng.choice([['-l', '-d', nm], ['-d', nm, '-l'], ['--list', '--design', nm]]) + extra +
                        (['-x', '(undoc)'] if smp else []))
            want, got = listing.details(d, where.get(d.name, cfg), e, smp, color), r.out.decode('utf-8', 'replace')
            if r.rc or r.err or got != want:
                raise Violation('details of %s: status %d %r: %s' % (nm, r.rc, r.err[:200],
                                                                     drawing.diff(want.replace('\r', '\u240d'), got.replace('\r', '\u240d'))),
                                key='details', want=want, got=got)
            c.count('details')
            c.seen(bool(d.aliases), d.author is None, d.designer is None, d.indent, len(d.reprules), len(d.revrules), len(d.tags), eol)
