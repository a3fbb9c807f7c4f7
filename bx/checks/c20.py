"""C20: tag queries."""
from .. import harness, gen, cfgtext, listing, stock, hostile, drawing
from ..harness import Violation

POOL = ['a', 'b', 'c', 'comment', 'comm', 'c-lang', 'c-langs', 'big', 'x1', 'x-1', 'lang', 'programming', 'nonesuch', 'none-a']
INVALID = ['INVALID', 'Comment', '1a', 'a--b', 'a-', 'none', 'a b', 'a_b', '\u00e4', '++a', '--a', '+-a', '+', '-', '(none)', '()', '(all', '*', 'a;b', 'a.b',
           '+ ', 'a+', '(ALL)']


def small(rng, taken, tags):
    d = gen.Design()
    k = rng.choice(['w', 'n', 's', 'e'])
    d.shapes = {k: ['#']}
    d.elastic = [k]
    n = rng.choice([0, 0, 0, 1, 2, 3, rng.choice([5, 12, 40])])
    ids = []
    for _ in range(n + 1):
        ids.append(cfgtext.ident(rng, taken, rng.choice([2, 4, 10])))
        taken.add(ids[-1].lower())
    d.name, d.aliases = ids[0], ids[1:]
    d.tags = rng.sample(tags, rng.choice([0, 1, 1, 2, 3, min(5, len(tags))]))
    return d


BLANKS = ['', '', '', '', '', '', '', ' ', '  ', '\t', '\t ', ' \t']


class Check(harness.Check):
    ID = 'C20'
    QUICK = 4000
    THOROUGH = 60000
    RULE = ('configurations of 1-25 designs with random names, aliases and tags (or the shipped configuration) x tag queries of 1-5 '
            'terms with all prefixes, white space and empty terms; complete output compared with the set of matching designs computed '
            'from the definitions; malformed queries must be rejected; non-trivial: a query selects some but not all designs')
    NEEDS = dict(queries=15000, selected=5000, rejected=1000, plus=1000, minus=1000, plain=1000, minus_only=300)
    MIN_NONTRIVIAL = 0.6

    def case(self, c):
        rng = c.rng
        if rng.random() < 0.12:
            cfg, ds = hostile.STOCK, stock.designs()
            pool = sorted({t for d in ds for t in d.tags})
            pool = rng.sample(pool, min(len(pool), 8))
        else:
            pool = rng.sample(POOL, rng.randint(3, 8))
            taken = set()
            ds = [small(rng, taken, pool) for _ in range(rng.choice([1, 3, 8, 25]))]
            w = cfgtext.Writer(rng, layout=rng.choice([0, 0, 0.5]))
            for d in ds:
                w.design(d)
                w.put('\n')
            cfg = c.cfg(w.text())
        c.nontrivial = False
        for _ in range(8):
            self.query(c, rng, cfg, ds, pool + ['nosuchtag'])
        self.malformed(c, rng, cfg, pool)

    def query(self, c, rng, cfg, ds, pool):
        eol = rng.choice([None, None, None, 'CRLF', 'CR', 'LF'])
        e = {'CRLF': '\r\n', 'CR': '\r'}.get(eol, '\n')
        if rng.random() < 0.1:
            q, arg = None, '(all)'
        else:
            tags = rng.sample(pool, min(len(pool), rng.choice([1, 1, 2, 2, 3, 4, 5])))
            signs = rng.choice(['', '', '+', '-', '+-', '+ -', ' -', '+ '])
            q = [(rng.choice(signs).strip() if signs else '', t) for t in tags]
            if rng.random() < 0.1:
                q.insert(rng.randint(0, len(q)), ('', '(all)'))
            terms = []
            for s, t in q:
                terms.append(rng.choice(BLANKS) + s + t + rng.choice(BLANKS))
                if rng.random() < 0.05:
                    terms.insert(rng.randint(0, len(terms)), rng.choice(['', ' ', '\t']))
            arg = ','.join(terms)
        form = rng.choice([['-q', arg], ['--tag-query', arg], ['--tag-query=' + arg], ['-q' + arg]])
        args = ['-f', cfg] + form + (['-e', eol] if eol else [])
        r = c.boxes(args)
        want = listing.query(ds, q, e)
        got = r.out.decode('utf-8', 'replace')
        if r.rc or r.err or got != want:
            raise Violation('query %r: status %d %r: %s' % (arg, r.rc, r.err[:200], drawing.diff(want, got)), want=want, got=got)
        n = len([d for d in ds if q is None or listing.matches(d, q)])
        c.count('queries')
        c.count('selected', n)
        if 0 < n < len(ds):
            c.nontrivial = True
        if q:
            ss = {s for s, _ in q}
            for s, nm in (('+', 'plus'), ('-', 'minus'), ('', 'plain')):
                if s in ss:
                    c.count(nm)
            if ss == {'-'}:
                c.count('minus_only')
            c.seen(''.join(sorted(s or 'p' for s, _ in q)), min(n, 5), n == len(ds))

    def malformed(self, c, rng, cfg, pool):
        k = rng.random()
        good = [rng.choice(['', '+', '-']) + t for t in rng.sample(pool, rng.randint(0, 2))]
        if k < 0.2:
            arg = rng.choice(['', ',', ',,', ' ', ' , ,'])
        elif k < 0.5:
            t = rng.choice(pool + ['(all)'])
            s = rng.choice(['', '+', '-']) if t != '(all)' else ''
            s2 = rng.choice(['', '+', '-']) if t != '(all)' else ''
            terms = [g for g in good if g.lstrip('+-') != t] + [s + t]
            rng.shuffle(terms)
            arg = ','.join(terms + [s2 + t])
        else:
            terms = good + [rng.choice(INVALID)]
            rng.shuffle(terms)
            arg = ','.join(terms)
        r = c.boxes(['-f', cfg, '-q', arg])
        if r.rc != 1 or r.out or not r.err:
            raise Violation('malformed query %r: status %d, output %r, message %r' % (arg, r.rc, r.out[:100], r.err[:100]), key='malformed')
        c.count('rejected')
