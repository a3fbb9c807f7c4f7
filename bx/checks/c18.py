"""C18: parent configurations."""
import os
from .. import harness, gen, cfgtext, listing, drawing, model
from ..build import build_c
from ..harness import Violation
from . import c20

GLOBAL = '/usr/share/boxes'


def clone(d, **kw):
    e = gen.Design()
    e.__dict__.update(d.__dict__)
    e.__dict__.update(kw)
    return e


def taken_names(files):
    return {x.lower() for f in files for d in f.designs for x in [d.name] + d.aliases}


class File:
    def __init__(self, path):
        self.path = path          # as it is named in parent statements and on the command line
        self.designs = []
        self.parents = []         # in the order of the statements
        self.bad = False


class Check(harness.Check):
    ID = 'C18'
    QUICK = 8000
    THOROUGH = 120000
    RULE = ('random graphs of 1-6 configuration files (chains, diamonds, duplicates, cycles, self references, the global configuration, '
            'missing parents, files without designs) with clashing names and aliases; list, queries, details and drawings compared with '
            'the inherited set of designs computed from the graph; every file must be loaded once, every missing parent reported once; '
            'non-trivial: at least two files were loaded')
    NEEDS = dict(files_loaded=5000, overridden=800, alias_dropped=300, cycles=500, missing=300, drawings=1500, used_global=200)
    MIN_NONTRIVIAL = 0.6

    def prepare(self):
        self.shim = build_c('pathshim.so', 'csrc/pathshim.c', shared=True)

    def run(self, c, args, stdin=b''):
        env = {'LD_PRELOAD': self.shim, 'BXROOT': c.path('root'), 'HOME': c.path('nohome')}
        if args[0] == '-f' and getattr(c, 'via_env', False):
            env['BOXES'], args = args[1], args[2:]      # the other way to name the configuration
        return c.boxes(args, stdin, env=env)

    def known_alias(self, c):
        """a fixed history: the details of an inherited design"""
        p = c.cfg('BOX y, q\nsample\n y\nends\nshapes { w ("y") }\nelastic (w)\nEND y\n', 'p.cfg')
        f = c.cfg('parent %s\nBOX x, q\nsample\n x\nends\nshapes { w ("x") }\nelastic (w)\nEND x\n' % p, 'c.cfg')
        r = c.boxes(['-f', f, '-l', '-d', 'y'])
        if b'Alias Names:            q\n' in r.out:
            raise Violation('details of an inherited design show the alias that belongs to the child\'s design', key='alias-in-details')
        if b'Alias Names:            none\n' not in r.out:
            raise Violation('details of an inherited design: %r' % r.out[:300])

    def known_override(self, c):
        """a fixed history: an alias of an inherited design which is overridden by the child"""
        p = c.cfg('BOX x, q\nsample\n y\nends\nshapes { w ("y") }\nelastic (w)\nEND x\n', 'p.cfg')
        f = c.cfg('parent %s\nBOX x\nsample\n x\nends\nshapes { w ("x") }\nelastic (w)\nEND x\n' % p, 'c.cfg')
        r = c.boxes(['-f', f, '-q', '(all)'])
        if r.out != b'x\n':
            raise Violation('query of overridden design: %r' % r.out[:300])
        r = c.boxes(['-f', f, '-d', 'q'], 'a\n')
        if r.rc == 0 and r.out == b'ya\n':
            raise Violation('a design which is overridden by the child is used when called by an alias', key='overridden-by-alias')
        if r.rc != 1 or r.out or b'unknown box design -- q' not in r.err:
            raise Violation('alias of overridden design: status %d, %r %r' % (r.rc, r.out[:300], r.err[:300]))

    def case(self, c):
        if c.idx == 0:
            c.nontrivial = False
            return self.known_alias(c)
        if c.idx == 1:
            c.nontrivial = False
            return self.known_override(c)
        rng = c.rng
        c.via_env = rng.random() < 0.3
        n = rng.choice([1, 2, 2, 3, 4, 5, 6])
        rel = rng.random() < 0.3
        names = ['a.cfg', 'b.cfg', 'c', 'sub/d.cfg', 'e e.cfg', '\u00fc.cfg'][:n]
        files = [File(x if rel else c.path(x)) for x in names]
        # edges
        for i, f in enumerate(files):
            if i + 1 < n and rng.random() < 0.75:
                f.parents.append(files[i + 1])
            for _ in range(rng.choice([0, 0, 1, 2])):
                f.parents.append(rng.choice(files))
            rng.shuffle(f.parents)
        use_global = rng.random() < 0.2
        gfile = None
        if use_global:
            gfile = File(GLOBAL)
            for _ in range(rng.choice([1, 1, 2])):
                f = rng.choice(files)
                f.parents.insert(rng.randint(0, len(f.parents)), gfile)
            if rng.random() < 0.3:
                gfile.parents.append(rng.choice(files))
            files.append(gfile)
        order = self.order(files[0])
        depth = self.depth(files[0])
        # designs
        taken = set()
        nodes = [f for f in files if f in depth]
        by_depth = sorted(nodes, key=lambda f: depth[f])
        for f in by_depth:
            k = rng.choice([0, 1, 1, 2, 3])
            if f is files[0] and not f.parents:
                k = max(k, 1)
            if not k and not f.parents:
                k = 1
            above = [d for g in nodes if depth[g] < depth[f] for d in g.designs]
            own = set()
            for _ in range(k):
                d = c20.small(rng, taken, c20.POOL[:5])
                d.sample = ['%s from %d' % (d.name, files.index(f))]
                sym = rng.choice('#*+-|o%')
                d.shapes = {k2: [sym] for k2 in d.shapes}
                if above and rng.random() < 0.4:
                    x = rng.choice(above)
                    if x.name.lower() not in own:
                        d.name = cfgtext.anycase(rng, x.name)
                if above and rng.random() < 0.4:
                    al = [a for x in above for a in x.aliases if a.lower() not in own]
                    if al:
                        a = cfgtext.anycase(rng, rng.choice(al))
                        if a.lower() not in [d.name.lower()] + [b.lower() for b in d.aliases]:
                            d.aliases.insert(rng.randint(0, len(d.aliases)), a)
                if any(x in own for x in [d.name.lower()] + [a.lower() for a in d.aliases]):
                    continue
                # ties: a clash within one level (which includes the level's other files) is not what this is about
                level = {x for g in nodes if depth[g] == depth[f] for e in g.designs for x in [e.name.lower()] + [a.lower() for a in e.aliases]}
                if {d.name.lower(), *[a.lower() for a in d.aliases]} & level and rng.random() < 0.7:
                    continue
                own |= {d.name.lower(), *[a.lower() for a in d.aliases]}
                f.designs.append(d)
        for f in nodes:
            if not f.designs and not f.parents:     # nothing in it: not a valid configuration
                d = c20.small(rng, taken, c20.POOL[:5])
                while d.name.lower() in taken_names(files) or any(a.lower() in taken_names(files) for a in d.aliases):
                    d = c20.small(rng, taken, c20.POOL[:5])
                f.designs.append(d)
        missing = []
        for i, f in enumerate(files):
            w = cfgtext.Writer(rng, layout=rng.choice([0, 0, 0.4]), crlf=rng.random() < 0.1)
            items = [('d', d) for d in f.designs]
            pos = 0
            for p in f.parents:
                pos = rng.randint(pos, len(items)) if rng.random() < 0.5 else pos
                items.insert(pos, ('p', p))
                pos += 1
            if rng.random() < 0.1:
                m = rng.choice([c.path('missing%d' % i), c.path('emptydir'), ''])
                if m or f.designs:
                    items.insert(rng.randint(0, len(items)), ('m', m))
                    if f in order:
                        missing.append((f, m))
            for k, x in items:
                if k == 'd':
                    w.ws(True, line=True)
                    w.design(x)
                    w.put('\n')
                else:
                    w.put(rng.choice(['', '', '\n', '# c\n', '  ']) if k == 'p' else '')
                    w.kw('parent')
                    path = '   ' if x == '' else x if k == 'm' else (rng.choice([':global:', ':GLOBAL:']) if x is gfile else x.path)
                    w.put(rng.choice([' ', '  ', '\t']) + path + rng.choice(['', '', ' ', '\t']) + w.nl())
            text = w.text() or '# nothing\n'
            if f is gfile:
                c.write('root' + GLOBAL, text)
            else:
                c.write(names[i], text)
        os.makedirs(c.path('emptydir'), exist_ok=True)
        os.makedirs(c.path('root'), exist_ok=True)
        self.judge(c, rng, files, order, gfile, missing, taken)

    def order(self, first):
        """the files in the order in which they count"""
        out = [first]
        i = 0
        while i < len(out):
            for p in reversed(list(dict.fromkeys(out[i].parents))):
                if p not in out:
                    out.append(p)
            i += 1
        return out

    def depth(self, first):
        dist = {first: 0}
        todo = [first]
        while todo:
            f = todo.pop(0)
            for p in f.parents:
                if p not in dist:
                    dist[p] = dist[f] + 1
                    todo.append(p)
        return dist

    def judge(self, c, rng, files, order, gfile, missing, taken):
        total, where, origs = [], {}, []
        grey = set()
        for f in order:
            have = {d.name.lower() for d in total}
            al = {a.lower() for d in total for a in d.aliases}
            for d in f.designs:
                keep = [a for a in d.aliases if a.lower() not in al]
                c.count('alias_dropped', len(d.aliases) - len(keep))
                if d.name.lower() in have:
                    c.count('overridden')
                    grey |= {a.lower() for a in d.aliases}      # see known_override()
                    continue
                e = clone(d, aliases=keep)
                total.append(e)
                where[d.name] = f
                origs.append((e, d))
        c.nontrivial = len(order) > 1
        first = files[0]
        if self.cyclic(first):
            c.count('cycles')
        cfg = first.path
        r = self.run(c, ['-f', cfg, '-l'])
        err = r.err.decode('utf-8', 'replace')
        self.messages(c, err, missing)
        if not total:
            if r.rc != 1:
                raise Violation('no designs at all, but status %d' % r.rc)
            c.nontrivial = False
            return
        got = r.out.decode('utf-8', 'replace')
        want = listing.listing(total, cfg, [f.path for f in order[1:]])
        if r.rc or got != want:
            raise Violation('list: status %d: %s (%r)' % (r.rc, drawing.diff(want, got), err[:200]), key='list', want=want, got=got)
        c.count('files_loaded', len(order))
        if gfile in order:
            c.count('used_global')
        c.seen(len(order), len(total), len(missing), self.cyclic(first))
        r = self.run(c, ['-f', cfg, '-q', '(all)'])
        got, want = r.out.decode('utf-8', 'replace'), listing.query(total)
        if r.rc or got != want:
            raise Violation('query: %s' % drawing.diff(want, got), key='query')
        # access by every name
        for _ in range(3):
            e, d = rng.choice(origs)
            nm = rng.choice([e.name] + e.aliases)
            if nm.lower() in grey:
                continue
            owner = next(x for x in total if nm.lower() in [x.name.lower()] + [a.lower() for a in x.aliases])
            nm = cfgtext.anycase(rng, nm)
            r = self.run(c, ['-f', cfg, '-d', nm, '--no-color'], 'ab\nc\n')
            want = model.render(model.draw(owner, ['ab', 'c'], gen.Opts(), None), '\n', True)
            got = r.out.decode('utf-8', 'replace')
            if r.rc or got != want:
                raise Violation('drawing %s: status %d: %s %r' % (nm, r.rc, drawing.diff(want, got), r.err[:200]), key='drawing')
            c.count('drawings')
            r = self.run(c, ['-f', cfg, '-d', nm, '-l'])
            got = r.out.decode('utf-8', 'replace')
            f = where[owner.name]
            orig = next(x for y, x in origs if y is owner)
            ok = [listing.details(owner, f.path), listing.details(orig, f.path)]    # see known_alias()
            if r.rc or got not in ok:
                raise Violation('details of %s: %s' % (nm, drawing.diff(ok[0], got)), key='details')
        # the default design is the first one
        d0 = total[0]
        r = self.run(c, ['-f', cfg, '--no-color'], 'x\n')
        want = model.render(model.draw(d0, ['x'], gen.Opts(), None), '\n', True)
        got = r.out.decode('utf-8', 'replace')
        if r.rc or got != want:
            raise Violation('default design: status %d: %s %r' % (r.rc, drawing.diff(want, got), r.err[:200]), key='default')
        nm = cfgtext.ident(rng, taken)
        r = self.run(c, ['-f', cfg, '-d', nm], 'x\n')
        if r.rc != 1 or r.out or nm.encode() not in r.err:
            raise Violation('unknown design %s: status %d, %r %r' % (nm, r.rc, r.out[:100], r.err[-200:]), key='unknown')

    def cyclic(self, first):
        seen, stack = set(), []

        def walk(f):
            if f in stack:
                return True
            if f in seen:
                return False
            seen.add(f)
            stack.append(f)
            r = any(walk(p) for p in f.parents)
            stack.pop()
            return r
        return walk(first)

    def messages(self, c, err, missing):
        lines = [s for s in err.split('\n') if s.startswith('boxes: ') and ': line ' in s]
        for f, m in missing:
            mine = [s for s in lines if s.startswith('boxes: %s: line ' % f.path) and 'skipping' not in s and (m in s)]
            if len(mine) != 1:
                raise Violation('missing parent %r of %s was reported %d times: %r' % (m, f.path, len(mine), err[:300]), key='missing')
            c.count('missing')
        if not missing and lines:
            raise Violation('messages about correct files: %r' % err[:300], key='message')
