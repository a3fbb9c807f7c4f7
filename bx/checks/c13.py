"""C13: tabs."""
from .. import harness, gen, model, removal, stock, uni, hostile
from ..drawing import draw_and_compare, draw_args, out_lines, diff
from ..harness import Violation


def render(s, ts):
    return uni.expand_tabs(s, ts)


def leading(s):
    return s[:len(s) - len(s.lstrip(' \t'))]


class Check(harness.Check):
    ID = 'C13'
    QUICK = 6500
    THOROUGH = 200000
    RULE = ('text with tabs in every position (after blanks, wide characters, combining characters, escape sequences) x tab stop '
            'distance 1..16 x mode; output for expanded text, rendered output of all modes, shape of the indentation, and '
            'removal/mending; non-trivial: text contained a tab')
    NEEDS = dict(tabs_text=2000, unexpand=700, keep=700, removed=2000, kept_lines=1000, modes=1500, modes_tabs=500, wide_before_tab=100)
    MIN_NONTRIVIAL = 0.5

    def case(self, c):
        rng = c.rng
        d = rng.choice(stock.usable()) if rng.random() < 0.2 else gen.design(rng, maxdim=2)
        pr = gen.Profile(maxlines=5, maxlen=20, indent=0.8, trail=0.2, tabs=0.4, uni=0.3, wide=0.3, comb=0.2, esc=0.0)
        lines = gen.text_lines(rng, pr)
        ts = rng.choice([1, 2, 3, 4, 5, 7, 8, 8, 8, 16, rng.randint(1, 16)])
        o = gen.options(rng, align=0.2, pad=0.3, size=0.15, indent=0.4)
        o.tab = ts
        if rng.random() < 0.3:
            lines = self.deep_tabs(rng, lines)
        c.nontrivial = any('\t' in s for s in lines)
        if c.nontrivial:
            c.count('tabs_text')
        if any('\t' in s and uni.width(s[:s.rindex('\t')].replace('\t', '')) != len(s[:s.rindex('\t')].replace('\t', ''))
               for s in lines):
            c.count('wide_before_tab')
        b, res = draw_and_compare(c, d, lines, o)
        if b is None:
            c.nontrivial = False
            return
        cfg = hostile.STOCK if d in stock.designs() else c.path('boxes.cfg')
        text = '\n'.join(lines) + '\n'
        plain = '\n'.join(uni.expand_tabs(s, ts) for s in lines) + '\n'
        ref = res.out.decode('utf-8', 'replace')
        r2 = c.boxes(draw_args(cfg, d, o), plain)
        if r2.out != res.out:
            raise Violation('text with tabs is drawn differently from expanded text: %s' %
                            diff(r2.out.decode('utf-8', 'replace'), ref))
        if '\t' in ref:
            raise Violation('tab in expanded output')
        for m in 'uk':
            o.tabexp = m
            b3, r3 = draw_and_compare(c, d, lines, o, what='tab mode ' + m)
            got = r3.out.decode('utf-8', 'replace').split('\n')
            # a blank line may keep its indentation, so compare what is visible
            vis = [render(s, ts).rstrip(' ') for s in got]
            want = [s.rstrip(' ') for s in ref.split('\n')]
            if vis != want:
                raise Violation('tab mode %s: rendered output differs: %s' % (m, diff('\n'.join(want), '\n'.join(vis))))
            c.count({'u': 'unexpand', 'k': 'keep'}[m])
            if b3.mode != 'box' and any('\t' in s for s in got):
                raise Violation('tab mode %s: tab inside of the box' % m)
            for s in got[:-1]:
                t = s.lstrip('\t ')
                lead = s[:len(s) - len(t)]
                if m == 'u' and b3.mode == 'box':
                    n = b3.indent
                    if not s.startswith('\t' * (n // ts) + ' ' * (n % ts)) and t:
                        raise Violation('indentation of %d columns is not made of as many tabs as possible: %r' % (n, lead))
                    if '\t' in s[n // ts:]:
                        raise Violation('tab after the indentation: %r' % s)
        o.tabexp = 'e'
        c.seen(ts, b.mode, d.name, min(b.indent, 17))
        self.removal(c, rng, lines, ts)
        self.modes(c, rng, d, cfg, o, lines, ts)

    def modes(self, c, rng, d, cfg, o, lines, ts):
        """removal and mending of any box in all tab modes render the same"""
        o.tabexp = rng.choice('euk')
        used = removal.alphabet(d)
        lines = [''.join(ch for ch in s if ch not in used) for s in lines]
        r = c.boxes(draw_args(cfg, d, o), '\n'.join(lines) + '\n')
        if r.rc or r.err:
            return
        args = ['-f', cfg, rng.choice(['-r', '-r', '-m'])] + ([] if rng.random() < 0.1 else ['-d', d.name])
        if '-m' in args:
            o.tab, o.tabexp = 8, 'e'
            args += o.args()
        elif rng.random() < 0.3:
            args += ['-k', rng.choice(['yes', 'no'])]
        base = None
        for m in 'euk':
            q = c.boxes(args + ['-t', '%d%s' % (ts, m)], r.out)
            got = (q.rc, q.err, [render(x, ts).rstrip(' ') for x in q.out.decode('utf-8', 'replace').split('\n')])
            if m == 'e':
                base = got
                if b'\t' in q.out:
                    raise Violation('tab in expanded output of %s' % ' '.join(args[2:]), key='modes')
            elif got != base:
                raise Violation('%s with tab mode %s: status %d/%d, rendered output differs: %s' % (' '.join(args[2:]), m, q.rc, base[0],
                                                                                               diff('\n'.join(base[2]), '\n'.join(got[2]))), key='modes')
        c.count('modes')
        if '\t' in ''.join(lines):
            c.count('modes_tabs')

    def deep_tabs(self, rng, lines):
        if rng.random() < 0.05:
            n = rng.choice(['\t', ' ', '\t ']) * rng.randint(30, 400)
            return [n + s if s.strip() else s for s in lines]
        n = rng.choice(['\t\t', '\t\t\t', ' \t\t', '  \t \t', '\t  \t', '\t\t  '])
        return [n + s if s.strip() else s for s in lines]

    def removal(self, c, rng, lines, ts):
        """indented boxes: removal in all tab modes renders the same"""
        d = gen.Design()
        d.name = 'rm'
        d.shapes = dict(nw=['{+'], n=['-'], ne=['+}'], e=['|}'], se=['+}'], s=['-'], sw=['{+'], w=['{|'])
        d.elastic = ['n', 'e', 's', 'w']
        cfg = c.cfg(gen.config_of(d), 'rm.cfg')
        txt = [uni.expand_tabs(s, ts) for s in lines]
        txt = [''.join(ch if uni.is_blank(ch) else 'w' for ch in s if uni.cwidth(ch)) for s in txt]
        if not any(s.strip() for s in txt):
            return
        while not txt[0].strip():
            txt.pop(0)
        while not txt[-1].strip():
            txt.pop()
        box = c.boxes(['-f', cfg, '-d', 'rm', '-p', 'h%d' % rng.randint(0, 2)], '\n'.join(txt) + '\n').out.decode().split('\n')
        # somebody retabs the file
        ret = []
        for s in box:
            n = len(s) - len(s.lstrip(' '))
            ret.append(rng.choice(['\t' * (n // ts) + ' ' * (n % ts), ' ' * n]) + s[n:])
        data = '\n'.join(ret)
        outs = {}
        for m in 'euk':
            r = c.boxes(['-f', cfg, '-d', 'rm', '-r', '-t', '%d%s' % (ts, m)], data)
            outs[m] = r.out.decode()
            vis = [render(s, ts).rstrip() for s in outs[m].split('\n')]
            want = [s.rstrip() for s in txt] + ['']
            if m == 'e' and '\t' in outs[m]:
                raise Violation('tab in expanded output on removal')
            if [s.lstrip() for s in vis] != [s.lstrip() for s in want]:
                raise Violation('removal with tab mode %s: %s' % (m, diff('\n'.join(want), '\n'.join(vis))), key='remove')
            if m == 'e':
                base = vis
            elif vis != base:
                raise Violation('removal with tab mode %s renders differently: %s' % (m, diff('\n'.join(base), '\n'.join(vis))),
                                key='remove')
            if m == 'k':
                for i, s in enumerate(outs[m].split('\n')[:-1]):
                    lead = leading(ret[i + 1])
                    if s.strip() and not s.startswith(lead):
                        raise Violation('removal with tab mode k: indentation %r of line %d became %r' % (lead, i, leading(s)), key='remove-keep')
                    c.count('kept_lines')
            if m == 'u':
                for s in outs[m].split('\n'):
                    lead = s[:len(s) - len(s.lstrip(' \t'))]
                    if ' \t' in lead or ' ' * ts in lead:
                        raise Violation('indentation not made of as many tabs as possible on removal: %r' % lead)
            c.count('removed')
