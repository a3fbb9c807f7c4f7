"""C12: indentation modes."""
import re
from .. import harness, gen, model, stock, uni, hostile
from ..drawing import draw_and_compare, draw_args, out_lines, diff, expect
from ..harness import Violation
from .c11 import Check as C11


class Check(harness.Check):
    ID = 'C12'
    QUICK = 12000
    THOROUGH = 300000
    RULE = ('random design x indented text (common and relative indentation, tabs, blank lines, wide blanks) x indentation mode from '
            'option or design; drawn box compared with the layout model and with the box around the dedented text; drawn box '
            'removed again in every mode; replacement rules that change the indentation; non-trivial: text had a common indentation')
    NEEDS = dict(lines_compared=20000, box=800, text=800, none=800, removed=1800, blank_variation=500, ruled=400, deep=100, large=20, no_width=150)
    MIN_NONTRIVIAL = 0.3

    def case(self, c):
        rng = c.rng
        d = rng.choice(stock.usable()) if rng.random() < 0.2 else gen.design(rng, maxdim=2)
        pr = gen.Profile(maxlines=6, maxlen=20, indent=0.9, trail=0.2, tabs=0.15, blank=0.25)
        lines = gen.text_lines(rng, pr)
        o = gen.options(rng, align=0.2, pad=0.3, size=0.15, indent=0.6, tab=0.0)
        if rng.random() < 0.2:
            o.tab = rng.choice([2, 4, 5])
        if rng.random() < 0.12 and d not in stock.designs():
            return self.rules(c, rng, d, lines, o)
        if rng.random() < 0.01:
            lines = gen.enlarge(rng, lines)
            c.count('large')
        if rng.random() < 0.03:
            # no limit on the depth of the indentation (except by the length of a line)
            if rng.random() < 0.5:
                deep = ' ' * rng.randint(150, 5000)
            else:
                deep, o.tab = '\t' * rng.randint(100, 1500), 16
            lines = [deep + s for s in lines]
            c.count('deep')
        if rng.random() < 0.05:
            # a line without any width does not have an indentation
            lines.insert(rng.randrange(len(lines) + 1), rng.choice(['\u200b', '\u0301', '\u200d\u200d', '\u0308\u0301']))
            c.count('no_width')
        b, res = draw_and_compare(c, d, lines, o)
        if b is None:
            c.nontrivial = False
            return
        mode = b.mode
        c.count(mode)
        exp = [uni.expand_tabs(uni.rtrim_space(s), o.tab) for s in lines]
        inds = [uni.indent_of(s) for s in exp if uni.width(s)]
        indent = min(inds) if inds else 0
        c.nontrivial = indent > 0
        c.seen(mode, o.indent is None, d.indent, min(indent, 9), len(set(inds)) > 1, o.j)
        cfg = hostile.STOCK if d in stock.designs() else c.path('boxes.cfg')
        ded = [s[indent:] if uni.width(s) else s for s in exp]
        if mode != 'text':
            # the box is the one around the dedented text, shifted or not
            r2 = c.boxes(draw_args(cfg, d, o), '\n'.join(ded) + '\n')
            pre = ' ' * indent if mode == 'box' else ''
            want = [(pre + s).rstrip(' ') for s in out_lines(r2)]
            got = [s.rstrip(' ') for s in out_lines(res)]
            if want != got:
                raise Violation('mode %s: box around indented text is not the %sbox around dedented text: %s' %
                                (mode, 'shifted ' if pre else '', diff('\n'.join(want), '\n'.join(got))))
        # blank lines do not count
        if any(not s.strip() for s in lines) and any(s.strip() for s in lines):
            var = [s if s.strip() else ' ' * rng.randint(0, 3) for s in lines]
            r3 = c.boxes(draw_args(cfg, d, o), '\n'.join(var) + '\n')
            if r3.out != res.out:
                raise Violation('blanks in blank lines change the indentation: %s' %
                                diff(res.out.decode('utf-8', 'replace'), r3.out.decode('utf-8', 'replace')))
            c.count('blank_variation')
        self.removal(c, rng, d, cfg, lines, exp, indent)

    def rules(self, c, rng, d, lines, o):
        """the indentation that counts is that of the text as changed by replacement rules"""
        rs = [x for x in rng.sample(C11.INDENTS, rng.choice([1, 1, 2]))]
        d.reprules = [(None, pat, rep) for pat, rep, _ in rs]
        if rng.random() < 0.5:
            o.indent = rng.choice(['text', 'text', 'none', 'box'])

        def rewrite(s):
            for pat, _, fn in rs:
                s = re.sub(pat, fn, s, flags=re.ASCII)
            return s
        b, _ = draw_and_compare(c, d, lines, o, key='rules', what='rules %r' % d.reprules, rewrite=rewrite)
        c.nontrivial = b is not None
        if b:
            c.count('ruled')
            c.seen('rules', b.mode, len(rs), o.j)

    def removal(self, c, rng, d, cfg, lines, exp, indent):
        """a box with four visible sides, drawn in mode box, is removed with and without restoring the indentation"""
        sh = model.Shapes(d)
        if any(sh.empty.values()) or not all(any(x.strip() for x in sh.sh[k]) for k in sh.sh):
            return
        if any(uni.blank(x) for k in gen.WEST + gen.EAST if k in sh.sh for x in sh.sh[k]):
            return
        # text which cannot be confused with the border; no blank line at top or bottom
        txt = [' ' * uni.indent_of(s) + ''.join('w' if uni.cwidth(ch) and not uni.is_blank(ch) else '' if not uni.is_blank(ch) else ch
                                                for ch in s[uni.indent_of(s):]) for s in exp]
        txt = [s if s.strip() else '' for s in txt]
        while txt and not txt[0]:
            txt.pop(0)
        while txt and not txt[-1]:
            txt.pop()
        if not txt or any('w' in x for v in sh.sh.values() for x in v):
            return
        if any(x != x.strip() or ' ' in x for v in sh.sh.values() for x in v):
            return
        if max(map(len, txt)) > 5000:       # longer lines are split when they are read
            return
        o = gen.Opts()
        o.indent = 'box'
        r = c.boxes(draw_args(cfg, d, o), '\n'.join(txt) + '\n')
        inds = [uni.indent_of(s) for s in txt if s]
        common = min(inds)
        for m in ('box', 'text', 'none', None):
            a = ['--no-color', '-f', cfg, '-d', d.name, '-r'] + (['-i', m] if m else [])
            r2 = c.boxes(a, r.out)
            restored = m in ('box', None)
            want = [s if restored else s[common:] for s in txt]
            got = [s.rstrip() for s in out_lines(r2)]
            if got != [s.rstrip() for s in want]:
                raise Violation('removal with -i %s: %s' % (m, diff('\n'.join(want), '\n'.join(got))), key='removal')
            c.count('removed')
