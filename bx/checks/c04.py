"""C04: straight edges - measured on the output alone."""
from .. import harness, gen, hostile, model, stock, uni
from ..drawing import draw_args, out_lines, show
from ..harness import Violation

WIDE_TEXT = 'ab \u6f22\u5b57\uff21\U0001F600\u0301\u0308\u200b\u200d\u20d7\u05d0\u0e01\u0e34\uac00\u1100\u1161\u2500\u2588\u00e4\ufe0f'



def nozero(s):
    """without zero-width characters, which cannot be attributed to a column at the seam of two strings"""
    return ''.join(ch for ch in s if uni.cwidth(ch))


class Check(harness.Check):
    ID = 'C04'
    QUICK = 24000
    THOROUGH = 600000
    RULE = ('random and stock designs x text with double-width, zero-width and combining characters and colours x all layout '
            'options; every output line is cut at the display columns where the design\'s sides must be, and each cut must be a '
            'line of a shape of that side; non-trivial: a box with a visible left or right side was drawn')
    NEEDS = dict(edges=60000, wide=500, escapes=300)
    MIN_NONTRIVIAL = 0.4

    def case(self, c):
        rng = c.rng
        st = rng.random() < 0.25
        color = rng.random() < 0.2
        d = rng.choice(stock.usable()) if st else gen.design(rng, maxdim=3, color=0.5 if color else 0)
        if rng.random() < 0.3:
            lines = [''.join(rng.choice(WIDE_TEXT) for _ in range(rng.randint(0, 30))) for _ in range(rng.randint(1, 6))]
            lines = [s if not s.strip() or uni.width(s[0]) else 'x' + s for s in lines]
        else:
            pr = gen.Profile(uni=0.5, wide=0.4, comb=0.3, esc=0.6 if color else 0, tabs=0.2)
            lines = gen.text_lines(rng, pr)
        o = gen.options(rng, align=0.5, pad=0.4, size=0.4, indent=0.4, tab=0.0)
        cfg = hostile.STOCK if st else c.cfg(gen.config_of(d))
        args = draw_args(cfg, d, o)
        if color:
            args[0] = '--color'
        res = c.boxes(args, '\n'.join(lines) + '\n')
        c.nontrivial = False
        if res.rc == 1 and b'cannot be repeated' in res.err:
            return
        if res.rc != 0 or res.err:
            raise Violation('status %d, %r' % (res.rc, res.err[:300]))
        out = [uni.strip_esc(s) for s in out_lines(res)]
        plain = gen.Design()
        plain.shapes = {k: [uni.strip_esc(x) for x in v] for k, v in d.shapes.items()}
        plain.elastic = d.elastic
        sh = model.Shapes(plain)
        mode = o.indent or d.indent or 'box'
        inds = [uni.indent_of(uni.expand_tabs(s, o.tab)) for s in lines if uni.width(uni.rtrim_space(uni.strip_esc(s)))]
        indent = min(inds) if inds and mode == 'box' else 0
        if not out:
            return
        total = max(uni.width(s) for s in out)
        if any(uni.cwidth(ch) > 1 for s in lines for ch in uni.strip_esc(s)):
            c.count('wide')
        if any('\x1b' in s for s in lines) or any('\x1b' in s for v in d.shapes.values() for s in v):
            c.count('escapes')
        if not sh.empty['left']:
            c.nontrivial = True
            ok = {nozero(s) for k in gen.WEST if k in sh.sh for s in sh.sh[k]}
            for i, s in enumerate(out):
                if uni.cut(s, 0, indent).strip():
                    raise Violation('line %d: text in the indentation: %r' % (i + 1, show(s, 200)))
                part = nozero(uni.cut(s, indent, indent + sh.left_w))
                if part not in ok:
                    raise Violation('line %d: left side is %r, expected one of %r' % (i + 1, part, sorted(ok)))
                c.count('edges')
        if not sh.empty['right']:
            # all lines are trimmed, so the width is that of the shape line reaching furthest
            mid = [k for k in gen.EAST if k in sh.sh]
            ok = {nozero(s) for k in mid for s in sh.sh[k]}
            reach = max(uni.width(uni.rtrim_blank(s)) for s in ok)
            if not reach:
                return
            start = total - reach
            c.nontrivial = True
            for i, s in enumerate(out):
                part = nozero(uni.cut(s, start, start + sh.right_w))
                if part not in ok:
                    raise Violation('line %d: right side at column %d is %r, expected one of %r' %
                                    (i + 1, start, part, sorted(ok)))
                c.count('edges')
        c.seen(st, color, mode, sorted(k for k, v in sh.empty.items() if v), sh.left_w, sh.right_w)
