"""C06: requested box size."""
from .. import harness, gen, hostile, model, stock, uni
from ..drawing import draw_and_compare, out_lines
from ..harness import Violation


class Check(harness.Check):
    ID = 'C06'
    QUICK = 26000
    THOROUGH = 600000
    RULE = ('random design x random text x -s (width, height, both; smaller, equal, larger than needed) x padding/alignment; '
            'output compared with the layout model, and the size measured on the output compared with the request; non-trivial: '
            'a box with a requested size was drawn')
    NEEDS = dict(exact=2500, lines_compared=40000, padding_given_up=500, blank_sides=1000, large=100)

    def case(self, c):
        rng = c.rng
        r = rng.random()
        simple = r < 0.5
        if simple:       # all elastic shapes are 1x1, so that every size can be tiled
            d = gen.design(rng, simple=True, alpha=gen.BORDER, blanky=0)
        elif r < 0.65:
            d = rng.choice(stock.usable())
        else:
            d = gen.design(rng, maxdim=3)
        pr = gen.Profile(maxlines=8, maxlen=25, indent=0.15, trail=0.1)
        lines = gen.text_lines(rng, pr)
        if rng.random() < 0.005:
            lines = gen.enlarge(rng, lines)
            c.count('large')
        o = gen.options(rng, align=0.4, pad=0.6, size=0.0, indent=0.2)
        tw = max(uni.width(s.rstrip()) for s in lines)
        base_w, base_h = tw + rng.randint(-3, 12), len(lines) + rng.randint(-2, 9)
        if rng.random() < 0.1:
            base_w += rng.randint(1, 200)
        if rng.random() < 0.1:
            base_h += rng.randint(1, 60)
        if rng.random() < 0.01 and len(lines) < 5000:
            k = rng.choice([255, 256, 300, 1000, 1024, 2050])
            if rng.random() < 0.5:
                base_w += k
            else:
                base_h += k if base_w > 100 or rng.random() < 0.9 else 66000
            c.count('large')
        w, h = max(1, base_w), max(1, base_h)
        k = rng.random()
        o.size = (w, 0) if k < 0.33 else (0, h) if k < 0.6 else (w, h)
        b, r = draw_and_compare(c, d, lines, o)
        if b is None:
            c.nontrivial = False
            return
        sh = b.sh
        before = model.eff_padding(d, o)
        if any(b.pad[x] != before[x] for x in before):
            c.count('padding_given_up')
            for x, y in (('left', 'right'), ('top', 'bottom')):
                lost = (before[x] - b.pad[x], before[y] - b.pad[y])
                # the sides share the loss
                if b.pad[x] and b.pad[y] and abs(lost[0] - lost[1]) > 1:
                    raise Violation('model shares the loss unevenly')
        if any(sh.empty.values()):
            c.count('blank_sides')
        c.seen(o.size[0] > 0, o.size[1] > 0, sorted(k for k, v in sh.empty.items() if v), d.name)
        if simple:
            self.exact(c, d, sh, lines, o, b, out_lines(r))

    def exact(self, c, d, sh, lines, o, b, out):
        """measured size == max(request, what the text needs), independent of the layout model"""
        reqw, reqh = o.size
        vis = {k: not v for k, v in sh.empty.items()}
        # width can be measured if the right side is visible (otherwise lines are trimmed)
        if reqh:
            need = len(lines) + vis['top'] + vis['bottom']
            if len(out) != max(reqh, need):
                raise Violation('requested %d lines for %d text lines, box has %d' % (reqh, len(lines), len(out)))
            c.count('exact')
        if reqw and vis['right']:
            inds = [uni.indent_of(s) for s in lines if s.strip()]
            indent = min(inds) if inds else 0
            mode = o.indent or d.indent or 'box'
            tw = max(uni.width(uni.rtrim_space(s)) for s in lines) - (0 if mode == 'text' else indent)
            need = max(tw, 1) + vis['left'] + vis['right']
            got = max(uni.width(s) for s in out) - (indent if mode == 'box' else 0)
            if got != max(reqw, need):
                raise Violation('requested %d columns for text of width %d, box has %d' % (reqw, tw, got))
            c.count('exact')
