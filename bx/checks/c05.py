"""C05: a box is composed exactly of its design's shapes and is no bigger than needed."""
import re
from .. import harness, gen, model, stock, uni
from ..drawing import draw_and_compare, out_lines
from ..harness import Violation


def smallest(fixed_a, el_a, fixed_b, el_b, target):
    """smallest n >= target with n = fixed + k * elastic (k >= 1) for both sides; None if there is none"""
    n = max(target, fixed_a + el_a, fixed_b + el_b)
    for x in range(n, n + el_a * el_b + 1):
        if (x - fixed_a) % el_a == 0 and (x - fixed_b) % el_b == 0:
            return x
    return None


class Check(harness.Check):
    ID = 'C05'
    QUICK = 28000
    THOROUGH = 600000
    RULE = ('random well-formed design (all elastic/non-elastic combinations, missing shapes, blank sides, multi-line and '
            'double-width shapes, and the designs that ship with boxes) x random text x alignment/padding, sometimes with replacement rules that change the size of the text; output compared byte by byte with the composition '
            'model, box size compared with an independent smallest-common-length formula; non-trivial: a box was drawn')
    NEEDS = dict(lines_compared=50000, size_formula=2000, replicated=3000, ruled=200, large=100)

    def case(self, c):
        rng = c.rng
        d = rng.choice(stock.usable()) if rng.random() < 0.15 else gen.design(rng, maxdim=rng.choice([2, 3, 3, 5]))
        pr = gen.Profile(maxlines=rng.choice([3, 8, 20]), maxlen=rng.choice([5, 15, 40]), indent=0.1, trail=0.1)
        lines = gen.text_lines(rng, pr)
        if rng.random() < 0.01:
            lines = gen.enlarge(rng, lines)
            c.count('large')
        o = gen.options(rng, align=0.3, pad=0.2, size=0.0, indent=0.1)
        rule = None
        if rng.random() < 0.06 and d not in stock.designs():
            # what counts is the text as changed by replacement rules
            rule = rng.choice([('[a-z][a-z]', 'q'), ('[a-z]', ''), ('[a-z0-9]+$', ''), ('([a-m])', '$1$1$1'), ('[A-Za-z]{3}', '')])
            d.reprules = [(None,) + rule]
            prog, rep = re.compile(rule[0], re.ASCII), rule[1].replace('$', '\\')
            o.indent = 'none'
        b, r = draw_and_compare(c, d, lines, o, rewrite=(lambda s: prog.sub(rep, s)) if rule else None)
        if b is None:
            c.nontrivial = False
            return
        if rule:
            c.count('ruled')
        sh = b.sh
        for side, k in b.counts.items():
            for s, n in k.items():
                c.seen(side, s, s in sh.elastic, min(n, 3), sh.w[s], sh.h[s])
                if n > 1:
                    c.count('replicated')
                    if s not in sh.elastic:
                        raise Violation('model repeats non-elastic shape')
        c.seen('order', ' '.join(k for k in d.shapes), ' '.join(d.elastic))
        if not rule:
            self.formula(c, d, sh, lines, o, out_lines(r))

    def formula(self, c, d, sh, lines, o, out):
        """size of the printed box, computed without the model's search"""
        if sh.empty['left'] or sh.empty['right'] or sh.empty['top'] or sh.empty['bottom']:
            return
        mid = lambda side: [k for k in side[1:4] if k in sh.sh]
        parts = {}
        for name, side, dim in (('top', gen.NORTH, sh.w), ('bottom', gen.SOUTH, sh.w), ('left', gen.WEST, sh.h),
                                ('right', gen.EAST, sh.h)):
            el = [dim[k] for k in mid(side) if k in sh.elastic]
            if len(el) != 1:
                return
            parts[name] = (sum(dim[k] for k in mid(side) if k not in sh.elastic), el[0])
        pad = model.eff_padding(d, o)
        tw = max(uni.width(s) for s in (uni.rtrim_space(x) for x in lines))
        inds = [uni.indent_of(s) for s in lines if s.strip()]
        mode = o.indent or d.indent or 'box'
        if mode != 'text':
            tw -= min(inds) if inds else 0
        w = smallest(*parts['top'], *parts['bottom'], tw + pad['left'] + pad['right'])
        h = smallest(*parts['left'], *parts['right'], len(lines) + pad['top'] + pad['bottom'])
        want_h = h + sh.top_h + sh.bottom_h
        want_w = w + sh.left_w + sh.right_w + (min(inds) if inds and mode == 'box' else 0)
        got_w = max(uni.width(s) for s in out)
        if len(out) != want_h:
            raise Violation('box has %d lines, smallest possible is %d' % (len(out), want_h), key='height')
        # the last column of the right side may be blank everywhere
        lastcol = max(uni.width(uni.rtrim_blank(s)) for k in gen.EAST if k in sh.sh for s in sh.sh[k])
        if got_w != want_w - sh.right_w + lastcol and any(s.rstrip() for s in out):
            raise Violation('box is %d columns wide, smallest possible is %d' % (got_w, want_w), key='width')
        c.count('size_formula')
