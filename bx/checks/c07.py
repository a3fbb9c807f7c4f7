"""C07: padding, alignment and justification."""
from .. import harness, gen, model, stock, uni
from ..drawing import draw_and_compare, out_lines
from ..harness import Violation


class Check(harness.Check):
    ID = 'C07'
    QUICK = 26000
    THOROUGH = 600000
    RULE = ('random design x text x -a (all directions and combinations) x -p x -s x indentation mode; output compared with the '
            'layout model; on boxes with four visible sides the position of the text block is measured in the output and '
            'compared with the documented meaning of padding and alignment; non-trivial: alignment or padding was in effect')
    NEEDS = dict(lines_compared=40000, measured=2000, centered=400, justified=400, large=100)

    def case(self, c):
        rng = c.rng
        measure = rng.random() < 0.5
        if measure:
            d = gen.design(rng, style='full', simple=True, alpha='#*+|-=', blanky=0)
        elif rng.random() < 0.3:
            d = rng.choice(stock.usable())
        else:
            d = gen.design(rng, maxdim=3)
        pr = gen.Profile(maxlines=7, maxlen=20, indent=0.5, trail=0.1, punct=0.0 if measure else 0.3)
        lines = gen.text_lines(rng, pr)
        if rng.random() < 0.01:
            lines = gen.enlarge(rng, lines)
            c.count('large')
        o = gen.options(rng, align=0.9, pad=0.7, size=0.4, indent=0.5, maxw=50, maxh=15)
        c.nontrivial = o.align is not None or o.padstr is not None or bool(d.padding)
        b, r = draw_and_compare(c, d, lines, o)
        if b is None:
            c.nontrivial = False
            return
        c.seen(o.h, o.v, o.j, b.mode, o.size is not None, sorted(o.pad.items()) != [])
        if measure and any(s.strip() for s in lines):
            self.measure(c, d, lines, o, out_lines(r))

    def measure(self, c, d, lines, o, out):
        # the box has one-column, one-line sides everywhere
        mode = o.indent or d.indent or 'box'
        left = min(len(s) - len(s.lstrip(' ')) for s in out)
        right = max(uni.width(s) for s in out)
        inner = [uni.cut(s, left + 1, right - 1) for s in out[1:-1]]
        body = [i for i, s in enumerate(inner) if s.strip()]
        want = [uni.expand_tabs(uni.rtrim_space(s), o.tab) for s in lines]
        nonblank = [i for i, s in enumerate(want) if s.strip()]
        inds = [uni.indent_of(want[i]) for i in nonblank]
        common = min(inds)
        above = body[0] - nonblank[0]
        below = len(inner) - above - len(lines)
        pad = model.eff_padding(d, o)
        width = right - left - 2
        unsized = o.size is None
        if above < 0 or below < 0:
            raise Violation('text block does not fit into the box: %d lines above, %d below' % (above, below))
        if not (o.size and o.size[1]) and (above < pad['top'] or below < pad['bottom']):
            raise Violation('vertical padding %r not respected: %d above, %d below' % (pad, above, below))
        sv = len(inner) - len(lines)
        if not (o.size and o.size[1]):
            if sv != pad['top'] + pad['bottom']:
                raise Violation('%d extra lines, padding asks for %d' % (sv, pad['top'] + pad['bottom']))
        if o.size and o.size[1] and sv >= pad['top'] + pad['bottom']:
            s = sv - pad['top'] - pad['bottom']
            exp = pad['top'] + {'t': 0, 'c': s // 2, 'b': s}[o.v]
            if above != exp:
                raise Violation('vertical alignment %s: %d lines above the text, expected %d' % (o.v, above, exp))
        # horizontally: block is as wide as the longest line without the discarded indentation
        drop = 0 if mode == 'text' else common
        block = max(uni.width(s) for s in want) - drop
        sh = width - block
        starts = [uni.indent_of(inner[i]) for i in body]
        ends = [uni.width(uni.rtrim_blank(inner[i])) for i in body]
        if sh < 0:
            raise Violation('text block is wider than the box')
        if not (o.size and o.size[0]) and sh != pad['left'] + pad['right'] and block >= 1:
            raise Violation('%d extra columns, padding asks for %d' % (sh, pad['left'] + pad['right']))
        before = None
        if sh >= pad['left'] + pad['right']:
            s = sh - pad['left'] - pad['right']
            before = pad['left'] + {'l': 0, 'c': s // 2, 'r': s}[o.h]
            if o.h == 'c':
                c.count('centered')
            if not o.j:
                for k, i in enumerate(nonblank):
                    if starts[k] != before + inds[k] - drop:
                        raise Violation('line %d begins at column %d, expected %d' %
                                        (i, starts[k], before + inds[k] - drop))
            else:
                c.count('justified')
                base = common if mode == 'text' else 0
                for k, i in enumerate(nonblank):
                    n = uni.width(want[i]) - inds[k]
                    if o.j == 'l' and starts[k] != before + base:
                        raise Violation('left justified line %d begins at column %d, expected %d' %
                                        (i, starts[k], before + base))
                    if o.j == 'r' and ends[k] != before + block:
                        raise Violation('right justified line %d ends at column %d, expected %d' %
                                        (i, ends[k], before + block))
                    if o.j == 'c':
                        l, r = starts[k] - before - base, before + block - ends[k]
                        if abs(l - r) > 1 or min(l, r) < 0:
                            raise Violation('centered line %d has %d columns before and %d after' % (i, l, r))
        elif not o.j:
            rel = [starts[k] - inds[k] for k in range(len(body))]
            if len(set(rel)) > 1:
                raise Violation('relative indentation changed')
        c.count('measured')
