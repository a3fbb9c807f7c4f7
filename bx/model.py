"""Reference model of drawing: what a box looks like, computed from the design as written in the configuration.

It is used by the checks as the oracle for complete outputs. It knows nothing about how boxes is implemented; it states
where shapes, padding and text go. The checks complement it with relational oracles that do not use it."""
from . import uni
from .gen import SHAPES, NORTH, EAST, SOUTH, WEST, SOUTH_REV, WEST_REV

W = uni.width


class Unreachable(Exception):
    """opposite sides can never get the same length"""


class Shapes:
    """The design's shapes after missing ones have been filled in."""

    def __init__(self, d):
        sh = {k: list(v) for k, v in d.shapes.items()}
        el = set(d.elastic)
        w = lambda k: W(sh[k][0])
        h = lambda k: len(sh[k])
        order = SIDES_CW
        # the first shape that is defined determines where we start
        fshape = next(k for k in SHAPES if k in sh)
        start = next(i for i, s in enumerate(order) if fshape in s)
        for i in range(4):
            side = order[(start + i) % 4]
            nxt = order[(start + i + 1) % 4]
            corner = side[4]
            if corner not in sh:
                ns = next((k for k in nxt if k in sh), None)
                if (start + i) % 2:      # right or left side: the corner is as wide as the side
                    cw, ch = w(fshape), (h(ns) if ns else 1)
                else:
                    cw, ch = (w(ns) if ns else 1), h(fshape)
                sh[corner] = [' ' * cw] * ch
            fshape = corner
        for i, side in enumerate(order):
            if not any(k in sh for k in side[1:4]):
                mid = side[2]
                if i % 2:
                    sh[mid] = [' ' * w(side[0])]
                else:
                    sh[mid] = [' '] * h(side[0])
                el.add(mid)
        self.sh = sh
        self.elastic = el
        self.w = {k: w(k) for k in sh}
        self.h = {k: h(k) for k in sh}
        self.empty = {}
        for name, side in zip(('top', 'right', 'bottom', 'left'), order):
            self.empty[name] = all(uni.blank(s) for k in side if k in sh for s in sh[k])
        self.minwidth = max(sum(self.w[k] for k in s if k in sh) for s in (NORTH, SOUTH))
        self.minheight = max(sum(self.h[k] for k in s if k in sh) for s in (EAST, WEST))
        self.top_h, self.bottom_h = self.h['nw'], self.h['sw']
        self.left_w, self.right_w = self.w['nw'], self.w['ne']

    def lengths(self, side, dim, upto):
        """reachable lengths (without corners) of a side: list of (length, counts per shape)"""
        mid = [k for k in side[1:4] if k in self.sh]
        cnt = {k: 0 for k in mid}
        el = [k for k in mid if k in self.elastic]
        for k in mid:
            if k not in self.elastic:
                cnt[k] = 1
        tot = sum(dim[k] for k in mid if cnt[k])
        out = []
        if len(el) == 1:
            while True:
                cnt[el[0]] += 1
                tot += dim[el[0]]
                out.append((tot, dict(cnt)))
                if tot > upto:
                    return out
        i = 0
        while True:                       # two elastic shapes take turns, beginning with the first in clockwise order
            cnt[el[i % 2]] += 1
            tot += dim[el[i % 2]]
            i += 1
            if i >= 2:                    # each of them occurs at least once
                out.append((tot, dict(cnt)))
            if tot > upto:
                return out

    def fit(self, side_a, side_b, dim, target):
        """smallest common length >= target of two opposite sides"""
        sa = sum(dim[k] for k in side_a[1:4] if k in self.sh)
        sb = sum(dim[k] for k in side_b[1:4] if k in self.sh)
        upto = target + sa + sb + sa * sb
        b = {}
        for n, c in self.lengths(side_b, dim, upto):
            b.setdefault(n, c)
        for n, c in self.lengths(side_a, dim, upto):
            if n >= target and n in b:
                return n, c, b[n]
        raise Unreachable()

    def hline(self, side, counts):
        """lines of a horizontal side in left to right order, without corners"""
        hgt = self.h[side[0]]
        return [''.join(self.sh[k][i] * counts[k] for k in side[1:4] if k in counts) for i in range(hgt)]

    def vlines(self, side, counts):
        """lines of a vertical side from top to bottom including the corners"""
        out = list(self.sh[side[0]])
        for k in side[1:4]:
            if k in counts:
                out += self.sh[k] * counts[k]
        return out + list(self.sh[side[4]])


SIDES_CW = [NORTH, EAST, SOUTH, WEST]


def drawable(d):
    """whether boxes of any size can be drawn (opposite sides can be made the same length)"""
    sh = Shapes(d)
    try:
        for n in (1, 50):
            sh.fit(NORTH, SOUTH, sh.w, n)
            sh.fit(WEST, EAST, sh.h, n)
    except Unreachable:
        return False
    return True


class Box:
    pass


def eff_padding(d, o):
    p = {s: d.padding.get(s, 0) for s in ('top', 'right', 'bottom', 'left')}
    p.update(o.pad)
    return p


def share(pad, a, b, excess):
    """padding is given up one by one, alternating between the sides"""
    for i in range(excess):
        x, y = (a, b) if i % 2 == 0 else (b, a)
        if pad[x]:
            pad[x] -= 1
        elif pad[y]:
            pad[y] -= 1
        else:
            break


def prepare(lines, d, o):
    """text lines (without terminators) -> (lines after tab expansion, trimming and indentation handling, indent)"""
    mode = o.indent or d.indent or 'box'
    out = [uni.expand_tabs(uni.rtrim_space(s), o.tab) for s in lines]
    inds = [uni.indent_of(s) for s in out if W(s) > 0]
    indent = min(inds) if inds else 0
    maxline = max([W(s) for s in out] or [0])
    if mode != 'text':
        out = [s[indent:] if W(s) >= indent else s for s in out]
        maxline -= indent
    return out, indent, maxline, mode


def tab_prefix(indent, o, src):
    """the indentation in front of the box"""
    if o.tabexp == 'u':
        return '\t' * (indent // o.tab) + ' ' * (indent % o.tab)
    if o.tabexp == 'k':
        col = 0
        out = []
        for c in src:
            if c == '\t':
                n = o.tab - col % o.tab
                if col + n > indent:
                    break
                out.append('\t')
                col += n
            elif c == ' ':
                if col >= indent:
                    break
                out.append(' ')
                col += 1
            else:
                break
        # blanks in front of a tab that does not fit any more
        return ''.join(out) + ' ' * (indent - col)
    return ' ' * indent


def draw(d, lines, o, sh=None, rewrite=None, rawsrc=None):
    """Box(lines=[(prefix, left, inner, right)], out=[str]) of the text `lines` (list of str, no terminators)"""
    sh = sh or Shapes(d)
    text, indent, maxline, mode = prepare(lines, d, o)
    if rewrite:
        text = [rewrite(s) for s in text]
        maxline = max([W(s) for s in text] or [0])
        if mode == 'text':
            inds = [uni.indent_of(s) for s in text if W(s) > 0]
            indent = min(inds) if inds else 0
    nl = len(text)
    pad = eff_padding(d, o)
    reqw, reqh = o.size or (0, 0)
    minw, minh = sh.minwidth, sh.minheight
    if reqw:
        minw = max(minw, reqw + (sh.right_w if sh.empty['right'] else 0) + (sh.left_w if sh.empty['left'] else 0))
    if reqh:
        minh = max(minh, reqh + (sh.top_h if sh.empty['top'] else 0) + (sh.bottom_h if sh.empty['bottom'] else 0))
    if pad['top'] + pad['bottom']:
        need = pad['top'] + pad['bottom'] + nl + sh.top_h + sh.bottom_h
        if need > minh:
            if reqh:
                share(pad, 'top', 'bottom', need - minh)
            else:
                minh = need
    if pad['left'] + pad['right']:
        need = pad['left'] + pad['right'] + maxline + sh.left_w + sh.right_w
        if need > minw:
            if reqw:
                share(pad, 'left', 'right', need - minw)
            else:
                minw = need
    width, ct, cb = sh.fit(NORTH, SOUTH, sh.w, max(maxline, minw - sh.left_w - sh.right_w))
    height, cl, cr = sh.fit(WEST, EAST, sh.h, max(nl, minh - sh.top_h - sh.bottom_h))
    top, bottom = sh.hline(NORTH, ct), sh.hline(SOUTH_REV, cb)
    left, right = sh.vlines(WEST_REV, cl), sh.vlines(EAST, cr)

    vsurplus = height - nl - pad['top'] - pad['bottom']
    above = {'t': 0, 'c': vsurplus // 2, 'b': vsurplus}[o.v] + pad['top']
    hsurplus = width - maxline - pad['left'] - pad['right']
    before = {'l': 0, 'c': hsurplus // 2, 'r': hsurplus}[o.h] + pad['left']
    after = width - maxline - before

    inner = list(top) + [' ' * width] * above
    for s in text:
        if uni.blank(s):
            shift = 0
            s2 = s
        else:
            own = uni.indent_of(s)
            newlen = W(s) - own
            base = indent if mode == 'text' else 0
            if o.j == 'l':
                shift = base - own
            elif o.j == 'c':
                room = maxline - base - newlen
                shift = room // 2 + base
                if room % 2 and (after - before) - base == 1:
                    shift += 1
                shift -= own
            elif o.j == 'r':
                shift = maxline - newlen - own
            else:
                shift = 0
            s2 = s[-shift:] if shift < 0 else ' ' * shift + s
        inner.append(' ' * before + s2 + ' ' * (maxline - W(s2)) + ' ' * after)
    inner += [' ' * width] * (height - nl - above) + list(bottom)

    b = Box()
    b.sh, b.width, b.height, b.text, b.indent, b.maxline, b.mode = sh, width, height, text, indent, maxline, mode
    b.pad, b.above, b.before, b.after = pad, above, before, after
    b.counts = dict(top=ct, bottom=cb, left=cl, right=cr)
    b.rows = []
    tot = height + sh.top_h + sh.bottom_h
    first = sh.top_h if sh.empty['top'] else 0
    last = tot - (sh.bottom_h if sh.empty['bottom'] else 0)
    src = rawsrc or lines
    for i in range(first, last):
        ti = i - sh.top_h - above
        k = 0 if i < sh.top_h + above else (ti if ti < nl else nl - 1)
        prefix = tab_prefix(indent, o, src[k]) if mode == 'box' else ''
        b.rows.append((prefix, '' if sh.empty['left'] else left[i], inner[i], right[i]))
    b.out = [trim(''.join(r)) for r in b.rows]
    return b


def trim(s):
    t = uni.rtrim_blank(s)
    # a line that consists only of blanks is all indentation, which is not trimmed
    return t if t else s


def render(box, eol='\n', final=True):
    s = eol.join(box.out)
    return s + (eol if final and box.out else '')
