"""Generators for texts, designs, configurations and options."""
from . import uni

SHAPES = ['nw', 'nnw', 'n', 'nne', 'ne', 'ene', 'e', 'ese', 'se', 'sse', 's', 'ssw', 'sw', 'wsw', 'w', 'wnw']
NORTH = ['nw', 'nnw', 'n', 'nne', 'ne']
EAST = ['ne', 'ene', 'e', 'ese', 'se']
SOUTH = ['se', 'sse', 's', 'ssw', 'sw']
SOUTH_REV = ['sw', 'ssw', 's', 'sse', 'se']
WEST = ['sw', 'wsw', 'w', 'wnw', 'nw']
WEST_REV = ['nw', 'wnw', 'w', 'wsw', 'sw']
SIDES = [NORTH, EAST, SOUTH, WEST]

ASCII_WORD = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
PUNCT = '.,:;!?-_()[]{}<>/\\|*#+=~^$%&@"\'`'
LATIN = '\u00e4\u00f6\u00fc\u00df\u00e9\u00e8\u00f1\u00e7\u00d8\u00a7\u00a9'
OTHER = ('\u03b1\u03b2\u03a9\u0436\u042f\u05d0\u05d1\u0e01\u0905\u2500\u2502\u250c\u2514\u2588\u2022\u20ac'
         '\u0628\uff71\ue000\ufffd\uffff\U0010FFFF\U00010348\u2126\u00b7')
WIDE = ('\u6f22\u5b57\u65e5\u672c\u8a9e\ud55c\uad6d\u30c6\u30b9\u30c8\uff21\uff01\U0001F600\U0001F4A9\U00020000'
        '\u3164\u2e80\u1100\U0001F468')
COMB = '\u0301\u0308\u0327\u200b\u200d\u20d7\u1161\u064e\u05b0\ufe0f\ufeff\u00ad\U000E0100'
NBSP = '\u00a0\u202f'
UBLANK = '\u2003\u2009\u205f'


class Profile:
    """What a generated text may contain."""

    def __init__(self, uni=0.3, wide=0.2, comb=0.1, tabs=0.0, esc=0.0, blank=0.15, indent=0.35, punct=0.3,
                 trail=0.2, nbsp=0.0, maxlines=8, maxlen=30, crlf=0.0, nofinal=0.25, lead_blank=0.1,
                 ublank=0.0, unique=False):
        self.__dict__.update(locals())
        del self.__dict__['self']


def word(rng, pr, maxlen=10):
    n = rng.randint(1, maxlen)
    r = rng.random()
    if r < pr.uni:
        pools = [LATIN, OTHER]
        if pr.wide and rng.random() < pr.wide / max(pr.uni, 0.01):
            pools = [WIDE]
        elif rng.random() < 0.3:
            pools = [ASCII_WORD, LATIN, OTHER] + ([WIDE] if pr.wide else [])
        out = []
        for _ in range(n):
            out.append(rng.choice(rng.choice(pools)))
            if pr.comb and rng.random() < pr.comb:
                out.append(rng.choice(COMB))
        w = ''.join(out)
    else:
        w = ''.join(rng.choice(ASCII_WORD) for _ in range(n))
    if rng.random() < pr.punct:
        w += rng.choice(PUNCT)
    if rng.random() < pr.punct * 0.3:
        w = rng.choice(PUNCT) + w
    return w


SGR = ['\x1b[31m', '\x1b[1m', '\x1b[38;5;34m', '\x1b[48;2;1;2;3m', '\x1b[1;4;33m', '\x1b[92m', '\x1b[7m']
SGR_OFF = ['\x1b[0m', '\x1b[m', '\x1b[39m', '\x1b[49m']


def colorize(rng, s):
    """wrap random words of s in colour sequences (balanced, placed around visible non-blank text)"""
    words = s.split(' ')
    for i, w in enumerate(words):
        if w and rng.random() < 0.5:
            words[i] = rng.choice(SGR) + w + rng.choice(SGR_OFF)
    return ' '.join(words)


def line(rng, pr):
    if rng.random() < pr.blank:
        return ' ' * rng.choice([0, 0, 0, 1, 3, 9]) if rng.random() < 0.5 else ''
    out = []
    want = rng.randint(1, pr.maxlen)
    while sum(len(w) for w in out) < want:
        out.append(word(rng, pr))
        sep = ' ' * rng.choice([1, 1, 1, 2, 4])
        r = rng.random()
        if pr.tabs and r < pr.tabs:
            sep = '\t' * rng.choice([1, 1, 2])
        elif pr.nbsp and r < pr.tabs + pr.nbsp:
            sep = rng.choice(NBSP)
        elif pr.ublank and r < pr.tabs + pr.nbsp + pr.ublank:
            sep = rng.choice(UBLANK)
        out.append(sep)
    out.pop()
    s = ''.join(out)
    if pr.esc and rng.random() < pr.esc:
        s = colorize(rng, s)
    return s


def lead(rng, pr):
    """one indentation string"""
    n = rng.choice([1, 2, 3, 4, 5, 8, 9, 12])
    if pr.tabs and rng.random() < max(pr.tabs, 0.5):
        r = rng.random()
        if r < 0.4:
            return '\t' * rng.choice([1, 1, 2, 3])
        if r < 0.7:
            return ' ' * rng.randint(1, 5) + '\t' * rng.choice([1, 2])
        return '\t' + ' ' * rng.randint(1, 5)
    return ' ' * n


def text_lines(rng, pr, minlines=1):
    """list of lines without terminators"""
    n = rng.choice([1, 1, 2, 3, rng.randint(1, pr.maxlines), rng.randint(1, pr.maxlines)])
    n = max(n, minlines)
    common = lead(rng, pr) if rng.random() < pr.indent else ''
    out = []
    for i in range(n):
        s = line(rng, pr)
        if s.strip():
            ind = common
            if rng.random() < 0.3 and pr.indent:
                ind = common + lead(rng, pr)
            elif pr.indent and rng.random() < 0.06:
                ind = ''
            s = ind + s
            if rng.random() < pr.trail:
                s += ' ' * rng.choice([1, 2, 7])
        out.append(s)
    if rng.random() < pr.lead_blank:
        out = [''] * rng.randint(1, 2) + out
    if rng.random() < pr.lead_blank:
        out = out + [''] * rng.randint(1, 2)
    return out


def enlarge(rng, lines, used=(), huge=True):
    """the same kind of text with very many lines, or with a very long line (made without the characters in used)"""
    full = [s for s in lines if s.strip()]
    if not full:
        return lines
    if rng.random() < 0.55:
        n = rng.choice([256, 257, 300, 1000, 1025, rng.randint(256, 4200)])
        if huge and rng.random() < 0.1:
            n = rng.choice([32769, 65537, 70000])
        al = [ch for ch in 'abcdefghijklmnopqrstuvwxyz' if ch not in used][:10]
        out = []
        for i in range(n):
            s = lines[i % len(lines)]
            if s.strip() and len(al) == 10:
                s += ''.join(al[int(x)] for x in str(i))         # so that every line is another one
            out.append(s)
        while out and not out[-1].strip():
            out.pop()
        return out
    w = rng.choice([256, 257, 512, 1000, 1025, 2049, rng.randint(256, 4200)])
    i = rng.choice([k for k, s in enumerate(lines) if s.strip()])
    s = lines[i].rstrip()
    body = s.lstrip(' \t')
    w = min(w // len(body), 15000 // (len(body.encode()) + 1))
    return lines[:i] + [s + (rng.choice([' ', '']) + body) * w] + lines[i + 1:]


def join(rng, lines, pr):
    """(text, final newline?) - with LF or CRLF"""
    nl = '\r\n' if rng.random() < pr.crlf else '\n'
    t = nl.join(lines)
    final = rng.random() >= pr.nofinal
    if final:
        t += nl
    elif not lines or lines[-1] == '':
        t += nl
        final = True
    return t, final


# ------------------------------------------------------------------------------------------------------- designs ----

BORDER = '-=+|*#/\\:.~_^<>()[]{}oOxX'
BORDER_U = '\u2500\u2502\u250c\u2510\u2514\u2518\u2588\u2591\u00a4\u2022\u03b1'
BORDER_W = '\u6f22\u25a0\uff0d\uff5c'      # U+FF0D, U+FF5C: two columns
BLANKS = ' '


class Design:
    def __init__(self):
        self.name = 'd'
        self.aliases = []
        self.shapes = {}        # name -> list of lines (equal display width)
        self.elastic = []
        self.padding = {}       # 'top' ... -> n
        self.indent = None      # 'box', 'text', 'none' or None
        self.tags = []
        self.author = None
        self.designer = None
        self.sample = ['sample']
        self.reprules = []      # (mode or None, search, replace)
        self.revrules = []
        self.extra = []

    def pad(self, side):
        return self.padding.get(side, 0)


def shape_line(rng, width, alpha):
    """a string of exactly `width` columns"""
    out = []
    w = 0
    guard = 0
    while w < width:
        ch = rng.choice(alpha)
        cw = uni.cwidth(ch)
        guard += 1
        if cw == 0 or w + cw > width:
            if guard > 50:
                ch, cw = rng.choice('-+|#'), 1
            else:
                continue
        out.append(ch)
        w += cw
    return ''.join(out)


def make_shape(rng, width, height, alpha, blanky=0.15):
    lines = []
    for _ in range(height):
        s = list(shape_line(rng, width, alpha))
        for i in range(len(s)):
            if uni.cwidth(s[i]) == 1 and rng.random() < blanky:
                s[i] = ' '
        lines.append(''.join(s))
    return lines


ELASTIC_CHOICES = [((1,), (1,)), ((2,), (2,)), ((3,), (3,)),
                   ((1, 2), (1,)), ((1, 2), (2,)), ((2, 3), (2,)), ((2, 3), (3,)), ((1, 3), (1,)), ((1, 3), (3,)),
                   ((1, 2, 3), (1,)), ((1, 2, 3), (2,)), ((1, 2, 3), (3,)), ((1, 2, 3), (1, 3))]


def design(rng, style=None, alpha=None, maxdim=3, uniq=False, blanky=0.12, simple=False, color=0.0):
    """A well-formed design. style: full | noright | left | leftright | topbottom | rand | one"""
    d = Design()
    style = style or rng.choice(['full', 'full', 'full', 'noright', 'left', 'leftright', 'topbottom', 'rand', 'one'])
    if alpha is None:
        alpha = rng.choice([BORDER, BORDER, BORDER, BORDER + BORDER_U, BORDER_U, BORDER + BORDER_W])

    if maxdim == 3 and rng.random() < 0.04:
        maxdim = rng.choice([6, 12, 20])        # seldom, but in many a real design

    def dim():
        return rng.choice([1, 1, 1, 2, 2, rng.randint(1, maxdim)])

    ht, hb, wl, wr = dim(), dim(), dim(), dim()
    if simple:
        ht = hb = wl = wr = 1
    vis = dict(top=True, right=True, bottom=True, left=True)
    if style == 'noright':
        vis['right'] = False
    elif style == 'left':
        vis.update(top=False, right=False, bottom=False)
    elif style == 'leftright':
        vis.update(top=False, bottom=False)
    elif style == 'topbottom':
        vis.update(left=False, right=False)
    elif style == 'one':
        one = rng.choice(list(vis))
        vis = {k: k == one for k in vis}
    elif style == 'rand':
        for k in vis:
            vis[k] = rng.random() < 0.6
        if not any(vis.values()):
            vis['left'] = True
    explicit_blank = rng.random() < 0.4
    elastic = []
    shapes = {}

    def mk(w, h, visible, single=False):
        if not visible:
            return [' ' * w for _ in range(h)]
        for _ in range(30):
            s = make_shape(rng, w, h, alpha, 0.0 if single else blanky)
            if any(x.strip() for x in s):
                return s
        return make_shape(rng, w, h, '#*+', 0.0)

    # corners: visible if both adjoining sides are (or with some luck if one is), but blank sides need blank corners
    for nm, (a, b), (w, h) in (('nw', ('top', 'left'), (wl, ht)), ('ne', ('top', 'right'), (wr, ht)),
                               ('se', ('bottom', 'right'), (wr, hb)), ('sw', ('bottom', 'left'), (wl, hb))):
        v = vis[a] and vis[b]
        if v or explicit_blank:
            shapes[nm] = mk(w, h, v)
    for sname, seq, visible in (('top', NORTH, vis['top']), ('bottom', SOUTH, vis['bottom'])):
        if not visible and not explicit_blank:
            continue
        pos, el = ((2,), (2,)) if simple or not visible else rng.choice(ELASTIC_CHOICES)
        h = ht if sname == 'top' else hb
        for p in pos:
            w = 1 if simple else dim()
            shapes[seq[p]] = mk(w, h, visible, single=False)
        for p in el:
            elastic.append(seq[p])
    for sname, seq, visible in (('right', EAST, vis['right']), ('left', WEST, vis['left'])):
        if not visible and not explicit_blank:
            continue
        pos, el = ((2,), (2,)) if simple or not visible else rng.choice(ELASTIC_CHOICES)
        w = wr if sname == 'right' else wl
        for p in pos:
            h = 1 if simple else dim()
            shapes[seq[p]] = mk(w, h, visible)
        for p in el:
            elastic.append(seq[p])
    d.shapes = {k: shapes[k] for k in SHAPES if k in shapes}
    if color and rng.random() < color:
        for k in d.shapes:
            d.shapes[k] = [rng.choice(SGR) + s + '\x1b[0m' if s.strip() else s for s in d.shapes[k]]
    d.elastic = [k for k in SHAPES if k in elastic]
    for side in ('top', 'right', 'bottom', 'left'):
        if rng.random() < 0.35:
            d.padding[side] = rng.choice([0, 1, 1, 2, 3]) if rng.random() < 0.97 else rng.choice([8, 11, 33])
    if rng.random() < 0.4:
        d.indent = rng.choice(['box', 'text', 'none'])
    d.vis = vis
    return d


# -------------------------------------------------------------------------------------------------------- config ----

def q(s, esc='\\', delim='"'):
    out = []
    for c in s:
        if c == esc or c == delim:
            out.append(esc)
        out.append(c)
    return delim + ''.join(out) + delim


def config_of(d):
    """canonical config text of one design"""
    o = ['BOX ' + ', '.join([d.name] + d.aliases)]
    if d.author is not None:
        o.append('author ' + q(d.author))
    if d.designer is not None:
        o.append('designer ' + q(d.designer))
    if d.indent:
        o.append('indent ' + q(d.indent))
    if d.tags:
        o.append('tags (' + ', '.join(q(t) for t in d.tags) + ')')
    o.append('sample')
    o += ['    ' + s for s in d.sample]
    o.append('ends')
    o.append('shapes {')
    for k, v in d.shapes.items():
        o.append('  %s (%s)' % (k, ', '.join(q(s) for s in v)))
    o.append('}')
    o.append('elastic (' + ', '.join(d.elastic) + ')')
    for kw, rules in (('replace', d.reprules), ('reverse', d.revrules)):
        for mode, a, b in rules:
            o.append('%s %s%s %s %s' % (kw, mode + ' ' if mode else '', q(a), 'with' if kw == 'replace' else 'to',
                                        q(b)))
    if d.padding:
        o.append('padding { ' + ' '.join('%s %d' % kv for kv in d.padding.items()) + ' }')
    o += d.extra
    o.append('END ' + d.name)
    return '\n'.join(o) + '\n'


# ------------------------------------------------------------------------------------------------------- options ----

class Opts:
    """drawing options as understood by model and command line"""
    def __init__(self):
        self.h = 'l'
        self.v = 't'
        self.j = ''
        self.align = None      # string for -a
        self.pad = {}          # side -> n (or -1)
        self.padstr = None
        self.size = None       # (w or 0, h or 0)
        self.indent = None     # box/text/none
        self.tab = 8
        self.tabexp = 'e'
        self.eol = None

    def args(self):
        a = []
        if self.align is not None:
            a += ['-a', self.align]
        if self.padstr is not None:
            a += ['-p', self.padstr]
        if self.size is not None:
            w, h = self.size
            x = 'X' if (7 * w + 3 * h) % 13 == 0 else 'x'       # either is fine
            a += ['-s', '%d%s%d' % (w, x, h) if w and h else ('%d' % w if w else '%s%d' % (x, h))]
        if self.indent is not None:
            a += ['-i', self.indent]
        if self.tab != 8 or self.tabexp != 'e':
            a += ['-t', '%d%s' % (self.tab, self.tabexp)]
        if self.eol is not None:
            a += ['-e', self.eol]
        return a


def options(rng, align=0.5, pad=0.4, size=0.3, indent=0.3, tab=0.0, eol=0.0, maxw=60, maxh=20):
    o = Opts()
    if rng.random() < align:
        parts = []
        for _ in range(rng.randint(1, 4)):
            k = rng.choice('hvjhvjlcr')
            if k == 'h':
                o.h = rng.choice('lcr')
                parts.append('h' + o.h)
            elif k == 'v':
                o.v = rng.choice('tcb')
                parts.append('v' + o.v)
            elif k == 'j':
                o.j = rng.choice('lcr')
                parts.append('j' + o.j)
            else:
                o.h, o.v, o.j = k, 'c', k
                parts.append(k)
        o.align = ''.join(parts)
    if rng.random() < pad:
        parts = []
        for _ in range(rng.randint(1, 4)):
            k = rng.choice('ahvtrbl')
            n = rng.choice([0, 0, 1, 1, 2, 3, 5]) if rng.random() < 0.97 else rng.choice([9, 10, 17, 40, 120])
            for side in dict(a=('top', 'right', 'bottom', 'left'), h=('left', 'right'), v=('top', 'bottom'),
                             t=('top',), r=('right',), b=('bottom',), l=('left',))[k]:
                o.pad[side] = n
            parts.append('%s%d' % (k, n))
        o.padstr = ''.join(parts)
    if rng.random() < size:
        w = rng.choice([0, rng.randint(1, maxw), rng.randint(1, maxw)])
        h = rng.choice([0, rng.randint(1, maxh), rng.randint(1, maxh)])
        if not w and not h:
            w = rng.randint(1, maxw)
        if rng.random() < 0.03:
            w, h = w and rng.randint(100, 400), h and rng.randint(30, 150)
        o.size = (w, h)
    if rng.random() < indent:
        o.indent = rng.choice(['box', 'text', 'none'])
    if rng.random() < tab:
        o.tab = rng.choice([1, 2, 3, 4, 5, 8, 8, 16, rng.randint(6, 16)])
        o.tabexp = rng.choice('eku')
    if rng.random() < eol:
        o.eol = rng.choice(['CR', 'LF', 'CRLF'])
    return o
