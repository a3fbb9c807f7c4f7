"""C28: removal takes away only box parts, never text."""
import re
from .. import harness, gen, hostile, model, removal, uni
from ..harness import Violation
from ..gen import NORTH, SOUTH_REV
from .c16 import color_line, colorize_design


def bstrip(s):
    a, b = 0, len(s)
    while a < b and uni.is_blank(s[a]):
        a += 1
    while b > a and uni.is_blank(s[b - 1]):
        b -= 1
    return s[a:b]


def lead(s):
    n = 0
    while n < len(s) and uni.is_blank(s[n]):
        n += 1
    return n


def noblank(s):
    return ''.join(ch for ch in s if not uni.is_blank(ch))


class Judge:
    """knows which parts of a line may be taken away"""

    def __init__(self, d, pad):
        sh = model.Shapes(d)
        vis = {k: [uni.strip_esc(s) for s in v] for k, v in sh.sh.items()}
        self.empty = sh.empty
        self.pad = pad
        self.west = set() if sh.empty['left'] else {bstrip(s) for k in ('wsw', 'w', 'wnw') for s in vis.get(k, [])} - {''}
        self.east = set() if sh.empty['right'] else {bstrip(s) for k in ('ene', 'e', 'ese') for s in vis.get(k, [])} - {''}
        self.left_w = max([0] + [len(s) for k in ('wsw', 'w', 'wnw', 'nw', 'sw') for s in vis.get(k, [])])
        self.top = self.lines(vis, NORTH, sh.elastic)
        self.bottom = self.lines(vis, SOUTH_REV, sh.elastic)
        self.top_h = 0 if sh.empty['top'] else len(vis['ne'])
        self.bottom_h = 0 if sh.empty['bottom'] else len(vis['se'])

    def lines(self, vis, side, elastic):
        out = []
        for i in range(len(vis[side[0]])):
            rx = ''
            for k in side:
                if k in vis and noblank(vis[k][i]):
                    rx += '(?:%s)%s' % (re.escape(noblank(vis[k][i])), '*' if k in elastic else '?')
            out.append(re.compile(rx))
        return out

    def border(self, s, side):
        return any(rx.fullmatch(noblank(s)) for rx in side)

    def derived(self, src, dst, maxindent):
        """can the output line dst have been made of the input line src?"""
        dst = uni.rtrim_blank(dst)
        core = bstrip(dst)
        s = bstrip(src)
        if not core:
            return s == '' or s in self.west or s in self.east or any(
                s.startswith(w) and (bstrip(s[len(w):]) in self.east or
                                     any(s.endswith(e) and len(w) + len(e) >= len(s) for e in self.east)) for w in self.west)
        off = lead(src)
        for w in [''] + sorted(self.west):
            if not s.startswith(w):
                continue
            for e in [''] + sorted(self.east):
                t = s[len(w):]
                if not t.endswith(e) or len(e) > len(t):
                    continue
                t = t[:len(t) - len(e)]
                if bstrip(t) != core:
                    continue
                col_in = off + len(w) + lead(t)
                col_out = lead(dst)
                if w:
                    limit = len(w) + maxindent + self.left_w + self.pad['left']
                elif self.west:
                    limit = maxindent + self.left_w + self.pad['left']     # blank line of the left side
                else:
                    limit = self.pad['left']
                if 0 <= col_in - col_out <= limit:
                    return True
        return False

    def explain(self, src, dst, kill):
        """None if the removal is all right, or a description of what is wrong"""
        full = [i for i, s in enumerate(src) if bstrip(s)]
        if not full:
            return None if [bstrip(s) for s in src] == [bstrip(s) for s in dst] else 'blank text changed'
        f, l = full[0], full[-1]
        maxindent = max(lead(s) for s in src)
        best = 'there are %d lines instead of %d to %d' % (len(dst), len(src) - self.top_h - self.bottom_h, len(src))
        deepest = -1
        for t in range(0, self.top_h + 1):
            if t and (f + t > len(src) or not self.border(src[f + t - 1], self.top)):
                break
            for b in range(0, self.bottom_h + 1):
                if b and (l + 1 - b < f + t or not self.border(src[l + 1 - b], self.bottom)):
                    break
                body = src[f + t:l + 1 - b]
                rest = src[max(l + 1, f + t):]      # the top side may be followed by blank lines that look like part of it
                killed = f + len(body) + len(rest) - len(dst)
                if killed < 0:
                    continue
                for ka in range(0, min(killed, len(body)) + 1):
                    kb = killed - ka
                    if kb > len(body) - ka:
                        continue
                    if not kill and (ka > self.pad['top'] or kb > self.pad['bottom']):
                        continue
                    if not all(self.derived(s, '', 0) for s in body[:ka] + (body[len(body) - kb:] if kb else [])):
                        continue
                    kept = src[:f] + body[ka:len(body) - kb] + rest
                    bad = next((i for i, (x, y) in enumerate(zip(kept, dst)) if not self.derived(x, y, maxindent)), None)
                    if bad is None:
                        return None
                    if bad > deepest:
                        deepest = bad
                        best = 'line %d %r cannot have been made of %r' % (bad + 1, dst[bad][:200], kept[bad][:200])
        return best


class Check(harness.Check):
    ID = 'C28'
    QUICK = 18000
    THOROUGH = 400000
    RULE = ('random or shipped design x boxes of that design (intact, damaged by editing, of text with border characters, nested, '
            'coloured), boxes of other designs and plain text x removal options; monitor: an explanation must exist in which '
            'each output line is an input line without shape lines and blanks at its ends, top and bottom border lines match '
            'the side\'s shapes, and only blank lines are dropped besides; non-trivial: there was text to be kept')
    NEEDS = dict(intact=1000, damaged=2000, foreign=800, plain=800, kept_blank=1500, colored=900, recoloured=600, nested=200,
                 changed=4000)
    MIN_NONTRIVIAL = 0.6

    def recolour(self, rng, before, after):
        """give the lines of the damaged box some of the colours they had, other ones, or none at all"""
        had = {uni.strip_esc(s): s for s in before}
        out = []
        for s in after:
            k = rng.random()
            v = had.get(s)
            if v is not None and k < 0.5:
                if '\x1b' in v and rng.random() < 0.3:
                    v = v.replace(rng.choice([t for t in uni.tokens(v) if t[0] == 'e'])[1], rng.choice(gen.SGR))
                out.append(v)
            elif k < 0.75:
                out.append(color_line(rng, s, False))
            else:
                out.append(s)
        return out

    def draw(self, c, args, text, color='--no-color'):
        r = c.boxes([color] + args, text)
        if r.rc or r.err:
            return None
        t = r.out.decode('utf-8', 'replace').split('\n')
        if t and t[-1] == '':
            t.pop()
        return t

    def case(self, c):
        rng = c.rng
        d, is_stock = removal.design(rng, stock_share=0.25)
        col = rng.random() < 0.3
        if col and not is_stock and rng.random() < 0.6:
            colorize_design(rng, d)
        cfg = hostile.STOCK if is_stock else c.cfg(gen.config_of(d))
        pr = gen.Profile(maxlines=6, maxlen=25, indent=0.4, comb=0.05, trail=0.1, punct=rng.choice([0.2, 0.6]))
        lines = gen.text_lines(rng, pr, 1)
        if col and rng.random() < 0.6:
            lines = [color_line(rng, s, False) if rng.random() < 0.6 else s for s in lines]
        drawcol = '--color' if col else '--no-color'
        base = ['-f', cfg, '-d', d.name]
        o = gen.options(rng, align=0.3, pad=0.3, size=0.3, indent=0.3)
        k = rng.random()
        if k < 0.2:
            t = self.draw(c, base + o.args(), '\n'.join(lines) + '\n', drawcol)
            kind = 'intact'
        elif k < 0.65:
            t = self.draw(c, base + o.args(), '\n'.join(lines) + '\n', drawcol)
            if t is not None:
                before = t
                if rng.random() < 0.15:
                    t2 = self.draw(c, base, '\n'.join(t) + '\n', drawcol)
                    if t2 is not None:
                        t = t2
                        c.count('nested')
                before = before + t
                t = [uni.strip_esc(s) for s in t] if col else t
                t = hostile.mutate_box(rng, t)
                if col:
                    t = self.recolour(rng, before, [uni.strip_esc(s) for s in t])
                    c.count('recoloured')
            kind = 'damaged'
        elif k < 0.82:
            d2, st2 = removal.design(rng, stock_share=0.6)
            cfg2 = hostile.STOCK if st2 else c.cfg(gen.config_of(d2), 'other.cfg')
            t = self.draw(c, ['-f', cfg2, '-d', d2.name], '\n'.join(lines) + '\n')
            kind = 'foreign'
        else:
            t = lines
            kind = 'plain'
            if rng.random() < 0.5:
                al = ''.join(removal.alphabet(d)) + '  xy'
                t = [''.join(rng.choice(al) for _ in range(rng.randint(0, 14))) for _ in range(rng.randint(1, 7))]
        if not t:
            c.nontrivial = False
            return
        t = [s for x in t for s in x.split('\n')]
        if any(uni.is_cntrl(ch) and ch not in '\t\x1b' for s in t for ch in s) or not col and '\x1b' in ''.join(t) and rng.random() < 0.7:
            t = [''.join(ch for ch in uni.strip_esc(s) if not uni.is_cntrl(ch) or ch == '\t') for s in t]
        if rng.random() < 0.1 and not col:
            t = [gen.SGR[0] + s + '\x1b[0m' if s.strip() and rng.random() < 0.7 else s for s in t]
        if '\x1b' in ''.join(t):
            c.count('colored')
        if any(s.endswith(tuple('\u2028\u2029\x85')) for s in t):
            return
        pad = {}
        args = ['-r']
        if rng.random() < 0.3:
            n = rng.randint(0, 3)
            args += ['-p', 'a%d' % n]
            pad = dict(top=n, bottom=n, left=n, right=n)
        if rng.random() < 0.3:
            args += ['-i', rng.choice(['box', 'text', 'none'])]
        j = Judge(d, dict({s: d.padding.get(s, 0) for s in ('top', 'right', 'bottom', 'left')}, **pad))
        kill = not (j.empty['top'] and j.empty['bottom'])
        if rng.random() < 0.5:
            kill = rng.random() < 0.3
            args += ['-k', 'yes' if kill else 'no']
        out_color = col and rng.random() < 0.5
        r = c.boxes(['--color' if out_color else '--no-color'] + base + args, '\n'.join(t) + '\n')
        if r.rc or r.err:
            raise Violation('removal: status %d, %r' % (r.rc, r.err[:200]), key='status')
        got = r.out.decode('utf-8', 'replace').split('\n')
        if got[-1] == '':
            got.pop()
        src = [uni.expand_tabs(uni.strip_esc(s), 8) for s in t]
        c.nontrivial = any(s.strip() for s in src)
        c.count(kind)
        if not kill:
            c.count('kept_blank')
        if [uni.strip_esc(s) for s in got] != [uni.strip_esc(s) for s in t]:
            c.count('changed')
        c.seen(kind, kill, ''.join(x[0] for x in j.empty if j.empty[x]))
        if out_color:
            got = [uni.strip_esc(s) for s in got]
        if any('\x1b' in s for s in got):
            raise Violation('escape sequence in --no-color output', key='escape')
        why = j.explain(src, got, kill)
        if why:
            raise Violation('%s box: %s' % (kind, why), key='text', source='\n'.join(src))
