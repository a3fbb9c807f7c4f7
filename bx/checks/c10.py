"""C10: removal without naming a design."""
import copy
from .. import harness, gen, model, removal, uni
from ..drawing import diff
from ..harness import Violation
from .c16 import color_line

POOLS = ['-=+|', '*#', '/\\', ':~', '<>', '()', '[]', '{}', '^.', '!;', '\u2500\u2502\u250c\u2510\u2514\u2518', '\u2588\u2591',
         '\u2022\u25c6', '\uff0d\uff5c', '&%', '$@', '?,']


class Check(harness.Check):
    ID = 'C10'
    QUICK = 16000
    THOROUGH = 150000
    RULE = ('configurations of 2 to 6 random or shipped designs with disjoint sets of border characters, monochrome or coloured, in '
            'two random orders; a box drawn with one of them around text that uses none of these characters, then moved, '
            'surrounded by blank lines, edited, damaged or stripped of its colour: removing and mending without naming the '
            'design must give the same bytes and status as with the design named; text without a box must be refused '
            'with a message and without output; non-trivial: an autodetected removal was compared')
    NEEDS = dict(intact=1500, refused=400, mended=500, damaged=300, moved=300, coloured=200, one_sided=50, last_in_file=300,
                 stock=300, mono_of_coloured=40, accidental_hit=150, coloured_text=300, trailing=300, only_one_shape=100,
                 only_a_corner=50)
    MIN_NONTRIVIAL = 0.6

    def designs(self, rng):
        pools = POOLS[:]
        rng.shuffle(pools)
        n = rng.choice([2, 2, 3, 4, 6])
        out, used = [], set()
        for i in range(n):
            d = None
            if rng.random() < 0.2:
                s = rng.choice(removal.STOCK())
                if not (removal.alphabet(s) & used):
                    d = copy.deepcopy(s)
                    d.stock = True
                    d.aliases = []
                    pools = [p for p in pools if not set(p) & removal.alphabet(d)]
            if d is None:
                if len(pools) < 2:
                    break
                alpha = ''.join(pools.pop() for _ in range(rng.choice([1, 1, 2])) if pools)
                d = gen.design(rng, alpha=alpha, color=rng.choice([0, 0.4]))
                d.stock = False
                if rng.random() < 0.15:
                    only_one_shape(rng, d)
            a = removal.alphabet(d)
            if a & used or not a:
                continue
            used |= a
            d.name = 'd%d' % i
            d.sample = ['sample']
            out.append(d)
        return out, used

    def case(self, c):
        rng = c.rng
        ds, used = self.designs(rng)
        if len(ds) < 2:
            c.nontrivial = False
            return
        order = ds[:]
        rng.shuffle(order)
        cfg = c.cfg('\n'.join(gen.config_of(d) for d in order))
        order2 = ds[:]
        rng.shuffle(order2)
        cfg2 = c.cfg('\n'.join(gen.config_of(d) for d in order2), 'other.cfg')
        d = rng.choice(ds)
        if rng.random() < 0.3:
            d = rng.choice([x for x in ds if is_coloured(x)] or ds)
        lines = removal.text(rng, used, comb=0.05)
        if lines is None:
            c.nontrivial = False
            return
        coloured = is_coloured(d)
        o = gen.options(rng, align=0, pad=0.3, size=0.2, indent=0.3)
        accident = rng.random() < (0.5 if coloured else 0.25) and self.accident(rng, d, [x for x in ds if x is not d], lines)
        col = ['--color']
        if coloured:
            if rng.random() < (0.8 if accident else 0.3):
                col = ['--no-color']
                c.count('mono_of_coloured')
        opt = o.args()
        single = not d.stock and sum(d.vis.values()) == 1
        if not accident and rng.random() < (0.5 if single else 0.25):
            # colours in the text, but not in the design
            lines = [color_line(rng, s, False) if rng.random() < 0.6 else s for s in lines]
            c.count('coloured_text')
        text = '\n'.join(lines) + '\n'
        c.seen(len(ds), order.index(d), ''.join(k for k in ('top', 'right', 'bottom', 'left') if d.vis[k]) if not d.stock
               else 'stock', coloured)

        if not accident and rng.random() < 0.15:
            cmd = rng.choice([['-r'], ['-m'], ['-r', '-k', 'no']])
            r = c.boxes(['--color', '-f', cfg] + opt + cmd, text)
            if r.rc != 1 or r.out or not r.err.strip():
                raise Violation('no design matches the text, but status %d, stdout %r, stderr %r' %
                                (r.rc, r.out[:200], r.err[:200]), key='refused')
            c.count('refused')

        r = c.boxes(col + ['-f', cfg, '-d', d.name] + opt, text)
        if r.rc or r.err:
            c.nontrivial = False
            if model_unreachable(d, lines, o):
                return
            raise Violation('drawing failed: %r' % r.err[:200], key='draw')
        box = r.out.decode('utf-8', 'replace')
        kind = rng.choice(['intact', 'intact', 'intact', 'moved', 'damaged'] if not accident else ['intact', 'moved'])
        bl = box.split('\n')[:-1]
        if kind == 'moved':
            k = rng.randint(0, 6)
            bl = [''] * rng.randint(0, 2) + [' ' * k + s if s.strip() else s for s in bl] + [''] * rng.randint(0, 2)
        elif kind == 'damaged':
            for _ in range(rng.randint(1, 3)):
                i = rng.randrange(len(bl))
                m = rng.random()
                if m < 0.3 and len(bl) > 1:
                    bl.pop(i)
                elif m < 0.6:
                    bl.insert(i, removal.text(rng, used, maxlines=1) and lines[0])
                elif '\x1b' not in bl[i]:
                    bl[i] = bl[i][:len(bl[i]) // 2]
        if rng.random() < (0.4 if single else 0.15):
            bl = [s + ' ' * rng.randint(0, 3) for s in bl]
            c.count('trailing')
        box2 = '\n'.join(bl) + '\n'
        if '\x1b' in box2:
            c.count('coloured')
        cmd = rng.choice([['-r'], ['-r'], ['-m'], ['-r', '-k', 'no']])
        if coloured or '\x1b' in box2:
            if kind != 'damaged':
                kind = 'col-' + kind
        want = c.boxes(['--color', '-f', cfg, '-d', d.name] + opt + cmd, box2)
        for cf in (cfg, cfg2):
            got = c.boxes(['--color', '-f', cf] + opt + cmd, box2)
            if (got.rc, got.out, got.err) == (want.rc, want.out, want.err):
                continue
            if got.rc == 1 and not got.out and (kind == 'damaged' or not self.detectable(d, lines, o, kind)):
                c.count('undetectable')
                c.nontrivial = False
                return
            raise Violation('%s without naming design %s: status %d instead of %d, stderr %r; %s' %
                            (' '.join(cmd), d.name, got.rc, want.rc, got.err[:200],
                             diff(want.out.decode('utf-8', 'replace'), got.out.decode('utf-8', 'replace'))),
                            key='autodetect:' + kind)
        if accident:
            c.count('accidental_hit')
        c.count('intact' if 'intact' in kind else 'moved' if 'moved' in kind else kind)
        if cmd == ['-m']:
            c.count('mended')
        if order[-1] is d:
            c.count('last_in_file')
        if d.stock:
            c.count('stock')
        elif sum(d.vis.values()) == 1:
            c.count('one_sided')
        if getattr(d, 'only', None):
            c.count('only_one_shape')
            if d.only in ('nw', 'ne', 'sw', 'se'):
                c.count('only_a_corner')

    def accident(self, rng, d, others, lines):
        """make one line of the text look as if it had the left side of another design, once"""
        plain = lambda s: uni.strip_esc(s).strip(' ')
        if d.stock:
            return False
        corners = sum(1 for k, a, b in (('nw', 'top', 'left'), ('ne', 'top', 'right'), ('sw', 'bottom', 'left'),
                                        ('se', 'bottom', 'right'))
                      if d.vis[a] and d.vis[b] and any(not uni.blank(uni.strip_esc(s)) for s in d.shapes.get(k, [])))
        if corners < 2:
            return False             # must score more than the accidental hit
        for e in others:
            west = [plain(s) for k in ('wnw', 'w', 'wsw') for s in e.shapes.get(k, [])]
            west = [s for s in west if s]
            if not west:
                continue
            w = rng.choice(west)
            if sum(1 for s in west if w.startswith(s) or s.startswith(w)) > 1:
                continue
            if any(plain(s) and plain(s) in w for k in gen.NORTH + gen.SOUTH for s in e.shapes.get(k, [])):
                continue             # might be more than one hit
            lines.insert(rng.randrange(len(lines) + 1), ' ' * uni.indent_of(lines[0]) + w + ' x')
            return True
        return False

    def detectable(self, d, lines, o, kind):
        """is there a piece of the box that identifies it beyond doubt? (see DESIGN.md)"""
        b = model.draw(d, lines, o)
        e = b.sh.empty
        vis = lambda s: not uni.blank(s)
        plain = uni.strip_esc
        top = 0 if e['top'] else b.sh.top_h
        bot = 0 if e['bottom'] else b.sh.bottom_h
        body = b.rows[top:len(b.rows) - bot]
        if any(vis(r[1]) and vis(r[2]) for r in body) or any(vis(r[3]) for r in body):
            return True
        for side in ('top', 'bottom'):
            for k, n in b.counts[side].items():
                # an elastic shape is recognised only if it occurs twice in a row
                # (without blanks between them, because these might be indentation)
                if e[side]:
                    continue
                if k not in b.sh.elastic and any(vis(s) for s in b.sh.sh[k]):
                    return True
                if n > 1 and any(vis(s) and plain(s).strip() == plain(s) for s in b.sh.sh[k]):
                    return True
        for k in ('nw', 'ne', 'sw', 'se'):
            # in an otherwise blank row, the blanks at the end of a corner are not there
            if any(vis(s) and (k in ('ne', 'se') or not plain(s).endswith(' ') or not self.only(d, k)) for s in b.sh.sh[k]):
                return True
        return False

    @staticmethod
    def only(d, k):
        return getattr(d, 'only', None) == k


def only_one_shape(rng, d):
    """leave only one of the shapes visible, preferably a corner"""
    vis = [k for k, v in d.shapes.items() if any(not uni.blank(uni.strip_esc(s)) for s in v)]
    corners = [k for k in vis if k in ('nw', 'ne', 'sw', 'se')]
    if not vis:
        return
    keep = rng.choice(corners if corners and rng.random() < 0.8 else vis)
    for k in vis:
        if k != keep:
            d.shapes[k] = [' ' * uni.width(uni.strip_esc(s)) for s in d.shapes[k]]
    d.only = keep


def is_coloured(d):
    return any('\x1b' in s for v in d.shapes.values() for s in v)


def model_unreachable(d, lines, o):
    try:
        model.draw(d, lines, o)
        return False
    except model.Unreachable:
        return True
