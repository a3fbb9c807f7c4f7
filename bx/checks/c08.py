"""C08: removing a box restores the boxed text."""
import copy
from .. import harness, gen, hostile, model, removal, uni
from ..drawing import diff
from ..harness import Violation
from ..removal import strip_blank_ends
from .c16 import color_line, colorize_design


class Check(harness.Check):
    ID = 'C08'
    QUICK = 18000
    THOROUGH = 500000
    RULE = ('random or shipped design x random text without border characters (indented, blank lines, double-width, combining '
            'characters, tabs) x padding/size/vertical alignment/indentation mode x LF/CRLF x final line break x further '
            'indentation and surrounding blank lines of the box: draw, remove with the same design and options, compare with '
            'the text; with blank-line removal off the exact number of blank lines is compared, too; removing twice and '
            'removing in a second process give the same; non-trivial: a box was drawn and removed')
    NEEDS = dict(roundtrips=6000, exact_blank=1500, shifted=500, indented=2000, sized=500, no_left=300, stock=800, coloured=1000,
                 large=40)
    MIN_NONTRIVIAL = 0.6

    def case(self, c):
        rng = c.rng
        d, is_stock = removal.design(rng)
        cfg = hostile.STOCK if is_stock else c.cfg(gen.config_of(d))
        lines = removal.text(rng, removal.alphabet(d), tabs=rng.choice([0, 0, 0, 0.2]))
        if lines is None:
            c.nontrivial = False
            return
        if rng.random() < 0.01:
            lines = gen.enlarge(rng, lines, removal.alphabet(d))
            c.count('large')
        o = gen.options(rng, align=0, pad=0.4, size=0.3, indent=0.3)
        o.v = rng.choice('ttcb')
        o.j = ''
        o.align = None if o.v == 't' else 'v' + o.v
        try:
            b = model.draw(d, lines, o)
        except model.Unreachable:
            c.nontrivial = False
            return
        if b.pad != model.eff_padding(d, o):      # padding was given up for the sake of the size
            c.nontrivial = False
            return
        if is_stock:
            c.count('stock')
        nl = rng.choice(['\n', '\n', '\n', '\r\n'])
        final = rng.random() < 0.8 or lines[-1] == ''
        args = ['--no-color', '-f', cfg, '-d', d.name] + o.args()
        tlines = lines
        if rng.random() < 0.25 and not any('\t' in s for s in lines):
            # colours in the text and maybe in the design: the text is the same without its escape sequences
            args[0] = rng.choice(['--color', '--color', '--no-color'])
            if not is_stock and rng.random() < 0.5:
                d = copy.deepcopy(d)
                colorize_design(rng, d)
                c.cfg(gen.config_of(d))
            which = rng.choice(['all', 'one', 'last', 'none'])
            i = len(lines) - 1 if which == 'last' else rng.randrange(len(lines))
            tlines = [color_line(rng, s, False) if which == 'all' or (which != 'none' and k == i) else s for k, s in enumerate(lines)]
            c.count('coloured')
        r = c.boxes(args + (['-e', 'CRLF'] if nl == '\r\n' else []), nl.join(tlines) + (nl if final else ''))
        if rng.random() < 0.3:
            args[0] = rng.choice(['--color', '--no-color'])
        if r.rc or r.err:
            raise Violation('drawing: status %d, %r' % (r.rc, r.err[:200]))
        box = r.out.decode('utf-8', 'replace')
        if any(len(s) > 16300 for s in box.encode().split(b'\n')):
            return                     # longer lines would be taken for several ones
        boxlines = box.split(nl)
        if final:
            boxlines.pop()

        mode = o.indent or d.indent or 'box'
        rm_mode = o.indent or d.indent          # what removal is told
        text = [uni.rtrim_space(uni.expand_tabs(uni.rtrim_space(s), o.tab)) for s in lines]
        ind = removal.common_indent(text)
        if ind:
            c.count('indented')
        want = [s[ind:] for s in text] if mode == 'none' else list(text)
        if b.sh.empty['left']:
            c.count('no_left')
        c.seen(d.name if is_stock else 'random', ''.join(k[0] for k in b.sh.empty if b.sh.empty[k]), mode, bool(o.size), nl)

        # blank lines at the start or end of the box cannot be told from the surroundings
        solid = bool(uni.strip_esc(boxlines[0]).strip() and uni.strip_esc(boxlines[-1]).strip())
        # plain round trip
        got = self.remove(c, args, nl, box)
        self.compare(c, strip_blank_ends(want), strip_blank_ends(got), 'roundtrip')
        c.count('roundtrips')
        if o.size:
            c.count('sized')
        if solid and rng.random() < 0.3:
            # the text that comes out has no blank lines at its ends unless top and bottom are open
            if not (b.sh.empty['top'] and b.sh.empty['bottom']) and not (got and got[0].strip() and got[-1].strip()):
                raise Violation('blank lines remain at the ends of the text', key='killblank')

        # blank lines are kept: exact comparison
        if solid and rng.random() < 0.4:
            got = self.remove(c, args + ['-k', rng.choice(['no', 'false', '0', 'off'])], nl, box)
            nlead = b.above
            ntrail = b.height - len(lines) - b.above
            body = [''] * nlead + [s.rstrip() for s in want] + [''] * ntrail
            for side in (0, -1):                  # padding lines are not part of the content
                for _ in range(b.pad['top' if side == 0 else 'bottom']):
                    if body and body[side] == '':
                        body.pop(side)
            self.compare(c, body, got, 'exact')
            c.count('exact_blank')
        if solid and rng.random() < 0.2:
            got = self.remove(c, args + ['-k', rng.choice(['yes', 'true', '1', 'on'])], nl, box)
            self.compare(c, strip_blank_ends(want), got, 'killblank')

        # the box is moved to the right and gets blank lines around it
        if rng.random() < 0.25 and not b.sh.empty['left'] and rm_mode in (None, 'box'):
            k = rng.randint(1, 7)
            moved = [' ' * k + s if uni.strip_esc(s).strip() else s for s in boxlines]
            na, nb = rng.choice([(0, 0), (1, 0), (0, 2), (2, 1)])
            t = nl.join([''] * na + moved + [''] * nb) + nl
            got = self.remove(c, args, nl, t)
            self.compare(c, strip_blank_ends([' ' * k + s if s else s for s in want]), strip_blank_ends(got), 'moved box')
            c.count('shifted')

    def remove(self, c, args, nl, box):
        r = c.boxes(args + ['-r'] + (['-e', 'CRLF'] if nl == '\r\n' else []), box)
        if r.rc or r.err:
            raise Violation('removal: status %d, %r' % (r.rc, r.err[:200]))
        t = uni.strip_esc(r.out.decode('utf-8', 'replace')).split(nl)
        if t and t[-1] == '' and box.endswith(nl):
            t.pop()
        return t

    def compare(self, c, want, got, what):
        got = [s.rstrip() for s in got]
        if got != [s.rstrip() for s in want]:
            raise Violation('%s: %s' % (what, diff('\n'.join(want), '\n'.join(got))), key=what)
