"""C16: colour affects only escape sequences."""
from .. import harness, gen, hostile, model, removal, stock, uni
from ..drawing import diff, draw_args
from ..harness import Violation

OFF = ['\x1b[0m', '\x1b[m', '\x1b[39m', '\x1b[49m', '\x1b[22m', '\x1b[23m', '\x1b[24m', '\x1b[25m', '\x1b[27m', '\x1b[28m', '\x1b[29m',
       '\x1b[54m', '\x1b[55m', '\x1b[59m', '\x1b[65m', '\x1b[75m', '\x1b[10m', '\x1b[39;49m', '\x1b[0;10m', '\x1b[22;24;27m']
ODD = ['\x1b[K', '\x1b[1K', '\x1b(B', '\x1b[?25h', '\x1bM', '\x1b[38;2;10;200;30m', '\x1b[1;3;4;5;9;31;42m',
       '\x1b\\', '\x1b]', '\x1b^', '\x1b_', '\x1b@', '\x1bZ', '\x1b[~', '\x1b[@']


def color_line(rng, s, lead_ok):
    """insert escape sequences at random character boundaries up to the last visible character, plus an optional reset
    at the end; with lead_ok also in front of or inside of the indentation"""
    t = s.rstrip()
    if not t:
        return s
    first = len(t) - len(t.lstrip())
    out = []
    for i, ch in enumerate(t):
        if (i >= first or lead_ok) and rng.random() < 0.2:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                # a resetting sequence belongs to the character before it, so it would go with the indentation
                out.append(rng.choice(gen.SGR if i == first else gen.SGR + OFF + (ODD if rng.random() < 0.2 else [])))
        out.append(ch)
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            out.append(rng.choice(OFF))
    return ''.join(out) + s[len(t):]


def colorize_design(rng, d):
    if rng.random() < 0.3:
        # a single line of a single shape
        cand = [(k, i) for k in d.shapes for i, s in enumerate(d.shapes[k]) if s.strip()]
        late = [(k, i) for k, i in cand if i > 0]
        if cand:
            k, i = rng.choice(late if late and rng.random() < 0.7 else cand)
            s = d.shapes[k][i]
            t = s.rstrip()
            d.shapes[k] = d.shapes[k][:i] + [rng.choice(gen.SGR) + t + '\x1b[0m' + s[len(t):]] + d.shapes[k][i + 1:]
            return
    for k in d.shapes:
        r = rng.random()
        if r < 0.2:
            continue
        new = []
        for s in d.shapes[k]:
            if not s.strip():
                new.append(s)
            elif r < 0.7:
                t = s.rstrip()
                new.append(rng.choice(gen.SGR) + t + rng.choice(OFF[:2]) + s[len(t):])
            else:
                t = s.rstrip()
                i = rng.randint(0, len(t) - 1)
                new.append(t[:i] + rng.choice(gen.SGR) + t[i:] + '\x1b[0m' + s[len(t):])
        d.shapes[k] = new


def escapes(s):
    return [t for k, t in uni.tokens(s) if k == 'e']


def subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)


class Check(harness.Check):
    ID = 'C16'
    QUICK = 8000
    THOROUGH = 120000
    RULE = ('random or shipped design (plain or with coloured shapes) x random text, plain and with escape sequences inserted '
            'at random character boundaries x all drawing options; monitors: coloured text draws the same box as plain text, '
            '--color output without its escape sequences equals --no-color output (draw, remove, mend, list), the text\'s and the '
            'design\'s sequences are passed through in order, removal of coloured boxes, default from TERM; non-trivial: '
            'escape sequences were present')
    NEEDS = dict(removed_pass=3000, escapes_seen=20000, removed=800, mended=800, listings=100, term=100, lead=200)
    MIN_NONTRIVIAL = 0.6

    def prepare(self):
        self.stock_color = [d for d in stock.usable(color=True) if any('\x1b' in s for v in d.shapes.values() for s in v)]

    def txt(self, r, what):
        if r.rc != 0 or r.err:
            raise Violation('%s: status %d, %r' % (what, r.rc, r.err[:200]))
        return r.out.decode('utf-8', 'replace')

    def case(self, c):
        rng = c.rng
        r = rng.random()
        if r < 0.1 and self.stock_color:
            d = rng.choice(self.stock_color)
        elif r < 0.2:
            d = rng.choice(stock.usable())
        else:
            d = gen.design(rng, maxdim=2, alpha=rng.choice(removal.BORDERS))
            if rng.random() < 0.6:
                colorize_design(rng, d)
        cfg = c.cfg(gen.config_of(d))
        pr = gen.Profile(maxlines=5, maxlen=25, comb=0.05, indent=0.4, tabs=rng.choice([0, 0, 0.2]), esc=0.0)
        clean = rng.random() < 0.6
        lines = removal.text(rng, removal.alphabet(d)) if clean else gen.text_lines(rng, pr)
        if lines is None:
            c.nontrivial = False
            return
        if rng.random() < 0.01:
            lines = gen.enlarge(rng, lines, removal.alphabet(d), False)
            c.count('large')
        lead_ok = rng.random() < 0.3
        which = rng.choice(['all', 'all', 'one', 'last'])      # which lines have colours
        i = len(lines) - 1 if which == 'last' else rng.randrange(len(lines))
        clines = [color_line(rng, s, lead_ok) if which == 'all' or k == i else s for k, s in enumerate(lines)]
        if lead_ok:
            c.count('lead')
        o = gen.options(rng, align=0.4, pad=0.3, size=0.2, indent=0.4, tab=0.1)
        args = ['-f', cfg, '-d', d.name] + o.args()
        t, tc = '\n'.join(lines) + '\n', '\n'.join(clines) + '\n'
        r0 = c.boxes(['--no-color'] + args, t)
        if r0.rc != 0:
            c.nontrivial = False
            return
        base = self.txt(r0, 'plain')
        c.nontrivial = '\x1b' in tc or '\x1b' in repr(d.shapes)
        if '\x1b' in base:
            raise Violation('escape sequence in --no-color output of a text without any')
        got = self.txt(c.boxes(['--no-color'] + args, tc), 'coloured text')
        if got != base:
            raise Violation('coloured text is drawn differently (--no-color): %s' % diff(base, got), key='layout')
        col = self.txt(c.boxes(['--color'] + args, tc), 'coloured text --color')
        if uni.strip_esc(col) != base:
            raise Violation('--color output without escape sequences differs from --no-color output: %s' %
                            diff(base, uni.strip_esc(col)), key='strip')
        c.count('escapes_seen', len(escapes(col)))
        self.passed(c, d, lines, clines, o, col, lead_ok)
        self.terms(c, rng, args, tc, base, col)
        if clean and base.split('\n')[0].strip() and self.padded(d, lines, o):
            self.removal(c, rng, d, args, base, col, lines, None if lead_ok else clines)
        if rng.random() < 0.15:
            self.listing(c, rng, cfg, d)

    def passed(self, c, d, lines, clines, o, col, lead_ok):
        """sequences are passed through; whole output according to the model where it applies"""
        want = []
        for s in clines:
            want += escapes(s) if s.strip() else []
        have = escapes(col)
        mode = o.indent or d.indent or 'box'
        if not lead_ok or (mode == 'text' and not o.j):
            if not subsequence(want, have):
                raise Violation('escape sequences of the text are missing or in a different order', key='pass',
                                got=repr(have), want=repr(want))
        if not lead_ok and '\t' not in ''.join(lines):
            try:
                b = model.draw(d, clines, o)
            except model.Unreachable:
                return
            m = model.render(b)
            # blanks at the line end are trimmed also in front of escape sequences: compare cell by cell
            if [norm(s) for s in m.split('\n')] != [norm(s) for s in col.split('\n')]:
                raise Violation('coloured box: %s' % diff(m, col), key='model')
            c.count('model')

    def padded(self, d, lines, o):
        """was the padding left in place? (it is given up for the sake of a requested size)"""
        try:
            return model.draw(d, lines, o).pad == model.eff_padding(d, o)
        except model.Unreachable:
            return False

    def terms(self, c, rng, args, tc, base, col):
        if rng.random() > 0.15:
            return
        for term, want in (('xterm-256color', col), ('xterm', col), ('linux', col), ('dumb', base), ('vt100', base)):
            r = c.boxes(args, tc, env={'TERM': term})
            got = self.txt(r, 'TERM=' + term)
            if got != want:
                raise Violation('TERM=%s: %s' % (term, diff(want, got)), key='term')
            got = self.txt(c.boxes(['--no-color'] + args, tc, env={'TERM': term}), 'TERM=' + term)
            if got != base:
                raise Violation('--no-color with TERM=%s: %s' % (term, diff(base, got)), key='term')
        c.count('term')

    def removal(self, c, rng, d, args, base, col, lines, clines):
        """the coloured box is removed and mended like the monochrome one"""
        if any(len(s) > 16300 for s in (base + '\n' + col).encode().split(b'\n')):
            return                     # longer lines would be taken for several ones
        for act, name in (('-r', 'removed'), ('-m', 'mended')):
            p = c.boxes(['--no-color'] + args + [act], base)
            q = c.boxes(['--no-color'] + args + [act], col)
            k = c.boxes(['--color'] + args + [act], col)
            if (p.rc, p.err) != (q.rc, q.err) or (p.rc, p.err) != (k.rc, k.err):
                raise Violation('%s: monochrome box status %d %r, coloured box %d %r, --color %d %r' % (name, p.rc, p.err[:200],
                                q.rc, q.err[:200], k.rc, k.err[:200]), key=name)
            if p.rc:
                continue
            pt, qt, kt = (x.out.decode('utf-8', 'replace') for x in (p, q, k))
            if '\x1b' in qt or '\x1b' in pt:
                raise Violation('%s: escape sequence in --no-color output' % name, key=name)
            if rs(uni.strip_esc(kt)) != rs(qt):
                raise Violation('%s: --color output without escape sequences differs: %s' % (name, diff(qt, uni.strip_esc(kt))),
                                key=name)
            if rs(qt) != rs(pt):
                raise Violation('%s: coloured box gives a different result: %s' % (name, diff(pt, qt)), key=name)
            c.count(name)
            if act == '-r' and clines and [x.strip() for x in qt.split('\n') if x.strip()] == [x.strip() for x in lines if x.strip()]:
                # the box was found and removed completely, so the text's own colours must be back
                want = [e for s in clines if s.strip() for e in escapes(s)]
                if not subsequence(want, escapes(kt)):
                    raise Violation('removed: escape sequences of the text are missing', key='removed-pass', got=repr(escapes(kt)), want=repr(want))
                c.count('removed_pass', len(want))

    def listing(self, c, rng, cfg, d):
        f = rng.choice([cfg, hostile.STOCK])
        for a in (['-l'], ['-l', '-d', d.name] if f == cfg else ['-l', '-d', rng.choice(stock.designs()).name]):
            p = c.boxes(['--no-color', '-f', f] + a)
            k = c.boxes(['--color', '-f', f] + a)
            if p.rc or k.rc:
                raise Violation('listing fails: %r %r' % (p.err[:200], k.err[:200]), key='list')
            pt, kt = p.out.decode('utf-8', 'replace'), k.out.decode('utf-8', 'replace')
            if '\x1b' in pt:
                raise Violation('escape sequence in --no-color listing', key='list')
            if uni.strip_esc(kt) != pt:
                raise Violation('--color listing without escape sequences differs: %s' % diff(pt, uni.strip_esc(kt)), key='list')
            c.count('listings')


def rs(t):
    return [s.rstrip() for s in t.split('\n')]


def norm(s):
    """per visible, non-blank character the sequences in front of it"""
    out = []
    col = 0
    pend = []
    for k, t in uni.tokens(s):
        if k == 'e':
            pend.append(t)
        else:
            if not uni.is_blank(t):
                out.append((col, t))
            if pend:
                out.append((col, ''.join(pend)))
                pend = []
            col += 1
    return out
