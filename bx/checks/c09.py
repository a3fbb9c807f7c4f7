"""C09: mending a box equals removing it and drawing it again."""
from .. import harness, gen, hostile, model, removal, uni
from ..drawing import diff
from ..harness import Violation


class Check(harness.Check):
    ID = 'C09'
    QUICK = 10000
    THOROUGH = 300000
    RULE = ('random or shipped design x random text without border characters x padding/size/vertical alignment/indentation '
            'mode/tab mode x LF/CRLF x final line break; monitors: mending the drawn box reproduces it; mending a box whose body '
            'was edited (text replaced, lines inserted or deleted, right side displaced) gives the box drawn around the edited '
            'text, and mending that again changes nothing; on any box, damaged box or other text, mending with any options '
            'equals removing (blank lines kept) and drawing with these options; non-trivial: a box was mended')
    NEEDS = dict(intact=3000, edited=2500, composed=3000, damaged=800, grown=500, inserted=500, deleted=300, stock=500, crlf=300, large=20)
    MIN_NONTRIVIAL = 0.6

    def run(self, c, args, nl, text, what):
        r = c.boxes(args + (['-e', 'CRLF'] if nl == '\r\n' else []), text)
        if r.rc or r.err:
            raise Violation('%s: status %d, %r' % (what, r.rc, r.err[:200]), key='status')
        return r.out.decode('utf-8', 'replace')

    def case(self, c):
        rng = c.rng
        d, is_stock = removal.design(rng)
        cfg = hostile.STOCK if is_stock else c.cfg(gen.config_of(d))
        used = removal.alphabet(d)
        lines = removal.text(rng, used)
        if lines is None:
            c.nontrivial = False
            return
        if rng.random() < 0.01:
            lines = gen.enlarge(rng, lines, used, False)
            c.count('large')
        o = gen.options(rng, align=0, pad=0.4, size=0.3, indent=0.3, tab=0.2)
        o.v = rng.choice('ttcb')
        o.align = None if o.v == 't' else 'v' + o.v
        try:
            b = model.draw(d, lines, o)
        except model.Unreachable:
            c.nontrivial = False
            return
        nl = rng.choice(['\n', '\n', '\n', '\r\n'])
        final = rng.random() < 0.8 or lines[-1] == ''
        args = ['--no-color', '-f', cfg, '-d', d.name] + o.args()
        box = self.run(c, args, nl, nl.join(lines) + (nl if final else ''), 'drawing')
        if any(len(s) > 16300 for s in box.encode().split(b'\n')):
            return                     # longer lines would be taken for several ones
        boxlines = box.split(nl)
        if final:
            boxlines.pop()
        solid = bool(boxlines[0].strip() and boxlines[-1].strip())
        c.seen(d.name if is_stock else 'random', ''.join(k[0] for k in b.sh.empty if b.sh.empty[k]), o.indent or d.indent, bool(o.size))

        # surplus blank lines of an over-sized box count as text, which may lead to padding being given up
        nbody = b.height - b.pad['top'] - b.pad['bottom']
        full = [''] * (b.above - b.pad['top']) + lines
        full += [''] * (nbody - len(full))
        if solid and b.pad == model.eff_padding(d, o) and not self.gave_up(d, o, full):
            got = self.run(c, args + ['-m'], nl, box, 'mending')
            if got != box:
                raise Violation('mending an intact box changed it: %s' % diff(box, got), key='intact', expected=box)
            c.count('intact')
            if is_stock:
                c.count('stock')
            if nl == '\r\n':
                c.count('crlf')
            if rng.random() < 0.6:
                self.edited(c, d, o, b, lines, used, args, nl, final)

        # composition, for whatever there is in the input
        t = box
        if rng.random() < 0.4:
            t = '\n'.join(hostile.mutate_box(rng, box.replace('\r', '').split('\n'))).replace('\x1b', '')
            if any(uni.is_cntrl(ch) and ch not in '\t\n' for ch in t):
                return
            t = t.replace('\n', nl)
            c.count('damaged')
        if rng.random() < 0.5:
            o2 = gen.options(rng, align=0.4, pad=0.4, size=0.3, indent=0.3, tab=0.2)
            if o2.tabexp == 'k':       # tabs in blank lines are trimmed on input, so they cannot be kept
                o2.tabexp = 'e'
            args2 = ['--no-color', '-f', cfg, '-d', d.name] + o2.args()
        else:
            args2 = args
            if o.tabexp == 'k':
                return
        e = ['-e', 'CRLF'] if nl == '\r\n' else []
        m = c.boxes(args2 + e + ['-m'], t)
        r = c.boxes(args2 + e + ['-r', '-k', 'no'], t)
        if r.rc or r.err:
            raise Violation('removal: status %d, %r' % (r.rc, r.err[:200]), key='status')
        if not t.endswith(nl) and not r.out.split(nl.encode())[-1].strip():
            return        # an unterminated empty line cannot be fed to the second run
        p = c.boxes(args2 + e, r.out)
        if (m.rc, m.err) != (p.rc, p.err) or m.out != p.out:
            raise Violation('mending differs from removing and drawing: status %d/%d, %s' % (m.rc, p.rc,
                            diff(p.out.decode('utf-8', 'replace'), m.out.decode('utf-8', 'replace'))), key='composed')
        c.count('composed')

    def edited(self, c, d, o, b, lines, used, args, nl, final):
        rng = c.rng
        top = 0 if b.sh.empty['top'] else b.sh.top_h
        rows = list(b.rows)
        first = top + b.above
        nb = len(rows) - (0 if b.sh.empty['bottom'] else b.sh.bottom_h)
        head, body, rest, foot = rows[:first], rows[first:first + len(lines)], rows[first + len(lines):nb], rows[nb:]
        new = []       # (row to take the sides from, text)
        txt = [s for s in b.text]
        for row, s in zip(body, txt):
            k = rng.random()
            if k < 0.35:
                new.append((row, s))
            elif k < 0.6:
                t = removal.text(rng, used, maxlines=1, maxlen=rng.choice([5, 25, 60]), indent=0.2, blank=0.05)
                new.append((row, uni.rtrim_space(t[0]) if t else s))
            elif k < 0.7:
                new.append((row, s + s))
            elif k < 0.8 and len(body) > 1:
                c.count('deleted')
            elif k < 0.9:
                new.append((row, s))
                new.append((row, s[::-1].strip() if not any(uni.cwidth(x) == 0 for x in s) else s))
                c.count('inserted')
            else:
                new.append((row, s[:len(s) // 2].rstrip()))
        if not any(t.strip() for _, t in new):
            return
        lead = ' ' * b.indent if b.mode == 'box' else ''
        out = [''.join(r) for r in head]
        for (pre, left, inner, right), t in new:
            g = rng.choice([1, 1, 2, 7])
            out.append(pre + left + ' ' * (b.before) + t + (' ' * g + right if right.strip() else ''))
        out += [''.join(r) for r in rest + foot]
        out = [uni.rtrim_blank(s) for s in out]
        if not out[0].strip() or not out[-1].strip():
            return
        lead_of = lambda ls: min(len(s) - len(s.lstrip(' ')) for s in ls if s.strip())
        if not b.sh.empty['left'] and lead_of(out) != lead_of([''.join(r) for r in rows]):
            return        # the rows that are left do not tell where the box begins
        t = nl.join(out) + (nl if final else '')
        surplus_top = b.above - b.pad['top']
        surplus_bottom = len(rest) - b.pad['bottom']
        text = [''] * surplus_top + [(lead + s if s else '') for _, s in new] + [''] * surplus_bottom
        if not final and text[-1] == '':
            return
        want = self.run(c, args, nl, nl.join(text) + (nl if final else ''), 'drawing the edited text')
        if self.gave_up(d, o, text):
            return
        got = self.run(c, args + ['-m'], nl, t, 'mending an edited box')
        if got != want:
            raise Violation('edited box: %s' % diff(want, got), key='edited', edited=t, expected=want)
        if self.run(c, args + ['-m'], nl, got, 'mending again') != got:
            raise Violation('mending again changes the box', key='idempotent')
        c.count('edited')
        if len(want) > sum(len(''.join(r)) + 1 for r in rows):
            c.count('grown')

    def gave_up(self, d, o, text):
        try:
            return model.draw(d, text, o).pad != model.eff_padding(d, o)
        except model.Unreachable:
            return True
