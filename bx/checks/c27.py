"""C27: a design given on the command line."""
from .. import harness, gen, model, removal, uni
from ..drawing import diff, expect, show
from ..harness import Violation
from ..removal import strip_blank_ends

SYM = '-=+|*#/\\:~^<>()[]{}%;!\'"'
WIDE = '\uff0d\uff5c\u25a0\u3042\u4e16\u754c\U0001F600'
MULTI = '\u2500\u2502\u2588\u00e4\u00df\u2022\u0436\u20ac'


def quote(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


class Check(harness.Check):
    ID = 'C27'
    QUICK = 22000
    THOROUGH = 300000
    RULE = ('random strings (symbols, letters, quotes, dashes, blanks inside and at both ends, multi-byte, double-width and combining '
            'characters, escape sequences) as -c design x random text and options: complete output compared with the model, with an '
            'equivalent design from a configuration file, and with the plain concatenation for runs without options; removal and '
            'mending compared with the text; unsuitable strings must be rejected; non-trivial: text was drawn')
    NEEDS = dict(drawn=4000, plain=1000, multibyte=500, wide=400, combining=150, colour=150, removed=1500, mended=800, equivalent=1000,
                 rejected=200, no_config=1000, leading_dash=100, encoded=500, encoded_nonascii=50)
    MIN_NONTRIVIAL = 0.8

    def string(self, rng, c):
        k = rng.random()
        alpha = SYM
        if k < 0.15:
            alpha += WIDE
        elif k < 0.35:
            alpha += MULTI
        elif k < 0.5:
            alpha += 'abcXYZ0189'
        n = rng.choice([1, 1, 2, 2, 3, 5, 12])
        s = ''.join(rng.choice(alpha) for _ in range(n))
        if rng.random() < 0.25:
            k = rng.randint(0, len(s))
            s = s[:k] + ' ' * rng.choice([1, 1, 2, 4]) + s[k:]
        if rng.random() < 0.07:
            s += rng.choice(['\u0301', '\u0308'])
            c.count('combining')
        if rng.random() < 0.08:
            k = rng.randint(0, len(s) - 1)
            while k > 0 and uni.cwidth(s[k]) == 0:
                k -= 1
            s = s[:k] + rng.choice(['\x1b[31m', '\x1b[1;32m', '\x1b[38;5;12m']) + s[k:] + '\x1b[0m'
        return s

    def case(self, c):
        rng = c.rng
        if rng.random() < 0.06:
            return self.reject(c, rng)
        s = self.string(rng, c)
        vis = uni.strip_esc(s)
        if not vis.strip():
            s = vis = '#'
        colour = '\x1b' in s
        if any(ord(ch) > 127 for ch in vis):
            c.count('multibyte')
        if uni.width(vis) > len(vis):
            c.count('wide')
        if colour:
            c.count('colour')
        if s[0] == '-':
            c.count('leading_dash')
        opt = rng.choice([['-c', s], ['-c', s], ['--create', s], ['--create=' + s], ['-c' + s]])
        cfg = None
        k = rng.random()
        if k < 0.35:
            pre = []
            c.count('no_config')
        elif k < 0.7:
            cfg = c.cfg(gen.config_of(gen.design(rng, maxdim=2)), 'other.cfg')
            pre = ['-f', cfg]
        else:
            pre = []
        pre += ['--color' if colour else rng.choice(['--no-color', '--color'])]
        # text without characters of the string
        used = set(vis) - {' '}
        lines = removal.text(rng, used, maxlines=rng.choice([1, 3, 6, 20]), tabs=rng.choice([0, 0, 0.2]))
        if lines is None:
            c.nontrivial = False
            return
        d = gen.Design()
        d.name = 'x'
        d.shapes = {'w': [s]}
        d.elastic = ['w']
        d.padding = {'left': 1}
        c.seen(uni.width(vis), colour, any(ord(ch) > 127 for ch in vis), vis != vis.strip())
        final = rng.random() < 0.8 or lines[-1] == ''
        text = '\n'.join(lines) + ('\n' if final else '')
        # without further options: the string, a blank, and the line
        if rng.random() < 0.35:
            self.plain(c, pre + opt, s, colour, lines, final, text)
        o = gen.options(rng, align=0.3, pad=0.3, size=0.3, indent=0.3, tab=0.15)
        args = pre + rng.choice([opt + o.args(), o.args() + opt])
        r = c.boxes(args, text)
        try:
            b = model.draw(d, lines, o)
        except model.Unreachable:
            c.nontrivial = False
            return
        if not colour:
            expect(c, r, model.render(b, '\n', final), 'drawing')
            c.count('drawn')
        if not colour and rng.random() < 0.5:
            self.encoded(c, rng, args, text, r.out)
        if rng.random() < 0.3 or colour:
            f = c.cfg('BOX x\nsample\n x\nends\nshapes { w (%s) }\nelastic (w)\npadding { left 1 }\nEND x\n' % quote(s), 'eq.cfg')
            r2 = c.boxes(['-f', f, '-d', 'x'] + pre[-1:] + o.args(), text)
            if (r.rc, r.out, r.err) != (r2.rc, r2.out, r2.err):
                raise Violation('differs from the same design in a configuration file: %s, %r %r'
                                % (diff(r2.out.decode('utf-8', 'replace'), r.out.decode('utf-8', 'replace')), r.err[:200], r2.err[:200]),
                                key='equivalent')
            c.count('equivalent')
        if r.rc or r.err:
            raise Violation('status %d, %r' % (r.rc, r.err[:200]))
        self.back(c, rng, pre + opt, o, lines, final, r.out.decode('utf-8', 'replace'), b, colour)

    def encoded(self, c, rng, args, text, out):
        """the encoding of the text does not matter to the string"""
        enc = rng.choice(['ISO-8859-1', 'KOI8-R', 'CP1252', 'ISO-8859-15'])
        try:
            t, want = text.encode(enc), out.decode('utf-8').encode(enc)
        except UnicodeError:
            return
        r = c.boxes(args + ['-n', enc], t)
        if (r.rc, r.out) != (0, want):
            raise Violation('with text in %s: status %d, %s' % (enc, r.rc, diff(want.decode(enc), r.out.decode(enc, 'replace'))), key='encoding')
        c.count('encoded')
        if any(b > 127 for b in want):
            c.count('encoded_nonascii')

    def plain(self, c, args, s, colour, lines, final, text):
        r = c.boxes(args, text)
        if r.rc or r.err:
            raise Violation('status %d, %r' % (r.rc, r.err[:200]))
        got = r.out.decode('utf-8', 'replace')
        ls = [uni.expand_tabs(uni.rtrim_space(t), 8) for t in lines]
        ind = removal.common_indent(ls)
        out = []
        for t in ls:
            t = t[ind:]
            # escape sequences after the last visible character stay with it
            out.append(' ' * ind + (s + ' ' + t if t.strip(' ') else s.rstrip(' ')))
        if colour:
            got2 = uni.strip_esc(got)
            out = [uni.strip_esc(t).rstrip(' ') for t in out]
            if '\x1b[0m' not in got:
                raise Violation('the colour of the string is lost', key='plain')
        else:
            got2 = got
        want = '\n'.join(out) + ('\n' if final else '')
        if got2 != want:
            raise Violation('without options: %s' % diff(want, got2), key='plain')
        c.count('plain')

    def back(self, c, rng, args, o, lines, final, box, b, colour):
        if o.align is not None or b.pad['left'] != (1 if o.padstr is None else b.pad['left']) or o.size:
            return
        ls = [uni.rtrim_space(uni.expand_tabs(uni.rtrim_space(t), o.tab)) for t in lines]
        if o.indent == 'none':
            ind = removal.common_indent(ls)
            ls = [t[ind:] for t in ls]
        vis = uni.strip_esc(args[-1])
        if rng.random() < 0.5 and not colour:
            r = c.boxes(args + o.args() + ['-r'], box)
            if r.rc or r.err:
                raise Violation('removal: status %d, %r' % (r.rc, r.err[:200]))
            got = [uni.expand_tabs(t.rstrip(), o.tab) for t in r.out.decode('utf-8', 'replace').split('\n')]
            want = [t.rstrip() for t in ls]
            if strip_blank_ends(got) != strip_blank_ends(want):
                raise Violation('removal: %s' % diff('\n'.join(strip_blank_ends(want)), '\n'.join(strip_blank_ends(got))), key='removal')
            c.count('removed')
        elif not colour and lines[0].strip() and lines[-1].strip() and o.padstr is None:
            r = c.boxes(args + o.args() + ['-m'], box)
            if r.rc or r.err or r.out.decode('utf-8', 'replace') != box:
                raise Violation('mending a whole box: status %d, %r, %s'
                                % (r.rc, r.err[:200], diff(box, r.out.decode('utf-8', 'replace'))), key='mend')
            c.count('mended')

    def reject(self, c, rng):
        s = rng.choice(['', 'a\nb', '\n', 'a\r', '\x01', '\x7f', '#\x08', '\u0301', '\u200b', '\x1b[0m', '#\n'])
        r = c.boxes(['-c', s], 'ab\n')
        if r.rc != 1 or r.out or not r.err:
            raise Violation('%r as a design: status %d, %r %r' % (s, r.rc, r.out[:200], r.err[:200]), key='reject')
        c.count('rejected')
        c.nontrivial = False
