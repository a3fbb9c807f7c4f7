"""C15: character encodings."""
import ctypes
import re
from .. import harness, gen, hostile, removal, uni
from ..drawing import diff
from ..harness import Violation

ENCODINGS = {   # name given to boxes -> name of Python's codec
    'ISO-8859-1': 'latin-1', 'ISO-8859-2': 'iso8859-2', 'ISO-8859-5': 'iso8859-5', 'ISO-8859-7': 'iso8859-7',
    'ISO-8859-9': 'iso8859-9', 'ISO-8859-15': 'iso8859-15', 'WINDOWS-1250': 'cp1250', 'WINDOWS-1251': 'cp1251',
    'WINDOWS-1252': 'cp1252', 'KOI8-R': 'koi8-r', 'CP437': 'cp437', 'CP850': 'cp850', 'US-ASCII': 'ascii',
    'EUC-JP': 'euc-jp', 'SHIFT_JIS': 'shift-jis', 'GBK': 'gbk', 'GB18030': 'gb18030', 'BIG5': 'big5', 'EUC-KR': 'euc-kr',
}
CJK = ('EUC-JP', 'SHIFT_JIS', 'GBK', 'GB18030', 'BIG5', 'EUC-KR')

libc = ctypes.CDLL(None)
libc.iconv_open.restype = ctypes.c_void_p
libc.iconv_open.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
libc.iconv.argtypes = [ctypes.c_void_p] + [ctypes.c_void_p] * 4
libc.iconv.restype = ctypes.c_size_t
libc.iconv_close.argtypes = [ctypes.c_void_p]


def iconv(b, src, dst):
    """bytes converted by the C library, or None"""
    cd = libc.iconv_open(dst.encode(), src.encode())
    if cd == ctypes.c_void_p(-1).value:
        return None
    inb = ctypes.create_string_buffer(b, len(b))
    out = ctypes.create_string_buffer(64)
    pi, po = ctypes.c_void_p(ctypes.addressof(inb)), ctypes.c_void_p(ctypes.addressof(out))
    ni, no = ctypes.c_size_t(len(b)), ctypes.c_size_t(64)
    r = libc.iconv(cd, ctypes.byref(pi), ctypes.byref(ni), ctypes.byref(po), ctypes.byref(no))
    libc.iconv_close(cd)
    if r == ctypes.c_size_t(-1).value:
        return None
    return out.raw[:64 - no.value]


class Check(harness.Check):
    ID = 'C15'
    QUICK = 18000
    THOROUGH = 150000
    RULE = ('19 encodings (8-bit, EUC, Shift_JIS, GB, Big5, US-ASCII) x random text of their characters x random design with '
            'ASCII, representable and unrepresentable borders x options, for drawing, removing, mending, listing and unknown '
            'encoding names: output bytes must be the encoded output of the UTF-8 run (Python\'s codecs as the oracle), with '
            'question marks for what the encoding lacks; input that is invalid in its encoding; locales C and C.UTF-8 with and without -n; non-trivial: a run in '
            'another encoding was compared')
    NEEDS = dict(drawn=1500, removed=400, mended=400, listed=100, unknown=150, nonascii_text=1200, nonascii_border=400,
                 question_marks=150, transliterated=150, wide=200, locale=100, broken=250)
    MIN_NONTRIVIAL = 0.8
    ASSUMPTIONS = ['characters whose width libunistring takes to depend on the encoding are left out',
                   'only characters on whose code Python and the C library agree']

    def prepare(self):
        pool = list(range(0xa1, 0x180)) + list(range(0x391, 0x3ca)) + list(range(0x410, 0x460)) + \
            list(range(0x2013, 0x2023)) + [0x20ac, 0x2122] + list(range(0x2500, 0x2594)) + list(range(0x3042, 0x30f0)) + \
            list(range(0x4e00, 0x4f20)) + list(range(0xac00, 0xac60)) + list(range(0xff01, 0xff30)) + list(range(0xff66, 0xff90)) + [0x6f22, 0x5b57]
        self.chars = {}
        for name, codec in ENCODINGS.items():
            one, two = [], []
            for cp in pool:
                ch = chr(cp)
                if cp == 0xad or uni.is_cntrl(ch) or uni.is_space(ch) or uni.cwidth(ch, name) != uni.cwidth(ch):
                    continue
                try:
                    b = ch.encode(codec)
                except UnicodeEncodeError:
                    continue
                if b.decode(codec) != ch or iconv(ch.encode(), 'UTF-8', name) != b or iconv(b, name, 'UTF-8') != ch.encode():
                    continue
                (two if uni.cwidth(ch) == 2 else one).append(ch)
            self.chars[name] = (one, two)
        # characters for borders that the C library may transliterate, and double-width ones
        self.odd = [ch for ch in 'ÞßæœÆĳ½¼¾…™©®ﬁﬂ‥«»èéü│─┌┐└┘═║╔╗漢界字あア한'
                    if all(uni.cwidth(ch, e) == uni.cwidth(ch) for e in ENCODINGS if e not in CJK)]
        # one-column characters for borders that most encodings lack
        self.rare = [chr(x) for x in list(range(0x5d0, 0x5e0)) + [0xe01, 0xe02, 0x10a0, 0x10a1, 0x16a0, 0x16a1]
                     if all(uni.cwidth(chr(x), e) == 1 for e in ENCODINGS if e not in CJK)]

    def encode(self, s, codec):
        """bytes in the encoding, with a question mark for each character it lacks"""
        return s.encode(codec, 'replace')

    def text(self, rng, enc):
        one, two = self.chars[enc]
        out = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            if rng.random() < 0.1:
                out.append('')
                continue
            s = []
            for _ in range(rng.randint(1, 20)):
                r = rng.random()
                if r < 0.4 and one:
                    s.append(rng.choice(one))
                elif r < 0.6 and two:
                    s.append(rng.choice(two))
                elif r < 0.7:
                    s.append(' ')
                else:
                    s.append(rng.choice(gen.ASCII_WORD))
            out.append(' ' * rng.choice([0, 0, 2, 5]) + ''.join(s))
        return out

    def run(self, c, enc, args, data, what, codec, kind=None):
        """the same run in UTF-8 and in the encoding"""
        u = c.boxes(['-n', 'UTF-8'] + args, data)
        name = enc if c.rng.random() < 0.7 else enc.lower()
        e = c.boxes(['-n', name] + args, self.encode(data, codec))
        if u.rc or u.err:
            raise harness.Inconclusive('%r' % u.err[:200])
        if (e.rc, e.err) != (0, b''):
            raise Violation('%s in %s: status %d, %r' % (what, enc, e.rc, e.err[:200]), key=what)
        text = u.out.decode('utf-8')
        want = self.encode(text, codec)
        if kind == 'odd':
            self.aligned(text, e.out.decode(codec, 'replace'), codec, what, enc)
        elif e.out != want:
            raise Violation('%s in %s: %s' % (what, enc, diff(want.decode(codec, 'replace'), e.out.decode(codec, 'replace'))),
                            key=what, expected=want, got=e.out)
        return text

    def aligned(self, text, got, codec, what, enc):
        """characters which the encoding lacks are replaced without moving anything else"""
        tl, gl = text.split('\n'), got.split('\n')
        if len(tl) != len(gl):
            raise Violation('%s in %s: %d lines instead of %d' % (what, enc, len(gl), len(tl)), key='aligned')
        for t, g in zip(tl, gl):
            want, have = {}, {}
            for s, m in ((t, want), (g, have)):
                col = 0
                for ch in s:
                    m[col] = ch
                    col += uni.cwidth(ch)
                m['end'] = col
            if want['end'] != have['end']:
                raise Violation('%s in %s: line is %d columns wide instead of %d: %r' % (what, enc, have['end'], want['end'], g),
                                key='aligned')
            for col, ch in want.items():
                if col == 'end':
                    continue
                if ch.encode(codec, 'ignore'):
                    if have.get(col) != ch:
                        raise Violation('%s in %s: %r instead of %r in column %d of %r' % (what, enc, have.get(col), ch, col, g),
                                        key='aligned')
                elif have.get(col, ' ') == ' ':
                    raise Violation('%s in %s: nothing in place of %r in column %d of %r' % (what, enc, ch, col, g), key='aligned')

    def case(self, c):
        rng = c.rng
        if rng.random() < 0.07:
            return self.broken(c)
        enc = rng.choice(list(ENCODINGS))
        codec = ENCODINGS[enc]
        one, two = self.chars[enc]
        r = rng.random()
        alpha = '-=+|*#/:'
        kind = 'ascii'
        if r < 0.3 and one:
            alpha = alpha + ''.join(rng.choice(one) for _ in range(12))
            kind = 'own'
        elif r < 0.45 and enc not in CJK:
            alpha = '-=+|*#' + ''.join(rng.choice(self.rare) for _ in range(5))
            kind = 'rare'
        elif r < 0.55 and enc not in CJK:
            alpha = '-=+|*#' + ''.join(rng.choice(self.odd) for _ in range(5))
            kind = 'odd'
        elif r < 0.6 and two:
            alpha = alpha + ''.join(rng.choice(two) for _ in range(4))
            kind = 'own'
        d = gen.design(rng, alpha=alpha)
        used = removal.alphabet(d)
        lines = [''.join(ch for ch in s if ch not in used) for s in self.text(rng, enc)]
        lines = [s if s.isascii() or s.strip() else '' for s in lines]
        if not any(s.strip() for s in lines):
            lines.append('abc')
        data = '\n'.join(lines) + ('\n' if rng.random() < 0.8 or not lines[-1] else '')
        if kind != 'ascii':
            d.sample = ['sample ' + ''.join(sorted(used))]
        cfg = c.cfg(gen.config_of(d))
        o = gen.options(rng, align=0.3, pad=0.3, size=0.2, indent=0.3)
        args = ['--no-color', '-f', cfg, '-d', d.name] + o.args()
        c.seen(enc, kind)

        r = rng.random()
        if r < 0.08:
            return self.unknown(c, args, data, kind)
        if r < 0.12:
            if kind == 'ascii':
                return self.locale(c, args, data)
            c.nontrivial = False
            return
        if r < 0.18:
            if kind == 'odd':
                c.nontrivial = False
                return
            self.run(c, enc, ['-f', cfg] + rng.choice([['-l'], ['-l', '-d', d.name], ['-q', '(all)']]), '', 'listing', codec)
            c.count('listed')
            return
        try:
            box = self.run(c, enc, args, data, 'drawing', codec, kind)
        except harness.Inconclusive:
            c.nontrivial = False              # sides that cannot match
            return
        c.count('drawn')
        if not data.isascii():
            c.count('nonascii_text')
        if any(uni.cwidth(ch) == 2 for ch in data):
            c.count('wide')
        if not all(ch.isascii() for ch in used):
            c.count('nonascii_border')
        if kind in ('rare', 'odd'):
            c.count('question_marks' if kind == 'rare' else 'transliterated')
            return
        op = rng.choice([['-r'], ['-m'], ['-r', '-k', 'no']])
        if rng.random() < 0.3:
            del args[args.index('-d'):args.index('-d') + 2]
        try:
            self.run(c, enc, args + op, box, 'removal' if '-r' in op else 'mending', codec)
        except harness.Inconclusive:
            return
        c.count('removed' if '-r' in op else 'mended')

    BROKEN = {'UTF-8': [b'\xff', b'\xfe\xff', b'\x80', b'\xbf\x80', b'\xc0\x80', b'\xc1', b'\xe2\x82', b'\xc3', b'\xf0\x9f\x98', b'\xed\xa0\x80',
                        b'\xf5', b'\xf4\x90\x80\x80', b'\xe0\x80\x80', b'\xf8\x88\x80\x80\x80'],
              'US-ASCII': [b'\x80', b'\xff', b'\xc3\xa4', b'\xe6\xbc\xa2'], 'GBK': [b'\xff', b'\xff\xff'], 'GB18030': [b'\xff', b'\xff\xff'],
              'BIG5': [b'\xff', b'\xff\xff'], 'EUC-JP': [b'\xff', b'\xff\xff'], 'EUC-KR': [b'\xff', b'\xff\xff'],
              'SHIFT_JIS': [b'\xff', b'\xfe', b'\xfd\xff'], 'ISO-8859-7': [b'\xae', b'\xd2', b'\xff'], 'WINDOWS-1252': [b'\x81', b'\x8d\x90'],
              'WINDOWS-1251': [b'\x98'], 'WINDOWS-1250': [b'\x81', b'\x83']}

    def broken(self, c):
        """input that is not valid in its encoding: question marks in place of the invalid bytes, everything else as usual"""
        rng = c.rng
        enc = rng.choice(list(self.BROKEN))
        codec = ENCODINGS.get(enc, 'utf-8')
        one, two = self.chars.get(enc, (list('\u00e4\u20ac\u0416'), list('\u6f22\u5b57')))
        data, pat = b'', b''
        u8 = ''
        n = 0
        for i in range(rng.choice([1, 2, 3, 5])):
            if i:
                data, pat, u8 = data + b'\n', pat + b'\n', u8 + '\n'
            ind = rng.choice([0, 0, 3])
            data, pat, u8 = data + b' ' * ind, pat + b' ' * ind, u8 + ' ' * ind
            for _ in range(rng.randint(1, 12)):
                r = rng.random()
                if r < 0.25:
                    ch = rng.choice((one or ['x']) + (two or []))
                elif r < 0.35:
                    ch = ' '
                else:
                    ch = rng.choice('abcxyzABC019')
                if rng.random() < 0.2:
                    x = rng.choice(self.BROKEN[enc])
                    n += 1
                    # what follows is an ASCII character
                    ch = rng.choice('abcXYZ12')
                    data += x
                    pat += b'(' + rb'\?' + b'{1,%d})' % len(x)
                    u8 += '\0'
                b = ch.encode(codec)
                data, pat, u8 = data + b, pat + re.escape(b), u8 + ch
            if rng.random() < 0.2:
                x = rng.choice(self.BROKEN[enc])
                n += 1
                data += x
                pat += rb'(\?{1,%d})' % len(x)
                u8 += '\0'
            else:
                data, pat, u8 = data + b'z', pat + b'z', u8 + 'z'
        final = b'\n' if rng.random() < 0.7 else b''
        if not n:
            c.nontrivial = False
            return
        r = c.boxes(['--no-color', '-n', enc, '-i', 'text', '-c', '#'], data + final)
        want = rb'\A# ' + pat.replace(b'\n', b'\n# ') + final + rb'\Z'
        m = re.match(want, r.out) if not r.rc and not r.err else None
        if not m:
            raise Violation('invalid %s: status %d, %r, output %r for %r' % (enc, r.rc, r.err[:200], r.out[:300], data[:300]), key='broken')
        # the same text with question marks in the first place
        it = iter(m.groups())
        fixed = ''.join(next(it).decode() if ch == '\0' else ch for ch in u8)
        d = gen.design(rng, alpha='-=+|*#/:')
        cfg = c.cfg(gen.config_of(d))
        o = gen.options(rng, align=0.3, pad=0.3, size=0.2, indent=0.3)
        args = ['--no-color', '-f', cfg, '-d', d.name, '-n', enc] + o.args()
        a = c.boxes(args, data + final)
        b = c.boxes(args, fixed.encode(codec) + final)
        if (a.rc, a.out, a.err) != (b.rc, b.out, b.err):
            raise Violation('invalid %s is drawn unlike the text with question marks: %s' %
                            (enc, diff(b.out.decode(codec, 'replace'), a.out.decode(codec, 'replace'))), key='broken')
        c.count('broken')
        c.seen('broken', enc, n)

    def unknown(self, c, args, data, kind):
        rng = c.rng
        name = rng.choice(['foo', 'UTF-88', 'ISO-8859-99', 'latin', 'x', 'no-such-encoding', '8', 'CP'])
        loc, cs = rng.choice([('C.UTF-8', 'UTF-8'), ('C', 'ANSI_X3.4-1968')][:2 if kind == 'ascii' else 1])
        if loc == 'C':
            data = ''.join(ch if ord(ch) < 128 else 'x' for ch in data)
        op = rng.choice([[], [], ['-r'], ['-m']])
        a = c.boxes(['-n', name] + args + op, data, env={'LC_ALL': loc})
        b = c.boxes(args + op, data, env={'LC_ALL': loc})
        if (a.rc, a.out) != (b.rc, b.out):
            raise Violation('unknown encoding %r: result differs from that of the system encoding: status %d/%d, %s' %
                            (name, a.rc, b.rc, diff(b.out.decode('utf-8', 'replace'), a.out.decode('utf-8', 'replace'))),
                            key='unknown')
        if not a.err.endswith(b.err) or name.encode() not in a.err[:len(a.err) - len(b.err)]:
            raise Violation('unknown encoding %r is not diagnosed: %r' % (name, a.err[:200]), key='unknown')
        c.count('unknown')

    def locale(self, c, args, data):
        """the system's encoding is the default"""
        rng = c.rng
        loc, cs = rng.choice([('C.UTF-8', 'UTF-8'), ('C', 'US-ASCII'), ('POSIX', 'US-ASCII')])
        if cs != 'UTF-8':
            data = ''.join(ch if ord(ch) < 128 else 'x' for ch in data)
        a = c.boxes(args, data, env={'LC_ALL': loc})
        b = c.boxes(['-n', cs] + args, data, env={'LC_ALL': rng.choice(['C', 'C.UTF-8'])})
        if (a.rc, a.out, a.err) != (b.rc, b.out, b.err):
            raise Violation('locale %s differs from -n %s: %s' % (loc, cs, diff(b.out.decode('utf-8', 'replace'),
                                                                            a.out.decode('utf-8', 'replace'))), key='locale')
        c.count('locale')
