"""C03: drawing preserves the text."""
from .. import harness, gen, hostile, model, stock, uni
from ..drawing import draw_args, out_lines, show
from ..harness import Violation

# text that shares no character with any border (borders of generated designs use gen.BORDER*)
CHARS = 'abcdefghijklmnpqrstuvwyzABCDEFGHIJKLMNPQRSTUVWYZ0123456789' + gen.LATIN
FOREIGN = '\u0430\u0431\u0432\u0433\u0434\u0435\u0436\u0437\u0438\u043a\u05d0\u05d1\u05d2\u0e01\u0e02\u0905\u0906\u3042\u3044\uac00\uac01\U0001F600\u0301\u0308\u200d'


FOREIGNSET = set(FOREIGN)
TEXTSET = set(CHARS + FOREIGN)


class Check(harness.Check):
    ID = 'C03'
    QUICK = 20000
    THOROUGH = 500000
    RULE = ('text over an alphabet that no border uses, drawn with a random or stock design and random size, padding, alignment, '
            'justification and tab options; the text characters found in the output must be exactly the input lines, in order, '
            'each one contiguous with its inner blanks; non-trivial: some visible text was drawn')
    NEEDS = dict(lines_checked=30000, long_lines=20, many_lines=20, limit_lines=50)

    def gen_line(self, c, maxlen, foreign):
        rng = c.rng
        alpha = FOREIGN if foreign else CHARS + FOREIGN
        n = rng.randint(1, maxlen)
        out = []
        while len(out) < n:
            out += [rng.choice(alpha) for _ in range(rng.randint(1, 9))]
            r = rng.random()
            if r < 0.6:
                out += [' '] * rng.choice([1, 1, 2, 5])
            elif r < 0.7:
                out += ['\t'] * rng.choice([1, 1, 2])
            elif r < 0.73:
                out.append('\u00a0')
        s = ''.join(out)[:n]
        if rng.random() < 0.4:
            s = rng.choice([' ', '  ', '     ', '\t', '\t\t', ' \t ']) + s
        if rng.random() < 0.02:
            # nothing that occupies a column
            return rng.choice(['', '', ' ', '   ']) + ''.join(rng.choice('\u0301\u0308\u200d') for _ in range(rng.choice([1, 1, 4, 12])))
        if rng.random() < 0.8 and s.strip() and s.lstrip()[0] in '\u0301\u0308\u200d':
            s = s.replace(s.lstrip()[0], 'a' if not foreign else '\u0430')
        return s

    LIMIT = 16382      # bytes which a line may have (see DESIGN.md)

    def limit(self, c):
        """lines up to the documented limit come out as one line, whatever terminates them"""
        rng = c.rng
        n = self.LIMIT - rng.choice([0, 0, 1, 2, 3, rng.randint(0, 40)])
        nl = rng.choice(['\n', '\r\n', '\r\n'])
        unit = rng.choice(['x', 'xy', '\u00e9', '\u6f22', '\U0001F600', 'a b'])
        s = (unit * n).encode()[:n]
        while True:
            try:
                s = s.decode()
                break
            except UnicodeDecodeError:
                s = s[:-1]
        s = s.rstrip() + 'z' * (n - len(s.rstrip().encode()))
        lines = ['first', s, 'last']
        rng.shuffle(lines)
        final = rng.random() < 0.7
        cfg = c.cfg('BOX d\nsample\nx\nends\nshapes { w ("|") }\nelastic (w)\nEND d\n')
        res = c.boxes(['-f', cfg, '-d', 'd', '-n', 'UTF-8'] + (['-e', 'LF']), nl.join(lines) + (nl if final else ''))
        want = '\n'.join('|' + t for t in lines) + ('\n' if final else '')
        if res.rc or res.err or res.out.decode('utf-8', 'replace') != want:
            got = res.out.decode('utf-8', 'replace').split('\n')
            raise Violation('line of %d bytes, line break %r: status %d %r, lines of %r instead of %r characters' % (
                n, nl, res.rc, res.err[:200], [len(t) for t in got], [len(t) for t in want.split('\n')]), key='limit')
        c.count('limit_lines')
        c.seen('limit', n, nl, unit)

    def case(self, c):
        rng = c.rng
        if rng.random() < 0.01:
            return self.limit(c)
        st = rng.random() < 0.25
        d = rng.choice(stock.usable()) if st else gen.design(rng, maxdim=3)
        r = rng.random()
        if r < 0.03:
            nl, ml = rng.randint(1, 3), rng.randint(4000, 8000)
            c.count('long_lines')
        elif r < 0.06:
            nl, ml = rng.randint(200, 3000), 20
            c.count('many_lines')
        else:
            nl, ml = rng.choice([1, 2, 3, rng.randint(1, 12)]), rng.choice([3, 12, 40, 120])
        lines = []
        for _ in range(nl):
            lines.append('' if rng.random() < 0.15 else self.gen_line(c, ml, st))
            if rng.random() < 0.2:
                lines[-1] += rng.choice([' ', '   ', '\t', ' \t'])
        while sum(len(s.encode()) > 16000 for s in lines):
            lines = [s[:len(s) // 2] for s in lines]
        o = gen.options(rng, align=0.6, pad=0.5, size=0.5, indent=0.4, tab=0.3, eol=0.0)
        final = rng.random() < 0.8 or not lines[-1]
        cfg = hostile.STOCK if st else c.cfg(gen.config_of(d))
        res = c.boxes(draw_args(cfg, d, o), '\n'.join(lines) + ('\n' if final else ''))
        if res.rc == 1 and b'cannot be repeated' in res.err:
            c.nontrivial = False
            return
        if res.rc != 0 or res.err:
            raise Violation('status %d, %r' % (res.rc, res.err[:300]))
        want = [uni.expand_tabs(uni.rtrim_space(s), o.tab).lstrip(' ') for s in lines]
        got = out_lines(res)
        c.nontrivial = any(want)
        mine = FOREIGNSET if st else TEXTSET
        # body lines are recognised by the text they contain; the sequence of non-empty texts must agree
        texts = []
        for i, s in enumerate(got):
            idx = [k for k, ch in enumerate(s) if ch in mine]
            if idx:
                texts.append((i, s[idx[0]:idx[-1] + 1]))
        wanted = [(i, s) for i, s in enumerate(want) if s.strip('\u00a0 ')]
        # a text line may begin or end with a no-break space
        wt = [s.strip('\u00a0 ') for _, s in wanted]
        gt = [t.strip('\u00a0 ') for _, t in texts]
        if wt != gt:
            k = next((k for k in range(max(len(wt), len(gt))) if k >= len(wt) or k >= len(gt) or wt[k] != gt[k]))
            raise Violation('text line %d: expected %r, got %r' % (k, show(wt[k], 200) if k < len(wt) else None,
                                                                  show(gt[k], 200) if k < len(gt) else None))
        # blank lines in between are kept: distances between text lines are the same
        for (i1, _), (j1, _), (i2, _), (j2, _) in zip(wanted, texts, wanted[1:], texts[1:]):
            if i2 - i1 != j2 - j1:
                raise Violation('%d input lines between two text lines became %d' % (i2 - i1, j2 - j1))
        if len(got) < len(lines):
            raise Violation('%d input lines, but only %d output lines' % (len(lines), len(got)))
        c.count('lines_checked', len(wt))
        c.seen(st, d.name if st else '', len(lines) > 100, o.align, o.padstr is None, o.size is None)
