"""C11: replacement and reversion rules."""
import re
from .. import harness, gen, model, removal, uni
from ..drawing import diff, expect
from ..harness import Violation

LITS = 'abcxyzABX019 -_,;:%&@'
META = '\\^$.[]|()?*+{}'
REPL = 'abcXYZ019 -_,:%&@()<>/\u00e4\u03b1\u6f22\u5b57.*+?'


class Regex:
    """a random expression: `pat` is understood alike by PCRE2 and Python; `always` are the groups that always match"""

    def __init__(self, rng, words, solid):
        self.rng, self.words, self.solid = rng, words, solid
        self.groups = 0
        self.always = []
        self.maybe = []
        pre = post = ''
        body = ''.join(self.piece(True) for _ in range(rng.choice([1, 1, 2, 2, 3])))
        if not solid:
            pre = rng.choice(['', '', '', '', '^', '^\\s*', '\\b'])
            post = rng.choice(['', '', '', '', '$', '\\b', '(?=[a-z])', '(?!b)'])
        flag = '(?i)' if rng.random() < 0.08 and all(ord(c) < 128 for c in body) else ''
        if rng.random() < 0.1:
            n = self.groups
            body = '(?:' + body + '|' + self.piece(False) + ')'
            self.always = []
            self.maybe = list(range(1, n + 1))
        self.pat = flag + pre + body + post

    def lit(self):
        rng = self.rng
        r = rng.random()
        if r < 0.45 and self.words:
            w = rng.choice(self.words)
            i = rng.randrange(len(w))
            s = w[i:i + rng.choice([1, 1, 2, 3])]
        elif r < 0.8:
            s = rng.choice(LITS)
        else:
            s = rng.choice(META)
        if self.solid:
            s = s.replace(' ', 'x')
        return s

    @staticmethod
    def esc(s):
        return ''.join('\\' + c if c in META else c for c in s)

    def cls(self):
        rng = self.rng
        cs = ''.join(rng.choice(['a', 'b', 'x', '0', '%', '\u00e4', 'a-f', 'A-Z', '0-9', '\u03b1-\u03c9']) for _ in range(rng.randint(1, 3)))
        neg = '^' if not self.solid and rng.random() < 0.25 else ''
        return '[' + neg + cs + ']'

    def atom(self):
        rng = self.rng
        r = rng.random()
        if r < 0.6:
            s = self.lit()
            return self.esc(s), len(s) == 1
        if r < 0.8:
            return self.cls(), True
        if self.solid:
            return rng.choice(['\\d', '\\w']), True
        return rng.choice(['.', '\\d', '\\w', '\\s', '\\S', '\\W', ' ']), True

    def quant(self):
        rng = self.rng
        if rng.random() < 0.6:
            return '', 1
        q, n = rng.choice([('+', 1), ('{1,3}', 1), ('{2}', 2), ('+?', 1), ('*', 0), ('?', 0), ('*?', 0), ('{0,2}', 0)])
        if self.solid and n == 0:
            q = '+'
            n = 1
        return q, n

    def piece(self, top):
        rng = self.rng
        if rng.random() < 0.35:
            self.groups += 1
            me = self.groups
            inner = ''
            for _ in range(rng.choice([1, 1, 2])):
                a, single = self.atom()
                inner += a + (self.quant()[0] if single and rng.random() < 0.4 else '')
            if rng.random() < 0.3:
                inner += '|' + self.atom()[0]
            q = rng.choice(['', '', '', '?'] if not self.solid else [''])
            (self.always if top and q != '?' else self.maybe).append(me)
            s = '(' + inner + ')' + q
            if not q and top and rng.random() < 0.1:
                s += '\\%d' % me
            return s
        a, single = self.atom()
        return a + (self.quant()[0] if single else '')


def replacement(rng, rx, chars=REPL):
    """(string for boxes, function of a match object)"""
    out, parts = [], []
    n = rng.choice([0, 1, 1, 2, 3, 4])
    if rng.random() < 0.08:
        n = rng.choice([30, 100, 400])            # much longer than the text
    for _ in range(n):
        r = rng.random()
        if r < 0.6:
            s = ''.join(rng.choice(chars) for _ in range(rng.randint(1, 4)))
            out.append(s)
            parts.append(lambda m, s=s: s)
        elif r < 0.8 and (rx.always or r < 0.65):
            g = rng.choice(rx.always + [0])
            form = rng.choice(['${%d}', '${%d}', '$%d'])
            out.append(form % g)
            # "$1" followed by a digit would be another reference
            if form == '$%d':
                out.append('.')
                parts.append(lambda m, g=g: m.group(g) + '.')
            else:
                parts.append(lambda m, g=g: m.group(g))
        elif r < 0.85 and rx.maybe:
            g = rng.choice(rx.maybe)
            out.append('${%d:-dflt}' % g)
            parts.append(lambda m, g=g: m.group(g) if m.group(g) is not None else 'dflt')
        elif r < 0.9 and (rx.maybe or rx.always):
            g = rng.choice(rx.maybe + rx.always)
            out.append('${%d:+yes:no}' % g)
            parts.append(lambda m, g=g: 'yes' if m.group(g) is not None else 'no')
        elif r < 0.95:
            e = rng.choice(['\\\\', '$$', '\\.', '\\$', '\\-'])
            out.append(e)
            parts.append(lambda m, e=e: e[1])
        elif chars.isascii():
            # PCRE2 without UTF mode can change the case of ASCII characters only
            out.append('\\U${0}\\E')
            parts.append(lambda m: ''.join(c.upper() if ord(c) < 128 else c for c in m.group(0)))
    return ''.join(out), (lambda m: ''.join(p(m) for p in parts))


class Check(harness.Check):
    ID = 'C11'
    QUICK = 18000
    THOROUGH = 400000
    RULE = ('designs with 1 to 4 random replacement or reversion rules (literals, classes, groups, alternatives, quantifiers, anchors, '
            'look-ahead, back references; global, once, unspecified; replacement strings with references, escapes and up to '
            'thousands of characters) x random text with multi-byte characters: the drawn box must be the model\'s box around '
            'the text as rewritten by Python\'s re; removal must give what removal without rules gives, rewritten; mending '
            'must compose both; invalid expressions are refused; non-trivial: some rule changed some line')
    NEEDS = dict(changed=3000, drawn=3000, removed=1500, once=800, grown=800, shrunk=300, long=150, rejected=80, mended=300, shared=200, indented=800)
    MIN_NONTRIVIAL = 0.4
    ASSUMPTIONS = ['Python re (ASCII mode) and PCRE2 agree on the generated subset of expressions']

    # rules that change the indentation
    INDENTS = [('^', '  ', lambda m: '  '), ('^ +', '', lambda m: ''), ('^( *)', '${1}${1}', lambda m: m.group(1) * 2), ('^( +)', 'x$1.', lambda m: 'x' + m.group(1) + '.'),
               ('^ ', '', lambda m: ''), ('^(a|b|w|x)', ' $1', lambda m: ' ' + m.group(1)), ('^(\\s*)(\\w)', '$2$1', lambda m: m.group(2) + m.group(1))]

    def rules(self, rng, words, solid, n=None):
        out = []
        chars = self.chars
        for _ in range(n or rng.choice([1, 1, 2, 3, 4])):
            if not solid and rng.random() < 0.12:
                pat, rep, fn = rng.choice(self.INDENTS)
                out.append((rng.choice(['global', 'once', None]), pat, rep, re.compile(pat, re.ASCII), fn))
                continue
            for _ in range(20):
                rx = Regex(rng, words, solid)
                try:
                    prog = re.compile(rx.pat, re.ASCII)
                except re.error:
                    continue
                if solid and prog.match(''):
                    continue
                mode = rng.choice(['global', 'once', None, None])
                rep, fn = replacement(rng, rx, chars)
                out.append((mode, rx.pat, rep, prog, fn))
                break
        return out

    @staticmethod
    def apply(rules, s):
        for mode, _, _, prog, fn in rules:
            if len(s) > 20000:
                raise OverflowError
            s = prog.sub(fn, s, count=1 if mode == 'once' else 0)
        return s

    def case(self, c):
        rng = c.rng
        kind = rng.choice(['draw'] * 5 + ['remove'] * 3 + ['mend'])
        d = gen.design(rng, alpha='-=+|*#/\\', maxdim=2, style=None if kind == 'draw' or rng.random() < 0.5 else 'left')
        pr = gen.Profile(uni=rng.choice([0, 0.4]), maxlines=5, maxlen=rng.choice([10, 25, 60]), punct=0.3, indent=0.4, trail=0.1, comb=0)
        lines = gen.text_lines(rng, pr)
        if kind != 'draw':
            lines = [''.join(ch for ch in s if ch not in removal.alphabet(d)) for s in lines]
        if not any(s.strip() for s in lines):
            c.nontrivial = False
            return
        if rng.random() < 0.1:
            i = rng.randrange(len(lines))
            lines[i] = (lines[i].strip() + 'ab') * rng.choice([20, 60])
        words = ' '.join(lines).split()
        self.chars = ''.join(ch for ch in REPL if ch.isascii()) if all(s.isascii() for s in lines) else REPL
        if rng.random() < 0.02:
            return self.rejected(c, d, lines)
        getattr(self, kind)(c, d, lines, words)

    def note(self, c, rules, before, after):
        if before != after:
            c.count('changed')
            a, b = max(map(uni.width, before)), max(map(uni.width, after))
            if b > a:
                c.count('grown')
            if b < a:
                c.count('shrunk')
            if b > 400:
                c.count('long')
            if any(r[0] == 'once' for r in rules):
                c.count('once')
        else:
            c.nontrivial = False
        c.seen(len(rules), [r[0] for r in rules], d_side(before, after))

    def draw(self, c, d, lines, words):
        rng = c.rng
        rules = self.rules(rng, words, False)
        d.reprules = [r[:3] for r in rules]
        if rng.random() < 0.2:                 # these must not be applied when drawing
            d.revrules = [r[:3] for r in self.rules(rng, words, False, 1)]
            c.count('shared')
        o = gen.options(rng, align=0.3, pad=0.2, size=0.1, indent=0.4)
        if any(r[1] in [x[0] for x in self.INDENTS] for r in rules):
            c.count('indented')
            if rng.random() < 0.5:
                o.indent, d.indent = 'text', None
        cfg = c.cfg(gen.config_of(d))
        text, _, _, _ = model.prepare(lines, d, o)
        try:
            after = [self.apply(rules, s) for s in text]
        except OverflowError:
            c.nontrivial = False
            return
        if sum(map(len, after)) > 60000:
            c.nontrivial = False
            return
        r = c.boxes(['--no-color', '-f', cfg, '-d', d.name] + o.args(), '\n'.join(lines) + '\n')
        try:
            b = model.draw(d, lines, o, rewrite=lambda s: self.apply(rules, s))
        except model.Unreachable:
            c.nontrivial = False
            return
        expect(c, r, model.render(b), 'rules %r' % (d.reprules,), 'draw')
        c.count('drawn')
        self.note(c, rules, text, after)

    def box(self, c, d, lines, args):
        r = c.boxes(args, '\n'.join(lines) + '\n')
        if r.rc or r.err:
            raise Violation('status %d, %r' % (r.rc, r.err[:200]), key='status')
        return r.out.decode('utf-8', 'replace').split('\n')[:-1]

    def remove(self, c, d, lines, words, mend=False):
        rng = c.rng
        plain = c.cfg(gen.config_of(d), 'plain.cfg')
        o = gen.options(rng, align=0, pad=0.2, size=0, indent=0.3)
        args = ['--no-color', '-d', d.name] + o.args()
        try:
            b = model.draw(d, lines, o)
        except model.Unreachable:
            c.nontrivial = False
            return
        box = self.box(c, d, lines, args + ['-f', plain])
        keep = rng.choice([[], ['-k', 'no']]) if not mend else ['-k', 'no']
        before = self.box(c, d, box, args + ['-f', plain, '-r'] + keep)
        # expressions which look at blanks need to know what follows the text in the box
        solid = not (b.sh.empty['right'] and all(x[3].strip() == '' for x in b.rows))
        rules = self.rules(rng, words, solid)
        d.revrules = [r[:3] for r in rules]
        if not mend and rng.random() < 0.2:
            d.reprules = [r[:3] for r in self.rules(rng, words, False, 1)]
            c.count('shared')
        cfg = c.cfg(gen.config_of(d))
        try:
            after = [self.apply(rules, s) for s in before]
        except OverflowError:
            c.nontrivial = False
            return
        if not before:
            c.nontrivial = False
            return
        if mend:
            return cfg, args, box, before, rules, after
        got = self.box(c, d, box, args + ['-f', cfg, '-r'] + keep)
        want = [s.rstrip() for s in after]
        if [s.rstrip() for s in got] != want:
            raise Violation('reversion rules %r: %s' % (d.revrules, diff('\n'.join(want), '\n'.join(got))), key='remove')
        c.count('removed')
        self.note(c, rules, before, after)

    def mend(self, c, d, lines, words):
        rng = c.rng
        x = self.remove(c, d, lines, words, True)
        if x is None:
            return
        cfg, args, box, before, rev, after = x
        rules = self.rules(rng, words, False, rng.choice([1, 2]))
        d.reprules = [r[:3] for r in rules]
        cfg = c.cfg(gen.config_of(d))
        removed = self.box(c, d, box, args + ['-f', cfg, '-r', '-k', 'no'])
        if not removed or not any(s.strip() for s in removed) or max(len(s.encode()) for s in removed) > 16000:
            c.nontrivial = False
            return
        got = c.boxes(args + ['-f', cfg, '-m'], '\n'.join(box) + '\n')
        want = c.boxes(args + ['-f', cfg], '\n'.join(removed) + '\n')
        if (got.rc, got.out, got.err) != (want.rc, want.out, want.err):
            raise Violation('mending does not compose reversion and replacement: %s' %
                            diff(want.out.decode('utf-8', 'replace'), got.out.decode('utf-8', 'replace')), key='mend')
        c.count('mended')
        self.note(c, rules, before, after)

    def rejected(self, c, d, lines):
        rng = c.rng
        kind = rng.choice(['pattern', 'pattern', 'repl'])
        if kind == 'pattern':
            pat, rep = rng.choice(['(a', 'a)', '[a', '*a', 'a{3,1}', '(?<x', '\\', '(?P<']), 'x'
        else:
            pat, rep = rng.choice(['^', '$', '']), rng.choice(['${1', '$', '${x}', '$7'])
        d.reprules = [(rng.choice([None, 'once', 'global']), pat, rep)]
        cfg = c.cfg(gen.config_of(d))
        r = c.boxes(['-f', cfg, '-d', d.name], '\n'.join(lines) + '\n')
        if r.rc != 1 or r.out or not r.err.strip():
            raise Violation('invalid rule %r: status %d, stdout %r, stderr %r' % (d.reprules, r.rc, r.out[:100], r.err[:200]),
                            key='rejected')
        c.count('rejected')


def d_side(a, b):
    return sum(x != y for x, y in zip(a, b))
