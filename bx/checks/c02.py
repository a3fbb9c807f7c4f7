"""C02: every run terminates by itself; exit status and diagnostics agree."""
import re
from .. import harness, gen, hostile, model, opgen
from ..harness import Violation

TERMS = ['xterm-256color', 'vt100', 'nosuchterm', '', 'hardcopy', 'dumb', 'xterm', 'unknown', 'lpr', 'x' * 5000, '../../etc/passwd', None]
LOCALES = ['C', 'POSIX', 'C.UTF-8', 'xx_YY', 'de_DE.UTF-8', '', None]
LOG = re.compile(rb'^\[[\w. ]+\]')


class Check(harness.Check):
    ID = 'C02'
    QUICK = 14000
    THOROUGH = 400000
    RULE = ('operations of all kinds on random, damaged and pathological input: hostile text, configurations and options, extreme sizes, '
            'paddings, indentations and line lengths, many lines, designs and parents, backtracking regular expressions, box lines that '
            'nearly match, unusual locales and terminals, no input lines; observed: end, signal, status, messages, output. Small inputs '
            'must not take 20 s of CPU time; status 1 means a message and no output; valid requests end with status 0; non-trivial: '
            'the run ended with status 0 and output')
    NEEDS = dict(failed=600, valid=700, no_lines=150, extreme=250, nearly=100, rejected_known=150, environment=250, regex=60, chain=20)
    MIN_NONTRIVIAL = 0.4

    def case(self, c):
        k = c.rng.random()
        if k < 0.35:
            self.operation(c)
        elif k < 0.6:
            self.hostile(c)
        elif k < 0.7:
            self.extreme(c)
        elif k < 0.76:
            self.nearly(c)
        elif k < 0.84:
            self.no_lines(c)
        elif k < 0.92:
            self.known(c)
        elif k < 0.96:
            self.regex(c)
        else:
            self.chain(c)

    def judge(self, c, r, args, draws=False, text=b''):
        if r.rc:
            if not any(x.strip() and not LOG.match(x) for x in r.err.split(b'\n')):
                raise Violation('%r: status 1 without any message' % (args,), key='silent')
            if r.out:
                raise Violation('%r: status 1, but %d bytes of output (messages %r)' % (args, len(r.out), r.err[:200]), key='output')
            c.count('failed')
        elif draws and text and not r.out:
            raise Violation('%r: status 0, but neither output nor failure (messages %r)' % (args, r.err[:200]), key='nothing')
        c.nontrivial = c.nontrivial or r.rc == 0 and bool(r.out)
        c.seen(r.rc, r.err[:40])

    def must(self, c, r, args):
        if r.rc:
            raise Violation('valid request %r: status %d, messages %r' % (args, r.rc, r.err[:300]), key='valid')
        c.count('valid')

    def environment(self, c, text):
        """random locale and terminal (and whether the text is valid there)"""
        rng = c.rng
        env = {'TERM': rng.choice(TERMS), 'LC_ALL': rng.choice(LOCALES), 'LANG': rng.choice(LOCALES)}
        if rng.random() < 0.3:
            env['HOME'] = rng.choice([None, '', '/nonexistent', 'x' * 4000])
        if rng.random() < 0.3:
            env['XDG_CONFIG_HOME'] = rng.choice(['', '/nonexistent', 'x' * 4000, 'relative'])
        c.count('environment')
        return env, all(b < 128 for b in text)

    def operation(self, c):
        rng = c.rng
        c.nontrivial = False
        o = opgen.operation(c, environ=False)
        env, ascii = (None, True) if rng.random() < 0.7 else self.environment(c, o.text)
        r = c.boxes(o.args, o.text, env=env)
        self.judge(c, r, o.args, o.kind in ('draw', 'cld'), o.text)
        if o.valid and o.clean and ascii and not o.detect:
            self.must(c, r, o.args)

    def hostile(self, c):
        rng = c.rng
        c.nontrivial = False
        if rng.random() < 0.25:
            f, names = hostile.STOCK, [rng.choice(hostile.stock_names()) for _ in range(2)]
        else:
            b, names = hostile.hostile_config(rng)
            f = c.cfg(b)
        text = hostile.hostile_text(rng)
        env = None if rng.random() < 0.8 else self.environment(c, text)[0]
        args = hostile.hostile_options(rng, names)
        while '999999999999' in str(args) or '20000x3' in args:
            args = hostile.hostile_options(rng, names)
        if rng.random() < 0.9:
            args = ['-f', f] + args
        r = c.boxes(args, text, env=env)
        self.judge(c, r, args)
        if r.rc == 0 and r.out and rng.random() < 0.5:
            lines = hostile.mutate_box(rng, r.out.decode('utf-8', 'replace').split('\n'))
            args = ['-f', f] + (['-d', names[0]] if rng.random() < 0.6 else []) + [rng.choice(['-r', '-m'])] + gen.options(rng).args()
            r = c.boxes(args, '\n'.join(lines), env=env)
            self.judge(c, r, args)

    def design(self, c, **kw):
        rng = c.rng
        if rng.random() < 0.2:
            return hostile.STOCK, rng.choice(['c', 'boy', 'stone', 'shell', 'parchment', 'simple', 'cat', 'peek', 'unicornsay', 'ian_jones'])
        d = None
        while d is None or not model.drawable(d):
            d = gen.design(rng, maxdim=rng.choice([1, 2, 3, 6]), **kw)
        return c.cfg(gen.config_of(d)), d.name

    def extreme(self, c):
        """large but affordable requests"""
        rng = c.rng
        f, name = self.design(c)
        n = rng.choice([300, 900, 2000])
        args = ['-f', f, '-d', name]
        if rng.random() < 0.7:
            args += ['-s', rng.choice(['%dx%d' % (n, rng.randint(1, n)), str(n), 'x%d' % n, '1x1', '1', 'x1', '%dx1' % n, '1x%d' % n])]
        if rng.random() < 0.6:
            args += ['-p', rng.choice(['a%d', 'h%d', 'v%d', 'l%dr0', 't%db1']) % rng.choice([50, 100, 300])]
        if rng.random() < 0.3:
            args += ['-t', rng.choice(['1', '16', '8k', '16e', '1u'])]
        if rng.random() < 0.3:
            args += ['-a', rng.choice(['c', 'r', 'hcvc', 'hrvbjr', 'jc'])]
        args += rng.choice([[], [], ['-i', 'text'], ['-i', 'none']])
        k = rng.randrange(5)
        if k == 0:
            text = 'x' * rng.choice([500, 1500, 3000]) + '\n'
        elif k == 1:
            text = '\n'.join(['a', '', ' b'] * rng.choice([100, 400])) + '\n'
        elif k == 2:
            text = '\t' * rng.choice([10, 100]) + 'x\n'
        elif k == 3:
            text = ' ' * rng.choice([100, 1000]) + 'x\ny\n'
        else:
            text = '\n' * rng.choice([1, 50, 500])
        r = c.boxes(args, text)
        self.judge(c, r, args, True, text.encode())
        self.must(c, r, args)
        c.count('extreme')
        if rng.random() < 0.5 and len(r.out) < 400000:
            args = args[:4] + [rng.choice(['-r', '-m'])]
            if rng.random() < 0.3 and f != hostile.STOCK:
                del args[2:4]
                r2 = c.boxes(args, r.out)
                self.judge(c, r2, args)
                return
            r2 = c.boxes(args, r.out)
            self.judge(c, r2, args)
            self.must(c, r2, args)

    def nearly(self, c):
        """box lines that can be divided into shapes in many ways, and in the end do not match"""
        rng = c.rng
        d = None
        while d is None or not model.drawable(d):
            d = gen.design(rng, maxdim=2, alpha=rng.choice(['-', '-=', '* ', '-+', '#']))
        f = c.cfg(gen.config_of(d))
        o = gen.options(rng, size=0)
        n = rng.choice([30, 80, 200])
        lines = [rng.choice('ab ') * n] + ['x'] * rng.randint(0, 4)
        r = c.boxes(['-f', f, '-d', d.name] + o.args(), '\n'.join(lines) + '\n')
        self.judge(c, r, [], True, b'x')
        out = r.out.decode('utf-8', 'replace').split('\n')
        for i in range(len(out)):
            if rng.random() < 0.6:
                s = out[i]
                p = rng.choice([0, len(s), len(s) // 2, max(0, len(s) - 1)])
                out[i] = s[:p] + rng.choice(['x', ' ', '  ', '-', '--', '']) + s[p + rng.choice([0, 1, 2]):]
        for a in (['-d', d.name, '-r'], ['-r'], ['-d', d.name, '-m']):
            a = ['-f', f] + a
            r = c.boxes(a, '\n'.join(out))
            self.judge(c, r, a)
        c.count('nearly')

    def no_lines(self, c):
        rng = c.rng
        f, name = self.design(c)
        args = ['-f', f] + (['-d', name] if rng.random() < 0.7 else []) + gen.options(rng, tab=0.3, eol=0.3).args()
        args += rng.choice([[], [], ['-r'], ['-m'], ['-r', '-k', 'false'], ['-c', '#'], ['--color']])
        if rng.random() < 0.3:
            args += [rng.choice(['-', '/dev/null'])]
        r = c.boxes(args, b'')
        if r.rc or r.out or r.err:
            raise Violation('no input lines, %r: status %d, output %r, messages %r' % (args, r.rc, r.out[:200], r.err[:200]), key='no_lines')
        c.count('no_lines')
        c.nontrivial = True

    def known(self, c):
        """requests that cannot be fulfilled"""
        rng = c.rng
        f, name = self.design(c)
        text = 'x\n'
        k = rng.randrange(10)
        args = ['-f', f]
        op = rng.choice([[], ['-r'], ['-m']])
        if k == 0:
            args += ['-d', rng.choice(['nosuch', '', name + 'x', ' ' + name, '\u00e4'])] + op
        elif k == 1:
            args += [rng.choice(['--nosuch', '-Z', '--size', '--design=', '-a', '-az', '-px', '-sx', '-iq', '-eX', '-kmaybe', '-tq'])] + op
        elif k == 2:
            args = ['-f', c.path('missing.cfg')] + op
        elif k == 3:
            args = ['-f', c.cfg(rng.choice(['', '# nothing here\n', 'parent %s\n' % c.path('missing.cfg'), 'BOX\n', '\n\n', '\x00\x01'])), '-d', 'x'] + op
        elif k == 4:
            args += ['-d', name] + op + [c.path('missing.txt')]
        elif k == 5:
            args += ['-d', name] + op + ['-', c.path('missing/out')]
        elif k == 6:
            args += ['-d', 'nosuch', '-l']
        elif k == 7:
            args += ['-d', name, 'a', 'b', 'c']
        elif k == 8:
            # an expression that is none, in the rules which are needed
            e = gen.design(rng, maxdim=2)
            while not model.drawable(e):
                e = gen.design(rng, maxdim=2)
            good = [('global', 'q', 'p'), (None, 'x', 'y')]
            rules = rng.sample(good, rng.randint(0, 2))
            rules.insert(rng.randint(0, len(rules)), ('once', rng.choice(['a(b', '[a', '*', '(?<a', '(?z)', 'x{3,1}', '(?P<1>a)']), 'y'))
            if op == [] or op == ['-m'] and rng.random() < 0.5:
                e.reprules = rules
            else:
                e.revrules = rules
            args = ['-f', c.cfg(gen.config_of(e), 'rule.cfg'), '-d', e.name] + op
            if op:
                text = rng.choice(['x\n', 'x', ' a\n\nb\n'])
        else:
            # nothing in this design is usable
            e = gen.design(rng)
            e.name = 'bad'
            t = gen.config_of(e)
            i = t.index('shapes')
            t = t[:i] + rng.choice(['nonsense ', 'elastic (q) ', 'padding { top }']) + t[i:]
            args = ['-f', c.cfg(t, 'bad.cfg'), '-d', 'bad'] + op
        r = c.boxes(args, text)
        if r.rc != 1:
            raise Violation('%r cannot be done, but status %d, output %r, messages %r' % (args, r.rc, r.out[:200], r.err[:200]), key='known')
        self.judge(c, r, args)
        c.count('rejected_known')
        c.nontrivial = True

    def regex(self, c):
        """expressions that need a lot of backtracking, or match empty strings"""
        rng = c.rng
        d = gen.design(rng, maxdim=2)
        rx = ['(a+)+$', '(a|aa)+$', '(a*)*b', '^(([a-z])+.)+[A-Z]([a-z])+$', '', 'a*', '^', '$', '\\\\b', '(?=a)', '(x*)*', '(a?){20}a{20}',
              '(.*)(.*)(.*)(.*)[0-9]']
        rules = [(rng.choice([None, 'global', 'once']), rng.choice(rx), rng.choice(['', 'b', '$0', '$0$0', 'xxxxxxxx'])) for _ in range(rng.randint(1, 2))]
        if rng.random() < 0.5:
            d.reprules = rules
        else:
            d.revrules = rules
        f = c.cfg(gen.config_of(d))
        text = rng.choice(['a' * rng.choice([10, 22, 40, 300]) + 'b', 'aA ' * 20, '', 'x' * 50 + '!']) + '\n'
        a = ['-f', f, '-d', d.name]
        r = c.boxes(a, text, timeout=30)
        self.judge(c, r, a)
        if r.rc == 0:
            for m in ('-r', '-m'):
                r2 = c.boxes(a + [m], r.out, timeout=30)
                self.judge(c, r2, a + [m])
        c.count('regex')
        c.nontrivial = True

    def chain(self, c):
        """many designs, names and parents"""
        rng = c.rng
        d = gen.design(rng, maxdim=1)
        n = rng.choice([10, 60])
        files = []
        for i in range(n):
            d.name = 'd%d' % i
            d.aliases = ['d%da%d' % (i, j) for j in range(rng.choice([0, 1, 20]))]
            t = gen.config_of(d)
            k = rng.random()
            p = []
            if files and k < 0.8:
                p = [files[-1]] if k < 0.6 else [rng.choice(files) for _ in range(rng.randint(1, 3))]
            if k > 0.95:
                p.append(c.path('boxes.cfg'))       # refers to a file that refers to this one
            files.append(c.cfg(''.join('parent %s\n' % x for x in p) + t, 'p%d.cfg' % i))
        f = c.cfg(''.join('parent %s\n' % x for x in files[-3:]) + gen.config_of(d))
        for a in (['-d', 'd%d' % (n - 1)], ['-l'], ['-q', '(all)'], ['-r'], ['-d', 'nosuch']):
            a = ['-f', f] + a
            r = c.boxes(a, 'x\n', timeout=30)
            self.judge(c, r, a)
        c.count('chain')
        c.nontrivial = True
