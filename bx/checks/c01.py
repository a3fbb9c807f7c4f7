"""C01: memory safety - AddressSanitizer and UndefinedBehaviorSanitizer as oracle under hostile workloads."""
import importlib
from .. import harness, hostile, gen, run

# the workloads of these checks are run under the sanitizers, too
OTHERS = ['c%02d' % i for i in (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 27, 28)]


class Check(harness.Check):
    ID = 'C01'
    QUICK = 3600
    THOROUGH = 150000
    VARIANTS = ('asan', 'plain')
    RULE = ('random hostile text, configuration and command line (well-formed, token-mutated and byte-mutated; drawing, removing, '
            'mending, autodetection, listing, querying, logging), run under ASan+UBSan; non-trivial: the run got past command line '
            'and configuration parsing (status 0 with output)')
    MIN_NONTRIVIAL = 0.25
    NEEDS = dict(drawn=300, removed=150, config_errors=100, workload_of_other_checks=500)
    _others = {}

    def other(self, c):
        """a case of another check, with the instrumented program; only what the sanitizers say counts"""
        name = c.rng.choice(OTHERS)
        if name not in self._others:
            self._others[name] = importlib.import_module('bx.checks.' + name).Check()
            self._others[name].prepare()
        chk = self._others[name]
        chk.bins = {'plain': self.bins['asan'], 'asan': self.bins['asan']}
        mine, c.check = c.check, chk
        try:
            chk.case(c)
        except harness.Violation as v:
            if (v.key or '').startswith(('san:', 'signal:', 'status:')):
                raise
        finally:
            c.check = mine
            c.nontrivial = True
        c.counters = {'workload_of_other_checks': 1}
        c.seen('other', name)

    def case(self, c):
        rng = c.rng
        if rng.random() < 0.4:
            self.other(c)
            return
        if rng.random() < 0.25:
            f = hostile.STOCK
            names = [rng.choice(hostile.stock_names()) for _ in range(2)]
        else:
            b, names = hostile.hostile_config(rng)
            f = c.cfg(b)
        if rng.random() < 0.1:
            env = {'LC_ALL': rng.choice(['C', 'C.UTF-8', 'POSIX', 'xx']), 'TERM': rng.choice(['xterm-256color', 'dumb', ''])}
        else:
            env = None
        text = hostile.hostile_text(rng)
        args = ['-f', f] + hostile.hostile_options(rng, names)
        r = c.boxes(args, text, 'asan', env)
        self.note(c, args, r)
        ok = r.rc == 0 and bool(r.out)
        if rng.random() < 0.5:
            # a drawn box, damaged, then removed or mended
            base = ['-f', f, '-d', rng.choice(names)]
            r = c.boxes(base + gen.options(rng).args(), text, 'asan', env)
            if r.rc == 0 and r.out:
                ok = True
                lines = r.out.decode('utf-8', 'replace').split('\n')
                t = '\n'.join(hostile.mutate_box(rng, lines)).encode('utf-8', 'replace')
                a = (base if rng.random() < 0.7 else ['-f', f]) + [rng.choice(['-r', '-r', '-m'])] + gen.options(rng).args()
                if rng.random() < 0.2:
                    a += ['--no-kill-blank']
                if rng.random() < 0.1:
                    a += ['-x', 'debug:all']
                r = c.boxes(a, t, 'asan', env)
                self.note(c, a, r)
        c.nontrivial = ok

    def note(self, c, args, r):
        if r.rc == 0 and r.out:
            c.count('removed' if '-r' in args else 'mended' if '-m' in args else 'drawn')
        if r.rc == 1:
            c.count('rejected')
        if b'line ' in r.err:
            c.count('config_errors')
        c.seen(r.rc, '-r' in args, '-m' in args, r.err[:60].decode('utf-8', 'replace'))
