"""C25: the output depends on text, options and configuration only."""
import os
import subprocess
import tempfile
from .. import harness, opgen
from .. import run as R
from ..drawing import diff
from ..harness import Violation, Inconclusive
from .c24 import bare

IRRELEVANT = ['LINES', 'COLUMNS', 'LANGUAGE', 'TZ', 'NO_COLOR', 'CLICOLOR_FORCE', 'PWD', 'OLDPWD', 'EDITOR', 'SHELL', 'USER', 'COLORTERM',
              'XDG_CONFIG_HOME', 'XDG_CONFIG_DIRS', 'BOXES', 'LANG', 'HOME', 'TMPDIR', 'VISUAL', 'IFS', 'DEBUG', 'boxes', 'BOXES_CONFIG']


class Check(harness.Check):
    ID = 'C25'
    QUICK = 1000
    THOROUGH = 60000
    VARIANTS = ('plain', 'zero', 'pattern')
    RULE = ('random operation of any kind (well-formed and damaged configurations, text and options) run repeatedly: same again, with '
            'perturbed heap contents, two builds whose uninitialised stack memory holds zeros or garbage (different compilers and '
            'optimisation), without address randomisation, with small and large stacks and environments, unrelated variables, other '
            'working directory and umask, input as pipe, chunks or file, output to pipe or file; bytes, status and messages are '
            'compared; a sample under valgrind, which reports every decision that depends on undefined memory; the scratch area is '
            'compared before and after: nothing but the output may be written; non-trivial: the run produced output')
    NEEDS = dict(perturbed=4500, valgrind=25, snapshot=800, heap=800, stack=800, env=250, chunks=250, detect=30, large=50)
    MIN_NONTRIVIAL = 0.5

    def prepare(self):
        ok = subprocess.run(['setarch', '-R', 'true'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        self.aslr = ok.returncode == 0

    def spawn(self, c, binary, args, stdin, env, cwd, pre=None, prefix=(), chunks=None):
        """like Case.boxes(), but with files as standard input and output or input in pieces"""
        e = dict(R.BASE_ENV)
        e['HOME'] = c.home()
        for k, v in (env or {}).items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
        rec = dict(args=args, stdin=stdin, env=env, variant='plain', cwd=cwd)
        c.runs.append(rec)
        c.evals += 1
        res = R.Res()
        p = subprocess.Popen(list(prefix) + [binary] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e,
                             cwd=cwd or c.dir, preexec_fn=pre)
        try:
            if chunks:
                i = 0
                try:
                    for n in chunks:
                        if i >= len(stdin):
                            break
                        os.write(p.stdin.fileno(), stdin[i:i + n])
                        i += n
                except OSError:
                    i = len(stdin)
                stdin = stdin[i:]
            res.out, res.err = p.communicate(stdin, timeout=120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise Inconclusive('watchdog')
        res.rc = p.returncode
        rec['res'] = res
        return res

    def snapshot(self, c):
        out = {}
        for base, dirs, files in os.walk(c.dir):
            for f in dirs + files:
                p = os.path.join(base, f)
                st = os.lstat(p)
                out[p] = (st.st_mode, st.st_ino, st.st_size, st.st_mtime_ns)
        return out

    def case(self, c):
        rng = c.rng
        o = opgen.operation(c)
        args, text = o.args, o.text
        if rng.random() < 0.08:
            # many lines, some of them blank, so that arrays are enlarged more than once
            more = b'\n'.join(text.split(b'\n')[:-1] or [b'x']).split(b'\n')
            lines = [rng.choice(more + [b'', b'', b'\t', b' '])[:60] for _ in range(rng.choice([101, 150, 230, 450]))]
            text = o.text = b'\n'.join(lines) + b'\n'
            c.count('large')
            if rng.random() < 0.5 and '-t' not in args:
                args += ['-t', '%d%s' % (rng.randint(1, 9), rng.choice('euk'))]
        self.home = c.home()
        os.makedirs(c.path('elsewhere'), exist_ok=True)
        before = self.snapshot(c)
        base = c.boxes(args, text, env=o.env)
        self.base, self.o = base, o
        c.nontrivial = bool(base.out)
        if o.detect:
            c.count('detect')
        kinds = ['again', 'heap', 'stack', 'stack2'] + rng.sample(['heap', 'env', 'cwd', 'chunks', 'file', 'aslr', 'limits', 'bigenv'], 3)
        if rng.random() < (0.05 if c.tier == 'quick' else 0.1):
            kinds.append('valgrind')
        for k in kinds:
            self.one(c, rng, k)
        after = self.snapshot(c)
        if after != before:
            names = sorted(set(before.items()) ^ set(after.items()))
            raise Violation('files were written: %s' % ', '.join(sorted({n for n, _ in names}))[:300], key='files')
        c.count('snapshot')
        c.seen(o.kind, base.rc, o.valid)

    def same(self, c, r, what):
        b = self.base
        if (r.rc, r.out) != (b.rc, b.out):
            raise Violation('%s: status %d instead of %d, %s' % (what, r.rc, b.rc, diff(b.out.decode('utf-8', 'replace'),
                                                                                         r.out.decode('utf-8', 'replace'))), key=what)
        bins = self.bins.values()
        if bare(r.err, *bins) != bare(b.err, *bins):
            raise Violation('%s: messages %r instead of %r' % (what, r.err[:300], b.err[:300]), key=what)
        c.count('perturbed')

    def one(self, c, rng, kind):
        o = self.o
        args, text = o.args, o.text
        env = dict(o.env or {})
        binary = self.bins['plain']
        cwd = pre = chunks = None
        prefix = []
        if kind == 'heap':
            if rng.random() < 0.5:
                env['MALLOC_PERTURB_'] = str(rng.randint(1, 255))
            else:
                env['GLIBC_TUNABLES'] = 'glibc.malloc.perturb=%d:glibc.malloc.tcache_count=%d:glibc.malloc.mmap_threshold=%d' \
                    % (rng.randint(1, 255), rng.choice([0, 7, 100]), rng.choice([512, 4096, 131072]))
            c.count('heap')
        elif kind == 'stack':
            binary = self.bins['zero']
            c.count('stack')
        elif kind == 'stack2':
            binary = self.bins['pattern']
            env['MALLOC_PERTURB_'] = str(rng.randint(1, 255))
        elif kind == 'env':
            for k in rng.sample(IRRELEVANT, rng.randint(1, 8)):
                env[k] = rng.choice(['', '0', '1', 'x', '/nonexistent', 'de_DE.UTF-8', '3', c.path('elsewhere')])
            if rng.random() < 0.2:
                env['HOME'] = None
            c.count('env')
        elif kind == 'bigenv':
            for i in range(rng.choice([1, 50, 400])):
                env['V%d' % i] = 'x' * rng.choice([0, 1, 17, 1000])
        elif kind == 'cwd':
            cwd = rng.choice(['/', c.path('elsewhere'), '/tmp'])
        elif kind == 'chunks':
            chunks = [rng.choice([1, 2, 3, 7, 64, 1000]) for _ in range(rng.randint(1, 60))]
            c.count('chunks')
        elif kind == 'aslr':
            if not self.aslr:
                return
            prefix = ['setarch', '-R']
        elif kind == 'limits':
            soft = rng.choice([256, 1024, 8192, 65536]) * 1024
            mask = rng.choice([0, 0o77, 0o777])

            def pre():
                import resource
                resource.setrlimit(resource.RLIMIT_STACK, (soft, resource.getrlimit(resource.RLIMIT_STACK)[1]))
                os.umask(mask)
        elif kind == 'file':
            # outside of the scratch area, because that must not change
            with tempfile.TemporaryDirectory(prefix='bxv-C25-', dir='/dev/shm' if os.path.isdir('/dev/shm') else None) as d:
                fin, fout = os.path.join(d, 'in'), os.path.join(d, 'out')
                with open(fin, 'wb') as f:
                    f.write(text)
                files = [fin, fout]
                r = self.spawn(c, binary, args + files, b'', env, None)
                if os.path.exists(fout):
                    if r.out:
                        raise Violation('%d bytes on standard output although an output file was given' % len(r.out), key='file')
                    r.out = open(fout, 'rb').read()
                if open(fin, 'rb').read() != text or sorted(os.listdir(d)) not in (['in'], ['in', 'out']):
                    raise Violation('input file modified or other files written: %r' % sorted(os.listdir(d)), key='file')
            if self.base.rc == 0 or r.rc != self.base.rc:
                self.same(c, r, 'file')
            return
        elif kind == 'valgrind':
            if len(text) > 3000:
                return
            # only this program's own decisions: error exit code 97, reports go to a pipe-free place
            log = tempfile.NamedTemporaryFile(prefix='bxv-C25-', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
            with log:
                r = self.spawn(c, binary, args, text, env, None,
                               prefix=['valgrind', '-q', '--error-exitcode=97', '--log-file=' + log.name])
                report = log.read().decode('utf-8', 'replace')
            if r.rc == 97:
                raise Violation('valgrind: %s' % report[:1500], key='valgrind')
            c.count('valgrind')
        if kind != 'valgrind':
            r = self.spawn(c, binary, args, text, env, cwd, pre, prefix, chunks)
        self.same(c, r, kind)
