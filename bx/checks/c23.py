"""C23: files, pipes, and I/O failures."""
import fcntl
import os
import resource
import signal
import socket
import subprocess
import threading
import time
from .. import harness, gen, hostile, removal
from .. import run as R
from ..drawing import diff
from ..harness import Violation, Inconclusive


class Check(harness.Check):
    ID = 'C23'
    QUICK = 1500
    THOROUGH = 40000
    RULE = ('random text and operation (draw, remove, mend, list, details, query; small and large) run once with plain pipes; then the '
            'same through named files, "-", links, FIFOs, pipes fed in random chunks, existing longer output files; then with real '
            'faults: file size limits at every kind of position, a full device, closed and reset pipes, a connection that breaks after '
            'any number of bytes, directories and missing files, closed descriptors; bytes, status, messages and the input file are '
            'compared; non-trivial: output was produced')
    NEEDS = dict(named=2000, chunked=500, write_faults=1500, write_ok_at_limit=200, read_faults=600, open_faults=400, broken_pipe=200)
    MIN_NONTRIVIAL = 0.8

    # ---- running with real descriptors ----

    def spawn(self, c, args, stdin, stdout, limit=None, feed=None, ignore=True, cwd=None):
        """stdin, stdout: descriptors or None (closed); feed: function run in a thread after the start"""
        e = dict(R.BASE_ENV)
        e['HOME'] = c.home()
        rec = dict(args=args, stdin=b'', env=dict(limit=limit), variant='plain', cwd=cwd)
        c.runs.append(rec)
        c.evals += 1

        def pre():
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            signal.signal(signal.SIGPIPE, signal.SIG_IGN if ignore else signal.SIG_DFL)
            if stdin is None:
                os.close(0)
            if stdout is None:
                os.close(1)
        p = subprocess.Popen([self.bins['plain']] + args, stdin=subprocess.DEVNULL if stdin is None else stdin,
                             stdout=subprocess.DEVNULL if stdout is None else stdout, stderr=subprocess.PIPE, env=e,
                             cwd=cwd or c.dir, preexec_fn=pre, restore_signals=False)
        t = None
        if feed:
            t = threading.Thread(target=feed, args=(p,), daemon=True)
            t.start()
        res = R.Res()
        try:
            res.out = b''
            if stdout == subprocess.PIPE:
                if stdin == subprocess.PIPE:
                    p.stdin = None if t else p.stdin
                res.out, res.err = p.communicate(timeout=60)
            else:
                res.err = p.stderr.read()
                p.wait(timeout=60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise Inconclusive('watchdog')
        finally:
            if p.stderr and not p.stderr.closed:
                p.stderr.close()
        if t:
            t.join(5)
        res.rc = p.returncode
        rec['res'] = res
        if b'runtime error:' in res.err or b'Sanitizer' in res.err:       # as one of C01's workloads
            raise Violation('sanitizer report: %s' % R.san_key(res.err), key='san:' + R.san_key(res.err))
        return res

    # ---- cases ----

    def workload(self, c, rng):
        """(arguments, text)"""
        if rng.random() < 0.3:
            cfg, name = hostile.STOCK, rng.choice(['c', 'boy', 'stone', 'shell', 'parchment', 'simple', 'cat'])
            d = None
            alpha = set('-=+|*#/\\:~^<>()[]{}_.`\'"')
        else:
            d = gen.design(rng, maxdim=2, alpha=rng.choice(removal.BORDERS))
            cfg, name = c.cfg(gen.config_of(d)), d.name
            alpha = removal.alphabet(d)
        lines = removal.text(rng, alpha, maxlines=rng.choice([1, 5, 12]), maxlen=rng.choice([10, 40]), tabs=0.1) or ['ab']
        k = rng.random()
        if k < 0.2:
            lines = (lines * 4000)[:rng.choice([300, 1000, 3000])]
        elif k < 0.25:
            lines = [s * rng.choice([20, 60]) for s in lines]
        final = rng.random() < 0.8 or lines[-1] == ''
        nl = rng.choice(['\n', '\n', '\r\n'])
        text = nl.join(lines) + (nl if final else '')
        o = gen.options(rng, align=0.3, pad=0.3, size=0.2, indent=0.2)
        args = ['-f', cfg, '-d', name] + o.args()
        mode = rng.choice(['draw', 'draw', 'remove', 'mend', 'list', 'details', 'query', 'empty'])
        if mode in ('remove', 'mend'):
            r = c.boxes(args, text)
            if r.rc:
                raise Inconclusive('not drawable')
            text = r.out.decode('utf-8', 'replace')
            args.append('-r' if mode == 'remove' else '-m')
        elif mode == 'list':
            args = ['-f', hostile.STOCK, '-l']
        elif mode == 'details':
            args = ['-f', hostile.STOCK, '-d', 'cat', '-l']
        elif mode == 'query':
            args = ['-f', hostile.STOCK, '-q', '(all)']
        elif mode == 'empty':
            text = ''
        return mode, args, text.encode('utf-8', 'surrogateescape')

    def case(self, c):
        rng = c.rng
        try:
            mode, args, text = self.workload(c, rng)
        except Inconclusive:
            c.nontrivial = False
            return
        base = c.boxes(args, text)
        if base.rc:
            c.nontrivial = False
            return
        self.base, self.args, self.text, self.mode = base.out, args, text, mode
        c.nontrivial = bool(base.out)
        c.seen(mode, len(base.out).bit_length(), len(text).bit_length())
        self.named(c, rng)
        self.named(c, rng)
        self.chunked(c, rng)
        for _ in range(3):
            self.write_fault(c, rng)
        if mode not in ('list', 'details', 'query'):
            self.read_fault(c, rng)
        self.open_fault(c, rng)
        if rng.random() < 0.4 and base.out:
            self.broken_pipe(c, rng)

    def same(self, r, got, what, rc=0):
        if r.rc != 0 or r.err or got != self.base:
            raise Violation('%s (%s): status %d, %r: %s' % (what, self.mode, r.rc, r.err[:200],
                                                           diff(self.base.decode('utf-8', 'replace'), got.decode('utf-8', 'replace'))), key=what)

    def place(self, rng, files):
        """arguments with file names at the end or around the options"""
        k = rng.random()
        if any(f.startswith('-') and f != '-' for f in files):
            k = 0.6
        if k < 0.5:
            return self.args + files
        if k < 0.7:
            return self.args + ['--'] + files
        return files + self.args

    def named(self, c, rng):
        kin = rng.choice(['file', 'file', 'relative', 'link', 'dash', 'none', 'fifo', 'devstdin'])
        kout = rng.choice(['new', 'existing', 'existing', 'link', 'dash', 'none', 'fifo', 'devstdout'])
        fin, fout = c.path('input'), c.path('output')
        for f in (fin, fout, c.path('lin'), c.path('lout'), c.path('-in'), c.path('--out'), c.path('-o')):
            if os.path.lexists(f):
                os.unlink(f)
        feed = None
        stdin = self.text
        name = fin
        if kin in ('file', 'relative', 'link'):
            with open(fin, 'wb') as f:
                f.write(self.text)
            os.utime(fin, (1000000000, 1000000000))
            os.chmod(fin, rng.choice([0o444, 0o600, 0o644]))
            if kin == 'relative':
                name = rng.choice(['input', './input', '-in'])
                if name == '-in':
                    os.symlink('input', c.path('-in'))
                    c.count('name_with_dash')
            elif kin == 'link':
                os.symlink('input', c.path('lin'))
                name = c.path('lin')
            stdin = rng.choice([b'', b'this is not the input\n'])
        elif kin == 'fifo':
            os.mkfifo(fin)
            stdin = b''

            def feed(p):
                # a process that never opens the FIFO must not block the check
                for _ in range(2000):
                    try:
                        fd = os.open(fin, os.O_WRONLY | os.O_NONBLOCK)
                        break
                    except OSError:
                        time.sleep(0.002)
                else:
                    return
                os.set_blocking(fd, True)
                try:
                    with os.fdopen(fd, 'wb') as f:
                        f.write(self.text)
                except OSError:
                    pass
        elif kin == 'devstdin':
            name = '/dev/stdin'
        elif kin == 'dash':
            name = '-'
        files = [name] if kin != 'none' or kout != 'none' else []
        if kin == 'none' and files:
            files = ['-']
        target = None
        if kout == 'new':
            files.append(rng.choice([fout, 'output', './output', '-o', '--out']))
            target = fout if files[-1][0] != '-' else c.path(files[-1])
        elif kout in ('existing', 'link'):
            with open(fout, 'wb') as f:
                f.write(b'previous contents\n' * rng.choice([0, 1, 200, 1 + 2 * len(self.base) // 18]))
            ino = os.stat(fout).st_ino
            target = fout
            if kout == 'link':
                os.symlink('output', c.path('lout'))
                files.append(c.path('lout'))
            else:
                files.append(fout)
        elif kout == 'dash':
            files.append('-')
        elif kout == 'devstdout':
            files.append('/dev/stdout')
        got_fifo = []
        reader = None
        if kout == 'fifo':
            os.mkfifo(fout)
            files.append(fout)
            fd = os.open(fout, os.O_RDONLY | os.O_NONBLOCK)
            keep = os.open(fout, os.O_WRONLY)      # so that the reader does not see an end before the writer came
            os.set_blocking(fd, True)

            def rd():
                while True:
                    b = os.read(fd, 65536)
                    if not b:
                        break
                    got_fifo.append(b)
            reader = threading.Thread(target=rd, daemon=True)
            reader.start()
        si = self.pipe(stdin) if stdin and kin != 'fifo' else os.open('/dev/null', os.O_RDONLY)
        try:
            r = self.spawn(c, self.place(rng, files), si, subprocess.PIPE, feed=feed)
        finally:
            os.close(si)
            if reader:
                os.close(keep)
                reader.join(5)
                os.close(fd)
        what = 'input %s, output %s' % (kin, kout)
        if target:
            if r.out:
                raise Violation('%s: %d bytes on standard output' % (what, len(r.out)), key='stdout')
            got = open(target, 'rb').read() if os.path.exists(target) else b'<no output file>'
            self.same(r, got, what)
            if kout in ('existing', 'link') and os.stat(fout).st_ino != ino:
                c.count('replaced_inode')
            if kout == 'link' and not os.path.islink(c.path('lout')):
                c.count('replaced_link')
        elif kout == 'fifo':
            self.same(r, b''.join(got_fifo), what)
        else:
            self.same(r, r.out, what)
        if kin in ('file', 'relative', 'link'):
            st = os.stat(fin)
            if open(fin, 'rb').read() != self.text or st.st_mtime != 1000000000:
                raise Violation('%s: the input file was modified' % what, key='input')
        c.count('named')
        c.seen('named', kin, kout)

    def pipe(self, data):
        """descriptor from which the data can be read: a pipe if it fits, otherwise a pipe fed by a thread"""
        a, b = os.pipe()

        def w():
            try:
                with os.fdopen(b, 'wb') as f:
                    f.write(data)
            except OSError:
                pass
        if len(data) <= 60000:
            w()
        else:
            threading.Thread(target=w, daemon=True).start()
        return a

    def chunked(self, c, rng):
        sizes = []
        n = 0
        style = rng.choice(['tiny', 'random', 'buffer'])
        while n < len(self.text) and len(sizes) < 200:
            k = dict(tiny=rng.choice([1, 1, 2, 3]), random=rng.choice([1, 7, 100, 4095, 4096, 4097]), buffer=4096)[style]
            sizes.append(k)
            n += k
        a, b = os.pipe()
        if rng.random() < 0.3:
            sa, sb = socket.socketpair()
            os.close(a)
            os.close(b)
            a, b = sa.detach(), sb.detach()
        data = self.text

        def feed(p):
            i = 0
            try:
                for k in sizes:
                    os.write(b, data[i:i + k])
                    i += k
                    time.sleep(0.00003)
                while i < len(data):
                    i += os.write(b, data[i:i + 65536])
            except OSError:
                pass
            finally:
                os.close(b)
        try:
            r = self.spawn(c, self.args, a, subprocess.PIPE, feed=feed)
        finally:
            os.close(a)
        self.same(r, r.out, 'input in chunks (%s)' % style)
        c.count('chunked')
        c.seen('chunked', style, len(sizes))

    def write_fault(self, c, rng):
        """the output can only be written up to some byte"""
        n = len(self.base)
        if n == 0:
            return
        fout = c.path('limited')
        kind = rng.choice(['limit', 'limit', 'limit', 'full', 'closed'])
        named = rng.random() < 0.5
        si = self.pipe(self.text)
        fd = None
        try:
            if kind == 'limit':
                lim = rng.choice([0, 1, n - 1, n, n + 1, rng.randint(0, n), rng.randint(0, n), (n // 4096) * 4096, max(0, n - rng.randint(1, 40))])
                if os.path.exists(fout):
                    os.unlink(fout)
                if named:
                    r = self.spawn(c, self.place(rng, ['-', fout]), si, subprocess.DEVNULL, limit=lim)
                else:
                    fd = os.open(fout, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    r = self.spawn(c, self.args, si, fd, limit=lim)
                got = open(fout, 'rb').read() if os.path.exists(fout) else b''
                if lim >= n:
                    self.same(r, got, 'size limit not reached')
                    c.count('write_ok_at_limit')
                    return
                if not self.base.startswith(got):
                    raise Violation('what was written before the failure is not the beginning of the result', key='prefix')
            elif kind == 'full':
                if named:
                    r = self.spawn(c, self.place(rng, ['-', '/dev/full']), si, subprocess.DEVNULL)
                else:
                    fd = os.open('/dev/full', os.O_WRONLY)
                    r = self.spawn(c, self.args, si, fd)
            else:
                r = self.spawn(c, self.args, si, None)
        finally:
            os.close(si)
            if fd is not None:
                os.close(fd)
        if r.rc != 1 or not r.err.startswith(b'boxes: '):
            raise Violation('output cannot be written completely (%s%s, %d bytes, %s), but status %d, messages %r'
                            % (kind, ' %d' % lim if kind == 'limit' else '', n, self.mode, r.rc, r.err[:200]), key='write:' + kind)
        c.count('write_faults')
        c.seen('write', kind, named, self.mode)

    def read_fault(self, c, rng):
        kind = rng.choice(['reset', 'reset', 'reset', 'dir', 'dirname', 'closed', 'mem', 'writeonly'])
        args = self.args
        fds = []
        try:
            if kind == 'reset':
                n = rng.choice([0, 1, len(self.text) // 2, len(self.text), rng.randint(0, len(self.text))])
                n = min(n, 60000)
                a, b = socket.socketpair()
                for s in (a, b):
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 18)
                a.send(b'x')                # is never read: the other end is reset when it is closed
                if n:
                    b.sendall(self.text[:n])
                b.close()
                fd = a.detach()
            elif kind == 'dir':
                fd = os.open(c.dir, os.O_RDONLY)
            elif kind == 'dirname':
                fd = os.open('/dev/null', os.O_RDONLY)
                args = self.place(rng, [c.dir])
            elif kind == 'mem':
                if not os.path.exists('/proc/self/mem'):
                    return
                fd = os.open('/dev/null', os.O_RDONLY)
                args = self.place(rng, ['/proc/self/mem'])
            elif kind == 'writeonly':
                fd = os.open(c.path('wo'), os.O_WRONLY | os.O_CREAT)
            else:
                fd = None
            if fd is not None:
                fds.append(fd)
            r = self.spawn(c, args, fd, subprocess.PIPE)
        finally:
            for f in fds:
                os.close(f)
        if r.rc != 1 or not r.err.startswith(b'boxes: ') or r.out:
            raise Violation('input cannot be read (%s, %s), but status %d, messages %r, %d bytes of output'
                            % (kind, self.mode, r.rc, r.err[:200], len(r.out)), key='read:' + kind)
        c.count('read_faults')
        c.seen('read', kind, self.mode)

    def open_fault(self, c, rng):
        keep = c.write('keep', 'previous contents\n')
        kind = rng.choice(['noin', 'noout', 'outdir', 'config'])
        if kind == 'noin':
            bad = rng.choice([c.path('missing'), c.path('keep/x'), 'no such \u00e4', ''])
            files = [bad] + rng.choice([[], [keep], ['-']])
        elif kind == 'noout':
            files = [rng.choice(['-', keep]), rng.choice([c.path('missing/out'), c.path('keep/x'), ''])]
        elif kind == 'config':
            # the configuration (or a parent) opens, but cannot be read
            bad = '/proc/self/mem'
            if not os.path.exists(bad):
                return
            if rng.random() < 0.5:
                bad = c.cfg('parent %s\n' % bad, 'child.cfg')
            r = c.boxes(['-f', bad] + rng.choice([[], ['-l'], ['-d', 'x']]), self.text)
            if r.rc != 1 or r.out or not r.err:
                raise Violation('unreadable config file: status %d, messages %r, %d bytes of output' % (r.rc, r.err[:200], len(r.out)), key='config')
            c.count('open_faults')
            return
        else:
            files = [rng.choice(['-', keep]), c.dir]
        r = c.boxes(self.place(rng, files), self.text)
        if r.rc != 1 or r.out or not r.err.startswith(b'boxes: '):
            raise Violation('%s: status %d, messages %r, %d bytes of output' % (files, r.rc, r.err[:200], len(r.out)), key='open')
        if open(keep).read() != 'previous contents\n':
            raise Violation('a file could not be opened, but the other one was changed', key='open')
        c.count('open_faults')

    def broken_pipe(self, c, rng):
        """the reader goes away after some bytes"""
        a, b = os.pipe()
        fcntl.fcntl(b, 1031, 4096)          # F_SETPIPE_SZ
        size = fcntl.fcntl(b, 1032)
        n = rng.choice([0, 0, 1, rng.randint(0, len(self.base))])
        if len(self.base) <= size and n:
            n = 0
        if len(self.base) <= n + size + 8192 and n:
            n = 0

        def feed(p):
            left = n
            while left > 0:
                x = os.read(a, left)
                if not x:
                    break
                left -= len(x)
            os.close(a)
        if n == 0:
            os.close(a)
        ignore = rng.random() < 0.6
        si = self.pipe(self.text)
        try:
            r = self.spawn(c, self.args, si, b, feed=feed if n else None, ignore=ignore)
        finally:
            os.close(si)
            os.close(b)
        if ignore and (r.rc != 1 or not r.err.startswith(b'boxes: ')):
            raise Violation('reader went away after %d of %d bytes, but status %d, messages %r' % (n, len(self.base), r.rc, r.err[:200]), key='pipe')
        if not ignore and r.rc != -signal.SIGPIPE and (r.rc != 1 or not r.err):
            raise Violation('reader went away after %d of %d bytes, but status %d' % (n, len(self.base), r.rc), key='pipe')
        c.count('broken_pipe')
