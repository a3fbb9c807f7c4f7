"""Running the program under test: one process per call, with watchdog, output caps and sanitizer-report detection."""
import os, re, signal, subprocess, time, resource, shutil, tempfile, threading

MAXOUT = 64 << 20


class Res:
    __slots__ = ('rc', 'out', 'err', 'timeout', 'cpu', 'args', 'stdin', 'san', 'env')

    def __init__(self):
        self.timeout = False
        self.cpu = 0.0
        self.san = None

    @property
    def signal(self):
        return -self.rc if self.rc is not None and self.rc < 0 else 0

    def crashed(self):
        return bool(self.san) or self.signal != 0 or self.rc not in (0, 1)

    def describe(self):
        return 'rc=%s%s stderr=%r' % (self.rc, ' TIMEOUT(cpu %.1fs)' % self.cpu if self.timeout else '',
                                      self.err[-600:])


SAN_RE = re.compile(rb'(==\d+==ERROR: \w+Sanitizer[^\n]*|[\w./-]+:\d+:\d+: runtime error: [^\n]*)')
FRAME_RE = re.compile(rb'#\d+ 0x[0-9a-f]+ in (\w+)')


def san_key(err):
    """stable description of a sanitizer report: kind and first frames inside boxes (no line numbers)"""
    m = SAN_RE.search(err)
    if not m:
        return None
    head = m.group(1).decode('utf-8', 'replace')
    kind = re.sub(r'==\d+==', '', head)
    kind = re.sub(r'0x[0-9a-f]+', 'ADDR', kind)
    kind = re.sub(r'\S*/', '', kind)
    kind = re.sub(r':\d+:\d+:', ':', kind)
    kind = re.sub(r' on (unknown )?address.*', '', kind)
    frames = [f.decode() for f in FRAME_RE.findall(err[m.start():])]
    frames = [f for f in frames if not f.startswith(('__', 'u32_', 'str', 'mem', '_start', 'free', 'malloc', 'calloc',
                                                      'realloc'))][:3]
    return (kind[:120] + ' @ ' + '<'.join(frames)).strip()


BASE_ENV = {
    'PATH': '/usr/local/bin:/usr/bin:/bin',
    'LC_ALL': 'C.UTF-8',
    'LANG': 'C.UTF-8',
    'TERM': 'dumb',
    'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=0:'
                    'detect_stack_use_after_return=1:max_allocation_size_mb=4096:handle_abort=1:verify_asan_link_order=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
}


def _cpu_of(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            p = f.read().rsplit(')', 1)[1].split()
        return (int(p[11]) + int(p[12])) / os.sysconf('SC_CLK_TCK')
    except OSError:
        return 0.0


def run_once(argv, stdin, env, cwd, timeout):
    r = Res()
    r.args = argv
    r.stdin = stdin
    r.env = env
    p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd,
                         close_fds=False)
    try:
        r.out, r.err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        r.timeout = True
        r.cpu = _cpu_of(p.pid)
        p.kill()
        try:
            r.out, r.err = p.communicate(timeout=20)
        except subprocess.TimeoutExpired:
            r.out, r.err = b'', b''
    r.rc = p.returncode
    if r.timeout:
        r.rc = None
    if b'runtime error:' in r.err or b'Sanitizer' in r.err:
        r.san = san_key(r.err)
    return r


class Hang(Exception):
    """the program used a lot of CPU time on a tiny input and had to be killed (twice)"""
    def __init__(self, res):
        Exception.__init__(self, 'no result after %.1f s of CPU time' % res.cpu)
        self.res = res


class Stalled(Exception):
    """watchdog fired although the program got little CPU time: says nothing"""


def run(argv, stdin=b'', env=None, cwd=None, timeout=20):
    e = dict(BASE_ENV)
    if env:
        for k, v in env.items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
    r = run_once(argv, stdin, e, cwd, timeout)
    if r.timeout and (len(stdin) > 4096 or b'asan-' in os.fsencode(argv[0])):
        # long lines take quadratic time, instrumented code is many times slower: no verdict (C02 is about termination)
        raise Stalled('watchdog fired on an input of %d bytes' % len(stdin))
    if r.timeout:
        r = run_once(argv, stdin, e, cwd, timeout * 2)
        if r.timeout:
            if r.cpu > timeout * 0.5:
                raise Hang(r)
            raise Stalled('watchdog fired, cpu %.1f' % r.cpu)
    return r
