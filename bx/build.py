"""Builds boxes (and harnesses) from /repo's current working tree into /verif/build (git-ignored)."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
LIBS = ['-lunistring', '-lpcre2-32', '-lncurses']

VARIANTS = {
    # name: (compiler, flags)
    'plain': ('gcc', ['-O1', '-g']),
    'asan': ('gcc', ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                     '-fno-sanitize-recover=all']),
    # the same program with differently initialised stack and differently optimised: results must not depend on it
    'zero': ('gcc', ['-O2', '-g', '-ftrivial-auto-var-init=zero']),
    'pattern': ('clang', ['-O0', '-g', '-ftrivial-auto-var-init=pattern']),
    'cov': ('gcc', ['-O0', '-g', '--coverage']),
    'fuzz': ('clang', ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined,fuzzer-no-link',
                       '-fno-sanitize-recover=all', '-Dmain=boxes_main']),
}


# the sanitizer builds use instrumented versions of the library functions that access memory on behalf of boxes
CHECKED = os.path.join(VERIF, 'csrc', 'unistr_checked.c')
WRAP = ['-Wl,--wrap=u32_strconv_to_encoding', '-Wl,--wrap=u32_strconv_from_encoding', '-Wl,--wrap=u32_strwidth']


class BuildError(Exception):
    pass


def _sources():
    src = os.path.join(REPO, 'src')
    out = []
    for p in sorted(glob.glob(os.path.join(src, '*'))):
        if re.search(r'\.(c|h|l|y)$', p):
            out.append(p)
    return out


def source_hash():
    h = hashlib.sha256()
    for p in _sources() + [os.path.join(REPO, 'Makefile'), CHECKED]:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:16]


def version():
    with open(os.path.join(REPO, 'Makefile')) as f:
        t = f.read()
    v = re.search(r'^BVERSION\s*=\s*(\S+)', t, re.M).group(1)
    g = re.search(r'^GLOBALCONF\s*=\s*(\S+)', t, re.M).group(1)
    return v, g


def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode('utf-8', 'replace')[-4000:]))


def build(variant='plain', globalconf=None):
    """Return the path of the boxes binary of the given variant; builds it if needed."""
    cc, flags = VARIANTS[variant]
    ver, gconf = version()
    gconf = globalconf or gconf
    tag = '%s-%s' % (variant, source_hash())
    if globalconf:
        tag += '-' + hashlib.sha256(globalconf.encode()).hexdigest()[:8]
    os.makedirs(BUILD, exist_ok=True)
    final = os.path.join(BUILD, tag)
    binary = os.path.join(final, 'boxes')
    if os.path.exists(binary):
        return binary
    with open(os.path.join(BUILD, '.lock-' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(binary):
            return binary
        # drop older builds of this variant
        for d in glob.glob(os.path.join(BUILD, variant + '-*')):
            if os.path.isdir(d) and d != final:
                shutil.rmtree(d, ignore_errors=True)
        work = final + '.tmp%d' % os.getpid()
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        for p in _sources():
            shutil.copy(p, work)
        with open(os.path.join(work, 'boxes.in.h')) as f:
            t = f.read()
        t = t.replace('--BVERSION--', ver).replace('--GLOBALCONF--', gconf)
        with open(os.path.join(work, 'boxes.h'), 'w') as f:
            f.write(t)
        _run(['bison', '--defines=parser.h', '-o', 'parser.c', 'parser.y'], work)
        _run(['flex', '--header-file=lex.yy.h', '-o', 'lex.yy.c', 'lexer.l'], work)
        wrap = []
        if variant in ('asan', 'fuzz'):
            shutil.copy(CHECKED, work)
            wrap = WRAP
        cs = sorted(os.path.basename(c) for c in glob.glob(os.path.join(work, '*.c')))
        procs = []
        for c in cs:
            procs.append((c, subprocess.Popen([cc, '-I.', '-w'] + flags + ['-c', c], cwd=work,
                                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        err = []
        for c, p in procs:
            o, _ = p.communicate()
            if p.returncode != 0:
                err.append('%s: %s' % (c, o.decode('utf-8', 'replace')[-2000:]))
        if err:
            raise BuildError('\n'.join(err))
        objs = [c[:-2] + '.o' for c in cs]
        if variant != 'fuzz':
            _run([cc] + flags + objs + ['-o', 'boxes'] + wrap + LIBS, work)
        else:
            open(os.path.join(work, 'boxes'), 'w').close()
        shutil.rmtree(final, ignore_errors=True)
        os.rename(work, final)
    return binary


def build_c(name, source, variant='plain', objs=False, extra=(), shared=False):
    """Compile a C helper of /verif; with objs=True it is linked with all of boxes' objects."""
    binary = build(variant)
    d = os.path.dirname(binary)
    cc, flags = VARIANTS[variant]
    out = os.path.join(d, name)
    src = os.path.join(VERIF, source)
    with open(os.path.join(BUILD, '.lock-' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
            return out
        cmd = [cc, '-w', '-I' + d] + list(flags)
        if shared:
            cmd += ['-shared', '-fPIC']
        cmd += [src]
        if objs:
            # boxes.o with another name for its main(), so that the helper can have one
            _run(['objcopy', '--redefine-sym', 'main=boxes_main', 'boxes.o', 'boxes.nomain'], d)
            cmd += [o for o in sorted(glob.glob(os.path.join(d, '*.o'))) if os.path.basename(o) != 'boxes.o']
            cmd += [os.path.join(d, 'boxes.nomain')]
        cmd += list(extra) + ['-o', out + '.tmp']
        if not shared:
            cmd += (WRAP if objs and variant in ('asan', 'fuzz') else []) + LIBS
        else:
            cmd += ['-ldl']
        _run(cmd, d)
        os.rename(out + '.tmp', out)
    return out


if __name__ == '__main__':
    for v in sys.argv[1:] or ['plain', 'asan']:
        print(build(v))
