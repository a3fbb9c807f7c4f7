#!/usr/bin/env python3
"""Mutation analysis of the checks. Usage: mutate.py OUT.jsonl [-s SEED] [-n COUNT] [-f FILE.c,…] [-j JOBS] [-r FRACTION] [-a MUTANTS.jsonl] [-c CNN,…]

Makes COUNT random small changes to the sources, each in a scratch copy; those that still build and pass the stable tests
are given to the checks (with FRACTION of the cases of the quick tier), which stop at the first that reports a violation.
With -a, the mutants which another run's output lists as missed are tried again; with -c, only with the checks given.
"""
import json, multiprocessing as mp, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/mut'
ORDER = ['C05', 'C12', 'C13', 'C26', 'C08', 'C16', 'C14', 'C17', 'C22', 'C28', 'C11', 'C07', 'C27', 'C09', 'C10', 'C15', 'C21', 'C18', 'C19', 'C20',
         'C03', 'C04', 'C06', 'C24', 'C23', 'C02', 'C01', 'C25']
FIRST = {
    'boxes.c': ['C22', 'C09', 'C14', 'C23', 'C27'], 'bxstring.c': ['C26', 'C16'], 'cmdline.c': ['C22', 'C27'], 'detect.c': ['C10'],
    'discovery.c': ['C19', 'C18'], 'generate.c': ['C05', 'C07', 'C06', 'C12'], 'input.c': ['C13', 'C12', 'C14', 'C25'], 'list.c': ['C21'],
    'logging.c': ['C24'], 'parsecode.c': ['C17', 'C21', 'C27'], 'parsing.c': ['C18', 'C17'], 'query.c': ['C20'], 'regulex.c': ['C11'],
    'remove.c': ['C08', 'C28', 'C09', 'C16', 'C13'], 'shape.c': ['C05', 'C26', 'C08', 'C10'], 'tools.c': ['C26', 'C13', 'C17'],
    'unicode.c': ['C26', 'C15', 'C16'], 'lexer.l': ['C17', 'C18'], 'parser.y': ['C17', 'C18'],
}
REL = [('<=', '<'), ('>=', '>'), ('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&'), (' < ', ' <= '), (' > ', ' >= '), (' + ', ' - '), (' - ', ' + '),
       ('++', '--'), ('--', '++'), (' += ', ' -= '), (' -= ', ' += ')]


def sh(cmd, cwd=None, timeout=600, env=None):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, start_new_session=True)
        return r.returncode, r.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return -1, 'timeout'


def lines_of(path):
    """(number, text) of the lines that may be changed"""
    out = []
    comment = debug = skip = False
    depth = 0
    with open(path) as f:
        src = f.read().split('\n')
    if path.endswith(('.l', '.y')):
        # the actions only
        pass
    for i, s in enumerate(src):
        t = s.strip()
        if comment:
            if '*/' in t:
                comment = False
            continue
        if t.startswith('/*'):
            comment = '*/' not in t
            continue
        if debug:
            depth += t.count('{') - t.count('}')
            if depth <= 0:
                debug = False
            continue
        if 'is_debug_logging' in t and t.endswith('{'):
            debug, depth = True, 1
            continue
        if skip:
            skip = not t.endswith(';')
            continue
        if re.match(r'(log_debug|log_debug_cont|perror|print_|debug_print)', t):
            skip = not t.endswith(';')
            continue
        if not t or t[0] in '#*%' or t.startswith('//') or re.match(r'(BFREE|bxs_free|free|fprintf\(stderr|bx_fprintf\(stderr|static \w+ \w+;|typedef)', t):
            continue
        out.append((i, s))
    return src, out


def mutations(s):
    code = re.sub(r'/\*.*?\*/', lambda m: ' ' * len(m.group()), s)
    code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + ' ' * (len(m.group()) - 2) + '"', code)
    code = re.sub(r"'(\\.|[^'\\])*'", lambda m: "'" + ' ' * (len(m.group()) - 2) + "'", code)
    out = []
    for a, b in REL:
        i = code.find(a)
        while i >= 0:
            if not (a in ('<=', '>=') and code[i - 1:i] in '<>-') and not (a == '==' and code[i + 2:i + 3] == '='):
                out.append(s[:i] + b + s[i + len(a):])
            i = code.find(a, i + len(a))
    for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', code):
        n = int(m.group(1))
        for x in {n + 1, n - 1 if n else 1}:
            out.append(s[:m.start()] + str(x) + s[m.end():])
    m = re.match(r'(\s*(?:\} else )?(?:if|while) \()(.*)(\) \{)$', s)
    if m and code.count('(') == code.count(')'):
        out.append(m.group(1) + '!(' + m.group(2) + ')' + m.group(3))
        out.append(m.group(1) + '0 && (' + m.group(2) + ')' + m.group(3)) if 'while' not in m.group(1) else None
        out.append(m.group(1) + '1 || (' + m.group(2) + ')' + m.group(3)) if 'while' not in m.group(1) else None
    t = code.strip()
    if t.endswith(';') and not re.match(r'(return|[\w ]+\*? ?\*?\w+( = |;|\[)|extern|static)', t) or re.match(r'(\w|->|\.|\[|\])+ = .*;$', t) or t in ('break;', 'continue;'):
        if code.count('(') == code.count(')'):
            out.append(re.match(r'\s*', s).group() + ';')
    m = re.match(r'(\s*return )(.+);$', s)
    if m and m.group(2) in ('0', '1'):
        pass
    m = re.search(r"'([a-z])'", s)
    if m and '==' in s:
        out.append(s.replace(m.group(), "'%s'" % ('q' if m.group(1) != 'q' else 'z'), 1))
    if 'toupper' in s or 'BMAX' in s:
        out.append(s.replace('BMAX', 'BMIN', 1))
    if 'BMIN' in s:
        out.append(s.replace('BMIN', 'BMAX', 1))
    for a, b in (('first_char', 'visible_char'), ('visible_char', 'first_char'), ('num_chars_visible', 'num_chars'), ('num_columns', 'num_chars'),
                 ('num_chars', 'num_columns'), ('num_columns', 'num_chars_visible'), ('BTOP', 'BBOT'), ('BBOT', 'BTOP'), ('BLEF', 'BRIG'), ('BRIG', 'BLEF'),
                 ('.width', '.height'), ('.height', '.width'), ('strcasecmp', 'strcmp'), ('strncasecmp', 'strncmp'), ('NW', 'NE'), ('SE', 'SW'), ('NE', 'NW'),
                 ('north_side', 'south_side'), ('west_side', 'east_side'), ('is_blank(', '!is_blank('), ('true', 'false'), ('SIZE_MAX', '0')):
        for m in re.finditer(re.escape(a) + (r'\b' if a[-1].isalnum() else ''), code):
            if a[0].isalnum() and m.start() and (code[m.start() - 1].isalnum() or code[m.start() - 1] == '_'):
                continue
            out.append(s[:m.start()] + b + s[m.end():])
    return [x for x in out if x and x != s]


def all_mutants(files):
    out = []
    for f in files:
        src, ls = lines_of('/repo/src/' + f)
        for i, s in ls:
            seen = set()
            for x in mutations(s):
                if x not in seen:
                    seen.add(x)
                    out.append(dict(file=f, line=i + 1, old=s, new=x))
    return out


def names(x):
    return set(x['passed']) if 'passed' in x else set(x.get('stable') or x.get('tests'))


def setup(n):
    d = '%s/w%d' % (W, n)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh('cp -a /repo %s/repo; mkdir %s/verif; cd %s; git archive HEAD | tar -x -C %s/verif --exclude=seeded' % (d, d, V, d))
    if os.environ.get('MUT_WORK'):
        sh('cp -r %s/bx %s/csrc %s/check.py %s/verif/' % (V, V, V, d))
    for s in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + s).read().replace('/opt/vp/build.sh', d + '/build.sh').replace('/repo', d + '/repo').replace('-P8', '-P2')
        open(d + '/' + s, 'w').write(t)
    sh("sed -i 's/    WORKERS = 8/    WORKERS = 1/' %s/verif/bx/harness.py" % d)
    sh('bash %s/build.sh' % d)
    return d


def work(n, queue, out, frac, stable, only):
    d = setup(n)
    quick = {}
    for c in ORDER:
        m = re.search(r'^    QUICK = (\d+)', open('%s/verif/bx/checks/%s.py' % (d, c.lower())).read(), re.M)
        quick[c] = int(m.group(1))
    while True:
        m = queue.get()
        if m is None:
            break
        p = '%s/repo/src/%s' % (d, m['file'])
        orig = open(p).read()
        src = orig.split('\n')
        if src[m['line'] - 1] != m['old']:
            continue
        src[m['line'] - 1] = m['new']
        open(p, 'w').write('\n'.join(src))
        t0 = time.time()
        try:
            if not m.get('survived'):
                rc, _ = sh('bash %s/build.sh' % d, timeout=120)
                if rc:
                    m['result'] = 'nobuild'
                    out.put(m)
                    continue
                rc, _ = sh('bash %s/test.sh %s/out.json' % (d, d), timeout=400)
                try:
                    missing = stable - names(json.load(open(d + '/out.json')))
                except OSError:
                    missing = {'?'}
                if missing:
                    m['result'] = 'tests'
                    m['missing'] = sorted(missing)[:2]
                    out.put(m)
                    continue
            m['survived'] = True
            m['result'] = 'missed'
            env = dict(os.environ, VERIF_REPO=d + '/repo')
            order = [x for x in FIRST.get(m['file'], []) if x in only]
            for c in order + [x for x in only if x not in order]:
                rc, o = sh('python3 check.py %s -n %d' % (c, max(40, int(quick[c] * frac))), d + '/verif', 400, env)
                if rc == 1 or rc == -1:
                    m['result'] = c if rc == 1 else c + ' timeout'
                    v = [l for l in o.splitlines() if l.startswith('  ')]
                    m['msg'] = v[0].strip()[:200] if v else ''
                    break
            m['time'] = round(time.time() - t0)
            out.put(m)
        finally:
            sh('git checkout -q -- .; rm -rf %s/verif/replays %s/verif/evidence' % (d, d), d + '/repo')
            open(p, 'w').write(orig)
    out.put(None)
    shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    opt = {'-s': '1', '-n': '100', '-f': '', '-j': '8', '-r': '0.12', '-a': '', '-c': ','.join(ORDER)}
    dest = a.pop(0)
    while a:
        k = a.pop(0)
        opt[k] = a.pop(0)
    files = opt['-f'].split(',') if opt['-f'] else sorted(f for f in os.listdir('/repo/src') if f.endswith(('.c', '.l', '.y')))
    if opt['-a']:
        ms = [m for m in map(json.loads, open(opt['-a'])) if m['result'] == 'missed']
        ms = [m for m in ms if m['file'] in files]
    else:
        ms = all_mutants(files)
        print(len(ms), 'mutants')
        random.Random(int(opt['-s'])).shuffle(ms)
        ms = ms[:int(opt['-n'])]
    done = set()
    if os.path.exists(dest):
        for l in open(dest):
            m = json.loads(l)
            done.add((m['file'], m['line'], m['new']))
    ms = [m for m in ms if (m['file'], m['line'], m['new']) not in done]
    j = int(opt['-j'])
    q, out = mp.Queue(), mp.Queue()
    for m in ms:
        q.put(m)
    for _ in range(j):
        q.put(None)
    stable = names(json.load(open('/opt/vp/BASELINE.json')))
    ps = [mp.Process(target=work, args=(i, q, out, float(opt['-r']), stable, opt['-c'].split(','))) for i in range(j)]
    for p in ps:
        p.start()
    live = j
    with open(dest, 'a') as f:
        while live:
            m = out.get()
            if m is None:
                live -= 1
                continue
            f.write(json.dumps(m) + '\n')
            f.flush()
            if m['result'] == 'missed':
                print('MISSED %s:%d\n  - %s\n  + %s' % (m['file'], m['line'], m['old'].strip(), m['new'].strip()))
                sys.stdout.flush()


if __name__ == '__main__':
    main()
