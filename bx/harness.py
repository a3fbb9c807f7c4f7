"""Case loop shared by all checks: deterministic cases, worker pool, verdicts, evidence, known findings, replays."""
import hashlib, json, multiprocessing as mp, os, random, resource, shlex, shutil, signal, sys, tempfile, time, traceback

from . import build as B
from . import run as R

VERIF = B.VERIF


class Violation(Exception):
    """raised by an oracle: the property does not hold for this case"""
    def __init__(self, msg, key=None, **artifacts):
        Exception.__init__(self, msg)
        self.msg = msg
        self.key = key
        self.artifacts = artifacts


class Inconclusive(Exception):
    pass


class Case:
    """context of one case: scratch directory, RNG, recording of runs, counters"""

    def __init__(self, check, idx, seed, scratch, tier):
        self.check = check
        self.idx = idx
        self.tier = tier
        self.rng = random.Random('%s/%d/%d' % (check.ID, seed, idx))
        self.dir = scratch
        self.counters = {}
        self.runs = []
        self.nontrivial = True
        self.sig = None
        self.sample = None
        self.evals = 0
        self.nfile = 0
        self.states = set()

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def seen(self, *what):
        """record a distinct observed state (reported as a number)"""
        self.states.add('/'.join(str(w) for w in what))

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, data):
        if isinstance(data, str):
            data = data.encode('utf-8', 'surrogateescape')
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)
        return p

    def cfg(self, text, name='boxes.cfg'):
        return self.write(name, text)

    def boxes(self, args, stdin=b'', variant='plain', env=None, cwd=None, timeout=20, binary=None):
        if isinstance(stdin, str):
            stdin = stdin.encode('utf-8', 'surrogateescape')
        args = [a if isinstance(a, (str, bytes)) else str(a) for a in args]
        if any('\0' in a if isinstance(a, str) else b'\0' in a for a in args):
            raise Inconclusive('NUL in argument')
        e = {'HOME': self.home()}
        if env:
            e.update(env)
        self.evals += 1
        exe = binary or self.check.bins[variant]
        rec = dict(args=args, stdin=stdin, env=env, variant=variant, cwd=cwd)
        self.runs.append(rec)
        r = R.run([exe] + args, stdin, e, cwd or self.dir, timeout)
        rec['res'] = r
        if len(r.out) > R.MAXOUT:
            raise Violation('runaway output of %d bytes' % len(r.out), key='runaway')
        if r.san:
            raise Violation('sanitizer report: %s' % r.san, key='san:' + r.san)
        if r.signal:
            raise Violation('killed by signal %d' % r.signal, key='signal:%d' % r.signal)
        if r.rc not in (0, 1):
            raise Violation('exit status %d' % r.rc, key='status:%d' % r.rc)
        return r

    def home(self):
        p = os.path.join(self.dir, 'home')
        if not os.path.isdir(p):
            os.makedirs(p)
        return p


class Check:
    """Base class. A check defines ID, RULE, QUICK/THOROUGH numbers of cases, VARIANTS and case(c)."""
    ID = None
    RULE = ''
    QUICK = 1000
    THOROUGH = 20000
    VARIANTS = ('plain',)
    LEVEL = 'exploration'
    CHUNK = 8
    ASSUMPTIONS = []
    WORKERS = 8
    MIN_NONTRIVIAL = 0.2
    NEEDS = {}            # counters that must be reached (observed something)

    def __init__(self):
        self.bins = {}

    def prepare(self):
        pass

    def case(self, c):
        raise NotImplementedError

    def build(self):
        for v in self.VARIANTS:
            self.bins[v] = B.build(v)
        self.prepare()


_state = {}


def _init(check, seed, tier, scratch_root):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _state.update(check=check, seed=seed, tier=tier, root=scratch_root)
    d = os.path.join(scratch_root, 'w%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    _state['dir'] = d
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if 'asan' not in check.VARIANTS:
        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))


def run_case(check, idx, seed, tier, scratch):
    """returns dict with verdict and observations"""
    for f in os.listdir(scratch):
        p = os.path.join(scratch, f)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            os.unlink(p)
    c = Case(check, idx, seed, scratch, tier)
    out = dict(idx=idx, verdict='ok')
    try:
        check.case(c)
    except Violation as v:
        out.update(verdict='violation', msg=v.msg, key=v.key or 'mismatch', artifacts=v.artifacts)
    except R.Hang as h:
        out.update(verdict='violation', msg=str(h), key='hang', artifacts={})
    except R.Stalled as s:
        out.update(verdict='inconclusive', msg=str(s))
    except Inconclusive as s:
        out.update(verdict='inconclusive', msg=str(s))
    except Exception:
        out.update(verdict='error', msg=traceback.format_exc())
    out.update(counters=c.counters, evals=c.evals, nontrivial=c.nontrivial, states=sorted(c.states), sample=c.sample)
    sig = c.sig
    if sig is None:
        h = hashlib.sha256()
        for r in c.runs:
            h.update(repr((r['args'], r['stdin'], r['env'])).encode('utf-8', 'surrogateescape'))
            for f in ('boxes.cfg',):
                pass
        p = os.path.join(scratch, 'boxes.cfg')
        if os.path.exists(p):
            with open(p, 'rb') as f:
                h.update(f.read())
        sig = h.hexdigest()[:16]
    out['sig'] = sig
    if out['verdict'] in ('violation', 'error'):
        out['files'] = {}
        tot = 0
        for dp, dn, fn in os.walk(scratch):
            for f in fn:
                p = os.path.join(dp, f)
                try:
                    if os.path.isfile(p) and os.path.getsize(p) < 200000 and tot < 2000000:
                        with open(p, 'rb') as fh:
                            out['files'][os.path.relpath(p, scratch)] = fh.read()
                            tot += os.path.getsize(p)
                except OSError:
                    pass
        out['runs'] = [dict(args=r['args'], stdin=r['stdin'][:200000], env=r['env'], variant=r['variant'],
                            cwd=r['cwd'],
                            out=r['res'].out[:200000] if 'res' in r else b'',
                            err=r['res'].err[:20000] if 'res' in r else b'',
                            rc=r['res'].rc if 'res' in r else None) for r in c.runs[-12:]]
        out['scratch'] = scratch
    elif c.sample is None and c.runs:
        r = c.runs[-1]
        out['sample'] = dict(args=[a if isinstance(a, str) else a.decode('latin-1') for a in r['args']],
                             stdin=r['stdin'][:300].decode('utf-8', 'replace'))
    return out


def _work(idx):
    return run_case(_state['check'], idx, _state['seed'], _state['tier'], _state['dir'])


# ---------------------------------------------------------------------------------------------------------------------

def load_known():
    """known_findings.txt: 'KNOWN-FINDING property=<id> key=<key> :: text' and 'fixed: property=...' lines"""
    known = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith('KNOWN-FINDING '):
                    head, _, text = line.partition(' :: ')
                    d = dict(w.split('=', 1) for w in head.split()[1:2])
                    key = head.split(' key=', 1)[1]
                    known.append((d['property'], key, text))
    return known


def _b(x):
    return x if isinstance(x, bytes) else str(x).encode('utf-8', 'surrogateescape')


def save_replay(check, seed, tier, r):
    d = os.path.join(VERIF, 'replays', '%s-seed%d-case%d' % (check.ID, seed, r['idx']))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for name, data in r.get('files', {}).items():
        p = os.path.join(d, 'files', name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)
    lines = ['# %s: %s' % (check.ID, r['msg'].replace('\n', '\n# ')), '# key: %s' % r.get('key'),
             '# reproduce: VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s --case %d' % (seed, tier, check.ID, r['idx']),
             '']
    for i, run in enumerate(r.get('runs', [])):
        with open(os.path.join(d, 'run%d.stdin' % i), 'wb') as f:
            f.write(run['stdin'])
        with open(os.path.join(d, 'run%d.stdout' % i), 'wb') as f:
            f.write(run['out'])
        with open(os.path.join(d, 'run%d.stderr' % i), 'wb') as f:
            f.write(run['err'])
        a = ' '.join(shlex.quote((x if isinstance(x, str) else os.fsdecode(x)).replace(r.get('scratch', '\0'),
                                                                                     'files')) for x in run['args'])
        e = ' '.join('%s=%s' % (k, shlex.quote(str(v))) for k, v in (run['env'] or {}).items())
        lines.append('# exit status %s (%s build)' % (run['rc'], run['variant']))
        lines.append('%s boxes %s < run%d.stdin' % (e, a, i))
    with open(os.path.join(d, 'replay.txt'), 'wb') as f:
        f.write('\n'.join(lines).encode('utf-8', 'surrogateescape') + b'\n')
    for name, data in (r.get('artifacts') or {}).items():
        with open(os.path.join(d, name), 'wb') as f:
            f.write(_b(data))
    return d


def main(check, argv):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    n = check.QUICK if tier == 'quick' else check.THOROUGH
    only = None
    maxviol = 3
    i = 0
    while i < len(argv):
        if argv[i] == '--case':
            only = int(argv[i + 1])
            i += 1
        elif argv[i] == '-n':
            n = int(argv[i + 1])
            i += 1
        elif argv[i] == '--all':
            maxviol = 10 ** 9
        i += 1
    check.tier = tier
    check.seed = seed
    check.build()
    root = tempfile.mkdtemp(prefix='bxv-%s-' % check.ID, dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    os.chmod(root, 0o755)
    known = [(k, t) for (p, k, t) in load_known() if p == check.ID]
    agg = dict(evals=0, cases=0, nontrivial=0, inconclusive=0)
    counters = {}
    sigs = set()
    states = set()
    samples = []
    violations = []
    findings = {}
    errors = []
    stop = False
    try:
        idxs = [only] if only is not None else range(n)
        workers = min(check.WORKERS, len(idxs))
        if only is not None:
            _init(check, seed, tier, root)
            it = map(_work, idxs)
            pool = None
        else:
            pool = mp.get_context('fork').Pool(workers, _init, (check, seed, tier, root))
            it = pool.imap_unordered(_work, idxs, check.CHUNK)
        for r in it:
            agg['cases'] += 1
            agg['evals'] += r['evals']
            for k, v in r['counters'].items():
                counters[k] = counters.get(k, 0) + v
            states.update(r['states'])
            if r['verdict'] == 'ok':
                if r['nontrivial']:
                    agg['nontrivial'] += 1
                    sigs.add(r['sig'])
                    if len(samples) < 4 and r['sample'] is not None:
                        samples.append(r['sample'])
            elif r['verdict'] == 'inconclusive':
                agg['inconclusive'] += 1
            elif r['verdict'] == 'error':
                errors.append(r)
                if len(errors) >= 40:
                    stop = True
            else:
                match = [t for k, t in known if k == r['key']]
                if match:
                    findings[r['key']] = match[0]
                else:
                    violations.append(r)
                    if len(violations) >= maxviol:
                        stop = True
            if only is not None:
                print('case %d: %s %s' % (r['idx'], r['verdict'], r.get('msg', '')))
            if stop:
                break
        if pool:
            pool.terminate() if stop else pool.close()
            pool.join()
        post = None
        if not violations and not errors and only is None:
            try:
                post = check.finish(counters, states) if hasattr(check, 'finish') else None
            except Violation as v:
                violations.append(dict(idx=-1, msg=v.msg, key=v.key or 'mismatch', artifacts=v.artifacts))
    finally:
        shutil.rmtree(root, ignore_errors=True)

    wall = time.time() - t0
    cov = dict(evaluations=agg['evals'], distinct_nontrivial=len(sigs), rule=check.RULE, samples=samples[:4],
               cases=agg['cases'], nontrivial_cases=agg['nontrivial'], inconclusive=agg['inconclusive'],
               observed=dict(sorted(counters.items())), distinct_states_observed=len(states))
    ev = dict(property=check.ID, tier=tier, seed=seed, level=check.LEVEL, coverage=cov, assumptions=check.ASSUMPTIONS,
              wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', check.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write('\n')

    for k, t in known:
        if k in findings or True:
            print('KNOWN-FINDING: property=%s %s' % (check.ID, t))
    if violations:
        for v in sorted(violations, key=lambda v: v['idx']):
            d = save_replay(check, seed, tier, v)
            print('VIOLATION property=%s replay=%s' % (check.ID, d))
            print('  %s [%s]' % (v['msg'][:1500], v['key']))
        return 1
    if errors:
        for e in errors[:2]:
            print('ERROR in case %d:\n%s' % (e['idx'], e['msg']))
        return 3
    if only is None:
        if agg['inconclusive'] > max(3, 0.1 * agg['cases']):
            print('inconclusive: %d of %d cases gave no answer' % (agg['inconclusive'], agg['cases']))
            return 4
        if agg['nontrivial'] < check.MIN_NONTRIVIAL * agg['cases']:
            print('inconclusive: only %d of %d cases were non-trivial' % (agg['nontrivial'], agg['cases']))
            return 4
        if n >= check.QUICK:
            for k, v in check.NEEDS.items():
                if counters.get(k, 0) < v:
                    print('inconclusive: observed %s=%d, needed %d' % (k, counters.get(k, 0), v))
                    return 4
    print('%s: held on %d cases (%d runs, %d distinct non-trivial), %d inconclusive, %.1f s' %
          (check.ID, agg['cases'], agg['evals'], len(sigs), agg['inconclusive'], wall))
    return 0
