"""C19: where the configuration file is found."""
import os
from .. import harness
from ..build import build_c
from ..harness import Violation

NAMES = ['.boxes', 'box-designs', 'boxes-config', 'boxes']
OTHERS = ['boxes.cfg', '.boxes~', 'box-design', 'boxes-confi', 'Boxes', '.box', 'box-designs.cfg', '_boxes', 'BOXES']
SYSTEM = ['/etc/xdg/boxes', '/usr/local/share/boxes', '/usr/share/boxes']


class World:
    """the files of one case; every configuration file draws its own marker"""
    def __init__(self, c, rng):
        self.c, self.rng = c, rng
        self.n = 0
        self.deny = []
        self.marker = {}          # real path -> marker
        self.bad = set()

    def real(self, path):
        for p in SYSTEM:
            if path == p or path.startswith(p + '/'):
                return self.c.path('root') + path
        return path

    def config(self, real, parent=''):
        self.n += 1
        m = 'm%d' % self.n
        os.makedirs(os.path.dirname(real), exist_ok=True)
        text = '%sBOX %s\nsample\n %s\nends\nshapes { w ("%s:") }\nelastic (w)\nEND %s\n' % (parent, m, m, m, m)
        if self.rng.random() < 0.06:
            text = self.rng.choice(['', '# nothing\n', 'BOX x\nsample\nends\n'])
            self.bad.add(m)
        with open(real, 'w') as f:
            f.write(text)
        return m

    def entry(self, path, kind):
        """make something at this path; returns the marker if it can be used as configuration file"""
        real = self.real(path)
        os.makedirs(os.path.dirname(real), exist_ok=True)
        if kind == 'file':
            return self.config(real)
        if kind == 'link':
            t = self.c.path('targets/t%d' % self.n)
            m = self.config(t)
            os.symlink(t, real)
            return m
        if kind == 'dir':
            os.makedirs(real)
        elif kind == 'dangling':
            os.symlink(self.c.path('targets/none'), real)
        elif kind == 'loop':
            os.symlink(real, real)
        elif kind == 'dirlink':
            os.makedirs(self.c.path('targets/d'), exist_ok=True)
            os.symlink(self.c.path('targets/d'), real)
        elif kind == 'denied':
            self.config(real)
            self.deny.append(path)
        return None

    def directory(self, path, p):
        """a candidate directory; returns the marker of the file that is found in it"""
        rng = self.rng
        real = self.real(path)
        k = rng.random()
        if k < 0.15:
            return None, 'absent'
        if k < 0.2:
            self.entry(path, rng.choice(['dangling', 'loop']))
            return None, 'broken'
        if k < 0.25:
            # a file where a directory should be
            if not os.path.exists(real):
                self.config(real)
            return None, 'file'
        if os.path.islink(real) or os.path.isfile(real):
            return None, 'taken'
        if k < 0.32 and not os.path.exists(real):
            t = self.c.path('targets/dir%d' % self.n)
            self.n += 1
            os.makedirs(t)
            os.makedirs(os.path.dirname(real), exist_ok=True)
            os.symlink(t, real)
        os.makedirs(real, exist_ok=True)
        hit = None
        for n in NAMES:
            if rng.random() < p:
                kind = rng.choice(['file', 'file', 'file', 'link', 'dir', 'dangling', 'denied', 'loop', 'dirlink'])
                q = path + ('' if path.endswith('/') else '/') + n
                if os.path.lexists(self.real(q)):
                    continue
                m = self.entry(q, kind)
                hit = hit or m
        for n in OTHERS:
            if rng.random() < 0.1 and not os.path.lexists(real + '/' + n):
                self.config(real + '/' + n)
        if k > 0.95:
            self.deny.append(path)
            return None, 'denied'
        return hit, 'dir'


class Check(harness.Check):
    ID = 'C19'
    QUICK = 22000
    THOROUGH = 250000
    RULE = ('random populations (files, links, directories, broken links, unreadable entries, similar names) of all candidate '
            'locations and file names, with values of -f, BOXES, HOME and XDG_CONFIG_HOME; every file draws a marker of its own; system '
            'locations are redirected to a scratch directory by a preloaded library, which also records the lookups; non-trivial: the '
            'right configuration has to be picked from at least two usable ones')
    NEEDS = dict(from_f=300, from_env=300, from_home=300, from_xdg=150, from_home_config=120, from_globalconf=50, from_etc=80,
                 from_local=40, from_share=20, errors_f=150, errors_env=150, nothing=20, parent_global=200, redirected_lookups=500)
    MIN_NONTRIVIAL = 0.4

    def prepare(self):
        self.shim = build_c('pathshim.so', 'csrc/pathshim.c', shared=True)

    def case(self, c):
        rng = c.rng
        w = World(c, rng)
        os.makedirs(c.path('root'))
        p = rng.choice([0.1, 0.3, 0.3, 0.6])
        odd = rng.choice(['', '', ' x', '\u00fc', '#1'])
        home = c.path('user' + odd)
        env = {}
        cands = []                 # (where, marker) in the documented order
        explicit = None
        args = []

        def place(label):
            """a location for -f or BOXES; returns its value and the marker"""
            k = rng.random()
            rel = rng.random() < 0.4
            if k < 0.03:
                return '', None
            if k < 0.06 and not os.path.lexists(c.path('-')):
                return '-', w.config(c.path('-'))
            n = label + rng.choice(['', ' y', '.cfg', '/boxes', '/deep/.boxes', '\u00e4'])
            path = c.path(n)
            if k < 0.35:
                m = w.entry(path, rng.choice(['file', 'file', 'link', 'dangling', 'denied', 'loop']))
            elif k < 0.5:
                m = None
            else:
                m, _ = w.directory(path, rng.choice([0.3, 0.6]))
                if os.path.isfile(path) and not os.path.islink(path):
                    m = 'm%d' % w.n     # made by directory() in place of the directory
            val = n if rel else path
            if m and os.path.isdir(path) and rng.random() < 0.3:
                val += rng.choice(['/', '/.', '//'])
            for x in list(w.deny):
                if x == path:
                    w.deny.append(val)
                elif x.startswith(path + '/'):
                    w.deny.append(val + ('' if val.endswith('/') else '/') + x[len(path) + 1:])
            return val, m

        if rng.random() < 0.3:
            v, m = place('eff')
            args = rng.choice([['-f', v], ['--config', v], ['--config=' + v]] + ([['-f' + v]] if v else []))
            explicit = ('from_f', m)
        if rng.random() < 0.35:
            v, m = place('env')
            env['BOXES'] = v
            explicit = explicit or ('from_env', m)
        k = rng.random()
        if k < 0.08:
            env['HOME'] = None
        elif k < 0.12:
            env['HOME'] = ''
        elif k < 0.16:
            env['HOME'] = c.path('nosuchhome')
        else:
            m, _ = w.directory(home, p * 0.7)
            hc = home + '/.config/boxes'
            m2 = None
            if os.path.isdir(home):
                m2, _ = w.directory(hc, p)
            env['HOME'] = home + rng.choice(['', '', '', '/'])
            if home in w.deny:
                w.deny.append(home + '/')
            if env['HOME'].endswith('/'):
                w.deny += [home + '/' + x[len(home):] for x in w.deny if x.startswith(home + '/')]
            cands += [('from_home', m), None, ('from_home_config', m2)]
        x = None
        if rng.random() < 0.6:
            xdg = c.path('xdg' + odd)
            if rng.random() < 0.85:
                x = ('from_xdg', w.directory(xdg + '/boxes', p)[0])
            env['XDG_CONFIG_HOME'] = xdg
        elif rng.random() < 0.1:
            env['XDG_CONFIG_HOME'] = ''
        if not cands:
            cands = [None]
        cands[cands.index(None)] = x
        glob = []
        if rng.random() < 0.3:
            m = w.entry('/usr/share/boxes', rng.choice(['file', 'link', 'file', 'dangling', 'denied']))
            glob.append(('from_globalconf', m))
        sysdirs = []
        for path, label in zip(SYSTEM, ('from_etc', 'from_local', 'from_share')):
            sysdirs.append((label, w.directory(path, p)[0] if not os.path.lexists(w.real(path)) and rng.random() < 0.7 else None))
        real = w.real('/usr/share/boxes')
        if not glob and os.path.isfile(real):       # directory() made a file
            glob.append(('from_globalconf', 'm%d' % w.n if '/usr/share/boxes' not in w.deny else None))
        cands += glob + sysdirs
        cands = [x for x in cands if x]
        env.update(LD_PRELOAD=self.shim, BXROOT=c.path('root'), BXLOG=c.path('log'))
        if w.deny:
            env['BXDENY'] = '\n'.join(w.deny)
        self.judge(c, rng, w, args, env, explicit, cands, glob + sysdirs)

    def judge(self, c, rng, w, args, env, explicit, cands, glob):
        usable = sum(1 for x in cands if x[1]) + bool(explicit and explicit[1])
        c.nontrivial = usable > 1
        where, m = explicit or next((x for x in cands if x[1]), ('nothing', None))
        c.seen(where, m is not None, [x[0] for x in cands if x[1]])
        cwd = c.dir
        r = c.boxes(args, 'ab\n', env=env, cwd=cwd)
        out = r.out.decode('utf-8', 'replace')
        if m is None:
            if r.rc != 1 or out or not r.err.startswith(b'boxes: '):
                raise Violation('%s: no configuration there, but status %d, output %r, messages %r' % (where, r.rc, out[:200], r.err[:300]))
            c.count('errors_f' if where == 'from_f' else 'errors_env' if where == 'from_env' else 'nothing')
        elif m in w.bad:
            if r.rc != 1 or out:
                raise Violation('%s: the file found there is not valid, but status %d, output %r' % (where, r.rc, out[:200]))
            c.count('invalid_file')
        else:
            if r.rc or out != m + ':ab\n' or r.err:
                raise Violation('expected the configuration of marker %s (%s), but status %d: %r %r'
                                % (m, where, r.rc, out[:200], r.err[:300]), key='wrong:' + where)
            c.count(where)
            r = c.boxes(args + ['-l', '-d', m], '', env=env, cwd=cwd)
            lines = [s for s in r.out.decode('utf-8', 'replace').split('\n') if s.startswith('Configuration File:')]
            path = lines[0][24:] if lines else ''
            try:
                text = open(os.path.join(c.dir, w.real(path))).read()
            except OSError:
                text = ''
            if r.rc or ('BOX %s\n' % m) not in text:
                raise Violation('the configuration file is listed as %r, which is not the one that is used' % path, key='path')
        if rng.random() < 0.15:
            # the system's configuration as parent
            f = c.cfg('parent :global:\nBOX own\nsample\n o\nends\nshapes { w ("own:") }\nelastic (w)\nEND own\n', 'p/with.cfg')
            r = c.boxes(['-f', f, '-q', '(all)'], env=env, cwd=cwd)
            got = r.out.decode().split('\n')[:-1]
            g = next((x[1] for x in glob if x[1]), None)
            want = ['own'] + ([g] if g and g not in w.bad else [])
            if r.rc or sorted(got) != sorted(want) or (g is None) != (b'global config' in r.err):
                raise Violation('global parent: expected designs %r, got %r, status %d, %r' % (want, got, r.rc, r.err[:300]), key='global')
            c.count('parent_global')
        if rng.random() < 0.1:
            # neither -f nor BOXES have to name regular files
            m = w.config(c.path('special.cfg'))
            with open(c.path('special.in'), 'w') as f:
                f.write('ab\n')
            dev = rng.choice(['/dev/stdin', '/dev/fd/0'])
            e = dict(env)
            form = ['-f', dev]
            if rng.random() < 0.4:
                e['BOXES'] = dev
                form = []
            r = c.boxes(form + ['special.in'], open(c.path('special.cfg')).read(), env=e, cwd=cwd)
            if m not in w.bad and (r.rc or r.err or r.out.decode('utf-8', 'replace') != m + ':ab\n'):
                raise Violation('configuration from %s (%s): status %d, %r %r' % (dev, 'BOXES' if not form else '-f', r.rc, r.out[:200], r.err[:300]),
                                key='special')
            c.count('special_file')
        log = open(c.path('log')).read() if os.path.exists(c.path('log')) else ''
        c.count('redirected_lookups', sum(1 for s in log.split('\n') if any(p in s for p in SYSTEM)))
