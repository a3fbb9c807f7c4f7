"""C22: the command line."""
import os
import re
from .. import harness, gen, model, removal, uni
from ..drawing import diff, show
from ..harness import Violation

LONG = ['align', 'create', 'color', 'no-color', 'design', 'eol', 'config', 'help', 'indent', 'kill-blank', 'no-kill-blank', 'list', 'mend',
        'encoding', 'padding', 'tag-query', 'remove', 'size', 'tabs', 'version', 'extra']
SHORT = dict(align='a', create='c', design='d', eol='e', config='f', help='h', indent='i', list='l', mend='m', encoding='n', padding='p',
             remove='r', size='s', tabs='t', version='v', extra='x')
SHORT['tag-query'] = 'q'
SIDES = dict(a=('top', 'right', 'bottom', 'left'), h=('left', 'right'), v=('top', 'bottom'), t=('top',), r=('right',), b=('bottom',), l=('left',))


def prefixes(name):
    return [name[:i] for i in range(1, len(name)) if sum(x.startswith(name[:i]) for x in LONG) == 1 and name[:i] not in LONG]


PREFIX = {n: prefixes(n) for n in LONG}

# ---- what the documentation says about the arguments. Each returns None (invalid), 'grey' (not specified), or a function which
# applies the setting to an Opts object


def p_align(s):
    if not re.fullmatch('(h[lcr]|v[tcb]|j[lcr]|l|c|r)+', s, re.I):
        return None

    def f(o):
        for m in re.finditer('(h[lcr]|v[tcb]|j[lcr]|l|c|r)', s.lower()):
            t = m.group()
            if t[0] == 'h' and len(t) > 1:
                o.h = t[1]
            elif t[0] == 'v':
                o.v = t[1]
            elif t[0] == 'j':
                o.j = t[1]
            else:
                o.h, o.v, o.j = t, 'c', t
        o.align = s
    return f


def p_padding(s):
    if not re.fullmatch('([ahvtrbl][0-9]+)+', s, re.I):
        return None
    ns = [int(x) for x in re.findall('[0-9]+', s)]
    if max(ns) > 2147483647:
        return None
    if max(ns) > 60:
        return 'grey'

    def f(o):
        for k, n in re.findall('([ahvtrbl])([0-9]+)', s.lower()):
            for side in SIDES[k]:
                o.pad[side] = int(n)
        o.padstr = s
    return f


def p_size(s):
    if re.fullmatch('[0-9]+', s):
        w, h = int(s), 0
    elif re.fullmatch('[xX][0-9]+', s):
        w, h = 0, int(s[1:])
    elif re.fullmatch('[0-9]+[xX][0-9]+', s):
        w, h = [int(x) for x in re.split('[xX]', s)]
        if (w == 0) != (h == 0):
            return 'grey'
    elif re.fullmatch(r'\s*([+]|-(?=0+(?![0-9])))?[0-9]*[xX]?\s*([+]|-(?=0+$))?[0-9]*', s) and re.search('[0-9]', s):
        return 'grey' if re.search('[1-9]', s) else None
    else:
        return None
    if not w and not h:
        return None
    if w > 200 or h > 200:
        return 'grey'

    def f(o):
        # what a width alone does to an earlier height is not specified
        o.size = (w, h)
    return f


def p_tabs(s):
    m = re.fullmatch('([0-9]+)([eku]?)', s, re.I)
    if not m:
        return 'grey' if re.fullmatch(r'\s*[+]?[0-9]+[eku]?', s, re.I) else None
    n = int(m.group(1))
    if n < 1 or n > 16:
        return None if n < 1 or n > 1000 else 'grey'

    def f(o):
        o.tab, o.tabexp = n, m.group(2).lower() or 'e'
    return f


def p_indent(s):
    if s == '':
        return 'grey'
    hit = [x for x in ('box', 'text', 'none') if x.startswith(s.lower())]
    if not hit:
        return None

    def f(o):
        o.indent = hit[0]
    return f


def p_eol(s):
    if s.upper() not in ('CR', 'LF', 'CRLF'):
        return None

    def f(o):
        o.eol = s.upper()
    return f


PARSERS = dict(align=p_align, padding=p_padding, size=p_size, tabs=p_tabs, indent=p_indent, eol=p_eol)
ALPHA = dict(align='hvjlcrtbHVJLCRTB', padding='ahvtrbl0123456789AHVTRBL', size='0123456789xxX', tabs='0123456789ekuEKU', indent='boxtextnoneBOXTN',
             eol='CRLFcrlf')
JUNK = ' -+.,:;x%\u00e4"=19zZ'
WORDS = dict(
    kill=['', 'maybe', '2', 'yesno', 'tru', 'nope', 'y e s', '-1', '00', 'truee', 'ja', 'nein', 'false1'],
    extra=['', 'debugg', 'nodebug', 'debug:nosuch', 'debug:main,xx', '(und)', 'undoc', 'debug main', 'debug:main;parser', 'all'])


class Check(harness.Check):
    ID = 'C22'
    QUICK = 12000
    THOROUGH = 120000
    RULE = ('random settings written in random ways (short, long, abbreviated, joined, clustered, permuted, repeated, files between '
            'options, letter case) for drawing, removing, mending, listing and queries: all ways give the same output, drawings also the '
            'output of the model; random argument strings are classified by an independent grammar: invalid ones must be rejected with '
            'a message, without output and without touching the output file, valid ones must have the effect which the model computes; '
            'non-trivial: a valid setting was compared')
    NEEDS = dict(variants=5000, model_draw=500, rejected=2000, accepted=2000, repeated=700, abbreviated=700, clustered=200, interleaved=500, mend_kill=300)
    MIN_NONTRIVIAL = 0.6

    def case(self, c):
        rng = c.rng
        if rng.random() < 0.5:
            self.equivalence(c, rng)
        else:
            self.arguments(c, rng)

    # ---- equivalence ----

    def settings(self, c, rng, ds):
        """list of (long name, argument or None), and the drawing options they stand for"""
        o = gen.options(rng, align=0.5, pad=0.5, size=0.4, indent=0.4, tab=0.4, eol=0.2)
        s = []
        if o.align is not None:
            s.append(('align', o.align))
        if o.padstr is not None:
            s.append(('padding', o.padstr))
        if o.size is not None:
            w, h = o.size
            s.append(('size', '%dx%d' % (w, h) if w and h else ('%d' % w if w else 'x%d' % h)))
        if o.indent is not None:
            s.append(('indent', o.indent))
        if o.tab != 8 or o.tabexp != 'e':
            s.append(('tabs', '%d%s' % (o.tab, o.tabexp)))
        if o.eol is not None:
            s.append(('eol', o.eol))
        if rng.random() < 0.3:
            s.append(('encoding', rng.choice(['UTF-8', 'utf8', 'UTF-8'])))
        if rng.random() < 0.5:
            s.append((rng.choice(['color', 'no-color']), None))
        return s, o

    def write(self, c, rng, s, mode, files):
        """one way to write the settings"""
        s = list(s)
        flags = [x for x in s if x[0] in ('remove', 'mend', 'list')]
        # repeated settings: something that is overridden by what follows
        out = []
        rep = []
        for n, a in s:
            if rng.random() < 0.25:
                j = None
                if n == 'eol':
                    j = rng.choice(['CR', 'LF', 'CRLF'])
                elif n == 'indent':
                    j = rng.choice(['box', 't', 'none'])
                elif n == 'tabs':
                    j = rng.choice(['3', '5k', '7u', '16e'])
                elif n == 'design':
                    j = rng.choice(['nosuchdesign', a])
                elif n == 'config':
                    j = '/nonexistent/boxes-config'
                elif n == 'size' and 'x' in a and a[0] != 'x':
                    j = rng.choice(['3x4', '99x2', '5', 'x7'])
                elif n == 'padding':
                    j = ''.join(k + str(rng.randint(0, 9)) for k in re.findall('[a-z]', a))
                elif n == 'encoding':
                    j = rng.choice(['ISO-8859-1', 'nosuchencoding', 'UTF-16'])
                elif n in ('color', 'no-color'):
                    rep.append((rng.choice(['color', 'no-color']), None, n))
                elif n in ('remove', 'list'):
                    rep.append((n, None, n))
                elif n in ('kill-blank', 'no-kill-blank'):
                    pass
                elif n == 'align' and re.search('[lcr]$', a) and not re.search('[hvj][lcr]$', a):
                    j = rng.choice(['hcvbjr', 'r', 'vt', 'jl'])
                elif n == 'tag-query':
                    j = rng.choice(['zz', '+zz'])
                if j is not None:
                    rep.append((n, j, n))
        units = [[x] for x in s]
        for n, a, target in rep:
            for u in units:
                if u[-1][0] == target or (target in ('color', 'no-color') and u[-1][0] in ('color', 'no-color')):
                    u.insert(0, (n, a))
                    c.count('repeated')
                    break
        kb = [u for u in units if u[-1][0] in ('kill-blank', 'no-kill-blank')]
        for u in kb:
            if rng.random() < 0.5:      # the first one wins
                u.append((rng.choice(['kill-blank', 'no-kill-blank']), None))
                c.count('repeated')
        if any(u and u[-1][0] == 'mend' for u in units) and rng.random() < 0.4:
            # mending keeps blank lines anyway, whatever option -k says
            units.append([(rng.choice(['kill-blank', 'no-kill-blank']), None)])
            c.count('mend_kill')
        # an arbitrary interleaving which keeps the order within a unit
        while any(units):
            u = rng.choice([u for u in units if u])
            out.append(u.pop(0))
        args = []
        i = 0
        while i < len(out):
            n, a = out[i]
            i += 1
            k = rng.random()
            if n in ('kill-blank', 'no-kill-blank') and k < 0.5:
                v = rng.choice(['yes', 'true', '1', 'on', 'YES'] if n == 'kill-blank' else ['no', 'false', '0', 'off', 'False'])
                args += rng.choice([['-k', v], ['-k' + v]])
                continue
            if a is not None and n in ('align', 'padding', 'eol', 'indent', 'tabs') and rng.random() < 0.2:
                a = ''.join(rng.choice([ch.upper(), ch.lower()]) for ch in a)
            if n == 'indent' and rng.random() < 0.4:
                a = a[:rng.randint(1, len(a))]
            sh = SHORT.get(n)
            if sh and k < 0.5:
                if a is None:
                    # cluster with what follows
                    t = '-' + sh
                    while i < len(out) and rng.random() < 0.6 and SHORT.get(out[i][0]):
                        m, b = out[i]
                        t += SHORT[m]
                        i += 1
                        c.count('clustered')
                        if b is not None:
                            if rng.random() < 0.5:
                                t += b
                            else:
                                args.append(t)
                                t = b
                            break
                    args.append(t)
                elif a != '' and rng.random() < 0.5:
                    args.append('-' + sh + a)
                else:
                    args += ['-' + sh, a]
            else:
                nm = n
                if PREFIX[n] and rng.random() < 0.4:
                    nm = rng.choice(PREFIX[n])
                    c.count('abbreviated')
                if a is None:
                    args.append('--' + nm)
                elif rng.random() < 0.5:
                    args.append('--%s=%s' % (nm, a))
                else:
                    args += ['--' + nm, a]
        # file names anywhere between options and their arguments
        if files:
            k = rng.random()
            if k < 0.4:
                args += files
            elif k < 0.6:
                args += ['--'] + files
            else:
                # positions where an option starts: rebuild is not needed as arguments never start an option
                args = files[:1] + args + files[1:]
                c.count('interleaved')
        return args

    def equivalence(self, c, rng):
        d = gen.design(rng, maxdim=2, alpha=rng.choice(removal.BORDERS))
        d.tags = ['t']
        e = gen.design(rng, maxdim=2)
        e.name = 'other'
        e.tags = []
        cfg = c.cfg(gen.config_of(e) + gen.config_of(d))
        mode = rng.choice(['draw', 'draw', 'draw', 'remove', 'mend', 'list', 'details', 'query'])
        lines = removal.text(rng, removal.alphabet(d), tabs=rng.choice([0, 0.3])) or ['ab']
        if mode in ('remove', 'mend') and rng.random() < 0.4:
            lines = [''] * rng.choice([0, 1, 2]) + lines + [''] * rng.choice([0, 1, 2])
        text = '\n'.join(lines) + '\n'
        s, o = self.settings(c, rng, [d, e])
        s.append(('config', cfg))
        if mode in ('draw', 'details') or mode != 'query' and mode != 'list' and rng.random() < 0.6:
            s.append(('design', d.name))
        if mode in ('remove', 'mend'):
            s.append((mode, None))
            r = c.boxes(['-f', cfg, '-d', d.name] + o.args(), text)
            if r.rc == 0:
                text = r.out.decode('utf-8', 'replace').replace('\r\n', '\n').replace('\r', '\n')
        if mode == 'remove' and rng.random() < 0.5:
            s.append((rng.choice(['kill-blank', 'no-kill-blank']), None))
        if mode in ('list', 'details'):
            s.append(('list', None))
        if mode == 'query':
            s.append(('tag-query', rng.choice(['t', '(all)', '-t', '+t'])))
        canon = []
        for n, a in s:
            canon += ['--' + n] if a is None else ['--' + n, a]
        r0 = c.boxes(canon, text)
        if mode == 'draw':
            try:
                b = model.draw(d, lines, o)
                want = model.render(b, {'CR': '\r', 'CRLF': '\r\n'}.get(o.eol, '\n'), True)
                got = r0.out.decode('utf-8', 'replace')
                if r0.rc or got != want:
                    raise Violation('options %r: status %d %r: %s' % (canon, r0.rc, r0.err[:200], diff(want, got)), key='model')
                c.count('model_draw')
            except model.Unreachable:
                pass
        c.seen(mode, sorted(n for n, _ in s))
        c.nontrivial = r0.rc == 0
        for _ in range(5):
            files = []
            stdin = text
            k = rng.random()
            if k < 0.3:
                files = [c.write('in.txt', text)]
                stdin = ''
                if rng.random() < 0.3:
                    files.append('-')
            elif k < 0.4:
                files = ['-', '-'][:rng.choice([1, 2])]
            a = self.write(c, rng, s, mode, files)
            r = c.boxes(a, stdin)
            if (r.rc, r.out) != (r0.rc, r0.out):
                raise Violation('%r is not equivalent to %r: status %d/%d, %s %r'
                                % (a, canon, r.rc, r0.rc, diff(r0.out.decode('utf-8', 'replace'), r.out.decode('utf-8', 'replace')), r.err[:200]),
                                key='equivalence')
            if r0.rc == 0 and r.err:
                raise Violation('%r: message %r' % (a, r.err[:200]), key='message')
            c.count('variants')

    # ---- arguments ----

    def argument(self, rng, n):
        k = rng.random()
        alpha = ALPHA[n]
        if n == 'align':
            s = ''.join(rng.choice(['hl', 'hc', 'hr', 'vt', 'vc', 'vb', 'jl', 'jc', 'jr', 'l', 'c', 'r']) for _ in range(rng.randint(1, 4)))
        elif n == 'padding':
            s = ''.join(rng.choice('ahvtrbl') + str(rng.choice([0, 1, 2, 3, 7, 10])) for _ in range(rng.randint(1, 4)))
            if rng.random() < 0.05:
                s += rng.choice(['l2147483648', 'a99999999999', 'h18446744073709551617', 'r4294967297', 't9223372036854775808'])
        elif n == 'size':
            s = rng.choice(['%d', 'x%d', '%dx%d'])
            s = s % tuple(rng.choice([0, 1, 5, 12, 30]) for _ in range(s.count('%')))
        elif n == 'tabs':
            s = str(rng.choice([0, 1, 2, 4, 8, 16, 9999, 4294967300])) + rng.choice(['', '', 'e', 'k', 'u', 'x', 'ee'])
        elif n == 'indent':
            s = rng.choice(['box', 'text', 'none', 'boxx', 'tex', 'b', 'textx', 'bx', 'nonee', 'bo', 'ob', 'x', 'indent'])
        else:
            s = rng.choice(['CR', 'LF', 'CRLF', 'LFCR', 'C', 'CRL', 'CRLFX', 'NL', '\n', 'crlf '])
        if k < 0.3:
            pass
        elif k < 0.35:
            at = [i for i, ch in enumerate(s) if ch.isdigit()]
            if at:
                i = rng.choice(at)
                s = s[:i] + rng.choice('+- ') + s[i:]
        elif k < 0.5:
            s = ''.join(rng.choice([ch.upper(), ch.lower()]) for ch in s)
        elif k < 0.8:
            t = list(s)
            for _ in range(rng.choice([1, 1, 2])):
                p = rng.randint(0, len(t))
                x = rng.random()
                if x < 0.35 and p < len(t):
                    del t[p]
                elif x < 0.65:
                    t.insert(p, rng.choice(alpha))
                elif p < len(t):
                    t[p] = rng.choice(alpha + JUNK)
                else:
                    t.append(rng.choice(JUNK))
            s = ''.join(t)
        else:
            s = ''.join(rng.choice(alpha) for _ in range(rng.randint(0, 5)))
        return s

    def arguments(self, c, rng):
        d = gen.design(rng, maxdim=2, simple=rng.random() < 0.5)
        cfg = c.cfg(gen.config_of(d))
        pr = gen.Profile(maxlines=4, maxlen=12, indent=0.5, tabs=rng.choice([0, 0.3]))
        lines = gen.text_lines(rng, pr)
        text = '\n'.join(lines) + '\n'
        base = ['--no-color', '-f', cfg, '-d', d.name]
        c.nontrivial = False
        for _ in range(5):
            n = rng.choice(list(PARSERS))
            a = self.argument(rng, n)
            if a.startswith('-') or '\0' in a:
                opt = ['--%s=%s' % (n, a)]
            else:
                opt = rng.choice([['-' + SHORT[n], a], ['--' + n, a], ['--%s=%s' % (n, a)], ['-' + SHORT[n] + a] if a else ['-' + SHORT[n], a]])
            f = PARSERS[n](a)
            if f == 'grey':
                r = c.boxes(base + opt, text) if n in ('indent', 'tabs') else None
                continue
            if f is None:
                self.rejected(c, rng, base, opt, text)
                continue
            o = gen.Opts()
            f(o)
            try:
                b = model.draw(d, lines, o)
            except model.Unreachable:
                continue
            want = model.render(b, {'CR': '\r', 'CRLF': '\r\n'}.get(o.eol, '\n'), True)
            r = c.boxes(base + opt, text)
            got = r.out.decode('utf-8', 'replace')
            if r.rc or r.err or got != want:
                raise Violation('%r: status %d %r: %s' % (opt, r.rc, r.err[:200], diff(want, got)), key='accept:' + n)
            c.count('accepted')
            c.nontrivial = True
            c.seen(n, re.sub('[0-9]+', '9', a.lower()))
        self.others(c, rng, base, text)

    def rejected(self, c, rng, base, opt, text):
        args = base + opt
        k = rng.random()
        if k < 0.3:
            args = opt + base
        files = []
        if rng.random() < 0.3:
            fin = c.write('in.txt', text)
            fout = c.write('out.txt', 'previous contents\n')
            files = [fin, fout]
        extra = rng.choice([[], [], ['-r'], ['-l'], ['-m'], ['-a', 'hc']])
        r = c.boxes(args + extra + files, text)
        if r.rc != 1 or r.out or not r.err:
            raise Violation('%r: must be rejected, but status %d, output %r, messages %r' % (opt, r.rc, show(r.out.decode('utf-8', 'replace'), 200),
                                                                                            r.err[:200]), key='reject')
        if files and open(files[1]).read() != 'previous contents\n':
            raise Violation('%r: rejected, but the output file was changed' % opt, key='outfile')
        c.count('rejected')

    def others(self, c, rng, base, text):
        k = rng.random()
        if k < 0.2:
            self.rejected(c, rng, base, rng.choice([['-k', rng.choice(WORDS['kill'])], ['-x', rng.choice(WORDS['extra'])]]), text)
        elif k < 0.4:
            self.rejected(c, rng, base,
                          [rng.choice(['-z', '-A', '-1', '--nosuch', '--alignn', '--co', '--no', '--re-move', '--list=x', '--remove=1',
                                       '--color=always', '-o', '--xyz=1', '-rz', '-lY', '--help=x', '--version=1'])], text)
        elif k < 0.55:
            # argument missing at the end
            n = rng.choice(['align', 'create', 'design', 'eol', 'config', 'indent', 'encoding', 'padding', 'tag-query', 'size', 'tabs', 'extra'])
            r = c.boxes(base + [rng.choice(['--' + n, '-' + SHORT[n]])], text)
            if r.rc != 1 or r.out or not r.err:
                raise Violation('missing argument of %s: status %d, %r %r' % (n, r.rc, r.out[:100], r.err[:100]), key='missing')
            c.count('rejected')
        elif k < 0.7:
            fin = c.write('in.txt', text)
            fout = c.path('o.txt')
            r = c.boxes(base + [fin, fout, rng.choice(['third', '-', fin])], text)
            if r.rc != 1 or r.out or not r.err or os.path.exists(fout):
                raise Violation('third file: status %d, %r %r, output file %s' % (r.rc, r.out[:100], r.err[:100], os.path.exists(fout)), key='third')
            c.count('rejected')
        elif k < 0.85:
            # help and version at any place, whatever follows
            n = rng.choice(['help', 'version'])
            fout = c.write('out.txt', 'previous contents\n')
            tail = rng.choice([[], ['-a', 'nonsense'], ['--nosuch'], ['-l'], ['-r'], ['-', fout]])
            r = c.boxes(rng.choice([base, [], ['-r'], ['-a', 'hc']]) + [rng.choice(['--' + n, '-' + SHORT[n]])] + tail, text)
            t = r.out.decode('utf-8', 'replace')
            ok = re.fullmatch(r'boxes version [0-9][^\n]*\n', t) if n == 'version' else \
                t.startswith('boxes - ') and all('--' + x + ' ' in t for x in LONG if x != 'extra')
            if r.rc or not ok:
                raise Violation('--%s: status %d, %r %r' % (n, r.rc, t[:200], r.err[:200]), key=n)
            if open(fout).read() != 'previous contents\n':
                raise Violation('--%s changed the output file' % n, key=n)
            c.count('help_version')
        else:
            r = c.boxes(base[:-2] + ['-d', rng.choice(['nosuch', 'x' * 300, '', ' ', '\u00e4'])], text)
            if r.rc != 1 or r.out or not r.err:
                raise Violation('unknown design: status %d, %r %r' % (r.rc, r.out[:100], r.err[:100]), key='design')
            c.count('rejected')
