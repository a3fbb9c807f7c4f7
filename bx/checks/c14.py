"""C14: line endings."""
import re
from .. import harness, gen, hostile, stock, uni
from ..drawing import show
from ..harness import Violation
from . import c17

EOLS = {'CR': b'\r', 'LF': b'\n', 'CRLF': b'\r\n', None: b'\n'}


class Check(harness.Check):
    ID = 'C14'
    QUICK = 6000
    THOROUGH = 150000
    RULE = ('random design and text with LF, CRLF or mixed line ends, with and without a final one x -e (any case) x '
            'draw/remove/mend/list/query; output split at the requested terminator, compared with the LF run of the LF text; '
            'non-trivial: CRLF input or a terminator other than LF was requested')
    NEEDS = dict(draw=1500, remove=900, mend=900, listing=100, no_final=500, final_cr=300, sample_cr=20, large=10)
    MIN_NONTRIVIAL = 0.5

    def terminated(self, c, out, eol, final, what):
        t = EOLS[eol]
        if not out:
            return []
        if final != out.endswith(t):
            raise Violation('%s: last line %s a terminator' % (what, 'lacks' if final else 'has'), key='final')
        body = out[:-len(t)] if final else out
        parts = body.split(t)
        for p in parts:
            if b'\r' in p or b'\n' in p:
                raise Violation('%s: other line terminator in the output: %r' % (what, show(repr(p), 200)), key='other')
        return parts

    def case(self, c):
        rng = c.rng
        st = rng.random() < 0.2
        d = rng.choice(stock.usable()) if st else gen.design(rng, maxdim=2)
        cfg = hostile.STOCK if st else c.cfg(gen.config_of(d))
        pr = gen.Profile(maxlines=5, maxlen=20, tabs=0.1)
        lines = gen.text_lines(rng, pr)
        if rng.random() < 0.01:
            lines = gen.enlarge(rng, lines)
            c.count('large')
        crlf = rng.random() < 0.6
        mixed = rng.random() < 0.2
        final = rng.random() < 0.6 or not lines[-1]
        sep = lambda: '\r\n' if (crlf and not mixed) or (mixed and rng.random() < 0.5) else '\n'
        text = ''.join(s + sep() for s in lines[:-1]) + lines[-1] + (sep() if final else '')
        lf = '\n'.join(lines) + ('\n' if final else '')
        eol = rng.choice([None, 'LF', 'CR', 'CRLF', 'CRLF'])
        opt = gen.options(rng, align=0.2, pad=0.2, size=0.2, indent=0.2).args()
        e = [rng.choice(['-e', '--eol=']), eol] if eol else []
        if eol:
            v = rng.choice([eol, eol.lower(), eol.capitalize()])
            e = [e[0] + v] if e[0].startswith('--') else ['-e', v]
        base = ['--no-color', '-f', cfg, '-d', d.name]
        c.nontrivial = crlf or mixed or eol in ('CR', 'CRLF')
        ref = c.boxes(base + opt, lf)
        if ref.rc:
            if c.boxes(base + opt + e, text).rc != ref.rc:
                raise Violation('status differs')
            c.nontrivial = False
            return
        got = c.boxes(base + opt + e, text)
        a = self.terminated(c, ref.out, None, final, 'drawing')
        b = self.terminated(c, got.out, eol, final, 'drawing')
        if a != b or got.err or got.rc:
            raise Violation('drawing %s text with -e %s differs: %r / %r' % ('CRLF' if crlf else 'LF', eol, a, b))
        c.count('draw')
        if not final:
            c.count('no_final')
        c.seen(crlf, mixed, final, eol)
        if lines[-1] and not final:
            # a carriage return alone does end the last line
            got = c.boxes(base + opt + e, text + '\r')
            if got.rc or self.terminated(c, got.out, eol, True, 'drawing text that ends in a carriage return') != b:
                raise Violation('a carriage return at the end makes a difference: %r / %r' % (show(ref.out, 200), show(got.out, 200)))
            c.count('final_cr')
        # remove and mend the box, which now has CRLF
        boxt = ref.out
        box2 = b''.join(s + (b'\r\n' if crlf or (mixed and rng.random() < .5) else b'\n') for s in a)
        if not final:
            box2 = box2[:-2] if box2.endswith(b'\r\n') else box2[:-1]
        for m in ('-r', '-m'):
            x = c.boxes(base + opt + [m], boxt)
            y = c.boxes(base + opt + [m] + e, box2)
            if x.rc != y.rc:
                raise Violation('%s: status %d for LF, %d for CRLF' % (m, x.rc, y.rc))
            if x.rc:
                continue
            fx = x.out.endswith(b'\n')     # an empty last line without terminator leaves that of the line before
            p = self.terminated(c, x.out, None, fx, m)
            q = self.terminated(c, y.out, eol, fx, m)
            if p != q:
                raise Violation('%s: CRLF input gives different result: %r / %r' % (m, p, q))
            if not final:
                # the same with a final line terminator
                z = c.boxes(base + opt + [m], boxt + b'\n')
                if z.out != (x.out + b'\n' if x.out or z.out else b''):
                    raise Violation('%s: final line terminator does not follow the input' % m, key='final')
            c.count('remove' if m == '-r' else 'mend')
        if rng.random() < 0.1:
            if not st:
                # more of everything that is listed
                taken = set()
                ds = [c17.make(rng, taken) for _ in range(rng.choice([1, 2, 4]))]
                for x in ds:
                    x.reprules = x.reprules * rng.choice([1, 2])
                    x.revrules = x.revrules * rng.choice([1, 2])
                d = rng.choice(ds)
                t = "".join(gen.config_of(x) for x in ds)
                if rng.random() < 0.5:
                    # samples with line ends of all kinds
                    t = re.sub('(?is)(sample\n)(.*?)(\nends)', lambda m: m[1] + m[2] + rng.choice(['\rq', '\r\rq', '\r\nq\rq', '\r', '\r\n', '\n\nq\r']) + m[3], t)
                    c.count('sample_cr')
                cfg = c.cfg(t, 'list.cfg')
            for a in (['-l', '-d', d.name, '-x', '(undoc)'], ['-l'], ['-l', '-d', d.name], ['-q', '(all)']):
                x = c.boxes(['--no-color', '-f', cfg] + a)
                y = c.boxes(['--no-color', '-f', cfg] + a + e)
                if b'\r' in x.out:
                    raise Violation('%s: carriage return in the listing' % a, key='listing')
                if x.out.replace(b'\n', EOLS[eol]) != y.out:
                    raise Violation('%s with -e %s: wrong line ends' % (a, eol), key='listing')
                c.count('listing')
