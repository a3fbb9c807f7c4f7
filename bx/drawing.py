"""Helpers shared by the drawing checks."""
from . import gen, model, uni
from .harness import Violation, Inconclusive


def show(s, n=4000):
    return s if len(s) <= n else s[:n] + '...'


def diff(want, got):
    """short description of the first differing line"""
    w, g = want.split('\n'), got.split('\n')
    for i in range(max(len(w), len(g))):
        a = w[i] if i < len(w) else '<missing>'
        b = g[i] if i < len(g) else '<missing>'
        if a != b:
            return 'line %d: expected %r, got %r' % (i + 1, show(a, 300), show(b, 300))
    return 'no difference'


def expect(c, r, want, what, key=None):
    """stdout must be `want` (str), status 0, no messages"""
    got = r.out.decode('utf-8', 'replace')
    if r.rc != 0 or r.err:
        raise Violation('%s: status %d, stderr %r' % (what, r.rc, show(r.err.decode('utf-8', 'replace'), 300)), key=key)
    if got != want:
        raise Violation('%s: %s' % (what, diff(want, got)), key=key, expected=want, got=got)


def out_lines(r):
    t = r.out.decode('utf-8', 'replace')
    ls = t.split('\n')
    if ls and ls[-1] == '':
        ls.pop()
    return ls


def draw_args(cfg, d, o, extra=()):
    return ['--no-color', '-f', cfg, '-d', d.name] + o.args() + list(extra)


def draw_and_compare(c, d, lines, o, final=True, key=None, sh=None, what='drawing', extra=(), rewrite=None):
    """run boxes and compare the complete output with the model; returns the model's box (None if not drawable)"""
    cfg = c.cfg(gen.config_of(d))
    text = '\n'.join(lines) + ('\n' if final else '')
    r = c.boxes(draw_args(cfg, d, o, extra), text)
    try:
        b = model.draw(d, lines, o, sh, rewrite)
    except model.Unreachable:
        if r.rc != 1 or not r.err or r.out:
            raise Violation('%s: opposite sides cannot match, but status %d' % (what, r.rc), key=key)
        c.count('unreachable')
        return None, r
    eol = {'CR': '\r', 'CRLF': '\r\n'}.get(o.eol, '\n')
    expect(c, r, model.render(b, eol, final), what, key)
    c.count('lines_compared', len(b.out))
    return b, r
