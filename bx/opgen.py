"""Random operations of every kind on random text and configurations (for the checks that are not about one operation)."""
from . import gen, hostile, model, removal

# with no colours, 8 colours, and more of them
TERMS = ['xterm', 'linux', 'xterm', 'ansi', 'xterm-256color', 'vt100', 'nosuchterm', '', 'hardcopy', 'dumb']
KINDS = ['draw', 'draw', 'draw', 'remove', 'remove', 'mend', 'list', 'details', 'query', 'cld']


class Op:
    """kind, args, text, env; valid: configuration and options are valid; clean: the text is valid; silent: nothing to complain about"""
    rules = False

    def __init__(self):
        self.env = None
        self.valid = True
        self.clean = True


def rules(rng):
    out = []
    for _ in range(rng.randint(1, 2)):
        pat, rep = rng.choice([('[abcxyz]', 'Q'), ('(\\\\w)(\\\\w)', '$1-$2'), ('(\\\\w)(\\\\w)', '${2}$1'), ('^ +', ''), ('\\\\s+$', ''),
                               ('x*', 'z'), ('.', '$0$0'), ('e', '\u00e4'), ('^', '> '), ('$', '.')])
        out.append((rng.choice([None, 'global', 'once']), pat, rep))
    return out


def operation(c, hostile_share=0.2, environ=True):
    rng = c.rng
    op = Op()
    k = rng.random()
    if k < 0.2:
        op.cfg = hostile.STOCK
        names = [rng.choice(hostile.stock_names()) for _ in range(2)]
    elif k < 0.2 + hostile_share:
        b, names = hostile.hostile_config(rng)
        op.cfg = c.cfg(b)
        op.valid = False
    else:
        d = gen.design(rng, maxdim=rng.choice([1, 2, 3]), alpha=rng.choice(removal.BORDERS), color=rng.choice([0, 0, 0.3]))
        e = gen.design(rng, maxdim=2)
        e.name = 'other'
        if rng.random() < 0.35:
            d.reprules = rules(rng)
            d.revrules = rules(rng)
            op.rules = True
        t = gen.config_of(d)
        u = gen.config_of(e)
        t = t + u if rng.random() < 0.5 else u + t
        if rng.random() < 0.2:
            p = c.cfg(u, 'parent.cfg')
            t = 'parent %s\n' % p + gen.config_of(d)
        op.cfg = c.cfg(t)
        names = [d.name]
        op.valid = model.drawable(d) and model.drawable(e)
    if rng.random() < 0.5:
        text = hostile.hostile_text(rng)
        op.clean = False
    else:
        pr = gen.Profile(maxlines=8, maxlen=30, indent=0.4, tabs=0.2, comb=0.1, esc=rng.choice([0, 0.2]))
        text = ('\n'.join(gen.text_lines(rng, pr)) + '\n').encode()
    op.kind = kind = rng.choice(KINDS)
    args = ['-f', op.cfg]
    o = gen.options(rng, tab=0.3, eol=0.2)
    name = rng.choice(names)
    op.named = False
    if kind in ('draw', 'remove', 'mend', 'details') and rng.random() < 0.8 or kind == 'details':
        args += ['-d', name]
        op.named = True
    if kind in ('draw', 'remove', 'mend', 'cld'):
        args += o.args()
    if kind in ('remove', 'mend'):
        if rng.random() < 0.8:
            r = c.boxes(['-f', op.cfg, '-d', name] + (['--color'] if rng.random() < 0.3 else []), text)
            if r.rc == 0 and r.out:
                lines = r.out.decode('utf-8', 'replace').split('\n')
                if rng.random() < 0.4:
                    lines = hostile.mutate_box(rng, lines)
                text = '\n'.join(lines).encode('utf-8', 'replace')
        args.append('-r' if kind == 'remove' else '-m')
    elif kind in ('list', 'details'):
        args.append('-l')
    elif kind == 'query':
        q = rng.choice(['(all)', 'box', '-box,+programming', 'Bad', 'a b'])
        args += ['-q', q]
        op.valid = op.valid and q not in ('Bad', 'a b')
    elif kind == 'cld':
        args += ['-c', rng.choice(['#', '// ', '\u2502', '\u3042', '-'])]
    if rng.random() < 0.4:
        args.append(rng.choice(['--color', '--no-color']))
    if rng.random() < 0.1:
        args += ['-n', rng.choice(['UTF-8', 'ISO-8859-1', 'nosuch', 'UTF-16'])]
        op.clean = False
    if rng.random() < 0.05:
        args += rng.choice([['-a', 'x'], ['-t', '0'], ['--nosuch'], ['-s', '0']])
        op.valid = False
    if environ and rng.random() < 0.3:
        op.env = {'TERM': rng.choice(TERMS)}
        if rng.random() < 0.3:
            op.env['LC_ALL'] = rng.choice(['C', 'POSIX'])
            op.clean = False
    op.args = args
    op.text = text
    op.detect = kind in ('remove', 'mend') and not op.named
    return op
