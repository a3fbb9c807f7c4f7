"""What the listings (-l, -l -d, -q) say about designs, computed from the designs as they were written."""
from . import gen, model, uni


def esc(s):
    out = []
    for vis, ch in marks(s):
        if vis and ch in '\\"':
            out.append('\\')
        out.append(ch)
    return ''.join(out)


def marks(s):
    """(is visible, character) for each character"""
    for k, t in uni.tokens(s):
        for ch in t:
            yield k == 'c', ch


def details(d, path, eol='\n', sample=False, color=False):
    cl = (lambda s: s) if color else uni.strip_esc
    sh = model.Shapes(d)
    o = []
    t = 'Complete Design Information for "%s":' % d.name
    o.append(t)
    o.append('-' * len(t))

    def kv(k, v):
        o.append('%-24s%s' % (k + ':', v))
    kv('Alias Names', ', '.join(d.aliases) or 'none')
    kv('Author', '(unknown author)' if d.author is None else d.author)
    kv('Original Designer', '(unknown artist)' if d.designer is None else d.designer)
    kv('Configuration File', path)
    kv('Indentation Mode', {'text': 'text (retain indentation inside of box)', 'none': 'none (discard indentation)'}
       .get(d.indent, 'box (indent box)'))
    for name, rules, w in (('Replacement Rules', d.reprules, 'WITH'), ('Reversion Rules', d.revrules, 'TO')):
        if not rules:
            kv(name, 'none')
        for i, (mode, a, b) in enumerate(rules):
            v = '%d. (%s) "%s" %s "%s"' % (i + 1, 'once' if mode == 'once' else 'glob', a, w, b)
            if i == 0:
                kv(name, v)
            else:
                o.append(' ' * 24 + v)
    kv('Minimum Box Dimensions', '%d x %d  (width x height)' % (sh.minwidth, sh.minheight))
    kv('Default Padding', ', '.join('%s %d' % (k, d.padding[k]) for k in ('left', 'top', 'right', 'bottom')
                                    if d.padding.get(k)) or 'none')
    kv('Default Killblank', 'no' if sh.empty['top'] and sh.empty['bottom'] else 'yes')
    kv('Tags', ', '.join(d.tags) or 'none')
    kv('Elastic Shapes', ', '.join(k.upper() for k in gen.SHAPES if k in sh.elastic))
    if sample:
        return eol.join(o) + eol + 'Sample:' + eol + ''.join(s + eol for s in d.sample) + eol
    first = True
    for k in gen.SHAPES:
        if k not in sh.sh or all(uni.blank(s) for s in sh.sh[k]):
            continue
        n = len(sh.sh[k])
        for i, s in enumerate(sh.sh[k]):
            o.append('%-24s%3s%s "%s"%s' % ('Defined Shapes:' if first and i == 0 else '', k.upper() if i == 0 else '',
                                            ':' if i == 0 else ' ', esc(cl(s)), ',' if i < n - 1 else ' '))
        first = False
    return eol.join(o) + eol


def names(d):
    return d.name + (' alias ' + ', '.join(d.aliases) if d.aliases else '')


def credits(d):
    if d.author is not None and d.designer is not None and d.author != d.designer:
        return '%s, coded by %s' % (d.designer, d.author)
    if d.designer is not None:
        return d.designer
    if d.author is not None:
        return 'unknown artist, coded by %s' % d.author
    return None


def listing(designs, path, parents=(), eol='\n'):
    """the output of -l; all names must be different"""
    n = len(designs)
    o = []
    t = '%d Available Style%s' % (n, '' if n == 1 else 's')
    if parents:
        o += [t + ':', '-' * (len(t) + 1), '', 'Configuration Files:', '    - ' + path]
        o += ['    - %s (parent)' % p for p in parents]
    else:
        t += ' in "%s":' % path
        o += [t, '-' * uni.width(t)]
    o.append('')
    if parents:
        o.append('')
    tags = {}
    for d in sorted(designs, key=lambda d: key(d.name)):
        cr = credits(d)
        o += [names(d), cr + ':'] if cr else [names(d) + ':']
        o += [''] + list(d.sample) + ['', '']
        for t in d.tags:
            tags.setdefault(t.lower(), [t, 0])[1] += 1
    s = eol.join(o) + eol
    if tags:
        s += ' | '.join('%s (%d)' % tuple(tags[k]) for k in sorted(tags)) + eol
    return s


def key(name):
    return name.lower().encode()


def query(designs, q=None, eol='\n'):
    """the output of -q; q: list of ('', '+' or '-', tag), None for (all)"""
    o = []
    for d in sorted(designs, key=lambda d: key(d.name)):
        if q is None or matches(d, q):
            o.append(d.name)
            o += [a + ' (alias)' for a in d.aliases]
    return ''.join(s + eol for s in o)


def matches(d, q):
    have = {t.lower() for t in d.tags}
    plus = [t.lower() for s, t in q if s == '+']
    minus = [t.lower() for s, t in q if s == '-']
    plain = [t.lower() for s, t in q if s == '']
    if any(t in have for t in minus) or not all(t in have for t in plus):
        return False
    if plus or '(all)' in plain or not plain:
        return True
    return any(t in have for t in plain)
