"""A small independent reader for well-formed configuration files (used for the designs that ship with boxes)."""
import re
from . import gen, hostile

PAD = [('all', 1, ('top', 'right', 'bottom', 'left')), ('horizontal', 1, ('left', 'right')),
       ('vertical', 1, ('top', 'bottom')), ('top', 1, ('top',)), ('right', 1, ('right',)), ('bottom', 1, ('bottom',)),
       ('left', 1, ('left',))]


class Reader:
    def __init__(self, text):
        self.t = text
        self.i = 0
        self.esc, self.delim = '\\', '"'

    def ws(self):
        while self.i < len(self.t):
            c = self.t[self.i]
            if c in ' \t\r\n':
                self.i += 1
            elif c == '#':
                j = self.t.find('\n', self.i)
                self.i = len(self.t) if j < 0 else j
            else:
                return

    def tok(self):
        """('s', string), ('w', word), ('p', punctuation) or None"""
        self.ws()
        if self.i >= len(self.t):
            return None
        c = self.t[self.i]
        if c == self.delim:
            out = []
            i = self.i + 1
            while self.t[i] != self.delim:
                if self.t[i] == self.esc:
                    i += 1
                out.append(self.t[i])
                i += 1
            self.i = i + 1
            return ('s', ''.join(out))
        m = re.compile(r'[A-Za-z0-9_\-]+').match(self.t, self.i)
        if m:
            self.i = m.end()
            return ('w', m.group())
        self.i += 1
        return ('p', c)

    def peek(self):
        i = self.i
        t = self.tok()
        self.i = i
        return t

    def designs(self):
        out = []
        while True:
            t = self.tok()
            if t is None:
                return out
            assert t == ('w', t[1]) and t[1].lower() == 'box', t
            out.append(self.design())

    def line(self):
        j = self.t.find('\n', self.i)
        s = self.t[self.i:j]
        self.i = j + 1
        return s

    def design(self):
        d = gen.Design()
        d.sample = []
        self.esc, self.delim = '\\', '"'
        names = [x.strip() for x in self.line().split(',')]
        d.name, d.aliases = names[0], names[1:]
        while True:
            k, w = self.tok()
            assert k == 'w', (d.name, k, w)
            w = w.lower()
            if w == 'end':
                assert self.tok()[1].lower() == d.name.lower()
                self.esc, self.delim = '\\', '"'
                return d
            if w == 'sample':
                self.line()
                while True:
                    s = self.line()
                    if re.fullmatch(r'[ \t]*ends[ \t\r]*', s, re.I):
                        break
                    d.sample.append(s)
            elif w == 'shapes':
                assert self.tok() == ('p', '{')
                while self.peek() != ('p', '}'):
                    name = self.tok()[1].lower()
                    assert self.tok() == ('p', '(')
                    v = []
                    while True:
                        k, s = self.tok()
                        if (k, s) == ('p', ')'):
                            break
                        if k == 's':
                            v.append(s)
                    if v and not all(x == '' for x in v):
                        d.shapes[name] = v
                self.tok()
            elif w == 'elastic':
                self.tok()
                while True:
                    k, s = self.tok()
                    if (k, s) == ('p', ')'):
                        break
                    if k == 'w':
                        d.elastic.append(s.lower())
            elif w in ('replace', 'reverse'):
                k, s = self.tok()
                mode = None
                if k == 'w':
                    mode = s.lower()
                    k, s = self.tok()
                self.tok()
                (d.reprules if w == 'replace' else d.revrules).append((mode, s, self.tok()[1]))
            elif w == 'padding':
                assert self.tok() == ('p', '{')
                while self.peek() != ('p', '}'):
                    a, n = self.tok()[1].lower(), int(self.tok()[1])
                    for full, mn, sides in PAD:
                        if full.startswith(a):
                            for x in sides:
                                d.padding[x] = n
                            break
                self.tok()
            elif w in ('delim', 'delimiter'):
                self.ws()
                m = re.compile(r'[^ \t\r\n]+').match(self.t, self.i)
                self.esc, self.delim = m.group()[0], m.group()[1]
                self.i = m.end()
            elif w == 'tags':
                k, s = self.tok()
                if k == 's':
                    d.tags += [x.strip() for x in s.split(',')]
                else:
                    while True:
                        k, s = self.tok()
                        if (k, s) == ('p', ')'):
                            break
                        if k == 's':
                            d.tags += [x.strip() for x in s.split(',')]
            else:
                k, s = self.tok()
                assert k == 's', (d.name, w, k, s)
                if w == 'author':
                    d.author = s
                elif w == 'designer':
                    d.designer = s
                elif w == 'indent':
                    d.indent = s.lower()


_cache = []


def designs():
    if not _cache:
        _cache.extend(Reader(hostile.stock_text()).designs())
    return _cache


def usable(color=False, rules=False):
    """stock designs with a sound definition for drawing checks"""
    out = []
    for d in designs():
        esc = any('\x1b' in s for v in d.shapes.values() for s in v)
        if esc and not color:
            continue
        if (d.reprules or d.revrules) and not rules:
            continue
        out.append(d)
    return out
