"""Writes designs into configuration files in all the forms which the syntax allows."""
from . import gen

SDELIM = '"~\'`!@%&*=:;<>?/|.\\'
KEYWORDS = {'sample', 'ends', 'tags', 'elastic', 'shapes', 'box', 'replace', 'reverse', 'padding', 'to', 'with', 'global', 'once',
            'end', 'author', 'designer', 'indent', 'delim', 'delimiter', 'parent'}
IDCH = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def ident(rng, taken=(), maxlen=10):
    while True:
        s = rng.choice(IDCH) + ''.join(rng.choice(IDCH + '0123456789_-') for _ in range(rng.randint(0, maxlen - 1)))
        if rng.random() < 0.1:
            s = rng.choice(['end', 'to', 'sample', 'box', 'parent', 'indent', 'once', 'ends']) + s
        if s.lower() not in KEYWORDS and s.lower() not in taken:
            return s


def anycase(rng, s):
    r = rng.random()
    if r < 0.5:
        return s
    if r < 0.65:
        return s.upper()
    if r < 0.8:
        return s.capitalize()
    return ''.join(rng.choice([c.lower(), c.upper()]) for c in s)


# where the UTF-8 encoding of characters changes
BORDERS = [0xa0, 0xbf, 0xc0, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xfefe, 0xff00, 0xffff, 0x10000, 0x3ffff,
           0x40000, 0xfffff, 0x100000, 0x10ffff]
COMMENTS = ['', ' comment', 'END x', ' "quote', " it's", ' } ) (', ' BOX foo', '# #', ' \u00e4\u00f6 \u6f22', '\\', ' sample', '{']


class Writer:
    """layout: how wild the layout is (0: plain)"""

    def __init__(self, rng, layout=1.0, crlf=None):
        self.rng = rng
        self.layout = layout
        self.out = []
        self.crlf = rng.random() < 0.12 * layout if crlf is None else crlf
        self.esc, self.delim = '\\', '"'

    def nl(self):
        return '\r\n' if self.crlf or self.rng.random() < 0.03 * self.layout else '\n'

    def put(self, s):
        self.out.append(s)

    def ws(self, need=False, comments=True, line=False):
        """white space between two words; need: something is required; line: prefer a new line"""
        rng = self.rng
        if rng.random() > self.layout:
            self.put(self.nl() if line else ' ')
            return
        s = ''
        n = rng.choice([0, 1, 1, 1, 2, 3])
        for _ in range(n):
            r = rng.random()
            if r < 0.5:
                s += rng.choice([' ', '  ', '\t', ' \t '])
            elif r < 0.8 or not comments:
                s += self.nl()
            elif r < 0.95:
                s += '#' + rng.choice(COMMENTS) + self.nl()
            elif r < 0.97:
                s += '\r'
            elif r < 0.98:
                s += ' \ufeff '
            else:
                s += self.nl() * 3
        if not s and need:
            s = self.nl() if line else ' '
        self.put(s)

    def kw(self, s):
        self.put(anycase(self.rng, s) if self.layout else s)

    def string(self, s):
        rng = self.rng
        out = []
        for c in s:
            if c == self.esc or c == self.delim:
                out.append(self.esc)
            elif rng.random() < 0.03 * self.layout and ' ' <= c < '\x7f':
                out.append(self.esc)                 # superfluous, but allowed
            out.append(c)
        self.put(self.delim + ''.join(out) + self.delim)

    def redelim(self):
        """changes the string delimiter"""
        rng = self.rng
        self.kw(rng.choice(['delim', 'delimiter']))
        self.put(rng.choice([' ', '\t', '  ', self.nl()]))
        while True:
            e = rng.choice(SDELIM + '^$#+-_,(){}[]aXz09\\\\\\')
            d = rng.choice(SDELIM + '""')
            if e != d:
                break
        self.put(e + d + rng.choice([' ', '\t', self.nl()]))
        self.esc, self.delim = e, d
        self.ws(True, comments=True)

    # -- entries: each is a function which writes one complete entry

    def entry_string(self, key, value):
        def f():
            self.kw(key)
            self.ws()
            self.string(value)
        return f

    def entry_tags(self, tags):
        rng = self.rng

        def pad(t):
            return ' ' * rng.choice([0, 0, 0, 1, 3]) + t + ' ' * rng.choice([0, 0, 1]) if rng.random() < self.layout else t

        def f():
            self.kw('tags')
            self.ws()
            if len(tags) == 1 and rng.random() < 0.5 * self.layout:
                self.string(pad(tags[0]))
            elif rng.random() < 0.3 * self.layout:
                self.string(','.join(pad(t) for t in tags))
            else:
                self.put('(')
                i = 0
                while i < len(tags):
                    if i:
                        self.ws()
                        self.put(',')
                    self.ws()
                    n = rng.randint(1, 2) if rng.random() < 0.3 * self.layout else 1
                    self.string(','.join(pad(t) for t in tags[i:i + n]))
                    i += n
                self.ws()
                self.put(')')
        return f

    def entry_sample(self, lines):
        rng = self.rng

        def f():
            self.kw('sample')
            if rng.random() < 0.3 * self.layout:
                self.put(rng.choice([' ', '\t', '  ']))
            self.put(self.nl())
            for _ in range(rng.choice([0, 0, 0, 1, 2]) if self.layout else 0):
                self.put(rng.choice(['', ' ', '\t']) + self.nl())
            for s in lines:
                self.put(s + self.nl())
            for _ in range(rng.choice([0, 0, 0, 1, 2]) if self.layout else 0):
                self.put(rng.choice(['', ' ', '\t']) + self.nl())
            if rng.random() < 0.4 * self.layout:
                self.put(rng.choice([' ', '\t', '   ']))
            self.kw('ends')
            if rng.random() < 0.2 * self.layout:
                self.put(rng.choice([' ', '\t']))
            self.put(self.nl())
        return f

    def entry_shapes(self, shapes):
        rng = self.rng

        def f():
            self.kw('shapes')
            self.ws()
            self.put('{')
            items = list(shapes)
            if rng.random() < 0.4 * self.layout:
                rng.shuffle(items)
            if rng.random() < 0.3 * self.layout:
                miss = [k for k in gen.SHAPES if k not in dict(shapes)]
                if miss:
                    items.insert(rng.randint(0, len(items)), (rng.choice(miss), []))
            for i, (k, v) in enumerate(items):
                self.ws(i and False)
                self.kw(k)
                self.ws()
                self.put('(')
                for i, s in enumerate(v):
                    if i:
                        self.ws()
                        self.put(',')
                    self.ws()
                    self.string(s)
                self.ws()
                self.put(')')
            self.ws()
            self.put('}')
        return f

    def entry_elastic(self, names):
        rng = self.rng

        def f():
            self.kw('elastic')
            self.ws()
            self.put('(')
            items = list(names)
            if rng.random() < 0.4 * self.layout:
                rng.shuffle(items)
            for i, k in enumerate(items):
                if i:
                    self.put(',')
                self.ws()
                self.kw(k)
                self.ws()
            self.put(')')
        return f

    def entry_rule(self, kw, mode, a, b):
        def f():
            self.kw(kw)
            if mode:
                self.ws(True)
                self.kw(mode)
            self.ws()
            self.string(a)
            self.ws()
            self.kw('with' if kw == 'replace' else 'to')
            self.ws()
            self.string(b)
        return f

    def entry_padding(self, items):
        def f():
            self.kw('padding')
            self.ws()
            self.put('{')
            for w, n in items:
                self.ws()
                self.kw(w)
                self.ws(True)
                self.put(n)
            self.ws(True)
            self.put('}')
        return f

    def raw(self, text):
        def f():
            self.put(text)
        return f

    def padding_items(self, padding):
        """a sequence of words and numbers which results in the given padding (dict side -> n)"""
        rng = self.rng
        want = {k: padding.get(k, 0) for k in ('top', 'right', 'bottom', 'left')}
        areas = dict(all=('top', 'right', 'bottom', 'left'), horizontal=('right', 'left'), vertical=('top', 'bottom'), top=('top',),
                     right=('right',), left=('left',), bottom=('bottom',))
        seq = []
        cur = dict.fromkeys(want, 0)
        if rng.random() < 0.6 * self.layout:
            for _ in range(rng.randint(0, 3)):
                a = rng.choice(list(areas))
                n = rng.choice([want[areas[a][0]], rng.randint(0, 4)])
                seq.append((a, n))
                for s in areas[a]:
                    cur[s] = n
        rest = [s for s in want if cur[s] != want[s]]
        if self.layout:
            rng.shuffle(rest)
        seq += [(s, want[s]) for s in rest]
        out = []
        for a, n in seq:
            w = a
            if rng.random() < 0.4 * self.layout:
                w = a[:rng.randint(1, len(a))]
                if w == 'to':
                    w = 'top'
            out.append((w, rng.choice(['%d', '%d', '+%d', '0%d']) % n if self.layout else '%d' % n))
        return out

    def entries(self, d):
        rng = self.rng
        lay = self.layout
        es = []

        def add(*fs):
            es.append(list(fs))
        if d.author is not None:
            add(*([self.entry_string('author', 'overwritten')] if rng.random() < 0.1 * lay else []), self.entry_string('author', d.author))
        if d.designer is not None:
            add(self.entry_string('designer', d.designer))
        if d.indent:
            add(self.entry_string('indent', anycase(rng, d.indent) if lay else d.indent))
        if d.tags:
            if len(d.tags) > 1 and rng.random() < 0.3 * lay:
                n = rng.randint(1, len(d.tags) - 1)
                add(self.entry_tags(d.tags[:n]), self.entry_tags(d.tags[n:]))
            else:
                add(self.entry_tags(d.tags))
        add(self.entry_sample(d.sample))
        add(self.entry_shapes(list(d.shapes.items())))
        add(self.entry_elastic(d.elastic))
        if d.reprules:
            add(*[self.entry_rule('replace', *r) for r in d.reprules])
        if d.revrules:
            add(*[self.entry_rule('reverse', *r) for r in d.revrules])
        pi = self.padding_items(d.padding)
        if pi:
            if len(pi) > 1 and rng.random() < 0.3 * lay:
                n = rng.randint(1, len(pi) - 1)
                add(self.entry_padding(pi[:n]), self.entry_padding(pi[n:]))
            else:
                add(self.entry_padding(pi))
        if rng.random() < 0.3 * lay:
            for _ in range(rng.randint(1, 2)):
                w = rng.choice(['created', 'revision', 'revdate', 'parent', 'foo', 'x', 'nw', 'ends-not', 'Stra\u00dfe', None, None])
                if w is None:       # a word of letters of any length in UTF-8
                    w = ''.join(chr(rng.choice(BORDERS)) if rng.random() < 0.5 else chr(rng.choice(
                        [rng.randint(0xa0, 0x7ff), rng.randint(0x800, 0xd7ff), rng.randint(0xe000, 0xfeff - 1), rng.randint(0xff00, 0xffff),
                         rng.randint(0x10000, 0xfffff), rng.randint(0x100000, 0x10ffff)])) for _ in range(rng.randint(1, 4)))
                    w += rng.choice(['', '-', '_x', '9'])
                add(self.entry_string(w, rng.choice(['2001/01/01', '1.0', 'some text', ' END x', '#', 'x { } ( )'])))
        return es

    def merge(self, es):
        """random order, but the parts of each entry in order"""
        rng = self.rng
        if rng.random() >= 0.7 * self.layout:
            return [f for e in es for f in e]
        out = []
        es = [list(e) for e in es if e]
        while es:
            e = rng.choice(es)
            out.append(e.pop(0))
            if not e:
                es.remove(e)
        return out

    def design(self, d, es=None, name_at_end=None, head=None):
        rng = self.rng
        self.kw('box')
        self.ws(True)
        if head is not None:
            self.put(head)
        else:
            self.put(d.name)
            for a in d.aliases:
                self.ws()
                self.put(',')
                self.ws()
                self.put(a)
        self.esc, self.delim = '\\', '"'
        seq = self.merge(self.entries(d) if es is None else es)
        for f in seq:
            self.ws(True, line=True)
            if rng.random() < 0.12 * self.layout:
                self.redelim()
            f()
        self.ws(True, line=True)
        self.kw('end')
        self.ws(True)
        self.put(anycase(rng, d.name) if name_at_end is None else name_at_end)
        self.esc, self.delim = '\\', '"'

    def text(self):
        return ''.join(self.out)

    def lineno(self):
        return self.text().count('\n') + 1
