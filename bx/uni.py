"""Character properties (through libunistring, the same library boxes uses) and the string model of the oracles."""
import ctypes, functools

_lib = None
for _n in ('libunistring.so.5', 'libunistring.so.2', 'libunistring.so'):
    try:
        _lib = ctypes.CDLL(_n)
        break
    except OSError:
        pass
if _lib is None:
    raise RuntimeError('libunistring not found')
_lib.uc_width.argtypes = [ctypes.c_uint32, ctypes.c_char_p]
_lib.uc_width.restype = ctypes.c_int
_lib.uc_is_blank.argtypes = [ctypes.c_uint32]
_lib.uc_is_blank.restype = ctypes.c_bool
_lib.uc_is_cntrl.argtypes = [ctypes.c_uint32]
_lib.uc_is_cntrl.restype = ctypes.c_bool
_lib.uc_is_property_white_space.argtypes = [ctypes.c_uint32]
_lib.uc_is_property_white_space.restype = ctypes.c_bool
_lib.uc_is_property_bidi_whitespace.argtypes = [ctypes.c_uint32]
_lib.uc_is_property_bidi_whitespace.restype = ctypes.c_bool
_lib.uc_is_c_whitespace.argtypes = [ctypes.c_uint32]
_lib.uc_is_c_whitespace.restype = ctypes.c_bool

ESC = '\x1b'


@functools.lru_cache(maxsize=None)
def cwidth(ch, enc='UTF-8'):
    """display columns of one visible character"""
    o = ord(ch)
    if 0x20 <= o < 0x7f or ch == '\t':
        return 1
    return max(0, _lib.uc_width(o, enc.encode()))


@functools.lru_cache(maxsize=None)
def is_blank(ch):
    return ch == '\t' or bool(_lib.uc_is_blank(ord(ch)))


@functools.lru_cache(maxsize=None)
def is_space(ch):
    o = ord(ch)
    return bool(_lib.uc_is_c_whitespace(o) or _lib.uc_is_property_white_space(o)
                or _lib.uc_is_property_bidi_whitespace(o))


@functools.lru_cache(maxsize=None)
def is_cntrl(ch):
    return bool(_lib.uc_is_cntrl(ord(ch)))


def tokens(s):
    """Split into tokens: ('e', escape sequence) and ('c', visible char). An escape sequence is ESC '[' or ESC '(' up to
    and including a final 0x40-0x7e, or ESC + one of 0x40-0x5f."""
    out = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == ESC:
            j = i + 1
            if j < n and s[j] in '[(':
                j += 1
                while j < n:
                    o = ord(s[j])
                    j += 1
                    if 0x40 <= o <= 0x7e:
                        break
                out.append(('e', s[i:j]))
                i = j
                continue
            if j < n and 0x40 <= ord(s[j]) <= 0x5f:
                out.append(('e', s[i:j + 1]))
                i = j + 1
                continue
            out.append(('e', c))
            i += 1
            continue
        out.append(('c', c))
        i += 1
    return out


def strip_esc(s):
    if ESC not in s:
        return s
    return ''.join(t for k, t in tokens(s) if k == 'c')


def width(s, enc='UTF-8'):
    if ESC in s:
        s = strip_esc(s)
    return sum(cwidth(c, enc) for c in s)


def blank(s):
    return all(is_blank(c) or c == '\r' for c in strip_esc(s))


def rtrim_blank(s):
    """remove trailing blanks (of a string without escape sequences)"""
    n = len(s)
    while n and is_blank(s[n - 1]):
        n -= 1
    return s[:n]


def rtrim_space(s):
    n = len(s)
    while n and is_space(s[n - 1]):
        n -= 1
    return s[:n]


def indent_of(s):
    """number of leading blanks"""
    n = 0
    for c in strip_esc(s):
        if not is_blank(c):
            break
        n += 1
    return n


def expand_tabs(s, ts):
    """expand tabs to the next tab stop (in display columns)"""
    if '\t' not in s:
        return s
    out = []
    n = 0
    for kind, t in tokens(s):
        if kind == 'e':
            out.append(t)
        elif t == '\t':
            k = ts - n % ts
            out.append(' ' * k)
            n += k
        else:
            out.append(t)
            n += cwidth(t)
    return ''.join(out)


def cells(s):
    """display columns of a string without escape sequences: list with one entry per column; a double-width character
    is followed by None, zero-width characters are appended to the column before them (at the start: put before the first)"""
    out = []
    lead = ''
    for c in s:
        w = cwidth(c)
        if w == 0:
            if out:
                k = len(out) - 1
                while k and out[k] is None:
                    k -= 1
                out[k] += c
            else:
                lead += c
        else:
            out.append(lead + c)
            lead = ''
            out += [None] * (w - 1)
    return out


def cut(s, a, b=None):
    """columns a..b of s (padded with blanks); a double-width character that is cut becomes '\ufffd'"""
    c = cells(s)
    b = len(c) if b is None else b
    if len(c) < b:
        c = c + [' '] * (b - len(c))
    part = c[a:b]
    out = []
    for i, x in enumerate(part):
        if x is None:
            if i == 0:
                out.append('\ufffd')
        else:
            out.append(x)
    if b < len(c) and c[b] is None and out:
        out[-1] = '\ufffd'
    return ''.join(out)
