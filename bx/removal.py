"""Helpers shared by the removal checks: designs and texts for which removal is unambiguous."""
from . import gen, stock, uni

BORDERS = ['-=+|*#/\\:~^<>()[]{}', '-=+|*#/\\:~^<>()[]{}', '-=+|*#/\\:~^\u2500\u2502\u250c\u2510\u2514\u2518\u2588\u2591\u2022',
           '-=+|*#\uff0d\uff5c\u25a0', '+-|']
RESERVED = set(''.join(BORDERS))


def strip_blank_ends(ls):
    a, b = 0, len(ls)
    while a < b and not ls[a].strip():
        a += 1
    while b > a and not ls[b - 1].strip():
        b -= 1
    return ls[a:b]


def alphabet(d):
    """visible characters of the design's shapes"""
    return {ch for v in d.shapes.values() for s in v for ch in uni.strip_esc(s) if not uni.is_blank(ch)}


def text(rng, used, maxlines=6, maxlen=25, tabs=0.0, indent=0.4, minlines=1, blank=0.15, comb=0.05):
    """lines that share no visible character with a border, at least one of them not blank; None if impossible"""
    pr = gen.Profile(maxlines=maxlines, maxlen=maxlen, punct=rng.choice([0, 0.3]), indent=indent, comb=comb, trail=0.1,
                     tabs=tabs, blank=blank)
    for _ in range(20):
        lines = gen.text_lines(rng, pr, minlines)
        lines = [''.join(ch for ch in s if ch not in used) for s in lines]
        if any(s.strip() for s in lines):
            return lines
    return None


def design(rng, maxdim=3, stock_share=0.2, rules=False):
    """(design, is it a shipped one?)"""
    if rng.random() < stock_share:
        return rng.choice(STOCK()), True
    return gen.design(rng, maxdim=maxdim, alpha=rng.choice(BORDERS)), False


_s = []


def STOCK():
    if not _s:
        _s.extend(stock.usable())
    return _s


def common_indent(lines):
    return min([uni.indent_of(s) for s in lines if s.strip()] or [0])
