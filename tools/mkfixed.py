#!/usr/bin/env python3
"""Writes the 'fixed:' lines of known_findings.txt from the fix: commits in /repo (keeps KNOWN-FINDING lines)."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [('Of several resets', 'C16'), ('Resets of bold', 'C16'), ('Resets with several', 'C16'), ('Indentation of more than 16384', 'C12'), ('beyond the range of Unicode', 'C15'), ('measurement buffer', 'C01'), ('incomplete escape', 'C26'), ('u32_insert_space_at', 'C26'), ('illegal characters', 'C01'),
       ('illegal character in', 'C01'), ('endless loop', 'C02'), ('large padding', 'C01'), ('command line design definition', 'C01'),
       ('NULL strings', 'C26'), ('match both top', 'C01'), ('left and right side overlap', 'C01'), ('line has no characters', 'C01'),
       ('design is autodetected', 'C10'), ('debug log messages', 'C24'), ('sample block contains NUL', 'C01'),
       ('consecutive escape', 'C16'), ('bxs_ltrim', 'C26'), ('double-width blanks', 'C03'), ('all-blank string', 'C26'),
       ('uppercase letters', 'C17'), ('southwest corner', 'C05'), ('ELASTIC', 'C17'), ('SAMPLE or SHAPES', 'C17'),
       ('padding specification', 'C22'), ('trailing garbage', 'C22'), ('tab stop distance', 'C22'), ('-k argument', 'C22'),
       ('read errors', 'C23'), ('write the output', 'C23'), ("tab mode 'keep'", 'C13'), ('tabs after double', 'C13'),
       ('ended in CRLF', 'C14'), ('bxs_append_spaces', 'C26'), ('aligning right', 'C07'), ('small requested', 'C06'),
       ('printed on removal', 'C16'), ('indentation was doubled', 'C08'), ('default padding from', 'C08'),
       ('blank line of the left', 'C08'), ('A blank left side could cut', 'C28'), ('restored as indentation', 'C08'), ('resembles another', 'C08'), ('text in front of something', 'C28'), ('were trimmed was matched', 'C08'),
       ('mended box', 'C09'),
       ('open top or bottom', 'C10'), ('blank lines around a box', 'C10'), ('shape line when detecting a colored', 'C01'),
       ('configuration file that contains NUL', 'C01'), ('token in the configuration file is longer', 'C01'),
       ('replacement rules shortened', 'C11'), ('do not exist in the output encoding', 'C15'),
       ('rejected on the last line of a config', 'C17'), ('SAMPLE block was cut off', 'C17'), ('byte order mark', 'C17'),
       ('ill-formed name of a box', 'C17'), ('without a config file', 'C27'),
       ('kept the tab handling', 'C22'), ('part of a cycle of parents', 'C18'), ('directory as parent config', 'C18'),
       ('its config file could not be read', 'C23'), ('terminal type was unknown', 'C02'), ('about an illegal character was not printed', 'C02'), ('only begin with the word', 'C20')]
try:
    exec(open(os.path.join(V, 'tools', 'fixmap_extra.py')).read())
except FileNotFoundError:
    pass
out = ['# Genuine defects found by the checks. "KNOWN-FINDING property=<id> key=<key> :: <what fails>" are still there and',
       '# reported as such; "fixed:" entries were repaired in /repo and suppress nothing.']
p = os.path.join(V, 'known_findings.txt')
if os.path.exists(p):
    out += [l.rstrip('\n') for l in open(p) if l.startswith('KNOWN-FINDING ')]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix:'):
        ids = [i for k, i in MAP if k in s]
        if len(ids) != 1:
            print('??', ids, s)
        out.append('fixed: property=%s %s %s' % (ids[0] if ids else '??', h, s[5:]))
open(p, 'w').write('\n'.join(out) + '\n')
