#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md (between the two markers) from seeded/*/meta.json.

A note in seeded/<id>/meta.json under "note" says which check had to be strengthened before it caught the change."""
import json
import os

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    rows = ['| planted bug | caught by | what it needs | remark |', '|---|---|---|---|']
    base = os.path.join(TOP, 'seeded')
    for name in sorted(os.listdir(base)):
        m = json.load(open(os.path.join(base, name, 'meta.json')))
        prop = m['property'].split('-')[0]
        needs = ' '.join(m['needs'].split()).replace('|', '\\|')
        rows.append('| %s | %s | %s | %s |' % (name, ', '.join([m['property']] + m.get('also', [])), needs, m.get('note', '')))
    path = os.path.join(TOP, 'DESIGN.md')
    text = open(path).read()
    a, b = '<!-- seeds -->', '<!-- /seeds -->'
    head, rest = text.split(a, 1)
    tail = rest.split(b, 1)[1]
    open(path, 'w').write(head + a + '\n' + '\n'.join(rows) + '\n' + b + tail)
    print(len(rows) - 2, 'planted bugs')


if __name__ == '__main__':
    main()
