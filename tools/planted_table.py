#!/usr/bin/env python3
"""Rewrites the list of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '## Planted bugs and the checks that catch them'


def main():
    path = os.path.join(ROOT, 'DESIGN.md')
    with open(path, encoding='utf-8') as f:
        text = f.read().split(HEAD)[0].rstrip()
    lines = [text, '', HEAD, '', 'Each is caught by the check of its property (last column); `tools/planted.py --all` shows the others that object.', '',
             '| id | needs | breaks | caught by |', '|---|---|---|---|']
    for name in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        with open(os.path.join(ROOT, 'seeded', name, 'meta.json'), encoding='utf-8') as f:
            meta = json.load(f)
        lines.append('| %s | %s | %s | %s |' % (name, *[meta[k].replace('|', '\\|').replace('\n', ' ') for k in ('needs', 'what_it_breaks', 'property')]))
    with open(path, 'w', encoding='utf-8') as f:
        f.write('\n'.join(lines) + '\n')


if __name__ == '__main__':
    main()
