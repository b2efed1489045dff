#!/usr/bin/env python3
"""Writes SPACES.md from the evidence of a complete quick run."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    lines = ['# Spaces explored by the checks', '', 'Measured in a quick run with 8 workers; the evidence of each run has the numbers of that run.']
    for line in open(os.path.join(ROOT, 'properties.jsonl'), encoding='utf-8'):
        prop = json.loads(line)
        with open(os.path.join(os.environ.get('VERIF_EVIDENCE', os.path.join(ROOT, 'evidence')), prop['id'] + '.json'), encoding='utf-8') as f:
            evidence = json.load(f)
        lines += ['', '## %s %s' % (prop['id'], prop['title']), '', '| space | bound | configurations | states | seconds |', '|---|---|---|---|---|']
        for name, space in evidence['coverage']['spaces'].items():
            lines.append('| %s | %s | %d | %d | %.0f |' % (name, space['bounds'].replace('|', '\\|'), space['configurations'], space['states'],
                                                         space['seconds']))
    with open(os.path.join(ROOT, 'SPACES.md'), 'w', encoding='utf-8') as f:
        f.write('\n'.join(lines) + '\n')


if __name__ == '__main__':
    main()
