#!/usr/bin/env python3
"""Runs the check of the property of each planted bug on a copy of /repo with the bug.

    planted.py [--all] [ID...]       --all: every check, not only the one of the property

A development tool, no registered check uses it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AT_ONCE = int(os.environ.get('PLANTED_AT_ONCE', '4'))


def one(name, every):
    folder = os.path.join(VERIF, 'seeded', name)
    with open(os.path.join(folder, 'meta.json'), encoding='utf-8') as f:
        prop = json.load(f)['property']
    scratch = tempfile.mkdtemp(prefix='planted-')
    try:
        repo = os.path.join(scratch, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        applied = subprocess.run(['git', '-C', repo, 'apply', os.path.join(folder, 'patch.diff')], check=False)
        if applied.returncode:
            return name, prop, 'DOES NOT APPLY', []
        caught = []
        props = ['C%02d' % n for n in range(1, 100) if os.path.exists(os.path.join(VERIF, 'mc', 'props', 'c%02d.py' % n))]
        for p in props if every else [prop]:
            env = {**os.environ, 'VERIF_REPO': repo, 'VERIF_EVIDENCE': os.path.join(scratch, 'evidence'),
                   'VERIF_WORKERS': str(max(1, 8 // AT_ONCE))}
            out = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), p], capture_output=True, text=True, env=env, check=False)
            if out.returncode == 1 and 'VIOLATION property=' + p in out.stdout:
                caught.append(p)
            elif out.returncode:
                caught.append('%s:exit %s' % (p, out.returncode))
        return name, prop, 'caught' if prop in caught else 'MISSED', caught
    finally:
        shutil.rmtree(scratch)


def main(args):
    every = '--all' in args
    names = [a for a in args if a != '--all'] or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    with ThreadPoolExecutor(AT_ONCE) as pool:
        for res in pool.map(lambda n: one(n, every), names):
            print(*res, flush=True)


if __name__ == '__main__':
    main(sys.argv[1:])
