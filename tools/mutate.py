#!/usr/bin/env python3
"""Measures the checks with generated changes of the library.

    mutate.py make FOLDER            generate mutants of /repo, keep those the existing tests do not notice
    mutate.py run FOLDER [N]         run the checks on the kept ones (N at a time), stop at the first that objects
    mutate.py report FOLDER          summary

A development tool: works on copies below FOLDER, no registered check uses it."""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BASE = 'spylls/hunspell/'
FILES = ['dictionary.py', 'algo/capitalization.py', 'algo/lookup.py', 'algo/ngram_suggest.py', 'algo/permutations.py',
         'algo/phonet_suggest.py', 'algo/string_metrics.py', 'algo/suggest.py', 'algo/trie.py', 'data/aff.py', 'data/dic.py',
         'readers/aff.py', 'readers/dic.py', 'readers/file_reader.py']

#: checks in the order they are tried, by file
ORDER = {
    'dictionary.py': 'C27 C20 C22 C25 C26',
    'algo/capitalization.py': 'C03 C04 C11 C25 C12 C14 C18 C02 C24',
    'algo/lookup.py': 'C25 C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C21 C28 C11 C12 C13 C18 C24 C22 C23 C19 C26',
    'algo/ngram_suggest.py': 'C15 C11 C12 C18 C24 C28 C22 C26',
    'algo/permutations.py': 'C13 C14 C17 C12 C11 C08 C18 C24 C26',
    'algo/phonet_suggest.py': 'C16 C11 C12 C18 C24 C26',
    'algo/string_metrics.py': 'C15 C16 C11 C12 C18',
    'algo/suggest.py': 'C11 C12 C13 C14 C17 C18 C15 C16 C10 C05 C22 C24 C23 C26',
    'algo/trie.py': 'C01 C28 C25 C19 C26',
    'data/aff.py': 'C01 C07 C08 C09 C10 C19 C20 C13 C14 C16 C17 C06 C11 C24 C26',
    'data/dic.py': 'C04 C05 C03 C02 C21 C14 C28 C11 C06 C20',
    'readers/aff.py': 'C19 C20 C21 C01 C10 C13 C16 C24 C26',
    'readers/dic.py': 'C21 C20 C19 C14 C17 C28 C24 C26',
    'readers/file_reader.py': 'C20 C27 C19 C24 C26',
}

COMPARE = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt],
           ast.GtE: [ast.Gt], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}


def replacements(node):
    """Nodes to put instead of this one."""
    def changed(**kw):
        new = copy.deepcopy(node)
        for k, v in kw.items():
            setattr(new, k, v)
        return new

    if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
            for other in COMPARE[type(op)]:
                yield changed(ops=node.ops[:i] + [other()] + node.ops[i + 1:])
    elif isinstance(node, ast.BoolOp):
        yield changed(op=ast.Or() if isinstance(node.op, ast.And) else ast.And())
        for i in range(len(node.values)):
            rest = node.values[:i] + node.values[i + 1:]
            yield rest[0] if len(rest) == 1 else changed(values=rest)
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield node.operand
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        yield node.operand
    elif isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
        yield changed(op=ast.Sub() if isinstance(node.op, ast.Add) else ast.Add())
        yield node.left
        yield node.right
    elif isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Mult, ast.FloorDiv, ast.Div)):
        yield node.left
    elif isinstance(node, ast.Constant):
        if isinstance(node.value, bool):
            yield ast.Constant(not node.value)
        elif isinstance(node.value, int):
            yield ast.Constant(node.value + 1)
            if node.value > 0:
                yield ast.Constant(node.value - 1)
        elif isinstance(node.value, str):
            if node.value:
                yield ast.Constant('')
                if len(node.value) > 1:
                    yield ast.Constant(node.value[1:])
                    yield ast.Constant(node.value[:-1])
            else:
                yield ast.Constant('a')
    elif isinstance(node, (ast.If, ast.While)):
        yield changed(test=ast.Constant(False))
        if isinstance(node, ast.If):
            yield changed(test=ast.Constant(True))
    elif isinstance(node, ast.IfExp):
        yield node.body
        yield node.orelse
    elif isinstance(node, ast.Continue):
        yield ast.Break()
        yield ast.Pass()
    elif isinstance(node, ast.Break):
        yield ast.Continue()
        yield ast.Pass()
    elif isinstance(node, ast.Expr) and not isinstance(node.value, ast.Constant):
        yield ast.Pass()
    elif isinstance(node, (ast.AugAssign,)):
        yield ast.Pass()
    elif isinstance(node, ast.Return) and node.value is not None:
        yield ast.Pass()
    elif isinstance(node, ast.Slice):
        if node.lower is not None:
            yield changed(lower=None)
        if node.upper is not None:
            yield changed(upper=None)
        if node.step is not None:
            yield changed(step=None)
    elif isinstance(node, ast.Call):
        for i in range(len(node.keywords)):
            yield changed(keywords=node.keywords[:i] + node.keywords[i + 1:])
        if len(node.args) > 1:
            yield changed(args=node.args[:-1])
        if isinstance(node.func, ast.Attribute) and node.func.attr in ('lower', 'upper', 'strip', 'rstrip', 'lstrip', 'capitalize') \
                and not node.args:
            yield node.func.value
        if isinstance(node.func, ast.Name) and node.func.id in ('sorted', 'reversed', 'set', 'list', 'any', 'all') and node.args:
            if node.func.id in ('any', 'all'):
                yield changed(func=ast.Name('all' if node.func.id == 'any' else 'any', ast.Load()))
            else:
                yield node.args[0]
    elif isinstance(node, (ast.List, ast.Tuple, ast.Set)) and len(node.elts) > 1 and isinstance(getattr(node, 'ctx', ast.Load()), ast.Load):
        for i in range(len(node.elts)):
            yield changed(elts=node.elts[:i] + node.elts[i + 1:])
    elif isinstance(node, ast.comprehension) and node.ifs:
        for i in range(len(node.ifs)):
            yield changed(ifs=node.ifs[:i] + node.ifs[i + 1:])


SKIP = {'__repr__', '__str__'}


def sites(tree):
    """(holder, field, index, node) in execution code: no annotations, docstrings, imports or representations."""
    def walk(node):
        for field, value in ast.iter_fields(node):
            if field in ('annotation', 'returns', 'decorator_list', 'type_comment'):
                continue
            for i, child in enumerate(value if isinstance(value, list) else [value]):
                if not isinstance(child, ast.AST) or isinstance(child, (ast.Import, ast.ImportFrom, ast.JoinedStr)):
                    continue
                if isinstance(child, ast.FunctionDef) and child.name in SKIP:
                    continue
                if isinstance(child, ast.Expr) and isinstance(child.value, ast.Constant):
                    continue
                if isinstance(child, ast.Raise):
                    continue
                yield node, field, i if isinstance(value, list) else None, child
                yield from walk(child)
    yield from walk(tree)


def mutants(text):
    """(line, what, text)"""
    tree = ast.parse(text)
    seen = {ast.unparse(tree)}
    for holder, field, index, node in list(sites(tree)):
        for new in replacements(node):
            old = ast.unparse(node) if not isinstance(node, ast.comprehension) else 'comprehension'
            if index is None:
                setattr(holder, field, new)
            else:
                getattr(holder, field)[index] = new
            try:
                res = ast.unparse(ast.fix_missing_locations(tree))
                shown = ast.unparse(new) if not isinstance(new, ast.comprehension) else 'without condition'
            except Exception:       # pylint: disable=broad-except
                res = None
            if index is None:
                setattr(holder, field, node)
            else:
                getattr(holder, field)[index] = node
            if res is None or res in seen:
                continue
            seen.add(res)
            yield getattr(node, 'lineno', getattr(holder, 'lineno', 0)), '%s  =>  %s' % (old[:150], shown[:150]), res


def sh(command, timeout, **kw):
    try:
        p = subprocess.run(command, capture_output=True, text=True, timeout=timeout, **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -1, ''


def copy_of(folder, name, file, text):
    path = os.path.join(folder, 'copies', name)
    shutil.rmtree(path, ignore_errors=True)
    shutil.copytree(REPO, path, ignore=shutil.ignore_patterns('.git', 'docs', '__pycache__', 'data_', '*.egg-info'), symlinks=True)
    with open(os.path.join(path, BASE, file), 'w', encoding='utf-8') as f:
        f.write(text)
    return path


def tests_pass(path):
    env = {**os.environ, 'LC_ALL': 'C.UTF-8', 'PYTHONUTF8': '1', 'PYTHONHASHSEED': '0', 'PYTHONPATH': path, 'PYTHONDONTWRITEBYTECODE': '1'}
    with open('/opt/vp/BASELINE.json', encoding='utf-8') as f:
        stable = set(json.load(f)['stable'])
    ok = set()
    for kind in ('lookup', 'suggest'):
        out = os.path.join(path, 'out.' + kind)
        sh(['/opt/venv/bin/python', '/opt/vp/run_integrational.py', 'tests/integrational/test_%s.py' % kind, out], 60, cwd=path, env=env)
        if os.path.exists(out):
            with open(out, encoding='utf-8') as f:
                ok |= {line.split(None, 1)[1].strip() for line in f if line.startswith('PASS')}
    return not stable - ok


def make(folder):
    os.makedirs(folder, exist_ok=True)
    jobs = []
    for file in FILES:
        with open(os.path.join(REPO, BASE, file), encoding='utf-8') as f:
            for n, (line, what, text) in enumerate(mutants(f.read())):
                jobs.append(('%s-%d' % (file.replace('/', '.'), n), file, line, what, text))
    print(len(jobs), 'mutants')

    def one(job):
        name, file, line, what, text = job
        path = copy_of(folder, name, file, text)
        try:
            if tests_pass(path):
                with open(os.path.join(folder, name + '.json'), 'w', encoding='utf-8') as f:
                    json.dump(dict(name=name, file=file, line=line, what=what, text=text), f)
                return 1
            return 0
        finally:
            shutil.rmtree(path, ignore_errors=True)
    with ThreadPoolExecutor(8) as pool:
        print(sum(pool.map(one, jobs)), 'not noticed by the tests')


def run(folder, at_once=4):
    names = sorted(n for n in os.listdir(folder) if n.endswith('.json'))

    def one(fname):
        full = os.path.join(folder, fname)
        with open(full, encoding='utf-8') as f:
            m = json.load(f)
        if 'killed' in m:
            return
        path = copy_of(folder, m['name'], m['file'], m['text'])
        m['killed'], m['errors'] = None, []
        for prop in ORDER[m['file']].split():
            env = {**os.environ, 'VERIF_REPO': path, 'VERIF_EVIDENCE': os.path.join(path, 'evidence'),
                   'VERIF_WORKERS': str(max(1, 8 // at_once)), 'VERIF_BUDGET': os.environ.get('MUTATE_BUDGET', '120')}
            code, out = sh([sys.executable, os.path.join(VERIF, 'check.py'), prop], 600, env=env)
            if code == 1 and 'VIOLATION property=' + prop in out:
                m['killed'] = prop
                m['how'] = out[out.index('VIOLATION'):][:400]
                break
            if code != 0:
                m['errors'].append((prop, code, out[-600:]))
        with open(full, 'w', encoding='utf-8') as f:
            json.dump(m, f)
        shutil.rmtree(path, ignore_errors=True)
        print(m['name'], m['line'], m['what'], '->', m['killed'] or 'SURVIVES', 'ERRORS' if m['errors'] else '', flush=True)
    with ThreadPoolExecutor(at_once) as pool:
        list(pool.map(one, names))


def report(folder):
    rows = []
    for n in sorted(os.listdir(folder)):
        if n.endswith('.json'):
            with open(os.path.join(folder, n), encoding='utf-8') as f:
                rows.append(json.load(f))
    done = [m for m in rows if 'killed' in m]
    print('%d kept, %d run, %d objected to' % (len(rows), len(done), sum(bool(m['killed']) for m in done)))
    for m in sorted(done, key=lambda m: (m['file'], m['line'])):
        if not m['killed']:
            print('%s:%s %s' % (m['file'], m['line'], m['what'].replace('\n', ' ')), [e[:2] for e in m['errors']] or '')


if __name__ == '__main__':
    {'make': make, 'run': run, 'report': report}[sys.argv[1]](sys.argv[2], *map(int, sys.argv[3:]))
