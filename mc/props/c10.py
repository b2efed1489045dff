"""C10: ICONV and IGNORE."""
import itertools

from . import contexts, kernels, ladders
from .common import *
from ..ref import convert

PATTERNS = ('a', 'ab', 'b', 'aba', '_a', 'a_', '_a_', 'bb', '_ab')
TARGETS = ('b', 'a', '0', 'bb', 'c')


def tables(tier):
    """pairs of conversion rows"""
    rows = [(p, t) for p in PATTERNS for t in TARGETS if p != t]
    for row in rows:
        yield (row,)
    for one, two in itertools.combinations(rows, 2):
        if one[0] != two[0]:
            yield one, two


def run_tables(ctx, config):
    rows = [p + ' ' + t for p, t in config]
    texts = [t for t in words('abc', 3 if ctx.tier == 'quick' else 4, 1)]
    entries = [t for t in words('abc', 3, 1) if (len(t) + t.count('b')) % 2]
    compare(ctx, aff(table('ICONV', rows)), dic(*entries), lookups=texts)


def relation(tier):
    """lookup with ICONV is lookup of the converted word without it"""
    rows = [(p, t) for p in PATTERNS[:7] for t in TARGETS[:3] if p != t]
    for three in itertools.combinations(rows, 3):
        if len({p for p, _ in three}) == 3 and (tier == 'thorough' or len({t for _, t in three}) == 2):
            yield three


def run_relation(ctx, config):
    entries = [t for t in words('ab', 3, 1) if t.count('a') % 2]
    pairs = list(config)
    d = ctx.load(aff(table('ICONV', [p + ' ' + t for p, t in config])), dic(*entries))
    plain = ctx.load(aff(), dic(*entries), 'plain')
    for text in words('ab', 4, 1):
        converted = convert(pairs, text)
        expected = ctx.lookup(plain, converted)
        got = ctx.lookup(d, text)
        if got != expected:
            ctx.fail('lookup with ICONV differs from lookup of the converted word ' + converted, expected, got)


def literal(tier):
    """special characters in conversions are literal"""
    chars = ['.', '*', '[', ']', '(', ')', '\\', '^', '$', '|', '?', '+', '{', "'", '’', 'é', 'é', '-', '\\d', '\\1']
    for c in chars:
        for target in ('x', '.', '\\', '\\1', '$', 'é', '0', '_', 'x_', '_x', 'x_b'):
            for pattern in (c, c + 'a', 'a' + c, '_' + c, c + '_'):
                yield pattern, target


def run_literal(ctx, config):
    pattern, target = config
    c = pattern.strip('_').replace('a', '') or 'a'
    texts = {x + y + z for x in ('', 'a', c, 'x') for y in (c, 'a', target, '1', 'd') for z in ('', 'a', c, 'b')}
    entries = ['a', 'aa', 'x', 'ax', 'xa', 'axb', 'ab', 'xx', target.replace('_', ' ') if target not in ('0', '_') else 'y', 'a b', 'a x', 'x a', 'ax b', 'ax a']
    compare(ctx, aff('BREAK 0', table('ICONV', [pattern + ' ' + target])), dic(*entries),
            lookups=sorted(t for t in texts if t))


def ignore(tier):
    """ignored characters in stems, affixes and input"""
    for chars in ('~', '~^', "'", 'a', '-', 'ab'):
        for stem in ('ab', 'a~b', "a'b", '~ab', 'ab~', 'a-b', 'a^~b'):
            for add in ('s', '~s', 's~', "'s", 'a', '-s'):
                yield chars, stem, add


def run_ignore(ctx, config):
    chars, stem, add = config
    base = {p + stem + s for p in ('', 'p') for s in ('', add, add + add)}
    texts = set(base)
    for t in base:
        clean = ''.join(c for c in t if c not in chars)
        texts.add(clean)
        for i in range(len(clean) + 1):
            for c in chars + '~':
                texts.add(clean[:i] + c + clean[i:])
                texts.add(clean[:i] + c + c + clean[i:])
        texts.add(chars[0].join(clean))
    compare(ctx, aff('IGNORE ' + chars, rule('SFX', 'S', '', add, '.'), rule('PFX', 'P', '', 'p~' if '~' in chars else 'p', '.')),
            dic(entry(stem, 'SP'), 'b'), lookups=sorted(t for t in texts if t))


def ignore_relation(tier):
    """insertion or removal of ignored characters changes nothing"""
    for entries in subsets(['ab', 'a~b', 'b~a/S', 'ba', '~a', 'Ab', 'b'], 1, 3):
        for add in ('a', '~a', 'a~'):
            yield entries, add


def run_ignore_relation(ctx, config):
    entries, add = config
    d = ctx.load(aff('IGNORE ~', rule('SFX', 'S', '', add, '.')), dic(*entries))
    strip = [e.replace('~', '') for e in entries]
    plain = ctx.load(aff(rule('SFX', 'S', '', add.replace('~', ''), '.')), dic(*strip), 'plain')
    for text in words('abA~', 4, 1):
        if not text.replace('~', ''):
            continue
        expected = ctx.lookup(plain, text.replace('~', ''))
        got = ctx.lookup(d, text)
        if got != expected:
            ctx.fail('an ignored character changes the answer', expected, got)


def both(tier):
    for rows in (['~ b'], ['b ~'], ['a~ b'], ['_~ a', '~_ b'], ['ab ~b']):
        for entries in subsets(['ab', 'b', 'a~b', 'ba', 'bb'], 1, 3):
            yield tuple(rows), entries


def run_both(ctx, config):
    rows, entries = config
    compare(ctx, aff(table('ICONV', rows), 'IGNORE ~'), dic(*entries), lookups=[t for t in words('ab~', 4, 1)])


def cases(tier):
    """conversions in other capitalizations are literal: no case folding"""
    for p in ('a', 'A', 'ab', 'Ab'):
        for t in ('c', 'C', 'cd', 'Cd'):
            for stem in ('c', 'C', 'cb', 'Cb', 'cd', 'CD', 'ab'):
                yield p, t, stem


def run_cases(ctx, config):
    p, t, stem = config
    compare(ctx, aff(table('ICONV', [p + ' ' + t])), dic(stem), lookups=sorted(
        set(case_patterns('ab')) | set(case_patterns('aab')) | set(case_patterns('c')) | set(case_patterns('cd')) |
        set(case_patterns('cb')) | set(case_patterns('a'))))


SPACES = [
    Space('tables', 'one and two rows from 9 patterns (with anchors) x 5 targets; all words over {a,b,c} up to 3 '
          '(thorough 4)', tables, run_tables),
    Space('relation', 'three rows: lookup equals plain lookup of the converted word; all words over {a,b} up to 4',
          relation, run_relation),
    Space('literal', 'special characters in patterns and replacements', literal, run_literal),
    Space('cases', 'conversion of letters in either case', cases, run_cases),
    Space('ignore', 'ignored characters in stem, affix and every position of the word', ignore, run_ignore),
    Space('ignore-relation', 'entries with ignored characters against the cleaned dictionary; all words over {a,b,A,~} '
          'up to 4', ignore_relation, run_ignore_relation),
    Space('both', 'conversion together with ignored characters; all words over {a,b,~} up to 4', both, run_both),
]
SPACES.append(contexts.lookup_space(kernels.C10))
SPACES.append(ladders.space(ladders.C10))
