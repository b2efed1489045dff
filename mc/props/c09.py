"""C09: break points and numbers."""
from . import contexts, kernels, ladders
from .common import *


def tables(tier):
    """break tables"""
    pool = ['-', '^-', '-$', '.', '^.', '.$', '--', 'x', '^x', '–']
    yield None, None
    yield 0, None
    for rows in subsets(pool, 1, 3 if tier == 'quick' else 4):
        if '-' in rows and '--' in rows:
            continue        # overlapping matches of one another are covered by the space "dashes"
        yield len(rows), rows


def run_tables(ctx, config):
    count, rows = config
    head = '' if count is None else 'BREAK 0' if count == 0 else table('BREAK', rows)
    compare(ctx, aff(head), dic('a', 'b', 'a-b', 'x', 'ax', '.a'), lookups=words('a-.x', 4 if ctx.tier == 'quick' else 5, 1))


def dashes(tier):
    """default table: which parts and which hyphenated words are listed"""
    pool = ['a', 'b', 'a-b', 'b-a', '-a', 'a-', 'a-a-b', '-', 'a--b', 'ab']
    for entries in subsets(pool, 1, 4 if tier == 'quick' else 6):
        yield entries


def run_dashes(ctx, entries):
    compare(ctx, aff(), dic(*entries), lookups=words('ab-', 5, 1))


def casing(tier):
    for a in case_patterns('ab'):
        for b in case_patterns('c'):
            for flags in ('', 'K', 'N', 'F', 'O', 'S', 'C'):
                yield a, b, flags


def run_casing(ctx, config):
    a, b, flags = config
    texts = set(case_patterns('ab-c')) | set(case_patterns('c-ab')) | set(case_patterns('-ab')) | set(case_patterns('abs-c')) | \
        set(case_patterns('cab-ab-')) | set(case_patterns('ab-c-ab'))
    compare(ctx, aff('KEEPCASE K', 'NEEDAFFIX N', 'FORBIDDENWORD F', 'ONLYINCOMPOUND O', 'COMPOUNDFLAG C', 'COMPOUNDMIN 1',
                     rule('SFX', 'S', '', 's', '.')), dic(entry(a, flags), entry(b, 'C')), lookups=sorted(texts))


def chains(tier):
    """up to and beyond the limit on cuts"""
    for n in range(0, 16 if tier == 'quick' else 30):
        for entries in (('a',), ('a', 'a-a'), ('a-a',), ('a', 'b'), ('a', 'a-a-a')):
            yield n, entries


def run_chains(ctx, config):
    n, entries = config
    base = '-'.join(['a'] * (n + 1))
    compare(ctx, aff(), dic(*entries),
            lookups=[base, '-' + base, base + '-', base + '-b', 'b-' + base, base + '-x', 'x-' + base, base + '--a',
                     'a-x-' + base, '-' * n, '-' * n + 'a', 'a' + '-' * n, 'A-' + base, base.upper()])


def numbers(tier):
    for entries in (('a',), ('1',), ('1a', '2'), ('a/F',), ('1/F',)):
        for head in ('', 'BREAK 0', table('BREAK', ['.'])):
            for flag in ('', 'COMPOUNDFLAG C'):
                yield entries, head, flag


def run_numbers(ctx, config):
    entries, head, flag = config
    compare(ctx, aff('FORBIDDENWORD F', head, flag), dic(*entries),
            lookups=list(words('12.,-a', 4, 1)) + ['0', '007', '123456789012345678901234567890', '1.5', '1.', '.5', '1..5',
                                                    '1.2.3', '1,5', '1 5', '+1', '-1', '1e5', '٣', '²', '1.5a', 'a1.5', '１'])


def conversions(tier):
    """break points combined with conversion and ignored characters"""
    for head in (table('ICONV', ['_ -']), table('ICONV', ['– -']), 'IGNORE ~', table('ICONV', ['- x'])):
        for brk in ('', 'BREAK 0', table('BREAK', ['–', '-'])):
            yield head, brk


def run_conversions(ctx, config):
    compare(ctx, aff(*config), dic('a', 'b', 'axb'), lookups=words(['a', 'b', '-', '–', '~'], 4, 1))


SPACES = [
    Space('tables', 'default, empty and every BREAK table of up to 3 (thorough 4) of 10 patterns; all words over '
          '{a,-,.,x} up to 4 (5)', tables, run_tables),
    Space('dashes', 'up to 4 (6) of 10 entries with and without hyphens; all words over {a,b,-} up to 5', dashes,
          run_dashes),
    Space('casing', 'marks and capitalizations of parts', casing, run_casing),
    Space('chains', 'chains of 0..15 (29) break points', chains, run_chains),
    Space('numbers', 'all words over {1,2,.,comma,-,a} up to 4, other number-like texts', numbers, run_numbers),
    Space('conversions', 'break points with ICONV and IGNORE', conversions, run_conversions),
]
SPACES.append(contexts.lookup_space(kernels.C09))
SPACES.append(ladders.space(ladders.C09))
