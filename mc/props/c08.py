"""C08: prohibited compounds."""
from . import contexts, kernels, ladders
from .common import *

DIRECTIVES = ('CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDTRIPLE', 'SIMPLIFIEDTRIPLE', 'CHECKCOMPOUNDCASE')


def triples(tier):
    """duplicated parts and triple letters, all combinations of directives"""
    stems = ['a', 'aa', 'b', 'ab', 'ba', 'bb', 'aab']
    for chosen in subsets(stems, 1, 3 if tier == 'quick' else 4):
        for on in subsets(DIRECTIVES[:3]):
            yield chosen, on


def run_triples(ctx, config):
    chosen, on = config
    compare(ctx, aff('COMPOUNDFLAG C', 'COMPOUNDMIN 1', *on), dic(*[s + '/C' for s in chosen]),
            lookups=words('ab', 6, 1))


def simplified(tier):
    """longer parts with a letter doubled at the joint"""
    lefts = ['glass', 'gla', 'glas', 'ss']
    rights = ['sko', 'ssko', 'ko', 'ss']
    for left in lefts:
        for right in rights:
            for on in subsets(DIRECTIVES[:3]):
                for flags in (('B', 'E'), ('C', 'C')):
                    yield left, right, on, flags


def run_simplified(ctx, config):
    left, right, on, (f1, f2) = config
    texts = {a + 's' * n + b for a in ('gla', '', 'glass') for b in ('ko', '', 'sko') for n in range(8)}
    compare(ctx, aff('COMPOUNDFLAG C', 'COMPOUNDBEGIN B', 'COMPOUNDEND E', 'COMPOUNDMIN 2', *on),
            dic(left + '/' + f1, right + '/' + f2),
            lookups=sorted(t for t in texts if t) + [left + right, right + left, left + left, left + right + right,
                                                     left + right[1:], left[:-1] + right, left + '-' + right])


def case(tier):
    """CHECKCOMPOUNDCASE"""
    for a in case_patterns('ab') + ['a1', '1b', 'a-', 'aß', 'É']:
        for b in case_patterns('cd') + ['1d', '-d', 'éd', 'Éd']:
            for on in ((), ('CHECKCOMPOUNDCASE',)):
                yield a, b, on


def run_case(ctx, config):
    a, b, on = config
    compare(ctx, aff('COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'BREAK 0', *on), dic(a + '/C', b + '/C'),
            lookups=sorted(set(case_patterns(a + b)) | set(case_patterns(b + a)) | {a + b, b + a, a + b + a, a + a}))


def rep(tier):
    """CHECKCOMPOUNDREP: prohibited when a replacement gives a listed or derived word"""
    extra = ['abcd', 'abxd', 'aycd', 'abcds', 'abxd/S', 'yycd', 'cd', 'abxdab']
    for rows in subsets(['c x', 'b y', 'bc bx', '^a y', 'd$ ds', 'bcd xd', 'ab yy'], 0, 2):
        for others in subsets(extra, 0, 2):
            for on in ((), ('CHECKCOMPOUNDREP',)):
                yield rows, others, on


def run_rep(ctx, config):
    rows, others, on = config
    parts = ['ab', 'cd', 'cds', 's']
    compare(ctx, aff('COMPOUNDFLAG C', 'COMPOUNDMIN 1', *on, rows and table('REP', rows), rule('SFX', 'S', '', 's', '.')),
            dic('ab/C', 'cd/CS', *others),
            lookups=sorted({x + y + z for x in parts for y in parts + [''] for z in parts + ['']}))


def pattern(tier):
    """CHECKCOMPOUNDPATTERN: endings and beginnings, flags"""
    tables = ['b c', 'b/X c', 'b c/Y', 'b/X c/Y', 'ab cd', 'ab/X cd/Y', 'd a', 'b d', '0 c', 'b/X 0/Y', '0/X c', 'ab cdx']
    for rows in subsets(tables, 1, 2):
        for f1 in ('', 'X', 'S', 'Z'):
            for f2 in ('', 'Y', 'S', 'Z'):
                yield rows, f1, f2


def run_pattern(ctx, config):
    rows, f1, f2 = config
    parts = ['ab', 'cd', 'cds', 'b', 'c', 'abs']
    compare(ctx, aff('COMPOUNDFLAG C', 'COMPOUNDMIN 1', table('CHECKCOMPOUNDPATTERN', rows), 'COMPOUNDPERMITFLAG P',
                     rule('SFX', 'S', '', 's', '.', 'P'), rule('SFX', 'Z', '', '', '.', 'PXY')),
            dic('ab/C' + f1, 'cd/C' + f2, 'b/C', 'c/C'),
            lookups=sorted({x + y + z for x in parts for y in parts for z in parts + ['']}))


def pattern_affixes(tier):
    """CHECKCOMPOUNDPATTERN with flags of affixes on either side of the joint"""
    for row in ('b/X c', 'b c/Y', 'bs/X c', 's/X c/Y', 'b pc/Y', 'b/X 0/Y', '0/X c/Y', 's p', 'bs/X pc/Y'):
        for s in ('', 'P', 'PX', 'PY', 'PXY', 'Y'):
            for p in ('', 'P', 'PX', 'PY', 'PXY', 'X'):
                for f in ('', 'X', 'Y'):
                    yield row, s, p, f


def run_pattern_affixes(ctx, config):
    row, s, p, f = config
    parts = ['ab', 'cd', 'abs', 'cds', 'pab', 'pcd', 'pcds', 'pabs']
    compare(ctx, aff('COMPOUNDFLAG C', 'COMPOUNDMIN 1', table('CHECKCOMPOUNDPATTERN', [row]), 'COMPOUNDPERMITFLAG P',
                     rule('SFX', 'S', '', 's', '.', s), rule('PFX', 'R', '', 'p', '.', p)),
            dic('ab/CSR' + f, 'cd/CSR' + f), lookups=sorted({x + y for x in parts for y in parts} | {'abscdab', 'abcdpcd'}))


def forceucase(tier):
    for a in subsets('US'):
        for b in subsets('US'):
            for s in ('', 'U'):
                for on in (True, False):
                    yield ''.join(a), ''.join(b), s, on


def run_forceucase(ctx, config):
    a, b, s, on = config
    texts = {x + y + z for x in ('ab', 'cd', 'cds', 'abs', 'e') for y in ('ab', 'cd', 'cds', 'abs', '1', '') for z in ('', 'ab', 'cd', '1')}
    compare(ctx, aff('COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'FORCEUCASE U' if on else '', rule('SFX', 'S', '', 's', '.', s)),
            dic('ab/C' + a, 'cd/C' + b, 'e/C', entry('1', 'C' + b)),
            lookups=sorted(texts | {t.capitalize() for t in texts} | {t.upper() for t in texts} | set(case_patterns('abcd'))))


def two_words(tier):
    """a listed pair of words prohibits the compound of the two"""
    pool = ['ab cd', 'cd ab', 'ab ab', 'abcd', 'ab cd/F', 'ab-cd', 'a bcd', 'ab cd ab', 'Ab cd', 'bcd', 'a', 'ab cds']
    for chosen in subsets(pool, 0, 3 if tier == 'quick' else 4):
        for rules in (False, True):
            yield chosen, rules


def run_two_words(ctx, config):
    chosen, rules = config
    parts = ['ab', 'cd', 'a', 'bcd', 'cds']
    texts = {x + y + z for x in parts for y in parts for z in ['', *parts]} | {'Abcd', 'ABCD', 'ab cd', 'Abcds'}
    head = table('COMPOUNDRULE', ['X*']) if rules else 'COMPOUNDFLAG X'
    compare(ctx, aff('COMPOUNDMIN 1', 'FORBIDDENWORD F', head, rule('SFX', 'S', '', 's', '.')),
            dic('ab/X', 'cd/XS', *[c + '/X' if c in ('a', 'bcd') else c for c in chosen]), lookups=sorted(texts))


def mixed(tier):
    """all directives together with rules and flags: parts split differently rescue the word"""
    stems = ['a', 'aa', 'ab', 'Ab', 'b', 'bb']
    for chosen in subsets(stems, 1, 3):
        for on in subsets(DIRECTIVES):
            for rules in ('COMPOUNDFLAG C', table('COMPOUNDRULE', ['C*']), 'both'):
                yield chosen, on, rules


def run_mixed(ctx, config):
    chosen, on, rules = config
    heads = ['COMPOUNDFLAG C', table('COMPOUNDRULE', ['CC?'])] if rules == 'both' else [rules]
    compare(ctx, aff('COMPOUNDMIN 1', *heads, *on), dic(*[s + '/C' for s in chosen]),
            lookups=sorted(set(words('ab', 5, 1)) | set(words('aAb', 4, 1))))


SPACES = [
    Space('triples', 'up to 3 (thorough 4) of 7 stems with repeated letters, every subset of DUP, TRIPLE, '
          'SIMPLIFIEDTRIPLE; all words over {a,b} up to 6', triples, run_triples),
    Space('simplified', 'double letters at the joint of longer parts, 0..7 letters s', simplified, run_simplified),
    Space('case', 'CHECKCOMPOUNDCASE with every case pattern of two parts', case, run_case),
    Space('rep', 'CHECKCOMPOUNDREP with up to 2 replacements and 2 listed words; words up to 3 parts', rep, run_rep),
    Space('pattern', 'CHECKCOMPOUNDPATTERN with up to 2 rows, flags on parts; words up to 3 parts', pattern, run_pattern),
    Space('pattern-affixes', '9 patterns with flags, every placement of the flags on affixes and stems of both parts', pattern_affixes,
          run_pattern_affixes),
    Space('forceucase', 'FORCEUCASE on stems and affixes; words up to 3 parts in three capitalizations', forceucase,
          run_forceucase),
    Space('two-words', 'up to 3 (4) of 12 listed pairs and rescuing splits; words up to 3 parts', two_words, run_two_words),
    Space('mixed', 'every subset of directives, stems over {a,A,b}, flags, rules or both; all words up to 5', mixed,
          run_mixed),
]
SPACES.append(contexts.lookup_space(kernels.C08, most=2))
SPACES.append(ladders.space(ladders.C08))
