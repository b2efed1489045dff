"""C07: compounding by rules."""
import itertools

from . import contexts, kernels, ladders
from .common import *

QUANT = ('', '*', '?')


def rule_texts(most, flags='XYZ'):
    for n in range(1, most + 1):
        for letters in words(flags, n, n):
            for q in words(QUANT, n, n) if n == 1 else __import__('itertools').product(QUANT, repeat=n):
                yield tuple(zip(letters, q if not isinstance(q, str) else (q,)))


FORMATS = {
    'short': (lambda f: f, lambda tokens: ''.join(a + q for a, q in tokens), None),
    'long': (lambda f: f + '1', lambda tokens: ''.join('(%s1)%s' % t for t in tokens), 'FLAG long'),
    'num': (lambda f: str(ord(f) * 7), lambda tokens: ''.join('(%d)%s' % (ord(a) * 7, q) for a, q in tokens), 'FLAG num'),
    'bare-long': (lambda f: f + f.lower(), lambda tokens: ''.join('(%s)%s' % (a + a.lower(), q) for a, q in tokens),
                  'FLAG long'),
}


def flags(fmt, letters):
    one = FORMATS[fmt][0]
    return (',' if fmt == 'num' else '').join(one(f) for f in letters)


def one_rule(tier):
    """every rule up to three tokens"""
    for tokens in rule_texts(3):
        # XYZ names are interchangeable: keep rules whose flags appear in the order X, Y, Z
        order = [f for i, (f, _) in enumerate(tokens) if f not in [x for x, _ in tokens[:i]]]
        if order != sorted(order) or order[0] != 'X' or order == ['X', 'Z']:
            continue
        for fmt in FORMATS:
            for sets in (('X', 'Y', 'Z'), ('XY', 'Y', 'Z'), ('X', 'XZ', 'YZ')):
                yield tokens, fmt, sets


def run_one_rule(ctx, config):
    tokens, fmt, sets = config
    compare(ctx, aff(FORMATS[fmt][2], 'COMPOUNDMIN 1', table('COMPOUNDRULE', [FORMATS[fmt][1](tokens)])),
            dic(*[entry(s, flags(fmt, f)) for s, f in zip('abc', sets)], 'd'),
            lookups=list(words('abc', 4, 1)) + ['ad', 'da', 'dd', 'abd', 'A', 'Ab', 'AB', 'aB'])


def four(tier):
    """rules of four tokens over two flags"""
    for tokens in rule_texts(4, 'XY'):
        if len(tokens) == 4 and tokens[0][0] == 'X':
            yield tokens


def run_four(ctx, tokens):
    compare(ctx, aff('COMPOUNDMIN 1', table('COMPOUNDRULE', [FORMATS['short'][1](tokens)])),
            dic('a/X', 'b/Y', 'c/XY'), lookups=words('abc' if ctx.tier == 'thorough' else 'ab', 6, 1))


def two_rules(tier):
    short = list(rule_texts(2))
    for one in short:
        for two in short:
            if one < two and (tier == 'thorough' or len(one) + len(two) < 4 or
                              sum(1 for _, q in one + two if q) in (0, 2, 3)):
                yield one, two


def run_two_rules(ctx, config):
    compare(ctx, aff('COMPOUNDMIN 1', table('COMPOUNDRULE', [FORMATS['short'][1](t) for t in config])),
            dic('a/X', 'b/Y', 'c/Z'), lookups=words('abc', 3, 1))


def ambiguous(tier):
    """overlapping stems and homonyms with different flags"""
    pool = ['a/X', 'a/Y', 'ab/X', 'ab/Y', 'b/Y', 'b/XZ', 'ba/Z', 'aa/Y', 'a', 'b/Z']
    for entries in subsets(pool, 1, 4):
        for rules in (['XY'], ['X*Y'], ['XY?Z'], ['X', 'YZ'], ['XYZ', 'YX'], ['X*Z*']):
            yield entries, tuple(rules)


def run_ambiguous(ctx, config):
    entries, rules = config
    compare(ctx, aff('COMPOUNDMIN 1', table('COMPOUNDRULE', rules)), dic(*entries), lookups=words('ab', 5, 1))


def homonyms(tier):
    """three and four homonyms, each with one flag, in every order"""
    for flags in itertools.product(['X', 'Y', 'Z', 'O', ''], repeat=3):
        for rules in (['XY'], ['X*Y'], ['XY?Z'], ['X', 'YZ'], ['XYZ', 'YX']):
            yield flags, tuple(rules)
    for flags in itertools.permutations(['X', 'Y', 'Z', 'XZ', ''], 4 if tier == 'quick' else 5):
        yield flags, ('XYZ', 'ZZX')


def run_homonyms(ctx, config):
    flags, rules = config
    compare(ctx, aff('COMPOUNDMIN 1', 'ONLYINCOMPOUND O', table('COMPOUNDRULE', rules)), dic(*[entry('a', f) for f in flags], 'b/X', 'b/Y', 'c/Z'),
            lookups=words('abc', 3, 1))


def limits(tier):
    for least in (None, 1, 2, 3):
        for most in (None, 1, 2, 3, 4):
            for rules in (['XY'], ['X*Y'], ['X*'], ['XX?X?Y*'], ['XYXY'], ['X*Y*X*']):
                for both in (False, True):
                    yield least, most, tuple(rules), both


def run_limits(ctx, config):
    least, most, rules, both = config
    compare(ctx, aff(least and 'COMPOUNDMIN %d' % least, most and 'COMPOUNDWORDMAX %d' % most,
                     'COMPOUNDFLAG C' if both else '', 'CHECKCOMPOUNDDUP' if both else '', table('COMPOUNDRULE', rules)),
            dic('a/X', 'bb/Y' + ('C' if both else ''), 'ccc/X', 'dddd/XY'),
            lookups=[t for n in range(1, 5 if ctx.tier == 'quick' else 6) for t in words(['a', 'bb', 'ccc', 'dddd'], n, n)])


def marks(tier):
    """marks and affixes on stems used in rules"""
    for marks in subsets('ONFS'):
        for other in subsets('OS'):
            for rules in (['XY'], ['X*Y'], ['X', 'XX']):
                yield ''.join(marks), ''.join(other), tuple(rules)


def run_marks(ctx, config):
    m, other, rules = config
    compare(ctx, aff('COMPOUNDMIN 1', 'ONLYINCOMPOUND O', 'NEEDAFFIX N', 'FORBIDDENWORD F', table('COMPOUNDRULE', rules),
                     rule('SFX', 'S', '', 's', '.'), rule('SFX', 'T', '', 't', '.', 'X')),
            dic(entry('a', 'XT' + m), entry('b', 'Y' + other)), lookups=words('abst', 4, 1))


def numbers(tier):
    """the classic English use: ordinal numbers"""
    yield 'en'


def run_numbers(ctx, _config):
    digits = '0123456789'
    entries = [d + '/nm' for d in digits]
    entries = ['0/nm', '0th/pt', '1/n1', '1st/p', '1th/tc', '2/nm', '2nd/p', '2th/tc', '3/nm', '3rd/p', '3th/tc'] + \
        [d + '/nm' for d in '456789'] + [d + 'th/pt' for d in '456789']
    compare(ctx, aff('COMPOUNDMIN 1', 'ONLYINCOMPOUND c', table('COMPOUNDRULE', ['n*1t', 'n*mp'])), dic(*entries),
            lookups=[str(n) + e for n in list(range(1000)) + [1011, 1101, 2112, 10013] for e in ('th', 'st', 'nd', 'rd', '')])


def ladder(tier):
    for n in range(1, 25 if tier == 'quick' else 61):
        for rules in (['X*Y'], ['XX*Y?'], ['X?X?X?X?X?X?X?X?Y'], ['X*', 'Y*X']):
            yield n, tuple(rules)


def run_ladder(ctx, config):
    n, rules = config
    compare(ctx, aff('COMPOUNDMIN 1', table('COMPOUNDRULE', rules)), dic('a/X', 'b/Y'),
            lookups=['a' * n, 'a' * n + 'b', 'b' + 'a' * n, 'a' * n + 'bb', 'a' * n + 'ba', 'b' * n])


SPACES = [
    Space('one-rule', 'every rule up to 3 tokens with quantifiers, up to renaming of flags, 4 flag notations, 3 '
          'assignments of flags to stems; all words over 3 stems up to 4 parts', one_rule, run_one_rule),
    Space('four-tokens', 'every rule of 4 tokens over 2 flags; words up to 6 parts', four, run_four),
    Space('two-rules', 'pairs of rules up to 2 tokens; words up to 3 parts', two_rules, run_two_rules),
    Space('ambiguous', 'up to 4 of 10 overlapping stems and homonyms, 6 rule lists; words over {a,b} up to 5', ambiguous,
          run_ambiguous),
    Space('homonyms', 'three homonyms with each of 5 flags, four (five) in every order, 6 rule lists; words over {a,b,c} up to 3', homonyms, run_homonyms),
    Space('limits', 'COMPOUNDMIN, COMPOUNDWORDMAX, mix with COMPOUNDFLAG; words up to 4 (5) parts', limits, run_limits),
    Space('marks', 'marks and affixes on the stems of rules', marks, run_marks),
    Space('numbers', 'the English ordinal rules, numbers 0..999 with every ending', numbers, run_numbers),
    Space('ladder', 'words of up to 24 (60) parts', ladder, run_ladder),
]
SPACES.append(contexts.lookup_space(kernels.C07))
SPACES.append(ladders.space(ladders.C07))
