"""C14: capitalization of suggestions, OCONV, FORCEUCASE."""
from . import contexts, kernels, ladders
from .common import *

QUIET = 'MAXNGRAMSUGS 0'


def misspellings(base):
    return sorted(set(case_patterns(base)))


def cases(tier):
    pool = [s + f for s in ('abc', 'Abc', 'ABC', 'aBc', 'abC') for f in ('', '/K', '/F')]
    yield from subsets(pool, 1, 2 if tier == 'quick' else 3)


def run_cases(ctx, chosen):
    compare(ctx, aff(QUIET, 'KEEPCASE K', 'FORBIDDENWORD F', 'TRY abc'), dic(*chosen),
            suggests=misspellings('abbc') + misspellings('ab') + misspellings('acb') + misspellings('abd'), order=False)


def ngram_case(tier):
    """the same for n-gram, phonetic, dash and two-word suggestions"""
    pool = [s + f for s in ('permanent', 'Permanent', 'PERMANENT', 'perManent', 'cat') for f in ('', '/K', '/F', '/S')]
    for chosen in subsets(pool, 1, 2 if tier == 'quick' else 3):
        yield chosen


def run_ngram_case(ctx, chosen):
    texts = ['permenant', 'Permenant', 'PERMENANT', 'perMenant', 'PerMenant', 'prmnent', 'PRMNENT', 'Prmnent', 'catpermanent',
             'Catpermanent', 'CATPERMANENT', 'catPermanent', 'CatPermanent', 'cat-permannet', 'Cat-permannet', 'CAT-PERMANNET',
             'cat-Permannet', 'catpermanents', 'PERMENANTS', 'Permenants']
    compare(ctx, aff('KEEPCASE K', 'FORBIDDENWORD F', rule('SFX', 'S', '', 's', '.'),
                     table('PHONE', ['P P', 'R R', 'M M', 'N N', 'T T', 'E 0', 'A 0'])), dic(*chosen), suggests=texts, order=False)


def two_words(tier):
    pool = ['ab', 'cd', 'Cd', 'ab/K', 'cd/K', 'CD', 'ab cd', 'Ab', 'cd/F', 'ab Cd']
    yield from subsets(pool, 1, 3)


def run_two_words(ctx, chosen):
    compare(ctx, aff(QUIET, 'KEEPCASE K', 'FORBIDDENWORD F', table('REP', ['x _']), 'TRY a'), dic(*chosen),
            suggests=misspellings('abcd') + ['abxcd', 'Abxcd', 'ABXCD', 'abXcd', 'abxCd', 'aBxcD'], order=False)


def oconv(tier):
    """output conversion of every kind of suggestion"""
    for rows in (['a 4'], ['ab x', 'b y'], ['_a x', 'a_ y'], ["' ’"], ['a aa'], ['  _'.strip() + ' z'] if False else ['c C'],
                 ['A q', 'a a'], ['per x'], ['. !']):
        for chosen in subsets(['abc', 'Abc', "a'c", 'cab', 'permanent', 'abc cab'], 1, 3):
            yield tuple(rows), chosen


def run_oconv(ctx, config):
    rows, chosen = config
    compare(ctx, aff('TRY abc', table('OCONV', rows), table('REP', ['x b'])), dic(*chosen),
            suggests=['abbc', 'ABBC', 'Abbc', 'axc', 'acb', "ac'", 'abccab', 'permenant', 'PERMENANT', 'ab', 'cabb', 'cababc',
                      'abcx', 'Aabc'], order=False)


def forceucase(tier):
    for a in subsets('US', 0, 2):
        for b in subsets('US', 0, 2):
            for extra in ((), ('Abcd',), ('abcd/F',), ('abcde',)):
                yield ''.join(a), ''.join(b), extra


def run_forceucase(ctx, config):
    a, b, extra = config
    texts = {x + y + z for x in ('ab', 'cd') for y in ('ab', 'cd', 'cds') for z in ('', 'ab')}
    compare(ctx, aff(QUIET, 'COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'FORCEUCASE U', 'FORBIDDENWORD F', rule('SFX', 'S', '', 's', '.')),
            dic('ab/C' + a, 'cd/C' + b, *extra),
            suggests=sorted(texts | {t.capitalize() for t in texts} | {t.upper() for t in texts} | set(case_patterns('abcd'))),
            order=False)


def affixed(tier):
    for stem in case_patterns('abc'):
        for flags in ('S', 'SK', 'SF', 'P', 'SP'):
            for add in ('s', 'S', "'s"):
                yield stem, flags, add


def run_affixed(ctx, config):
    stem, flags, add = config
    texts = set()
    for base in (stem + add, 'un' + stem):
        for wrong in (base[:1] + 'x' + base[1:], base[:2] + base[3:], base + 'x'):
            texts |= {wrong, wrong.lower(), wrong.upper(), wrong.capitalize(), wrong.swapcase()}
    compare(ctx, aff(QUIET, 'KEEPCASE K', 'FORBIDDENWORD F', 'TRY abcs', rule('SFX', 'S', '', add, '.'),
                     rule('PFX', 'P', '', 'un', '.')), dic(stem + '/' + flags), suggests=sorted(texts), order=False)


def special(tier):
    """letters with unusual casing"""
    for stem in ('straße', 'ǆep', 'ﬁt', 'éa', 'σας', 'ilk', 'ıl', 'ŉa', 'a1b', "o'b", 'McD'):
        for lang in ('', 'LANG tr', 'CHECKSHARPS'):
            for keep in ('', '/K'):
                yield stem, lang, keep


def run_special(ctx, config):
    stem, lang, keep = config
    texts = set()
    for base in (stem, stem.upper(), stem.capitalize(), stem.title(), stem.lower(), stem.swapcase()):
        for i in range(len(base) + 1):
            texts |= {base[:i] + 'x' + base[i:], base[:i] + base[i + 1:], base[:i] + 'X' + base[i:]}
    compare(ctx, aff(QUIET, lang, 'KEEPCASE K', 'TRY ' + ''.join(sorted(set(stem)))), dic(stem + keep),
            suggests=sorted(t for t in texts if t), order=False)


SPACES = [
    Space('cases', 'one and two (thorough three) of 15 entries (5 capitalizations, KEEPCASE, forbidden); every case pattern '
          'of 4 misspellings', cases, run_cases),
    Space('other-kinds', 'one and two (three) of 20 entries; n-gram, phonetic, dash and split suggestions in all '
          'capitalizations', ngram_case, run_ngram_case),
    Space('two-words', 'up to 3 of 10 entries, every case pattern of the joined words', two_words, run_two_words),
    Space('oconv', 'OCONV tables x up to 3 of 6 entries', oconv, run_oconv),
    Space('forceucase', 'FORCEUCASE on either part of a compound', forceucase, run_forceucase),
    Space('affixed', 'affixed forms of stems in every case pattern', affixed, run_affixed),
    Space('special', 'special letters, Turkic and sharp s settings', special, run_special),
]
SPACES.append(contexts.suggest_space(kernels.SUGGEST['C14']))
SPACES.append(ladders.space(ladders.C14))
