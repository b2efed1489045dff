"""C24: every query terminates with an answer, every well-formed directive loads."""
import itertools

from . import contexts
from .common import *
from .pool import POOL

AWKWARD = ['', ' ', 'a', 'B', '-', "'", '.', '1', '\0', '\n', '\t', 'ß', 'İ', 'ı', 'ŉ', 'ﬁ', 'ǅ', 'ǆ', 'Σ', 'ς', 'ẞ', '́', '\ud800',
           '𝒜', '𐐨', '‍', 'ب', '漢', '_', '/', '\\', '(', ')', '*', '[', ']', '$', '^', '?', '+', '{', '|', ',', '\xa0', ' ', '﻿',
           '’', '%', '٣', '²', 'ⅷ', 'ﬀ', 'ΐ', 'ᾳ', 'ij', '"', '<', '@', '#', ':', '=', '~']

FEATURES = {
    'empty': (aff(), dic()),
    'no-entries': (aff('TRY ab', rule('SFX', 'S', '', 's', '.')), '0\n'),
    'one-letter': (aff('TRY a', 'COMPOUNDMIN 1', 'COMPOUNDFLAG C', rule('SFX', 'S', 'a', '', 'a'), rule('PFX', 'P', 'a', '', 'a')),
                   dic('a/CSP', 'B/C')),
    'fullstrip': (aff('FULLSTRIP', rule('SFX', 'S', 'ab', '', 'ab'), rule('PFX', 'P', 'ab', 'a', 'ab', 'S')), dic('ab/SP', 'b/S')),
    'signs': (aff('TRY -\'.1', 'WORDCHARS -\'.', table('REP', ['. -', '\' 1', '* a', '( b', 'a_ -']), table('MAP', ['-.', '(1a)\'', 'a[']),
                  'KEY -.\'|1a', table('BREAK', ['.', '-$', '^\'', '(', '[a]', '+']), table('ICONV', ['’ \'', '. -']),
                  table('OCONV', ['- .'])), dic('a', '-', "'a", 'a.', '1', '1-', 'a-a', '...', '(', 'a\\/')),
    'conversions': (aff(table('ICONV', ['a b', 'b a', '_a B', 'a_ 1', '_a_ 1', '- _']), table('OCONV', ['b a', '1 B-', ' _'[1:] + ' -'])),
                    dic('a', 'b', 'B', '1', 'ba')),
    'complex': (aff('COMPLEXPREFIXES', rule('PFX', 'P', '', 'a', '.', 'Q'), rule('PFX', 'Q', '', 'B', '.'), rule('SFX', 'S', '', '1', '.')),
                dic('a/PS', 'B/PQ')),
    'rules': (aff('COMPOUNDMIN 1', table('COMPOUNDRULE', ['A*B*', 'AB?', 'A', '*B', 'A?B?A?'])), dic('a/A', 'B/B', '1/AB')),
    'phone': (aff(table('PHONE', ['A _', 'B- 1', '1< _', 'SS$ S', 'AA(AB) B', 'I I', 'a< a', 'A-- B', 'A(B)- _', '^ X'[2:] + ' Y'])),
              dic('a', 'ab', 'B1', 'İa', 'ßß')),
    'ph': (aff('TRY ab'), dic('ab ph:1', 'a ph:*', 'B ph:a*', 'b ph:->', '1 ph:a->', 'aa ph:->b', 'bb ph:$', 'cc ph:^', 'dd ph:(*', 'ee ph:[',
                              'ff ph:a$* ph:é')),
    'sharp-turkic': (aff('CHECKSHARPS', 'LANG tr_TR', 'KEEPCASE K', 'TRY ßıi'), dic('ß/K', 'aß', 'ı', 'İ/K', 'ssa')),
    'ignore': (aff('IGNORE a-1', 'TRY aB', 'COMPOUNDMIN 1', 'COMPOUNDFLAG C'), dic('aB/C', '-', 'B1/C', 'ß')),
    'checks': (aff('COMPOUNDMIN 1', 'COMPOUNDFLAG C', 'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDREP', 'CHECKCOMPOUNDTRIPLE',
                   'SIMPLIFIEDTRIPLE', table('REP', ['a B', '$ 1', '^ -'][0:1] + ['1 a']), table('CHECKCOMPOUNDPATTERN', ['a B', '0 1', '1/C 0/C']),
                   'FORCEUCASE U', 'COMPOUNDWORDMAX 3'), dic('a/C', 'B/CU', '1/C', '-/C', 'aa/C', 'ß/C', 'a B')),
}


def dictionaries():
    for name, texts in FEATURES.items():
        yield name, texts
    for name, (a, b, _) in POOL.items():
        yield 'pool-' + name, (a, b)


def query(ctx, d, word, suggest=True):
    ctx.lookup(d, word)
    if suggest:
        for text in ctx.suggest(d, word):
            ctx.check(isinstance(text, str), 'a suggestion is not a text', 'str', repr(text))


def awkward(tier):
    """all texts of up to two awkward symbols, around and inside of a letter or a word"""
    for name, _ in dictionaries():
        for c in AWKWARD:
            yield name, c


def run_awkward(ctx, config):
    name, c = config
    texts = dict(dictionaries())[name]
    d = ctx.load(*texts)
    words_ = {c}
    for other in AWKWARD:
        words_ |= {c + other, c + 'a' + other}
        if ctx.tier == 'thorough':
            words_ |= {'ab' + c + other, c + other + 'B', c + other + c, c.upper() + other.lower() + 'ab'}
    for context in ('a%s', '%sa', 'ab%sab', '%sB%s', 'A%sB', '%s%s%s', 'aB%s', '%sab%s', 'a%s%sa', 'ABAB%s', '%s-a', 'a-%s'):
        words_.add(context.replace('%s', c))
    for word in sorted(words_):
        query(ctx, d, word)


def short(tier):
    """all texts over six symbols relevant for all dictionaries"""
    for name, _ in dictionaries():
        for first in ['a', 'B', '1', '-', "'", 'ß', ' ', '.']:
            yield name, first


def run_short(ctx, config):
    name, first = config
    d = ctx.load(*dict(dictionaries())[name])
    for rest in words(['a', 'B', '1', '-', "'", 'ß', ' ', '.'], 3 if ctx.tier == 'quick' else 4):
        query(ctx, d, first + rest)


LADDER = [*range(1, 34), 40, 48, 64, 80, 100, 128, 150, 200]


def ladders(tier):
    bases = ['a', 'ab', 'aB', 'Ab', 'A', 'a-', '-', "a'", 'ba', 'a1', 'ß', 'x', 'ax', 'aaab', ' a', '.', 'İ', 'abst', '1', 'st']
    for name, _ in dictionaries():
        for base in bases:
            for tail in ('', 'x', '-', 'B'):
                if tier == 'thorough' or base in bases[:10] or not tail:
                    yield name, base, tail


def run_ladders(ctx, config):
    name, base, tail = config
    d = ctx.load(*dict(dictionaries())[name])
    # words with many ways of being split by rules grow exponentially: see DESIGN.md
    top = 12 if name == 'rules' else 24 if name == 'checks' else 200
    sizes = [n for n in LADDER if n <= top] + ([300, 500] if ctx.tier == 'thorough' and top == 200 else [])
    for n in sizes:
        word = (base * n)[:n] + tail
        query(ctx, d, word, suggest=n <= (12 if top < 200 else 24 if ctx.tier == 'quick' else 40))


def deep(tier):
    """long words for the structures that are analysed recursively"""
    for n in (10, 20, 50, 100, 150, 200):
        for kind in ('compound', 'compound-ambiguous', 'break', 'break-bad', 'rule', 'map', 'rep', 'iconv', 'oconv', 'phone', 'try', 'affix',
                     'ngram', 'upper', 'sharp', 'dashes', 'spaces'):
            yield kind, n


def run_deep(ctx, config):
    kind, n = config
    head, entries, texts, suggest = {
        'compound': (['COMPOUNDMIN 1', 'COMPOUNDFLAG C'], ['a/C', 'b/C'], ['ab' * n, 'ab' * n + 'x', 'x' + 'ab' * n], n <= 10),
        'compound-ambiguous': (['COMPOUNDMIN 1', 'COMPOUNDFLAG C'], ['a/C', 'aa/C', 'aaa/C'], ['a' * n, 'a' * n + 'x', 'x' + 'a' * n], n <= 10),
        'break': ([], ['a'], ['-'.join('a' * n), '-' + '-'.join('a' * n) + '-'], n <= 50),
        'break-bad': ([table('BREAK', ['-', '=', 'b', '-$', '^-'])], ['a', 'a-a'], ['-'.join('a' * n) + '-x', 'x=' + 'ab' * n, 'ba-' * n], n <= 10),
        'rule': (['COMPOUNDMIN 1', table('COMPOUNDRULE', ['A*B'])], ['1/A', '2/AB', 'x/B'], ['12' * (n // 10), '1' * (n // 4) + 'x',
                                                                                      '2' * (n // 10) + 'y'], n <= 10),
        'map': ([table('MAP', ['aáà', 'bv', '(ss)ß'])], ['a' * n, 'v' * n], ['á' * n, 'ab' * n, 'ßss' * n, 'ábv' * n], True),
        'rep': ([table('REP', ['a b', 'b aa', 'aa a', '^a bb', 'b$ _', 'x _'])], ['ab', 'a'], ['a' * n, 'ab' * n, 'axa' * n], True),
        'iconv': ([table('ICONV', ['a aa', 'b a', 'ab b'])], ['a', 'ab'], ['a' * n, 'ab' * n, 'ba' * n], n <= 50),
        'oconv': ([table('OCONV', ['a aa', 'b a']), 'TRY ab'], ['a' * n, 'ab' * n], ['a' * n + 'b', 'ab' * n + 'a'], n <= 50),
        'phone': ([table('PHONE', ['A A', 'AA B', 'B(AB) _', 'B B', 'AB< BA'])], ['a' * n, 'ab' * n, 'b'], ['ab' * n + 'a', 'ba' * n, 'b' * n], True),
        'try': (['TRY abcdefghijklmnopqrstuvwxyzäöü'], ['a' * n], ['a' * n + 'bc', 'b' * n], n <= 100),
        'affix': ([rule('SFX', 'S', '', 'a', '.', 'T'), rule('SFX', 'T', '', 'aa', '.'), rule('PFX', 'P', '', 'a', '.')], ['a' * n + '/STP', 'a/STP'],
                  ['a' * (n + k) for k in range(-2, 6)] + ['a' * n + 'b'], n <= 50),
        'ngram': (['MAXDIFF 10'], ['ab' * n, 'ba' * n, 'a' * n + 'b' * n], ['ab' * (n - 1) + 'ba', 'a' * n + 'c' + 'b' * n], True),
        'upper': (['TRY ab'], ['Ab' * n, 'ab' * n], ['AB' * n, 'aB' * n, 'ab' * n, 'Ab' + 'aB' * n], n <= 50),
        'sharp': (['CHECKSHARPS'], ['ß' * min(n, 6), 'a'], ['SS' * n, 'ß' * n, 'SSA' * n], n <= 10),
        'dashes': (['TRY a-'], ['a', 'a-a'], ['-' * n, 'a' + '-' * n, 'a' + '-' * n + 'b'], n <= 50),
        'spaces': (['TRY a'], ['a', 'a a'], [' ' * n, 'a' + ' ' * n + 'a', 'a ' * n], n <= 50),
    }[kind]
    d = ctx.load(aff(*head), dic(*entries))
    for text in texts:
        query(ctx, d, text, suggest=suggest)


#: well-formed directives (the flags exist in the dictionary); several forms of each
DIRECTIVES = [
    'TRY ab', 'TRY', 'KEY ab|c', 'KEY', 'WORDCHARS 1-', 'LANG de', 'LANG xx_YY', 'NAME x', 'HOME x', 'VERSION 1', 'NOSUGGEST N', 'MAXCPDSUGS 0',
    'MAXCPDSUGS 5', 'MAXNGRAMSUGS 0', 'MAXNGRAMSUGS 9', 'MAXDIFF 0', 'MAXDIFF 10', 'ONLYMAXDIFF', 'NOSPLITSUGS', 'SUGSWITHDOTS', 'REP 0', 'REP 1\nREP a b',
    'REP 2\nREP ^a b\nREP b$ a_b', 'MAP 0', 'MAP 1\nMAP ab', 'MAP 1\nMAP (ab)c', 'PHONE 0', 'PHONE 1\nPHONE A B', 'PHONE 2\nPHONE A(BC)-- _\nPHONE B^$ B',
    'WARN W', 'FORBIDWARN', 'BREAK 0', 'BREAK 1\nBREAK -', 'BREAK 2\nBREAK ^-\nBREAK b$', 'COMPOUNDRULE 0', 'COMPOUNDRULE 1\nCOMPOUNDRULE AB*C?',
    'COMPOUNDRULE 1\nCOMPOUNDRULE (A)(B)', 'COMPOUNDMIN 0', 'COMPOUNDMIN 1', 'COMPOUNDMIN 5', 'COMPOUNDFLAG A', 'COMPOUNDBEGIN A', 'COMPOUNDLAST A', 'COMPOUNDEND B',
    'COMPOUNDMIDDLE B', 'ONLYINCOMPOUND O', 'COMPOUNDPERMITFLAG P', 'COMPOUNDFORBIDFLAG P', 'COMPOUNDMORESUFFIXES', 'COMPOUNDROOT R', 'COMPOUNDWORDMAX 2',
    'COMPOUNDWORDMAX 1', 'CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDREP', 'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDTRIPLE', 'SIMPLIFIEDTRIPLE', 'CHECKCOMPOUNDPATTERN 0',
    'CHECKCOMPOUNDPATTERN 1\nCHECKCOMPOUNDPATTERN a b', 'CHECKCOMPOUNDPATTERN 1\nCHECKCOMPOUNDPATTERN a/A b/B', 'CHECKCOMPOUNDPATTERN 1\nCHECKCOMPOUNDPATTERN a b c',
    'CHECKCOMPOUNDPATTERN 1\nCHECKCOMPOUNDPATTERN 0/A b', 'FORCEUCASE U', 'COMPOUNDSYLLABLE 6 aeiou', 'SYLLABLENUM S', 'CIRCUMFIX X', 'FORBIDDENWORD F', 'FULLSTRIP',
    'KEEPCASE K', 'ICONV 0', 'ICONV 1\nICONV a b', 'ICONV 2\nICONV _a b\nICONV a_ c', 'OCONV 0', 'OCONV 1\nOCONV a b', 'NEEDAFFIX N', 'PSEUDOROOT N', 'SUBSTANDARD D',
    'CHECKSHARPS', 'COMPLEXPREFIXES', 'IGNORE a', 'AF 1\nAF AB', 'AF 0', 'AM 0', 'AM 1\nAM po:x', 'SFX A Y 0', 'PFX A N 0', 'SFX A Y 1\nSFX A 0 s .', 'SFX A Y 1\nSFX A 0 s',
    'SFX A N 2\nSFX A a 0 a\nSFX A 0 b/B [^ab]', 'PFX B Y 1\nPFX B 0 p/A .', 'PFX B Y 1\nPFX B a 0 [ab]b', 'SFX A Y 1\nSFX A 0 s . po:x is:y', 'SFX A Y 1\nSFX A 0 0/B .',
    'SFX A Y 1\nSFX A 0 a-b\' [^-]', 'SFX A Y 1\nSFX A ab b [ab][^c]', 'FLAG UTF-8', '# comment', 'SFX A Y 1\nSFX A b (b b', 'SFX A Y 1\nSFX A + *+ +',
    'PFX B Y 1\nPFX B 0 $^ .', 'PFX B Y 1\nPFX B ? | ?', 'SFX A Y 1\nSFX A 0 s [-a]', 'SFX A Y 1\nSFX A 0 s [^-a].', 'BREAK 1\nBREAK *', 'REP 1\nREP * (', 'REP 1\nREP [a b',
    'MAP 1\nMAP *.', 'IGNORE -^]', 'ICONV 1\nICONV . *', 'KEY *.|[', 'TRY \\*', 'OCONV 1\nOCONV $ \\1', 'REP 1\nREP a \\1', 'ICONV 1\nICONV a \\1', 'REP 1\nREP b \\g<0>',
    'SFX A Y 1\nSFX A 0 \\1 .', 'SFX A Y 1\nSFX A \\ b \\\\', 'PFX B Y 1\nPFX B \\ b .', 'SFX A Y 1\nSFX A 0 { .', 'REP 1\nREP ^ a', 'REP 1\nREP a$ b', 'COMPOUNDRULE 1\nCOMPOUNDRULE A*',
]


def directives(tier):
    size = 2 if tier == 'quick' else 3
    for n in range(1, size + 1):
        if n < 3:
            yield from itertools.combinations(range(len(DIRECTIVES)), n)
        else:
            marks = [i for i, t in enumerate(DIRECTIVES) if t.startswith(('COMPOUND', 'CHECK', 'SFX', 'PFX', 'ICONV', 'IGNORE', 'REP'))]
            yield from itertools.combinations(marks, n)


def run_directives(ctx, config):
    lines = sorted((DIRECTIVES[i] for i in config), key=lambda t: not t.startswith(('FLAG', 'AF')))
    d = ctx.load(aff(*lines), dic('ab/1' if any(t.startswith('AF 1') for t in lines) else 'ab/AB', 'ba', 'a.b', 'Ab', '+', 'ab\\'))
    for word in ('ab', 'abs', 'pab', 'abab', 'Abba', 'xab', 'a-b', 'AB', 'ab$', '*', 'b'):
        query(ctx, d, word, suggest=word in ('xab', 'Abba'))


def run_backgrounds(ctx, config):
    kernel, chosen = config
    text, entries, lookups, suggests = contexts.build(contexts.EVERY, kernel, chosen)
    d = ctx.load(text, entries)
    some = kernel[2][0]
    for i, c in enumerate(AWKWARD):
        full = len(chosen) < 2 or (i + sum(chosen)) % 10 == 0
        for word in (c, some + c, c + some) + ((some[:1] + c + some[1:], c.upper() + '-' + some, c * 3) if full else ()):
            query(ctx, d, word, full)


SPACES = [
    Space('backgrounds', contexts.EVERYTHING + '; 61 awkward symbols around a word (with pairs: lookups of all, corrections of each tenth)', contexts.everything, run_backgrounds),
    Space('awkward', '21 dictionaries x all texts of up to 2 of 61 awkward symbols and 12 contexts', awkward, run_awkward),
    Space('short', '21 dictionaries x all texts of up to 4 (5) of 8 symbols', short, run_short),
    Space('ladders', '21 dictionaries x 20 repeated beginnings x 4 tails x 41 lengths up to 200', ladders, run_ladders),
    Space('deep', '17 recursively analysed structures at lengths up to 200', deep, run_deep),
    Space('directives', 'every directive and every pair of 125 well-formed directives (thorough: triples of interacting ones)', directives,
          run_directives),
]
