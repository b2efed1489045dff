"""C13: order of suggestions and their limits."""
from . import contexts, kernels, ladders
from .common import *

# candidates for the misspelling "abcd", in the order of their kinds
KINDS = ['ABCD', 'xbcd', 'abx', 'ab cd', 'a bcd', 'äbcd', 'äbçd', 'bacd', 'abdc', 'badc', 'cbad', 'dbca', 'sbcd', 'abcs', 'bcd',
         'abd', 'eabcd', 'abcde', 'abfcd', 'bcad', 'bcda', 'dabc', 'ebcd', 'abce', 'afcd', 'ab', 'cd', 'abc', 'd', 'Abcd', 'aBcd']
HEAD = ('TRY efd', 'KEY as|ds', table('REP', ['a x', 'cd x', 'cd c_d', 'b b_']), table('MAP', ['aä', 'cç']))


def order(tier):
    for chosen in subsets(KINDS, 1, 3 if tier == 'quick' else 4):
        yield chosen
    for n in range(len(KINDS)):
        yield tuple(KINDS[:n] + KINDS[n + 1:])
        yield tuple(KINDS[n:])
        yield tuple(KINDS[n:n + 6])
        yield tuple(KINDS[n::2])
        yield tuple(KINDS[n::3])


def run_order(ctx, chosen):
    compare(ctx, aff(*HEAD), dic(*chosen), suggests=['abcd', 'Abcd', 'ABCD', 'abCd', 'abcd.'])


def positions(tier):
    """two candidates of the same or neighbouring kinds, one edit away from the misspelling"""
    for text in ('abcd', 'abcdef', 'abab', 'ababab', 'aabc') + (('abcdefg', 'aabbcc') if tier == 'thorough' else ()):
        for kind, chosen in candidates(text).items():
            for pair in subsets(chosen, 2, 2):
                yield text, pair
            yield text, tuple(chosen)
            yield text, tuple(reversed(chosen))


def candidates(text):
    n = len(text)
    rest = {i: text[:i] + text[i + 1:] for i in range(n)}
    swaps = {text[:i] + text[j] + text[i + 1:j] + text[i] + text[j + 1:] for i in range(n) for j in range(i + 1, n)}
    moves = {rest[i][:j] + text[i] + rest[i][j:] for i in range(n) for j in range(n)}
    res = {'swap and move': swaps | moves, 'extra': set(rest.values()), 'wrong': {text[:i] + c + text[i + 1:] for i in range(n) for c in 'efq'},
           'forgotten': {text[:i] + c + text[i:] for i in range(n + 1) for c in 'ef'}, 'split': {text[:i] + ' ' + text[i:] for i in range(1, n)},
           'parts': {part for i in range(1, n) for part in (text[:i], text[i:])},
           'replaced': {text.replace('a', 'x', 1), text.replace('ab', 'y', 1), text[::-1].replace('b', 'z', 1)[::-1], text.replace('b', 'x'), text.replace('b', 'y'),
                        'x' + text[1:]}}
    return {kind: sorted(found - {text, ''}) for kind, found in res.items()}


def run_positions(ctx, config):
    text, chosen = config
    compare(ctx, aff('TRY fe', 'KEY aq|qb|cd', 'MAXNGRAMSUGS 0', table('REP', ['b x', 'a x', 'ab y', 'b y', 'b z']), table('MAP', ['bq', 'aq'])), dic(*chosen),
            suggests=[text, text.capitalize(), text.upper()])


def doubled(tier):
    """doubling and other kinds for longer words"""
    pool = ['vacation', 'vacaction', 'VACACATION', 'vacacatoin', 'vaca cation', 'vacacations', 'vaca', 'cation', 'vacacation-s',
            'vacacatio', 'avcacation']
    for chosen in subsets(pool, 1, 3):
        for head in (('TRY avs',), ('TRY vs', 'NOSPLITSUGS'), ('TRY -',)):
            yield chosen, head


def run_doubled(ctx, config):
    chosen, head = config
    compare(ctx, aff(*head), dic(*chosen), suggests=['vacacation', 'Vacacation', 'vacacationx'])


def limits(tier):
    """fifteen edits, per capitalization variant"""
    letters = 'abcdefghijklmnopqrstuvwxyz'
    for n in range(13, 19):
        for capital in range(0, n + 1, 3):
            for ngrams in (None, 0, 2, 20):
                yield n, capital, ngrams


def run_limits(ctx, config):
    n, capital, ngrams = config
    letters = 'abcdefghijklmnopqrstuvwxyz'
    stems = [c + 'um' for c in letters[:n]]
    stems = [s.capitalize() if i < capital else s for i, s in enumerate(stems)]
    compare(ctx, aff('TRY ' + letters + letters.upper(), ngrams is not None and 'MAXNGRAMSUGS %d' % ngrams), dic(*stems),
            suggests=['éum', 'Éum', 'ÉUM', 'um', 'Um', 'uM', 'UM'])


def compounds(tier):
    """limit on compound suggestions"""
    for n in range(1, 7):
        for cpd in (None, 0, 1, 2, 3, 5):
            for plain in range(0, 3):
                for ngrams in (0, 3):
                    yield n, cpd, plain, ngrams


def run_compounds(ctx, config):
    n, cpd, plain, ngrams = config
    stems = ['%sat/C' % c for c in 'abcdef'[:n]] + ['dog/C', 'cow/C'] + ['zatdog', 'xatdog'][:plain]
    compare(ctx, aff('COMPOUNDFLAG C', 'TRY abcdefxz', cpd is not None and 'MAXCPDSUGS %d' % cpd, 'MAXNGRAMSUGS %d' % ngrams,
                     table('REP', ['qq z'])),
            dic(*stems), suggests=['yatdog', 'yatcow', 'atdog', 'Yatdog', 'YATDOG', 'dogyat', 'aatdog', 'qqatdog', 'catdgo'])


def compound_rounds(tier):
    """which simple matches suppress the compound round and the n-gram search"""
    pool = ['CATDOG', 'cat dog', 'catdög', 'xatdog', 'catdg', 'cat/C', 'dog/C', 'do/C', 'god/C', 'cat-dog', 'catdo', 'catdogs']
    for chosen in subsets(pool, 1, 4):
        yield chosen


def run_compound_rounds(ctx, chosen):
    compare(ctx, aff('COMPOUNDFLAG C', 'COMPOUNDMIN 2', 'TRY ao', table('REP', ['q x']), table('MAP', ['oö'])), dic(*chosen),
            suggests=['catdog', 'qatdog', 'catgod', 'catdo', 'catdogx', 'catodg'])


def ngrams(tier):
    for n in (None, 0, 1, 2, 3, 4, 5, 6, 10):
        for words_ in range(1, 8):
            for phone in (False, True):
                yield n, words_, phone


def run_ngrams(ctx, config):
    n, count, phone = config
    stems = ['permanent', 'permanence', 'permanently', 'impermanent', 'permafrost', 'permutation', 'perennial'][:count]
    compare(ctx, aff(n is not None and 'MAXNGRAMSUGS %d' % n,
                     phone and table('PHONE', ['P P', 'R R', 'M M', 'N N', 'T T', 'S S', 'F F', 'L L', 'E 0', 'A 0', 'U 0', 'I 0'])),
            dic(*stems), suggests=['permenant', 'permanentlee', 'prmnnt', 'pemanent', 'pernament', 'permnence', 'PERMENANT',
                                   'Permenantly', 'per-menant'])


def splits(tier):
    """two-word splits: NOSPLITSUGS, hyphens, listed pairs"""
    pool = ['ab', 'cd', 'abc', 'd', 'a', 'bcd', 'ab cd', 'ab-cd', 'a bcd', 'abcde', 'acd']
    for chosen in subsets(pool, 1, 4 if tier == 'thorough' else 3):
        for head in ((), ('NOSPLITSUGS',), ('TRY a',), ('TRY A',), ('TRY -',), ('TRY e',), ('TRY a-', 'NOSPLITSUGS')):
            yield chosen, head


def run_splits(ctx, config):
    chosen, head = config
    compare(ctx, aff(*head), dic(*chosen), suggests=['abcd', 'Abcd', 'ABCD', 'abCd', 'abdc', 'ab12', '12cd', 'ab1', '1ab', 'ab,', '.cd'])


def dashes(tier):
    pool = ['cat', 'dog', 'cats', 'dot', 'cat-dog', 'cat-dot', 'dog cat', 'Dog', 'do', 'at', 'c/N', 'cart/N']
    for chosen in subsets(pool, 1, 3 if tier == 'quick' else 4):
        yield chosen


def run_dashes(ctx, chosen):
    compare(ctx, aff('NOSUGGEST N', 'TRY ts'), dic(*chosen), suggests=['cat-dogg', 'catt-dog', 'catt-dogg', 'cat-dog-dat', 'Cat-doh',
                                                                       'cat-DOGG', '-cta', 'cat--dgo', 'cta-', 'cat-dogg-cat-dog',
                                                                       'cat-dogg-cat-dgo', 'catt-dog-cat-dog-dogg', 'cat-dog-catt-dog-catt-dog'])


SPACES = [
    Space('order', 'up to three (thorough four) of 31 candidates of all kinds for "abcd" and larger combinations; five '
          'capitalizations', order, run_order),
    Space('positions', 'pairs of the words one edit of a kind away from 5 (thorough 7) misspellings, and all of them', positions, run_positions),
    Space('doubled', 'up to 3 of 11 candidates for "vacacation"', doubled, run_doubled),
    Space('limits', '13..18 matches in different capitalizations, MAXNGRAMSUGS', limits, run_limits),
    Space('compounds', '1..6 compound candidates, MAXCPDSUGS 0..5, non-compound matches', compounds, run_compounds),
    Space('rounds', 'up to 4 of 12 entries deciding whether compounds and n-grams are searched', compound_rounds,
          run_compound_rounds),
    Space('ngrams', '1..7 similar words, MAXNGRAMSUGS 0..10, with and without PHONE', ngrams, run_ngrams),
    Space('splits', 'up to 3 (4) of 11 words for splits, NOSPLITSUGS, TRY with and without a and hyphen', splits,
          run_splits),
    Space('dashes', 'up to 3 (4) of 12 entries, misspellings with hyphens', dashes, run_dashes),
]
SPACES.append(contexts.suggest_space(kernels.SUGGEST['C13'], order=True))
SPACES.append(ladders.space(ladders.C13, order=True))
