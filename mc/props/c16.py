"""C16: phonetic suggestions."""
import itertools

from . import contexts, kernels, ladders
from .common import *

QUIET = 'MAXNGRAMSUGS 0'
RULES = ['A X', 'A _', 'B X', 'AB X', 'AB- X', 'ABC-- X', 'A(BC) X', 'A(BC)- X', '^A X'.replace('^A', 'A^'), 'B$ X', 'AB^ Y', 'AB$ Y',
         'C Y', 'BC(A)- Z', 'A^$ Z', 'CA_ X'.replace('CA_', 'CA')]
BASE = ['A A', 'B B', 'C C', 'D D']
STEMS = ['abcd', 'bacd', 'abca', 'acbd', 'cabd', 'dabc', 'bbcd', 'aabd', 'dcba', 'abd', 'abcdab', 'badc', 'Abdc', 'abccd']


def rules(tier):
    """ordered pairs of rules before a plain table"""
    for one in RULES:
        yield (one,)
        yield (one, *BASE)
    for pair in itertools.permutations(RULES, 2):
        yield (*pair, *BASE)
        if tier == 'thorough':
            yield pair
    for triple in itertools.permutations(RULES, 3):
        yield (*triple, *BASE)


def run_rules(ctx, rows):
    compare(ctx, aff(QUIET, 'KEY |', table('PHONE', rows)), dic(*STEMS),
            suggests=['abccdd', 'bacda', 'cabdd', 'abcab', 'abdca', 'dbac', 'aabbcc', 'Abcdx', 'acbda'])


def pairs(tier):
    """two words competing: the code decides"""
    for a, b in itertools.permutations(STEMS, 2):
        for rows in (('A X', 'B X'), ('AB C', 'BA C', 'C C'), ('A^ X', 'A _', 'B B', 'C C', 'D D'), ('B(CD)- X', 'B Y', 'C Z', 'D D', 'A A'),
                     ('D$ A', 'D _', 'A A', 'B B', 'C C')):
            yield a, b, rows


def run_pairs(ctx, config):
    a, b, rows = config
    compare(ctx, aff(QUIET, 'KEY |', table('PHONE', rows)), dic(a, b), suggests=['abccdd', 'bacda', 'cabdd', 'abcab', 'bdca', 'ABCDA'])


def limits(tier):
    """at most two, marks, lengths, other kinds first"""
    for n in range(1, 6):
        for marks in ('', 'N', 'O', 'F', 'K'):
            for ngrams in (0, 1, 4):
                yield n, marks, ngrams


def run_limits(ctx, config):
    n, marks, ngrams = config
    stems = ['phonetic', 'fonetik', 'phonetician', 'phone', 'fanatic'][:n]
    stems[0] += '/S' + marks
    compare(ctx, aff('MAXNGRAMSUGS %d' % ngrams, 'NOSUGGEST N', 'ONLYINCOMPOUND O', 'FORBIDDENWORD F', 'KEEPCASE K',
                     rule('SFX', 'S', '', 's', '.'),
                     table('PHONE', ['PH F', 'F F', 'C K', 'K K', 'N N', 'T T', 'A _', 'E _', 'I _', 'O _', 'S$ _', 'S S'])),
            dic(*stems), suggests=['fonetikc', 'phonetikk', 'fonetics', 'FONETIKC', 'Foneticks', 'fnatk', 'phon', 'phonetecian',
                                   'foneticissimo', 'phone-tic', 'fone-tikk'])


def marked(tier):
    """which of several words with the same sound are offered when some of them are not to be"""
    yield from itertools.product(('', 'N', 'O', 'F', 'K', 'A', 'R'), repeat=4)


def run_marked(ctx, marks):
    stems = ['phonetic', 'fonetik', 'phonetik', 'Fonetic']
    compare(ctx, aff(QUIET, 'KEY |', 'NOSUGGEST N', 'ONLYINCOMPOUND O', 'FORBIDDENWORD F', 'KEEPCASE K', 'NEEDAFFIX A', rule('SFX', 'R', '', 's', '.'),
                     table('PHONE', ['PH F', 'F F', 'C K', 'K K', 'N N', 'T T', 'A _', 'E _', 'I _', 'O _', 'S$ _', 'S S'])),
            dic(*[entry(s, m) for s, m in zip(stems, marks)]), suggests=['fnetykc', 'FNETYKC', 'Fnetyks'])


def many(tier):
    """more than a hundred words that sound alike to a graded degree"""
    for n in (98, 99, 100, 101, 102, 120, 150):
        for turn in range(0, 150, 10 if tier == 'quick' else 3):
            yield n, turn


def run_many(ctx, config):
    n, turn = config
    stems = [a + b + c + d for a in ('ab', 'ba', 'b') for b in ('cd', 'c', 'dc', 'dd', 'aa') for c in ('', 'a', 'abc', 'dc') for d in ('a', 'bd', 'cad')]
    stems = (stems[turn:] + stems[:turn])[:n]
    compare(ctx, aff(QUIET, 'KEY |', table('PHONE', ['A X', 'B _', 'C C', 'D CX', 'AB Y', 'CA- CC'])), dic(*stems),
            suggests=['aacddbca', 'xxabdc', 'abccdd', 'bbaacadc'])


def long_words(tier):
    """words that differ in sound only after (before) n common letters"""
    for n in range(0, 17 if tier == 'quick' else 31):
        for ends in (('kaxa', 'caxo'), ('bokk', 'bocd'), ('cc', 'kb'), ('adax', 'adbx')):
            for side in (False, True):
                for words_in in (1, 2):
                    yield n, ends, side, words_in


def run_long_words(ctx, config):
    n, ends, side, count = config
    common = ('badocabedo' * 4)[:n]
    texts = [common + e if side else e + common for e in ends]
    wrong = [common + e if side else e + common for e in ('coxo', 'kookx', 'bekd', 'kkeb', 'edox', 'ocd')]
    compare(ctx, aff(QUIET, 'KEY |', 'NOSPLITSUGS', table('PHONE', ['K X', 'C X', 'A _', 'O _', 'E _', 'B B', 'D$ T', 'D D', 'X X'])), dic(*texts[:count]), suggests=wrong)


def lengths(tier):
    """misspellings and words of different lengths"""
    for n in range(1, 10 if tier == 'quick' else 16):
        for more in range(-5, 6):
            for side in (0, 1, 2):
                if n + more > 0:
                    yield n, more, side


def run_lengths(ctx, config):
    n, more, side = config
    letters = 'badocabedokaboda'
    stem = letters[:n + more] if side == 0 else letters[16 - n - more:] if side == 1 else letters[:(n + more) // 2] + letters[16 - (n + more + 1) // 2:]
    wrong = letters[:n] if side != 1 else letters[16 - n:]
    compare(ctx, aff(QUIET, 'KEY |', 'NOSPLITSUGS', table('PHONE', ['K X', 'C X', 'A _', 'O _', 'E _', 'B B', 'D D'])), dic(stem, 'zzz'),
            suggests=[wrong, wrong + 'z', 'z' + wrong, wrong.replace('c', 'k'), wrong.replace('o', 'e'), wrong.upper()])


def spellings(tier):
    """other spellings of an entry take part in the comparison"""
    for one, two in itertools.permutations(['fonetik', 'phonee', 'zzz', 'foneteek', 'fnttk', 'xxonetix'], 2):
        for entry_ in ('phonetic', 'wqqqnetic', 'fanatic'):
            yield one, two, entry_


def run_spellings(ctx, config):
    one, two, stem = config
    compare(ctx, aff(QUIET, 'KEY |', 'NOSPLITSUGS', table('PHONE', ['PH F', 'F F', 'Q F', 'C K', 'K K', 'N N', 'T T', 'A _', 'E _', 'I _', 'O _'])),
            dic('%s ph:%s ph:%s' % (stem, one, two), 'phonological'), suggests=['fonetikk', 'foneteekk', 'zzzz', 'xxonetixx', 'fnttkk', 'fanatik', 'phoneee'])


def without(tier):
    for chosen in subsets(STEMS, 1, 2):
        yield chosen


def run_without(ctx, chosen):
    """no table: no phonetic suggestions"""
    d = ctx.load(aff(QUIET, 'KEY |', 'NOSPLITSUGS'), dic(*chosen))
    model = Model(aff(QUIET, 'KEY |', 'NOSPLITSUGS'), dic(*chosen))
    for text in ('abccddxx', 'xbxaxc', 'cabddxx', 'aabbcc'):
        got = ctx.suggest(d, text)
        if got != model.suggest(text):
            ctx.fail('suggestions differ from the model', model.suggest(text), got)


def english(tier):
    """a table like the one of English"""
    for chosen in subsets(['brasilia', 'brassily', 'Brazilian', 'brilliant', 'xylophone', 'cylinder', 'silver', 'knight', 'night',
                           'nite', 'physics', 'wrist', 'rest'], 1, 3):
        yield chosen


def run_english(ctx, chosen):
    compare(ctx, aff(table('PHONE', ['AH(AEIOUY)-^ *H', 'AR(AEIOUY)-^ *R', 'A(HR)^ *', 'A^ *', 'AH(AEIOUY)- H', 'A _', 'BB- _', 'B B',
                                     'CH X', 'CI(AO)- X', 'C(EIY)- S', 'CK K', 'C K', 'DGE J', 'D T', 'E _', 'GH(T)- _', 'G K', 'H _',
                                     'I _', 'KN^ N', 'K K', 'L L', 'N N', 'O _', 'PH F', 'P P', 'R R', 'SS S', 'S S', 'TH 0', 'T T',
                                     'WR^ R', 'W _', 'X^ S', 'X KS', 'Y _', 'Z S'])), dic(*chosen),
            suggests=['brasillian', 'briliant', 'zylofone', 'silinder', 'cilver', 'nyght', 'knite', 'fysics', 'rist', 'wrest', 'Brazzily'])


SPACES = [
    Space('rules', 'every rule, ordered pair and ordered triple of 16 rules of all shapes; 14 words, 9 misspellings', rules, run_rules),
    Space('pairs', 'every ordered pair of 14 words under 5 tables', pairs, run_pairs),
    Space('limits', '1..5 words, marks, with n-gram suggestions', limits, run_limits),
    Space('marked', '7 marks on each of 4 words that sound alike', marked, run_marked),
    Space('many', '98..150 words of graded similarity in rotated orders, around the limit of 100 compared words', many, run_many),
    Space('long-words', 'words and misspellings of up to 20 (34) letters with a common beginning or end', long_words, run_long_words),
    Space('lengths', 'misspellings of 1..9 (15) letters, words 5 shorter to 5 longer, cut at either end or in the middle', lengths, run_lengths),
    Space('spellings', 'ordered pairs of 6 ph: spellings of 3 words', spellings, run_spellings),
    Space('without', 'no PHONE table', without, run_without),
    Space('english', 'up to 3 of 13 words with an English-like table', english, run_english),
]
SPACES.append(contexts.suggest_space(kernels.SUGGEST['C16'], order=True))
SPACES.append(ladders.space(ladders.C16, order=True))
