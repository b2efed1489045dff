"""C12: completeness and soundness of edit suggestions."""
from . import contexts, kernels, ladders
from .common import *

QUIET = 'MAXNGRAMSUGS 0'


def edits(word, letters, key):
    """direct definition of the edits, from the correct word to its misspellings: {name: misspellings}"""
    n = len(word)
    res = {'swap': set(), 'long swap': set(), 'extra': set(), 'forgotten': set(), 'wrong': set(), 'key': set(), 'move': set(),
           'doubled': set(), 'double swap': set()}

    def swapped(text, i, j):
        chars = list(text)
        chars[i], chars[j] = chars[j], chars[i]
        return ''.join(chars)
    for i in range(n):
        res['forgotten'].add(word[:i] + word[i + 1:]) if word[i] in letters else None
        for j in range(i + 1, min(n, i + 5)):
            res['swap' if j == i + 1 else 'long swap'].add(swapped(word, i, j))
        for j in range(n):
            if 2 <= abs(i - j) <= 4:
                rest = word[:i] + word[i + 1:]
                res['move'].add(rest[:j] + word[i] + rest[j:])
        if word[i] in letters:
            res['wrong'].update(word[:i] + c + word[i + 1:] for c in 'qxz')
        for k in range(len(key) - 1):
            pair = key[k:k + 2]
            if '|' not in pair and word[i] in pair:
                res['key'].add(word[:i] + pair.replace(word[i], '', 1) + word[i + 1:])
        if i + 2 <= n and n > 2:
            res['doubled'].add(word[:i + 2] + word[i:i + 2] + word[i + 2:])
    for i in range(n + 1):
        for c in 'qxa':
            res['extra'].add(word[:i] + c + word[i:])
    if n == 4:
        res['double swap'].add(swapped(swapped(word, 0, 1), 2, 3))
    if n == 5:
        res['double swap'] |= {swapped(swapped(word, 0, 1), 3, 4), swapped(swapped(word, 1, 2), 3, 4)}
    return {k: {t for t in v if t and t != word} for k, v in res.items()}


def patterns(n):
    """all words of n letters up to renaming of letters"""
    found = ['']
    for _ in range(n):
        found = [w + c for w in found for c in 'abcdefgh'[:len(set(w)) + 1]]
    return found


def reach(tier):
    """one listed word, every misspelling one edit away"""
    stems = ['abcdefgh'[:n] for n in range(2, 9)] + ['aabbcc', 'abab', 'ababab', 'aaaa', 'abba', 'vacation', 'abcabc']
    for stem in stems:
        for letters in ('', 'abcdefghv', 'ace', 'itnov'):
            for key in ('', 'qaz|bxd|xcv', 'abcd', 'a|b|cq', 'aqa'):
                yield stem, letters, key
    for n in range(3, 6 if tier == 'quick' else 8):
        for stem in patterns(n):
            for letters, key in (('abcde', 'bcda'), ('', '|')):
                yield stem, letters, key


def run_reach(ctx, config):
    stem, letters, key = config
    d = ctx.load(aff(QUIET, letters and 'TRY ' + letters, 'KEY ' + (key or '|')), dic(stem))
    for kind, texts in edits(stem, letters, key).items():
        for text in sorted(texts):
            got = ctx.suggest(d, text)
            if stem not in got and not ctx.lookup(d, text):
                ctx.fail('the word one edit (%s) away is not suggested' % kind, stem, got)


def exact(tier):
    """several listed words: exactly the words one edit away"""
    pool = ['ab', 'ba', 'abc', 'acb', 'cab', 'aabc', 'abcd', 'bcda', 'dabc', 'abcabc', 'a', 'abab']
    for chosen in subsets(pool, 1, 4 if tier == 'quick' else 5):
        yield chosen


def run_exact(ctx, chosen):
    compare(ctx, aff(QUIET, 'TRY abc', 'KEY ad|bc'), dic(*chosen), suggests=words('abd', 4, 1), order=False)


def settings(tier):
    """TRY and KEY settings decide which letters are tried"""
    for letters in (None, 'a', 'b', 'ab', 'ba', 'xyz', 'é', "a'", '-', 'aA', 'A'):
        for key in (None, '|', 'ab', 'ab|cd', 'a|b', 'aba', '|ab', 'ab|', 'Ab', "a'b", 'abcdé'):
            yield letters, key


def run_settings(ctx, config):
    letters, key = config
    compare(ctx, aff(QUIET, letters and 'TRY ' + letters, key and 'KEY ' + key),
            dic('ab', 'abd', "a'b", 'éb', 'Ab', 'aéb', 'cd', 'a-b'),
            suggests=sorted(near(['ab', 'cd', "a'b"], "abdxé'") | {'qb', 'sb', 'av', 'an', 'xb', 'bb', 'AB', 'aB'} - {''}),
            order=False)


def layouts(tier):
    """all small keyboard layouts"""
    for key in words('ab|', 5 if tier == 'quick' else 6, 1):
        yield key
    for key in words('abc', 4, 3):
        yield key + '|' + key[::-1]


def run_layouts(ctx, key):
    compare(ctx, aff(QUIET, 'KEY ' + key), dic('xa', 'xb', 'xc', 'ab', 'aa', 'x|'), suggests=[*words('abx', 2, 1), 'xd', 'xay', 'x|', 'XA'],
            order=False)


def splits(tier):
    """splits in two words"""
    pool = ['a', 'ab', 'b', 'bc', 'abc', 'c', 'a b', 'ab c', 'a-b', 'ab/O']
    for chosen in subsets(pool, 1, 4):
        for head in ('', 'NOSPLITSUGS', 'TRY a', 'TRY -', 'TRY b'):
            yield chosen, head


def run_splits(ctx, config):
    chosen, head = config
    compare(ctx, aff(QUIET, 'ONLYINCOMPOUND O', head), dic(*chosen), suggests=[t for t in words('abc', 3, 1)] + ['abab', 'abcab'],
            order=False)


def longer(tier):
    """longer words: every edit at every position"""
    for stem in ('misspelling', 'characteristic', 'internationalization', 'aabbaabbaabb'):
        for letters in ('', 'abcdefghijklmnopqrstuvwxyz'):
            yield stem, letters
    for n in (33, 41) if tier == 'quick' else (33, 41, 65, 100):
        yield ('abcdefghijkl' * 9)[:n], 'agi'


def run_longer(ctx, config):
    stem, letters = config
    d = ctx.load(aff(QUIET, letters and 'TRY ' + letters, 'KEY qwertyuiop|asdfghjkl|zxcvbnm'), dic(stem, 'other'))
    for kind, texts in edits(stem, letters, 'qwertyuiop|asdfghjkl|zxcvbnm').items():
        for text in sorted(texts):
            got = ctx.suggest(d, text)
            if stem not in got and not ctx.lookup(d, text):
                ctx.fail('the word one edit (%s) away is not suggested' % kind, stem, got)


def affixed(tier):
    """misspelled affixed forms and compounds"""
    for s in ('', 'ed', 'able'):
        for p in ('', 'un'):
            for compound in (False, True):
                yield s, p, compound


def run_affixed(ctx, config):
    s, p, compound = config
    word = p + 'lock' + s + ('' if not compound else '')
    if compound:
        word = 'lock' + 'pick' + s
    compare(ctx, aff(QUIET, 'TRY lockpied', 'COMPOUNDFLAG C' if compound else '',
                     rule('SFX', 'S', '', s or 'x', '.'), rule('PFX', 'P', '', p or 'y', '.')),
            dic('lock/SPC', 'pick/SC', 'locket'), suggests=sorted(near([word], 'lx')), order=False)


def upper(tier):
    """upper-casing"""
    for chosen in subsets(['AB', 'Ab', 'ab', 'aB', 'ABC', 'Abc', 'aBc'], 1, 3):
        yield chosen


def run_upper(ctx, chosen):
    compare(ctx, aff(QUIET, 'TRY abc'), dic(*chosen), suggests=case_patterns('ab') + case_patterns('abc') + case_patterns('abb') +
            case_patterns('acb'), order=False)


def many(tier):
    """more matches than the limit of fifteen"""
    for n in range(12, 19):
        for kind in ('wrong', 'forgotten', 'mixed'):
            yield n, kind


def run_many(ctx, config):
    n, kind = config
    letters = 'abcdefghijklmnopqrstuvwxyz'[:n]
    stems = {'wrong': [c + 'om' for c in letters], 'forgotten': ['zom' + c for c in letters],
             'mixed': [c + 'om' for c in letters[::2]] + ['zom' + c for c in letters[1::2]]}[kind]
    compare(ctx, aff(QUIET, 'TRY ' + letters), dic(*stems), suggests=['zom', 'zim', 'om', 'zoma', 'Zom', 'ZOM'], order=False)


SPACES = [
    Space('reach', '14 words of 2..8 letters x 4 TRY x 5 KEY settings, every pattern of 3..5 (7) letters: every misspelling one edit of each kind away leads '
          'back to the word', reach, run_reach),
    Space('exact', 'up to 4 (thorough 5) of 12 words; all misspellings over {a,b,d} up to 4 letters, exact set', exact,
          run_exact),
    Space('settings', '11 TRY x 11 KEY settings, all misspellings within one letter of three words', settings, run_settings),
    Space('layouts', 'all KEY settings over {a,b,|} up to 5 (thorough 6) characters, settings of two mirrored rows', layouts, run_layouts),
    Space('splits', 'up to 4 of 10 words to split into, NOSPLITSUGS, hyphen; all words over {a,b,c} up to 3', splits,
          run_splits),
    Space('longer', 'words of 11..20, 33 and 41 (thorough 100) letters, every edit at every position', longer, run_longer),
    Space('affixed', 'edits of affixed forms and compounds', affixed, run_affixed),
    Space('upper', 'up to 3 of 7 case variants, every case pattern', upper, run_upper),
    Space('many', '12..18 matching words around the limit of fifteen', many, run_many),
]
SPACES.append(contexts.suggest_space(kernels.SUGGEST['C12']))
SPACES.append(ladders.space(ladders.C12))
