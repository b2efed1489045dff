"""C15: n-gram suggestions."""
from . import contexts, kernels, ladders
from .common import *

SIMILAR = ['permanent', 'permanence', 'impermanent', 'parliament', 'pertinent', 'remnant', 'ferment', 'Permian', 'tenant',
           'permeate', 'ornament']
WRONG = ['permenant', 'perment', 'prmnt', 'PERMENANTLY', 'Permenent', 'ermanen', 'permanentpermanent', 'tnemanrep', 'pmnt']


def similar(tier):
    """which of several similar words are offered"""
    for chosen in subsets(SIMILAR, 1, 3 if tier == 'quick' else 4):
        yield chosen


def run_similar(ctx, chosen):
    compare(ctx, aff(), dic(*chosen), suggests=WRONG)


def settings(tier):
    for maxdiff in (None, 0, 1, 2, 3, 4, 5, 7, 10):
        for only in (False, True):
            for limit in (None, 0, 1, 2, 4, 8):
                for size in (4, len(SIMILAR)):
                    yield maxdiff, only, limit, size


def run_settings(ctx, config):
    maxdiff, only, limit, size = config
    compare(ctx, aff(maxdiff is not None and 'MAXDIFF %d' % maxdiff, only and 'ONLYMAXDIFF',
                     limit is not None and 'MAXNGRAMSUGS %d' % limit), dic(*SIMILAR[:size]), suggests=WRONG)


def marks(tier):
    """words marked not to be suggested, affix forms"""
    for stem in subsets('NOFK', 0, 2):
        for other in subsets('NS', 0, 2):
            for s in ('', 'N', 'O', 'F'):
                for cross in 'YN':
                    yield ''.join(stem), ''.join(other), s, cross


def run_marks(ctx, config):
    stem, other, s, cross = config
    compare(ctx, aff('NOSUGGEST N', 'ONLYINCOMPOUND O', 'FORBIDDENWORD F', 'KEEPCASE K', rule('SFX', 'S', '', 'ly', 't', s, cross),
                     rule('PFX', 'P', '', 'im', 'p', '', cross)),
            dic('permanent/SP' + stem, 'pertinent/' + (other or 'X'), 'permanence'),
            suggests=WRONG + ['impermenantly', 'permanantlly', 'inpermanent', 'impertinently', 'immpermanently'])


def affix_forms(tier):
    """forms of one stem: conditions, strips, both affixes"""
    for strip, add, cond in (('', 'ly', '.'), ('', 'ly', '[^t]'), ('t', 'ce', 't'), ('nt', 'ncy', 'ent'), ('', 'ly', 'ermanent'),
                             ('', 'ly', 'a'), ('t', 'ly', '.'), ('', '', '.')):
        for pstrip, padd, pcond in (('', 'im', '.'), ('', 'im', '[^p]'), ('p', 'f', 'p'), ('per', 're', 'per'), ('', 'im', 'x')):
            for cross in ('YY', 'YN', 'NY'):
                for cond2 in (None, 's'):
                    yield strip, add, cond, pstrip, padd, pcond, cross, cond2


def run_affix_forms(ctx, config):
    strip, add, cond, pstrip, padd, pcond, cross, second = config
    compare(ctx, aff(rule('SFX', 'S', strip, add, cond, 'T' if second else '', cross[0]),
                     second and rule('SFX', 'T', '', second, '.'), rule('PFX', 'P', pstrip, padd, pcond, '', cross[1])),
            dic('permanent/SP', 'tenant'),
            suggests=['permenantly', 'impermenant', 'impermenently', 'fermenantly', 'permanentce', 'imperrmanence', 'permenentlys',
                      'remanenncy', 'permananncy', 'fermoninntly', 'remonenntlyy', 'immpermonnently', 'fermmononnt', 'fermoninnce', 'rermoninncyy'])


def lengths(tier):
    """words of all lengths around the misspelling"""
    for n in range(1, 16):
        for m in range(max(1, n - 6), n + 7):
            yield n, m


def run_lengths(ctx, config):
    n, m = config
    base = 'abcdefghijklmnopqrstuvwxyz'
    compare(ctx, aff(), dic(base[:m], base[1:m + 1], base[:m] + 'x'),
            suggests=[base[:n], base[:max(n - 2, 0)] + 'yz', 'z' + base[2:n], base[:n // 2] + 'yy' + base[n // 2 + 1:n],
                      base[:n].capitalize() + 'w', base[:n][::-1]])


def many_roots(tier):
    """more than a hundred similar stems, more than two hundred forms"""
    for n in (90, 98, 99, 100, 101, 102, 110, 150):
        for forms in (0, 1, 2, 3):
            yield n, forms


def run_many_roots(ctx, config):
    n, forms = config
    letters = 'abcdefghijkl'
    stems = [('per%sm%snent' % (a, b)) for a in letters for b in letters][:n]
    suffixes = ['SFX S Y %d' % forms] + ['SFX S 0 %s .' % s for s in ('ly', 'y', 'tly')[:forms]] if forms else []
    compare(ctx, aff('MAXNGRAMSUGS 10', *suffixes), dic(*[s + '/S' for s in stems], 'permanently', 'permanent', 'zermanent'),
            suggests=['permenantly', 'perxmxnnt', 'perqmqntly', 'permlnently', 'PERLMLNENTLY', 'permmnentyy'])


def many_forms(tier):
    """more than two hundred forms, all of them offered"""
    for n in (40, 49, 50, 51, 60, 66, 67, 68, 70, 90, 99, 100, 101, 105):
        for needaffix in (False, True):
            for limit in (1, 199, 200, 201, 400):
                yield n, needaffix, limit


def run_many_forms(ctx, config):
    n, needaffix, limit = config
    letters = 'abcdefghijkl'
    stems = [('per%sm%snent' % (a, b)) for a in letters for b in letters][:n]
    compare(ctx, aff('MAXDIFF 10', 'MAXNGRAMSUGS %d' % limit, 'NEEDAFFIX N',
                     'SFX S Y 3', 'SFX S t ly .', 'SFX S nt y .', 'SFX S ent tly .'),
            dic(*[s + '/S' + needaffix * 'N' for s in stems]), suggests=['permenantly', 'perxmxtly', 'permlntly'])


def ties(tier):
    """equally good words in any order of the entries"""
    base = ['abcx', 'abcy', 'abcz', 'xabc', 'yabc']
    import itertools
    for n in (2, 3, 4):
        yield from itertools.permutations(base, n)


def run_ties(ctx, chosen):
    compare(ctx, aff(), dic(*chosen), suggests=['abcqq', 'qabcq', 'qqabc', 'abccba', 'aabbcc', 'abqc'])


def small(tier):
    """all small words"""
    for chosen in subsets([''.join(p) for p in ('abca', 'abcb', 'bbca', 'cabab', 'acacac', 'bcbcb', 'Abba', 'aaaaa')], 1, 4):
        yield chosen


def run_small(ctx, chosen):
    compare(ctx, aff(), dic(*chosen), suggests=[*words('abc', 4, 3), 'abcabc', 'cbacba', 'acbacb', 'babcab', 'ccaabb', 'bacbac', 'abxcba', 'aabcaxb'])


def homonyms(tier):
    """lines with the same stem, also in another case, each with its own flags"""
    marks = ['', 'N', 'O', 'F', '!', 'S', 'NS', 'OS', '!S', 'P', 'K']
    for a in marks:
        for b in marks:
            for second in ('permanent', 'Permanent', 'PERMANENT'):
                yield a, b, second


def run_homonyms(ctx, config):
    a, b, second = config
    for entries in ([entry('permanent', a), entry(second, b)], [entry(second, b), 'pertinent', entry('permanent', a)]):
        compare(ctx, aff('NEEDAFFIX N', 'ONLYINCOMPOUND O', 'FORBIDDENWORD F', 'NOSUGGEST !', 'KEEPCASE K',
                         rule('SFX', 'S', '', 'ly', '.'), rule('PFX', 'P', '', 'im', '.')),
                dic(*entries), suggests=['permmnant', 'Permmnant', 'permonantly', 'impermenont', 'PERMONONT'])


def phonetic_alts(tier):
    """ph: spellings take part in the comparison"""
    for ph in ('pretty', 'prity', 'pirit', 'prittie', 'permnt'):
        for others in subsets(['pity', 'party', 'permanent', 'spirit'], 0, 2):
            for phone in (False, True):
                yield ph, others, phone


def run_phonetic_alts(ctx, config):
    ph, others, phone = config
    compare(ctx, aff(phone and table('PHONE', ['P P', 'R R', 'T T', 'I 0', 'E 0'])), dic('beauty ph:' + ph, *others),
            suggests=['prittey', 'priti', 'purity', 'permment', 'Pritteys', 'pirritt'])


def best_roots(tier):
    """which hundred of more stems are considered: stems at all distances from the misspelling"""
    for base in ('permanent', 'abcdefgh', 'aabbab', 'ababababab', 'vwxyz'):
        for step in (1, 2, 3, 5):
            for start in range(0, 60, 6 if tier == 'quick' else 2):
                for cased in (False, True):
                    yield base, step, start, cased


def run_best_roots(ctx, config):
    base, step, start, cased = config
    stems = []
    for k in range(5):
        for i in range(len(base) + 1):
            for j in range(len(base)):
                text = base[:j] + 'q' + base[j + 1:]
                text = text[:i] + 'krlo'[:k] + text[i:]
                if text not in stems:
                    stems.append(text)
    stems = (stems * step)[start * step::step][:130]
    stems = list(dict.fromkeys(s.capitalize() if cased and i % 3 else s for i, s in enumerate(stems)))
    compare(ctx, aff('MAXDIFF 10', 'MAXNGRAMSUGS 400'),
            dic(*stems[::2], *[s + ' ph:' + base[:4] + s[:2] if cased and i % 5 == 0 else s for i, s in enumerate(stems[1::2])]),
            suggests=[base, base[:-1] + 'x', base[:2] + base[3:], base[::-1]])


def tiny(tier):
    """misspellings of one and two letters"""
    for chosen in subsets([*words('ab', 3, 3), 'abab', 'baab', 'aaaa', 'cacac', 'bcba', 'Aba', 'BAB'], 1, 3):
        yield chosen


def run_tiny(ctx, chosen):
    compare(ctx, aff('MAXDIFF 10'), dic(*chosen), suggests=words('abc', 2, 1))


SPACES = [
    Space('similar', 'up to 3 (thorough 4) of 11 similar words, 9 misspellings', similar, run_similar),
    Space('settings', 'MAXDIFF x ONLYMAXDIFF x MAXNGRAMSUGS', settings, run_settings),
    Space('marks', 'marks on stems and affixes', marks, run_marks),
    Space('forms', 'strip, add and condition of prefix and suffix, cross-product', affix_forms, run_affix_forms),
    Space('lengths', 'misspellings of 1..15 letters against words 6 shorter to 6 longer', lengths, run_lengths),
    Space('many', '90..150 stems with 0..3 affix forms around the limits of 100 stems and 200 forms', many_roots,
          run_many_roots),
    Space('forms limit', '40..105 stems with 4 forms each, MAXNGRAMSUGS up to 400: which two hundred forms are considered',
          many_forms, run_many_forms),
    Space('best stems', '130 stems at graded distances from 5 words, which hundred of them are considered', best_roots, run_best_roots),
    Space('tiny', 'up to 3 of 15 words of 3 to 5 letters; misspellings of one and two letters', tiny, run_tiny),
    Space('ties', 'permutations of up to 4 of 5 equally similar words', ties, run_ties),
    Space('small', 'up to 4 of 8 words over {a,b,c}; all words of 3 and 4 letters', small, run_small),
    Space('homonyms', 'two lines of one stem in three cases with every pair of 11 sets of flags, in both orders', homonyms, run_homonyms),
    Space('ph', 'ph: spellings in the comparison', phonetic_alts, run_phonetic_alts),
]
SPACES.append(contexts.suggest_space(kernels.SUGGEST['C15'], order=True))
SPACES.append(ladders.space(ladders.C15, order=True))
