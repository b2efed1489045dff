"""C03: accepted capitalizations."""
from . import contexts, kernels, ladders
from .common import *

AFFIXES = (rule('SFX', 'S', '', 's', '.'), rule('PFX', 'P', '', 'un', '.'), rule('SFX', 'U', '', 'X', '.'))


def inputs(*texts):
    res = set()
    for t in texts:
        res.update(case_patterns(t))
    return sorted(res)


def single(tier):
    """one stem in every case pattern"""
    for base in ('a', 'ab', 'aba') + (('abab', 'bcad') if tier == 'thorough' else ('abca',)):
        for stem in case_patterns(base):
            for flags in subsets('KSPU'):
                yield stem, ''.join(flags)


def run_single(ctx, config):
    stem, flags = config
    compare(ctx, aff('KEEPCASE K', *AFFIXES), dic(entry(stem, flags), 'zz'),
            lookups=sorted(set(inputs(stem, stem + 's', stem + 'x', stem + 'xs')) | set(inputs('un' + stem[:3])) |
                           set(words('aAbB', 2, 1))))


def pairs(tier):
    """two entries with the same letters"""
    base = 'abc' if tier == 'thorough' else 'ab'
    patterns = case_patterns(base)
    for s1 in patterns:
        for f1 in subsets('KS'):
            for s2 in patterns:
                for f2 in subsets('KS'):
                    yield s1, ''.join(f1), s2, ''.join(f2)


def run_pairs(ctx, config):
    s1, f1, s2, f2 = config
    compare(ctx, aff('KEEPCASE K', *AFFIXES), dic(entry(s1, f1), entry(s2, f2)),
            lookups=sorted(set(inputs(s1, s1 + 's')) | set(words('aAbB', 2, 1))))


def triples(tier):
    base = 'ab'
    pool = [entry(s, f) for s in case_patterns(base) for f in ('', 'K', 'S')]
    yield from subsets(pool, 3, 3)


def run_triples(ctx, config):
    compare(ctx, aff('KEEPCASE K', *AFFIXES), dic(*config), lookups=inputs('ab', 'abs'))


def alphabet(tier):
    """letters without case, letters with special casing, non-letters"""
    for chars in ('a1', "a'", 'a.', 'aé', 'aß', 'aǆ', 'aŉ', 'aσ', 'aИ', 'iİ', 'iı', 'aﬁ', 'aא', 'a_', 'aª'):
        for stem in words(chars + chars.upper()[:3] + chars.title()[-1], 3, 1):
            for keep in ('', 'K'):
                yield chars, stem, keep


def run_alphabet(ctx, config):
    chars, stem, keep = config
    texts = set(words(sorted(set(chars + chars.upper() + chars.lower())), 3, 1)) | {
        stem, stem.upper(), stem.lower(), stem.title(), stem.capitalize(), stem.swapcase()}
    compare(ctx, aff('KEEPCASE K', 'BREAK 0'), dic(entry(stem, keep)), lookups=sorted(texts))


def breaks(tier):
    """capitalization is judged part by part around a break"""
    for s1 in case_patterns('ab'):
        for s2 in case_patterns('c') + case_patterns('cd'):
            for keep in ('', 'K'):
                yield s1, s2, keep


def run_breaks(ctx, config):
    s1, s2, keep = config
    compare(ctx, aff('KEEPCASE K'), dic(entry(s1, keep), s2), lookups=inputs(s1 + '-' + s2, s1, s2))


def compounds(tier):
    for s1 in case_patterns('ab'):
        for s2 in case_patterns('cd'):
            for keep in ('', 'K'):
                yield s1, s2, keep


def run_compounds(ctx, config):
    s1, s2, keep = config
    compare(ctx, aff('KEEPCASE K', 'COMPOUNDFLAG C', 'COMPOUNDMIN 1'),
            dic(entry(s1, 'C' + keep), entry(s2, 'C')), lookups=inputs(s1 + s2, s2 + s1, s1))


def longer(tier):
    """long words: one deviating letter at every position"""
    for n in (5, 8, 13, 21):
        for keep in ('', 'K'):
            for pattern in ('lower', 'init', 'upper', 'mixed'):
                yield n, keep, pattern


def run_longer(ctx, config):
    n, keep, pattern = config
    low = ('abcdefghij' * 3)[:n]
    stem = {'lower': low, 'init': low.capitalize(), 'upper': low.upper(), 'mixed': low[:2] + low[2:4].upper() + low[4:]}
    texts = set()
    for base in stem.values():
        texts.add(base)
        for i in range(n):
            texts.add(base[:i] + base[i].swapcase() + base[i + 1:])
    compare(ctx, aff('KEEPCASE K', *AFFIXES), dic(entry(stem[pattern], keep + 'S')),
            lookups=sorted(texts | {t + 's' for t in texts} | {t + 'S' for t in texts}))


SPACES = [
    Space('single', 'one stem up to 4 letters in every case pattern, every flag subset; every case pattern of the stem '
          'and its affixed forms, every word up to 2 letters over {a,A,b,B}', single, run_single),
    Space('pairs', 'two entries with the same letters in every pair of case patterns and flags', pairs, run_pairs),
    Space('triples', 'three of the entries ab in 4 case patterns with and without KEEPCASE or suffix', triples,
          run_triples),
    Space('alphabet', 'stems up to 3 symbols with caseless and specially cased characters, all words over the same '
          'characters up to 3', alphabet, run_alphabet),
    Space('breaks', 'two parts joined by a hyphen in every case pattern', breaks, run_breaks),
    Space('compounds', 'compounds of two parts in every case pattern', compounds, run_compounds),
    Space('longer', 'words of 5..21 letters with one letter of the opposite case at every position', longer, run_longer),
]
SPACES.append(contexts.lookup_space(kernels.C03))
SPACES.append(ladders.space(ladders.C03))
