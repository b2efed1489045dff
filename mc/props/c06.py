"""C06: compounding by flags."""
from . import contexts, kernels, ladders
from .common import *

POS = ('COMPOUNDBEGIN B', 'COMPOUNDMIDDLE M', 'COMPOUNDEND E')


def positions(tier):
    """three stems with every set of position flags"""
    for a in subsets('BME'):
        for b in subsets('BME'):
            for c in subsets('BME') if tier == 'thorough' else [(), ('M',), ('B', 'E'), ('M', 'E')]:
                for head in ('', 'COMPOUNDWORDMAX 2', 'COMPOUNDWORDMAX 3'):
                    yield tuple(''.join(x) for x in (a, b, c)) + (head,)


def run_positions(ctx, config):
    a, b, c, head = config
    compare(ctx, aff(*POS, 'COMPOUNDMIN 1', head), dic(entry('a', a), entry('b', b), entry('ab', c)),
            lookups=words('ab', 5, 1))


def flag(tier):
    """COMPOUNDFLAG, overlapping stems, lengths"""
    stems = ['a', 'b', 'ab', 'ba', 'aa', 'aba', 'bb']
    for chosen in subsets(stems, 1, 4 if tier == 'quick' else 5):
        for least in (1, 2, 3):
            for most in (None, 1, 2, 3):
                yield chosen, least, most


def run_flag(ctx, config):
    chosen, least, most = config
    compare(ctx, aff('COMPOUNDFLAG C', 'COMPOUNDMIN %d' % least, most and 'COMPOUNDWORDMAX %d' % most),
            dic(*[s + '/C' for s in chosen]), lookups=words('ab', 6, 1))


def default_min(tier):
    for stems in subsets(['ab', 'abc', 'abcd', 'c', 'cab'], 1):
        yield stems


def run_default_min(ctx, config):
    parts = ['ab', 'abc', 'abcd', 'c', 'cab']
    compare(ctx, aff('COMPOUNDFLAG C'), dic(*[s + '/C' for s in config]),
            lookups=sorted({x + y + z for x in parts for y in parts + [''] for z in parts + ['']}))


def affixes(tier):
    """affixes with permit and forbid flags, flags given by the stem or by the affix"""
    for stem in subsets('BEC'):
        for s in subsets('XYBEC' if tier == 'thorough' else 'XYBE'):
            for p in subsets('XYBE'):
                for other in ('C', 'BE'):
                    yield tuple(''.join(x) for x in (stem, s, p)) + (other,)


AFFIXED = sorted({p + x + s for p in ('', 'p', 'pp') for x in ('', 'x', 'y') for s in ('', 's', 'ss')})
AFFIXED_WORDS = sorted({x + y for x in AFFIXED for y in AFFIXED if x + y} |
                       {x + y + z for x in ('x', 'xs', 'px', 'y', 'pxs') for y in ('x', 'xs', 'px', 'y')
                        for z in ('x', 'xs', 'px', 'y')})


def run_affixes(ctx, config):
    stem, s, p, other = config
    compare(ctx, aff('COMPOUNDFLAG C', *POS[::2], 'COMPOUNDMIN 1', 'COMPOUNDPERMITFLAG X', 'COMPOUNDFORBIDFLAG Y',
                     rule('SFX', 'S', '', 's', '.', s), rule('PFX', 'P', '', 'p', '.', p)),
            dic(entry('x', 'SP' + stem), entry('y', other)), lookups=AFFIXED_WORDS)


def two_affixes(tier):
    """two affixes on the same side, each with permit, forbid and position flags"""
    for stem in ('C', 'BE', ''):
        for inner in subsets('XYBE'):
            for outer in subsets('XYBE'):
                for kind in ('SFX', 'PFX'):
                    yield stem, ''.join(inner), ''.join(outer), kind


TWICE = {'SFX': ['x', 'xs', 'xst', 'y', 'xt'], 'PFX': ['x', 'sx', 'tsx', 'y', 'tx']}


def run_two_affixes(ctx, config):
    stem, inner, outer, kind = config
    compare(ctx, aff('COMPOUNDFLAG C', *POS[::2], 'COMPOUNDMIN 1', 'COMPOUNDPERMITFLAG X', 'COMPOUNDFORBIDFLAG Y', 'COMPLEXPREFIXES' if kind == 'PFX' else '',
                     rule(kind, 'S', '', 's', '.', inner + 'T'), rule(kind, 'T', '', 't', '.', outer)),
            dic(entry('x', 'S' + stem), 'y/C'), lookups=words(TWICE[kind], 3, 1))


def affix_only(tier):
    """compound flags that come only with the affix, ONLYINCOMPOUND stems, NEEDAFFIX"""
    for stem in subsets('OCS'):
        for s in subsets('OCEX'):
            for head in ('', 'CHECKCOMPOUNDCASE'):
                for twice in (False, True):
                    yield ''.join(stem), ''.join(s), head, twice


def run_affix_only(ctx, config):
    stem, s, head, twice = config
    compare(ctx, aff('COMPOUNDFLAG C', 'COMPOUNDEND E', 'ONLYINCOMPOUND O', 'COMPOUNDPERMITFLAG X', 'COMPOUNDMIN 1', head,
                     rule('SFX', 'S', '', 's', '.', s + ('T' if twice else '')), rule('SFX', 'T', '', 't', '.', 'C')),
            dic(entry('x', stem), 'y/C', 'x/S'), lookups=words(['x', 'y', 's', 't'], 4, 1))


def case(tier):
    """compounds in other capitalizations"""
    for a in case_patterns('ab'):
        for b in case_patterns('cd'):
            yield a, b


def run_case(ctx, config):
    a, b = config
    texts = sorted(set(case_patterns(a + b)) | set(case_patterns(b + a)) | set(case_patterns('ab')))
    compare(ctx, aff('COMPOUNDFLAG C', 'COMPOUNDMIN 1'), dic(a + '/C', b + '/C'), lookups=texts)


def ladder(tier):
    """long compounds: the limit on parts, and words without any limit"""
    for n in range(1, 13 if tier == 'quick' else 19):
        for most in (None, 2, 3, 4, 5, 7, 11):
            yield n, most


def run_ladder(ctx, config):
    n, most = config
    compare(ctx, aff(*POS, 'COMPOUNDMIN 2', most and 'COMPOUNDWORDMAX %d' % most), dic('ab/B', 'cd/M', 'ef/E', 'gh/BE'),
            lookups=['ab' + 'cd' * k + 'ef' for k in (n - 1, n)] + ['gh' * n, 'ab' * n, 'gh' + 'cd' * n, 'cd' * n + 'ef',
                                                                      'ab' + 'cd' * n + 'efef', 'ab' + 'cd' * n + 'x'])


SPACES = [
    Space('positions', 'three stems, every set of BEGIN/MIDDLE/END flags, limits on parts; all words over {a,b} up to 5',
          positions, run_positions),
    Space('flag', 'up to 4 (thorough 5) of 7 overlapping stems, COMPOUNDMIN 1..3, COMPOUNDWORDMAX; all words over {a,b} '
          'up to 6', flag, run_flag),
    Space('default-min', 'stems of 1..4 letters without COMPOUNDMIN, all words up to 3 parts', default_min,
          run_default_min),
    Space('affixes', 'a stem with prefix and suffix, every set of permit, forbid and position flags on each; words up to '
          '2 affixed parts and selected 3-part ones', affixes, run_affixes),
    Space('two-affixes', 'two suffixes or two prefixes, every set of permit, forbid and position flags on each; words up to 3 parts', two_affixes,
          run_two_affixes),
    Space('affix-only', 'position flags on affixes, ONLYINCOMPOUND, two suffixes; words up to 4 symbols', affix_only,
          run_affix_only),
    Space('case', 'two parts in every case pattern, every case pattern of the compound', case, run_case),
    Space('ladder', 'compounds of up to 12 (18) parts with limits up to 11', ladder, run_ladder),
]
SPACES.append(contexts.lookup_space(kernels.C06))
SPACES.append(ladders.space(ladders.C06))
