"""C02: NEEDAFFIX, CIRCUMFIX, ONLYINCOMPOUND."""
from . import contexts, kernels, ladders
from .common import *

HEAD = ('NEEDAFFIX N', 'CIRCUMFIX C', 'ONLYINCOMPOUND O')


def suffixes(tier):
    """stem, prefix, suffix, second suffix: every placement of the marks"""
    for stem_marks in subsets('NO'):
        for s in subsets('NCO'):
            for t in subsets('NCO'):
                for p in subsets('NCO'):
                    for homonym in (None, '', 'S', 'NP', 'OP'):
                        yield tuple(''.join(x) for x in (stem_marks, s, t, p)) + (homonym,)


WORDS = sorted({p + x + s for p in words('pq', 2) for x in ('x', 'y') for s in words('st', 2)} | {'s', 'p', 'ps', 't'})


def run_suffixes(ctx, config):
    stem, s, t, p, homonym = config
    entries = [entry('x', 'SP' + stem)] + ([entry('x', homonym)] if homonym is not None else []) + ['y/S']
    compare(ctx, aff(*HEAD, rule('SFX', 'S', '', 's', '.', s + 'T'), rule('SFX', 'T', '', 't', '.', t),
                     rule('PFX', 'P', '', 'p', '.', p)), dic(*entries), lookups=WORDS)


def prefixes(tier):
    """two prefixes and a suffix"""
    for stem_marks in subsets('NO'):
        for p in subsets('NCO'):
            for q in subsets('NCO'):
                for s in subsets('NCO'):
                    for via in ('PS', 'P', 'S'):
                        yield tuple(''.join(x) for x in (stem_marks, p, q, s)) + (via,)


def run_prefixes(ctx, config):
    stem, p, q, s, via = config
    compare(ctx, aff('COMPLEXPREFIXES', *HEAD, rule('PFX', 'P', '', 'p', '.', p + 'QS'),
                     rule('PFX', 'Q', '', 'q', '.', q), rule('SFX', 'S', '', 's', '.', s)),
            dic(entry('x', via + stem), 'y/P'), lookups=WORDS)


def same_text(tier):
    """zero affixes, homonyms and alternative derivations of the same text"""
    pool = ['x', 'x/N', 'x/O', 'x/S', 'x/NS', 'x/OS', 'xs', 'xs/N', 'xs/O', 'x/Z', 'x/NZ', 'x/NP', 'px/N', 'px/S', 'px/NS']
    for entries in subsets(pool, 1, 3 if tier == 'quick' else 4):
        for z in ('', 'N', 'O'):
            yield entries, z


def run_same_text(ctx, config):
    entries, z = config
    compare(ctx, aff(*HEAD, rule('SFX', 'S', '', 's', '.'), rule('SFX', 'Z', '', '', '.', z),
                     rule('PFX', 'P', '', 'p', '.')), dic(*entries), lookups=words(['x', 's', 'p'], 3, 1))


def others(tier):
    """the marks off: the same flags without a directive mean nothing; each directive alone"""
    for heads in subsets(HEAD):
        for stem in subsets('NCO'):
            for s in subsets('NCO'):
                for p in subsets('NC'):
                    yield tuple(''.join(x) for x in (stem, s, p)) + (heads,)


def run_others(ctx, config):
    stem, s, p, heads = config
    compare(ctx, aff(*heads, rule('SFX', 'S', '', 's', '.', s), rule('PFX', 'P', '', 'p', '.', p)),
            dic(entry('x', 'SP' + stem), entry('xs', 'P')), lookups=WORDS)


def compounds(tier):
    """ONLYINCOMPOUND and NEEDAFFIX in compounds"""
    for x in subsets('NOS'):
        for y in subsets('NOS'):
            for s in subsets('NOC'):
                for homonym in (None, 'C', 'O'):
                    yield tuple(''.join(f) for f in (x, y, s)) + (homonym,)


def run_compounds(ctx, config):
    x, y, s, homonym = config
    entries = [entry('x', 'C' + x), entry('y', 'C' + y)] + ([entry('x', homonym)] if homonym else [])
    compare(ctx, aff('COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'NEEDAFFIX N', 'ONLYINCOMPOUND O',
                     rule('SFX', 'S', '', 's', '.', s)), dic(*entries), lookups=words('xys', 4, 1))


SPACES = [
    Space('suffixes', 'every placement of the three marks on a stem (with homonym), prefix, suffix, second suffix; '
          'words with up to 2 prefixes and 2 suffixes', suffixes, run_suffixes),
    Space('prefixes', 'the same with two prefixes and a suffix (COMPLEXPREFIXES)', prefixes, run_prefixes),
    Space('same-text', 'up to 3 (thorough 4) of 15 entries giving the same texts differently, zero-length affix; words '
          'up to 3 symbols', same_text, run_same_text),
    Space('directives', 'every subset of the directives with every placement of their flags', others, run_others),
    Space('compounds', 'marks on parts and affixes of compounds, words up to 4 symbols', compounds, run_compounds),
]
SPACES.append(contexts.lookup_space(kernels.C02))
SPACES.append(ladders.space(ladders.C02))
