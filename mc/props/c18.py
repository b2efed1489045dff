"""C18: NOSUGGEST."""
from . import contexts, kernels, ladders
from .common import *


def check(ctx, aff_lines, entries, marked, lookups, suggests):
    """entries: list of entries, marked: indexes of those that get the mark"""
    full = [e if i not in marked else e + ('' if '/' in e else '/') + '!' for i, e in enumerate(entries)]
    head = aff('NOSUGGEST !', *aff_lines)
    model = Model(head, dic(*full))
    d = ctx.load(head, dic(*full))
    plain = ctx.load(aff(*aff_lines), dic(*entries), 'unmarked')
    for word in lookups:
        expected = ctx.lookup(plain, word)
        got = ctx.lookup(d, word)
        if got != expected:
            ctx.fail('NOSUGGEST changes acceptance', expected, got)
    for word in suggests:
        got = ctx.suggest(d, word)
        for s in got:
            if model.accepts(s, nosug=False):
                continue
            if not all(model.accepts(p, nosug=False) for p in s.split(' ')) and \
                    not all(model.accepts(p, nosug=False) for p in s.replace('-', ' ').split(' ')):
                ctx.fail('a suggestion needs a NOSUGGEST stem', 'no such suggestion', s)
        expected = model.suggest(word)
        if sorted(got) != sorted(expected):
            ctx.fail('suggestions differ from the model', expected, got)


def affixes(tier):
    pool = ['lock/SP', 'locks', 'unlock', 'look/S', 'Lock', 'clock', 'lock', 'block/P', 'unlocks']
    for chosen in subsets(pool, 1, 3):
        for marked in subsets(range(len(chosen)), 1):
            yield chosen, marked


def run_affixes(ctx, config):
    chosen, marked = config
    check(ctx, ('TRY locksunb', rule('SFX', 'S', '', 's', '.'), rule('PFX', 'P', '', 'un', '.')), chosen, marked,
          lookups=['lock', 'locks', 'unlock', 'unlocks', 'LOCK', 'Lock', 'UNLOCKS', 'clock', 'block', 'unblock', 'look', 'Looks', 'lok'],
          suggests=['lok', 'lokc', 'loks', 'unlok', 'unlokcs', 'LOK', 'Lok', 'clok', 'lock-lok', 'looks', 'locklook', 'ublock', 'locksx'])


def twice(tier):
    """forms with two suffixes, two prefixes and both, and parts of compounds with affixes"""
    pool = ['lock/SP', 'lock/S', 'locka/T', 'locks', 'lockst/C', 'qplock', 'lockC/C', 'lock/CSP']
    for chosen in subsets(pool, 1, 3):
        for marked in subsets(range(len(chosen)), 1):
            for permit in (False, True):
                yield chosen, marked, permit


def run_twice(ctx, config):
    chosen, marked, permit = config
    more = 'W' * permit
    check(ctx, ('TRY lockstpq', 'COMPLEXPREFIXES', 'COMPOUNDFLAG C', 'COMPOUNDPERMITFLAG W', rule('SFX', 'S', '', 's', '.', 'T' + more),
                rule('SFX', 'T', '', 't', '.', more), rule('PFX', 'P', '', 'p', '.', 'Q' + more), rule('PFX', 'Q', '', 'q', '.', more)),
          chosen, marked,
          lookups=['lock', 'locks', 'lockst', 'plock', 'qplock', 'qplockst', 'plocks', 'QPLOCKST', 'Lockst', 'locklock', 'lockslock',
                   'locksqplock', 'locklockst', 'qplocklockst'],
          suggests=['lcoks', 'lockts', 'lockxst', 'qpxlock', 'pqlockst', 'qplocsk', 'qplcoks', 'QPLCOKST', 'locklcok', 'lockslokc',
                    'locklockts', 'lokcslockst', 'pqlocklock', 'lockst-lockts', 'lockstlock'])


def affix_flags(tier):
    """the flag on a rule of affixes says nothing about the stem"""
    for chosen in subsets(['lock/SP', 'locks', 'look/S', 'unlock/N', 'lock/N', 'clock/C', 'lock/SC'], 1, 3):
        for s, p in (('N', ''), ('', 'N'), ('N', 'N')):
            yield chosen, s, p


def run_affix_flags(ctx, config):
    chosen, s, p = config
    compare(ctx, aff('TRY locksun', 'NOSUGGEST N', 'COMPOUNDFLAG C', rule('SFX', 'S', '', 's', '.', s), rule('PFX', 'P', '', 'un', '.', p)), dic(*chosen),
            lookups=['lock', 'locks', 'unlock', 'unlocks', 'clocklocks', 'LOCKS'],
            suggests=['lok', 'lcoks', 'loks', 'unlok', 'unlokcs', 'LCOKS', 'lcoks-lock', 'clocklcoks', 'nulock'])


def compounds(tier):
    pool = ['cat/C', 'dog/C', 'cow/C', 'catdog', 'catcow/C', 'dogs/C', 'cat dog', 'cat/CS']
    for chosen in subsets(pool, 1, 3 if tier == 'quick' else 4):
        for marked in subsets(range(len(chosen)), 1):
            for rules in (False, True):
                yield chosen, marked, rules


def run_compounds(ctx, config):
    chosen, marked, rules = config
    check(ctx, (table('COMPOUNDRULE', ['CC', 'CCC']) if rules else 'COMPOUNDFLAG C', 'TRY catdogwb', rule('SFX', 'S', '', 's', '.')),
          chosen, marked,
          lookups=['cat', 'catdog', 'catcow', 'dogcat', 'catcowdog', 'catdogs', 'CATDOG', 'Catcow', 'cowcow', 'catx', 'cat dog'],
          suggests=['catdgo', 'catcwo', 'dogcta', 'catdogcow', 'ctcow', 'catcowx', 'cta', 'catdogsx', 'CATDGO', 'Catcowcwo', 'cat-cwo', 'catbow'])


def kinds(tier):
    """a marked word within reach of every kind of suggestion"""
    pool = ['vacation', 'vacations', 'location', 'vaca', 'tion', 'Vacation', 'vacation trip', 'trip', 'VACATION', 'vocation']
    for chosen in subsets(pool, 1, 3):
        for marked in subsets(range(len(chosen)), 1, 2):
            yield chosen, marked


def run_kinds(ctx, config):
    chosen, marked = config
    check(ctx, ('TRY aiovctns', 'KEY vbn|acd', rule('SFX', 'S', '', 's', '.'), table('REP', ['k c', 'xt ti', 'q _']),
                table('MAP', ['aä', 'oö']), table('PHONE', ['V F', 'F F', 'A _', 'C K', 'K K', 'T T', 'I _', 'O _', 'N N', 'S$ S'])), chosen, marked,
          lookups=['vacation', 'Vacation', 'VACATION', 'vacations', 'location', 'vacation trip', 'vaca', 'vaca-tion', 'trip'],
          suggests=['vacasion', 'vakation', 'väcation', 'avcation', 'bacation', 'vaction', 'vacacation', 'vacaqtion', 'vacationtrip',
                    'fakashn', 'VACATIO', 'Vacatoin', 'vacation-trxp', 'locaton', 'vacatIon', 'vacation-vacaton'])


def breaks(tier):
    pool = ['cat', 'dog', 'cat-dog', 'cow', 'dog-cow', 'Cat']
    for chosen in subsets(pool, 1, 4):
        for marked in subsets(range(len(chosen)), 1):
            yield chosen, marked


def run_breaks(ctx, config):
    chosen, marked = config
    check(ctx, ('TRY catdogw-',), chosen, marked, lookups=['cat-dog', 'dog-cat', 'cat-dog-cow', 'CAT-DOG', 'Cat-cow', '-cat', 'cow-'],
          suggests=['cat-dgo', 'cta-dog', 'catdog', 'dog-cwo', 'cat-dog-cwo', 'cowcat', 'Cat-dgo', 'dogcow', 'cat-cow-dgo', '-cta'])


SPACES = [
    Space('affixes', 'up to 3 of 9 entries, every subset marked', affixes, run_affixes),
    Space('twice', 'up to 3 of 8 entries taking two suffixes, two prefixes and both, also in compounds; every subset marked', twice, run_twice),
    Space('affix-flags', 'up to 3 of 7 entries, the flag also on rules of affixes', affix_flags, run_affix_flags),
    Space('compounds', 'up to 3 (thorough 4) of 8 compoundable entries, every subset marked, flags and rules', compounds, run_compounds),
    Space('kinds', 'up to 3 of 10 entries, up to 2 marked; misspellings for every kind', kinds, run_kinds),
    Space('breaks', 'up to 4 of 6 entries around hyphens, every subset marked', breaks, run_breaks),
]
SPACES.append(contexts.suggest_space(kernels.SUGGEST['C18']))
SPACES.append(ladders.space(ladders.C18))
