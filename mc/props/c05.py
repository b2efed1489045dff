"""C05: forbidden words."""
from . import contexts, kernels, ladders
from .common import *

HEAD = ('FORBIDDENWORD F', 'TRY abx', rule('SFX', 'S', '', 's', '.'), rule('PFX', 'P', '', 'p', '.'))


def never_suggested(ctx, model, d, texts):
    """no suggestion, and no word of a suggestion made of several words, is forbidden"""
    for text in texts:
        for got in ctx.suggest(d, text):
            pieces = [got]
            if not model.accepts(got):
                for piece in got.split(' '):
                    pieces += [piece] if model.accepts(piece) else piece.split('-')
            for piece in pieces:
                if piece and piece in model.by_stem and model.all_forbidden(piece):
                    ctx.fail('a forbidden word is suggested', 'not ' + piece, got)


def homonyms(tier):
    """sets of entries, forbidden or not, over two related stems"""
    pool = ['ab', 'ab/F', 'ab/S', 'ab/SF', 'ab/P', 'ab/PF', 'abs', 'abs/F', 'abs/P', 'abs/PF', 'pab/F', 'pab', 'pabs/F']
    yield from subsets(pool, 1, 3 if tier == 'quick' else 4)


def run_homonyms(ctx, config):
    entries = sorted(config) if len(config) < 3 else list(config)
    model, d = compare(ctx, aff(*HEAD), dic(*entries, 'bb'),
                       lookups=sorted({p + t + s for p in ('', 'p', 'P') for t in ('ab', 'aB', 'AB', 'Ab', 'a', 'b')
                                       for s in ('', 's', 'S', 'ss')}))
    never_suggested(ctx, model, d, ['a', 'aab', 'bab', 'abbs', 'absp', 'ppab', 'ABX', 'abab', 'Xab', 'pabss', 'absab'])


def cases(tier):
    """capitalizations of forbidden and allowed entries"""
    forms = ['ab', 'Ab', 'AB', 'aB']
    pool = [f + x for f in forms for x in ('', '/F', '/K', '/SF')]
    yield from subsets(pool, 1, 3 if tier == 'quick' else 4)


def run_cases(ctx, config):
    model, d = compare(ctx, aff('KEEPCASE K', *HEAD), dic(*config),
                       lookups=case_patterns('ab') + case_patterns('abs') + ['ab-ab', 'AB-ab', 'Ab-AB', 'xab', 'ab-x'])
    never_suggested(ctx, model, d, ['abb', 'aab', 'ABB', 'Abb', 'ba', 'BA', 'abab', 'xAb'])


def compounds(tier):
    """forbidden stems and compounds"""
    pool = ['ab/C', 'ab/CF', 'ab/CS', 'ba/C', 'ba/CF', 'abba', 'abba/F', 'abba/CF', 'baba/F', 'aba/SF', 'abas/F', 'bas/CF',
            'abb/SF']
    yield from subsets(pool, 1, 3 if tier == 'quick' else 4)


def run_compounds(ctx, config):
    parts = ['ab', 'ba', 'abs', 'bas', 's', 'aba', 'abba', 'abb']
    texts = {x + y + z for x in parts for y in [''] + parts for z in ('', 'ab', 'ba')}
    model, d = compare(ctx, aff('COMPOUNDFLAG C', 'COMPOUNDMIN 2', *HEAD), dic(*config),
                       lookups=sorted(texts | {t.capitalize() for t in texts} | {t.upper() for t in texts}))
    never_suggested(ctx, model, d, ['abab', 'abbb', 'abbaa', 'bab', 'abaab', 'ABBAB', 'abbasx', 'ab ba', 'babba'])


def rules(tier):
    pool = ['ab/X', 'ab/XF', 'ba/Y', 'ba/YF', 'ba/XF', 'abba/F', 'abba', 'baba/F', 'abab/F', 'abb/SF', 'ab/F', 'ba/F']
    yield from subsets(pool, 1, 3 if tier == 'quick' else 4)


def run_rules(ctx, config):
    model, d = compare(ctx, aff('COMPOUNDMIN 1', table('COMPOUNDRULE', ['XY', 'X*YY']), *HEAD), dic(*config),
                       lookups=[t for n in range(1, 5) for t in words(['ab', 'ba'], n, n)] + ['abbas', 'Abba', 'ABBA'])
    never_suggested(ctx, model, d, ['abbb', 'abbaa', 'abba', 'baab', 'abb', 'ABA', 'bbaa'])


def breaks(tier):
    """parts around break points, also with words listed with the hyphen"""
    pool = ['ab', 'ab/F', 'ba', 'ba/F', 'ab-ba', 'ab-ba/F', 'Ab/F', 'AB/F', '-ab/F', 'ab-/F', 'ab/S', 'ab/SF', 'abs/F']
    yield from subsets(pool, 1, 3 if tier == 'quick' else 4)


def run_breaks(ctx, config):
    one = ['ab', 'ba', 'Ab', 'AB', 'abs', 'xx']
    texts = {a + '-' + b for a in one for b in one} | {'-' + a for a in one} | {a + '-' for a in one} | set(one)
    texts |= {a + '-' + b + '-' + c for a in one[:2] for b in one[:3] for c in one[:2]} | {'AB-BA', 'Ab-Ba', 'AB-'}
    model, d = compare(ctx, aff(*HEAD), dic(*config), lookups=sorted(texts))
    never_suggested(ctx, model, d, ['ab-bx', 'ax-ba', 'abba', 'abab', 'ab-b', 'abb', 'ba-aab', 'Ax-ab'])


def kinds(tier):
    """every kind of suggestion could reach the forbidden word"""
    for forbidden in ('vacation', 'vacations', 'Vacation', 'vacation trip', 'vaca'):
        for others in subsets(['vacations', 'vacation/S', 'trip', 'location', 'vaca', 'tion', 'vacation trip', 'Vacation'],
                              0, 2 if tier == 'quick' else 8):
            for flags in ('F', 'FS', 'FC'):
                yield forbidden, others, flags


def run_kinds(ctx, config):
    forbidden, others, flags = config
    text = aff('FORBIDDENWORD F', 'COMPOUNDFLAG C', 'TRY aiovctns', 'KEY vbn|acd', 'SFX S Y 1', 'SFX S 0 s .',
               table('REP', ['k c', 'xt ti', 'vaca_tion vacation']), table('MAP', ['aä', 'oö(oo)']),
               table('PHONE', ['V F', 'A 0', 'C K', 'K K', 'T T', 'I 0', 'O 0', 'N N']))
    model, d = Model(text, dic(forbidden + '/' + flags, *others)), ctx.load(text, dic(forbidden + '/' + flags, *others))
    for word in sorted({forbidden, forbidden.upper(), forbidden.capitalize(), forbidden.lower(), *others}):
        expected = model.accepts(word)
        got = ctx.lookup(d, word)
        if got != expected:
            ctx.fail('lookup differs from the model', expected, got)
    never_suggested(ctx, model, d, ['vacasion', 'vakation', 'vacaxton', 'väcation', 'avcation', 'vatacion', 'bacation',
                                    'vaccation', 'vaction', 'vacationa', 'vacacation', 'vaca tion', 'vacationtrip',
                                    'fakashn', 'VACATIO', 'Vacatoin', 'vacation-tripp', 'vacation-trxp', 'vacatoon'])


SPACES = [
    Space('homonyms', 'up to 3 (thorough 4) of 13 entries over related stems, prefixes and suffixes', homonyms,
          run_homonyms),
    Space('cases', 'up to 3 (4) of 16 entries: four capitalizations plain, forbidden, KEEPCASE, forbidden with suffix',
          cases, run_cases),
    Space('compounds', 'up to 3 (4) of 13 compoundable and forbidden entries; words up to 3 parts, three '
          'capitalizations', compounds, run_compounds),
    Space('rules', 'up to 3 (4) of 12 entries with COMPOUNDRULE; words up to 4 parts', rules, run_rules),
    Space('breaks', 'up to 3 (4) of 13 entries around hyphens; words up to 3 parts', breaks, run_breaks),
    Space('kinds', 'a forbidden word within reach of every kind of suggestion, sets of up to 2 (all) of 8 other '
          'entries', kinds,
          run_kinds),
]
SPACES.append(contexts.lookup_space(kernels.C05))
SPACES.append(contexts.suggest_space(kernels.SUGGEST['C05'], name='backgrounds-suggest'))
SPACES.append(ladders.space(ladders.C05))
