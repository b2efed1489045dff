"""C30: options of checking and detailed results agree with the plain answers."""
from . import contexts
from .common import *
from .pool import POOL

OPTIONS = [{}, {'capitalization': False}, {'allow_nosuggest': False}, {'capitalization': False, 'allow_nosuggest': False}]


def check(ctx, text, entries, lookups, suggests):
    model = Model(text, entries)
    d = ctx.load(text, entries)
    for word in lookups:
        answers = []
        for given in OPTIONS:
            got = ctx.call('lookuper', lambda w: d.lookuper(w, **given), word)
            ctx.states += 1
            expected = model.accepts(word, given.get('capitalization', True), given.get('allow_nosuggest', True))
            if got is not expected:
                ctx.fail('checking with %r differs from the model' % given, expected, got)
            answers.append(got)
        if answers[0] != ctx.lookup(d, word):
            ctx.fail('the checker and the dictionary disagree', answers[0], not answers[0])
        if answers[1] > answers[0] or answers[2] > answers[0] or answers[3] > min(answers[1:3]):
            ctx.fail('an option that restricts accepts more', answers[0], answers)
        for given in OPTIONS:
            both = ctx.call('good_forms', lambda w: list(d.lookuper.good_forms(w, **given)), word)
            affixed = ctx.call('good_forms', lambda w: list(d.lookuper.good_forms(w, compound_forms=False, **given)), word)
            compound = ctx.call('good_forms', lambda w: list(d.lookuper.good_forms(w, affix_forms=False, **given)), word)
            none = ctx.call('good_forms', lambda w: list(d.lookuper.good_forms(w, affix_forms=False, compound_forms=False, **given)), word)
            ctx.states += 4
            if any(hasattr(f, 'parts') for f in affixed) or not all(hasattr(f, 'parts') for f in compound) or none:
                ctx.fail('an option reports forms of the other kind', 'affix forms, compounds, nothing', [affixed, compound, none])
            if sorted(map(repr, both)) != sorted(map(repr, affixed + compound)):
                ctx.fail('forms are not those of the two kinds together', list(map(repr, both)), list(map(repr, affixed + compound)))
    for word in suggests:
        plain = ctx.suggest(d, word)
        found = ctx.call('suggestions', lambda w: list(d.suggester.suggestions(w)), word)
        called = ctx.call('suggester', lambda w: list(d.suggester(w)), word)
        ctx.states += 2
        if [s.text for s in found] != plain or called != plain:
            ctx.fail('detailed suggestions differ from the plain ones', plain, [[s.text for s in found], called])
        expected = sorted(model.suggestions(word))
        got = sorted((s.text, s.kind) for s in found)
        if got != expected:
            ctx.fail('kinds of suggestions differ from the model', expected, got)


def run_backgrounds(ctx, config):
    k, chosen = config
    text, entries, lookups, suggests = contexts.build(contexts.EVERY, k, chosen)
    check(ctx, text, entries, lookups, suggests[:3])


def pool(tier):
    yield from POOL


def run_pool(ctx, name):
    text, entries, asked = POOL[name]
    cased = sorted({w for a in asked for w in (a, a.upper(), a.capitalize(), a.lower(), a[:1].lower() + a[1:].upper(), a[:-1], a + 's')} - {''})
    check(ctx, text, entries, cased, cased)


def marked(tier):
    """NOSUGGEST on some entries, in every capitalization, broken and numeric words"""
    entries = ['ab', 'Ab', 'AB', 'aB', 'ba/C', 'Ba/C', 'ab-ba', '1a', 'ab/S']
    for chosen in subsets(entries, 1, 3):
        for marks in subsets(range(len(chosen)), 0):
            for mark in '!K':
                yield chosen, marks, mark


def run_marked(ctx, config):
    chosen, marks, mark = config
    entries = [e + ('' if '/' in e else '/') + mark if i in marks else e for i, e in enumerate(chosen)]
    words_ = [w for base in ('ab', 'ba', 'abs', 'baba') for w in case_patterns(base)]
    words_ += ['ab-ba', 'Ab-ba', 'AB-BA', '-ab', 'ab-', 'Ab-', '12', '1.5', '1a', '1A', 'ab-12', 'ab-ab-ba', '']
    check(ctx, aff('NOSUGGEST !', 'KEEPCASE K', 'COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'TRY ab', rule('SFX', 'S', '', 's', '.')), dic(*entries),
          words_, ['abb', 'Abb', 'aab', 'ABB', 'bab', 'ab-bb'])


SPACES = [
    Space('backgrounds', contexts.EVERYTHING, contexts.everything, run_backgrounds),
    Space('pool', '%d dictionaries of every kind, words in 5 capitalizations' % len(POOL), pool, run_pool),
    Space('marked', 'up to 3 of 9 entries, every subset marked NOSUGGEST or KEEPCASE, every capitalization', marked, run_marked),
]
