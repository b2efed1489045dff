"""C04: sharp s and Turkic i."""
from . import contexts, kernels, ladders
from .common import *


def german(tier):
    n = 5 if tier == 'thorough' else 4
    for stem in words(['s', 'ß', 'a'], n, 1):
        for keep in ('', 'K'):
            for sharps in (True, False):
                yield stem, keep, sharps
    for stem in words(['S', 'ß', 'a', 'A', 'ẞ'], 3, 1):
        for keep in ('', 'K'):
            for sharps in (True, False):
                yield stem, keep, sharps


def german_inputs(stem):
    low = stem.lower()
    texts = {stem, low}
    # every sharp s written as itself, ss or SS, every letter in both cases
    options = [''] if not low else ['']
    for c in low:
        alts = [c, c.upper()] if c != 'ß' else ['ß', 'ss', 'SS', 'ẞ', 'Ss']
        options = [o + a for o in options for a in alts]
        options = options[:4000]
    texts.update(options)
    texts.add(low.replace('ss', 'ß'))
    texts.add(low.replace('ss', 'ß').upper().replace('SS', 'ß'))
    texts.add(low.upper().replace('SS', 'ß', 1))
    return sorted(t for t in texts if t)


def run_german(ctx, config):
    stem, keep, sharps = config
    compare(ctx, aff('LANG de_DE', 'KEEPCASE K', 'CHECKSHARPS' if sharps else '', rule('SFX', 'E', '', 'e', '.')),
            dic(entry(stem, 'E' + keep)),
            lookups=german_inputs(stem) + [t + e for t in german_inputs(stem)[:60] for e in ('e', 'E')])


def german_suggestions(tier):
    """capitalization of suggested words with sharp s that must keep their case, with and without CHECKSHARPS"""
    for stem in ('daß', 'ßad', 'aßd', 'dass', 'maßmaß', 'Daß', 'adb'):
        for keep in ('', 'K'):
            for sharps in (True, False):
                for lang in ('', 'de_DE'):
                    yield stem, keep, sharps, lang


def run_german_suggestions(ctx, config):
    stem, keep, sharps, lang = config
    wrong = [t for s in (stem + 'x', 'x' + stem, stem[:1] + 'x' + stem[1:]) for t in case_patterns(s)]
    compare(ctx, aff(lang and 'LANG ' + lang, 'KEEPCASE K', sharps and 'CHECKSHARPS'), dic(entry(stem, keep), 'qqq'), lookups=case_patterns(stem), suggests=wrong)


def german_pairs(tier):
    stems = [s for s in words(['s', 'ß', 'a'], 3, 2) if 'ß' in s or 'ss' in s]
    for one in stems:
        for two in stems:
            for keep in ('', 'K'):
                yield one, two, keep


def run_german_pairs(ctx, config):
    one, two, keep = config
    compare(ctx, aff('KEEPCASE K', 'CHECKSHARPS'), dic(entry(one, keep), two),
            lookups=sorted(set(german_inputs(one)) | set(german_inputs(two))),
            suggests=[one.upper(), two.capitalize(), one[1:], one.upper()[:-1] + 'A'])


def german_compounds(tier):
    for one in ('as', 'aß', 'ass', 'ßa', 'sa'):
        for two in ('sa', 'ßa', 'ssa', 'a'):
            for keep in ('', 'K'):
                for sharps in (True, False):
                    yield one, two, keep, sharps


def run_german_compounds(ctx, config):
    one, two, keep, sharps = config
    texts = set()
    for t in (one + two, two + one, one + '-' + two):
        texts |= set(german_inputs(t))
    compare(ctx, aff('KEEPCASE K', 'CHECKSHARPS' if sharps else '', 'COMPOUNDFLAG C', 'COMPOUNDMIN 1'),
            dic(entry(one, 'C' + keep), entry(two, 'C')), lookups=sorted(texts))


def turkic(tier):
    langs = ('tr', 'tr_TR', 'az', 'crh', 'en_US', None)
    n = 3
    for lang in langs:
        for stem in words(['i', 'ı', 'k', 'İ', 'I', 'K'], n, 1):
            yield lang, stem, ''
        for stem in words(['i', 'ı', 'K'], n, 1):
            yield lang, stem, 'K'


def run_turkic(ctx, config):
    lang, stem, keep = config
    compare(ctx, aff('LANG ' + lang if lang else '', 'KEEPCASE K', 'TRY iık'),
            dic(entry(stem, keep)), lookups=words(['i', 'ı', 'k', 'İ', 'I', 'K'], 3, 1))


def turkic_suggest(tier):
    for lang in ('tr', 'tr_TR', 'az', 'crh', 'en_US'):
        for stem in words(['i', 'ı', 'k'], 3, 2):
            yield lang, stem


def run_turkic_suggest(ctx, config):
    lang, stem = config
    texts = words(['i', 'ı', 'k', 'İ', 'I', 'K'], 3, 1)
    compare(ctx, aff('LANG ' + lang, 'TRY iık'), dic(stem, 'kk'), suggests=texts, order=False)


def german_suggest(tier):
    for stem in ('straße', 'strasse', 'Straße', 'maß', 'masse', 'ßa'):
        for keep in ('', 'K'):
            for sharps in (True, False):
                yield stem, keep, sharps


def run_german_suggest(ctx, config):
    stem, keep, sharps = config
    texts = set()
    for base in (stem, stem.upper(), stem.capitalize(), stem.upper().replace('SS', 'ß'), stem.replace('ß', 'ss')):
        texts |= near([base], 'xX')
    compare(ctx, aff('KEEPCASE K', 'CHECKSHARPS' if sharps else '', 'TRY aesß', table('REP', ['ß ss', 'ss ß'])),
            dic(entry(stem, keep)), suggests=sorted(texts), order=False)


SPACES = [
    Space('german', 'stems up to 4 letters (thorough 5) over {s,ß,a}, with and without CHECKSHARPS and KEEPCASE; every '
          'case pattern with every spelling of each sharp s', german, run_german),
    Space('german-suggestions', '7 words with KEEPCASE and CHECKSHARPS or without; every case pattern of misspellings', german_suggestions, run_german_suggestions),
    Space('german-pairs', 'two stems differing in ss and ß, all their spellings, suggestions', german_pairs,
          run_german_pairs),
    Space('german-compounds', 'compounds and hyphenated words with ss/ß at the joint', german_compounds,
          run_german_compounds),
    Space('german-suggest', 'one-letter edits of words with sharp s in every capitalization, full suggestion lists',
          german_suggest, run_german_suggest),
    Space('turkic', 'stems and words up to 3 letters over {i,ı,k,İ,I,K} for each Turkic and two other LANG settings',
          turkic, run_turkic),
    Space('turkic-suggest', 'full suggestion lists for words up to 3 letters over the same letters', turkic_suggest,
          run_turkic_suggest),
]
SPACES.append(contexts.lookup_space(kernels.C04))
SPACES.append(ladders.space(ladders.C04))
