"""C26: the bundled dictionaries answer consistently with their own files."""
from .. import bundled
from .common import *

LANGS = ('en', 'ru', 'sv')
CHUNKS = 256
SIZES = {'en': 49568, 'ru': 146433, 'sv': 152175}


def chunks(tier):
    for lang in LANGS:
        for n in range(CHUNKS):
            yield lang, n


def run_entries(ctx, config):
    """every entry and every form derived from it"""
    lang, n = config
    model, d = bundled.get(ctx, lang)
    cased = lang == 'en' or ctx.tier == 'thorough'
    whole = cased or n % 4 == 0
    for entry_ in model.entries[n::CHUNKS]:
        for form, text in model.derive(entry_, entry_.stem):
            plain = not form.sufs and not form.prefs
            if not plain and not whole:
                break
            variants = [text]
            if cased or plain and whole:
                variants += [text[0].upper() + text[1:], text.upper()] if text else []
            for word in variants:
                cap = model.case.type(word)
                if not text or not model.aff.ICONV and not model.any_forbidden(form.stem) and word == text and \
                        not model.all_forbidden(word) and \
                        model.form_ok(form, None, cap, True):
                    expected = True
                else:
                    expected = model.accepts(word)
                got = ctx.lookup(d, word)
                if got != expected:
                    ctx.fail('lookup of a form of %r differs from the model' % entry_.stem, expected, got)


def slices(tier):
    """entries taken with a fixed step"""
    step = {'en': 16, 'ru': 240, 'sv': 720} if tier == 'quick' else {'en': 2, 'ru': 8, 'sv': 16}
    for lang in LANGS:
        for n in range(0, SIZES[lang], step[lang] * 4):
            yield lang, n, step[lang]


LETTERS = {'en': "es'", 'ru': 'ая', 'sv': 'sa-'}


def mutations(word, letters):
    yield word + word[-1:]
    for i in range(len(word)):
        yield word[:i] + word[i + 1:]
        yield word[:i] + word[i:i + 1].upper() + word[i + 1:]
        if i:
            yield word[:i - 1] + word[i] + word[i - 1] + word[i + 1:]
        for c in letters:
            yield word[:i] + c + word[i + 1:]
            yield word[:i + 1] + c + word[i + 1:]


def run_mutations(ctx, config):
    lang, n, step = config
    model, d = bundled.get(ctx, lang)
    for entry_ in model.entries[n:n + step * 4:step]:
        derived = [text for _, text in model.derive(entry_, entry_.stem)]
        sources = [derived[0]] + ([derived[-1]] if len(derived) > 1 else [])
        for word in sorted({w for s in sources for w in mutations(s, LETTERS[lang])} - {''}):
            expected = model.accepts(word)
            got = ctx.lookup(d, word)
            if got != expected:
                ctx.fail('lookup of a mutation of %r differs from the model' % entry_.stem, expected, got)


def misspelled(tier):
    step = {'en': 200, 'ru': 9000, 'sv': 12000} if tier == 'quick' else {'en': 50, 'ru': 900, 'sv': 900}
    for lang in LANGS:
        for n in range(step[lang] // 2, SIZES[lang], step[lang]):
            yield lang, n


def run_suggest(ctx, config):
    lang, n = config
    model, d = bundled.get(ctx, lang)
    if n >= len(model.entries):
        return
    stem = model.entries[n].stem
    middle = len(stem) // 2
    for word in sorted({stem[:middle] + stem[middle + 1:], stem[:middle] + LETTERS[lang][0] + stem[middle:]} - {''}):
        known = model.accepts(word)
        got = ctx.suggest(d, word)
        if len(set(got)) != len(got):
            ctx.fail('a suggestion is repeated', 'once', got)
        for suggestion in got:
            if not all(model.accepts(part) for part in suggestion.split(' ')):
                ctx.fail('a suggestion is not an accepted word', 'accepted', suggestion)
        if not known and model.accepts(stem) and model.good(stem, nosug=False, compound=False) and \
                not any(model.all_forbidden(s) for s in (stem, word)) and len(stem) > 3 and stem not in got:
            # one edit away: the word itself is found by edits, unless the limits of n-gram or phonetic search apply
            ctx.fail('the word one edit away is not suggested', stem, got)


SPACES = [
    Space('entries', 'every entry and every derived form of the bundled English, Russian and Swedish dictionaries, also '
          'capitalized and upper-cased (quick: English in full; Russian and Swedish: every entry as written, every derived '
          'form of each fourth entry, each fourth entry in other cases)', chunks, run_entries),
    Space('mutations', 'every removal, transposition, doubling, change of case and replacement or insertion of 2-3 letters '
          'in entries taken with a fixed step, and in their last derived form', slices, run_mutations),
    Space('suggestions', 'suggestions for one-letter misspellings of entries taken with a fixed step', misspelled,
          run_suggest),
]

ASSUMPTIONS = ['the bundled .aff and .dic files are the specification of what the bundled dictionaries contain']
