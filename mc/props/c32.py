"""C32: queries to the loaded word list."""
import itertools

from .. import bundled
from . import contexts
from .c21 import LinesModel
from .common import *


def described(word):
    return (word.stem, sorted(word.flags), {k: list(v) for k, v in word.data.items() if v}, list(word.alt_spellings), word.captype.name)


def described_entry(e):
    return (e.stem, sorted(e.flags), {k: v for k, v in e.data.items() if v}, list(e.alts), e.cap)


def same(ctx, op, expected, got):
    ctx.states += 1
    if expected != got:
        ctx.op = op
        ctx.fail('the word list answers wrongly', expected, got)


def lowered(model, stem):
    return {stem} if model.case.type(stem) == 'NO' else set(model.case.lower(stem))


class Answers:
    """What is expected of the word list, from the entries of the model."""

    def __init__(self, model):
        self.entries = [described_entry(e) for e in model.entries]
        self.exact, self.small = {}, {}
        for e in self.entries:
            self.exact.setdefault(e[0], []).append(e)
            for low in lowered(model, e[0]):
                self.small.setdefault(low, []).append(e)

    def has(self, stem, flag, for_all):
        marks = [flag in e[1] for e in self.exact.get(stem, ())]
        return bool(marks) and (all(marks) if for_all else any(marks))


def queries(ctx, d, answers, stems, flags, listed=True):
    if listed:
        same(ctx, ('dic.words',), answers.entries, [described(w) for w in ctx.call('dic.words', lambda: d.dic.words)])
    for stem in stems:
        got = ctx.call('dic.homonyms', d.dic.homonyms, stem)
        same(ctx, ('dic.homonyms', stem), answers.exact.get(stem, []), [described(w) for w in got])
        got = ctx.call('dic.homonyms ignoring case', lambda: d.dic.homonyms(stem, ignorecase=True))
        same(ctx, ('dic.homonyms ignoring case', stem), answers.small.get(stem, []), [described(w) for w in got])
        for flag in flags:
            same(ctx, ('dic.has_flag', stem, flag), answers.has(stem, flag, False), ctx.call('dic.has_flag', d.dic.has_flag, stem, flag))
            same(ctx, ('dic.has_flag for all', stem, flag), answers.has(stem, flag, True),
                 ctx.call('dic.has_flag for all', lambda: d.dic.has_flag(stem, flag, for_all=True)))


def check(ctx, text, entries, stems, flags=('A', 'B'), twice=False):
    answers = Answers(LinesModel(text, entries))
    d = ctx.load(text, entries)
    stems = list(dict.fromkeys([*stems, *answers.exact, *answers.small]))
    for _ in range(1 + twice):
        queries(ctx, d, answers, stems, flags)


#: stems by the language whose casing is used; no dotted capital I outside of Turkic languages, at most one SS
STEMS = {
    '': ['ab', 'Ab', 'AB', 'aB', 'ABc', 'AbC', 'éa', 'Éa', 'ÉA', 'I', 'i', '1a', '1A', '12', 'a-B', 'ß', 'aß', 'AßB', 'ASS', 'ss'],
    'LANG tr_TR': ['ib', 'İb', 'İB', 'ıb', 'Ib', 'IB', 'aİ', 'aI', 'iB', 'ıB'],
    'LANG az': ['ib', 'İb', 'İB', 'ıb', 'Ib', 'IB', 'aİ', 'aI'],
    'LANG crh': ['ib', 'İb', 'ıb', 'Ib', 'IB'],
    'LANG hu_HU': ['ib', 'Ib', 'IB', 'iB', 'SSa', 'ß'],
    'CHECKSHARPS': ['ß', 'ss', 'SS', 'Ss', 'aß', 'Aß', 'AßB', 'ASSB', 'aSSb', 'assb', 'aßb', 'AssB', 'ẞ', 'AẞB'],
    'LANG de_DE\nCHECKSHARPS': ['aß', 'ASS', 'AßA', 'ASSA'],
    'IGNORE -é': ['a-b', 'ab', 'A-B', 'éa', 'a', 'Aé', 'AéB', '-A'],
}


def casing(tier):
    for text, stems in STEMS.items():
        for n in range(1, 4 if len(stems) > (10 if tier == 'quick' else 14) else 5):
            for chosen in itertools.product(stems, repeat=n):
                yield text, chosen


def run_casing(ctx, config):
    text, chosen = config
    if text.startswith('IGNORE'):
        others = [*STEMS[text], 'aB', 'AB', 'A', 'b']
    else:
        others = [*STEMS[text], 'cd', 'a', 'assa', 'aßa']
    check(ctx, aff(*text.split('\n')), dic(*[s + '/' + 'AB'[i % 2] for i, s in enumerate(chosen)]), others, ('A',))


FLAGS = {'': ('A', 'B', 'C', 'D'), 'FLAG UTF-8': ('é', 'B', 'я', 'D'), 'FLAG long': ('A1', 'AB', '1A', 'BA'), 'FLAG num': ('1', '12', '21', '2')}


def homonyms(tier):
    """sequences of entries of up to three stems with every set of two flags"""
    for text in FLAGS:
        for n in range(1, 5 if tier == 'quick' else 6):
            for entries in itertools.product(itertools.product(('ab', 'Ab', 'b'), range(4)), repeat=n):
                yield text, entries


def joined(text, flags):
    return (',' if text == 'FLAG num' else '').join(flags)


def run_homonyms(ctx, config):
    text, entries = config
    first, second = FLAGS[text][:2]
    lines = [entry(stem, joined(text, [f for f, bit in ((first, 1), (second, 2)) if marks & bit])) for stem, marks in entries]
    check(ctx, aff(text), dic(*lines), ['ab', 'Ab', 'AB', 'aB', 'b', 'a', 'abb', ''], FLAGS[text])


TAGS = ['', ' ph:x', ' ph:x ph:Y', ' ph:x*', ' ph:xy->b', ' po:n', ' po:n po:m st:x', '\tpo:n', ' ph:x*  ph:x', ' ph:x ph:Y ph:zz ph:x ph:w*', ' 2', '\t2', '\t1 ph:q']


def tags(tier):
    for am in (False, True):
        for n in range(1, 3 if tier == 'quick' else 4):
            for chosen in itertools.product(TAGS, repeat=n):
                yield am, chosen


def run_tags(ctx, config):
    am, chosen = config
    text = aff(am and table('AM', ['po:noun', 'ph:qq is:x']), am and table('AF', ['A', 'AB']))
    flags = ('1', '2') if am else ('A', 'AB')
    check(ctx, text, dic(*['ab' + 'Ab'[i % 2] + '/' + flags[i % 2] + tag for i, tag in enumerate(chosen)], 'ab', 'Ab ph:x'), ['ab', 'x', 'AB', 'aba'])


def sizes(tier):
    most = 70 if tier == 'quick' else 300
    for n in [*range(1, most), 100, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1024, 1025]:
        yield 'homonyms', n
        yield 'stems', n
        yield 'length', n
        yield 'flags', min(n, 94)


def run_sizes(ctx, config):
    kind, n = config
    if kind == 'homonyms':
        lines = ['%s/%s' % ('ab' if i % 3 else 'Ab', 'AB' if i == n // 2 else 'AC') for i in range(n)]
    elif kind == 'stems':
        lines = ['%s%d/%s' % ('Aa'[i % 2], i, 'AB'[i % 2]) for i in range(n)]
    elif kind == 'length':
        lines = ['a' * n + '/A', 'A' * n + '/B', 'A' + 'a' * n, 'a' * (n - 1) + 'B/AB']
    else:
        lines = ['ab/' + ''.join(chr(33 + i) for i in range(n) if chr(33 + i) != '/'), 'ab/A']
    check(ctx, aff('TRY a'), dic(*lines), ['ab', 'Ab', 'a', 'a' * (n + 2)], ('A', 'B', 'C', '~', '!'))


OPS = [('lookup', 'ab'), ('lookup', 'zz'), ('lookup', 'AB-AB'), ('suggest', 'aab'), ('suggest', 'QQ'), ('suggest', 'abab'), ('homonyms', 'zz'),
       ('ignorecase', 'zz'), ('has', 'zz'), ('has', 'ab')]


def histories(tier):
    yield from itertools.product(OPS, repeat=3 if tier == 'quick' else 4)


def run_histories(ctx, history):
    """queries before and after checking words: nothing is added or lost"""
    text = aff('TRY ab', 'COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'FORBIDDENWORD F', rule('SFX', 'A', '', 's', '.'))
    entries = dic('ab/AC', 'Ab/F', 'ab/B ph:aab', 'aB', 'b/C', 'a-b')
    answers = Answers(LinesModel(text, entries))
    stems = ['ab', 'Ab', 'AB', 'aB', 'b', 'a-b', 'zz', 'aab', 'qq', 'abs', '']
    d = ctx.load(text, entries)
    for name, word in history:
        if name == 'lookup':
            ctx.lookup(d, word)
        elif name == 'suggest':
            ctx.suggest(d, word)
        elif name == 'homonyms':
            ctx.call(name, d.dic.homonyms, word)
        elif name == 'ignorecase':
            ctx.call(name, lambda: d.dic.homonyms(word, ignorecase=True))
        else:
            ctx.call(name, d.dic.has_flag, word, 'A')
        queries(ctx, d, answers, stems, ('A', 'F'))
    second = ctx.load(aff('TRY x'), dic('zz/F', 'b'), 'second')
    queries(ctx, second, Answers(LinesModel(aff('TRY x'), dic('zz/F', 'b'))), stems, ('A', 'F'))
    queries(ctx, d, answers, stems, ('A', 'F'))


def backgrounds(tier):
    yield from contexts.everything(tier)


def run_backgrounds(ctx, config):
    text, entries, lookups, _ = contexts.build(contexts.EVERY, *config)
    check(ctx, text, entries, lookups[:40], ('A', 'X', '1'))


CHUNKS = 64


def large(tier):
    for lang in ('en', 'ru', 'sv'):
        for n in range(CHUNKS):
            yield lang, n


def run_large(ctx, config):
    lang, n = config
    model, d = bundled.get(ctx, lang)
    if not hasattr(model, 'answers'):
        model.answers = Answers(model)
    answers = model.answers
    stems = [e[0] for e in answers.entries[n::CHUNKS]]
    flags = sorted({f for e in answers.entries[n::CHUNKS][:50] for f in e[1]})[:4]
    queries(ctx, d, answers, [t for s in stems for t in (s, *sorted(lowered(model, s)))] + [s + 'q' for s in stems], flags, listed=n == 0)


SPACES = [
    Space('casing', 'sequences of up to 3 or 4 stems in every capitalization, for 5 languages, sharp s and ignored characters',
          casing, run_casing),
    Space('homonyms', '4 flag formats x sequences of up to 4 (thorough: 5) of 12 entries (3 stems, every set of 2 flags); 4 flags asked, any and all',
          homonyms, run_homonyms),
    Space('tags', 'sequences of up to 2 (thorough: 3) of 13 data fields, with and without aliases', tags, run_tags),
    Space('sizes', 'number of homonyms, stems and flags, length of stems: 1..70 (thorough: 300) and around powers', sizes, run_sizes),
    Space('histories', 'queries after each of all sequences of 3 (thorough: 4) of 10 operations', histories, run_histories),
    Space('backgrounds', contexts.EVERYTHING, backgrounds, run_backgrounds),
    Space('large', 'every stem of the bundled dictionaries, its lower case and a longer text', large, run_large),
]
