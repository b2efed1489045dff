"""C21: lines of the .dic file."""
import itertools

from .common import *

TOKENS = ['a', 'S', '/', '\\', ' ', '\t', 'ph:', '1', ':']


def parsed(model):
    return [(e.stem, sorted(e.flags), {k: v for k, v in e.data.items() if v}) for e in model.entries]


def words_of(d):
    return [(w.stem, sorted(w.flags), {k: list(v) for k, v in w.data.items() if v}) for w in d.dic.words]


def same_words(ctx, d, model):
    expected = parsed(model)
    got = words_of(d)
    for e, g in itertools.zip_longest(expected, got):
        if e != g:
            ctx.op = ('dic.words',)
            ctx.fail('an entry is read wrongly', e, g)


def texts(tier):
    """Texts of up to 7 (thorough: 8) tokens, not beginning with whitespace; chunks with a common beginning."""
    size = 7 if tier == 'quick' else 8
    for n in range(1, 4):
        for start in itertools.product(TOKENS, repeat=n):
            if not start[0].isspace():
                if n == 3:
                    for more in range(1, size - 2):
                        yield ''.join(start), more
                yield ''.join(start), 0


def run_texts(ctx, config):
    start, more = config
    lines = [line for line in (start + ''.join(rest) for rest in itertools.product(TOKENS, repeat=more))]
    a, d_text = aff('TRY a'), '\n'.join(['0'] + lines) + '\n'
    model = LinesModel(a, d_text)
    d = ctx.load(a, d_text)
    ctx.states += len(lines)
    ctx.transitions += len(lines)
    same_words(ctx, d, model)


class LinesModel(Model):
    """Only reads the lines (the table of derived words is not needed)."""

    def build(self, table_, stems):
        pass


def single(tier):
    """one line in a file: the effect of what was read on the answers"""
    for line in words(TOKENS, 4 if tier == 'quick' else 5, 1):
        if line.strip() and not line[0].isspace():
            yield line


def run_single(ctx, line):
    head = [rule('SFX', 'S', '', 's', '.'), rule('PFX', 'a', '', 'p', '.'), rule('SFX', '1', '', 'x', '.'),
            rule('PFX', '/', '', 'q', '.'), 'TRY t']
    stem = Model(aff(*head), dic(line)).entries[0].stem
    asked = {p + t + s for t in (stem, 'a', line.strip()) for p in ('', 'p', 'q') for s in ('', 's', 'x')}
    compare(ctx, aff(*head), dic(line), lookups=sorted(asked), suggests=['ta', 'Sa', 'aa'], order=False)
    # without the count line, after a count line and another word
    for d_text, count in ((line + '\nzz\n', None), ('7\nzz\n' + line, 7), ('zz\n' + line + '\n', None)):
        model, d = compare(ctx, aff(*head), d_text, lookups=sorted(asked) + ['zz', 'zzs', '7', '1'])
        same_words(ctx, d, model)


def counts(tier):
    yield from (t for t in words(['1', '20', 'a', ' ', '\t', '/', '-', '#'], 4, 1) if t.strip() and not t[0].isspace())


def run_counts(ctx, first):
    for rest in (['ab/S', '30', 'a b', '5 x', '1'], ['12/S', '12'], []):
        a, d_text = aff(rule('SFX', 'S', '', 's', '.')), '\n'.join([first] + rest) + '\n'
        model, d = compare(ctx, a, d_text, lookups=['ab', 'abs', '30', 'a b', '5 x', '1', '20', '12', '12s', first, first.strip(), 'a'])
        same_words(ctx, d, model)


def homonyms(tier):
    pool = ['ab', 'ab/S', 'ab/P', 'ab/N', 'ab/F', 'Ab', 'ab/K', 'AB/S', 'ab/SP', 'ab ph:xy', 'ab\tpo:x 1']
    for n in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
        yield from itertools.product(pool, repeat=n)


def run_homonyms(ctx, lines):
    a = aff(rule('SFX', 'S', '', 's', '.'), rule('PFX', 'P', '', 'p', '.'), 'NEEDAFFIX N', 'FORBIDDENWORD F', 'KEEPCASE K')
    model, d = compare(ctx, a, dic(*lines), lookups=[p + t + s for p in ('', 'p') for t in ('ab', 'Ab', 'AB', 'ABS', 'PAB')
                                                    for s in ('', 's')], suggests=['xy'], order=False)
    same_words(ctx, d, model)


SIGNS = ['a', 'B', '1', '-', "'", '.', '#', ' ', ':', ',', '(', '"', '*', '$', '^', '|', '?', '_', 'é', 'ß', '’', '+', '[', ']', '{', '&']


def signs(tier):
    """words with signs and spaces: exactly the listed text is accepted"""
    for start in itertools.product(SIGNS, repeat=2):
        if start[0] != ' ':
            yield ''.join(start)


def run_signs(ctx, start):
    lines = [start] if start.strip() == start else []
    lines += [start + r for r in words(SIGNS, 1 if ctx.tier == 'quick' else 2, 1) if not r.endswith(' ')]
    a = aff('BREAK 0', rule('SFX', 'S', '', 's', '.'))
    model = LinesModel(a, dic(*lines))
    d = ctx.load(a, dic(*lines))
    same_words(ctx, d, model)
    for line in lines:
        alone = ctx.load(a, dic(line + '/S'))
        stem = LinesModel(a, dic(line + '/S')).entries[0].stem
        for word in (stem, stem + 's', stem[:-1] or 'zz', stem[1:] or 'zz', stem + '/', stem + '/S', stem.replace(' ', '') or 'zz'):
            expected = Model(a, dic(line + '/S')).accepts(word)
            got = ctx.lookup(alone, word)
            if got != expected:
                ctx.fail('lookup differs from the model', expected, got)


def notations(tier):
    """flags in every format, aliases, ignored characters"""
    for fmt, flags in (('', ['AB', 'A', 'BA', 'AAB', '1', '12', 'A/B', '/']), ('FLAG long', ['AABB', 'AA', 'ABBA', '1122', 'A/', '//']),
                       ('FLAG num', ['1', '1,2', '11,1', '65000', '2,1,11']), ('FLAG UTF-8', ['é', 'Aéш', '𝄞A', '/é'])):
        for ignore in ('', 'IGNORE b-'):
            for stem in ('ab', 'a\\/b', 'b-', 'a b', '/b', '/', '1', 'a\\'):
                for data in ('', ' ph:xy', '\tx', ' po:a  is:b po:c', '\tph:x ph:y st:', ' a1:b:c'):
                    yield fmt, tuple(flags), ignore, stem, data


def run_notations(ctx, config):
    fmt, flags, ignore, stem, data = config
    lines = [stem + '/' + f + data for f in flags] + [stem + data]
    a = aff(fmt, ignore)
    model = Model(a, dic(*lines))
    d = ctx.load(a, dic(*lines))
    same_words(ctx, d, model)
    for word in {e.stem for e in model.entries} | {stem, 'ab', 'a/b'}:
        if word:
            ctx.check(ctx.lookup(d, word) == model.accepts(word), 'lookup differs from the model', model.accepts(word), 'other')
    # the same sets of flags by number
    if fmt != 'FLAG num':
        aliases = table('AF', list(flags))
        lines = [stem + '/%d' % i + data for i, f in enumerate(flags, 1)]
        model = Model(aff(fmt, aliases, ignore), dic(*lines))
        d = ctx.load(aff(fmt, aliases, ignore), dic(*lines))
        same_words(ctx, d, model)


SPACES = [
    Space('texts', 'every line of up to 7 (thorough 8) tokens out of 9 (letters, slash, backslash, space, tab, tag, digit, colon)',
          texts, run_texts),
    Space('single', 'every line of up to 4 (thorough 5) tokens as the only entry, with affixes, with and without the count line',
          single, run_single),
    Space('counts', 'every first line of up to 4 tokens of digits, letters, spaces and signs', counts, run_counts),
    Space('homonyms', 'every sequence of up to 4 (5) lines of the same word with different flags', homonyms, run_homonyms),
    Space('signs', 'every word of up to 3 (4) of 26 letters, signs and spaces', signs, run_signs),
    Space('notations', 'flag formats x flag sets x aliases x IGNORE x words with slashes x data fields', notations, run_notations),
]
