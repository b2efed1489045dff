from ..explore import Space, words, subsets, case_patterns, near     # noqa: F401
from ..ref import Model


def aff(*lines):
    return 'SET UTF-8\n' + ''.join(line + '\n' for line in lines if line)


def dic(*lines):
    return '%d\n' % len(lines) + ''.join(line + '\n' for line in lines)


def rule(kind, flag, strip, add, cond, flags='', cross='Y'):
    """An affix class with one rule."""
    return '%s %s %s 1\n%s %s %s %s%s %s' % (kind, flag, cross, kind, flag, strip or '0', add or '0',
                                             '/' + flags if flags else '', cond)


def entry(stem, flags=''):
    return stem + ('/' + flags if flags else '')


def table(name, rows):
    """A directive with a counted table."""
    return '\n'.join(['%s %d' % (name, len(rows))] + ['%s %s' % (name, row) for row in rows])


def compare(ctx, aff_text, dic_text, lookups=(), suggests=(), derived=False, alphabet='', order=True):
    """Every answer of the library equals the answer of the model (order: also the order of suggestions)."""
    model = Model(aff_text, dic_text)
    d = ctx.load(aff_text, dic_text)
    lookups = list(lookups)
    if derived:
        lookups = sorted(set(lookups) | near(model.table, alphabet))
    for word in lookups:
        expected = model.accepts(word)
        got = ctx.lookup(d, word)
        if got != expected:
            ctx.fail('lookup differs from the model', expected, got)
    for word in suggests:
        expected = model.suggest(word)
        got = ctx.suggest(d, word)
        if got != expected and (order or sorted(got) != sorted(expected)):
            ctx.fail('suggestions differ from the model', expected, got)
    return model, d
