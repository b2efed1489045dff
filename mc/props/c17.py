"""C17: REP, MAP, ph:."""
from . import contexts, kernels, ladders
from .common import *

QUIET = 'MAXNGRAMSUGS 0'


def rep(tier):
    """pairs of replacement rows"""
    patterns = ['a', 'ab', '^a', 'a$', '^ab$', 'b']
    targets = ['x', 'xy', 'a_b', '_', 'aa', '_x', 'A', 'x_']
    rows = [p + ' ' + t for p in patterns for t in targets]
    for row in rows:
        yield (row,)
    for one in rows:
        for two in rows:
            if one < two:
                yield one, two


def run_rep(ctx, rows):
    compare(ctx, aff(QUIET, 'KEY |', 'NOSPLITSUGS', table('REP', rows)),
            dic('x', 'xb', 'ax', 'xx', 'xy', 'xyb', 'a b', 'b', 'aab', 'aa b', 'xab', 'abx', 'a', 'bb', 'xxb', 'a bb', 'aax', 'ab aa', 'Ab', 'aA', 'A'),
            suggests=[t for t in words('ab', 4, 1)])


def literal(tier):
    chars = ['.', '*', '[', ']', '(', ')', '\\', '+', '?', '|', '{', "'", '-', '\\d', '\\1', '.*', 'é', 'ß']
    for c in chars:
        for form in ('%s x', 'a%s x', '%sa x', 'x %s', '^%s x', '%s$ x', '%s _'):
            yield form % c, c


def run_literal(ctx, config):
    row, c = config
    texts = {x + y + z for x in ('', 'a', 'b') for y in (c, 'x', 'a') for z in ('', 'a', 'b')}
    compare(ctx, aff(QUIET, 'BREAK 0', 'NOSPLITSUGS', table('REP', [row])),
            dic('xb', 'bx', 'ax', 'xa', 'bxb', 'axb', *[t for t in sorted(texts) if c in t and '/' not in t][:6]),
            suggests=sorted(t for t in texts if t))


def order(tier):
    """listed order, ph: after REP"""
    import itertools
    rows = ['q x', 'q y', 'qq z', 'bq bx', 'q _']
    for chosen in itertools.permutations(rows, 3):
        for ph in (None, 'abq', 'q', 'bq->bz', 'abqq*'):
            yield chosen, ph


def run_order(ctx, config):
    rows, ph = config
    compare(ctx, aff(QUIET, 'NOSPLITSUGS', table('REP', rows)),
            dic('abx', 'aby', 'abz', 'ab', 'abw' + (' ph:' + ph if ph else ''), 'ab x', 'abxx', 'abyy', 'abz'),
            suggests=['abq', 'abqq', 'aqb', 'qab', 'Abq', 'ABQ', 'abqx'])


def mapping(tier):
    groups = ['ab', 'abc', 'a(bb)', '(aa)b', '(ab)c', 'aá', '(aa)(bb)', 'ba', 'c(ab)(ba)']
    for g in groups:
        yield (g,)
    for one in groups:
        for two in groups:
            if one != two:
                yield one, two
                for three in groups if tier == 'thorough' else groups[:4]:
                    if three not in (one, two):
                        yield one, two, three


def run_mapping(ctx, rows):
    compare(ctx, aff(QUIET, 'KEY |', 'NOSPLITSUGS', table('MAP', rows)),
            dic('ab', 'ba', 'aab', 'bb', 'abb', 'cc', 'bab', 'áá', 'aba', 'cab', 'bbb', 'abab'),
            suggests=[t for t in words('abc', 5 if ctx.tier == 'thorough' else 4, 1)] + ['abca', 'aaaa', 'acac', 'bcab', 'ácb', 'Aab', 'AAB'])


def map_lengths(tier):
    """members of every length, the text in either direction"""
    for n in range(1, 13 if tier == 'quick' else 25):
        for m in range(1, 13 if tier == 'quick' else 25):
            for more in ('', 'q', '(rr)(ss)'):
                yield n, m, more


def run_map_lengths(ctx, config):
    n, m, more = config
    one, two = 'abcdefghijklmnopabcdefghij'[:n], 'zyxwvutzyxwvutzyxwvutzyxwvut'[:m]
    compare(ctx, aff(QUIET, 'KEY |', 'NOSPLITSUGS', table('MAP', ['(%s)(%s)%s' % (one, two, more), 'k4'])),
            dic('k' + one, 'k' + two, one + 'k' + two, one + one + 'l', two + 'l' + two),
            suggests=['k' + one, 'k' + two, '4' + one, '4' + two, two + '4' + one, two + two + 'l', one + 'l' + one, two + one + 'l', 'kq', '4rr', 'qkq', 'qlss', ('4' + one).capitalize()])


def ph(tier):
    fields = ['ph:wendsay', 'ph:wendsay*', 'ph:wend->wednes', 'ph:wendsay ph:wensday', 'ph:wen->wed ph:wendsay', 'ph:', 'po:noun ph:wendsay',
              'ph:Wendsay', 'ph:wendsay->wednesday', 'ph:^wend->wedn', 'ph:dsay$->sday', 'ph:w.ndsay', 'ph:wends ay', 'is:x ph:wensday po:y',
              'ph:wen-day', 'ph:wen>day', 'ph:wen-d>ay', 'ph:*wend', 'ph:we*nd']
    for f in fields:
        for stem in ('wednesday', 'Wednesday', 'WEDNESDAY'):
            for sep in (' ', '\t', '  '):
                for flags in ('', '/S', '/K', '/N', '/F'):
                    yield f, stem, sep, flags


def run_ph(ctx, config):
    f, stem, sep, flags = config
    compare(ctx, aff('KEEPCASE K', 'NOSUGGEST N', 'FORBIDDENWORD F', rule('SFX', 'S', '', 's', '.'), table('REP', ['wensday wend'])),
            dic(stem + flags + sep + f, 'wend', 'sunday'),
            lookups=['wednesday', 'Wednesday', 'WEDNESDAY', 'wendsay', 'wednesdays', 'ph', 'wend'],
            suggests=['wendsay', 'Wendsay', 'WENDSAY', 'wensday', 'wendsays', 'wends', 'xwendsay', 'wendsayx', 'wxndsay', 'wen-day', 'wen>day', 'wen-d>ay', 'wend*', 'wenday', 'wednsday'])


def several_ph(tier):
    """many entries with ph: of the same text; star forms of short texts"""
    for a in ('xa', 'xa*', 'x->y', 'xab', 'a*', 'ab*'):
        for b in ('xa', 'xa*', 'x->z', 'xb', 'ax->bx', '->x'.replace('->x', 'b->b_a')):
            for swap in (False, True):
                yield a, b, swap


def run_several_ph(ctx, config):
    a, b, swap = config
    entries = ['yab ph:' + a, 'zab ph:' + b]
    compare(ctx, aff('TRY yz'), dic(*(entries[::-1] if swap else entries), 'ya', 'za', 'ab', 'b a'),
            suggests=['xab', 'xa', 'xb', 'axa', 'xabx', 'ax', 'xaxa', 'Xab', 'bb', 'aab'])


def underscore(tier):
    """an underscore gives a spaced entry and separate words"""
    for entries in subsets(['a lot', 'a', 'lot', 'alots', 'in case', 'a lot of', 'of', 'A lot', 'lot of'], 1, 4):
        yield entries


def run_underscore(ctx, entries):
    compare(ctx, aff(QUIET, 'NOSPLITSUGS', table('REP', ['alot a_lot', 'of$ _of', '^in in_', 'q _'])), dic(*entries),
            suggests=['alot', 'Alot', 'alotof', 'incase', 'aqlot', 'aqlotqof', 'a lotof', 'ALOT', 'lotof', 'alots', 'qa'])


SPACES = [
    Space('rep', 'one and two of 48 replacement rows (anchors, underscores); all words over {a,b} up to 4', rep, run_rep),
    Space('literal', '18 special texts in 7 kinds of rows', literal, run_literal),
    Space('order', 'permutations of three of five rows, five kinds of ph:', order, run_order),
    Space('map', 'one, two and three of 9 groups; all words over {a,b,c} up to 4 (thorough 5)', mapping, run_mapping),
    Space('map-lengths', 'two members of 1..12 (24) letters in a group', map_lengths, run_map_lengths),
    Space('ph', '19 data fields x capitalization x separator x marks', ph, run_ph),
    Space('several-ph', 'pairs of ph: fields in both orders', several_ph, run_several_ph),
    Space('underscore', 'up to 4 of 9 single and spaced entries', underscore, run_underscore),
]
SPACES.append(contexts.suggest_space(kernels.SUGGEST['C17']))
SPACES.append(ladders.space(ladders.C17, order=True))
