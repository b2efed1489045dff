"""C28: answers ignore entry order and unrelated entries.

Dictionaries are compared with each other, not with the model."""
import itertools

from . import contexts
from .common import *

MARKS = ('KEEPCASE K', 'NEEDAFFIX N', 'FORBIDDENWORD F', 'NOSUGGEST O', 'ONLYINCOMPOUND I')
COMPOUND = ('COMPOUNDMIN 1', 'COMPOUNDFLAG C', 'COMPOUNDBEGIN B', 'COMPOUNDEND E')
SUFFIXES = (rule('SFX', 'S', '', 's', '.', 'T'), rule('SFX', 'T', 'b', 't', '.'), rule('PFX', 'P', '', 'p', '.'))


def answers(ctx, a, d, asked, label='main'):
    loaded = ctx.load(a, d, label)
    return [ctx.lookup(loaded, w) for w in asked], loaded


def same(ctx, asked, one, two, what):
    if one != two:
        differing = [w for w, x, y in zip(asked, one, two) if x != y]
        ctx.fail(what, {w: x for w, x, y in zip(asked, one, two) if x != y}, 'the opposite', words=differing)


def grows(ctx, asked, one, two, what):
    lost = [w for w, x, y in zip(asked, one, two) if x and not y]
    if lost:
        ctx.fail(what, 'accepted', 'rejected', words=lost)


# -- order

ENTRIES = ['ab/S', 'ab/KP', 'Ab/T', 'AB', 'ab/F', 'ab/N', 'ab/O', 'b/CS', 'b/F', 'bs', 'aB/B', 'b/EI', 'ba b', 'a/CO', 'sb ph:bs']
ASKED = sorted(set(words('ab', 4, 1)) | {w for x in ('ab', 'abs', 'at', 'bs', 'pab') for w in case_patterns(x)} |
               {'bat', 'abt', 'bt', 'pabs', 'abst', 'bst', 'sb', 'Sb', 'aBb', 'abb', 'ABB', 'baB', 'bbs', 'ba b'})


def dic_orders(tier):
    """sets of entries with homonyms"""
    for chosen in subsets(ENTRIES, 2, 3 if tier == 'quick' else 4):
        if len(chosen) < 4 or sum('ab' in e.lower() for e in chosen) > 1:
            yield chosen


def run_dic_orders(ctx, config):
    a = aff(*MARKS, *COMPOUND, *SUFFIXES)
    first, _ = answers(ctx, a, dic(*config), ASKED)
    for order in list(itertools.permutations(config))[1:]:
        got, _ = answers(ctx, a, dic(*order), ASKED, 'other')
        same(ctx, ASKED, first, got, 'lookup depends on the order of entries')


BLOCKS = [
    'SFX S Y 2\nSFX S 0 s [^b]\nSFX S b s/T b', 'SFX T Y 1\nSFX T 0 b .', 'SFX U N 2\nSFX U 0 s/NC .\nSFX U 0 bs .',
    'PFX P Y 1\nPFX P 0 a .', 'PFX Q N 2\nPFX Q a b/S a\nPFX Q 0 a/C [^a]', 'SFX V Y 3\nSFX V 0 a .\nSFX V 0 a/S b\nSFX V a 0 a',
]

MANY_RULES = [
    'SFX W Y 4\nSFX W 0 s a\nSFX W 0 s b\nSFX W a s ba\nSFX W b s ab', 'SFX W N 5\nSFX W 0 s/C a\nSFX W 0 s/N .\nSFX W 0 s/P b\nSFX W b s b\nSFX W 0 a .',
    'PFX W Y 4\nPFX W 0 a a\nPFX W 0 a b\nPFX W a a/N .\nPFX W b a/C ba',
]


def rule_orders(tier):
    """affix classes, their rules and their order"""
    for chosen in subsets(BLOCKS, 1, 3):
        for flags in ('STUPQV', 'SP', 'UQ', 'VP'):
            yield chosen, flags
    for block in MANY_RULES:
        for chosen in subsets(BLOCKS[3:5], 0, 1):
            yield (block, *chosen), 'WPQ'


def inner_orders(block):
    head, *rules = block.split('\n')
    return ['\n'.join([head, *order]) for order in itertools.permutations(rules)]


RULE_WORDS = sorted(set(words('ab', 5, 1)) | {w + s for w in words('ab', 4) for s in ('s', 'sb', 'ss', 'bs')} - {''})


def run_rule_orders(ctx, config):
    chosen, flags = config
    d = dic('ab/' + flags, 'a/' + flags + 'C', 'b/C')
    first = None
    for order in itertools.permutations(chosen):
        for blocks in itertools.product(*map(inner_orders, order)):
            got, _ = answers(ctx, aff('NEEDAFFIX N', 'COMPOUNDMIN 1', 'COMPOUNDFLAG C', *blocks), d, RULE_WORDS, 'main' if first is None else 'other')
            if first is None:
                first = got
            same(ctx, RULE_WORDS, first, got, 'lookup depends on the order of affix rules')


TABLES = {
    'BREAK': ['-', '^a', 'b$', 'ab'], 'REP': ['a b', 'ab b', 'b aa', '^a bb'], 'COMPOUNDRULE': ['XY', 'X*Z', 'YZ?', 'ZX'],
    'CHECKCOMPOUNDPATTERN': ['a b', 'b/X a', 'a/Y a/Z'], 'MAP': ['ab', 'bs'],
}


def table_orders(tier):
    """rows of tables that are alternatives"""
    for name, rows in TABLES.items():
        for chosen in subsets(rows, 2):
            for head in ('', 'CHECKCOMPOUNDREP', 'COMPOUNDWORDMAX 2'):
                yield name, chosen, head


def run_table_orders(ctx, config):
    name, chosen, head = config
    d = dic('ab/XC', 'a/YC', 'b/Z', 'ba/XYZ', 'bb/CZ')
    asked = list(words(['a', 'b', '-'], 5, 1))
    first = None
    for rows in itertools.permutations(chosen):
        got, _ = answers(ctx, aff('COMPOUNDMIN 1', 'COMPOUNDFLAG C', head, table(name, rows)), d, asked, 'main' if first is None else 'other')
        if first is None:
            first = got
        same(ctx, asked, first, got, 'lookup depends on the order of %s' % name)


def line_orders(tier):
    """directives that do not depend on each other, in every order"""
    lines = ['COMPOUNDMIN 1', 'COMPOUNDFLAG C', 'KEEPCASE K', 'FORBIDDENWORD F', SUFFIXES[0], SUFFIXES[2],
             table('BREAK', ['-'])]
    for i, order in enumerate(itertools.permutations(lines)):
        if tier == 'thorough' or i % 6 == 0:
            yield order


def run_line_orders(ctx, config):
    d = dic('ab/SP', 'b/CS', 'Ba/KC', 'bb/F', 'a/CP')
    asked = [w for w in ASKED if len(w) < 4] + ['ab-b', 'b-bb', 'pab-bs', '-b', 'a-']
    base, _ = answers(ctx, aff(*sorted(config)), d, asked)
    got, _ = answers(ctx, aff(*config), d, asked, 'other')
    same(ctx, asked, base, got, 'lookup depends on the order of directives')


# -- duplicates

DUPLICATED = ['ab/S', 'ab', 'Ab/K', 'b/C', 'abc/F', 'bca/O', 'ba b', 'cab/N', 'bac ph:bak', 'acb/P', 'bbb/C']


def duplicates(tier):
    for chosen in subsets(DUPLICATED, 1, 3 if tier == 'quick' else 4):
        for times in (1, 3):
            yield chosen, times


SUGGESTED = ['a', 'abx', 'xab', 'bak', 'bacs', 'Abs', 'ABC', 'acbb', 'bab', 'bcca', 'abb', 'cabs', 'bbbbb', 'cba']


def run_duplicates(ctx, config):
    chosen, times = config
    a = aff('TRY abc', table('REP', ['x b', 'ss b']), *MARKS, *COMPOUND, *SUFFIXES)
    first, d1 = answers(ctx, a, dic(*chosen), ASKED)
    for place in range(len(chosen)):
        for at in (place, len(chosen)):
            more = list(chosen[:at]) + [chosen[place]] * times + list(chosen[at:])
            got, d2 = answers(ctx, a, dic(*more), ASKED, 'other')
            same(ctx, ASKED, first, got, 'a duplicated entry changes lookup')
            for w in SUGGESTED:
                one, two = ctx.suggest(d1, w), ctx.suggest(d2, w)
                if sorted(one) != sorted(two):
                    ctx.fail('a duplicated entry changes suggestions', one, two)


# -- growth

BASES = [('ab/S',), ('ab/SP', 'b/C'), ('Ab', 'b/CS', 'a/C'), ('ab/F', 'b/C', 'a/C'), ('ab/K', 'ba/T', 'b/BE'), ('ab/N', 'ab/I', 'b/C'),
         ('a/C', 'b/CP', 'aB'), ('ab ph:bb', 'b/CO', 'b/E', 'a/B')]
HEADS = [(), ('CHECKCOMPOUNDDUP',), ('CHECKCOMPOUNDCASE',), ('CHECKCOMPOUNDTRIPLE',), ('COMPOUNDWORDMAX 2',),
         (table('CHECKCOMPOUNDPATTERN', ['a b']),)]


def added(tier):
    stems = [w for x in words('ab', 3, 1) for w in ([x, x.capitalize()] if tier == 'quick' else case_patterns(x))]
    for base in BASES:
        for head in HEADS:
            for stem in stems:
                yield base, head, stem


def run_added(ctx, config):
    base, head, stem = config
    a = aff(*MARKS, *COMPOUND, *SUFFIXES, *head)
    first, _ = answers(ctx, a, dic(*base), ASKED)
    for flags in ('', 'S', 'SP', 'C', 'BE', 'T', 'O'):
        for more in ((entry(stem, flags), *base), (*base, entry(stem, flags))):
            got, _ = answers(ctx, a, dic(*more), ASKED, 'other')
            grows(ctx, ASKED, first, got, 'an added entry makes a word rejected')


RULES = ['SFX V Y 1\nSFX V %s', 'SFX S Y 2\nSFX S 0 s/T .\nSFX S %s', 'PFX V Y 1\nPFX V %s', 'SFX V N 1\nSFX V %s']


def ruled(tier):
    for base in BASES:
        for shape in RULES:
            for body in ('0 a .', '0 b [^a]', 'b 0 b', 'b ss b', '0 s/T .', '0 b/FNI .', '0 a/KC .', 'a b/S a'):
                yield base, shape, body


def run_ruled(ctx, config):
    base, shape, body = config
    base = [line if ' ' in line or 'F' in line else line + ('' if '/' in line else '/') + 'V' for line in base]
    common = [*MARKS, *SUFFIXES[1:]]
    first, _ = answers(ctx, aff(*common, SUFFIXES[0]), dic(*base), ASKED)
    got, _ = answers(ctx, aff(*common, shape % body, *([] if 'SFX S' in shape else [SUFFIXES[0]])), dic(*base), ASKED, 'other')
    grows(ctx, ASKED, first, got, 'an added affix rule makes a word rejected')


def flagged(tier):
    """an entry gets a compound or affix flag"""
    for base in BASES:
        for place in range(len(base)):
            for flag in ('C', 'B', 'E', 'BE', 'S', 'P', 'T', 'SPT'):
                yield base, place, flag


def run_flagged(ctx, config):
    base, place, flag = config
    line = base[place]
    word, _, rest = line.partition(' ')
    line = word + ('' if '/' in word else '/') + flag + (' ' + rest if rest else '')
    a = aff(*MARKS, *COMPOUND, *SUFFIXES)
    first, _ = answers(ctx, a, dic(*base), ASKED)
    got, _ = answers(ctx, a, dic(*base[:place], line, *base[place + 1:]), ASKED, 'other')
    grows(ctx, ASKED, first, got, 'an added flag makes a word rejected')


# -- in all backgrounds

def rules_reversed(text):
    """The rules of each affix class in the opposite order, and the classes too."""
    lines = text.splitlines()
    blocks, rest = [], []
    i = 0
    while i < len(lines):
        fields = lines[i].split()
        if fields[0] in ('SFX', 'PFX'):
            n = int(fields[3])
            blocks.append([lines[i]] + lines[i + 1:i + 1 + n][::-1])
            i += n + 1
        else:
            rest.append(lines[i])
            i += 1
    return '\n'.join(rest + [x for block in blocks[::-1] for x in block]) + '\n'


def run_backgrounds(ctx, config):
    kernel, chosen = config
    text, entries, asked, suggests = contexts.build(contexts.EVERY, kernel, chosen)
    lines = entries.splitlines()[1:]
    first, loaded = answers(ctx, text, entries, asked)
    half = len(lines) // 2
    for order in (lines[::-1], lines[half:] + lines[:half]):
        got, _ = answers(ctx, text, dic(*order), asked, 'other')
        same(ctx, asked, first, got, 'lookup depends on the order of entries')
    got, _ = answers(ctx, rules_reversed(text), entries, asked, 'other')
    same(ctx, asked, first, got, 'lookup depends on the order of affix rules')
    for more in (lines + lines[:len(kernel[1])], [x for line in lines for x in (line, line)][:40] + lines[20:]):
        got, other = answers(ctx, text, dic(*more), asked, 'other')
        same(ctx, asked, first, got, 'a duplicated entry changes lookup')
        for w in suggests[:4]:
            one, two = ctx.suggest(loaded, w), ctx.suggest(other, w)
            if sorted(one) != sorted(two):
                ctx.fail('a duplicated entry changes suggestions', one, two)


SPECIAL = ('COMPOUNDFLAG C', 'COMPOUNDBEGIN B', 'COMPOUNDMIDDLE M', 'COMPOUNDEND E', 'COMPOUNDPERMITFLAG R', 'COMPOUNDFORBIDFLAG D', 'ONLYINCOMPOUND O',
           'FORBIDDENWORD F', 'NOSUGGEST Q', 'KEEPCASE K', 'NEEDAFFIX N', 'FORCEUCASE U')
HOMONYM_WORDS = ['ab', 'Ab', 'AB', 'abs', 'ABS', 'pab', 'pabs', 'abcd', 'cdab', 'cdabcd', 'Cdab', 'Abcd', 'cdabs', 'abscd', 'abab', 'ab-cd', 'cdpab', 'abef', 'efab']


def homonyms(tier):
    sets = [''.join(f) for f in subsets('CBMERDOFQKNUSPAZ', 0, 1 if tier == 'quick' else 2)] + (['CD', 'CU', 'CF', 'CK', 'CO', 'CS', 'BE', 'CN', 'ZC', 'AC', 'SN', 'SK', 'SF', 'CQ']
                                                                                           if tier == 'quick' else [])
    for i, one in enumerate(sets):
        for j, two in enumerate(sets[:i]):
            yield one, two
            for three in sets[:j][:17]:
                yield one, two, three


def run_homonyms(ctx, config):
    text = aff(*SPECIAL, 'COMPOUNDMIN 1', table('COMPOUNDRULE', ['ZA', 'AZ']), table('CHECKCOMPOUNDPATTERN', ['b/Z c']), SUFFIXES[0], SUFFIXES[2])
    base = None
    for order in itertools.permutations(config):
        got, _ = answers(ctx, text, dic(*(entry('ab', f) for f in order), 'cd/CZ', 'ef/A'), HOMONYM_WORDS, 'main' if base is None else 'other')
        if base is None:
            base = got
        same(ctx, HOMONYM_WORDS, base, got, 'lookup depends on the order of homonyms')


SPACES = [
    Space('backgrounds', contexts.EVERYTHING + '; entries and rules in other orders, entries repeated', contexts.everything, run_backgrounds),
    Space('homonyms', 'every order of two and three homonyms with up to one (thorough two) of 16 flags and 14 pairs of flags', homonyms, run_homonyms),
    Space('entries', 'every permutation of 2..3 (4) of 15 entries with homonyms, marks and cases', dic_orders, run_dic_orders),
    Space('rules', 'every permutation of up to 3 affix classes and of the rules in each; classes of 4 and 5 rules adding the same text', rule_orders, run_rule_orders),
    Space('tables', 'every permutation of rows of BREAK, REP, COMPOUNDRULE, CHECKCOMPOUNDPATTERN and MAP', table_orders,
          run_table_orders),
    Space('directives', 'independent directives in (quick: each sixth) order of 7', line_orders, run_line_orders),
    Space('duplicates', 'one of up to 3 (4) entries repeated once or three times: lookups and suggestions', duplicates,
          run_duplicates),
    Space('added-entries', 'every entry over {a,b} up to 3 letters, with 7 sets of flags, added to 8 dictionaries', added,
          run_added),
    Space('added-rules', 'affix rules of 8 forms added as a class or to a class', ruled, run_ruled),
    Space('added-flags', 'every entry gets each compound or affix flag', flagged, run_flagged),
]
