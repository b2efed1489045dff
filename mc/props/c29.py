"""C29: the loaded dictionary exposes the directives of the affix file."""
import itertools

from .common import *

#: flags 0..5 in every notation
FLAGS = {
    '': 'ABCDEF',
    'FLAG long': ['Aa', 'aA', 'AA', 'A1', '1A', '!a'],
    'FLAG num': ['1', '11', '111', '21', '65000', '7'],
    'FLAG UTF-8': 'AшΩé✓𝄞',
}
ONE_FLAG = ('FORBIDDENWORD KEEPCASE NOSUGGEST NEEDAFFIX CIRCUMFIX COMPOUNDFLAG COMPOUNDBEGIN COMPOUNDMIDDLE COMPOUNDEND ONLYINCOMPOUND '
            'COMPOUNDPERMITFLAG COMPOUNDFORBIDFLAG FORCEUCASE SYLLABLENUM COMPOUNDROOT WARN SUBSTANDARD').split()
SWITCHES = ('CHECKSHARPS NOSPLITSUGS ONLYMAXDIFF COMPLEXPREFIXES FULLSTRIP CHECKCOMPOUNDCASE CHECKCOMPOUNDDUP CHECKCOMPOUNDREP '
            'CHECKCOMPOUNDTRIPLE SIMPLIFIEDTRIPLE COMPOUNDMORESUFFIXES').split()
NUMBERS = {'MAXCPDSUGS': 3, 'MAXNGRAMSUGS': 4, 'MAXDIFF': -1, 'COMPOUNDMIN': 3, 'COMPOUNDWORDMAX': None}
TEXTS = {'LANG': (None, ['tr', 'en_US', 'de_DE@x']), 'WORDCHARS': (None, ['0123', "'-.", 'é']),
         'KEY': ('qwertyuiop|asdfghjkl|zxcvbnm', ['a|b', '|', "qé|'-"]), 'TRY': ('', ['a', 'esiaé', "a-'#0"])}
DEFAULTS = {
    **{name: None for name in ONE_FLAG}, **{name: False for name in SWITCHES}, **NUMBERS,
    **{name: default for name, (default, _) in TEXTS.items()},
    'SET': 'Windows-1252', 'FLAG': 'short', 'IGNORE': None, 'REP': [], 'MAP': [], 'PHONE': None, 'BREAK': ['-', '^-', '-$'], 'COMPOUNDRULE': [], 'CHECKCOMPOUNDPATTERN': [],
    'ICONV': None, 'OCONV': None, 'AF': {}, 'AM': {}, 'COMPOUNDSYLLABLE': None, 'SFX': {}, 'PFX': {},
}


def values(ctx, d):
    """The directives of a loaded dictionary in comparable terms."""
    got = d.aff

    def affixes(classes):
        return {flag: [(a.strip, a.add, a.condition, sorted(a.flags), bool(a.crossproduct), a.flag) for a in rules]
                for flag, rules in classes.items()}

    def read():
        res = {name: getattr(got, name) for name in (*ONE_FLAG, *NUMBERS, *TEXTS, 'SET', 'FLAG')}
        res.update((name, bool(getattr(got, name))) for name in SWITCHES)
        res.update(
            IGNORE=got.IGNORE and sorted(got.IGNORE.chars), REP=[(r.pattern, r.replacement) for r in got.REP],
            MAP=[sorted(group) for group in got.MAP], PHONE=got.PHONE and [tuple(row) for row in got.PHONE.table],
            BREAK=[b.pattern for b in got.BREAK], COMPOUNDRULE=[r.text for r in got.COMPOUNDRULE],
            CHECKCOMPOUNDPATTERN=[(p.left, p.right, p.replacement) for p in got.CHECKCOMPOUNDPATTERN],
            ICONV=got.ICONV and [tuple(p) for p in got.ICONV.pairs], OCONV=got.OCONV and [tuple(p) for p in got.OCONV.pairs],
            AF={n: sorted(flags) for n, flags in got.AF.items()}, AM={n: list(tags) for n, tags in got.AM.items()},
            COMPOUNDSYLLABLE=got.COMPOUNDSYLLABLE and tuple(got.COMPOUNDSYLLABLE), SFX=affixes(got.SFX), PFX=affixes(got.PFX))
        return res
    return ctx.call('directives', read)


def expect(ctx, text, entries, expected, what='a directive is not exposed as written'):
    d = ctx.load(text, dic(*entries))
    got = values(ctx, d)
    ctx.states += 1
    notation = [line.split()[1] for line in text.split('\n') if line.startswith('FLAG ')]
    expected = {'SET': 'UTF-8', **expected, 'FLAG': notation[0] if notation else 'short'}
    for name, default in DEFAULTS.items():
        wanted = expected.get(name, default)
        if got[name] != wanted:
            ctx.op = ('aff', name)
            ctx.fail(what, wanted, got[name], directive=name)


# -- directives: name, lines, value

def affix_class(kind, f, variant=0):
    rows, expected = {
        0: ([('0', 's', '.', '')], [('', 's', '.', [])]),
        1: ([('y', 'ies', '[^aé]y', f[1]), ('0', '0', 'x', ''), ('ab', '0', '.', f[2])],
            [('y', 'ies', '[^aé]y', [f[1]]), ('', '', 'x', []), ('ab', '', '.', [f[2]])]),
        2: ([('0', "'s", '.', ''), ('e', 'é', '[ae][^xyz]e', '')], [('', "'s", '.', []), ('e', 'é', '[ae][^xyz]e', [])]),
        3: ([], []),
    }[variant]
    cross = 'YN'[variant % 2]
    lines = '\n'.join(['%s %s %s %d' % (kind, f[0], cross, len(rows))] + [
        '%s %s %s %s%s %s' % (kind, f[0], strip, add, flags and '/' + flags, cond) for strip, add, cond, flags in rows])
    return kind, lines, {f[0]: [(*e, cross == 'Y', f[0]) for e in expected]} if rows else {}


TABLES = {
    'REP': [(['a b'], [('a', 'b')]), (['f ph', '^alot$ a_lot', 'é e', 'shun$ tion'], [('f', 'ph'), ('^alot$', 'a_lot'), ('é', 'e'), ('shun$', 'tion')])],
    'MAP': [(['aá'], [['a', 'á']]), (['aáà', 'ß(ss)', '(ab)(cd)e'], [sorted('aáà'), ['ss', 'ß'], ['ab', 'cd', 'e']])],
    'PHONE': [(['A B'], [('A', 'B')]), (['AH(AEIOU)-^ *', 'B _', 'CC$ K'], [('AH(AEIOU)-^', '*'), ('B', ''), ('CC$', 'K')])],
    'BREAK': [(['-'], ['-']), (['^-', '-$', '--', 'é', '.'], ['^-', '-$', '--', 'é', '.']), ([], [])],
    'COMPOUNDRULE': [(['AB*C?'], ['AB*C?']), (['A*B', '(A)(B)*', 'AA'], ['A*B', '(A)(B)*', 'AA'])],
    'CHECKCOMPOUNDPATTERN': [(['a b'], [('a', 'b', None)]), (['o/A o/B', '0/A é', 'aa bb c'], [('o/A', 'o/B', None), ('0/A', 'é', None), ('aa', 'bb', 'c')])],
    'ICONV': [(['a b'], [('a', 'b')]), (["’ '", '_x y_', 'ab c'], [('’', "'"), ('_x', 'y_'), ('ab', 'c')])],
    'OCONV': [(['b a'], [('b', 'a')]), (["' ’", 'c ab'], [("'", '’'), ('c', 'ab')])],
    'AM': [(['po:noun'], {'1': ['po:noun']}), (['ph:a po:b', 'is:c', 'st:x ts:y al:z'], {'1': ['ph:a', 'po:b'], '2': ['is:c'], '3': ['st:x', 'ts:y', 'al:z']})],
}


def directives(f):
    """all the directives with their values, flags written as f"""
    for i, name in enumerate(ONE_FLAG):
        for j in (0, 1, 5):
            yield name, '%s %s' % (name, f[(i + j) % 6]), f[(i + j) % 6]
    for name in SWITCHES:
        yield name, name, True
    for name in NUMBERS:
        for n in (0, 1, 2, 10, 123):
            yield name, '%s %d' % (name, n), n
    for name, (_, texts) in TEXTS.items():
        for text in texts:
            yield name, '%s %s' % (name, text), text
    for chars in ('a', 'aéx', "-'"):
        yield 'IGNORE', 'IGNORE ' + chars, sorted(chars)
    yield 'COMPOUNDSYLLABLE', 'COMPOUNDSYLLABLE 6 aeiouy', (6, 'aeiouy')
    yield 'NEEDAFFIX', 'PSEUDOROOT ' + f[3], f[3]
    yield 'COMPOUNDEND', 'COMPOUNDLAST ' + f[4], f[4]
    for name, tables in TABLES.items():
        for rows, value in tables:
            yield name, table(name, rows), value
    for kind in ('SFX', 'PFX'):
        for variant in range(4):
            yield affix_class(kind, f, variant)


def firsts(f):
    """one directive of each name, with the richest value"""
    last = {}
    for name, lines, value in directives(f):
        if value or value == 0:
            last[name] = name, lines, value
    return list(last.values())


def alias_line(f, comma):
    return table('AF', [f[0] + comma + f[1], f[2]]), {'1': sorted([f[0], f[1]]), '2': [f[2]]}


ENTRIES = ['word', 'Wörd']


def single(tier):
    for notation, f in FLAGS.items():
        for no, _ in enumerate(directives(f)):
            for noise in (False, True):
                yield notation, no, noise
        yield notation, None, False
        yield notation, 'no SET', False
        yield notation, 'AF', False


def run_single(ctx, config):
    notation, no, noise = config
    f = FLAGS[notation]
    if no == 'no SET':
        return expect(ctx, notation + '\nTRY ab\n', ['word'], {'TRY': 'ab', 'SET': 'UTF-8' if 'UTF' in notation else 'Windows-1252'})
    if no is None:
        return expect(ctx, aff(notation), ENTRIES, {})
    if no == 'AF':
        line, value = alias_line(f, ',' * (notation == 'FLAG num'))
        return expect(ctx, aff(notation, line), ENTRIES, {'AF': value})
    name, lines, value = list(directives(f))[no]
    if noise:
        rows = [x for line in lines.split('\n') for x in ('', line + '   ' if name in TEXTS else line + '\t ')]
        lines = '\n'.join(['# ' + name + ' 7 7', 'NAME x', *rows, '  ', '# SFX A Y 1', 'Unknown ' + lines.split('\n')[0]])
        return expect(ctx, aff(notation) + lines + '\n', ENTRIES, {name: value})
    return expect(ctx, aff(notation, lines), ENTRIES, {name: value})


def pairs(tier):
    for notation, f in FLAGS.items():
        n = len(firsts(f))
        for i, j in itertools.permutations(range(n), 2):
            yield notation, (i, j)
        for chosen in (itertools.permutations if tier == 'thorough' else itertools.combinations)(range(n), 3):
            yield notation, chosen


def run_pairs(ctx, config):
    notation, chosen = config
    given = [firsts(FLAGS[notation])[i] for i in chosen]
    expected = {name: value for name, _, value in given}
    if 'IGNORE' in expected and ('SFX' in expected or 'PFX' in expected):
        return      # ignored characters are left out of affixes: C10
    expect(ctx, aff(notation, *[lines for _, lines, _ in given]), ENTRIES, expected, 'a directive disturbs another')


def altogether(tier):
    for notation, f in FLAGS.items():
        n = len(firsts(f))
        for shift in range(n):
            for backwards in (False, True):
                yield notation, shift, backwards


def run_altogether(ctx, config):
    notation, shift, backwards = config
    given = [x for x in firsts(FLAGS[notation]) if x[0] != 'IGNORE']
    given = given[shift:] + given[:shift]
    if backwards:
        given.reverse()
    expect(ctx, aff(notation, *[lines for _, lines, _ in given]), ENTRIES, {name: value for name, _, value in given},
           'a directive disturbs another')


def sizes(tier):
    for name in (*TABLES, 'SFX', 'PFX', 'AF'):
        for n in range(1, 34):
            yield name, n
        for n in (99, 100, 101, 255, 256, 257, 999, 1000, 1001):
            yield name, n


def run_sizes(ctx, config):
    name, n = config
    letters = [chr(0x4e00 + i) for i in range(n)]
    after = ['TRY after', 'KEEPCASE K']
    if name in ('SFX', 'PFX'):
        lines = '\n'.join(['%s A Y %d' % (name, n)] + ['%s A 0 %s .' % (name, c) for c in letters])
        value = {'A': [('', c, '.', [], True, 'A') for c in letters]}
    else:
        row, value = {
            'REP': (lambda c: c + ' b', lambda c: (c, 'b')), 'MAP': (lambda c: 'a' + c, lambda c: ['a', c]),
            'PHONE': (lambda c: c + ' B', lambda c: (c, 'B')), 'BREAK': (str, str), 'COMPOUNDRULE': (lambda c: c + '*', lambda c: c + '*'),
            'CHECKCOMPOUNDPATTERN': (lambda c: c + ' b', lambda c: (c, 'b', None)), 'ICONV': (lambda c: c + ' b', lambda c: (c, 'b')),
            'OCONV': (lambda c: c + ' b', lambda c: (c, 'b')), 'AM': (lambda c: 'po:' + c, lambda c: ['po:' + c]), 'AF': (str, lambda c: [c]),
        }[name]
        lines = table(name, list(map(row, letters)))
        value = list(map(value, letters))
        if name in ('AM', 'AF'):
            value = {str(i + 1): v for i, v in enumerate(value)}
    expect(ctx, aff(lines, *after), ENTRIES, {name: value, 'TRY': 'after', 'KEEPCASE': 'K'}, 'a table is not exposed as written')


WIDE = ('REP', 'MAP', 'MAP-group', 'PHONE', 'BREAK', 'COMPOUNDRULE', 'CHECKCOMPOUNDPATTERN', 'ICONV', 'OCONV', 'AM', 'AF', 'SFX', 'PFX', 'IGNORE', 'NUMBERS', *TEXTS)


def widths(tier):
    for name in WIDE:
        for n in (*range(1, 25), 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257):
            yield name, n


def run_widths(ctx, config):
    name, n = config
    letters = [chr(0x4e00 + i) for i in range(n)]
    text = ''.join(letters)
    back = text[::-1]
    fields = ['%s:%s' % (('po', 'ph', 'st', 'is')[i % 4], c) for i, c in enumerate(letters)]
    if name in ('SFX', 'PFX'):
        lines = '%s A Y 3\n%s A %s %s/%s %s\n%s A 0 %s .\n%s A %s 0/B [%s]' % (name, name, text, back, text, text, name, text, name, back, text)
        value = {'A': [(text, back, text, sorted(letters), True, 'A'), ('', text, '.', [], True, 'A'), (back, '', '[%s]' % text, ['B'], True, 'A')]}
    elif name in TEXTS:
        lines, value = name + ' ' + text, text
    elif name == 'IGNORE':
        lines, value = 'IGNORE ' + back, sorted(letters)
    elif name == 'NUMBERS':
        expect(ctx, aff(*['%s %d' % (number, n + i) for i, number in enumerate(NUMBERS)], 'TRY after'), ENTRIES,
               {'TRY': 'after', **{number: n + i for i, number in enumerate(NUMBERS)}}, 'a number is not exposed as written')
        return
    else:
        row, value = {
            'REP': (text + ' ' + back, (text, back)), 'MAP': (text, sorted(letters)), 'MAP-group': ('a(%s)b(%s)' % (text, back + 'c'), sorted(['a', text, 'b', back + 'c'])),
            'PHONE': (text + ' ' + back, (text, back)), 'BREAK': (text, text), 'COMPOUNDRULE': ('*'.join(letters), '*'.join(letters)),
            'CHECKCOMPOUNDPATTERN': (text + ' ' + back + ' ' + text, (text, back, text)), 'ICONV': (text + ' ' + back, (text, back)), 'OCONV': (text + ' ' + back, (text, back)),
            'AM': (' '.join(fields), fields), 'AF': (back, sorted(letters)),
        }[name]
        name = name.split('-')[0]
        lines, value = table(name, [row, row]), [value, value]
        if name in ('AM', 'AF'):
            value = {str(i + 1): v for i, v in enumerate(value)}
    name, _, _ = name.partition('-')
    expect(ctx, aff('FLAG UTF-8', lines, 'KEEPCASE K'), ENTRIES, {name: value, 'KEEPCASE': 'K'}, 'a long row is not exposed as written')


def classes(tier):
    """several affix classes, of both kinds, also under one flag"""
    for kinds in itertools.product(('SFX', 'PFX'), repeat=3):
        for chosen in itertools.permutations(range(4), 3):
            for same in (False, True):
                yield kinds, chosen, same


def run_classes(ctx, config):
    kinds, chosen, same = config
    expected = {'SFX': {}, 'PFX': {}}
    lines = []
    for no, (kind, variant) in enumerate(zip(kinds, chosen)):
        # a flag may name both a prefix and a suffix class, but not two of one kind
        f = 'ABCDEF' if same and kinds.count(kind) == 1 else 'GHIJKL'[no:] + 'MNO'
        _, text, value = affix_class(kind, f, variant)
        lines.append(text)
        expected[kind].update(value)
    expect(ctx, aff(*lines), ENTRIES, expected, 'an affix class is not exposed as written')


def replacements(tier):
    for own in subsets(['a b', 'é e'], 0, 2):
        for fields in subsets(['ph:xx', 'ph:xx yy', 'ph:ab->cd', 'ph:wor*', 'po:noun'], 0, 3):
            yield own, fields


def run_replacements(ctx, config):
    """ph: fields come after the replacements of the file"""
    own, fields = config
    expected = [tuple(r.split()) for r in own]
    entries = ['first']
    for i, field in enumerate(fields):
        stem = 'word%d' % i
        entries.append(stem + ' ' + field)
        for part in field.split():
            if part == 'ph:ab->cd':
                expected.append(('ab', 'cd'))
            elif part == 'ph:wor*':
                expected.append(('wo', stem[:-1]))
            elif part.startswith('ph:'):
                expected.append((part[3:], stem))
    expect(ctx, aff(own and table('REP', own)), entries, {'REP': expected}, 'replacements are not exposed as written')


SPACES = [
    Space('single', 'each of 49 directives with each of its values in 4 flag notations, plain and among noise; all the others keep '
          'their defaults', single, run_single),
    Space('pairs', 'every ordered pair and every (thorough: ordered) triple of directives in 4 flag notations', pairs, run_pairs),
    Space('altogether', 'all directives at once in every rotation, forwards and backwards', altogether, run_altogether),
    Space('sizes', 'tables of 1..33 and around 100, 256 and 1000 rows, followed by other directives', sizes, run_sizes),
    Space('widths', 'rows of 1..24 and around 32, 64, 128 and 256 letters, members, flags or fields for 14 tables and 4 texts; numbers of that size', widths, run_widths),
    Space('classes', 'three affix classes of every kind and size', classes, run_classes),
    Space('replacements', 'replacements of the affix file followed by those of the entries', replacements, run_replacements),
]
