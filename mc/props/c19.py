"""C19: flag formats, aliases and synonyms only change notation."""
import functools
import itertools
import unicodedata

from . import contexts
from .common import *

#: abstract flags 0..9 in every notation; long and numeric ones can be read wrongly when split elsewhere
NOTATIONS = {
    'letters': ('', lambda fs: ''.join(fs), 'ABCDEFGHIJKLMN'),
    'digits': ('', lambda fs: ''.join(fs), '1234567890#%&!'),
    'high': ('', lambda fs: ''.join(fs), 'éàüßABabÉÀ¿ñÿþ'),
    'long': ('FLAG long', lambda fs: ''.join(fs),
             ['XY', 'YX', 'XX', 'YY', 'XZ', 'ZX', 'ZZ', 'YZ', 'ZY', 'X1', '1X', '11', '1Y', 'Y1']),
    'long-digits': ('FLAG long', lambda fs: ''.join(fs),
                    ['12', '21', '11', '22', '13', '31', '33', '23', '32', '01', '10', '00', '02', '20']),
    'num': ('FLAG num', lambda fs: ','.join(fs),
            ['1', '11', '111', '2', '12', '21', '211', '112', '65000', '10', '100', '3', '31', '13']),
    'utf': ('FLAG UTF-8', lambda fs: ''.join(fs), 'шщ✓𝄞éÉABאب1ΣσÅ'),
}
ALIASES = ('none', 'AF', 'AF-reversed', 'AF-padded')


class Writer:
    """Writes flag sets of a dictionary template in one notation."""

    def __init__(self, notation, alias):
        self.head, self.join, self.names = NOTATIONS[notation]
        self.alias = alias
        self.sets = []

    def one(self, flag):
        return self.names[flag]

    def many(self, flags):
        if not flags:
            return ''
        if self.alias == 'none':
            return '/' + self.join([self.names[f] for f in flags])
        key = tuple(flags)
        if key not in self.sets:
            self.sets.append(key)
        return '/{%d}' % self.sets.index(key)

    def finish(self, aff_lines, dic_lines):
        """Texts of the files, with alias numbers put in."""
        sets = list(self.sets)
        if self.alias == 'AF-reversed':
            sets.reverse()
        if self.alias == 'AF-padded':       # numbers with several digits
            sets = [(5,), (5, 1)] * 5 + sets + [(2,)]
        numbers = {'{%d}' % i: str(sets.index(s) + 1) for i, s in enumerate(self.sets)}

        def put(text):
            for key, number in numbers.items():
                text = text.replace('/' + key, '/' + number)
            return text
        head = [self.head]
        if sets and self.alias != 'none':
            head.append(table('AF', [self.join([self.names[f] for f in s]) for s in sets]))
        return aff(*head, *map(put, aff_lines)), dic(*map(put, dic_lines))

    def affix(self, kind, flag, strip, add, cond, flags=(), cross='Y'):
        return '%s %s %s 1\n%s %s %s %s%s %s' % (kind, self.one(flag), cross, kind, self.one(flag), strip or '0',
                                                 add or '0', self.many(flags), cond)


# -- templates: function(writer, parameters) -> aff lines, dic lines; and the words asked

def affixes(tier):
    sets = list(subsets(range(7), 0, 2))
    for f1 in sets:
        for suf in ((), (2,), (3,), (4,), (2, 4), (6, 2)):
            yield f1, suf


def t_affixes(w, params):
    f1, suf = params
    lines = ['NEEDAFFIX ' + w.one(4), 'FORBIDDENWORD ' + w.one(5), 'KEEPCASE ' + w.one(6), 'TRY abst', 'NOSUGGEST ' + w.one(7),
             w.affix('PFX', 0, '', 'p', '.', suf), w.affix('SFX', 1, '', 's', '.', suf),
             w.affix('SFX', 2, 'b', 't', 'b'), w.affix('SFX', 3, '', 'u', '[^s]', (), 'N')]
    return lines, ['ab' + w.many(f1), 'b' + w.many((1, 0)), 'abs' + w.many((3, 7)), 'ba' + w.many(())]


W_AFFIXES = sorted({p + s + e for p in ('', 'p') for s in ('ab', 'b', 'at', 'abs', 'a', 'Ab', 'AB', 'ba')
                    for e in ('', 's', 't', 'u', 'su', 'st')})


def circumfix(tier):
    yield from itertools.product(list(subsets(range(3), 0, 3)), list(subsets((2, 3), 0, 2)), list(subsets((2, 3), 0, 2)))


def t_circumfix(w, params):
    f1, pre, suf = params
    return ['CIRCUMFIX ' + w.one(2), 'NEEDAFFIX ' + w.one(3), w.affix('PFX', 0, '', 'p', '.', pre),
            w.affix('SFX', 1, '', 's', '.', suf)], ['ab' + w.many(f1), 'b' + w.many((3, 1, 0))]


W_CIRCUMFIX = sorted({p + s + e for p in ('', 'p') for s in ('ab', 'b') for e in ('', 's')})


def compounds(tier):
    sets = list(subsets(range(6), 0, 2))
    for f1 in sets:
        for f2 in sets:
            yield f1, f2


def t_compounds(w, params):
    f1, f2 = params
    return ['COMPOUNDMIN 1', 'COMPOUNDFLAG ' + w.one(0), 'COMPOUNDBEGIN ' + w.one(1), 'COMPOUNDMIDDLE ' + w.one(2),
            'COMPOUNDEND ' + w.one(3), 'ONLYINCOMPOUND ' + w.one(4), 'FORCEUCASE ' + w.one(5),
            'COMPOUNDPERMITFLAG ' + w.one(6), 'COMPOUNDFORBIDFLAG ' + w.one(7), 'CHECKCOMPOUNDPATTERN 1',
            'CHECKCOMPOUNDPATTERN b/%s c/%s' % (w.one(9), w.one(9)),
            w.affix('SFX', 8, '', 's', '.', (6, 1))], \
        ['ab' + w.many(f1), 'cd' + w.many(f2), 'b' + w.many((0, 9)), 'c' + w.many((9, 0)), 'e' + w.many((8, 3))]


W_COMPOUNDS = sorted(p + q + r for p in ('ab', 'cd', 'b', 'c', 'e', 'es', 'Ab', 'Cd')
                     for q in ('', 'ab', 'cd', 'b', 'c', 'e', 'es') for r in ('', 'ab', 'cd', 'e') if q or not r)


RULES = ['01', '0*1', '0?1', '01*2', '01?2*', '0*1*', '001', '10', '0012?', '120*']


def rules(tier):
    for chosen in subsets(RULES, 1, 2):
        for f1 in subsets(range(3), 0, 2):
            yield chosen, f1


def t_rules(w, params, brackets=False):
    chosen, f1 = params
    plain = w.head in ('', 'FLAG UTF-8') and not brackets
    out = [''.join(c if c in '*?' else w.one(int(c)) if plain else '(%s)' % w.one(int(c)) for c in text) for text in chosen]
    return ['COMPOUNDMIN 1', table('COMPOUNDRULE', out), 'ONLYINCOMPOUND ' + w.one(3)], \
        ['a' + w.many(f1), 'b' + w.many((1,)), 'c' + w.many((2, 3)), 'd' + w.many((2, 0))]


W_RULES = sorted(words('abcd', 4, 1))


def run_template(template, asked, suggests, skip=()):
    def run(ctx, config):
        base_texts = None
        first = None
        for notation in NOTATIONS:
            if notation in skip:
                continue
            for alias in ALIASES:
                w = Writer(notation, alias)
                texts = w.finish(*template(w, config))
                d = ctx.load(*texts, label=notation + ' ' + alias)
                if first is None:
                    model, base = Model(*texts), d
                    first = {x: model.accepts(x) for x in asked}, {x: ctx.suggest(base, x) for x in suggests}
                    for word, got in first[1].items():
                        if sorted(got) != sorted(model.suggest(word)):
                            ctx.fail('suggestions differ from the model', model.suggest(word), got)
                    base_texts = ctx.texts
                else:
                    ctx.texts = {'written otherwise': base_texts['letters none'], 'main': {'aff': texts[0], 'dic': texts[1]}}
                for word, expected in first[0].items():
                    got = ctx.lookup(d, word)
                    if got != expected:
                        ctx.fail('the answer depends on the notation of flags', expected, got, notation=notation, alias=alias)
                if d is not base:
                    for word, expected in first[1].items():
                        got = ctx.suggest(d, word)
                        if got != expected:
                            ctx.fail('suggestions depend on the notation of flags', expected, got,
                                     notation=notation, alias=alias)
    return run


def bracketed(w, params):
    return t_rules(w, params, brackets=True)


# -- every flag there is

def letters_for(number):
    res = ''
    while number:
        number, digit = divmod(number, 26)
        res += 'abcdefghijklmnopqrstuvwxyz'[digit]
    return res + 'x'


@functools.lru_cache(None)
def flag_names():
    """notation -> all its flags"""
    ascii_ = [c for c in map(chr, range(33, 127)) if c != '/']
    plane = [chr(n) for n in range(0xa1, 0x10000) if not 0xd800 <= n < 0xe000 and n != 0xfeff]
    good = [c for c in plane if not c.isspace() and unicodedata.category(c) != 'Cc']
    beyond = [chr(n) for start in (0x10400, 0x1d49c, 0x1f600, 0x20000, 0xe0100) for n in range(start, start + 60)]
    return {
        'short': ascii_ + [c for c in good if c < '\u0100'],
        'short-utf8': ascii_ + good[:800] + beyond,
        'long': [a + b for a in ascii_ for b in ascii_],
        'num': list(map(str, range(1, 65510))),
        'utf': ascii_ + good + beyond,
    }


def every_flag(tier):
    for notation, names in flag_names().items():
        step = len(names) if notation == 'short' else 400
        for start in range(0, len(names), step):
            for alias in (False, True):
                yield notation, start, min(len(names), start + step), alias


def run_every_flag(ctx, config):
    notation, start, end, alias = config
    head, comma = {'short': ('', ''), 'short-utf8': ('', ''), 'long': ('FLAG long', ''), 'num': ('FLAG num', ','),
                   'utf': ('FLAG UTF-8', '')}[notation]
    names = flag_names()[notation][start:end]
    n = len(names)
    sets = [names[i] + comma + names[(i + 1) % n] for i in range(n)]
    stems = [letters_for(i) for i in range(n)]
    lines = [head, 'BREAK 0', alias and table('AF', sets)]
    lines += ['SFX %s Y 1\nSFX %s 0 -%s .' % (name, name, stem) for name, stem in zip(names, stems)]
    d = ctx.load(aff(*lines), dic(*['%s/%s' % (stem, i + 1 if alias else sets[i]) for i, stem in enumerate(stems)]))
    for i, stem in enumerate(stems):
        for j in (i, (i + 1) % n, (i + 2) % n, (i * 7 + 3) % n):
            expected = j in (i, (i + 1) % n)
            got = ctx.lookup(d, stem + '-' + stems[j])
            if got != expected:
                ctx.fail('a flag is not read as written', expected, got, flag=names[i], other=names[j])


# -- morphological aliases

TAGS = ('ph:xy', 'po:noun', 'ph:ba', 'ph:abx*', 'ph:xx->ab', 'ts:abc', 'ph:')


def morphology(tier):
    for first in subsets(TAGS, 1, 2):
        for second in subsets(TAGS, 0, 2 if tier == 'thorough' else 1):
            for flags in ('', 'S'):
                yield first, second, flags


def run_morphology(ctx, config):
    first, second, flags = config
    head = [rule('SFX', 'S', '', 's', '.'), 'TRY abxy']
    stems = [('ab' + ('/' + flags if flags else ''), first), ('cab', second)]
    plain = ctx.load(aff(*head), dic(*[(s + '\t' + ' '.join(t)).strip() for s, t in stems]), label='plain')
    asked = ['xy', 'ba', 'abx', 'xx', 'ab', 'cab', 'xxs', 'abxs', 'bas', 'cxy', 'abc', 'noun']
    expected = {w: (ctx.lookup(plain, w), ctx.suggest(plain, w)) for w in asked}
    for filler in ((), ('po:verb',)):
        for padding in (0, 10, 100):
            rows = ['ph:wrong'] * padding + [' '.join(t) for _, t in stems if t] + list(filler)
            numbers = iter(range(padding + 1, 200))
            lines = [s + '\t%d' % next(numbers) if t else s for s, t in stems]
            d = ctx.load(aff(*head, table('AM', rows)), dic(*lines), label='main')
            for w in asked:
                got = ctx.lookup(d, w), ctx.suggest(d, w)
                if got != expected[w]:
                    ctx.fail('the answer depends on the notation of morphological data', expected[w], got)
            # a number among written-out fields
            lines = [s + '\tis:x %d st:%s' % (n, s.partition('/')[0]) if t else s
                     for (s, t), n in zip(stems, range(padding + 1, 200))]
            d = ctx.load(aff(*head, table('AM', rows)), dic(*lines), label='main')
            for w in asked:
                got = ctx.lookup(d, w), ctx.suggest(d, w)
                if got != expected[w]:
                    ctx.fail('the answer depends on the notation of morphological data', expected[w], got)


# -- synonyms of directives

def synonyms(tier):
    yield from itertools.product(subsets('NAS'), subsets('NES'), subsets('E'))


def run_synonyms(ctx, config):
    f1, f2, suf = map(''.join, config)
    lookups = sorted(words(['ab', 'cd', 's', 'Ab'], 3, 1))
    seen = None
    for need in ('NEEDAFFIX', 'PSEUDOROOT'):
        for end in ('COMPOUNDEND', 'COMPOUNDLAST'):
            model, d = compare(ctx, aff(need + ' N', 'COMPOUNDBEGIN A', end + ' E', 'COMPOUNDMIN 1',
                                        rule('SFX', 'S', '', 's', '.', suf)),
                               dic(entry('ab', f1), entry('cd', f2), 'ab/A'), lookups=lookups,
                               suggests=['abd', 'cds', 'acd'], order=False)
            answers = [ctx.suggest(d, w) for w in ('abd', 'cds', 'acd')]
            if seen is not None and seen != answers:
                ctx.fail('a synonym of a directive changes suggestions', seen, answers)
            seen = answers


# -- whole dictionaries rewritten

ONE_FLAG = set('COMPOUNDFLAG COMPOUNDBEGIN COMPOUNDMIDDLE COMPOUNDEND COMPOUNDPERMITFLAG COMPOUNDFORBIDFLAG ONLYINCOMPOUND FORBIDDENWORD NOSUGGEST '
               'KEEPCASE NEEDAFFIX CIRCUMFIX FORCEUCASE WARN SUBSTANDARD COMPOUNDROOT SYLLABLENUM'.split())
REWRITTEN = {
    'long': ('FLAG long', lambda c: c + c.swapcase(), ''),
    'num': ('FLAG num', lambda c: str(ord(c) * 7 % 1000 + 1), ','),
    'utf': ('FLAG UTF-8', lambda c: chr(0x400 + ord(c)), ''),
    'high': ('', lambda c: chr(0xc0 + (ord(c) - 64)), ''),
}


def rewritten(text, entries, notation, aliases):
    """The same dictionary with flags in another notation, optionally with numbered flag sets."""
    head, name, comma = REWRITTEN[notation]
    sets = []

    def many(flags):
        res = comma.join(map(name, flags))
        if not aliases:
            return res
        if res not in sets:
            sets.append(res)
        return str(sets.index(res) + 1)

    def with_flags(word):
        word, slash, flags = word.partition('/')
        return word + slash + (many(flags) if flags else '')

    lines = []
    for line in text.splitlines()[1:]:
        fields = line.split()
        if fields[0] == 'FLAG':
            continue
        if fields[0] in ONE_FLAG:
            fields[1] = name(fields[1])
        elif fields[0] in ('SFX', 'PFX'):
            fields[1] = name(fields[1])
            if len(fields) > 4:
                fields[3] = with_flags(fields[3])
        elif fields[0] == 'COMPOUNDRULE' and not fields[1].isdigit():
            brackets = notation in ('long', 'num')
            fields[1] = ''.join(c if c in '*?' else '(' + name(c) + ')' if brackets else name(c) for c in fields[1])
        elif fields[0] == 'CHECKCOMPOUNDPATTERN' and len(fields) > 2:
            fields[1:] = [part if '/' not in part else part.split('/')[0] + '/' + name(part.split('/')[1]) for part in fields[1:]]
        lines.append(' '.join(fields))
    words_ = []
    for line in entries.splitlines()[1:]:
        word, blank, data = line.partition(' ph:')
        words_.append(with_flags(word) + blank + data)
    return aff(head, sets and table('AF', sets), *lines), dic(*words_)


def run_backgrounds(ctx, config):
    kernel, chosen = config
    text, entries, asked, suggests = contexts.build(contexts.EVERY, kernel, chosen)
    base = ctx.load(text, entries, 'written otherwise')
    lookups = {w: ctx.lookup(base, w) for w in asked}
    offered = {w: ctx.suggest(base, w) for w in suggests[:3]}
    for no, notation in enumerate(REWRITTEN):
        d = ctx.load(*rewritten(text, entries, notation, (no + len(chosen)) % 2 or len(chosen) < 2))
        for w, expected in lookups.items():
            got = ctx.lookup(d, w)
            if got != expected:
                ctx.fail('the answer depends on the notation of flags', expected, got, notation=notation)
        for w, expected in offered.items():
            got = ctx.suggest(d, w)
            if got != expected:
                ctx.fail('suggestions depend on the notation of flags', expected, got, notation=notation)


SPACES = [
    Space('backgrounds', contexts.EVERYTHING + '; each rewritten in 4 notations', contexts.everything, run_backgrounds),
    Space('every flag', 'every flag of each notation (all Latin-1 signs, all pairs of ASCII signs, all numbers to 65509, all '
          'characters of the basic plane), written out and as up to 400 numbered sets', every_flag, run_every_flag),
    Space('affixes', 'up to 2 of 7 flags on a stem, 6 flag sets on affixes; 7 notations x 4 ways of aliasing', affixes,
          run_template(t_affixes, W_AFFIXES, ('abt', 'pabx', 'ubs'))),
    Space('circumfix', 'every set of flags on stem, prefix and suffix; 7 notations x 4 ways of aliasing', circumfix,
          run_template(t_circumfix, W_CIRCUMFIX, ())),
    Space('compounds', 'up to 2 of 6 compounding flags on each of two stems, affix and pattern flags; '
          '7 notations x 4 ways of aliasing', compounds, run_template(t_compounds, W_COMPOUNDS, ('abcx',))),
    Space('rules', 'up to 2 of 10 COMPOUNDRULE texts; all words of up to 4 parts; 7 notations x 4 ways of aliasing', rules,
          run_template(t_rules, W_RULES, ())),
    Space('bracketed', 'the same with flags of rules in brackets in every notation', rules,
          run_template(bracketed, W_RULES, ())),
    Space('morphology', 'up to 2 of 7 data fields on each of two entries, written out or as AM numbers', morphology,
          run_morphology),
    Space('synonyms', 'PSEUDOROOT, COMPOUNDLAST with every set of 3 flags on two stems and an affix', synonyms, run_synonyms),
]
