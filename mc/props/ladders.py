"""Growing sizes: the same dictionary with 1, 2, 3, ... rows, flags, letters, parts, homonyms, and the one that matters at every place."""
import string

from .common import *

LETTERS = string.ascii_lowercase
FLAGS = [chr(c) for c in range(0xc0, 0x180) if chr(c).isalpha()]        # flags without a meaning


def sizes(tier, quick=(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 21, 32, 33), thorough=()):
    return quick if tier == 'quick' else tuple(quick) + tuple(thorough)


def places(tier, *args, **kw):
    """(size, place)"""
    for n in sizes(tier, *args, **kw):
        for i in range(n):
            yield n, i


def rows_around(n, i, row, filler):
    return [row if k == i else filler(k) for k in range(n)]


def q(k):
    """distinct texts without the letters of the examples"""
    return 'q' + 'wvj'[k % 3] + 'wvj'[k // 3 % 3] + 'wvj'[k // 9 % 3] + 'wvj'[k // 27 % 3]


class Ladder:
    def __init__(self, name, bounds, build, grid=places, suggest=False):
        self.name, self.bounds, self.build, self.grid, self.suggest = name, bounds, build, grid, suggest


def space(ladders, order=False):
    names = {x.name: x for x in ladders}

    def configs(tier):
        for x in ladders:
            for point in x.grid(tier):
                yield (x.name,) + tuple(point)

    def run(ctx, config):
        aff_lines, entries, lookups, suggests = names[config[0]].build(*config[1:])
        compare(ctx, aff(*aff_lines), dic(*entries), lookups=lookups, suggests=suggests, order=order)
    return Space('ladders', 'sizes 1..33 and every place of: ' + '; '.join(x.bounds for x in ladders), configs, run)


# -- affixes

def flags_of_stem(n, i):
    flags = ''.join(rows_around(n, i, 'S', lambda k: FLAGS[k]))
    return (['FLAG UTF-8', rule('SFX', 'S', '', 's', '.'), rule('SFX', 'T', '', 't', '.', flags)], ['ab/' + flags, 'ba/T'],
            ['abs', 'ab', 'bas', 'bats', 'bat', 'bs'], [])


def classes_of_stem(n, i):
    """a stem with many affix classes: each of them and pairs"""
    lines = [rule('SFX', FLAGS[k], '', q(k), '.', FLAGS[(k + 1) % n] if k == i else '') for k in range(n)]
    lines += [rule('PFX', FLAGS[40 + k], '', 'm' + q(k), '.') for k in range(n)]
    return (['FLAG UTF-8', *lines], ['ab/' + ''.join(FLAGS[:n]) + ''.join(FLAGS[40:40 + n])],
            ['ab', 'ab' + q(i), 'm' + q(i) + 'ab', 'm' + q(i) + 'ab' + q(n - 1 - i), 'ab' + q(n), 'ab' + q(i) + q((i + 1) % n), 'ab' + q(i) + q(i)], [])


def rules_of_class(n, i):
    rows = rows_around(n, i, 'SFX S b s b', lambda k: 'SFX S 0 %s .' % q(k))
    pre = rows_around(n, i, 'PFX P a r a', lambda k: 'PFX P 0 %s .' % q(k))
    return (['SFX S Y %d' % n, *rows, 'PFX P Y %d' % n, *pre], ['ab/SP', 'ba/S'],
            ['as', 'rb', 'rs', 'ab', 'bas', 'ab' + q(n - 1), q(n - 1) + 'ab', q(n - 1) + 'as', 'abs'], [])


def lengths(n, i):
    """long stem, long addition, long strip, long condition with the class at place i"""
    stem = (LETTERS * 2)[:n]
    cond = ''.join('[%sz]' % c if k == i else '.' if k == i + 1 else c for k, c in enumerate(stem))
    return ([rule('SFX', 'S', stem[i:], stem, '.'), rule('SFX', 'T', '', 'tt', cond), rule('PFX', 'P', '', stem, cond)], [stem + '/STP', stem[:i] + 'Z' + '/TP'],
            [stem, stem[:i] + stem, stem + 'tt', stem + stem, stem * 2 + 'tt', stem[:-1] + 'tt', stem[:i] + 'Ztt', stem + stem[:i] + 'Z', stem[1:] + 'tt'], [])


C01 = [Ladder('flags', 'flags of an entry and of an affix', flags_of_stem), Ladder('classes', 'affix classes of an entry', classes_of_stem),
       Ladder('rules', 'rules of a class', rules_of_class), Ladder('lengths', 'letters of stem, strip, addition and condition', lengths)]


# -- marks

def mark_of_homonym(n, i):
    marks = ['NEEDAFFIX N', 'ONLYINCOMPOUND O', 'COMPOUNDFLAG C', 'COMPOUNDMIN 1']
    entries = ['ab/' + ('S' if k == i else 'NO'[k % 2]) for k in range(n)] + ['ba/' + ('N' if k == i else 'NOS'[k % 2]) for k in range(n)]
    return marks + [rule('SFX', 'S', '', 's', '.')], entries, ['ab', 'abs', 'ba', 'bas', 'AB', 'Abs'], []


def mark_among_flags(n, i):
    marks = ['FLAG UTF-8', 'NEEDAFFIX N', 'ONLYINCOMPOUND O', 'CIRCUMFIX X', 'KEEPCASE K', 'FORBIDDENWORD F']
    entries = []
    lines = []
    for m in 'NOXKF':
        flags = ''.join(rows_around(n, i, m, lambda k: FLAGS[k]))
        entries.append(m.lower() + 'ab/S' + flags)
        lines.append(rule('SFX', m.lower(), '', m.lower(), '.', flags))
    entries += ['zab/noxkf']
    return marks + lines + [rule('SFX', 'S', '', 's', '.')], entries, [t for m in 'noxkf' for w in (m + 'ab', m + 'abs', 'zab' + m)
                                                                      for t in (w, w.upper(), w.capitalize())], []


C02 = [Ladder('homonyms', 'homonyms, one usable', mark_of_homonym), Ladder('marks', 'flags of an entry and an affix around a mark', mark_among_flags)]


# -- letter case

def capital_at(n, i):
    stem = (LETTERS * 2)[:n]
    mixed = stem[:i] + stem[i].upper() + stem[i + 1:]
    texts = [stem, stem.upper(), stem.capitalize(), mixed, mixed[:1].upper() + mixed[1:], mixed[:-1] + mixed[-1:].upper(), stem[:i].upper() + stem[i:]]
    return ['KEEPCASE K'], [mixed, 'z' + stem, 'y' + stem + '/K', 'x' + mixed + '/K'], [p for t in texts for p in (
        t, 'z' + t, 'Z' + t, 'y' + t, 'Y' + t, 'x' + t, 'X' + t)], []


def same_letters(n, i):
    """many entries with the same letters, a lower-case one at place i"""
    pool = [p for p in case_patterns('abcdef') if p != 'abcdef'][:n]
    entries = rows_around(n, i, 'abcdef', lambda k: pool[k])
    return ['KEEPCASE K'], entries, ['abcdef', 'Abcdef', 'ABCDEF', pool[0], pool[-1], 'aBCDEF', 'AbcdeF'], []


C03 = [Ladder('capital', 'letters of a word, one of them capital', capital_at), Ladder('same', 'entries with the same letters', same_letters)]


def sharp_at(n, i):
    stem = ''.join('aßb' if k == i else 'ss' if k % 2 else 'a' for k in range(n))
    up = stem.upper()
    return ['CHECKSHARPS', 'KEEPCASE K'], [stem, 'z' + stem + '/K'], [stem, up, stem.capitalize(), up.replace('SS', 'ß', 1), 'z' + stem, 'Z' + up, 'ZAß' + up,
                                                                     stem.replace('ß', 'ss'), 'Z' + ''.join(c if c == 'ß' else c.upper() for c in stem),
                                                                     ''.join(c if c == 'ß' else c.upper() for c in stem)], []


def dotted_at(n, i):
    stem = ''.join('i' if k == i else 'ı' if k % 2 else 'a' for k in range(n))
    tr = stem.replace('i', 'İ').replace('ı', 'I')
    return ['LANG tr'], [stem], [stem, tr.upper(), stem.upper(), tr.upper()[0] + stem[1:], stem.upper()[0] + stem[1:], stem.replace('ı', 'i'), stem.replace('i', 'ı')], []


C04 = [Ladder('sharp', 'letters with sharp s and ss', sharp_at, grid=lambda tier: places(tier, quick=(1, 2, 3, 4, 5, 6, 7, 8))),
       Ladder('dotted', 'letters with one dotted i', dotted_at)]


def forbidden_homonym(n, i):
    entries = ['ab/' + ('FC' if k == i else 'SCP') for k in range(n)] + ['ba/' + ('SCP' if k == i else 'FC') for k in range(n)] + ['cd/C', 'abcd/F' if i % 2 else 'abcd']
    return (['FORBIDDENWORD F', 'COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'TRY ab', rule('SFX', 'S', '', 's', '.'), rule('PFX', 'P', '', 'un', '.')], entries,
            ['ab', 'ba', 'abs', 'bas', 'unab', 'unba', 'abcd', 'cdab', 'bacd', 'cdba', 'Ab', 'BA', 'ab-cd', 'ba-cd'], ['abx', 'bax', 'abcdx', 'b'])


def forbidden_part(n, i):
    """a compound and a hyphenated word with a forbidden part"""
    parts = rows_around(n, i, 'ab', lambda k: ('cd', 'ef')[k % 2])
    return (['FORBIDDENWORD F', 'COMPOUNDFLAG C', 'COMPOUNDMIN 2'], ['ab/FC', 'cd/C', 'ef/C', 'gh/C', ''.join(parts[:3]) + 'gh/F'],
            [''.join(parts), '-'.join(parts), ''.join(parts[:i] + parts[i + 1:]), '-'.join(parts[:i] + parts[i + 1:]), ''.join(parts[:3]) + 'gh', '-'.join(parts).upper()], [])


C05 = [Ladder('homonyms', 'homonyms, some forbidden', forbidden_homonym, grid=lambda tier: places(tier, quick=tuple(range(1, 13)))),
       Ladder('parts', 'parts of a compound or hyphenated word, one forbidden', forbidden_part, grid=lambda tier: places(tier, quick=tuple(range(1, 9))))]


# -- compounds

def parts_by_position(n, i):
    parts = ['ab'] + ['cd'] * (n - 2) + ['ef'] if n > 1 else ['ab']
    wrong = list(parts)
    wrong[i] = 'gh'
    other = list(parts)
    other[i] = 'cds' if i % 2 else 'uncd'
    return (['COMPOUNDBEGIN B', 'COMPOUNDMIDDLE M', 'COMPOUNDEND E', 'COMPOUNDMIN 2', 'COMPOUNDPERMITFLAG R', rule('SFX', 'S', '', 's', '.', 'R'),
             rule('PFX', 'P', '', 'un', '.')],
            ['ab/BS', 'cd/MSP', 'ef/EP', 'gh', 'xy/B', 'yz/M', 'zx/E'], [''.join(p) for p in (parts, wrong, other)] + [''.join(parts[:-1]), ''.join(parts[1:])], [])


def word_max(n, i):
    """n parts, a limit of i + 1"""
    return ['COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'COMPOUNDWORDMAX %d' % (i + 1)], ['a/C', 'b/C', 'ab'], ['a' * n, ('ab' * n)[:n], 'ab' * ((n + 1) // 2)], []


def part_min(n, i):
    """parts of n and i + 1 letters, minimum around them"""
    one, two = 'a' * (i + 1), 'b' * n
    return ['COMPOUNDFLAG C', 'COMPOUNDMIN %d' % max(1, n - 1)], [one + '/C', two + '/C'], [one + two, two + one, one + one, two + two, one + two + one, one, two], []


def many_heads(n, i):
    """many possible first parts; only one of them leaves a known rest"""
    word = (LETTERS * 2)[:n + 3]
    return ['COMPOUNDFLAG C', 'COMPOUNDMIN 1'], [word[:k + 1] + '/C' for k in range(n)] + [word[i + 1:] + '/C'], [word, word[:-1], word + 'z', word.capitalize()], []


SMALL = tuple(range(1, 11))
C06 = [Ladder('positions', 'parts by position, one replaced', parts_by_position, grid=lambda tier: places(tier, quick=SMALL)),
       Ladder('word-max', 'parts against limits', word_max, grid=lambda tier: places(tier, quick=SMALL)),
       Ladder('part-min', 'lengths of parts', part_min, grid=lambda tier: places(tier, quick=SMALL)),
       Ladder('heads', 'candidate first parts', many_heads, grid=lambda tier: places(tier, quick=SMALL + (12, 16, 17)))]


def rule_at(n, i):
    rows = rows_around(n, i, 'XY', lambda k: 'VW' * (k % 3 + 1))
    return ['COMPOUNDMIN 1', table('COMPOUNDRULE', rows)], ['a/X', 'b/Y', 'c/V', 'd/W'], ['ab', 'ba', 'cd', 'cdcd', 'cdcdcd', 'cdcdcdcd', 'aab', 'abcd', 'ac'], []


def rule_length(n, i):
    pattern = 'XY' * n
    starred = pattern[:i] + pattern[i] + '*' + pattern[i + 1:]
    optional = pattern[:i] + pattern[i] + '?' + pattern[i + 1:]
    text = 'ab' * n
    changed = [text, text[:i] + text[i] + text[i:], text[:i] + text[i + 1:], text + 'a', text[:-1], text[:i] + 'c' + text[i + 1:]]
    return ['COMPOUNDMIN 1', table('COMPOUNDRULE', [starred, 'Z' + optional])], ['a/X', 'b/Y', 'c/Z'], [p + t for t in changed for p in ('', 'c')], []


def rule_flag_at(n, i):
    flags = ''.join(rows_around(n, i, 'X', lambda k: FLAGS[k]))
    return ['FLAG UTF-8', 'COMPOUNDMIN 1', table('COMPOUNDRULE', ['XX', 'X%s' % FLAGS[0]])], ['a/' + flags, 'b/X', 'c/' + FLAGS[0]], [
        'ab', 'ba', 'aa', 'ac', 'ca', 'bc', 'cb'], []


C07 = [Ladder('rows', 'rules', rule_at), Ladder('length', 'length of a rule', rule_length, grid=lambda tier: places(tier, quick=(1, 2, 3, 4, 5))),
       Ladder('flags', 'flags of a part', rule_flag_at)]


def prohibited_joint(n, i):
    """n parts, the joint number i is the prohibited one"""
    texts = []
    for left, right in (('ab', 'cd'), ('ef', 'fg'), ('ij', 'kl'), ('mn', 'Op'), ('rr', 'rs'), ('tu', 'tu'), ('vw', 'x')):
        parts = rows_around(n, i, left, lambda k: 'ya')
        parts.insert(i + 1, right)
        texts += [''.join(parts), ''.join(parts).capitalize()]
    return (['COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'CHECKCOMPOUNDREP', 'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDTRIPLE', 'CHECKCOMPOUNDDUP', 'FORCEUCASE U', 'COMPOUNDFORBIDFLAG D',
             table('CHECKCOMPOUNDPATTERN', ['b c']), table('REP', ['jk z'])],
            ['ab/C', 'cd/C', 'ef/C', 'fg/C', 'ef fg', 'ij/C', 'kl/C', 'izl', 'mn/C', 'Op/C', 'rr/C', 'rs/C', 'tu/C', 'ya/C', 'vw/CD', 'x/CU'], texts, [])


def prohibiting_row(n, i):
    return (['COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'CHECKCOMPOUNDREP', table('CHECKCOMPOUNDPATTERN', rows_around(n, i, 'b c', lambda k: q(k) + ' ' + q(k))),
             table('REP', rows_around(n, i, 'ba z', lambda k: q(k) + ' ' + q(k + 1)))],
            ['ab/C', 'cd/C', 'ba/C', 'az', 'azb', 'a/C'], ['abcd', 'cdab', 'aba', 'abab', 'baba', 'abba', 'cdba'], [])


def two_word_entry(n, i):
    entries = rows_around(n, i, 'ab cd', lambda k: q(k) + ' ' + q(k))
    return ['COMPOUNDFLAG C', 'COMPOUNDMIN 1'], [*entries, 'ab/C', 'cd/C'], ['abcd', 'cdab', 'ababcd', 'abcdab', 'abab'], []


C08 = [Ladder('joints', 'parts, the prohibited joint at every place', prohibited_joint, grid=lambda tier: places(tier, quick=(1, 2, 3, 4, 5))),
       Ladder('rows', 'prohibiting rows', prohibiting_row), Ladder('entries', 'two-word entries', two_word_entry)]


# -- breaks and conversions

def break_row(n, i):
    rows = rows_around(n, i, '+', lambda k: q(k) if k % 3 else '^' + q(k))
    ends = rows_around(n, i, '=$', lambda k: q(k) + '$')
    return [table('BREAK', rows + ends)], ['a', 'b+c', 'd'], ['a+d', 'b+c', 'a+b+c', 'b+c+a', 'a=', 'a+d=', '+a', 'a+', 'a-d', 'a' + q(n - 1) + 'd'], []


def break_place(n, i):
    """an entry with many break characters, joined with others so that only one cut works"""
    one = '-'.join('ab'[k % 2] + 'x' for k in range(i + 1))
    two = '-'.join('ab'[k % 2] + 'y' for k in range(n - i))
    return [], [one, two], [one + '-' + two, two + '-' + one, one, two, one + '--' + two, '-' + one + '-' + two, one + '-' + two + '-', one + '-' + one], []


C09 = [Ladder('rows', 'break patterns', break_row), Ladder('places', 'hyphens, one of which can be cut', break_place,
                                                           grid=lambda tier: places(tier, quick=tuple(range(1, 9))))]


def iconv_row(n, i):
    rows = rows_around(n, i, 'x a', lambda k: q(k) + ' b')
    return [table('ICONV', rows)], ['a', 'ab', 'ba', 'aa', 'bb'], ['x', 'xb', 'bx', 'xx', 'ax', q(n - 1), 'X', q(n - 1) + 'x', 'x-x'], []


def iconv_length(n, i):
    """patterns that begin alike; the longest one is to be used"""
    word = (LETTERS * 2)[:n]
    return [table('ICONV', [word[:i + 1] + ' 1', word + ' 2', '_' + word[:i + 1] + ' 3', word[i:] + '_ 4'])], ['A1', 'A2', '3', '2', '4', 'A4', '31', 'AA', '1', '24'], [
        p + t for p in ('A', '') for t in (word[:i + 1], word, word[i:], word + word[:i + 1], word[:-1], word + word)], []


def iconv_places(n, i):
    """n occurrences of converted characters"""
    text = ''.join('x' if k == i else 'yz'[k % 2] for k in range(n))
    good = text.replace('x', 'a').replace('y', 'b').replace('z', 'c')
    return [table('ICONV', ['x a', 'y b', 'z c'])], [good], [text, good, text.upper(), text[:-1] + good[-1:], good[:1] + text[1:], text + 'x'], []


def ignored(n, i):
    chars = ''.join(rows_around(n, i, '~', lambda k: FLAGS[k]))
    return ['IGNORE ' + chars, rule('SFX', 'S', '', 's~' + FLAGS[0], '.')], ['a~b/S', 'c' + FLAGS[n - 1] + 'd'], [
        'ab', '~a~b~', 'abs', 'a~b~s', 'cd', 'c~d', chars + 'ab', 'a' + chars + 'b', FLAGS[n - 1] + 'ab', 'ab' + FLAGS[n]], []


C10 = [Ladder('rows', 'conversions', iconv_row), Ladder('lengths', 'letters of a conversion', iconv_length, grid=lambda tier: places(tier, quick=(1, 2, 3, 4, 5, 6, 8, 12))),
       Ladder('places', 'converted letters of a word', iconv_places), Ladder('ignored', 'ignored characters', ignored)]


# -- suggestions

QUIET = 'MAXNGRAMSUGS 0'


def multi_words(n, i):
    """a replacement by n words, one of them unknown"""
    known = [('ab', 'cd', 'ef')[k % 3] for k in range(n)]
    unknown = list(known)
    unknown[i] = 'xy'
    return [QUIET, 'TRY a-', table('REP', ['q ' + '_'.join(known), 'v ' + '_'.join(unknown), 'j ' + '_'.join(['ab'] * n) + '_'])], ['ab', 'cd', 'ef'], [], [
        'q', 'v', 'j', 'Q', 'abv', 'qab', 'q-v', '-'.join(unknown), '-'.join(known[:i] + ['abx'] + known[i + 1:])]


C11 = [Ladder('words', 'words of a replacement and of a hyphenated word', multi_words, grid=lambda tier: places(tier, quick=tuple(range(1, 9))), suggest=True)]


def edited_at(n, i):
    """a word of n letters edited at place i in every way"""
    stem = LETTERS[:n]
    found = {stem[:i] + stem[i + 1:], stem[:i] + 'y' + stem[i:], stem[:i] + 'z' + stem[i + 1:], stem[:i] + stem[i:i + 2][::-1] + stem[i + 2:],
             stem[:i] + stem[i:i + 2] * 2 + stem[i + 2:], stem[:i] + 'w' + stem[i + 1:]}
    for far in (2, 3, 4):
        if i + far < n:
            found.add(stem[:i] + stem[i + far] + stem[i + 1:i + far] + stem[i] + stem[i + far + 1:])
            found.add(stem[:i] + stem[i + 1:i + far + 1] + stem[i] + stem[i + far + 1:])
            found.add(stem[:i] + stem[i + far] + stem[i:i + far] + stem[i + far + 1:])
    return [QUIET, 'TRY ' + LETTERS, 'KEY ' + '|'.join(c + 'w' for c in stem)], [stem], [], sorted(t for t in found if t)


def split_at(n, i):
    stem = LETTERS[:n]
    return [QUIET, 'TRY -'], [stem[:i], stem[i:], stem[:i] + ' ' + stem[i:] + 'z'] if i else [stem], [], [stem, stem + 'z', stem.capitalize(), stem.upper(), stem + 'y']


C12 = [Ladder('edits', 'letters of a word, edited at every place', edited_at, grid=lambda tier: places(tier, quick=(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 18, 20))),
       Ladder('splits', 'letters of two joined words', split_at, grid=lambda tier: places(tier, quick=tuple(range(1, 21))))]


def try_at(n, i):
    """the letter in question at place i of TRY"""
    for_a = ''.join(rows_around(n, i, 'a', lambda k: FLAGS[k]))
    return [QUIET, 'TRY ' + for_a], ['bc', 'de', 'bac', 'dae', 'ab', 'ad'], [], ['bcde', 'bc', 'b', 'bxc', 'dxe', 'd', 'xb', 'dbc']


def key_at(n, i):
    keys = '|'.join(rows_around(n, i, 'axb', lambda k: FLAGS[k] + FLAGS[k + 1]))
    return [QUIET, 'KEY ' + keys], ['bac', 'bbc', 'ac'], [], ['bxc', 'xc', 'bcx', FLAGS[n - 1] + 'c']


def limit_at(n, i):
    """n close words; i + 1 of them allowed"""
    stems = ['b' + c + 'd' for c in (LETTERS.replace('x', '') + 'áéíóúýñç')[:n]]
    return ['TRY ' + LETTERS + 'áéíóúýñç', 'MAXNGRAMSUGS %d' % i, 'MAXCPDSUGS %d' % i, 'COMPOUNDFLAG C', 'COMPOUNDMIN 1'], [*stems, 'e/C', *('g%s/C' % c for c in LETTERS[:n])], [], [
        'bxd', 'Bxd', 'gxe', 'bxxxd']


C13 = [Ladder('try', 'letters of TRY', try_at), Ladder('key', 'groups of KEY', key_at),
       Ladder('limits', 'close words and limits', limit_at, grid=lambda tier: places(tier, quick=(1, 2, 3, 4, 5, 6, 7, 14, 15, 16, 17)))]


def capital_input(n, i):
    stem = LETTERS[:n]
    wrong = stem[:i] + 'z' + stem[i + 1:]
    return [QUIET, 'TRY ' + LETTERS, 'KEEPCASE K'], [stem, stem[:i] + stem[i:].capitalize() + 'y', stem + 'x/K'], [], [
        wrong, wrong.capitalize(), wrong.upper(), wrong[:-1] + wrong[-1].upper(), wrong + 'y', (wrong + 'y').capitalize(), (wrong + 'y').upper(), wrong + 'x',
        (wrong + 'x').capitalize(), (wrong + 'x').upper()]


def oconv_at(n, i):
    rows = rows_around(n, i, 'b B', lambda k: q(k) + ' X')
    word = (LETTERS * 2)[:n]
    return [QUIET, 'TRY abc', table('OCONV', rows + [word[i] + ' 1', word + ' 2', '_' + word[:i + 1] + ' 3'])], ['abc', word, word + word[i], 'b'], [], [
        'abcc', 'bb', word + 'c', word + word[i] + 'a', 'Abcc']


def force_parts(n, i):
    """a compound of n + 1 parts, the part at place i demands a capital"""
    parts = [('ab', 'cd')[k % 2] for k in range(n + 1)]
    forced = list(parts)
    forced[i] = 'ef'
    return [QUIET, 'FORCEUCASE U', *(['COMPOUNDFLAG C'] if n % 2 else ['COMPOUNDBEGIN C', 'COMPOUNDMIDDLE C', 'COMPOUNDEND C']), 'COMPOUNDMIN 2', 'TRY abcdef'], [
        'ab/C', 'cd/C', 'ef/CU', 'gh/CU'], [], [''.join(forced), ''.join(parts) + 'ef', ''.join(forced).capitalize(), ''.join(parts) + 'gh', ''.join(forced) + 'x',
                                              ''.join(parts) + 'eff', 'ef' + ''.join(parts)]


C14 = [Ladder('capitals', 'letters of the input', capital_input, grid=lambda tier: places(tier, quick=(1, 2, 3, 4, 5, 6, 7, 8, 12))),
       Ladder('oconv', 'output conversions and letters of them', oconv_at, grid=lambda tier: places(tier, quick=(1, 2, 3, 4, 5, 6, 8, 12, 16))),
       Ladder('forceucase', 'parts of a compound', force_parts, grid=lambda tier: places(tier, quick=(1, 2, 3)))]


def similar_root(n, i):
    """many other roots around the similar one"""
    roots = rows_around(n, i, 'wonderful/S', lambda k: 'qu' + q(k) + 'x')
    return [rule('SFX', 'S', '', 'ly', '.')], roots, [], ['wunderfull', 'wondarfuly', 'wondrfl', 'Wonddrfuul']


def similar_affix(n, i):
    """many classes of the root, one of which gives the similar form"""
    flags = ''.join(rows_around(n, i, 'S', lambda k: FLAGS[k]))
    lines = [rule('SFX', FLAGS[k], '', q(k), '.') for k in range(n)] + [rule('PFX', 'P', '', 'under', '.')]
    return ['FLAG UTF-8', rule('SFX', 'S', '', 'fully', '.'), *lines], ['wonder/P' + flags], [], ['wonderfuuly', 'wonderfooly', 'underwondrfully', 'wndrr']


def similar_length(n, i):
    word = 'abcdefghijklmnopqrstu'[:n]
    wrong = word[:i] + 'zz' + word[i + 1:]
    return [], [word, word[::-1], word[:n // 2 + 1] + 'y'], [], [wrong, wrong + 'x', wrong[1:], wrong.capitalize(), 'z' + wrong]


C15 = [Ladder('roots', 'roots, one similar', similar_root, grid=lambda tier: places(tier, quick=(1, 2, 3, 5, 8, 13, 21))),
       Ladder('classes', 'affix classes of the root', similar_affix, grid=lambda tier: places(tier, quick=(1, 2, 3, 4, 5, 6, 8, 12, 16, 20))),
       Ladder('lengths', 'letters of similar words', similar_length, grid=lambda tier: places(tier, quick=(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20)))]


def phone_row(n, i):
    rows = rows_around(n, i, 'B F', lambda k: 'QWVJ'[k % 4] + 'WVJQ'[k // 4 % 4] * (k % 3) + ' ' + 'KLMN'[k % 4])
    return [QUIET, 'KEY |', table('PHONE', rows + ['F F', 'A _', 'E _'])], ['bafe', 'fafe', 'qwvaj', 'beebba'], [], ['fefa', 'bebaf', 'qwvej', 'faafe', 'vjaqw', 'feeffa']


def phone_same_letter(n, i):
    """rules beginning with the same letter: the first that matches"""
    rows = rows_around(n, i, 'BA X', lambda k: 'B' + 'CDGH'[k % 4] * (k // 4 + 1) + ' ' + 'KLMN'[k % 4])
    return [QUIET, 'KEY |', table('PHONE', rows + ['B B', 'X X', 'K K', 'A _', 'C _', 'D D'])], ['badak', 'bcdak', 'xadak', 'kadak'], [], ['xxdak', 'bcccdak', 'baxdakk', 'kaddak', 'bbaddk']


C16 = [Ladder('rows', 'rules', phone_row, grid=lambda tier: places(tier, quick=(1, 2, 3, 4, 5, 6, 8, 12, 16, 20))),
       Ladder('same', 'rules of one letter', phone_same_letter, grid=lambda tier: places(tier, quick=(1, 2, 3, 4, 5, 6, 8, 12)))]


def rep_row(n, i):
    rows = rows_around(n, i, 'x a', lambda k: q(k) + ' b')
    return [QUIET, 'KEY |', 'NOSPLITSUGS', table('REP', rows)], ['a', 'ba', 'ab', 'bab', 'b', 'aa'], [], ['x', 'bx', 'xb', 'bxb', q(n - 1), 'xx', 'X', 'Bx']


def rep_place(n, i):
    text = ''.join('x' if k == i else 'qw'[k % 2] for k in range(n))
    many = 'x' * n
    return [QUIET, 'KEY |', 'NOSPLITSUGS', table('REP', ['x a', '^q A', 'w$ B', 'xx aa', text + ' long'])], [
        text.replace('x', 'a'), many[:i] + 'a' + many[i + 1:], 'A' + text[1:], text[:-1] + 'B', 'long', many[:i] + 'aa' + many[i + 2:]], [], [text, many, text + text, 'z' + text]


def map_group(n, i):
    group = ''.join(rows_around(n, i, 'a', lambda k: FLAGS[k])) + 'x'
    groups = rows_around(n, i, 'bz', lambda k: 'qwvjQWVJ'[k % 8] + FLAGS[k + 20])
    return [QUIET, 'KEY |', 'NOSPLITSUGS', table('MAP', [group, *groups, '(' + 'd' * (i + 1) + ')e'])], ['bab', 'a', 'b' + FLAGS[0] + 'd', 'de', 'd' * (i + 1), 'bb'], [], [
        'bxb', 'x', 'zab', 'zxb', 'bxz', 'baz', 'e', 'd' + 'd' * (i + 1), 'bzd', 'zz']


def map_place(n, i):
    text = ''.join('x' if k == i else 'qw'[k % 2] for k in range(n))
    return [QUIET, 'KEY |', 'NOSPLITSUGS', table('MAP', ['xa', 'yb'])], [text.replace('x', 'a'), text.replace('x', 'b')], [], [text, text.replace('x', 'y'), text + 'x']


def ph_fields(n, i):
    fields = ' '.join('ph:' + x for x in rows_around(n, i, 'wensdey', lambda k: q(k)))
    arrows = ' '.join('ph:' + x for x in rows_around(n, i, 'xx->rr', lambda k: q(k) + '->rr'))
    stars = ' '.join('ph:' + x for x in rows_around(n, i, 'hapi*', lambda k: q(k) + 'i*'))
    return [QUIET, 'KEY |', 'NOSPLITSUGS'], ['wednesday ' + fields, 'arrow ' + arrows, 'happy ' + stars, 'happier'], [], [
        'wensdey', 'Wensdey', 'axxow', 'hapi', 'hapier', q(n - 1), 'a' + q(n - 1) + 'ow', q(n - 1) + 'i']


def ph_entries(n, i):
    entries = rows_around(n, i, 'wednesday ph:wensdey', lambda k: q(k) + 'n ph:' + q(k) + 'm')
    return [QUIET, 'KEY |', 'NOSPLITSUGS', table('REP', ['wens tens'])], entries + ['tensdey'], [], ['wensdey', 'WENSDEY', q(n - 1) + 'm', q(0) + 'm']


C17 = [Ladder('rep-rows', 'replacements', rep_row), Ladder('rep-places', 'places of a replacement', rep_place, grid=lambda tier: places(tier, quick=tuple(range(1, 13)))),
       Ladder('map-groups', 'groups, members and lengths of MAP', map_group, grid=lambda tier: places(tier, quick=(1, 2, 3, 4, 5, 6, 8, 12))),
       Ladder('map-places', 'places of a related letter', map_place, grid=lambda tier: places(tier, quick=tuple(range(1, 13)))),
       Ladder('ph-fields', 'ph: fields of an entry', ph_fields, grid=lambda tier: places(tier, quick=(1, 2, 3, 4, 5, 6, 7, 8, 12, 20))),
       Ladder('ph-entries', 'entries with ph:', ph_entries, grid=lambda tier: places(tier, quick=(1, 2, 3, 4, 5, 8, 12, 20)))]


def nosuggest_homonyms(n, i):
    entries = ['ab/' + ('CS' if k == i else 'CSN') for k in range(n)] + ['cd/' + ('CSN' if k == i else 'CN') for k in range(n)]
    flags = ''.join(rows_around(n, i, 'N', lambda k: FLAGS[k]))
    return ['FLAG UTF-8', 'NOSUGGEST N', 'COMPOUNDFLAG C', 'COMPOUNDMIN 2', 'TRY abcdefs', rule('SFX', 'S', '', 's', '.')], [*entries, 'ef/' + flags, 'efs'], [
        'ab', 'cd', 'abs', 'cds', 'ef', 'abcd', 'cdab'], ['abx', 'cdx', 'absx', 'cdsx', 'efx', 'abcdx', 'cdabx', 'efsx', 'cdx-abx', 'abef', 'efab']


def nosuggest_parts(n, i):
    parts = rows_around(n + 1, i, 'cd', lambda k: ('ab', 'ef')[k % 2])
    return ['NOSUGGEST N', 'COMPOUNDFLAG C', 'COMPOUNDMIN 2', 'TRY abcdefs-'], ['ab/C', 'ef/C', 'cd/CN'], [''.join(parts), '-'.join(parts)], [
        ''.join(parts) + 'x', '-'.join(parts) + 'x', ''.join(parts[:i] + parts[i + 1:]) + 'x', 'x' + ''.join(parts)]


C18 = [Ladder('homonyms', 'homonyms and flags', nosuggest_homonyms, grid=lambda tier: places(tier, quick=(1, 2, 3, 4, 5, 6, 8, 12))),
       Ladder('parts', 'parts of compounds and hyphenated words', nosuggest_parts, grid=lambda tier: places(tier, quick=(1, 2, 3)))]
