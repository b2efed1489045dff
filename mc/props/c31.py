"""C31: answers do not depend on the alphabet."""
from . import contexts
from .common import *

LATIN = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def script(upper, lower):
    return str.maketrans(LATIN + LATIN.lower(), upper[:26] + lower[:26])


def run_of(*ranges):
    return ''.join(chr(c) for first, last in ranges for c in range(first, last + 1))


#: letters with capitals before small letters, both in alphabetic order: comparisons of texts are kept
SCRIPTS = {
    'cyrillic': script(run_of((0x410, 0x42f)), run_of((0x430, 0x44f))),
    'accented': script(run_of((0xc0, 0xd6), (0xd8, 0xde)), run_of((0xe0, 0xf6), (0xf8, 0xfe))),
    'armenian': script(run_of((0x531, 0x556)), run_of((0x561, 0x586))),
    'glagolitic': script(run_of((0x2c00, 0x2c2f)), run_of((0x2c30, 0x2c5f))),
    'deseret': script(run_of((0x10400, 0x10427)), run_of((0x10428, 0x1044f))),
    'fullwidth': script(run_of((0xff21, 0xff3a)), run_of((0xff41, 0xff5a))),
}
#: fields of the rows of tables that are texts, and directives with a text
TABLES = {'REP': 2, 'MAP': 1, 'BREAK': 1, 'ICONV': 2, 'OCONV': 2, 'PHONE': 2, 'CHECKCOMPOUNDPATTERN': 3}
TEXTS = ('KEY', 'TRY', 'WORDCHARS', 'IGNORE')


def renamed_aff(text, letters):
    lines = []
    for line in text.split('\n'):
        name, *fields = line.split(' ')
        if name in TABLES and not (len(fields) == 1 and fields[0].isdigit()):
            fields = [stem.translate(letters) + slash + flags for stem, slash, flags in (f.partition('/') for f in fields)]
        elif name in TEXTS:
            fields = [f.translate(letters) for f in fields]
        elif name in ('SFX', 'PFX') and len(fields) >= 4:
            add, slash, flags = fields[2].partition('/')
            fields = [fields[0], fields[1].translate(letters), add.translate(letters) + slash + flags, *(f.translate(letters) for f in fields[3:])]
        lines.append(' '.join([name, *fields]))
    return '\n'.join(lines)


def renamed_dic(text, letters):
    lines = []
    for line in text.split('\n'):
        word, ph, data = line.partition(' ph:')
        word, slash, flags = (word[:1] + word[1:].partition('/')[0], *word[1:].partition('/')[1:])
        lines.append(word.translate(letters) + slash + flags + ' '.join((ph + data).translate(letters).replace('ph'.translate(letters) + ':', 'ph:').split(' ')))
    return '\n'.join(lines)


def explicit(text):
    """What the library takes from particular letters is written out: the keyboard, the hyphen allowed in split words."""
    lines = text.split('\n')
    for i, line in enumerate(lines):
        if line.startswith('TRY ') and '-' not in line:
            lines[i] += '-'
    if not any(line.startswith('KEY ') for line in lines):
        lines.insert(1, 'KEY qwertyuiop|asdfghjkl|zxcvbnm')
    return '\n'.join(lines)


def check(ctx, text, entries, lookups, suggests, scripts):
    text = explicit(text)
    if not (text + entries).isascii():
        return
    lookups = [w for w in lookups if w.isascii()]
    one = ctx.load(text, entries)
    accepted = [ctx.lookup(one, w) for w in lookups]
    offered = [ctx.suggest(one, w) for w in suggests]
    for name in scripts:
        letters = SCRIPTS[name]
        other = ctx.load(renamed_aff(text, letters), renamed_dic(entries, letters), name)
        for w, answer in zip(lookups, accepted):
            got = ctx.lookup(other, w.translate(letters))
            if got != answer:
                ctx.fail('the answer depends on the alphabet', answer, got, latin=w)
        for w, answer in zip(suggests, offered):
            got = ctx.suggest(other, w.translate(letters))
            if got != [s.translate(letters) for s in answer]:
                ctx.fail('suggestions depend on the alphabet', [s.translate(letters) for s in answer], got, latin=w)


#: features about particular letters
PARTICULAR = {'sharps', 'turkic'}


def backgrounds(tier):
    for no, (k, chosen) in enumerate(contexts.everything(tier)):
        if not PARTICULAR & {contexts.EVERY[i].name for i in chosen}:
            yield no, k, chosen


def run_backgrounds(ctx, config):
    no, k, chosen = config
    text, entries, lookups, suggests = contexts.build(contexts.EVERY, k, chosen)
    names = list(SCRIPTS)
    check(ctx, text, entries, lookups, suggests, names if len(chosen) < 2 or ctx.tier == 'thorough' else [names[no % len(names)]])


def every_letter(tier):
    for name in SCRIPTS:
        for i in range(26):
            yield name, i


def run_every_letter(ctx, config):
    """each letter at every place of every part of the files"""
    name, i = config
    c, e, o = LATIN[i].lower(), LATIN[(i + 1) % 26].lower(), LATIN[(i + 7) % 26].lower()
    text = aff('TRY %s%s' % (c, o), table('REP', [c + e + ' ' + o, '^%s %s_%s' % (o, c, e)]), table('MAP', [c + o, '(%s)(%s)' % (c + c, e)]),
               table('PHONE', ['%s %s' % (c.upper(), o.upper()), '%s(%s)- %s' % (e.upper(), c.upper(), c.upper()), '%s^$ _' % o.upper()]),
               table('BREAK', [c, '-']), table('CHECKCOMPOUNDPATTERN', [c + ' ' + o]), 'COMPOUNDFLAG 1', 'COMPOUNDMIN 1', 'KEEPCASE 2',
               table('ICONV', [e + e + ' ' + c]), table('OCONV', [o + o + ' ' + c + '_']), 'KEY %s|%s' % (c + o, e + c + o),
               'SFX 3 Y 2', 'SFX 3 0 %s [^%s]' % (c, c), 'SFX 3 %s %s [%s%s]' % (c, o + e, c, o), 'PFX 4 Y 1', 'PFX 4 %s %s .' % (e, c))
    stems = [c + e + o, o + c, e + o + c, c + c, c.upper() + o, e.upper() + c.upper()]
    entries = dic(stems[0] + '/34', stems[1] + '/13', stems[2] + '/14 ph:' + o + e, stems[3] + '/12', stems[4] + '/2', stems[5])
    lookups = list(words([c, e, o], 4, 1)) + [t for s in stems + [stems[0] + c, stems[1] + stems[2]] for t in case_patterns(s.lower())]
    check(ctx, text, entries, lookups, [*words([c, e, o], 3, 2), *[s.capitalize() + o for s in stems], *[(s + e).upper() for s in stems]], [name])


SPACES = [
    Space('backgrounds', contexts.EVERYTHING + ' (without sharp s and Turkic casing); 6 scripts with single features, one in turn with pairs (thorough: all)',
          backgrounds, run_backgrounds),
    Space('letters', 'each of 26 letters x 6 scripts in every part of a dictionary; all words over 3 letters up to 4', every_letter, run_every_letter),
]
