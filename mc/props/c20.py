"""C20: containers, encodings and layout of the files."""
import itertools
import os
import shutil
import unicodedata
import zipfile

from . import contexts
from .common import *

ENCODINGS = {'UTF-8': 'utf-8', 'KOI8-R': 'koi8_r', 'KOI8-U': 'koi8_u', 'TIS620-2533': 'tis620', 'WINDOWS-1252': 'cp1252',
             **{'ISO8859-%d' % n: 'iso8859_%d' % n for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 15, 16)},
             **{'ISO-8859-%d' % n: 'iso8859_%d' % n for n in (1, 2, 15)},
             **{'%scp%d' % (p, n): 'cp%d' % n for n in range(1250, 1259) for p in ('', 'microsoft-')}}


def letters_of(codec):
    if codec == 'utf-8':
        return [c for c in 'éßıЖшğΩאبक़ง漢あ𝒜𐐨한ǅﬁº′’—·'] + ['é', 'й', 'נּ']
    res = []
    for byte in range(128, 256):
        try:
            c = bytes([byte]).decode(codec)
        except UnicodeDecodeError:
            continue
        if not c.isspace() and unicodedata.category(c) != 'Cc':
            res.append(c)
    return res


def encodings(tier):
    for name, codec in ENCODINGS.items():
        for letter in letters_of(codec):
            yield name, letter


def run_encodings(ctx, config):
    name, letter = config
    codec = ENCODINGS[name]
    lines = ['TRY a' + letter[:1], rule('SFX', 'S', '', letter + 'x', letter), rule('PFX', 'P', '', letter, '[^%s]' % letter[0]),
             table('REP', ['qq ' + letter]), table('MAP', ['o(' + letter + ')']), table('ICONV', ['w ' + letter]),
             table('OCONV', [letter + 'z Z']), table('BREAK', ['+' + letter]), 'COMPOUNDMIN 1', 'COMPOUNDFLAG C',
             table('CHECKCOMPOUNDPATTERN', ['%s %s' % (letter, letter)])]
    d_text = dic('ab' + letter + '/S', letter + 'ba/P', 'cd/PC', letter + 'cd' + letter + 'k', letter + 'f/C', 'e' + letter + '/C',
                 'u' + letter + 'z')
    pieces = ['ab' + letter, letter + 'ba', 'cd', letter + 'cd' + letter + 'k', letter, 'abw', 'ab', letter + 'f', 'e' + letter,
              'u' + letter + 'z']
    asked = {p + s for p in pieces for s in ('', letter + 'x', '+' + letter + 'cd', letter + 'f', 'x')} | {
        letter + p for p in pieces} | {'w' + p for p in pieces} | {'cde' + letter, 'e' + letter + letter + 'f'}
    asked |= {a.upper() for a in asked} | {a.capitalize() for a in asked}
    suggests = ['abqq', 'abo', letter + 'a', 'ab', letter + 'cd' + letter, 'u' + letter, 'uqqz', 'cda', 'abcd', letter + 'cdok']
    model = Model('SET UTF-8\n' + '\n'.join(lines), d_text)
    path = ctx.files('SET %s\n' % name + '\n'.join(lines) + '\n', d_text, encoding=codec)
    ctx.texts = {'main, written in ' + codec: {'aff': 'SET %s\n' % name + '\n'.join(lines), 'dic': d_text}}
    from spylls.hunspell import Dictionary
    ctx.states += 1
    d = ctx.call('from_files', Dictionary.from_files, path)
    shutil.rmtree(os.path.dirname(path))
    for word in sorted(asked):
        got, expected = ctx.lookup(d, word), model.accepts(word)
        if got != expected:
            ctx.fail('lookup differs from the model', expected, got)
    for word in suggests:
        got, expected = ctx.suggest(d, word), model.suggest(word)
        if sorted(got) != sorted(expected):
            ctx.fail('suggestions differ from the model', expected, got)


# -- layout

#: dictionaries: list of blocks (tables are kept together), list of entries, words asked, words to correct
DICTS = {
    'plain': (['TRY abé', table('REP', ['x é', 'ph f']), table('BREAK', ['-', '^é'])],
              ['abé', 'ba', 'él', 'f a b', '12', 'a1'], ['abé', 'ba', 'ab', 'é', 'ba-él', 'éba', 'f a b', '12', '6', 'a1'],
              ['abx', 'bé', 'pha']),
    'affixes': (['FLAG long', 'KEEPCASE KK', rule('SFX', 'SS', '', 's', '[^é]', 'TT'), rule('PFX', 'PP', 'b', 'é', 'b'),
                 rule('SFX', 'TT', '', 't', '.'), 'TRY aé'],
                ['ab/SSPP', 'bé/PPSS', 'ba/KK', 'bb/SSTTPP'],
                ['ab', 'abs', 'abst', 'bé', 'éé', 'éés', 'bés', 'ba', 'Ba', 'BA', 'bb', 'bbs', 'bbt', 'ébst', 'ébs', 'Abs'],
                ['abz', 'éb', 'bat']),
    'compounds': (['FLAG num', 'COMPOUNDMIN 1', table('COMPOUNDRULE', ['(1)(12)*(3)']), 'COMPOUNDFLAG 5',
                   'CHECKCOMPOUNDDUP', table('CHECKCOMPOUNDPATTERN', ['é/5 a/5'])],
                  ['a/1,5', 'b/12', 'é/3,5', 'éb/5'],
                  [*words('abé', 4, 1)], ['abb', 'éa']),
    'aliases': ([table('AF', ['AB', 'B', 'A']), table('AM', ['ph:xx', 'po:noun']), rule('SFX', 'A', '', 'é', '.', '2'),
                 rule('SFX', 'B', '', 'o', '.'), 'WORDCHARS 123'],
                ['ab/1\t1', 'cd/2\t2', 'éf/3', 'gh ph:yy'],
                [s + e for s in ('ab', 'cd', 'éf', 'gh') for e in ('', 'é', 'o', 'éo')], ['xx', 'yy', 'xxé', 'cdé']),
    'conversions': ([table('ICONV', ['ù é', 'q ab']), table('OCONV', ['é ù']), table('MAP', ['aé', '(ab)o']),
                     table('PHONE', ['B P', 'P^ F']), 'LANG az', 'MAXDIFF 4', 'KEY abé|cd'],
                    ['abé', 'péb', 'ib'], ['abé', 'abù', 'qé', 'qù', 'péb', 'pùb', 'ib', 'İB', 'IB', 'PÉB'],
                    ['abo', 'ob', 'bùb', 'aba', 'peb']),
}

AFF_LAYOUTS = {
    'plain': lambda ls: ls,
    'trailing-spaces': lambda ls: [ln + '  \t' for ln in ls],
    'tabs': lambda ls: [ln.replace(' ', '\t') for ln in ls],
    'wide': lambda ls: [' \t'[i % 2] * (i % 3) + ln.replace(' ', '  \t ') for i, ln in enumerate(ls)],
    'blank': lambda ls: [x for ln in ls for x in ('', ln, '  ', '\t', ' \t ')],
    'comments': lambda ls: [ls[0]] + [x for ln in ls[1:] for x in (('# TRY xyz é', '#', ln) if opens(ln) else (ln,))] + ['# end'],
    'unknown': lambda ls: [ls[0]] + [x for ln in ls[1:] for x in (
        ('NAME x y', 'HOME é', 'VERSION 2', 'some text 3 TRY', 'Try zz', 'TRYX zz', 'é', '42', 'Éa') + (ln,) if opens(ln) else (ln,))],
    'trailing-comments': lambda ls: [ln if ln == 'MAXDIFF 4' else ln + ' # 1 é' for ln in ls],
    'no-newline': None,
}
ENDS = {'lf': '\n', 'crlf': '\r\n'}


def opens(line):
    """The line is not a row of a table."""
    words_ = line.split()
    return not (words_[0] in ('REP', 'BREAK', 'COMPOUNDRULE', 'CHECKCOMPOUNDPATTERN', 'AF', 'AM', 'ICONV', 'OCONV', 'MAP', 'PHONE')
                and not words_[1].isdigit()
                or words_[0] in ('SFX', 'PFX') and not words_[-1].isdigit())


DIC_LAYOUTS = {
    'plain': lambda n, ls: [str(n)] + ls,
    'no-count': lambda n, ls: ls,
    'wrong-count': lambda n, ls: [str(n + 100)] + ls,
    'padded-count': lambda n, ls: ['%d words é' % n] + ls,
    'blank': lambda n, ls: [str(n)] + [x for ln in ls for x in ('', '\t', ln, ' ', ' \t')],
    'first-blank': lambda n, ls: ls + ['', ''],
    'outer-spaces': lambda n, ls: [str(n) + ' '] + [' \t'[i % 2] * (i % 3) + ln + '  ' for i, ln in enumerate(ls)],
    'no-newline': None,
}
CONTAINERS = ('files', 'zip', 'zip-stored', 'zip-folder', 'zip-others')


def write(ctx, aff_bytes, dic_bytes, container):
    """Returns the method and its argument."""
    if container == 'files':
        return 'from_files', ctx.files(aff_bytes, dic_bytes)
    folder = os.path.join(ctx.scratch, 'zip')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, 'd.zip')
    prefix = {'zip-folder': 'some folder/dict.d/', 'zip-others': 'x/'}.get(container, '')
    with zipfile.ZipFile(path, 'w', zipfile.ZIP_STORED if container == 'zip-stored' else zipfile.ZIP_DEFLATED) as z:
        if container == 'zip-others':
            for name in ('README.txt', 'a.aff.txt', 'x.dic/readme', 'META-INF/manifest.xml'):
                z.writestr(name, 'nothing')
        z.writestr(prefix + 'd.aff', aff_bytes)
        z.writestr(prefix + 'd.dic', dic_bytes)
    return 'from_zip', path


def read(ctx, aff_bytes, dic_bytes, container, label='main'):
    from spylls.hunspell import Dictionary
    ctx.texts[label] = {'aff': repr(aff_bytes), 'dic': repr(dic_bytes), 'container': container}
    method, path = write(ctx, aff_bytes, dic_bytes, container)
    ctx.states += 1
    try:
        return ctx.call(method, getattr(Dictionary, method), path)
    finally:
        shutil.rmtree(os.path.dirname(path))


def ask(ctx, d, lookups, suggests):
    return {('lookup', w): ctx.lookup(d, w) for w in lookups}, {('suggest', w): ctx.suggest(d, w) for w in suggests}


def same(ctx, got, expected, what):
    for g, e in zip(got, expected):
        for key in g:
            if g[key] != e[key]:
                ctx.op = key
                ctx.fail(what, e[key], g[key])


def base_answers(ctx, name):
    blocks, entries, lookups, suggests = DICTS[name]
    texts = aff(*blocks), dic(*entries)
    model = Model(*texts)
    d = ctx.load(*texts, label='base')
    res = ask(ctx, d, lookups, suggests)
    for (_, w), got in res[0].items():
        if got != model.accepts(w):
            ctx.op = ('lookup', w)
            ctx.fail('lookup differs from the model', model.accepts(w), got)
    for (_, w), got in res[1].items():
        if sorted(got) != sorted(model.suggest(w)):
            ctx.op = ('suggest', w)
            ctx.fail('suggestions differ from the model', model.suggest(w), got)
    return res


def layouts(tier):
    for name in DICTS:
        for a in AFF_LAYOUTS:
            for b in DIC_LAYOUTS:
                for bom in range(4):
                    for ends in itertools.product(ENDS, ENDS):
                        containers = CONTAINERS if tier == 'thorough' or a == b or ends[0] != ends[1] else CONTAINERS[:2]
                        for container in containers:
                            yield name, a, b, bom, ends, container


def run_layouts(ctx, config):
    name, a, b, bom, ends, container = config
    blocks, entries, lookups, suggests = DICTS[name]
    expected = base_answers(ctx, name)
    lines = ['SET UTF-8'] + '\n'.join(blocks).split('\n')
    n1, n2 = ENDS[ends[0]], ENDS[ends[1]]
    text = n1.join((AFF_LAYOUTS[a] or AFF_LAYOUTS['plain'])(lines)) + (n1 if AFF_LAYOUTS[a] else '')
    d_text = n2.join((DIC_LAYOUTS[b] or DIC_LAYOUTS['plain'])(len(entries), list(entries))) + (n2 if DIC_LAYOUTS[b] else '')
    mark = '﻿'.encode()
    d = read(ctx, mark * (bom & 1) + text.encode(), mark * (bom >> 1) + d_text.encode(), container)
    same(ctx, ask(ctx, d, lookups, suggests), expected, 'the answer depends on the layout of files')


def orders(tier):
    for name, (blocks, _, _, _) in DICTS.items():
        fixed = [b for b in blocks if b.startswith(('FLAG', 'AF'))]
        free = [b for b in blocks if b not in fixed]
        # SET comes first (later lines may need it) or before the first non-ASCII line
        for order in itertools.permutations(range(len(free))):
            if [i for i in order if free[i].startswith('SFX')] != [i for i in range(len(free)) if free[i].startswith('SFX')]:
                continue
            lines = [free[i] for i in order]
            last = next((i for i, ln in enumerate(lines) if not ln.isascii()), len(lines))
            for at in range(last + 1):
                yield name, tuple(fixed), tuple(lines[:at]), tuple(lines[at:]), 'files' if at else 'zip'


def run_orders(ctx, config):
    name, fixed, before, after, container = config
    _, entries, lookups, suggests = DICTS[name]
    expected = base_answers(ctx, name)
    text = '\n'.join([*fixed, *before, 'SET UTF-8', *after]) + '\n'
    d = read(ctx, text.encode(), dic(*entries).encode(), container)
    same(ctx, ask(ctx, d, lookups, suggests), expected, 'the answer depends on the order of directives')


def recoded(tier):
    for name in DICTS:
        for enc in ENCODINGS:
            for bom in (False, True) if enc == 'UTF-8' else (False,):
                for container in CONTAINERS:
                    yield name, enc, bom, container
        yield name, None, False, 'files'
        yield name, None, False, 'zip'


def run_recoded(ctx, config):
    name, enc, bom, container = config
    blocks, entries, lookups, suggests = DICTS[name]
    if enc and enc != 'UTF-8' or not enc:
        try:
            ('\n'.join(blocks) + dic(*entries)).encode(ENCODINGS[enc or 'WINDOWS-1252'])
        except UnicodeEncodeError:
            return
    expected = base_answers(ctx, name)
    codec = ENCODINGS[enc or 'WINDOWS-1252']
    text = '\n'.join(['SET ' + enc if enc else '# no encoding given: Windows-1252', *blocks]) + '\n'
    mark = b'\xef\xbb\xbf' if bom else b''
    d = read(ctx, mark + text.encode(codec), mark + dic(*entries).encode(codec), container)
    same(ctx, ask(ctx, d, lookups, suggests), expected, 'the answer depends on the encoding')


def long_files(tier):
    """multi-byte letters and line ends at every position around reading buffer boundaries"""
    for size in (4096, 8192, 16384) if tier == 'quick' else (1024, 2048, 4096, 8192, 16384, 32768, 65536):
        for delta in range(-12, 13):
            for where_ in ('before-set', 'after-set', 'dic'):
                for end in ENDS:
                    for container in ('files', 'zip'):
                        yield size + delta, where_, end, container


def run_long(ctx, config):
    size, where_, end, container = config
    blocks, entries, lookups, suggests = DICTS['plain']
    expected = base_answers(ctx, 'plain')
    nl = ENDS[end]
    padding = []
    while size > 0:
        padding.append('#' * min(size, 70))
        size -= 70 + len(nl)
    head = ['SET UTF-8', *'\n'.join(blocks).split('\n')]
    rows = [str(len(entries)), *entries]
    if where_ == 'dic':
        rows = rows[:1] + padding + rows[1:] + padding + ['éé' * 50]
    elif where_ == 'before-set':
        head = padding + head
    else:
        head = head[:1] + padding + head[1:]
    d = read(ctx, (nl.join(head) + nl).encode(), (nl.join(rows) + nl).encode(), container)
    same(ctx, ask(ctx, d, lookups, [] if where_ == 'dic' else suggests), expected, 'the answer depends on the size of files')


def damaged(tier):
    """bytes that mean nothing in the encoding, in a comment, in an unused entry or in a table"""
    for junk in (b'\xff', b'\xc3', b'\xe9\xe8', b'\x80', b'\xed\xa0\x80', b'\xf5\x80'):
        for place in ('comment', 'aff end', 'entry', 'dic comment', 'row'):
            for end in ENDS:
                for container in CONTAINERS:
                    yield junk, place, end, container


def run_damaged(ctx, config):
    junk, place, end, container = config
    blocks, entries, lookups, suggests = DICTS['plain']
    expected = base_answers(ctx, 'plain')
    nl = ENDS[end].encode()
    head = [line.encode() for line in ['SET UTF-8', *'\n'.join(blocks).split('\n')]]
    rows = [line.encode() for line in [str(len(entries)), *entries]]
    if place == 'comment':
        head.insert(1, b'# ' + junk)
    elif place == 'aff end':
        head.append(b'NAME ' + junk)
    elif place == 'row':
        head += [b'WORDCHARS ' + junk]
    else:
        rows.insert(2, (b'qqqqqqqqqqqqqqq' if place == 'entry' else b'# ') + junk)
    d = read(ctx, nl.join(head) + nl, nl.join(rows) + nl, container)
    same(ctx, ask(ctx, d, lookups, []), expected, 'the answer depends on the container')


# -- many dictionaries, a few layouts

COUNTED = ('REP', 'BREAK', 'COMPOUNDRULE', 'CHECKCOMPOUNDPATTERN', 'AF', 'AM', 'ICONV', 'OCONV', 'MAP', 'PHONE')


def blocks_of(text):
    lines = text.splitlines()
    i = 0
    while i < len(lines):
        fields = lines[i].split()
        rows = int(fields[1]) if fields[0] in COUNTED else int(fields[3]) if fields[0] in ('SFX', 'PFX') else 0
        yield lines[i:i + rows + 1]
        i += rows + 1


NOISE = ['# TRY xyz é', '', 'NAME x y', 'HOME é', '   ', 'TRYX zz', 'é', '#']


def run_backgrounds(ctx, config):
    kernel, chosen = config
    text, entries, lookups, suggests = contexts.build(contexts.EVERY, kernel, chosen)
    expected = ask(ctx, ctx.load(text, entries, 'base'), lookups, suggests[:3])
    blocks = list(blocks_of(text))
    rows = entries.splitlines()
    mark = '﻿'.encode()
    noisy = blocks[0] + [x for i, block in enumerate(blocks[1:]) for x in [NOISE[i % len(NOISE)], *block, NOISE[(i + 3) % len(NOISE)]]]
    spaced = [line.replace(' ', '\t \t') + ' \t' for block in blocks for line in block]
    for label, aff_bytes, dic_bytes, container in (
            ('crlf', mark + text.replace('\n', '\r\n').encode(), mark + entries.replace('\n', '\r\n').encode(), 'zip-folder'),
            ('noise', '\n'.join(noisy).encode(), '\n'.join(x for row in rows[1:] for x in (row + ' ', '', '  ')).encode(), 'files'),
            ('spaces', '\n'.join(spaced).encode(), '\r\n'.join(rows).encode(), 'zip-others')):
        d = read(ctx, aff_bytes, dic_bytes, container)
        same(ctx, ask(ctx, d, lookups, suggests[:3]), expected, 'the answer depends on the layout of files (%s)' % label)


SPACES = [
    Space('backgrounds', contexts.EVERYTHING + '; 3 layouts and containers', contexts.everything, run_backgrounds),
    Space('encodings', 'every letter and sign of 37 encodings, in stems, affixes, conditions and tables of both files', encodings,
          run_encodings),
    Space('layouts', '5 dictionaries x 9 layouts of .aff x 8 of .dic x byte-order marks x line ends x containers', layouts,
          run_layouts),
    Space('orders', 'every order of the directives of 5 dictionaries and every place of SET before non-ASCII text', orders,
          run_orders),
    Space('recoded', '5 dictionaries in every encoding able to express them x containers', recoded, run_recoded),
    Space('long-files', 'sizes of the files in a window of 25 around the sizes of reading buffers', long_files, run_long),
    Space('damaged', 'six sequences of bytes without meaning at 5 places that do not matter x line ends x containers', damaged, run_damaged),
]
