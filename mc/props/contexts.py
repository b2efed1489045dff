"""Backgrounds: every property is also explored with other features of the dictionary switched on, in all combinations of a few.

A kernel is a small dictionary about the property (lines, entries, words to look up, words to correct).  A background adds
directives, entries, flags of all the entries of the kernel, and further words made of those of the kernel.  The flags of kernels
are capital letters, those of backgrounds small ones."""
from .common import *


def flagged(line, flags):
    """The entry with more flags."""
    word, blank, data = line.partition(' ph:')
    return word + ('' if '/' in word[1:] else '/') + flags + blank + data


def pairs(texts, by=''):
    few = texts[:5]
    return [a + by + b for a in few for b in few]


class Background:
    def __init__(self, name, *lines, flags='', entries=(), alter=None, head=()):
        self.name, self.lines, self.flags, self.entries, self.alter, self.head = name, lines, flags, entries, alter, head


LOOKUP = [
    Background('compounds', 'COMPOUNDFLAG c', 'COMPOUNDMIN 1', flags='c', alter=pairs),
    Background('positions', 'COMPOUNDBEGIN b', 'COMPOUNDMIDDLE m', 'COMPOUNDEND e', 'COMPOUNDMIN 1', flags='be', alter=pairs,
               entries=('zm/m', 'ze/e')),
    Background('rules', 'COMPOUNDMIN 1', table('COMPOUNDRULE', ['rr', 'rqr']), flags='r', alter=pairs, entries=('zq/q',)),
    Background('long-parts', 'COMPOUNDFLAG c', flags='c', alter=pairs),
    Background('forceucase', 'FORCEUCASE u', entries=('zu/ucer',), alter=lambda t: [w + 'zu' for w in t[:6]] + ['zuzu', 'Zuzu']),
    Background('dup', 'CHECKCOMPOUNDDUP'),
    Background('case', 'CHECKCOMPOUNDCASE', entries=('Zc/cber',), alter=lambda t: [w + 'Zc' for w in t[:4]] + ['Zczc']),
    Background('triple', 'CHECKCOMPOUNDTRIPLE', 'SIMPLIFIEDTRIPLE', entries=('baa/cber', 'aac/cber'), alter=lambda t: ['baaac', 'baaaac', 'baac']),
    Background('crep', 'CHECKCOMPOUNDREP', table('REP', ['ba x', 'ab y', '^b bz']), entries=('axb', 'yb', 'bzb')),
    Background('cpattern', table('CHECKCOMPOUNDPATTERN', ['b a', 'a/s b/p', '0 z'])),
    Background('wordmax', 'COMPOUNDWORDMAX 2', alter=lambda t: [w + v + w for w in t[:3] for v in t[:3]]),
    Background('permit', 'COMPOUNDPERMITFLAG w', 'COMPOUNDFORBIDFLAG v', 'SFX t Y 2\nSFX t 0 t/w .\nSFX t 0 vt/v .', flags='t',
               alter=lambda t: [w + s + v for w in t[:4] for v in t[:4] for s in ('t', 'vt')] + [w + s for w in t[:4] for s in ('t', 'vt')]),
    Background('only', 'ONLYINCOMPOUND o', entries=('zo/ocbemr',), alter=lambda t: ['zo', 'zozo'] + [w + 'zo' for w in t[:4]]),
    Background('forbidden', 'FORBIDDENWORD f', entries=('abab/f', 'zf/fcber', 'Zf/c'), alter=lambda t: ['abab', 'zf', 'Zf', 'zfzf', 'zf-ab']),
    Background('forbidden-stem', 'FORBIDDENWORD f', entries=('ab/f', 'b/fs'), alter=lambda t: ['ab', 'b', 'bs', 'abb']),
    Background('nosuggest', 'NOSUGGEST n', entries=('zn/ncs', 'ba/n'), alter=lambda t: ['zn', 'zns', 'ba']),
    Background('keepcase', 'KEEPCASE k', flags='k'),
    Background('keepcase-other', 'KEEPCASE k', entries=('AB/k', 'Ba/k', 'a/kc'), alter=lambda t: case_patterns('ab') + case_patterns('ba')),
    Background('needaffix', 'NEEDAFFIX x', 'SFX d Y 1\nSFX d 0 d/x .', entries=('ab/xs', 'zx/xd', 'bb/d'), flags='d',
               alter=lambda t: ['zx', 'zxd', 'zxs', 'bbd'] + [w + 'd' for w in t[:6]] + ['p' + w + 'd' for w in t[:6]]),
    Background('circumfix', 'CIRCUMFIX y', 'PFX g Y 1\nPFX g 0 g/y .', 'SFX h Y 1\nSFX h 0 h/y .', flags='gh',
               alter=lambda t: [p + w + s for w in t[:4] for p in ('g', '') for s in ('h', '')]),
    Background('suffix', 'SFX s Y 2\nSFX s 0 s [^b]\nSFX s b bs b', flags='s', alter=lambda t: [w + 's' for w in t[:12]]),
    Background('suffixes', 'SFX i Y 1\nSFX i 0 i/j .', 'SFX j N 1\nSFX j i ij i', flags='i',
               alter=lambda t: [w + s for w in t[:10] for s in ('i', 'ij')]),
    Background('prefix', 'PFX p Y 1\nPFX p 0 p .', flags='p', alter=lambda t: ['p' + w for w in t[:12]] + ['p' + w + 's' for w in t[:6]]),
    Background('prefixes', 'COMPLEXPREFIXES', 'PFX a Y 1\nPFX a 0 l/l .', 'PFX l Y 1\nPFX l 0 k .', flags='a',
               alter=lambda t: [p + w for w in t[:8] for p in ('l', 'kl', 'k')]),
    Background('no-breaks', 'BREAK 0', alter=lambda t: pairs(t, '-')),
    Background('breaks', table('BREAK', ['+', '^=', '-$']), alter=lambda t: pairs(t, '+') + ['=' + w for w in t[:5]] + [w + '-' for w in t[:5]]),
    Background('hyphens', entries=('ab-ba', 'b-'), alter=lambda t: pairs(t, '-') + ['ab-ba-' + w for w in t[:4]] + ['-' + w for w in t[:5]]),
    Background('iconv', table('ICONV', ['ä a', 'bä ba', '_ô o', 'ü_ u', '’ \'']),
               alter=lambda t: [w.replace('a', 'ä') for w in t[:12]] + ['ô' + w for w in t[:4]] + [w + 'ü' for w in t[:4]]),
    Background('ignore', 'IGNORE ~', entries=('a~z',), head=True,
               alter=lambda t: [w[:1] + '~' + w[1:] for w in t[:12]] + ['~' + w + '~' for w in t[:4]]),
    Background('sharps', 'CHECKSHARPS', entries=('aß', 'ßb/c'), alter=lambda t: ['aß', 'ASS', 'Aß', 'ass', 'SSB', 'ßb']),
    Background('turkic', 'LANG tr', entries=('ia', 'ıb/c'), alter=lambda t: ['ia', 'İA', 'IA', 'IB', 'ıb', 'İB']),
    Background('utf-flags', 'FLAG UTF-8', head=True),
    Background('unused', 'WORDCHARS ab', 'WARN w', 'SUBSTANDARD w', 'COMPOUNDROOT w', 'FULLSTRIP', 'COMPOUNDMORESUFFIXES', 'SYLLABLENUM w',
               'COMPOUNDSYLLABLE 2 ae', 'NAME some dictionary', 'LANG en'),
    Background('more-entries', entries=tuple('q' + a + b for a in 'abcdefghij' for b in 'abcdef') + ('QAB', 'Qab', 'qAB', 'a b', 'ba ab')),
    Background('homonyms', entries=('ab', 'Ab', 'aB', 'b', 'ba')),
    Background('suggesting', 'TRY abs', 'KEY ab|sp', table('MAP', ['aä']), table('PHONE', ['A A', 'B B']), 'MAXDIFF 3', 'NOSPLITSUGS',
               table('OCONV', ['a b'])),
]

SUGGEST = LOOKUP[:-1] + [
    Background('try', 'TRY abs'), Background('try-hyphen', 'TRY s-'), Background('key', 'KEY ab|sp|ba'),
    Background('rep', table('REP', ['x b', 'ss a_b', '^p b', 'q$ _ba']), alter=None),
    Background('map', table('MAP', ['ax', 'b(ss)(q)'])),
    Background('phone', table('PHONE', ['AB(AS) X', 'A A', 'B- B', 'S$ Z', '^S Q'.replace('^S', 'S^')])),
    Background('no-split', 'NOSPLITSUGS'), Background('one-compound', 'MAXCPDSUGS 1'), Background('no-ngram', 'MAXNGRAMSUGS 0'),
    Background('maxdiff', 'MAXDIFF 7', 'MAXNGRAMSUGS 2'), Background('onlymaxdiff', 'MAXDIFF 1', 'ONLYMAXDIFF'),
    Background('oconv', table('OCONV', ['a á', 'B ß', 'ab_ AB', '_b _'])),
    Background('phs', entries=('bab ph:xx', 'abb ph:bx ph:a->x', 'aab ph:qs*')),
]


def combinations(backgrounds, kernels, most):
    for chosen in subsets(range(len(backgrounds)), 0, most):
        for k in range(len(kernels)):
            yield k, chosen


EVERY = LOOKUP + SUGGEST[len(LOOKUP) - 1:]


def everything(tier):
    """(kernel, backgrounds): all the kernels with one background, the core ones with two (thorough: all with two)"""
    from . import kernels
    for k in kernels.ALL:
        for chosen in subsets(range(len(EVERY)), 0, 1):
            yield k, chosen
    for k in kernels.CORE if tier == 'quick' else kernels.ALL:
        for chosen in subsets(range(len(EVERY)), 2, 2):
            yield k, chosen


EVERYTHING = '30 small dictionaries x 49 features switched on one by one, 11 of them (thorough: all) x every pair of features'


def build(backgrounds, kernel, chosen):
    lines, entries, lookups, suggests = kernel
    used = [backgrounds[i] for i in chosen]
    head = [x for b in used if b.head for x in b.lines]
    rest = [x for b in used if not b.head for x in b.lines]
    flags = ''.join(b.flags for b in used)
    text = aff(*sorted(head, key=lambda x: not x.startswith('FLAG')), *rest, *lines)
    words_ = dic(*[flagged(e, flags) if flags else e for e in entries], *[e for b in used for e in b.entries])
    texts = list(lookups)
    for b in used:
        if b.alter:
            texts += b.alter(list(lookups))
    if len(used) == 2 and all(b.alter for b in used):
        texts += [w for a, b in (used, used[::-1]) for w in a.alter(b.alter(list(lookups[:4]))[:8])]
    texts = list(dict.fromkeys(t for t in texts if t))
    cased = texts[:10] + texts[len(lookups):len(lookups) + 10]
    texts = list(dict.fromkeys(texts + [t.upper() for t in cased] + [t.capitalize() for t in cased]))
    return text, words_, texts, list(suggests)


def lookup_space(kernels, most=3):
    def configs(tier):
        return combinations(LOOKUP, kernels, most if tier == 'quick' else 3)

    def run(ctx, config):
        k, chosen = config
        text, words_, texts, _ = build(LOOKUP, kernels[k], chosen)
        compare(ctx, text, words_, lookups=texts)
    return Space('backgrounds', '%d dictionaries of the property with every set of up to 3 of %d other features '
                 'switched on; words of the property and of the features combined, three capitalizations' % (len(kernels), len(LOOKUP)), configs, run)


def suggest_space(kernels, name='backgrounds', check=None, without=(), order=False):
    backgrounds = [b for b in SUGGEST if b.name not in without]

    def configs(tier):
        return combinations(backgrounds, kernels, 2 if tier == 'quick' else 3)

    def run(ctx, config):
        k, chosen = config
        text, words_, texts, suggests = build(backgrounds, kernels[k], chosen)
        if check:
            check(ctx, text, words_, suggests)
        else:
            compare(ctx, text, words_, suggests=suggests, order=order)
    return Space(name, '%d dictionaries of the property with every set of up to 2 (thorough 3) of %d other features '
                 'switched on; misspellings' % (len(kernels), len(backgrounds)), configs, run)
