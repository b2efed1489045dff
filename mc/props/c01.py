"""C01: lookup accepts exactly the words derivable by affix rules."""
from . import contexts, kernels, ladders
from .common import *
import os
from ..explore import REPO


# -- one affix, all shapes

def one_affix(tier):
    big = tier == 'thorough'
    strips = ['', 'a', 'b', 'ab', 'ba'] + (['aa', 'bab'] if big else [])
    adds = ['', 'a', 'b', 'ab', 'ba'] + (['aab', 'bb'] if big else [])
    conds = ['.', '', 'a', 'b', '[ab]', '[^a]', '[^b]', 'ab', '[^b]a', 'a[^b]', '.a', 'b.'] + \
        (['[^ab]', 'aba', '..', '[^a][^b]', '[ab]b[ab]', '...'] if big else [])
    for kind in ('SFX', 'PFX'):
        for strip in strips:
            for add in adds:
                for cond in conds:
                    for stem in words('ab', 4 if big else 3, 1):
                        yield kind, strip, add, cond, stem


def run_one_affix(ctx, config):
    kind, strip, add, cond, stem = config
    compare(ctx, aff(rule(kind, 'A', strip, add, cond)), dic(entry(stem, 'A'), 'bbabb'),
            lookups=words('ab', 6 if ctx.tier == 'thorough' else 5, 1))


# -- special characters are literal

def special(tier):
    chars = ["'", '.', '+', '-', '(', ')', '*', '?', '|', '$', '^', '{', 'é', ' ']
    for kind in ('SFX', 'PFX'):
        for ch in chars:
            if ch == ' ':
                continue
            for strip, add, cond in ((None, ch, '.'), ('a', ch, 'a'), (None, ch + 'b', '.'), (None, 'b' + ch, '[ab]'),
                                     (None, 'b', '[' + ch + 'a]'), (None, 'b', '[^' + ch + ']')):
                if ch in '^' and cond.startswith('[' + ch):
                    continue
                if ch in '()*?|$+{.^' and ch in cond and cond[0] != '[':
                    continue
                for stem in ('a', 'ba', 'a' + ch, ch + 'a', 'a' + ch + 'a'):
                    yield kind, strip, add, cond, stem, ch


def run_special(ctx, config):
    kind, strip, add, cond, stem, ch = config
    # no breaking: hyphens are ordinary letters here
    compare(ctx, aff('BREAK 0', rule(kind, 'A', strip, add, cond)), dic(entry(stem, 'A')),
            lookups=words(['a', 'b', ch], 5, 1))


# -- chains: continuation flags, cross product, two suffixes, two prefixes

def chains(tier):
    big = tier == 'thorough'
    for complex_prefixes in (False, True):
        for stem_flags in subsets('STPQ'):
            for s_flags in subsets('TPS' if big else 'TP'):
                for t_flags in subsets('SP'):
                    for p_flags in subsets('QS'):
                        for q_flags in subsets('PT' if big else 'P'):
                            crosses = ('YYY', 'NYY', 'YNY', 'YYN') if not big else \
                                ('YYY', 'NYY', 'YNY', 'YYN', 'NNY', 'NYN', 'YNN', 'NNN')
                            if not complex_prefixes and q_flags and not big:
                                continue
                            for cross in crosses:
                                yield tuple(''.join(f) for f in (stem_flags, s_flags, t_flags, p_flags, q_flags)) + \
                                    (cross, complex_prefixes)


CHAIN_WORDS = sorted({p + 'x' + s for p in words('pq', 2) for s in words('st', 3)} |
                     {'p', 's', 'ps', 'pp', 'pqp' 'xs', 'xps', 'spx', 'y', 'ys', 'py', 'pys'})


def run_chains(ctx, config):
    stem, s, t, p, q, cross, complex_prefixes = config
    compare(ctx, aff('COMPLEXPREFIXES' if complex_prefixes else '',
                     rule('SFX', 'S', '', 's', '.', s, cross[0]), rule('SFX', 'T', '', 't', '.', t, cross[1]),
                     rule('PFX', 'P', '', 'p', '.', p, cross[2]), rule('PFX', 'Q', '', 'q', '.', q, cross[2])),
            dic(entry('x', stem), 'y'), lookups=CHAIN_WORDS)


# -- chains over one shared letter set: strip and condition of the outer rule see the inner result

def shapes(tier):
    big = tier == 'thorough'
    inner = [('', 'a', '.'), ('b', 'ab', 'b'), ('a', 'b', '.'), ('', 'ba', '[^b]')]
    outer = [('', 'b', '.'), ('a', '', 'a'), ('b', 'a', '[^a]b'), ('ab', 'b', 'ab'), ('', 'a', 'ba')]
    for kinds in (('SFX', 'SFX'), ('PFX', 'PFX'), ('SFX', 'PFX'), ('PFX', 'SFX')):
        for one in inner:
            for two in outer:
                for stem in words('ab', 4 if big else 3, 1):
                    yield kinds, one, two, stem


def run_shapes(ctx, config):
    kinds, one, two, stem = config
    same = kinds[0] == kinds[1]
    compare(ctx, aff('COMPLEXPREFIXES' if kinds == ('PFX', 'PFX') else '',
                     rule(kinds[0], 'A', *one, flags='B' if same else ''), rule(kinds[1], 'B', *two)),
            dic(entry(stem, 'A' if same else 'AB')), lookups=words('ab', 6, 1))


# -- several rules per class, several classes, several stems: no cross-talk

def crosstalk(tier):
    rules = [('', 'a', '.'), ('a', 'ab', 'a'), ('b', '', 'b'), ('', 'ba', '[^a]'), ('', 'bab', 'b'), ('a', 'a', '.')]
    stems = ['a', 'b', 'ab', 'ba', 'aab']
    for kind in ('SFX', 'PFX'):
        for i, one in enumerate(rules):
            for j, two in enumerate(rules):
                for together in (True, False):
                    for s1 in stems:
                        for f1 in ('A', 'B', 'AB'):
                            for s2 in stems:
                                for f2 in ('', 'B') if tier == 'quick' else ('', 'A', 'B', 'AB'):
                                    yield kind, one, two, together, s1, f1, s2, f2


def run_crosstalk(ctx, config):
    kind, one, two, together, s1, f1, s2, f2 = config
    if together:
        text = '%s A Y 2\n%s A %s %s %s\n%s A %s %s %s' % (
            (kind, kind) + tuple(x or '0' for x in one) + (kind,) + tuple(x or '0' for x in two))
        text += '\n' + rule(kind, 'B', '', 'bb', '.')
    else:
        text = rule(kind, 'A', *one) + '\n' + rule(kind, 'B', *two)
    compare(ctx, aff(text), dic(entry(s1, f1), entry(s2, f2)), lookups=words('ab', 5, 1))


# -- many rules sharing endings (the affix index), many classes, long stems and affixes

def ladder(tier):
    for kind in ('SFX', 'PFX'):
        for count in (1, 2, 3, 5, 8, 13, 21, 34) + ((55, 89, 144) if tier == 'thorough' else ()):
            for stem in ('x', 'xy', 'x' * 12, 'yx' * 20):
                yield kind, count, stem


def run_ladder(ctx, config):
    kind, count, stem = config
    # rule number i adds i letters; class number i has i % 3 + 1 rules
    pool = [''.join('abc'[(k * k + i) % 3] for k in range(1 + i % 17)) for i in range(count)]
    text, flags = [], ''
    for i, add in enumerate(pool):
        flag = chr(ord('A') + i % 26) if i < 26 else chr(0x400 + i)
        text.append(rule(kind, flag, '', add, '[xy]'))
        if i % 2 == 0:
            flags += flag
    model = compare(ctx, aff('FLAG UTF-8', *text), dic(entry(stem, flags), 'xyx'))[0]
    alike = set(pool) | {p + 'a' for p in pool} | {p[1:] for p in pool} | {p[:-1] for p in pool}
    texts = {(stem + a if kind == 'SFX' else a + stem) for a in alike} | set(model.table)
    d = ctx.load(aff('FLAG UTF-8', *text), dic(entry(stem, flags), 'xyx'))
    for word in sorted(texts):
        got, expected = ctx.lookup(d, word), model.accepts(word)
        if got != expected:
            ctx.fail('lookup differs from the model', expected, got)


# -- every affix rule of the bundled dictionaries on constructed stems

def bundled(tier):
    for lang, name in (('en', 'en_US'), ('ru', 'ru'), ('sv', 'sv_SE')):
        path = os.path.join(REPO, 'spylls/hunspell/data', lang, name + '.aff')
        model = bundled_aff(path)
        for kind in ('PFX', 'SFX'):
            for flag, rows in sorted(model.affixes[kind].items()):
                for no in range(0, len(rows), 40):
                    yield name, lang, kind, flag, no


_AFF = {}


def bundled_aff(path):
    if path not in _AFF:
        from ..ref import Aff
        with open(path, 'rb') as f:
            raw = f.read()
        encoding = raw.split(b'SET', 1)[1].split()[0].decode()
        text = raw.decode(encoding).replace('\r\n', '\n').lstrip('﻿')
        _AFF[path] = Aff(text)
    return _AFF[path]


def run_bundled(ctx, config):
    name, lang, kind, flag, start = config
    path = os.path.join(REPO, 'spylls/hunspell/data', lang, name + '.aff')
    rows = bundled_aff(path).affixes[kind][flag]
    part = rows[start:start + 40]
    stems = set()
    for a in part:
        texts = ['']
        for positive, chars in a.cond:
            if chars is None:
                options = ['x']
            elif positive:
                options = sorted(chars)
            else:
                options = ['x', 'e'] if not chars & set('xe') else ['q']
                options += sorted(chars)[:2]
            texts = [t + c for t in texts for c in options][:40]
        for t in texts:
            if kind == 'SFX':
                stems.add('zq' + (t if t.endswith(a.strip) else t + a.strip))
            else:
                stems.add((t if t.startswith(a.strip) else a.strip + t) + 'zq')
    stems = sorted(stems)[:60 if ctx.tier == 'quick' else 400]
    header = '%s A %s %d' % (kind, 'Y' if rows[0].cross else 'N', len(rows))
    body = ['%s A %s %s %s' % (kind, a.strip or '0', a.add or '0', a.condtext) for a in rows]
    compare(ctx, aff(header, *body), dic(*[entry(s, 'A') for s in stems]), derived=True, alphabet='x')


def signs(tier):
    """signs that mean something in regular expressions are ordinary letters of affixes"""
    for c in '+*?(){}|$\\^-.,\'"&#~=_%1':
        conds = ['.', c, 'a' + c, '[%s]' % c if c != '^' else '[a^]', '[^%s]' % c, '[a%sx]' % c, '[^a%s]' % c, '[a%sx].' % c]
        for cond in conds:
            for strip, add in (('', c), (c, 'x'), (c, c + c), ('a' + c, c), (c, ''), ('', 'x' + c + 'x'), (c, 'a')):
                yield c, cond, strip, add


def run_signs(ctx, config):
    c, cond, strip, add = config
    stems = ['a', c, 'a' + c, c + 'a', c + c, 'aa', 'ax' + c]
    for kind in ('SFX', 'PFX'):
        compare(ctx, aff('BREAK 0', rule(kind, 'S', strip, add, cond)), dic(*[t + '/S' for t in stems]),
                lookups=sorted(words(['a', c, 'x'], 4, 1)))


SPACES = [
    Space('signs', '22 signs in stripped and added parts and conditions of suffixes and prefixes; all words up to 4', signs, run_signs),
    Space('one-affix', 'every rule (strip, addition, condition) over {a,b} on every stem up to 3 letters, every word '
          'up to 5 letters (thorough: 4 and 6)', one_affix, run_one_affix),
    Space('special', 'rules with punctuation and regexp characters, every word up to 5 symbols', special, run_special),
    Space('chains', 'two suffix and two prefix classes, every assignment of continuation flags, cross-product marks, '
          'COMPLEXPREFIXES; words with up to 2 prefixes and 3 suffixes', chains, run_chains),
    Space('shapes', 'an outer rule applied to the result of an inner one over {a,b}, words up to 6 letters',
          shapes, run_shapes),
    Space('crosstalk', 'two rules in one or two classes, two stems, words up to 5 letters', crosstalk, run_crosstalk),
    Space('ladder', '1..34 rules (thorough 144) sharing endings, additions up to 17 letters, stems up to 40 letters',
          ladder, run_ladder),
    Space('bundled-rules', 'every affix rule of the bundled dictionaries on stems built from its condition, derived '
          'forms and their one-letter neighbours', bundled, run_bundled),
]
SPACES.append(contexts.lookup_space(kernels.C01))
SPACES.append(ladders.space(ladders.C01))
