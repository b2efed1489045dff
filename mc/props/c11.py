"""C11: suggestions are correct words, offered once."""
from . import contexts, kernels, ladders
from .common import *


def sound(ctx, d, texts, plain=None):
    for text in texts:
        got = ctx.suggest(d, text)
        if len(set(got)) != len(got):
            ctx.fail('a suggestion is repeated', 'different texts', got)
        for s in got:
            if not isinstance(s, str) or not s:
                ctx.fail('a suggestion is not a text', 'a text', repr(s))
            if ctx.lookup(d, s) or all(ctx.lookup(d, part) for part in s.split(' ')):
                continue
            if not all(ctx.lookup(d, part) for part in s.replace('-', ' ').split(' ')):
                ctx.op = ('suggest', text)
                ctx.fail('an incorrect word is suggested', 'a word accepted by lookup', s)


def affixes(tier):
    """affixed dictionaries with marks: n-gram search builds forms of its own"""
    for stem in subsets('NOFK', 0, 2):
        for s in ('', 'N', 'C', 'O', 'T'):
            for p in ('', 'N', 'C', 'O'):
                for cond in ('.', '[^b]', 'b'):
                    for cross in 'YN':
                        yield ''.join(stem), s, p, cond, cross


def run_affixes(ctx, config):
    stem, s, p, cond, cross = config
    d = ctx.load(aff('NEEDAFFIX N', 'CIRCUMFIX C', 'ONLYINCOMPOUND O', 'FORBIDDENWORD F', 'KEEPCASE K', 'TRY a',
                     rule('SFX', 'S', 'b' if cond == 'b' else '', 'ses', cond, s, cross), rule('SFX', 'T', '', 'ti', '.'),
                     rule('PFX', 'P', '', 'per', '.', p)), dic('abab/SP' + stem, 'aba/S', 'baba/PT', 'Babu'))
    sound(ctx, d, ['abas', 'abba', 'perabab', 'perabas', 'pababses', 'ababsees', 'abasesi', 'perbababti', 'babu', 'ABABS',
                   'Perababb', 'perabaseti', 'aaba', 'pearbabses', 'babati'])


def compounds(tier):
    flags = ['C', 'B', 'E', 'O', 'S', 'U']
    for a in subsets(flags, 0, 2):
        for b in subsets(flags, 0, 2):
            for on in (('CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDTRIPLE'), ('CHECKCOMPOUNDREP',), ('CHECKCOMPOUNDCASE',)):
                yield ''.join(a), ''.join(b), on


def run_compounds(ctx, config):
    a, b, on = config
    d = ctx.load(aff('COMPOUNDFLAG C', 'COMPOUNDBEGIN B', 'COMPOUNDEND E', 'ONLYINCOMPOUND O', 'FORCEUCASE U', 'COMPOUNDMIN 2',
                     'TRY abz', table('REP', ['z ab', 'zz a_b']), *on, rule('SFX', 'S', '', 's', '.')),
                 dic(entry('ab', a), entry('ba', b), 'abb/C', 'Bab/C'))
    sound(ctx, d, list(words(['ab', 'ba', 's', 'z'], 3, 1)) + ['Abba', 'ABAB', 'aBba', 'baab-ab', 'babab', 'Baba'])


def cases(tier):
    pool = [s + f for s in ('ab', 'Ab', 'AB', 'aB', 'abc', 'Abc') for f in ('', '/K', '/F')]
    yield from subsets(pool, 1, 2 if tier == 'quick' else 3)


def run_cases(ctx, config):
    d = ctx.load(aff('KEEPCASE K', 'FORBIDDENWORD F', 'TRY abc', 'KEY ab'), dic(*config, 'cb', 'Ca'))
    sound(ctx, d, list(words('aAbB', 3, 1)) + [t for w in ('abcc', 'ab-cx', 'abca') for t in case_patterns(w)[:16]] +
          ['abcb', 'abCb', 'ABCB', 'AbCa', 'caCa', 'abab', 'ABab'])


def spaces(tier):
    """multi-word and hyphenated entries, splits and replacements with spaces"""
    pool = ['ab', 'cd', 'ab cd', 'ab-cd', 'Ab', 'abcd', 'cd ab', 'a', 'ab cd ab', 'cdab/K', 'ab/K']
    for chosen in subsets(pool, 1, 3):
        for brk in ('', 'BREAK 0'):
            yield chosen, brk


def run_spaces(ctx, config):
    chosen, brk = config
    d = ctx.load(aff(brk, 'KEEPCASE K', 'TRY a-c', table('REP', ['x _', 'y cd_', 'bc b_c'])), dic(*chosen))
    sound(ctx, d, ['abcd', 'abxcd', 'aby', 'ab cd', 'abc', 'ab-c', 'Abcd', 'ABCD', 'abCd', 'aBxCd', 'abcdab', 'abxcdxab',
                   'cdab', 'Cdab', 'cdaB', 'ab-cd-abx', 'ab--cd', '-ab', 'acd', 'abd-ab', 'ab cdd', 'aB-Cd'])


def nosuggest(tier):
    """all kinds of suggestions around words that are not to be suggested"""
    pool = ['vacation', 'vacations/N', 'location/F', 'trip', 'vaca/N', 'tion', 'Vacation/K', 'cation/O', 'vacation trip/F']
    for chosen in subsets(pool, 1, 3 if tier == 'quick' else 4):
        for phone in (False, True):
            yield chosen, phone


def run_nosuggest(ctx, config):
    chosen, phone = config
    d = ctx.load(aff('NOSUGGEST N', 'FORBIDDENWORD F', 'KEEPCASE K', 'ONLYINCOMPOUND O', 'COMPOUNDFLAG C',
                     'TRY aiovctns-', 'KEY vbn|acd', rule('SFX', 'S', '', 's', '.'), table('REP', ['k c', 'xt ti', 'q _']),
                     table('MAP', ['aä', 'o(oo)']),
                     phone and table('PHONE', ['V F', 'A 0', 'C K', 'K K', 'T T', 'I 0', 'O 0', 'N N'])), dic(*chosen))
    sound(ctx, d, ['vacasion', 'vakation', 'väcation', 'avcation', 'bacation', 'vaction', 'vacationa', 'vacacation',
                   'vacaqtion', 'vacationtrip', 'fakashn', 'VACATIO', 'Vacatoin', 'vacation-trxp', 'locaton', 'tripvacation',
                   'vacatIon', 'vAcation', 'vacation-vacaton-trip'])


def only_similar(tier):
    """nothing but n-gram or phonetic search finds the entries, marked in every way"""
    marks = ['', 'X', 'O', 'F', 'N', 'K', 'S', 'XS', 'OS', 'KS', 'FS', 'XP']
    for a in marks:
        for b in marks:
            for same in (False, True):
                for limit in ('', 'MAXNGRAMSUGS 0'):
                    yield a, b, same, limit


def run_only_similar(ctx, config):
    a, b, same, limit = config
    d = ctx.load(aff('NEEDAFFIX X', 'ONLYINCOMPOUND O', 'FORBIDDENWORD F', 'NOSUGGEST N', 'KEEPCASE K', 'COMPOUNDFLAG C', 'CIRCUMFIX I', limit,
                     rule('SFX', 'S', '', 'ers', '.'), rule('PFX', 'P', '', 'pre', '.', 'I'),
                     table('PHONE', ['PH F', 'F F', 'A A', 'E A', 'O A', 'N N', 'T T', 'G K', 'K K', 'R R', 'S S'])),
                 dic(entry('photograf', a), entry('Photograf' if same else 'fotonegatof', b)))
    sound(ctx, d, ['phatagref', 'fotografe', 'Fatograf', 'PHATAGRAF', 'photagrefers', 'fotonagetof', 'prephotogreff', 'phatonegatofers'])


def conversions(tier):
    for iconv in ('', table('ICONV', ['’ \'', 'ä a']), table('ICONV', ['_x y'])):
        for ignore in ('', 'IGNORE ~'):
            for chosen in subsets(["ab'c", 'abc', 'a~bd', 'bad', 'y~b', 'yab'], 1, 3):
                yield iconv, ignore, chosen


def run_conversions(ctx, config):
    iconv, ignore, chosen = config
    d = ctx.load(aff(iconv, ignore, 'TRY abc', table('MAP', ['aä'])), dic(*chosen))
    sound(ctx, d, ["ab’cc", 'abcc', 'äbc', 'abd', 'a~bdd', 'baad', 'xab', 'xb', 'yb', "b'c", 'Abcb', 'abc-abcc', 'ab~dx', 'y~bb'])


def sharps(tier):
    for lang in ('CHECKSHARPS', '', 'LANG tr', 'LANG az'):
        for chosen in subsets(['maß', 'maß/K', 'mass', 'Maß', 'maßen/K', 'ilk', 'ılık', 'İlk'], 1, 3):
            yield lang, chosen


def run_sharps(ctx, config):
    lang, chosen = config
    d = ctx.load(aff(lang, 'KEEPCASE K', 'TRY maßsilkı', table('REP', ['ss ß'])), dic(*chosen))
    sound(ctx, d, ['mas', 'MAS', 'MASS', 'MAß', 'Maßß', 'masss', 'MASSENN', 'maßem', 'MAßEM', 'ilkk', 'ILKK', 'İLKK', 'Ilk',
                   'Ilik', 'ılk', 'ILIKK', 'mAss'])


def run_backgrounds(ctx, aff_text, dic_text, texts):
    sound(ctx, ctx.load(aff_text, dic_text), texts)


SPACES = [
    Space('affixes', 'every placement of marks on stem, prefix and suffix, conditions, cross-product; 15 misspellings',
          affixes, run_affixes),
    Space('compounds', 'two stems with up to 2 of 6 compound flags each, 3 sets of prohibitions; all words up to 3 '
          'symbols', compounds, run_compounds),
    Space('cases', 'pairs (thorough triples) of 18 entries in different case, KEEPCASE, forbidden; all words over '
          '{a,A,b,B} up to 3', cases, run_cases),
    Space('spaces', 'up to 3 of 11 multi-word, hyphenated and plain entries, with and without BREAK', spaces, run_spaces),
    Space('kinds', 'up to 3 (4) of 9 entries with NOSUGGEST, FORBIDDENWORD, KEEPCASE, ONLYINCOMPOUND; misspellings for '
          'every kind', nosuggest, run_nosuggest),
    Space('similar', 'two entries with every pair of 12 sets of marks, reachable by n-gram and phonetic search only', only_similar,
          run_only_similar),
    Space('conversions', 'ICONV and IGNORE', conversions, run_conversions),
    Space('sharps', 'sharp s and Turkic casing', sharps, run_sharps),
]
SPACES.append(contexts.suggest_space(kernels.SUGGEST['C11'], check=run_backgrounds, without=('oconv',)))
SPACES.append(ladders.space(ladders.C11))
