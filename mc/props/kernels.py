"""Small dictionaries about each property, to be explored in all the backgrounds of contexts.py."""
from .common import *


def kernel(lines, entries, lookups, suggests=()):
    return tuple(lines), tuple(entries), tuple(lookups), tuple(suggests)


COMPOUND = ('COMPOUNDFLAG C', 'COMPOUNDMIN 1')

C01 = [
    kernel(['SFX S Y 2\nSFX S a e/T a\nSFX S 0 n [^a]', rule('SFX', 'T', '', 't', 'e'), rule('PFX', 'P', 'a', 'u', 'a[^c]')],
           ['aba/SP', 'ab/S', 'b/P'],
           ['ab', 'aba', 'b', 'abn', 'abe', 'abet', 'aban', 'uba', 'ube', 'ubet', 'ubn', 'abt', 'bn', 'ub']),
    kernel([rule('PFX', 'P', '', 'u', '.', 'Q'), rule('PFX', 'Q', '', 'v', 'a', cross='N'), rule('SFX', 'S', '', 'n', '.', cross='N')],
           ['ab/PQ', 'b/PS', 'aba/QS'],
           ['ab', 'b', 'aba', 'uab', 'vab', 'uvab', 'vuab', 'ub', 'bn', 'ubn', 'vabn', 'aban', 'vb']),
]
C02 = [
    kernel(['NEEDAFFIX N', rule('SFX', 'S', '', 'n', '.', 'N'), rule('SFX', 'T', '', 't', '.'), rule('PFX', 'P', '', 'u', '.')],
           ['ab/NP', 'b/S', 'ba/NT', 'ba/P'],
           ['ab', 'b', 'ba', 'uab', 'bn', 'bat', 'uba', 'ub', 'ubat', 'ubn']),
    kernel(['CIRCUMFIX X', 'ONLYINCOMPOUND O', rule('SFX', 'S', '', 'n', '.', 'X'), rule('PFX', 'P', '', 'u', '.', 'X'),
            rule('PFX', 'Q', '', 'v', '.'), rule('SFX', 'T', '', 't', '.', 'O')],
           ['ab/SPQ', 'b/ST', 'a/OT'],
           ['ab', 'b', 'a', 'abn', 'uab', 'uabn', 'vab', 'vabn', 'bn', 'bt', 'at', 'vb']),
]
C03 = [
    kernel(['KEEPCASE K', rule('SFX', 'S', '', 'n', '.')], ['ab/KS', 'Ba/S', 'bA', 'AA/K', 'Bb/K', 'bb-ab'],
           ['ab', 'Ab', 'AB', 'abn', 'Abn', 'ABN', 'ba', 'Ba', 'BA', 'Ban', 'bA', 'BAN', 'ban', 'aa', 'AA', 'Aa', 'bb', 'Bb', 'BB',
            'bb-ab', 'Bb-ab', 'Bb-Ab', 'bb-Ab', 'BB-AB', 'bB-AB', 'BA-Ab', 'ab-Ab']),
    kernel(['KEEPCASE K', 'BREAK 0'], ['aB/K', 'b', 'A', 'bb-Ba', 'ab-ba'],
           ['aB', 'AB', 'ab', 'Ab', 'b', 'B', 'a', 'A', 'bb-Ba', 'Bb-Ba', 'BB-BA', 'bb-ba', 'ab-ba', 'Ab-ba', 'Ab-Ba', 'aB-bA', 'AB-Ba', 'AB-BA']),
]
C04 = [
    kernel(['CHECKSHARPS', 'KEEPCASE K'], ['aß/K', 'ßb', 'baß'],
           ['aß', 'Aß', 'Ass', 'ASS', 'ass', 'ßb', 'SSB', 'ssb', 'Ssb', 'ßB', 'baß', 'BASS', 'BAß', 'Baß', 'bass']),
    kernel(['LANG tr_TR', 'KEEPCASE K'], ['ıb', 'ia', 'İb/K', 'bI'],
           ['ıb', 'Ib', 'IB', 'ib', 'İB', 'ia', 'İA', 'İa', 'Ia', 'IA', 'İb', 'bI', 'BI', 'bı', 'Bı', 'Bİ']),
]
C05 = [
    kernel(['FORBIDDENWORD F', rule('SFX', 'S', '', 'n', '.'), rule('PFX', 'P', '', 'u', '.'), *COMPOUND],
           ['ab/FSP', 'a/CS', 'b/CP', 'u/C', 'n/C', 'ba/S', 'Ba/F'],
           ['ab', 'a', 'b', 'abn', 'uab', 'uabn', 'ua', 'an', 'un', 'ban', 'ba', 'Ba', 'BA', 'ab-ba', 'Ab', 'AB', 'bn', 'uban', 'aba', 'bab']),
    kernel(['FORBIDDENWORD F', rule('SFX', 'S', '', 'n', '.')], ['ab/F', 'ab/S', 'aba/FS', 'b/S', 'bn/F', 'ba-b/F'],
           ['ab', 'abn', 'aba', 'aban', 'b', 'bn', 'ba-b', 'b-b', 'b-bn', 'Bn', 'BN', 'Ba-b', 'b-aba']),
]
C06 = [
    kernel(['COMPOUNDBEGIN B', 'COMPOUNDMIDDLE M', 'COMPOUNDEND E', 'COMPOUNDMIN 1', 'COMPOUNDPERMITFLAG R', 'COMPOUNDFORBIDFLAG D',
            'ONLYINCOMPOUND O', rule('SFX', 'S', '', 'n', '.', 'R'), rule('PFX', 'P', '', 'u', '.', 'D'), rule('SFX', 'T', '', 't', '.', 'M')],
           ['ab/BSP', 'b/MTO', 'a/ES'],
           ['ab', 'b', 'a', 'aba', 'abba', 'abbba', 'abna', 'abnba', 'uaba', 'aban', 'abtba', 'abbta', 'bta', 'ba', 'aa', 'aab', 'an']),
    kernel(['COMPOUNDFLAG C', 'COMPOUNDMIN 2', 'COMPOUNDWORDMAX 3', rule('SFX', 'S', '', 'n', '.'), rule('PFX', 'P', '', 'u', '.', 'C')],
           ['ab/CSP', 'b/C', 'ba/P'],
           ['ab', 'b', 'abab', 'ababab', 'abababab', 'abb', 'bab', 'uabab', 'abuab', 'ababn', 'abnab', 'ubaab', 'abba', 'abuba']),
]
C07 = [
    kernel(['COMPOUNDMIN 1', table('COMPOUNDRULE', ['AB?D', 'B*E', 'DD'])], ['a/A', 'b/BD', 'ba/E', 'ab/D'],
           ['a', 'b', 'ba', 'ab', 'abab', 'ab', 'abb', 'aab', 'bba', 'bbba', 'baba', 'abba', 'bb', 'aba', 'bab', 'ababab']),
    kernel(['COMPOUNDMIN 1', 'ONLYINCOMPOUND O', table('COMPOUNDRULE', ['A*B', 'DEDE'])], ['1/A', '1st/B', '2/A', '0th/BO', 'a/D', 'b/E'],
           ['1', '1st', '11st', '21st', '110th', '0th', '111', 'abab', 'ab', 'ba', '121st', '1st1st', 'ababab']),
]
C08 = [
    kernel([*COMPOUND, 'CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDCASE', table('CHECKCOMPOUNDPATTERN', ['a b', 'b/A b/B'])],
           ['ab/CA', 'ba/CB', 'Ba/C', 'a/C', 'bb/CB', 'ba ab', 'a-/C'],
           ['abab', 'abba', 'baab', 'abBa', 'Baab', 'aba', 'aab', 'aba', 'abbb', 'bbab', 'babb', 'aabba', 'a-Ba', 'Baa-', 'bba-ba']),
    kernel([*COMPOUND, 'CHECKCOMPOUNDREP', 'CHECKCOMPOUNDTRIPLE', 'FORCEUCASE U', table('REP', ['x y', 'b d', 'aa a', 'ab e'])],
           ['abb/C', 'ba/CU', 'a/C', 'aa/C', 'dba', 'ea', 'bb/C'],
           ['abbba', 'abba', 'Abba', 'ABBBA', 'aab', 'aaa', 'bba', 'bbba', 'aba', 'Aba', 'aaba', 'bbbb', 'aabb', 'abb', 'abbaa']),
    kernel([*COMPOUND, 'CHECKCOMPOUNDTRIPLE', 'SIMPLIFIEDTRIPLE'], ['abb/C', 'bba/C', 'b/C', 'aa/C', 'a/C'],
           ['abbba', 'abba', 'abbbba', 'abbb', 'abb', 'aaa', 'aaaa', 'bbaa', 'bbaaa', 'aabb', 'abbaa']),
]
C09 = [
    kernel([], ['a', 'ab', 'b-', 'a-b-ab', 'bb-ab-a-b'],
           ['a-b', 'a-ab', '-a', 'a-', '-a-', 'b-', 'b', 'b--a', 'a-b-ab', 'a-a-b-ab', 'bb-ab-a-b', 'a-bb-ab-a-b', 'bb-ab-a-b-ab', '--', 'a--ab', '1-a', '1.5-ab', '1.5', '1.', '12',
            'a-a-a-a-a-a-a', 'a-a-a-a-a-a-a-a-a-a-a', 'a-a-a-a-a-a-a-a-a-a-a-a']),
    kernel([table('BREAK', ['+', '^.', '!$', 'bb'])], ['a', 'ab', 'bb', '.b', 'a-b'],
           ['a+ab', '.a', 'a!', '.a!', 'a.', '!a', 'abba', 'abbab', 'bbbb', 'bb', '.b', '.ab+a!', 'a-b', 'a-ab', '+a', 'a+', '..a', 'a!!']),
]
C10 = [
    kernel([table('ICONV', ['x a', 'xx b', '_y ab', 'z_ a', 'xy ba'])], ['a', 'ab', 'ba', 'b'],
           ['x', 'xx', 'xb', 'bx', 'xxb', 'xxx', 'y', 'yx', 'xy', 'z', 'bz', 'zb', 'yz', 'xyxx', 'X', 'x-xx']),
    kernel(['IGNORE *#', rule('SFX', 'S', '', '*n', '.')], ['a*b/S', 'b#/S', 'ba'],
           ['ab', 'a*b', '*ab#', 'abn', 'ab*n', 'a#b*n', 'b', 'b#', 'bn', 'ba', 'b*a', 'b#a#', '*', '#b']),
]
SUGGEST = {
    'C11': [
        kernel(['TRY ab-', table('REP', ['x a_b', 'y a_b_a', 'z b_q'])], ['a', 'b', 'ab', 'ba', 'ab ba', 'aab-b'], [],
               ['x', 'y', 'z', 'abab', 'abba', 'bax', 'aabb', 'bba-ab', 'Xb']),
    ],
    'C12': [
        kernel(['TRY abc', 'KEY ab|cd'], ['abcd', 'bacd', 'ab', 'cd', 'abab', 'A', 'dc'], [],
               ['abdc', 'abd', 'abccd', 'abxcd', 'cbad', 'bcad', 'ababab', 'abcda', 'abxd', 'badc', 'dabc']),
    ],
    'C13': [
        kernel(['TRY bac-', 'KEY ab|bc', table('REP', ['ab c', 'c a_b']), table('MAP', ['ac', 'bd'])],
               ['a', 'b', 'c', 'ab', 'ba', 'ca', 'bc', 'abc', 'cab', 'acb', 'a b', 'bab'], [], ['bca', 'aab', 'abca', 'cb', 'abb', 'bbc', 'ac', 'dac']),
    ],
    'C14': [
        kernel(['KEEPCASE K', 'FORBIDDENWORD F', 'TRY abs'], ['ab', 'Bab', 'AAB', 'aBA', 'bba/K', 'Abb/F', 'abb', 'ab-bab'], [],
               ['Aab', 'AAAB', 'aab', 'baab', 'BAAB', 'bAb', 'AbA', 'Bbaa', 'BBAA', 'aBb', 'Ab-bba', 'AB-BBA', 'baB-aab', 'Abab', 'bbA']),
    ],
    'C15': [
        kernel([rule('SFX', 'S', '', 'ness', '.'), rule('PFX', 'P', '', 'un', '.')], ['kindly/SP', 'kind/SP', 'kinder', 'wonder/S', 'under', 'Kinds', 'kid'], [],
               ['kynderly', 'unkyndnes', 'wondernss', 'kknd', 'Kindrness', 'undrkind']),
    ],
    'C16': [
        kernel([table('PHONE', ['SH X', 'SS S', 'O(AEIOU)^ A', 'A(EIOU) _', 'I _', 'O _', 'E _', 'PH- F', 'F F', 'CK$ K', 'C(KS) K', 'LL- L'])],
               ['shell', 'fishes', 'phone', 'sack', 'office', 'facks'], [], ['xzll', 'fyxxs', 'fownn', 'zakk', 'owfyss', 'Shhlll']),
    ],
    'C17': [
        kernel([table('REP', ['f ph', '^k c', 't$ d', 'a e_', 'z a']), table('MAP', ['uü', 'ß(ss)'])],
               ['phab', 'card', 'bad', 'strüß', 'be', 'ba ph:qq', 'bab ph:xy ph:x->y ph:pab*'], [],
               ['fab', 'kart', 'bat', 'kard', 'struss', 'bab', 'qq', 'xy', 'pab', 'bza', 'Qq', 'xb', 'FAB']),
    ],
    'C18': [
        kernel(['NOSUGGEST N', 'TRY abs', rule('SFX', 'S', '', 'n', '.'), *COMPOUND], ['ab/NSC', 'ba/S', 'aab/C', 'abb/N', 'abb/S', 'bb/C', 'ba ab'], [],
               ['abn', 'aba', 'bn', 'bban', 'aabb', 'abbn', 'baab', 'bbab', 'Ab', 'b-ab', 'bba-ba']),
    ],
}
SUGGEST['C05'] = [
    kernel(['FORBIDDENWORD F', 'TRY abn', rule('SFX', 'S', '', 'n', '.'), *COMPOUND], ['ab/FS', 'ba/S', 'aab/C', 'bb/CF', 'abb', 'Abb/F'], [],
           ['abn', 'aba', 'bn', 'ban', 'aabaab', 'bbaab', 'Abbb', 'bb-ba', 'baab']),
]


def stem_of(line):
    return line.split(' ph:')[0].rsplit('/', 1)[0]


def complete(k):
    """The kernel with words of both sorts."""
    lines, entries, lookups, suggests = k
    stems = [stem_of(e) for e in entries]
    if not suggests:
        suggests = [w + 'x' for w in stems[:3]] + [w[1:] for w in stems[:2] if len(w) > 1] + [stems[0].upper() + 'X', stems[-1].capitalize() + 'x', lookups[-1] + 'x']
    if not lookups:
        lookups = stems + [a + b for a in stems[:3] for b in stems[:3]] + list(suggests[:4]) + [a + '-' + b for a in stems[:2] for b in stems[:2]]
    return lines, entries, tuple(lookups), tuple(suggests)


ALL = [complete(k) for group in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, *SUGGEST.values()) for k in group]
#: one of each sort, for the larger combinations
CORE = [complete(k) for k in (C01[0], C02[1], C03[0], C05[0], C06[0], C07[0], C08[0], C09[0], SUGGEST['C13'][0], SUGGEST['C14'][0], SUGGEST['C17'][0])]
