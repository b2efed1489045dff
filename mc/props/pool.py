"""Dictionaries using every part of the library, shared by the properties about histories and schedules."""
from .common import *

#: name: (aff, dic, words)
POOL = {
    'affixes': (aff('TRY abst', 'KEEPCASE K', 'NEEDAFFIX N', 'FORBIDDENWORD F', 'NOSUGGEST O',
                    rule('SFX', 'S', '', 's', '.', 'T'), rule('SFX', 'T', '', 't', '[^b]'), rule('PFX', 'P', 'b', 'p', 'b')),
                dic('ab/SP', 'ba/PS', 'Bab/K', 'bat/N', 'tab/F', 'sab/O', 'abs'),
                ['ab', 'abs', 'Ab', 'AB', 'abst', 'past', 'bab', 'Bab', 'tab', 'sab', 'xab', 'bsa', 'aB']),
    'other-flags': (aff('TRY tsba', 'KEEPCASE S', 'NEEDAFFIX P', 'FORBIDDENWORD K', 'NOSUGGEST T',
                        rule('SFX', 'F', '', 's', '.', 'O'), rule('SFX', 'O', '', 't', '.'), rule('PFX', 'N', '', 'p', '.')),
                    dic('ab/SF', 'ba/PN', 'Bab/F', 'bat/N', 'tab/K', 'sab/T', 'abt ph:xab'),
                    ['ab', 'abs', 'Ab', 'AB', 'abst', 'past', 'bab', 'Bab', 'tab', 'sab', 'xab', 'bsa', 'pbat']),
    'tables': (aff('TRY ab', table('REP', ['x ab', 'f ph', '^q a', 'ab_b a_b']), table('MAP', ['aáà', '(ab)o']), 'KEY abc|xyz',
                   'MAXNGRAMSUGS 3', table('ICONV', ['ù a']), table('OCONV', ['a ù']), table('BREAK', ['-', '=']), 'IGNORE _'),
               dic('ab', 'áb', 'phab', 'a b', 'abab', 'b ph:wb', 'bob ph:bop*', 'bbb ph:yy->bb'),
               ['ab', 'ùb', 'x', 'fab', 'qb', 'ab-ab', 'ab=b', 'ábx', 'wb', 'bop', 'yyb', 'a_b', 'o', 'ABAB', 'abb']),
    'phonetic': (aff(table('PHONE', ['AB P', 'A(EI) _', 'B B', 'B^ V', 'T$ D', 'C< K', 'S S']), 'TRY x'),
                 dic('abc', 'bact', 'bets', 'cats', 'tabs', 'vaccs', 'absent', 'batches', 'catches'),
                 ['abk', 'bakt', 'catc', 'pabs', 'bact', 'absend', 'bachet', 'Cats', 'katches']),
    'compounds': (aff('COMPOUNDMIN 2', 'COMPOUNDFLAG C', 'COMPOUNDBEGIN B', 'COMPOUNDEND E', 'CHECKCOMPOUNDDUP',
                      'CHECKCOMPOUNDTRIPLE', table('COMPOUNDRULE', ['XY*Z', 'ZZ?']), 'ONLYINCOMPOUND O', 'FORCEUCASE U',
                      table('CHECKCOMPOUNDPATTERN', ['b/C c/C']), 'MAXCPDSUGS 2', rule('SFX', 'S', '', 's', '.')),
                  dic('ab/C', 'cd/CS', 'ef/B', 'gh/EU', 'kl/XC', 'mn/YO', 'op/Z'),
                  ['abcd', 'cdab', 'abab', 'efgh', 'Efgh', 'efab', 'klmnop', 'klop', 'opop', 'mn', 'cdabs', 'abef', 'opopop',
                   'klxmnop', 'cdcdab']),
    'sharp': (aff('CHECKSHARPS', 'KEEPCASE k', 'LANG de', 'TRY sße', rule('SFX', 'e', '', 'e', 'ß')),
              dic('maß/ke', 'mass', 'Straße', 'gras/k', 'IJs'),
              ['maß', 'MASS', 'mass', 'MAßE', 'MASSE', 'Strasse', 'STRASSE', 'GRAS', 'gras', 'mas', 'straße', 'IJS']),
    'turkic': (aff('LANG az', 'TRY iı'), dic('ilk', 'ısı', 'İrk', 'IT'),
               ['ilk', 'İLK', 'ILK', 'Ilk', 'ISI', 'ısı', 'irk', 'İrk', 'it', 'IT', 'ıt', 'ilkk']),
    'ngram': (aff('MAXNGRAMSUGS 6', 'MAXDIFF 9', rule('SFX', 'A', '', 'ing', '.'), rule('SFX', 'B', '', 'ed', '.'),
                  rule('PFX', 'C', '', 're', '.'), rule('PFX', 'D', '', 'un', '.')),
              dic(*['%s%s%s/ABCD' % (a, b, c) for a in ('st', 'tr', 'pl') for b in ('a', 'o', 'i') for c in ('ck', 'mp', 'nd')]),
              ['stuck', 'restucking', 'unplondedd', 'stackingg', 'trampp', 'plindxing', 'tromped', 'untromping', 'stick']),
    'aliases': (aff('FLAG num', table('AF', ['1,2', '2', '11']), table('AM', ['ph:xx', 'po:n']), 'NEEDAFFIX 11',
                    rule('SFX', '1', '', 's', '.', '2'), rule('SFX', '2', '', 't', '.')),
                dic('ab/1\t1', 'ba/2\t2', 'bb/3', 'cc/3\t1'), ['ab', 'abs', 'abst', 'bat', 'bb', 'xx', 'cc', 'bas', 'abts']),
    'crowded': (aff('TRY tacbhrms', 'MAXNGRAMSUGS 3', rule('SFX', 'S', '', 's', '.'), rule('PFX', 'C', '', 'c', '.')),
                dic('bat/S', 'cat/S', 'hat/CS', 'mat/S', 'rat/S', 'Tab', 'that', 'batch', 'match', 'catch', 'ratch', 'hatch', 'scat', 'brat'),
                ['xat', 'Xat', 'bta', 'chats', 'htch', 'xatch', 'TAB', 'catcx', 'rbat']),
}
