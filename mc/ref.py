"""
Reference model of the dictionary semantics, written without importing the code under test.

The model is generative where the implementation is analytic: words are obtained by *applying*
affix rules to stems (the implementation *strips* affixes from words), conditions, breaks, conversions
and replacement tables are matched without regular expressions, and everything derivable from a
dictionary is put into one finite table ``text -> derivations``.
"""

from collections import defaultdict, namedtuple

NO, INIT, ALL, HUHINIT, HUH = 'NO', 'INIT', 'ALL', 'HUHINIT', 'HUH'
BEGIN, MIDDLE, END = 'BEGIN', 'MIDDLE', 'END'

FLAG_DIRECTIVES = (
    'NOSUGGEST KEEPCASE CIRCUMFIX NEEDAFFIX FORBIDDENWORD WARN COMPOUNDFLAG COMPOUNDBEGIN COMPOUNDMIDDLE '
    'COMPOUNDEND ONLYINCOMPOUND COMPOUNDPERMITFLAG COMPOUNDFORBIDFLAG FORCEUCASE SUBSTANDARD SYLLABLENUM '
    'COMPOUNDROOT').split()
BOOL_DIRECTIVES = (
    'COMPLEXPREFIXES FULLSTRIP NOSPLITSUGS CHECKSHARPS CHECKCOMPOUNDCASE CHECKCOMPOUNDDUP CHECKCOMPOUNDREP '
    'CHECKCOMPOUNDTRIPLE SIMPLIFIEDTRIPLE ONLYMAXDIFF COMPOUNDMORESUFFIXES').split()
INT_DIRECTIVES = dict(MAXDIFF=-1, MAXNGRAMSUGS=4, MAXCPDSUGS=3, COMPOUNDMIN=3, COMPOUNDWORDMAX=0)
SYNONYMS = {'PSEUDOROOT': 'NEEDAFFIX', 'COMPOUNDLAST': 'COMPOUNDEND'}

Entry = namedtuple('Entry', 'no stem flags alts cap data')
Affix = namedtuple('Affix', 'no kind flag cross strip add cond flags condtext')
Phone = namedtuple('Phone', 'units ahead start end repl')
Form = namedtuple('Form', 'entry stem sufs prefs')     # sufs/prefs: innermost first


# --------------------------------------------------------------------------- reading

def parse_cond(text):
    res, i = [], 0
    while i < len(text):
        if text[i] == '[':
            j = text.index(']', i + 1)
            body = text[i + 1:j]
            if body.startswith('^'):
                res.append((False, frozenset(body[1:])))
            else:
                res.append((True, frozenset(body)))
            i = j + 1
        else:
            res.append((True, None) if text[i] == '.' else (True, frozenset(text[i])))
            i += 1
    return tuple(res)


def cond_holds(cond, chars):
    return all(chs is None or (c in chs) == positive for (positive, chs), c in zip(cond, chars))


class Aff:
    def __init__(self, text):
        self.encoding = 'Windows-1252'
        self.flag_format = 'short'
        self.aliases = {}
        self.am = {}
        for name in FLAG_DIRECTIVES:
            setattr(self, name, None)
        for name in BOOL_DIRECTIVES:
            setattr(self, name, False)
        for name, default in INT_DIRECTIVES.items():
            setattr(self, name, default)
        self.LANG = None
        self.IGNORE = ''
        self.KEY = 'qwertyuiop|asdfghjkl|zxcvbnm'
        self.TRY = ''
        self.REP = []
        self.MAP = []
        self.PHONE = None
        self.BREAK = ['-', '^-', '-$']
        self.RULES = []
        self.PATTERNS = []
        self.ICONV = None
        self.OCONV = None
        self.affixes = {'PFX': {}, 'SFX': {}}
        lines = [ln.strip() for ln in text.split('\n')]
        lines = [ln for ln in lines if ln]
        pos = 0
        no = 0
        while pos < len(lines):
            name, *args = lines[pos].split()
            pos += 1
            name = SYNONYMS.get(name, name)

            def table(count):
                nonlocal pos
                rows = [ln.split()[1:] for ln in lines[pos:pos + count]]
                pos += count
                return rows

            if name in FLAG_DIRECTIVES:
                setattr(self, name, self.flags(args[0], alias=False)[0])
            elif name in BOOL_DIRECTIVES:
                setattr(self, name, True)
            elif name in INT_DIRECTIVES:
                setattr(self, name, int(args[0]))
            elif name == 'FLAG':
                self.flag_format = args[0]
            elif name == 'SET':
                self.encoding = args[0]
            elif name in ('LANG', 'KEY', 'TRY', 'IGNORE'):
                if args:
                    setattr(self, name, args[0])
            elif name in ('SFX', 'PFX'):
                rows = []
                for row in table(int(args[2])):
                    _flag, strip, add, *rest = row
                    add, _, flags = add.partition('/')
                    add = self.ignored(add)
                    cond = rest[0] if rest else ''
                    rows.append(Affix(no, name, args[0], args[1] == 'Y', '' if strip == '0' else strip,
                                      '' if add == '0' else add, parse_cond(cond), frozenset(self.flags(flags)), cond))
                    no += 1
                if rows:
                    self.affixes[name][args[0]] = rows
            elif name == 'BREAK':
                self.BREAK = [row[0] for row in table(int(args[0]))]
            elif name == 'COMPOUNDRULE':
                self.RULES = [self.rule(row[0]) for row in table(int(args[0]))]
            elif name in ('ICONV', 'OCONV'):
                setattr(self, name, [(row[0], row[1]) for row in table(int(args[0]))])
            elif name == 'REP':
                self.REP = [(row[0], row[1]) for row in table(int(args[0]))]
            elif name == 'MAP':
                self.MAP = [self.map_group(row[0]) for row in table(int(args[0]))]
            elif name == 'CHECKCOMPOUNDPATTERN':
                self.PATTERNS = [(row[0].partition('/')[::2], row[1].partition('/')[::2])
                                 for row in table(int(args[0]))]
            elif name == 'AF':
                self.aliases = {str(i): self.flags(row[0], alias=False)
                                for i, row in enumerate(table(int(args[0])), 1)}
            elif name == 'AM':
                self.am = {str(i): row for i, row in enumerate(table(int(args[0])), 1)}
            elif name == 'PHONE':
                self.PHONE = [self.phone(*row[:2]) for row in table(int(args[0]))]
        self.suffixes = [a for rows in self.affixes['SFX'].values() for a in rows]
        self.prefixes = [a for rows in self.affixes['PFX'].values() for a in rows]
        self.mutual = [(p, s) for p in self.prefixes if p.flags for s in self.suffixes
                       if p.flag in s.flags and s.flag in p.flags]
        self.casing = ('german' if self.CHECKSHARPS else
                       'turkic' if self.LANG in ('tr', 'tr_TR', 'az', 'crh') else 'plain')

    def ignored(self, text):
        return ''.join(c for c in text if c not in self.IGNORE)

    def flags(self, text, alias=True):
        if alias and self.aliases and text.isdigit():
            return self.aliases[text]
        if self.flag_format == 'long':
            return [text[i:i + 2] for i in range(0, len(text) - 1, 2)]
        if self.flag_format == 'num':
            return [part for part in text.split(',') if part]
        return list(text)

    @staticmethod
    def rule(text):
        res, i = [], 0
        while i < len(text):
            if '(' in text:
                j = text.index(')', i)
                flag, i = text[i + 1:j], j + 1
            else:
                flag, i = text[i], i + 1
            if i < len(text) and text[i] in '*?':
                res.append((flag, text[i]))
                i += 1
            else:
                res.append((flag, ''))
        return res

    @staticmethod
    def map_group(text):
        res, i = [], 0
        while i < len(text):
            if text[i] == '(':
                j = text.index(')', i)
                res.append(text[i + 1:j])
                i = j + 1
            else:
                res.append(text[i])
                i += 1
        return res

    @staticmethod
    def phone(search, repl):
        units, i = [], 0
        while i < len(search) and (search[i].isalnum() or search[i] == '_'):
            units.append(search[i])
            i += 1
        if i < len(search) and search[i] == '(':
            j = search.index(')', i)
            units.append(search[i + 1:j])
            i = j + 1
        ahead = 0
        while i < len(search) and search[i] == '-':
            ahead += 1
            i += 1
        rest = search[i:]
        return Phone(units, ahead, '^' in rest, '$' in rest, '' if repl == '_' else repl)


# --------------------------------------------------------------------------- casing

TUR_L = {'İ': 'i', 'I': 'ı'}
TUR_U = {'i': 'İ', 'ı': 'I'}


class Casing:
    def __init__(self, kind):
        self.kind = kind

    def plain_type(self, word):
        if word.islower():
            return NO
        if word.isupper():
            return ALL
        if word[:1].isupper():
            return INIT if word[1:].islower() else HUHINIT
        return HUH

    def type(self, word):
        if self.kind == 'german' and 'ß' in word and self.plain_type(word.replace('ß', '')) == ALL:
            return ALL
        return self.plain_type(word)

    def lower(self, word):
        """List of possible lower-case readings."""
        text = ''.join(TUR_L.get(c, c) for c in word) if self.kind == 'turkic' else word
        if not text or text[0] == 'İ':
            return []
        low = text.lower().replace('i̇', 'i')
        if self.kind == 'german' and 'SS' in word:
            return list(self.sharps(low, 0, False))
        return [low]

    def sharps(self, text, start, changed):
        # all ways to read some of the non-overlapping "ss" as sharp s, the unchanged text last
        pos = text.find('ss', start)
        if pos == -1:
            if not changed:
                yield text
            return
        one = text[:pos] + 'ß' + text[pos + 2:]
        yield one
        yield from self.sharps(one, pos + 1, True)
        if not changed:
            yield from self.sharps(text, pos + 1, False)
        else:
            yield from self.sharps(text, pos + 1, True)

    def upper(self, word):
        return (''.join(TUR_U.get(c, c) for c in word) if self.kind == 'turkic' else word).upper()

    def capital(self, word):
        if len(word) == 1:
            return list(self.upper(word))
        return [self.upper(word[0]) + low for low in self.lower(word[1:])]

    def lowfirst(self, word):
        return [c + word[1:] for c in self.lower(word[0])]

    def variants(self, word):
        """How the word may be written in the dictionary if it is correct as it is."""
        cap = self.type(word)
        more = {NO: lambda: [], INIT: lambda: self.lower(word), HUHINIT: lambda: self.lowfirst(word),
                HUH: lambda: [], ALL: lambda: self.lower(word) + self.capital(word)}[cap]()
        return cap, [word, *more]

    def corrections(self, word):
        cap = self.type(word)
        more = {NO: lambda: [], INIT: lambda: self.lower(word),
                HUHINIT: lambda: self.lowfirst(word) + self.lower(word) + self.capital(word),
                HUH: lambda: self.lower(word), ALL: lambda: self.lower(word) + self.capital(word)}[cap]()
        return cap, [word, *more]

    def coerce(self, text, cap):
        if cap in (INIT, HUHINIT):
            return self.upper(text[0]) + text[1:]
        if cap == ALL:
            return self.upper(text)
        return text


# --------------------------------------------------------------------------- the model

def attach(affix, text):
    """Text with the affix attached, or None."""
    n, s = len(affix.cond), len(affix.strip)
    if len(text) < n:
        return None
    if affix.kind == 'SFX':
        if not cond_holds(affix.cond, text[len(text) - n:]) or not text.endswith(affix.strip):
            return None
        return text[:len(text) - s] + affix.add
    if not cond_holds(affix.cond, text[:n]) or not text.startswith(affix.strip):
        return None
    return affix.add + text[s:]


def convert(table, word):
    """ICONV/OCONV."""
    res, pos = [], 0
    while pos < len(word):
        best = None
        for pat, repl in sorted(table, key=lambda row: row[0].replace('_', '')):
            core = pat.replace('_', '')
            if not word.startswith(core, pos):
                continue
            if pat.startswith('_') and pos != 0:
                continue
            if pat.endswith('_') and pos + len(core) != len(word):
                continue
            if best is None or len(core) > len(best[0]):
                best = (core, repl)
        if best:
            res.append(best[1].replace('_', ' '))
            pos += len(best[0])
        else:
            res.append(word[pos])
            pos += 1
    return ''.join(res)


def is_number(word):
    whole, dot, frac = word.partition('.')
    return whole.isdecimal() and (frac.isdecimal() if dot else True)


def parse_dic_line(line):
    """(word part with flags, data part) of one stripped line."""
    cut = None
    for i in range(1, len(line)):
        if line[i] == '\t':
            cut = i
            break
        if line[i] == ' ' and line[i + 3:i + 4] == ':' and all(c.isalnum() or c == '_' for c in line[i + 1:i + 3]):
            cut = i
            break
    return (line, '') if cut is None else (line[:cut].rstrip(), line[cut:])


def split_flags(word):
    """(text, flags) of the word part."""
    for i in range(1, len(word)):
        if word[i] == '/' and word[i - 1] != '\\':
            return word[:i].replace('\\/', '/'), word[i + 1:]
    return word.replace('\\/', '/'), ''


class Model:
    def __init__(self, aff_text, dic_text):
        self.aff = aff = Aff(aff_text)
        self.case = Casing(aff.casing)
        self.rep = list(aff.REP)
        self.entries = []
        self.by_stem = defaultdict(list)
        lines = dic_text.split('\n')
        for no, line in enumerate(lines):
            line = line.strip()
            if not line:
                continue
            if no == 0 and line.split()[0].isdecimal():
                continue
            self.add_entry(line)
        self.table = defaultdict(list)      # text -> forms from stems as listed
        self.table_ci = None                # text -> forms from lower-cased stems (built when needed)
        self.build(self.table, lambda e: [e.stem])
        self._cache = {}

    def add_entry(self, line):
        aff = self.aff
        word, data_text = parse_dic_line(line)
        word, flags = split_flags(word)
        word = aff.ignored(word)
        data = defaultdict(list)
        parts = data_text.split()
        for part in parts:
            if ':' in part:
                tag, _, content = part.partition(':')
                if content:
                    data[tag].append(content)
            elif part.isdigit() and aff.am:
                parts.extend(tag for tag in aff.am.get(part, ()) if not tag.isdigit())
        alts = []
        for ph in data.get('ph', ()):
            if ph.endswith('*'):
                self.rep.append((ph[:-2], word[:-1]))
            elif '->' in ph:
                self.rep.append(tuple(ph.partition('->')[::2]))
            else:
                self.rep.append((ph, word))
                alts.append(ph)
        entry = Entry(len(self.entries), word, frozenset(aff.flags(flags)), alts, self.case.type(word), dict(data))
        self.entries.append(entry)
        self.by_stem[word].append(entry)

    # -- derivations

    def derive(self, entry, base):
        """All (form, text) obtained from the entry, its stem being written as ``base``."""
        aff = self.aff
        sfx, pfx = aff.affixes['SFX'], aff.affixes['PFX']
        yield Form(entry, base, (), ()), base

        # chains of prefixes/suffixes reachable by flags (innermost first)
        def chains(group, first_flags, two):
            for flag in first_flags:
                for one in group.get(flag, ()):
                    yield (one,)
                    if two:
                        for flag2 in one.flags:
                            for second in group.get(flag2, ()):
                                yield (one, second)

        def apply(chain, text):
            for affix in chain:
                text = attach(affix, text)
                if text is None:
                    return None
            return text

        for sufs in chains(sfx, entry.flags, True):
            text = apply(sufs, base)
            if text is not None:
                yield Form(entry, base, sufs, ()), text
        for prefs in chains(pfx, entry.flags, aff.COMPLEXPREFIXES):
            text = apply(prefs, base)
            if text is not None:
                yield Form(entry, base, (), prefs), text
        # both: at least one of the two innermost affixes is permitted by the stem, the other one by
        # the stem or by its counterpart
        seen = set()

        def both(prefs, sufs):
            key = (prefs, sufs)
            if key in seen:
                return
            seen.add(key)
            pref, suf = prefs[0], sufs[0]
            if not pref.cross or not all(s.cross for s in sufs):
                return
            if pref.flag not in entry.flags and pref.flag not in suf.flags:
                return
            if suf.flag not in entry.flags and suf.flag not in pref.flags:
                return
            text = apply(sufs, base)
            if text is not None:
                text = apply(prefs, text)
            if text is not None:
                yield Form(entry, base, sufs, prefs), text

        if not pfx or not sfx:
            return
        own_sufs = list(chains(sfx, entry.flags, True))
        own_prefs = list(chains(pfx, entry.flags, aff.COMPLEXPREFIXES))
        for prefs in own_prefs:
            for sufs in own_sufs:
                yield from both(prefs, sufs)
            for sufs in chains(sfx, prefs[0].flags, True):
                yield from both(prefs, sufs)
        for sufs in own_sufs:
            for prefs in chains(pfx, sufs[0].flags, aff.COMPLEXPREFIXES):
                yield from both(prefs, sufs)
        # mutual permission: neither is permitted by the stem itself, each by the other
        for pref, suf in aff.mutual:
            for sufs in [(suf,)] + [(suf, s2) for f in suf.flags for s2 in sfx.get(f, ())]:
                for prefs in [(pref,)] + [(pref, p2) for f in pref.flags for p2 in pfx.get(f, ())
                                          if aff.COMPLEXPREFIXES]:
                    yield from both(prefs, sufs)

    def build(self, table, bases):
        for entry in self.entries:
            for base in bases(entry):
                for form, text in self.derive(entry, base):
                    table[text].append(form)

    def lower_table(self):
        if self.table_ci is None:
            self.table_ci = defaultdict(list)
            self.build(self.table_ci, lambda e: [e.stem] if e.cap == NO else self.case.lower(e.stem))
        return self.table_ci

    # -- acceptance of one (stem + affixes) form

    @staticmethod
    def form_flags(form):
        flags = form.entry.flags
        if form.prefs:
            flags = flags | form.prefs[0].flags
        if form.sufs:
            flags = flags | form.sufs[0].flags
        return flags

    def form_ok(self, form, pos, cap, nosug):
        aff, entry = self.aff, form.entry
        flags = self.form_flags(form)
        affixes = form.sufs + form.prefs
        if not nosug and aff.NOSUGGEST in entry.flags:
            return False
        if aff.KEEPCASE in entry.flags and cap != entry.cap and not (aff.CHECKSHARPS and 'ß' in entry.stem):
            return False
        if aff.NEEDAFFIX:
            if not affixes and aff.NEEDAFFIX in entry.flags:
                return False
            if affixes and all(aff.NEEDAFFIX in a.flags for a in affixes):
                return False
        if aff.CIRCUMFIX:
            has = [bool(side) and aff.CIRCUMFIX in side[0].flags for side in (form.prefs, form.sufs)]
            if has[0] != has[1]:
                return False
        if pos is None:
            return aff.ONLYINCOMPOUND not in flags
        wanted = {aff.COMPOUNDFLAG,
                  {BEGIN: aff.COMPOUNDBEGIN, MIDDLE: aff.COMPOUNDMIDDLE, END: aff.COMPOUNDEND}[pos]} - {None}
        return bool(wanted & flags)

    def position_ok(self, form, pos):
        """May affixes of the form stand at this position of a compound?"""
        aff = self.aff
        affixes = form.sufs + form.prefs
        if aff.COMPOUNDFORBIDFLAG and any(aff.COMPOUNDFORBIDFLAG in a.flags for a in affixes):
            return False
        permit = aff.COMPOUNDPERMITFLAG

        def permitted(side):
            return permit is not None and all(permit in a.flags for a in side)
        if form.prefs and pos != BEGIN and not permitted(form.prefs):
            return False
        if form.sufs and pos != END and not permitted(form.sufs):
            return False
        return True

    def has_flag(self, text, flag):
        return any(flag in e.flags for e in self.by_stem.get(text, ()))

    def all_forbidden(self, text):
        entries = self.by_stem.get(text)
        return bool(self.aff.FORBIDDENWORD and entries and
                    all(self.aff.FORBIDDENWORD in e.flags for e in entries))

    def any_forbidden(self, text):
        return bool(self.aff.FORBIDDENWORD) and self.has_flag(text, self.aff.FORBIDDENWORD)

    def affix_forms(self, text, cap, nosug=True, pos=None, with_forbidden=False):
        """All good forms of exactly this text."""
        res = []
        exact = set()

        def add(form):
            if not with_forbidden and (pos or form.sufs or form.prefs) and self.any_forbidden(form.stem):
                return
            if pos and not self.position_ok(form, pos):
                return
            if self.form_ok(form, pos, cap, nosug):
                res.append(form)
                exact.add((form.stem, form.sufs, form.prefs))
        for form in self.table.get(text, ()):
            add(form)
        if pos is None and cap == ALL and self.case.type(text) == NO:
            done = frozenset(exact)
            for form in self.lower_table().get(text, ()):
                if (form.stem, form.sufs, form.prefs) not in done:
                    add(form)
        return res

    # -- compounds: a compound is a list of (form or None, part text)

    def flag_compounds(self, text, cap, nosug, depth=0):
        aff = self.aff
        if depth:
            for form in self.affix_forms(text, cap, nosug, END):
                yield [(form, text)]
        if aff.COMPOUNDWORDMAX and depth + 1 >= aff.COMPOUNDWORDMAX:
            return
        pos = MIDDLE if depth else BEGIN
        for cut in range(aff.COMPOUNDMIN, len(text) - aff.COMPOUNDMIN + 1):
            left, rest = text[:cut], text[cut:]
            heads = self.affix_forms(left, cap, nosug, pos)
            if aff.SIMPLIFIEDTRIPLE and left[-1] == rest[0]:
                heads = heads + self.affix_forms(left + left[-1], cap, nosug, pos)
            if heads:
                tails = list(self.flag_compounds(rest, cap, nosug, depth + 1))
                for head in heads:
                    for tail in tails:
                        yield [(head, left), *tail]

    def rule_compounds(self, text, nosug):
        aff = self.aff

        def usable(stem):
            if self.any_forbidden(stem):
                return []
            return [e for e in self.by_stem.get(stem, ()) if nosug or aff.NOSUGGEST not in e.flags]

        def splits(text, parts):
            if parts and len(text) >= aff.COMPOUNDMIN and usable(text):
                yield parts + [text]
            if aff.COMPOUNDWORDMAX and len(parts) + 1 >= aff.COMPOUNDWORDMAX:
                return
            for cut in range(aff.COMPOUNDMIN, len(text) - aff.COMPOUNDMIN + 1):
                if usable(text[:cut]):
                    yield from splits(text[cut:], parts + [text[:cut]])

        for parts in splits(text, []):
            flagsets = [frozenset().union(*(e.flags for e in usable(p))) for p in parts]
            if any(rule_matches(rule, flagsets) for rule in aff.RULES):
                yield [(None, p) for p in parts]

    def prohibited(self, parts, cap):
        aff = self.aff
        if aff.FORCEUCASE and cap not in (ALL, INIT) and self.has_flag(parts[-1][1], aff.FORCEUCASE):
            return True
        for i in range(len(parts) - 1):
            (lform, left), (rform, right) = parts[i], parts[i + 1]
            if aff.COMPOUNDFORBIDFLAG and self.has_flag(left, aff.COMPOUNDFORBIDFLAG):
                return True
            if self.affix_forms(left + ' ' + right, cap):
                return True
            if aff.CHECKCOMPOUNDREP:
                for text in replacements(left + right, self.rep):
                    if self.affix_forms(text, cap):
                        return True
            if aff.CHECKCOMPOUNDTRIPLE:
                around = left[-2:], right[:2]
                if len(around[0]) == 2 and around[0][0] == around[0][1] == right[0]:
                    return True
                if len(around[1]) == 2 and around[1][0] == around[1][1] == left[-1]:
                    return True
            if aff.CHECKCOMPOUNDCASE and '-' not in (left[-1], right[0]):
                if left[-1] == left[-1].upper() or right[0] == right[0].upper():
                    return True
            for (ltext, lflag), (rtext, rflag) in aff.PATTERNS:
                if self.side_matches(lform, left, ltext, lflag, str.endswith) and \
                        self.side_matches(rform, right, rtext, rflag, str.startswith):
                    return True
            if aff.CHECKCOMPOUNDDUP and left == right and i == len(parts) - 2:
                return True
        return False

    def side_matches(self, form, text, wanted, flag, at):
        stem = form.stem if form else text
        if wanted == '0':
            if text != stem:
                return False
        elif not at(stem, wanted):
            return False
        return not flag or bool(form) and flag in self.form_flags(form)

    def compound_forms(self, text, cap, nosug=True):
        aff = self.aff
        if aff.FORBIDDENWORD and any(aff.FORBIDDENWORD in self.form_flags(f)
                                     for f in self.affix_forms(text, cap, with_forbidden=True)):
            return
        if aff.COMPOUNDBEGIN or aff.COMPOUNDFLAG:
            for parts in self.flag_compounds(text, cap, nosug):
                if not self.prohibited(parts, cap):
                    yield parts
        if aff.RULES:
            for parts in self.rule_compounds(text, nosug):
                if not self.prohibited(parts, cap):
                    yield parts

    # -- lookup

    def forms(self, word, capitalization=True, nosug=True, affix=True, compound=True):
        """(affix forms, compounds) of the word taken as a whole."""
        aff = self.aff
        if capitalization:
            cap, variants = self.case.variants(word)
        else:
            cap, variants = self.case.type(word), [word]
        for variant in variants:
            if self.all_forbidden(variant):
                continue
            if affix:
                for form in self.affix_forms(variant, cap, nosug):
                    if aff.CHECKSHARPS and aff.KEEPCASE and 'ß' in form.entry.stem and cap == ALL and \
                            'ß' in word and aff.KEEPCASE in self.form_flags(form):
                        continue
                    yield 'affix', form, variant
            if compound:
                for parts in self.compound_forms(variant, cap, nosug):
                    yield 'compound', parts, variant
        if compound and not capitalization and aff.FORCEUCASE and cap == INIT:
            for variant in self.case.lower(word):
                for parts in self.compound_forms(variant, cap, nosug):
                    yield 'compound', parts, variant

    def good(self, word, capitalization=True, nosug=True, affix=True, compound=True):
        key = (word, capitalization, nosug, affix, compound)
        res = self._cache.get(key)
        if res is None:
            res = self._cache[key] = any(True for _ in self.forms(word, capitalization, nosug, affix, compound))
        return res

    def cuts(self, text):
        """(left, rest) of all break points."""
        for pat in self.aff.BREAK:
            core = pat
            at_start = at_end = False
            if core.startswith('^'):
                core, at_start = core[1:], True
            if core.endswith('$'):
                core, at_end = core[:-1], True
            n = len(core)
            for i in range(len(text) - n + 1):
                if not text.startswith(core, i):
                    continue
                if at_start and i or at_end and i + n != len(text):
                    continue
                if not (at_start or at_end) and (i == 0 or i + n == len(text)):
                    continue
                yield text[:i], text[i + n:]

    def accepts(self, word, capitalization=True, nosug=True):
        aff = self.aff
        if self.all_forbidden(word):
            return False
        if aff.ICONV:
            word = convert(aff.ICONV, word)
        word = aff.ignored(word)
        if is_number(word):
            return True
        memo = {}

        def ok(part):
            return not part or self.good(part, capitalization, nosug)

        def breakable(text, left):
            key = (text, left)
            if key not in memo:
                memo[key] = ok(text) or (left > 0 and any(ok(a) and breakable(b, left - 1) for a, b in self.cuts(text)))
            return memo[key]
        return breakable(word, 10)

    # -- suggestions

    def suggest(self, word):
        return [text for text, _ in self.suggestions(word)]

    def suggestions(self, word):
        from . import refsuggest
        return refsuggest.suggestions(self, word)


def rule_matches(rule, flagsets):
    """Does some choice of one flag per part spell a sequence matched by the rule?"""
    states = {0}

    def closure(states):
        todo, res = list(states), set(states)
        while todo:
            s = todo.pop()
            if s < len(rule) and rule[s][1] in ('*', '?') and s + 1 not in res:
                res.add(s + 1)
                todo.append(s + 1)
        return res
    states = closure(states)
    for flags in flagsets:
        states = closure({s if rule[s][1] == '*' else s + 1 for s in states if s < len(rule) and rule[s][0] in flags})
    return len(rule) in states


def replacements(word, rep):
    """Texts with one REP pattern applied once, in order."""
    if len(word) < 2:
        return
    for pat, repl in rep:
        core, at_start, at_end = pat, False, False
        if core.startswith('^'):
            core, at_start = core[1:], True
        if core.endswith('$'):
            core, at_end = core[:-1], True
        pos = 0
        while True:
            pos = word.find(core, pos)
            if pos == -1 or not core:
                break
            if (at_start and pos != 0) or (at_end and pos + len(core) != len(word)):
                pos += 1
                continue
            yield word[:pos] + repl.replace('_', ' ') + word[pos + len(core):]
            pos += len(core)
