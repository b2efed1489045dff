"""Reference model of suggestions: see ref.py."""

import itertools

from .ref import NO, INIT, ALL, HUH, HUHINIT, convert, replacements, attach, cond_holds

EDIT_LIMIT = 15
PHONET_LIMIT = 2
ROOTS, GUESSES = 100, 200


# --------------------------------------------------------------------------- edits

def swaps(w):
    for i in range(len(w) - 1):
        yield w[:i] + w[i + 1] + w[i] + w[i + 2:]
    if len(w) == 4:
        yield w[1] + w[0] + w[3] + w[2]
    if len(w) == 5:
        yield w[1] + w[0] + w[2] + w[4] + w[3]
        yield w[0] + w[2] + w[1] + w[4] + w[3]


def long_swaps(w):
    for i in range(len(w)):
        for dist in (2, 3, 4):
            if i + dist < len(w):
                letters = list(w)
                letters[i], letters[i + dist] = letters[i + dist], letters[i]
                yield ''.join(letters)


def neighbours(w, key):
    for i, c in enumerate(w):
        if c.upper() != c:
            yield w[:i] + c.upper() + w[i + 1:]
        for k, kc in enumerate(key):
            if kc == c:
                for other in (key[k - 1:k], key[k + 1:k + 2]):
                    if other and other != '|':
                        yield w[:i] + other + w[i + 1:]


def extra(w):
    if len(w) > 1:
        for i in range(len(w)):
            yield w[:i] + w[i + 1:]


def forgotten(w, letters):
    for c in letters:
        for i in range(len(w) + 1):
            yield w[:i] + c + w[i:]


def moves(w):
    def moved(i, j):
        rest = w[:i] + w[i + 1:]
        return rest[:j] + w[i] + rest[j:]
    for i in range(len(w)):
        for dist in (2, 3, 4):
            if i + dist < len(w):
                yield moved(i, i + dist)
    for i in range(len(w) - 1, -1, -1):
        for dist in (2, 3, 4):
            if i - dist >= 0:
                yield moved(i, i - dist)


def wrong(w, letters):
    for c in letters:
        for i in range(len(w) - 1, -1, -1):
            if w[i] != c:
                yield w[:i] + c + w[i + 1:]


def doubled(w):
    # "vacacation": a pair of letters repeated
    if len(w) < 5:
        return
    for i in range(len(w) - 3):
        if w[i:i + 2] == w[i + 2:i + 4]:
            yield w[:i + 2] + w[i + 4:]


def mapped(w, groups):
    def rec(w, start):
        if start >= len(w):
            return
        for group in groups:
            for one in group:
                pos = w.find(one, start)
                if pos == -1:
                    continue
                for other in group:
                    if other != one:
                        text = w[:pos] + other + w[pos + len(one):]
                        yield text
                        yield from rec(text, pos + len(other))
    if len(w) > 1:
        yield from itertools.islice(rec(w, 0), 10000)


def halves(w):
    return [(w[:i], w[i:]) for i in range(1, len(w))]


def candidates(m, w):
    """(kind, words to check, texts to offer)"""
    aff = m.aff
    dash = '-' in aff.TRY or 'a' in aff.TRY
    up = m.case.upper(w)
    yield 'uppercase', [up], [up]
    for text in replacements(w, m.rep):
        yield 'replchars', [text], [text]
        if ' ' in text:
            yield 'replchars', [text], [text]
            yield 'replchars', text.split(' ', 2), [text]
    for a, b in halves(w):
        yield 'spaceword', [a + ' ' + b], [a + ' ' + b]
        if dash:
            yield 'spaceword', [a + '-' + b], [a + '-' + b]
    for kind, texts in (('mapchars', mapped(w, aff.MAP)), ('swapchar', swaps(w)), ('longswapchar', long_swaps(w)),
                        ('badcharkey', neighbours(w, aff.KEY)), ('extrachar', extra(w)),
                        ('forgotchar', forgotten(w, aff.TRY)), ('movechar', moves(w)),
                        ('badchar', wrong(w, aff.TRY)), ('doubletwochars', doubled(w))):
        for text in texts:
            yield kind, [text], [text]
    if not aff.NOSPLITSUGS:
        for a, b in halves(w):
            yield 'twowords', [a, b], [a + ' ' + b] + ([a + '-' + b] if dash else [])


# --------------------------------------------------------------------------- similarity

def common_start(a, b):
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    return n


def ngrams(n, a, b, weighted=False, mismatch=False, longer=False):
    if not b:
        return 0
    total = 0
    for size in range(1, n + 1):
        score = 0
        grams = [a[i:i + size] for i in range(len(a) - size + 1)]
        for i, gram in enumerate(grams):
            if gram in b:
                score += 1
            elif weighted:
                score -= 1 + (i == 0 or i == len(grams) - 1)
        total += score
        if score < 2 and not weighted:
            break
    penalty = 0
    if longer:
        penalty = len(b) - len(a) - 2
    elif mismatch:
        penalty = abs(len(b) - len(a)) - 2
    return total - max(penalty, 0)


def lcs(a, b):
    row = [0] * (len(b) + 1)
    for ca in a:
        new = [0]
        for j, cb in enumerate(b, 1):
            new.append(row[j - 1] + 1 if ca == cb else max(row[j], new[j - 1]))
        row = new
    return row[-1]


def root_score(miss, word):
    return ngrams(3, miss, word.lower(), longer=True) + common_start(miss, word.lower())


def entry_score(miss, entry):
    return max(root_score(miss, text) for text in [entry.stem, *entry.alts])


def rough(miss, word):
    return ngrams(len(miss), miss, word, mismatch=True) + common_start(miss, word)


def precise(miss, word, base, factor, phonetic):
    common = lcs(miss, word)
    if len(miss) == len(word) == common:
        return base + 2000
    bigrams = (ngrams(2, miss, word, weighted=True, mismatch=True) +
               ngrams(2, word, miss, weighted=True, mismatch=True))
    score = 2 * common - abs(len(miss) - len(word)) + common_start(miss, word)
    score += any(a == b for a, b in zip(miss, word.lower()))
    score += ngrams(4, miss, word, mismatch=True) + bigrams
    limit = (len(word) if phonetic else len(miss) + len(word)) * factor
    return score - 1000 if bigrams < limit else score


def threshold(miss):
    total = 0
    for start in (1, 2, 3):
        mangled = ''.join('*' if i >= start and (i - start) % 4 == 0 else c for i, c in enumerate(miss))
        total += ngrams(len(miss), miss, mangled, mismatch=True)
    return total // 3 - 1


def similar_forms(m, entry, miss):
    def rules(group):
        return [a for flag in entry.flags for a in m.aff.affixes[group].get(flag, ())]

    def fits(a):
        n = len(a.cond)
        if len(entry.stem) < n:
            return False
        if a.kind == 'SFX':
            return cond_holds(a.cond, entry.stem[len(entry.stem) - n:]) and miss.endswith(a.add)
        return cond_holds(a.cond, entry.stem[:n]) and miss.startswith(a.add)
    sufs = [a for a in rules('SFX') if fits(a)]
    prefs = [a for a in rules('PFX') if fits(a)]
    stem = entry.stem
    res = [stem]
    for s in sufs:
        res.append(stem[:max(len(stem) - len(s.strip), 0)] + s.add)
    for p in prefs:
        res.append(p.add + stem[len(p.strip):])
        for s in sufs:
            if p.cross and s.cross:
                res.append(p.add + stem[len(p.strip):max(len(stem) - len(s.strip), 0)] + s.add)
    return res


def pool(m):
    bad = {m.aff.FORBIDDENWORD, m.aff.NOSUGGEST, m.aff.ONLYINCOMPOUND} - {None}
    return [e for e in m.entries if not bad & e.flags]


def ngram_words(m, word, known):
    aff = m.aff
    if not aff.MAXNGRAMSUGS:
        return
    miss = word.lower()
    known = {k.lower() for k in known}
    scored = [(entry_score(miss, e), e.stem, e.no, e) for e in pool(m) if abs(len(e.stem) - len(miss)) <= 4]
    scored.sort(key=lambda r: r[:3], reverse=True)
    limit = threshold(miss)
    guesses = []
    for _, _, _, e in scored[:ROOTS]:
        for alt in e.alts:
            guesses.append((rough(miss, alt), alt, e.stem))
        for form in similar_forms(m, e, miss):
            guesses.append((rough(miss, form.lower()), form, form))
    guesses = sorted([g for g in guesses if g[0] > limit], reverse=True)[:GUESSES]
    factor = (10.0 - aff.MAXDIFF) / 5.0 if aff.MAXDIFF >= 0 else 1.0
    ranked = [(precise(miss, compared.lower(), score, factor, aff.PHONE is not None), real)
              for score, compared, real in guesses]
    ranked.sort(key=lambda r: -r[0])
    offered = 0
    stop = False
    for score, text in ranked:
        if stop and score <= 1000:
            return
        if score > 1000:
            stop = True
        elif score < -100:
            if offered or aff.ONLYMAXDIFF:
                return
            stop = True
        if not any(k in text for k in known):
            offered += 1
            yield text


# --------------------------------------------------------------------------- phonetic

def phonetic_code(rules, word):
    word = word.upper()
    res, pos = '', 0
    while pos < len(word):
        step = 1
        for rule in rules:
            if rule.units[0] != word[pos] and len(rule.units[0]) == 1:
                continue
            n = len(rule.units)
            if rule.start and pos:
                continue
            if pos + n > len(word) or not all(word[pos + i] in unit for i, unit in enumerate(rule.units)):
                continue
            used = n - rule.ahead
            if rule.end and pos + used != len(word):
                continue
            res += rule.repl
            step = max(used, 1)
            break
        pos += step
    return res


def phonetic_words(m, word):
    rules = m.aff.PHONE
    if not rules:
        return
    miss = word.lower()
    code = phonetic_code(rules, miss)
    scored = []
    for e in pool(m):
        if abs(len(e.stem) - len(miss)) <= 3 and entry_score(miss, e) > 2:
            scored.append((2 * ngrams(3, code, phonetic_code(rules, e.stem), longer=True), e.stem))
    scored.sort(reverse=True)
    final = []
    for score, stem in scored[:ROOTS]:
        low = stem.lower()
        final.append((score + 2 * lcs(miss, low) - abs(len(miss) - len(low)) + common_start(miss, low), stem))
    final.sort(key=lambda r: -r[0])
    for _, stem in final:
        yield stem


# --------------------------------------------------------------------------- the whole list

def suggestions(m, word):
    """List of (text, kind)."""
    aff, case = m.aff, m.case
    out, seen = [], []

    def good(text):
        return m.good(text, capitalization=False, nosug=False)

    def fine(text):
        return m.accepts(text) or all(m.accepts(part) for part in text.replace('-', ' ').split())

    def offer(text, kind, inclusion=False):
        keep = aff.KEEPCASE and m.has_flag(text, aff.KEEPCASE) and not (aff.CHECKSHARPS and 'ß' in text)
        orig = text
        if not keep:
            text = case.coerce(orig, cap)
            if text != orig and (m.any_forbidden(text) or not fine(text)):
                text = orig
            if cap in (HUH, HUHINIT) and ' ' in text:
                pos = text.index(' ')
                nxt = text[pos + 1:pos + 2]
                if pos < len(word) and nxt and nxt != word[pos] and nxt.upper() == word[pos]:
                    fixed = text[:pos + 1] + word[pos] + text[pos + 2:]
                    text = fixed if fine(fixed) else text
        if m.any_forbidden(text):
            return False
        if aff.OCONV:
            text = convert(aff.OCONV, text)
        if text in seen or inclusion and any(s.lower() in text.lower() for s in seen):
            return False
        seen.append(text)
        out.append((text, kind))
        return True

    cap, variants = case.corrections(word)
    if aff.FORCEUCASE and cap == NO:
        for text in case.capital(word):
            if good(text):
                offer(text.capitalize(), 'forceucase')
                return out

    strong = False
    for no, variant in enumerate(variants):
        if no and good(variant):
            offer(variant, 'case')
        compounds = True
        for compound_round, limit in ((False, EDIT_LIMIT), (True, aff.MAXCPDSUGS)):
            if compound_round and not compounds:
                break
            count = 0
            for kind, words, texts in candidates(m, variant):
                if count >= limit:
                    break
                if not all(m.good(w, False, False, affix=not compound_round, compound=compound_round) for w in words):
                    continue
                for text in texts:
                    if count < limit and offer(text, kind):
                        count += 1
                        strong = strong or kind in ('spaceword', 'uppercase', 'replchars')
                        if not compound_round:
                            if kind in ('uppercase', 'replchars', 'mapchars'):
                                compounds = False
                            if kind == 'spaceword':
                                return out
    if strong:
        return out

    if '-' in word and not any('-' in s for s in seen):
        chunks = word.split('-')
        for i, chunk in enumerate(chunks):
            if good(chunk):
                continue
            for text, _ in suggestions(m, chunk):
                text = '-'.join(chunks[:i] + [text] + chunks[i + 1:])
                if text not in seen and m.accepts(text, nosug=False):
                    seen.append(text)
                    out.append((text, 'dashes'))
            break

    for words, kind, limit in ((lambda: ngram_words(m, word, list(seen)), 'ngram', aff.MAXNGRAMSUGS),
                               (lambda: phonetic_words(m, word), 'phonet', PHONET_LIMIT)):
        count = 0
        for text in words():
            if not good(text):
                continue
            if offer(text, kind, inclusion=True):
                count += 1
            if count >= limit:
                break
    return out
