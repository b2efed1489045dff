"""C25: reported word forms explain the word."""
from .common import *
from . import c01, c06, contexts
from .pool import POOL


# -- what is reported, in comparable terms

def rule_key(affix):
    return affix.flag, affix.strip, affix.add, tuple(sorted(affix.flags))


def form_key(form):
    """An affix form: text, stem, entry, prefix rules, suffix rules."""
    entry_ = form.in_dictionary
    return (form.text, form.stem, entry_ and (entry_.stem, tuple(sorted(entry_.flags))),
            tuple(sorted(rule_key(a) for a in (form.prefix, form.prefix2) if a)),
            tuple(sorted(rule_key(a) for a in (form.suffix, form.suffix2) if a)))


def key(form):
    if hasattr(form, 'parts'):
        return tuple(form_key(p) for p in form.parts)
    return form_key(form)


def model_form_key(form, text):
    if form is None:
        return text, text, None, (), ()
    return (text, form.stem, (form.entry.stem, tuple(sorted(form.entry.flags))),
            tuple(sorted((a.flag, a.strip, a.add, tuple(sorted(a.flags))) for a in form.prefs)),
            tuple(sorted((a.flag, a.strip, a.add, tuple(sorted(a.flags))) for a in form.sufs)))


def model_key(kind, form, variant):
    if kind == 'affix':
        return model_form_key(form, variant)
    return tuple(model_form_key(part, text) for part, text in form)


# -- an analysis by itself

def rebuilt(form):
    """Texts obtained by attaching the affixes to the stem (the inner one of two is the one that fits)."""
    def orders(one, two):
        affixes = [a for a in (one, two) if a]
        return [affixes] if len(affixes) < 2 else [affixes, affixes[::-1]]

    for sufs in orders(form.suffix, form.suffix2):
        text = form.stem
        for a in sufs:
            if a.strip and not text.endswith(a.strip):
                break
            text = text[:len(text) - len(a.strip)] + a.add
        else:
            for prefs in orders(form.prefix, form.prefix2):
                full = text
                for a in prefs:
                    if a.strip and not full.startswith(a.strip):
                        break
                    full = a.add + full[len(a.strip):]
                else:
                    yield full


def explain(ctx, model, form, variants):
    if hasattr(form, 'parts'):
        joined = ''.join(p.text for p in form.parts)
        if joined not in variants:
            ctx.fail('the parts of a compound do not join to the word', sorted(variants), joined)
        if len(form.parts) < 2:
            ctx.fail('a compound of one part', 'parts', joined)
        parts = form.parts
    else:
        if form.text not in variants:
            ctx.fail('the analysis is of another word', sorted(variants), form.text)
        if form.in_dictionary is None:
            ctx.fail('an affix analysis without an entry', 'entry', key(form))
        parts = [form]
    for part in parts:
        texts = set(rebuilt(part))
        wanted = {part.text} | ({part.text + part.text[-1:]} if model.aff.SIMPLIFIEDTRIPLE else set())
        if not texts & wanted:
            ctx.fail('the stem and the affixes do not give the text', part.text, sorted(texts))
        if part.in_dictionary is not None:
            flags = set(part.in_dictionary.flags)
            for a in (part.prefix, part.prefix2, part.suffix, part.suffix2):
                if a:
                    flags |= set(a.flags)
            for a in (part.prefix, part.prefix2, part.suffix, part.suffix2):
                if a and a.flag not in flags:
                    ctx.fail('the affix is permitted by nothing', sorted(flags), a.flag)
            if not any(e.stem == part.in_dictionary.stem for e in model.entries):
                ctx.fail('the analysis names no entry', 'entry', part.in_dictionary.stem)


OPTIONS = [
    {},
    {'capitalization': False},
    {'allow_nosuggest': False},
    {'affix_forms': False},
    {'compound_forms': False},
]
NAMES = {'capitalization': 'capitalization', 'allow_nosuggest': 'nosug', 'affix_forms': 'affix', 'compound_forms': 'compound'}


def check(ctx, aff_text, dic_text, asked, options=OPTIONS, whole=True):
    """whole: words aren't broken or converted, so the answer is about the word itself."""
    model = Model(aff_text, dic_text)
    d = ctx.load(aff_text, dic_text)
    for word in asked:
        some = None
        for given in options:
            forms = ctx.call('good_forms', lambda w: list(d.lookuper.good_forms(w, **given)), word)
            ctx.states += 1 + len(forms)
            exactly = given.get('capitalization') is False and not model.aff.FORCEUCASE
            variants = {word} if exactly else {word} | set(model.case.variants(word)[1])
            for form in forms:
                explain(ctx, model, form, variants)
            got = {key(f) for f in forms}
            expected = {model_key(*f) for f in model.forms(word, **{NAMES[k]: v for k, v in given.items()})}
            if got != expected:
                ctx.fail('analyses differ from the model (%r)' % given, sorted(expected - got, key=repr),
                         sorted(got - expected, key=repr))
            if not given:
                some = bool(got) and not model.all_forbidden(word)
        if whole and not ctx.lookup(d, word) == some:
            ctx.fail('the answer does not follow from the analyses', some, not some)


# -- spaces

def chains(tier):
    for config in c01.chains(tier):
        if tier == 'thorough' or config[-2] in ('YYY', 'YNY'):
            yield config


def run_chains(ctx, config):
    stem, s, t, p, q, cross, complex_prefixes = config
    check(ctx, aff('BREAK 0', 'COMPLEXPREFIXES' if complex_prefixes else '',
                   rule('SFX', 'S', '', 's', '.', s, cross[0]), rule('SFX', 'T', '', 't', '.', t, cross[1]),
                   rule('PFX', 'P', '', 'p', '.', p, cross[2]), rule('PFX', 'Q', '', 'q', '.', q, cross[2])),
          dic(entry('x', stem), 'y'), c01.CHAIN_WORDS, options=[{}])


def ambiguous(tier):
    """several derivations of one word: strips and additions over the letters of the stems"""
    stems = [('a', 'ab'), ('ab', 'ba'), ('a', 'aa'), ('ab', 'ab'), ('aab', 'b')]
    adds = ['', 'a', 'b', 'ab']
    for pair in stems:
        for s_strip in ('', 'b'):
            for s_add in adds:
                for t_add in adds:
                    for p_add in ('a', 'b', 'ab') if tier == 'thorough' else ('a', 'ab'):
                        for s_flags in ('', 'T', 'P'):
                            yield pair, s_strip, s_add, t_add, p_add, s_flags


def run_ambiguous(ctx, config):
    pair, s_strip, s_add, t_add, p_add, s_flags = config
    check(ctx, aff('BREAK 0', rule('SFX', 'S', s_strip, s_add, '.', s_flags), 
                   rule('SFX', 'T', '', t_add, '[^b]' if t_add == 'b' else '.'),
                   rule('PFX', 'P', '', p_add, '.', 'T')),
          dic(pair[0] + '/SP', pair[1] + '/ST'),
          words('ab', 5, 1), options=[{}])


def cases(tier):
    """homonyms in every case pattern with marks"""
    marks = ['', 'S', 'KS', 'NS', 'OS', 'F', 'FS', 'P', 'PSC']
    for one in case_patterns('ab'):
        for two in case_patterns('ab'):
            for m1 in marks:
                for m2 in marks if tier == 'thorough' else ('', 'S', 'F', 'KPS'):
                    yield one, two, m1, m2


CASED = sorted({w for x in ('ab', 'abs', 'pab', 'pabs', 'abab', 'abc') for w in case_patterns(x)})


def run_cases(ctx, config):
    one, two, m1, m2 = config
    check(ctx, aff('BREAK 0', 'KEEPCASE K', 'NEEDAFFIX N', 'NOSUGGEST O', 'FORBIDDENWORD F', 'COMPOUNDMIN 1',
                   'COMPOUNDFLAG C', rule('SFX', 'S', '', 's', '.'), rule('PFX', 'P', '', 'p', '.')),
          dic(entry(one, m1), entry(two, m2), 'c/C'), CASED)


def parts(tier):
    for config in c06.positions(tier):
        if config[2] in ('', 'ME', 'BE') or tier == 'thorough':
            yield config


def run_parts(ctx, config):
    a, b, c, head = config
    check(ctx, aff('BREAK 0', *c06.POS, 'COMPOUNDMIN 1', head), dic(entry('a', a), entry('b', b), entry('ab', c)),
          words('ab', 5, 1), options=[{}])


def affixed_parts(tier):
    for config in c06.affixes(tier):
        if config[3] == 'C' or tier == 'thorough':
            yield config


AFFIXED = [w for w in c06.AFFIXED_WORDS if len(w) < 5]


def run_affixed_parts(ctx, config):
    stem, s, p, other = config
    check(ctx, aff('BREAK 0', 'COMPOUNDFLAG C', *c06.POS[::2], 'COMPOUNDMIN 1', 'COMPOUNDPERMITFLAG X', 'COMPOUNDFORBIDFLAG Y',
                   rule('SFX', 'S', '', 's', '.', s), rule('PFX', 'P', '', 'p', '.', p)),
          dic(entry('x', 'SP' + stem), entry('y', other)), AFFIXED, options=[{}])


RULES = ['AB', 'A*B', 'AB?C', 'A*', 'AB*A', 'A?B?C?', 'ABC']


def ruled(tier):
    for rules in subsets(RULES, 1, 2):
        for flags in [('A', 'B', 'C'), ('AB', 'B', 'C'), ('A', 'AB', 'BC'), ('AC', 'B', 'A'), ('AX', 'B', 'C')]:
            for head in ('', 'COMPOUNDWORDMAX 2', 'COMPOUNDFLAG X'):
                yield rules, flags, head


def run_ruled(ctx, config):
    rules, flags, head = config
    check(ctx, aff('BREAK 0', 'COMPOUNDMIN 1', table('COMPOUNDRULE', rules), head),
          dic(*['%s/%s' % x for x in zip(('a', 'b', 'ab'), flags)]), words('ab', 5, 1), options=[{}, {'affix_forms': False}])


CHECKS = ['CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDTRIPLE', 'CHECKCOMPOUNDTRIPLE\nSIMPLIFIEDTRIPLE',
          'SIMPLIFIEDTRIPLE', 'FORCEUCASE U', 'CHECKCOMPOUNDREP\nREP 1\nREP b ab', table('CHECKCOMPOUNDPATTERN', ['a b']),
          table('CHECKCOMPOUNDPATTERN', ['a/U b'])]


def checked(tier):
    for heads in subsets(CHECKS, 1, 2):
        if len({h.split()[0] for h in heads}) < len(heads):
            continue
        for stems in [('a', 'b', 'aab/U'), ('aa', 'ab', 'b'), ('A', 'b', 'ba/U'), ('ab', 'bb', 'ba')]:
            yield heads, stems


def run_checked(ctx, config):
    heads, stems = config
    check(ctx, aff('BREAK 0', 'COMPOUNDMIN 1', 'COMPOUNDFLAG C', 'COMPOUNDWORDMAX 4', *heads),
          dic(*[s + ('C' if '/' in s else '/C') for s in stems]),
          list(words('ab', 6, 1)) + [w.capitalize() for w in words('ab', 4, 1)] + [w.upper() for w in words('ab', 4, 1)],
          options=[{}])


def pool(tier):
    for name in POOL:
        for i, _ in enumerate(POOL[name][2]):
            yield name, i


def run_pool(ctx, config):
    name, i = config
    a, b, asked = POOL[name]
    word = asked[i]
    more = {word, word.upper(), word.capitalize(), word + 's', word + 't', 'p' + word, word[1:], word[:-1], word + word}
    more |= {word + other for other in asked}
    check(ctx, a, b, sorted(w for w in more if w), whole=False)


def run_backgrounds(ctx, config):
    kernel, chosen = config
    text, entries, lookups, _ = contexts.build(contexts.EVERY, kernel, chosen)
    check(ctx, text, entries, lookups, options=OPTIONS if len(chosen) < 2 else OPTIONS[:1], whole=False)


SPACES = [
    Space('backgrounds', contexts.EVERYTHING + '; analyses of all the words', contexts.everything, run_backgrounds),
    Space('chains', 'all flag sets over two suffixes and two prefixes, every word of up to 2 prefix and 3 suffix letters '
          'around the stem', chains, run_chains),
    Space('ambiguous', 'two stems and affixes over the same letters, all words over {a,b} up to 5: every derivation',
          ambiguous, run_ambiguous),
    Space('cases', 'two homonyms in every case pattern with every pair of marks; forms in every case pattern; all options '
          'of good_forms', cases, run_cases),
    Space('parts', 'three stems with every set of position flags, all words over {a,b} up to 5', parts, run_parts),
    Space('affixed-parts', 'compounds of affixed parts with permit, forbid and position flags', affixed_parts,
          run_affixed_parts),
    Space('rules', 'one or two compound rules, ambiguous stems, all words over {a,b} up to 5', ruled, run_ruled),
    Space('checks', 'one or two compound checks, all words over {a,b} up to 6, cased words up to 4', checked, run_checked),
    Space('pool', 'dictionaries using every part of the library, words and their neighbours, all options', pool, run_pool),
]
