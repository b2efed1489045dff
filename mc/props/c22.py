"""C22: answers do not depend on history, other dictionaries or the process."""
import itertools
import json
import os
import shutil
import subprocess
import sys

from .. import explore
from . import contexts
from .common import *
from .pool import POOL


def attempt(fn):
    """A call that is allowed to fail."""
    try:
        fn()
    except Exception:       # pylint: disable=broad-except
        pass


def abandoned(iterator, steps):
    for _ in itertools.islice(iterator, steps):
        pass
    iterator.close() if hasattr(iterator, 'close') else None


#: operations applied between the queries; w is a word, keep holds objects alive
OPERATIONS = {
    'lookup': lambda d, w, keep: d.lookup(w),
    'lookup-upper': lambda d, w, keep: d.lookup(w.upper()),
    'lookup-title': lambda d, w, keep: d.lookup(w.capitalize()),
    'lookup-exact': lambda d, w, keep: d.lookuper(w, capitalization=False),
    'lookup-exact-title': lambda d, w, keep: d.lookuper(w.capitalize(), capitalization=False),
    'lookup-suggestable': lambda d, w, keep: d.lookuper(w, allow_nosuggest=False),
    'suggest': lambda d, w, keep: list(d.suggest(w)),
    'suggest-1': lambda d, w, keep: abandoned(d.suggest(w), 1),
    'suggest-2-kept': lambda d, w, keep: keep.append((it := d.suggest(w), list(itertools.islice(it, 2)))),
    'suggest-0': lambda d, w, keep: keep.append(d.suggest(w)),
    'suggest-upper': lambda d, w, keep: list(d.suggest(w.upper())),
    'suggestions-1': lambda d, w, keep: abandoned(d.suggester.suggestions(w), 1),
    'forms': lambda d, w, keep: list(d.lookuper.good_forms(w)),
    'forms-1': lambda d, w, keep: abandoned(d.lookuper.good_forms(w), 1),
    'failed-lookup': lambda d, w, keep: attempt(lambda: d.lookup(None)),
    'failed-suggest': lambda d, w, keep: attempt(lambda: list(d.suggest(3))),
    'failed-parts': lambda d, w, keep: attempt(lambda: d.lookup([w])),
}


class Expected:
    """Answers of fresh dictionaries, each query asked first; lookups and sets of suggestions agree with the model."""
    cache = {}

    @classmethod
    def get(cls, ctx, name):
        if name not in cls.cache:
            a, b, asked = POOL[name]
            model = Model(a, b)
            lookups, suggests = {}, {}
            for w in asked:
                lookups[w] = ctx.lookup(ctx.load(a, b), w)
                if lookups[w] != model.accepts(w):
                    ctx.fail('lookup differs from the model', model.accepts(w), lookups[w])
                suggests[w] = ctx.suggest(ctx.load(a, b), w)
                if sorted(suggests[w]) != sorted(model.suggest(w)):
                    ctx.fail('suggestions differ from the model', model.suggest(w), suggests[w])
            cls.cache[name] = lookups, suggests
        return cls.cache[name]


def probe(ctx, d, name, history, queries=None):
    lookups, suggests = Expected.get(ctx, name)
    for w in queries or lookups:
        got = ctx.lookup(d, w)
        if got != lookups[w]:
            ctx.fail('the answer depends on the calls made before', lookups[w], got, history=history)
        got = ctx.suggest(d, w)
        if got != suggests[w]:
            ctx.fail('suggestions depend on the calls made before', suggests[w], got, history=history)


def step(ctx, d, op, w, keep):
    ctx.states += 1
    ctx.call(op, OPERATIONS[op], d, w, keep)


def histories(tier):
    """all sequences of two operations on every word (thorough: all triples of operations)"""
    for name in POOL:
        for op1 in OPERATIONS:
            yield name, (op1,)
            for op2 in OPERATIONS:
                yield name, (op1, op2)
                if tier == 'thorough':
                    for op3 in OPERATIONS:
                        yield name, (op1, op2, op3)


def run_histories(ctx, config):
    name, ops = config
    a, b, asked = POOL[name]
    Expected.get(ctx, name)
    for w in asked:
        d = ctx.load(a, b)
        keep = []
        for op in ops:
            step(ctx, d, op, w, keep)
        near_ = asked if ctx.tier == 'thorough' else [w] + [x for x in asked if x.lower() == w.lower() and x != w] + asked[:3]
        probe(ctx, d, name, [(op, w) for op in ops], dict.fromkeys(near_))


def pairs(tier):
    """every operation on a word, then every operation on another word"""
    for name in POOL:
        for op1 in OPERATIONS:
            for w in POOL[name][2]:
                yield name, op1, w


def run_pairs(ctx, config):
    name, op, w = config
    a, b, asked = POOL[name]
    Expected.get(ctx, name)
    d = ctx.load(a, b)
    for other in asked:
        if other == w:
            continue
        keep = []
        step(ctx, d, op, w, keep)
        step(ctx, d, op, other, keep)
        probe(ctx, d, name, [(op, w), (op, other)], [w, other])


def long_histories(tier):
    for name in POOL:
        for kind in ('lookup', 'suggest', 'both', 'abandoned', 'rounds'):
            yield name, kind


def run_long(ctx, config):
    name, kind = config
    a, b, asked = POOL[name]
    lookups, suggests = Expected.get(ctx, name)
    d = ctx.load(a, b)
    letters = sorted({c for w in asked for c in w.lower()})[:6]
    texts = list(words(letters, 5 if kind == 'lookup' else 3 if kind == 'abandoned' or ctx.tier == 'thorough' else 2, 1))
    if kind == 'rounds':
        for no in range(30):
            probe(ctx, d, name, ['%d rounds of all the queries' % no])
        return
    for text in texts + texts[::-1]:
        if kind in ('lookup', 'both'):
            ctx.lookup(d, text)
        if kind in ('suggest', 'both'):
            ctx.suggest(d, text)
        if kind == 'abandoned':
            step(ctx, d, 'suggest-1', text, [])
    probe(ctx, d, name, ['%s of all texts over %s' % (kind, letters)])


def resumed(tier):
    """corrections taken in parts, other calls in between"""
    for name in POOL:
        for op in OPERATIONS:
            for w in POOL[name][2]:
                yield name, op, w


def run_resumed(ctx, config):
    name, op, w = config
    a, b, asked = POOL[name]
    lookups, suggests = Expected.get(ctx, name)
    d = ctx.load(a, b)
    for other in asked:
        for taken in range(min(len(suggests[w]) + 1, 4)):
            def parts():
                it = iter(d.suggest(w))
                got = list(itertools.islice(it, taken))
                step(ctx, d, op, other, [])
                return got + list(it)
            got = ctx.call('resumed', parts)
            if got != suggests[w]:
                ctx.fail('suggestions depend on calls made while they are taken', suggests[w], got, history=[(w, taken), (op, other)])
        probe(ctx, d, name, [('resumed', w), (op, other)], [other])


def neighbours(tier):
    """other dictionaries loaded and used before, after or in between"""
    for name in POOL:
        for other in POOL:
            for when in ('before', 'after', 'between', 'same-path'):
                yield name, other, when


def run_neighbours(ctx, config):
    name, other, when = config
    a, b, asked = POOL[name]
    Expected.get(ctx, name)
    Expected.get(ctx, other)
    history = ['%s used %s' % (other, when)]
    if when == 'same-path':
        from spylls.hunspell import Dictionary
        path = ctx.files(POOL[other][0], POOL[other][1])
        o = ctx.call('from_files', Dictionary.from_files, path)
        probe(ctx, o, other, history)
        for ext, text in (('.aff', a), ('.dic', b)):
            with open(path + ext, 'w', encoding='utf-8') as f:
                f.write(text)
        d = ctx.call('from_files', Dictionary.from_files, path)
        shutil.rmtree(os.path.dirname(path))
        probe(ctx, d, name, history)
        probe(ctx, o, other, history)
        return
    if when == 'before':
        o = ctx.load(*POOL[other][:2], label='other')
        for w in POOL[other][2] + asked:
            ctx.suggest(o, w)
            ctx.lookup(o, w)
        probe(ctx, ctx.load(a, b), name, history)
        probe(ctx, o, other, history)
        return
    d = ctx.load(a, b)
    if when == 'between':
        probe(ctx, d, name, [])
    o = ctx.load(*POOL[other][:2], label='other')
    for w in POOL[other][2]:
        ctx.suggest(o, w)
        ctx.lookup(o, w)
    probe(ctx, d, name, history)
    probe(ctx, o, other, history)


def processes(tier):
    """hash seeds, interpreter options, working folders, orders of loading"""
    count = len(POOL)
    orders = [list(range(count)), list(range(count))[::-1]] + [[i] for i in range(count)] + [[0] * 3 + [2] * 3]
    for seed in range(8 if tier == 'quick' else 40):
        for order in orders[:2] if tier == 'quick' else orders:
            yield seed, (), 'C.UTF-8', tuple(order)
    for order in orders:
        yield 1, (), 'C.UTF-8', tuple(order)
    for options in ((), ('-O',), ('-OO',), ('-I',), ('-X', 'utf8=0'), ('-X', 'dev')):
        for locale in ('C', 'C.UTF-8', 'POSIX', 'tr_TR.UTF-8'):
            yield 0, options, locale, tuple(orders[0])


def run_processes(ctx, config):
    seed, options, locale, order = config
    names = list(POOL)
    scratch = os.path.join(ctx.scratch, 'probe')
    os.makedirs(scratch)
    task = dict(repo=explore.REPO, scratch=scratch, order=order,
                dictionaries=[[POOL[n][0], POOL[n][1], POOL[n][2], POOL[n][2]] for n in names])
    env = {**os.environ, 'PYTHONHASHSEED': str(seed), 'LC_ALL': locale}
    env.pop('PYTHONUTF8', None)
    done = subprocess.run([sys.executable, '-B', *options, os.path.join(explore.VERIF, 'mc', 'probe.py')],
                          input=json.dumps(task), capture_output=True, text=True, env=env, cwd=scratch, timeout=300)
    shutil.rmtree(scratch)
    ctx.op = ('process', seed, options, locale, order)
    if done.returncode:
        ctx.fail('queries fail in a process of their own', 'answers', done.stderr[-800:])
    for i, accepted, offered, forms in json.loads(done.stdout):
        lookups, suggests = Expected.get(ctx, names[i])
        a, b, asked = POOL[names[i]]
        here = ctx.load(a, b)
        for w, got, got_list, got_forms in zip(asked, accepted, offered, forms):
            ctx.states += 3
            ctx.transitions += 3 + len(got_list)
            ctx.op = ('process', seed, options, locale, order, names[i], w)
            if got != lookups[w]:
                ctx.fail('lookup depends on the process', lookups[w], got)
            if got_list != suggests[w]:
                ctx.fail('suggestions depend on the process', suggests[w], got_list)
            if len(got_forms) != len(list(here.lookuper.good_forms(w))):
                ctx.fail('analyses depend on the process', len(list(here.lookuper.good_forms(w))), got_forms)


def run_backgrounds(ctx, config):
    """The same questions in two orders, twice, with abandoned corrections in between."""
    kernel, chosen = config
    text, entries, lookups, suggests = contexts.build(contexts.EVERY, kernel, chosen)
    one, two = ctx.load(text, entries), ctx.load(text, entries, 'other')
    answers = {('lookup', w): ctx.lookup(one, w) for w in lookups}
    for w in suggests:
        answers['suggest', w] = ctx.suggest(one, w)
        ctx.call('suggest-1', abandoned, one.suggest(w), 1)
    for d, order in ((two, 'opposite order'), (one, 'second time')):
        for kind, w in list(answers)[::-1]:
            got = (ctx.lookup if kind == 'lookup' else ctx.suggest)(d, w)
            if got != answers[kind, w]:
                ctx.fail('the answer depends on the calls made before', answers[kind, w], got, history=[order])


#: values of directives for dictionaries that differ in one of them
VALUES = [
    ('', rule('SFX', 'S', '', 's', '.'), rule('SFX', 'S', '', 'es', '.'), rule('SFX', 'S', 'k', 's', 'k'), rule('SFX', 'S', '', 's', '[^k]', 'C')),
    ('', rule('PFX', 'P', '', 're', '.'), rule('PFX', 'P', '', 'un', '.'), rule('PFX', 'P', 'w', 'v', 'w')),
    ('', table('PHONE', ['PH F', 'F F', 'N N', 'B B']), table('PHONE', ['PH P', 'F K', 'N N', 'B V']),
                                                 table('PHONE', ['N X', 'O O', 'W O', 'R R']), table('PHONE', ['S K', 'R K', 'A O', 'T T', 'E E', 'P P'])),
    ('', table('REP', ['x wo', 'fi pho']), table('REP', ['x bi', 'fi fo']), table('REP', ['x wo', 'fi _', '^yy no'])),
    ('', table('MAP', ['oy', 'ıi']), table('MAP', ['o(ph)', 'ky']), table('MAP', ['o4', '(yy)n'])),
    ('KEY |', 'KEY o4|p5', 'KEY k4', 'KEY r4k|yn'), ('', 'TRY abk', 'TRY pier', 'TRY o-'),
    ('', table('ICONV', ['ö o', 'w v']), table('ICONV', ['ö e', 'v w'])), ('', table('OCONV', ['o ö', 'work W']), table('OCONV', ['o 0', 'e 3'])),
    ('', 'IGNORE ~', 'IGNORE o', 'IGNORE k~'), ('', 'LANG tr_TR', 'LANG de_DE', 'CHECKSHARPS'),
    ('', 'BREAK 0', table('BREAK', ['o']), table('BREAK', ['-', '^w', 'k$'])),
    ('COMPOUNDMIN 1', 'COMPOUNDFLAG C\nCOMPOUNDMIN 1', table('COMPOUNDRULE', ['XY']), table('COMPOUNDRULE', ['Y*X']), 'COMPOUNDFLAG X', 'COMPOUNDBEGIN X\nCOMPOUNDEND C'),
    ('COMPOUNDFLAG C', 'COMPOUNDFLAG C\nCOMPOUNDMIN 2', 'COMPOUNDFLAG C\nCOMPOUNDMIN 5', 'COMPOUNDFLAG C\nCHECKCOMPOUNDDUP', 'COMPOUNDFLAG C\nCHECKCOMPOUNDTRIPLE',
     'COMPOUNDFLAG C\n' + table('CHECKCOMPOUNDPATTERN', ['k b'])),
    ('', 'NOSUGGEST N', 'FORBIDDENWORD N', 'KEEPCASE N', 'ONLYINCOMPOUND N', 'NEEDAFFIX N', 'NOSUGGEST K', 'KEEPCASE K'),
    ('MAXNGRAMSUGS 0', 'MAXNGRAMSUGS 1', 'MAXDIFF 5\nMAXNGRAMSUGS 9', 'MAXDIFF 0\nMAXNGRAMSUGS 9', 'ONLYMAXDIFF\nMAXDIFF 0\nMAXNGRAMSUGS 9', 'NOSPLITSUGS\nMAXNGRAMSUGS 2'),
    tuple('\n'.join([rows, rule('SFX', 'S', '', 's', '.'), rule('PFX', 'P', '', 're', '.')]) for rows in ('', table('AF', ['SP', 'C']), table('AF', ['P', 'S']), table('AF', ['C', 'SP']))),
    tuple('FLAG %s\n' % kind + rule('SFX', flag, '', 's', '.') for kind in ('short', 'num') for flag in '12'),
]
SIMILAR = next(i for i, values in enumerate(VALUES) if 'MAXNGRAMSUGS 1' in values)
SIBLING = dic('work/SPXC', 'worker/YC', 'bird/XC', 'fone/SN', 'phone', 'istanbul/K', 'ib/C', 'straße', 'cafe/1', 'a b', 'no/N', 'hot-work', 'Paris/K', 'lock/2', 'w~ork', 'ibb/C', 'bbird/C', 'fo/NC')
SIBLING_WORDS = ['work', 'works', 'workes', 'rework', 'unwork', 'vork', 'WORK', 'workbird', 'birdwork', 'workerbird', 'ISTANBUL', 'İstanbul', 'STRASSE', 'cafes', 'recafe', 'relock', 'relocks', 'hot-work', 'wrk', 'rk', 'wor', 'wors', 'fones', 'phones', 'wo~rk', 'straSSe', 'wworkk', 'wwork', 'nonono', 'noono', 'birdworker', 'ibib', 'birdbird', 'ibird', 'FONE', 'workwork', 'workib',
                 'worknob', 'istanbuloib', 'caworkc', 'nos', 'bbbird', 'ibbird', 'workbbird', 'fonebird',
                 'w~ork', 'paris', 'fone', 'no', 'locks', 'bird-no']
SIBLING_TYPOS = ['wrok', 'fon', 'phon', 'bfone', 'wörk', 'strasse', 'ab', 'hot-wrok', 'WROK', 'paris', 'birdd', 'fonne', 'xrk', 'xrd', 'fine', 'fino', 'wyrk', 'wory', 'w4rk', 'wor4', 'wo4k', 'wor', 'wrk', 'phoe', 'yyo', 'wroks', 'wrokes', 'rewrok', 'unwrok', 'kwork', 'brdwork',
                 'workbrd', 'phonoko', 'workibrd', 'noo', 'wrkno', 'nofone', 'phoneno', 'fonewrk', 'istnbl', 'wkr', 'istantrass', 'partis', 'strapass', 'workrow', 'birkork', 'phonerafe']


def siblings(tier):
    for values in VALUES:
        for one, two in itertools.permutations(values, 2):
            yield one, two
    if tier == 'thorough':
        for one, two in itertools.permutations([v for values in VALUES for v in values[1:]], 2):
            yield one, two


def run_siblings(ctx, config):
    texts = [aff(lines if lines in VALUES[SIMILAR] else 'MAXNGRAMSUGS 0\n' + lines) for lines in config]
    models = [Model(a, SIBLING) for a in texts]
    loaded = [None, None]

    def ask(i, when, only=None):
        for w in SIBLING_WORDS if only is None else SIBLING_WORDS[only:only + 1]:
            got = ctx.lookup(loaded[i], w)
            if got != models[i].accepts(w):
                ctx.fail('lookup depends on another dictionary (%s)' % when, models[i].accepts(w), got)
        for w in SIBLING_TYPOS if only is None else SIBLING_TYPOS[only:only + 1]:
            got = ctx.suggest(loaded[i], w)
            if sorted(got) != sorted(models[i].suggest(w)):
                ctx.fail('suggestions depend on another dictionary (%s)' % when, models[i].suggest(w), got)
    loaded[0] = ctx.load(texts[0], SIBLING, label='one')
    ask(0, 'alone')
    loaded[1] = ctx.load(texts[1], SIBLING, label='two')
    ask(1, 'loaded later')
    for n in range(max(len(SIBLING_WORDS), len(SIBLING_TYPOS))):
        ask(n % 2, 'in turn', n)
        ask(1 - n % 2, 'in turn', n)


SPACES = [
    Space('backgrounds', contexts.EVERYTHING + '; all the queries in two orders and again', contexts.everything, run_backgrounds),
    Space('histories', 'all sequences of up to 2 (thorough 3) of 17 operations on each word of 10 dictionaries, then the queries',
          histories, run_histories),
    Space('pairs', 'every operation on every ordered pair of words, then both queries', pairs, run_pairs),
    Space('resumed', 'corrections of each word taken in two parts with each operation on each word in between', resumed, run_resumed),
    Space('long-histories', 'all texts over 6 letters up to 5 looked up, up to 3 with abandoned and up to 2 with full corrections, 30 rounds of queries, then the queries',
          long_histories, run_long),
    Space('neighbours', 'every ordered pair of 10 dictionaries, the other one used before, after, between, or from the same path',
          neighbours, run_neighbours),
    Space('siblings', 'two dictionaries with the same entries and other values of one directive (thorough: of any two), for 18 directives with 2..8 values',
          siblings, run_siblings),
    Space('processes', '8 (40) hash seeds x orders of loading, interpreter options x locales', processes, run_processes),
]
