"""C23: threads and interleaved iterators."""
import itertools
import os
import shutil

from ..sched import Schedule, BLOCKED
from .c22 import Expected
from . import contexts
from .common import *
from .pool import POOL


# -- iterators advanced in turns within one thread

def iterators(tier):
    for name, (_, _, asked) in POOL.items():
        for a, b in itertools.product(asked, repeat=2):
            yield name, a, b


def run_iterators(ctx, config):
    """Every interleaving of the first 3 steps of two iterators (4: thorough), then both are drained in both orders."""
    name, first, second = config
    lookups, suggests = Expected.get(ctx, name)
    d = ctx.load(*POOL[name][:2])
    steps = 3 if ctx.tier == 'quick' else 5
    for n1 in range(min(steps, len(suggests[first])) + 1):
        for n2 in range(min(steps, len(suggests[second])) + 1):
            for order in set(itertools.permutations('1' * n1 + '2' * n2)):
                for drained in (0, 1):
                    its = [d.suggest(first), d.suggest(second)]
                    got = [[], []]
                    for who in order:
                        got[int(who) - 1].append(ctx.call('next', next, its[int(who) - 1], None))
                        ctx.states += 1
                    for i in (drained, 1 - drained):
                        got[i] += ctx.call('drain', list, its[i])
                        ctx.states += 1
                    for i, w in enumerate((first, second)):
                        if got[i] != suggests[w]:
                            ctx.fail('interleaved iterators disturb each other', suggests[w], got[i], word=w,
                                     order=''.join(order), other=(second, first)[i])


def three(tier):
    for name, (_, _, asked) in POOL.items():
        for a in asked:
            yield name, a


def run_three(ctx, config):
    """Steps of an iterator with whole queries and analyses in between, each of them at each step."""
    name, word = config
    lookups, suggests = Expected.get(ctx, name)
    d = ctx.load(*POOL[name][:2])
    for other in POOL[name][2]:
        for at in range(min(6, len(suggests[word])) + 1):
            it = d.suggest(word)
            got = [ctx.call('next', next, it) for _ in range(at)]
            ctx.states += at
            forms = d.lookuper.good_forms(other)
            ctx.call('next', next, forms, None)
            if ctx.lookup(d, other) != lookups[other]:
                ctx.fail('lookup during an unfinished correction', lookups[other], not lookups[other])
            res = ctx.suggest(d, other)
            if res != suggests[other]:
                ctx.fail('suggest during an unfinished correction', suggests[other], res)
            got += ctx.call('drain', list, it)
            if got != suggests[word]:
                ctx.fail('an iterator is disturbed by other queries', suggests[word], got, other=other, at=at)


# -- threads

def operation(kind, word):
    if kind == 'lookup':
        return lambda d: d.lookup(word)
    if kind == 'suggest':
        return lambda d: list(d.suggest(word))
    raise ValueError(kind)


PARTS = 8

#: words of each dictionary whose queries run at the same time: different casings, pieces and corrections
THREADS = {
    'affixes': ['abst', 'Ab', 'xab', 'bsa'], 'tables': ['ab-ab', 'fab', 'ùb', 'bop'], 'phonetic': ['abk', 'Cats', 'bakt'],
    'compounds': ['klmnop', 'Efgh', 'cdab', 'klxmnop'], 'sharp': ['MASSE', 'mas', 'STRASSE'], 'turkic': ['ILK', 'ilkk'],
    'ngram': ['stuck', 'tromped'], 'aliases': ['abst', 'xx'], 'other-flags': ['abs', 'xab'],
}


def lookups_(tier):
    for name, asked in THREADS.items():
        for a, b in itertools.product(asked, repeat=2):
            yield name, ('lookup', a), ('lookup', b), 'line', 1
        for a, b in itertools.product(asked if tier == 'thorough' else asked[:2], repeat=2):
            yield name, ('lookup', a), ('lookup', b), 'opcode', 1
            if tier == 'thorough' or a != b:
                yield name, ('lookup', a), ('suggest', b), 'line', 1


def suggests_(tier):
    for name, asked in THREADS.items():
        for a, b in itertools.product(asked, repeat=2):
            if tier == 'thorough' or (a, b) == (asked[-1], asked[-2]):
                yield name, ('suggest', a), ('suggest', b), 'line', 'places'
            if tier == 'thorough' or (a, b) == (asked[-1], asked[0]):
                yield name, ('suggest', a), ('lookup', b), 'line', 'places'


def both(tier):
    """two preemptions: the second thread is interrupted as well"""
    for name, asked in THREADS.items():
        for a, b in itertools.product(asked, repeat=2):
            if tier == 'thorough' or (a, b) == (asked[-1], asked[0]):
                yield name, ('lookup', a), ('lookup', b), 'call', 2 if tier == 'thorough' else 'both-places'
            if tier == 'thorough' and (a, b) == (asked[-1], asked[-2]):
                yield name, ('suggest', a), ('suggest', b), 'line', 'both-places'


def parts(configs):
    """The interruption points of each pair are divided between workers."""
    return lambda tier: (c + (part,) for c in configs(tier) for part in range(PARTS))


def expected(ctx, name, op):
    lookups, suggests = Expected.get(ctx, name)
    return (lookups if op[0] == 'lookup' else suggests)[op[1]]


def chosen(places):
    """Numbers of the scheduling points: the first two and the last visits of each source line."""
    visits = {}
    for no, place in enumerate(places, 1):
        visits.setdefault(place, []).append(no)
    return sorted({no for v in visits.values() for no in (*v[:2], v[-1])})


def run_threads(ctx, config):
    from spylls.hunspell import Dictionary
    name, first, second, points, bound, part = config
    wanted = [('answer', expected(ctx, name, op)) for op in (first, second)]
    path = ctx.files(*POOL[name][:2])
    ctx.texts['main'] = dict(zip(('aff', 'dic'), POOL[name][:2]))
    timeouts = 0

    def one(*budgets, record=False):
        nonlocal timeouts
        d = Dictionary.from_files(path)
        schedule = Schedule([lambda: operation(*first)(d), lambda: operation(*second)(d)], budgets, points,
                            BLOCKED if timeouts < 3 else 0.01, record)
        got = ctx.call('threads', lambda *_: schedule.run(), first, second, points, budgets)
        timeouts += schedule.timeouts
        ctx.states += 1
        ctx.transitions += len(budgets) + 1      # runs between the points where a thread was interrupted
        if got != wanted:
            ctx.fail('threads disturb each other', wanted, got, first=first, second=second, points=points, schedule=budgets)
        return schedule
    alone = one(record=True)
    firsts, seconds = (range(1, n + 1) for n in alone.counts)
    if bound in ('places', 'both-places'):
        firsts, seconds = map(chosen, alone.places)
    for k in list(firsts)[part::PARTS]:
        if bound in (2, 'both-places'):
            for j in seconds:
                one(k, j)
        else:
            one(k)
    shutil.rmtree(os.path.dirname(path))


def backgrounds(tier):
    for kernel, chosen in contexts.everything(tier):
        if tier == 'thorough' or len(chosen) < 2:
            yield kernel, chosen


def run_backgrounds(ctx, config):
    """Iterators over all the misspellings advanced in turns, with lookups in between."""
    kernel, chosen_ = config
    text, entries, lookups, suggests = contexts.build(contexts.EVERY, kernel, chosen_)
    d = ctx.load(text, entries)
    alone = {w: ctx.suggest(ctx.load(text, entries), w) for w in suggests}
    accepted = {w: ctx.lookup(d, w) for w in lookups[:20]}
    for turn in (1, 2):
        its = {w: d.suggest(w) for w in suggests}
        got = {w: [] for w in suggests}
        live = list(suggests)
        asked = itertools.cycle(accepted)
        while live:
            for w in list(live):
                step = ctx.call('next', lambda it: list(itertools.islice(it, turn)), its[w])
                ctx.states += 1
                got[w] += step
                if len(step) < turn:
                    live.remove(w)
                other = next(asked)
                if ctx.lookup(d, other) != accepted[other]:
                    ctx.fail('lookup during unfinished corrections', accepted[other], not accepted[other])
        for w in suggests:
            if got[w] != alone[w]:
                ctx.fail('interleaved iterators disturb each other', alone[w], got[w], word=w)


SPACES = [
    Space('backgrounds', '30 small dictionaries x 49 features (thorough: pairs); iterators over all the misspellings in turns', backgrounds,
          run_backgrounds),
    Space('iterators', 'every interleaving of up to 3 (thorough 5) steps of two iterators, both orders of draining; '
          'every ordered pair of words of 10 dictionaries', iterators, run_iterators),
    Space('during', 'whole queries at each of the first 6 steps of an iterator; every pair of words of 10 dictionaries', three, run_three),
    Space('threads-lookup', 'two threads, the first one interrupted at every line and every opcode of its lookup', parts(lookups_),
          run_threads),
    Space('threads-suggest', 'two threads, the first one interrupted at the first two and the last visits of every line of its suggest',
          parts(suggests_), run_threads),
    Space('threads-both', 'two threads, both interrupted: every pair of the first two and the last visits of calls and '
          'returns of two lookups (thorough: every pair, and pairs of lines of two suggests)', parts(both), run_threads),
]
