"""
Explicit-state exploration engine.

A property is a list of *spaces*.  A space enumerates a finite set of configurations (dictionaries, file
layouts, operation histories, schedules...), and ``run(ctx, config)`` drives the real library through its
public API over every input of the bound, comparing each answer with the oracle.  Nothing is sampled: the
spaces are enumerated completely, in parallel worker processes; the seed only rotates the order.

Counting: a *state* is a distinct (configuration, history of calls) reached, including the initial one of
each configuration, a *transition* is one step of the library made from a state (load, lookup, suggest,
each advance of a suggestion iterator), a *validated trace* is one
configuration whose complete run was compared with the oracle.
"""

import errno
import itertools
import json
import multiprocessing as mp
import os
import queue
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
HANG_SECONDS = 30           # CPU seconds one call may take
MEMORY_LIMIT = 3 << 30
LOADING = ('load', 'from_files', 'from_zip', 'from_system')


class Violation(Exception):
    """The oracle disagrees with the library."""


class Hang(BaseException):
    pass


class Exhausted(Exception):
    pass


def words(alphabet, upto, least=0):
    """All texts over the alphabet with least..upto symbols (symbols may be strings)."""
    for n in range(least, upto + 1):
        for letters in itertools.product(alphabet, repeat=n):
            yield ''.join(letters)


def subsets(items, least=0, most=None):
    items = list(items)
    for n in range(least, (len(items) if most is None else most) + 1):
        yield from itertools.combinations(items, n)


def case_patterns(word):
    seen = []
    for bits in itertools.product((False, True), repeat=len(word)):
        text = ''.join(c.upper() if b else c.lower() for c, b in zip(word, bits))
        if text not in seen:
            seen.append(text)
    return seen


def near(texts, alphabet):
    """The texts with one letter removed, replaced or inserted."""
    res = set()
    for t in texts:
        res.add(t)
        for i in range(len(t) + 1):
            res.add(t[:i] + t[i + 1:])
            for c in alphabet:
                res.add(t[:i] + c + t[i:])
                res.add(t[:i] + c + t[i + 1:])
    return res


class Space:
    """name, bounds (text), configs: function(tier) -> iterator, run: function(ctx, config)"""

    def __init__(self, name, bounds, configs, run, tiers=('quick', 'thorough')):
        self.name, self.bounds, self.configs, self.run, self.tiers = name, bounds, configs, run, tiers


class Ctx:
    def __init__(self, prop, scratch, tier):
        self.prop, self.scratch, self.tier = prop, scratch, tier
        self.states = self.transitions = self.traces = self.duplicates = 0
        self.accepted = self.rejected = self.offered = 0
        self.log = []           # calls of the current configuration (bounded)
        self.op = None
        self.opno = 0
        self.in_call = False
        self.texts = {}
        self._dirs = itertools.count()

    # -- calls of the library: every one is a transition, every result a state

    def call(self, name, fn, *args):
        self.op = (name,) + args
        self.opno += 1
        self.transitions += 1
        self.in_call = True
        try:
            res = fn(*args)
            if name in LOADING and not hasattr(res, 'lookup'):
                self.fail('no dictionary is given', 'a dictionary', repr(res))
            return res
        except Hang:
            self.fail('the call does not terminate', 'an answer', 'none within %s CPU seconds' % HANG_SECONDS)
        except Violation:
            raise
        except Exception as e:     # any exception of the library is an answer of the library
            self.fail('the call raises an exception', 'an answer', ''.join(
                traceback.format_exception_only(type(e), e)).strip() + ' at ' + where(e))
        finally:
            self.in_call = False

    def files(self, aff, dic, name='d', encoding='utf-8', subdir=None):
        """Writes the pair of files to a fresh scratch folder, returns path without extension."""
        folder = os.path.join(self.scratch, str(next(self._dirs)))
        if subdir:
            folder = os.path.join(folder, subdir)
        os.makedirs(folder)
        path = os.path.join(folder, name)
        for ext, text in (('.aff', aff), ('.dic', dic)):
            with open(path + ext, 'wb') as f:
                f.write(text if isinstance(text, bytes) else text.encode(encoding, 'surrogateescape'))
        return path

    def load(self, aff, dic, label='main'):
        """Loads a dictionary given as text."""
        self.texts[label] = {'aff': aff, 'dic': dic}
        path = self.files(aff, dic)
        from spylls.hunspell import Dictionary
        self.states += 1
        try:
            return self.call('load', Dictionary.from_files, path)
        finally:
            shutil.rmtree(os.path.dirname(path), ignore_errors=True)

    def lookup(self, dictionary, word):
        self.states += 1
        res = self.call('lookup', dictionary.lookup, word)
        if res is not True and res is not False:
            self.fail('lookup gives neither True nor False', 'True or False', repr(res))
        if res:
            self.accepted += 1
        else:
            self.rejected += 1
        return res

    def suggest(self, dictionary, word, limit=5000):
        self.states += 1
        res = self.call('suggest', lambda w: list(itertools.islice(dictionary.suggest(w), limit)), word)
        if len(res) >= limit:
            self.fail('suggest does not end', 'a finite list', 'more than %d suggestions' % limit)
        self.offered += len(res)
        self.transitions += len(res)    # each advance of the iterator
        return res

    def fail(self, what, expected, got, **more):
        raise Violation(json.dumps(dict(what=what, expected=expected, got=got, call=repr(self.op), **more),
                                   ensure_ascii=False, default=repr))

    def check(self, cond, what, expected='holds', got='does not', **more):
        if not cond:
            self.fail(what, expected, got, **more)


def where(e):
    frames = [f for f in traceback.extract_tb(e.__traceback__) if 'spylls' in f.filename]
    return '%s:%s' % (os.path.basename(frames[-1].filename), frames[-1].lineno) if frames else '?'


# --------------------------------------------------------------------------- running

def use_repo():
    sys.dont_write_bytecode = True
    sys.path[:] = [REPO] + [p for p in sys.path if p not in ('', REPO)]


def tier_of():
    tier = os.environ.get('VERIF_TIER', 'quick')
    return tier if tier in ('quick', 'thorough') else 'quick'


def run_within_memory(space, ctx, config):
    """What the library holds is given back before anything else is done about it."""
    try:
        space.run(ctx, config)
    except Exception as e:
        if not isinstance(e, MemoryError) and getattr(e, 'errno', None) != errno.ENOMEM:
            raise
        while e is not None:
            traceback.clear_frames(e.__traceback__)
            e = e.__context__
        raise Exhausted() from None


def run_config(ctx, space, config):
    """None or description of the violation."""
    ctx.texts = {}
    ctx.op = None
    ctx.states += 1             # the initial state: nothing loaded, nothing asked
    try:
        run_within_memory(space, ctx, config)
        ctx.traces += 1
        return None
    except Violation as v:
        info = json.loads(str(v))
    except Hang:
        info = dict(what='the call does not terminate', expected='an answer',
                    got='none within %s CPU seconds' % HANG_SECONDS, call=repr(ctx.op))
    except Exhausted:
        info = dict(what='the call exhausts the memory', expected='an answer', got='more than %d MB are needed' % (MEMORY_LIMIT >> 20),
                    call=repr(ctx.op))
    except Exception as e:      # raised by the library outside of a counted call; otherwise an error of the harness
        ours = [f.filename for f in traceback.extract_tb(e.__traceback__)
                if f.filename.startswith((os.path.join(REPO, 'spylls', ''), os.path.join(VERIF, 'mc', '')))]
        if not ours or not ours[-1].startswith(os.path.join(REPO, 'spylls', '')):
            raise
        info = dict(what='the library raises an exception', expected='an answer', got=''.join(
            traceback.format_exception_only(type(e), e)).strip() + ' at ' + where(e), call=repr(ctx.op))
    info.update(space=space.name, config=repr(config), dictionaries=ctx.texts)
    return info


def arm(ctx):
    """Raises Hang when one call lasts for longer than a whole timer period."""
    last = [None]

    def tick(_sig, _frame):
        if ctx.in_call and last[0] == ctx.opno:
            last[0] = None
            raise Hang()
        last[0] = ctx.opno if ctx.in_call else None
    signal.signal(signal.SIGPROF, tick)
    signal.setitimer(signal.ITIMER_PROF, HANG_SECONDS, HANG_SECONDS)


def limit_memory(size):
    resource.setrlimit(resource.RLIMIT_AS, (size, resource.RLIM_INFINITY))


def worker(no, count, prop, spaces, tier, scratch, seed, deadline, stop, out):
    try:
        limit_memory(MEMORY_LIMIT)
        ctx = Ctx(prop, os.path.join(scratch, 'w%d' % no), tier)
        arm(ctx)
        stats, samples, found = {}, [], []
        complete = True
        for space in spaces:
            before = (ctx.states, ctx.transitions, ctx.traces)
            seen = set()
            configs = 0
            started = time.time()
            for config in space.configs(tier):
                key = repr(config)
                if (zlib.crc32(key.encode('utf-8', 'surrogatepass')) + seed) % count != no:
                    continue
                if key in seen:
                    continue
                seen.add(key)
                if stop.is_set() or time.time() > deadline:
                    complete = False
                    break
                configs += 1
                info = run_config(ctx, space, config)
                if len(samples) < 40 and (configs in (1, 7)):
                    samples.append(dict(space=space.name, config=key[:600], last_call=repr(ctx.op)[:200]))
                if info:
                    found.append(info)
                    if len(found) >= 20:
                        stop.set()
            if found:
                stop.set()
            stats[space.name] = dict(configs=configs, states=ctx.states - before[0],
                                     transitions=ctx.transitions - before[1], traces=ctx.traces - before[2],
                                     seconds=round(time.time() - started, 1))
            if not complete:
                break
        signal.setitimer(signal.ITIMER_PROF, 0)
        limit_memory(resource.RLIM_INFINITY)
        out.put(dict(no=no, stats=stats, samples=samples, found=found, complete=complete,
                     accepted=ctx.accepted, rejected=ctx.rejected, offered=ctx.offered))
    except BaseException:       # error of the harness itself
        limit_memory(resource.RLIM_INFINITY)
        out.put(dict(no=no, error=traceback.format_exc()))


def read_known():
    res = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path, encoding='utf-8') as f:
            for line in f:
                if line.startswith('known: '):
                    res.append(json.loads(line[len('known: '):]))
    return res


def known_match(known, prop, info):
    for k in known:
        if k['property'] == prop and k['space'] == info['space'] and k['config'] == info['config'] \
                and k['call'] == info.get('call') and k['got'] == info.get('got'):
            return k
    return None


def main(prop, spaces, assumptions, budget):
    started = time.time()
    tier = tier_of()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = float(os.environ.get('VERIF_BUDGET', budget[tier]))
    spaces = [s for s in spaces if tier in s.tiers]
    only = os.environ.get('VERIF_SPACE')
    if only:
        spaces = [s for s in spaces if s.name in only.split(',')]
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop, dir=base)

    def interrupted(_sig, _frame):
        raise SystemExit(3)
    signal.signal(signal.SIGTERM, interrupted)
    try:
        use_repo()
        import spylls.hunspell
        assert os.path.realpath(spylls.hunspell.__file__).startswith(os.path.realpath(REPO) + os.sep), \
            spylls.hunspell.__file__
        count = int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)
        fork = mp.get_context('fork')
        stop, out = fork.Event(), fork.Queue()
        procs = [fork.Process(target=worker, daemon=True, args=(
            no, count, prop, spaces, tier, scratch, seed, started + budget, stop, out)) for no in range(count)]
        for p in procs:
            p.start()
        results = []
        while len(results) < count:
            try:
                results.append(out.get(timeout=5))
            except queue.Empty:
                dead = [p for i, p in enumerate(procs) if not p.is_alive() and i not in [r['no'] for r in results]]
                if dead and out.empty():
                    time.sleep(1)
                    if out.empty():
                        print('harness error: worker ended with code', dead[0].exitcode)
                        return 2
        for p in procs:
            p.join()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    errors = [r['error'] for r in results if 'error' in r]
    if errors:
        print('harness error:\n' + errors[0])
        return 2
    return report(prop, spaces, assumptions, results, tier, seed, started)


def report(prop, spaces, assumptions, results, tier, seed, started):
    known = read_known()
    found = sorted((i for r in results for i in r['found']), key=lambda i: (len(i['config']), i['config']))
    new = []
    for info in found:
        k = known_match(known, prop, info)
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what_fails']))
        else:
            new.append(info)
    per_space = {}
    for s in spaces:
        rows = [r['stats'][s.name] for r in results if s.name in r['stats']]
        per_space[s.name] = dict(bounds=s.bounds, configurations=sum(r['configs'] for r in rows),
                                 states=sum(r['states'] for r in rows),
                                 transitions=sum(r['transitions'] for r in rows),
                                 traces=sum(r['traces'] for r in rows),
                                 seconds=max([r['seconds'] for r in rows] or [0]))
    complete = all(r['complete'] for r in results)
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=sum(v['states'] for v in per_space.values()),
            transitions=sum(v['transitions'] for v in per_space.values()),
            traces_validated_against_impl=sum(v['traces'] for v in per_space.values()),
            exhaustive=complete and not new,
            lookups_true=sum(r['accepted'] for r in results), lookups_false=sum(r['rejected'] for r in results),
            suggestions_seen=sum(r['offered'] for r in results),
            counting='state: distinct (configuration, history of calls); transition: one library step (load, lookup, start or advance of an iterator); '
                     'trace: one configuration run completely on the library and compared with the oracle',
            spaces=per_space,
            samples=[s for r in sorted(results, key=lambda r: r['no']) for s in r['samples']][:24]),
        assumptions=assumptions, wall_s=round(time.time() - started, 2), violations=len(new))
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, prop + '.json.tmp')
    with open(tmp, 'w', encoding='utf-8') as f:
        json.dump(evidence, f, ensure_ascii=True, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, prop + '.json'))
    cov = evidence['coverage']
    print('%s: states=%d transitions=%d traces=%d exhaustive=%s wall=%.1fs' % (
        prop, cov['states'], cov['transitions'], cov['traces_validated_against_impl'], cov['exhaustive'],
        evidence['wall_s']))
    for name, v in per_space.items():
        print('  %-28s configurations=%-8d states=%-9d %5.1fs  %s' % (name, v['configurations'], v['states'],
                                                                 v['seconds'], v['bounds']))
        if not v['states'] and complete:
            print('harness error: space %s is empty' % name)
            return 2
    if not new:
        return 0
    folder = os.path.join(EVIDENCE, 'replay')
    os.makedirs(folder, exist_ok=True)
    for no, info in enumerate(new[:5]):
        path = os.path.join(folder, '%s-%d.json' % (prop, no))
        with open(path, 'w', encoding='utf-8') as f:
            json.dump(dict(property=prop, tier=tier, **info), f, ensure_ascii=True, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s: %s expected %s got %s' % (info['what'], info.get('call'), info['expected'], info['got']))
    return 1


def replay(path):
    """Runs the single configuration of a violation artefact again."""
    with open(path, encoding='utf-8') as f:
        info = json.load(f)
    from . import props
    spaces, _, _ = props.get(info['property'])
    space = [s for s in spaces if s.name == info['space']][0]
    use_repo()
    scratch = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        ctx = Ctx(info['property'], scratch, info['tier'])
        arm(ctx)
        for config in space.configs(info['tier']):
            if repr(config) == info['config']:
                res = run_config(ctx, space, config)
                break
        else:
            raise SystemExit('configuration not found')
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        shutil.rmtree(scratch, ignore_errors=True)
    for name, d in info['dictionaries'].items():
        print('--- %s.aff\n%s\n--- %s.dic\n%s' % (name, d['aff'], name, d['dic']))
    if res:
        print('REPRODUCED property=%s' % info['property'])
        print('  %s: %s expected %s got %s' % (res['what'], res.get('call'), res['expected'], res['got']))
        return 1
    print('not reproduced: the property holds on this configuration')
    return 0
