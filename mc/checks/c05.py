"""C05: a failing loader always fails the execution with its own error."""
from hiku.engine import Engine
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.executors.sync import SyncExecutor
from hiku.executors.threads import ThreadsExecutor
from hiku.query import merge
from hiku.result import denormalize

from .. import sizes
from ..aio import Env
from ..core import Violation
from ..enginex import Run
from ..family import EDGES, G1, Trees, g1, plain
from ..pool import MCPool
from ..sched import Chooser, MCExecutor, explore
from ..tower import Tower, TowerRun, tower_cases
from ..world import FAULT_KINDS, InjectedFault, World, mk_query

PROPERTY = 'C05'
TECHNIQUE = ('exhaustive fault injection (every subset of at most two loader calls raises) combined with stateless '
             'exploration of completion orders on the real engine')
LEVEL_NOTE = ('Every query up to the item bound x every single failing call and every pair x every completion order '
              '(deviation-bounded where capped). "Needs data" is taken from the requires edges and link targets of the '
              'graph description.')
NOTE = {
    'alphabet': 'selections of the C01 graph, ordered and unordered; at every loader call: succeeds or raises '
                'one of 13 kinds of exception; the explorer\'s executor and the three real ones',
    'choices': 'failure decision at each call (at most two failures), completion subset and order at each wait',
    'oracle': 'the raised object is one of the injected exceptions; calls depending on a failed call never start; '
              'the next execution on the same engine gives the reference result',
}


def bounds(tier):
    return {'items_per_query': 4 if tier == 'quick' else 5, 'items_any_error': 3 if tier == 'quick' else 4,
            'depth': 3, 'menu': 3, 'max_failures': 2,
            'max_executions_per_case': 400 if tier == 'quick' else 3000, 'max_executions_nested': 40 if tier == 'quick' else 1000}


def cases(tier):
    b = bounds(tier)
    for c in sizes.cases(tier, ('loaders', 'links', 'mixed-links', 'objects', 'depth')):
        if c['n'] <= (129 if tier == 'quick' or c['shape'] != 'loaders' else 513):
            for how in ('explorer', 'sync', 'threads', 'asyncio'):
                if how != 'threads' or c['n'] <= 65:
                    yield dict(c, executor=how)
    for c in tower_cases('quick'):
        if tier != 'quick' or c['tower'] == 'dense':
            yield dict(c, b=b['max_executions_nested'])
    trees = Trees(G1)
    for items in trees.upto(b['items_per_query'], b['depth']):
        for edges in (('dense', 'dup') if tier == 'quick' else EDGES):
            for eager in (True, False):
                for ordered in (False, True):
                    yield {'edges': edges, 'items': plain(items), 'eager': eager, 'ordered': ordered,
                           'b': [b['menu'], b['max_executions_per_case'], b['max_failures']]}
    for c in real_cases(tier, trees):
        yield c
    # errors of kinds that code on the way may be tempted to handle itself
    for items in trees.upto(b['items_any_error'], b['depth']):
        for eager in (True, False):
            for kind in FAULT_KINDS:
                for ordered in (False, True):
                    yield {'edges': 'dense', 'items': plain(items), 'eager': eager, 'ordered': ordered, 'error': kind,
                           'b': [1, b['max_executions_per_case'], 1]}
    for c in tower_cases('quick'):
        if c['tower'] == 'dense' and len(c['items'][0][1]) == 1:
            for kind in FAULT_KINDS:
                yield dict(c, b=8, error=kind)


def real_cases(tier, trees):
    for items in trees.upto(3 if tier == 'quick' else 4, 3):
        for how in ('sync', 'threads', 'asyncio'):
            for kind in [None] + list(FAULT_KINDS):
                if (how, kind) != ('asyncio', 'StopIteration'):     # a coroutine cannot raise it
                    yield {'how': how, 'edges': 'dense', 'items': plain(items), 'error': kind, 'b': 60}


def run_real(case, rec):
    """The executors that come with hiku."""
    spec = g1(case['edges'])
    query = merge([mk_query(case['items'])])
    expected = World(spec).evaluate(case['items'])

    def one(ch):
        failed, armed = [], [True]
        raised = []

        def fault(call):
            # calls are told apart by their number: the real executors start them in any order
            if armed[0] and not failed and ch.choose(2, 'fail'):
                failed.append(call)
                return FAULT_KINDS.get(case['error'], True)
            return False
        how, env = case['how'], None
        if how == 'asyncio':
            def wrap(func):
                async def loader(*args):
                    await env.gate(len(world.calls))
                    return func(*args)
                return loader
            world = World(spec, fault=fault, wrap=wrap)
        else:
            world = World(spec, fault=fault)
        orig = world._record

        def record(*a, **kw):
            try:
                return orig(*a, **kw)
            except InjectedFault as e:
                raised.append(e)
                raise
        world._record = record
        graph = world.graph()

        def attempt():
            if how == 'asyncio':
                async def main():
                    return await engine.execute(graph, query)
                return env.run(main())
            if how == 'threads':
                return pool.run(lambda: engine.execute(graph, query))
            try:
                return 'ok', engine.execute(graph, query)
            except Exception as e:
                return 'raise', e
        if how == 'asyncio':
            env = Env(ch, max_full=2)
            engine = Engine(AsyncIOExecutor(env.loop))
        elif how == 'threads':
            pool = MCPool(ch, max_full=2)
            engine = Engine(ThreadsExecutor(pool))
        else:
            engine = Engine(SyncExecutor())
        try:
            outcome, value = attempt()
            if failed:
                if outcome == 'ok':
                    raise Violation('a loader failed, but the execution returned a result', calls=repr(world.calls))
                if not any(value is e for e in raised):
                    raise Violation('the execution raised something else than the error of a failed loader: %r' % value)
                rec.count('failures')
                armed[0] = False
                if how == 'asyncio':
                    env.settle()
                    env.close()
                    env = Env(Chooser(), max_full=1)
                    engine = Engine(AsyncIOExecutor(env.loop))
                elif how == 'threads':
                    pool.complete(pool.outstanding())
                    pool.ch = Chooser()
                outcome, value = attempt()
            if outcome == 'raise':
                raise value
            got = denormalize(graph, value)
            if got != expected:
                raise Violation('result differs', got=got, expected=expected)
        finally:
            if env:
                env.close()
        rec.outcome([case['how'], [c.func for c in failed]])
        return [c.func for c in failed]
    explore(one, rec, max_execs=case['b'], check_determinism=False)


def run_sized(case, rec):
    """The first, second, middle, last but one and last loader call of a big execution fails."""
    spec, items = sizes.make(case)
    world = World(spec)
    expected = world.evaluate(items)
    query = merge([mk_query(items)])
    how = case['executor']
    failing, raised, made = [None], [], []

    def fault(call):
        made.append(call)
        return len(made) - 1 == failing[0]

    def wrap(func):
        async def loader(*args):
            await env.gate(len(made))
            return func(*args)
        return loader
    world = World(spec, fault=fault, wrap=wrap if how == 'asyncio' else None)
    orig = world._record

    def record(*a, **kw):
        try:
            return orig(*a, **kw)
        except InjectedFault as e:
            raised.append(e)
            raise
    world._record = record
    graph = world.graph()
    env = None

    def attempt():
        nonlocal env
        made.clear()
        if how == 'asyncio':
            env = Env(Chooser(), max_full=1)
            engine = Engine(AsyncIOExecutor(env.loop))

            async def main():
                return await engine.execute(graph, query)
            try:
                res = env.run(main())
                env.settle()
                return res
            finally:
                env.close()
        pool = MCPool(Chooser(), max_full=1) if how == 'threads' else None
        engine = Engine(SyncExecutor() if how == 'sync' else ThreadsExecutor(pool) if pool
                        else MCExecutor(Chooser(), eager=False, max_full=1))
        if pool:
            return pool.run(lambda: engine.execute(graph, query))
        try:
            return 'ok', engine.execute(graph, query)
        except Violation:
            raise
        except Exception as e:
            return 'raise', e

    def good():
        failing[0] = None
        outcome, value = attempt()
        if outcome == 'raise':
            raise value
        got = denormalize(graph, value)
        if got != expected:
            raise Violation('result differs', got=got, expected=expected)
        rec.traces += 1
        return len(made)
    n = good()
    for k in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))):
        failing[0] = k
        del raised[:]
        outcome, value = attempt()
        if not raised:
            raise Violation('the executor made another number of calls this time', calls=n, now=len(made))
        if outcome == 'ok':
            raise Violation('a loader failed, but the execution returned a result', call=k)
        if not any(value is e for e in raised):
            raise Violation('the execution raised something else than the error of a failed loader: %r' % value)
        rec.traces += 1
        rec.count('failures')
    good()
    rec.outcome([how, n])


def dependents(spec, items, call, node=None):
    """Loader names which may not run at all once `call` failed, when each is used at one place only."""
    n = spec['root'] if node is None else spec['nodes'][node]
    for name, sub in items:
        if name not in n['links']:
            continue
        link = n['links'][name]
        fname = link.get('f') or '%s.%s' % (node or 'root', name)
        req = link.get('req')
        below = {c for c in loaders(spec, sub, link['to'])}
        if call.kind == 'link' and call.func == fname:
            yield from below
        if req and call.kind == 'field' and n['fields'][req]['f'] == call.func \
                and req in {f for f, _ in call.fields}:
            yield fname
            yield from below
        yield from dependents(spec, sub, call, link['to'])


def loaders(spec, items, node):
    n = spec['root'] if node is None else spec['nodes'][node]
    for name, sub in items:
        if name in n['links']:
            link = n['links'][name]
            if link.get('req'):
                yield n['fields'][link['req']]['f']
            yield link.get('f') or '%s.%s' % (node or 'root', name)
            yield from loaders(spec, sub, link['to'])
        else:
            yield n['fields'][name]['f']


def run_tower(case, rec):
    items = case['items']
    expected = Tower(case['tower']).evaluate(items)

    def one(ch):
        failed, raised, armed = [], [], [True]

        def fault(call):
            if armed[0] and not failed and ch.choose(2, ('fail', call.func)):
                failed.append(call)
                return FAULT_KINDS.get(case.get('error'), True)
            return False
        r = TowerRun(case['tower'], items, ch, max_full=2, fault=fault)
        orig = r.world._record

        def record(*a, **kw):
            try:
                return orig(*a, **kw)
            except InjectedFault as e:
                raised.append(e)
                raise
        r.world._record = record
        try:
            got, error = r.execute(), None
        except Exception as e:
            error = e
        if not failed:
            if error is not None:
                raise error
            if got != expected:
                raise Violation('result differs', got=got, expected=expected)
        else:
            if error is None:
                raise Violation('a loader failed, but the execution returned a result', calls=repr(r.world.calls))
            if not any(error is e for e in raised):
                raise Violation('the execution raised something else than the error of a failed loader: %r'
                                % error, calls=repr(r.world.calls))
            armed[0] = False
            r.ex.ch = Chooser()
            got = r.execute()
            if got != expected:
                raise Violation('the execution after a failed one gave something else', expected=expected, got=got)
            rec.count('failures')
        rec.outcome([len(r.world.calls), [c.func for c in failed]])
        return [len(r.world.calls), [c.n for c in failed]]
    explore(one, rec, max_execs=case['b'])


def run(case, rec):
    if 'executor' in case:
        return run_sized(case, rec)
    if 'how' in case:
        return run_real(case, rec)
    if 'tower' in case:
        return run_tower(case, rec)
    spec = g1(case['edges'])
    items = case['items']
    expected = World(spec).evaluate(items)
    menu, cap, max_failures = case['b']
    all_loaders = list(loaders(spec, items, None))
    unique = {f for f in all_loaders if all_loaders.count(f) == 1}

    def one(ch):
        failed = []
        armed = [True]

        def fault(call):
            if armed[0] and len(failed) < max_failures and ch.choose(2, ('fail', call.func)):
                failed.append(call)
                return FAULT_KINDS.get(case.get('error'), True)
            return False
        raised = []
        r = Run(spec, items, ch, eager=case['eager'], max_full=menu, fault=fault, ordered=case['ordered'])
        orig = r.world._record

        def record(*a, **kw):
            try:
                return orig(*a, **kw)
            except InjectedFault as e:
                raised.append(e)
                raise
        r.world._record = record
        r.execute()
        n_calls = len(r.world.calls)
        if failed:
            if r.error is None:
                raise Violation('a loader failed, but the execution returned a result', calls=repr(r.world.calls))
            if not any(r.error is e for e in raised):
                raise Violation('the execution raised something else than the error of a failed loader: %r'
                                % r.error, calls=repr(r.world.calls))
            for c in failed:
                bad = set(dependents(spec, items, c)) & unique if c.func in unique else ()
                started = [x for x in r.world.calls if x.func in bad]
                if [x for x in started if x.n > c.n]:
                    raise Violation('a loader started although what it needs failed', failed=repr(c),
                                    started=repr(started))
            # the same engine and graph still work
            armed[0] = False
            again = mk_query(items, ordered=case['ordered'])
            r.ex.ch = Chooser()
            res = r.engine.execute(r.graph, merge([again]))
            got = denormalize(r.graph, res)
            if got != expected:
                raise Violation('the execution after a failed one gave something else', expected=expected, got=got)
            rec.count('failures', len(failed))
        else:
            if r.error is not None:
                raise r.error
            if r.denormalized() != expected:
                raise Violation('result differs', got=r.denormalized(), expected=expected)
        rec.outcome((len(failed), n_calls, [c.func for c in failed]))
        return (n_calls, [c.n for c in failed])
    explore(one, rec, max_execs=cap)
