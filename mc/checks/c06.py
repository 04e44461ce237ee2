"""C06: the synchronous, thread-pool and asyncio executors agree and always terminate."""
from collections import Counter

from hiku.engine import Engine
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.executors.sync import SyncExecutor
from hiku.executors.threads import ThreadsExecutor
from hiku.query import merge
from hiku.result import denormalize

from .. import sched, sizes
from ..aio import Env
from ..core import Violation
from ..family import EDGES, G1, Trees, g1, plain
from ..pool import MCPool
from ..sched import explore
from ..tower import Tower, tower_cases
from ..world import FAULT_KINDS, InjectedFault, World, mk_query, opts_text, canon, item4

PROPERTY = 'C06'
TECHNIQUE = ('stateless exploration of the real ThreadsExecutor (thread under a controlled pool) and AsyncIOExecutor '
             '(event loop under a controlled selector), compared with SyncExecutor and a reference evaluator')
LEVEL_NOTE = ('Every query up to the item bound x completion orders and groupings (deviation-bounded where capped), '
              'including completions arriving in the middle of the loop\'s work; with no, or one, failing loader. '
              'Threads interact only through the executor\'s wait call, which is where the explorer schedules.')
NOTE = {
    'alphabet': 'selections of the C01 graph, ordered and not; loaders are plain functions, or coroutines suspended '
                'on a gate',
    'choices': 'threads: subset and order of finished futures at each wait. asyncio: at every iteration of the loop '
               'the loaders allowed to continue. One loader call may raise.',
    'oracle': 'reference evaluation; at every wait the submitted calls are exactly those whose data dependencies are '
              'done; all submitted calls are done when a result is returned',
}


FAULTS = {'fault': True, 'cancelled': FAULT_KINDS['CancelledError']}


def bounds(tier):
    return {'items_per_query': 4 if tier == 'quick' else 5, 'depth': 3, 'menu': 3,
            'max_executions_per_case': 150 if tier == 'quick' else 300,
            'max_executions_nested': 12 if tier == 'quick' else 150}


def cases(tier):
    b = bounds(tier)
    for c in sizes.cases(tier, ('objects', 'repeated', 'spread', 'fields', 'loaders', 'links', 'depth')):
        top = 129 if c['shape'] in ('loaders', 'links') else 65
        if c['n'] <= (top if tier == 'quick' else 2 * top):
            for how in ('threads', 'asyncio'):
                for variant in ('plain', 'rev'):
                    yield dict(c, how=how, variant=variant, b=[1, 2 if c['n'] > 33 else 6])
    for c in tower_cases('quick'):
        if tier == 'quick' and (c['tower'] != 'dense' or len(c['items'][0][1]) < 2):
            continue
        for how in ('threads', 'asyncio'):
            yield dict(c, how=how, variant='rev' if how == 'threads' else 'plain',
                       b=[2, b['max_executions_nested']])
    trees = Trees(G1)
    for items in trees.upto(b['items_per_query'], b['depth']):
        for edges in (('dense', 'dup') if tier == 'quick' else EDGES):
            for how in ('threads', 'asyncio'):
                for variant in ('plain', 'rev', 'ordered', 'fault') + (('cancelled',) if edges == 'dense' else ()):
                    yield {'edges': edges, 'items': plain(items), 'how': how, 'variant': variant,
                           'b': [b['menu'], b['max_executions_per_case']]}


def dag(world, items, node=None, ids=None, parent=None, out=None):
    """[(key, index of the call it waits for or None)] of an unordered execution."""
    out = [] if out is None else out
    spec = world.node_spec(node)
    fields = {}
    links = []
    for name, sub in items:
        if name in spec['fields']:
            fields.setdefault(spec['fields'][name]['f'], set()).add(name)
        else:
            links.append((name, sub, spec['links'][name]))
            req = spec['links'][name].get('req')
            if req:
                fields.setdefault(spec['fields'][req]['f'], set()).add(req)
    at = {}
    for func, names in fields.items():
        at[func] = len(out)
        out.append((('field', func, frozenset((n, '') for n in names), None if node is None else tuple(ids)), parent))
    for name, sub, link in links:
        req = link.get('req')
        src = ids if node is not None else [None]
        values = None
        targets = [world.targets(node, name, link, None, i if req else None) for i in (src if req else [None])]
        if req:
            values = tuple(world.field_value(spec['fields'][req], req, None, i) for i in src)
        me = len(out)
        out.append((('link', link.get('f') or '%s.%s' % (node or 'root', name), values, None),
                    at[spec['fields'][req]['f']] if req else parent))
        to = [x for t in targets for x in t] if link['kind'] == 'Many' else [t for t in targets if t is not None]
        if to:
            dag(world, sub, link['to'], to, me, out)
    return out


def pairs(items):
    return [[i[0], pairs(i[1]) if len(i) > 1 and i[1] else None] for i in items]


def run(case, rec):
    if 'shape' in case:
        spec, items = sizes.make(case)
        items = pairs(items)
    else:
        spec, items = None, case['items']
    variant = case['variant']
    ordered = variant == 'ordered'
    if 'tower' in case:
        def build(**kw):
            t = Tower(case['tower'], **kw)
            return t.world, t.graph()
        expected = Tower(case['tower']).evaluate(items)
        distinct = False
    else:
        spec = spec or g1(case['edges'])

        def build(**kw):
            w = World(spec, **kw)
            return w, w.graph()
        expected = World(spec).evaluate(items)
        graph_calls = dag(World(spec), items)
        keys = [k for k, _ in graph_calls]
        distinct = len(set(keys)) == len(keys)
    query = merge([mk_query(items, ordered=ordered)])

    w, g = build()
    got = denormalize(g, Engine(SyncExecutor()).execute(g, query))
    if got != expected:
        raise Violation('the synchronous executor gives another result', got=got, expected=expected)
    rec.traces += 1

    def submitted_check(world, submitted, done):
        if ordered or not distinct or variant in FAULTS:
            return
        done_keys = {c.key() for c in world.calls if done(c)}
        ready = Counter(k for k, dep in graph_calls if dep is None or keys[dep] in done_keys)
        if submitted != sum(ready.values()):
            raise Violation('independent calls were not all handed to the executor',
                            submitted=submitted, ready=repr(list(ready)), done=repr(done_keys))

    def fault_of(ch):
        hit = []

        def fault(call):
            if not hit and ch.choose(2, ('fail', call.func)):
                hit.append(call)
                return FAULTS[variant]
            return False
        return (fault if variant in FAULTS else None), hit

    def judge(outcome, value, hit, world, graph):
        if hit:
            if outcome != 'raise' or not isinstance(value, InjectedFault):
                raise Violation('a loader raised, and the execution ended with %s %r' % (outcome, value))
            return
        if outcome == 'raise':
            raise value
        res = denormalize(graph, value)
        if res != expected:
            raise Violation('result differs from the synchronous executor', got=res, expected=expected)

    def threads(ch):
        fault, hit = fault_of(ch)
        world, graph = build(fault=fault)
        pool = MCPool(ch, max_full=case['b'][0], reverse_hash=variant == 'rev')
        engine = Engine(ThreadsExecutor(pool))

        def quiescent():
            submitted_check(world, len(pool.futures), lambda c: c.fut is not None and c.fut.done())
        outcome, value = pool.run(lambda: engine.execute(graph, query), quiescent)
        judge(outcome, value, hit, world, graph)
        if not hit and pool.outstanding():
            raise Violation('a result was returned while %d calls were outstanding' % len(pool.outstanding()))
        rec.outcome([c.func for c in world.calls])
        return [c.func for c in world.calls]

    def aio(ch):
        fault, hit = fault_of(ch)
        starts, done = [], []

        def wrap(func):
            async def loader(*args):
                me = len(starts)
                starts.append(func.__name__)
                await env.gate(me)
                outer, sched.CURRENT = sched.CURRENT, me
                try:
                    return func(*args)
                finally:
                    done.append(me)
                    sched.CURRENT = outer
            return loader
        world, graph = build(fault=fault, wrap=wrap)

        def iteration(idle):
            if idle:
                submitted_check(world, len(starts), lambda c: c.fut in done)
        env = Env(ch, midflight=variant == 'plain', max_full=case['b'][0], reverse_hash=variant == 'rev',
                  on_iteration=iteration)
        engine = Engine(AsyncIOExecutor(env.loop))

        async def main():
            return await engine.execute(graph, query)
        try:
            outcome, value = env.run(main())
            judge(outcome, value, hit, world, graph)
            if not hit and env.pending():
                raise Violation('a result was returned while loader tasks were running')
        finally:
            env.close()
        rec.outcome([starts, done])
        return [starts, done]
    explore(threads if case['how'] == 'threads' else aio, rec, max_execs=case['b'][1])
