"""C24: metrics do not change results and are attributed to the right node and field."""
from .. import clock        # before anything that keeps a reference to a clock of the system

import asyncio
from collections import Counter

from prometheus_client import CollectorRegistry, Summary

from hiku.engine import Engine
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.expr.core import S, each, if_some
from hiku.graph import Field, Graph, Link, Node, Root, apply
from hiku.query import merge
from hiku.result import denormalize
from hiku.sources.graph import SubGraph
from hiku.telemetry.prometheus import AsyncGraphMetrics, GraphMetrics
from hiku import types as T

from .. import sched
from .. import sizes
from ..aio import Env
from ..core import Violation
from ..family import EDGES, Trees, plain
from ..sched import Chooser, MCExecutor, explore
from ..world import InjectedFault, World, mk_query, opts_text, with_root

PROPERTY = 'C24'
TECHNIQUE = ('explicit enumeration of queries over graphs with shared loaders; the bare and the wrapped graph executed under '
             'every explored completion order (synchronous and asyncio), samples compared with the log of loader calls')
LEVEL_NOTE = ('Every query up to the item bound over a graph whose loaders are shared between fields, nodes and the root, '
              'take the context or options, or are expressions over one shared sub-graph; each loader call failing in turn; '
              'recorded times under a virtual clock, with a second execution inside each call or next to it. '
              'Completion orders are deviation-bounded.')
NOTE = {
    'alphabet': 'loader S shared by root, A and B; context loaders of fields and links; options; nodes H and K share '
                'expressions of one SubGraph; the low-level graph bare or wrapped with metrics of its own; default and '
                'given metric; metrics applied twice; several executions in a row',
    'oracle': 'same query on the bare graph; log of loader calls',
}
SPEC = {
    'root': {'fields': {'f': {'f': 'S'}, 'g': {'f': 'S'}, 'h': {'f': 'C'}},
             'links': {'one': {'to': 'A', 'kind': 'One', 'f': 'Lc'}, 'two': {'to': 'A', 'kind': 'One', 'f': 'Lc'}, 'rq': {'to': 'A', 'kind': 'Maybe', 'req': 'f'},
                       'many': {'to': 'A', 'kind': 'Many'}, 'mt': {'to': 'A', 'kind': 'Many'}, 'no': {'to': 'A', 'kind': 'Maybe'},
                       'hs': {'to': 'H', 'kind': 'Many'}, 'k': {'to': 'K', 'kind': 'One'}}},
    'nodes': {
        'A': {'fields': {'x': {'f': 'S'}, 'z': {'f': 'Z', 'opts': {'i': {'default': 1}}}, 'c': {'f': 'C'}},
              'links': {'b': {'to': 'B', 'kind': 'One', 'req': 'x'},
                        'bs': {'to': 'B', 'kind': 'Many', 'req': 'c', 'f': 'Lc2', 'opts': {'j': {'default': 2}}}}},
        'B': {'fields': {'x': {'f': 'S'}, 'c': {'f': 'C'}}, 'links': {'up': {'to': 'A', 'kind': 'Maybe', 'req': 'x'}}},
        'H': {'fields': {'x': {'f': 'X'}, 'e': {'f': 'X'}, 'es': {'f': 'X'}}, 'links': {}},
        'K': {'fields': {'x': {'f': 'X'}, 'e': {'f': 'X'}, 'own': {'f': 'S'}}, 'links': {'h': {'to': 'H', 'kind': 'Maybe', 'req': 'e'}}},
    },
    'order': None,
}
CTX_LOADERS = ('C', 'Lc', 'Lc2')
LOW_EDGES = {'root.one': 'a1', 'root.two': 'a1', 'root.rq': {None: 'a2'}, 'root.many': ['a2', 'a1', 'a2'], 'root.mt': [], 'root.no': None, 'root.hs': ['a1', 'a2'], 'root.k': 'a2',
             'A.b': {'a1': 'b1', 'a2': 'b2'}, 'A.bs': {'a1': ['b2', 'b1'], 'a2': []}, 'B.up': {'b1': 'a1', 'b2': None}}
CTX = {'k': 'context'}


class MWorld(World):
    """The high-level graph (nodes A, B and the expression nodes H, K) and the low-level graph under it."""

    def __init__(self, wrap=None, fault=None):
        spec = dict(SPEC, edges=LOW_EDGES)
        super().__init__(spec, ctx_loaders=CTX_LOADERS, wrap=wrap, fault=fault)
        self.low = World(spec, ctx_loaders=CTX_LOADERS, wrap=wrap, fault=fault)

    def during_low(self, yes):
        pass

    def graph(self, low_hook=None):
        self.during_low(True)
        low = Graph(with_root([Node(n, self.low.items_of(n)) for n in ('A', 'B')],
                              [self.low.mk_field(k, SPEC['root']['fields'][k]) for k in ('f', 'h')]))
        self.during_low(False)
        if low_hook:
            low = low_hook(low)
        sg = SubGraph(low, 'A')
        items = [Node(n, self.items_of(n)) for n in ('A', 'B')]
        items.append(Node('H', [Field('x', None, sg), Field('e', None, sg.c([S.this.z, S.f])),
                                Field('es', None, sg.c(each(S.i, S.this.bs, [S.i.x, S.h])))]))
        items.append(Node('K', [Field('x', None, sg), Field('e', None, sg.c(S.this.b.c)),
                                Field('own', None, self.field_loader('S')),
                                Link('h', T.Optional[T.TypeRef['H']], self.h_loader(), requires='e')]))
        root = self.items_of(None)
        return Graph(with_root(items, root))

    def h_loader(self):
        def load(values):
            c = self._record('link', 'K.h', values=list(values))
            self._end(c)
            return ['a1' for _ in values]
        return self._finish_func('K.h', load)


def label(call):
    """(graph, [(node, field)]) that a loader call serves."""
    if call.kind == 'link':
        if call.func == 'Lc':       # shared by two links of the root: see links()
            return []
        names = {'Lc2': ('A', 'bs'), 'K.h': ('K', 'h')}
        if call.func in names:
            return [names[call.func]]
        node, name = call.func.split('.')
        return [('Root' if node == 'root' else node, name)]
    if call.ids is None:
        node = 'Root'
    elif call.fields[0][0] == 'own':
        node = 'K'
    else:
        node = 'A' if call.ids[0][0] == 'a' and call.func not in ('B1', 'B2') else 'B'
    return {(node, f) for f, _ in call.fields}


def call_id(c):
    return (c.kind, c.func, tuple((f, opts_text(o)) for f, o in c.fields) if c.fields else None,
            tuple(c.ids) if c.ids is not None else None, repr(c.values), repr(c.options),
            None if c.ctx is None else c.ctx['k'])


def bounds(tier):
    q = tier == 'quick'
    return {'items_per_query': 4 if q else 5, 'timed_items': 3 if q else 4, 'depth': 4, 'max_executions_per_case': 10 if q else 30}


OPTION_QUERIES = [
    [['many', [['z', None, None, {'i': 3}], ['x']]]],
    [['many', [['z', None, None, {'i': 3}], ['z', None, 'z2']]]],
    [['many', [['bs', [['x']], None, {'j': 5}], ['bs', [['c']], 'bs2']]], ['one', [['c']]]],
    [['many', [['x', None, 'x2'], ['x']]], ['f', None, 'f2'], ['f']],
]


def size(items):
    return sum(1 + size(i[1] or ()) for i in items)


def cases(tier):
    b = bounds(tier)
    trees = Trees(SPEC)
    for items in trees.upto(b['items_per_query'], b['depth']):
        for how in ('sync', 'async'):
            for variant in ('plain', 'low', 'twice'):
                if variant != 'plain' and not any(i[0] in ('hs', 'k') for i in items):
                    continue
                yield {'items': plain(items), 'how': how, 'variant': variant, 'b': b['max_executions_per_case']}
        yield {'items': plain(items), 'how': 'sync', 'variant': 'fault', 'b': 1}
        yield {'items': plain(items), 'how': 'async', 'variant': 'fault', 'b': 1}
        if size(items) <= b['timed_items']:
            yield {'items': plain(items), 'how': 'sync', 'variant': 'time', 'b': 1}
            yield {'items': plain(items), 'how': 'async', 'variant': 'time', 'n': 2, 'b': b['max_executions_per_case']}
    for case in sizes.cases(tier, ('objects', 'spread', 'fields', 'loaders', 'links', 'aliases', 'link-aliases', 'same', 'options', 'depth', 'mixed-links', 'words')):
        if case['shape'] != 'words' or sizes.ROLES[case['n'] % len(sizes.ROLES)] not in ('nodes', 'records'):
            yield case
    for n in sizes.ladder(tier, 65 if tier == 'quick' else 513):
        yield {'shape': 'mixed-links', 'n': 3, 'times': n}
        if n <= 33:
            yield {'shape': 'mixed-links', 'n': 4, 'graphs': n}
    for items in OPTION_QUERIES:
        for how in ('sync', 'async'):
            yield {'items': items, 'how': how, 'variant': 'plain', 'b': 40}
            yield {'items': items, 'how': how, 'variant': 'default', 'b': 40}
            yield {'items': items, 'how': how, 'variant': 'time', 'n': 2, 'b': 40}
            yield {'items': items, 'how': how, 'variant': 'time', 'n': 3, 'b': 40}
    for how in ('sync', 'async'):
        yield {'items': [['f'], ['one', [['x'], ['c'], ['b', [['x']]]]], ['hs', [['x'], ['e']]]], 'how': how, 'variant': 'default', 'b': 40}


def sums(registry):
    """{(node, field): seconds} of the labels which are served by loaders of ours only."""
    res = Counter()
    for m in registry.collect():
        for s in m.samples:
            if s.name.endswith('_sum'):
                node, field = s.labels['node'], s.labels['field']
                if node == 'H' or (node == 'K' and field in ('x', 'e')):
                    continue
                res['Root', 'one+two' if node == 'Root' and field in ('one', 'two') else field] += s.value if node == 'Root' else 0
                res[node, field] += s.value if node != 'Root' else 0
    return {k: v for k, v in res.items() if v}


def run_time(case, rec):
    """The time recorded for a call is the time that this call took, whatever else happens meanwhile: a second execution of the
    same graph begins inside a chosen call (synchronous), or next to the first one (asyncio)."""
    items, how = case['items'], case['how']
    query = merge([mk_query(items)])

    def one(ch, nest_at=None):
        registry = CollectorRegistry()
        metric = Summary('some_time', 'time', ['graph', 'node', 'field'], registry=registry)
        want = Counter()
        env = None
        begun = []
        ticks = []

        def tick(*_):
            clock.advance(2 ** (len(ticks) % 40))
            ticks.append(1)

        def took(call, seconds):
            for node, field in label(call) or [('Root', 'one+two')]:
                want[node, field] += seconds

        def sync_wrap(func):
            def loader(*args):
                start = clock.now()
                n = len(begun)
                begun.append(func.__name__)
                tick()
                if n == nest_at:
                    Engine(MCExecutor(Chooser())).execute(graph, query, CTX)
                    tick()
                res = func(*args)
                if loader.mine:
                    took(world.calls[-1], clock.now() - start)
                return res
            loader.__name__ = func.__name__
            loader.mine = where[0]
            return loader

        def async_wrap(func):
            async def loader(*args):
                start = clock.now()
                await env.gate(func.__name__)
                res = func(*args)
                if loader.mine:
                    took(world.calls[-1], clock.now() - start)
                return res
            loader.__name__ = func.__name__
            loader.mine = where[0]
            return loader
        where = [True]
        world = MWorld(async_wrap if how == 'async' else sync_wrap)
        world.during_low = lambda yes: where.__setitem__(0, not yes)
        graph = apply(world.graph(), [(AsyncGraphMetrics if how == 'async' else GraphMetrics)('g', metric=metric)])
        with clock.virtual():
            if how == 'sync':
                Engine(MCExecutor(ch, max_full=2)).execute(graph, query, CTX)
            else:
                env = Env(ch, max_full=2)
                release = env.release
                env.release = lambda gates: (tick(), release(gates))

                async def both():
                    await asyncio.gather(*[Engine(AsyncIOExecutor(env.loop)).execute(graph, query, CTX) for _ in range(case['n'])])
                try:
                    status, value = env.run(both())
                finally:
                    env.close()
                if status != 'ok':
                    raise value
        got = sums(registry)
        if got != {k: v for k, v in want.items() if v}:
            raise Violation('the time recorded is not the time the calls took', got=repr(sorted(got.items())), expected=repr(sorted(want.items())),
                            nest_at=nest_at)
        rec.outcome(sorted(got.items()))
        return len(begun)

    if how == 'sync':
        n = one(Chooser())
        for k in range(n):
            one(Chooser(), k)
            rec.traces += 1
            rec.states += 1
            rec.transitions += n
    else:
        explore(lambda ch: repr(one(ch)), rec, max_execs=case['b'])


def samples(registry):
    """{(graph, node, field): count}, and no negative time."""
    res = {}
    for m in registry.collect():
        for s in m.samples:
            key = (s.labels.get('graph'), s.labels.get('node'), s.labels.get('field'))
            if s.name.endswith('_count'):
                res[key] = s.value
            elif s.name.endswith('_sum') and s.value < 0:
                raise Violation('negative time recorded for %r' % (key,))
    return Counter({k: int(v) for k, v in res.items() if v})


SERIAL = 0


def run_sized(case, rec):
    """Graphs and queries of a size; many executions of one graph; one metric for many graphs."""
    spec, items = sizes.make(case)
    times, graphs = case.get('times', 1), case.get('graphs', 1)
    query = merge([mk_query(items)])
    for how in ('sync', 'async'):
        registry = CollectorRegistry()
        metric = Summary('some_time', 'time', ['graph', 'node', 'field'], registry=registry)
        env = None
        is_async = how == 'async'

        def wrap(func):
            async def loader(*args):
                await env.gate(func.__name__)
                return func(*args)
            loader.__name__ = func.__name__
            return loader
        want = Counter()
        try:
            made = []
            for g in range(graphs):
                world = World(spec, wrap=wrap if is_async else None)
                made.append((world, apply(world.graph(), [(AsyncGraphMetrics if is_async else GraphMetrics)('g%d' % g, metric=metric)])))
            for k in range(times * (2 if graphs > 1 else 1)):
                for g, (world, graph) in enumerate(made):
                    calls = len(world.calls)
                    if not is_async:
                        res = Engine(MCExecutor(Chooser())).execute(graph, query, {})
                    else:
                        if env is not None:
                            env.close()
                        env = Env(Chooser())
                        status, res = env.run(Engine(AsyncIOExecutor(env.loop)).execute(graph, query, {}))
                        if status != 'ok':
                            raise res
                    got, exp = denormalize(graph, res), world.evaluate(items)
                    if got != exp:
                        raise Violation('the wrapped graph returns something else', got=got, expected=exp)
                    here = sorted(repr(c.key()) for c in world.calls[calls:])
                    if Counter(map(call_id, world.calls[calls:])) != bare_calls(case, spec, query):
                        raise Violation('loaders get other arguments or are called another number of times', got=here)
                    for c in world.calls[calls:]:
                        want.update(('g%d' % g,) + x for x in label(c))
        finally:
            if env is not None:
                env.close()
        n = samples(registry)
        if n != want:
            raise Violation('observations are not one for each field and link that was served', missing=repr(want - n), unexpected=repr(n - want))
        rec.traces += 1
        rec.states += 1
        rec.transitions += sum(want.values())
        rec.outcome(sorted(n.items()))


BARE = {}


def bare_calls(case, spec, query):
    key = (case['shape'], case['n'])
    if key not in BARE:
        BARE.clear()
        world = World(spec)
        Engine(MCExecutor(Chooser())).execute(world.graph(), query, {})
        BARE[key] = Counter(map(call_id, world.calls))
    return BARE[key]


def run(case, rec):
    if 'shape' in case:
        return run_sized(case, rec)
    if case['variant'] == 'time':
        return run_time(case, rec)
    global SERIAL
    items, how, variant = case['items'], case['how'], case['variant']
    query = merge([mk_query(items)])
    metrics_cls = GraphMetrics if how == 'sync' else AsyncGraphMetrics

    def execute(ch, wrapped, fault_at=None, times=1):
        global SERIAL
        SERIAL += 1
        if variant == 'default':
            from prometheus_client import REGISTRY as registry
            metric = None
            name = 'g%d' % SERIAL
        else:
            registry, name = CollectorRegistry(), 'g'
            metric = Summary('some_time', 'time', ['graph', 'node', 'field'], registry=registry)
        env = Env(ch, max_full=2) if how == 'async' else None

        made = []

        def fault(call):
            made.append(call)
            return len(made) - 1 == fault_at

        def wrap(func):
            async def loader(*args):
                await env.gate(func.__name__)
                return func(*args)
            loader.__name__ = func.__name__
            return loader
        world = MWorld(wrap if env else None, fault if fault_at is not None else None)

        def hook(n):
            return lambda g: apply(g, [metrics_cls(n, metric=metric)])
        graph = world.graph(hook('low') if wrapped and variant == 'low' else None)
        if wrapped:
            graph = hook(name)(graph)
            if variant == 'twice':
                graph = hook('outer')(graph)
        res = err = None
        try:
            for _ in range(times):
                if env is None:
                    res = Engine(MCExecutor(ch, max_full=2)).execute(graph, query, CTX)
                else:
                    status, value = env.run(Engine(AsyncIOExecutor(env.loop)).execute(graph, query, CTX))
                    if status != 'ok':
                        raise value
                    res = value
        except InjectedFault as e:
            err = e
        finally:
            if env is not None:
                env.close()
        got = None if res is None else denormalize(graph, res)
        counts = samples(registry)
        if variant == 'default':
            counts = Counter({('g',) + k[1:]: v for k, v in counts.items() if k[0] == name})
        return got, err, (world.calls, world.low.calls), counts

    bare, err, calls, counts = execute(Chooser(), False)
    if err or counts:
        raise Violation('harness: bare graph gives %r %r' % (err, counts))
    want_calls = Counter(map(call_id, calls[0] + calls[1]))

    if variant == 'fault':
        for k in range(sum(want_calls.values())):
            _, e1, c1, _ = execute(Chooser(), False, k)
            _, e2, c2, _ = execute(Chooser(), True, k)
            if e1 is None or e2 is None or str(e1) != str(e2):
                raise Violation('a failing loader is reported differently', bare=repr(e1), wrapped=repr(e2), call=k)
            if [list(map(call_id, c)) for c in c1] != [list(map(call_id, c)) for c in c2]:
                raise Violation('loaders are called differently before a failure', call=k)
            rec.traces += 1
            rec.states += 1
            rec.transitions += len(c1)
        return


    def one(ch):
        times = 2 if variant == 'plain' and len(items) == 1 else 1
        got, err, (high, low), n2 = execute(ch, True, times=times)
        if err is not None:
            raise err
        if got != bare:
            raise Violation('the wrapped graph returns something else', got=got, expected=bare)
        made = Counter(map(call_id, high + low))
        if made != Counter({k: v * times for k, v in want_calls.items()}):
            raise Violation('loaders get other arguments or are called another number of times', got=repr(made - want_calls),
                            expected=repr(want_calls - made))
        want = Counter()
        for c in high:
            want.update(('g',) + x for x in label(c))
        for it in items:
            if it[0] in ('one', 'two'):
                want[('g', 'Root', it[0])] += times
        for k, v in expressions(items).items():
            want[('g',) + k] += v * times
        if variant == 'twice':
            want.update({('outer',) + k[1:]: v for k, v in want.items()})
        if variant == 'low':
            for c in low:
                want.update(('low',) + x for x in label(c))
        if n2 != want:
            raise Violation('observations are not one for each field and link that was served',
                            missing=repr(want - n2), unexpected=repr(n2 - want))
        rec.outcome(sorted(n2.items()))
        return repr(sorted(n2.items()))
    explore(one, rec, max_execs=case['b'])


def expressions(items, node=None, out=None):
    """How many times each expression field is served: once per place (every place has objects)."""
    out = Counter() if out is None else out
    spec = SPEC['root'] if node is None else SPEC['nodes'][node]
    served = set()
    for it in items:
        name, sub = it[0], it[1] if len(it) > 1 else None
        if sub is None:
            served.add(name)
        else:
            link = spec['links'][name]
            served.add(link.get('req'))
            expressions(sub, link['to'], out)
    if node in ('H', 'K'):
        out.update((node, f) for f in served if f in ('x', 'e', 'es'))
    return out
