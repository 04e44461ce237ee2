"""C26: executions are isolated - repeated or concurrent runs do not affect each other."""
import asyncio
import copy
import itertools

from hiku.denormalize.graphql import DenormalizeGraphQL
from hiku.engine import Engine, pass_context
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.expr.core import S, define, each, if_some
from hiku.graph import Field, Graph, Link, Node, Option, Root, apply
from hiku.introspection.graphql import AsyncGraphQLIntrospection, GraphQLIntrospection
from hiku.query import Link as QLink, Node as QNode, Field as QField
from hiku.result import denormalize
from hiku.sources.graph import SubGraph
from hiku.validate.query import validate
from hiku import types as T

from ..aio import Env
from ..core import Violation
from ..endp import Executor
from ..sched import Chooser, MCExecutor, explore
from ..world import InjectedFault, World, canon, item4, mk_query, mk_type, with_root
from . import c14
from .. import sizes

PROPERTY = 'C26'
TECHNIQUE = ('explicit enumeration of all sequences of executions on one engine, graph and set of query objects, and stateless '
             'exploration of all interleavings of concurrent executions (with failures and cancellations) on a controlled '
             'asyncio loop')
LEVEL_NOTE = ('Every sequence up to the bound over 15 queries (all link kinds, mutable options and defaults, structured and '
              'expression fields, ordered, invalid and failing ones) and two graphs; every pair (thorough: also triples) of '
              'concurrent executions, deviation-bounded. Every value names the context of its execution, so a value that '
              'comes from another execution is visible. Executions in several threads at once are outside.')
NOTE = {
    'oracle': 'reference evaluator per execution with that execution\'s context; deep snapshots of graph, queries, options '
              'and contexts, taken before and compared after; all results are read again at the end',
}
E_ = ['rec', {'u': 'Str', 'w': ['opt', ['ref', 'W']]}]
LOW = {
    'data_types': {},
    'root': {'fields': {'k': {'f': 'LR'}}, 'links': {'l1': {'to': 'B', 'kind': 'One'}}},
    'nodes': {'A': {'fields': {'x': {'f': 'LA'}, 'y': {'f': 'LA2', 'opts': {'p': {'default': [1]}}}},
                    'links': {'bs': {'to': 'B', 'kind': 'Many', 'req': 'x'}, 'mb': {'to': 'B', 'kind': 'Maybe', 'req': 'x'}}},
              'B': {'fields': {'v': {'f': 'LB'}}, 'links': {}}},
    'edges': {'root.l1': 'b2', 'A.bs': {'a1': ['b1', 'b2'], 'a2': [], 'a3': ['b2']}, 'A.mb': {'a1': 'b1', 'a2': None, 'a3': 'b2'}},
}
TOP = {
    'data_types': {'E': E_, 'W': ['rec', {'u': 'Str'}]},
    'root': {'fields': {'f': {'f': 'R1'}, 'g': {'f': 'R2', 'opts': {'l': {'default': [1, {'a': 2}]}}}, 'm': {'f': 'R2', 'opts': {'i': {}}},
                        'eo': {'f': 'R1', 'type': ['opt', ['ref', 'E']]}, 'el': {'f': 'R1', 'type': ['seq', ['ref', 'E']], 'val': 2},
                        'bad': {'f': 'bad'}, 'short': {'f': 'short'}},
             'links': {'one': {'to': 'A', 'kind': 'One'}, 'mb': {'to': 'A', 'kind': 'Maybe', 'req': 'f'},
                       'many': {'to': 'A', 'kind': 'Many', 'opts': {'n': {'default': {'a': [0]}}}},
                       'h': {'to': 'H', 'kind': 'One'}, 'hs': {'to': 'H', 'kind': 'Many', 'req': 'f'}}},
    'nodes': {'A': {'fields': {'x': {'f': 'A1'}, 'bad2': {'f': 'bad2'}},
                    'links': {'b': {'to': 'B', 'kind': 'One', 'req': 'x'}, 'up': {'to': 'A', 'kind': 'Maybe', 'req': 'x'}}},
              'B': {'fields': {'v': {'f': 'B1'}}, 'links': {}},
              'H': {'fields': {'ex': {'f': 'E'}, 'ey': {'f': 'E'}, 'er': {'f': 'E'}, 'ek': {'f': 'E', 'opts': {'k': {'default': 'd'}}},
                               'x': {'f': 'E'}, 'hx': {'f': 'H1'}}, 'links': {}}},
    'edges': {'root.one': 'a1', 'root.mb': 'a2', 'root.many': ['a2', 'a1', 'a2'], 'A.b': {'a1': 'b1', 'a2': 'b2', 'a3': 'b1'},
              'A.up': {'a1': 'a2', 'a2': None, 'a3': 'a1'}, 'root.h': 'a1', 'root.hs': ['a3', 'a1', 'a2']},
}
OPT = {'a': [1, {'b': [2]}]}
QUERIES = [
    # (items, ordered, how it ends)
    ([['f'], ['g'], ['g', None, 'g2', {'l': [3, {'c': []}]}]], False, 'ok'),
    ([['one', [['x'], ['b', [['v']]]]], ['mb', [['up', [['x']]]]]], False, 'ok'),
    ([['many', [['x'], ['up', [['b', [['v']]]]]], None, {'n': OPT}], ['many', [['x']], 'm2']], False, 'ok'),
    ([['many', [['up', [['x']]]]], ['f', None, 'many2']], False, 'ok'),
    ([['eo', [['u'], ['w', [['u']]]]], ['el', [['u', None, 'w']]], ['f']], False, 'ok'),
    ([['h', [['ex'], ['ey', None, 'x'], ['ek', None, None, {'k': [1]}]]]], False, 'ok'),
    ([['hs', [['ek'], ['ek', None, 'k2', {'k': 'z'}], ['hx'], ['er', [['p'], ['q']]]]], ['h', [['x']]]], False, 'ok'),
    ([['one', [['x']]], ['g', None, None, {'l': [OPT]}], ['f'], ['hs', [['ex']]]], True, 'ok'),
    ([['f'], ['one', [['x']]], ['bad']], False, 'fault'),
    ([['many', [['bad2'], ['b', [['v']]]]], ['g']], False, 'fault'),
    ([['one', [['x']]], ['short']], False, 'TypeError'),
    ([['f'], ['m']], False, 'TypeError'),
    ([['m', None, None, {'i': 1}], ['m', None, 'n', {'i': True}]], False, 'ok'),
    ([], False, 'ok'),
    ([['hs', [['ey'], ['ex']]], ['many', [], None, {'n': OPT}], ['f']], False, 'ok'),
]


def bounds(tier):
    q = tier == 'quick'
    return {'sequence_length': 3 if q else 4, 'concurrent': 2 if q else 3, 'executions_per_pair': 60 if q else 600}


def cases(tier):
    b = bounds(tier)
    for n in range(1, b['sequence_length'] + 1):
        for head in range(len(QUERIES)):
            yield {'seq': n, 'head': head}
    for i in range(len(QUERIES)):
        for j in range(i, len(QUERIES)):
            for cancel in (False, True):
                yield {'pair': [i, j], 'cancel': cancel, 'b': b['executions_per_pair']}
            if tier != 'quick':
                for k in range(j, len(QUERIES)):
                    yield {'pair': [i, j, k], 'cancel': False, 'b': 40}
    for n in sizes.ladder(tier, 257 if tier == 'quick' else 2049):
        if n > b['sequence_length']:
            yield {'long': n}
    for n in sizes.ladder(tier, 33 if tier == 'quick' else 129):
        if n > 2:
            yield {'pair': [(i * i + n) % len(QUERIES) for i in range(n)], 'cancel': n % 2 == 0, 'b': 4}
            yield {'pair': [n % len(QUERIES)] * n, 'cancel': False, 'b': 2}
    for n in sizes.ladder(tier, 129 if tier == 'quick' else 513):
        yield {'many twins': n}
        yield {'many queries': n}
    for order in itertools.permutations(range(len(c14.TWINS)), 2 if tier == 'quick' else 4):
        for major in ('graph', 'query'):
            yield {'twins': list(order), 'major': major}
            yield {'twins': list(order), 'major': major, 'fresh': True}
    for i in range(len(QUERIES)):
        yield {'freed': i}


NO_CONTEXT = 'none'


class TaggedWorld(World):
    """Every loader takes the context; every value is marked with its tag."""
    tag = None

    def _finish_func(self, fname, load):
        def loader(ctx, *args):
            tag = ctx.get('tag', NO_CONTEXT)
            if set(ctx) != (set() if tag == NO_CONTEXT else {'tag', 'data'}):
                raise Violation('a loader sees another context', got=list(ctx))
            self.tag = tag
            try:
                if fname in ('bad', 'bad2'):
                    raise InjectedFault('fault of %s@%s' % (fname, tag))
                res = load(*args, ctx=ctx)
                return res + ['extra'] if fname == 'short' else res
            finally:
                self.tag = None
        loader.__name__ = fname
        return pass_context(self.wrap(loader) if self.wrap else loader)

    def field_value(self, fspec, name, opts, id_):
        v = super().field_value(fspec, name, opts, id_)
        return self.stamp_tag(v)

    def stamp_tag(self, v):
        if isinstance(v, str):
            return '%s@%s' % (v, self.tag)
        if isinstance(v, list):
            return [self.stamp_tag(x) for x in v]
        if isinstance(v, dict):
            return {k: self.stamp_tag(x) for k, x in v.items()}
        return v


class Setup:
    def __init__(self, wrap=None):
        self.low = TaggedWorld(LOW, wrap=wrap)
        self.top = TaggedWorld(TOP, wrap=wrap)
        low_graph = self.low.graph()
        sg = SubGraph(low_graph, 'A')
        top = self.top

        @define(T.Any, T.Any)
        def pack(a, b):
            return [a, b]

        @define(T.Any, T.Any)
        def record(a, b):
            return {'p': a, 'q': b}

        rec = T.Record[{'p': T.String, 'q': T.Any}]
        exprs = {
            'ex': (None, S.this.x, None),
            'ey': (None, pack(S.this.y, each(S.b, S.this.bs, S.b.v)), None),
            'er': (rec, record(S.this.x, if_some([S.b, S.this.mb], S.b.v, None)), None),
            'ek': (None, pack(pack(S.this.x, S.k), S.l1.v), [Option('k', None, default='d')]),
            'x': (None, None, None),
        }
        fields = []
        for name, (t, e, opts) in exprs.items():
            fields.append(Field(name, t, sg if e is None else sg.c(e), options=opts))
        fields.append(top.mk_field('hx', TOP['nodes']['H']['fields']['hx']))
        nodes = [Node('A', top.items_of('A')), Node('B', top.items_of('B')), Node('H', fields)]
        self.graph = Graph(with_root(nodes, top.items_of(None)), {k: mk_type(t) for k, t in TOP['data_types'].items()})
        self.low_graph = low_graph
        cls = AsyncGraphQLIntrospection if wrap else GraphQLIntrospection
        self.applied = apply(self.graph, [cls(self.graph)])
        self.executor = Executor()
        self.engine = Engine(self.executor)
        self.queries = [mk_query(items, ordered=o) for items, o, _ in QUERIES]

    def snapshot(self):
        return repr([[snap_graph(g) for g in (self.graph, self.low_graph, self.applied)], [snap_query(q) for q in self.queries]])


def snap_graph(g):
    return [[n.name, n.description, [snap_field(f) for f in n.fields]] for n in [g.root] + list(g.nodes)] + \
        [sorted(g.data_types)] + [repr(sorted(g.data_types.items(), key=lambda kv: kv[0]))]


def snap_field(f):
    common = [f.name, repr(f.type), id(f.func), f.description,
              [(o.name, repr(o.type), canon(o.default)) for o in f.options]]
    return common + [f.node, f.requires, str(f.type_enum)] if isinstance(f, Link) else common


def snap_query(q):
    if isinstance(q, QNode):
        return ['node', q.ordered, [snap_query(f) for f in q.fields]]
    opts = canon(q.options)
    if isinstance(q, QLink):
        return ['link', q.name, q.alias, opts, snap_query(q.node)]
    return ['field', q.name, q.alias, opts]


def h_value(low, name, opts, id_):
    val = low.field_value
    fs = LOW['nodes']['A']['fields']
    x = val(fs['x'], 'x', None, id_)
    v = lambda b: val(LOW['nodes']['B']['fields']['v'], 'v', None, b)
    if name in ('ex', 'x'):
        return x
    if name == 'ey':
        return [val(fs['y'], 'y', {'p': [1]}, id_), [v(b) for b in LOW['edges']['A.bs'][id_]]]
    if name == 'er':
        b = LOW['edges']['A.mb'][id_]
        return {'p': x, 'q': None if b is None else v(b)}
    return [[x, (opts or {}).get('k', 'd')], v('b2')]


def reference(tag, index):
    items = QUERIES[index][0]
    top, low = TaggedWorld(TOP), TaggedWorld(LOW)
    top.tag = low.tag = tag

    def ev(items, node, id_):
        spec = top.node_spec(node)
        res = {}
        for it in items:
            name, sub, alias, given = item4(it)
            if node == 'H' and name != 'hx':
                x = h_value(low, name, given, id_)
                if sub is not None:
                    x = {i[0]: x[i[0]] for i in sub}
            elif name in spec['fields']:
                f = spec['fields'][name]
                x = top.field_value(f, name, top.effective(f.get('opts'), given), id_)
                if sub is not None:
                    x = top.select(f['type'], x, sub)
            else:
                l = spec['links'][name]
                opts = top.effective(l.get('opts'), given) if l.get('opts') else None
                t = top.targets(node, name, l, opts, id_ if l.get('req') else None)
                x = None if t is None else [ev(sub, l['to'], i) for i in t] if isinstance(t, list) else ev(sub, l['to'], t)
            res[alias or name] = x
        return res
    return ev(items, None, None)


EXPECTED = {}


def expected(tag, index):
    how = QUERIES[index][2]
    if how != 'ok':
        return how
    key = (tag, index)
    if key not in EXPECTED:
        EXPECTED[key] = reference(tag, index)
    return EXPECTED[key]


def outcome(status, value):
    if status == 'ok':
        return 'ok'
    if isinstance(value, InjectedFault):
        return 'fault'
    return type(value).__name__


def judge(setup, graph, tag, index, status, value, first=True):
    """status/value: the outcome of an execution; compared with what it gives alone."""
    want = expected(tag, index)
    if isinstance(want, str):
        if outcome(status, value) != want:
            raise Violation('execution %s of query %d ends differently' % (tag, index), got=repr(value), expected=want)
        if want == 'fault' and not str(value).endswith('@%s' % tag):
            raise Violation('execution %s gets an error of another one' % tag, got=str(value))
        return want
    if status != 'ok':
        raise Violation('execution %s of query %d fails' % (tag, index), got=repr(value), expected=want)
    got = denormalize(graph, value)
    if got != want:
        raise Violation('execution %s of query %d gives another result' % (tag, index), got=got, expected=want)
    return want


def mk_ctx(tag):
    return {'tag': tag, 'data': [tag, {'nested': [1]}]}


SETUPS = []


def sequence(setup, idxs, alt, ch):
    """Executes the queries one after another on the shared objects; each tag is one execution.

    alt: every second execution is on the other graph (True) or gets no context ('bare')."""
    snap = setup.snapshot()
    results = []
    for n, i in enumerate(idxs):
        bare = alt == 'bare' and n % 2
        tag = NO_CONTEXT if bare else 't%d' % n
        graph = setup.applied if alt is True and n % 2 else setup.graph
        ctx = mk_ctx(tag)
        setup.executor.current = MCExecutor(ch, max_full=2)
        setup.top.calls, setup.low.calls = [], []
        errors = validate(graph, setup.queries[i])
        if bool(errors) != (i == 11):
            raise Violation('validation of query %d depends on what was executed before' % i, got=errors)
        try:
            r = 'ok', setup.engine.execute(graph, setup.queries[i], *([] if bare else [ctx]))
        except Violation:
            raise
        except Exception as e:
            r = 'raise', e
        if ctx != mk_ctx(tag):
            raise Violation('the context is changed', got=ctx)
        judge(setup, graph, tag, i, *r)
        count = (len(setup.top.calls), len(setup.low.calls))
        if CALLS.setdefault(i, count) != count and QUERIES[i][2] == 'ok':
            raise Violation('execution %s of query %d calls other loaders than before' % (tag, i), got=count, expected=CALLS[i])
        results.append((graph, tag, i) + r)
    for graph, tag, i, status, value in results:
        judge(setup, graph, tag, i, status, value)
        if status == 'ok':
            data = DenormalizeGraphQL(graph, value, 'Query').process(setup.queries[i])
            if data != expected(tag, i):
                raise Violation('the result of execution %s is changed by later ones' % tag, got=data, expected=expected(tag, i))
    if setup.snapshot() != snap:
        raise Violation('graph or queries are changed by executing them')


CALLS = {}


def concurrent(case, rec):
    idxs = case['pair']

    def one(ch):
        env = Env(ch, max_full=2)
        try:
            def wrap(func):
                async def loader(ctx, *args):
                    await env.gate((func.__name__, ctx['tag']))
                    return func(ctx, *args)
                loader.__name__ = func.__name__
                return loader
            setup = Setup(wrap)
            snap = setup.snapshot()
            setup.executor.current = AsyncIOExecutor(env.loop)
            ctxs = [mk_ctx('t%d' % n) for n in range(len(idxs))]
            tasks = []
            cancelled = []

            def on_iteration(idle):
                if cancelled or not tasks or tasks[0].done():
                    return
                if ch.choose(2, 'cancel'):
                    cancelled.append(True)
                    tasks[0].cancel()
            if case['cancel']:
                env.on_iteration = on_iteration

            async def execute(n):
                return await setup.engine.execute(setup.graph, setup.queries[idxs[n]], ctxs[n])

            async def main():
                for n in range(len(idxs)):
                    tasks.append(asyncio.get_running_loop().create_task(execute(n)))
                return await asyncio.gather(*tasks, return_exceptions=True)
            status, value = env.run(main())
            if status != 'ok':
                raise value
            for n, (i, v) in enumerate(zip(idxs, value)):
                if n == 0 and cancelled and isinstance(v, asyncio.CancelledError):
                    continue
                failed = isinstance(v, BaseException)
                judge(setup, setup.graph, 't%d' % n, i, 'raise' if failed else 'ok', v)
            for n, ctx in enumerate(ctxs):
                if ctx != mk_ctx('t%d' % n):
                    raise Violation('the context is changed', got=ctx)
            if setup.snapshot() != snap:
                raise Violation('graph or queries are changed by executing them')
            rec.outcome((idxs, env.log))
            return repr(env.log)
        finally:
            env.close()
    explore(one, rec, max_execs=case['b'])


def with_typenames(spec, items, node=None):
    return [['__typename']] + [[i[0], with_typenames(spec, i[1], spec_to(spec, node, i[0]))] + i[2:]
                               if len(i) > 1 and i[1] is not None and is_link(spec, node, i[0]) else i for i in items]


def is_link(spec, node, name):
    return name in (spec['root'] if node is None else spec['nodes'][node])['links']


def spec_to(spec, node, name):
    return (spec['root'] if node is None else spec['nodes'][node])['links'][name]['to']


def twins(case, rec):
    """Graphs that use the same names with other meanings, all served by one engine from the same query objects."""
    worlds = [(i, World(c14.TWINS[i])) for i in case['twins']]
    graphs = {i: w.graph() for i, w in worlds}
    executor = Executor()
    engine = Engine(executor)
    queries = [mk_query(items) for items in c14.TWIN_QUERIES]
    steps = [(w, q) for w in worlds for q in range(len(queries))] if case['major'] == 'graph' else \
        [(w, q) for q in range(len(queries)) for w in worlds]
    snap = repr([snap_query(q) for q in queries])
    results = []
    for (i, w), n in steps:
        items, spec = c14.TWIN_QUERIES[n], c14.TWINS[i]
        if not c14.valid_in(spec, items):
            continue
        if validate(graphs[i], queries[n]):
            raise Violation('twin %d: a valid query is rejected' % i, items=items)
        executor.current = MCExecutor(Chooser())
        want = w.evaluate(items)
        calls = len(w.calls)
        result = engine.execute(graphs[i], queries[n])
        if {c.key() for c in w.calls[calls:]} != set(w.expected_calls(items)):
            raise Violation('twin %d: other loader calls' % i, items=items, got=w.calls[calls:])
        results.append((i, n, items, result, want))
        rec.traces += 1
        rec.states += 1
        rec.transitions += len(w.calls) - calls
        rec.outcome([i, items])
    for i, n, items, result, want in results:
        got = denormalize(graphs[i], result)
        if got != want:
            raise Violation('twin %d: another result' % i, items=items, got=got, expected=want)
        got = DenormalizeGraphQL(graphs[i], result, 'Query').process(queries[n])
        if got != want:
            raise Violation('twin %d: another GraphQL result' % i, items=items, got=got, expected=want)
        named = mk_query(with_typenames(c14.TWINS[i], items))
        names = [DenormalizeGraphQL(graphs[i], result, t).process(named).get('__typename') for t in ('Query', 'Other')]
        if names != ['Query', 'Other']:
            raise Violation('twin %d: root type name' % i, items=items, got=names)
    if repr([snap_query(q) for q in queries]) != snap:
        raise Violation('queries are changed by executing them')


def twins_fresh(case, rec):
    """The same with graphs and queries that exist for one execution only: objects made later take their place in memory."""
    executor = Executor()
    engine = Engine(executor)
    n = range(len(c14.TWIN_QUERIES))
    steps = [(i, q) for i in case['twins'] for q in n] if case['major'] == 'graph' else [(i, q) for q in n for i in case['twins']]
    for i, q in steps + steps:
        items = c14.TWIN_QUERIES[q]
        w = World(c14.TWINS[i])
        graph, query = w.graph(), mk_query(items)
        good = c14.valid_in(c14.TWINS[i], items)
        if good == bool(validate(graph, query)):
            raise Violation('twin %d: wrong verdict on a query' % i, items=items, expected=good)
        if not good:
            continue
        executor.current = MCExecutor(Chooser())
        want = w.evaluate(items)
        result = engine.execute(graph, query)
        if {c.key() for c in w.calls} != set(w.expected_calls(items)):
            raise Violation('twin %d: other loader calls' % i, items=items, got=w.calls)
        got = [denormalize(graph, result), DenormalizeGraphQL(graph, result, 'Query').process(query)]
        if got != [want, want]:
            raise Violation('twin %d: another result' % i, items=items, got=got, expected=want)
        rec.traces += 1
        rec.states += 1
        rec.transitions += len(w.calls)
        rec.outcome([i, items])
        del graph, query, result


def freed(case, rec):
    """Queries that exist for one execution only."""
    if not SETUPS:
        SETUPS.append(Setup())
    setup = SETUPS[0]
    for j in range(len(QUERIES)):
        for n, i in enumerate((case['freed'], j) * 3):
            tag = 'f%d' % n
            query = mk_query(QUERIES[i][0], ordered=QUERIES[i][1])
            setup.executor.current = MCExecutor(Chooser())
            if bool(validate(setup.graph, query)) != (i == 11):
                raise Violation('validation of query %d depends on what was executed before' % i)
            try:
                r = 'ok', setup.engine.execute(setup.graph, query, mk_ctx(tag))
            except Violation:
                raise
            except Exception as e:
                r = 'raise', e
            judge(setup, setup.graph, tag, i, *r)
            if r[0] == 'ok':
                got = DenormalizeGraphQL(setup.graph, r[1], 'Query').process(query)
                if got != expected(tag, i):
                    raise Violation('execution %s of query %d gives another GraphQL result' % (tag, i), got=got, expected=expected(tag, i))
            rec.traces += 1
            rec.states += 1
            rec.transitions += 1
            rec.outcome([i])
            del query, r


def long_run(n, rec):
    """n executions on the shared objects: of one query, of all in turn, of one again and again between others."""
    if not SETUPS:
        SETUPS.append(Setup())
    q = len(QUERIES)
    for idxs in ([n % q] * n, [(i * 4 + n) % q for i in range(n)], [[(i // 2) % q, n * 2 % q][i % 2] for i in range(n)]):
        for alt in (False, True, 'bare'):
            sequence(SETUPS[0], idxs, alt, Chooser())
            rec.traces += 1
            rec.states += n
            rec.transitions += n
            rec.outcome(idxs)


def many_twins(n, rec):
    """One engine serves n graphs that use the same names with other meanings."""
    executor = Executor()
    engine = Engine(executor)
    kinds = ['One', 'Maybe', 'Many']
    made = []
    items = [['f'], ['g', None, 'g2'], ['l', [['x'], ['up', [['x']]]]]]
    query = mk_query(items)

    def one(i):
        spec = {'root': {'fields': {'f': {'f': 'F%d' % i}, 'g': {'f': 'G', 'opts': {'o': {'default': i}}}},
                         'links': {'l': {'to': 'A' if i % 2 else 'B', 'kind': kinds[i % 3], 'req': 'f'}}},
                'nodes': {x: {'fields': {'x': {'f': '%s%d' % (x, i)}}, 'links': {'up': {'to': 'B', 'kind': kinds[(i + k) % 3], 'req': 'x'}}}
                          for k, x in enumerate(['A', 'B'])}, 'edges': {}}
        w = World(spec)
        made.append((w, w.graph()))

    def go(i):
        w, graph = made[i]
        executor.current = MCExecutor(Chooser())
        want = w.evaluate(items)
        calls = len(w.calls)
        if validate(graph, query):
            raise Violation('graph %d of %d: a valid query is rejected' % (i, n))
        result = engine.execute(graph, query)
        got = [denormalize(graph, result), DenormalizeGraphQL(graph, result, 'Query').process(query)]
        if got != [want, want]:
            raise Violation('graph %d of %d: another result' % (i, n), got=got, expected=want)
        if {c.key() for c in w.calls[calls:]} != set(w.expected_calls(items)):
            raise Violation('graph %d of %d: other loader calls' % (i, n), got=w.calls[calls:])
        rec.traces += 1
        rec.states += 1
    for i in range(n):
        one(i)
        go(i)
        go(i // 2)
    for i in range(n):
        go((i * 3) % n)
    rec.outcome(n)


def many_queries(n, rec):
    """n different queries on one graph, each of them again after the others."""
    if not SETUPS:
        SETUPS.append(Setup())
    setup = SETUPS[0]
    t = TaggedWorld(TOP)
    t.tag = 'q'
    queries = []
    for i in range(n):
        items = [['g', None, 'g%d' % (i // 2), {'l': [i]}], ['f', None, 'f%d' % i], ['one', [['x', None, 'x%d' % (i // 3)]], 'one' if i % 2 else None],
                 ['many', [['x']], None, {'n': i}]]
        spec = TOP['root']
        want = {'g%d' % (i // 2): t.field_value(spec['fields']['g'], 'g', {'l': [i]}, None),
                'f%d' % i: t.field_value(spec['fields']['f'], 'f', None, None),
                'one': {'x%d' % (i // 3): t.field_value(TOP['nodes']['A']['fields']['x'], 'x', None, 'a1')},
                'many': [{'x': t.field_value(TOP['nodes']['A']['fields']['x'], 'x', None, a)} for a in TOP['edges']['root.many']]}
        queries.append((mk_query(items), want))
    for k in list(range(n)) + [(i * 5) % n for i in range(n)]:
        query, want = queries[k]
        setup.executor.current = MCExecutor(Chooser())
        errors = validate(setup.graph, query)
        got = denormalize(setup.graph, setup.engine.execute(setup.graph, query, mk_ctx('q')))
        if errors or got != want:
            raise Violation('query %d of %d gives another result' % (k, n), got=got, expected=want, errors=errors)
        rec.traces += 1
        rec.states += 1
    rec.outcome(n)


def run(case, rec):
    if 'long' in case:
        return long_run(case['long'], rec)
    if 'many twins' in case:
        return many_twins(case['many twins'], rec)
    if 'many queries' in case:
        return many_queries(case['many queries'], rec)
    if 'freed' in case:
        return freed(case, rec)
    if case.get('fresh'):
        return twins_fresh(case, rec)
    if 'twins' in case:
        return twins(case, rec)
    if 'pair' in case:
        return concurrent(case, rec)
    if not SETUPS:
        SETUPS.append(Setup())
    setup = SETUPS[0]
    n, head = case['seq'], case['head']
    for rest in itertools.product(range(len(QUERIES)), repeat=n - 1):
        for alt in (False, True, 'bare'):
            idxs = (head,) + rest
            if n <= 2:
                explore(lambda ch: sequence(setup, idxs, alt, ch), rec, max_execs=8)
            else:
                sequence(setup, idxs, alt, Chooser())
                rec.traces += 1
                rec.states += n
                rec.transitions += n
            rec.outcome(idxs)
