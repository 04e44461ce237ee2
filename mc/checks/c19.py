"""C19: graph transformations preserve behaviour and never modify their input."""
import itertools

from prometheus_client import CollectorRegistry, Summary

from hiku import types as T
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.expr.core import S, define, each, if_some
from hiku.graph import Field, Graph, GraphTransformer, Link, Node, Nothing, Option, Root, apply
from hiku.introspection.graphql import GraphQLIntrospection
from hiku.query import merge
from hiku.result import denormalize
from hiku.sources.graph import SubGraph
from hiku.telemetry.prometheus import GraphMetrics
from hiku.validate.query import validate

from .. import sizes
from ..core import Violation
from ..sched import MCExecutor, explore
from ..world import World, item4, mk_options, mk_query, mk_type

PROPERTY = 'C19'
TECHNIQUE = ('explicit enumeration of chains of transformers over several graphs; every query of the family is executed on the '
             'transformed and on the original graph (small ones under every completion order), against the reference '
             'evaluator and the loader calls of the original graph')
LEVEL_NOTE = ('Every chain up to the length over the identity transformation, a subclass of it, introspection (at most once) and '
              'metrics, applied to low-level and high-level graphs; every query up to the selection bound.')
NOTE = {
    'alphabet': 'transformers; graphs with shared loaders, options, defaults, descriptions, requirements, structured types, '
                'several root definitions, context loaders and expression fields',
    'choices': 'chains, queries and (for small queries) completion orders are enumerated',
    'oracle': 'reference evaluation, loader calls of the untransformed graph, snapshots of all definitions',
}

REC = ['rec', {'p': 'Str', 'n': ['opt', ['ref', 'D2']]}]
OPTS = {'i': {'type': 'Int', 'default': 1, 'doc': 'int'}, 's': {'type': ['opt', 'Str'], 'default': None},
        'l': {'type': ['seq', 'Int'], 'default': [1, 2]}}
REQ = {'r': {'type': 'Int', 'doc': 'required'}, 'd': {'type': ['ref', 'D2'], 'default': {'u': 'x'}}}
SPEC = {
    'data_types': {'D': REC, 'D2': ['rec', {'u': 'Str'}], 'L': ['seq', 'Int'], 'O': ['opt', ['ref', 'D2']], 'M': ['map', 'Str', 'Int'],
                   'S': 'Str', 'E': ['seq', ['ref', 'D']]},
    'root': {'fields': {'f': {'f': 'R', 'doc': 'field f', 'type': 'Str'}, 'g': {'f': 'SH'}, 'o': {'f': 'R', 'opts': OPTS},
                        'q': {'f': 'SH', 'opts': REQ, 'doc': 'with required'}, 'rec': {'f': 'R2', 'type': ['seq', ['ref', 'D']]}},
             'links': {'one': {'to': 'A', 'kind': 'One', 'doc': 'one a'}, 'many': {'to': 'A', 'kind': 'Many', 'req': 'f'},
                       'lo': {'to': 'A', 'kind': 'Maybe', 'opts': OPTS}}},
    'nodes': {'A': {'fields': {'x': {'f': 'AX', 'doc': 'x of a'}, 'y': {'f': 'SH'}, 'z': {'f': 'AX', 'opts': OPTS}, '_h': {'f': 'AX'},
                               'eo': {'f': 'SH', 'type': ['opt', REC]}},
                    'links': {'b': {'to': 'B', 'kind': 'One', 'req': 'x', 'doc': 'to b'},
                              'bs': {'to': 'B', 'kind': 'Many', 'req': '_h', 'opts': REQ}, 'up': {'to': 'A', 'kind': 'Maybe', 'req': 'z'}}},
              'B': {'fields': {'v': {'f': 'SH'}, 'w': {'f': 'B'}}, 'links': {}}},
    'edges': {'root.one': 'a1', 'root.many': ['a2', 'a1'], 'root.lo': 'a2', 'A.b': {'a1': 'b1', 'a2': 'b1'},
              'A.bs': {'a1': ['b2', 'b1'], 'a2': []}, 'A.up': {'a1': 'a2', 'a2': None}},
}
LEAFS = {'root': [['f'], ['g'], ['o'], ['o', None, None, {'i': 2}], ['q', None, 'k', {'r': 1}]], 'A': [['x'], ['y'], ['z'], ['_h']],
         'B': [['v'], ['w']], 'D': [['p']], 'D2': [['u']], 'H': [['x'], ['e', None, None, {'k': 7}], ['e2'], ['e3']]}
LINKS = {'root': [('one', None, None, 'A'), ('many', None, None, 'A'), ('lo', 'one', {'i': 3}, 'A'), ('rec', None, None, 'D')],
         'A': [('b', None, None, 'B'), ('bs', None, {'r': 5}, 'B'), ('up', None, None, 'A'), ('eo', None, None, 'D')],
         'D': [('n', None, None, 'D2')], 'B': [], 'D2': [], 'H': []}
CTX = {'token': 'T'}


def selections(where, size, depth):
    if size == 0:
        yield []
        return
    for leaf in LEAFS[where]:
        for rest in selections(where, size - 1, depth):
            if leaf not in rest:
                yield [leaf] + rest
    if depth > 1:
        for name, alias, opts, to in LINKS[where]:
            for k in range(1, size):
                for sub in selections(to, k, depth - 1):
                    for rest in selections(where, size - 1 - k, depth):
                        yield [[name, sub, alias, opts]] + rest


STEPS = ('id', 'sub', 'intro', 'metrics')


def chains(n):
    for k in range(1, n + 1):
        for c in itertools.product(STEPS, repeat=k):
            if c.count('intro') <= 1:
                yield list(c)


def bounds(tier):
    deep = tier != 'quick'
    return {'chain_length': 4 if deep else 3, 'selections': 4 if deep else 3, 'scheduled_selections': 3 if deep else 2,
            'executions_per_scheduled_query': 200 if deep else 30}


def cases(tier):
    b = bounds(tier)
    for c in sizes.cases(tier, ('fields', 'loaders', 'links', 'mixed-links', 'link-aliases', 'options', 'depth', 'record', 'items', 'objects', 'words')):
        if c['n'] <= (129 if tier == 'quick' else 513):
            for chain in [list(c) for c in chains(2)] if c['n'] < 20 or tier != 'quick' else [['id'], ['intro'], ['metrics'], ['sub', 'intro']]:
                yield dict(c, k='size', chain=chain)
    for shape in ('nodes', 'roots', 'types', 'chain'):
        for n in sizes.ladder(tier, (129 if tier == 'quick' else 513) if shape != 'chain' else 33):
            for chain in (['id'], ['intro'], ['metrics'], ['metrics', 'sub']):
                yield {'k': 'size', 'shape': shape, 'n': n, 'chain': chain * n if shape == 'chain' and chain != ['intro'] else chain}
    for kind in ('plain', 'two roots', 'nodes last'):
        for c in chains(b['chain_length']):
            n = b['selections'] if len(c) < 3 else b['selections'] - 1
            yield {'k': kind, 'chain': c, 'n': n, 'sched': b['scheduled_selections'] if len(c) < 3 else 0,
                   'cap': b['executions_per_scheduled_query']}
    for low in [[]] + list(chains(2)):
        for high in [[]] + list(chains(2)):
            if low or high:
                yield {'k': 'expr', 'low': low, 'chain': high, 'n': 2, 'cap': b['executions_per_scheduled_query'],
                       'sched': 1 if tier == 'quick' else 2}


# -- snapshots of definitions, through public attributes only

def tsnap(t):
    if t is None:
        return None
    if isinstance(t, T.OptionalMeta):
        return ('opt', tsnap(t.__type__))
    if isinstance(t, T.SequenceMeta):
        return ('seq', tsnap(t.__item_type__))
    if isinstance(t, T.MappingMeta):
        return ('map', tsnap(t.__key_type__), tsnap(t.__value_type__))
    if isinstance(t, T.RecordMeta):
        return ('rec', tuple((k, tsnap(v)) for k, v in t.__field_types__.items()))
    if isinstance(t, T.TypeRefMeta):
        return ('ref', t.__type_name__)
    return repr(t)


def osnap(o):
    return (o.name, tsnap(o.type), 'required' if o.default is Nothing else repr(o.default), o.description)


def isnap(f, ident):
    res = [f.name, tsnap(f.type), tuple(osnap(o) for o in f.options), f.description]
    if isinstance(f, Link):
        res += ['link', f.requires, f.node, repr(f.type_enum)]
    if ident:
        res += [id(f), id(f.func), tuple(id(o) for o in f.options)]
    return tuple(res)


def snapshot(graph, ident=False):
    items = [(id(i) if ident else None, i.name, i.description, tuple(isnap(f, ident) for f in i.fields)) for i in graph.items]
    return [i for i in items if i[1] is not None], [i for i in items if i[1] is None], \
        sorted((k, tsnap(t)) for k, t in graph.data_types.items())


def made(items, data_types=None):
    """A graph out of definitions; the definitions stay what they were and can be used for another graph."""
    def snap():
        return [(id(i), i.name, i.description, tuple(isnap(f, True) for f in i.fields)) for i in items], \
            sorted((k, tsnap(t)) for k, t in (data_types or {}).items())
    before = snap()
    graph = Graph(items, data_types)
    if snap() != before:
        raise Violation('building a graph modified the definitions it is made of', got=repr(snap()), expected=repr(before))
    again = Graph(items, data_types)
    if snap() != before:
        raise Violation('building another graph modified the definitions', got=repr(snap()), expected=repr(before))
    if snapshot(again) != snapshot(graph):
        raise Violation('two graphs made of the same definitions differ')
    return graph


def visible(snap):
    """Definitions without what introspection adds."""
    nodes, roots, types = snap
    keep = [(n[1], n[2], tuple(f for f in n[3] if not f[0].startswith('__'))) for n in nodes if not n[1].startswith('__')]
    root = tuple(f for r in roots for f in r[3] if not f[0].startswith('__'))
    return keep, root, types


# -- graphs

class TWorld(World):

    def mk_field(self, name, f):
        return Field(name, mk_type(f.get('type')), self.field_loader(f['f']), options=self.opts(f), description=f.get('doc'))

    def mk_link(self, node, name, l):
        from ..world import link_type
        return Link(name, link_type(l), self.link_loader(node, name, l), requires=l.get('req'), options=self.opts(l),
                    description=l.get('doc'))

    def opts(self, f):
        ops = mk_options(f.get('opts'))
        for op in ops or ():
            op.description = f['opts'][op.name].get('doc')
        return ops

    def build(self, kind):
        nodes = [Node('A', self.items_of('A'), description='node a'), Node('B', self.items_of('B'))]
        items = self.items_of(None)
        if kind == 'two roots':
            half = len(items) // 2
            roots = [Root(items[:half]), Root(items[half:])]
        else:
            roots = [Root(items)]
        dt = {k: mk_type(t) for k, t in self.data_types_spec.items()}
        if kind == 'nodes last':
            return made(roots + nodes[::-1], dt)
        if kind == 'two roots':
            return made([roots[0]] + nodes + [roots[1]], dt)
        return made(nodes + roots, dt)


class Sub(GraphTransformer):
    pass


def steps(chain, graph):
    res = []
    for c in chain:
        if c == 'id':
            res.append(GraphTransformer())
        elif c == 'sub':
            res.append(Sub())
        elif c == 'intro':
            res.append(GraphQLIntrospection(graph))
        else:
            res.append(GraphMetrics('g', metric=Summary('x', 'x', ['graph', 'node', 'field'], registry=CollectorRegistry())))
    return res


@define(T.Record[{'x': T.Any, 'b': T.Record[{'v': T.Any}]}])
def both(a):
    return '%s&%s' % (a['x'], a['b']['v'])


def high_graph(low, world):
    sub = SubGraph(low, 'A')
    items = [
        Node('H', [
            Field('x', None, sub, description='same name'),
            Field('e', T.String, sub.c([S.this.x, S.k]), options=[Option('k', T.Integer, default=3, description='k')]),
            Field('e2', None, sub.c(both(S.this))),
            Field('e3', None, sub.c(if_some([S.u, S.this.up], [S.u.x, S.g, each(S.i, S.many, S.i.b.w)], 'none'))),
        ], description='high'),
        Root([Link('hs', T.Sequence[T.TypeRef['H']], hs_link(world), requires=None, description='hs')]),
    ]
    return made(items)


def hs_link(world):
    def link():
        world.log.append('hs')
        return ['a1', 'a2']
    return link


def calls(world):
    return sorted(repr(c.key()) + repr(c.ctx['token'] if c.ctx is not None else None) for c in world.calls)


def expr_object(world, items, i):
    a, b = SPEC['nodes']['A'], SPEC['nodes']['B']

    def x(i):
        return world.field_value(a['fields']['x'], 'x', None, i)

    def fb(name, i):
        return world.field_value(b['fields'][name], name, None, SPEC['edges']['A.b'][i])
    up = SPEC['edges']['A.up'][i]
    vals = {'x': x(i), 'e': [x(i), 7], 'e2': '%s&%s' % (x(i), fb('v', i)),
            'e3': 'none' if up is None else [x(up), world.field_value({'f': 'SH'}, 'g', None, None), [fb('w', 'a2'), fb('w', 'a1')]]}
    return {item4(it)[2] or it[0]: vals[it[0]] for it in items}


class Setup:
    """The original graph, the chain applied to it, and what runs on both."""

    def __init__(self, case):
        self.case = case
        self.expr = case['k'] == 'expr'
        self.worlds = [TWorld(SPEC, ctx_loaders=('SH',)) for _ in range(2)]
        for w in self.worlds:
            w.log = []
        if self.expr:
            # the bare graphs on one side, the transformed ones on the other
            low = self.worlds[1].build('plain')
            self.low = low
            low2 = apply(low, steps(case['low'], low))
            if case['low']:
                self.compare(low, low2)
            high = high_graph(low2, self.worlds[1])
            self.originals = [(low, snapshot(low, True)), (low2, snapshot(low2, True)), (high, snapshot(high, True))]
            self.bare = high_graph(self.worlds[0].build('plain'), self.worlds[0])
            self.graph = apply(high, steps(case['chain'], high)) if case['chain'] else high
            self.compare(high, self.graph)
        else:
            orig = self.worlds[1].build(case['k'])
            snap = snapshot(orig, True)
            self.graph = apply(orig, steps(case['chain'], orig))
            self.originals = [(orig, snap)]
            self.bare = self.worlds[0].build(case['k'])
            self.compare(orig, self.graph)
        self.unmodified('applying the transformers')

    def compare(self, before, after):
        a, b = visible(snapshot(before)), visible(snapshot(after))
        if a != b:
            raise Violation('the transformed graph has other definitions', got=repr(b), expected=repr(a))

    def unmodified(self, what):
        for graph, snap in self.originals:
            if snapshot(graph, True) != snap:
                raise Violation('%s modified the original graph' % what)

    def want(self, world, items):
        if self.expr:
            return {'hs': [expr_object(world, items[0][1], i) for i in ('a1', 'a2')]}
        return world.evaluate(items)

    def execute(self, side, items, executor):
        world = self.worlds[side]
        world.calls, world.log, world.events = [], [], []
        graph = self.graph if side else self.bare
        query = merge([mk_query(items)])
        result = Engine(executor).execute(graph, query, CTX)
        return denormalize(graph, result), calls(world) + world.log


def family(case):
    if case['k'] == 'expr':
        for n in range(1, case['n'] + 1):
            for s in selections('H', n, 1):
                yield n, [['hs', s]]
        yield 4, [['hs', LEAFS['H']]]
    else:
        for n in range(1, case['n'] + 1):
            for s in selections('root', n, 3):
                yield n, s


def sized_spec(case):
    shape, n = case['shape'], case['n']
    if shape == 'types':
        types = {'T%d' % i: [['rec', {'u': 'Str', 'n': ['ref', 'T%d' % (i + 1)]}], ['seq', ['ref', 'T%d' % (i + 1)]],
                             ['opt', ['ref', 'T%d' % (i + 1)]]][i % 3] for i in range(n)}
        types['T%d' % n] = ['rec', {'u': 'Str'}]
        return {'data_types': types, 'root': {'fields': {'f%d' % i: {'f': 'L', 'type': ['ref', 'T%d' % (i - i % 3)]} for i in range(n)}, 'links': {}},
                'nodes': {}, 'edges': {}}, [['f%d' % i, [['u']]] for i in range(n)]
    if shape in ('nodes', 'roots'):
        nodes = {'N%d' % i: {'fields': {'x': {'f': 'X%d' % (i % 7)}}, 'links': {'l': {'to': 'N%d' % ((i + 1) % n), 'kind': 'One', 'req': 'x'}}} for i in range(n)}
        edges = {'N%d.l' % i: {'a1': 'a1'} for i in range(n)}
        return {'root': {'fields': {'f%d' % i: {'f': 'R%d' % (i % 5)} for i in range(n)}, 'links': {'m%d' % i: {'to': 'N%d' % i, 'kind': 'Many', 'req': 'f%d' % i} for i in range(n)}},
                'nodes': nodes, 'edges': dict(edges, **{'root.m%d' % i: ['a1'] for i in range(n)})}, \
            [['f%d' % i] for i in range(n)] + [['m%d' % i, [['x'], ['l', [['x']]]]] for i in range(n)]
    if shape == 'chain':
        return sizes.make({'shape': 'mixed-links', 'n': 3})
    return sizes.make(case)


def run_sized(case, rec):
    spec, items = sized_spec(case)
    world = TWorld(spec)
    types = {k: mk_type(t) for k, t in spec.get('data_types', {}).items()}
    root = world.items_of(None)
    roots = [Root([x]) for x in root] if case['shape'] == 'roots' else [Root(root)]
    orig = made([Node(n, world.items_of(n)) for n in spec['nodes']] + roots, types)
    snap = snapshot(orig, True)
    graph = apply(orig, steps(case['chain'], orig))
    a, b = visible(snapshot(orig)), visible(snapshot(graph))
    if a != b:
        raise Violation('the transformed graph has other definitions', got=repr(b)[:2000], expected=repr(a)[:2000])
    want = world.evaluate(items)
    seen = []
    for g in (orig, graph, apply(orig, steps(case['chain'], orig)), graph):
        world.calls, world.events = [], []
        errors = validate(g, mk_query(items))
        if errors:
            raise Violation('the query is rejected', errors=repr(errors[:3]))
        got = denormalize(g, Engine(SyncExecutor()).execute(g, merge([mk_query(items)]), CTX))
        if got != want:
            raise Violation('the %s graph answers wrongly' % ('original' if g is orig else 'transformed'), got=got, expected=want)
        seen.append(calls(world))
        if seen[-1] != seen[0]:
            raise Violation('other loader calls were made on the transformed graph')
        rec.traces += 1
        rec.states += 1
        rec.transitions += 1
    if snapshot(orig, True) != snap:
        raise Violation('the original graph was modified')
    rec.outcome(len(seen[0]))


def run(case, rec):
    if case['k'] == 'size':
        return run_sized(case, rec)
    setup = Setup(case)
    for size, items in family(case):
        errors = [str(e) for e in validate(setup.graph, mk_query(items))]
        before = [str(e) for e in validate(setup.bare, mk_query(items))]
        if bool(errors) != bool(before):
            raise Violation('the transformed graph and the original one accept different queries', query=repr(items),
                            errors=repr(errors), original=repr(before))
        if errors:
            rec.count('not_valid')
            continue
        rec.states += 1
        rec.transitions += 2
        rec.traces += 2
        bare, bare_calls = setup.execute(0, items, SyncExecutor())
        want = setup.want(setup.worlds[0], items)
        if bare != want:
            raise Violation('the original graph answers wrongly', query=repr(items), got=repr(bare), expected=repr(want))
        got, got_calls = setup.execute(1, items, SyncExecutor())
        if got != want:
            raise Violation('the transformed graph answers differently', query=repr(items), got=repr(got), expected=repr(want))
        if got_calls != bare_calls:
            raise Violation('other loader calls were made on the transformed graph', query=repr(items), got=repr(got_calls),
                            expected=repr(bare_calls))
        rec.outcome((got, got_calls))
        if size <= case['sched']:
            def one(ch):
                g, c = setup.execute(1, items, MCExecutor(ch, max_full=2))
                if g != want or c != bare_calls:
                    raise Violation('the transformed graph behaves differently under this order', query=repr(items), got=repr(g),
                                    calls=repr(c), expected=repr(want), expected_calls=repr(bare_calls))
                return repr(g)
            explore(one, rec, max_execs=case['cap'])
    setup.unmodified('executing queries')
    # the original graph is still usable by itself, and for another transformation
    if not setup.expr:
        orig = setup.originals[0][0]
        again = apply(orig, steps(case['chain'], orig))
        if snapshot(again) != snapshot(setup.graph):
            raise Violation('a second transformation of the same graph gives another graph')
        for graph in (orig, again):
            items = [['f'], ['one', [['x'], ['b', [['v']]]]]]
            got = denormalize(graph, Engine(SyncExecutor()).execute(graph, merge([mk_query(items)]), CTX))
            if got != setup.worlds[1].evaluate(items):
                raise Violation('the graph is not usable after it was transformed', got=repr(got))
