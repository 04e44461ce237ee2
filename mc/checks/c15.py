"""C15: every validated query executes and denormalizes to exactly what it asked."""
from hiku.denormalize.base import Denormalize
from hiku.denormalize.graphql import DenormalizeGraphQL
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.expr.core import S, each
from hiku.graph import Field, Graph, Link, Node, Root
from hiku.query import merge
from hiku.result import denormalize
from hiku.sources.graph import SubGraph
from hiku.validate.query import validate
from hiku import types as T

from .. import sizes
from ..core import Violation
from ..sched import MCExecutor, explore
from ..world import World, item4, merge_plain, mk_query, mk_type, with_root

PROPERTY = 'C15'
TECHNIQUE = ('explicit enumeration of queries accepted by validation, each executed on the real engine for every data '
             'variant and completion order (one chooser decides both), against a reference evaluator')
LEVEL_NOTE = ('Every query up to the selection bound over graphs with all link kinds and structured fields of every '
              'container nesting of the list; data choices null/value per optional, 0-2 entries per sequence, null/one/'
              'several/repeated link targets, deviation-bounded where capped. Both denormalizers and item and attribute '
              'access are compared.')
NOTE = {
    'alphabet': 'links one/maybe/many, structured fields typed Record, Optional, Sequence and their nestings, data '
                'types (also recursive), mappings, aliases, expression fields returning records',
    'choices': 'for every optional, sequence and link: null / number of entries; completion order at every wait',
    'oracle': 'recursive evaluation of the query over the chosen data',
}

D = ['rec', {'p': 'Str', 's': ['rec', {'t': 'Int', 'u': 'Str'}], 'l': ['seq', ['ref', 'E']], 'm': ['map', 'Str', 'Int'],
             'o': ['ref', 'AOE'], 'ol': ['opt', ['seq', ['ref', 'E']]], 'lo': ['seq', ['opt', ['ref', 'E']]]}]
E = ['rec', {'u': 'Str', 'w': ['ref', 'OE'], 'n': ['opt', 'Int']}]
# data types that are names for other types
ALIASES = {'AE': ['ref', 'E'], 'OE': ['opt', ['ref', 'AE']], 'ES': ['seq', ['ref', 'AE']], 'DS': ['seq', ['ref', 'D']], 'AOE': ['ref', 'OE']}
SPEC = {
    'data_types': {'D': D, 'E': E, **ALIASES},
    'root': {'fields': {'f': {'f': 'R'}, 'rec': {'f': 'R', 'type': D}, 'dl': {'f': 'R2', 'type': ['seq', ['ref', 'D']]},
                        'eo': {'f': 'R2', 'type': ['opt', ['ref', 'E']]},
                        'eol': {'f': 'R', 'type': ['opt', ['ref', 'ES']]},
                        'ell': {'f': 'R', 'type': ['seq', ['seq', ['ref', 'E']]]},
                        'elo': {'f': 'R2', 'type': ['seq', ['opt', E]]},
                        'opt': {'f': 'R', 'type': ['ref', 'AE'], 'opts': {'i': {'default': 1}}}},
             'links': {'one': {'to': 'A', 'kind': 'One'}, 'mb': {'to': 'A', 'kind': 'Maybe', 'req': 'f'},
                       'many': {'to': 'A', 'kind': 'Many'}}},
    'nodes': {'A': {'fields': {'x': {'f': 'A'}, 'eo': {'f': 'A2', 'type': ['opt', ['ref', 'E']]},
                               'dl': {'f': 'A2', 'type': ['ref', 'DS']}},
                    'links': {'up': {'to': 'A', 'kind': 'Maybe', 'req': 'x'}, 'b': {'to': 'B', 'kind': 'Many', 'req': 'x'},
                              'bq': {'to': 'B', 'kind': 'One', 'req': 'x'}}},
              'B': {'fields': {'v': {'f': 'B'}, 'rec': {'f': 'B', 'type': ['rec', {'p': 'Str', 'q': 'Str'}]}}},
              # expression fields over a second graph of the same data
              'H': {'fields': {'e': {'f': 'X', 'type': ['rec', {'p': 'Str', 'q': 'Str'}]},
                               'es': {'f': 'X', 'type': ['seq', ['rec', {'p': 'Str', 'r': ['rec', {'v': 'Str'}]}]]},
                               'x': {'f': 'X'}}, 'links': {}}},
    'edges': {},
}
LEAFS = {'root': [['f'], ['f', None, 'rec']], 'A': [['x'], ['x', None, 'b']], 'B': [['v']],
         'D': [['p'], ['m', None, 'p'], ['m']], 'E': [['u'], ['n'], ['u', None, 'w']], 'T': [['t'], ['u', None, 't']],
         'BR': [['p'], ['q', None, 'p']], 'H': [['x']], 'HE': [['p'], ['q', None, 'x'], ['p', None, 'q']],
         'HS': [['p', None, 'r'], ['p']], 'HV': [['v'], ['v', None, 'p']]}
LINKS = {
    'root': [('one', None, 'A'), ('mb', 'one', 'A'), ('many', None, 'A'), ('rec', None, 'D'), ('dl', None, 'D'),
             ('eo', None, 'E'), ('eol', None, 'E'), ('ell', 'x', 'E'), ('elo', None, 'E'), ('hs', None, 'H'),
             ('opt', None, 'E'), ('opt', 'o2', 'E')],
    'A': [('up', None, 'A'), ('up', 'x', 'A'), ('b', None, 'B'), ('bq', 'y', 'B'), ('eo', None, 'E'), ('dl', 'x', 'D')],
    'B': [('rec', None, 'BR'), ('rec', 'v', 'BR')],
    'D': [('s', None, 'T'), ('l', None, 'E'), ('l', 'o', 'E'), ('o', None, 'E'), ('o', 'l', 'E'), ('ol', None, 'E'), ('lo', None, 'E')],
    'E': [('w', None, 'E'), ('w', 'u', 'E')], 'T': [], 'BR': [], 'HV': [],
    'H': [('e', None, 'HE'), ('e', 'x', 'HE'), ('es', None, 'HS')], 'HE': [], 'HS': [('r', None, 'HV'), ('r', 'p', 'HV')],
}


def selections(ctx, size, depth):
    if size == 0:
        yield []
        return
    for leaf in LEAFS[ctx]:
        for rest in selections(ctx, size - 1, depth):
            yield [leaf] + rest
    if depth > 1:
        for name, alias, to in LINKS[ctx]:
            opts = {'i': 2} if alias == 'o2' else None
            for k in range(1, size):
                for sub in selections(to, k, depth - 1):
                    for rest in selections(ctx, size - 1 - k, depth):
                        yield [[name, sub, alias, opts]] + rest


def bounds(tier):
    return {'selections': 4 if tier == 'quick' else 5, 'depth': 4,
            'max_executions_per_case': 12 if tier == 'quick' else 60}


def cases(tier):
    b = bounds(tier)
    for c in sizes.cases(tier):
        if c['n'] <= (513 if tier == 'quick' else 1025):
            yield c
    for n in range(1, b['selections'] + 1):
        for s in selections('root', n, b['depth']):
            yield {'items': s, 'b': b['max_executions_per_case']}
    for top, ctx in (('rec', 'D'), ('dl', 'D'), ('many', 'A'), ('hs', 'H')):
        for s in selections(ctx, 4, 4):
            if tier != 'quick' or len(s) == 2:
                yield {'items': [[top, s]], 'b': b['max_executions_per_case']}


class DataWorld(World):
    """Values and link targets are chosen by the explorer, once per execution and token."""

    def __init__(self, ch):
        super().__init__(SPEC)
        self.ch = ch
        self.values = {}
        self.left = 6     # optionals and sequences that are still chosen; later ones have one entry

    def choose(self, n):
        if self.left <= 0:
            return 0
        self.left -= 1
        return self.ch.choose(n, 'data')

    def make(self, t, token, depth):
        if t == 'Int':
            return sum(map(ord, token)) % 9973
        if t is None or isinstance(t, str):
            return token
        k = t[0]
        if k == 'ref':
            return self.make(self.data_types_spec[t[1]], token, depth)
        if k == 'rec':
            return {n: self.make(x, token + '.' + n, depth + 1) for n, x in t[1].items()}
        if k == 'opt':
            if depth > 3 or self.choose(2):
                return None
            return self.make(t[1], token + '?', depth)
        if k == 'seq':
            n = 1 if depth > 3 else (1, 2, 0)[self.choose(3)]
            return [self.make(t[1], '%s#%d' % (token, i), depth) for i in range(n)]
        if k == 'map':
            return {token + '/k': self.make(t[2], token + '/v', depth)}
        raise ValueError(t)

    def field_value(self, fspec, name, opts, id_):
        token = '%s%s(%s)' % (name, opts or '', '' if id_ is None else id_)
        t = fspec.get('type')
        if t is None:
            return token
        if token not in self.values:
            self.values[token] = self.make(t, token, 0)
        return self.values[token]

    def targets(self, node, name, lspec, opts, src):
        key = ('link', node, name, src)
        if key not in self.values:
            a, b = lspec['to'].lower() + '1', lspec['to'].lower() + '2'
            menu = {'One': [a], 'Maybe': [a, None], 'Many': [[a], [a, b], [], [b, a, b]]}[lspec['kind']]
            self.values[key] = menu[self.choose(len(menu)) if len(menu) > 1 else 0]
        return self.values[key]

    def graph(self):
        items = [Node(n, self.items_of(n)) for n in ('A', 'B')]
        dt = {k: mk_type(t) for k, t in SPEC['data_types'].items()}
        low = Graph(with_root(items, self.items_of(None)), dt)
        sub = SubGraph(low, 'A')
        h = SPEC['nodes']['H']['fields']
        items.append(Node('H', [
            Field('x', None, sub),
            Field('e', mk_type(h['e']['type']), sub.c({'p': S.this.x, 'q': S.this.bq.v})),
            Field('es', mk_type(h['es']['type']), sub.c(each(S.i, S.this.b, {'p': S.this.x, 'r': {'v': S.i.v}}))),
        ]))
        root = self.items_of(None)
        root.append(Link('hs', T.Sequence[T.TypeRef['H']], lambda: ['a1', 'a2'], requires=None))
        return Graph(with_root(items, root), dt)

    def evaluate(self, items, node=None, id_=None):
        if node is None:
            rest = [i for i in items if i[0] != 'hs']
            res = super().evaluate(rest, None, None)
            for it in items:
                if it[0] == 'hs':
                    v = [self.expr_object(item4(it)[1], i) for i in ('a1', 'a2')]
                    key = item4(it)[2] or 'hs'
                    res[key] = merge_plain(res[key], v) if key in res else v
            return res
        return super().evaluate(items, node, id_)

    def expr_object(self, items, id_):
        a = SPEC['nodes']['A']
        x = self.field_value(a['fields']['x'], 'x', None, id_)
        b = SPEC['nodes']['B']['fields']['v']
        res = {}
        for it in items:
            name, sub, alias, _ = item4(it)
            if name == 'x':
                v = x
            elif name == 'e':
                q = self.targets('A', 'bq', a['links']['bq'], None, id_)
                v = self.select(SPEC['nodes']['H']['fields']['e']['type'],
                                {'p': x, 'q': self.field_value(b, 'v', None, q)}, sub)
            else:
                ts = self.targets('A', 'b', a['links']['b'], None, id_)
                v = self.select(SPEC['nodes']['H']['fields']['es']['type'],
                                [{'p': x, 'r': {'v': self.field_value(b, 'v', None, t)}} for t in ts], sub)
            key = alias or name
            res[key] = merge_plain(res[key], v) if key in res else v
        return res


STATIC = None


def read(proxy, node, want):
    """Item and attribute access agree with the plain data (scalars and links)."""
    for f in node.fields:
        v = proxy[f.result_key]
        if getattr(proxy, f.result_key) is not v and not hasattr(v, '__node__') and not isinstance(v, list):
            raise Violation('attribute and item access differ')
        if isinstance(want[f.result_key], (str, int)) and v != want[f.result_key]:
            raise Violation('wrong value of %r in the result object' % f.result_key, got=v, expected=want[f.result_key])


def run_sized(case, rec):
    spec, items = sizes.make(case)
    world = World(spec)
    graph = world.graph()
    query = merge([mk_query(items)])
    errors = validate(graph, query)
    if errors:
        raise Violation('a query of the family is rejected', errors=errors[:3])
    want = world.evaluate(items)
    for _ in range(2):
        result = Engine(SyncExecutor()).execute(graph, query)
        for name, got in (('denormalize', denormalize(graph, result)), ('Denormalize', Denormalize(graph, result).process(query)),
                          ('DenormalizeGraphQL', DenormalizeGraphQL(graph, result, 'Query').process(query))):
            if got != want:
                raise Violation('%s gives something else than was asked' % name, got=got, expected=want)
        read(result, query, want)
        rec.traces += 1
        rec.states += 1
        rec.transitions += 1
    rec.outcome(len(repr(want)))


def run(case, rec):
    global STATIC
    if 'shape' in case:
        return run_sized(case, rec)
    items = case['items']
    query = merge([mk_query(items)])
    if STATIC is None:
        STATIC = DataWorld(None).graph()
    if validate(STATIC, query):
        rec.count('not_valid')
        rec.traces += 1
        return

    def one(ch):
        world = DataWorld(ch)
        graph = world.graph()
        result = Engine(MCExecutor(ch, max_full=2)).execute(graph, query)
        got = denormalize(graph, result)
        want = world.evaluate(items)
        if got != want:
            raise Violation('denormalize gives something else than was asked', got=got, expected=want)
        for name, data in (('Denormalize', Denormalize(graph, result).process(query)),
                           ('DenormalizeGraphQL', DenormalizeGraphQL(graph, result, 'Query').process(query))):
            if data != want:
                raise Violation('%s gives something else than was asked' % name, got=data, expected=want)
        read(result, query, want)
        rec.outcome(got)
        return repr(got)
    explore(one, rec, max_execs=case['b'])
