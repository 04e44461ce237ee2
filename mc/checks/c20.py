"""C20: introspection describes the graph faithfully as a valid GraphQL schema."""
import itertools

from graphql import (assert_valid_schema, build_client_schema, get_introspection_query, is_input_object_type, is_object_type, is_scalar_type)
from graphql.pyutils import Undefined


from hiku.denormalize.graphql import DenormalizeGraphQL
from hiku.endpoint.graphql import AsyncGraphQLEndpoint, GraphQLEndpoint
from hiku.engine import Engine
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.executors.sync import SyncExecutor
from hiku.graph import Field, Graph, Link, Node, Option, Root, apply
from hiku.introspection.graphql import AsyncGraphQLIntrospection, GraphQLIntrospection
from hiku.readers.graphql import read

from ..aio import Env
from .. import sizes
from ..core import Violation
from ..sched import Chooser
from ..world import link_type, mk_type

PROPERTY = 'C20'
TECHNIQUE = ('explicit enumeration of graphs (every type of the grammar at every place, every combination of structural features, '
             'every default value), each introspected by the standard query, against a schema computed from the description')
LEVEL_NOTE = ('Every graph of two families up to their bounds; the schema is built by graphql-core\'s client tooling. Nodes that '
              'only the mutation graph has, data types that refer to nodes, underscore-prefixed record '
              'members and defaults GraphQL has no literal for are not judged.')
NOTE = {
    'alphabet': 'scalar, any, optional, sequence, mapping, record types and data types nested, as field, member, option and link '
                'types; defaults; descriptions; hidden fields; options; nodes; mutations; several roots',
    'choices': 'types, places, defaults and features are enumerated; introspection is sequential (its loaders are independent)',
    'oracle': 'expected schema by the declared structure, read from the schema graphql-core builds from the response',
}

# data types that are not records: names for other types, which are no types of the schema
ALIASES = {'L': ['seq', 'Int'], 'OS': ['opt', ['seq', ['ref', 'D']]], 'AD': ['ref', 'D'], 'AAD': ['ref', 'AD'], 'K': 'Bool', 'LL': ['seq', ['ref', 'OS']],
           'AM': ['map', 'Str', ['ref', 'D']], 'LR': ['opt', ['seq', ['rec', {'q': 'Int'}]]]}
BASE = ['Int', 'Str', 'Bool', 'Float', 'Any', None, ['ref', 'D'], ['rec', {'q': 'Int'}], ['map', 'Str', 'Int']] + [['ref', n] for n in ALIASES]
D = ['rec', {'u': 'Str', 'e': ['opt', ['ref', 'E']]}]
E = ['rec', {'i': ['opt', 'Int'], 'd': ['seq', ['ref', 'D']]}]


def types(depth):
    level = [t for t in BASE if t is not None]
    yield None
    yield from level
    for _ in range(depth):
        level = [[k, t] for t in level for k in ('opt', 'seq')]
        yield from level


def defaults(t):
    """Values of the type that have GraphQL literals."""
    if t in (None, 'Any'):
        return [None, 5, 'x', [1, 'a'], {'a': {'b': [True]}}, 1.5]
    if isinstance(t, str):
        return {'Int': [0, -5, 2 ** 31 - 1], 'Str': ['', 'a"\\\n\u00e9', '"""', '\t\x07'], 'Bool': [True, False], 'Float': [1.5, -0.25, 1e300, 1e-7]}[t]
    k = t[0]
    if k == 'ref' and t[1] in ALIASES:
        return defaults(ALIASES[t[1]])
    if t == ['map', 'Str', ['ref', 'D']]:
        return [{}, {'a': {'u': 'x', 'e': None}}]
    if k == 'opt':
        return [None] + defaults(t[1])[:2]
    if k == 'seq':
        vs = defaults(t[1])
        return [[], vs[:1], vs[:2]]
    if k == 'map':
        return [{}, {'a': 1, 'b': 2}]
    if k == 'rec':
        return [{'q': 1}]
    return [{'u': 'x', 'e': None}, {'u': '', 'e': {'i': 3, 'd': [{'u': 'y', 'e': None}]}}]


def bounds(tier):
    return {'type_nesting': 2 if tier == 'quick' else 3, 'features': len(FEATURES), 'features_together': 4 if tier == 'quick' else len(FEATURES)}


def cases(tier):
    b = bounds(tier)
    for place in PLACES:
        for name in NAMES + BAD_NAMES:
            yield {'k': 'name', 'place': place, 'name': name}
    for place in EMPTY:
        yield {'k': 'empty', 'place': place}
    for shape in BIG:
        for n in sizes.ladder(tier, {'nesting': 5, 'nested data': 10}.get(shape, 129 if tier == 'quick' else 257)):
            yield {'k': 'big', 'shape': shape, 'n': n}
    for t in types(b['type_nesting']):
        yield {'k': 'type', 't': t}
    for n in range(len(FEATURES) + 1):
        if n <= b['features_together'] or n >= len(FEATURES) - 1:
            for c in itertools.combinations(range(len(FEATURES)), n):
                yield {'k': 'features', 'c': list(c)}


# -- features of a graph, each a change of its description

def base():
    return {'data_types': {}, 'roots': 1, 'mutation': None,
            'root': {'fields': {'f': {'type': 'Str'}}, 'links': {}}, 'nodes': {}}


def node(spec, name):
    return spec['nodes'].setdefault(name, {'fields': {'id': {'type': 'Int'}}, 'links': {}})


def feature_node(s):
    node(s, 'A')['doc'] = 'node "A"\n'
    s['root']['links']['one'] = {'to': 'A', 'kind': 'One', 'doc': 'the link'}


def feature_links(s):
    node(s, 'A')['links']['bs'] = {'to': 'B', 'kind': 'Many'}
    node(s, 'B')['links'].update({'a': {'to': 'A', 'kind': 'Maybe', 'opts': {'o': {'type': 'Int', 'doc': 'opt'}}}, 'b': {'to': 'B', 'kind': 'One'}})


def feature_hidden(s):
    s['root']['fields']['_h'] = {'type': 'Int', 'doc': 'hidden'}
    s['root']['links']['_l'] = {'to': 'C', 'kind': 'Many'}
    node(s, 'C')['fields'].update({'_x': {'type': 'Str'}, '__y': {'type': None}, 'z_': {'type': None}})


def feature_options(s):
    s['root']['fields']['opts'] = {'type': 'Str', 'doc': 'with options', 'opts': {
        'r': {'type': 'Int'}, 'd': {'type': 'Int', 'default': 3, 'doc': 'd\u00e9'}, 'n': {'type': ['opt', 'Str']},
        'z': {'type': ['opt', 'Str'], 'default': None}, 'any': {'type': None}, 'l': {'type': ['seq', ['opt', 'Float']], 'default': [None, 0.5]}}}
    node(s, 'A')['fields']['opts'] = {'type': None, 'opts': {'f': {'type': 'Bool', 'default': False}}}


def feature_data(s):
    s['data_types'].update({'D': D, 'E': E})
    s['root']['fields']['d'] = {'type': ['opt', ['seq', ['ref', 'D']]], 'opts': {'v': {'type': ['opt', ['ref', 'E']], 'default': {'i': 1, 'd': []}}}}


def feature_unused_data(s):
    s['data_types']['U'] = ['rec', {'a': 'Bool', 'm': ['map', 'Str', 'Str'], 'r': ['rec', {'x': 'Int'}], 'n': ['opt', ['seq', 'Any']]}]


def feature_roots(s):
    s['roots'] = 2
    s['root']['fields']['g'] = {'type': ['seq', 'Int'], 'doc': 'g'}


def feature_mutation(s):
    s['mutation'] = {'fields': {'m': {'type': 'Bool', 'doc': 'mutate', 'opts': {'v': {'type': ['seq', 'Str'], 'doc': 'values'}}}, '_m': {'type': 'Int'}},
                     'links': {'ml': {'to': node(s, 'A') and 'A', 'kind': 'Maybe'}}}


def feature_names(s):
    s['root']['fields'].update({'type': {'type': 'Int'}, 'name': {'type': 'Str', 'opts': {'name': {'type': 'Str', 'default': 'name'}, 'if': {'type': 'Bool'}}}})
    n = node(s, 'Type')
    n['fields'].update({'kind': {'type': 'Str'}, 'fields': {'type': 'Int'}, 'f': {'type': 'Float'}})
    n['links']['Type'] = {'to': 'Type', 'kind': 'Many'}


def feature_lonely(s):
    """A node nothing links to, same field names as elsewhere with other types and options."""
    node(s, 'L')['fields'].update({'f': {'type': 'Int', 'doc': 'another f', 'opts': {'o': {'type': 'Str', 'default': 'x'}}}, 'opts': {'type': 'Bool'}})


FEATURES = [feature_node, feature_links, feature_hidden, feature_options, feature_data, feature_unused_data, feature_roots,
            feature_mutation, feature_names, feature_lonely]


def type_spec(t):
    s = base()
    s['data_types'] = {'AAD': ALIASES['AAD'], 'D': D, 'E': E, **ALIASES, 'M': ['rec', {'m': t if t is not None else 'Any', 'o': 'Int'}]}
    opts = {'req': {'type': t}}
    for i, d in enumerate(defaults(t)):
        opts['d%d' % i] = {'type': t, 'default': d}
    s['root']['fields']['x'] = {'type': t, 'opts': opts}
    node(s, 'A')['fields']['x'] = {'type': t}
    node(s, 'A')['links']['l'] = {'to': 'A', 'kind': 'Many', 'opts': opts}
    s['root']['links']['l'] = {'to': 'A', 'kind': 'One', 'opts': opts}
    s['root']['fields']['m'] = {'type': ['ref', 'M'], 'opts': {'m': {'type': ['ref', 'M']}}}
    s['mutation'] = {'fields': {'x': {'type': t, 'opts': opts}}, 'links': {}}
    return s


def big_spec(shape, n):
    """One dimension of the graph is n."""
    s = base()
    scalars = ['Int', 'Str', None, ['opt', 'Bool'], ['seq', 'Float']]
    fs = {'f%d' % i: {'type': scalars[i % 5], 'doc': 'd%d' % i if i % 3 else None, 'opts': {'o': {'type': 'Int', 'default': i}} if i % 4 == 1 else {}} for i in range(n)}
    if shape == 'fields':
        s['root']['fields'] = dict(fs)
        node(s, 'A')['fields'].update(fs)
        s['mutation'] = {'fields': dict(fs), 'links': {}}
    elif shape == 'links':
        ls = {'l%d' % i: {'to': 'AB'[i % 2], 'kind': ['One', 'Many', 'Maybe'][i % 3], 'doc': 'd%d' % i} for i in range(n)}
        s['root']['links'] = dict(ls)
        node(s, 'A')['links'].update(ls)
        node(s, 'B')['links'].update(dict(reversed(ls.items())))
        s['mutation'] = {'fields': {}, 'links': dict(ls)}
    elif shape == 'nodes':
        for i in range(n):
            m = node(s, 'N%d' % i)
            m['doc'] = 'node %d' % i
            m['links']['l'] = {'to': 'N%d' % ((i + 1) % n), 'kind': ['One', 'Many', 'Maybe'][i % 3]}
            m['fields']['x%d' % i] = {'type': scalars[i % 5]}
        s['root']['links']['l'] = {'to': 'N%d' % (n - 1), 'kind': 'Many'}
    elif shape == 'data types':
        for i in range(n):
            s['data_types']['T%d' % i] = ['rec', {'a': scalars[i % 5] or 'Any', 'n': ['opt', ['ref', 'T%d' % ((i + 1) % n)]], 'm%d' % i: 'Int'}]
        s['root']['fields']['x'] = {'type': ['ref', 'T%d' % (n // 2)], 'opts': {'i': {'type': ['seq', ['ref', 'T%d' % (n - 1)]], 'default': []}}}
    elif shape == 'members':
        s['data_types']['T'] = ['rec', {'m%d' % i: scalars[i % 5] or 'Any' for i in range(n)}]
        s['root']['fields']['x'] = {'type': ['ref', 'T'], 'opts': {'i': {'type': ['opt', ['ref', 'T']], 'default': None}}}
    elif shape == 'options':
        opts = {'o%d' % i: dict({'type': scalars[i % 5], 'doc': 'o %d' % i}, **({'default': [i, str(i), i, None, [0.5] * (i % 4)][i % 5]} if i % 3 else {})) for i in range(n)}
        s['root']['fields']['x'] = {'type': 'Int', 'opts': opts}
        s['root']['links']['l'] = {'to': node(s, 'A') and 'A', 'kind': 'One', 'opts': opts}
        node(s, 'A')['fields']['x'] = {'type': None, 'opts': opts}
        node(s, 'A')['links']['l'] = {'to': 'A', 'kind': 'Many', 'opts': opts}
    elif shape == 'names':
        k = 'k' * n
        s['root']['fields'][k] = {'type': 'Int', 'opts': {k: {'type': 'Int', 'default': n}}}
        node(s, 'N' * n)['fields'][k] = {'type': 'Str'}
        s['root']['links']['l'] = {'to': 'N' * n, 'kind': 'Maybe'}
        s['data_types']['T' * (n + 1)] = ['rec', {k: ['seq', 'Int']}]
    elif shape == 'descriptions':
        for i, t in enumerate(('x' * n, '\n' * n + 'x', 'a b\n' * n, '\u00e9' * n, ' ' * n + 'x' + ' ' * n)):
            s['root']['fields']['d%d' % i] = {'type': 'Int', 'doc': t, 'opts': {'o': {'type': 'Int', 'doc': t}}}
            node(s, 'D%d' % i)['doc'] = t
            node(s, 'D%d' % i)['links']['l'] = {'to': 'D0', 'kind': 'One', 'doc': t}
    elif shape == 'defaults':
        for i, (t, v) in enumerate([(['seq', 'Int'], list(range(n))), ('Str', 'a"' * n), ('Str', '\n' * n), ('Any', {'k%d' % j: [j] for j in range(n)}),
                                    (['map', 'Str', 'Str'], {'k%d' % j: 's' for j in range(n)}), (['seq', ['seq', 'Str']], [['x'] * j for j in range(min(n, 9))]),
                                    ('Int', 2 ** min(n, 30)), ('Int', -2 ** min(n, 30)), ('Float', float('0.' + '1' * min(n, 15))),
                                    (['seq', ['ref', 'D']], [{'u': 'x%d' % j, 'e': None} for j in range(n)])]):
            s['data_types'].update({'D': D, 'E': E})
            s['root']['fields']['d%d' % i] = {'type': t, 'opts': {'o': {'type': t, 'default': v}}}
    elif shape == 'nesting':
        t = ['ref', 'D']
        s['data_types'].update({'D': D, 'E': E})
        for i in range(n):
            t = ['seq', ['opt', t]] if i % 2 else ['seq', t]
        s['root']['fields']['x'] = {'type': t, 'opts': {'o': {'type': t}}}
        s['data_types']['T'] = ['rec', {'m': t}]
    else:
        t = 'Int'
        for i in range(n):
            t = [['rec', {'a': t}], ['map', 'Str', t], ['opt', t]][i % 3]
        s['root']['fields']['x'] = {'type': t, 'opts': {'o': {'type': t}}}
    return s


BIG = ['fields', 'links', 'nodes', 'data types', 'members', 'options', 'names', 'descriptions', 'defaults', 'nesting', 'nested data']


# names at every place, and objects without members

NAMES = ['a', 'a1', 'A_b', '_h', 'Zz']
BAD_NAMES = ['', 'a-b', '1a', 'a b', 'a.b', 'a\u00e9', '\u0430', 'a\n', ' a', '$a', 'a!', 'a\u0661']


def place_root_field(s, n):
    s['root']['fields'][n] = {'type': 'Int'}


def place_root_link(s, n):
    s['root']['links'][n] = {'to': node(s, 'N') and 'N', 'kind': 'Many'}


def place_option(s, n):
    s['root']['fields']['o'] = {'type': 'Int', 'opts': {n: {'type': 'Int', 'default': 1}}}


def place_link_option(s, n):
    s['root']['links']['o'] = {'to': node(s, 'N') and 'N', 'kind': 'One', 'opts': {n: {'type': 'Int'}}}


def place_node(s, n):
    node(s, n)


def place_node_field(s, n):
    node(s, 'N')['fields'][n] = {'type': 'Str'}


def place_node_link(s, n):
    node(s, 'N')['links'][n] = {'to': 'N', 'kind': 'Maybe'}


def place_node_option(s, n):
    node(s, 'N')['fields']['o'] = {'type': 'Int', 'opts': {n: {'type': 'Int'}}}


def place_node_link_option(s, n):
    node(s, 'N')['links']['o'] = {'to': 'N', 'kind': 'Maybe', 'opts': {n: {'type': 'Int'}}}


def place_data_type(s, n):
    s['data_types'][n] = ['rec', {'m': 'Int'}]


def place_member(s, n):
    s['data_types']['T'] = ['rec', {'m': 'Int', n: 'Str'}]


def place_mutation_field(s, n):
    s['mutation'] = {'fields': {n: {'type': 'Bool'}, 'm': {'type': 'Bool'}}, 'links': {}}


def place_mutation_option(s, n):
    s['mutation'] = {'fields': {'m': {'type': 'Bool', 'opts': {n: {'type': 'Int'}}}}, 'links': {}}


def place_second_root(s, n):
    s['roots'] = 2
    s['root']['fields'][n] = {'type': 'Int'}


PLACES = {f.__name__[6:]: f for f in (
    place_root_field, place_root_link, place_option, place_link_option, place_node, place_node_field, place_node_link, place_node_option,
    place_node_link_option, place_data_type, place_member, place_mutation_field, place_mutation_option, place_second_root)}


def empty_root(s):
    s['root']['fields'] = {}


def empty_hidden_root(s):
    s['root']['fields'] = {'_f': {'type': 'Int'}}


def empty_node(s):
    node(s, 'N')['fields'] = {}


def empty_hidden_node(s):
    node(s, 'N')['fields'] = {'_f': {'type': 'Int'}}


def empty_linked_node(s):
    node(s, 'N')['fields'] = {}
    s['root']['links']['n'] = {'to': 'N', 'kind': 'One'}


def empty_data_type(s):
    s['data_types']['T'] = ['rec', {}]


def empty_mutation(s):
    s['mutation'] = {'fields': {}, 'links': {}}


def empty_hidden_mutation(s):
    s['mutation'] = {'fields': {'_f': {'type': 'Int'}}, 'links': {}}


EMPTY = {f.__name__[6:]: f for f in (empty_root, empty_hidden_root, empty_node, empty_hidden_node, empty_linked_node, empty_data_type,
                                     empty_mutation, empty_hidden_mutation)}


def refused(spec, rec):
    """There is no valid schema for the graph: it is not introspected."""
    for is_async in (False, True):
        rec.traces += 1
        rec.states += 1
        rec.transitions += 1
        try:
            q, m = graph(spec, spec['root'], is_async), graph(spec, spec['mutation'], is_async) if spec['mutation'] is not None else None
            if is_async:
                async def go(executor):
                    return await AsyncGraphQLEndpoint(Engine(executor), q, m).dispatch({'query': QUERY})
                res = run_async(go)
            else:
                res = GraphQLEndpoint(Engine(SyncExecutor()), q, m).dispatch({'query': QUERY})
        except Exception:
            rec.outcome('refused')
            continue
        if 'data' in res:
            raise Violation('a graph that is not valid in GraphQL is introspected', got=repr(sorted(t['name'] for t in res['data']['__schema']['types'])))


# -- the expected schema

def tstr(t, inp):
    """(name of the type, can it be null)"""
    if t is None or t == 'Any':
        return 'Any', True
    if isinstance(t, str):
        return {'Int': 'Int', 'Str': 'String', 'Bool': 'Boolean', 'Float': 'Float'}[t], False
    k = t[0]
    if k in ('map', 'rec'):
        return 'Any', True
    if k == 'ref' and t[1] in ALIASES:
        return tstr(ALIASES[t[1]], inp)
    if k == 'ref':
        return ('IO' if inp else '') + t[1], False
    if k == 'opt':
        return tstr(t[1], inp)[0], True
    return '[%s]' % full(t[1], inp), False


def full(t, inp=False):
    name, null = tstr(t, inp)
    return name if null else name + '!'


def args_of(opts):
    res = {}
    for n, o in (opts or {}).items():
        res[n] = (full(o.get('type'), True), o.get('doc'), repr(o['default']) if 'default' in o else 'none')
    return res


def fields_of(part):
    res = {}
    for n, f in part['fields'].items():
        if not n.startswith('_'):
            res[n] = (full(f['type']), f.get('doc'), args_of(f.get('opts')))
    for n, l in part['links'].items():
        if not n.startswith('_'):
            t = {'One': l['to'] + '!', 'Maybe': l['to'], 'Many': '[%s!]!' % l['to']}[l['kind']]
            res[n] = (t, l.get('doc'), args_of(l.get('opts')))
    return res


def expected(spec):
    res = {'Query': ('object', None, fields_of(spec['root']))}
    if spec['mutation']:
        res['Mutation'] = ('object', None, fields_of(spec['mutation']))
    for n, p in spec['nodes'].items():
        res[n] = ('object', p.get('doc'), fields_of(p))
    for n, t in spec['data_types'].items():
        if n in ALIASES:
            continue
        res[n] = ('object', None, {k: (full(x), None, {}) for k, x in t[1].items()})
        res['IO' + n] = ('input', None, {k: (full(x, True), None, 'none') for k, x in t[1].items()})
    for n in ('String', 'Int', 'Boolean', 'Float', 'Any'):
        res[n] = ('scalar',)
    return res


def given(x):
    return 'none' if x is Undefined else repr(x)


def actual(schema):
    res = {}
    for name, t in schema.type_map.items():
        if name.startswith('__'):
            continue
        if is_object_type(t):
            res[name] = ('object', t.description, {n: (str(f.type), f.description, {
                a: (str(v.type), v.description, given(v.default_value)) for a, v in f.args.items()}) for n, f in t.fields.items()})
            if list(t.interfaces):
                raise Violation('an object has interfaces')
        elif is_input_object_type(t):
            res[name] = ('input', t.description, {n: (str(f.type), f.description, given(f.default_value)) for n, f in t.fields.items()})
        elif is_scalar_type(t):
            res[name] = ('scalar',)
        else:
            res[name] = ('other', repr(t))
    return res


# -- graphs

class Called(Exception):
    pass


def loader(*args):
    raise Called('a loader was called by introspection')


def link_loader(l, is_async):
    def load(*args):
        return [1, 2] if l['kind'] == 'Many' else 1

    async def aload(*args):
        return load()
    return aload if is_async else load


def options(opts):
    return [Option(n, mk_type(o.get('type')), description=o.get('doc'), **({'default': o['default']} if 'default' in o else {}))
            for n, o in (opts or {}).items()] or None


def items(part, is_async, root):
    res = [Field(n, mk_type(f['type']), loader, options=options(f.get('opts')), description=f.get('doc')) for n, f in part['fields'].items()]
    for n, l in part['links'].items():
        res.append(Link(n, link_type(l), link_loader(l, is_async), requires=None, options=options(l.get('opts')), description=l.get('doc')))
    return res


def graph(spec, part, is_async):
    nodes = [Node(n, items(p, is_async, False), description=p.get('doc')) for n, p in spec['nodes'].items()]
    fs = items(part, is_async, True)
    roots = [Root(fs)] if spec['roots'] == 1 or len(fs) < 2 else [Root(fs[:1]), Root(fs[1:])]
    return Graph(roots[:1] + nodes + roots[1:], {n: mk_type(t) for n, t in spec['data_types'].items()})


def run_async(coro_func):
    env = Env(Chooser())
    try:
        out, value = env.run(coro_func(AsyncIOExecutor(env.loop)))
    finally:
        env.close()
    if out != 'ok':
        raise value
    return value


# the standard query, with wrapped types followed deeper
QUERY = get_introspection_query().split('fragment TypeRef')[0] + \
    'fragment TypeRef on __Type { kind name %s }' % ('ofType { kind name ' * 12 + '}' * 12)
TYPES = QUERY.split('fragment FullType')[1]


def type_query(names):
    return 'query Types($v: String!) { %s last: __type(name: $v) { ...FullType } } fragment FullType%s' % (
        ' '.join('t%d: __type(name: "%s") { ...FullType }' % (i, n) for i, n in enumerate(names)), TYPES)


def data(response, what):
    if set(response) != {'data'}:
        raise Violation('introspection failed (%s)' % what, response=repr(response))
    return response['data']


def order_free(x):
    if isinstance(x, dict):
        return {k: order_free(v) for k, v in x.items()}
    if isinstance(x, list):
        return sorted((order_free(v) for v in x), key=repr)
    return x


def typenames(spec, key):
    """A query for the __typename of the root and of what it links to, and the expected answer."""
    part = spec[key]
    links = {n: l for n, l in part['links'].items() if not l.get('opts')}
    text = '{ __typename %s }' % ' '.join('%s { __typename }' % n for n in links)
    want = {'__typename': 'Query' if key == 'root' else 'Mutation'}
    for n, l in links.items():
        v = {'__typename': l['to']}
        want[n] = [v, v] if l['kind'] == 'Many' else v
    return text, want


def run(case, rec):
    spec = type_spec(case['t']) if case['k'] == 'type' else base()
    if case['k'] == 'empty':
        EMPTY[case['place']](spec)
        return refused(spec, rec)
    if case['k'] == 'name':
        PLACES[case['place']](spec, case['name'])
        if case['name'] in BAD_NAMES:
            return refused(spec, rec)
        if case['place'] == 'member' and case['name'].startswith('_'):
            return
    if case['k'] == 'big':
        spec = big_spec(case['shape'], case['n'])
    for i in case.get('c', ()):
        FEATURES[i](spec)
    want = expected(spec)
    query_graph = graph(spec, spec['root'], False)
    mutation_graph = graph(spec, spec['mutation'], False) if spec['mutation'] else None
    aquery_graph = graph(spec, spec['root'], True)
    amutation_graph = graph(spec, spec['mutation'], True) if spec['mutation'] else None
    names = sorted(want) + ['Nope', 'IO', '__root__', '']
    endpoint = GraphQLEndpoint(Engine(SyncExecutor()), query_graph, mutation_graph)

    def async_dispatch(requests):
        async def go(executor):
            ep = AsyncGraphQLEndpoint(Engine(executor), aquery_graph, amutation_graph)
            return [await ep.dispatch(r) for r in requests]
        return run_async(go)

    requests = [{'query': QUERY}, {'query': type_query(names), 'variables': {'v': sorted(want)[0]}},
                {'query': typenames(spec, 'root')[0]}]
    if mutation_graph is not None:
        requests += [{'query': QUERY.replace('query Intro', 'mutation Intro')},
                     {'query': type_query(names).replace('query', 'mutation', 1), 'variables': {'v': sorted(want)[0]}},
                     {'query': 'mutation ' + typenames(spec, 'mutation')[0]}]
    sync = [endpoint.dispatch(r) for r in requests]
    asyn = async_dispatch(requests)
    rec.traces += 2 * len(requests)
    rec.states += len(want)
    rec.transitions += len(requests)
    first = data(sync[0], 'query')
    schema = build_client_schema(first)
    assert_valid_schema(schema)
    got = actual(schema)
    if got != want:
        diff = {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)}
        raise Violation('the introspected schema is not the declared one', diff=repr(diff))
    if (schema.query_type.name, schema.mutation_type and schema.mutation_type.name, schema.subscription_type) != (
            'Query', 'Mutation' if spec['mutation'] else None, None):
        raise Violation('wrong root types')
    directives = {d.name: (sorted(l.name for l in d.locations), {n: str(a.type) for n, a in d.args.items()}) for d in schema.directives}
    loc = ['FIELD', 'FRAGMENT_SPREAD', 'INLINE_FRAGMENT']
    if {k: directives.get(k) for k in ('skip', 'include')} != {'skip': (loc, {'if': 'Boolean!'}), 'include': (loc, {'if': 'Boolean!'})}:
        raise Violation('wrong directives', got=repr(directives))
    by_name = {t['name']: t for t in first['__schema']['types']}
    if len(by_name) != len(first['__schema']['types']):
        raise Violation('a type is listed twice')
    for which, res in (('sync', sync), ('async', asyn)):
        for k in range(0, len(requests), 3):
            what = '%s %s' % (which, 'mutation' if k else 'query')
            if order_free(data(res[k], what)) != order_free(first):
                raise Violation('introspection through %s differs' % what)
            one = data(res[k + 1], what)
            for i, n in enumerate(names):
                if order_free(one['t%d' % i]) != order_free(by_name.get(n)):
                    raise Violation('__type(name: "%s") disagrees with __schema through %s' % (n, what), got=repr(one['t%d' % i]))
            if order_free(one['last']) != order_free(by_name[sorted(want)[0]]):
                raise Violation('__type of a variable disagrees')
            tn = data(res[k + 2], what)
            if tn != typenames(spec, 'mutation' if k else 'root')[1]:
                raise Violation('__typename disagrees through %s' % what, got=repr(tn))
    # without an endpoint: the transformed graphs executed directly
    query = read(QUERY)
    g = apply(query_graph, [GraphQLIntrospection(query_graph, mutation_graph)])
    direct = DenormalizeGraphQL(g, Engine(SyncExecutor()).execute(g, query), 'Query').process(query)
    ag = apply(aquery_graph, [AsyncGraphQLIntrospection(aquery_graph, amutation_graph)])
    adirect = DenormalizeGraphQL(ag, run_async(lambda ex: Engine(ex).execute(ag, query)), 'Query').process(query)
    tq = read(typenames(spec, 'root')[0])
    tdirect = DenormalizeGraphQL(g, Engine(SyncExecutor()).execute(g, tq), 'Query').process(tq)
    rec.traces += 3
    if order_free(direct) != order_free(first) or order_free(adirect) != order_free(first):
        raise Violation('introspection of the transformed graph differs from what the endpoint says')
    if tdirect != typenames(spec, 'root')[1]:
        raise Violation('__typename of the transformed graph is wrong', got=repr(tdirect))
    rec.outcome(got)
