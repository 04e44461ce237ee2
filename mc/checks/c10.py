"""C10: selections with different options or aliases never share each other's data."""
import itertools

from hiku.endpoint.graphql import GraphQLEndpoint
from hiku.engine import Engine
from hiku.expr.core import S
from hiku.graph import Field, Graph, Link, Node, Option, Root
from hiku.query import Field as QField, Link as QLink, Node as QNode, merge
from hiku.result import denormalize
from hiku.sources.graph import SubGraph
from hiku import types as T

from .. import gqltext, sizes
from ..core import Violation
from ..enginex import Run
from ..family import backwards
from ..sched import MCExecutor, explore
from ..world import World, canon

PROPERTY = 'C10'
TECHNIQUE = ('explicit enumeration of all pairs of option values at every kind of place, executed on the real engine '
             'under every completion order, against a reference evaluator')
LEVEL_NOTE = ('Every ordered pair from a domain of 40 colliding values x 17 kinds of place (same object, other path, '
              'alias, required field, default, structured field, ordered, expression field, GraphQL text). Values '
              'carry the options their loader received. Tuples and -0.0 are not in the domain.')
NOTE = {
    'alphabet': 'option values equal or hash-colliding in Python (1/1.0/true, 0/0.0/false, -1/-2, 0/2^61-1, nested in '
                'lists and objects), empty containers, null, numeric strings',
    'choices': 'completion orders and groupings of all loader calls',
    'oracle': 'reference evaluator: every value names the options it was loaded with',
}

VALUES = [1, True, 1.0, '1', 0, False, 0.0, '0', None, 'null', '', [], {}, [[]], [{}], {'a': []}, -1, -2, [-1], [-2],
          {'a': -1}, {'a': -2}, [1], [True], [1.0], {'a': 1}, {'a': True}, {'a': 1.0}, {'a': [1]}, {'a': [True]},
          [0], [None], [False], [''], 2 ** 61 - 1, 2 ** 53, 2 ** 53 + 1, float(2 ** 53), [1, 2], [[1], 2], [[1, 2]],
          {'a': 1, 'b': 2}, {'b': 2, 'a': 1}, {'a': 2, 'b': 1}, {'b': 1}, ['a'], 'a', [['a', 1]], [2, 1], [1, 1], [2], [1, 2, 1],
          [[2, 1]], {'a': [1, 2]}, {'a': [2, 1]}, {'a': {'b': 1}}, {'a': {'b': -1}}]
SMALL = VALUES[:24]


def spec(default=None):
    o = {'n': {'default': default}}
    return {
        'root': {
            'fields': {'f': {'f': 'R1', 'opts': o}, 'g': {'f': 'R1', 'opts': o}, 'h': {'f': 'R2'},
                       'rec': {'f': 'R2', 'opts': o, 'type': ['rec', {'p': 'Str', 'q': 'Str'}]},
                       'two': {'f': 'R1', 'opts': {'m': {'default': 9}, 'n': {'default': 8}}}},
            'links': {'one': {'to': 'A', 'kind': 'One'}, 'mb': {'to': 'A', 'kind': 'Maybe'},
                      'many': {'to': 'A', 'kind': 'Many'},
                      'l': {'to': 'A', 'kind': 'Many', 'opts': o},
                      'rq': {'to': 'A', 'kind': 'One', 'req': 'f', 'opts': o}},
        },
        'nodes': {
            'A': {'fields': {'x': {'f': 'A1', 'opts': o}, 'y': {'f': 'A1', 'opts': o}, 'z': {'f': 'A2'},
                             'rec': {'f': 'A2', 'opts': o, 'type': ['rec', {'p': 'Str', 'q': 'Str'}]}},
                  'links': {'k': {'to': 'B', 'kind': 'One', 'opts': o},
                            'kr': {'to': 'B', 'kind': 'Many', 'req': 'x', 'opts': o},
                            'kz': {'to': 'B', 'kind': 'Maybe', 'req': 'z', 'opts': o}}},
            'B': {'fields': {'v': {'f': 'B1'}}},
        },
        'edges': {'root.one': 'a1', 'root.mb': 'a1', 'root.many': ['a2', 'a1'], 'root.rq': 'a1'},
    }


def f(name, v, alias=None, sub=None):
    return [name, sub, alias, {'n': v}]


V = [['v']]
PLACES = {
    'root field': lambda v, w: [f('f', v, 'a'), f('f', w, 'b')],
    'plain and aliased': lambda v, w: [f('f', v), f('f', w, 'g'), ['g', None, 'h', {'n': v}]],
    'swapped names': lambda v, w: [f('f', v, 'g'), f('g', w, 'f')],
    'two options': lambda v, w: [['two', None, 'a', {'m': v, 'n': w}], ['two', None, 'b', {'m': w, 'n': v}],
                                 ['two', None, 'c', {'n': v}], ['two', None, 'd', {'m': v}]],
    'node field': lambda v, w: [['one', [f('x', v, 'a'), f('x', w, 'b'), f('y', v, 'c')]]],
    'other path': lambda v, w: [['one', [f('x', v)]], ['mb', [f('x', w)]]],
    'other path aliased': lambda v, w: [['many', [f('x', v, 'a')]], ['one', [f('x', w, 'a')]],
                                        ['mb', [f('y', w, 'x')]]],
    'same link twice': lambda v, w: [['one', [f('x', v)], 'i'], ['one', [f('x', w)], 'j']],
    'root link': lambda v, w: [f('l', v, 'a', [['z']]), f('l', w, 'b', [['z']])],
    'node link': lambda v, w: [['one', [f('k', v, 'a', V), f('k', w, 'b', V)]]],
    'node link other path': lambda v, w: [['one', [f('k', v, None, V)]], ['mb', [f('k', w, None, V)]]],
    'one alias for two fields': lambda v, w: [['one', [f('x', v, 'q'), f('k', v, 'r', V)]],
                                              ['mb', [f('y', w, 'q'), f('kz', w, 'r', V)]]],
    'required': lambda v, w: [['many', [f('kr', v, 'a', V), f('kr', w, 'b', V), f('x', v, 'c'), f('x', w, 'd')]]],
    'required plain': lambda v, w: [['many', [f('kz', v, 'z', V), f('kz', w, 'b', V), ['z', None, 'c']]]],
    'required root': lambda v, w: [f('rq', v, 'a', [['z']]), f('rq', w, 'b', [f('x', v)]), f('f', w)],
    'structured': lambda v, w: [f('rec', v, 'a', [['p']]), f('rec', w, 'b', [['p'], ['q']]),
                                ['one', [f('rec', v, 'x', [['q']]), f('rec', w, 'y', [['q']]), f('x', v, 'rec')]]],
}


#: pairs of values of a size, which differ in one position only
def pair_of(kind, n, where):
    i = {'first': 0, 'middle': n // 2, 'last': n - 1}[where]
    if kind == 'str':
        v = ['a'] * n
        v[i] = 'b'
        return 'a' * n, ''.join(v)
    elif kind == 'list':
        v = [0] * n
        v[i] = -1
        return [0] * n, v
    elif kind == 'list-of-lists':
        v = [[j] for j in range(n)]
        v[i] = [i, i]
        return [[j] for j in range(n)], v
    elif kind == 'longer':
        return list(range(n)), list(range(n + 1))
    elif kind == 'longer-str':
        return 'a' * n, 'a' * (n + 1)
    elif kind == 'object':
        v = {'k%d' % j: j for j in range(n)}
        return v, dict(v, **{'k%d' % i: str(i)})
    elif kind == 'keys':
        v = {'k%d' % j: 1 for j in range(n)}
        w = dict(v, other=1)
        del w['k%d' % i]
        return v, w
    elif kind == 'number':
        return 10 ** n, 10 ** n + 10 ** (n - 1 - i)
    v, w = 1, True
    for _ in range(n):
        v, w = [v], [w]
    if kind == 'deep':
        return v, w
    assert kind == 'deep-object', kind
    v, w = 1, 2
    for j in range(n):
        v, w = {'k': v}, {'k': w}
    return v, w


KINDS = ['str', 'list', 'list-of-lists', 'object', 'keys', 'number', 'longer', 'longer-str', 'deep', 'deep-object']
SIZED_PLACES = ['root field', 'node field', 'other path', 'required', 'structured', 'node link']


def sized(tier):
    top = 257 if tier == 'quick' else 1025
    for kind in KINDS:
        for n in sizes.ladder(tier, min(top, 60) if kind.startswith('deep') else top):
            if n == 0:
                continue
            for where in ('first', 'middle', 'last') if kind in ('str', 'list', 'list-of-lists', 'object', 'keys',
                                                                 'number') else ('last',):
                for place in SIZED_PLACES if tier != 'quick' or n in (33, 65, 129, 257) else SIZED_PLACES[:2]:
                    yield {'pair': [kind, n, where], 'place': place}


def bounds(tier):
    return {'values': len(VALUES), 'orders': 2 if tier == 'quick' else 3,
            'max_executions_per_case': 6 if tier == 'quick' else 10}


def cases(tier):
    b = bounds(tier)
    cap = b['max_executions_per_case']
    for c in sizes.cases(tier, ('aliases', 'link-aliases', 'same', 'options', 'words')):
        for how in ('engine', 'ordered', 'graphql'):
            yield dict(c, how=how, b=[2, 2])
    for c in sized(tier):
        yield dict(c, how='engine', b=[1, 1])
    for v, w in itertools.product(VALUES, VALUES):
        for place in PLACES:
            for how in ('engine', 'ordered', 'graphql', 'raw'):
                if how != 'engine' and tier == 'quick' and (v not in SMALL or w not in SMALL):
                    continue
                yield {'v': v, 'w': w, 'place': place, 'default': w, 'how': how, 'b': [b['orders'], cap]}
        yield {'v': v, 'w': w, 'place': 'expression', 'default': v, 'how': 'engine', 'b': [b['orders'], cap]}
    for v, w, d in itertools.product(SMALL, SMALL, SMALL) if tier != 'quick' else ():
        yield {'v': v, 'w': w, 'place': 'required', 'default': d, 'how': 'engine', 'b': [b['orders'], cap]}


def run_expression(case, rec):
    """Expression fields pass options on as arguments and read low-level fields with default options."""
    from hiku.expr.core import define

    @define(T.Any, T.Any)
    def pair(x, n):
        return '%s/%s' % (x, canon(n))

    def one(ch):
        def load(fields, ids=None):
            return [['%s%s(%s)' % (fd.name, canon(fd.options) if fd.options else '', i) for fd in fields]
                    for i in ids]
        low = Graph([Node('A', [Field('x', None, load, options=[Option('n', None, default=case['default'])]),
                                Field('y', None, load, options=[Option('n', None, default=case['w'])])]),
                     Root([Link('as', T.Sequence[T.TypeRef['A']], lambda: ['a1'], requires=None)])])
        sub = SubGraph(low, 'A')
        opt = [Option('n', None, default=None)]
        graph = Graph([Node('H', [Field('e', None, sub.c(pair(S.this.x, S.n)), options=opt),
                                  Field('y', None, sub.c(pair(S.this.y, S.n)), options=opt),
                                  Field('x', None, sub)]),
                       Root([Link('hs', T.Sequence[T.TypeRef['H']], lambda: ['a1', 'a2'], requires=None)])])
        v, w = case['v'], case['w']
        q = merge([QNode([QLink('hs', QNode([QField('e', {'n': v}, 'a'), QField('e', {'n': w}, 'b'),
                                             QField('y', {'n': v}), QField('x')]))])])
        got = denormalize(graph, Engine(MCExecutor(ch, max_full=case['b'][0])).execute(graph, q))

        def val(name, default, n, i):
            return '%s%s(%s)/%s' % (name, canon({'n': default}), i, canon(n))
        want = {'hs': [{'a': val('x', case['default'], v, i), 'b': val('x', case['default'], w, i),
                        'y': val('y', w, v, i), 'x': 'x%s(%s)' % (canon({'n': case['default']}), i)}
                       for i in ('a1', 'a2')]}
        if got != want:
            raise Violation('expression fields got data of other options', got=got, expected=want)
        rec.outcome(got)
        return repr(got)
    explore(one, rec, max_execs=case['b'][1])


def run(case, rec):
    if case.get('place') == 'expression':
        return run_expression(case, rec)
    if 'shape' in case:
        s, items = sizes.make(case)
    elif 'pair' in case:
        v, w = pair_of(*case['pair'])
        s, items = spec(None), PLACES[case['place']](v, w)
    else:
        s, items = spec(case['default']), PLACES[case['place']](case['v'], case['w'])
    expected = World(s).evaluate(items)
    if case['how'] == 'raw':
        items = backwards(items)
    text = gqltext.document('query', items) if case['how'] == 'graphql' else None

    def one(ch):
        if case['how'] == 'graphql':
            world = World(s)
            res = GraphQLEndpoint(Engine(MCExecutor(ch, max_full=case['b'][0])), world.graph()).dispatch(
                {'query': text})
            if set(res) != {'data'}:
                raise Violation('the query failed: %r' % (res,))
            got = res['data']
        else:
            r = Run(s, items, ch, max_full=case['b'][0], ordered=case['how'] == 'ordered',
                    merged=case['how'] != 'raw').ok()
            got = r.data()
            if r.denormalized() != got:
                raise Violation('denormalized result differs from the result object', got=r.denormalized(),
                                expected=got)
        if got != expected:
            raise Violation('a selection holds data of other options', got=got, expected=expected)
        rec.outcome(got)
        return repr(got)
    explore(one, rec, max_execs=case['b'][1])
