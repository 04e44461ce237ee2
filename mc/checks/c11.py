"""C11: loaders receive exactly their declared options, defaulted and complete."""
import itertools
from collections import Counter

from hiku.endpoint.graphql import GraphQLEndpoint
from hiku.engine import Engine
from hiku.expr.core import S, define
from hiku.graph import Field, Graph, Link, Node, Option, Root
from hiku.query import Field as QField, Link as QLink, Node as QNode, merge
from hiku.sources.graph import SubGraph
from hiku import types as T

from .. import gqltext, sizes
from ..core import Violation
from ..enginex import Run
from ..family import backwards
from ..sched import MCExecutor, explore
from ..world import World, canon, mk_options

PROPERTY = 'C11'
TECHNIQUE = ('explicit enumeration of option declarations x given options at every kind of place, executed on the '
             'real engine under completion orders; recorded loader calls compared with the prescribed ones')
LEVEL_NOTE = ('Two options, each undeclared / required / with one of three defaults, x not given / given null, 0, text '
              '(and an undeclared option given) x 15 places x engine, ordered engine and GraphQL endpoint; one option with all '
              'pairs of 16 defaults and given values.')
NOTE = {
    'alphabet': 'declarations and given values of two options on fields, links, structured fields, fields required by '
                'links, low-level fields of expressions and expression fields',
    'choices': 'completion orders and groupings of all loader calls',
    'oracle': 'multiset of (loader, options) computed from the declarations; TypeError without any call if the query '
              'lacks a required option',
}

DECL = [None, {}, {'default': 5}, {'default': None}, {'default': []}]
GIVEN = ['-', None, 0, 'v']
#: defaults and given values of one option, all pairs: nothing of the default may be left in what is given
VALUES = [None, 0, 1, True, False, 0.5, '', 'v', [], [1], [1, 2], {}, {'a': 1}, {'a': 2, 'b': None}, {'a': {'b': 1}}, {'a': {'c': [1]}}]


def spec(o):
    return {
        'root': {
            'fields': {'h': {'f': 'R1'}, 't': {'f': 'R1', 'opts': o}, 'u': {'f': 'R2', 'opts': o},
                       'rec': {'f': 'R1', 'opts': o, 'type': ['rec', {'p': 'Str', 'q': 'Str'}]}},
            'links': {'one': {'to': 'A', 'kind': 'One'}, 'many': {'to': 'A', 'kind': 'Many'},
                      'l': {'to': 'A', 'kind': 'Many', 'opts': o},
                      'lr': {'to': 'A', 'kind': 'One', 'req': 't'},
                      'lh': {'to': 'A', 'kind': 'Maybe', 'req': 'h', 'opts': o}},
        },
        'nodes': {
            'A': {'fields': {'z': {'f': 'A1'}, 't': {'f': 'A1', 'opts': o}, 'u': {'f': 'A2', 'opts': o},
                             'rec': {'f': 'A2', 'opts': o, 'type': ['seq', ['rec', {'p': 'Str', 'q': 'Str'}]]}},
                  'links': {'l': {'to': 'B', 'kind': 'One', 'opts': o},
                            'lr': {'to': 'B', 'kind': 'Many', 'req': 'u'},
                            'lz': {'to': 'B', 'kind': 'Maybe', 'req': 'z', 'opts': o}}},
            'B': {'fields': {'v': {'f': 'B1'}}, 'links': {'up': {'to': 'A', 'kind': 'One', 'req': 'v'}}},
        },
        'edges': {'root.one': 'a1', 'root.many': ['a1', 'a2'], 'root.lr': 'a1', 'root.lh': 'a2',
                  'B.up': 'a1'},
    }


V = [['v']]
Z = [['z']]
# place -> (function given -> items, whether a declared required option may be missing there only by the query)
PLACES = {
    'root field': lambda g: [['h'], ['t', None, None, g]],
    'root fields aliased': lambda g: [['h'], ['t', None, 'a', g], ['u', None, 't', g]],
    'node field': lambda g: [['h'], ['one', [['z'], ['t', None, None, g]]]],
    'node fields aliased': lambda g: [['many', [['z'], ['t', None, 'u', g], ['u', None, 'b', g]]]],
    'root link': lambda g: [['h'], ['l', Z, None, g]],
    'node link': lambda g: [['many', [['z'], ['l', V, 'a', g]]]],
    'required and own': lambda g: [['lh', Z, None, g], ['many', [['lz', V, None, g]]]],
    'structured': lambda g: [['rec', [['p']], None, g], ['many', [['rec', [['p'], ['q']], 'a', g]]]],
    'deep': lambda g: [['many', [['lz', [['v'], ['up', [['t', None, None, g], ['l', V, None, g]]]], None, g]]]],
}
# places where the options of the required field are never given by the query
REQUIRED = {
    'required root': lambda g: [['h'], ['lr', Z]],
    'required node': lambda g: [['h'], ['many', [['lr', V]]]],
    'required beside': lambda g: [['u', None, None, g], ['many', [['u', None, 'a', g], ['lr', V, 'b']]]],
}


def bounds(tier):
    return {'orders': 2 if tier == 'quick' else 4, 'max_executions_per_case': 6 if tier == 'quick' else 100}


def cases(tier):
    b = bounds(tier)
    bb = [b['orders'], b['max_executions_per_case']]
    for c in sizes.cases(tier, ('options', 'aliases', 'link-aliases', 'same', 'words')):
        for how in ('engine', 'ordered', 'graphql'):
            yield dict(c, o={}, g={}, place=None, how=how, b=[2, 2])
    for (dm, gm), (dn, gn) in itertools.product(itertools.product(DECL, GIVEN), repeat=2):
        o = {k: d for k, d in (('m', dm), ('n', dn)) if d is not None}
        g = {k: v for k, v in (('m', gm), ('n', gn)) if v != '-'}
        if not o or any(k not in o for k in g):
            # undeclared options are only given besides declared ones
            if not o or gm == '-' and gn == '-':
                continue
        for place in list(PLACES) + list(REQUIRED):
            for how in ('engine', 'ordered', 'graphql', 'raw'):
                if how == 'graphql' and any(k not in o for k in g):
                    continue
                yield {'o': o, 'g': g, 'place': place, 'how': how, 'b': bb}
        for place in ('expression', 'low-level', 'low-level root'):
            yield {'o': o, 'g': g, 'place': place, 'how': 'engine', 'b': bb}


    for d, v in itertools.product(VALUES, ['-'] + VALUES):
        o = {'m': {'default': d}, 'n': {'default': v if v != '-' else 7}}
        g = {} if v == '-' else {'m': v}
        for place in list(PLACES) + list(REQUIRED):
            for how in ('engine', 'graphql') if tier == 'quick' else ('engine', 'ordered', 'graphql'):
                yield {'o': o, 'g': g, 'place': place, 'how': how, 'b': [1, 1] if tier == 'quick' else bb}
        for place in ('expression', 'low-level', 'low-level root'):
            yield {'o': o, 'g': g, 'place': place, 'how': 'engine', 'b': [1, 1] if tier == 'quick' else bb}


def canon_calls(world):
    return Counter(c.key() for c in world.calls)


def run(case, rec):
    o, g = case['o'], case['g']
    if case['place'] in ('expression', 'low-level', 'low-level root'):
        return run_expression(case, rec)
    given = g or None
    required = case['place'] in REQUIRED
    if 'shape' in case:
        s, items = sizes.make(case)
    else:
        s, items = spec(o), (REQUIRED if required else PLACES)[case['place']](given)
    lacks = any('default' not in d for k, d in o.items() if required or k not in g)
    expected_calls = expected = None
    if not lacks:
        w = World(s)
        expected = w.evaluate(items)
        expected_calls = Counter(World(s).expected_calls(items))

    def one(ch):
        if case['how'] == 'graphql':
            world = World(s)
            try:
                res = GraphQLEndpoint(Engine(MCExecutor(ch, max_full=case['b'][0])), world.graph()).dispatch(
                    {'query': gqltext.document('query', items)})
            except TypeError as e:
                # a link that requires a field with a required option can not be queried at all
                if not (lacks and required):
                    raise
                res = {'errors': [str(e)]}
            if lacks:
                if 'errors' not in res or world.calls:
                    raise Violation('a query without a required option was executed', result=repr(res))
                return 'rejected'
            if set(res) != {'data'}:
                raise Violation('the query failed: %r' % (res,))
            got = res['data']
        else:
            r = Run(s, backwards(items) if case['how'] == 'raw' else items, ch, max_full=case['b'][0],
                    ordered=case['how'] == 'ordered', merged=case['how'] != 'raw')
            world = r.world
            r.execute()
            if lacks:
                if not isinstance(r.error, TypeError):
                    raise Violation('a required option is missing, and execution ended with %r' % (r.error,))
                if world.calls:
                    raise Violation('loaders were called although a required option is missing',
                                    calls=repr(world.calls))
                rec.outcome('TypeError')
                return 'TypeError'
            if r.error is not None:
                raise r.error
            got = r.data()
        if case['how'] == 'ordered':
            want = Counter((k[1], x) for k in expected_calls.elements() for x in
                           (sorted(k[2]) if k[0] == 'field' else [k[3]]))
            have = Counter((k[1], x) for k in canon_calls(world).elements() for x in
                           (sorted(k[2]) if k[0] == 'field' else [k[3]]))
            # an ordered selection may load a required field again for a later item
            want, have = set(want), set(have)
        else:
            want, have = expected_calls, canon_calls(world)
        if want != have:
            raise Violation('loaders got other options', got=repr(have), expected=repr(want))
        if got != expected:
            raise Violation('result differs', got=got, expected=expected)
        rec.outcome(got)
        return repr(got)
    explore(one, rec, max_execs=case['b'][1])


def run_expression(case, rec):
    o, g = case['o'], case['g']
    place = case['place']
    names = list(o)
    declared = mk_options(o)
    low_opts = place != 'expression'
    lacks = any('default' not in d for k, d in o.items() if low_opts or k not in g)
    eff = None if lacks else World.effective(o, None if low_opts else g)

    @define(*[T.Any] * (1 + len(names)))
    def show(*args):
        return args

    def one(ch):
        seen = []

        def load(fields, ids=None):
            seen.extend((f.name, canon(f.options)) for f in fields if f.name != 'plain')
            if ids is None:
                return ['%s()' % f.name for f in fields]
            return [['%s(%s)' % (f.name, i) for f in fields] for i in ids]

        def targets(values, opts):
            seen.append(('l', canon(opts)))
            return [[v] for v in values]

        def roots(opts):
            seen.append(('rl', canon(opts)))
            return ['r1']
        lo = (declared if low_opts else None)
        to_a = T.Sequence[T.TypeRef['A']]
        low = Graph([
            Node('A', [Field('x', None, load, options=lo), Field('plain', None, load)] +
                 ([Link('l', to_a, targets, requires='plain', options=lo)] if low_opts else [])),
            Root([Field('rx', None, load, options=lo)] +
                 ([Link('rl', to_a, roots, requires=None, options=lo)] if low_opts else [])),
        ])
        sub = SubGraph(low, 'A')
        from hiku.expr.core import each
        if place == 'expression':
            e = [Field('e', None, sub.c(show(S.this.plain, *[getattr(S, n) for n in names])), options=declared),
                 # the same options, declared in another order
                 Field('f', None, sub.c(show(S.this.plain, *[getattr(S, n) for n in names])),
                       options=list(mk_options(dict(reversed(o.items()))))),
                 # and with one more, which is not used
                 Field('k', None, sub.c(show(S.this.plain, *[getattr(S, n) for n in names])),
                       options=[Option('other', None, default='unused')] + list(mk_options(o)))]
            want_seen = set()
        elif place == 'low-level':
            e = [Field('e', None, sub.c(S.this.x)), Field('e2', None, sub.c(each(S.i, S.this.l, S.i.x))),
                 Field('x', None, sub)]
            want_seen = lambda: {('x', canon(eff)), ('l', canon(eff))}
        else:
            e = [Field('e', None, sub.c(S.rx)), Field('e2', None, sub.c(each(S.i, S.rl, S.i.x)))]
            want_seen = lambda: {('rx', canon(eff)), ('rl', canon(eff)), ('x', canon(eff))}
        graph = Graph([Node('H', e), Root([Link('hs', T.Sequence[T.TypeRef['H']], lambda: ['a1', 'a2'],
                                                requires=None)])])
        sel = [QField(f.name, (g or None) if place == 'expression' else None) for f in e]
        q = merge([QNode([QLink('hs', QNode(sel))])])
        try:
            res = Engine(MCExecutor(ch, max_full=case['b'][0])).execute(graph, q)
        except TypeError as err:
            if not lacks:
                raise
            if seen:
                raise Violation('low-level loaders were called although an option is missing', calls=repr(seen))
            return 'TypeError'
        if lacks:
            raise Violation('a required option is missing, and execution gave a result')
        rows = [{f.name: r[f.name] for f in e} for r in res['hs']]
        if place == 'expression':
            want = [{f.name: tuple(['plain(%s)' % i] + [eff[n] for n in names]) for f in e} for i in ('a1', 'a2')]
            if canon(rows) != canon(want):
                raise Violation('the expression got other options', got=repr(rows), expected=repr(want))
        else:
            if set(seen) != want_seen():
                raise Violation('low-level loaders got other options', got=repr(sorted(set(seen))),
                                expected=repr(sorted(want_seen())))
            if place == 'low-level':
                want = [{'e': 'x(%s)' % i, 'e2': ['x(plain(%s))' % i], 'x': 'x(%s)' % i} for i in ('a1', 'a2')]
            else:
                want = [{'e': 'rx()', 'e2': ['x(r1)']} for i in ('a1', 'a2')]
            if rows != want:
                raise Violation('expression values differ', got=repr(rows), expected=repr(want))
        rec.outcome(rows)
        return repr(rows)
    explore(one, rec, max_execs=case['b'][1])
