"""C03: link loaders start after the required field's loader finished and get exactly its values."""
import itertools

from hiku import query as Q, types as T
from hiku.engine import Engine
from hiku.graph import Field, Graph, Link, Node, Nothing, Option, Root
from hiku.query import merge

from .. import sizes
from ..core import Violation
from ..enginex import Run
from ..family import EDGES, G1, G1N, SAME, SHAPES, Trees, g1, has_req, plain
from ..sched import MCExecutor, explore
from ..tower import Tower, TowerRun, tower_cases
from ..world import World, mk_query

PROPERTY = 'C03'
TECHNIQUE = 'stateless exploration of completion orders on the real engine with a happens-before monitor on loader calls'
LEVEL_NOTE = 'Every query with a requires-link up to the item bound x completion orders. Values carry the call that produced them, so wrong or early values are visible.'
NOTE = {
    'alphabet': 'selections of the C01 graph that contain a link with requires; values are stamped with the '
                'number of the loader call that produced them; a second graph where root and nodes share all names; '
                'required values of %d shapes (empty, falsy, containers, ...) in sequences' % len(SHAPES),
    'choices': 'every non-empty ordered subset of the outstanding calls finishes at every wait',
    'oracle': 'event order (required call reported done before the link loader starts), identity and order of '
              'the objects behind the values, reference evaluation for the targets',
}


def bounds(tier):
    return {'items_per_query': 4 if tier == 'quick' else 5, 'depth': 3 if tier == 'quick' else 4,
            'full_menu_up_to_outstanding': 3 if tier == 'quick' else 4,
            'max_executions_per_case': 400 if tier == 'quick' else 4000,
            'max_executions_nested': 25 if tier == 'quick' else 400}


# required fields with options, the same required field selected with other options, two links on one field,
# a link requiring a field of the root with other fields of the same loader
G3 = {
    'root': {'fields': {'r1': {'f': 'R1', 'opts': {'o': {'default': 9}}}, 'r2': {'f': 'R2'}, 'r3': {'f': 'R1'}},
             'links': {'many': {'to': 'A', 'kind': 'Many'},
                       'rq': {'to': 'A', 'kind': 'Many', 'req': 'r1'},
                       'ro': {'to': 'A', 'kind': 'Maybe', 'req': 'r2'}}},
    'nodes': {
        'A': {'fields': {'x': {'f': 'A1', 'opts': {'o': {'default': 5}}}, 'y': {'f': 'A2'}, 'z': {'f': 'A1'}},
              'links': {'b': {'to': 'B', 'kind': 'One', 'req': 'x'},
                        'bo': {'to': 'B', 'kind': 'Many', 'req': 'x', 'opts': {'n': {'default': 0}}},
                        'c': {'to': 'B', 'kind': 'Maybe', 'req': 'y'}}},
        'B': {'fields': {'v': {'f': 'B1'}}, 'links': {}},
    },
    'edges': {'root.many': ['a2', 'a1', 'a2'], 'root.rq': ['a1'], 'root.ro': 'a2',
              'A.c': {'a1': None, 'a2': 'b1'}},
}
_A = [['x'], ['x', None, 'x7', {'o': 7}], ['y'], ['z'], ['b', [['v']]], ['bo', [['v']]],
      ['bo', [['v']], 'bo2', {'n': 1}], ['c', [['v']]]]
_R = [['r1'], ['r1', None, 'p', {'o': 1}], ['r2'], ['r3'], ['rq', [['x']]], ['ro', [['y']]]]
# fields named after each other, selected before and after links (queries built by hand keep this order)
_SWAPPED = [['x'], ['y', None, 'x'], ['z', None, 'x'], ['x', None, 'x', {'o': 7}], ['y'], ['x', None, 'y'], ['z', None, 'b'],
            ['b', [['v']]], ['b', [['v']], 'x'], ['bo', [['v']], 'b'], ['c', [['v']]], ['c', [['v']], 'z']]
_SWAPPED_ROOT = [['r1'], ['r2', None, 'r1'], ['r3', None, 'r1'], ['r2'], ['r1', None, 'r2'], ['r1', None, 'r1', {'o': 1}],
                 ['rq', [['x']]], ['rq', [['x']], 'r1'], ['ro', [['y']]], ['ro', [['y']], 'r2']]
G3_REQ = {'A.b': 'A1', 'A.bo': 'A1', 'A.c': 'A2', 'root.rq': 'R1', 'root.ro': 'R2'}


def _subsets(xs, k):
    for n in range(1, k + 1):
        for c in itertools.combinations(xs, n):
            yield list(c)


def cases(tier):
    b = bounds(tier)
    bb = [b['full_menu_up_to_outstanding'], b['max_executions_per_case']]
    for c in sizes.cases(tier, ('objects', 'repeated', 'spread', 'links', 'mixed-links', 'link-aliases', 'depth', 'words')):
        yield dict(c, b=[2, 2 if tier == 'quick' or c['n'] > 65 else 30])
    for sub in _subsets(_A, 3 if tier == 'quick' else 4):
        if any(i[0] in ('b', 'bo', 'c') for i in sub):
            yield {'g': 3, 'items': [['many', sub]], 'b': bb}
            yield {'g': 3, 'items': [['rq', sub], ['r1', None, 'p', {'o': 1}], ['r3']], 'b': bb}
            yield {'g': 3, 'items': [['ro', sub], ['many', [['x']]]], 'b': bb}
    for sel in _ordered(tier):
        for edges in ('dense', 'dup'):
            yield {'g': edges, 'items': [['many', sel]], 'deep': True, 'b': bb}
            yield {'g': edges, 'items': [['one', sel]], 'deep': True, 'b': bb}
    for sel in _ordered_root():
        yield {'g': 'dense', 'items': sel, 'ordered': True, 'b': bb}
    for sel in _ordered3(_A, 3 if tier == 'quick' else 4, ('b', 'bo', 'c')):
        yield {'g': 3, 'items': [['many', sel]], 'deep': True, 'b': bb}
    for sel in _ordered3(_R, 3 if tier == 'quick' else 5, ('rq', 'ro')):
        yield {'g': 3, 'items': sel, 'ordered': True, 'b': bb}
    for sel in _ordered3(_SWAPPED, 3 if tier == 'quick' else 4, ('b', 'bo', 'c')):
        if len(set(i[2] if len(i) > 2 and i[2] else i[0] for i in sel)) == len(sel):
            for how in ('raw', 'merged', 'deep') if tier != 'quick' or len(sel) < 3 else ('raw',):
                yield {'g': 3, 'items': [['many', sel]], how: True, 'b': bb}
    for sel in _ordered3(_SWAPPED_ROOT, 3 if tier == 'quick' else 4, ('rq', 'ro')):
        if len(set(i[2] if len(i) > 2 and i[2] else i[0] for i in sel)) == len(sel):
            for how in ('raw', 'merged', 'ordered'):
                yield {'g': 3, 'items': sel, how: True, 'b': bb}
    for c in tower_cases(tier):
        if has_tower_req(c['items']):
            yield dict(c, b=b['max_executions_nested'])
    for c in shape_cases(tier):
        yield c
    for spec, names in ((G1, EDGES), (G1N, SAME)):
        for items in Trees(spec).upto(b['items_per_query'], b['depth']):
            if has_req(spec, items):
                for edges in names:
                    yield {'g': edges, 'items': plain(items), 'b': bb}


def shape_cases(tier):
    n = range(len(SHAPES))
    for i in n:
        for kind in ('One', 'Maybe', 'Many'):
            for opts in (False, True):
                yield {'shape': 'root', 'vals': [i], 'kind': kind, 'opts': opts}
                yield {'shape': 'node', 'vals': [i], 'more': 2 if tier == 'quick' else 3, 'kind': kind, 'opts': opts}


def same(a, b):
    return a is b or (type(a) is type(b) and a == b)


def run_shape(case, rec):
    """The value of a required field is anything: it reaches the link loader as it is."""
    kind = case['kind']
    seqs = [case['vals']]
    if case['shape'] == 'node':
        seqs = [case['vals'] + list(more) for k in range(case['more'])
                for more in itertools.product(range(len(SHAPES)), repeat=k)]
    for seq in seqs:
        vals = [SHAPES[i] for i in seq]
        for selected in (False, True):
            run_shape1(case, kind, vals, selected, rec)


def run_shape1(case, kind, vals, selected, rec):
    typ = {'One': T.TypeRef['B'], 'Maybe': T.Optional[T.TypeRef['B']], 'Many': T.Sequence[T.TypeRef['B']]}[kind]

    def target(i):
        return 'b%d' % i if kind == 'One' else (Nothing if i % 2 else 'b%d' % i) if kind == 'Maybe' else ['b%d' % i] * i
    got = []

    def link(*args):
        got.append(args)
        return target(0) if case['shape'] == 'root' else [target(i) for i in range(len(vals))]
    options = [Option('p', None, default=1)] if case['opts'] else None
    b = Node('B', [Field('v', None, lambda fields, ids: [['v' + i for _ in fields] for i in ids])])
    the_link = Link('l', typ, link, requires='x', options=options)
    if case['shape'] == 'root':
        graph = Graph([b, Root([Field('x', None, lambda fields: [vals[0] for _ in fields]), the_link])])
    else:
        def load(fields, ids):
            return [[vals[i] for _ in fields] for i in ids]
        graph = Graph([b, Node('A', [Field('x', None, load), the_link]),
                       Root([Link('as', T.Sequence[T.TypeRef['A']], lambda: list(range(len(vals))), requires=None)])])
    sel = [['l', [['v']]]] + ([['x']] if selected else [])
    items = sel if case['shape'] == 'root' else [['as', sel]]

    def one(ch):
        del got[:]
        res = Engine(MCExecutor(ch)).execute(graph, merge([mk_query(items)]))
        if len(got) != 1 or len(got[0]) != (2 if case['opts'] else 1):
            raise Violation('link loader called with %r' % (got,))
        arg = got[0][0]
        ok = same(arg, vals[0]) if case['shape'] == 'root' else (
            isinstance(arg, (list, tuple)) and len(arg) == len(vals) and all(map(same, arg, vals)))
        if not ok:
            raise Violation('a link loader did not get the values of the required field', expected=repr(vals), got=repr(arg))
        if case['opts'] and got[0][1] != {'p': 1}:
            raise Violation('a link loader got wrong options', got=repr(got[0][1]))
        objs = [res] if case['shape'] == 'root' else list(res['as'])
        for i, o in enumerate(objs):
            t = target(i)
            x = o['l']
            seen = [y['v'] for y in x] if kind == 'Many' else None if x is None else x['v']
            want = ['v' + y for y in t] if kind == 'Many' else None if t is Nothing else 'v' + t
            if seen != want or (selected and not same(o['x'], vals[i])):
                raise Violation('objects are linked to wrong targets', expected=repr(want), got=repr(seen), values=repr(vals))
        rec.outcome((len(vals), kind))
    explore(one, rec, max_execs=8)


def has_tower_req(items):
    return any(i[0] in ('up', 'un', 'mb') or (i[1] and has_tower_req(i[1])) for i in items)


# ordered selections: the field a link requires comes before it, after it, or not at all
def _ordered(tier):
    pool = [['x', None], ['y', None], ['z', None], ['b', [['v', None]]], ['bs', [['w', None]]], ['up', [['y', None]]],
            ['nq', [['v', None]]]]
    for n in range(1, 4 if tier == 'quick' else 5):
        for seq in itertools.permutations(pool, n):
            if has_req(G1, seq, 'A'):
                yield [list(i) for i in seq]


def _ordered3(pool, n, links):
    """The same for fields selected with other options."""
    for k in range(1, n + 1):
        for seq in itertools.permutations(pool, k):
            if any(i[0] in links for i in seq):
                yield list(seq)


def _ordered_root():
    pool = [['r1', None], ['r2', None], ['r3', None], ['rq', [['v', None]]], ['one', [['b', [['w', None]]]]]]
    for n in range(1, 5):
        for seq in itertools.permutations(pool, n):
            if has_req(G1, seq):
                yield [list(i) for i in seq]


def run_tower(case, rec):
    items = case['items']
    tower = Tower(case['tower'])
    expected = tower.evaluate(items)
    calls = tower.calls(items)
    want = sorted((k[1], k[2]) for k in calls if k[0] == 'link' and k[2] is not None)

    def one(ch):
        r = TowerRun(case['tower'], items, ch, eager=False)
        got = r.ok()
        seen = sorted((c.func, tuple(c.values)) for c in r.world.calls if c.kind == 'link' and c.values is not None)
        if seen != want:
            raise Violation('links requiring expression fields got wrong values', expected=want, got=seen)
        if got != expected:
            raise Violation('objects are linked to wrong targets', expected=expected, got=got)
        rec.outcome(seen)
    explore(one, rec, max_execs=case['b'])


def unstamp(v):
    return v.rsplit('@', 1)


def run(case, rec):
    if 'vals' in case:
        return run_shape(case, rec)
    if 'tower' in case:
        return run_tower(case, rec)
    if 'shape' in case:
        spec, items = sizes.make(case)
    else:
        spec, items = G3 if case['g'] == 3 else g1(case['g']), case['items']
    req_of = {}
    for node, n in [('root', spec['root'])] + list(spec['nodes'].items()):
        for name, l in n['links'].items():
            if l.get('req'):
                req_of['%s.%s' % (node, name)] = (l['req'], n['fields'][l['req']])
    ref = World(spec)
    expected = ref.evaluate(items)
    # the values each link loader has to get at each place, without stamps
    want = sorted((k[1], k[2]) for k in ref.expected_calls(items) if k[0] == 'link' and k[2] is not None)

    def strip(x):
        if isinstance(x, dict):
            return {k: strip(v) for k, v in x.items()}
        if isinstance(x, list):
            return [strip(v) for v in x]
        return x.rsplit('@', 1)[0] if isinstance(x, str) else x

    def one(ch):
        query = None
        if case.get('deep'):
            query = Q.Node([Q.Link(items[0][0], mk_query(items[0][1], ordered=True))])
        r = Run(spec, items, ch, stamp=True, max_full=case['b'][0], query=query, merged=not case.get('raw'),
                ordered=bool(case.get('ordered'))).ok()
        calls = r.world.calls
        reported = set()
        got = []
        for kind, what in r.world.events:
            if kind == 'done':
                reported.add(what)
            elif kind == 'start' and what.kind == 'link' and what.values is not None:
                field, fspec = req_of[what.func]
                for v in what.values:
                    text, n = unstamp(v)
                    src = calls[int(n)]
                    if src.fut not in reported:
                        raise Violation('link loader %r started before the loader of its required field '
                                        'was done' % (what,))
                    if src.func != fspec['f']:
                        raise Violation('link loader %r got a value of another loader' % (what,))
                got.append((what.func, tuple(unstamp(v)[0] for v in what.values)))
        if sorted(got) != want:
            raise Violation('link loaders got wrong values', expected=want, got=sorted(got))
        data = strip(r.data())
        if data != expected:
            raise Violation('objects are linked to wrong targets', expected=expected, got=data)
        rec.outcome(got)
    explore(one, rec, max_execs=case['b'][1], check_determinism=False)
