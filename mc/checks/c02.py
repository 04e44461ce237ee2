"""C02: the multiset of loader calls equals the one batching prescribes, under every completion order."""
from collections import Counter

from .. import sizes
from ..core import Violation
from ..enginex import Run, calls_view
from ..family import EDGES, G1, G1N, SAME, Trees, backwards, g1, plain
from ..sched import Chooser, explore
from ..tower import Tower, TowerRun, tower_cases
from ..world import World

PROPERTY = 'C02'
TECHNIQUE = 'stateless exploration of completion orders on the real engine; recorded loader calls compared with the batch a reference model prescribes'
LEVEL_NOTE = 'Every query up to the item bound x data variants x completion orders. Trusts the model of the prescribed calls (mc/world.py expected_calls).'
NOTE = {
    'alphabet': 'as C01, plus links selected twice under aliases and option-carrying selections',
    'choices': 'every non-empty ordered subset of the outstanding calls finishes at every wait',
    'oracle': 'set of calls computed from the graph description: per place one call per loader with the '
              'selected and required fields and the identifiers of the parent link; plus independence of the '
              'number of calls from the number of objects',
}

# a graph whose fields and links take options; many distinct option values are requested at one place
G2 = {
    'root': {
        'fields': {'r': {'f': 'R1', 'opts': {'o': {'default': 1}}}, 's': {'f': 'R1'}},
        'links': {'as': {'to': 'A', 'kind': 'Many', 'opts': {'o': {'default': 0}}},
                  'one': {'to': 'A', 'kind': 'One'}},
    },
    'nodes': {
        'A': {
            'fields': {'x': {'f': 'A1', 'opts': {'o': {'default': 5}}}, 'y': {'f': 'A1'}, 'k': {'f': 'A2'}},
            'links': {'cs': {'to': 'C', 'kind': 'Many', 'req': 'k', 'opts': {'o': {'default': 2}}},
                      'cx': {'to': 'C', 'kind': 'Maybe', 'req': 'x'}},
        },
        'C': {'fields': {'v': {'f': 'C1'}, 'w': {'f': 'C1', 'opts': {'o': {'default': None}}}}, 'links': {}},
    },
}

_SUB_A = [
    [['x']], [['x'], ['y']], [['x', None, 'a', {'o': 1}], ['x', None, 'b', {'o': 2}]],
    [['x', None, 'a'], ['x', None, 'b']], [['k'], ['y']], [['cs', [['v']]]],
    [['cs', [['v']], 'p', {'o': 1}], ['cs', [['v']], 'q', {'o': 2}]],
    [['cs', [['v']], 'p'], ['cs', [['w']], 'q']],
    [['cx', [['v']]]], [['x'], ['cx', [['v'], ['w', None, None, {'o': 3}]]]],
    [['cx', [['w']]], ['cs', [['w', None, 'z', {'o': 4}]]], ['y']],
]


def g2_queries():
    for sub in _SUB_A:
        yield [['as', sub]]
        yield [['one', sub]]
        yield [['as', sub, 'p', {'o': 1}], ['as', sub, 'q', {'o': 2}]]
        for sub2 in _SUB_A:
            yield [['r', None, None, {'o': 7}], ['r', None, 'r2'], ['s'], ['as', sub], ['one', sub2]]


def bounds(tier):
    return {'items_per_query': 4 if tier == 'quick' else 5, 'depth': 3 if tier == 'quick' else 4,
            'full_menu_up_to_outstanding': 3 if tier == 'quick' else 4,
            'max_executions_per_case': 200 if tier == 'quick' else 3000,
            'max_executions_nested': 25 if tier == 'quick' else 400}


def cases(tier):
    b = bounds(tier)
    bb = [b['full_menu_up_to_outstanding'], b['max_executions_per_case']]
    for c in sizes.cases(tier):
        yield dict(c, b=[2, 3 if tier == 'quick' or c['n'] > 65 else 30])
    for i, items in enumerate(g2_queries()):
        yield {'g': 2, 'items': items, 'b': bb}
    for c in tower_cases(tier):
        yield dict(c, b=b['max_executions_nested'])
    for items in Trees(G1N).upto(b['items_per_query'], b['depth']):
        for edges in SAME:
            yield {'g': edges, 'items': plain(items), 'b': bb}
    trees = Trees(G1)
    for items in trees.upto(b['items_per_query'], b['depth']):
        for edges in EDGES:
            yield {'g': edges, 'items': plain(items), 'b': bb}
        yield {'g': 'sizes', 'items': plain(items)}
    for spec, names in ((G1, EDGES), (G1N, SAME)):
        for items in Trees(spec).upto(3 if tier == 'quick' else 4, b['depth']):
            for edges in names:
                yield {'g': edges, 'items': backwards(plain(items)), 'raw': True, 'b': [2, 20]}
    for i, items in enumerate(g2_queries()):
        yield {'g': 2, 'items': backwards(items), 'raw': True, 'b': [2, 20]}


def sized(n):
    ids = ['a%d' % i for i in range(n)]
    bs = ['b%d' % i for i in range(n)]
    return dict(G1, edges={
        'root.one': 'a0', 'root.mb': 'a0', 'root.many': ids, 'root.rq': bs,
        'A.b': {i: bs[k] for k, i in enumerate(ids)}, 'A.bs': {i: bs for i in ids},
        'A.up': {i: i for i in ids}, 'A.nq': 'b0', 'B.back': {j: ids[k] for k, j in enumerate(bs)}})


def compare(expected, calls):
    got = Counter(c.key() for c in calls)
    if got != expected:
        raise Violation('loader calls differ from one batched call per place',
                        missing=list((expected - got).elements()), extra=list((got - expected).elements()),
                        calls=[repr(c) for c in calls])


def run(case, rec):
    items = case.get('items')
    if 'tower' in case:
        expected = Counter(tuple(k) for k in Tower(case['tower']).calls(items))

        def one(ch):
            r = TowerRun(case['tower'], items, ch)
            r.ok()
            compare(expected, r.world.calls)
            rec.outcome([c.func for c in r.world.calls])
        explore(one, rec, max_execs=case['b'])
        return
    if case.get('g') == 'sizes':
        shapes = {}
        for n in (1, 2, 5):
            spec = sized(n)

            def one(ch):
                r = Run(spec, items, ch).ok()
                shapes[n] = sorted((c.kind, c.func, sorted(f + str(o) for f, o in c.fields or ()))
                                   for c in r.world.calls)
            one(Chooser())
            rec.traces += 1
        if not shapes[1] == shapes[2] == shapes[5]:
            raise Violation('the loader calls depend on the number of objects', shapes=shapes)
        return
    if 'shape' in case:
        spec, items = sizes.make(case)
    else:
        spec = G2 if case['g'] == 2 else g1(case['g'])
    expected = Counter(World(spec).expected_calls(items))

    def one(ch):
        r = Run(spec, items, ch, max_full=case['b'][0], merged=not case.get('raw')).ok()
        compare(expected, r.world.calls)
        rec.outcome([c.func for c in r.world.calls])
    explore(one, rec, max_execs=case['b'][1])
