"""C04: ordered (mutation) selections run one after another in document order."""
import itertools
from collections import Counter

from hiku.endpoint.graphql import GraphQLEndpoint
from hiku.engine import Engine
from hiku import query as Q
from hiku.graph import Field, Graph, Root
from hiku.query import merge

from .. import gqltext, sizes
from ..core import Violation
from ..enginex import Run
from ..sched import MCExecutor, explore
from ..tower import EDGES as TOWER_EDGES, SPEC as TOWER_SPEC, Tower, TowerRun
from ..world import World, mk_query, canon, item4, opts_text

PROPERTY = 'C04'
TECHNIQUE = ('stateless exploration of completion orders on the real engine and endpoint, with a monitor comparing '
             'the sequence of top-level loader calls with the document order')
LEVEL_NOTE = ('Every ordered selection up to the length bound over fields, links, required, structured, optioned and '
              'aliased items, as ordered query nodes and as mutation documents with fragments and duplicates. '
              'Sub-selections of earlier items are not required to be finished.')
NOTE = {
    'alphabet': 'top-level items: fields of two loaders, a field with options under two aliases, structured fields, '
                'links without requires / requiring a plain field / requiring a field with options, null and list '
                'links; documents with inline and named fragments and repeated selections',
    'choices': 'every non-empty ordered subset of the outstanding calls finishes at every wait',
    'oracle': 'expected sequence of (loader, field, options) derived from the document; reference evaluation for data',
}

SPEC = {
    'root': {
        'fields': {
            'f1': {'f': 'R1'}, 'f2': {'f': 'R1'}, 'g1': {'f': 'R2'},
            'o': {'f': 'R1', 'opts': {'n': {'default': 0}}},
            'rec': {'f': 'R2', 'type': ['rec', {'p': 'Str', 'q': 'Int'}]},
            'recs': {'f': 'R3', 'type': ['seq', ['rec', {'p': 'Str'}]], 'val': 2},
        },
        'links': {
            'la': {'to': 'A', 'kind': 'One', 'f': 'LA'},
            'lb': {'to': 'A', 'kind': 'Many', 'req': 'f1', 'f': 'LB'},
            'lc': {'to': 'A', 'kind': 'One', 'req': 'o', 'opts': {'m': {'default': 7}}, 'f': 'LC'},
            'ld': {'to': 'A', 'kind': 'Maybe', 'f': 'LD'},
        },
    },
    'nodes': {'A': {'fields': {'x': {'f': 'A1'}, 'y': {'f': 'A2'}},
                    'links': {'up': {'to': 'A', 'kind': 'Maybe', 'req': 'x', 'f': 'UP'}}}},
    'edges': {'root.la': 'a1', 'root.lb': ['a1', 'a2'], 'root.lc': 'a3', 'root.ld': None,
              'A.up': {'a1': 'a2', 'a2': None, 'a3': 'a1'}},
}
# the same selections at the objects of a list link
DEEP = {
    'root': {'fields': {}, 'links': {'many': {'to': 'P', 'kind': 'Many', 'f': 'MANY'}}},
    'nodes': {'P': SPEC['root'], 'A': SPEC['nodes']['A']},
    'edges': {'root.many': ['p2', 'p1'], 'P.la': 'a1', 'P.lb': {'p1': ['a1', 'a2'], 'p2': []},
              'P.lc': {'p1': 'a3', 'p2': 'a1'}, 'P.ld': None, 'A.up': SPEC['edges']['A.up']},
}
TOP = {'R1', 'R2', 'R3', 'LA', 'LB', 'LC', 'LD'}

ITEMS = [
    ['f1'], ['f2'], ['g1'], ['o'], ['o', None, 'o1', {'n': 1}], ['o', None, 'o2', {'n': 2}],
    ['f1', None, 'fa'], ['rec', [['p'], ['q']]], ['recs', [['p']]],
    ['la', [['x']]], ['lb', [['x'], ['y']]], ['lc', [['y']], 'lc1', {'m': 1}], ['lc', [['up', [['y']]]]],
    ['ld', [['x']]], ['la', [['up', [['x']]]], 'la2'],
]

SPEC_T = TOWER_SPEC['nodes']['T']


def key_of(it):
    n, _, a, _ = item4(it)
    return a or n


def bounds(tier):
    return {'items': 3 if tier == 'quick' else 4, 'menu': 2 if tier == 'quick' else 3,
            'max_executions_per_case': 40 if tier == 'quick' else 400}


def documents():
    """Mutation documents with fragments and repeated selections; (text items, fragments, merged items)."""
    fr = [['F', 'Mutation', [['g1'], ['f2']]]]
    yield ([['f1'], ['...F'], ['o']], fr, [['f1'], ['g1'], ['f2'], ['o']])
    yield ([['...F'], ['lb', [['x']]], ['g1']], fr, [['g1'], ['f2'], ['lb', [['x']]]])
    yield ([['la', [['x']]], ['g1'], ['la', [['y']]], ['f1']], [],
           [['la', [['x'], ['y']]], ['g1'], ['f1']])
    yield ([['lb', [['x']]], ['rec', [['p']]], ['...', [['lb', [['y']]], ['f2']]], ['rec', [['q']]]], [],
           [['lb', [['x'], ['y']]], ['rec', [['p'], ['q']]], ['f2']])
    yield ([['...', [['la', [['x']]], ['...', [['f1']]]]], ['...F'], ['f1']], fr,
           [['la', [['x']]], ['f1'], ['g1'], ['f2']])
    yield ([['f1'], ['la', [['x']]], ['f1'], ['f2']], [], [['f1'], ['la', [['x']]], ['f2']])
    yield ([['o', None, 'o1', {'n': 1}], ['g1'], ['o', None, 'o2', {'n': 2}], ['o', None, 'o1', {'n': 1}]], [],
           [['o', None, 'o1', {'n': 1}], ['g1'], ['o', None, 'o2', {'n': 2}]])


def cases(tier):
    b = bounds(tier)
    bb = [b['menu'], b['max_executions_per_case']]
    for text, frags, merged in documents():
        yield {'how': 'doc', 'text': text, 'frags': frags, 'items': merged, 'b': bb}
    for n in sizes.ladder(tier, 65 if tier == 'quick' else 257):
        for how in ('node', 'lazy', 'mutation', 'deep'):
            for start in range(3):
                yield {'how': how, 'items': long_items(n, start), 'b': [2, 2 if n > 20 else 4]}
    for n in range(1, b['items'] + 1):
        for seq in itertools.permutations(ITEMS, n):
            if len({key_of(i) for i in seq}) < n:
                continue
            items = [list(i) for i in seq]
            for how in (('node', 'mutation') if n > 2 else ('node', 'lazy', 'mutation')):
                yield {'how': how, 'items': items, 'b': bb}
            if n < b['items']:
                yield {'how': 'deep', 'items': items, 'b': bb}
    for sel in permuted(tier):
        for edges in TOWER_EDGES:
            yield {'tower': edges, 'items': [['many', sel]], 'b': bb}


def long_items(n, start):
    """Many items: loaders take turns, every third time the same one twice."""
    pool = [['o', None], ['g1', None], ['f1', None], ['la', [['x']]], ['f2', None], ['lb', [['y']]], ['recs', [['p']]], ['lc', [['x']]]]
    res = []
    for i in range(n):
        name, sel = pool[(start + i * (i % 3 + 1)) % len(pool)]
        res.append([name, sel, 'k%d' % i] + ([{'n': i}] if name == 'o' else [{'m': i}] if name == 'lc' else []))
    return res


def permuted(tier):
    pool = [['t1', None], ['t2', None], ['t4', None], ['t5', None, 'p2', {'p': 2}], ['t6', None],
            ['up', [['t4', None]]], ['un', [['t1', None]]]]
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        for seq in itertools.permutations(pool, n):
            yield [list(i) for i in seq]


def run_tower(case, rec):
    # nested graphs: only adjacent expression fields of one sub-graph share calls; what a step below the top
    # of this selection loads is not restricted, so the monitor looks at steps that are fields
    items = case['items']
    sel = items[0][1]
    tower = Tower(case['tower'])
    expected = tower.evaluate(items)
    steps = []
    for it in sel:
        name = it[0]
        if name in SPEC_T['links']:
            name = SPEC_T['links'][name]['req']
            step = [tower.is_expr('T', name), [[name, None]]]
        else:
            step = [tower.is_expr('T', name), [it]]
        if steps and steps[-1][0] == step[0] and not steps[-1][2]:
            steps[-1][1] += step[1]
        else:
            steps.append(step + [False])
        if it[0] in SPEC_T['links']:
            break
    ids = TOWER_EDGES[case['tower']]['root.many']
    want = [Counter(map(tuple, tower.calls(s[1], 'T', ids))) for s in steps] if ids else []

    def one(ch):
        r = TowerRun(case['tower'], items, ch, query=merge([Q.Node([Q.Link('many', mk_query(sel, ordered=True))])]))
        got = r.ok()
        if got != expected:
            raise Violation('ordered result over nested graphs differs', expected=expected, got=got)
        seq = [(k, w) for k, w in r.world.events if (k == 'start' and w.func != 'root.many') or k == 'done']
        running = set()
        for n, step in enumerate(want):
            left = Counter(step)
            while left:
                kind, what = seq.pop(0)
                if kind == 'done':
                    running.discard(what)
                    continue
                key = what.key()
                if not left[key]:
                    raise Violation('a loader call of a later step started early', call=repr(what), step=n)
                if left == step and running:
                    raise Violation('a step started before the calls of the previous one were done',
                                    call=repr(what), step=n)
                left = left - Counter([key])
                running.add(what.fut)
        rec.outcome([repr(c) for c in r.world.calls])
        return got
    explore(one, rec, max_execs=case['b'][1])


def expected_atoms(items):
    w = World(SPEC)
    root = SPEC['root']
    out = []

    def field(name, given):
        f = root['fields'][name]
        out.append((f['f'], name, opts_text(w.effective(f.get('opts'), given))))
    for it in items:
        name, sub, alias, given = item4(it)
        if name in root['fields']:
            field(name, given)
        else:
            link = root['links'][name]
            if link.get('req'):
                field(link['req'], None)
            o = w.effective(link.get('opts'), given) if link.get('opts') else None
            out.append((link['f'], None, '' if o is None else canon(o)))
    return out


def atoms(call):
    if call.kind == 'field':
        return [(call.func, f, opts_text(o)) for f, o in call.fields]
    return [(call.func, None, '' if call.options is None else canon(call.options))]


def monitor(world, items, eager):
    pending = {}
    seen = []
    for kind, what in world.events:
        if kind == 'start' and what.func in TOP:
            if pending:
                raise Violation('a top-level call started before the previous one finished',
                                started=repr(what), outstanding=[repr(c) for c in pending.values()])
            seen += atoms(what)
            pending[id(what.fut)] = what
        elif kind == 'done':
            pending.pop(id(what), None)
    if seen != expected_atoms(items):
        raise Violation('top-level loaders did not run in document order', got=seen, expected=expected_atoms(items))


def run(case, rec):
    if 'tower' in case:
        return run_tower(case, rec)
    items = case['items']
    how = case['how']
    expected = (World(DEEP).evaluate([['many', items]]) if how == 'deep' else World(SPEC).evaluate(items))
    if how == 'doc':
        text = gqltext.document('mutation', case['text'], case['frags'])
    elif how == 'mutation':
        text = gqltext.document('mutation', items)

    def one(ch):
        if how == 'deep':
            query = Q.Node([Q.Link('many', mk_query(items, ordered=True))])
            r = Run(DEEP, [['many', items]], ch, max_full=case['b'][0], query=query).ok()
            world, got = r.world, r.denormalized()
        elif how in ('node', 'lazy'):
            r = Run(SPEC, items, ch, eager=how == 'node', max_full=case['b'][0], ordered=True).ok()
            world, got = r.world, r.denormalized()
            if r.data() != expected:
                raise Violation('ordered result differs', expected=expected, got=r.data())
        else:
            world = World(SPEC)
            ex = MCExecutor(ch, max_full=case['b'][0], on_event=lambda k, f: world.events.append((k, f)))
            query_graph = Graph([Root([Field('noop', None, lambda fields: [1 for _ in fields])])])
            endpoint = GraphQLEndpoint(Engine(ex), query_graph, world.graph())
            res = endpoint.dispatch({'query': text})
            if set(res) != {'data'}:
                raise Violation('the mutation failed: %r' % (res,))
            got = res['data']
        if got != expected:
            raise Violation('result differs from sequential evaluation', expected=expected, got=got)
        monitor(world, items, how != 'lazy')
        rec.outcome([atoms(c) for c in world.calls if c.func in TOP])
        return got
    explore(one, rec, max_execs=case['b'][1])
