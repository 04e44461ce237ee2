"""C28: __typename answers with the type of the object at that place, at every place."""
import itertools

from .. import sizes
from ..core import Violation
from ..endp import MUTATION, QUERY, Service, check_response, evaluate, strip
from ..exprs import call_text
from ..gqltext import document
from ..sched import explore
from ..world import item4

PROPERTY = 'C28'
TECHNIQUE = ('explicit enumeration of queries and mutations with __typename inserted in every way into every subset of their '
             'selections, executed through the real synchronous and asynchronous endpoints')
LEVEL_NOTE = ('All selection trees up to the bound over One/Maybe/Many links and Record/Optional/Sequence/inline record fields, '
              'x five ways of selecting __typename (absent, plain, aliased, both, repeated) in every selection, x data with '
              'null / empty / several. Fragments and repeated selections of one link are a second family. Completion orders '
              'are explored, deviation-bounded, for the asynchronous endpoint.')
NOTE = {
    'oracle': 'reference evaluator with the type names of the specification, which are compared with what introspection '
              'reports through the same endpoint; loader calls are those of the query without __typename',
}
RECS = {'D': ['p', 'e', 'l', 'o', 'i'], 'E': ['u', 'w'], 'I': ['q', 'e']}
REC_TO = {'e': 'E', 'l': 'E', 'o': 'E', 'i': 'I', 'w': 'E'}
ROOT_TO = {'rec': 'D', 'eo': 'E', 'el': 'E', 'inl': 'I', 'one': 'A', 'mb': 'A', 'many': 'A'}
NAMES = {
    'Query': ['f', 'rec', 'eo', 'el', 'inl', 'one', 'mb', 'many'],
    'Mutation': ['set', 'done', 'made', 'lst'],
    'A': ['x', 'd', 'b', 'up', 'bs'], 'B': ['v', 'a'],
}
TO = {('Query', n): t for n, t in ROOT_TO.items()}
TO.update({('Mutation', 'done'): 'E', ('Mutation', 'made'): 'A', ('Mutation', 'lst'): 'A', ('A', 'd'): 'D', ('A', 'b'): 'B',
           ('A', 'up'): 'A', ('A', 'bs'): 'B', ('B', 'a'): 'A'})
for r, names in RECS.items():
    NAMES[r] = names
    TO.update({(r, n): REC_TO[n] for n in names if n in REC_TO})
TN = [[], [['__typename']], [['__typename', None, 't']], [['__typename'], ['__typename', None, 't']],
      [['__typename', None, 't'], ['__typename', None, 't'], ['__typename', None, 'k']]]


def trees(ctx, size, depth, start=0):
    """Selections with `size` items; a structure may be selected with nothing in it (but its __typename)."""
    if size == 0:
        yield []
        return
    names = NAMES[ctx]
    for i in range(start, len(names)):
        name = names[i]
        to = TO.get((ctx, name))
        opts = {'i': 5} if name == 'set' else None
        if to is None:
            for rest in trees(ctx, size - 1, depth, i + 1):
                yield [[name, None, None, opts]] + rest
        elif depth > 1:
            for k in range(size):
                for sub in trees(to, k, depth - 1):
                    for rest in trees(ctx, size - 1 - k, depth, i + 1):
                        yield [[name, sub, None, None]] + rest


def decorate(items, menu, last):
    """Every way of adding __typename to the selections of items."""
    subs = [list(decorate(it[1], menu, last)) if it[1] is not None else [None] for it in items]
    for combo in itertools.product(*subs):
        body = [[it[0], s, it[2], it[3]] for it, s in zip(items, combo)]
        for tn in menu:
            if not tn and not body:
                continue
            yield body + tn if last else tn + body


def has_typename(items):
    return any(it[0] == '__typename' or (len(it) > 1 and it[1] and has_typename(it[1])) for it in items)


def bounds(tier):
    q = tier == 'quick'
    return {'items': 3 if q else 4, 'depth': 4, 'typename_menu': len(TN)}


FRAGMENT_FAMILY = [
    # (items, fragments); '...' inline fragments and spreads, links selected several times
    ([['one', [['__typename']]], ['one', [['x']]]], []),
    ([['one', [['x']]], ['one', [['__typename', None, 't'], ['x', None, 'y']]]], []),
    ([['one', [['...F'], ['x']]], ['mb', [['...F']]]], [('F', 'A', [['__typename'], ['b', [['__typename', None, 'k']]]])]),
    ([['...', [['__typename'], ['many', [['...', [['__typename', None, 'z']]], ['x']]]]]], []),
    ([['...R'], ['__typename', None, 'q']], [('R', 'Query', [['__typename'], ['rec', [['__typename'], ['...G']]]]),
                                            ('G', 'D', [['l', [['__typename']]], ['i', [['__typename'], ['e', [['__typename']]]]]])]),
    ([['rec', [['__typename', None, 'a'], ['e', [['__typename', None, 'b'], ['w', [['__typename', None, 'c']]]]]], 'r2'],
      ['rec', [['__typename']]]], []),
    ([['many', [['__typename']], 'm1', {'n': 1}], ['many', [['__typename', None, 'u'], ['up', [['__typename']]]], 'm2', {'n': 2}]], []),
]


def cases(tier):
    b = bounds(tier)
    for root in ('Query', 'Mutation'):
        for n in range(b['items'] + 1):
            for t in trees(root, n, b['depth']):
                yield {'root': root, 'items': t, 'size': n}
    for i in range(len(FRAGMENT_FAMILY)):
        yield {'family': i}
    for shape, top in SHAPES.items():
        for n in sizes.ladder(tier, top[tier != 'quick']):
            yield {'shape': shape, 'n': n}
    for n in range(6 if tier == 'quick' else len(sizes.WORDS)):
        yield {'shape': 'words', 'n': n}


SHAPES = {'objects': (257, 1025), 'entries': (257, 1025), 'aliases': (129, 513), 'places': (65, 257), 'depth': (33, 49), 'fragments': (65, 257), 'requests': (65, 257)}


SERVICES = {}


def service(is_async):
    if is_async not in SERVICES:
        s = SERVICES[is_async] = Service(is_async)
        check_names(s)
    return SERVICES[is_async]


def check_names(s):
    """Introspection reports the type names that the reference uses."""
    t = 'kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name } } } } }'
    res = s.dispatch({'query': '{ __schema { queryType { name } mutationType { name } types { name fields { name type { %s } } } } }' % t})
    schema = res['data']['__schema']
    if (schema['queryType']['name'], schema['mutationType']['name']) != ('Query', 'Mutation'):
        raise Violation('introspection names the roots differently', got=schema['queryType'])
    types = {x['name']: {f['name']: f['type'] for f in x['fields'] or ()} for x in schema['types']}
    for (ctx, name), to in TO.items():
        if ctx == 'I':
            continue        # an inline record is the scalar Any
        x = types[ctx][name]
        while x.get('ofType'):
            x = x['ofType']
        want = 'Any' if to == 'I' else to
        if x['name'] != want:
            raise Violation('introspection reports another type of %s.%s' % (ctx, name), got=x, expected=want)


def expand(items, fragments):
    """Fragments replaced by their selections."""
    res = []
    for it in items:
        name, sub, alias, opts = item4(it)
        if name == '...':
            res += expand(sub, fragments)
        elif name.startswith('...'):
            res += expand([f for n, _, f in fragments if n == name[3:]][0], fragments)
        else:
            res.append([name, None if sub is None else expand(sub, fragments), alias, opts])
    return res


def judge(s, root, text, items, rec, mode, ch=None, merged=True):
    res = s.dispatch({'query': text}, ch, mode)
    if not check_response(res):
        raise Violation('a query with __typename is rejected', query=text, got=res)
    world = s.q if root == 'Query' else s.m
    want = evaluate(world, items, root)
    if res['data'] != want:
        raise Violation('wrong response', query=text, got=res['data'], expected=want)
    if merged:
        got = sorted(call_text(c.key()) for c in world.calls)
        calls = sorted(map(call_text, world.expected_calls(strip(items))))
        if got != calls:
            raise Violation('__typename changes which loaders are called', query=text, got=got, expected=calls)
    other = s.m if root == 'Query' else s.q
    if other.calls:
        raise Violation('loaders of the other graph are called', query=text)
    rec.outcome(want)
    return repr(want)


def sized(shape, n):
    """(edges, mode, [(root, items, fragments)]) of a size."""
    tn = [['__typename']]
    edges, mode, queries = {}, 2, []
    if shape == 'objects':
        ids = ['a%d' % (1 + (i * i) % 3) for i in range(n)]
        edges = {'root.many': ids, 'root.lst': ids}
        sub = tn + [['x'], ['b', tn], ['up', tn + [['bs', [['__typename', None, 't']]]]], ['d', [['e', tn]]]]
        queries = [('Query', [['many', sub]], []), ('Mutation', [['lst', sub]] + tn, [])]
    elif shape == 'entries':
        mode = n
        queries = [('Query', [['el', tn + [['w', tn]]], ['rec', [['l', tn + [['u']]]]]], [])]
    elif shape == 'aliases':
        many = [['__typename', None, 't%d' % i] for i in range(n)]
        queries = [('Query', many + [['one', [['x']] + many], ['rec', many]], []), ('Mutation', [['made', many]] + many, [])]
    elif shape == 'words':
        ws = sizes.WORDS[n * 7 % len(sizes.WORDS):] + sizes.WORDS[:n * 7 % len(sizes.WORDS)]
        many = [['__typename', None, w] for w in ws]
        fields = ['rec', 'eo', 'el', 'one', 'mb', 'many']
        queries = [('Query', many + [['one', [['x', None, 'e']] + many], ['rec', many], ['el', many]], []),
                   ('Mutation', [['made', many[::-1]]] + many, []),
                   ('Query', [[fields[i % 6], [['__typename', None, v]], w] for i, (w, v) in enumerate(zip(ws, ws[1:]))], [])]
    elif shape == 'places':
        fields = ['rec', 'eo', 'el', 'one', 'mb', 'many']
        queries = [('Query', [[fields[i % 6], [['__typename', None, 't%d' % i if i % 2 else None]], 'p%d' % i] for i in range(n)], [])]
    elif shape == 'depth':
        sub = list(tn)
        rec_ = [['__typename', None, 'end']]
        for i in range(n):
            sub = [['__typename'], ['bs' if i % 7 == 3 else 'b', [['__typename', None, 'k'], ['a', sub]]]] if i % 3 else [['up', sub], ['__typename', None, 't%d' % i]]
        for i in range(min(n, 3)):
            rec_ = [['__typename'], ['w', rec_]]
        queries = [('Query', [['one', sub], ['el', rec_]], []), ('Mutation', [['made', sub], ['done', rec_]], [])]
    elif shape == 'fragments':
        fr = [('F%d' % i, 'A', [['__typename', None, 't%d' % i]] + ([['...F%d' % (i - 1)]] if i % 2 else [['up', [['__typename']]]])) for i in range(n)]
        queries = [('Query', [['one', [['...F%d' % i] for i in range(n)]]], fr)]
    return edges, mode, queries


def run_sized(case, rec):
    shape, n = case['shape'], case['n']
    if shape == 'requests':     # many requests of one endpoint, then the first ones again
        for is_async in (False, True):
            s = service(is_async)
            for k in list(range(n)) + [0, n - 1, n // 2]:
                root = ('Query', 'Mutation')[k % 3 == 2]
                to = ['one', 'mb', 'many', 'rec', 'el'][k % 5] if root == 'Query' else ['made', 'done', 'lst'][k % 4 % 3]
                items = [['__typename', None, 't%d' % k], [to, [['__typename', None, 'k%d' % (k // 2)]]]]
                judge(s, root, document(root.lower(), items), items, rec, 2, merged=root == 'Query')
                rec.traces += 1
                rec.states += 1
        return
    edges, mode, queries = sized(shape, n)
    for root, items, fragments in queries:
        text = document(root.lower(), items, fragments)
        for is_async in (False, True):
            s = Service(is_async)
            for w in (s.q, s.m):
                w.spec = dict(w.spec, edges=dict(w.spec['edges'], **edges))
            judge(s, root, text, expand(items, fragments), rec, mode, merged=root == 'Query' and not fragments)
            rec.traces += 1
            rec.states += 1
            rec.transitions += len(s.q.calls) + len(s.m.calls)


def run(case, rec):
    if 'shape' in case:
        return run_sized(case, rec)
    if 'family' in case:
        items, fragments = FRAGMENT_FAMILY[case['family']]
        text = document('query', items, fragments)
        for is_async in (False, True):
            for mode in (0, 1, 2):
                explore(lambda ch: judge(service(is_async), 'Query', text, expand(items, fragments), rec, mode, ch, merged=False),
                        rec, max_execs=30)
        return
    root, n = case['root'], case['size']
    op = 'query' if root == 'Query' else 'mutation'
    # the whole menu at every selection where that is a small number of documents
    menu = TN if n <= 3 else TN[:1] + TN[3:4]
    count = 0
    for items in decorate(case['items'], menu, last=n % 2):
        if not has_typename(items):
            continue
        text = document(op, items)
        # the loaders of a mutation run in order, one after another: calls are not merged there
        for mode in (0, 1, 2) if n < 3 else (2,):
            judge(service(False), root, text, items, rec, mode, merged=root == 'Query')
            rec.traces += 1
            rec.states += 1
            rec.transitions += len(service(False).q.calls) + len(service(False).m.calls)
        count += 1
        if n < 2:
            explore(lambda ch: judge(service(True), root, text, items, rec, 2, ch, merged=root == 'Query'), rec, max_execs=6)
        elif count % 7 == 1:
            judge(service(True), root, text, items, rec, 2, None, merged=root == 'Query')
            rec.traces += 1
