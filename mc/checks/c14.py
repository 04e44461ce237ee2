"""C14: query validation accepts exactly the queries the graph can answer."""
import itertools

from hiku.query import Link, Node, merge
from hiku.validate.query import validate

from .. import sizes
from ..core import Violation
from ..world import World, canon, item4, mk_query

PROPERTY = 'C14'
TECHNIQUE = ('explicit enumeration of queries (valid and faulty) and of option values by type, each validated by the '
             'real validator, against an independent validity oracle')
LEVEL_NOTE = ('Every query up to the selection bound over existing, missing and misused names, aliases and options; '
              'every option value of the domain for every type of the domain. Integers for Float options, tuples, '
              'omitted optional record members, empty options on record members and a structured field selected '
              'without a sub-selection at a node are not judged.')
NOTE = {
    'alphabet': 'fields, links, structured fields (records in optional/sequence/nested containers, data types) '
                'selected rightly and wrongly; aliases that collide; options missing, unknown, of wrong types',
    'choices': 'names, nesting, aliases, options, option types and values are enumerated; validation is sequential',
    'oracle': 'recursive validity of the merged query by the declared structure; recursive type check of values',
}

D = ['rec', {'p': 'Str', 's': ['rec', {'t': 'Int'}], 'l': ['seq', ['ref', 'E']], 'o': ['opt', ['seq', ['ref', 'E']]],
             'm': ['map', 'Str', ['ref', 'E']], 'n': ['seq', 'Int']}]
E = ['rec', {'u': 'Str', 'w': ['opt', ['ref', 'E']]}]
OPT = {'i': {'type': 'Int', 'default': 0}, 's': {'type': ['opt', 'Str'], 'default': None}}
REQ = {'r': {'type': 'Int'}, 'd': {'type': ['ref', 'E2'], 'default': {'u': 'x'}}}
SPEC = {
    'data_types': {'D': D, 'E': E, 'E2': ['rec', {'u': 'Str'}]},
    'root': {'fields': {'f': {'f': 'R'}, 'g': {'f': 'R', 'type': 'Int'}, 'o': {'f': 'R', 'opts': OPT},
                        'q': {'f': 'R', 'opts': REQ}, 'mp': {'f': 'R', 'type': ['map', 'Str', D]},
                        'rec': {'f': 'R', 'type': D}, 'dd': {'f': 'R', 'type': ['opt', ['seq', ['ref', 'D']]]},
                        'ro': {'f': 'R', 'type': ['seq', ['ref', 'E']], 'opts': OPT}},
             'links': {'one': {'to': 'A', 'kind': 'One'}, 'lo': {'to': 'A', 'kind': 'Many', 'opts': OPT},
                       'lq': {'to': 'A', 'kind': 'Maybe', 'opts': REQ}}},
    'nodes': {'A': {'fields': {'x': {'f': 'A'}, 'y': {'f': 'A', 'opts': OPT}, 'rec': {'f': 'A', 'type': ['ref', 'E']}},
                    'links': {'up': {'to': 'A', 'kind': 'One', 'req': 'x'},
                              'b': {'to': 'B', 'kind': 'Many', 'req': 'x', 'opts': OPT}}},
              'B': {'fields': {'v': {'f': 'B'}}}},
    'edges': {},
}

# context -> leaf selections, selections with a sub-selection (name, alias, opts, context of the sub-selection)
LEAFS = {
    'root': [['f'], ['g'], ['g', None, 'f'], ['o'], ['o', None, None, {'i': 1}], ['o', None, None, {'i': True}],
             ['o', None, 'f', {'s': 'x'}], ['o', None, None, {'z': 1}], ['q'], ['q', None, None, {'r': 1}],
             ['q', None, None, {'r': 'x'}], ['nope'], ['one'], ['A'], ['f', None, None, {'z': 1}], ['mp'], ['lo', None, 'f']],
    'A': [['x'], ['y', None, None, {'i': 2}], ['y', None, 'x'], ['nope'], ['v'], ['up'], ['__x']],
    'B': [['v'], ['v', None, 'w'], ['x']],
    'D': [['p'], ['p', None, 'n'], ['n'], ['m'], ['s'], ['l'], ['nope'], ['p', None, None, {'i': 1}], ['u']],
    'E': [['u'], ['u', None, 'w'], ['w'], ['p']],
    'T': [['t'], ['p']],
}
LINKS = {
    'root': [('one', None, None, 'A'), ('one', 'f', None, 'A'), ('lo', None, {'i': 1}, 'A'), ('lo', None, {'i': 'x'}, 'A'),
             ('lo', 'one', {'z': 1}, 'A'), ('lq', None, None, 'A'), ('lq', None, {'r': 1, 'd': {'u': 1}}, 'A'),
             ('lq', None, {'r': 1, 'd': {'u': 'x'}}, 'A'),
             ('rec', None, None, 'D'), ('dd', None, None, 'D'), ('ro', None, {'i': 3}, 'E'), ('ro', 'rec', {'q': 3}, 'E'),
             ('f', None, None, 'A'), ('g', None, None, 'T'), ('mp', None, None, 'D'), ('nope', None, None, 'A'), ('A', None, None, 'A')],
    'A': [('up', None, None, 'A'), ('b', None, None, 'B'), ('b', None, {'i': 1}, 'B'), ('rec', None, None, 'E'),
          ('x', None, None, 'B'), ('nope', None, None, 'B')],
    'B': [('v', None, None, 'B')],
    'D': [('s', None, None, 'T'), ('l', None, None, 'E'), ('o', None, None, 'E'), ('m', None, None, 'E'), ('p', None, None, 'E'),
          ('l', 'p', None, 'E'), ('nope', None, None, 'E'), ('l', None, {'i': 1}, 'E'), ('n', None, None, 'T')],
    'E': [('w', None, None, 'E'), ('w', 'u', None, 'E'), ('u', None, None, 'E')],
    'T': [('t', None, None, 'E')],
}


def selections(ctx, size, depth):
    if size == 0:
        yield []
        return
    for leaf in LEAFS[ctx]:
        for rest in selections(ctx, size - 1, depth):
            yield [leaf] + rest
    if depth > 1:
        for name, alias, opts, to in LINKS[ctx]:
            for k in range(1, size):
                for sub in selections(to, k, depth - 1):
                    for rest in selections(ctx, size - 1 - k, depth):
                        yield [[name, sub, alias, opts]] + rest


TYPES = ['Int', 'Str', 'Bool', 'Float', 'Any', None, ['ref', 'E'], ['ref', 'E2']]
VALUES = [None, 0, 1, -5, True, False, 1.5, '', 'x', '1', b'x', [], [1], ['x'], [None], [1, 'x'], [True], [[1]], [1.5],
          [{'u': 'x', 'w': None}], {}, {'a': 1}, {'a': 'x'}, {'a': None}, {'a': 1, 'b': 'x'}, {'b': 'x'}, {1: 1}, {'a': [1]},
          {'u': 'x'}, {'u': 1}, {'u': 'x', 'w': None}, {'u': 'x', 'w': {'u': 'y', 'w': None}}, {'u': 'x', 'w': {'u': 1, 'w': None}},
          {'u': 'x', 'z': 1}, {'a': {'u': 'x', 'w': None}}, {None: 1}, {'a': True}]


def types(depth):
    base = TYPES
    yield from base
    for _ in range(depth):
        layer = []
        for t in base:
            if t is None:
                continue
            layer += [['opt', t], ['seq', t], ['map', 'Str', t], ['rec', {'a': t}], ['rec', {'a': t, 'b': ['opt', 'Str']}]]
        layer += [['map', 'Int', 'Int'], ['rec', {}]]
        yield from layer
        base = layer


def fits(t, v):
    """True / False, or None if not judged."""
    if t is None or t == 'Any':
        return True
    if t == 'Int':
        return type(v) is int
    if t == 'Str':
        return type(v) is str
    if t == 'Bool':
        return type(v) is bool
    if t == 'Float':
        return None if type(v) is int else type(v) is float
    k = t[0]
    if k == 'ref':
        return fits(TYPES_OF[t[1]], v)
    if k == 'opt':
        return True if v is None else fits(t[1], v)
    if k == 'seq':
        if type(v) is tuple:
            return None
        return type(v) is list and all3(fits(t[1], x) for x in v)
    if k == 'map':
        return type(v) is dict and all3(itertools.chain((fits(t[1], x) for x in v), (fits(t[2], x) for x in v.values())))
    assert k == 'rec', t
    if type(v) is not dict:
        return False
    if set(v) - set(t[1]):
        return False
    missing = [m for m in t[1] if m not in v]
    if missing:
        return None if all(t[1][m] is not None and t[1][m][0] == 'opt' for m in missing) else False
    return all3(fits(x, v[n]) for n, x in t[1].items())


def all3(results):
    res = True
    for r in results:
        if r is False:
            return False
        if r is None:
            res = None
    return res


def bounds(tier):
    return {'selections': 4 if tier == 'quick' else 5, 'depth': 3, 'type_depth': 2 if tier == 'quick' else 3}


SIZED = ('fields', 'loaders', 'links', 'mixed-links', 'aliases', 'link-aliases', 'same', 'options', 'depth', 'record', 'items', 'words')


def cases(tier):
    b = bounds(tier)
    for c in sizes.cases(tier, SIZED):
        if c['n'] <= (129 if tier == 'quick' else 513):
            yield dict(c, k='size')
    for shape in ('list', 'map', 'record', 'type depth', 'nested'):
        for n in sizes.ladder(tier, (33 if tier == 'quick' else 65) if shape == 'type depth' else 257 if tier == 'quick' else 1025):
            yield {'k': 'value', 'shape': shape, 'n': n}
    for n in range(1, b['selections'] + 1):
        for s in selections('root', n, b['depth']):
            yield {'k': 'q', 'items': s}
    # one deeper family below the structured fields and links
    for top, ctx in (('rec', 'D'), ('dd', 'D'), ('one', 'A'), ('ro', 'E')):
        for s in selections(ctx, 3, 3):
            yield {'k': 'q', 'items': [[top, s]]}
            if tier != 'quick':
                yield {'k': 'q', 'items': [['f'], [top, s[:2]], [top, s[2:] + s[:1]]]}
    for o, g in option_sets():
        for place in PLACES:
            yield {'k': 'o', 'decl': o, 'given': g, 'place': place}
    for t in types(b['type_depth']):
        yield {'k': 't', 'type': t}
    for order in itertools.permutations(range(len(TWINS)), 2 if tier == 'quick' else 3):
        for major in ('graph', 'query'):
            yield {'k': 'w', 'graphs': list(order), 'major': major}


# Graphs of one process that use the same names with other meanings.
def twin(d, f, opts, x, link):
    links = {'l': {'to': 'A', 'kind': 'Many', 'opts': opts}}
    return {'data_types': {'D': d, 'E': ['rec', {'u': 'Str'}], 'L': ['rec', {'q': 'Int', 'd': ['ref', 'D']}]},
            'root': {'fields': {'t': {'f': 'X', 'opts': opts}, 'st': {'f': 'X', 'type': ['ref', 'D']},
                                'sl': {'f': 'X', 'type': ['seq', ['ref', 'L']]}, **({} if link else {'l': {'f': 'X'}}), **f},
                     'links': {'a': {'to': 'A', 'kind': 'One'}, **(links if link else {})}},
            'nodes': {'A': {'fields': x, 'links': {}}},
            'edges': {'root.a': 'a1', 'root.l': ['a1', 'a2']}}


TWINS = [
    twin(['rec', {'a': 'Int'}], {'f': {'f': 'X'}}, {'m': {'type': 'Int'}}, {'x': {'f': 'Y'}}, True),
    twin(['rec', {'b': 'Int'}], {'g': {'f': 'X'}}, {'m': {'type': 'Str'}}, {'y': {'f': 'Y'}}, False),
    twin(['rec', {'a': ['ref', 'E']}], {'f': {'f': 'X', 'type': ['ref', 'E']}}, {}, {'x': {'f': 'Y', 'type': ['ref', 'D']}}, True),
    twin(['seq', ['rec', {'a': 'Int', 'b': 'Int'}]], {}, {'m': {'type': ['ref', 'E'], 'default': {'u': 'x'}}}, {}, False),
    twin('Str', {}, {'n': {'type': 'Int', 'default': 1}}, {'x': {'f': 'Y', 'opts': {'m': {'type': 'Int', 'default': 1}}}}, True),
    twin(['rec', {'a': 'Int'}], {'f': {'f': 'X'}}, {'m': {'type': ['ref', 'D']}}, {'x': {'f': 'Y'}}, True),
    twin(['rec', {'u': 'Str'}], {'f': {'f': 'X'}}, {'m': {'type': ['ref', 'D']}}, {'x': {'f': 'Y', 'type': ['ref', 'D']}}, True),
]
TWIN_QUERIES = [
    [['t']], *([['t', None, None, {'m': v}]] for v in (1, 'x', {'u': 'x'}, {'a': 1}, {'b': 1})), [['t', None, None, {'n': 1}]],
    [['f']], [['g']], [['f', [['u']]]], [['l']], [['l', [['x']]]], [['l', [['x']], None, {'m': 1}]], [['l', [['y']], None, {'m': 'x'}]],
    [['a', [['x']]]], [['a', [['y']]]], [['a', [['x', [['a']]]]]], [['a', [['x', [['u']]]]]], [['a', [['x', None, None, {'m': 1}]]]],
    *([['st', sub]] for sub in ([['a']], [['b']], [['a'], ['b']], [['a', [['u']]]], [['u']])),
    *([['sl', [['q'], ['d', sub]]]] for sub in ([['a']], [['b']], [['a', [['u']]]], [['u']])), [['sl', [['d']]]],
]


DECL = [None, {'type': 'Int'}, {'type': 'Int', 'default': 5}, {'type': ['opt', 'Int'], 'default': None}, {}]
GIVEN = ['-', 1, None, 'v']
PLACES = {
    'root field': ['t', None], 'root structured': ['st', [['u']]], 'root link': ['l', [['x']]],
    'node field': ['a', [['t', None]]], 'node link': ['a', [['l', [['x']]]]], 'node structured': ['a', [['st', [['u']]]]],
    'aliased': ['a', [['t', None, 'x']]],
}


def option_sets():
    for (dm, gm), (dn, gn) in itertools.product(itertools.product(DECL, GIVEN), repeat=2):
        yield ({k: d for k, d in (('m', dm), ('n', dn)) if d is not None},
               {k: v for k, v in (('m', gm), ('n', gn)) if v != '-'})


def option_spec(o):
    items = {'t': {'f': 'X', 'opts': o}, 'st': {'f': 'X', 'opts': o, 'type': ['seq', ['ref', 'E']]}}
    link = {'l': {'to': 'A', 'kind': 'Many', 'opts': o}}
    return {'data_types': SPEC['data_types'],
            'root': {'fields': dict(items), 'links': dict(link, a={'to': 'A', 'kind': 'One'})},
            'nodes': {'A': {'fields': dict(items, x={'f': 'Y'}), 'links': link}}}


def with_options(item, g):
    name, sub, alias, _ = item4(item)
    if name == 'a':
        return [name, [with_options(sub[0], g)], alias, None]
    return [name, sub, alias, g or None]


# ---- the oracle ----

TYPES_OF = SPEC['data_types']  # of the graph that is judged


def options_ok(declared, given):
    declared, given = declared or {}, given or {}
    if set(given) - set(declared):
        return False
    res = True
    for n, o in declared.items():
        if n in given:
            r = fits(o.get('type'), given[n])
        elif 'default' in o:
            r = True
        else:
            r = False
        if r is False:
            return False
        if r is None:
            res = None
    return res


def record_of(t):
    while t is not None and not isinstance(t, str):
        if t[0] == 'ref':
            t = TYPES_OF[t[1]]
        elif t[0] in ('opt', 'seq'):
            t = t[1]
        elif t[0] == 'rec':
            return t[1]
        else:
            return None
    return None


def merged_items(items):
    """Same-named selections joined; None if one result name is used by different selections."""
    order, by = [], {}
    for it in items:
        name, sub, alias, opts = item4(it)
        key = alias or name
        k = (name, canon(opts or {}), sub is not None)
        if key not in by:
            by[key] = (k, [name, sub if sub is None else list(sub), alias, opts])
            order.append(key)
        elif by[key][0] != k:
            return None
        elif sub is not None:
            by[key][1][1] = by[key][1][1] + list(sub)
    return [by[k][1] for k in order]


def valid_in(spec, items):
    global TYPES_OF
    TYPES_OF = spec['data_types']
    try:
        return valid(spec, items)
    finally:
        TYPES_OF = SPEC['data_types']


def valid(spec, items, node=None):
    items = merged_items(items)
    if items is None:
        return False
    res = True
    ns = spec['root'] if node is None else spec['nodes'][node]
    for name, sub, _, opts in items:
        f = ns.get('fields', {}).get(name)
        link = ns.get('links', {}).get(name)
        if f is not None:
            r = options_ok(f.get('opts'), opts)
            if sub is not None:
                rec = record_of(f.get('type'))
                r = all3([r, False if rec is None else valid_record(rec, sub)])
        elif link is not None:
            r = all3([options_ok(link.get('opts'), opts), sub is not None and valid(spec, sub, link['to'])])
        else:
            r = False
        if r is False:
            return False
        res = all3([res, r])
    return res


def valid_record(fields, items):
    items = merged_items(items)
    if items is None:
        return False
    for name, sub, _, opts in items:
        if name not in fields or opts:
            return False
        rec = record_of(fields[name])
        if (rec is None) != (sub is None):
            return False
        if sub is not None and not valid_record(rec, sub):
            return False
    return True


def spots(n):
    return sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n)))


def damaged(spec, items, node=None):
    """The same query with one fault, or one more harmless selection, somewhere."""
    part = spec['root'] if node is None else spec['nodes'][node]
    for i in spots(len(items)):
        name, sub, alias, opts = item4(items[i])
        here = items[:i], items[i + 1:]
        for extra in (['nope'], ['many'], [name, None, 'nope', {'zz': 1}], [name, sub, alias, {'zz': 1}], ['__typo', [['x']]], [name, sub, 'other', opts],
                      [name, sub, alias, opts]):
            yield here[0] + [items[i], extra] + here[1]
            yield here[0] + [extra] + here[1] + [items[i]]
        yield here[0] + [[name, sub, item4(items[i - 1])[2] or items[i - 1][0], opts]] + here[1] + [items[i - 1]]
        if name in part['links']:
            yield here[0] + [[name, None, alias, opts]] + here[1]
            for d in itertools.islice(damaged(spec, sub, part['links'][name]['to']), 0, None, 3):
                yield here[0] + [[name, d, alias, opts]] + here[1]
        elif sub is not None:
            for d in (['nope'], [sub[0][0], None, None, {'zz': 1}], [sub[0][0], [['u']]]):
                for j in spots(len(sub)):
                    yield here[0] + [[name, sub[:j] + [d] + sub[j:], alias, opts]] + here[1]
        else:
            yield here[0] + [[name, [['x']], alias, opts]] + here[1]


def bottoms(items):
    """The query with a fault at every depth of its last branch."""
    link = [i for i in range(len(items)) if len(items[i]) > 1 and items[i][1]]
    for extra in (['nope'], ['__typo', [['x']]], [items[0][0], None, 'nope', {'zz': 1}]):
        yield items + [extra]
    if link:
        i = link[-1]
        for sub in bottoms(items[i][1]):
            yield items[:i] + [[items[i][0], sub] + items[i][2:]] + items[i + 1:]


def sized(case, rec):
    spec, items = sizes.make(case)
    spec = dict(spec, data_types=spec.get('data_types', {}))
    graph = World(spec).graph()
    seen = set()
    for q in itertools.chain([items], damaged(spec, items), bottoms(items)):
        want = valid_in(spec, q)
        if q is items and want is not True:
            raise AssertionError('a query of the family is not valid')
        judge(graph, merge([mk_query(q)]), want, rec, items=repr(q)[:500])
        seen.add(want)
    if False not in seen:
        raise AssertionError('no faults')


def value_case(shape, n):
    """(type, value that fits, values that do not)"""
    if shape == 'list':
        good = list(range(n))
        return ['seq', 'Int'], good, [good[:i] + [x] + good[i + 1:] for i in spots(n) for x in ('x', None, True, [1])]
    if shape == 'map':
        good = {'k%d' % i: 's' for i in range(n)}
        return ['map', 'Str', 'Str'], good, [dict(good, **{'k%d' % i: x}) for i in spots(n) for x in (1, None, {})] + [dict(list(good.items())[:i] + [(5, 's')]) for i in spots(n)]
    if shape == 'record':
        t = ['rec', {'m%d' % i: ['Int', 'Str', ['opt', 'Bool']][i % 3] for i in range(n)}]
        good = {'m%d' % i: [i, 's', None][i % 3] for i in range(n)}
        bad = [dict(good, **{'m%d' % i: 1.5}) for i in spots(n)] + [{k: v for k, v in good.items() if k != 'm%d' % (i - i % 3)} for i in spots(n)]
        return t, good, bad + [dict(good, other=1)]
    if shape == 'type depth':
        def nest(x):
            for i in range(n):
                x = [x] if (i + n) % 3 else {'k': x}
            return x
        t = 'Int'
        for i in range(n):
            t = ['seq', t] if (i + n) % 3 else ['map', 'Str', t]
        return t, nest(1), [nest(x) for x in ('x', None, [1], {})] + [[nest(1)], nest(nest(1))]
    t = ['seq', ['rec', {'u': 'Str', 'w': ['seq', ['opt', 'Int']]}]]
    good = [{'u': str(i), 'w': [i, None] * (i % 3)} for i in range(n)]
    return t, good, [good[:i] + [x] + good[i + 1:] for i in spots(n) for x in ({'u': 'x'}, {'u': 'x', 'w': [1, 'x']}, {'u': 1, 'w': []}, None)]


def twice(node):
    """The query with everything repeated, which asks for the same (queries built by hand are not merged)."""
    fields = [Link(f.name, twice(f.node), options=f.options, alias=f.alias) if isinstance(f, Link) else f for f in node.fields]
    return Node(fields + fields, ordered=node.ordered)


GRAPHS = {}


def graph_of(spec, key):
    if key not in GRAPHS:
        if len(GRAPHS) > 500:
            GRAPHS.clear()
        GRAPHS[key] = World(spec).graph()
    return GRAPHS[key]


def judge(graph, query, want, rec, **detail):
    errors = validate(graph, query)
    rec.traces += 1
    rec.states += 1
    rec.transitions += 1
    if not isinstance(errors, list) or any(not isinstance(e, str) or not e for e in errors):
        raise Violation('not a list of messages: %r' % (errors,))
    if want is None:
        rec.count('not_judged')
        return
    rec.count('valid' if want else 'invalid')
    rec.outcome(errors)
    if want and errors:
        raise Violation('a valid query was rejected', errors=errors, **detail)
    if not want and not errors:
        raise Violation('an invalid query was accepted', **detail)


def run(case, rec):
    kind = case['k']
    if kind == 'size':
        return sized(case, rec)
    if kind == 'value':
        t, good, bad = value_case(case['shape'], case['n'])
        spec = option_spec({'v': {'type': t}})
        graph = World(spec).graph()
        for v, ok in [(good, True)] + [(x, False) for x in bad]:
            if fits(t, v) is not ok:
                raise AssertionError((t, v))
            for place in ('root field', 'node link'):
                items = [with_options(PLACES[place], {'v': v})]
                judge(graph, merge([mk_query(items)]), valid(spec, items), rec, value=v, place=place)
        return
    if kind == 'w':
        graphs = [(i, World(TWINS[i]).graph()) for i in case['graphs']]
        steps = ([(g, q) for g in graphs for q in TWIN_QUERIES] if case['major'] == 'graph'
                 else [(g, q) for q in TWIN_QUERIES for g in graphs])
        for (i, graph), items in steps:
            judge(graph, merge([mk_query(items)]), valid_in(TWINS[i], items), rec, twin=i, items=items)
        return
    if kind == 'q':
        graph = graph_of(SPEC, 'main')
        want = valid(SPEC, case['items'])
        judge(graph, merge([mk_query(case['items'])]), want, rec)
        judge(graph, merge([mk_query(case['items'][::-1], ordered=True)]), want, rec)
        if len(case['items']) < 3 and merged_items(case['items']) is not None:
            judge(graph, twice(merge([mk_query(case['items'])])), want, rec, repeated=True)
        return
    if kind == 'o':
        spec = option_spec(case['decl'])
        items = [with_options(PLACES[case['place']], case['given'])]
        graph = graph_of(spec, canon(case['decl']))
        judge(graph, merge([mk_query(items)]), valid(spec, items), rec)
        return
    o = {'v': {'type': case['type']}}
    spec = option_spec(o)
    graph = World(spec).graph()
    for v in VALUES:
        for place in ('root field', 'node link', 'root structured'):
            items = [with_options(PLACES[place], {'v': v})]
            judge(graph, merge([mk_query(items)]), valid(spec, items), rec, value=v, place=place)
