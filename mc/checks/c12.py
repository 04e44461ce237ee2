"""C12: merging queries preserves what they ask for."""
import itertools
from collections import Counter

from hiku.query import Link, merge

from .. import sizes
from ..core import Violation
from ..enginex import Run
from ..sched import explore
from ..world import World, canon, item4, mk_query, opts_text

PROPERTY = 'C12'
TECHNIQUE = ('explicit enumeration of all pairs and small tuples of queries of a family, merged and executed on the '
             'real engine under completion orders, against a reference merge and evaluator')
LEVEL_NOTE = ('Every pair of queries of up to two top-level items (three in thorough) x ordered or not, every triple '
              'of one-item queries. Data of queries that contradict each other (one result name for two selections) is '
              'not compared, their structure is.')
NOTE = {
    'alphabet': 'fields and links with and without aliases (also equal to the name) and options differing in type '
                'only, structured fields, nested links, duplicates within a query, ordered nodes',
    'choices': 'completion orders of the merged query\'s loader calls',
    'oracle': 'reference merge by (name, options, result name); reference evaluation of each query; prescribed calls',
}

O = {'n': {'default': 0}}
SPEC = {
    'root': {'fields': {'f': {'f': 'R1', 'opts': O}, 'g': {'f': 'R1'}, 'h': {'f': 'R2'},
                        'rec': {'f': 'R2', 'type': ['rec', {'p': 'Str', 'q': ['rec', {'s': 'Str', 't': 'Str'}]}]}},
             'links': {'one': {'to': 'A', 'kind': 'One'}, 'many': {'to': 'A', 'kind': 'Many', 'req': 'g'},
                       'l': {'to': 'A', 'kind': 'Many', 'opts': O}}},
    'nodes': {'A': {'fields': {'x': {'f': 'A1'}, 'y': {'f': 'A1', 'opts': O}},
                    'links': {'k': {'to': 'B', 'kind': 'Maybe', 'req': 'x'},
                              'up': {'to': 'A', 'kind': 'One', 'req': 'x'}}},
              'B': {'fields': {'v': {'f': 'B1'}, 'w': {'f': 'B2'}}}},
    'edges': {'root.one': 'a1', 'root.many': ['a1', 'a2'], 'root.l': ['a2'],
              'A.k': {'a1': 'b1', 'a2': None}, 'A.up': {'a1': 'a2', 'a2': 'a2'}},
}

SUBS = [[['x']], [['y', None, None, {'n': 1}]], [['y', None, 'x2', {'n': True}], ['x']], [['k', [['v']]]],
        [['k', [['w']]], ['x']], [['up', [['x'], ['k', [['w']]]]]], [['up', [['y', None, 'z', {'n': 1}]]]],
        [['x'], ['x', None, 'x'], ['k', [['v']]], ['k', [['w'], ['v']]]],
        # equal in Python to another one
        [['y', None, None, {'n': True}]], [['y', None, None, {'n': 1.0}]]]
ITEMS = ([['f'], ['f', None, None, {'n': 1}], ['f', None, None, {'n': True}], ['f', None, 'f', {'n': 1}],
          ['f', None, 'a', {'n': 1}], ['f', None, 'a', {'n': 1.0}], ['g'], ['g', None, 'g'], ['h', None, 'g'], ['h'],
          ['rec', [['p']]], ['rec', [['q', [['s']]]]], ['rec', [['q', [['t']], 'q'], ['p']], 'rec'],
          ['rec', [['p']], 'a']] +
         [['one', s] for s in SUBS] + [['one', SUBS[0], 'one'], ['one', SUBS[1], 'b'], ['one', SUBS[3], 'b']] +
         [['many', s] for s in SUBS[2:5]] +
         [['l', SUBS[0], None, {'n': 1}], ['l', SUBS[3], None, {'n': 1}], ['l', SUBS[4], None, {'n': True}],
          ['l', SUBS[0], 'b', {'n': 1}]])


def bounds(tier):
    return {'items_per_query': '1+2' if tier == 'quick' else '2+2', 'tuples': 3, 'menu': 2,
            'max_executions_per_case': 3 if tier == 'quick' else 10}


def cases(tier):
    b = [2, bounds(tier)['max_executions_per_case']]
    one = [[i] for i in ITEMS]
    two = [list(p) for p in itertools.product(ITEMS, ITEMS)]
    for n in sizes.ladder(tier, 65 if tier == 'quick' else 257):
        for qs in large(n):
            yield {'qs': qs, 'o': [False] * len(qs), 'b': [2, 2]}
            yield {'qs': qs, 'o': [False] * (len(qs) - 1) + [True], 'b': [2, 2]}
    for qs in words(tier):
        for last in (False, True):
            yield {'qs': qs, 'o': [False] * (len(qs) - 1) + [last], 'b': [2, 2]}
    modes = [(False, False), (True, False), (False, True)]
    for q in two:
        for o in (False, True):
            yield {'qs': [q], 'o': [o], 'b': b}
    for p in itertools.product(one, one):
        for o in modes:
            yield {'qs': list(p), 'o': o, 'b': b}
    for p in itertools.product(one, two):
        yield {'qs': list(p), 'o': (False, False), 'b': b}
        yield {'qs': list(p[::-1]), 'o': (False, True), 'b': b}
    if tier == 'quick':
        short = one[::3]
    else:
        short = one
        for p in itertools.product(two[::3], two[::2]):
            yield {'qs': list(p), 'o': (False, False), 'b': b}
    for p in itertools.product(short, short, short):
        yield {'qs': list(p), 'o': (False, False, True), 'b': b}


def words(tier):
    """Names which are nearly the same, as aliases and in options."""
    ws = sizes.WORDS
    for k in range(0, len(ws), 11 if tier == 'quick' else 1):
        ws = ws[k:] + ws[:k]
        yield [[['f', None, w, {'n': w}] for w in ws], [['f', None, w, {'n': w}] for w in sorted(ws)]]
        yield [[['one', [['x', None, v]], w] for w, v in zip(ws, ws[1:])], [['one', [['y', None, 'q', {'n': v}]], w] for w, v in zip(ws, ws[1:])]]
        yield [[['l', [['x', None, v]], None, {'n': w}]] for w, v in zip(ws, ws[1:]) if w in ws[:1]] + [[['l', [['y', None, w, {'n': w}]], None, {'n': ws[0]}]] for w in ws]


def large(n):
    """Many queries, queries of many items, deep queries."""
    yield [[['f', None, 'a%d' % i, {'n': i}]] for i in range(n)]
    yield [[['f', None, 'a%d' % i, {'n': i}] for i in range(n)], [['f', None, 'a%d' % i, {'n': i}] for i in reversed(range(n))]]
    yield [[['one', SUBS[i % 4]], ['g']] for i in range(n)]
    yield [[['l', [['y', None, 'y%d' % i, {'n': i}]], None, {'n': 1}] for i in range(n)]]
    yield [[['one', [['up', [['y', None, 'y%d' % i, {'n': i}], ['x']]]]]] for i in range(n)]
    if n < 40:
        for other in ([['x']], [['k', [['v']]]]):
            qs = []
            for leaf in ([['k', [['w']]]], other):
                for i in range(n):
                    leaf = [['y', None, 'd%d' % i, {'n': i}], ['up', leaf]]
                qs.append([['one', leaf]])
            yield qs


def key_of(it):
    name, sub, alias, opts = item4(it)
    return (name, opts_text(opts), alias or name, sub is not None)


def ref_merge(items):
    """[(name, opts, result name, [merged sub] or None)] in order of first occurrence."""
    order, subs, first = [], {}, {}
    for it in items:
        k = key_of(it)
        if k not in subs:
            order.append(k)
            subs[k] = []
            first[k] = it
        if it[1:] and it[1] is not None:
            subs[k] += it[1]
    return [[first[k][0], ref_merge(subs[k]) if k[3] else None, k[2], item4(first[k])[3]] for k in order]


def tree(node):
    """Structure of a real query node, options in canonical form."""
    return [(f.name, opts_text(f.options), f.result_key, tree(f.node) if isinstance(f, Link) else None)
            for f in node.fields]


def ref_tree(items):
    return [(n, opts_text(o), a, None if s is None else ref_tree(s)) for n, s, a, o in items]


def unordered(t):
    return sorted(((n, o, a, None if s is None else unordered(s)) for n, o, a, s in t), key=repr)


def compatible(items):
    seen = {}
    for n, s, a, o in items:
        if a in seen:
            return False
        seen[a] = True
        if s is not None and not compatible(s):
            return False
    return True


def snapshot(node):
    return (node.ordered, [(type(f).__name__, f.name, canon(f.options), f.alias,
                            snapshot(f.node) if isinstance(f, Link) else None) for f in node.fields])


def run(case, rec):
    qs = case['qs']
    queries = [mk_query(q, ordered=o) for q, o in zip(qs, case['o'])]
    before = [snapshot(q) for q in queries]
    merged = merge(queries)
    all_items = [i for q in qs for i in q]
    ref = ref_merge(all_items)
    is_ordered = any(case['o'])
    if bool(merged.ordered) != is_ordered:
        raise Violation('merged query is%s ordered' % ('' if merged.ordered else ' not'))
    got, want = tree(merged), ref_tree(ref)
    if unordered(got) != unordered(want):
        raise Violation('the merge asks for something else', got=repr(got), expected=repr(want))
    if is_ordered and [x[:3] for x in got] != [x[:3] for x in want]:
        raise Violation('the ordered merge lost the order', got=repr(got), expected=repr(want))
    for again in (merge([merged]), merge([merged] + queries), merge([merged, merged])):
        if tree(again) != got or bool(again.ordered) != is_ordered:
            raise Violation('merging again changes the query', got=repr(tree(again)), expected=repr(got))
    if [snapshot(q) for q in queries] != before:
        raise Violation('merging modified its input', got=repr([snapshot(q) for q in queries]), expected=repr(before))
    rec.outcome(got)
    if not compatible(ref):
        rec.traces += 1
        rec.count('contradictory')
        return
    expected = World(SPEC).evaluate(all_items)
    calls = Counter(World(SPEC).expected_calls(ref))

    def one(ch):
        r = Run(SPEC, ref, ch, max_full=case['b'][0], query=merged).ok()
        for q in qs:
            r.items = q
            alone = World(SPEC).evaluate(q)
            if not within(alone, r.data()):
                raise Violation('a query reads other data from the merged result', got=r.data(), expected=alone)
        data = r.denormalized()
        if data != expected:
            raise Violation('the merged result differs', got=data, expected=expected)
        have = Counter(c.key() for c in r.world.calls)
        if not is_ordered and have != calls:
            raise Violation('the merged query calls other loaders', got=repr(have), expected=repr(calls))
        if [snapshot(q) for q in queries] != before:
            raise Violation('execution modified a merged query')
        return repr(data)
    explore(one, rec, max_execs=case['b'][1])


def within(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and all(k in b and within(v, b[k]) for k, v in a.items())
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(within(x, y) for x, y in zip(a, b))
    return a == b
