"""Enumerated families of graphs and queries."""
import functools
import json

G1 = {
    'root': {
        'fields': {'r1': {'f': 'R1'}, 'r2': {'f': 'R2'}, 'r3': {'f': 'R1'}},
        'links': {
            'one': {'to': 'A', 'kind': 'One'},
            'mb': {'to': 'A', 'kind': 'Maybe'},
            'many': {'to': 'A', 'kind': 'Many'},
            'rq': {'to': 'B', 'kind': 'Many', 'req': 'r1'},
        },
    },
    'nodes': {
        'A': {
            'fields': {'x': {'f': 'A1'}, 'y': {'f': 'A2'}, 'z': {'f': 'A1'}},
            'links': {
                'b': {'to': 'B', 'kind': 'One', 'req': 'x'},
                'bs': {'to': 'B', 'kind': 'Many', 'req': 'y'},
                'up': {'to': 'A', 'kind': 'Maybe', 'req': 'x'},
                'nq': {'to': 'B', 'kind': 'Maybe'},
            },
        },
        'B': {
            'fields': {'v': {'f': 'B1'}, 'w': {'f': 'B2'}},
            'links': {'back': {'to': 'A', 'kind': 'One', 'req': 'v'}},
        },
    },
}

EDGES = {
    # shared targets, duplicates, missing and empty ones side by side
    'dense': {
        'root.one': 'a1', 'root.mb': 'a2', 'root.many': ['a2', 'a1'], 'root.rq': ['b1', 'b2'],
        'A.b': {'a1': 'b1', 'a2': 'b1', 'a3': 'b2'},
        'A.bs': {'a1': ['b2', 'b1'], 'a2': [], 'a3': ['b1']},
        'A.up': {'a1': 'a2', 'a2': None, 'a3': 'a1'},
        'A.nq': 'b2',
        'B.back': {'b1': 'a1', 'b2': 'a3'},
    },
    'sparse': {
        'root.one': 'a3', 'root.mb': None, 'root.many': [], 'root.rq': [],
        'A.b': {'a1': 'b2', 'a2': 'b1', 'a3': 'b1'},
        'A.bs': {'a1': [], 'a2': [], 'a3': []},
        'A.up': {'a1': None, 'a2': None, 'a3': None},
        'A.nq': None,
        'B.back': {'b1': 'a2', 'b2': 'a2'},
    },
    'dup': {
        'root.one': 'a2', 'root.mb': 'a2', 'root.many': ['a1', 'a1', 'a2'], 'root.rq': ['b2', 'b2', 'b1'],
        'A.b': {'a1': 'b2', 'a2': 'b1', 'a3': 'b1'},
        'A.bs': {'a1': ['b1', 'b1', 'b2'], 'a2': ['b2', 'b1'], 'a3': ['b2']},
        'A.up': {'a1': 'a1', 'a2': 'a1', 'a3': None},
        'A.nq': 'b1',
        'B.back': {'b1': 'a2', 'b2': 'a1'},
    },
    'single': {
        'root.one': 'a1', 'root.mb': 'a1', 'root.many': ['a1'], 'root.rq': ['b1'],
        'A.b': {'a1': 'b1', 'a2': 'b1', 'a3': 'b1'},
        'A.bs': {'a1': ['b1'], 'a2': ['b1'], 'a3': ['b1']},
        'A.up': {'a1': 'a3', 'a2': 'a3', 'a3': 'a3'},
        'A.nq': 'b1',
        'B.back': {'b1': 'a1', 'b2': 'a1'},
    },
}


def _rename(x, ids):
    if isinstance(x, dict):
        return {_rename(k, ids): _rename(v, ids) for k, v in x.items()}
    if isinstance(x, list):
        return [_rename(v, ids) for v in x]
    return ids.get(x, x)


# identifiers that are false, without being missing
EDGES['falsy'] = _rename(EDGES['dense'], {'a1': 0, 'a2': '', 'a3': (), 'b1': 0.0, 'b2': ''})


# the same graph where the root and both nodes use the same names for their fields and links
_NAMES = {'root': {'r1': 'x', 'r2': 'y', 'r3': 'z', 'one': 'b', 'mb': 'up', 'many': 'bs', 'rq': 'nq'},
          'B': {'v': 'x', 'w': 'y', 'back': 'b'}, 'A': {}}


def _same_names(spec):
    def node(name, n):
        m = _NAMES[name]
        return {'fields': {m.get(k, k): f for k, f in n['fields'].items()},
                'links': {m.get(k, k): dict(l, req=m.get(l['req'], l['req'])) if 'req' in l else l
                          for k, l in n['links'].items()}}
    return {'root': node('root', spec['root']), 'nodes': {k: node(k, n) for k, n in spec['nodes'].items()}}


G1N = _same_names(G1)
SAME = ('dense=', 'dup=')


def g1(edges):
    if edges.endswith('='):
        e = {}
        for k, v in EDGES[edges[:-1]].items():
            node, name = k.split('.')
            e['%s.%s' % (node, _NAMES[node].get(name, name))] = v
        return dict(G1N, edges=e)
    return dict(G1, edges=EDGES[edges])


def has_req(spec, items, node=None):
    """Does the selection use a link with requires?"""
    links = (spec['root'] if node is None else spec['nodes'][node])['links']
    return any(i[0] in links and (links[i[0]].get('req') or has_req(spec, i[1], links[i[0]]['to'])) for i in items)


#: values a required field may have
SHAPES = [None, 0, 1, '', 'x', (), (1,), (1, 2), [], [1], [1, 2], {}, {'a': 1}, False, True, 1.5, frozenset(), b'', [[1], []],
          [None], ((1, 2), (3, 4)), range(2), {1, 2}]


def alphabet(spec, node):
    n = spec['root'] if node is None else spec['nodes'][node]
    return ([(k, None) for k in n.get('fields', {})] +
            [(k, l['to']) for k, l in n.get('links', {}).items()])


class Trees:
    """All selections with exactly `size` items and nesting at most `depth`, as item lists.

    Every selection is a set of distinct items in alphabet order: item order only matters for ordered
    selections, which have their own family."""

    def __init__(self, spec):
        self.spec = spec

    @functools.lru_cache(None)
    def of(self, node, size, depth):
        return tuple(self._sel(node, 0, size, depth))

    def _sel(self, node, start, size, depth):
        if size == 0:
            yield ()
            return
        alpha = alphabet(self.spec, node)
        for i in range(start, len(alpha)):
            name, to = alpha[i]
            if to is None:
                for rest in self._sel(node, i + 1, size - 1, depth):
                    yield ((name, None),) + rest
            elif depth > 1:
                for k in range(1, size):
                    for sub in self.of(to, k, depth - 1):
                        for rest in self._sel(node, i + 1, size - 1 - k, depth):
                            yield ((name, sub),) + rest

    def upto(self, max_size, depth, node=None):
        for s in range(1, max_size + 1):
            for t in self.of(node, s, depth):
                yield t


def backwards(items):
    """The same selection in the reverse order, in which links come before fields."""
    return [[i[0], i[1] and backwards(i[1])] + list(i[2:]) if len(i) > 1 else list(i) for i in items[::-1]]


def plain(t):
    """tuples -> lists, so that a case is JSON-able and replays identically"""
    return json.loads(json.dumps(t))
