"""Graphs and queries of a given size in one dimension, over a ladder of sizes.

The exhaustive families are small in every dimension.  These are large in one and cover what a limit, a
chunk or a cache of some size would change: every size up to a dozen, then sizes around powers of two
and round numbers.
"""
SMALL = list(range(1, 13))
MORE = [15, 16, 17, 20, 21, 24, 25, 26, 31, 32, 33, 49, 50, 51, 63, 64, 65]
BIG = [99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 499, 500, 501, 511, 512, 513]
HUGE = [999, 1000, 1001, 1023, 1024, 1025]
VAST = [1999, 2000, 2001, 2047, 2048, 2049, 4095, 4096, 4097, 4999, 5000, 5001]


def ladder(tier, top):
    """Sizes up to top; thorough: every size up to 130 as well."""
    res = SMALL + MORE + BIG + HUGE + VAST
    if tier != 'quick':
        res = list(range(1, 131)) + res
    return sorted({n for n in res if n <= top})


def ids(prefix, n):
    return ['%s%d' % (prefix, i) for i in range(n)]


#: shape -> largest size (quick, thorough)
SHAPES = {'objects': (1025, 5001), 'repeated': (1025, 5001), 'spread': (257, 1025), 'fields': (257, 1025), 'loaders': (129, 513),
          'links': (65, 257), 'aliases': (129, 1025), 'link-aliases': (65, 257), 'same': (129, 513), 'options': (65, 257),
          'depth': (33, 65), 'items': (513, 5001), 'record': (129, 513), 'mixed-links': (65, 257),
          # which names are used where: ROLES, in several orders
          'words': (18, 72)}


def cases(tier, shapes=None):
    for shape, tops in SHAPES.items():
        if shapes is None or shape in shapes:
            for n in range(tops[tier != 'quick']) if shape == 'words' else ladder(tier, tops[tier != 'quick']):
                yield {'shape': shape, 'n': n}


def make(case):
    """(spec, items) for a case; the query is merged already."""
    shape, n = case['shape'], case['n']
    return globals()['_' + shape.replace('-', '_')](n)


A = {'fields': {'x': {'f': 'A1'}, 'y': {'f': 'A2'}, 'z': {'f': 'A1'}},
     'links': {'b': {'to': 'B', 'kind': 'One', 'req': 'x'}, 'mb': {'to': 'B', 'kind': 'Maybe', 'req': 'y'},
               'bs': {'to': 'B', 'kind': 'Many', 'req': 'x'}}}
B = {'fields': {'v': {'f': 'B1'}, 'w': {'f': 'B2'}}, 'links': {}}
ROOT = {'fields': {'r': {'f': 'R'}}, 'links': {'many': {'to': 'A', 'kind': 'Many'}, 'rq': {'to': 'A', 'kind': 'Many', 'req': 'r'}}}
ITEMS = [['r'], ['many', [['x'], ['y'], ['b', [['v']]], ['mb', [['w'], ['v']]], ['bs', [['w']]]]]]


def _edges(many, a):
    """Every third object has no optional target; sequences have 0, 1 or 2 entries."""
    return {'root.many': many, 'root.rq': many[::-1],
            'A.b': {i: 'b%d' % (k // 2) for k, i in enumerate(a)},
            'A.mb': {i: None if k % 3 == 2 else 'b%d' % k for k, i in enumerate(a)},
            'A.bs': {i: ['b%d' % (k + j) for j in range(k % 3)] for k, i in enumerate(a)}}


def _objects(n):
    a = ids('a', n)
    return {'root': ROOT, 'nodes': {'A': A, 'B': B}, 'edges': _edges(a, a)}, ITEMS + [['rq', [['z'], ['b', [['w']]]]]]


def _repeated(n):
    a = ids('a', max(1, n // 3))
    many = [a[(i * 7) % len(a)] for i in range(n)]
    return {'root': ROOT, 'nodes': {'A': A, 'B': B}, 'edges': _edges(many, a)}, ITEMS


def _spread(n):
    """Few objects, n targets of each."""
    a = ids('a', 3)
    e = _edges(a, a)
    e['A.bs'] = {'a0': ids('b', n), 'a1': [], 'a2': ids('b', n)[::-1]}
    return {'root': ROOT, 'nodes': {'A': A, 'B': B}, 'edges': e}, ITEMS


def _wide(fields, items, links=None):
    """The same members at the root and in a node."""
    spec = {'root': {'fields': {k: dict(f, f='R' + f['f']) for k, f in fields.items()},
                     'links': dict(links or {}, many={'to': 'A', 'kind': 'Many'})},
            'nodes': {'A': {'fields': fields, 'links': links or {}}, 'B': B},
            'edges': {'root.many': ['a1', 'a2', 'a1']}}
    return spec, items + [['many', items]]


def _fields(n):
    names = ids('f', n)
    return _wide({k: {'f': 'L'} for k in names}, [[k] for k in names])


def _loaders(n):
    names = ids('f', n)
    return _wide({k: {'f': 'L%d' % (i // 2 if i % 5 == 4 else i)} for i, k in enumerate(names)}, [[k] for k in reversed(names)])


def _links(n):
    """Every link requires a field of its own; all fields are of one loader."""
    names = ids('f', n)
    links = {'l' + k: {'to': 'B', 'kind': ['One', 'Maybe', 'Many'][i % 3], 'req': k} for i, k in enumerate(names)}
    return _wide({k: {'f': 'L'} for k in names}, [['l' + k, [['v'], ['w']]] for k in names], links)


def _mixed_links(n):
    """Fields and links take turns; the links require one field, or nothing."""
    names = ids('f', n)
    links = {'l' + k: dict({'to': 'B', 'kind': ['Many', 'One', 'Maybe'][i % 3]}, **({'req': 'f0'} if i % 2 else {}))
             for i, k in enumerate(names)}
    items = []
    for k in names:
        items += [[k], ['l' + k, [['v']]]]
    return _wide({k: {'f': 'L%d' % (i % 4)} for i, k in enumerate(names)}, sorted(items, key=lambda i: len(i)), links)


def _aliases(n):
    return _wide({'f': {'f': 'L', 'opts': {'o': {'default': -1}}}},
                 [['f', None, 'a%d' % i, {'o': i if i % 4 else str(i)}] for i in range(n)])


def _link_aliases(n):
    links = {'l': {'to': 'B', 'kind': 'Many', 'req': 'f', 'opts': {'o': {'default': -1}}}}
    return _wide({'f': {'f': 'L'}}, [['l', [['v']], 'a%d' % i, {'o': i}] for i in range(n)], links)


def _same(n):
    return _wide({'f': {'f': 'L', 'opts': {'o': {'default': -1}}}},
                 [['f', None, 'a%d' % i] + ([{'o': 1}] if i % 2 else []) for i in range(n)])


def _options(n):
    opts = {'o%d' % i: {'default': i} for i in range(n)}
    given = [None, {'o0': 'x'}, {'o%d' % (n - 1): 'y'}, {k: 'all' for k in opts}, {k: 'h' for k in list(opts)[::2]}]
    return _wide({'f': {'f': 'L', 'opts': opts}}, [['f', None, 'a%d' % i, g] for i, g in enumerate(given)])


def _depth(n):
    a = ids('a', 3)
    spec = {'root': {'fields': {}, 'links': {'many': {'to': 'A', 'kind': 'Many'}}},
            'nodes': {'A': {'fields': {'x': {'f': 'A1'}}, 'links': {'up': {'to': 'A', 'kind': 'One', 'req': 'x'}}}},
            'edges': {'root.many': a, 'A.up': {'a0': 'a1', 'a1': 'a2', 'a2': 'a0'}}}
    sub = [['x']]
    for i in range(n - 1):
        sub = [['x', None, 'd%d' % (n - i)], ['up', sub]]
    return spec, [['many', sub]]


def _items(n):
    """Sequences of n records, of n scalars, and of records with sequences."""
    rec = ['rec', {'u': 'Str', 'w': ['opt', 'Int']}]
    fields = {'s': {'f': 'L', 'type': ['seq', ['ref', 'E']], 'val': n}, 't': {'f': 'L', 'type': ['seq', 'Str'], 'val': n},
              'o': {'f': 'L', 'type': ['opt', ['seq', ['opt', ['ref', 'E']]]], 'val': n}}
    spec, items = _wide(fields, [['t'], ['s', [['u'], ['w']]], ['o', [['w']]]])
    return dict(spec, data_types={'E': rec}), items


def _record(n):
    """A record of n fields, in which records are nested up to four deep."""
    e = {'g%d' % i: ['Str', 'Int', ['opt', 'Bool'], ['rec', {'h': 'Str', 'k': ['rec', {'m': 'Int'}]}]][i % 4] for i in range(n)}
    sel = [[k] if i % 4 != 3 else [k, [['h'], ['k', [['m']]]]] for i, k in enumerate(e)]
    spec, items = _wide({'s': {'f': 'L', 'type': ['ref', 'E']}}, [['s', sel]])
    return dict(spec, data_types={'E': ['rec', e]}), items


#: names that are special to Python, to GraphQL or to hiku, and names that are nearly the same
WORDS = ['x', 'X', 'x_', '_x', 'x__', '_x_', 'x1', 'x01', 'x_1', 'xx', 'xX', 'Xx', 'xxx', '_', '_1',
         'class', 'def', 'lambda', 'None', 'True', 'False', 'self', 'cls', 'this', 'ctx', 'env', 'next', 'args', 'kwargs',
         'name', 'names', 'node', 'nodes', 'field', 'fields', 'links', 'options', 'alias', 'root', 'result', 'index', 'ids', 'id',
         'keys', 'items', 'values', 'get', 'pop', 'update', 'copy', 'clear', 'accept', 'visit', 'func', 'type', 'typename',
         'query', 'mutation', 'subscription', 'on', 'fragment', 'skip', 'include', 'true', 'false', 'null', 'nil', 'data',
         'errors', 'deep', 'default', 'ordered', 'requires', 'graph', 'engine', 'value', 'key', 'n' * 128, 'n' * 127 + 'm',
         'n' * 127 + 'N', 'camelCase', 'camelcase', 'snake_case', 'snakecase', 'snake__case', 'if', 'each', 'some', 'i', 'o',
         'Query', 'Mutation', 'Record', 'Sequence', 'Optional', 'Mapping', 'Node', 'Link', 'Field', 'Root', 'Option', 'Type', 'A', 'B']
ROLES = ['fields', 'loaders', 'links', 'options', 'aliases', 'link aliases', 'nodes', 'records', 'mixed']
#: not a name of a type: used by GraphQL itself, or by the other types of the graph
NOT_TYPES = ('Query', 'Mutation', 'A', 'B')


def _words(n):
    role, turn = ROLES[n % len(ROLES)], n // len(ROLES)
    if turn % 2:
        words = WORDS[::-1]
    else:
        words = list(WORDS)
    k = turn // 2 * 7
    words = words[k:] + words[:k]
    if role == 'fields':
        return _wide({k: {'f': 'L%d' % (i % 3)} for i, k in enumerate(words)}, [[k] for k in sorted(words)])
    elif role == 'loaders':      # loaders and objects with these names, too
        spec, items = _wide({k: {'f': k} for k in words}, [[k] for k in words])
        return dict(spec, edges={'root.many': ['a' + w for w in words]}), items
    elif role == 'links':        # half of the words are fields, the other ones links that require them
        h = len(words) // 2
        fs, ls = words[:h], words[h:2 * h]
        links = {l: {'to': 'B', 'kind': ['One', 'Maybe', 'Many'][i % 3], 'req': f} for i, (f, l) in enumerate(zip(fs, ls))}
        return _wide({f: {'f': 'L%d' % (i % 2)} for i, f in enumerate(fs)}, [[l, [['v'], ['w']]] for l in ls], links)
    elif role == 'options':
        opts = {w: {'default': i} for i, w in enumerate(words)}
        given = [None, {words[0]: 'x'}, {words[-1]: 'y'}, dict.fromkeys(words, 'all'), {w: [w] for w in words[::2]}]
        return _wide({'f': {'f': 'L', 'opts': opts}}, [['f', None, 'a%d' % i, g] for i, g in enumerate(given)])
    elif role == 'aliases':      # of fields which have names from the list as well
        fs = words[:10]
        return _wide({f: {'f': 'L', 'opts': {'o': {'default': -1}}} for f in fs},
                     [[fs[i % 10], None, a, {'o': a}] for i, a in enumerate(words[::-1])])
    elif role == 'link aliases':
        ls = words[:10]
        links = {l: {'to': 'B', 'kind': 'Many', 'req': 'f', 'opts': {'o': {'default': -1}}} for l in ls}
        return _wide({'f': {'f': 'L'}}, [[ls[i % 10], [['v', None, a]], a, {'o': i}] for i, a in enumerate(words[::-1])], links)
    elif role == 'nodes':        # a link to every node has the name of the next one
        words = [w for w in words if w not in NOT_TYPES]
        fields = {'v': {'f': 'B1'}, 'w': {'f': 'B2'}}
        nodes = {w: {'fields': fields, 'links': {words[(i + 1) % len(words)]: {'to': w, 'kind': 'One', 'req': 'v'}}}
                 for i, w in enumerate(words)}
        links = {words[(i + 1) % len(words)]: {'to': w, 'kind': ['One', 'Maybe', 'Many'][i % 3]} for i, w in enumerate(words)}
        items = [[words[(i + 1) % len(words)], [['v'], [words[(i + 1) % len(words)], [['w']]]]] for i, w in enumerate(words)]
        return {'root': {'fields': {}, 'links': links}, 'nodes': nodes, 'edges': {}}, items
    elif role == 'records':      # names of data types and of their fields
        fs = [w for w in words if w not in NOT_TYPES][:30]
        spec, items = _wide({f: {'f': 'L', 'type': ['seq', ['ref', f]]} for f in fs},
                            [[f, [[w] for w in words[i::4]]] for i, f in enumerate(fs)])
        return dict(spec, data_types={f: ['rec', {w: ['Str', 'Int', ['opt', 'Bool']][i % 3] for i, w in enumerate(words)}] for f in fs}), items
    assert role == 'mixed', role
    fs, ls = words[::2], words[1::2]
    links = {l: {'to': 'B', 'kind': 'Many', 'opts': {l: {'default': 0}}, 'req': f} for f, l in zip(fs, ls)}
    items = []
    for i, (f, l) in enumerate(zip(fs, ls)):
        items += [[f, None, fs[(i + 1) % len(fs)], {f: 1}], [l, [['v', None, l], ['w', None, f]], ls[(i + 1) % len(ls)], {l: 2}]]
    return _wide({f: {'f': 'L%d' % (i % 4), 'opts': {f: {'default': None}}} for i, f in enumerate(fs)},
                 sorted(items, key=lambda i: i[1] is not None), links)
