"""C16: queries survive a round trip through every wire format."""
import datetime
import decimal
import itertools
import uuid

from graphql import print_ast

from hiku.builder import Q, build
from hiku.edn import dumps
from hiku.export import graphql as ex_graphql, protobuf as ex_protobuf, simple as ex_simple
from hiku.query import Field, Link, Node, merge
from hiku.readers import graphql as rd_graphql, protobuf as rd_protobuf, simple as rd_simple

from .. import sizes
from ..core import Violation
from ..world import canon, item4

PROPERTY = 'C16'
TECHNIQUE = ('explicit enumeration of queries and option values, each serialized and read back with the real exporters, '
             'codecs and readers of every format, against a canonical form of the query')
LEVEL_NOTE = ('Every query up to the selection bound and every option value up to the nesting bound over the atoms x four '
              'formats. Aliases are compared for GraphQL and the builder only. Strings outside the BMP are not judged for '
              'GraphQL (graphql-core 3.1 prints them wrongly), nor is the ordered flag, which no format represents.')
NOTE = {
    'alphabet': 'option values: every scalar kind, numbers at type borders, strings with quotes, escapes, control and '
                'non-ASCII characters, text that looks like syntax; lists, maps, sets, map keys; values no format can '
                'represent',
    'choices': 'values, nesting, shapes of queries and formats are enumerated; conversion is sequential',
    'oracle': 'the same canonical tree, or an error for values outside of the format\'s domain',
}

FORMATS = ('edn', 'edn-unicode', 'protobuf', 'graphql')

STRINGS = ['', 'a', 'a b', '"', '\\', '\\"', '\n', '\t', '\r', '\x00', '\x07', '\x7f', '\u00e9', '\u2028', '\uffff', '\\n',
           '\\u0041', '"""', 'nil', 'true', ':a', '#a', ';a', '{', '1', ' ', '#{}', '\U0001f600', "'", '$v', '/', '\b\f', '\\\\']
NUMBERS = [0, 1, -1, 2 ** 31, -2 ** 31, 2 ** 53, -2 ** 53, 1.0, 0.5, -2.5, 1e16, 1e-7, 1e300, 123456789.125, 2 ** 53 + 1,
           10 ** 20]
ATOMS = [None, True, False] + NUMBERS + STRINGS
CORE = [None, True, 0, 1.5, '', 'a"\\\n', '\u00e9']
KEYS = ['a', '_b', 'c1', 'a-b', 'a b', '', '1', 'a: 1, b', 'a]', 'true', 'nil', '"', 'a/b', '\u00e9', ':a', 'a\n', 'a,b', 'a#b', 'a"']


def mk(tag):
    """Values that JSON can not hold, by tag."""
    return {
        'inf': float('inf'), '-inf': float('-inf'), 'nan': float('nan'), 'tuple': (1, 2), 'empty tuple': (), 'set': {1, 'a'},
        'frozenset': frozenset(['a']), 'empty set': set(), 'bytes': b'ab', 'object': object(), 'datetime': datetime.datetime(2020, 1, 2, 3, 4, 5),
        'date': datetime.date(2020, 1, 2), 'decimal': decimal.Decimal('1.10'), 'uuid': uuid.UUID(int=5), 'complex': 1j,
        'int key': {1: 2}, 'none key': {None: 1}, 'bool key': {True: 1}, 'range': range(2), 'nested set': [{1, 2}],
        'nested tuple': {'a': (1,)}, 'type': int, 'set in map': {'a': {'x'}}, 'float key': {1.5: 1},
    }[tag]


TAGS = ['inf', '-inf', 'nan', 'tuple', 'empty tuple', 'set', 'frozenset', 'empty set', 'bytes', 'object', 'datetime', 'date',
        'decimal', 'uuid', 'complex', 'int key', 'none key', 'bool key', 'range', 'nested set', 'nested tuple', 'type',
        'set in map', 'float key']


def values(deep):
    yield from ATOMS
    for x in ATOMS:
        yield [x]
        yield {'k': x}
        yield [[x], {'k': [x]}]
        yield {'k': {'j': x, 'i': []}, 'm': {}}
    for x, y in itertools.product(ATOMS if deep else CORE, CORE):
        yield [x, y]
        yield {'k': x, 'j': y}
        yield [{'k': x}, [y, [x]], {}]
        yield [y, x]
        yield {'j': y, 'k': x}
        yield {'j': [y, y, x], 'k': y, 'l': {'a': y, 'b': x}}
    yield from ([], {}, [[]], [{}], {'k': {}}, {'k': []}, [[], [[]]])
    if deep:
        for x, y, z in itertools.product(CORE, CORE, CORE):
            yield [x, [y, z]]
            yield {'k': x, 'j': {'i': y, 'h': [z]}}


LEAFS = [['f'], ['g'], ['f', None, None, {'a': 1}], ['f', None, None, {'a': True}], ['f', None, None, {'a': 'x', 'b': [1]}],
         ['f', None, None, {}], ['_h1'], ['f', None, 'z'], ['g', None, 'f'], ['f', None, 'f'], ['f', None, 'z', {'a': 2}]]
LINKS = [('one', None, None), ('one', None, {'a': 1}), ('many', None, {'a': None}), ('one', 'z', None), ('many', 'one', {'a': ''}),
         ('f', None, None)]


def selections(size, depth):
    if size == 0:
        yield []
        return
    for leaf in LEAFS:
        for rest in selections(size - 1, depth):
            yield [leaf] + rest
    if depth > 1:
        for name, alias, opts in LINKS:
            for k in range(0, size):
                for sub in selections(k, depth - 1):
                    for rest in selections(size - 1 - k, depth):
                        yield [[name, sub, alias, opts]] + rest


def forests(n, prefix):
    """Every ordered forest of n distinctly named items: how links may nest."""
    if n == 0:
        yield []
        return
    for k in range(n):
        for sub in forests(k, prefix + 'a'):
            for rest in forests(n - 1 - k, prefix + 'b'):
                yield [[prefix, sub] if sub else [prefix]] + rest


def bounds(tier):
    return {'nested_items': 8 if tier == 'quick' else 10, 'selections': 3 if tier == 'quick' else 4, 'depth': 3, 'value_nesting': 3}


BIG = ['list', 'records', 'map', 'string', 'quotes', 'unicode', 'long key', 'list in list', 'map in map', 'list depth', 'map depth', 'digits', 'options', 'name',
       'ints']


def big_value(shape, n):
    """Options of which one dimension has size n."""
    if shape == 'list':
        v = [[i, str(i), None, True, i + 0.5][i % 5] for i in range(n)]
    elif shape == 'ints':
        v = list(range(-n, 0)) + [2 ** 31, 0, 0]
    elif shape == 'records':
        v = [{'a': i, 'b': [i]} for i in range(n)]
    elif shape == 'map':
        v = {'k%d' % i: [i, 's', [i], {}][i % 4] for i in range(n)}
    elif shape == 'string':
        v = ('a b' * n)[:n]
    elif shape == 'quotes':
        v = ('"\\\n' * n)[:n]
    elif shape == 'unicode':
        v = ['\u00e9' * n, 'x' * n + '\u2028', '\u00e9' + 'x' * n]
    elif shape == 'long key':
        v = {'k' * n: n, 'K' * n: -n}
    elif shape == 'list in list':
        v = [list(range(i)) for i in range(min(n, 65))]
    elif shape == 'map in map':
        v = {'k%d' % i: {'j%d' % j: j for j in range(i)} for i in range(min(n, 33))}
    elif shape in ('list depth', 'map depth'):
        v = n
        for i in range(n):
            v = [v, i] if shape[0] == 'l' else {'k': v, 'j': i}
    elif shape == 'digits':
        v = [int('9' * min(n, 300)), -int('1' * min(n, 15)), float('0.' + '1' * min(n, 15))]
    elif shape == 'name':
        return {'o' * n: 1}
    else:
        return {'o%d' % i: [i, 's%d' % i, [i], {'k': i}, None][i % 5] for i in range(n)}
    return {'a': v, 'b': 1}


def cases(tier):
    b = bounds(tier)
    for shape in BIG:
        # nested messages of Protocol Buffers may be 100 deep
        for n in sizes.ladder(tier, 24 if 'depth' in shape else 513 if tier == 'quick' else 1025):
            yield {'k': 'big', 'shape': shape, 'n': n}
    for c in sizes.cases(tier, ('fields', 'links', 'mixed-links', 'aliases', 'link-aliases', 'options', 'depth', 'record', 'words')):
        if c['n'] <= (129 if c['shape'] != 'depth' else 24):
            yield dict(c, k='size')
    for v in values(tier != 'quick'):
        yield {'k': 'v', 'v': v}
    for t in TAGS:
        yield {'k': 'tag', 'tag': t}
    for key in KEYS:
        yield {'k': 'key', 'key': key}
    for name in ('f', '_x', 'foo_bar', 'X9', 'true', 'nil', 'null', 'query', 'fragment', 'on', 'type', 'a-b'):
        yield {'k': 'name', 'name': name}
    # names that some format may refuse, but not change: every character at the start, inside and at the end of a name
    for c in [chr(i) for i in range(32, 127)] + ['\t', '\n', '\x00', '\u00e9', '\u2028', '\u0660', '\U0001f600']:
        for name in (c, c + 'n', 'n' + c, 'n' + c + 'm', c + c, 'n' + c + c, 'n' + c + '1'):
            yield {'k': 'odd name', 'name': name}
    for n in range(1, b['selections'] + 1):
        for s in selections(n, b['depth']):
            yield {'k': 'q', 'items': s}
    for n in range(1, b['nested_items'] + 1):
        for s in forests(n, 'n'):
            yield {'k': 'q', 'items': s}


def to_query(items):
    out = []
    for it in items:
        name, sub, alias, opts = item4(it)
        out.append(Field(name, opts, alias) if sub is None else Link(name, to_query(sub), opts, alias))
    return Node(out)


def to_builder(items):
    handles = []
    for it in items:
        name, sub, alias, opts = item4(it)
        h = getattr(Q, name)
        if opts is not None:
            h = h(**opts)
        if sub is not None:
            subs = to_builder(sub)
            h = h[subs[0]] if len(subs) == 1 else h[tuple(subs)]
        if alias is not None:
            h = getattr(Q, alias) << h
        handles.append(h)
    return handles


def num(v):
    """Numbers by value, for Protocol Buffers."""
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (int, float)):
        return 'number %d' % v if v == v and abs(v) != float('inf') and v == int(v) else 'number %r' % v
    if isinstance(v, dict):
        return {k: num(x) for k, x in v.items()}
    if isinstance(v, list):
        return [num(x) for x in v]
    return v


def tcanon(v):
    if isinstance(v, tuple):
        return 'tuple' + canon(list(v))
    if isinstance(v, (set, frozenset)):
        return 'set{%s}' % ','.join(sorted(tcanon(x) for x in v))
    if isinstance(v, list):
        return '[%s]' % ','.join(tcanon(x) for x in v)
    if isinstance(v, dict):
        return '{%s}' % ','.join(sorted('%s:%s' % (tcanon(k), tcanon(x)) for k, x in v.items()))
    return type(v).__name__ + canon(v)


def tree(node, fmt, aliases, merged=False):
    res = []
    for f in node.fields:
        opts = f.options or None
        if fmt == 'protobuf' and opts:
            opts = num(opts)
        res.append((f.name, tcanon(opts), f.result_key if aliases else None,
                    tree(f.node, fmt, aliases) if isinstance(f, Link) else None))
    return sorted(res, key=repr)


def round_trip(fmt, query):
    if fmt == 'edn':
        return rd_simple.read(dumps(ex_simple.export(query)))
    if fmt == 'edn-unicode':
        return rd_simple.read(dumps(ex_simple.export(query), ensure_ascii=False))
    if fmt == 'protobuf':
        return rd_protobuf.read(ex_protobuf.export(query).SerializeToString())
    return rd_graphql.read(print_ast(ex_graphql.export(query)))


def snapshot(node):
    return [(f.name, canon(f.options) if f.options is not None else None, f.alias,
             snapshot(f.node) if isinstance(f, Link) else None) for f in node.fields]


def has_nonbmp(v):
    if isinstance(v, str):
        return any(ord(c) > 0xffff for c in v)
    if isinstance(v, dict):
        return any(has_nonbmp(x) for x in list(v) + list(v.values()))
    return isinstance(v, list) and any(has_nonbmp(x) for x in v)


def check(fmt, query, rec, must):
    """must: the format has to represent this query (otherwise it may also reject it)."""
    aliases = fmt == 'graphql'
    rec.traces += 1
    rec.states += 1
    rec.transitions += 1
    before = snapshot(query)
    try:
        got = round_trip(fmt, query)
    except Exception as e:
        if must:
            raise Violation('%s can not represent a query it has to: %s: %s' % (fmt, type(e).__name__, e))
        rec.count('rejected')
        rec.outcome(type(e).__name__)
        return
    want = tree(merge([query]), fmt, aliases)
    have = tree(got, fmt, aliases)
    if have != want:
        raise Violation('the query read back from %s differs' % fmt, got=repr(have), expected=repr(want))
    if snapshot(query) != before:
        raise Violation('exporting to %s modified the query' % fmt)
    again = tree(round_trip(fmt, got), fmt, aliases)
    if again != want:
        raise Violation('the second round trip through %s differs' % fmt, got=repr(again), expected=repr(want))
    rec.outcome(have)


def options_query(opts):
    return Node([Field('f', opts), Link('one', Node([Field('g', opts), Field('h')]), opts)])


def big(v):
    if isinstance(v, bool):
        return False
    if isinstance(v, int):
        return float(v) != v if abs(v) < 10 ** 300 else True
    if isinstance(v, dict):
        return any(big(x) for x in v.values())
    return isinstance(v, list) and any(big(x) for x in v)


def run(case, rec):
    kind = case['k']
    if kind == 'v':
        v = case['v']
        q = options_query({'a': v, 'b': 1})
        for fmt in FORMATS:
            if fmt == 'graphql' and has_nonbmp(v):
                continue
            check(fmt, q, rec, must=not (fmt == 'protobuf' and big(v)))
        built = build([Q.f(a=v, b=1), Q.one(a=v, b=1)[Q.g(a=v, b=1), Q.h]])
        if tree(built, '', True) != tree(q, '', True):
            raise Violation('the builder altered an option')
    elif kind == 'tag':
        v = mk(case['tag'])
        for fmt in FORMATS:
            for opts in ({'a': v}, {'a': 1, 'b': v}, {'a': [1, v]}, {'a': {'b': 1, 'c': v}}, {'a': [[], [None, v], 2], 'b': 'x'}):
                check(fmt, options_query(opts), rec, must=False)
    elif kind == 'key':
        k = case['key']
        for fmt in FORMATS:
            simple = k in ('a', '_b', 'c1') or fmt == 'protobuf' or (fmt.startswith('edn') and k == 'a-b')
            check(fmt, options_query({'x': {k: 1}}), rec, must=simple)
            check(fmt, options_query({k: 1, 'b': 2}), rec, must=simple)
    elif kind == 'name':
        n = case['name']
        q = Node([Field(n), Link(n, Node([Field(n, {n: 1})]), {n: {n: n}})])
        for fmt in FORMATS:
            check(fmt, q, rec, must=n != 'a-b' or fmt != 'graphql')
        if n.isidentifier():
            h = getattr(Q, n)(**{n: {n: n}})[getattr(Q, n)(**{n: 1})]
            if tree(build([getattr(Q, n), h]), '', True) != tree(q, '', True):
                raise Violation('the builder built another query')
    elif kind == 'odd name':
        n = case['name']
        for fmt in FORMATS:
            if fmt == 'graphql' and has_nonbmp(n):
                continue
            for q in (Node([Field(n)]), Node([Field(n, {'a': 1})]), Node([Field('f', {n: 1}), Field('g')]), Node([Link(n, Node([Field('f')]))]),
                      Node([Link(n, Node([Field(n)]), {n: 'x'}), Field('z')]), Node([Field('f', {'a': {n: 1}}), Field('g', {'b': [{n: n}]})])):
                check(fmt, q, rec, must=n.isidentifier() and n.isascii())
    elif kind == 'big':
        opts = big_value(case['shape'], case['n'])
        q = options_query(opts)
        for fmt in FORMATS:
            if fmt == 'protobuf' and case['shape'] == 'map depth' and case['n'] > 7:
                continue            # time exponential in the depth, in the library for Protocol Buffers
            check(fmt, q, rec, must=not (fmt == 'protobuf' and big(opts)))
    else:
        if kind == 'size':
            case = dict(case, items=sizes.make(case)[1])
        q = to_query(case['items'])
        empty = any_empty(case['items'])
        for fmt in FORMATS:
            qf = q
            if fmt != 'graphql':
                if any_alias(case['items']):
                    continue
            elif empty:
                continue
            check(fmt, qf, rec, must=True)
        built = build(to_builder(case['items']))
        if tree(built, '', True) != tree(q, '', True):
            raise Violation('the builder built another query', got=repr(tree(built, '', True)),
                            expected=repr(tree(q, '', True)))


def any_alias(items):
    return any(item4(i)[2] is not None or (item4(i)[1] and any_alias(item4(i)[1])) for i in items)


def any_empty(items):
    return any(item4(i)[1] == [] or (item4(i)[1] and any_empty(item4(i)[1])) for i in items)
