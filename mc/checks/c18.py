"""C18: invalid graph definitions are rejected, valid ones are always accepted."""
import itertools

from hiku import types as T
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.graph import AbstractField, Field, Graph, Link, Node, Option, Root
from hiku.query import merge
from hiku.sources.graph import SubGraph
from hiku.validate.graph import GraphValidationError

from .. import sizes
from ..core import Violation
from ..world import World, mk_query, mk_type, read_result

PROPERTY = 'C18'
TECHNIQUE = ('explicit enumeration of graph definitions (all sequences of nodes, root definitions and foreign objects, holding '
             'all sequences of fields, links and foreign objects), each given to the real Graph, against independent rules; '
             'accepted graphs are executed against a reference evaluator')
LEVEL_NOTE = ('Every definition with up to three graph items and the bounded number of fields and links over the alphabet, so '
              'every combination and order of defects of that size; every foreign object at every place.')
NOTE = {
    'alphabet': 'nodes with equal and different names, several root definitions; fields and links with equal and different '
                'names, links to existing and missing nodes, requiring fields, links, missing and foreign names, options; '
                'foreign objects (None, strings, numbers, classes, lists, options, fields, nodes, graphs)',
    'choices': 'sequences of items at every level are enumerated, so all orders; construction is sequential',
    'oracle': 'rules of the statement applied to the description of the definition; reference evaluation of the full query',
}

OPT = {'i': {'type': 'Int', 'default': 1}}
OPT2 = {'i': {'type': 'Int', 'default': 1}, 'j': {'default': None}}
# fields and links of a node: [kind, name, ...]; links: target, kind, requires, options
ITEMS = [
    ['f', 'x'], ['f', 'y'], ['f', 'x', OPT],
    ['l', 'x', 'A', 'One', None], ['l', 'y', 'A', 'Many', 'x'], ['l', 'z', 'B', 'Maybe', 'y'],
    ['l', 'z', 'C', 'One', None], ['l', 'w', 'B', 'One', 'z'], ['l', 'w', 'A', 'One', 'w'], ['l', 'y', 'B', 'Many', None, OPT2], ['l', 'v', 'A', 'One', ''],
    ['bad', 'none'],
]
FEW = [['f', 'x'], ['f', 'y'], ['l', 'y', 'A', 'Many', 'x'], ['l', 'z', 'B', 'Maybe', 'y'], ['bad', 'str']]
FOUR = [['f', 'x'], ['l', 'y', 'B', 'Many', 'x'], ['l', 'z', 'A', 'One', 'y'], ['l', 'z', 'A', 'Maybe', None]]
HEADS = [['node', 'A'], ['node', 'B'], ['root'], ['bad', 'none']]
BAD = ['none', 'str', 'int', 'list', 'dict', 'field', 'link', 'option', 'node', 'root', 'graph', 'class', 'Field', 'Node', 'Option',
       'type', 'func', 'object']


def foreign(tag):
    f = Field('q', None, loader)
    return {
        'none': None, 'str': 'x', 'int': 1, 'list': [], 'dict': {}, 'field': f, 'link': Link('q', T.TypeRef['A'], loader, requires=None),
        'option': Option('q', None), 'node': Node('Q', []), 'root': Root([]), 'graph': Graph([]), 'class': object, 'Field': Field,
        'Node': Node, 'Option': Option, 'type': T.Integer, 'func': loader, 'object': object(),
    }[tag]


def loader(*args):
    raise AssertionError('not called')


FITS = {'graph': ('node', 'root'), 'node': ('field', 'link'), 'options': ('option',)}


def splits(n, k):
    """All ways to hand n things to k owners in order."""
    if k == 0:
        if n == 0:
            yield []
        return
    for i in range(n + 1):
        for rest in splits(n - i, k - 1):
            yield [i] + rest


def definitions(alphabet, n, k):
    for heads in itertools.product(HEADS, repeat=k):
        for sizes in splits(n, k):
            if any(s and h[0] == 'bad' for s, h in zip(sizes, heads)):
                continue
            for items in itertools.product(alphabet, repeat=n):
                it = iter(items)
                yield [h + [[next(it) for _ in range(s)]] for h, s in zip(heads, sizes)]


def bounds(tier):
    deep = tier != 'quick'
    return {'graph_items': 3, 'fields_full_alphabet': 3 if deep else 2, 'fields_small_alphabet': 4 if deep else 3}


def cases(tier):
    deep = tier != 'quick'
    for n in range(0, 3):
        for k in range(0, 4):
            for heads_n in batch(definitions(ITEMS, n, k), 200):
                yield {'k': 'defs', 'defs': heads_n}
    for k in range(1, 4):
        for chunk in batch(definitions(ITEMS if deep and k < 3 else FEW, 3, k), 200):
            yield {'k': 'defs', 'defs': chunk}
    for k in range(1, 4):
        for chunk in batch(definitions(FOUR, 4, k), 200):
            if deep or k < 3:
                yield {'k': 'defs', 'defs': chunk}
    if deep:
        for chunk in batch(definitions(ITEMS, 4, 1), 200):
            yield {'k': 'defs', 'defs': chunk}
    for shape in ('fields', 'links', 'requires', 'nodes', 'roots', 'options', 'refs'):
        for n in sizes.ladder(tier, 257 if deep else 129):
            yield {'k': 'big', 'shape': shape, 'n': n}
    for n in range(4 if tier == 'quick' else 28):
        yield {'k': 'big', 'shape': 'words', 'n': n}
    for n in range(2):
        yield {'k': 'big', 'shape': 'unknown', 'n': n}
    for tag in BAD:
        yield {'k': 'bad', 'tag': tag}
    for n in range(1, 5):
        yield {'k': 'orders', 'n': n}
    for i in range(len(FIELD_KINDS)):
        yield {'k': 'kinds', 'i': i}
    for i in range(len(LINK_TYPES)):
        yield {'k': 'link type', 'i': i}


def big(shape, n):
    """(definition, definitions which have one defect each)"""
    fs = [['f', 'f%d' % i] for i in range(n)]
    a = ['node', 'A', [['f', 'x']]]
    spots = sorted({0, n // 2, n - 1})
    if shape == 'fields':
        good = [['node', 'B', fs], a, ['root', fs]]
        bad = [[['node', 'B', fs + [['f', 'f%d' % i]]], a] for i in spots] + [[a, ['root', [['f', 'f%d' % i]] + fs]] for i in spots]
        bad += [[a, ['root', fs + [['l', 'f%d' % i, 'A', 'One', None]]]] for i in spots]
        bad += [[['root', fs], a, ['root', [['f', 'f%d' % i]]]] for i in spots] + [[a, ['node', 'B', fs[:i] + [['bad', 'none']] + fs[i:]]] for i in spots]
    elif shape == 'links':
        ls = [['l', 'l%d' % i, 'AB'[i % 2], ['One', 'Many', 'Maybe'][i % 3], None] for i in range(n)]
        good = [['root', ls], a, ['node', 'B', ls]]
        bad = [[['root', ls + [['l', 'l%d' % i, 'A', 'One', None]]], a, ['node', 'B', ls]] for i in spots]
        bad += [[['root', ls[:i] + [['l', 'l%d' % i, 'C', 'One', None]] + ls[i + 1:]], a, ['node', 'B', []]] for i in spots]
        bad += [[a, ['node', 'B', ls[:i] + [['l', 'l%d' % i, 'C', 'Many', None]] + ls[i + 1:]]] for i in spots]
    elif shape == 'requires':
        ls = [['l', 'l%d' % i, 'A', ['One', 'Many', 'Maybe'][i % 3], 'f%d' % i] for i in range(n)]
        good = [['root', ls + fs], a, ['node', 'B', fs + ls]]
        bad = [[['root', ls + fs[:i] + fs[i + 1:]], a] for i in spots] + [[a, ['node', 'B', fs[:i] + fs[i + 1:] + ls]] for i in spots]
        bad += [[a, ['node', 'B', fs + ls + [['l', 'm', 'A', 'One', 'l%d' % i]]]] for i in spots]
    elif shape == 'nodes':
        ns = [['node', 'N%d' % i, [['f', 'x'], ['l', 'l', 'N%d' % ((i + 1) % n), 'One', 'x']]] for i in range(n)]
        good = ns + [['root', [['l', 'l', 'N%d' % (n - 1), 'Many', None]]]]
        bad = [ns + [['node', 'N%d' % i, []]] for i in spots] + [ns[:i] + ns[i + 1:] + [['root', [['l', 'l', 'N%d' % i, 'One', None]]]] for i in spots]
        bad += [ns[:i] + [['node', 'N%d' % i, [['l', 'l', 'N', 'One', None]]]] + ns[i + 1:] for i in spots] + [ns[:i] + [['bad', 'field']] + ns[i:] for i in spots]
    elif shape == 'roots':
        rs = [['root', [f]] for f in fs]
        good = rs + [a, ['root', [['l', 'l', 'A', 'One', 'f%d' % (n - 1)]]]]
        bad = [rs + [['root', [['f', 'f%d' % i]]]] for i in spots] + [rs[:i] + rs[i + 1:] + [a, ['root', [['l', 'l', 'A', 'One', 'f%d' % i]]]] for i in spots]
    elif shape == 'options':
        opts = {'o%d' % i: {'type': 'Int', 'default': i} for i in range(n)}
        good = [['root', [['f', 'x', opts], ['l', 'l', 'A', 'Many', 'x', opts]]], a]
        bad = []
    elif shape == 'words':      # names that are nearly the same; there are root members and nodes with equal names
        ws = sizes.WORDS[n // 4 * 7:] + sizes.WORDS[:n // 4 * 7]
        if n % 2:
            ws = ws[::-1]
        fs, h = [['f', w] for w in ws], len(ws) // 2
        ls = [['l', l, ws[(i * 5) % h], ['One', 'Many', 'Maybe'][i % 3], f] for i, (f, l) in enumerate(zip(ws[:h], ws[h:]))]
        nodes = [['node', w, [['f', w], ['l', ws[(i + 1) % len(ws)], ws[(i + 2) % len(ws)], 'One', w]]] for i, w in enumerate(ws)]
        if n // 2 % 2:
            good = nodes + [['root', fs]]
        else:
            good = [['root', fs[:h] + ls]] + nodes
        bad = [good + [['root', [f]]] for f in fs[:h]] + [good + [m] for m in nodes]
        bad += [[['root', fs[:h] + ls]] + nodes[:i] + nodes[i + 1:] for i in range(0, h, 9)]
        bad += [[['root', fs[:i] + fs[i + 1:h] + ls]] + nodes for i in range(0, h, 3)]
    elif shape == 'unknown':    # names of nothing, which mean something elsewhere
        ws = sizes.WORDS + ['root', 'node', 'graph', 'fields', 'items', 'Any', 'Integer', 'B', '1', 'None', ' ']
        good = [a, ['root', [['l', 'l', 'A', 'One', None]]]]
        if n:
            bad = [[['node', 'A', [['l', 'l', w, 'One', None]]]] for w in ws if w != 'A'] + [[a, ['node', 'B', [['f', 'x'], ['l', 'l', 'A', 'One', w]]]] for w in ws if w != 'x']
        else:
            bad = [[a, ['root', [['l', 'l', w, 'Many', None]]]] for w in ws if w != 'A'] + [[a, ['root', [['f', 'x'], ['l', 'l', 'A', 'Maybe', w]]]] for w in ws if w != 'x']
    else:       # links from everywhere to one node, and the fields and links of one node side by side
        good = [a] + [['node', 'N%d' % i, [['l', 'l', 'A', 'One', None]]] for i in range(n)] + [['root', [y for i in range(n) for y in (
            ['f', 'f%d' % i], ['l', 'l%d' % i, 'N%d' % i, 'Many', 'f%d' % i])]]]
        bad = [good[1:], good[:1] + good[2:]] + [good + [['root', [['f', 'f%d' % i]]]] for i in spots]
    return good, bad


def batch(it, n):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) == n:
            yield buf
            buf = []
    if buf:
        yield buf


# -- the rules

def valid(items):
    if any(i[0] == 'bad' for i in items):
        return False
    names = [i[1] for i in items if i[0] == 'node']
    if len(set(names)) != len(names):
        return False
    root = [f for i in items if i[0] == 'root' for f in i[1]]
    for fields in [root] + [i[2] for i in items if i[0] == 'node']:
        if any(f[0] == 'bad' for f in fields):
            return False
        if len({f[1] for f in fields}) != len(fields):
            return False
        for f in fields:
            if f[0] == 'l':
                if f[2] not in names:
                    return False
                if f[4] is not None and ['f', f[4]] not in [g[:2] for g in fields]:
                    return False
    return True


def spec_of(items):
    def part(fields, owner):
        return {'fields': {f[1]: {'f': owner + 'F', 'opts': f[2] if len(f) > 2 else None} for f in fields if f[0] == 'f'},
                'links': {f[1]: {'to': f[2], 'kind': f[3], 'req': f[4], 'opts': f[5] if len(f) > 5 else None} for f in fields if f[0] == 'l'}}
    root = [f for i in items if i[0] == 'root' for f in i[1]]
    return {'root': part(root, 'R'), 'nodes': {i[1]: part(i[2], i[1]) for i in items if i[0] == 'node'}, 'edges': {}}


def build(items):
    """Description -> objects; loaders of the reference world where the definition has a meaning."""
    def load(*args):
        raise AssertionError('not called')

    world = World(spec_of(items)) if valid(items) else None

    def field(f, owner):
        if f[0] == 'bad':
            return foreign(f[1])
        if world is not None:
            if f[0] == 'f':
                return world.mk_field(f[1], world.node_spec(owner)['fields'][f[1]])
            return world.mk_link(owner, f[1], world.node_spec(owner)['links'][f[1]])
        if f[0] == 'f':
            return Field(f[1], None, load, options=[Option(n, mk_type(o.get('type'))) for n, o in (f[2] if len(f) > 2 else {}).items()])
        t = T.TypeRef[f[2]]
        t = {'One': t, 'Maybe': T.Optional[t], 'Many': T.Sequence[t]}[f[3]]
        return Link(f[1], t, load, requires=f[4], options=[Option(n, None) for n in (f[5] if len(f) > 5 else {})])

    objs = []
    for i in items:
        if i[0] == 'bad':
            objs.append(foreign(i[1]))
        elif i[0] == 'root':
            objs.append(Root([field(f, None) for f in i[1]]))
        else:
            objs.append(Node(i[1], [field(f, i[1]) for f in i[2]]))
    return objs, world


def construct(objs, must, rec, what, **detail):
    rec.states += 1
    rec.transitions += 1
    rec.traces += 1
    try:
        graph = Graph(objs)
    except GraphValidationError as e:
        if must:
            raise Violation('a valid definition is rejected: %s' % e, what=repr(what), **detail)
        rec.outcome(str(e))
        return None
    except Exception as e:
        raise Violation('construction fails with %s: %s' % (type(e).__name__, e), what=repr(what), **detail)
    if not must:
        raise Violation('an invalid definition is accepted', what=repr(what), **detail)
    return graph


def full_query(spec, node, depth):
    part = spec['root'] if node is None else spec['nodes'][node]
    q = [[f] for f in part['fields']]
    for name, l in part['links'].items():
        sub = full_query(spec, l['to'], depth - 1) if depth else []
        q.append([name, sub])
    return q


def execute(graph, spec, world, rec):
    items = full_query(spec, None, 2)
    if not items:
        return
    res = Engine(SyncExecutor()).execute(graph, merge([mk_query(items)]))
    got = read_result(res, items, world)
    want = world.evaluate(items)
    if got != want:
        raise Violation('the accepted graph answers wrongly', got=repr(got), expected=repr(want))
    rec.outcome(got)


def sub_expr():
    low = Graph([Node('N', [Field('v', None, loader)])])
    return SubGraph(low, 'N')


FIELD_KINDS = ['plain', 'subclass', 'expression', 'typed', 'required option', 'described', 'tuple options', 'empty options',
               'no options']


def mk_kind(kind, name):
    if kind == 'subclass':
        return type('MyField', (Field,), {})(name, None, loader)
    if kind == 'expression':
        from hiku.expr.core import S
        return Field(name, None, sub_expr().c(S.this.v))
    if kind == 'typed':
        return Field(name, T.Optional[T.Sequence[T.Record[{'a': T.Integer}]]], loader)
    if kind == 'required option':
        return Field(name, None, loader, options=[Option('o', T.Integer)])
    if kind == 'described':
        return Field(name, None, loader, description='d')
    if kind == 'tuple options':
        return Field(name, None, loader, options=(Option('o', None, default=1), Option('p', None)))
    if kind == 'empty options':
        return Field(name, None, loader, options=[])
    return Field(name, None, loader)


LINK_TYPES = ['ref', 'opt', 'seq', 'int', 'none', 'optseq', 'seqopt', 'str', 'seqint', 'record', 'map']


def link_type(tag):
    r = T.TypeRef['A']
    return {'ref': r, 'opt': T.Optional[r], 'seq': T.Sequence[r], 'int': T.Integer, 'none': None, 'optseq': T.Optional[T.Sequence[r]],
            'seqopt': T.Sequence[T.Optional[r]], 'str': 'A', 'seqint': T.Sequence[T.Integer], 'record': T.Record[{'a': r}],
            'map': T.Mapping[T.String, r]}[tag]


def run(case, rec):
    kind = case['k']
    if kind == 'defs':
        for items in case['defs']:
            ok = valid(items)
            objs, world = build(items)
            graph = construct(objs, ok, rec, items)
            if graph is not None:
                execute(graph, world.spec, world, rec)
                # the same definitions make another graph
                again = construct(objs, True, rec, items)
                execute(again, world.spec, world, rec)
    elif kind == 'big':
        good, bad = big(case['shape'], case['n'])
        for items, ok in [(good, True), (good[::-1], True)] + [(x, False) for x in bad]:
            if valid(items) is not ok:
                raise AssertionError(items)
            objs, world = build(items)
            graph = construct(objs, ok, rec, [case['shape'], case['n']])
            if graph is not None and case['n'] <= 65 and case['shape'] not in ('words', 'unknown'):
                execute(graph, world.spec, world, rec)
    elif kind == 'bad':
        tag = case['tag']
        x = foreign(tag)
        good = [Node('A', [Field('x', None, loader)]), Root([Field('r', None, loader)])]
        for pos in range(3):
            construct(good[:pos] + [x] + good[pos:], tag in FITS['graph'], rec, ['graph', tag, pos])
        fields = [Field('x', None, loader), Link('l', T.Sequence[T.TypeRef['A']], loader, requires='x')]
        opts = [Option('o', None), Option('p', T.Integer, default=1)]
        for pos in range(3):
            fs = fields[:pos] + [x] + fields[pos:]
            os_ = opts[:pos] + [x] + opts[pos:]
            at = good[:1]
            construct([Node('A', fs)], tag in FITS['node'], rec, ['node', tag, pos])
            construct(at + [Node('B', fs)], tag in FITS['node'], rec, ['second node', tag, pos])
            construct(at + [Root(fs)], tag in FITS['node'], rec, ['root', tag, pos])
            construct([Root([]), Root(fs)] + at, tag in FITS['node'], rec, ['second root', tag, pos])
            for where in ('node', 'root'):
                f = Field('f', None, loader, options=os_)
                l = Link('m', T.TypeRef['A'], loader, requires=None, options=os_)
                for item in (f, l):
                    for fs in ([item], [fields[0], item], [item, fields[0]]):
                        defs = at + ([Node('B', fs)] if where == 'node' else [Root(fs)])
                        construct(defs, tag in FITS['options'], rec, ['options', where, tag, pos])
                        construct(defs[::-1], tag in FITS['options'], rec, ['options', where, tag, pos])
    elif kind == 'orders':
        orders(case['n'], rec)
    elif kind == 'kinds':
        k = FIELD_KINDS[case['i']]
        for other in FIELD_KINDS:
            for n1, n2 in (('x', 'y'), ('x', 'x')):
                for rev in (False, True):
                    fs = [mk_kind(k, n1), mk_kind(other, n2)]
                    if rev:
                        fs.reverse()
                    construct([Node('A', fs)], n1 != n2, rec, ['kinds', k, other, n1, n2])
                    construct([Root(fs)], n1 != n2, rec, ['kinds', k, other, n1, n2])
                    construct([Root(fs[:1]), Root(fs[1:])], n1 != n2, rec, ['kinds', k, other, n1, n2])
                    construct([Node('A', fs[:1]), Node('B', fs[1:])], True, rec, ['kinds', k, other, n1, n2])
            for req in ('x', 'y', 'z'):
                fs = [mk_kind(k, 'x'), mk_kind(other, 'y'), Link('l', T.TypeRef['A'], loader, requires=req)]
                for perm in itertools.permutations(fs):
                    construct([Node('A', list(perm))], req != 'z', rec, ['requires', k, other, req])
                    construct([Root(perm), Node('A', [])], req != 'z', rec, ['requires', k, other, req])
                    construct([Node('A', tuple(perm)), Root([])], req != 'z', rec, ['requires', k, other, req])
    else:
        tag = LINK_TYPES[case['i']]
        rec.states += 1
        rec.transitions += 1
        rec.traces += 1
        ok = tag in ('ref', 'opt', 'seq')
        try:
            link = Link('l', link_type(tag), loader, requires=None)
        except TypeError as e:
            if ok:
                raise Violation('a link type is rejected: %s' % e, tag=tag)
            return
        if not ok:
            raise Violation('a link of a wrong type is accepted', tag=tag)
        for name in ('A', 'B'):
            construct([Node(name, []), Root([link])], name == 'A', rec, ['link type', tag, name])
            construct([Root([link]), Node(name, [])], name == 'A', rec, ['link type', tag, name])


BIG = [['root', [['f', 'x'], ['l', 'y', 'A', 'Many', 'x']]], ['node', 'A', [['f', 'x'], ['l', 'y', 'B', 'One', 'x'], ['l', 'z', 'A', 'Maybe', 'x']]],
       ['node', 'B', [['l', 'y', 'C', 'Many', 'x'], ['f', 'x'], ['f', 'w', OPT]]], ['node', 'C', [['f', 'x']]],
       ['root', [['l', 'z', 'C', 'One', 'u'], ['f', 'u']]]]
FAULTS = [['node', 'A', []], ['node', 'D', [['l', 'q', 'E', 'One', None]]], ['node', 'D', [['f', 'x'], ['f', 'x']]], ['root', [['f', 'x']]],
          ['node', 'D', [['l', 'q', 'A', 'One', 'x']]], ['root', [['l', 'q', 'A', 'One', 'q']]], ['bad', 'option'],
          ['root', [['l', 'q', 'A', 'One', 'nope'], ['f', 'p']]], ['node', 'D', [['bad', 'node']]]]
FINE = [['node', 'D', [['l', 'q', 'A', 'One', 'x'], ['f', 'x']]], ['root', [['l', 'q', 'A', 'One', 'u']]], ['root', []], ['node', 'D', []]]


def orders(n, rec):
    """A larger graph with one more item, in every order of its items."""
    extra = (FAULTS[:4], FAULTS[4:], FINE, [None])[n - 1]
    for e in extra:
        items = BIG + ([e] if e else [])
        ok = valid(items)
        seen = 0
        for perm in itertools.permutations(items):
            objs, world = build(list(perm))
            graph = construct(objs, ok, rec, list(perm))
            seen += 1
            if graph is not None and seen % 6 == 1:
                execute(graph, world.spec, world, rec)
        for perm in itertools.permutations(BIG[1][2]):
            items2 = [['node', 'A', list(perm)]] + BIG[:1] + BIG[2:] + ([e] if e else [])
            construct(build(items2)[0], ok, rec, items2)
