"""C09: malformed loader results are rejected, well-formed ones accepted."""
import itertools

from hiku import types as T
from hiku.engine import Engine
from hiku.graph import Field, Graph, Link, Node, Nothing, Root
from hiku.query import Field as QField, Link as QLink, Node as QNode
from hiku.result import denormalize
from hiku.sources.graph import SubGraph
from hiku.expr.core import S, each

from .. import sizes
from ..core import Violation
from ..sched import MCExecutor, explore

PROPERTY = 'C09'
TECHNIQUE = ('explicit enumeration of result shapes at every kind of loader, each executed on the real engine under '
             'every completion order, against a shape oracle')
LEVEL_NOTE = ('Every shape up to the size bound (sequences too short/long by one, wrong containers, Nothing in every '
              'position) at root and nested fields and at each kind of link, with one and two objects, in ordered and '
              'unordered selections and in the sub-queries of expression fields. Strings as results and custom '
              'sequence classes are not judged.')
NOTE = {
    'alphabet': 'results None, int, object, Nothing, dict, set, generator of a wrong length, lists and tuples of '
                '0..n+1 entries whose entries are again such shapes',
    'choices': 'completion orders and groupings of all loader calls of the query',
    'oracle': 'accepted iff the shape is the one the place demands; accepted results are read back by position',
}

ATOMS = ['None', 'int', 'obj', 'Nothing', 'dict', 'set', 'gen']


def build(shape, path='v'):
    """shape: atom name, or ['list'|'tuple'|..., entries]; leaf 'v' is a value named by its position."""
    if shape == 'v':
        return path
    if shape == 'None':
        return None
    if shape == 'int':
        return 1
    if shape == 'obj':
        return object()
    if shape == 'Nothing':
        return Nothing
    kind, entries = shape
    vals = [build(e, '%s%d' % (path, i)) for i, e in enumerate(entries)]
    if kind == 'list':
        return vals
    if kind == 'tuple':
        return tuple(vals)
    if kind == 'dict':
        return {i: v for i, v in enumerate(vals)}
    if kind == 'set':
        return {str(v) for v in vals}
    if kind == 'gen':
        return (v for v in vals)
    raise ValueError(shape)


def seqs(entries, n):
    """Sequence-like shapes around n entries of the given alphabet."""
    for m in range(0, n + 2):
        for combo in itertools.product(entries, repeat=m):
            for kind in ('list', 'tuple') if m == n or m == 0 else ('list',):
                yield [kind, list(combo)]
    for kind in ('dict', 'set'):
        yield [kind, ['v'] * n]
    yield ['gen', ['v'] * (n + 1)]
    yield from ('None', 'int', 'obj', 'Nothing')


def is_seq(shape, n=None):
    return isinstance(shape, list) and shape[0] in ('list', 'tuple') and (n is None or len(shape[1]) == n)


KINDS = ('One', 'Maybe', 'Many')


def places(ns):
    for k in (1, 2):
        yield {'at': 'root', 'k': k}
        for n in ns:
            yield {'at': 'node', 'k': k, 'n': n}
            yield {'at': 'sub', 'k': k, 'n': n}
    for kind in KINDS:
        yield {'at': 'rootlink', 'kind': kind, 'req': False}
        yield {'at': 'rootlink', 'kind': kind, 'req': True}
        for n in ns:
            yield {'at': 'nodelink', 'kind': kind, 'req': False, 'n': n}
            yield {'at': 'nodelink', 'kind': kind, 'req': True, 'n': n}
            yield {'at': 'sublink', 'kind': kind, 'req': True, 'n': n}


def shapes(p):
    at = p['at']
    if at == 'root':
        yield from seqs(['v'], p['k'])
    elif at in ('node', 'sub'):
        rows = [['list', ['v'] * m] for m in range(p['k'] + 2)] + [['tuple', ['v'] * p['k']]]
        rows += [['dict', ['v'] * p['k']], ['set', ['v'] * p['k']], 'None', 'int', 'Nothing']
        yield from seqs(rows, p['n'])
    elif p['req'] and at in ('nodelink', 'sublink'):
        if p['kind'] == 'Many':
            rows = [['list', ['v'] * m] for m in range(3)] + [['tuple', ['v']], ['dict', ['v']], ['set', ['v']]]
            rows += ['None', 'int', 'Nothing']
        else:
            rows = ['v', 'Nothing']
        yield from seqs(rows, p['n'])
    else:
        if p['kind'] == 'Many':
            yield from seqs(['v'], 1)
        else:
            yield from ('v', 'Nothing')


def well_formed(p, s):
    at = p['at']
    if at == 'root':
        return is_seq(s, p['k'])
    if at in ('node', 'sub'):
        return is_seq(s, p['n']) and all(is_seq(r, p['k']) for r in s[1])

    def target(x):
        if p['kind'] == 'Many':
            return is_seq(x)
        return x == 'v' or p['kind'] == 'Maybe'
    if p['req'] and at in ('nodelink', 'sublink'):
        return is_seq(s, p['n']) and all(target(x) for x in s[1])
    return target(s)


def judged(p, s):
    """Sequences of any length are fine where any number of targets is; generators may be accepted."""
    if isinstance(s, list) and s[0] == 'gen':
        if p.get('kind') == 'Many' and not (p['req'] and p['at'] in ('nodelink', 'sublink')):
            return False
    return True


def bounds(tier):
    return {'objects': (1, 2) if tier == 'quick' else (1, 2, 3), 'fields': 2, 'menu': 2 if tier == 'quick' else 3}


def large(n):
    """Results for n objects with at most one wrong entry."""
    at = sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n)))
    for place in ('node', 'sub'):
        for k in (1, 2):
            p = {'at': place, 'k': k, 'n': n}
            good = ['list', ['v'] * k]
            for m in (n - 1, n, n + 1, 2 * n):
                yield p, ['list', [good] * m]
            for i in at:
                for wrong in (['list', ['v'] * (k - 1)], ['list', ['v'] * (k + 1)], 'None', ['dict', ['v'] * k]):
                    yield p, ['list', [good] * i + [wrong] + [good] * (n - 1 - i)]
    for kind in KINDS:
        for place in ('nodelink', 'sublink'):
            p = {'at': place, 'kind': kind, 'req': True, 'n': n}
            good = ['list', ['v'] * 2] if kind == 'Many' else 'v'
            for m in (n - 1, n, n + 1, 2 * n):
                yield p, ['list', [good] * m]
            for i in at:
                for wrong in (['Nothing'] if kind != 'Many' else ['None', 'Nothing', ['set', ['v']], ['list', []]]):
                    yield p, ['list', [good] * i + [wrong] + [good] * (n - 1 - i)]
    yield {'at': 'rootlink', 'kind': 'Many', 'req': True}, ['list', ['v'] * n]


#: lists in which objects are repeated
SAME = {2: [[0, 0]], 3: [[0, 0, 1], [0, 1, 0], [1, 0, 0], [0, 0, 0]]}


def cases(tier):
    b = bounds(tier)
    for n in sizes.ladder(tier, 257 if tier == 'quick' else 1025):
        for p, s in large(n):
            yield {'p': p, 's': s, 'ordered': False, 'nested': n % 2 == 1, 'b': 1, 'execs': 2}
            if p['at'] != 'rootlink' and n > 1:
                # every object (or every one but the first) is in the list twice
                yield {'p': p, 's': s, 'ordered': False, 'nested': n % 2 == 0, 'b': 1, 'execs': 1, 'same': [i % ((n + 1) // 2) for i in range(n)]}
    for p in places(b['objects']):
        for s in shapes(p):
            if not judged(p, s):
                continue
            for ordered in ((False, True) if p['at'] in ('root', 'rootlink') else (False,)):
                for seed in (False, True) if p['at'] in ('node', 'nodelink') else (False,):
                    yield {'p': p, 's': s, 'ordered': ordered, 'nested': seed, 'b': b['menu']}
                    for same in SAME.get(p.get('n'), ()) if not seed else ():
                        yield {'p': p, 's': s, 'ordered': ordered, 'nested': seed, 'b': 1, 'same': same}


def fields_loader(result=None):
    def load(fields, ids=None):
        if result is not None:
            return result(fields, ids)
        if ids is None:
            return ['%s' % f.name for f in fields]
        return [['%s(%s)' % (f.name, i) for f in fields] for i in ids]
    return load


def make(case):
    """(graph, query, function giving the expected data for a well-formed shape)"""
    p, shape = case['p'], case['s']
    at = p['at']
    n = p.get('n', 1)
    ids = ['a%d' % i for i in case.get('same', range(n))]

    def bad(*_):
        return build(shape)

    b = Node('B', [Field('v', None, fields_loader())])
    a_load = fields_loader(bad if at in ('node', 'sub') else None)
    a_items = [Field('x', None, a_load), Field('y', None, a_load), Field('z', None, fields_loader())]
    kinds = {'One': T.TypeRef['B'], 'Maybe': T.Optional[T.TypeRef['B']], 'Many': T.Sequence[T.TypeRef['B']]}
    if at in ('nodelink', 'sublink'):
        a_items.append(Link('l', kinds[p['kind']], bad, requires='z' if p['req'] else None))
    a = Node('A', a_items)
    r_load = fields_loader(bad if at == 'root' else None)
    r_items = [Field('p', None, r_load), Field('q', None, r_load), Field('o', None, fields_loader()),
               Link('as', T.Sequence[T.TypeRef['A']], lambda: list(ids), requires=None),
               Link('ms', T.Optional[T.TypeRef['M']], lambda: 'm', requires=None)]
    m = Node('M', [Field('t', None, fields_loader()),
                   Link('as', T.Sequence[T.TypeRef['A']], lambda ts: [list(ids) for _ in ts], requires='t')])
    if at == 'rootlink':
        r_items.append(Link('l', kinds[p['kind']], bad, requires='o' if p['req'] else None))
    if at == 'node':
        sel = [QField('z')] + [QField(x) for x in 'xy'[:p['k']]]
    else:
        sel = [QField('z')]
    if at == 'nodelink':
        sel.append(QLink('l', QNode([QField('v')])))

    graph = Graph([a, b, m, Root(r_items)])
    if at in ('sub', 'sublink'):
        # the same low-level graph below expression fields; its root links are not used
        sub = SubGraph(graph, 'A')
        if at == 'sub':
            exprs = [Field(x, None, sub.c(getattr(S.this, x))) for x in 'xy'[:p['k']]]
        elif p['kind'] == 'Many':
            exprs = [Field('e', None, sub.c(each(S.i, S.this.l, S.i.v)))]
        else:
            from hiku.expr.core import if_some
            exprs = [Field('e', None, sub.c(S.this.l.v) if p['kind'] == 'One'
                           else sub.c(if_some([S.i, S.this.l], S.i.v, '-')))]
        graph = Graph([Node('H', exprs), Root([Field('o', None, fields_loader()),
                                              Link('hs', T.Sequence[T.TypeRef['H']], lambda: list(ids),
                                                   requires=None)])])
        sel = [QField(e.name) for e in exprs]
        top = [QField('o'), QLink('hs', QNode(sel))]
    elif at == 'root':
        top = [QField(x) for x in 'pq'[:p['k']]] + [QField('o'), QLink('as', QNode(sel))]
    elif at == 'rootlink':
        top = [QField('p'), QLink('l', QNode([QField('v')])), QLink('as', QNode(sel))]
    elif case['nested']:
        top = [QField('o'), QLink('ms', QNode([QLink('as', QNode(sel))]))]
    else:
        top = [QField('o'), QLink('as', QNode(sel))]
    return graph, QNode(top, ordered=case['ordered']), ids


def expected(case, ids):
    p, s = case['p'], case['s']
    at = p['at']

    def obj(x):
        return None if x is Nothing else {'v': 'v(%s)' % x}

    def target(x):
        return [obj(t) for t in x] if p['kind'] == 'Many' else obj(x)
    if at in ('sub', 'sublink'):
        val = build(s)
        if at == 'sub':
            hs = [{x: val[i][j] for j, x in enumerate('xy'[:p['k']])} for i in range(len(ids))]
        elif p['kind'] == 'Many':
            hs = [{'e': ['v(%s)' % t for t in val[i]]} for i in range(len(ids))]
        else:
            hs = [{'e': '-' if val[i] is Nothing else 'v(%s)' % val[i]} for i in range(len(ids))]
        return {'o': 'o', 'hs': hs}
    rows = [{'z': 'z(%s)' % i} for i in ids]
    val = build(s)
    if at == 'root':
        return dict({x: val[j] for j, x in enumerate('pq'[:p['k']])}, o='o', **{'as': rows})
    if at == 'rootlink':
        return {'p': 'p', 'l': target(val), 'as': rows}
    if at == 'node':
        for i, r in enumerate(rows):
            r.update({x: val[i][j] for j, x in enumerate('xy'[:p['k']])})
    if at == 'nodelink':
        for i, r in enumerate(rows):
            r['l'] = target(val[i] if p['req'] else val)
    return {'o': 'o', 'ms': {'as': rows}} if case['nested'] else {'o': 'o', 'as': rows}


def run(case, rec):
    ok = well_formed(case['p'], case['s'])

    def one(ch):
        graph, query, ids = make(case)
        try:
            res = Engine(MCExecutor(ch, max_full=case['b'])).execute(graph, query)
        except Violation:
            raise
        except Exception as e:
            if ok:
                raise Violation('a well-formed result was rejected: %s: %s' % (type(e).__name__, e))
            rec.outcome(type(e).__name__)
            return 'rejected'
        got = denormalize(graph, res) if ok else res
        if not ok:
            raise Violation('a malformed loader result was accepted', shape=repr(case['s']))
        if 'same' in case:
            # entries of one object may be different here: which of them counts is not judged
            rec.outcome(got)
            return repr(got)
        want = expected(case, ids)
        if got != want:
            raise Violation('values went to wrong places', got=got, expected=want)
        rec.outcome(got)
        return repr(got)
    rec.count('well_formed' if ok else 'malformed')
    explore(one, rec, max_execs=case.get('execs'))
