"""Three graphs on top of each other: low (A, B), middle (M, expressions over A) and top (T, expressions over
M), with ordinary fields and links beside the expression fields on every level.  Links may require an
expression field.  The reference evaluates the same description recursively."""
from hiku import types as HT
from hiku.engine import Engine
from hiku.expr.core import S, define, each, if_some
from hiku.graph import Field, Graph, Link, Node, Root
from hiku.query import merge
from hiku.result import denormalize
from hiku.sources.graph import SubGraph

from .core import Violation
from .sched import MCExecutor
from .world import World, canon, item4, merge_plain, mk_options, mk_query, opts_text, with_root

SPEC = {
    'root': {'fields': {'tr': {'f': 'T0'}},
             'links': {'many': {'to': 'T', 'kind': 'Many'},
                       'one': {'to': 'T', 'kind': 'One'},
                       'mb': {'to': 'T', 'kind': 'Maybe', 'req': 'tr'}}},
    'nodes': {
        '$low': {'fields': {'k': {'f': 'L0'}}, 'links': {'ra': {'to': 'A', 'kind': 'Maybe'}}},
        '$mid': {'fields': {'mk': {'f': 'M0'}}, 'links': {}},
        'A': {'fields': {'x': {'f': 'A1'}, 'y': {'f': 'A2'}, 'z': {'f': 'A1'}},
              'links': {'bs': {'to': 'B', 'kind': 'Many', 'req': 'y'}, 'mb': {'to': 'B', 'kind': 'Maybe', 'req': 'x'}}},
        'B': {'fields': {'v': {'f': 'B1'}}, 'links': {}},
        'M': {'fields': {'mo': {'f': 'M1'}},
              'links': {'nx': {'to': 'M', 'kind': 'Maybe', 'req': 'mo'},
                        'ns': {'to': 'M', 'kind': 'Many', 'req': 'm1'}}},
        'T': {'fields': {'t4': {'f': 'T1'}},
              'links': {'up': {'to': 'T', 'kind': 'Many', 'req': 't1'},
                        'un': {'to': 'T', 'kind': 'Maybe', 'req': 't4'}}},
    },
}
EDGES = {
    'dense': {'root.many': ['a2', 'a1'], 'root.one': 'a1', 'root.mb': 'a3', '$low.ra': 'a2',
              'A.bs': {'a1': ['b2', 'b1'], 'a2': [], 'a3': ['b1']}, 'A.mb': {'a1': 'b1', 'a2': None, 'a3': 'b2'},
              'M.nx': {'a1': 'a2', 'a2': None, 'a3': 'a1'}, 'M.ns': {'a1': ['a3', 'a1'], 'a2': ['a2'], 'a3': []},
              'T.up': {'a1': ['a1', 'a2'], 'a2': [], 'a3': ['a3']}, 'T.un': {'a1': None, 'a2': 'a3', 'a3': 'a1'}},
    'sparse': {'root.many': ['a1', 'a1'], 'root.one': 'a2', 'root.mb': None, '$low.ra': None,
               'A.bs': {'a1': [], 'a2': ['b1', 'b1'], 'a3': []}, 'A.mb': {'a1': None, 'a2': 'b2', 'a3': None},
               'M.nx': {'a1': None, 'a2': 'a1', 'a3': None}, 'M.ns': {'a1': [], 'a2': ['a1'], 'a3': []},
               'T.up': {'a1': [], 'a2': ['a1'], 'a3': []}, 'T.un': {'a1': 'a2', 'a2': None, 'a3': None}},
    'empty': {'root.many': [], 'root.one': 'a3', 'root.mb': 'a1', '$low.ra': 'a1',
              'A.bs': {'a1': ['b1'], 'a2': ['b2'], 'a3': ['b2', 'b1']}, 'A.mb': {'a1': 'b2', 'a2': 'b2', 'a3': 'b2'},
              'M.nx': {'a1': 'a1', 'a2': 'a2', 'a3': 'a3'}, 'M.ns': {'a1': ['a2', 'a3'], 'a2': [], 'a3': ['a1']},
              'T.up': {'a1': ['a3'], 'a2': ['a1'], 'a3': ['a2', 'a1']}, 'T.un': {'a1': 'a2', 'a2': 'a3', 'a3': 'a1'}},
}
IDS = ['a1', 'a2', 'a3']
LOWER = {'M': 'A', 'T': 'M'}
LOWER_ROOT = {'M': '$low', 'T': '$mid'}
ROOTS = (None, '$low', '$mid')


def _pack(*xs):
    return '<%s>' % ' '.join(map(str, xs))


@define(HT.Any, HT.Any)
def pack(a, b):
    return _pack(a, b)


def _list(x):
    return '[%s]' % ' '.join(x)


@define(HT.Any)
def text(xs):
    return _list(xs)


# name: (hiku expression, used of this, used of the root, value, options)
EXPR = {
    'M': {
        'm1': (lambda: S.this.x, [['x', None]], [], lambda t, r, o: t.x, None),
        'm2': (lambda: text(each(S.b, S.this.bs, S.b.v)), [['bs', [['v', None]]]], [],
               lambda t, r, o: _list(b.v for b in t.bs), None),
        'm3': (lambda: pack(S.this.y, S.k), [['y', None]], [['k', None]], lambda t, r, o: _pack(t.y, r.k), None),
        'm4': (lambda: pack(if_some([S.a, S.ra], S.a.z, S.o), S.this.x), [['x', None]],
               [['ra', [['z', None]]]],
               lambda t, r, o: _pack(o['o'] if r.ra is None else r.ra.z, t.x), {'o': {'default': 7}}),
        'm5': (lambda: if_some([S.b, S.this.mb], S.b.v, S.this.y),
               [['mb', [['v', None]]], ['y', None]], [],
               lambda t, r, o: t.y if t.mb is None else t.mb.v, None),
    },
    'T': {
        't1': (lambda: S.this.m1, [['m1', None]], [], lambda t, r, o: t.m1, None),
        't2': (lambda: pack(S.this.m2, S.this.mo), [['m2', None], ['mo', None]], [],
               lambda t, r, o: _pack(t.m2, t.mo), None),
        't3': (lambda: if_some([S.n, S.this.nx], S.n.m1, S.mk), [['nx', [['m1', None]]]], [['mk', None]],
               lambda t, r, o: r.mk if t.nx is None else t.nx.m1, None),
        't5': (lambda: pack(text(each(S.n, S.this.ns, S.n.m5)), S.p), [['ns', [['m5', None]]]], [],
               lambda t, r, o: _pack(_list(n.m5 for n in t.ns), o['p']), {'p': {'default': 1}}),
        't6': (lambda: pack(S.this.m3, S.this.m4), [['m3', None], ['m4', None]], [],
               lambda t, r, o: _pack(t.m3, t.m4), None),
    },
}

class Obj:
    def __init__(self, tower, node, id_):
        self._t, self._node, self._id = tower, node, id_

    def __getattr__(self, name):
        t = self._t
        spec = t.world.node_spec(self._node)
        if name in spec['links']:
            l = spec['links'][name]
            to = t.world.targets(self._node, name, l, None, self._id)
            if to is None:
                return None
            if isinstance(to, list):
                return [Obj(t, l['to'], i) for i in to]
            return Obj(t, l['to'], to)
        return t.value(self._node, name, self._id, None)


class Tower:
    def __init__(self, edges, **kw):
        self.world = World(dict(SPEC, edges=EDGES[edges]), **kw)
        for node in ('M', 'T'):
            for l in SPEC['nodes'][node]['links'].values():
                if l['req'] in EXPR[node]:
                    for i in IDS:
                        self.world.token_id[self.value(node, l['req'], i, None)] = i

    def is_expr(self, node, name):
        return name in EXPR.get(node, ())

    def value(self, node, name, id_, given):
        w = self.world
        if self.is_expr(node, name):
            _, _, _, fn, opts = EXPR[node][name]
            return fn(Obj(self, LOWER[node], id_), Obj(self, LOWER_ROOT[node], None), w.effective(opts, given))
        f = w.node_spec(node)['fields'][name]
        return w.field_value(f, name, w.effective(f.get('opts'), given), id_)

    def graph(self):
        w = self.world
        low = Graph(with_root([Node('A', w.items_of('A')), Node('B', w.items_of('B'))], w.items_of('$low')))
        sa = SubGraph(low, 'A')
        mid = Graph(with_root([Node('M', self.exprs('M', sa) + w.items_of('M'))], w.items_of('$mid')))
        sm = SubGraph(mid, 'M')
        return Graph(with_root([Node('T', self.exprs('T', sm) + w.items_of('T'))], w.items_of(None)))

    def exprs(self, node, sub):
        return [Field(name, None, sub.c(x[0]()), options=mk_options(x[4])) for name, x in EXPR[node].items()]

    def evaluate(self, items, node=None, id_=None):
        w, res = self.world, {}
        spec = w.node_spec(node)
        for item in items:
            name, sub, alias, given = item4(item)
            if sub is None:
                x = self.value(node, name, id_, given)
            else:
                l = spec['links'][name]
                to = w.targets(node, name, l, None, id_ if l.get('req') else None)
                if to is None:
                    x = None
                elif isinstance(to, list):
                    x = [self.evaluate(sub, l['to'], i) for i in to]
                else:
                    x = self.evaluate(sub, l['to'], to)
            key = alias or name
            res[key] = merge_plain(res[key], x) if key in res else x
        return res

    def calls(self, items, node=None, ids=None, out=None):
        out = [] if out is None else out
        w = self.world
        spec = w.node_spec(node)
        by_func, exprs = {}, []

        def field(name, given):
            if self.is_expr(node, name):
                exprs.append(name)
            else:
                f = spec['fields'][name]
                by_func.setdefault(f['f'], set()).add((name, opts_text(w.effective(f.get('opts'), given))))
        for item in items:
            name, sub, _, given = item4(item)
            if sub is None:
                field(name, given)
                continue
            l = spec['links'][name]
            srcs = [None] if node in ROOTS else ids
            values = None
            if l.get('req'):
                field(l['req'], None)
                values = tuple(self.value(node, l['req'], i, None) for i in srcs)
            else:
                srcs = [None]
            targets = [w.targets(node, name, l, None, i) for i in srcs]
            out.append(('link', '%s.%s' % (node or 'root', name), values, None))
            if l['kind'] == 'Many':
                to = [x for t in targets for x in t]
            else:
                to = [t for t in targets if t is not None]
            if to:
                self.calls(sub, l['to'], to, out)
        for func, fields in by_func.items():
            out.append(('field', func, frozenset(fields), None if node in ROOTS else tuple(ids)))
        if exprs:
            this, root = [], []
            for name in exprs:
                this += EXPR[node][name][1]
                root += EXPR[node][name][2]
            self.calls(union(this), LOWER[node], ids, out)
            self.calls(union(root), LOWER_ROOT[node], None, out)
        return out


def union(items):
    res = {}
    for name, sub in items:
        if sub is None:
            res[name] = None
        else:
            res[name] = (res.get(name) or []) + sub
    return [[n, None if s is None else union(s)] for n, s in res.items()]


class TowerRun:
    """One execution of the items under one schedule."""

    def __init__(self, edges, items, ch, eager=True, max_full=3, ordered=False, query=None, **kw):
        self.tower = Tower(edges, **kw)
        self.world = self.tower.world
        self.graph = self.tower.graph()
        self.query = query or merge([mk_query(items, ordered=ordered)])
        self.ex = MCExecutor(ch, eager=eager, groups=True, max_full=max_full, on_event=self._event)
        self.engine = Engine(self.ex)

    def _event(self, kind, fut):
        self.world.events.append((kind, fut))

    def execute(self):
        return denormalize(self.graph, self.engine.execute(self.graph, self.query, None))

    def ok(self):
        res = self.execute()
        left = [f.seq for f in self.ex.submitted if not f.reported]
        if left:
            raise Violation('execution returned while loader calls %r were still outstanding' % left)
        return res


FIELDS = ['t1', 't2', 't3', 't4', 't5', 't6']


def selections(tier):
    """Selections of T: every set of up to n items (fields and the links up, un with small selections)."""
    import itertools
    n = 2 if tier == 'quick' else 3
    pool = [[f, None] for f in FIELDS] + [
        ['t5', None, 'p2', {'p': 2}], ['up', [['t1', None]]], ['up', [['t3', None], ['t4', None]]],
        ['un', [['t2', None]]], ['un', [['up', [['t6', None]]]]]]
    for k in range(1, n + 1):
        for c in itertools.combinations(pool, k):
            names = [i[2] if len(i) > 2 else i[0] for i in c]
            if len(set(names)) == len(names):
                yield [list(i) for i in c]


def tower_cases(tier):
    for sel in selections(tier):
        for edges in EDGES:
            yield {'tower': edges, 'items': [['many', sel]]}
        yield {'tower': 'dense', 'items': [['one', sel], ['mb', [['t1', None]]]]}
        yield {'tower': 'dense', 'items': [['many', [['up', sel], ['t4', None]]]]}
