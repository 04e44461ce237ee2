"""Expressions over a low-level graph: description, independent typing, evaluation and usage analysis.

An expression is JSON:
  ["sym", name]  ["get", e, name]  ["list", e...]  ["dict", {k: e}]  ["const", v]
  ["if", test, a, b]  ["if_some", var, e, then, else]  ["each", var, col, body]  ["fn", name, e...]
"""
import functools
import json

from .core import Violation
from .world import World, canon, mk_options, mk_type, opts_text, with_root

from hiku.expr.core import S, define, each, if_, if_some
from hiku.graph import Field, Graph, Link, Node, Root
from hiku.sources.graph import SubGraph
from hiku import types as T

E_ = ['rec', {'u': 'Str', 'w': ['opt', ['ref', 'E']]}]
D_ = ['rec', {'p': 'Str', 's': ['rec', {'t': 'Str'}], 'l': ['seq', ['ref', 'E']], 'eo': ['opt', ['ref', 'E']],
              'n': ['seq', 'Str'], 'os': ['opt', 'Str']}]
Q_ = ['rec', {'e': ['ref', 'AE'], 'o': ['ref', 'OE'], 'l': ['ref', 'ES'], 'lo': ['seq', ['ref', 'OE']], 's': ['ref', 'AS']}]
LOW = {
    # data types that are other names of types
    'data_types': {'D': D_, 'E': E_, 'AE': ['ref', 'E'], 'OE': ['opt', ['ref', 'AE']], 'ES': ['seq', ['ref', 'AE']], 'AS': 'Str',
                   'AES': ['ref', 'ES'], 'ME': ['map', 'Str', ['ref', 'AE']], 'Q': Q_, 'AQ': ['ref', 'Q']},
    'root': {'fields': {'g': {'f': 'R'}, 'h': {'f': 'R', 'opts': {'i': {'default': 1}}},
                        'rd': {'f': 'R2', 'type': ['ref', 'D']}, 'ro': {'f': 'R2', 'type': ['opt', ['ref', 'D']]},
                        'rl': {'f': 'R', 'type': ['seq', ['ref', 'E']]}, 'rs': {'f': 'R', 'type': ['seq', 'Str']},
                        'aq': {'f': 'R2', 'type': ['ref', 'AQ']}},
             'links': {'one': {'to': 'B', 'kind': 'One'}, 'mb': {'to': 'B', 'kind': 'Maybe', 'req': 'g'},
                       'many': {'to': 'B', 'kind': 'Many'}}},
    'nodes': {
        'N': {'fields': {'v': {'f': 'N'}, 'w': {'f': 'N2'}, 'z': {'f': 'N', 'opts': {'i': {'default': 7}}},
                         'd': {'f': 'N', 'type': ['ref', 'D']}, 'od': {'f': 'N2', 'type': ['opt', ['ref', 'D']]},
                         'el': {'f': 'N2', 'type': ['seq', ['ref', 'E']]}, 'os': {'f': 'N', 'type': ['opt', 'Str']},
                         'ns': {'f': 'N', 'type': ['seq', 'Str']},
                         'oel': {'f': 'N2', 'type': ['opt', ['seq', ['ref', 'E']]]},
                         'loe': {'f': 'N', 'type': ['seq', ['opt', ['ref', 'E']]]},
                         'ms': {'f': 'N', 'type': ['map', 'Str', 'Str']}, 'me': {'f': 'N2', 'type': ['map', 'Str', ['ref', 'E']]},
                         'sm': {'f': 'N2', 'type': ['seq', ['map', 'Str', 'Int']]},
                         'aq': {'f': 'N', 'type': ['ref', 'AQ']}, 'aes': {'f': 'N2', 'type': ['ref', 'AES']},
                         'aoe': {'f': 'N', 'type': ['ref', 'OE']}, 'ame': {'f': 'N', 'type': ['ref', 'ME']}},
              'links': {'b': {'to': 'B', 'kind': 'One', 'req': 'v'}, 'mb': {'to': 'B', 'kind': 'Maybe', 'req': 'z'},
                        'bs': {'to': 'B', 'kind': 'Many', 'req': 'w'}, 'up': {'to': 'N', 'kind': 'Maybe', 'req': 'v'}}},
        'B': {'fields': {'x': {'f': 'B'}, 'y': {'f': 'B2'}, 'd': {'f': 'B2', 'type': ['ref', 'D']},
                         'os': {'f': 'B', 'type': ['opt', 'Str']}},
              'links': {'n': {'to': 'N', 'kind': 'Maybe', 'req': 'x'}, 'bb': {'to': 'B', 'kind': 'Many', 'req': 'x'}}},
    },
}
IDS = ['n1', 'n2', 'n3']
BIDS = ['b1', 'b2', 'b3']
EDGES = {
    'dense': {'root.one': {None: 'b1'}, 'root.mb': {None: 'b2'}, 'root.many': {None: ['b1', 'b2', 'b1']},
              'N.b': {'n1': 'b1', 'n2': 'b2', 'n3': 'b1'}, 'N.mb': {'n1': 'b2', 'n2': 'b2', 'n3': 'b3'},
              'N.bs': {'n1': ['b1', 'b2'], 'n2': ['b3'], 'n3': ['b2', 'b2']},
              'N.up': {'n1': 'n2', 'n2': 'n3', 'n3': 'n1'},
              'B.n': {'b1': 'n1', 'b2': 'n3', 'b3': 'n1'}, 'B.bb': {'b1': ['b2', 'b3'], 'b2': ['b1'], 'b3': ['b3', 'b1']}},
    'sparse': {'root.one': {None: 'b3'}, 'root.mb': {None: None}, 'root.many': {None: []},
               'N.b': {'n1': 'b3', 'n2': 'b3', 'n3': 'b2'}, 'N.mb': {'n1': None, 'n2': 'b1', 'n3': None},
               'N.bs': {'n1': [], 'n2': ['b1', 'b3'], 'n3': []}, 'N.up': {'n1': None, 'n2': None, 'n3': 'n2'},
               'B.n': {'b1': None, 'b2': 'n2', 'b3': None}, 'B.bb': {'b1': [], 'b2': ['b3'], 'b3': []}},
    'none': {'root.one': {None: 'b2'}, 'root.mb': {None: None}, 'root.many': {None: []},
             'N.b': {'n1': 'b2', 'n2': 'b1', 'n3': 'b3'}, 'N.mb': {'n1': None, 'n2': None, 'n3': None},
             'N.bs': {'n1': [], 'n2': [], 'n3': []}, 'N.up': {'n1': None, 'n2': None, 'n3': None},
             'B.n': {'b1': None, 'b2': None, 'b3': None}, 'B.bb': {'b1': [], 'b2': [], 'b3': []}},
}
#: (edges, number of entries of sequences and presence of optionals in values)
DATA = [('dense', 2), ('sparse', 1), ('none', 0), ('dense', 0), ('sparse', 2)]


def text(v):
    """Text of a plain value."""
    return canon(v)


# ---- functions available in expressions: argument types, body ----

def _f_opt(b):
    return 'none' if b is None else 'opt<%s>' % b['x']


FUNCS = {
    'bx': ([['rec', {'x': 'Any'}]], lambda b: 'bx<%s>' % b['x']),
    'vb': ([['rec', {'v': 'Any', 'b': ['rec', {'x': 'Any', 'y': 'Any'}]}]],
           lambda n: 'vb<%s %s %s>' % (n['v'], n['b']['x'], n['b']['y'])),
    'bo': ([['opt', ['rec', {'x': 'Any'}]]], _f_opt),
    'by': ([['seq', ['rec', {'y': 'Any'}]]], lambda bs: 'by<%s>' % ','.join(b['y'] for b in bs)),
    'two': ([['rec', {'w': 'Any'}], ['rec', {'y': 'Any'}]], lambda n, b: 'two<%s %s>' % (n['w'], b['y'])),
    'any': (['Any'], lambda v: 'any<%s>' % text(v)),
    'xa': ([['rec', {'x': 'Any'}], 'Any'], lambda b, v: 'xa<%s %s>' % (b['x'], text(v))),
    'dd': ([['rec', {'s': ['rec', {'t': 'Any'}], 'l': ['seq', ['rec', {'u': 'Any'}]]}]],
           lambda d: 'dd<%s %s>' % (d['s']['t'], ','.join(e['u'] for e in d['l']))),
    'nn': ([['rec', {'mb': ['opt', ['rec', {'x': 'Any'}]], 'bs': ['seq', ['rec', {'y': 'Any', 'd': ['rec', {'p': 'Any'}]}]]}]],
           lambda n: 'nn<%s %s>' % ('none' if n['mb'] is None else n['mb']['x'],
                                    ','.join('%s/%s' % (b['y'], b['d']['p']) for b in n['bs']))),
    'ee': ([['seq', ['rec', {'u': 'Any', 'w': ['opt', ['rec', {'u': 'Any'}]]}]]],
           lambda es: 'ee<%s>' % ','.join('%s/%s' % (e['u'], '-' if e['w'] is None else e['w']['u']) for e in es)),
    'oe': ([['opt', ['seq', ['rec', {'u': 'Any'}]]]],
           lambda es: 'oe<%s>' % ('none' if es is None else ','.join(e['u'] for e in es))),
    'nil': ([], lambda: 'nil'),
    'ma': ([['map', 'Str', 'Any']], lambda m: 'ma<%s>' % ' '.join(sorted(m))),
    'me': ([['map', 'Str', ['rec', {'u': 'Any'}]]], lambda m: 'me<%s>' % ' '.join(sorted('%s=%s' % (k, e['u']) for k, e in m.items()))),
    'st': (['Str'], lambda v: 'st<%s>' % text(v)),
    'zz': ([['rec', {'z': 'Any', 'b': ['rec', {'n': ['opt', ['rec', {'v': 'Any'}]]}]}]],
           lambda n: 'zz<%s %s>' % (n['z'], '-' if n['b']['n'] is None else n['b']['n']['v'])),
    'ba': ([['rec', {'d': 'Any', 'x': 'Any'}]], lambda b: 'ba<%s %s>' % (b['x'], b['d']['p'])),
}
#: functions that fit fewer things
FUNCS2 = {
    'lk': ([['rec', {'b': 'Any', 'v': 'Any'}]], lambda n: 'lk<%s>' % n['v']),
    'l2': ([['rec', {'bs': 'Any', 'mb': 'Any', 'el': 'Any'}]], lambda n: 'l2<%d %s %d>' % (len(n['bs']), n['mb'] is None, len(n['el']))),
    'mr': ([['rec', {'mb': ['rec', {'x': 'Any'}]}]], lambda n: 'mr<%s>' % n['mb']['x']),
    'oa': ([['opt', 'Any']], lambda v: 'oa<%s>' % (v is None)),
    'sa': ([['seq', 'Any']], lambda v: 'sa<%d>' % len(v)),
    'du': ([['rec', {'eo': ['rec', {'u': 'Any'}]}]], lambda d: 'du<%s>' % d['eo']['u']),
    'mt': ([['map', 'Any', 'Str']], lambda m: 'mt<%s>' % ' '.join(sorted(m.values()))),
    'mi': ([['opt', ['map', 'Str', 'Int']]], lambda m: 'mi<%s>' % (None if m is None else sorted(m.values()))),
    'mw': ([['map', 'Str', ['rec', {'w': ['rec', {'u': 'Any'}]}]]], lambda m: 'mw<%s>' % [e['w']['u'] for e in m.values()]),
    'mk': ([['map', 'Int', 'Any']], lambda m: 'mk<%s>' % [k + 1 for k in m]),
    'sq': ([['seq', ['map', 'Str', 'Any']], 'Any'], lambda ms, v: 'sq<%s>' % [sorted(m) for m in ms]),
    'in': (['Int'], lambda v: 'in<%d>' % (v + 1)),
    'vx': ([['rec', {'v': 'Any', 'x': 'Any'}]], lambda n: 'vx<%s %s>' % (n['v'], n['x'])),
    'yz': ([['rec', {'y': 'Any', 'z': 'Any'}]], lambda n: 'yz<%s %s>' % (n['y'], n['z'])),
    'vb2': ([['rec', {'v': 'Any', 'b': ['rec', {'x': 'Any', 'v': 'Any'}]}]], lambda n: 'vb2<%s %s>' % (n['b']['x'], n['b']['v'])),
    'pu': ([['seq', ['rec', {'u': 'Any', 'p': 'Any'}]], 'Any'], lambda es, v: 'pu<%s>' % [e['p'] for e in es]),
    'os': ([['seq', ['opt', ['rec', {'u': 'Any'}]]]], lambda es: 'os<%s>' % ','.join('-' if e is None else e['u'] for e in es)),
}
#: the same thing declared by a query text
TEXT_FUNCS = {
    'tv': ('[[:v {:b [:x]}] nil]', [['rec', {'v': 'Any', 'b': ['rec', {'x': 'Any'}]}], 'Any'],
           lambda n, v: 'tv<%s %s %s>' % (n['v'], n['b']['x'], text(v))),
}
HIKU_FUNCS = {}


def hiku_funcs():
    if not HIKU_FUNCS:
        for name, (types, fn) in FUNCS.items():
            HIKU_FUNCS[name] = define(*[mk_type(t) for t in types])(fn)
        for name, (types, fn) in FUNCS2.items():
            HIKU_FUNCS[name] = define(*[mk_type(t) for t in types])(fn)
        for name, (src, types, fn) in TEXT_FUNCS.items():
            HIKU_FUNCS[name] = define(src)(fn)
    return HIKU_FUNCS


# ---- functions of any types: "@" and JSON of the list of types ----

def touch(v, t):
    """Reads everything that the type declares."""
    if t == 'Any':
        return v if v is None or isinstance(v, (str, int)) else '*'
    if isinstance(t, str):
        return v
    if t[0] == 'opt':
        return None if v is None else ['?', touch(v, t[1])]
    if t[0] == 'seq':
        return [touch(x, t[1]) for x in v]
    if t[0] == 'map':
        return {k: touch(x, t[2]) for k, x in v.items()}
    return {n: touch(v[n], x) for n, x in t[1].items()}


@functools.lru_cache(200)
def made(name):
    types = json.loads(name[1:])

    def fn(*values):
        return '@<%s>' % ' '.join(text(touch(v, t)) for v, t in zip(values, types))
    return types, fn


@functools.lru_cache(200)
def made_hiku(name):
    types, fn = made(name)
    return define(*[mk_type(t) for t in types])(fn)


def fn_of(*types):
    return '@' + json.dumps(types, separators=(',', ':'))


def variants(t, depth, wide=True):
    """Types that a function may declare for an argument of type t, fitting or with one fault somewhere."""
    yield 'Any'
    m = members(t)
    if m is not None:
        if depth == 0:
            yield ['rec', {}]
            yield ['rec', {'qq': 'Any'}]
            return
        for n, x in m.items():
            for s in variants(x, depth - 1, wide):
                yield ['rec', {n: s}]
        names = list(m)
        yield ['rec', {names[0]: 'Any', 'qq': 'Any'}]
        yield ['rec', {n: 'Any' for n in names}]
        yield ['rec', dict({n: 'Any' for n in names}, qq='Any')]
        if wide:
            structures = [n for n in names if structured(m[n])]
            for a, b in zip(structures, structures[1:]):
                for x, y in zip(variants(m[a], min(depth - 1, 1), False), variants(m[b], min(depth - 1, 1), False)):
                    yield ['rec', {a: x, b: y}]
            yield ['seq', 'Any']
            yield ['opt', ['rec', {names[0]: 'Any'}]]
            yield ['map', 'Str', 'Any']
            yield 'Str'
    elif isinstance(t, str):
        yield {'Any': 'Str'}.get(t, t)
        yield {'Int': 'Str', 'Any': 'Int', 'Str': 'Int'}[t]
        if wide:
            yield ['opt', t]
            yield ['rec', {'u': 'Any'}]
            yield ['seq', 'Any']
    elif t[0] == 'map':
        for s in variants(t[2], depth, False):
            for k in ('Str', 'Int', 'Any') if wide else ('Str',):
                yield ['map', k, s]
        yield ['rec', {'u': 'Any'}]
    else:
        for s in variants(t[1], depth, wide):
            if s[0] != 'opt':
                yield [t[0], s]
        for s in variants(t[1], 0 if depth == 0 else 1, False):
            if s != 'Any' and s[0] not in ('opt', 'seq'):
                yield s
                yield [{'opt': 'seq', 'seq': 'opt'}[t[0]], s]


def fn_types(name):
    if name[0] == '@':
        return made(name)[0]
    return (TEXT_FUNCS.get(name) or ((),) + (FUNCS.get(name) or FUNCS2[name]))[1]


def fn_body(name):
    if name[0] == '@':
        return made(name)[1]
    return (TEXT_FUNCS.get(name) or FUNCS.get(name) or FUNCS2[name])[-1]


def to_hiku(e, shared=None):
    """The expression made with the library.  shared: a dict in which everything is made once - equal parts, variables and
    symbols are then the same objects, as when a user keeps S.x in a variable and uses it everywhere."""
    if shared is None:
        return _to_hiku(e, to_hiku, lambda n: getattr(S, n))

    def make_(x):
        key = repr(x)
        if key not in shared:
            shared[key] = _to_hiku(x, make_, lambda n: make_(['sym', n]))
        return shared[key]
    return make_(e)


def _to_hiku(e, rec, sym):
    k = e[0]
    if k == 'sym':
        return getattr(S, e[1])
    if k == 'get':
        return getattr(rec(e[1]), e[2])
    if k == 'list':
        return [rec(x) for x in e[1:]]
    if k == 'dict':
        return {n: rec(x) for n, x in e[1].items()}
    if k == 'const':
        return e[1]
    if k == 'if':
        return if_(*[rec(x) for x in e[1:]])
    if k == 'if_some':
        return if_some([sym(e[1]), rec(e[2])], rec(e[3]), rec(e[4]))
    if k == 'each':
        return each(sym(e[1]), rec(e[2]), rec(e[3]))
    if k == 'fn':
        return (made_hiku(e[1]) if e[1][0] == '@' else hiku_funcs()[e[1]])(*[rec(x) for x in e[2:]])
    raise ValueError(e)


def size(e):
    if e[0] == 'dict':
        return 1 + sum(size(x) for x in e[1].values())
    return 1 + sum(size(x) for x in e[1:] if isinstance(x, list))


def subexprs(e):
    yield e
    xs = e[1].values() if e[0] == 'dict' else [x for x in e[1:] if isinstance(x, list)]
    for x in xs:
        if x and isinstance(x[0], str):
            for y in subexprs(x):
                yield y


# ---- types and usage ----

class Bad(Exception):
    """The expression is ill-typed: it has to be rejected."""


class Unjudged(Exception):
    """Neither acceptance nor rejection is claimed."""


def plain_names(t):
    """The type without other names of types: only records are referred to."""
    if not isinstance(t, list):
        return t
    if t[0] == 'ref':
        d = LOW['data_types'][t[1]]
        return t if isinstance(d, list) and d[0] == 'rec' else plain_names(d)
    if t[0] == 'rec':
        return ['rec', {n: plain_names(x) for n, x in t[1].items()}]
    return [t[0]] + [plain_names(x) for x in t[1:]]


def node_members(node):
    spec = LOW['root'] if node is None else LOW['nodes'][node]
    res = {}
    for name, f in spec['fields'].items():
        res[name] = plain_names(f.get('type') or 'Any')
    for name, l in spec['links'].items():
        ref = ['node', l['to']]
        res[name] = {'One': ref, 'Maybe': ['opt', ref], 'Many': ['seq', ref]}[l['kind']]
    return res


ROOT_MEMBERS = node_members(None)
NODE_MEMBERS = {n: node_members(n) for n in LOW['nodes']}
RECORDS = {n: plain_names(t)[1] for n, t in LOW['data_types'].items() if isinstance(t, list) and t[0] == 'rec'}


def members(t):
    """Members of a structure, None for anything else."""
    if isinstance(t, list):
        if t[0] == 'node':
            return NODE_MEMBERS[t[1]]
        if t[0] == 'ref':
            return RECORDS[t[1]]
        if t[0] == 'rec':
            return t[1]
    return None


def structured(t):
    while isinstance(t, list) and t[0] in ('opt', 'seq'):
        t = t[1]
    return members(t) is not None


class Typed:
    __slots__ = ('type', 'place')

    def __init__(self, type_, place=None):
        self.type = type_       # None: a value whose type is not known (result of a function, ...)
        self.place = place      # usage dict of the structure behind it


class Typer:
    def __init__(self, options=None):
        self.options = options or {}
        self.this = {}
        self.root = {}

    def scope(self):
        s = {'this': Typed(['node', 'N'], self.this)}
        for name, o in self.options.items():
            s[name] = Typed(o.get('type') or 'Any')
        return s

    def use(self, place, name, t):
        if structured(t):
            return Typed(t, None if place is None else place.setdefault(name, {}))
        if place is not None:
            place[name] = None
        return Typed(t)

    def visit(self, e, scope):
        k = e[0]
        if k == 'const':
            return Typed(None)
        if k == 'sym':
            if e[1] in scope:
                return scope[e[1]]
            if e[1] in ROOT_MEMBERS:
                return self.use(self.root, e[1], ROOT_MEMBERS[e[1]])
            raise Bad('unknown name %s' % e[1])
        if k == 'get':
            o = self.visit(e[1], scope)
            if o.type is None:
                raise Unjudged
            m = members(o.type)
            if m is None or e[2] not in m:
                raise Bad('no field %s in %s' % (e[2], o.type))
            return self.use(o.place, e[2], m[e[2]])
        if k in ('list', 'dict'):
            for x in (e[1:] if k == 'list' else e[1].values()):
                self.visit(x, scope)
            return Typed(None)
        if k == 'if':
            if len(e) != 4:
                raise Bad('arguments of if')
            for x in e[1:]:
                self.visit(x, scope)
            return Typed(None)
        if k == 'if_some':
            o = self.visit(e[2], scope)
            if o.type is None:
                raise Unjudged
            t = o.type[1] if isinstance(o.type, list) and o.type[0] == 'opt' else o.type
            self.visit(e[3], dict(scope, **{e[1]: Typed(t, o.place)}))
            self.visit(e[4], scope)
            return Typed(None)
        if k == 'each':
            o = self.visit(e[2], scope)
            if o.type is None:
                raise Unjudged
            if not (isinstance(o.type, list) and o.type[0] == 'seq'):
                raise Bad('each over %s' % (o.type,))
            self.visit(e[3], dict(scope, **{e[1]: Typed(o.type[1], o.place)}))
            return Typed(None)
        if k == 'fn':
            types = fn_types(e[1])
            args = [self.visit(x, scope) for x in e[2:]]
            if len(types) != len(args):
                raise Bad('number of arguments of %s' % e[1])
            for a, t in zip(args, types):
                self.fit(a.type, t)
                if a.place is not None:
                    self.open(a.place, a.type, t)
            return Typed(None)
        raise ValueError(e)

    def fit(self, a, t):
        """Is the type a fine where a function wants t?"""
        if t == 'Any':
            return
        if t[0] == 'opt':
            return self.fit(a[1] if isinstance(a, list) and a[0] == 'opt' else a, t[1])
        if a is None or a == 'Any':
            raise Unjudged
        if isinstance(t, str):
            if a != t:
                raise Bad('%s is not %s' % (a, t))
            return
        if t[0] == 'map':
            if not (isinstance(a, list) and a[0] == 'map'):
                raise Bad('not a mapping')
            self.fit(a[1], t[1])
            return self.fit(a[2], t[2])
        if t[0] == 'seq':
            if not (isinstance(a, list) and a[0] == 'seq'):
                raise Bad('not a sequence')
            return self.fit(a[1], t[1])
        m = members(a)
        if m is None:
            raise Bad('not a structure')
        for name, ft in t[1].items():
            if name not in m:
                raise Bad('no required field %s' % name)
            self.fit(m[name], ft)

    def open(self, place, a, t):
        """Everything the function declared that it uses of this argument."""
        while isinstance(t, list) and t[0] in ('opt', 'seq'):
            t = t[1]
        while isinstance(a, list) and a[0] in ('opt', 'seq'):
            a = a[1]
        if isinstance(t, list) and t[0] == 'rec':
            for name, ft in t[1].items():
                x = self.use(place, name, members(a)[name])
                if x.place is not None:
                    self.open(x.place, x.type, ft)


def plain(t):
    """Is a value of this type data that may be the value of a field?"""
    return t is None or not structured(t)


def check(e, options=None):
    """('ok', typer) | ('bad', why) | ('unjudged', None)"""
    typer = Typer(options)
    try:
        res = typer.visit(e, typer.scope())
    except Bad as b:
        return 'bad', str(b)
    except Unjudged:
        return 'unjudged', None
    return 'ok', (typer, res)


def items_of(usage):
    return [[n, None if s is None else items_of(s)] for n, s in usage.items()]


# ---- values ----

class Obj:
    """An object of the low-level graph, read by whoever asks."""
    __slots__ = ('world', 'node', 'id')

    def __init__(self, world, node, id_):
        self.world, self.node, self.id = world, node, id_

    def __getitem__(self, name):
        w = self.world
        spec = w.node_spec(self.node)
        if name in spec['fields']:
            f = spec['fields'][name]
            return w.field_value(f, name, w.effective(f.get('opts'), None), self.id)
        l = spec['links'][name]
        t = w.targets(self.node, name, l, None, self.id)
        if t is None:
            return None
        if isinstance(t, list):
            return [Obj(w, l['to'], i) for i in t]
        return Obj(w, l['to'], t)


def evaluate(e, scope, root):
    k = e[0]
    if k == 'const':
        return e[1]
    if k == 'sym':
        return scope[e[1]] if e[1] in scope else root[e[1]]
    if k == 'get':
        return evaluate(e[1], scope, root)[e[2]]
    if k == 'list':
        return [evaluate(x, scope, root) for x in e[1:]]
    if k == 'dict':
        return {n: evaluate(x, scope, root) for n, x in e[1].items()}
    if k == 'if':
        return evaluate(e[2] if evaluate(e[1], scope, root) else e[3], scope, root)
    if k == 'if_some':
        v = evaluate(e[2], scope, root)
        if v is None:
            return evaluate(e[4], scope, root)
        return evaluate(e[3], dict(scope, **{e[1]: v}), root)
    if k == 'each':
        return [evaluate(e[3], dict(scope, **{e[1]: v}), root) for v in evaluate(e[2], scope, root)]
    if k == 'fn':
        return fn_body(e[1])(*[evaluate(x, scope, root) for x in e[2:]])
    raise ValueError(e)


def make(t, token, mode, depth):
    """A value of type t: sequences have `mode` entries, optionals are null for mode 0, when nested too
    deep, and in every second entry of a sequence."""
    if t == 'Int':
        return len(token)
    if isinstance(t, str):
        return token
    k = t[0]
    if k == 'map':
        return {'k%d' % i: make(t[2], '%s#%d' % (token, i), mode, depth - 1) for i in range(mode)}
    if k == 'ref':
        return make(LOW['data_types'][t[1]], token, mode, depth)
    if k == 'rec':
        return {n: make(x, token + '.' + n, mode, depth) for n, x in t[1].items()}
    if k == 'opt':
        if mode == 0 or depth == 0 or token.endswith('#1'):
            return None
        return make(t[1], token + '?', mode, depth - 1)
    if k == 'seq':
        return [make(t[1], '%s#%d' % (token, i), mode, depth - 1) for i in range(mode)]
    raise ValueError(t)


class Low:
    """The low-level graph with its data, and high-level graphs over it."""

    def __init__(self):
        self.world = World(dict(LOW, edges={}))
        self.graph = self.world.graph()
        self.set_data(DATA[0])

    def set_data(self, data):
        edges, mode = data
        w = self.world
        w.calls, w.events, w.token_id = [], [], {}
        w.spec['edges'] = EDGES[edges]
        self.mode = mode
        w.field_value = self.field_value

    def field_value(self, fspec, name, opts, id_):
        token = '%s%s(%s)' % (name, opts_text(opts), '' if id_ is None else id_)
        t = fspec.get('type')
        return token if t is None else make(t, token, self.mode, 3)

    def root(self):
        return Obj(self.world, None, None)

    def high(self, exprs, links, shared=None, second=None):
        """exprs: {name: {"e": expr, "opts": ...}}; links: {name: ids or one id}

        second: fields of another node over the same sub-graph, which the link 'second' leads to.
        """
        sub = SubGraph(self.graph, 'N')

        def fields_of(exprs):
            fields = []
            for name, x in exprs.items():
                src = sub if x.get('e') is None else sub.c(to_hiku(x['e'], shared))
                fields.append(Field(name, None, src, options=mk_options(x.get('opts'))))
            return fields
        fields = fields_of(exprs)
        others = [] if second is None else [Node('H2', fields_of(second))]
        root = []
        for name, ids in links.items():
            ref = T.TypeRef['H2' if name == 'second' else 'H']
            root.append(Link(name, T.Sequence[ref] if isinstance(ids, list) else ref,
                             (lambda ids: lambda: ids)(ids), requires=None))
        return Graph(with_root([Node('H', fields)] + others, root))

    def value(self, x, id_, given=None):
        """The value of an expression field for one object."""
        e = x.get('e') or ['get', ['sym', 'this'], x['name']]
        scope = {'this': Obj(self.world, 'N', id_)}
        for name, v in (World.effective(x.get('opts'), given) or {}).items():
            scope[name] = v
        return evaluate(e, scope, self.root())

    def calls(self, typers, ids):
        """Low-level loader calls that the expressions need for these objects."""
        if not ids:
            return []
        this, root = {}, {}
        for t in typers:
            union(this, t.this)
            union(root, t.root)
        return (self.world.expected_calls(items_of(root)) +
                self.world.expected_calls(items_of(this), 'N', ids))


def union(a, b):
    for name, sub in b.items():
        if sub is None:
            a.setdefault(name, None)
        else:
            union(a.setdefault(name, {}), sub)


def call_text(key):
    return repr([sorted(x) if isinstance(x, frozenset) else x for x in key])


def compare_calls(got, want, what):
    extra, missing = [call_text(c.key()) for c in got], []
    for w in map(call_text, want):
        if w in extra:
            extra.remove(w)
        else:
            missing.append(w)
    if extra or missing:
        raise Violation('%s: low-level loader calls differ from what the expressions use' % what,
                        unexpected=sorted(extra), missing=sorted(missing))


# ---- big expressions ----

BIG = {'list': 129, 'dict': 129, 'nested lists': 33, 'nested dicts': 33, 'if': 33, 'else': 33, 'test': 33, 'calls': 9, 'arguments': 9, 'variables': 33,
       'shadowed': 33, 'each': 6, 'constants': 129, 'many each': 33}


def big_exprs(shape, n, hole):
    """Expressions of which one dimension is n, with `hole` at different places."""
    t = ['sym', 'this']

    def get(e, *names):
        for x in names:
            e = ['get', e, x]
        return e
    few = [get(t, 'v'), get(t, 'b', 'x'), get(t, 'd', 's', 't'), ['sym', 'h'], ['fn', 'vb', t], ['fn', 'bo', get(t, 'mb')], get(t, 'ns'), ['const', 5],
           ['each', 'x', get(t, 'el'), get(['sym', 'x'], 'u')], ['if_some', 'x', get(t, 'up'), get(['sym', 'x'], 'w'), get(t, 'z')]]
    spots = sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n)))
    if shape in ('list', 'dict'):
        items = [few[i % len(few)] for i in range(n)]
        for i in spots:
            xs = items[:i] + [hole] + items[i + 1:]
            yield ['list'] + xs if shape == 'list' else ['dict', {'k%d' % j: x for j, x in enumerate(xs)}]
    elif shape == 'constants':
        yield ['list', hole, ['const', 's' * n], ['const', n], ['const', 10 ** n], ['fn', 'any', ['const', 'x"' * n]]] + [['const', i] for i in range(n)]
    elif shape == 'many each':
        for i in spots:
            yield ['list'] + [['each', 'x%d' % j, get(t, 'bs'), ['list', hole if i == j else get(t, 'v'), get(['sym', 'x%d' % j], 'y')]] for j in range(n)]
    elif shape in ('variables', 'shadowed', 'each'):
        for at in {0, n // 2, n}:
            def build(i, prev, node):
                if i == n:
                    last = get(['sym', prev], 'v' if node == 'N' else 'y')
                    return ['list', last, hole] if at >= n else last
                col = {'N': ('mb', 'B'), 'B': ('n', 'N')}[node] if shape != 'each' else {'N': ('bs', 'B'), 'B': ('bb', 'B')}[node]
                var = 'x' if shape == 'shadowed' else 'x%d' % i
                body = build(i + 1, var, col[1])
                if at == i:
                    body = ['list', hole, body]
                if shape == 'each':
                    return ['each', var, get(['sym', prev], col[0]), body]
                return ['if_some', var, get(['sym', prev], col[0]), body, few[i % len(few)]]
            yield build(0, 'this', 'N')
    else:
        e = hole
        for i in range(n):
            a = few[i % len(few)]
            e = {'nested lists': ['list', a, e] if i % 2 else ['list', e], 'nested dicts': ['dict', {'k': e, 'j': a}], 'if': ['if', get(t, 'os'), e, a],
                 'else': ['if', get(t, 'up'), a, e], 'test': ['if', e, a, ['const', i]], 'calls': ['fn', 'any', e],
                 'arguments': ['fn', ['xa', 'tv'][i % 2], [get(t, 'b'), t][i % 2], e]}[shape]
        yield e
