"""Small graphs described as JSON, built into real hiku graphs with instrumented loaders, and a boring
recursive evaluator of the same description that knows nothing about hiku.

spec = {
  "root":  {"fields": {...}, "links": {...}},
  "nodes": {"A": {"fields": {name: {"f": loader, "opts": {...}, "type": T, "val": mode}},
                  "links":  {name: {"to": node, "kind": One|Maybe|Many, "req": field|None,
                                    "f": loader, "opts": {...}}}}},
  "edges": {"root.many": [...], "A.one": {id: target}, ...}
}
opts: {name: {"default": v} or {}} ({} = required);  query item: [name, sub|None, alias|None, opts|None]
Field values are tokens naming field, options and object, so any misattribution is visible.
"""
import asyncio
import concurrent.futures
import functools

from . import sched

from hiku import types as T
from hiku.graph import Graph, Root, Node, Field, Link, Option, Nothing
from hiku import query as Q


def canon(v):
    """Type-aware canonical text of an option value."""
    if isinstance(v, dict):
        return '{' + ','.join('%s:%s' % (canon(k), canon(x))
                              for k, x in sorted(v.items(), key=lambda kv: canon(kv[0]))) + '}'
    if isinstance(v, (list, tuple)):
        return '[' + ','.join(canon(x) for x in v) + ']'
    if isinstance(v, str):
        return repr(str(v))
    return repr(v)


def opts_text(opts):
    return '' if not opts else canon(opts)


def mk_type(t):
    if t is None:
        return None
    if isinstance(t, str):
        return {'Int': T.Integer, 'Str': T.String, 'Bool': T.Boolean, 'Float': T.Float,
                'Any': T.Any}[t]
    k = t[0]
    if k == 'opt':
        return T.Optional[mk_type(t[1])]
    if k == 'seq':
        return T.Sequence[mk_type(t[1])]
    if k == 'map':
        return T.Mapping[mk_type(t[1]), mk_type(t[2])]
    if k == 'ref':
        return T.TypeRef[t[1]]
    if k == 'rec':
        return T.Record[{n: mk_type(x) for n, x in t[1].items()}]
    raise ValueError(t)


def link_type(l):
    ref = T.TypeRef[l['to']]
    return {'One': ref, 'Maybe': T.Optional[ref], 'Many': T.Sequence[ref]}[l['kind']]


def mk_options(opts):
    res = []
    for name, o in (opts or {}).items():
        kw = {'default': o['default']} if 'default' in o else {}
        res.append(Option(name, mk_type(o.get('type')), **kw))
    return res or None


def with_root(nodes, items):
    """Items of a graph: a root can be defined in several parts, at any place."""
    parts = 1 if len(items) % 3 == 0 else min(3, len(items))
    n = len(items)
    roots = [Root(items[i * n // parts:(i + 1) * n // parts]) for i in range(parts)]
    return roots[1:2] + nodes + roots[:1] + roots[2:]


def gen_value(t, token, data_types, mode):
    """A value of type t made of tokens; mode picks null/empty/one/two for optionals and sequences."""
    if t is None or t in ('Str', 'Any'):
        return token
    if t == 'Int':
        return sum(map(ord, token)) % 9973
    if t == 'Float':
        return (sum(map(ord, token)) % 9973) + 0.5
    if t == 'Bool':
        return sum(map(ord, token)) % 2 == 0
    k = t[0]
    if k == 'ref':
        return gen_value(data_types[t[1]], token, data_types, mode)
    if k == 'rec':
        return {n: gen_value(x, token + '.' + n, data_types, mode) for n, x in t[1].items()}
    if k == 'opt':
        return None if mode == 0 else gen_value(t[1], token + '?', data_types, mode)
    if k == 'seq':
        return [gen_value(t[1], '%s#%d' % (token, i), data_types, mode) for i in range(mode)]
    if k == 'map':
        return {token + '/k%d' % i: gen_value(t[2], '%s/%d' % (token, i), data_types, mode)
                for i in range(mode)}
    raise ValueError(t)


def mk_query(items, ordered=False):
    fields = []
    for item in items:
        name, sub, alias, opts = (list(item) + [None] * 4)[:4]
        if sub is None:
            fields.append(Q.Field(name, opts, alias))
        else:
            fields.append(Q.Link(name, mk_query(sub), opts, alias))
    return Q.Node(fields, ordered=ordered)


def item4(item):
    return tuple((list(item) + [None] * 4)[:4])


class Call:
    __slots__ = ('n', 'kind', 'func', 'fields', 'ids', 'values', 'options', 'fut', 'failed', 'ended',
                 'ctx')

    def key(self):
        if self.kind == 'field':
            return ('field', self.func, frozenset((f, opts_text(o)) for f, o in self.fields),
                    None if self.ids is None else tuple(self.ids))
        return ('link', self.func, None if self.values is None else tuple(self.values),
                None if self.options is None else canon(self.options))

    def __repr__(self):
        if self.kind == 'field':
            return '%s(%s; %s)' % (self.func, ' '.join(f + opts_text(o) for f, o in self.fields), self.ids)
        return '%s(%s%s)' % (self.func, self.values,
                             '' if self.options is None else '; ' + canon(self.options))


class InjectedFault(Exception):
    pass


#: injected faults which are also errors of a kind that means something to the interpreter or to hiku itself
FAULT_KINDS = {e.__name__: type('Injected' + e.__name__, (InjectedFault, e), {})
               for e in (StopIteration, StopAsyncIteration, KeyError, IndexError, AttributeError, TypeError, ValueError,
                         AssertionError, RuntimeError, TimeoutError, NotImplementedError, RecursionError)}
# a loader may be cancelled by somebody else than the one who waits for the execution
FAULT_KINDS['CancelledError'] = type('InjectedCancelledError', (InjectedFault, asyncio.CancelledError), {})
FAULT_KINDS['futures.CancelledError'] = type('InjectedFuturesCancelledError', (InjectedFault, concurrent.futures.CancelledError), {})


#: what kind of callable the loaders are: chosen for every case by the case itself (see core.run_cases)
STYLES = ('function', 'method', 'partial', 'wraps', 'object')
STYLE = 'function'


class _Source:
    """Its bound methods: a new object at every access, equal to the previous ones."""

    def __init__(self, func):
        self.func = func

    def load(self, *args):
        return self.func(*args)

    def load_ctx(self, ctx, *args):
        return self.func(ctx, *args)
    load_ctx.__pass_context__ = True


class _Loader:
    """Equal to every other loader of the same function; all of them have one hash."""

    def __init__(self, func, pass_context):
        self.func = func
        if pass_context:
            self.__pass_context__ = True

    def __call__(self, *args):
        return self.func(*args)

    def __eq__(self, other):
        return isinstance(other, _Loader) and self.func is other.func

    def __hash__(self):
        return 1


def _call(func, *args):
    return func(*args)


def _common(*args):
    """What all loaders of style `wraps` pretend to be."""
    raise AssertionError('the function under a decorator was called')


def styled(world, func, style=None):
    style = style or STYLE
    ctx = getattr(func, '__pass_context__', False)
    if style == 'method':
        source = world.sources.get(func)
        if source is None:
            source = world.sources[func] = _Source(func)
        return source.load_ctx if ctx else source.load
    if style == 'object':
        return _Loader(func, ctx)
    if style == 'function':
        return func
    made = world.sources.get(func)
    if made is None:
        if style == 'partial':
            made = functools.partial(_call, func)
        else:
            def made(*args):
                return func(*args)
            functools.update_wrapper(made, _common)
        if ctx:
            made.__pass_context__ = True
        world.sources[func] = made
    return made


class World:
    """One instance per execution: loaders log into it."""

    def __init__(self, spec, stamp=False, fault=None, wrap=None, is_async=False, ctx_loaders=()):
        self.spec = spec
        self.calls = []
        self.events = []
        self.stamp = stamp
        self.fault = fault              # callable(call) -> bool
        self.token_id = {}
        self.wrap = wrap                # wraps each loader function
        self.ctx_loaders = set(ctx_loaders)
        self.funcs = {}
        self.sources = {}
        self.data_types_spec = spec.get('data_types') or {}

    # ---- pure functions shared by the loaders and by the reference evaluator ----

    def node_spec(self, node):
        return self.spec['root'] if node is None else self.spec['nodes'][node]

    def field_value(self, fspec, name, opts, id_):
        token = '%s%s(%s)' % (name, opts_text(opts), '' if id_ is None else id_)
        if fspec.get('type') is not None and not isinstance(fspec['type'], str):
            return gen_value(fspec['type'], token, self.data_types_spec, fspec.get('val', 1))
        return token

    def targets(self, node, name, lspec, opts, src):
        key = '%s.%s' % (node or 'root', name)
        edges = self.spec.get('edges', {}).get(key, 'synth')
        if isinstance(edges, dict):
            edges = edges[src]
        if edges == 'synth':
            base = '%s%s<%s>' % (name, opts_text(opts), '' if src is None else src)
            return [base + '1', base + '2'] if lspec['kind'] == 'Many' else base
        return edges

    @staticmethod
    def effective(declared, given):
        if not declared:
            return given
        given = given or {}
        return {k: (given[k] if k in given else o['default']) for k, o in declared.items()}

    # ---- hiku graph ----

    def _record(self, kind, func, fields=None, ids=None, values=None, options=None, ctx=None):
        c = Call()
        c.n, c.kind, c.func, c.fields, c.ids = len(self.calls), kind, func, fields, ids
        c.values, c.options, c.fut, c.failed, c.ctx = values, options, sched.CURRENT, False, ctx
        c.ended = False
        self.calls.append(c)
        self.events.append(('start', c))
        fault = self.fault is not None and self.fault(c)
        if fault:
            c.failed = True
            self.events.append(('fail', c))
            raise (InjectedFault if fault is True else fault)('fault in call %d %r' % (c.n, c))
        return c

    def _end(self, c):
        c.ended = True
        self.events.append(('end', c))

    def field_loader(self, fname):
        return styled(self, self._field_loader(fname))

    def _field_loader(self, fname):
        if fname in self.funcs:
            return self.funcs[fname]
        specs = {}
        for n in [self.spec['root']] + list(self.spec['nodes'].values()):
            for k, f in n.get('fields', {}).items():
                if f['f'] == fname:
                    specs[k] = f

        def load(fields, ids=None, ctx=None):
            c = self._record('field', fname, [(f.name, f.options) for f in fields],
                             None if ids is None else list(ids), ctx=ctx)

            def one(f, id_):
                v = self.field_value(specs[f.name], f.name, f.options, id_)
                if isinstance(v, str):
                    if self.stamp:
                        v = '%s@%d' % (v, c.n)
                    self.token_id[v] = id_
                return v
            if ids is None:
                res = [one(f, None) for f in fields]
            else:
                res = [[one(f, i) for f in fields] for i in ids]
            self._end(c)
            return res
        self.funcs[fname] = self._finish_func(fname, load)
        return self.funcs[fname]

    def _finish_func(self, fname, load):
        if fname in self.ctx_loaders:
            from hiku.engine import pass_context

            def with_ctx(ctx, *args):
                return load(*args, ctx=ctx)
            func = with_ctx
            func.__name__ = fname
            if self.wrap:
                func = self.wrap(func)
            return pass_context(func)
        load.__name__ = fname
        return self.wrap(load) if self.wrap else load

    def link_loader(self, node, name, l):
        return styled(self, self._shared_link_loader(node, name, l))

    def _shared_link_loader(self, node, name, l):
        fname = l.get('f') or '%s.%s' % (node or 'root', name)
        if 'f' in l:        # links that name one loader share it
            key = ('link', fname)
            if key not in self.funcs:
                self.funcs[key] = self._link_loader(node, name, l, fname)
            return self.funcs[key]
        return self._link_loader(node, name, l, fname)

    def _link_loader(self, node, name, l, fname):
        def load(*args, ctx=None):
            args = list(args)
            values = None
            options = None
            if l.get('req') is not None:
                values = args.pop(0)
                c_values = list(values) if node is not None else [values]
            else:
                c_values = None
            if l.get('opts'):
                options = args.pop(0)
            if args:
                raise sched.Violation('link loader %s got unexpected arguments %r' % (fname, args))
            c = self._record('link', fname, values=c_values, options=options, ctx=ctx)

            def res(src):
                t = self.targets(node, name, l, options, src)
                return Nothing if t is None else (list(t) if isinstance(t, list) else t)
            if c_values is None or node is None:
                r = res(None)
            else:
                r = [res(self.token_id[v]) for v in c_values]
            self._end(c)
            return r
        return self._finish_func(fname, load)

    def mk_field(self, name, f):
        return Field(name, mk_type(f.get('type')), self.field_loader(f['f']),
                     options=mk_options(f.get('opts')), description=f.get('doc'))

    def mk_link(self, node, name, l):
        return Link(name, link_type(l), self.link_loader(node, name, l), requires=l.get('req'),
                    options=mk_options(l.get('opts')), description=l.get('doc'))

    def items_of(self, node):
        n = self.node_spec(node)
        items = {}
        for k, f in n.get('fields', {}).items():
            items[k] = self.mk_field(k, f)
        for k, l in n.get('links', {}).items():
            items[k] = self.mk_link(node, k, l)
        return [items[k] for k in n.get('order', list(items))]

    def graph(self):
        items = with_root([Node(n, self.items_of(n)) for n in self.spec['nodes']], self.items_of(None))
        dt = {k: mk_type(t) for k, t in self.data_types_spec.items()}
        return Graph(items, dt)

    # ---- reference ----

    def select(self, t, v, sub):
        """What a selection of a structured value looks like as plain data."""
        if sub is None:
            return v
        if t[0] == 'ref':
            return self.select(self.data_types_spec[t[1]], v, sub)
        if t[0] == 'opt':
            return None if v is None else self.select(t[1], v, sub)
        if t[0] == 'seq':
            return [self.select(t[1], x, sub) for x in v]
        assert t[0] == 'rec', t
        res = {}
        for item in sub:
            name, s, alias, _ = item4(item)
            x = self.select(t[1][name], v[name], s)
            key = alias or name
            res[key] = merge_plain(res[key], x) if key in res else x
        return res

    def evaluate(self, items, node=None, id_=None):
        spec = self.node_spec(node)
        res = {}
        for item in items:
            name, sub, alias, given = item4(item)
            key = alias or name
            if name in spec.get('fields', {}):
                f = spec['fields'][name]
                opts = self.effective(f.get('opts'), given)
                x = self.field_value(f, name, opts, id_)
                if sub is not None:
                    x = self.select(f['type'], x, sub)
            else:
                l = spec['links'][name]
                opts = self.effective(l.get('opts'), given) if l.get('opts') else None
                src = id_ if l.get('req') is not None else None
                t = self.targets(node, name, l, opts, src)
                if t is None:
                    x = None
                elif isinstance(t, list):
                    x = [self.evaluate(sub, l['to'], i) for i in t]
                else:
                    x = self.evaluate(sub, l['to'], t)
            res[key] = merge_plain(res[key], x) if key in res else x
        return res

    def expected_calls(self, items, node=None, ids=None, out=None):
        """Every loader call an unordered execution has to make, as Call.key()s (merged query)."""
        out = [] if out is None else out
        spec = self.node_spec(node)
        by_func = {}
        for item in items:
            name, sub, alias, given = item4(item)
            if name in spec.get('fields', {}):
                f = spec['fields'][name]
                by_func.setdefault(f['f'], set()).add(
                    (name, opts_text(self.effective(f.get('opts'), given))))
            else:
                l = spec['links'][name]
                req = l.get('req')
                opts = self.effective(l.get('opts'), given) if l.get('opts') else None
                fname = l.get('f') or '%s.%s' % (node or 'root', name)
                if req is not None:
                    rf = spec['fields'][req]
                    ro = self.effective(rf.get('opts'), None)
                    by_func.setdefault(rf['f'], set()).add((req, opts_text(ro)))
                    values = tuple(self.field_value(rf, req, ro, i)
                                   for i in (ids if node is not None else [None]))
                    targets = [self.targets(node, name, l, opts, i)
                               for i in (ids if node is not None else [None])]
                else:
                    values = None
                    targets = [self.targets(node, name, l, opts, None)]
                out.append(('link', fname, values, None if opts is None else canon(opts)))
                if l['kind'] == 'Many':
                    to = [x for t in targets for x in t]
                else:
                    to = [t for t in targets if t is not None]
                if to:
                    self.expected_calls(sub, l['to'], to, out)
        for func, fields in by_func.items():
            out.append(('field', func, frozenset(fields), None if node is None else tuple(ids)))
        return out


def merge_plain(a, b):
    """Deep union of two plain selections of the same object."""
    if isinstance(a, dict) and isinstance(b, dict):
        res = dict(a)
        for k, v in b.items():
            res[k] = merge_plain(res[k], v) if k in res else v
        return res
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [merge_plain(x, y) for x, y in zip(a, b)]
    return a


def read_result(proxy, items, spec_world, node=None):
    """Plain data read through the public item access of the result object (no denormalize)."""
    spec = spec_world.node_spec(node)
    res = {}
    for item in items:
        name, sub, alias, _ = item4(item)
        key = alias or name
        v = proxy[key]
        if name in spec.get('fields', {}):
            if sub is not None:
                v = spec_world.select(spec['fields'][name]['type'], v, sub)
        else:
            to = spec['links'][name]['to']
            if isinstance(v, list):
                v = [read_result(x, sub, spec_world, to) for x in v]
            elif v is not None:
                v = read_result(v, sub, spec_world, to)
        res[key] = merge_plain(res[key], v) if key in res else v
    return res
