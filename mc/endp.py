"""Endpoints over a small query graph and mutation graph, with instrumented loaders and a reference evaluator."""
from .aio import Env
from .core import Violation
from .sched import Chooser, MCExecutor
from .world import World, item4, merge_plain

from hiku.endpoint.graphql import (AsyncBatchGraphQLEndpoint, AsyncGraphQLEndpoint, BatchGraphQLEndpoint, GraphQLEndpoint)
from hiku.engine import Engine
from hiku.executors.asyncio import AsyncIOExecutor

D = ['rec', {'p': 'Str', 'e': ['ref', 'E'], 'l': ['seq', ['ref', 'E']], 'o': ['ref', 'OE'],
             'i': ['rec', {'q': 'Str', 'e': ['ref', 'E']}]}]
E_ = ['rec', {'u': 'Str', 'w': ['opt', ['ref', 'AE']]}]
# data types that are names for other types
ALIASES = {'AE': ['ref', 'E'], 'OE': ['opt', ['ref', 'E']], 'ES': ['seq', ['ref', 'AE']], 'AES': ['ref', 'ES']}
NODES = {
    'A': {'fields': {'x': {'f': 'A1'}, 'd': {'f': 'A1', 'type': ['ref', 'D']}},
          'links': {'b': {'to': 'B', 'kind': 'One', 'req': 'x'}, 'up': {'to': 'A', 'kind': 'Maybe', 'req': 'x'},
                    'bs': {'to': 'B', 'kind': 'Many', 'req': 'x'}}},
    'B': {'fields': {'v': {'f': 'B1'}}, 'links': {'a': {'to': 'A', 'kind': 'One', 'req': 'v'}}},
}
NODE_EDGES = {'A.b': {'a1': 'b1', 'a2': 'b2', 'a3': 'b1'}, 'A.up': {'a1': 'a2', 'a2': None, 'a3': 'a1'},
              'A.bs': {'a1': ['b1', 'b2'], 'a2': [], 'a3': ['b2', 'b2']}, 'B.a': {'b1': 'a1', 'b2': 'a3'}}
QUERY = {
    'data_types': {'D': D, 'E': E_, **ALIASES},
    'root': {'fields': {'f': {'f': 'R1'}, 'g': {'f': 'R2', 'opts': {'i': {'default': 1, 'type': 'Int'}}},
                        'rec': {'f': 'R1', 'type': ['ref', 'D']}, 'eo': {'f': 'R2', 'type': ['opt', ['ref', 'E']]},
                        'el': {'f': 'R2', 'type': ['ref', 'AES']},
                        'inl': {'f': 'R1', 'type': ['rec', {'q': 'Str', 'e': ['ref', 'E']}]}},
             'links': {'one': {'to': 'A', 'kind': 'One'}, 'mb': {'to': 'A', 'kind': 'Maybe', 'req': 'f'},
                       'many': {'to': 'A', 'kind': 'Many', 'opts': {'n': {'default': None, 'type': ['opt', 'Int']}}}}},
    'nodes': NODES,
    'edges': dict(NODE_EDGES, **{'root.one': 'a1', 'root.mb': {None: 'a2'}, 'root.many': ['a2', 'a1', 'a2']}),
}
MUTATION = {
    'data_types': {'D': D, 'E': E_, **ALIASES},
    'root': {'fields': {'set': {'f': 'M1', 'opts': {'i': {'type': 'Int'}, 's': {'type': 'Str', 'default': 'd'}}},
                        'done': {'f': 'M2', 'type': ['ref', 'AE']}},
             'links': {'made': {'to': 'A', 'kind': 'One'}, 'lst': {'to': 'A', 'kind': 'Many'}}},
    'nodes': NODES,
    'edges': dict(NODE_EDGES, **{'root.made': 'a3', 'root.lst': ['a1', 'a3']}),
}


class Executor:
    """Delegates to the executor of the current execution."""
    current = None

    def submit(self, fn, *args, **kwargs):
        return self.current.submit(fn, *args, **kwargs)

    def process(self, queue, workflow):
        return self.current.process(queue, workflow)


class EWorld(World):
    """Sequences have `mode` entries, optionals are null for mode 0 or when nested deep."""
    mode = 2

    def field_value(self, fspec, name, opts, id_):
        token = '%s%s(%s)' % (name, '' if not opts else sorted(opts.items(), key=str), '' if id_ is None else id_)
        t = fspec.get('type')
        return token if t is None else make(t, token, self.mode, 3)


def make(t, token, mode, depth):
    if isinstance(t, str):
        return token
    k = t[0]
    if k == 'ref':
        return make(QUERY['data_types'][t[1]], token, mode, depth)
    if k == 'rec':
        return {n: make(x, token + '.' + n, mode, depth) for n, x in t[1].items()}
    if k == 'opt':
        if mode == 0 or depth == 0 or token.endswith('#1'):
            return None
        return make(t[1], token + '?', mode, depth - 1)
    if k == 'seq':
        return [make(t[1], '%s#%d' % (token, i), mode, depth - 1) for i in range(mode)]
    raise ValueError(t)


class Service:
    """Query and mutation graphs behind an endpoint, synchronous or not."""

    def __init__(self, is_async, batch=False, mutation=True):
        self.is_async = is_async
        self.env = None
        self.executor = Executor()
        wrap = self._wrap if is_async else None
        self.q = EWorld(QUERY, wrap=wrap)
        self.m = EWorld(MUTATION, wrap=wrap)
        cls = {(0, 0): GraphQLEndpoint, (0, 1): BatchGraphQLEndpoint, (1, 0): AsyncGraphQLEndpoint,
               (1, 1): AsyncBatchGraphQLEndpoint}[int(is_async), int(batch)]
        args = (self.q.graph(),) + ((self.m.graph(),) if mutation else ())
        self.endpoint = cls(Engine(self.executor), *args)

    def _wrap(self, func):
        async def loader(*args):
            await self.env.gate(func.__name__)
            return func(*args)
        loader.__name__ = func.__name__
        return loader

    def reset(self, mode=2):
        for w in (self.q, self.m):
            w.calls, w.events, w.token_id = [], [], {}
            w.mode = mode

    def dispatch(self, request, ch=None, mode=2, max_full=2):
        self.reset(mode)
        ch = ch or Chooser()
        if not self.is_async:
            self.executor.current = MCExecutor(ch, max_full=max_full)
            return self.endpoint.dispatch(request)
        self.env = Env(ch, max_full=max_full)
        self.executor.current = AsyncIOExecutor(self.env.loop)
        try:
            status, value = self.env.run(self.endpoint.dispatch(request))
            if status != 'ok':
                raise value
            return value
        finally:
            self.env.close()


def check_response(res):
    """A response is data or a non-empty list of errors."""
    if not isinstance(res, dict):
        raise Violation('response is not an object', got=res)
    if set(res) == {'data'} and isinstance(res['data'], dict):
        return True
    if set(res) == {'errors'} and isinstance(res['errors'], list) and res['errors'] and \
            all(isinstance(e, dict) and isinstance(e.get('message'), str) and e['message'] for e in res['errors']):
        return False
    raise Violation('response has neither data nor errors', got=res)


def resolve(t):
    while t[0] == 'ref' and t[1] in ALIASES:
        t = ALIASES[t[1]]
    return t


def type_name(t):
    t = resolve(t)
    while t[0] in ('opt', 'seq'):
        t = resolve(t[1])
    return t[1] if t[0] == 'ref' else 'Any'


def select(world, t, v, sub):
    if sub is None or v is None:
        return v
    t = resolve(t)
    if t[0] == 'opt':
        return select(world, t[1], v, sub)
    if t[0] == 'seq':
        return [select(world, t[1], x, sub) for x in v]
    name = type_name(t)
    rec = world.data_types_spec[t[1]] if t[0] == 'ref' else t
    res = {}
    for it in sub:
        n, s, alias, _ = item4(it)
        x = name if n == '__typename' else select(world, rec[1][n], v[n], s)
        put(res, alias or n, x)
    return res


def put(res, key, x):
    res[key] = merge_plain(res[key], x) if key in res else x


def evaluate(world, items, root_name, node=None, id_=None):
    spec = world.node_spec(node)
    res = {}
    for it in items:
        name, sub, alias, given = item4(it)
        if name == '__typename':
            x = node or root_name
        elif name in spec['fields']:
            f = spec['fields'][name]
            x = select(world, f.get('type'), world.field_value(f, name, world.effective(f.get('opts'), given), id_), sub)
        else:
            l = spec['links'][name]
            opts = world.effective(l.get('opts'), given) if l.get('opts') else None
            t = world.targets(node, name, l, opts, id_ if l.get('req') else None)
            if t is None:
                x = None
            elif isinstance(t, list):
                x = [evaluate(world, sub, root_name, l['to'], i) for i in t]
            else:
                x = evaluate(world, sub, root_name, l['to'], t)
        put(res, alias or name, x)
    return res


def strip(items):
    res = []
    for it in items:
        name, sub, alias, opts = item4(it)
        if name != '__typename':
            res.append([name, None if sub is None else strip(sub), alias, opts])
    return res
