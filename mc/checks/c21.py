"""C21: fields of a two-level graph equal direct evaluation of their expressions and load only what they use."""
import itertools

from hiku.engine import Engine
from hiku.query import merge
from hiku.result import denormalize

from .. import sizes
from ..core import Violation
from ..exprs import (BIG, DATA, FUNCS, LOW, NODE_MEMBERS, ROOT_MEMBERS, TEXT_FUNCS, Bad, Low, Typer, Unjudged, big_exprs, check,
                     compare_calls, fn_of, fn_types, members, plain, subexprs, variants)
from ..family import backwards
from ..sched import Chooser, MCExecutor, explore
from ..world import mk_query

PROPERTY = 'C21'
TECHNIQUE = ('explicit enumeration of well-typed expressions and of sets of expression fields; each high-level graph is '
             'executed on the real engine for every data variant and explored completion order')
LEVEL_NOTE = ('All well-typed expressions up to the nesting depth and path length over the alphabet (first table), alone '
              'and - for a core set - in every pair and triple, with options and aliases and at two places of the query. '
              'Completion orders are explored for one data variant per expression and two per pair, deviation-bounded.')
NOTE = {
    'alphabet': 'low-level scalars, fields with options, records, optionals, sequences and their nestings, One/Maybe/Many '
                'links with required fields, the same at the root; variables (also shadowing this, root fields, options '
                'and internal names), 16 functions, if / if_some / each, lists, dicts, constants',
    'oracle': 'direct recursive evaluation over the low-level data; multiset of low-level loader calls from an '
              'independent usage analysis',
}
T = ['sym', 'this']
CORE_MEMBERS = {'N': ['v', 'z', 'd', 'od', 'el', 'ns', 'oel', 'loe', 'ms', 'me', 'sm', 'aq', 'aoe', 'b', 'mb', 'bs'], 'B': ['x', 'y', 'd', 'os', 'n', 'bb'],
                None: ['g', 'h', 'ro', 'rl', 'one', 'mb', 'many']}


def members_of(t, full):
    m = members(t)
    if m is not None and not full and t[0] == 'node':
        return {n: m[n] for n in CORE_MEMBERS[t[1]]}
    return m


def paths(scope, n, full):
    """Every symbol followed by up to n accesses, with its type. scope: {name: type} or {name: None} when opaque."""
    level = [(['sym', name], t) for name, t in scope.items()]
    level += [(['sym', name], t) for name, t in ROOT_MEMBERS.items()
              if name not in scope and (full or name in CORE_MEMBERS[None])]
    for i in range(n + 1):
        for p in level:
            yield p
        if i < n:
            level = [(['get', e, name], ft) for e, t in level if t is not None and members(t) is not None
                     for name, ft in members_of(t, full).items()]


def is_seq(t):
    return isinstance(t, list) and t[0] == 'seq'


def is_opt(t):
    return isinstance(t, list) and t[0] == 'opt'


def fits(t, want):
    try:
        Typer().fit(t, want)
        return True
    except (Bad, Unjudged):
        return False


def data(scope, depth, n, full, names, inner_n=1):
    """Expressions whose value is plain data."""
    ps = list(paths(scope, n, full))
    for e, t in ps:
        if plain(t):
            yield e
    if depth == 0:
        return
    short = ps if n < 2 else list(paths(scope, 1, full)) if depth > 1 else ps
    inner = names[1:] or names
    for e, t in short:
        if is_seq(t):
            for var in names[0]:
                for body in data(dict(scope, **{var: t[1]}), depth - 1, inner_n, full and depth == 1, inner):
                    yield ['each', var, e, body]
        if is_opt(t):
            for var in names[0]:
                for then in data(dict(scope, **{var: t[1]}), depth - 1, inner_n, full and depth == 1, inner):
                    yield ['if_some', var, e, then, ['const', None]]
                # the variable is not available in the else expression
                yield ['if_some', var, e, ['const', 1], ['get', T, 'v'] if var != 'this' else ['sym', 'g']]
    if depth == 1:
        for e, t in short:
            yield ['if', e, ['get', T, 'v'] if scope.get('this') == ['node', 'N'] else ['const', 0], ['sym', 'h']]
        for name in list(FUNCS) + list(TEXT_FUNCS):
            args = [[e for e, t in short if (plain(t) if want == 'Any' else fits(t, want))] for want in fn_types(name)]
            if len(args) > 1:
                args = [a[:4 if n < 2 else 8] for a in args]
            for combo in itertools.product(*args):
                yield ['fn', name] + list(combo)


def singles(tier):
    scope = {'this': ['node', 'N']}
    deep = tier != 'quick'
    for e in data(scope, 0, 4 if deep else 3, True, [('x',)]):
        yield e
    for e in data(scope, 1, 3 if deep else 2, True, [('x',)], 2 if deep else 1):
        if e[0] not in ('sym', 'get'):
            yield e
    for var in ('this', 'g', 'ctx', 'env', 'next', 'None', 'if', 'v'):
        for e in data(scope, 1, 1, True, [(var,)]):
            if e[0] in ('each', 'if_some'):
                yield e
    for e in data(scope, 2, 2 if deep else 1, deep, [('x',), ('x', 'k')]):
        if e[0] not in ('sym', 'get'):
            yield e
    if deep:
        # three levels: iteration in iteration in iteration, over this object's and the root's members
        for e in three_levels():
            yield e
    for e in computed_arguments():
        yield e
    for e in declared(3 if deep else 2):
        yield e
    for a, b in itertools.product(CORE, CORE):
        yield ['list', a, ['dict', {'k': b, 'c': ['const', 0.5]}]]


def declared(depth):
    """Calls of functions that declare each of the types that an argument has."""
    scope = {'this': ['node', 'N']}
    for e, t in paths(scope, 1, True):
        if plain(t) and t != 'Any' and not isinstance(t, list):
            continue
        level = depth if e == T else depth - 1
        fine = [v for v in variants(t, level) if v != 'Any' and fits(t, v)]
        for i, v in enumerate(fine):
            yield ['fn', fn_of(v), e]
            yield ['fn', fn_of(v, fine[(i * 7 + 3) % len(fine)]), e, e]
        if is_seq(t) or is_opt(t):
            for v in variants(t[1], level):
                if v != 'Any' and fits(t[1], v):
                    call = ['fn', fn_of(v), ['sym', 'x']]
                    yield ['each', 'x', e, call] if is_seq(t) else ['if_some', 'x', e, call, ['const', 0]]


def computed_arguments():
    """Calls with arguments that are not paths."""
    values = [['const', v] for v in (0, 1, True, None, '', 'text', 0.5)] + [['list'], ['dict', {}]] + CORE + [
        ['if', g(T, 'mb'), g(T, 'v'), g(T, 'b', 'x')], ['list', g(T, 'v'), ['list', ['const', 1], ['sym', 'h']]],
        ['dict', {'a': g(T, 'b', 'y'), 'b': ['dict', {'c': g(T, 'w')}]}], ['fn', 'any', ['fn', 'any', g(T, 'z')]],
        ['each', 'x', g(T, 'bs'), ['fn', 'xa', X, ['fn', 'any', g(X, 'y')]]],
        ['if_some', 'x', g(T, 'mb'), ['fn', 'xa', X, ['list', g(X, 'y'), g(T, 'v')]], ['fn', 'any', g(T, 'w')]],
    ]
    for v in values:
        yield ['fn', 'any', v]
        yield ['fn', 'tv', T, v]
        for b in (g(T, 'b'), ['sym', 'one']):
            yield ['fn', 'xa', b, v]
        yield ['fn', 'sq', g(T, 'sm'), v]
        yield ['each', 'x', g(T, 'bs'), ['fn', 'xa', X, v]]
        yield ['list', ['fn', 'any', v], v]


def three_levels():
    scope = {'this': ['node', 'N']}
    links = {'N': ['bs', 'mb', 'oel', 'el', 'd'], 'B': ['n', 'bb', 'd']}

    def build(scope, depth, last):
        # last: the name bound most recently; the value is read from it, from this and from the root
        t = scope[last]
        if depth == 0:
            for e, et in paths({last: t}, 1, True):
                if plain(et) and e[0] == 'get':
                    yield e
            if is_seq(t) or is_opt(t):
                return
            yield ['list', g(T, 'v'), ['sym', 'h']]
            return
        for e, et in paths({last: t}, 1, True):
            if e[0] == 'get' and t[0] == 'node' and e[2] not in links[t[1]]:
                continue
            for var in ('x', 'k'):
                if is_seq(et):
                    for body in build(dict(scope, **{var: et[1]}), depth - 1, var):
                        yield ['each', var, e, body]
                elif is_opt(et):
                    for body in build(dict(scope, **{var: et[1]}), depth - 1, var):
                        yield ['if_some', var, e, body, ['const', 0]]
    return build(scope, 3, 'this')


def g(e, *ns):
    for n in ns:
        e = ['get', e, n]
    return e


X = ['sym', 'x']
CORE = [
    g(T, 'v'), g(T, 'b', 'x'), g(T, 'd', 's', 't'), ['sym', 'h'], ['fn', 'vb', T], ['fn', 'bo', g(T, 'mb')],
    ['each', 'x', g(T, 'bs'), g(X, 'y')], ['each', 'x', g(T, 'el'), g(X, 'u')], ['if_some', 'x', g(T, 'up'), g(X, 'w'), g(T, 'z')],
    ['each', 'x', ['sym', 'many'], ['fn', 'two', T, X]], ['fn', 'nn', T], ['if', g(T, 'mb'), g(T, 'd', 'p'), ['sym', 'g']],
    ['if_some', 'x', g(T, 'od'), ['fn', 'dd', X], ['fn', 'dd', g(T, 'd')]], ['fn', 'nil'], ['fn', 'zz', T], ['fn', 'bx', ['sym', 'one']],
    ['fn', 'me', g(T, 'me')], ['each', 'x', g(T, 'sm'), ['list', X, ['fn', 'ma', X], ['sym', 'h']]],
    ['list', g(T, 'aq', 'e', 'u'), g(T, 'aq', 's'), ['fn', 'oe', g(T, 'aes')], ['if_some', 'x', g(T, 'aq', 'o'), g(X, 'u'), ['const', 0]]],
    ['each', 'x', g(['sym', 'aq'], 'lo'), ['if_some', 'k', X, g(['sym', 'k'], 'u'), ['const', 0]]],
    ['fn', 'lk', T], ['fn', 'l2', T], ['fn', 'ba', g(T, 'b')],
]


def binders(e):
    return sum(x[0] in ('each', 'if_some') for x in subexprs(e))


OPTS = {'i': {'default': 5}, 'g': {'default': 'og'}, 'ctx': {}}
#: expressions over options; the option g hides the root field g
OPTED = [
    ['list', ['sym', 'i'], ['sym', 'g'], ['sym', 'ctx'], g(T, 'v')],
    ['fn', 'xa', g(T, 'b'), ['sym', 'i']],
    ['each', 'i', g(T, 'ns'), ['list', ['sym', 'i'], ['sym', 'g']]],
    ['each', 'x', g(T, 'bs'), ['list', ['sym', 'ctx'], g(X, 'x'), ['sym', 'h']]],
    ['if_some', 'g', g(T, 'mb'), g(['sym', 'g'], 'x'), ['sym', 'g']],
    ['if', ['sym', 'i'], ['sym', 'ctx'], ['sym', 'rs']],
]
TYPED_OPTS = {'r': {'type': ['rec', {'a': 'Any', 'l': ['seq', 'Any']}], 'default': {'a': 'A', 'l': [1, 2]}},
              's': {'type': ['seq', ['rec', {'u': 'Any'}]], 'default': [{'u': 'U1'}, {'u': 'U2'}]},
              'o': {'type': ['opt', 'Any'], 'default': None}, 'm': {'type': ['map', 'Str', ['rec', {'u': 'Any'}]], 'default': {'b': {'u': 'U'}}}}
TYPED = [
    ['list', g(['sym', 'r'], 'a'), ['each', 'x', g(['sym', 'r'], 'l'), X]],
    ['each', 'x', ['sym', 's'], ['list', g(X, 'u'), g(T, 'v')]],
    ['if_some', 'x', ['sym', 'o'], ['list', X, g(T, 'v')], ['const', 'no']],
    ['list', ['sym', 'm'], ['fn', 'me', ['sym', 'm']], g(T, 'ms'), ['fn', 'ma', g(T, 'ms')]],
]


def bounds(tier):
    q = tier == 'quick'
    return {'path_length': 3 if q else 4, 'depth': 2, 'inner_path_length': 1 if q else 2,
            'three_levels_of_iteration': not q,
            'max_executions_single': 4 if q else 20, 'max_executions_set': 24 if q else 150,
            'set_size': 2 if q else 3}


def cases(tier):
    b = bounds(tier)
    for shape, top in BIG.items():
        for n in sizes.ladder(tier, top if tier == 'quick' or top < 30 else 2 * top if top < 100 else 257):
            yield {'big': shape, 'n': n, 'b': 1, 'sched': 1}
    for shape in ('fields', 'objects', 'options', 'aliases'):
        for n in sizes.ladder(tier, 129 if tier == 'quick' else 513):
            yield {'big': shape, 'n': n, 'b': 1, 'sched': 1}
    for e in singles(tier):
        yield {'fields': [{'e': e}], 'b': b['max_executions_single'], 'sched': 1}
        if binders(e) > 1:
            yield {'fields': [{'e': e}], 'b': 1, 'sched': 0, 'shared': True}
    for n in range(2, b['set_size'] + 1):
        for sel in itertools.combinations(range(len(CORE)), n):
            yield {'fields': [{'e': CORE[i]} for i in sel], 'b': b['max_executions_set'] if n == 2 else 20, 'sched': 2,
                   'places': 2 if n == 2 else 1}
    # many expressions at once: every one of CORE beside a window of others, and all of them
    for size in (4, 5, 8) if tier == 'quick' else range(4, len(CORE)):
        for i in range(len(CORE)):
            yield {'fields': [{'e': CORE[(i + k) % len(CORE)]} for k in range(size)], 'b': 4 if tier == 'quick' else 20, 'sched': 1}
    for order in (CORE, CORE[::-1]):
        yield {'fields': [{'e': e} for e in order], 'b': 10, 'sched': 1}
    # two nodes over one sub-graph, with fields of the same names
    for a, b in itertools.permutations(range(len(CORE)), 2):
        yield {'fields': [{'e': CORE[a]}], 'second': [{'e': CORE[b]}], 'b': 2 if tier == 'quick' else 10, 'sched': 1}
    for i in range(len(CORE)):
        es = [{'e': CORE[(i + k) % len(CORE)]} for k in range(3)]
        for order in itertools.permutations(es):
            yield {'fields': es, 'second': list(order), 'b': 2, 'sched': 1}
    for a, b in itertools.permutations(OPTED, 2):
        yield {'fields': [{'e': a, 'opts': OPTS, 'given': {'ctx': 'c1'}}], 'second': [{'e': b, 'opts': OPTS, 'given': {'ctx': 'c2', 'i': 6}}],
               'b': 2, 'sched': 1}
    # plain fields passed through, beside expressions
    for name in ('v', 'w', 'z', 'os', 'ns', 'ms', 'me', 'sm'):
        for e in [None] + CORE:
            yield {'fields': [{'name': name}] + ([{'e': e}] if e else []), 'b': 10, 'sched': 1}
    values = [None, {'i': 6}, {'g': 'gg'}, {'i': 0, 'g': None}]
    for e in OPTED:
        for v in values:
            v1 = dict(v or {}, ctx='c1')
            yield {'fields': [{'e': e, 'opts': OPTS, 'given': v1}], 'b': 6, 'sched': 1}
            for w in values:
                yield {'fields': [{'e': e, 'opts': OPTS, 'given': v1, 'again': dict(w or {}, ctx='c2')}], 'b': 6, 'sched': 1}
            for o in CORE + OPTED:
                yield {'fields': [{'e': e, 'opts': OPTS, 'given': v1},
                                  {'e': o, 'opts': OPTS, 'given': {'i': 9, 'ctx': 'c3'}}], 'b': 6, 'sched': 1}
    for e in TYPED:
        for v in (None, {'o': 'O', 'm': {}}, {'r': {'a': 'B', 'l': []}, 's': [], 'm': {'a': {'u': 1}}}):
            yield {'fields': [{'e': e, 'opts': TYPED_OPTS, 'given': v}, {'e': CORE[0]}], 'b': 6, 'sched': 1}


LOWG = None


def expand(case):
    """The case of one or more fields of a given size."""
    shape, n = case['big'], case['n']
    case = dict(case)
    if shape == 'fields':
        case['fields'] = [{'e': (CORE + OPTED[3:4])[i % (len(CORE) + 1)], 'opts': OPTS, 'given': {'ctx': i}} for i in range(n)]
    elif shape == 'objects':
        case.update(fields=[{'e': CORE[i % len(CORE)]} for i in range(n % 7, n % 7 + 4)], ids=['n%d' % (1 + (i * i + i // 7) % 3) for i in range(n)])
    elif shape == 'options':
        opts = {'o%d' % i: {'default': i} for i in range(n)}
        case['fields'] = [{'e': ['list', g(T, 'v')] + [['sym', o] for o in opts], 'opts': opts, 'given': given}
                          for given in (None, {'o%d' % (n - 1): 'x'}, {o: 'y' for o in opts})]
    elif shape == 'aliases':
        case['fields'] = [{'e': OPTED[0], 'opts': OPTS, 'given': {'ctx': 0}, 'more': [{'ctx': 'c%d' % i, 'i': i % 3} for i in range(n)]}, {'e': CORE[n % len(CORE)]}]
    else:
        case['fields'] = [{'e': e} for e in big_exprs(shape, n, CORE[n % len(CORE)])]
    return case


def run(case, rec):
    global LOWG
    if LOWG is None:
        LOWG = Low()
    low = LOWG
    if 'big' in case:
        case = expand(case)
    IDS = case.get('ids', ['n1', 'n2', 'n1'])
    fields = {}
    for i, f in enumerate(case['fields']):
        fields[f.get('name') or 'e%d' % i] = f
    second = {'e%d' % i: f for i, f in enumerate(case['second'])} if 'second' in case else None

    def typers_of(fields):
        typers = {}
        for name, f in fields.items():
            verdict, res = check(f.get('e') or g(T, name), f.get('opts'))
            if verdict != 'ok':
                raise Violation('harness: enumerated expression is %s (%s)' % (verdict, res))
            typers[name] = res[0]
        return typers
    typers = typers_of(fields)
    try:
        links = {'hs': IDS, 'h1': 'n2', 'none': []}
        if second is not None:
            graph = low.high(fields, dict(links, second=['n2', 'n1']), {}, second)
        elif len(case['fields']) > 1 or case.get('shared'):
            # equal parts are the same objects, and were part of another graph before
            shared = {}
            low.high(dict(reversed(fields.items())), links, shared)
            graph = low.high(fields, links, shared)
        else:
            graph = low.high(fields, links)
    except Exception as e:
        raise Violation('a well-typed expression was rejected: %s: %s' % (type(e).__name__, e))
    sel = []
    for name, f in fields.items():
        sel.append([name, None, None, f.get('given')])
        if 'again' in f:
            sel.append([name, None, name + '_2', f['again']])
        for i, given in enumerate(f.get('more', ())):
            sel.append([name, None, '%s_m%d' % (name, i), given])
    items = [['hs', sel], ['none', sel]]
    ids = [IDS]
    if case.get('places') == 2:
        items.append(['h1', sel[:1]])
        ids.append(['n2'])
    if second is not None:
        sel2 = [[name, None, None, f.get('given')] for name, f in second.items()]
        items.append(['second', sel2])
        typers2 = typers_of(second)
    query = merge([mk_query(items)])
    raw = mk_query(backwards(items))      # built by hand, not merged

    def one_data(data, query=query):
        def one(ch):
            low.set_data(data)
            result = Engine(MCExecutor(ch, max_full=2)).execute(graph, query)
            got = denormalize(graph, result)
            calls = low.world.calls
            want = {'none': []}
            want['hs'] = [{a or n: low.value(dict(fields[n], name=n), i, o) for n, _, a, o in sel} for i in IDS]
            if case.get('places') == 2:
                want['h1'] = {n: low.value(dict(fields[n], name=n), 'n2', o) for n, _, a, o in sel[:1]}
            if second is not None:
                want['second'] = [{n: low.value(dict(second[n], name=n), i, o) for n, _, a, o in sel2} for i in ('n2', 'n1')]
            if got != want:
                raise Violation('expression fields differ from direct evaluation', got=got, expected=want)
            expected = low.calls(list(typers.values()), IDS)
            if case.get('places') == 2:
                expected += low.calls([typers[sel[0][0]]], ['n2'])
            if second is not None:
                expected += low.calls(list(typers2.values()), ['n2', 'n1'])
            compare_calls(calls, expected, 'data %s/%s' % data)
            rec.outcome(got)
            return repr(got)
        return one
    for i, d in enumerate(DATA):
        if rec.only_choices is not None or i < case['sched']:
            explore(one_data(d), rec, max_execs=case['b'])
        else:
            one_data(d, raw)(Chooser())
            rec.traces += 1
            rec.states += 1
            rec.transitions += len(low.world.calls)
