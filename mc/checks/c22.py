"""C22: ill-typed expressions are rejected when the graph is built, accepted ones never fail on missing data."""
import itertools

from hiku.engine import Engine

from .. import sizes
from ..core import Violation
from ..exprs import BIG, DATA, FUNCS, FUNCS2, TEXT_FUNCS, Bad, Low, Typer, Unjudged, big_exprs, check, fn_of, fn_types, subexprs, variants
from ..sched import Chooser, MCExecutor
from ..world import mk_query

PROPERTY = 'C22'
TECHNIQUE = ('explicit enumeration of all expressions (well- and ill-typed) over an alphabet; verdict of an independent type '
             'checker against acceptance by Graph(), and every accepted expression executed on every data variant')
LEVEL_NOTE = ('All expressions of the listed shapes over an alphabet of known and unknown names. Where the property is '
              'silent (results of functions and of if / each used as structures) acceptance is not judged, but an accepted '
              'expression still must not fail. Data: 5 variants with all optionals null / present, sequences empty / one / '
              'two entries, links unmatched / dense.')
NOTE = {
    'shapes': 'access chains; each and if_some with any collection and any body, nested two deep, with shadowing, variables '
              'used before / outside their scope; function calls with 0-3 arguments; if with 2-4 arguments',
    'oracle': 'independent type checker (mc/exprs.py Typer)',
}
T, X, K = ['sym', 'this'], ['sym', 'x'], ['sym', 'k']
SYMS = ['this', 'g', 'h', 'rd', 'ro', 'rl', 'rs', 'one', 'mb', 'many', 'x', 'zzz', 'i', 'r']
FIELDS = ['v', 'x', 'd', 'od', 'b', 'mb', 'bs', 'p', 'u', 'os', 'el', 'loe', 'me', 'sm', 'n', 'aq', 'e', 'qq']
FEW = ['v', 'x', 'u', 'bs', 'mb', 'n', 'qq']
OPTS = {'i': {'default': 1}, 'r': {'type': ['rec', {'p': 'Any', 'l': ['seq', 'Any']}], 'default': {'p': 'P', 'l': [1]}}}
ALL = list(FUNCS) + list(FUNCS2) + list(TEXT_FUNCS)


def get(e, *ns):
    for n in ns:
        e = ['get', e, n]
    return e


def chains(syms, fields, n):
    for k in range(n + 1):
        for s in syms:
            for ns in itertools.product(fields, repeat=k):
                yield get(['sym', s], *ns)


def bodies(var, fields, n):
    """What may be done with a variable, this and an unknown name."""
    for e in chains([var], fields, n):
        yield e
    for e in chains(['this', 'zzz', 'one', 'g'], FEW, 1):
        yield e


def nested(fields):
    """Bodies made of another construct that uses x."""
    for col in list(chains(['x'], fields, 1)) + [get(T, 'bs'), get(T, 'mb'), get(T, 'zzz'), K]:
        for var in ('k', 'x'):
            for body in list(chains([var], fields, 1)) + ([get(X, 'u'), get(X, 'y')] if var == 'k' else []):
                yield ['each', var, col, body]
                yield ['if_some', var, col, body, X]
            yield ['if_some', var, col, ['const', 1], get(X, 'qq')]
            yield ['list', ['each', var, col, ['const', 1]], K]
    for col in list(chains(['x'], fields, 1)):
        yield ['if', col, get(X, 'u'), get(X, 'x')]
        for f in ALL:
            if len(fn_types(f)) == 1:
                yield ['fn', f, col]


def cols(n):
    return list(chains(['this', 'ro', 'rl', 'rs', 'one', 'mb', 'many', 'x', 'zzz', 'r', 'i', 'g'], FIELDS + ['l', 'ns', 'ms', 'oel', 'od', 'up', 'aes', 'aoe', 'ame', 'o', 'lo', 's'], n))


def args(n):
    return list(chains(['this', 'ro', 'rd', 'rl', 'rs', 'one', 'mb', 'many', 'zzz', 'g', 'i'],
                       FIELDS + ['oel', 'up', 'ns', 'ms', 'eo', 'l', 'aes', 'aoe', 'ame', 'o', 's'], n))


def bounds(tier):
    q = tier == 'quick'
    return {'chain_length': 3 if q else 4, 'collection_chain': 1 if q else 2, 'body_chain': 2,
            'nested': 'few fields' if q else 'all fields'}


HOLES = [get(T, 'b', 'x'), ['fn', 'bx', get(T, 'b')], ['sym', 'zzz'], get(T, 'qq'), get(T, 'd', 'x'), get(T, 'mb', 'x'), ['fn', 'bx', get(T, 'mb')], ['fn', 'bx'],
         ['if', g_ := ['sym', 'g'], g_], ['each', 'y', get(T, 'mb'), ['const', 1]], ['list', ['each', 'y', get(T, 'bs'), ['const', 1]], ['sym', 'y']],
         ['fn', 'by', get(T, 'el')], get(['sym', 'g'], 'x')]


def typed(arg, depth):
    """Calls with an argument of functions that declare any type, fitting or not."""
    typer = Typer(OPTS)
    try:
        t = typer.visit(arg, typer.scope()).type
    except (Bad, Unjudged):
        return
    if t is None:
        return
    all_ = list(variants(t, depth))
    for i, v in enumerate(all_):
        yield ['fn', fn_of(v), arg]
        yield ['fn', fn_of(v, all_[(i * 7 + 3) % len(all_)]), arg, arg]
        if i % 3 == 0:
            yield ['fn', fn_of('Any', v), T, arg]
            yield ['if', get(T, 'v'), ['fn', fn_of(v), arg], ['const', 0]]
    if isinstance(t, list) and t[0] in ('seq', 'opt'):
        for v in variants(t[1], depth):
            call = ['fn', fn_of(v), X]
            yield ['each', 'x', arg, call] if t[0] == 'seq' else ['if_some', 'x', arg, call, ['const', 0]]


def group(tier, kind):
    """The expressions of one case."""
    k = kind[0]
    q = tier == 'quick'
    if k == 'big':
        for hole in HOLES:
            yield from big_exprs(kind[1], kind[2], hole)
    elif k == 'types':
        yield from typed(kind[1], kind[2])
    elif k == 'chain':
        for ns in itertools.product(FIELDS, repeat=kind[2]):
            yield get(['sym', kind[1]], *ns)
    elif k in ('each', 'if_some'):
        for var in ('x', 'this') if q else ('x', 'this', 'g', 'i', 'one'):
            for body in bodies(var, FIELDS, 2 if var == 'x' else 1):
                yield ['each', var, kind[1], body] if k == 'each' else ['if_some', var, kind[1], body, ['const', 0]]
        # outside of the scope of the variable
        for e in (X, get(X, 'u'), get(X, 'x'), K):
            if k == 'each':
                yield ['list', ['each', 'x', kind[1], ['const', 1]], e]
                yield ['list', e, ['each', 'x', kind[1], ['const', 1]]]
            else:
                yield ['if_some', 'x', kind[1], ['const', 1], e]
                yield ['list', ['if_some', 'x', kind[1], X, ['const', 1]], e]
        inner = ['const', 1]
        yield ['each', 'x', kind[1], inner] if k == 'each' else ['if_some', 'x', kind[1], inner, inner]
    elif k in ('each2', 'if_some2'):
        for body in nested(FEW if q else FIELDS):
            yield ['each', 'x', kind[1], body] if k == 'each2' else ['if_some', 'x', kind[1], body, ['const', 0]]
    elif k == 'fn':
        name, count = kind[1], kind[2]
        short = args(1)
        if count == 0:
            yield ['fn', name]
        elif count == 1:
            for a in args(2):
                yield ['fn', name, a]
        elif count == 2:
            few = short[::9] if q else short
            for a, b in itertools.chain(itertools.product(short, few), itertools.product(few, short)) \
                    if len(fn_types(name)) == 2 else itertools.product(short, short[:12]):
                yield ['fn', name, a, b]
        else:
            yield ['fn', name, T, T, T]
        if count == 1:
            for a in short:
                yield ['fn', name, ['if', get(T, 'v'), a, a]]
                yield ['fn', 'any', ['fn', name, a]]
                yield ['list', ['fn', name, a], ['fn', name, get(T, 'b')]]
    elif k == 'if':
        for a in args(1):
            for n in (1, 2, 3, 4):
                yield ['if', a] + [get(T, 'v')] * n
            yield ['if', get(T, 'v'), a, ['const', None]]
            yield ['if', get(T, 'v'), ['const', None], a]
            yield ['dict', {'k': a, 'l': ['list', a]}]
            yield ['get', ['if', get(T, 'v'), a, a], 'x']
            yield ['each', 'x', ['if', get(T, 'v'), a, a], X]
            yield ['if_some', 'x', ['list', a], X, X]


def kinds(tier):
    b = bounds(tier)
    for shape, top in BIG.items():
        for n in sizes.ladder(tier, top if tier == 'quick' or top < 30 else 2 * top if top < 100 else 257):
            yield ['big', shape, n]
    for n in range(b['chain_length'] + 1):
        for s in SYMS:
            yield ['chain', s, n]
    for name in ALL:
        for n in range(4):
            yield ['fn', name, n]
    yield ['if']
    for i, arg in enumerate(args(1)):
        yield ['types', arg, (3 if i == 0 else 2) if tier == 'quick' else 4 if i == 0 else 3]
    for col in cols(b['collection_chain']):
        yield ['each', col]
        yield ['if_some', col]
    good = ['aq', 'aes', 'aoe', 'bs', 'el', 'loe', 'mb', 'od', 'oel', 'up', 'os', 'ns', 'b', 'v']
    for col in [get(T, n) for n in good] + [['sym', n] for n in ('many', 'rl', 'ro', 'mb', 'rs', 'one')]:
        yield ['each2', col]
        yield ['if_some2', col]


def cases(tier):
    for k in kinds(tier):
        yield {'kind': k, 'tier': tier}


LOWG = None
QUERY = None
IDS = ['n1', 'n2', 'n3']


def run(case, rec):
    global LOWG, QUERY
    if LOWG is None:
        LOWG = Low()
        QUERY = mk_query([['hs', [['e']]]])
    low = LOWG
    for e in group(case['tier'], case['kind']):
        verdict, why = check(e, OPTS)
        # some of the expressions are made of shared objects, all of which were part of another graph before
        shared = {} if verdict == 'ok' and sum(x[0] in ('each', 'if_some') for x in subexprs(e)) > 1 else None
        rec.traces += 1
        rec.states += 1
        try:
            if shared is not None:
                low.high({'e': {'e': e, 'opts': OPTS}}, {'hs': IDS}, shared)
            graph = low.high({'e': {'e': e, 'opts': OPTS}}, {'hs': IDS}, shared)
        except Violation:
            raise
        except Exception:
            rec.count('rejected')
            rec.outcome(('rejected', verdict, why if verdict == 'bad' else None))
            if verdict == 'ok':
                raise Violation('a well-typed expression was rejected', expr=e)
            continue
        rec.count('accepted_' + verdict)
        if verdict == 'bad':
            raise Violation('an ill-typed expression was accepted: %s' % why, expr=e)
        for d in DATA:
            low.set_data(d)
            rec.transitions += 1
            try:
                Engine(MCExecutor(Chooser())).execute(graph, QUERY)
            except Exception as ex:
                raise Violation('an accepted expression fails with %s: %s' % (type(ex).__name__, ex), expr=e, data=list(d))
