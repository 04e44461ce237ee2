"""C25: GraphQL endpoints answer every request, and each batch item on its own."""
import itertools
import json

from .. import sizes
from ..core import Violation
from ..endp import MUTATION, QUERY, Service, check_response, evaluate, strip
from ..exprs import call_text
from ..gqlref import merge_items, verdict
from ..sched import Chooser, explore

PROPERTY = 'C25'
TECHNIQUE = ('explicit enumeration of GraphQL requests - all documents up to a number of tokens, all single and double token '
             'and character mutations of base documents, all variables and operation names, all batches up to a length - '
             'dispatched through the real synchronous and asynchronous endpoints under explored completion orders')
LEVEL_NOTE = ('Documents are enumerated from token alphabets; a reference reader over the parsed document says whether it has '
              'to be answered with data (which is then compared) or with errors (then no loader may have been called). What '
              'GraphQL rejects and hiku may ignore is only required to be answered. Documents nested beyond the recursion '
              'limit of the interpreter and raising loaders are outside.')
NOTE = {
    'oracle': 'reference reader and evaluator; for batches, the responses to each item alone',
    'alphabet': 'tokens of the query language, names of the graph, unknown names, values of every kind, directives, '
                'fragments, several operations; odd characters at every position',
}
BASE = [
    '{ f g ( i : 2 ) one { x } }',
    'query Q ( $v : Int = 3 ) { a : g ( i : $v ) rec { p e { u } } }',
    'query Q ( $b : Boolean ! ) { f @ skip ( if : $b ) many ( n : null ) @ include ( if : true ) { ... F } } fragment F on A { x }',
    'mutation M { set ( i : 1 , s : "z" ) made { x b { v } } }',
    'query A { f } query B { mb { up { x } } } mutation C { done { u } }',
    '{ ... R t : __typename } fragment R on Query { el { ... on E { w { u } } } ... S } fragment S on Query { f }',
    '{ __schema { queryType { name } } __type ( name : "A" ) { fields { name } } f }',
    'query ( $s : String , $l : [ Int ! ] ) { one { d { i { q } } bs { a { x } } } }',
]
SMALL = ['{ f }', '{ g ( i : 1 ) }', '{ one { x } }', 'query Q { f }', '{ ... { f } }', '{ a : f @ skip ( if : true ) }',
         'mutation { set ( i : 1 ) }', '{ ... F } fragment F on Query { f }', 'query ( $v : Int ) { g ( i : $v ) }']
ALPHABET = ['{', '}', '(', ')', ':', '...', '@', '$', '!', '=', '[', ']', '|', '&', 'f', 'g', 'one', 'x', 'rec', 'u', 'i',
            'q', 'F', 'R', 'v', 'b', 'on', 'query', 'mutation', 'subscription', 'fragment', 'skip', 'if', '1', '1.5', 'true',
            'null', '"z"', '"""z"""', '__typename', '__schema', 'type', 'extend', 'Query', 'A', 'Int']
FEW = ['{', '}', '(', ')', ':', '...', '@skip(if: true)', 'f', 'g', 'one', 'x', 'rec', 'i', '1', '$v', 'F', 'p', '__typename',
       'fragment F on Query', 'query($v: Int)', 'mutation', 'set', '"s"']
CHARS = ['\x00', '\t', '\n', '\r', '\ufeff', '\x07', ' ', '"', '\\', '#', '\u2028', '\ud800', '\U0001f600', 'é', '\x7f', '_',
         '-', '.', '0', '1', 'e', '%', '*', '?', '/', '<', '`', "'", ',', ';', '&', '|', '{', '}', '(', ')', '$', '@', '\xa0']
TEXTS = ['', ' ', '#', '# {f}', '\ufeff{f}', ',,{f},,', '{f(}', '"', '"""', '{g(i:"\\u12")}', '{g(i:"\\ud83d\\ude00")}', '{g(i:01)}',
         '{g(i:-)}', '{g(i:1.)}', '{g(i:1e5)}', '{g(i:%s)}' % ('9' * 30), '{g(i:-%s)}' % ('9' * 5000), '{g(i:1e400)}',
         '{g(i:x)}', '{g(i:[1])}', '{g(i:{a:1})}', '{g(i:{a:1,a:2})}', '{g(i:$v)}', 'query($v:Int=$v){g(i:$v)}',
         'query($v:Int,$v:Int){g(i:$v)}', '{f @skip}', '{f @skip(if:1)}', '{f @skip(if:$n)}', '{f @skip(if:true,if:false)}',
         '{f @skip(unless:true)}', '{f @include}', '{f @include(if:null)}', '{f @nope(x:1)}', '{f @skip(if:false) @include(if:false)}',
         '{one @include(if:false){x} f}', '{one{x @skip(if:true)}}', '{f @skip(if:true)}', '{...F @skip(if:true) f} fragment F on Query{nope}',
         '{...F}', '{...F} fragment F on Query{...F}', '{...F} fragment F on Query{...G} fragment G on Query{...F}',
         'fragment F on Query{f}', '{f} fragment F on Query{f}', '{f} fragment F on Query{f} fragment F on Query{f}',
         '{f f}', '{a:f a:g}', '{g(i:1) g(i:2)}', '{one{x} one{b{v}}}', '{one{a:x} one{a:b{v}}}', '{rec{p} rec{e{u}}}',
         '{__typename}', '{t:__typename a:f}', '{t:__typename t:f}', '{__typename(x:1)}', '{__typename{x}}', '{nope}', '{nope{x}}',
         '{one}', '{f{x}}', '{one{nope}}', '{rec{nope}}', '{rec{p{x}}}', '{rec{e}}', '{rec{e(i:1){u}}}', '{rec{p(i:1)}}', '{rec{nope{x}}}',
         '{f(i:1)}', '{g(j:1)}', '{g(i:"1")}', '{g(i:true)}', '{g(i:null)}', '{many(n:null){x}}', '{many(n:"1"){x}}', '{many(n:1.5){x}}',
         '{inl}', '{inl{q}}', '{inl{__typename q}}', '{__schema}', '{__type{name}}', '{__type(name:1){name}}', '{__type(name:"No"){name}}',
         '{__schema{nope}}', '{one{__schema{queryType{name}}}}', 'subscription{f}', 'subscription S{f}', 'mutation{set}',
         'mutation{set(i:1,s:null)}', 'mutation{set(i:1) t:set(i:2)}', 'mutation{f}', 'mutation{__typename}', 'query{set(i:1)}',
         'query A{f} query A{f}', '{f} {f}', '{f} query B{f}', 'type X{f:Int}', '{f} type X{f:Int}', 'extend type Query{f:Int}',
         'schema{query:Q}', 'directive @x on FIELD', '{f} # tail', '{f}#', '{\n  f\r\n  g\r}', '{f,g,,rec{p,},}',
         '{A}', '{B{v}}', '{a}', '{data}', '{_}', '{__x}', 'query __q{f}', '{f:__typename}', '{one{d{__typename}}}', '{eo{w{w{w{u}}}}}']
VARIABLES = [('absent',), {}, None, {'v': 1}, {'v': None}, {'v': '1'}, {'v': 1.5}, {'v': True}, {'v': [1]}, {'v': {'a': 1}},
             {'w': 1}, {'v': 1, 'w': 2}, {'b': True}, {'b': False}, {'b': None}, [], [1], 'v', '', 0, 5, True]
NAMES = [('absent',), None, '', 'Q', 'A', 'B', 'C', 'nope', 'q', '<unnamed>', 0, 5, [], ['Q'], {}, True]
VAR_DOCS = ['{ f }', 'query Q { f }', 'query Q($v: Int) { g(i: $v) }', 'query Q($v: Int!) { g(i: $v) }', 'query Q($v: Int = 7) { g(i: $v) }',
            'query Q($v: Int) { many(n: $v) { x } }', 'query Q($b: Boolean = true) { f @skip(if: $b) g @include(if: $b) }',
            'query Q($b: Boolean) { f @include(if: $b) }', 'mutation Q($v: Int!) { set(i: $v) }', 'query A { f } query B($v: Int) { g(i: $v) }',
            'query Q($v: Int) { ...F } fragment F on Query { one { x } g(i: $v) }', 'query Q($v: [Int]) { f }',
            'query A { f } mutation B($v: Int = 2) { set(i: $v) } query C { one { x } }']
ITEMS = [{'query': '{ f }'}, {'query': '{ one { x b { v } } }'}, {'query': '{ nope }'}, {'query': '{'},
         {'query': 'mutation { set(i: 1) }'}, {'query': 'query A { f } query B { mb { x } }', 'operationName': 'B'},
         {'query': 'query($v: Int!) { g(i: $v) }', 'variables': {'v': 4}}, {'query': 'query($v: Int!) { g(i: $v) }'},
         {'query': '{ __typename many(n: 1) { up { x } __typename } }', 'operationName': None},
         {'query': 'mutation($s: String = "q") { set(i: 2, s: $s) made { bs { v } } }', 'variables': None}]


def join(tokens):
    """'@ skip' and '$ v' and '... F' may be written with spaces, so tokens are joined by one."""
    return ' '.join(tokens)


def mutants(tokens, alphabet):
    n = len(tokens)
    for i in range(n):
        yield tokens[:i] + tokens[i + 1:]
        yield tokens[:i] + [tokens[i]] + tokens[i:]
        if i + 1 < n:
            yield tokens[:i] + [tokens[i + 1], tokens[i]] + tokens[i + 2:]
        for a in alphabet:
            if a != tokens[i]:
                yield tokens[:i] + [a] + tokens[i + 1:]
    for i in range(n + 1):
        for a in alphabet:
            yield tokens[:i] + [a] + tokens[i:]


def bounds(tier):
    q = tier == 'quick'
    return {'token_mutations': 1 if q else 2, 'body_tokens': 4 if q else 5, 'document_tokens': 4 if q else 5,
            'batch_length': 2 if q else 3, 'alphabet': len(ALPHABET), 'few': len(FEW), 'characters': len(CHARS)}


def cases(tier):
    b = bounds(tier)
    yield {'texts': True}
    yield {'wrapped': True}
    for d in range(len(VAR_DOCS)):
        yield {'vars': d}
    for shape, top in SHAPES.items():
        for n in sizes.ladder(tier, top[tier != 'quick']):
            yield {'shape': shape, 'n': n}
    for i in range(len(BASE)):
        n = sum(1 for _ in mutants(BASE[i].split(), ALPHABET))
        for lo in range(0, n, 250):
            yield {'tokens': i, 'part': [lo, lo + 250]}
        yield {'chars': i}
    for a in FEW:
        yield {'body': a, 'n': b['body_tokens']}
        yield {'doc': a, 'n': b['document_tokens']}
    for n in range(b['batch_length'] + 1):
        for first in range(len(ITEMS)) if n else [None]:
            yield {'batch': n, 'first': first}
    if tier != 'quick':
        for i in range(len(SMALL)):
            k = sum(1 for _ in mutants(SMALL[i].split(), ALPHABET))
            for lo in range(0, k, 25):
                yield {'double': i, 'part': [lo, lo + 25]}


SHAPES = {'fields': (129, 513), 'operations': (65, 257), 'fragments': (65, 257), 'variables': (65, 257), 'depth': (25, 33), 'nested fragments': (33, 65),
          'directives': (33, 129), 'text': (257, 1025), 'errors': (65, 257), 'batch': (129, 513), 'requests': (129, 513)}


def sized(shape, n):
    """Requests of a size."""
    spots = sorted({0, n // 2, n - 1})
    if shape == 'fields':
        fs = ['a%d: %s' % (i, ['f', 'g(i: %d)' % i, 'one { x }', 'many { b { v } }', 'rec { p }', '__typename'][i % 6]) for i in range(n)]
        yield {'query': '{ %s }' % ' '.join(fs)}
        for i in spots:
            yield {'query': '{ %s }' % ' '.join(fs[:i] + ['nope'] + fs[i + 1:])}
        yield {'query': '{ %s }' % ' '.join(['f'] * n)}
        yield {'query': 'mutation { %s }' % ' '.join('s%d: set(i: %d)' % (i, i) for i in range(n))}
    elif shape == 'operations':
        text = ' '.join(['query Q%d { a%d: f g(i: %d) }', 'mutation Q%d { a%d: set(i: %d) }'][i % 2] % (i, i, i) for i in range(n))
        for i in spots:
            yield {'query': text, 'operationName': 'Q%d' % i}
            yield {'query': text + ' query Q%d { f }' % i, 'operationName': 'Q%d' % i}
        yield {'query': text, 'operationName': 'Q%d' % n}
        yield {'query': text}
        yield {'query': text, 'operationName': 'Q' * n}
    elif shape == 'fragments':
        fr = [' fragment F%d on Query { a%d: f %s }' % (i, i, ['one { x }', 'g', 'rec { e { u } }'][i % 3]) for i in range(n)]
        use = ['...F%d' % i for i in range(n)]
        yield {'query': '{ %s }%s' % (' '.join(use), ''.join(fr))}
        yield {'query': '{ %s }%s' % (' '.join(use), ''.join(fr[::-1]))}
        for i in spots:
            yield {'query': '{ %s }%s' % (' '.join(use), ''.join(fr[:i] + fr[i + 1:]))}
            yield {'query': '{ f %s }%s' % (' '.join(use[:i] + use[i + 1:]), ''.join(fr))}
            yield {'query': '{ %s }%s' % (' '.join(use), ''.join(fr + fr[i:i + 1]))}
    elif shape == 'variables':
        head = ', '.join('$v%d: Int%s' % (i, ['', ' = %d' % i, '!'][i % 3]) for i in range(n))
        body = ' '.join('a%d: g(i: $v%d)' % (i, i) for i in range(n))
        values = {'v%d' % i: i * 2 for i in range(n)}
        yield {'query': 'query Q(%s) { %s }' % (head, body), 'variables': values}
        for i in spots:
            yield {'query': 'query Q(%s) { %s }' % (head, body), 'variables': {k: v for k, v in values.items() if k != 'v%d' % i}}
            yield {'query': 'query Q(%s) { %s }' % (head, body), 'variables': dict(values, **{'v%d' % i: 'x'})}
            yield {'query': 'query Q(%s) { %s }' % (head.replace('$v%d:' % i, '$w:'), body), 'variables': values}
    elif shape == 'depth':
        for last in ('x', 'nope'):
            q = '{ %s }' % last
            for i in range(n):
                q = '{ up { x } b { a %s } }' % q
            yield {'query': '{ one %s }' % q}
        yield {'query': '{ one ' + '{ b { a ' * n + '{ x' + ' } }' * n}
    elif shape == 'nested fragments':
        fr = ['fragment F%d on A { a%d: x ...F%d }' % (i, i, i + 1) for i in range(n)]
        yield {'query': '{ one { ...F0 } } %s fragment F%d on A { x }' % (' '.join(fr), n)}
        yield {'query': '{ one { ...F0 } } fragment F%d on A { x } %s' % (n, ' '.join(fr[::-1]))}
        yield {'query': '{ one { ...F0 } } %s fragment F%d on A { ...F%d }' % (' '.join(fr), n, n // 2)}
        yield {'query': '{ one { ...F0 } } %s' % ' '.join(fr)}
        yield {'query': '{ one %s x %s }' % ('{ ... ' * n + '{', '}' * (n + 1))}
    elif shape == 'directives':
        for flags in ({}, {n - 1}, {0}, {n // 2}):
            yield {'query': '{ f %s }' % ' '.join('a%d: f @include(if: %s)' % (i, 'false' if i in flags else 'true') for i in range(n))}
            q = 'x'
            for i in range(n):
                q = '... @skip(if: %s) { %s }' % ('true' if i in flags else 'false', q)
            yield {'query': '{ f one { %s up { x } } }' % q}
    elif shape == 'text':
        yield {'query': 'mutation { set(i: 1, s: "%s") }' % ('z' * n)}
        yield {'query': 'mutation { set(i: 1, s: "%s") }' % ('\\u00e9' * n)}
        yield {'query': 'mutation($s: String) { set(i: 1, s: $s) }', 'variables': {'s': 'q"' * n}}
        yield {'query': '{ %s: f }' % ('a' * n)}
        yield {'query': '{ %s }' % ('f' * (n + 1))}
        yield {'query': ' ' * n + '{' + '\n' * n + 'f' + ',' * n + '}' + '#' * n}
        yield {'query': '{ g(i: %s) }' % ('1' * n)}
        yield {'query': '{ g(i: -%s) }' % ('1' * n)}
        yield {'query': 'query %s { f }' % ('Q' * n), 'operationName': 'Q' * n}
        yield {'query': '{ f ' * min(n, 25)}
    elif shape == 'errors':
        yield {'query': '{ f %s }' % ' '.join('e%d' % i for i in range(n))}
        yield {'query': '{ f one { %s } }' % ' '.join('e%d: f' % i for i in range(n))}
        yield {'query': '{ %s }' % ' '.join('e%d: g(i: "%d")' % (i, i) for i in range(n))}
        yield {'query': '{ %s }' % ' '.join('e%d: g(j%d: 1)' % (i, i) for i in range(n))}
        yield {'query': '{ g(i: 1, %s) }' % ', '.join('j%d: 1' % i for i in range(n))}


def run_sized(case, rec):
    shape, n = case['shape'], case['n']
    if shape == 'batch':
        for step in (1, 3):
            batch = [dict(ITEMS[(i * step + n) % len(ITEMS)]) for i in range(n)]
            for i in range(0, n, 5):
                batch[i] = {'query': 'query Q($v: Int) { a%d: g(i: %d) c: g(i: $v) }' % (i, i), 'variables': {'v': -i}}
            want, want_calls = [], []
            for r in batch:
                want.append(single(rec, r, both=False))
                want_calls += calls(service(False))
            for is_async in (False, True):
                s = service(is_async, True)
                got = answer(s, batch)
                if not isinstance(got, list) or got != want:
                    at = [i for i, (x, y) in enumerate(zip(got, want)) if x != y] if isinstance(got, list) else None
                    raise Violation('wrong response to a batch of %d' % n, at=at, got=got, expected=want)
                if calls(s) != sorted(want_calls):
                    raise Violation('wrong loader calls of a batch of %d' % n)
                rec.traces += 1
                rec.states += n
    elif shape == 'requests':       # n different requests to one endpoint, then each of them again
        for k in list(range(n)) + [(i * 7) % n for i in range(n)]:
            single(rec, [{'query': 'query Q { a%d: f g(i: %d) }' % (k // 2, k)}, {'query': 'query Q($v: Int = %d) { g(i: $v) }' % k, 'variables': {'v': k} if k % 4 == 1 else None},
                         {'query': '{ nope%d }' % k}, {'query': 'mutation { set(i: %d) made { b { k%d: v } } }' % (k, k)},
                         {'query': '{ ...F } fragment F on Query { f%d: f }' % k}][k % 5])
    else:
        for r in sized(shape, n):
            single(rec, r)
            single(rec, r, mutation=False)


SERVICES = {}


def service(is_async, batch=False, mutation=True):
    key = (is_async, batch, mutation)
    if key not in SERVICES:
        SERVICES[key] = Service(*key)
    return SERVICES[key]


def calls(s):
    return sorted(call_text(c.key()) for w in (s.q, s.m) for c in w.calls)


def answer(s, request, ch=None):
    res = s.dispatch(request, ch)
    for r in res if isinstance(res, list) else [res]:
        check_response(r)
    json.dumps(res)
    return res


def single(rec, request, both=True, mutation=True):
    """One request through the endpoints; returns its response."""
    s = service(False, False, mutation)
    res = answer(s, request)
    want = verdict({'query': QUERY, 'mutation': MUTATION if mutation else None}, request)
    rec.traces += 1
    rec.states += 1
    rec.transitions += 1
    if 'errors' in res and (s.q.calls or s.m.calls):
        raise Violation('loaders are called for a rejected request', request=request, calls=calls(s), got=res)
    if want is None:
        rec.count('unjudged')
    elif want[0] == 'errors':
        if 'errors' not in res:
            raise Violation('an invalid request is answered with data', request=request, got=res, why=want[1])
        rec.count('rejected')
    else:
        _, kind, items = want
        world, other, root = (s.q, s.m, 'Query') if kind == 'query' else (s.m, s.q, 'Mutation')
        if 'data' not in res:
            raise Violation('a valid request is rejected', request=request, got=res)
        data = evaluate(world, items, root)
        if res['data'] != data:
            raise Violation('wrong data', request=request, got=res, expected=data)
        if other.calls:
            raise Violation('the other graph is called', request=request, calls=calls(s))
        if kind == 'query':
            exp = sorted(map(call_text, world.expected_calls(strip(merge_items(items)))))
            if calls(s) != exp:
                raise Violation('wrong loader calls', request=request, got=calls(s), expected=exp)
        rec.count('answered')
        rec.outcome(data)
    if both:
        a = service(True, False, mutation)
        res2 = answer(a, request)
        rec.traces += 1
        if normal(res2) != normal(res) or calls(a) != calls(s):
            raise Violation('the asynchronous endpoint answers differently', request=request, got=res2, expected=res)
    return res


def normal(res):
    """Errors are compared as a set: validation reports in order of the query, which sets of names need not follow."""
    if isinstance(res, list):
        return [normal(r) for r in res]
    if 'errors' in res:
        return {'errors': len(res['errors'])}
    return res


def run(case, rec):
    if 'shape' in case:
        return run_sized(case, rec)
    if 'texts' in case:
        for t in TEXTS:
            for mutation in (True, False):
                single(rec, {'query': t}, mutation=mutation)
    elif 'wrapped' in case:
        for t in TEXTS:
            if t.startswith('{') and t.count('{') == t.count('}') and 'fragment' not in t:
                for w in ('%s', 'query %s', 'query Q %s', 'mutation %s', 'subscription %s', '{ ... %s }', '{ ... on Query %s }', '{ one %s }',
                          '{ one { b %s } }', '{ rec %s }', '{ rec { l %s } }', '{ el %s }', '{ many { d %s } }', '{ inl %s }',
                          'mutation { made %s }', 'mutation { done %s }', '{ ...F } fragment F on Query %s',
                          '{ one { ...F } } fragment F on A %s', '{ rec { ...F } } fragment F on D %s', '%s query B { f }', 'query A %s query B { f }'):
                    single(rec, {'query': w % t}, both=False)
                    single(rec, {'query': w % t, 'operationName': 'B'}, both=False)
    elif 'vars' in case:
        for v in VARIABLES:
            for n in NAMES:
                r = {'query': VAR_DOCS[case['vars']]}
                if v != ('absent',):
                    r['variables'] = v
                if n != ('absent',):
                    r['operationName'] = n
                single(rec, r)
                single(rec, r, mutation=False)
    elif 'tokens' in case:
        tokens = BASE[case['tokens']].split()
        lo, hi = case['part']
        for k, m in enumerate(itertools.islice(mutants(tokens, ALPHABET), lo, hi)):
            for name in ((None, 'A', 'C') if case['tokens'] == 4 else (None,)):
                r = {'query': join(m)}
                if case['tokens'] == 2:
                    r['variables'] = {'b': False}
                if name:
                    r['operationName'] = name
                single(rec, r, both=k % 5 == 0)
    elif 'chars' in case:
        text = BASE[case['chars']]
        for i in range(len(text) + 1):
            for c in CHARS:
                single(rec, {'query': text[:i] + c + text[i:]}, both=False)
                if i < len(text):
                    single(rec, {'query': text[:i] + c + text[i + 1:]}, both=False)
            single(rec, {'query': text[:i]}, both=False)
            single(rec, {'query': text[i:]}, both=False)
            single(rec, {'query': text[:i] + text[i + 1:]}, both=False)
    elif 'body' in case:
        for n in range(case['n']):
            for rest in itertools.product(FEW, repeat=n):
                single(rec, {'query': '{ %s }' % join((case['body'],) + rest)}, both=False)
    elif 'doc' in case:
        for n in range(case['n']):
            for rest in itertools.product(FEW, repeat=n):
                single(rec, {'query': join((case['doc'],) + rest)}, both=False)
    elif 'double' in case:
        lo, hi = case['part']
        for m in itertools.islice(mutants(SMALL[case['double']].split(), ALPHABET), lo, hi):
            for m2 in mutants(m, ALPHABET):
                single(rec, {'query': join(m2)}, both=False)
    else:
        n = case['batch']
        heads = [] if n == 0 else [[case['first']]]
        for idx in itertools.product(range(len(ITEMS)), repeat=n - 1) if n else [()]:
            batch = [ITEMS[i] for i in (heads[0] if heads else []) + list(idx)]
            want, want_calls = [], []
            for r in batch:
                want.append(single(rec, r, both=False))
                want_calls += calls(service(False))
            for is_async in (False, True):
                s = service(is_async, True)

                def once(ch):
                    before = json.dumps(batch)
                    got = answer(s, batch, ch)
                    if not isinstance(got, list) or got != want:
                        raise Violation('wrong response to a batch', batch=batch, got=got, expected=want)
                    if calls(s) != sorted(want_calls):
                        raise Violation('wrong loader calls of a batch', batch=batch, got=calls(s), expected=sorted(want_calls))
                    if json.dumps(batch) != before:
                        raise Violation('the request is changed', batch=before)
                    return repr(normal(got))
                explore(once, rec, max_execs=40 if n < 3 else 4)
            if n == 1:      # a single request to an endpoint for batches
                for is_async in (False, True):
                    got = answer(service(is_async, True), batch[0])
                    if got != want[0]:
                        raise Violation('wrong response to a single request of a batch endpoint', got=got, expected=want[0])
