"""C13: GraphQL documents are read with the meaning the GraphQL specification gives them."""
import itertools

from graphql import build_schema, execute, parse
from graphql.utilities import value_from_ast_untyped
from graphql.validation import specified_rules, validate

from hiku.query import Link
from hiku.readers.graphql import read, read_operation

from .. import sizes
from ..core import Violation
from ..world import canon

PROPERTY = 'C13'
TECHNIQUE = ('explicit enumeration of documents x variable assignments; the query tree that is read is evaluated and '
             'compared with the execution of the same document by an independent implementation (graphql-core)')
LEVEL_NOTE = ('Every document of five families up to their bounds (nesting and fragments, directives, values, '
              'operations, faults). Trusts graphql-core\'s executor and validator. Unknown directives, type conditions '
              'on other types and faults the operation does not reach are not judged.')
NOTE = {
    'alphabet': 'structure: selections up to the item bound over fields, aliases, links, inline and named fragments; '
                'directives: every combination of @skip/@include with literals and variables on every kind of '
                'selection; values: every literal kind nested in lists/objects, variables with and without defaults; '
                'operations: several operations and operation names; faults: each kind in each position',
    'choices': 'the grammar\'s productions and the values of the variables are enumerated; reading is sequential',
    'oracle': 'response of graphql-core with echoing resolvers; explicit list of documents to reject',
}

SCHEMA = build_schema('''
scalar Any
type Query { a(n: Any, m: Any): Any  b(n: Any): Any  one(n: Any): A  many: [A] }
type A { x(n: Any): Any  y(n: Any): Any  up(n: Any): A  ups: [A] }
type Mutation { a(n: Any, m: Any): Any  b(n: Any): Any  one(n: Any): A  many: [A] }
type Subscription { a(n: Any, m: Any): Any  b(n: Any): Any  one(n: Any): A  many: [A] }
''')
SCHEMA.type_map['Any'].parse_literal = value_from_ast_untyped
RULES = [r for r in specified_rules if r.__name__ not in ('NoUnusedFragmentsRule', 'NoUnusedVariablesRule')]
MANY = ('many', 'ups')
LINKS = ('one', 'many', 'up', 'ups')


def resolver(source, info, **args):
    name = info.field_name
    if name in LINKS:
        v = {'args': args}
        return [v, v] if name in MANY else v
    return '%s%s' % (name, canon(args) if args else '')


def oracle(doc, variables, name):
    errors = validate(SCHEMA, doc, RULES)
    if errors:
        return None
    op = [d for d in doc.definitions if d.kind == 'operation_definition'
          and (name is None or (d.name and d.name.value == name))][0]
    values = dict(variables)
    for v in op.variable_definitions or ():
        n = v.variable.name.value
        if n not in values and v.default_value is None and v.type.kind != 'non_null_type':
            values[n] = None
    r = execute(SCHEMA, doc, field_resolver=resolver, variable_values=values, operation_name=name)
    if r.errors:
        return None
    return r.data


def evaluate(node):
    res = {}
    for f in node.fields:
        if f.result_key in res:
            raise Violation('a selection is read twice: %r' % (f.result_key,))
        if isinstance(f, Link):
            v = evaluate(f.node)
            v = [v, v] if f.name in MANY else v
        else:
            v = '%s%s' % (f.name, canon(f.options) if f.options else '')
        res[f.result_key] = v
    return res


def links_args(node, out, path=()):
    for f in node.fields:
        if isinstance(f, Link):
            out.append((path + (f.result_key,), canon(f.options or {})))
            links_args(f.node, out, path + (f.result_key,))
    return out


# ---- structure ----

def selections(typ, size, depth, frags):
    """All lists of selections with exactly `size` selections altogether."""
    if size == 0:
        yield ''
        return
    leafs = {'Q': ['a', 'b', 'b: a', 'a: a', 'a(n: 1)', 'c: a(n: 1)'], 'A': ['x', 'y', 'y: x', 'x(n: 1)']}[typ]
    links = {'Q': ['one', 'l: one', 'many'], 'A': ['up', 'ups']}[typ]
    for leaf in leafs:
        for rest in selections(typ, size - 1, depth, frags):
            yield leaf + ' ' + rest
    for name, t in frags:
        if t == typ:
            for rest in selections(typ, size - 1, depth, frags):
                yield '...%s %s' % (name, rest)
    if depth > 1:
        for k in range(1, size):
            for link in links:
                for sub in selections('A', k, depth - 1, frags):
                    for rest in selections(typ, size - 1 - k, depth, frags):
                        yield '%s { %s} %s' % (link, sub, rest)
            for head in ('...', '... on Query' if typ == 'Q' else '... on A'):
                for sub in selections(typ, k, depth - 1, frags):
                    for rest in selections(typ, size - 1 - k, depth, frags):
                        yield '%s { %s} %s' % (head, sub, rest)


FRAGS = [
    'fragment F on Query { a one { ...G } } fragment G on A { x up { y } }',
    'fragment F on Query { b: a ...F2 } fragment F2 on Query { many { x } ... { a } } fragment G on A { x ...G2 } '
    'fragment G2 on A { y: x up { x } ...G3 } fragment G3 on A { up { y } x }',
]


def directive_docs():
    vals = ['true', 'false', '$s', '$d', '$e']
    lists = ['']
    for s in vals:
        lists += ['@skip(if: %s)' % s, '@include(if: %s)' % s]
        for i in vals:
            lists += ['@skip(if: %s) @include(if: %s)' % (s, i), '@include(if: %s) @skip(if: %s)' % (i, s)]
    sites = [
        'query Q(V) { a D b }', 'query Q(V) { x: a(n: 1) D b one { y } }', 'query Q(V) { one D { x } b }',
        'query Q(V) { one { x D y } }', 'query Q(V) { ... D { a one { x } } b one { y } }',
        'query Q(V) { ...F D b } fragment F on Query { a one { x } }',
        'query Q(V) { ...F b } fragment F on Query { a D one D { x } }',
        'query Q(V) { one { ...G D y } many { ...G } } fragment G on A { x }',
        'query Q(V) { ... on Query { ... D { a } b } }', 'mutation Q(V) { b a D one { x } }',
    ]
    two = [
        'query Q(V) { ...F D b } fragment F on Query { a E one { x } }', 'query Q(V) { a D a E b }',
        'query Q(V) { one D { x } one E { y } b }', 'query Q(V) { ...F D ...F E b } fragment F on Query { a }',
        'query Q(V) { ... D { a } a E b }', 'query Q(V) { one { ...G D ... E { y } up { x } } } fragment G on A { x }',
    ]
    short = ['', '@skip(if: true)', '@include(if: false)', '@skip(if: $s)', '@include(if: $s)', '@skip(if: $d)',
             '@include(if: $e)', '@skip(if: $s) @include(if: $d)', '@include(if: $s) @skip(if: $e)',
             '@skip(if: false) @include(if: $s)', '@include(if: true) @skip(if: $s)']
    for site in sites:
        for d in lists:
            yield site.replace(' D ', ' %s ' % d)
    for site in two:
        for d, e in itertools.product(short, short):
            yield site.replace(' D ', ' %s ' % d).replace(' E ', ' %s ' % e)


VDEF = '$s: Boolean!, $d: Boolean = true, $e: Boolean! = false'
LITS = ['0', '-0', '0.0', '-0.0', '0e5', '-1', '2.0e0', '1e-400', '12345678901234567890', '1.0', '-0.5', '1e3', '1E-2', '1.5e+10', 'true', 'false', 'null', 'RED',
        '""', '"a b"', r'"\"\\\/\b\f\n\r\t\u00e9\u0041"', '"é"', '"# not a comment"', '"""block"""', '"""\n  a\n    b\n  """',
        '""" "quoted" \\""" """', '[]', '[1]', '{}', '{k: 1}', '$v']


def value_docs(deep):
    wraps = ['%s', '[%s]', '{k: %s}', '[[%s], 1]', '{k: {j: [%s]}, i: "s"}', '[{k: %s}, %s]']
    for w in wraps:
        for lit in LITS:
            v = w.replace('%s', lit)
            for t in ('{ a(n: %s) }', '{ one(n: %s) { x } }', '{ c: a(n: %s, m: 1) ...F } fragment F on Query '
                      '{ d: a(m: %s) many { ups { x(n: %s) } } }'):
                yield 'query Q($v: Any) ' + t.replace('%s', v)
    for x, y in itertools.product(LITS, LITS if deep else LITS[::2]):
        yield 'query Q($v: Any) { a(n: %s, m: %s) }' % (x, y)
        yield 'query Q($v: Any) { a(n: [%s, %s]) }' % (x, y)
        yield 'query Q($v: Any) { a(n: {k: %s, j: %s}) }' % (x, y)


VAR_VALUES = ['absent', None, 0, 1, 1.5, True, False, '', 'text', [], [1, [None]], {}, {'k': [1, {'j': None}]}]


def variable_docs():
    types = ['Any', 'Any!', 'Int', 'Int!', '[Int]', '[Int!]!', 'Boolean']
    defaults = {'Any': ['', ' = 1', ' = null', ' = "s"', ' = [1, {k: 2.5}]', ' = {k: RED}'], 'Int': ['', ' = 7', ' = null'],
                '[Int]': ['', ' = [1, 2]', ' = []', ' = null'], 'Boolean': ['', ' = false']}
    for t in types:
        for d in defaults.get(t, ['']) + ([] if t in defaults else [' = ' + {'Any!': '{k: 1}', 'Int!': '7',
                                                                             '[Int!]!': '[3]'}[t]]):
            for body in ('{ a(n: $v) }', '{ a(n: [$v, 1]) one(n: {k: $v}) { x(n: $v) } }',
                         '{ ...F } fragment F on Query { one { ...G } a(m: $v) } fragment G on A { x(n: {k: [$v]}) }'):
                yield t, 'query Q($v: %s%s) %s' % (t, d, body)


def fits(t, v):
    base = t.rstrip('!')
    if v is None:
        return not t.endswith('!')
    if base == 'Any':
        return True
    if base == 'Int':
        return type(v) is int
    if base == 'Boolean':
        return type(v) is bool
    return type(v) is list and all(type(i) is int for i in v)


OPS = ['{ a }', 'query A { b }', 'query B { one { x } }', 'mutation M { b a }', 'mutation A { a }',
       'subscription S { a }', 'fragment F on Query { a }', 'query A($v: Any!) { a(n: $v) }', 'query C { ...F }',
       'fragment F on Query { b }']

REJECT = [
    # (document, variables, operation name)
    ('{ ...F } fragment F on Query { ...F }', {}, None),
    ('{ ...F } fragment F on Query { a ...G } fragment G on Query { ...F b }', {}, None),
    ('{ ...F } fragment F on Query { one { ...G } } fragment G on A { up { ...H } } fragment H on A { ups { x ...G } }', {}, None),
    ('{ one { ...G } } fragment G on A { ... { up { ... on A { ...G } } } }', {}, None),
    ('{ one { ...G } } fragment G on A { x up { ...G @include(if: true) } }', {}, None),
    ('{ one { ...G } } fragment G on A { x up { ...G @skip(if: $s) } }', {'s': False}, None),
    ('mutation { one { ...G } } fragment G on A { up { ...G } }', {}, None),
    ('{ ...F }', {}, None), ('{ a ... { ...F } }', {}, None), ('{ one { x ...F } }', {}, None),
    ('{ ...F } fragment F on Query { one { ...H } }', {}, None), ('{ ...f } fragment F on Query { a }', {}, None),
    ('{ a(n: $v) }', {}, None), ('{ a(n: $v) }', {'v': 1}, None), ('{ a(n: [1, $v]) }', {'v': 1}, None),
    ('{ a(n: {k: {j: $v}}) }', {'v': 1}, None), ('{ one(n: $v) { x } }', {'v': 1}, None),
    ('{ one { x(n: $v) } }', {'v': 1}, None), ('query Q($w: Any) { a(n: $v) }', {'v': 1, 'w': 1}, None),
    ('{ ...F } fragment F on Query { a(n: $v) }', {'v': 1}, None), ('{ a @skip(if: $v) }', {'v': True}, None),
    ('{ a @include(if: $v) }', {'v': False}, None), ('{ ... @include(if: $v) { a } }', {'v': True}, None),
    ('{ ...F @skip(if: $v) } fragment F on Query { a }', {'v': True}, None),
    ('query A($v: Any) { a(n: $v) } query B { a(n: $v) }', {'v': 1}, 'B'),
    ('query Q($v: Any!) { a }', {}, None), ('query Q($v: Int!, $w: Int) { a(n: $w) }', {'w': 1}, None),
    ('query Q($v: [Int!]!) { a(n: $v) }', {'V': [1]}, None), ('mutation Q($v: Any!) { a(n: $v) }', {}, None),
    ('query A { a } query B { b }', {}, None), ('{ a } { b }', {}, None), ('{ a } query B { b }', {}, None),
    ('query A { a } query A { b }', {}, 'A'), ('query A { a } query A { b }', {}, None), ('query A { a } mutation A { b }', {}, 'A'),
    ('query A { a } query B { b }', {}, 'C'), ('query A { a }', {}, 'B'), ('{ a }', {}, 'A'), ('query A { a }', {}, ''),
    ('fragment F on Query { a }', {}, None), ('fragment F on Query { a }', {}, 'F'),
    ('{ ...F } fragment F on Query { a } fragment F on Query { b }', {}, None),
    ('{ ...F } fragment F on Query { a } fragment F on Query { a }', {}, None),
    ('query A { a } query B { ...F } query B { b } fragment F on Query { a }', {}, 'B'),
    ('type Query { a: Int }', {}, None), ('', {}, None), ('{', {}, None), ('{ }', {}, None), ('{ a( }', {}, None), ('{ a(n: ) }', {}, None),
    ('{ a @skip }', {}, None), ('{ a @skip(unless: true) }', {}, None), ('{ a @include }', {}, None), ('{ a @include(when: true) }', {}, None),
    ('{ a @skip(if: true, if: false) }', {}, None),
]


def big_docs(tier):
    """(document, variables, operation name, whether it is invalid): one dimension is big."""
    def frag(n, on, body):
        return 'fragment F%d on %s { %s }' % (n, on, body)
    for k in range(0, len(sizes.WORDS), 7 if tier == 'quick' else 1):
        ws = sizes.WORDS[k:] + sizes.WORDS[:k]
        yield '{ %s }' % ' '.join('%s: a(n: {%s: %d})' % (w, w, i) for i, w in enumerate(ws)), {}, None, False
        yield 'mutation { one { %s } }' % ' '.join('%s: %s' % (w, 'xy'[i % 2]) for i, w in enumerate(ws)), {}, None, False
        yield '{ %s }' % ' '.join('%s: one { %s: x }' % (w, v) for w, v in zip(ws, ws[1:])), {}, None, False
        yield '{ a(n: {%s}) }' % ' '.join('%s: "%s"' % (w, w) for w in ws), {}, None, False
        yield 'query Q(%s) { %s }' % (' '.join('$%s: Any%s' % (w, ['', ' = %d' % i, '!'][i % 3]) for i, w in enumerate(ws)), ' '.join(
            'a%d: a(n: $%s)' % (i, w) for i, w in enumerate(ws))), {w: w for i, w in enumerate(ws) if i % 6}, None, False
        # the variables are not defined: only the ones with nearly the same name are
        yield 'query Q(%s) { a(n: $%s) }' % (' '.join('$%s: Any' % w for w in ws[1:]), ws[0]), {w: w for w in ws}, None, True
        fs = [w for w in ws if w != 'on']
        frags = ['fragment %s on Query { a%d: a %s }' % (w, i, '...%s' % fs[i + 1] if i + 1 < len(fs) and i % 3 else '') for i, w in enumerate(fs)]
        yield '{ %s } %s' % (' '.join('...%s' % w for w in fs), ' '.join(frags)), {}, None, False
        yield '{ ...%s } %s' % (fs[1], ' '.join(frags[:1] + frags[2:])), {}, None, True
        ops = ['%s %s { a%d: a }' % (['query', 'mutation'][i % 2], w, i) for i, w in enumerate(ws)]
        for w in ws:
            yield ' '.join(ops), {}, w, False
        yield ' '.join(ops[1:]), {}, ws[0], True
        yield ' '.join(ops + ops[:1]), {}, ws[1], True
    wide, long_, deep = (129, 513, 33) if tier == 'quick' else (257, 2049, 65)
    for n in sizes.ladder(tier, long_):
        lits = ', '.join(['1', '"s%d"' % n, '$v', '[2.5]', '{k: null}'][i % 5] for i in range(n))
        yield 'query Q($v: Any) { a(n: [%s]) }' % lits, {'v': n}, None, False
        yield 'query Q($v: Any) { one(n: {%s}) { x } }' % ', '.join(
            'k%d: %s' % (i, ['1', '"s"', '$v'][i % 3]) for i in range(n)), {'v': n}, None, False
        for c in ('x', 'é', '😀', r'\n', r'\u00e9', ' '):
            yield '{ a(n: "%s") }' % (c * n), {}, None, False
        yield '{ a(n: """%s""") }' % '\n  '.join(['', 'line', '', '  x'][i % 4] for i in range(n)), {}, None, False
        yield '{ a(n: %s) b(n: -%s.5) }' % ('9' * min(n, 300), '1' * min(n, 300)), {}, None, False
        yield '{ a%s b }' % (',#comment\n' * n), {}, None, False
    for n in sizes.ladder(tier, wide):
        a = ['a%d: %s' % (i, ['a', 'b(n: %d)' % i, 'a(m: %d)' % i, 'one(n: %d) { x%d: x }' % (i, i)][i % 4]) for i in range(n)]
        for op in ('query', 'mutation'):
            root = op.title()
            yield '%s { %s }' % (op, ' '.join(a)), {}, None, False
            yield '%s { many { ups { x } } %s }' % (op, ' '.join('many { x%d: x up { y } ups { u%d: x } }' % (i, i) for i in range(n))), {}, None, False
            yield '%s { %s } %s' % (op, ' '.join('...F%d' % i for i in range(n)), ' '.join(
                frag(i, root, a[i] + (' ...F%d' % (i - 1) if i % 3 == 2 else ''))for i in range(n))), {}, None, False
            yield '%s { %s } %s' % (op, ' '.join('l%d: one(n: %d) { ...F }' % (i, i) for i in range(n)),
                                    'fragment F on A { x up { y } }'), {}, None, False
            yield '%s { ...F0 } %s %s' % (op, ' '.join(frag(i, root, '%s ...F%d' % (a[i], i + 1)) for i in range(n)),
                                          frag(n, root, 'z: b')), {}, None, False
        yield 'query Q(%s) { %s }' % (', '.join('$v%d: Any%s' % (i, ['', ' = %d' % i, '!'][i % 3]) for i in range(n)),
                                      ' '.join('a%d: a(n: $v%d)' % (i, i) for i in range(n))), \
            {'v%d' % i: [i] for i in range(n) if i % 3 != 1 or i % 2}, None, False
        yield 'query Q($s: Boolean!) { b %s }' % ' '.join(
            'a%d: a %s' % (i, ['@skip(if: $s)', '@include(if: $s)', '', '@skip(if: true)'][i % 4]) for i in range(n)), {'s': n % 2 == 0}, None, False
        ops = ' '.join('%s O%d { a%d: a }' % (['query', 'mutation'][i % 2], i, i) for i in range(n))
        for i in {0, n // 2, n - 1}:
            yield ops, {}, 'O%d' % i, False
        yield ops, {}, 'O%d' % n, True
        yield ops + ' query O0 { a }', {}, 'O%d' % (n - 1), True
        # a cycle, a fragment or a variable that is missing, at the end of a long chain of fragments
        chain = ' '.join(frag(i, 'A', 'x up { ...F%d }' % (i + 1)) for i in range(n))
        for end in ('...F0', '...F%d' % n, '...F%d' % (n // 2), '...Missing', 'x(n: $v)'):
            yield '{ one { ...F0 } } %s %s' % (chain, frag(n, 'A', 'y up { %s }' % end)), {'v': 1}, None, True
        chain = ' '.join(frag(i, 'Query', 'a ...F%d' % (i + 1)) for i in range(n))
        for end in ('...F0', '...F%d' % n, '... { ...F%d }' % (n // 2), '...Missing', 'b(n: [$v])'):
            yield '{ ...F0 } %s %s' % (chain, frag(n, 'Query', end)), {'v': 1}, None, True
        yield '{ %s ...F }' % ' '.join(a), {}, None, True
        yield '{ %s ...F } fragment F on Query { a(n: $v) }' % ' '.join(a), {'v': 1}, None, True
    for n in sizes.ladder(tier, deep):
        sel = 'x'
        for i in range(n):
            sel = ['up { y %s }', 'l%d: up(n: %d) { %%s }' % (i, i), 'ups { %s } y', '... { %s x }', '... on A { y %s }'][
                i % (5 if n < 16 else 4) if i % 3 or n < 9 else 0] % sel
        yield '{ one { %s } a }' % sel, {}, None, False
        yield 'mutation { one { %s } a }' % sel, {}, None, False
        yield '{ %s }' % ('... { ' * n + 'a one { x } ' + '} ' * n), {}, None, False
        yield 'query Q($s: Boolean!) { b %s }' % ('... @include(if: $s) { a ' * n + '} ' * n), {'s': True}, None, False
        yield 'query Q($s: Boolean!) { b %s }' % ('... { c: b ' * n + '... @skip(if: $s) { a }' + '} ' * n), {'s': True}, None, False
        yield 'query Q($v: Any) { a(n: %s) }' % ('[' * n + '$v, 1' + ']' * n), {'v': {'k': [n]}}, None, False
        yield 'query Q($v: Any) { a(n: %s) }' % ('{k: ' * n + '$v' + '}' * n), {'v': [n]}, None, False
        yield 'query Q($v: Any = %s) { a(n: $v) }' % ('[{k: ' * n + '7' + '}]' * n), {}, None, False
        v = n
        for i in range(n):
            v = [v, i] if i % 2 else {'k': v}
        yield 'query Q($v: Any) { a(n: $v) one(n: [$v]) { x(n: {j: $v}) } }', {'v': v}, None, False


def bounds(tier):
    return {'selections': 4 if tier == 'quick' else 5, 'depth': 3, 'operations_per_document': 3}


def cases(tier):
    b = bounds(tier)
    for doc, variables, name, bad in big_docs(tier):
        yield {'kind': 'reject' if bad else 'read', 'doc': doc, 'vars': variables, 'op': name}
    for doc, variables, name in REJECT:
        yield {'kind': 'reject', 'doc': doc, 'vars': variables, 'op': name}
    for n in range(1, b['operations_per_document'] + 1):
        for ops in itertools.product(OPS, repeat=n):
            for name in (None, 'A', 'B', 'C', 'M', 'S'):
                yield {'kind': 'ops', 'doc': ' '.join(ops), 'vars': {'v': 1}, 'op': name}
    for doc in directive_docs():
        full = doc.replace('(V)', '(%s)' % VDEF)
        for s in (True, False):
            for d in (None, True, False):
                for e in ((None, True, False) if '$e' in doc else (None,)):
                    if d is not None and '$d' not in doc:
                        continue
                    v = {'s': s}
                    v.update({k: x for k, x in (('d', d), ('e', e)) if x is not None})
                    yield {'kind': 'read', 'doc': full, 'vars': v, 'op': None}
    for doc in value_docs(tier != 'quick'):
        for v in ([1], {'k': None}) if '$v' in doc else (None,):
            yield {'kind': 'read', 'doc': doc, 'vars': {} if v is None else {'v': v}, 'op': None}
    for t, doc in variable_docs():
        for v in VAR_VALUES:
            if v == 'absent':
                missing = t.endswith('!') and '=' not in doc
                yield {'kind': 'reject' if missing else 'read', 'doc': doc, 'vars': {}, 'op': None}
            elif fits(t, v):
                yield {'kind': 'read', 'doc': doc, 'vars': {'v': v, 'unused': 5}, 'op': None}
    frags = [('F', 'Q'), ('G', 'A')]
    for n in range(1, b['selections'] + 1):
        for sel in selections('Q', n, b['depth'], frags):
            for i, fr in enumerate(FRAGS):
                if '...F' not in sel and '...G' not in sel and i:
                    continue
                ops = ('query', 'mutation') if n < 4 else ('mutation',) if i else ('query',)
                for op in ops:
                    f = fr
                    if op == 'mutation':
                        f, s = fr.replace('on Query', 'on Mutation'), sel.replace('on Query', 'on Mutation')
                    else:
                        s = sel
                    yield {'kind': 'read', 'doc': '%s { %s} %s' % (op, s, f), 'vars': {}, 'op': None}


def judge_ops(case):
    """Expected operation kind, or None if the document has to be rejected."""
    defs = parse(case['doc']).definitions
    ops = [d for d in defs if d.kind == 'operation_definition']
    names = [d.name.value if d.name else None for d in ops]
    frs = [d.name.value for d in defs if d.kind == 'fragment_definition']
    if len(set(names)) < len(names):
        return None
    if case['op'] is None:
        chosen = ops if len(ops) == 1 else []
    else:
        chosen = [o for o, n in zip(ops, names) if n == case['op']]
    if not chosen or len(set(frs)) < len(frs):
        return None
    if names == ['C'] or case['op'] == 'C':
        if 'F' not in frs:
            return None
    return chosen[0].operation.value


def run(case, rec):
    doc, variables, name = case['doc'], case['vars'], case['op']
    rec.traces += 1
    rec.states += 1
    given = canon(variables)
    kind = case['kind']
    expected_op = judge_ops(case) if kind == 'ops' else None
    try:
        op = read_operation(doc, variables, name)
    except Exception as e:
        if kind == 'reject' or (kind == 'ops' and expected_op is None):
            rec.outcome(type(e).__name__)
            rec.count('rejected')
            try:
                read(doc, variables, name)
            except Exception:
                return
            raise Violation('read accepts a document that read_operation rejects')
        op = e
    if kind == 'reject' or (kind == 'ops' and expected_op is None):
        raise Violation('an invalid document was read as %r' % (op if isinstance(op, Exception) else op.query,))
    data = oracle(parse(doc), variables, name)
    if data is None and kind == 'ops':
        # another definition of the document is invalid; the chosen operation still decides the type
        data = 'unknown'
    if data is None:
        rec.count('contradictory')
        return
    if isinstance(op, Exception):
        raise Violation('a valid document was rejected: %s: %s' % (type(op).__name__, op))
    typ = op.type.value.value
    if kind == 'ops' and typ != expected_op:
        raise Violation('the %s operation was read as %s' % (expected_op, typ))
    if name is not None and op.name != name:
        raise Violation('operation %r was read instead of %r' % (op.name, name))
    got = evaluate(op.query)
    if data != 'unknown' and got != data:
        raise Violation('read with another meaning', got=got, expected=data)
    if op.query.ordered != (typ == 'mutation'):
        raise Violation('a %s is%s ordered' % (typ, '' if op.query.ordered else ' not'))
    if op.query.ordered and data != 'unknown' and list(got) != list(data):
        raise Violation('the order of a mutation changed', got=repr(list(got)), expected=repr(list(data)))
    if data != 'unknown':
        want = []
        walk_args(parse(doc), variables, name, want)
        if sorted(links_args(op.query, [])) != sorted(want):
            raise Violation('options of links differ', got=repr(sorted(links_args(op.query, []))),
                            expected=repr(sorted(want)))
    if typ == 'query':
        if read(doc, variables, name) != op.query:
            raise Violation('read and read_operation differ')
    else:
        try:
            read(doc, variables, name)
        except Exception:
            pass
        else:
            raise Violation('read accepts a %s' % typ)
    if canon(variables) != given:
        raise Violation('the variables were modified')
    rec.outcome(got)
    rec.transitions += 1


def walk_args(doc, variables, name, out):
    """Arguments of every link, as graphql-core computes them."""
    seen = set()

    def res(source, info, **args):
        if info.field_name in LINKS:
            path, p = [], info.path
            while p is not None:
                if not isinstance(p.key, int):
                    path.insert(0, p.key)
                p = p.prev
            key = (tuple(path), canon(args))
            if key not in seen:
                seen.add(key)
                out.append(key)
        return resolver(source, info, **args)
    values = dict(variables)
    op = [d for d in doc.definitions if d.kind == 'operation_definition'
          and (name is None or (d.name and d.name.value == name))][0]
    for v in op.variable_definitions or ():
        n = v.variable.name.value
        if n not in values and v.default_value is None and v.type.kind != 'non_null_type':
            values[n] = None
    execute(SCHEMA, doc, field_resolver=res, variable_values=values, operation_name=name)
