"""C29: exported kinko type definitions denote exactly the types of the graph."""
import itertools

from hiku.graph import Field, Graph, Link, Node, Root
from hiku.typedef.kinko import dumps

from .. import sizes
from ..core import Violation
from ..world import link_type, mk_type, with_root

PROPERTY = 'C29'
TECHNIQUE = ('explicit enumeration of type expressions and graphs; the text is read back by an independent parser and '
             'compared with the declared types')
LEVEL_NOTE = ('All type expressions up to the nesting depth at every kind of place (root field, node field, data type), and all '
              'sequences of members of a core set up to the given length, with and without descriptions.')
NOTE = {
    'alphabet': 'scalar types, unknown types, references to nodes and data types, optionals, sequences, mappings with '
                'scalar keys, records of 0-2 fields; links of every kind; 7 descriptions (empty, several lines, with ; and :)',
    'oracle': 'an independent parser of the indented text',
}
SCALARS = ['Bool', 'Str', 'Int', 'Float', 'Any', ['ref', 'D'], ['ref', 'E'], ['ref', 'A']]
DOCS = [None, 'one doc', '', 'two\nlines', 'a ; b', ':x String', ' \r\n\ttype Q\n\n  Record ']
NAMES = {'Bool': 'Boolean', 'Str': 'String', 'Int': 'Integer', 'Float': 'Unknown', 'Any': 'Unknown'}


def bounds(tier):
    q = tier == 'quick'
    return {'nesting': 3 if q else 4, 'members': 3 if q else 4}


def types(depth, core):
    """Type expressions with exactly `depth` containers on the longest path."""
    if depth == 0:
        for t in core:
            yield t
        return
    for t in types(depth - 1, core):
        yield ['opt', t]
        yield ['seq', t]
        yield ['map', 'Str', t]
        yield ['rec', {'f': t}]
        yield ['rec', {'p': 'Int', 'q': t}]
        yield ['rec', {'q': t, 'r': ['opt', 'Str']}]
    if depth == 1:
        yield ['map', 'Int', 'Any']
        yield ['rec', {}]


MEMBERS = [
    {}, {'type': 'Str'}, {'type': 'Any'}, {'type': ['opt', 'Int']}, {'type': ['seq', ['opt', 'Str']]},
    {'type': ['rec', {'b': 'Bool', 'c': ['seq', ['ref', 'D']]}]}, {'type': ['ref', 'E']}, {'type': ['map', 'Str', ['seq', 'Int']]},
    {'to': 'A', 'kind': 'One'}, {'to': 'B', 'kind': 'Maybe'}, {'to': 'A', 'kind': 'Many'},
]


def cases(tier):
    b = bounds(tier)
    for d in range(b['nesting'] + 1):
        core = SCALARS if d < 3 else ['Str', ['ref', 'D'], 'Any']
        for t in types(d, core):
            yield {'type': t}
    for shape, top in SHAPES.items():
        for n in sizes.ladder(tier, top[tier != 'quick']):
            yield {'shape': shape, 'n': n}
    idx = range(len(MEMBERS))
    for n in range(b['members']):
        for sel in itertools.product(idx, repeat=n):
            yield {'members': [MEMBERS[i] for i in sel]}
    for a, b in itertools.permutations(WORDS, 2):
        yield {'words': [a, b]}
    docs = range(len(DOCS))
    for i in idx:
        for j in idx:
            yield {'members': [MEMBERS[i], MEMBERS[j]], 'docs': [[x, y, z] for x in docs for y in docs for z in (0, 1, 3)]}
    for i, j, k in itertools.product(idx, repeat=3):
        yield {'members': [MEMBERS[i], MEMBERS[j], MEMBERS[k]], 'docs': [list(x) for x in itertools.product((0, 1, 3), repeat=4)]}


# ---- independent reading of the text ----

def parse(text):
    """[(name, type, comment)] of the definitions; records are dicts of name -> (type, comment)."""
    lines = []
    if not text.endswith('\n'):
        raise Violation('the text does not end with a newline', text=text)
    for line in text.split('\n'):
        code, sep, comment = line.partition(';')
        if not code.strip():
            if sep:
                raise Violation('a comment at no definition', text=text)
            continue
        ind = len(code) - len(code.lstrip(' '))
        lines.append((ind, code.split(), comment.split() if sep else None))
    pos = [0]

    def below(ind):
        return pos[0] < len(lines) and lines[pos[0]][0] > ind

    def typ(ind, words):
        """The type that starts with the given words of a line, or else on the next lines."""
        if not words:
            if not below(ind):
                raise Violation('a type is missing', text=text)
            ind, words, comment = lines[pos[0]]
            pos[0] += 1
            if comment is not None:
                raise Violation('a comment at a part of a type', text=text)
        w = words.pop(0)
        if w in ('Option', 'List'):
            return ('opt' if w == 'Option' else 'seq', typ(ind, words))
        if w == 'Dict':
            if not words:
                raise Violation('a key type is missing', text=text)
            return ('map', words.pop(0), typ(ind, words))
        if words:
            raise Violation('unexpected %r' % words, text=text)
        if w == 'Record':
            res = {}
            at = lines[pos[0]][0] if below(ind) else None
            while at is not None and pos[0] < len(lines) and lines[pos[0]][0] == at:
                name, comment, t = member(at, ':')
                if name in res:
                    raise Violation('a field is repeated', text=text)
                res[name] = (t, comment)
            return ('rec', res)
        return w

    def member(ind, mark):
        _, words, comment = lines[pos[0]]
        pos[0] += 1
        name = words.pop(0)
        if mark == ':':
            if not name.startswith(':'):
                raise Violation('not a field: %s' % name, text=text)
            name = name[1:]
        else:
            if name != 'type' or not words:
                raise Violation('not a definition: %s' % name, text=text)
            name = words.pop(0)
        return name, comment, typ(ind, words)
    res = []
    while pos[0] < len(lines):
        if lines[pos[0]][0] != 0:
            raise Violation('unexpected indentation', text=text)
        name, comment, t = member(0, 'type')
        res.append((name, t, comment))
    return res


def want_type(t):
    if isinstance(t, str):
        return NAMES[t]
    k = t[0]
    if k == 'ref':
        return t[1]
    if k == 'map':
        return ('map', want_type(t[1]), want_type(t[2]))
    if k == 'rec':
        return ('rec', {n: (want_type(x), None) for n, x in t[1].items()})
    return (k, want_type(t[1]))


def want_member(m):
    if 'to' in m:
        return {'One': m['to'], 'Maybe': ('opt', m['to']), 'Many': ('seq', m['to'])}[m['kind']]
    return None if m.get('type') in (None, 'Any') else want_type(m['type'])


def _(*args):
    raise NotImplementedError


def mk(name, m, doc):
    if 'to' in m:
        return Link(name, link_type(m), _, requires=None, description=doc)
    return Field(name, mk_type(m.get('type')), _, description=doc)


WORDS = ['_A', '__B', 'C_', '_1', 'x', 'type', 'Type2', '_', 'any', 'A_b', 'root', '__root', 'd9']


def check_words(a, b, rec):
    """Names of nodes, data types and members of any form."""
    for docs in (None, 'doc'):
        t = [mk_type('Str'), mk_type(['seq', ['ref', b]]), mk_type(['rec', {a: 'Int', b: ['opt', ['ref', b]]}])]
        fields = lambda: [Field(a, t[0], _, description=docs), Field(b, t[1], _), Link(a + b, link_type({'to': a, 'kind': 'Many'}), _, requires=None)]
        members = fields()
        # members of the root are in one namespace with nodes and data types
        graph = Graph([Node(a, members, description=docs),
                       Root([Field('m_' + f.name, f.type, _) if not isinstance(f, Link) else
                             Link('m_' + f.name, f.type, _, requires=None) for f in fields()])], data_types={b: t[2]})
        text = dumps(graph)
        got = {n: x for n, x, _c in parse(text)}
        types = {a: 'String', b: ('seq', b), a + b: ('seq', a)}
        want = {a: ('rec', {n: (x, ['doc'] if docs and n == a else None) for n, x in types.items()}),
                b: ('rec', {a: ('Integer', None), b: (('opt', b), None)})}
        want.update(('m_' + n, x) for n, x in types.items())
        if got != want:
            raise Violation('the exported definitions differ from the graph', expected=repr(want), got=repr(got), text=text)
        rec.traces += 1
        rec.states += 1
        rec.outcome(text)


DATA = {'D': ['rec', {'u': 'Str', 'w': ['opt', ['ref', 'E']]}], 'E': ['rec', {'k': 'Int'}]}


def check(members, docs, data, rec):
    """members of node A and of the root; docs: of the node A, then of each member."""
    comment = [None if d is None else d.split() for d in docs]
    names = ['m%d' % i for i in range(len(members))]
    node = [mk(n, m, d) for n, m, d in zip(names, members, docs[1:])]
    root = [mk('r' + n, m, d) for n, m, d in zip(names, members, docs[1:])]
    graph = Graph(with_root([Node('A', node, description=docs[0]), Node('B', [Field('v', mk_type('Str'), _)])], root),
                  data_types={n: mk_type(t) for n, t in data.items()})
    text = dumps(graph)
    want = [(n, want_type(t), None) for n, t in data.items()]
    wanted = [(n, want_member(m), c) for n, m, c in zip(names, members, comment[1:])]
    want.append(('A', ('rec', {n: (t, c) for n, t, c in wanted if t is not None}), comment[0]))
    want.append(('B', ('rec', {'v': ('String', None)}), None))
    want += [('r' + n, t, c) for n, t, c in wanted if t is not None]
    got = parse(text)
    key = lambda d: d[0]
    if sorted(got, key=key) != sorted(want, key=key):
        raise Violation('the exported definitions differ from the graph', expected=repr(want), got=repr(got), text=text)
    for (n, t, _c), (_n, x, _d) in zip(sorted(got, key=key), sorted(want, key=key)):
        if t[0] == 'rec' and list(t[1]) != list(x[1]):
            raise Violation('fields are in another order', text=text)
    if dumps(graph) != text:
        raise Violation('exporting once more gives another text', text=text)
    rec.traces += 1
    rec.states += 1
    rec.transitions += text.count('\n')
    rec.outcome(text)


SHAPES = {'members': (257, 1025), 'nodes': (129, 513), 'data types': (257, 1025), 'record': (257, 1025), 'depth': (33, 65), 'doc': (257, 1025),
          'names': (65, 257)}


def check_big(shape, n, rec):
    nest = lambda i, t: [['opt', t], ['seq', t], ['map', 'Str', t], ['rec', {'p': t, 'q': 'Int'}], ['rec', {'p': 'Str', 'q': t}]][i % 5]
    docs = ['doc %d' % i if i % 3 else None for i in range(n + 1)]
    if shape == 'members':
        check([MEMBERS[(i * 7) % len(MEMBERS)] for i in range(n)], docs, DATA, rec)
    elif shape == 'data types':
        data = {'X%d' % i: nest(i, ['ref', 'X%d' % ((i * 3 + 1) % n)] if i % 2 else 'Str') for i in range(n)}
        check([{'type': ['ref', x]} for x in data], docs, dict(data, **DATA), rec)
    elif shape == 'record':
        t = ['rec', {'f%d' % i: nest(i, SCALARS[i % len(SCALARS)]) if i % 4 == 1 else SCALARS[i % len(SCALARS)] for i in range(n)}]
        check([{'type': t}, {'type': 'Str'}], docs[:1] * 3, dict({'X': t}, **DATA), rec)
    elif shape == 'depth':
        for start in range(5):
            t = 'Str'
            for i in range(n):
                t = nest(start * (i + 1) + (i // 5 if start < 3 else i), t)
            check([{'type': t}, {'type': 'Int'}], [None, 'doc', None], dict(DATA, X=t), rec)
    elif shape == 'doc':
        for d in ('w' * n, 'w ' * n, '\n'.join(['line'] * n), ' ' * n + 'w', 'w ;' * n):
            check([MEMBERS[1], MEMBERS[5]], [d, d, d], DATA, rec)
    elif shape == 'names':
        graph = Graph([Node('N' * n, [Field('f' * n, mk_type('Str'), _), Field('g' * n, mk_type(['ref', 'D' * n]), _)]), Root([])],
                      data_types={'D' * n: mk_type(['rec', {'k' * n: 'Int'}])})
        text = dumps(graph)
        want = {'N' * n: ('rec', {'f' * n: ('String', None), 'g' * n: ('D' * n, None)}), 'D' * n: ('rec', {'k' * n: ('Integer', None)})}
        got = {x: t for x, t, c in parse(text)}
        if got != want:
            raise Violation('the exported definitions differ from the graph', expected=repr(want), got=repr(got), text=text)
        rec.traces += 1
        rec.states += 1
    else:
        kinds = ['One', 'Maybe', 'Many']
        nodes = {'N%d' % i: [{'type': 'Str'}, {'to': 'N%d' % ((i * 5 + 2) % n), 'kind': kinds[i % 3]}] for i in range(n)}
        root = [{'to': x, 'kind': kinds[i % 3]} for i, x in enumerate(nodes)]
        graph = Graph([Node(x, [mk('m%d' % j, m, docs[i]) for j, m in enumerate(ms)], description=docs[i]) for i, (x, ms) in enumerate(nodes.items())] +
                      [Root([mk('r%d' % i, m, docs[i])]) for i, m in enumerate(root)], data_types={k: mk_type(t) for k, t in DATA.items()})
        com = [None if d is None else d.split() for d in docs]
        want = [(x, want_type(t), None) for x, t in DATA.items()]
        want += [(x, ('rec', {'m0': ('String', com[i]), 'm1': (want_member(ms[1]), com[i])}), com[i]) for i, (x, ms) in enumerate(nodes.items())]
        want += [('r%d' % i, want_member(m), com[i]) for i, m in enumerate(root)]
        got = parse(dumps(graph))
        if sorted(got, key=repr) != sorted(want, key=repr):
            raise Violation('the exported definitions differ from the graph', expected=repr(want), got=repr(got))
        rec.traces += 1
        rec.states += 1
        rec.outcome(n)


def run(case, rec):
    if 'shape' in case:
        return check_big(case['shape'], case['n'], rec)
    if 'words' in case:
        return check_words(*case['words'], rec)
    if 'type' in case:
        t = case['type']
        for m in ([{'type': t}], [{'type': t}, {'type': 'Str'}], [{'type': 'Str'}, {'type': t}]):
            for doc in (None, 'doc', 'two\nlines'):
                check(m, [doc] * (len(m) + 1), DATA, rec)
        if t != 'Any':
            check([{'type': ['ref', 'X']}], [None, None], dict(DATA, X=t), rec)
            check([], [None], dict({'X': t}, **DATA), rec)
        return
    for docs in case.get('docs') or [[0] * (len(case['members']) + 1)]:
        check(case['members'], [DOCS[i] for i in docs], DATA, rec)
