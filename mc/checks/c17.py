"""C17: EDN text decodes back to the value it encodes."""
import itertools
from collections import namedtuple
from datetime import date, datetime, time, timedelta, timezone
from decimal import Decimal
from enum import Enum, IntEnum
from fractions import Fraction
from uuid import UUID

from hiku.edn import Dict, Keyword, List, Set, Symbol, TaggedElement, Tuple, dumps, loads

from .. import sizes
from ..core import Violation

PROPERTY = 'C17'
TECHNIQUE = ('explicit enumeration of values, names, strings and layouts, each encoded and decoded by the real codec, against '
             'a typed canonical form; explicit enumeration of damaged texts, which have to be rejected')
LEVEL_NOTE = ('Every value of the bounded grammar (atoms of every kind at their borders, adjacent in every container, nested), '
              'every string and name up to a length over the characters that matter, every layout within the bound, every '
              'truncation, removed, added or exchanged delimiter. Dates before the year 1000, pairs of surrogates in strings '
              'and tags which have handlers given as tagged elements are not judged.')
NOTE = {
    'alphabet': 'nil, booleans, integers, floats, decimals, strings, characters, keywords, symbols, dates, UUIDs, vectors, '
                'lists, sets, maps, tagged elements; separators: space, comma, newline, tab, return, comments, nothing',
    'choices': 'values, nesting, adjacency, escapes, layout and damage are enumerated; the codec is sequential',
    'oracle': 'typed canonical form of the value that was written; rejection of what is not exactly one element',
}

# atoms: (kind, value); JSON-able
STR = ['', 'a', '"', '\\', 'a"\n', '\u00e9', '\u2028', '\U0001f600', ';', ']', '\\u0041', 'nil', '1', '\x00\x1f\x7f', '#{', ',', '\b\f\v\a']
INT = [0, 1, -1, 10, 2 ** 31, -2 ** 63, 2 ** 64, 10 ** 30]
FLT = ['0.0', '-0.0', '1.0', '0.1', '-2.5', '1e16', '1e22', '1e-05', '1e-7', '1.7976931348623157e308', '5e-324', '123456789.125']
DEC = ['0', '1', '-1', '1.10', '-0.5', '1E+5', '1E-7', '0E-10', '123456789012345678901234567890.5']
KEY = ['a', 'a-b', 'a/b', 'a.b', '1', 'nil', 'true', 'a:b', '+', '-1', '_x', 'a?', '\u00e9']
SYM = ['a', 'a-b', 'a/b', 'nilx', 'truex', 'x1', '+', '-', '.', '-a', '*', '/', '_', 'a:b', 'a#b', '<=>', '$', '\u00e9']
INST = ['2020-01-02 03:04:05.000006', '1999-12-31 23:59:59.999999', '1000-01-01 00:00:00.000000', '9999-12-31 00:00:00.100000']
UID = ['00000000-0000-0000-0000-000000000005', 'ffffffff-ffff-ffff-ffff-ffffffffffff']
CHARS = ['a', 'Z', '1', ']', '"', '\\', ';', 'newline', 'space', 'tab', '\u00e9', ',']

ATOMS = ([['nil', None], ['bool', True], ['bool', False]] + [['str', x] for x in STR] + [['int', x] for x in INT]
         + [['flt', x] for x in FLT] + [['dec', x] for x in DEC] + [['key', x] for x in KEY] + [['sym', x] for x in SYM]
         + [['inst', x] for x in INST] + [['uuid', x] for x in UID])
CORE = [['nil', None], ['bool', True], ['str', ''], ['str', 'a"\\'], ['int', 7], ['int', -5], ['flt', '1.5'], ['flt', '1e-07'], ['dec', '1.10'],
        ['key', 'a'], ['sym', 'b'], ['sym', '-'], ['inst', INST[0]], ['uuid', UID[0]], ['vec', []], ['lst', []], ['map', []], ['set', []]]
MINI = [['nil', None], ['str', 'x'], ['int', 1], ['key', 'k'], ['sym', 's'], ['flt', '0.5'], ['vec', []], ['set', []]]
TINY = [['str', 'x'], ['int', 1], ['sym', 's']]

ALPHABET = ['a', '"', '\\', 'n', 'u', '0', '\n', '\t', '\x00', '\x7f', '\u00e9', '\ud800', '\U0001f600', ';', ' ', '/', '\u2028', ']']
NAME_CHARS = ['a', 'Z', '1', '-', '+', '.', '/', '*', '!', '_', '?', '$', '%', '&', '=', '<', '>', ':', '#', '\u00e9', ' ', ',', '"', ']', '(',
              '{', ';', '\\', '\n', "'", '\u00b2']
SEPS = [' ', ',', '\n', '\t', '\r', ' , ', ';c ]"\n', ' ;\n', '\n;a\n;b\n', ';\r1\x0b2\x0c3\x854\u20285\n']
EDGES = ['', ' ', ',\n', ';c\n', ';\x0c1\n']
EXTRA = [' 1', ' nil', ']', ')', '}', ' :a', '"', ' [', '[', ' (', ' {', ' #{', ' "a', ' #a', ' #', ' \\', ' "', ' #inst', ' #uuid "', ' [1']
PREFIX = ['1 ', 'nil ', '[', '(', '{', '#{', ']', '}', ')', '"', ':a ', '"" ', '\\a ', '#a 1 ']


class Level(IntEnum):
    LOW = 5


class Color(str, Enum):
    RED = 'red'


class MyInt(int):
    __str__ = __repr__ = lambda self: 'mine'


class MyFloat(float):
    __str__ = __repr__ = lambda self: 'mine'


class MyStr(str):
    __str__ = __repr__ = lambda self: 'mine'


class MyList(list):
    pass


class MyDict(dict):
    pass


class MySet(set):
    pass


MyPair = namedtuple('MyPair', 'a b')
SUBCLASSES = [('int enum', ['int', 5]), ('int', ['int', 3]), ('float', ['flt', '2.5']), ('str enum', ['str', 'red']), ('str', ['str', 'a"b']),
              ('list', ['vec', [['int', 1]]]), ('dict', ['map', [['str', 'a'], ['int', 1]]]), ('tuple', ['lst', [['int', 1], ['int', 2]]]),
              ('set', ['set', [['int', 1]]])]
ALIEN = ['object', 'bytes', 'bytearray', 'complex', 'range', 'type', 'inf', '-inf', 'nan', 'dec nan', 'dec inf', 'date', 'time', 'delta',
         'fraction', 'ellipsis', 'function', 'iterator', 'aware', 'shifted']
TEXTS = [('1N', ['int', 1]), ('-12N', ['int', -12]), ('0N', ['int', 0]), ('+5', ['int', 5]), ('1e3', ['flt', '1000.0']),
         ('1E3', ['flt', '1000.0']), ('1.5e-3', ['flt', '0.0015']), ('-2.5E+2', ['flt', '-250.0']), ('1.50M', ['dec', '1.50']),
         ('-1E+2M', ['dec', '-1E+2']), ('#{}', ['set', []]), ('""', ['str', '']), ('"\\r\\n\\t"', ['str', '\r\n\t'])]
REJECTED = ['', ' ', ',', '\n', ';c', ';c\n', '\\', '\\ ', '[\\ ]', '[\\\n1]', '(\\\t)', '#', '# ', '#,', '# a', '# {', '#]', '[#]', '[#a]', '#a', '#a ]',
            '#(1)', '#"a"', '{1}', '{1 2 3}', '[{1}]', '#{', '#{1', '"', '"a', '"\\', '"\\"', '"\\u00"', '"\\u00g0"', 'a b', '1 2', '[][]', '""""',
            ':a :b', ']', '[)', '(]', '#{]', '@', '~a', '`a', '^a', '[@]', "'a"]


#: texts of elements
ELEMENTS = ['nil', 'true', 'false', '0', '-1', '0.5', '1M', '""', '"a"', ':k', 's', '\\c', '\\space', '[]', '()', '#{}', '{}', '[1]', '{1 2}',
            '#t 1', '#t nil', '#uuid "%s"' % ('0' * 8 + '-0000-0000-0000-' + '0' * 12), '#inst "2000-01-01T00:00:00.0Z"']


def odd_maps(tier):
    """A value is missing in a map: every element at every place of small maps, and the last one of big maps."""
    for n in (1, 3, 5):
        for i in range(n):
            for e in ELEMENTS:
                for other in ('nil', '1', ':k') if n > 1 else ('1',):
                    t = '{%s}' % ' '.join(e if j == i else other for j in range(n))
                    for around in ('%s', '[%s]', '[1 %s nil]', '{:k %s}', '{%s 1}', '#t %s', '(%s)'):
                        yield around % t
    for n in sizes.ladder(tier, 257):
        if n % 2:
            for e in ELEMENTS[:3] + ELEMENTS[9:10]:
                yield '{%s}' % ' '.join([str(j) for j in range(n - 1)] + [e])


def wraps(*xs):
    """Every container around the elements."""
    xs = list(xs)
    yield ['vec', xs]
    yield ['lst', xs]
    yield ['set', xs]
    if len(xs) % 2 == 0:
        yield ['map', xs]


def values(deep):
    yield from ATOMS
    for a in ATOMS:
        yield from wraps(a)
        yield ['tag', 'my/tag', a]
        yield ['map', [['key', 'k'], a]]
        yield ['map', [a, ['int', 1]]]
        yield ['vec', [['tag', 't', a], ['int', 1]]]
        yield ['set', [['tag', 't', a], ['tag', 'u', a], a]]
        yield ['map', [['tag', 't', a], a, ['vec', [a]], ['int', 1]]]
    for a, b in itertools.product(ATOMS if deep else CORE, CORE):
        yield from wraps(a, b)
        yield ['vec', [['tag', 't', a], b]]
        yield ['tag', 't', ['tag', 'u', ['vec', [a, b]]]]
        yield ['vec', [['vec', [a]], b]]
        yield ['lst', [a, ['map', [b, a]]]]
    if deep:
        for a, b, c in itertools.product(CORE, MINI, CORE):
            yield from wraps(a, b, c)
    for a, b, c in itertools.product(MINI, MINI, MINI):
        yield from wraps(a, b, c)
        for w in wraps(b, c):
            yield ['vec', [a, w]]
            yield ['map', [a, w]]
            yield ['set', [w, a]]
            yield ['tag', 't', ['lst', [w, a]]]
            yield ['map', [w, a]]


def bounds(tier):
    deep = tier != 'quick'
    return {'nesting': 3, 'string_length': 4 if deep else 3, 'name_length': 3 if deep else 2, 'gaps_enumerated': 4 if deep else 3}


BIG = ['vec', 'lst', 'set', 'map', 'mixed', 'string', 'escapes', 'unicode', 'name', 'digits', 'decimal', 'depth', 'layout', 'comment', 'tags', 'characters',
       'strings']


def big(shape, n):
    """(description or None, text or None): of one dimension n."""
    atoms = [['int', 7], ['str', 'a"b'], ['nil', None], ['key', 'k'], ['sym', 's-1'], ['flt', '1.5'], ['bool', True], ['dec', '1.10'], ['uuid', UID[0]],
             ['inst', INST[0]]]
    kinds = ('vec', 'lst', 'set', 'map')
    if shape in ('vec', 'lst'):
        return [shape, [atoms[i % len(atoms)] if i % 11 else ['int', i] for i in range(n)]], None
    if shape == 'set':
        return [shape, [[['int', i], ['str', str(i)], ['key', 'k%d' % i], ['vec', [['int', i]]]][i % 4] for i in range(n)]], None
    if shape == 'map':
        return [shape, [x for i in range(n) for x in ([['int', i], ['str', str(i)], ['key', 'k%d' % i]][i % 3], atoms[i % len(atoms)])]], None
    if shape == 'mixed':
        return ['vec', [[kinds[i % 4], [['int', j] for j in range(2 * (i % 3))]] for i in range(n)]], None
    if shape in ('string', 'escapes', 'unicode'):
        return ['str', ({'string': 'ab c', 'escapes': '"\\\n\t', 'unicode': '\u00e9\U0001f600\u2028'}[shape] * n)[:n]], None
    if shape == 'strings':
        return ['vec', [['str', 'x' * n], ['str', '"' * n], ['vec', [['str', '\\' * n]]], ['int', n]]], None
    if shape == 'name':
        return ['vec', [['key', 'k' * n], ['sym', 's' * n], ['tag', 't' * n, ['int', 1]], ['key', ('a/' * n)[:2 * n - 1]]]], None
    if shape == 'digits':
        return ['vec', [['int', int('9' * n)], ['int', -int('1' + '0' * n)]]], None
    if shape == 'decimal':
        return ['vec', [['dec', '0.' + '1' * n], ['dec', '9' * n + '.5'], ['dec', '1E+%d' % n], ['dec', '-1E-%d' % n]]], None
    if shape == 'depth':
        v = ['int', n]
        for i in range(n):
            v = [['vec', [v, ['int', i]]], ['map', [['key', 'k'], v]], ['lst', [['str', 'x'], v]], ['tag', 't', v], ['vec', [v]]][(i + n) % 5]
        return v, None
    if shape == 'tags':
        v = ['int', n]
        for i in range(n):
            v = ['tag', 't%d' % i, v]
        return v, None
    if shape == 'layout':
        ws = (' ,\n\t' * n)[:n]
        return ['vec', [['int', 1], ['map', [['key', 'k'], ['str', 'x']]]]], ws.join(['', '[', '1', '{', ':k', '"x"', '}', ']', '']) if n > 3 else '[1 {:k "x"}]'
    if shape == 'comment':
        return ['vec', [['int', 1], ['str', ';']]], ';%s\n[1%s";" ;%s\n]%s' % ('c"' * n, ' ;\n' * n, ']' * n, ' ;x\n' * n)
    return ['vec', [['str', 'a'], ['str', '\n']] * n], '[%s]' % ' '.join(['\\a', '\\newline'] * n)


def cases(tier):
    b = bounds(tier)
    deep = tier != 'quick'
    for shape in BIG:
        for n in sizes.ladder(tier, {'depth': 65, 'tags': 65, 'digits': 2001, 'decimal': 257}.get(shape, 1025 if not deep else 4097)):
            yield {'k': 'big', 'shape': shape, 'n': n}
    for v in values(deep):
        yield {'k': 'v', 'v': v}
    for c in CHARS:
        yield {'k': 'char', 'c': c}
    for n in range(1, b['name_length'] + 1):
        if n < 3:
            for cs in itertools.product(range(len(NAME_CHARS)), repeat=n):
                yield {'k': 'name', 'cs': list(cs)}
        else:
            for cs in itertools.product(range(len(NAME_CHARS)), repeat=n - 1):
                yield {'k': 'name', 'cs': list(cs), 'more': 1}
    for n in range(0, b['string_length']):
        for cs in itertools.product(range(len(ALPHABET)), repeat=n):
            yield {'k': 'str', 'cs': list(cs), 'more': 1}
    for n in ('', 'nil', 'true', 'false', 'nil/a', 'a/nil', 'inst', 'uuid', '1N', '1M', '1e3', 'N', 'M', 'true1', '-1a', '+1a',
              '.1a', '-a1', 'a-1', '-1-', '--1', '+-1', '1-1', 'aaa', 'Ab9'):
        yield {'k': 'names', 'n': n}
    for t in ALIEN:
        yield {'k': 'alien', 't': t}
    for t, v in SUBCLASSES:
        yield {'k': 'subclass', 't': t, 'v': v}
    for t, v in TEXTS:
        yield {'k': 'text', 't': t, 'v': v}
    for t in REJECTED:
        yield {'k': 'rejected', 't': t}
    for t in odd_maps(tier):
        yield {'k': 'rejected', 't': t}
    for t in ('a', 'a/b', '_x', '+'):
        yield {'k': 'alike', 't': t}
    layouts = [v for v in small() if count(v) <= (5 if deep else 4)]
    for v in layouts:
        yield {'k': 'layout', 'v': v, 'g': b['gaps_enumerated']}


def small():
    base = TINY + [['key', 'k'], ['nil', None], ['flt', '0.5'], ['dec', '1'], ['uuid', UID[0]]]
    for a in base:
        yield a
        yield from wraps(a)
        yield ['tag', 't', a]
    for a, b in itertools.product(base, base):
        yield from wraps(a, b)
        yield ['tag', 't', ['vec', [a, b]]]
        yield ['vec', [['tag', 't', a], b]]
    for a, b in itertools.product(TINY, TINY):
        for w in wraps(a):
            yield ['vec', [w, b]]
            yield ['lst', [b, w]]
            yield ['map', [w, b]]
            yield ['map', [b, w]]
            yield ['set', [w, b]]
            yield ['tag', 't', w]


def count(v):
    if v[0] in ('vec', 'lst', 'set', 'map'):
        return 1 + sum(count(x) for x in v[1])
    return 1 + count(v[2]) if v[0] == 'tag' else 1


# -- values, canonical forms and texts of the descriptions

def value(v, frozen=False, own=False):
    """own: use the types of the codec instead of those of Python."""
    kind = v[0]
    if kind in ('nil', 'bool', 'str', 'int'):
        return v[1]
    if kind == 'flt':
        return float(v[1])
    if kind == 'dec':
        return Decimal(v[1])
    if kind == 'key':
        return Keyword(v[1])
    if kind == 'sym':
        return Symbol(v[1])
    if kind == 'inst':
        return datetime.strptime(v[1], '%Y-%m-%d %H:%M:%S.%f')
    if kind == 'uuid':
        return UUID(v[1])
    if kind == 'tag':
        return TaggedElement(v[1], value(v[2], frozen, own))
    if kind == 'vec':
        return (List if own or frozen else list)(value(x, frozen, own) for x in v[1])
    if kind == 'lst':
        return (Tuple if own else tuple)(value(x, frozen, own) for x in v[1])
    if kind == 'set':
        return (Set if own or frozen else set)(value(x, True, own) for x in v[1])
    keys = [value(x, True, own) for x in v[1][::2]]
    return (Dict if own or frozen else dict)(zip(keys, [value(x, frozen, own) for x in v[1][1::2]]))


def canon(v):
    kind = v[0]
    if kind == 'tag':
        return ('tag', v[1], canon(v[2]))
    if kind in ('vec', 'lst'):
        return (kind, tuple(canon(x) for x in v[1]))
    if kind == 'set':
        return (kind, tuple(sorted((canon(x) for x in v[1]), key=repr)))
    if kind == 'map':
        return (kind, tuple(sorted(((canon(k), canon(x)) for k, x in zip(v[1][::2], v[1][1::2])), key=repr)))
    if kind == 'flt':
        return (kind, repr(float(v[1])))
    if kind == 'dec':
        return (kind, tuple(Decimal(v[1]).as_tuple()))
    if kind == 'uuid':
        return (kind, str(UUID(v[1])))
    return (kind, v[1])


def read_canon(x):
    """Canonical form of what was decoded, by exact types."""
    if x is None:
        return ('nil', None)
    t = type(x)
    if t is bool:
        return ('bool', x)
    if t is int:
        return ('int', x)
    if t is float:
        return ('flt', repr(x))
    if t is Decimal:
        return ('dec', tuple(x.as_tuple()))
    if t is str:
        return ('str', x)
    if t is Keyword:
        return ('key', str(x))
    if t is Symbol:
        return ('sym', str(x))
    if t is datetime:
        return ('inst', x.strftime('%Y-%m-%d %H:%M:%S.%f') if x.tzinfo is None else repr(x))
    if t is UUID:
        return ('uuid', str(x))
    if isinstance(x, TaggedElement):
        return ('tag', x.name, read_canon(x.value))
    if t is List:
        return ('vec', tuple(read_canon(i) for i in x))
    if t is Tuple:
        return ('lst', tuple(read_canon(i) for i in x))
    if t is Set:
        return ('set', tuple(sorted((read_canon(i) for i in x), key=repr)))
    if t is Dict:
        return ('map', tuple(sorted(((read_canon(k), read_canon(i)) for k, i in x.items()), key=repr)))
    return ('other', t.__name__, repr(x))


OPEN = {'vec': '[', 'lst': '(', 'map': '{', 'set': '#{'}
CLOSE = {'vec': ']', 'lst': ')', 'map': '}', 'set': '}'}


def quote(s):
    return '"%s"' % ''.join({'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\r': '\\r'}.get(c, c) for c in s)


def tokens(v):
    """[(kind of token, text)], kinds: open, close, str, atom, tag."""
    kind = v[0]
    if kind in OPEN:
        res = [('open', OPEN[kind])]
        for x in v[1]:
            res += tokens(x)
        return res + [('close', CLOSE[kind])]
    if kind == 'tag':
        return [('tag', '#' + v[1])] + tokens(v[2])
    if kind == 'nil':
        return [('atom', 'nil')]
    if kind == 'bool':
        return [('atom', 'true' if v[1] else 'false')]
    if kind == 'str':
        return [('str', quote(v[1]))]
    if kind == 'key':
        return [('atom', ':' + v[1])]
    if kind == 'dec':
        return [('atom', v[1] + 'M')]
    if kind == 'inst':
        return [('tag', '#inst'), ('str', '"%sZ"' % v[1].replace(' ', 'T'))]
    if kind == 'uuid':
        return [('tag', '#uuid'), ('str', '"%s"' % v[1])]
    return [('atom', str(v[1]))]


def optional(a, b):
    """No separator is needed between these tokens."""
    if a[0] in ('atom', 'tag'):
        return b[0] == 'close' or b[0] == 'str' or (b[0] == 'open' and b[1] != '#{')
    return True


# -- checks

def decode(text, want, rec, what):
    rec.states += 1
    rec.transitions += 1
    rec.traces += 1
    try:
        got = read_canon(loads(text))
    except Exception as e:
        raise Violation('%s is rejected: %s: %s' % (what, type(e).__name__, e), text=repr(text))
    if got != want:
        raise Violation('%s decodes to another value' % what, text=repr(text), got=repr(got), expected=repr(want))


def rejected(text, rec, what):
    rec.states += 1
    rec.transitions += 1
    rec.traces += 1
    try:
        got = loads(text)
    except Exception as e:
        rec.outcome(type(e).__name__)
        return
    raise Violation('%s is accepted' % what, text=repr(text), got=repr(got))


def encodings(v, rec, what):
    """All encodings of the description, which has to be encodable."""
    want = canon(v)
    seen = []
    for own in (False, True):
        for frozen in (False, True):
            x = value(v, frozen, own)
            for ascii_ in (True, False):
                text = dumps(x, ensure_ascii=ascii_)
                if not isinstance(text, str) or (ascii_ and not names_non_ascii(v) and not text.isascii()):
                    raise Violation('not escaped to ASCII', text=repr(text))
                if text in seen:
                    continue
                seen.append(text)
                decode(text, want, rec, what)
    return want, seen


def names_non_ascii(v):
    if v[0] in ('key', 'sym'):
        return not v[1].isascii()
    if v[0] == 'tag':
        return not v[1].isascii() or names_non_ascii(v[2])
    return isinstance(v[1], list) and any(names_non_ascii(x) for x in v[1])


def merged_numbers(v):
    """The description with numbers by value, as elements of sets and keys of maps are told apart."""
    kind = v[0]
    if kind in ('bool', 'int'):
        return 'num', repr(Decimal(int(v[1])).normalize())
    if kind in ('flt', 'dec'):
        d = Decimal(float(v[1]) if kind == 'flt' else v[1])
        return 'num', repr(d.normalize() if d else Decimal(0))
    if kind == 'tag':
        return kind, v[1], merged_numbers(v[2])
    if kind in ('vec', 'lst'):
        return 'seq', tuple(merged_numbers(x) for x in v[1])
    if kind == 'set':
        return kind, tuple(sorted(merged_numbers(x) for x in v[1]))
    if kind == 'map':
        return kind, tuple(sorted((merged_numbers(k), merged_numbers(x)) for k, x in zip(v[1][::2], v[1][1::2])))
    return canon(v)


def collides(v):
    """Has elements of a set or keys of a map which are equal."""
    if v[0] == 'tag':
        return collides(v[2])
    if not isinstance(v[1], list):
        return False
    if any(collides(x) for x in v[1]):
        return True
    if v[0] in ('set', 'map'):
        keys = v[1] if v[0] == 'set' else v[1][::2]
        return len({merged_numbers(k) for k in keys}) != len(keys)
    return False


def damage(v, rec):
    toks = tokens(v)
    text = join(toks, lambda a, b: '' if optional(a, b) else ' ')
    for e in EXTRA:
        rejected(text + e, rec, 'text with something after the element')
    for p in PREFIX if ';' not in text else [p for p in PREFIX if p != '"']:
        rejected(p + text, rec, 'text with something before the element')
    # up to the end of the last delimiter or string, any cut leaves the element incomplete
    end = len(text) if toks[-1][0] in ('close', 'str') else len(text) - len(toks[-1][1])
    for n in range(end):
        rejected(text[:n], rec, 'truncated text')
    for i, (kind, t) in enumerate(toks):
        if kind in ('open', 'close'):
            rejected(join(toks[:i] + toks[i + 1:], lambda a, b: ' '), rec, 'text without a delimiter')
            for other in ')]}' if kind == 'close' else ('(', '[', '{', '#{'):
                if other[-1] != t[-1]:
                    rejected(join(toks[:i] + [(kind, other)] + toks[i + 1:], lambda a, b: ' '), rec, 'text with unmatched delimiters')


def join(toks, sep):
    out = []
    for i, t in enumerate(toks):
        if i:
            out.append(sep(toks[i - 1], t))
        out.append(t[1])
    return ''.join(out)


def layout(v, rec, gaps_bound):
    want = canon(v)
    toks = tokens(v)
    gaps = [SEPS + ([''] if optional(a, b) else []) for a, b in zip(toks, toks[1:])]
    if len(gaps) <= gaps_bound:
        combos = itertools.product(*gaps)
    else:
        def few():
            for s in SEPS + ['']:
                base = [s if s in g else ' ' for g in gaps]
                yield base
                for i, g in enumerate(gaps):
                    for alt in g:
                        yield base[:i] + [alt] + base[i + 1:]
        combos = few()
    for combo in combos:
        text = ''.join(t[1] + s for t, s in itertools.zip_longest(toks, combo, fillvalue=''))
        decode(text, want, rec, 'text with another layout')
    text = join(toks, lambda a, b: '' if optional(a, b) else ' ')
    for a in EDGES:
        for b in EDGES + [';c']:
            decode(a + text + b, want, rec, 'text with something around the element')
    handled = loads(text, tag_handlers={'t': lambda x: Keyword('handled')})
    if read_canon(handled) != canon(substitute(v)):
        raise Violation('the handler of the tag is not used', text=text, got=repr(handled))


def substitute(v):
    if v[0] == 'tag':
        return ['key', 'handled'] if v[1] == 't' else ['tag', v[1], substitute(v[2])]
    if isinstance(v[1], list):
        return [v[0], [substitute(x) for x in v[1]]]
    return v


def run(case, rec):
    kind = case['k']
    if kind in ('v', 'layout') and collides(case['v']):
        rec.traces += 1
        return
    if kind == 'v':
        v = case['v']
        want, texts = encodings(v, rec, 'encoded text')
        rec.outcome(want)
        for t in texts:
            again = dumps(loads(t))
            decode(again, want, rec, 'text encoded again')
        if count(v) <= 4:
            damage(v, rec)
    elif kind == 'big':
        v, text = big(case['shape'], case['n'])
        want, texts = encodings(v, rec, 'encoded text')
        if text is not None:
            decode(text, want, rec, 'text')
        decode(dumps(loads(texts[0])), want, rec, 'text encoded again')
        for t in texts[:1] + ([text] if text else []):
            if case['shape'] != 'comment':
                for e in EXTRA:
                    rejected(t + e, rec, 'text with something after the element')
            t = t.rstrip(' ,\n\t')
            if t[-1] in ')]}"' and case['shape'] != 'comment':
                for cut in {1, 2, len(t) // 2}:
                    rejected(t[:-cut], rec, 'truncated text')
    elif kind == 'layout':
        layout(case['v'], rec, case['g'])
    elif kind == 'names':
        name(case['n'], rec)
    elif kind == 'alien':
        alien(case['t'], rec)
    elif kind == 'subclass':
        x = {'int enum': Level.LOW, 'int': MyInt(3), 'float': MyFloat(2.5), 'str enum': Color.RED, 'str': MyStr('a"b'), 'list': MyList([1]),
             'dict': MyDict(a=1), 'tuple': MyPair(1, 2), 'set': MySet([1])}[case['t']]
        for y, v in ((x, case['v']), ([x], ['vec', [case['v']]]), ({'a': x}, ['map', [['str', 'a'], case['v']]]),
                     (TaggedElement('t', (x,)), ['tag', 't', ['lst', [case['v']]]])):
            decode(dumps(y), canon(v), rec, 'text of a value of a subclass')
    elif kind == 'text':
        decode(case['t'], canon(case['v']), rec, 'text')
        for v in (['vec', [case['v']]], ['lst', [case['v'], case['v']]], ['map', [['str', 'x'], case['v']]]):
            text = {'vec': '[%s]', 'lst': '(%s %s)', 'map': '{"x" %s}'}[v[0]].replace('%s', case['t'])
            decode(text, canon(v), rec, 'text')
    elif kind == 'rejected':
        rejected(case['t'], rec, 'text that is not one complete element')
    elif kind == 'alike':
        alike(case['t'], rec)
    elif kind == 'char':
        c = case['c']
        want = ('str', {'newline': '\n', 'space': ' ', 'tab': '\t'}.get(c, c))
        for text, w in (('\\%s', want), ('[\\%s]', ('vec', (want,))), ('[\\%s 1]', ('vec', (want, ('int', 1)))),
                        ('{\\%s \\%s}', ('map', ((want, want),))), ('(\\%s,\\%s)', ('lst', (want, want))), ('#{\\%s}', ('set', (want,))),
                        ('#t \\%s', ('tag', 't', want)), ('#t\\%s', ('tag', 't', want)), ('[#t \\%s]', ('vec', (('tag', 't', want),))), ('\\%s ;c', want)):
            decode(text.replace('%s', c), w, rec, 'character')
    elif kind == 'str':
        base = ''.join(ALPHABET[i] for i in case['cs'])
        for c in [''] + ALPHABET:
            s = base + c
            v = ['str', s]
            want, _ = encodings(v, rec, 'string')
            encodings(['vec', [v, v]], rec, 'strings side by side')
            encodings(['map', [v, ['tag', 't', v]]], rec, 'string in a map')
            esc = '"%s"' % ''.join('\\u%04X' % u for u in units(s))
            decode(esc, want, rec, 'escaped string')
            decode('[%s%s]' % (esc, esc.lower().replace('\\u', '\\u')), ('vec', (want, want)), rec, 'escaped strings')
            rec.outcome(s)
    else:
        base = ''.join(NAME_CHARS[i] for i in case['cs'])
        for s in ([base] if not case.get('more') else [base + c for c in NAME_CHARS]):
            name(s, rec)


def alien(tag, rec):
    """What the codec has no notation for is refused, or comes back as it was."""
    x = {'object': object(), 'bytes': b'ab', 'bytearray': bytearray(b'a'), 'complex': 1j, 'range': range(2), 'type': int, 'inf': float('inf'),
         '-inf': float('-inf'), 'nan': float('nan'), 'dec nan': Decimal('NaN'), 'dec inf': Decimal('Infinity'), 'date': date(2020, 1, 2),
         'time': time(1, 2), 'delta': timedelta(1), 'fraction': Fraction(1, 2), 'ellipsis': ..., 'function': len, 'iterator': iter([1]),
         'aware': datetime(2020, 1, 2, tzinfo=timezone.utc), 'shifted': datetime(2020, 1, 2, tzinfo=timezone(timedelta(hours=2)))}[tag]
    frames = [lambda y: y, lambda y: [y], lambda y: (1, y), lambda y: {'k': y}, lambda y: TaggedElement('t', y), lambda y: [[{'a': [y]}]]]
    if tag not in ('bytearray', 'iterator'):
        frames += [lambda y: {y}, lambda y: {y: 1}]
    if tag in ('inf', '-inf', 'nan', 'dec nan', 'dec inf', 'aware', 'shifted', 'iterator'):   # kinds that have a notation
        converted = []
    else:
        converted = [['nil', None], ['str', 'a"'], ['key', 'k'], ['vec', [['int', 1], ['sym', 's']]], ['map', [['key', 'k'], ['lst', []]]],
                     ['tag', 'u', ['int', 1]]]
    for frame in frames:
        for v in converted:
            text = dumps(frame(x), default=lambda y: value(v))
            decode(text, read_canon(loads(dumps(frame(value(v, True))))), rec, 'text of a converted value')
    for frame in frames:
        rec.states += 1
        rec.transitions += 1
        rec.traces += 1
        try:
            text = dumps(frame(x))
        except Exception as e:
            rec.outcome(type(e).__name__)
            continue
        try:
            got, want = loads(text), loads(dumps(frame('stand-in')))
            same = holds(got, want, x)
        except Exception as e:
            raise Violation('the text of an accepted value is rejected: %s' % type(e).__name__, text=text)
        if not same:
            raise Violation('a value without a notation is encoded as another one', value=repr(x), text=text)


def holds(got, want, x):
    """got is want with x for the stand-in."""
    if want == 'stand-in':
        return type(got) is type(x) and got == x
    if type(got) is not type(want):
        return False
    if isinstance(want, TaggedElement):
        return got.name == want.name and holds(got.value, want.value, x)
    if isinstance(want, Dict):
        return len(got) == len(want) and all(holds(k, j, x) and holds(got[k], want[j], x) for k, j in zip(got, want))
    if isinstance(want, (Set, Tuple, List)):
        return len(got) == len(want) and all(holds(g, w, x) for g, w in zip(got, want))
    return got == want


def alike(t, rec):
    """A string, a keyword, a symbol and tagged elements of the same text are different values."""
    ks = [['str', t], ['key', t], ['sym', t], ['vec', [['str', t]]], ['vec', [['key', t]]], ['str', ':' + t]]
    if t != '+':
        ks += [['tag', t, ['str', t]], ['tag', t, ['sym', t]], ['tag', t + 't', ['str', t]]]
    vals = [loads(dumps(value(k, True))) for k in ks]
    for i, x in enumerate(vals):
        for j, y in enumerate(vals):
            if (x == y) is not (i == j) or (x != y) is not (i != j):
                raise Violation('values which differ are equal, or the reverse', first=repr(x), second=repr(y))
    for n in (2, 3):
        for c in itertools.combinations(ks, n):
            encodings(['set', list(c)], rec, 'set of values alike')
            encodings(['map', [e for k in c for e in (k, ['int', 1])]], rec, 'map of keys alike')
            encodings(['vec', list(c)], rec, 'values alike')


def units(s):
    b = s.encode('utf-16-be', 'surrogatepass')
    return [b[i] * 256 + b[i + 1] for i in range(0, len(b), 2)]


def name(s, rec):
    plain = s.isascii() and s.isalnum()
    for kind in ('key', 'sym', 'tag'):
        if kind == 'tag' and s in ('inst', 'uuid'):
            continue
        v = [kind, s] if kind != 'tag' else ['tag', s, ['int', 1]]
        must = plain and s not in ('nil', 'true', 'false') and (kind == 'key' or s[0].isalpha()) and s not in ('inst', 'uuid')
        try:
            dumps(value(v))
        except ValueError:
            rec.count('rejected')
            rec.traces += 1
            if must:
                raise Violation('a plain name can not be encoded', name=repr(s), kind=kind)
            continue
        encodings(v, rec, 'name')
        w = ['str', 'x']
        for u in (['vec', [v]], ['vec', [v, v]], ['lst', [w, v, w]], ['map', [['int', 1], v]], ['tag', 't', v], ['vec', [['vec', [v]], v, ['set', []]]]):
            encodings(u, rec, 'name')
        encodings(['set', [v, w]], rec, 'name')
        encodings(['map', [v, v]], rec, 'name')
        rec.outcome((kind, s))
