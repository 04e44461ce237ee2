"""C30: a result answers reads for exactly what was queried, and reading never changes it."""
import itertools

from hiku.result import denormalize

from .. import sizes
from ..core import Violation
from ..enginex import Run
from ..family import SAME, G1, G1N, Trees, g1, plain
from ..sched import Chooser
from ..world import World, item4

PROPERTY = 'C30'
TECHNIQUE = ('explicit enumeration of queries and of every read at every place of their results; and, for small queries, of '
             'all histories of reads up to a length, each followed by a full comparison')
LEVEL_NOTE = ('All merged queries up to the item bound over the C01 graphs, with every assignment of aliases from a set which '
              'contains names of other members, one schedule each (independence of the schedule is C01).')
NOTE = {
    'alphabet': 'selections; aliases: none, a new name, the name of another member; reads: every member name of the graph, '
                'every alias and unknown names, by item and by attribute; denormalization',
    'oracle': 'reference evaluation of the query; KeyError / AttributeError for anything that is not selected at that place',
}


def bounds(tier):
    q = tier == 'quick'
    return {'items_per_query': 4 if q else 5, 'depth': 3 if q else 4, 'items_with_aliases': 3 if q else 4,
            'history_items': 2 if q else 3, 'history': 2}


def cases(tier):
    b = bounds(tier)
    for case in sizes.cases(tier, ('objects', 'repeated', 'spread', 'fields', 'loaders', 'links', 'aliases', 'link-aliases', 'same', 'options',
                                   'depth', 'mixed-links', 'words')):
        if case['shape'] != 'words' or sizes.ROLES[case['n'] % len(sizes.ROLES)] != 'records':
            yield case
    for n in sizes.ladder(tier, 65 if tier == 'quick' else 257):
        yield {'reads': n}
    for spec, names in ((G1, ('dense', 'dup', 'sparse', 'falsy')), (G1N, SAME)):
        for items in Trees(spec).upto(b['items_per_query'], b['depth']):
            yield {'edges': list(names), 'items': plain(items)}
        for items in Trees(spec).upto(b['items_with_aliases'], b['depth']):
            for edges in names:
                yield {'edges': [edges], 'items': plain(items), 'aliases': True}
        for items in Trees(spec).upto(b['history_items'], b['depth']):
            yield {'edges': [names[0], names[1]], 'items': plain(items), 'history': b['history']}
        # one object seen from two places with different selections
        small = [plain(t) for t in Trees(spec).upto(2, 2, 'A')]
        links = [n for n, l in spec['root']['links'].items() if l['to'] == 'A']
        for x, y in itertools.combinations(links, 2):
            for s, t in itertools.product(small, repeat=2):
                yield {'edges': list(names), 'items': [[x, s], [y, t]]}


def aliased(spec, items, node=None):
    """The selection with every assignment of aliases."""
    n = spec['root'] if node is None else spec['nodes'][node]
    other = list(n['fields'])[:2] + list(n['links'])[:1]
    subs = []
    for name, sub in items:
        links = n['links']
        subs.append([[name, s, a] for a in [None, 'al', 'am'] + [o for o in other if o != name]
                     for s in ([None] if sub is None else aliased(spec, sub, links[name]['to']))])
    for sel in itertools.product(*subs):
        keys = [a or name for name, _, a in sel]
        if len(set(keys)) == len(keys) and 'am' not in keys[:1]:
            yield [list(i) for i in sel]


def names_of(spec):
    res = ['al', 'am', 'zzz', 'keys', 'get', '']
    for n in [spec['root']] + list(spec['nodes'].values()):
        res += list(n['fields']) + list(n['links'])
    return sorted(set(res))


def read(obj, name, attr):
    try:
        return getattr(obj, name) if attr else obj[name]
    except (AttributeError if attr else KeyError):
        return Missing


class Missing:
    pass


def compare(obj, items, want, spec, node, universe, path, rec, few=False):
    """Every read at this place and below."""
    n = spec['root'] if node is None else spec['nodes'][node]
    sel = {(alias or name): (name, sub) for name, sub, alias, _ in map(item4, items)}
    names = universe
    if few and len(universe) > 40:      # what is selected here, and some of the others
        names = list(sel) + [k for k in universe[:4] + universe[len(universe) // 2:][:4] + universe[-4:] if k not in sel]
    for key in names:
        for attr in (False, True):
            v = read(obj, key, attr)
            rec.transitions += 1
            if key not in sel:
                if v is not Missing:
                    raise Violation('a name that was not selected can be read', path=path, name=key, got=repr(v))
                if attr and hasattr(obj, key):
                    raise Violation('hasattr tells of a name that was not selected', path=path, name=key)
                continue
            if v is Missing:
                raise Violation('a selected name cannot be read', path=path, name=key)
            name, sub = sel[key]
            w = want[key]
            if sub is None:
                if type(v) is not type(w) or v != w:
                    raise Violation('wrong value', path=path, name=key, got=repr(v), expected=repr(w))
                continue
            link = n['links'][name]
            if link['kind'] == 'Many':
                if not isinstance(v, list) or len(v) != len(w):
                    raise Violation('wrong list', path=path, name=key, got=repr(v), expected=repr(w))
                pairs = list(zip(v, w))
            elif w is None:
                if v is not None:
                    raise Violation('wrong value', path=path, name=key, got=repr(v), expected=None)
                pairs = []
            else:
                pairs = [(v, w)]
            if few and attr != (len(path) + int(few)) % 4 // 2:
                continue        # below a place in one of the two ways
            for i, (x, y) in enumerate(pairs):
                compare(x, sub, y, spec, link['to'], universe, path + [key, i], rec, few)


def paths(want, path=()):
    yield path
    if isinstance(want, dict):
        for k, v in want.items():
            for p in paths(v, path + (k,)):
                yield p
    elif isinstance(want, list):
        for i, v in enumerate(want):
            for p in paths(v, path + (i,)):
                yield p


def follow(obj, path, attr):
    for k in path:
        obj = getattr(obj, k) if attr and isinstance(k, str) else obj[k]
    return obj


def keys_of(items):
    res = set()
    for it in items:
        name, sub, alias, _ = item4(it)
        res.add(alias or name)
        if sub is not None:
            res |= keys_of(sub)
    return res


def run_sized(case, rec):
    spec, items = sizes.make(case)
    want = World(spec).evaluate(items)
    r = Run(spec, items, Chooser()).ok()
    universe = sorted(set(names_of(spec)) | keys_of(items))
    for way in (2, 4):
        compare(r.result, items, want, spec, None, universe, [], rec, few=way)
        if r.denormalized() != want:
            raise Violation('the result denormalizes to something else after it was read', got=r.denormalized(), expected=want)
    rec.traces += 1
    rec.states += 1
    rec.outcome(want)


def many_reads(n, rec):
    """n reads of everything at one place, then of everything at all places."""
    spec = g1('dup')
    universe = names_of(spec)
    items = [['r1'], ['one', [['x'], ['b', [['v']]]]], ['many', [['y'], ['up', [['x']]], ['bs', [['w']]]]]]
    want = World(spec).evaluate(items)
    for p in list(paths(want))[1:]:
        r = Run(spec, items, Chooser()).ok()
        for i in range(n):
            for attr in (False, True):
                follow(r.result, p, attr)
            o = follow(r.result, p[:-1] if isinstance(p[-1], str) else p, False)
            read(o, 'zzz', i % 2)
            if i % 8 == 7:
                denormalize(r.graph, r.result)
        compare(r.result, items, want, spec, None, universe, [], rec)
        if r.denormalized() != want:
            raise Violation('the result denormalizes to something else after it was read', got=r.denormalized(), expected=want)
        rec.traces += 1
        rec.states += 1
        rec.outcome(want)


def run(case, rec):
    if 'shape' in case:
        return run_sized(case, rec)
    if 'reads' in case:
        return many_reads(case['reads'], rec)
    first = g1(case['edges'][0])
    universe = names_of(first)
    for items in (aliased(first, case['items']) if case.get('aliases') else [case['items']]):
        for edges in case['edges']:
            spec = g1(edges)
            want = World(spec).evaluate(items)

            def execute():
                r = Run(spec, items, Chooser()).ok()
                rec.traces += 1
                rec.states += 1
                return r
            r = execute()
            compare(r.result, items, want, spec, None, universe, [], rec)
            if r.denormalized() != want:
                raise Violation('the result denormalizes to something else after it was read', got=r.denormalized(), expected=want)
            rec.outcome(want)
            if case.get('history'):
                ops = [(p, a) for p in paths(want) if p for a in (False, True)]
                ops += [('miss', p) for p in paths(want) if not p or isinstance(p[-1], int)] + [('denormalize', None)]
                for n in range(1, case['history'] + 1):
                    for seq in itertools.product(ops, repeat=n):
                        r = execute()
                        for what, arg in seq:
                            if what == 'miss':
                                o = follow(r.result, arg, False)
                                read(o, 'zzz', False)
                                read(o, 'x', True)
                            elif what == 'denormalize':
                                denormalize(r.graph, r.result)
                            else:
                                follow(r.result, what, arg)
                        compare(r.result, items, want, spec, None, universe, [], rec)
