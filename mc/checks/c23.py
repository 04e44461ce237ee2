"""C23: SQL sources return each row's data for exactly the object it belongs to."""
import datetime
import itertools

import sqlalchemy as sa
from sqlalchemy.pool import StaticPool
from sqlalchemy.sql import visitors
from sqlalchemy.sql.elements import BinaryExpression, CollectionAggregate

from hiku.engine import Engine
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.graph import Field, Graph, Link, Node, Root
from hiku.query import merge
from hiku.result import denormalize
from hiku.sources import aiopg, sqlalchemy as sync, sqlalchemy_async
from hiku import types as T

from ..aio import Env
from .. import sizes
from ..core import Violation
from ..sched import MCExecutor, explore
from ..world import item4, mk_query

PROPERTY = 'C23'
TECHNIQUE = ('explicit enumeration of table contents, identifier lists and selections, executed on the real sources over an '
             'in-memory SQLite; the order of fetched rows, the split into buckets and the completion order of statements are '
             'explored')
LEVEL_NOTE = ('Tables of up to three items with every combination of absent / null / matched / unmatched references, all '
              'identifier lists up to the bound over present, missing and null identifiers, all column selections up to the '
              'bound. The drivers of the asynchronous sources are stand-ins over the same SQLite (statements with = ANY(list) '
              'are run as IN); exploration of row orders, buckets and completions is deviation-bounded.')
NOTE = {
    'alphabet': 'tables, aliases, joins and sub-selects; primary key by default and given; columns of several types, one '
                'with a key other than its name; links One/Maybe/Many to and from nullable columns',
    'choices': 'order of the rows of every statement; size of every bucket; order in which statements make progress',
    'oracle': 'lookup in the rows that were put into the tables',
}
META = sa.MetaData()
ITEM = sa.Table('item', META, sa.Column('id', sa.Integer, primary_key=True, autoincrement=False), sa.Column('name', sa.Unicode),
                sa.Column('num', sa.Integer), sa.Column('ref', sa.Integer), sa.Column('flag', sa.Boolean),
                sa.Column('day', sa.Date), sa.Column('db_kind', sa.UnicodeText, key='kind'),
                sa.Column('code', sa.Unicode))
OTHER = sa.Table('other', META, sa.Column('id', sa.Integer, primary_key=True, autoincrement=False),
                 sa.Column('label', sa.Unicode), sa.Column('owner', sa.Integer))
COLS = ['id', 'name', 'num', 'ref', 'flag', 'day', 'kind']
KEY = 'db'


def item_row(i, ref):
    return {'id': i, 'name': ['', 'naïve', 'x'][i % 3], 'num': [None, 0, -7][i % 3], 'ref': ref, 'flag': [True, None, False][i % 3],
            'day': datetime.date(2000, 1, 1 + i % 28), 'kind': 'k%d' % i if i % 2 else None, 'code': 'c%d' % i}


def other_row(i, owner):
    return {'id': i, 'label': 'l%d' % i, 'owner': owner}


# ---- drivers ----

def as_in(stmt):
    """SQLite has no arrays: col = ANY(list) becomes col IN list."""
    def rep(x):
        if isinstance(x, BinaryExpression) and isinstance(x.right, CollectionAggregate):
            return x.left.in_(list(x.right.element.value))
        return None
    return visitors.replacement_traverse(stmt, {}, rep)


class Driver:
    def __init__(self, db, ch, env=None, buckets='all', permute=True):
        self.db, self.ch, self.env, self.buckets, self.permute = db, ch, env, buckets, permute
        self.statements = 0
        self.left = 8

    def pick(self, n, label):
        if n < 2 or self.left <= 0:
            return 0
        self.left -= 1
        return self.ch.choose(n, label)

    def rows(self, stmt):
        self.statements += 1
        rows = self.db.execute(as_in(stmt)).fetchall()
        if self.permute:
            perms = list(itertools.permutations(rows)) if len(rows) <= 3 else [rows, rows[::-1], rows[1:] + rows[:1]]
            rows = list(perms[self.pick(len(perms), 'rows')])
        return rows

    def bucket(self, left, size):
        n = min(left, size)
        if self.buckets == 'all':
            return n - self.pick(n, 'bucket') if n else 0
        return min(n, self.buckets)


class Result:
    def __init__(self, conn, rows):
        self.conn, self.left = conn, list(rows)

    def _take(self, n):
        if self.conn.closed:
            raise Violation('rows are fetched from a closed connection')
        res, self.left = self.left[:n], self.left[n:]
        return res

    def fetchall(self):
        return self._take(len(self.left))

    def fetchmany(self, size=None):
        return self._take(self.conn.driver.bucket(len(self.left), size or 1))

    def fetchone(self):
        return (self._take(1) or [None])[0]

    def __iter__(self):
        return iter(self.fetchall())


class Connection:
    def __init__(self, driver):
        self.driver, self.closed = driver, True

    def __enter__(self):
        self.closed = False
        return self

    def __exit__(self, *exc):
        self.closed = True

    def execute(self, stmt, *args):
        if self.closed:
            raise Violation('a statement is executed on a closed connection')
        return Result(self, self.driver.rows(stmt))


class SyncEngine:
    def __init__(self, driver):
        self.driver = driver

    def connect(self):
        return Connection(self.driver)


class AResult:
    def __init__(self, res):
        self.res = res

    async def step(self, what):
        await self.res.conn.driver.env.gate(what)

    async def fetchmany(self, size=None):
        await self.step('fetch')
        return self.res.fetchmany(size)

    async def fetchall(self):
        await self.step('fetch')
        return self.res.fetchall()

    all = fetchall


class AConnection:
    def __init__(self, driver):
        self.conn = Connection(driver)

    async def __aenter__(self):
        await self.conn.driver.env.gate('connect')
        self.conn.__enter__()
        return self

    async def __aexit__(self, *exc):
        self.conn.__exit__()

    async def execute(self, stmt, *args):
        await self.conn.driver.env.gate('execute')
        return AResult(self.conn.execute(stmt))

    stream = execute


class AsyncEngine(SyncEngine):
    def connect(self):
        return AConnection(self.driver)

    acquire = connect


SOURCES = {'sync': sync, 'sqlalchemy_async': sqlalchemy_async, 'aiopg': aiopg}

LINKS = {  # name: (kind, to, column searched, column taken, required field)
    'other': ('Maybe', 'other', ('other', 'id'), ('other', 'id'), 'ref'),
    'other1': ('One', 'other', ('other', 'id'), ('other', 'id'), 'ref'),
    'owned': ('Many', 'other', ('other', 'owner'), ('other', 'id'), 'id'),
    'owned1': ('Maybe', 'other', ('other', 'owner'), ('other', 'id'), 'id'),
    'refs': ('Many', 'item', ('item', 'ref'), ('item', 'id'), 'ref'),
    'same': ('Many', 'other', ('item', 'ref'), ('item', 'ref'), 'ref'),
    'to': ('Maybe', 'other', ('item', 'id'), ('item', 'ref'), 'id'),
    'tos': ('Many', 'other', ('item', 'id'), ('item', 'ref'), 'id'),
}
OTHER_LINKS = {'item': ('Maybe', 'item', ('item', 'id'), ('item', 'id'), 'owner'),
               'own': ('Many', 'item', ('item', 'ref'), ('item', 'id'), 'id')}
TABLES = {'item': ITEM, 'other': OTHER}


def graph(mod, ids, clause='table'):
    kinds = {'Maybe': lambda t: T.Optional[T.TypeRef[t]], 'One': lambda t: T.TypeRef[t], 'Many': lambda t: T.Sequence[T.TypeRef[t]]}

    def links(spec):
        return [Link(name, kinds[k](to), mod.LinkQuery(KEY, from_column=TABLES[f[0]].c[f[1]], to_column=TABLES[t[0]].c[t[1]]),
                     requires=req) for name, (k, to, f, t, req) in spec.items()]
    if clause == 'table':
        q, names = mod.FieldsQuery(KEY, ITEM), {c: c for c in COLS}
    elif clause == 'code':      # another unique column as the key
        q, names = mod.FieldsQuery(KEY, ITEM, primary_key=ITEM.c.code), {c: c for c in COLS}
    elif clause == 'alias':
        q, names = mod.FieldsQuery(KEY, ITEM.alias('al')), {c: c for c in COLS}
    elif clause == 'select':
        s = sa.select([ITEM]).where(ITEM.c.id >= 0).alias('sel')
        q, names = mod.FieldsQuery(KEY, s, primary_key=s.c.id), {c: c for c in COLS}
    elif clause == 'self':      # two rows of one table side by side: every name twice
        al = ITEM.alias('parent')
        q = mod.FieldsQuery(KEY, sa.outerjoin(ITEM, al, ITEM.c.ref == al.c.id), primary_key=ITEM.c.id)
        names = {c: 'item_' + ITEM.c[c].name for c in COLS}
        names.update({'parent.' + c: 'parent_' + ITEM.c[c].name for c in COLS})
    else:
        j = sa.outerjoin(ITEM, OTHER, ITEM.c.ref == OTHER.c.id)
        q = mod.FieldsQuery(KEY, j, primary_key=ITEM.c.id)
        names = {c: 'item_' + ITEM.c[c].name for c in COLS}
        names['label'] = 'other_label'
        names['other.id'], names['other.owner'] = 'other_id', 'other_owner'
    fields = [Field(n, None, q) for n in names.values()]
    items = [Node('item', fields + (links(LINKS) if clause == 'table' else []))]
    oq = mod.FieldsQuery(KEY, OTHER)
    items.append(Node('other', [Field(c, None, oq) for c in ('id', 'label', 'owner')] + links(OTHER_LINKS)))

    def root(value):
        async def aload():
            return value

        def load():
            return value
        return load if mod is sync else aload
    items.append(Root([Link('items', T.Sequence[T.TypeRef['item']], root(list(ids)), requires=None),
                       Link('one', T.TypeRef['item'], root((list(ids) or [1])[0]), requires=None),
                       Link('others', T.Sequence[T.TypeRef['other']], root([5, 0, 8]), requires=None)]))
    return Graph(items), names


# ---- reference ----

class Data:
    def __init__(self, items, others):
        self.rows = {'item': {r['id']: r for r in items}, 'other': {r['id']: r for r in others}}

    def value(self, node, id_, col, key='id'):
        for r in self.rows[node].values():
            if r[key] == id_:
                return r[col]
        return None

    def targets(self, link, v):
        kind, to, (ft, fc), (tt, tc), _ = link
        return [] if v is None else [r[tc] for r in self.rows[ft].values() if r[fc] == v and r[tc] is not None]

    def evaluate(self, node, id_, items, back=None, key='id'):
        res = {}
        for it in items:
            name, sub, alias, _ = item4(it)
            if sub is None:
                col = (back or {}).get(name, name)
                if col == 'label' and node == 'item':
                    v = self.value('other', self.value('item', id_, 'ref'), 'label')
                elif '.' in col:
                    t, c = col.split('.')
                    v = self.value('other' if t == 'other' else 'item', self.value('item', id_, 'ref'), c)
                else:
                    v = self.value(node, id_, col, key)
            else:
                link = (LINKS if node == 'item' else OTHER_LINKS)[name]
                ts = self.targets(link, self.value(node, id_, link[4]))
                if link[0] == 'Many':
                    v = [self.evaluate(link[1], t, sub) for t in ts]
                elif ts:
                    v = self.evaluate(link[1], ts[0], sub)
                else:
                    v = None
            res[alias or name] = v
        return res


def ordered(v):
    """Lists of link targets come in the order of rows, which is up to the database."""
    if isinstance(v, dict):
        return {k: ordered(x) for k, x in v.items()}
    if isinstance(v, list):
        return sorted((ordered(x) for x in v), key=repr)
    return v


# ---- cases ----

REFS = ['absent', None, 0, 5, 9]
OWNERS = [{0: None, 5: 1, 6: 1}, {0: 0, 5: 2, 6: 9}, {5: None}, {}]
SUB_OTHER = [['id'], ['label']]
BIG = [['id'], ['num'], ['other', SUB_OTHER], ['owned', [['id'], ['owner']]], ['refs', [['id'], ['name']]], ['same', [['id']]],
       ['to', [['label'], ['id']]], ['tos', [['id']]], ['name', None, 'id2']]
DEEP = [['other', [['label'], ['item', [['id'], ['ref'], ['owned', [['id']]]]], ['own', [['id'], ['other', [['id']]]]]]],
        ['owned', [['id'], ['item', [['flag'], ['day']]]]]]


def id_lists(n, alphabet=(0, 1, 2, 7, None)):
    for k in range(n + 1):
        for ids in itertools.product(alphabet, repeat=k):
            yield list(ids)


def bounds(tier):
    q = tier == 'quick'
    return {'items': '3 rows x 5 states', 'identifiers': 3, 'columns': 3 if q else 4, 'rows_for_buckets': 6 if q else 9,
            'max_executions_per_case': 6 if q else 60, 'sources': list(SOURCES)}


def cases(tier):
    b = bounds(tier)
    q = tier == 'quick'
    tables = list(itertools.product(REFS, repeat=3))
    for src in SOURCES:
        # column selections
        for n in range(1, b['columns'] + 1):
            for cols in itertools.product(COLS, repeat=n):
                if n > 2 and len(set(cols)) < n and src != 'sync':
                    continue
                for clause in (('table', 'join') if n > 2 or src != 'sync' else ('table', 'alias', 'select', 'join', 'code')):
                    yield {'src': src, 'items': [5, 'absent', None], 'owners': 0, 'clause': clause,
                           'ids': [[2, 0, 1], [1, 2, 2, 7, None, 0]], 'cols': list(cols), 'b': 2}
                if n < 3:
                    yield {'src': src, 'items': [5, 'absent', 0], 'owners': 0, 'clause': 'self', 'ids': [[2, 0, 1], [1, 2, 2, 7, None, 0]],
                           'cols': [cols[0], 'parent.' + cols[-1]] + list(cols[1:]), 'b': 2}
                    yield {'src': src, 'items': [5, 'absent', 0], 'owners': 0, 'clause': 'self', 'ids': [[2, 0, 1]],
                           'cols': ['parent.' + c for c in cols] + list(cols), 'b': 2}
        for t in tables:
            for o in range(len(OWNERS)):
                if q and src != 'sync' and o not in (0, 1):
                    continue
                yield {'src': src, 'items': list(t), 'owners': o, 'ids': [[0, 1, 2]], 'b': b['max_executions_per_case'],
                       'kind': 'links'}
        for t in tables[:: 7 if q else 1]:
            # all lists of identifiers with the same database
            yield {'src': src, 'items': list(t), 'owners': 1, 'ids': list(id_lists(b['identifiers'])), 'b': 1 if q else 3, 'kind': 'ids'}
        for n in range(b['rows_for_buckets'] + 1):
            yield {'src': src, 'many': n, 'ids': [list(range(n))[::-1]], 'cols': ['name', 'id'], 'clause': 'table',
                   'b': 300 if q else 3000, 'permute': False}
            yield {'src': src, 'many': n, 'ids': [list(range(n))], 'kind': 'fan', 'b': 300 if q else 3000, 'permute': False}
        for n in sizes.ladder(tier, 513 if q else 2049):
            for size in (100000, 1, 99):
                if src == 'sync' and size != 1:
                    continue
                if size != 100000 and n not in (99, 100, 101, 199, 200, 201, 257) and src != 'sync':
                    continue
                yield {'src': src, 'many': n, 'ids': [list(range(n))[::-1]], 'cols': ['num', 'id'], 'clause': 'table', 'b': 1,
                       'permute': False, 'buckets': size}
                yield {'src': src, 'many': n, 'ids': [[0, 1]], 'kind': 'fan', 'b': 1, 'permute': False, 'buckets': size}
            # ids which are repeated, missing or null, and links from and to all of them
            yield {'src': src, 'many': n, 'ids': [[(i * 7) % n if i % 9 else [None, n + i, -i][i % 3] for i in range(n)]], 'kind': 'spread', 'b': 1,
                   'permute': False, 'buckets': 100000}
            if n <= (65 if q else 257):
                yield {'src': src, 'many': 3, 'ids': [[2, 0, None, 1, 2]], 'kind': 'aliases', 'n': n, 'b': 1, 'permute': False, 'buckets': 100000}


DB = None


def database(items, others):
    global DB
    if DB is None:
        DB = sa.create_engine('sqlite://', poolclass=StaticPool, connect_args={'check_same_thread': False})
        META.create_all(DB)
    for t, rows in ((ITEM, items), (OTHER, others)):
        DB.execute(t.delete())
        if rows:
            DB.execute(t.insert(), rows)
    return DB


def run(case, rec):
    src = case['src']
    mod = SOURCES[src]
    if 'many' in case:
        items = [item_row(i, 5 if case.get('kind') == 'fan' else None) for i in range(case['many'])]
        others = [other_row(5, 1)] + [other_row(100 + i, 1) for i in range(case['many'])]
        if case.get('kind') == 'spread':
            items = [item_row(i, None if i % 11 == 3 else (i * 5) % case['many']) for i in range(case['many'])]
            others = [other_row(i, [i // 3, None, i][i % 3]) for i in range(case['many']) if i % 7 != 6]
    else:
        items = [item_row(i, r) for i, r in enumerate(case['items']) if r != 'absent']
        others = [other_row(i, o) for i, o in OWNERS[case['owners']].items()]
    db = database(items, others)
    data = Data(items, others)
    for ids in case['ids']:
        key, back = 'id', None
        clause = case.get('clause', 'table')
        if clause == 'code':
            key, ids = 'code', [i if i is None else 'c%d' % i for i in ids]
        g, names = graph(mod, ids, clause)
        kind = case.get('kind')
        if kind in ('links', 'ids'):
            sel = list(BIG)
            if all(data.targets(LINKS['other1'], data.value('item', i, 'ref')) for i in ids):
                sel.append(['other1', SUB_OTHER])
            if all(len(data.targets(LINKS['owned1'], i)) < 2 for i in ids):
                sel.append(['owned1', [['id'], ['label']]])
            sels = [sel] if kind == 'ids' else [sel, DEEP]
        elif kind == 'spread':
            sels = [BIG[:-1] + [['name', None, 'id2']], DEEP]
        elif kind == 'aliases':
            sels = [[[COLS[i % len(COLS)], None, 'c%d' % i] for i in range(case['n'])] +
                    [['refs' if i % 2 else 'owned', [['id', None, 'd%d' % i]], 'l%d' % i] for i in range(case['n'])]]
        elif kind == 'fan':
            sels = [[['id'], ['owned', [['id'], ['label']]], ['refs', [['id']]]]]
        else:
            back = {v: k for k, v in names.items()}
            cols = case['cols'] + (['label', 'other.id', 'other.owner'] if clause == 'join' else [])
            sels = [[[names[c], None, 'f%d' % i if i else None] for i, c in enumerate(cols)]]
        for sel in sels:
            check(case, rec, mod, src, db, data, g, ids, sel, back, key)


def check(case, rec, mod, src, db, data, g, ids, sel, back, key):
    tree = [['items', sel], ['others', [['id'], ['label']]]]
    if ids:
        tree.append(['one', sel[:2]])
    query = merge([mk_query(tree)])
    want = {'items': [data.evaluate('item', i, sel, back, key) for i in ids],
            'others': [data.evaluate('other', i, [['id'], ['label']]) for i in (5, 0, 8)]}
    if ids:
        want['one'] = data.evaluate('item', ids[0], sel[:2], back, key)

    def one(ch):
        if src == 'sync':
            driver = Driver(db, ch, None, 'all', case.get('permute', True))
            result = Engine(MCExecutor(ch, max_full=1)).execute(g, query, {KEY: SyncEngine(driver)})
            got = denormalize(g, result)
        else:
            env = Env(ch, max_full=1)
            try:
                driver = Driver(db, ch, env, case.get('buckets', 'all'), case.get('permute', True))
                status, res = env.run(Engine(AsyncIOExecutor(env.loop)).execute(g, query, {KEY: AsyncEngine(driver)}))
                if status != 'ok':
                    raise res
                got = denormalize(g, res)
            finally:
                env.close()
        # objects of a list of identifiers are in that order; targets of links in the order of rows
        for name in ('items', 'others'):
            if [ordered(x) for x in got[name]] != [ordered(x) for x in want[name]]:
                raise Violation('%s: wrong data of %s' % (src, name), got=got[name], expected=want[name], ids=list(ids))
        if ordered(got.get('one')) != ordered(want.get('one')):
            raise Violation('%s: wrong data of one' % src, got=got.get('one'), expected=want.get('one'), ids=list(ids))
        rec.outcome(ordered(got))
        return repr(ordered(got))
    explore(one, rec, max_execs=case['b'])
