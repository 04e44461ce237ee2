"""C27: the console application answers every HTTP request with a well-formed response."""
import io
import itertools
import json
import os
import pkgutil
import re

from hiku.console.ui import ConsoleApplication
from hiku.engine import Engine, pass_context
from hiku.executors.sync import SyncExecutor
from hiku.graph import GraphTransformer
from hiku.readers.simple import read
from hiku.result import denormalize
from hiku.typedef.kinko import dumps
from hiku.validate.query import validate
import hiku.console.ui as ui

from .. import sizes
from ..core import Violation
from ..world import World, item4

PROPERTY = 'C27'
TECHNIQUE = ('explicit enumeration of HTTP requests (methods x paths x bodies x content lengths x configurations, all prefixes and '
             'byte mutations of bodies, all sequences of requests up to a length) sent to the real WSGI application')
LEVEL_NOTE = ('Every combination from the finite alphabets; every query up to the bound as body. Expected outcomes come from a '
              'decision table; data of queries from a reference evaluator, for mutated bodies from reading, validating and '
              'executing the body outside the console. Broken connections (errors while the body is read) are outside; the '
              'compiled console.js, which is not part of the repository, is replaced by a stand-in.')
NOTE = {
    'oracle': 'decision table for status and content; start_response is called exactly once; Content-Length equals the '
              'length of the body; never more of the input is read than the request has',
}
SPEC = {
    'root': {'fields': {'f': {'f': 'R1'}, 'g': {'f': 'R1', 'opts': {'i': {'default': 1, 'type': 'Int'}}}, 'bad': {'f': 'bad'}, 'obj': {'f': 'obj'},
                        'nan': {'f': 'nan'}, 'uni': {'f': 'uni'}, 'ctx': {'f': 'ctx'}, 'key': {'f': 'key'}},
             'links': {'one': {'to': 'A', 'kind': 'One'}, 'mb': {'to': 'A', 'kind': 'Maybe'}, 'many': {'to': 'A', 'kind': 'Many', 'req': 'f'}}},
    'nodes': {'A': {'fields': {'x': {'f': 'A1'}, 'bad': {'f': 'bad'}}, 'links': {'b': {'to': 'B', 'kind': 'Many', 'req': 'x'}}},
              'B': {'fields': {'v': {'f': 'B1'}}, 'links': {}}},
    'edges': {'root.one': 'a1', 'root.mb': None, 'root.many': ['a1', 'a2', 'a1'], 'A.b': {'a1': ['b1'], 'a2': []}},
}
LIMIT = 2 ** 20
METHODS = ['GET', 'POST', 'HEAD', 'PUT', 'DELETE', 'OPTIONS', 'PATCH', 'TRACE', 'get', 'post', 'Post', 'X']
PATHS = [None, '', '/', '//', '/docs', '/docs/', 'docs', '/console.js', '/console.jsx', '/nope', '/index', '/DOCS', '/docs/x', '/\xe9', '/ ',
         '/../docs', '/assets/console.html', '/%2e', '/?', '/console.js/']
SCRIPTS = [None, '', '/', '/m', '/m/', '/a/b', '/a//', '/$x']
BODIES = [
    (b'[:f]', 200), (b'[:f {:one [:x]}]', 200), (b'[(:g {:i 2}) {:many [:x {:b [:v]}]} {:mb [:x]}]', 200), (b'[]', 200), (b' [ :f ] ', 200),
    (b'[:uni]', 200), (b'[:f :f]', 200), (b'[:ctx]', 200), (b'[:key]', None), ('[:f ;\u00e9\n]'.encode(), 200),
    (b'[:nope]', 400), (b'[{:nope [:x]}]', 400), (b'[:one]', 400), (b'[{:one [:nope]}]', 400), (b'[(:g {:i "1"})]', 400), (b'[(:f {:i 1})]', 400),
    (b'[{:f [:x]}]', 400), ('[:\u00e9]'.encode(), 400),
    (b'', 500), (b' ', 500), (b'[', 500), (b'[:f', 500), (b':f', 500), (b'{}', 500), (b'[f]', 500), (b'[1]', 500), (b'[:f] x)', 500),
    (b'\xff', 500), (b'[:f]\xff', 500), (b'\x00', 500), (b'[(:g)]', 500), (b'[{1 [:x]}]', 500), (b'[{:one :x}]', 500), (b'[' * 3000, 500),
    (b'[:bad]', 500), (b'[{:one [:bad]}]', 500), (b'[:f :obj]', 500), (b'<html>', 500), (b'{"query": "{ f }"}', 500),
]
LENGTHS = ['exact', 'missing', '', '0', '-1', '-5', 'shorter', 'longer', 'padded', 'abc', '1.5', '0x10', str(LIMIT), str(LIMIT + 1), '9' * 30,
           '9' * 5000, '\xb2']


def bounds(tier):
    q = tier == 'quick'
    return {'query_items': 4 if q else 5, 'sequence_length': 2 if q else 4, 'bytes_per_position': 40 if q else 256, 'methods': len(METHODS),
            'paths': len(PATHS), 'mounts': len(SCRIPTS), 'bodies': len(BODIES), 'content_lengths': len(LENGTHS)}


def cases(tier):
    b = bounds(tier)
    for m in METHODS:
        yield {'method': m}
    for i in range(len(BODIES)):
        yield {'body': i}
        if len(BODIES[i][0]) < 100:
            yield {'mutate': i, 'bytes': b['bytes_per_position']}
    for top in range(1, b['query_items'] + 1):
        yield {'queries': top}
    yield {'big': True}
    for shape, top in SHAPES.items():
        for n in sizes.ladder(tier, top[tier != 'quick']):
            yield {'shape': shape, 'n': n}
    for i in range(len(REQUESTS)):
        yield {'history': i, 'n': b['sequence_length']}


class Input:
    """What the server gives as wsgi.input: it would block when more is read than was sent."""

    def __init__(self, data):
        self.data = data
        self.io = io.BytesIO(data)
        self.asked = 0

    def read(self, n=-1):
        if n is None or n < 0:
            raise Violation('the whole input is read without a limit')
        self.asked += n
        return self.io.read(n)

    def readline(self, *a):
        return self.io.readline(*a)

    def readlines(self, *a):
        return self.io.readlines(*a)

    def __iter__(self):
        return iter(self.io)


class CWorld(World):
    def field_loader(self, fname):
        if fname not in ('bad', 'obj', 'nan', 'uni', 'ctx', 'key'):
            return super().field_loader(fname)

        if fname == 'ctx':
            @pass_context
            def load(ctx, fields, ids=None):
                return [dict(ctx) for _ in fields]
            return load
        if fname == 'key':
            @pass_context
            def load(ctx, fields, ids=None):
                return [ctx['k'] for _ in fields]
            return load

        def load(fields, ids=None):
            if fname == 'bad':
                raise ValueError('loader fails')
            return [{'obj': object(), 'nan': 1.5, 'uni': '\u20ac\U0001f600\x00'}[fname] for _ in fields]
        load.__name__ = fname
        return load


class Described(GraphTransformer):
    def visit_node(self, obj):
        node = super().visit_node(obj)
        node.description = 'узел \u20ac \U0001f600 %s' % obj.name
        return node

    def visit_link(self, obj):
        link = super().visit_link(obj)
        link.description = 'посилання %s' % obj.name
        return link


#: how the application is made: with or without debug, with or without a context
MODES = {False: (dict(ctx={'k': 1}, debug=False), {'k': 1}), True: (dict(ctx={'k': 1}, debug=True), {'k': 1}),
         'default': ({}, None), 'empty': (dict(ctx={}), {}), 'none': (dict(ctx=None, debug=False), None),
         'debug only': (dict(debug=True), None), 'context only': (dict(ctx={'k': 2}), {'k': 2}),
         'debug empty': (dict(ctx={}, debug=True), {})}
DEBUG = (True, 'debug only', 'debug empty')


class App:
    def __init__(self, debug):
        self.world = CWorld(SPEC)
        self.graph = Described().visit(self.world.graph())
        options, self.ctx = MODES[debug]
        self.app = ConsoleApplication(self.graph, Engine(SyncExecutor()), **options)
        self.docs = dumps(self.graph).encode()


APPS = {}


def app_of(debug):
    if debug not in APPS:
        APPS[debug] = App(debug)
    return APPS[debug]


JS = b'// stand-in for the compiled console'
_get_data = pkgutil.get_data


def get_data(package, resource):
    if resource == 'assets/console.js':
        try:
            return _get_data(package, resource)
        except FileNotFoundError:
            return JS
    return _get_data(package, resource)


pkgutil.get_data = get_data
HAVE_JS = os.path.exists(os.path.join(os.path.dirname(ui.__file__), 'assets', 'console.js'))


def send(rec, app, method, path, script='', body=b'', length='exact'):
    data = Input(body)
    environ = {'REQUEST_METHOD': method, 'QUERY_STRING': '', 'SERVER_NAME': 'h', 'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1',
               'wsgi.version': (1, 0), 'wsgi.url_scheme': 'http', 'wsgi.input': data, 'wsgi.errors': io.StringIO(),
               'wsgi.multithread': False, 'wsgi.multiprocess': False, 'wsgi.run_once': False}
    if path is not None:
        environ['PATH_INFO'] = path
    if script is not None:
        environ['SCRIPT_NAME'] = script
    cl = content_length(body, length)
    if cl is not None:
        environ['CONTENT_LENGTH'] = cl
    before = {k: v for k, v in environ.items() if isinstance(v, str)}
    started = []

    def start_response(status, headers, exc_info=None):
        started.append((status, headers))
        return lambda b: started.append('write')
    what = dict(method=method, path=path, script=script, body=body[:60], length=length)
    res = app.app(environ, start_response)
    chunks = list(res)
    if hasattr(res, 'close'):
        res.close()
    rec.traces += 1
    rec.states += 1
    rec.transitions += 1
    if len(started) != 1:
        raise Violation('start_response is called %d times' % len(started), **what)
    status, headers = started[0]
    if not isinstance(status, str) or not re.match(r'^[1-5][0-9][0-9] [^\r\n]+$', status):
        raise Violation('improper status', got=status, **what)
    if not isinstance(headers, list) or not all(isinstance(h, tuple) and len(h) == 2 and all(isinstance(x, str) and '\n' not in x for x in h)
                                                for h in headers):
        raise Violation('improper headers', got=headers, **what)
    if not all(isinstance(c, bytes) for c in chunks):
        raise Violation('the body is not bytes', **what)
    content = b''.join(chunks)
    lengths = [v for k, v in headers if k.lower() == 'content-length']
    if lengths != [str(len(content))]:
        raise Violation('wrong Content-Length', got=lengths, expected=len(content), **what)
    if data.asked > max(0, effective_length(body, length) or 0):
        raise Violation('more input is read than the request has', got=data.asked, **what)
    if {k: v for k, v in environ.items() if isinstance(v, str)} != before:
        raise Violation('the environment is changed', **what)
    rec.outcome((status, content))
    return int(status[:3]), dict((k.lower(), v) for k, v in headers), content, what


def content_length(body, length):
    n = len(body)
    return {'exact': str(n), 'missing': None, 'shorter': str(max(0, n - 1)), 'longer': str(n + 1), 'padded': '0%d' % n}.get(length, length)


def effective_length(body, length):
    """None: not a content length; otherwise how many bytes the request says it has."""
    cl = content_length(body, length)
    if cl is None or cl == '':
        return 0
    if re.match(r'^[0-9]+$', cl):
        return 10 ** 30 if len(cl) > 30 else int(cl)
    return None


def check_page(app, method, path, script, r):
    """Everything but POST to the index."""
    status, headers, content, what = r
    known = {'/': 'index', '': 'index', None: 'index', '/docs': 'docs', '/console.js': 'js'}
    page = known.get(path)
    if page is None:
        want = 404
    elif method == 'GET':
        want = 200
    elif method == 'POST' and page == 'index':
        return False
    else:
        want = 405
    if status != want:
        raise Violation('wrong status', got=status, expected=want, **what)
    if want == 200:
        if page == 'docs' and content != app.docs:
            raise Violation('wrong docs', got=content, **what)
        if page == 'js' and not HAVE_JS and content != JS:
            raise Violation('wrong script', got=content, **what)
        if page == 'js' and 'javascript' not in headers.get('content-type', ''):
            raise Violation('the script is not marked as one', got=headers, **what)
        if page == 'index':
            text = content.decode('utf-8')
            prefix = (script or '').rstrip('/')
            urls = re.findall(r"'(?:index|docs)': '([^']*)'", text) + re.findall(r'<script src="([^"]*)"', text)
            if urls != [prefix + '/', prefix + '/docs', prefix + '/console.js']:
                raise Violation('wrong urls in the page', got=urls, **what)
    elif headers.get('content-type') != 'text/plain' or not content.strip():
        raise Violation('an error without a text', got=content, **what)
    return True


def outside(app, body):
    """What reading, validating and executing the body gives without the console."""
    try:
        query = read(body.decode('utf-8'))
        errors = validate(app.graph, query)
        if errors:
            return 400, errors
        data = denormalize(app.graph, Engine(SyncExecutor()).execute(app.graph, query, app.ctx))
        json.dumps(data)
        return 200, data
    except Exception:
        return 500, None


def check_post(debug, r, want, data=None):
    status, headers, content, what = r
    if status != want:
        raise Violation('wrong status', got=(status, content), expected=want, debug=debug, **what)
    if headers.get('content-type') != 'application/json':
        raise Violation('the result is not marked as JSON', got=headers, **what)
    result = json.loads(content.decode('utf-8'))
    if want == 200:
        if data is not None and result != data:
            raise Violation('wrong result', got=result, expected=data, **what)
        if not isinstance(result, dict):
            raise Violation('result is not an object', got=result, **what)
    elif want == 400:
        errors = result.get('errors')
        if not errors or not all(isinstance(e, str) for e in errors) or data is not None and sorted(errors) != sorted(data):
            raise Violation('wrong errors', got=result, expected=data, **what)
    else:
        tb = result.get('traceback')
        debug = debug in DEBUG
        if debug and not (isinstance(tb, str) and 'Traceback' in tb):
            raise Violation('no traceback in debug mode', got=result, **what)
        if not debug and (tb is not None or b'Traceback' in content or b'hiku/' in content):
            raise Violation('a traceback without debug mode', got=result, **what)


def post(rec, app, debug, body, length, script='', path='/'):
    r = send(rec, app, 'POST', path, script, body, length)
    status, headers, content, what = r
    n = effective_length(body, length)
    if n is not None and n > LIMIT:
        if status != 400 or headers.get('content-type') != 'text/plain':
            raise Violation('an oversized body is not rejected', got=status, **what)
    elif n is None and status == 400:
        pass            # a malformed length may be rejected, or taken for no length
    else:
        check_post(debug, r, *outside(app, body[:n or 0]))


def edn(items):
    parts = []
    for it in items:
        name, sub, _, opts = item4(it)
        key = ':' + name if not opts else '(:%s {%s})' % (name, ' '.join(':%s %d' % kv for kv in opts.items()))
        parts.append(key if sub is None else '{%s %s}' % (key, edn(sub)))
    return '[%s]' % ' '.join(parts)


NAMES = {None: [('f', None), ('g', None), ('one', 'A'), ('mb', 'A'), ('many', 'A')], 'A': [('x', None), ('b', 'B')], 'B': [('v', None)]}


def queries(node, size, start=0):
    if size == 0:
        yield []
        return
    names = NAMES[node]
    for i in range(start, len(names)):
        name, to = names[i]
        if to is None:
            for opts in ((None, {'i': 7}) if name == 'g' else (None,)):
                for rest in queries(node, size - 1, i + 1):
                    yield [[name, None, None, opts]] + rest
        else:
            for k in range(size):
                for sub in queries(to, k):
                    for rest in queries(node, size - 1 - k, i + 1):
                        yield [[name, sub]] + rest


REQUESTS = [('GET', '/', b''), ('GET', '/docs', b''), ('PUT', '/', b''), ('GET', '/nope', b''), ('POST', '/', b'[:f {:one [:x]}]'),
            ('POST', '/', b'[{:many [:x {:b [:v]}]}]'), ('POST', '/', b'[:nope]'), ('POST', '/', b'[:bad]'), ('POST', '/', b'['), ('POST', '/', b'[:obj]'),
            ('POST', '/', b'[(:g {:i 3})]'), ('POST', '/', b'')]


SHAPES = {'items': (129, 513), 'depth': (33, 65), 'objects': (257, 2049), 'text': (257, 1025), 'body': (1025, 5001), 'errors': (65, 257), 'path': (257, 1025),
          'requests': (129, 513), 'graph': (65, 257)}


def chunks_of(n):
    return ['\u20ac' * n, 'a' * n, '\U0001f600\u00e9' * n, '"\\' * n, '\n' * n]


def run_sized(case, rec):
    shape, n = case['shape'], case['n']
    for debug in (False, True):
        app = app_of(debug)

        def ask(items, world=None):
            r = send(rec, app, 'POST', '/', '', edn(items).encode())
            check_post(debug, r, 200, app.world.evaluate(items))
        if shape == 'items':
            names = ['f', 'one', 'g', 'many', 'mb']
            ask([[x, [['x']] + ([['b', [['v']]]] if i % 2 else [])] if x not in 'fg' else [x] for i, x in enumerate(names)])
            for body in ('[%s]' % ' '.join([':f'] * n), '[%s]' % ' '.join(['{:one [:x]}'] * n), '[(:g {%s})]' % ' '.join(':o%d %d' % (i, i) for i in range(n)),
                         '[(:g {:i %s})]' % ('9' * n), '[%s {:many [%s]}]' % (':f ' * n, ':x ' * n)):
                post(rec, app, debug, body.encode(), 'exact')
        elif shape == 'depth':
            for body in ('[' * n + ']' * n, '{:one ' * n + '[:x]' + '}' * n, '[{:one [' * n + ':x' + ']}]' * n, '[:f] ' + '(' * n, '[(:g {:i %s1%s})]' % ('[' * n, ']' * n)):
                post(rec, app, debug, body.encode(), 'exact')
        elif shape == 'objects':
            big = App(debug)
            ids = ['a%d' % (1 + i % 2) for i in range(n)]
            big.world.spec = dict(SPEC, edges=dict(SPEC['edges'], **{'root.many': ids, 'A.b': {'a1': ['b%d' % i for i in range(n % 13)], 'a2': []}}))
            items = [['many', [['x'], ['b', [['v']]]]], ['f']]
            r = send(rec, big, 'POST', '/', '', edn(items).encode())
            check_post(debug, r, 200, big.world.evaluate(items))
        elif shape == 'text':
            for t in chunks_of(n):
                big = App(debug)
                big.app = ConsoleApplication(big.graph, Engine(SyncExecutor()), ctx={'k': t}, debug=debug)
                r = send(rec, big, 'POST', '/', '', b'[:key]')
                check_post(debug, r, 200, {'key': t})
        elif shape == 'body':
            for pad in (' ' * n, ',' * n, ';' * n + '\n', '; \u20ac\n' * n):
                post(rec, app, debug, (pad + '[:f]').encode(), 'exact')
                post(rec, app, debug, ('[:f' + pad + ' :g]').encode(), 'exact')
                post(rec, app, debug, ('[:f]' + pad).encode(), 'shorter')
        elif shape == 'errors':
            for body in ('[%s]' % ' '.join(':e%d' % i for i in range(n)), '[{:one [%s]}]' % ' '.join(':e%d' % i for i in range(n)), '[:%s]' % ('e' * n),
                         '[%s :nope]' % ' '.join([':f'] * n)):
                post(rec, app, debug, body.encode(), 'exact')
        elif shape == 'path':
            for path in ('/' * n, '/' + 'x' * n, '/docs' + '/' * n, '/' * n + 'docs', '/\xe9' * n):
                for m in ('GET', 'POST'):
                    r = send(rec, app, m, path, '/m', b'[:f]')
                    if not check_page(app, m, path, '/m', r):
                        check_post(debug, r, *outside(app, b'[:f]'))
            for script in ('/' + 'm' * n, '/m' * n, '/m' + '/' * n):
                check_page(app, 'GET', '/', script, send(rec, app, 'GET', '/', script))
        elif shape == 'requests':
            app = App(debug)
            for i in list(range(n)) + [0, n - 1]:
                m, path, body = REQUESTS[(i * 5 + n) % len(REQUESTS)]
                if i % 3 == 0:
                    m, path, body = 'POST', '/', b'[(:g {:i %d})]' % i
                r = send(rec, app, m, path, '/m%d' % i, body)
                if not check_page(app, m, path, '/m%d' % i, r):
                    check_post(debug, r, *outside(app, body))
        else:
            fields = {'g%d' % i: {'f': 'R%d' % (i % 7)} for i in range(n)}
            nodes = {'N%d' % i: {'fields': {'x': {'f': 'A1'}}, 'links': {}} for i in range(n)}
            links = {'l%d' % i: {'to': 'N%d' % i, 'kind': ['One', 'Many', 'Maybe'][i % 3]} for i in range(n)}
            big = App(debug)
            big.world = World({'root': {'fields': fields, 'links': links}, 'nodes': nodes, 'edges': {}})
            big.graph = Described().visit(big.world.graph())
            big.app = ConsoleApplication(big.graph, Engine(SyncExecutor()), **MODES[debug][0])
            big.docs = dumps(big.graph).encode()
            check_page(big, 'GET', '/docs', '', send(rec, big, 'GET', '/docs'))
            items = [[f] for f in fields] + [[x, [['x']]] for x in links]
            r = send(rec, big, 'POST', '/', '', edn(items).encode())
            check_post(debug, r, 200, big.world.evaluate(items))


def run(case, rec):
    if 'shape' in case:
        return run_sized(case, rec)
    if 'method' in case:
        m = case['method']
        for path in PATHS:
            for script in SCRIPTS:
                for debug in MODES:
                    app = app_of(debug)
                    for body in (b'', b'[:f]', b'[:bad]'):
                        for length in ('exact', 'missing') if body else ('exact', 'missing', '', 'abc'):
                            try:
                                r = send(rec, app, m, path, script, body, length)
                            except FileNotFoundError as e:
                                if path == '/console.js' and not HAVE_JS and os.path.basename(str(e.filename)) == 'console.js':
                                    continue
                                raise
                            if not check_page(app, m, path, script, r):
                                post(rec, app, debug, body, length, script, path)
    elif 'body' in case:
        body, want = BODIES[case['body']]
        for debug in MODES:
            app = app_of(debug)
            if want is None:
                # the context has no such key in some configurations
                want = 200 if app.ctx and 'k' in app.ctx else 500
                if want == 200 and outside(app, body) != (200, {'key': app.ctx['k']}):
                    raise Violation('the context is not the one given', got=outside(app, body))
                app_want, want = want, None
            else:
                app_want = want
            if body == b'[:ctx]' and outside(app, body) != (200, {'ctx': app.ctx or {}}):
                raise Violation('the context is not the one given', got=outside(app, body))
            if outside(app, body)[0] != app_want:
                raise Violation('the body is judged differently', body=body, got=outside(app, body), expected=want)
            for length in LENGTHS:
                post(rec, app, debug, body, length)
                post(rec, app, debug, body + b' :tail', str(len(body)))
    elif 'mutate' in case:
        body = BODIES[case['mutate']][0]
        some = range(256) if case['bytes'] == 256 else b' \x00\t\n"\\#()[]{}:;,/_-+.0129aefgxoAZ\x7f\x80\xc3\xa9\xe2\xf0\xff\xed\xa0'
        for debug in (False, True):
            app = app_of(debug)
            for i in range(len(body) + 1):
                for mutant in itertools.chain([body[:i], body[i:], body[:i] + body[i + 1:]],
                                              (body[:i] + bytes([c]) + body[i + 1:] for c in some),
                                              (body[:i] + bytes([c]) + body[i:] for c in some)):
                    post(rec, app, debug, mutant, 'exact')
    elif 'queries' in case:
        for items in queries(None, case['queries']):
            for debug in (False, True):
                app = app_of(debug)
                body = edn(items).encode()
                r = send(rec, app, 'POST', '/', '', body)
                check_post(debug, r, 200, app.world.evaluate(items))
    elif 'big' in case:
        for debug in (False, True):
            app = app_of(debug)
            for n in (LIMIT - 1, LIMIT, LIMIT + 1, LIMIT + 2):
                post(rec, app, debug, b'[:f]' + b' ' * (n - 4), 'exact')
    else:
        for rest in itertools.product(range(len(REQUESTS)), repeat=case['n'] - 1):
            for debug in (False, True):
                app = App(debug)
                for i in (case['history'],) + rest:
                    m, path, body = REQUESTS[i]
                    r = send(rec, app, m, path, '/m', body)
                    if not check_page(app, m, path, '/m', r):
                        check_post(debug, r, *outside(app, body))
