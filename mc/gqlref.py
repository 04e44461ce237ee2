"""What a GraphQL request should be answered with, read from graphql-core's syntax tree.

verdict(service, request) -> ('data', op type, items) | ('errors', why) | None (not judged: only that there is an answer).
Not judged is what GraphQL's own validation rejects and hiku is free to ignore (unknown directives, unused fragments and
variables, repeated arguments, variables of another type than declared ...), and introspection.
"""
from graphql.error import GraphQLSyntaxError
from graphql.language import ast
from graphql.language.parser import parse

from .world import item4

SCALARS = {'Int': int, 'Str': str}


class Bad(Exception):
    """The document has an error."""


class Unjudged(Exception):
    pass


def verdict(spec_of, request):
    """spec_of: {'query': spec, 'mutation': spec or None}"""
    try:
        doc = parse(request['query'])
    except GraphQLSyntaxError as e:
        return 'errors', 'syntax: %s' % e.message
    except RecursionError:
        return None
    try:
        return judge(spec_of, doc, request.get('variables'), request.get('operationName'))
    except Bad as e:
        return 'errors', str(e)
    except Unjudged:
        return None


def judge(spec_of, doc, variables, op_name):
    ops, fragments = {}, {}
    for d in doc.definitions:
        if isinstance(d, ast.OperationDefinitionNode):
            name = d.name.value if d.name else None
            if name in ops:
                raise Bad('duplicate operation')
            ops[name] = d
        elif isinstance(d, ast.FragmentDefinitionNode):
            if d.name.value in fragments:
                raise Unjudged          # an unused one may be repeated
            fragments[d.name.value] = d
        else:
            raise Bad('not executable')
    if not ops:
        raise Bad('no operation')
    if op_name is None:
        if len(ops) > 1:
            raise Bad('several operations, no name')
        op = list(ops.values())[0]
    else:
        if not isinstance(op_name, str) or op_name not in ops:
            raise Bad('unknown operation')
        op = ops[op_name]
    if op.directives or len(ops) > 1 and None in ops:
        raise Unjudged
    kind = op.operation.value
    if spec_of.get(kind) is None:
        raise Bad('no graph for %s' % kind)
    if variables is not None and not isinstance(variables, dict):
        raise Unjudged
    if len(ops) > 1:        # the other operations have to be fine, too
        for o in ops.values():
            if o is not op:
                try:
                    r = Reader(spec_of, fragments, o, {}, True).read()
                except Bad:
                    raise Unjudged
    reader = Reader(spec_of, fragments, op, variables or {})
    items = reader.read()
    if len(ops) == 1 and (reader.used_fragments != set(fragments) or reader.used_variables != set(reader.vars)):
        raise Unjudged
    return 'data', kind, items


class Reader:
    def __init__(self, spec_of, fragments, op, variables, lax=False):
        self.kind = op.operation.value
        self.spec = spec_of.get(self.kind)
        self.root = {'query': 'Query', 'mutation': 'Mutation'}.get(self.kind)
        self.fragments = fragments
        self.op = op
        self.given = variables
        self.lax = lax
        self.vars = {}
        self.used_fragments, self.used_variables, self.pending = set(), set(), []

    def read(self):
        if self.spec is None:
            raise Unjudged
        for v in self.op.variable_definitions or ():
            name = v.variable.name.value
            if v.directives or name in self.vars:
                raise Unjudged
            if name in self.given:
                x = self.given[name]
            elif v.default_value is not None:
                x = self.value(v.default_value)
            elif isinstance(v.type, ast.NonNullTypeNode):
                if self.lax:
                    raise Unjudged
                raise Bad('missing variable')
            else:
                x = None
            check_type(v.type, x)
            self.vars[name] = x
        items = self.selection(self.op.selection_set, ('node', None))
        check_items(items)
        return items

    def value(self, v):
        if isinstance(v, ast.VariableNode):
            name = v.name.value
            if name not in self.vars:
                raise Bad('undefined variable')
            self.used_variables.add(name)
            return self.vars[name]
        if isinstance(v, ast.NullValueNode):
            return None
        if isinstance(v, ast.IntValueNode):
            if len(v.value) > 18:
                raise Unjudged
            return int(v.value)
        if isinstance(v, ast.FloatValueNode):
            return float(v.value)
        if isinstance(v, (ast.StringValueNode, ast.BooleanValueNode)):
            return v.value
        if isinstance(v, ast.ListValueNode):
            return [self.value(x) for x in v.values]
        if isinstance(v, ast.ObjectValueNode):
            if len({f.name.value for f in v.fields}) < len(v.fields):
                raise Unjudged
            return {f.name.value: self.value(f.value) for f in v.fields}
        raise Unjudged                  # enum

    def skipped(self, node):
        ds = {}
        for d in node.directives or ():
            name = d.name.value
            if name not in ('skip', 'include') or name in ds:
                raise Unjudged
            if [a.name.value for a in d.arguments] != ['if']:
                raise Bad('directive arguments')
            x = self.value(d.arguments[0].value)
            if not isinstance(x, bool):
                raise Unjudged
            ds[name] = x
        return ds.get('skip', False) or not ds.get('include', True)

    def selection(self, sel, ctx):
        """ctx: ('node', name or None) or ('rec', type)"""
        res = []
        for s in sel.selections:
            try:
                skipped = self.skipped(s)
            except Bad:
                raise
            if skipped:
                self.dry(s, ctx)
                continue
            res += self.one(s, ctx)
        return res

    def dry(self, s, ctx):
        """A skipped selection: errors in it may or may not be reported."""
        try:
            self.one(s, ctx)
        except Bad:
            raise Unjudged

    def one(self, s, ctx):
        if isinstance(s, ast.FieldNode):
            return [self.field(s, ctx)]
        if isinstance(s, ast.InlineFragmentNode):
            if s.type_condition is not None:
                self.condition(s.type_condition, ctx)
            return self.selection(s.selection_set, ctx)
        name = s.name.value
        f = self.fragments.get(name)
        if f is None:
            raise Bad('undefined fragment')
        if name in self.pending:
            raise Bad('cyclic fragment')
        if f.directives or f.variable_definitions:
            raise Unjudged
        self.used_fragments.add(name)
        self.condition(f.type_condition, ctx)
        self.pending.append(name)
        try:
            return self.selection(f.selection_set, ctx)
        finally:
            self.pending.pop()

    def condition(self, c, ctx):
        kind, t = ctx
        want = (t or self.root) if kind == 'node' else (t[1] if t[0] == 'ref' else 'Any')
        if c.name.value != want:
            raise Unjudged

    def field(self, f, ctx):
        name = f.name.value
        alias = f.alias.value if f.alias else None
        args = {}
        for a in f.arguments or ():
            if a.name.value in args:
                raise Unjudged
            args[a.name.value] = self.value(a.value)
        if name in ('__schema', '__type') and ctx == ('node', None):
            raise Unjudged
        if name == '__typename':
            if args or f.selection_set:
                self.contents(f)
                raise Bad('__typename with arguments or selection')
            return [name, None, alias, None]
        kind, t = ctx
        opts, sub_ctx, is_rec_field = None, None, False
        if kind == 'node':
            node = self.spec['root'] if t is None else self.spec['nodes'][t]
            if name in node['fields']:
                d = node['fields'][name]
                opts = d.get('opts')
                sub_ctx = self.structure(d.get('type'))
                is_rec_field = sub_ctx is not None
            elif name in node['links']:
                d = node['links'][name]
                opts = d.get('opts')
                sub_ctx = ('node', d['to'])
            else:
                self.contents(f)
                raise Bad('unknown field')
        else:
            fields = self.spec['data_types'][t[1]][1] if t[0] == 'ref' else t[1]
            if name not in fields:
                self.contents(f)
                raise Bad('unknown field')
            sub_ctx = self.structure(fields[name])
        self.options(opts or {}, args)
        if f.selection_set is None:
            if is_rec_field:
                raise Unjudged
            if sub_ctx is not None:
                raise Bad('selection missing')
            sub = None
        else:
            if sub_ctx is None:
                self.contents(f)
                raise Bad('not a structure')
            sub = self.selection(f.selection_set, sub_ctx)
        return [name, sub, alias, args or None]

    def contents(self, f):
        """Inside a field that is an error itself nothing is left to decide."""

    def structure(self, t):
        if t is None or isinstance(t, str):
            return None
        if t[0] in ('opt', 'seq'):
            return self.structure(t[1])
        if t[0] == 'ref' and self.spec['data_types'][t[1]][0] != 'rec':
            return self.structure(self.spec['data_types'][t[1]])
        return ('rec', t)

    def options(self, declared, args):
        for n in args:
            if n not in declared:
                raise Bad('unknown option')
        for n, o in declared.items():
            if n in args:
                check_option(o.get('type'), args[n])
            elif 'default' not in o:
                raise Bad('required option')


def check_option(t, v):
    if t is None:
        return
    if isinstance(t, str):
        if not isinstance(v, SCALARS[t]) or isinstance(v, bool):
            raise Bad('option type')
    elif t[0] == 'opt':
        if v is not None:
            check_option(t[1], v)
    else:
        raise Unjudged


def check_type(t, v):
    """Variables of another type than declared are not judged."""
    if isinstance(t, ast.NonNullTypeNode):
        if v is None:
            raise Unjudged
        return check_type(t.type, v)
    if v is None:
        return
    if isinstance(t, ast.ListTypeNode):
        if not isinstance(v, list):
            raise Unjudged
        for x in v:
            check_type(t.type, x)
        return
    want = {'Int': int, 'String': str, 'Boolean': bool, 'Float': float}.get(t.name.value)
    if want is None or not isinstance(v, want) or want is int and isinstance(v, bool):
        raise Unjudged


def canon(v):
    return (type(v).__name__, repr(v))


def check_items(items):
    """One key of the response, one thing."""
    groups = {}
    for it in items:
        name, sub, alias, args = item4(it)
        what = (name, sub is None, sorted((k, canon(v)) for k, v in (args or {}).items()))
        key = alias or name
        if key in groups and groups[key][0] != what:
            raise Bad('conflicting selections')
        groups.setdefault(key, (what, []))[1].extend(sub or ())
    for what, subs in groups.values():
        if not what[1]:
            check_items(subs)


def merge_items(items):
    """Repeated selections of one key, written as one."""
    res = {}
    for it in items:
        name, sub, alias, args = item4(it)
        key = alias or name
        if key in res:
            res[key][1] = None if sub is None else res[key][1] + sub
        else:
            res[key] = [name, sub, alias, args]
    return [[n, None if s is None else merge_items(s), a, o] for n, s, a, o in res.values()]
