"""Query items -> GraphQL text."""
import json


def value(v):
    if isinstance(v, dict):
        return '{' + ', '.join('%s: %s' % (k, value(x)) for k, x in v.items()) + '}'
    if isinstance(v, (list, tuple)):
        return '[' + ', '.join(value(x) for x in v) + ']'
    return json.dumps(v)


def item(it):
    name, sub, alias, opts = (list(it) + [None] * 4)[:4]
    if name == '...':           # inline fragment
        return '... { %s }' % selection(sub)
    if name.startswith('...'):  # spread of a named fragment
        return name
    s = '%s: %s' % (alias, name) if alias else name
    if opts:
        s += '(' + ', '.join('%s: %s' % (k, value(v)) for k, v in opts.items()) + ')'
    if sub is not None:
        s += ' { %s }' % selection(sub)
    return s


def selection(items):
    return ' '.join(item(i) for i in items)


def document(op, items, fragments=()):
    s = '%s { %s }' % (op, selection(items))
    for name, on, body in fragments:
        s += ' fragment %s on %s { %s }' % (name, on, selection(body))
    return s
