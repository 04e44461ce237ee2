"""Assembles DESIGN.md: head, one section per property from the check modules, findings, planted bugs, tail."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
read = lambda n: open(os.path.join(V, n)).read()
WHY = json.load(open(os.path.join(V, 'tools', 'why.json')))
COST = json.load(open(os.path.join(V, 'tools', 'cost.json')))
out = [read('tools/design_head.md')]
out.append('## The properties and how each is decided\n')
for line in read('properties.jsonl').splitlines():
    p = json.loads(line)
    m = importlib.import_module('mc.checks.' + p['id'].lower())
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('*Specified:* %s\n' % p['statement'])
    out.append('*Decided by:* %s.\n' % m.TECHNIQUE)
    out.append('*Scope:* %s\n' % m.LEVEL_NOTE)
    for k, v in m.NOTE.items():
        out.append('* %s: %s' % (k, v))
    for t in ('quick', 'thorough'):
        out.append('* bounds, %s: %s' % (t, ', '.join('%s %s' % (k.replace('_', ' '), v)
                                                     for k, v in m.bounds(t).items())))
    c = COST.get(p['id'], {})
    out.append('* cost on 8 cores, in seconds: quick about %s, thorough %s' % (c.get('quick', '?'), c.get('thorough', '?')))
    for a in getattr(m, 'ASSUMPTIONS', []):
        out.append('* assumption: %s' % a)
    out.append('\n*Beyond tests:* %s\n' % WHY[p['id']])
out.append('## Findings on the original tree\n')
out.append('Genuine defects found by the checks. `fixed` ones are repaired by the named commit in /repo; the same list,\n'
           'in the form the checks read, is `known_findings.txt`.\n')
for line in read('known_findings.txt').splitlines():
    if line.startswith(('known:', 'fixed:')):
        out.append('* ' + line)
out.append('''
The one `known` finding: a coroutine only starts to run at the first step of its task. `Engine.execute` with the
asyncio executor submits loader tasks synchronously and returns a coroutine; when a task made from that coroutine is
cancelled before its first step, Python throws the cancellation into a coroutine that never entered its `try`
block. A repair would change what `Engine.execute` returns (a future with a cancellation callback, or submission
deferred to the first step), which is not a small change, so it is recorded.
''')
out.append('## Planted bugs\n')
out.append('Each was written from the property text, passes the stable tests, and has a demonstration. "Caught" means the\n'
           'quick check of its own property exits 1 with its VIOLATION line.\n')
out.append('| bug | property | needs | breaks | result |\n|---|---|---|---|---|')
res = json.load(open(os.path.join(V, 'tools', 'catches.json')))
sd = os.path.join(V, 'seeded')
for i in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, i, 'meta.json')))
    f = lambda s: s.replace('|', '\\|').replace('\n', ' ')
    out.append('| %s | %s | %s | %s | %s |' % (i, m['property'], f(m['needs']), f(m['what_it_breaks']), res.get(i, '?')))
out.append('')
out.append(read('tools/history.md'))
out.append(read('tools/design_tail.md'))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out).rstrip() + '\n')
