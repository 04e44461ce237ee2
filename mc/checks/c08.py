"""C08: callbacks of the scheduling queue fire exactly once, and only after the work they wait for."""
from hiku.executors.queue import Queue, Workflow

from .. import sizes
from ..core import Violation
from ..sched import MCExecutor, explore

PROPERTY = 'C08'
TECHNIQUE = ('explicit enumeration of scheduling programs, each run on the real Queue under every order and grouping '
             'of completion reports, with a monitor of every callback')
LEVEL_NOTE = ('Every program of up to the bound of operations (submit, fork, callbacks that submit and fork further '
              'work) x every order and grouping of reports. Callbacks add work only to groups that are still open: '
              'the group of the finished call or one it was forked from.')
NOTE = {
    'alphabet': 'submit to an open group, fork from an open group, register a callback with a body of further '
                'operations on a call or group of the same body; an observing callback is registered on every call '
                'and group when it is created and again at the end of the body that created it; one function is registered twice on each of them',
    'choices': 'at every wait, every non-empty ordered subset of the outstanding calls is reported done',
    'oracle': 'exactly-once, registration order, all transitively added work done before a group callback, '
              'outstanding calls equal those the queue waits for',
}


def bounds(tier):
    return {'operations': 6 if tier == 'quick' else 7, 'menu': 4 if tier == 'quick' else 4,
            'max_executions_per_case': 400 if tier == 'quick' else 5000}


def programs(n):
    """Programs of exactly n operations.

    A program is a list of bodies; body 0 runs at the start, the others are the callbacks, in the order in
    which they are registered.  Operations: ['S', group], ['F', group], ['C', object] (body follows).
    Objects are numbered globally in program order; group 0 is the root."""
    # state: bodies (lists of ops), queue of bodies still to fill (each with its open groups), objects
    def fill(bodies, todo, objs, left):
        # objs: [(kind, parent group)] - object 0 is the root group
        if not todo:
            if left == 0:
                yield [list(b) for b in bodies]
            return
        index, open_groups = todo[0]
        body = bodies[index]
        # finish this body (callback bodies are not empty)
        if body and (index > 0 or any(o[0] == 'S' for o in body)):
            yield from fill(bodies, todo[1:], objs, left)
        if left == 0:
            return
        own = [o for _, o in [(op, op[-1]) for op in body if op[0] in 'SF']]
        groups = open_groups + [op[2] for op in body if op[0] == 'F']
        last = body[-1] if body else None
        for g in groups:
            for kind in 'SF':
                op = [kind, g, len(objs)]
                yield from fill(bodies[:index] + [body + [op]] + bodies[index + 1:], todo, objs + [(kind, g)], left - 1)
        targets = own + ([0] if index == 0 else [])
        for t in targets:
            if objs[t][0] == 'S':
                base = objs[t][1]
            else:
                base = objs[t][1]
            if base is None:
                # a callback on the root group has nowhere to put further work: observed anyway
                continue
            anc = []
            g = base
            while g is not None:
                anc.append(g)
                g = objs[g][1]
            op = ['C', t, len(bodies)]
            yield from fill(bodies[:index] + [body + [op]] + bodies[index + 1:] + [[]],
                            todo + [(len(bodies), anc)], objs, left - 1)
    yield from fill([[]], [(0, [0])], [('F', None)], n)


def cases(tier):
    b = bounds(tier)
    for n in sizes.ladder(tier, 65 if tier == 'quick' else 257):
        for p in large(n):
            yield {'bodies': p, 'b': [2, 3]}
    for n in range(1, b['operations'] + 1):
        for p in programs(n):
            yield {'bodies': p, 'b': [b['menu'], b['max_executions_per_case']]}


def large(n):
    """Programs with n of something."""
    # calls of one group; groups side by side with a call each; groups of one group with a call in the first and last
    yield [[['S', 0, i + 1] for i in range(n)]]
    yield [[op for i in range(n) for op in (['F', 0, 2 * i + 1], ['S', 2 * i + 1, 2 * i + 2])]]
    yield [[['F', 0, i + 1] for i in range(n)] + [['S', 1, n + 1], ['S', n, n + 2]]]
    # groups in groups, a call in the innermost one, and another in every group
    yield [[['F', i, i + 1] for i in range(n)] + [['S', n, n + 1]]]
    yield [[['F', i, i + 1] for i in range(n)] + [['S', i, n + 1 + i] for i in range(n + 1)]]
    # callbacks of one call, each with a call of its own
    yield [[['S', 0, 1]] + [['C', 1, i + 1] for i in range(n)]] + [[['S', 0, i + 2]] for i in range(n)]
    # a call whose callback makes the next call, and so on; the same with groups
    yield [[['S', 0, 1], ['C', 1, 1]]] + [[['S', 0, i + 2]] + ([['C', i + 2, i + 2]] if i < n - 1 else []) for i in range(n)]
    yield ([[['F', 0, 1], ['S', 1, 2], ['C', 1, 1]]] +
           [[['F', 0, 2 * i + 3], ['S', 2 * i + 3, 2 * i + 4]] + ([['C', 2 * i + 3, i + 2]] if i < n - 1 else []) for i in range(n)])


class Done(Workflow):
    def result(self):
        return 'result'


def run(case, rec):
    bodies = case['bodies']

    def one(ch):
        ex = MCExecutor(ch, max_full=case['b'][0])
        queue = Queue(ex)
        objs = {}
        parent = {}
        members = {}      # group -> calls and groups
        expected = {}     # object -> [callback names in registration order]
        fired = {}
        log = []
        shared_runs = [0, 0]      # runs, registrations of one function given everywhere

        def shared():
            shared_runs[0] += 1

        def share(i):
            shared_runs[1] += 1
            queue.add_callback(objs[i], shared)

        def add(i, obj, kind, group):
            objs[i] = obj
            parent[i] = group
            expected[i] = []
            fired[i] = []
            if kind == 'F':
                members[i] = []
            if group is not None:
                members[group].append(i)

        def complete(i):
            if i not in members:
                return objs[i].reported
            return all(complete(m) and fired[m] == expected[m] for m in members[i])

        def register(i, name, body=None):
            expected[i].append(name)

            def callback():
                log.append(('callback', i, name))
                if not complete(i):
                    raise Violation('callback of object %d ran before its work was done' % i, log=repr(log))
                if name in fired[i]:
                    raise Violation('callback of object %d ran twice' % i, log=repr(log))
                fired[i].append(name)
                if fired[i] != expected[i][:len(fired[i])]:
                    raise Violation('callbacks of object %d ran out of order' % i, log=repr(log))
                if body is not None:
                    perform(body)
            queue.add_callback(objs[i], callback)

        def perform(index):
            created = []
            for op, arg, new in bodies[index]:
                if op == 'S':
                    fut = objs[arg].submit(lambda: None)
                    add(new, fut, 'S', arg)
                    created.append(new)
                elif op == 'F':
                    add(new, queue.fork(objs[arg]), 'F', arg)
                    created.append(new)
                else:
                    register(arg, 'body%d' % new, new)
                    continue
                register(new, 'first')
                share(new)
            for i in created:
                share(i)
                register(i, 'last')

        add(0, queue.fork(None), 'F', None)
        register(0, 'first')
        share(0)
        perform(0)
        share(0)
        register(0, 'last')

        def on_event(kind, fut):
            if kind == 'done':
                log.append(('done', fut.seq))
        ex.on_event = on_event
        # the same loop as MCExecutor.process, with the outstanding calls compared at every wait
        orig = queue.progress

        def progress(done):
            orig(done)
            out = {f.seq for f in ex.submitted if not f.reported}
            waits = {f.seq for f in queue.__futures__}
            if out != waits:
                raise Violation('the queue waits for calls %r, outstanding are %r' % (sorted(waits), sorted(out)))
            for i, o in objs.items():
                if i not in members and o.reported and fired[i] != expected[i]:
                    raise Violation('a finished call has callbacks that did not run', log=repr(log))
        queue.progress = progress
        if ex.process(queue, Done()) != 'result':
            raise Violation('process returned something else')
        for i in expected:
            if fired[i] != expected[i]:
                raise Violation('callbacks of object %d are lost: ran %r of %r' % (i, fired[i], expected[i]),
                                log=repr(log))
        if shared_runs[0] != shared_runs[1]:
            raise Violation('one function registered %d times (twice for every object) ran %d times'
                            % (shared_runs[1], shared_runs[0]), log=repr(log))
        rec.outcome(log)
        return log
    explore(one, rec, max_execs=case['b'][1])
