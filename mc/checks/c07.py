"""C07: cancelling an asyncio execution cancels and awaits every outstanding call."""
import asyncio

from hiku.engine import Engine
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.query import merge

from .. import sizes
from ..aio import Env
from ..core import Violation
from ..family import G1, Trees, g1, plain
from ..sched import Chooser, explore
from ..world import World, mk_query

PROPERTY = 'C07'
TECHNIQUE = ('stateless exploration of the real AsyncIOExecutor on a controlled event loop: cancellation at every '
             'iteration of every completion order')
LEVEL_NOTE = ('Every query up to the item bound x loader cleanup behaviours x every point of cancellation (once, '
              'thorough: twice) and completion order, deviation-bounded where capped. Known finding: a task made '
              'directly from Engine.execute and cancelled before its first step leaves the loaders running.')
NOTE = {
    'alphabet': 'loaders that, when cancelled: end at once, need further loop steps for cleanup, raise another error, '
                'swallow the cancellation, or a mixture',
    'choices': 'at every iteration of the event loop: nothing / cancel / one more loader continues; when idle: which '
               'loaders continue, or cancel',
    'oracle': 'outcome is CancelledError; at that moment no loader task is pending; every loader waiting at the '
              'cancellation got a CancelledError; no loader called afterwards',
}
KINDS = ['plain', 'slow', 'raise', 'swallow', 'mixed']


def bounds(tier):
    return {'items_per_query': 3 if tier == 'quick' else 4, 'depth': 3, 'menu': 2,
            'cancellations': 1 if tier == 'quick' else 2,
            'max_executions_per_case': 300 if tier == 'quick' else 1500}


def cases(tier):
    b = bounds(tier)
    for c in sizes.cases(tier, ('loaders', 'links', 'objects', 'depth')):
        if c['n'] <= (129 if tier == 'quick' or c['shape'] != 'loaders' else 513):
            for kind in KINDS:
                for at in range(5):
                    yield dict(c, kind=kind, direct=False, cancels=1, at=at, b=[1, 1])
    trees = Trees(G1)
    for items in trees.upto(b['items_per_query'], b['depth']):
        for kind in KINDS:
            for direct in (False, True):
                for cancels in range(1, b['cancellations'] + 1):
                    yield {'items': plain(items), 'kind': kind, 'direct': direct, 'cancels': cancels,
                           'b': [b['menu'], b['max_executions_per_case']]}


class CleanupError(Exception):
    pass


def run(case, rec):
    spec, items = sizes.make(case) if 'shape' in case else (g1('dense'), case['items'])
    if 'at' in case:        # cancelled when that part of the calls are done
        total = len(World(spec).expected_calls(items))
        part = [0, total // 3, total // 2, total - 1, total // 2][case['at']]
    query = merge([mk_query(items)])
    early = []

    def one(ch):
        created = []
        state = {}          # loader number -> list of what happened to it
        tasks_at_end = []
        snapshot = {}

        def wrap(func):
            def loader(*args):
                me = len(created)
                created.append(func.__name__)
                state[me] = []
                return body(me, func, args)

            async def body(me, func, args):
                kind = case['kind']
                if kind == 'mixed':
                    kind = ('slow', 'raise', 'swallow', 'plain')[me % 4]
                state[me].append('start')
                try:
                    await env.gate(me)
                except asyncio.CancelledError:
                    state[me].append('cancelled')
                    if kind == 'slow':
                        try:
                            await env.gate('cleanup %d' % me)
                        except asyncio.CancelledError:
                            pass
                    elif kind == 'raise':
                        raise CleanupError(me)
                    elif kind == 'swallow':
                        return func(*args)
                    raise
                finally:
                    state[me].append('end')
                return func(*args)
            return loader
        world = World(spec, wrap=wrap)
        graph = world.graph()
        if 'at' in case:
            def iteration(idle):
                ended = len([1 for log in state.values() if log[-1:] == ['end']])
                if not env.cancels and ended >= part and (idle or case['at'] == 4):
                    env.cancel_main()
                    return True
            env = Env(Chooser(), max_full=1, on_iteration=iteration)
        else:
            env = Env(ch, midflight=True, max_full=case['b'][0], max_cancels=case['cancels'])
        engine = Engine(AsyncIOExecutor(env.loop))
        cancel = env.cancel_main

        def cancel_main():
            if not snapshot:
                waiting = {label for _, label in env.open_gates()}
                snapshot.update(created=len(created), waiting=waiting, iteration=env.iteration)
            cancel()
        env.cancel_main = cancel_main

        async def main():
            try:
                return await engine.execute(graph, query)
            finally:
                tasks_at_end.append([m for m, log in state.items() if log and log[-1] != 'end'])
        try:
            if case['direct']:
                coro = engine.execute(graph, query)
            else:
                coro = main()
            outcome, value = env.run(coro)
            left = [t for t in env.pending()]
            if snapshot:
                if case['direct'] and snapshot['iteration'] == 1:
                    if left:
                        early.append(len(left))
                else:
                    if outcome != 'raise' or not isinstance(value, asyncio.CancelledError):
                        raise Violation('the execution was cancelled and ended with %s %r' % (outcome, value))
                    if left or (tasks_at_end and tasks_at_end[0]):
                        raise Violation('loader tasks are still running after the cancellation reached the caller',
                                        running=repr(state))
                    if len(created) > snapshot['created']:
                        raise Violation('loaders were started after the cancellation',
                                        loaders=created[snapshot['created']:])
                    for m in snapshot['waiting']:
                        if isinstance(m, int) and 'cancelled' not in state[m]:
                            raise Violation('an outstanding loader got no cancellation', loader=created[m],
                                            state=repr(state))
                rec.count('cancelled')
            elif outcome != 'ok':
                raise value
            env.settle()
            if env.pending() and not (case['direct'] and early):
                raise Violation('tasks are left running')
        finally:
            env.close()
        rec.outcome([state, outcome])
        return repr([state, outcome])
    explore(one, rec, max_execs=case['b'][1])
    if early:
        rec.fail('a task made directly from Engine.execute and cancelled before its first step leaves %d loader '
                 'tasks running' % early[0], key='cancel-before-first-step')
