"""The real asyncio event loop, with every completion and cancellation decided by the explorer.

The loop gets a selector of ours.  asyncio calls select() once per iteration; that is where the
environment acts: it may let a waiting loader continue or cancel the main task at any iteration, and it has
to let some loader continue when the loop would otherwise sleep.  Nothing else can make progress, so the
sequence of choices determines the execution.
"""
import asyncio
import itertools
import selectors

from .core import Violation
from .sched import report_menu


class MCTask(asyncio.Task):
    """Hashed by creation order, so that sets of tasks are iterated deterministically."""

    def __init__(self, *args, mc_hash, **kwargs):
        self.mc_hash = mc_hash
        super().__init__(*args, **kwargs)

    def __hash__(self):
        return self.mc_hash


class _Key:
    def __init__(self, fileobj, events, data):
        self.fileobj, self.fd, self.events, self.data = fileobj, fileobj, events, data


class MCSelector(selectors.BaseSelector):
    def __init__(self):
        self.keys = {}
        self.hook = None

    def register(self, fileobj, events, data=None):
        self.keys[fileobj] = selectors.SelectorKey(fileobj, 0, events, data)
        return self.keys[fileobj]

    def unregister(self, fileobj):
        return self.keys.pop(fileobj)

    def modify(self, fileobj, events, data=None):
        return self.register(fileobj, events, data)

    def get_map(self):
        return self.keys

    def get_key(self, fileobj):
        return self.keys[fileobj]

    def select(self, timeout=None):
        if self.hook is not None:
            self.hook(timeout != 0, timeout)
        return []

    def close(self):
        self.keys.clear()


class Env:
    """One event loop under control. gates: futures that loaders wait on, in creation order."""

    def __init__(self, ch, midflight=False, groups=True, max_full=3, reverse_hash=False, max_cancels=0,
                 max_midflight=1, on_iteration=None):
        self.ch = ch
        self.midflight = midflight
        self.max_midflight = max_midflight
        self.groups = groups
        self.max_full = max_full
        self.max_cancels = max_cancels
        self.cancels = 0
        self.gates = []
        self.main = None
        self.iteration = 0
        self.on_iteration = on_iteration
        self.log = []
        self.problems = []
        self.selector = MCSelector()
        self.loop = asyncio.SelectorEventLoop(self.selector)
        # time passes only when the explorer decides so
        self.now = 0.0
        self.loop.time = lambda: self.now
        self.loop.set_exception_handler(lambda loop, ctx: self.problems.append(ctx))
        self.tasks = []
        seq = itertools.count()

        def factory(loop, coro, **kw):
            n = next(seq)
            task = MCTask(coro, loop=loop, mc_hash=(7 - n % 8 + n // 8 * 8) if reverse_hash else n, **kw)
            self.tasks.append(task)
            return task
        self.loop.set_task_factory(factory)

    async def gate(self, label=None):
        fut = self.loop.create_future()
        self.gates.append((fut, label))
        await fut

    def open_gates(self):
        self.gates = [g for g in self.gates if not g[0].done()]
        return self.gates

    def cancel_main(self):
        self.cancels += 1
        self.log.append('cancel')
        self.main.cancel()

    def release(self, gates):
        for fut, label in gates:
            if not fut.done():
                self.log.append(('release', label))
                fut.set_result(None)

    def _hook(self, idle, timeout):
        self.iteration += 1
        if self.iteration > 50000:
            raise Violation('the event loop never comes to rest')
        if self.main is None or self.main.done():
            return
        if self.on_iteration and self.on_iteration(idle):
            return
        gates = self.open_gates()
        can_cancel = self.cancels < self.max_cancels
        if idle:
            timer = timeout is not None and timeout > 0
            if not gates and not can_cancel and not timer:
                raise Violation('execution hangs: nothing is outstanding, but it waits for something',
                                log=repr(self.log))
            menu = list(report_menu(len(gates), self.groups, self.max_full)) if gates else []
            n = len(menu) + (1 if can_cancel else 0) + (1 if timer else 0)
            c = self.ch.choose(n, ('idle', tuple(l for _, l in gates))) if n > 1 else 0
            if timer and c == n - 1:
                # everybody is slower than the nearest timer
                self.log.append('timer')
                self.now += timeout
            elif c == len(menu):
                self.cancel_main()
            else:
                self.release([gates[i] for i in menu[c]])
        else:
            n = 1 + (len(gates) if self.midflight and self.max_midflight > 0 else 0) + (1 if can_cancel else 0)
            if n == 1:
                return
            c = self.ch.choose(n, ('busy', tuple(l for _, l in gates)))
            if c == 0:
                return
            if can_cancel and c == n - 1:
                self.cancel_main()
            else:
                self.max_midflight -= 1
                self.release([gates[c - 1]])

    def run(self, coro):
        """Runs coro as the main task; returns ('ok', result) or ('raise', exception)."""
        asyncio.set_event_loop(None)
        try:
            self.main = self.loop.create_task(coro)
            self.selector.hook = self._hook
            try:
                return 'ok', self.loop.run_until_complete(self.main)
            except Violation:
                raise
            except (Exception, asyncio.CancelledError) as e:
                return 'raise', e
        except BaseException:
            self.close()
            raise

    def settle(self):
        """Lets whatever is still scheduled run (no gate is released)."""
        self.selector.hook = None

        async def nothing():
            for _ in range(20):
                await asyncio.sleep(0)
        self.loop.run_until_complete(nothing())

    def pending(self):
        return [t for t in self.tasks if not t.done()]

    def close(self):
        self.selector.hook = None
        try:
            left = [t for t in asyncio.all_tasks(self.loop)]
            for _ in range(5):
                if not left:
                    break
                for t in left:
                    t.cancel()

                async def nothing():
                    for _ in range(5):
                        await asyncio.sleep(0)
                self.loop.run_until_complete(nothing())
                left = [t for t in asyncio.all_tasks(self.loop)]
        finally:
            self.loop.close()
