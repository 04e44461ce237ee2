"""The real ThreadsExecutor on a pool whose completions the explorer decides.

Engine.execute runs in a worker thread of ours; when that thread sleeps in concurrent.futures.wait, the
explorer completes a subset of the submitted futures (atomically for the waiter) and waits again.
"""
import concurrent.futures
import contextlib
import sys
import threading
import time

from . import sched
from .core import Violation
from .sched import report_menu


class PoolFuture(concurrent.futures.Future):
    def __init__(self, seq, mc_hash, call):
        super().__init__()
        self.seq = seq
        self.mc_hash = mc_hash
        self.call = call

    def __hash__(self):
        return self.mc_hash

    def __eq__(self, other):
        return self is other

    def execute(self):
        fn, args, kwargs = self.call
        outer, sched.CURRENT = sched.CURRENT, self
        try:
            res = fn(*args, **kwargs)
        except Exception as e:
            return self.set_exception, e
        finally:
            sched.CURRENT = outer
        return self.set_result, res


class MCPool:
    def __init__(self, ch, groups=True, max_full=3, reverse_hash=False, on_event=None):
        self.ch = ch
        self.groups, self.max_full, self.reverse = groups, max_full, reverse_hash
        self.futures = []
        self.on_event = on_event or (lambda *a: None)

    def submit(self, fn, *args, **kwargs):
        n = len(self.futures)
        fut = PoolFuture(n, (7 - n % 8 + n // 8 * 8) if self.reverse else n, (fn, args, kwargs))
        self.futures.append(fut)
        self.on_event('submit', fut)
        return fut

    def outstanding(self):
        return [f for f in self.futures if not f.done()]

    def complete(self, futs):
        outcomes = [(f, f.execute()) for f in futs]
        with contextlib.ExitStack() as stack:
            # the waiter has to take each future's lock, so it sees all of them done at once
            for f in sorted(futs, key=id):
                stack.enter_context(f._condition)
            for f, (setter, value) in outcomes:
                setter(value)
                self.on_event('done', f)

    def run(self, func, on_quiescent=None):
        """Runs func() in a thread to its end; ('ok', value) or ('raise', exc)."""
        box = []

        def body():
            try:
                box.append(('ok', func()))
            except BaseException as e:
                box.append(('raise', e))
        worker = threading.Thread(target=body, daemon=True)
        worker.start()
        while True:
            wait = self._until_asleep(worker, box)
            if wait is not None and wait[1] is not None:
                # it waits with a timeout: calls may take longer than that. A spurious wake-up is what an expired timeout looks like
                with wait[0]:
                    wait[0].notify_all()
                self._until_asleep(worker, box)
            if box:
                worker.join()
                return box[0]
            if on_quiescent:
                on_quiescent()
            out = self.outstanding()
            if not out:
                raise Violation('execution hangs: every submitted call is done, but it still waits')
            menu = report_menu(len(out), self.groups, self.max_full)
            c = self.ch.choose(len(menu), ('done', tuple(f.seq for f in out))) if len(menu) > 1 else 0
            self.complete([out[i] for i in menu[c]])

    def _until_asleep(self, worker, box):
        """Returns when the worker ended or sleeps waiting for something that did not happen yet."""
        t0 = time.monotonic()
        spins = 0
        while not box:
            f = sys._current_frames().get(worker.ident)
            if f is not None and f.f_code is threading.Condition.wait.__code__:
                # notify() takes the waiter off the list, so it is there as long as nothing woke the thread
                waiter, cond = f.f_locals.get('waiter'), f.f_locals.get('self')
                if waiter is not None and waiter in list(cond._waiters):
                    return cond, f.f_locals.get('timeout')
            if not worker.is_alive() and not box:
                raise Violation('the executing thread died')
            spins += 1
            if spins > 50:
                time.sleep(0.0001)
            else:
                time.sleep(0)
            if time.monotonic() - t0 > 20:
                raise Violation('execution neither ends nor waits for the submitted calls')
