"""Stateless exploration of executions under a controlled executor.

`explore` enumerates every sequence of choices a run makes (depth-first, choice 0 first, so the first
execution is the default schedule).  `MCExecutor` implements hiku's executor protocol and asks, each
time hiku waits, which of the outstanding calls are reported as done, together and in which order.
"""
import itertools

from .core import HarnessError, Violation


class Divergence(HarnessError):
    pass


class Chooser:
    def __init__(self, prefix=(), strict=True):
        self.prefix = list(prefix)
        self.choices = []
        self.points = []
        self.strict = strict

    def choose(self, n, label=None):
        assert n > 0
        i = len(self.choices)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise Divergence('choice %d at point %d of %r is out of range %d (%r)'
                             % (c, i, self.prefix, n, label))
        self.choices.append(c)
        self.points.append((n, label))
        return c


#: the future whose loader body is running
CURRENT = None


def explore(run, rec, max_execs=None, check_determinism=True):
    """Runs run(chooser) for every choice sequence. run returns an observation (compared on replay).

    Executions are explored by the number of deviations from the default choice, so that a cap on their
    number still leaves every execution with up to some number of deviations explored; that number is
    reported (rec.deviations)."""
    if rec.only_choices is not None:
        run(Chooser(rec.only_choices))
        rec.traces += 1
        return
    level, following = [((), None)], []
    deviations = 0
    n = 0
    while level or following:
        if not level:
            level, following = following[::-1], []
            deviations += 1
        prefix, expect = level.pop()
        if max_execs is not None and n >= max_execs:
            rec.capped += 1
            rec.deviations = min(rec.deviations, deviations - 1) if rec.deviations is not None \
                else deviations - 1
            return n
        ch = Chooser(prefix)
        try:
            obs = run(ch)
        except Violation as v:
            v.detail.setdefault('choices', ch.choices)
            raise
        except Divergence:
            raise
        except Exception as e:
            if not hasattr(e, 'mc_choices'):
                e.mc_choices = list(ch.choices)
            raise
        n += 1
        if expect is not None and ch.points[:len(expect)] != expect:
            raise Divergence('replay of %r took another path: %r, expected %r'
                             % (prefix, ch.points[:len(expect)], expect))
        if check_determinism and n == 1:
            ch2 = Chooser(ch.choices)
            obs2 = run(ch2)
            if ch2.points != ch.points or obs2 != obs:
                raise Divergence('two runs of the default schedule differ: %r / %r' % (obs, obs2))
        rec.traces += 1
        rec.states += len(ch.points) - max(0, len(prefix) - 1) + (0 if prefix else 1)
        rec.transitions += len(ch.points) - max(0, len(prefix) - 1)
        for i in range(len(ch.points) - 1, len(prefix) - 1, -1):
            for alt in range(ch.points[i][0] - 1, 0, -1):
                following.append((tuple(ch.choices[:i]) + (alt,), ch.points[:i + 1]))
    return n


_MENU = {}


def report_menu(n, groups=True, max_full=4):
    """Which outstanding calls finish next: every non-empty ordered subset (n <= max_full), otherwise
    every single one, all in order, and all in reverse order."""
    key = (n, groups, max_full)
    if key not in _MENU:
        if not groups:
            menu = [(i,) for i in range(n)]
        elif n <= max_full:
            menu = [p for k in range(1, n + 1) for p in itertools.permutations(range(n), k)]
        else:
            menu = [(i,) for i in range(n)] + [tuple(range(n)), tuple(reversed(range(n)))]
        _MENU[key] = menu
    return _MENU[key]


class OSet(set):
    """A set that is iterated in the order the explorer chose."""
    def __init__(self, items):
        super().__init__(items)
        self._order = list(items)

    def __iter__(self):
        return iter([i for i in self._order if i in self])


class MCFuture:
    def __init__(self, seq, fn, args, kwargs):
        self.seq = seq
        self.call = (fn, args, kwargs)
        self.ran = False
        self.reported = False
        self._exc = None
        self._result = None

    def __hash__(self):
        return self.seq

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return '<call %d>' % self.seq

    def run(self):
        if self.ran:
            return
        self.ran = True
        fn, args, kwargs = self.call
        global CURRENT
        outer, CURRENT = CURRENT, self
        try:
            self._result = fn(*args, **kwargs)
        except Exception as e:
            self._exc = e
        finally:
            CURRENT = outer

    def result(self):
        if not self.reported:
            raise Violation('result of a loader call was read before the call finished')
        if self._exc is not None:
            raise self._exc
        return self._result


class MCExecutor:
    """hiku executor whose completions the explorer decides.

    eager: a call's body runs when submitted (only its completion is delayed); otherwise the body runs
    when it is reported done.
    """
    def __init__(self, chooser, eager=True, groups=True, max_full=4, on_event=None, menu=None):
        self.ch = chooser
        self.eager = eager
        self.groups = groups
        self.max_full = max_full
        self.on_event = on_event or (lambda *a: None)
        self.n = 0
        self.submitted = []
        self.max_outstanding = 0

    def submit(self, fn, *args, **kwargs):
        fut = MCFuture(self.n, fn, args, kwargs)
        self.n += 1
        self.submitted.append(fut)
        self.on_event('submit', fut)
        if self.eager:
            fut.run()
        return fut

    def process(self, queue, workflow):
        while True:
            waiting = list(queue.__futures__)
            if not waiting:
                break
            out = sorted({f for f in waiting if not f.reported}, key=lambda f: f.seq)
            if not out:
                raise Violation('the queue keeps waiting for calls that are already done: '
                                'execution never terminates')
            self.max_outstanding = max(self.max_outstanding, len(out))
            menu = report_menu(len(out), self.groups, self.max_full)
            c = self.ch.choose(len(menu), ('done', tuple(f.seq for f in out))) if len(menu) > 1 else 0
            done = [out[i] for i in menu[c]]
            for f in done:
                f.run()
                f.reported = True
                self.on_event('done', f)
            queue.progress(OSet(done))
        return workflow.result()
