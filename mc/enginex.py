"""Running one query on the real engine under the controlled executor."""
from hiku.engine import Engine
from hiku.query import merge
from hiku.result import denormalize

from .core import Violation
from .sched import MCExecutor
from .world import World, mk_query, read_result


class Run:
    """One execution of (spec, items) under one schedule."""

    def __init__(self, spec, items, ch, eager=True, groups=True, max_full=4, stamp=False, fault=None,
                 ordered=False, ctx=None, ctx_loaders=(), graph_hook=None, query=None, merged=True):
        self.world = World(spec, stamp=stamp, fault=fault, ctx_loaders=ctx_loaders)
        self.graph = self.world.graph()
        if graph_hook:
            self.graph = graph_hook(self.graph)
        if query is None:
            query = mk_query(items, ordered=ordered)
            if merged:
                query = merge([query])
        self.query = query
        self.items = items
        self.ex = MCExecutor(ch, eager=eager, groups=groups, max_full=max_full,
                             on_event=self._event)
        self.engine = Engine(self.ex)
        self.ctx = ctx
        self.result = None
        self.error = None

    def _event(self, kind, fut):
        self.world.events.append((kind, fut))

    def execute(self):
        try:
            self.result = self.engine.execute(self.graph, self.query, self.ctx)
        except Violation:
            raise
        except Exception as e:
            self.error = e
        return self

    def ok(self):
        self.execute()
        if self.error is not None:
            raise self.error
        left = [f.seq for f in self.ex.submitted if not f.reported]
        if left:
            raise Violation('execution returned while loader calls %r were still outstanding' % left)
        return self

    def data(self):
        return read_result(self.result, self.items, self.world)

    def denormalized(self):
        return denormalize(self.graph, self.result)


def calls_view(world):
    return [repr(c) for c in world.calls]
