"""The clocks of the system, replaced by one which stands still until it is told to advance.

Import this before anything that may keep a reference to a clock.  Outside of virtual() the real clocks are read.
"""
import contextlib
import time
import timeit

_now = None


def _replace(name, scale):
    real = getattr(time, name)

    def clock():
        return real() if _now is None else type(real())(_now * scale)
    clock.__name__ = name
    setattr(time, name, clock)
    return clock


for _name in ('perf_counter', 'monotonic', 'time', 'process_time', 'thread_time'):
    _clock = _replace(_name, 1)
    _replace(_name + '_ns', 10 ** 9)
    if _name == 'perf_counter':
        timeit.default_timer = _clock


def now():
    return _now


def advance(seconds):
    global _now
    _now += seconds


@contextlib.contextmanager
def virtual():
    global _now
    _now = 1000
    try:
        yield
    finally:
        _now = None
