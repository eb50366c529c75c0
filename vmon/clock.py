"""A virtual process clock, installed before satisfy is imported.

Every way of reading the time that a solver could reasonably use answers from here; time passes only when a
workload says so, in dyadic steps, so sums of floats are exact.  With a tick, every reading moves it on.  The
clocks of processor time go at half the speed: the time that passes in a workload is partly spent waiting."""
import time


class Clock:
    def __init__(self):
        self.t = 1048576.0     # 2**20: dyadic increments stay exact
        self.tick = 0.0

    def advance(self, dt):
        self.t += dt

    def read(self):
        self.t += self.tick
        return self.t


CLOCK = Clock()
installed = False


def install():
    global installed
    if installed:
        return
    for name in ('time', 'monotonic', 'perf_counter'):
        setattr(time, name, lambda: CLOCK.read())
        setattr(time, name + '_ns', lambda: int(CLOCK.read() * 1000000000))
    for name in ('process_time', 'thread_time'):
        setattr(time, name, lambda: CLOCK.read() / 2)
        setattr(time, name + '_ns', lambda: int(CLOCK.read() * 500000000))
    installed = True
