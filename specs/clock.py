"""A clock whose readings are arbitrary but never decrease."""
from rclpy.node import Node as ROSNode


class FakeDuration:
    def __init__(self, ns):
        self.nanoseconds = ns


class FakeTime:
    """idx: nanoseconds"""
    __vc_ref__ = True
    kind = 'time'

    def __init__(self, ns):
        self.idx = ns

    @property
    def nanoseconds(self):
        return self.idx

    def __sub__(self, o):
        return FakeDuration(self.idx - o.idx)

    def __eq__(self, o):
        return self.idx == o.idx

    def __lt__(self, o):
        return self.idx < o.idx

    def __le__(self, o):
        return self.idx <= o.idx

    def __gt__(self, o):
        return self.idx > o.idx

    def __ge__(self, o):
        return self.idx >= o.idx

    __hash__ = None


class Clock:
    """t: last reading; lo, hi: first and last reading since `mark`; reads: their number."""

    def __init__(self, env, label='clock'):
        self._vc_env = env
        self.t = env.int('start', 0, None, small=(0, 0))
        self.lo, self.hi, self.reads = 0, 0, 0
        if env.symbolic:
            env.refs['FakeTime'] = lambda kind, idx: FakeTime(idx)
        env.track(label, self)

    def mark(self):
        self.lo, self.hi, self.reads = 0, 0, 0

    def now(self):
        env = self._vc_env
        step = env.int('dt', 0, None, small=(0, 3))
        if env.concrete:
            step = step * 500000000
        self.t = self.t + step
        if self.reads == 0:
            self.lo = self.t
            self.reads = 1
        self.hi = self.t
        return FakeTime(self.t)


class FakeRos(ROSNode):
    """what the time-gated nodes use of a ROS node"""

    def __init__(self, clock):
        self._vc_clock = clock

    def get_clock(self):
        return self._vc_clock

    def __del__(self):
        pass
