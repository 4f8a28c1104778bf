"""C07: Wait, Throttle and ThrottleSuccess under every non-decreasing sequence of clock readings."""
from ros_bt_py.ros_nodes.throttle import Throttle, ThrottleSuccess
from ros_bt_py.ros_nodes.wait import Wait
from specs.clock import Clock, FakeRos
from specs.world import World, give

SECONDS = (0.0, 0.5, 1.0, 2.0, -1.0)


def wait(env):
    clock = Clock(env)
    node = Wait()
    dur = env.real('duration', SECONDS)
    give(env, node, 'seconds_to_wait', dur)
    if env.choice('ros', [True, False]):
        node.ros_node = FakeRos(clock)
    g = env.ghost('g', on=False, a=0, b=0)
    env.track_node('node', node)
    if not node.has_ros_node:
        env.check(node.setup().is_err(), 'without a ROS node the setup fails')
        return
    r = node.setup()
    env.check(r.is_ok() and node.state == 'IDLE', 'the setup leaves the node idle')
    for _ in env.rounds('r'):
        op = env.choice('op', ['tick', 'untick', 'reset', 'restart'])
        clock.mark()
        if op == 'tick':
            r = node.tick()
            env.check(r.is_ok() and r.ok() == node.state, 'a tick returns the state of the node')
            env.check(clock.reads == 1, 'a tick reads the clock')
            if not g.on:
                g.on, g.a, g.b = True, clock.lo, clock.hi
            if r.ok() == 'SUCCEEDED':
                env.check((clock.hi - g.a) / 1e9 >= dur, 'SUCCEEDED only when the duration has elapsed since the first tick')
            else:
                env.check(r.ok() == 'RUNNING', 'the result is RUNNING or SUCCEEDED')
                env.check((clock.lo - g.b) / 1e9 < dur, 'RUNNING only while the duration has not elapsed')
            env.cover(r.ok())
        elif op == 'untick':
            r = node.untick()
            env.check(r.is_ok() and node.state == 'PAUSED', 'an untick pauses the node')
        elif op == 'reset':
            r = node.reset()
            env.check(r.is_ok() and node.state == 'IDLE', 'a reset leaves the node idle')
            g.on = False
        else:
            env.check(node.shutdown().is_ok() and node.state == 'SHUTDOWN', 'a shutdown leaves the node shut down')
            env.check(node.setup().is_ok() and node.state == 'IDLE', 'the setup leaves the node idle')
            g.on = False


def throttle(env, cls, keep):
    """keep: Throttle (repeats the last result); otherwise ThrottleSuccess (FAILED after a success)."""
    clock = Clock(env)
    children = env.choice('children', [0, 1])
    g = env.ghost('g', kt=0, ku=0, kr=0, ks=0, kd=0, out='', err=False, on=False, a=0, b=0, last='FAILED', has=children == 1)

    def monitor(op, i, out):
        if op == 'tick':
            g.kt = g.kt + 1
            g.out = out
        elif op == 'untick':
            g.ku = g.ku + 1
        elif op == 'reset':
            g.kr = g.kr + 1
        elif op == 'setup':
            g.ks = g.ks + 1
        else:
            g.kd = g.kd + 1
        if out == 'ERR':
            g.err = True
    w = World(env, 'w', start='UNINITIALIZED', n=children, monitor=monitor, errors=('setup', 'tick', 'untick', 'reset'))
    node = cls()
    w.attach(node)
    dur = env.real('interval', SECONDS)
    give(env, node, 'tick_interval', dur)
    if env.choice('ros', [True, False]):
        node.ros_node = FakeRos(clock)
    env.track_node('node', node)
    if not node.has_ros_node:
        env.check(node.setup().is_err(), 'without a ROS node the setup fails')
        return

    def setup():
        r = node.setup()
        if g.err:
            env.check(r.is_err(), 'an error of the child makes the setup an error')
            return False
        env.check(r.is_ok() and node.state == 'IDLE' and g.ks == children and g.kt == 0,
                  'the setup sets the child up once and leaves the node idle')
        g.ks, g.on, g.last = 0, False, 'FAILED'
        return True
    if not setup():
        return
    for _ in env.rounds('r'):
        op = env.choice('op', ['tick', 'untick', 'reset', 'restart'])
        clock.mark()
        if op == 'tick':
            r = node.tick()
            if g.err:
                env.check(r.is_err() and node.state == 'BROKEN', 'an error of the child makes the tick an error')
                return
            env.check(r.is_ok() and r.ok() == node.state, 'a tick returns the state of the node')
            env.check(clock.reads == 1, 'a tick reads the clock')
            if not children:
                env.check(r.ok() == 'FAILED', 'without a child the result is FAILED')
            elif g.kt > 0:
                env.check(g.kt == 1 and g.ku == 0, 'the child is ticked at most once')
                env.check(env.or_(not g.on, (clock.hi - g.a) / 1e9 > dur), 'the child is ticked only when the interval has elapsed')
                env.check(r.ok() == g.out, 'the result of a child that is ticked is passed on')
                env.check(g.kr == (1 if keep and g.out != 'RUNNING' else 0), 'the child is reset only after a result that is kept')
                if g.out != 'RUNNING' if keep else g.out == 'SUCCEEDED':
                    g.on, g.a, g.b = True, clock.lo, clock.hi
                    g.last = g.out if keep else 'FAILED'
                env.cover('passed on ' + g.out)
            else:
                env.check(g.on, 'the child is ticked when no result is held')
                env.check((clock.lo - g.b) / 1e9 <= dur, 'the child is ticked once the interval has elapsed')
                env.check(r.ok() == g.last, 'between two ticks of the child the documented result is returned')
                env.check(g.ku == 0 and g.kr == 0, 'between two ticks the child is left alone')
                env.cover('held back')
        elif op == 'untick':
            r = node.untick()
            if g.err:
                env.check(r.is_err(), 'an error of the child makes the untick an error')
                return
            env.check(r.is_ok() and node.state == 'IDLE' and g.ku == children, 'an untick unticks the child and leaves the node idle')
        elif op == 'reset':
            r = node.reset()
            if g.err:
                env.check(r.is_err(), 'an error of the child makes the reset an error')
                return
            env.check(r.is_ok() and node.state == 'IDLE' and g.kr == children, 'a reset resets the child and leaves the node idle')
            if not keep:
                g.on = False
        else:
            env.check(node.shutdown().is_ok() and node.state == 'SHUTDOWN', 'a shutdown leaves the node shut down')
            g.kd = 0
            if not setup():
                return
        g.kt, g.ku, g.kr, g.kd, g.out = 0, 0, 0, 0, ''


HARNESSES = [
    {'name': 'wait', 'run': wait},
    {'name': 'throttle', 'run': lambda env: throttle(env, Throttle, True)},
    {'name': 'throttle-success', 'run': lambda env: throttle(env, ThrottleSuccess, False)},
]
