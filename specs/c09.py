"""C09: setup, untick, reset and shutdown reach every child, in order."""
from ros_bt_py.exceptions import BehaviorTreeException
from ros_bt_py.node import FlowControl, define_bt_node
from ros_bt_py.node_config import NodeConfig
from ros_bt_py.nodes import decorators as D
from ros_bt_py.nodes.fallback import Fallback, MemoryFallback, NameSwitch
from ros_bt_py.nodes.parallel import Parallel, ParallelFailureTolerance
from ros_bt_py.nodes.sequence import MemorySequence, Sequence
from ros_bt_py.ros_nodes.enum_switch import EnumSwitch
from ros_bt_py.vendor.result import Err, Ok
from specs.world import World


def fan_out(env, make, children=None, lo=0, start='UNINITIALIZED', ops=('setup', 'untick', 'reset', 'shutdown'), own=False,
            begin=None, once=False, untick='IDLE'):
    """A client that performs `ops` in any order. own: the node's own shutdown may fail."""
    g = env.ghost('g', op='', next=0, kc=0, err=False, own=False)

    def monitor(op, i, out):
        if op == 'utility':
            return
        env.check(op == g.op, f'an operation performs the same operation on the children')
        env.check(g.op == 'shutdown' or not g.err, 'no child is touched after a child reported an error')
        env.check(i == g.next, 'the children are reached in order')
        g.next = i + 1
        if i == k:
            g.kc = g.kc + 1
        if out == 'ERR':
            g.err = True
    w = World(env, 'w', start=start, n=children, lo=lo, monitor=monitor, errors=('setup', 'untick', 'reset', 'shutdown'))
    k = env.arbitrary('k', w.n) if children is None else 0
    node = make()
    node.vc_env, node.vc_g = env, g
    w.attach(node)
    if begin:
        node.state = begin(env)
    env.track_node('node', node)
    for _ in range(1) if once else env.rounds('r', 4):
        op = env.choice('op', ops)
        pre = node.state
        legal = pre in ('UNINITIALIZED', 'SHUTDOWN') if op == 'setup' else op == 'shutdown' or \
            pre not in ('UNINITIALIZED', 'SHUTDOWN', 'BROKEN')
        g.op = op
        r = {'setup': node.setup, 'untick': node.untick, 'reset': node.reset, 'shutdown': node.shutdown}[op]()
        if op == 'shutdown':
            env.check(g.next == w.n, 'a shutdown reaches the last child')
            if w.n > 0:
                env.check(g.kc == 1, 'a shutdown reaches every child exactly once')
            env.check(r.is_err() == (g.err or g.own), 'a shutdown reports an error exactly if there was one')
            if r.is_ok():
                env.check(node.state == 'SHUTDOWN', 'a shutdown without error leaves the node shut down')
                if w.n > 0:
                    env.check(w.is_state(k, ('SHUTDOWN',)), 'a shutdown without error leaves every child shut down')
            env.cover('shutdown ' + ('ok' if r.is_ok() else 'error'))
        elif not legal:
            env.check(r.is_err() and node.state == pre and g.next == 0, 'an operation that is not allowed reaches no child')
        elif g.err:
            env.check(r.is_err() and node.state == 'BROKEN', 'an error of a child breaks the node')
        else:
            env.check(r.is_ok() and node.state == (untick if op == 'untick' else 'IDLE'), 'otherwise the operation succeeds')
            env.check(g.next == w.n, 'the operation reaches the last child')
            if w.n > 0:
                env.check(g.kc == 1, 'the operation reaches every child exactly once')
                env.check(w.is_state(k, ('IDLE',)), 'the operation leaves every child idle')
            env.cover(op + ' ok')
        g.op, g.next, g.kc, g.err, g.own = '', 0, 0, False, False


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=None))
class Probe(FlowControl):
    """A node whose own operations do nothing or fail."""

    def _do_setup(self):
        return Ok('IDLE')

    def _do_tick(self):
        return Ok('SUCCEEDED')

    def _do_untick(self):
        return Ok('IDLE')

    def _do_reset(self):
        return Ok('IDLE')

    def _do_shutdown(self):
        out = self.vc_env.choice('own', ('SHUTDOWN', 'ERR', 'IDLE'))
        self.vc_g.own = out != 'SHUTDOWN'
        return Err(BehaviorTreeException('own')) if out == 'ERR' else Ok(out)


def any_state(env):
    return env.choice('state', ('UNINITIALIZED', 'IDLE', 'RUNNING', 'SUCCEEDED', 'FAILED', 'BROKEN', 'PAUSED', 'SHUTDOWN'))


def flow(cls, **kw):
    return lambda env: fan_out(env, cls, **kw)


def decorators(env, classes, untick):
    cls = env.choice('class', classes)
    fan_out(env, cls, children=env.choice('children', (0, 1)), untick=untick)


PLAIN = (D.IgnoreFailure, D.IgnoreRunning, D.IgnoreSuccess, D.UntilSuccess, D.Inverter, D.Watch)
REPEATING = (D.Retry, D.Repeat, D.RepeatAlways, D.RepeatUntilFail, D.RepeatIfFail)

HARNESSES = [
    {'name': 'decorators', 'run': lambda env: decorators(env, PLAIN, 'IDLE')},
    {'name': 'repeating-decorators', 'run': lambda env: decorators(env, REPEATING, 'PAUSED')},
    {'name': 'node-shutdown', 'run': lambda env: fan_out(env, Probe, start='ANY', ops=('shutdown',), begin=any_state, once=True)},
    {'name': 'sequence', 'run': flow(Sequence)},
    {'name': 'memory-sequence', 'run': flow(MemorySequence)},
    {'name': 'fallback', 'run': flow(Fallback)},
    {'name': 'memory-fallback', 'run': flow(MemoryFallback)},
    {'name': 'name-switch', 'run': flow(NameSwitch)},
    {'name': 'enum-switch', 'run': flow(EnumSwitch)},
    {'name': 'parallel', 'run': flow(Parallel, lo=1)},
    {'name': 'parallel-tolerance', 'run': flow(ParallelFailureTolerance, lo=1)},
]
