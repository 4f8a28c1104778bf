"""C08: the lifecycle contract of Node, for every behaviour of an implementation's own operations."""
from ros_bt_py.data_types import IntType
from ros_bt_py.exceptions import BehaviorTreeException
from ros_bt_py.node import Leaf, define_bt_node
from ros_bt_py.node_config import NodeConfig
from ros_bt_py.vendor.result import Err, Ok
from specs.world import give

RESULTS = ('UNINITIALIZED', 'IDLE', 'RUNNING', 'SUCCEEDED', 'FAILED', 'BROKEN', 'PAUSED', 'SHUTDOWN', 'ASSIGNED', 'UNASSIGNED')
TICK = ('RUNNING', 'SUCCEEDED', 'FAILED', 'ASSIGNED', 'UNASSIGNED')
LEGAL = {'setup': ('IDLE',), 'tick': TICK, 'untick': ('IDLE', 'PAUSED'), 'reset': ('IDLE',), 'shutdown': ('SHUTDOWN',)}
OPS = ('setup', 'tick', 'untick', 'reset', 'shutdown')
UNUSABLE = ('UNINITIALIZED', 'SHUTDOWN', 'BROKEN')


class Behaviour:
    """Draws the answers of the implementation; counts its calls."""

    def __init__(self, env, g):
        self._vc_env, self._vc_g = env, g

    def answer(self, node, op):
        env, g = self._vc_env, self._vc_g
        g.calls = g.calls + 1
        g.op = op
        g.before = node.state
        out = env.choice(op + '.answer', (LEGAL[op] if node.vc_data else RESULTS) + ('ERR',))
        g.out = out
        if node.vc_data and op in ('tick', 'untick') and env.choice('writes output', [False, True]):
            old = node.node_config.outputs['o'].get_value()
            v = env.int('o')
            env.assume(node.node_config.outputs['o'].set_value(v).is_ok())
            g.wrote = True
            g.changed = True if old.is_err() else (True if old.ok() != v else False)
        return Err(BehaviorTreeException(op)) if out == 'ERR' else Ok(out)


class ProbeBase(Leaf):
    vc_data = False

    def _do_setup(self):
        return self.vc_behaviour.answer(self, 'setup')

    def _do_tick(self):
        return self.vc_behaviour.answer(self, 'tick')

    def _do_untick(self):
        return self.vc_behaviour.answer(self, 'untick')

    def _do_reset(self):
        return self.vc_behaviour.answer(self, 'reset')

    def _do_shutdown(self):
        return self.vc_behaviour.answer(self, 'shutdown')


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))
class Probe(ProbeBase):
    pass


@define_bt_node(NodeConfig(inputs={'d': IntType(allow_static=False), 's': IntType(allow_dynamic=False)},
                           outputs={'o': IntType(allow_static=False)}, max_children=0))
class DataProbe(ProbeBase):
    vc_data = True


class Wirings:
    """The contract of the data flow manager: pushing outputs succeeds or not, for this node."""

    def __init__(self, env, g, node):
        self._vc_env, self._vc_g, self._vc_id = env, g, node.node_id

    def push_outputs(self, node_id):
        self._vc_env.check(node_id == self._vc_id, 'the node pushes its own outputs')
        self._vc_g.pushed = self._vc_g.pushed + 1
        if self._vc_env.choice('push', ['ok', 'error']) == 'error':
            self._vc_g.push_error = True
            return Err('cannot push')
        return Ok(None)


def lifecycle(env, data, wired):
    g = env.ghost('g', calls=0, op='', out='', before='', wrote=False, changed=False, pushed=0, push_error=False)
    node = DataProbe() if data else Probe()
    node.vc_behaviour = Behaviour(env, g)
    if wired:
        node.data_flow_manager = Wirings(env, g, node)
    if data:
        give(env, node, 's', env.const('s', env.int('s', 0, 100, small=(0, 2))))
    env.track_node('node', node)
    for _ in env.rounds('r', 5):
        step(env, g, node, wired)
        g.calls, g.op, g.out, g.before, g.wrote, g.changed, g.pushed, g.push_error = 0, '', '', '', False, False, 0, False


def step(env, g, node, wired):
    data = node.vc_data
    d, o = (node.node_config.inputs['d'], node.node_config.outputs['o']) if data else (None, None)
    op = env.choice('op', OPS + (('give', 'clear') if node.vc_data else ()))
    pre = node.state
    if op == 'give':
        give(env, node, 'd', env.int('d', 0, 100, small=(0, 2)))
        env.check(node.state == pre, 'giving a value to an input does not change the state')
        return
    if op == 'clear':
        d.reset_value()
        return
    unset = had = up = False
    if data:
        unset, had, up = not d.has_value(), o.has_value(), o.is_updated()
    if op == 'setup':
        r = node.setup()
        allowed = pre in ('UNINITIALIZED', 'SHUTDOWN')
    elif op == 'shutdown':
        r = node.shutdown()
        allowed = pre != 'SHUTDOWN'
    else:
        r = node.tick() if op == 'tick' else node.untick() if op == 'untick' else node.reset()
        allowed = pre not in UNUSABLE
    if not allowed and op == 'shutdown':
        env.check(r.is_ok() and r.ok() == 'SHUTDOWN' and node.state == 'SHUTDOWN' and g.calls == 0,
                  'shutting down a node that is shut down does nothing')
        return
    if not allowed:
        env.check(r.is_err(), f'{op}: an operation that is not allowed reports an error')
        env.check(node.state == pre, f'{op}: an operation that is not allowed leaves the state alone')
        env.check(g.calls == 0 and g.pushed == 0, f'{op}: an operation that is not allowed does not reach the implementation')
        env.check(not data or o.has_value() == had and o.is_updated() == up and d.has_value() != unset,
                  f'{op}: an operation that is not allowed leaves the data alone')
        env.cover('refused ' + op)
        return
    if op == 'tick' and unset:
        env.check(r.is_err() and node.state == 'BROKEN' and g.calls == 0, 'a tick with an unset input breaks the node')
        return
    env.check(g.calls == 1 and g.op == op, f'{op}: the implementation is called exactly once')
    env.check(g.before == pre, f'{op}: the implementation sees the state before the operation')
    if g.out == 'ERR':
        env.check(r.is_err() and node.state == 'BROKEN', f'{op}: an error of the implementation breaks the node')
        env.check(g.pushed == 0, f'{op}: no output is pushed after an error')
    elif g.out not in LEGAL[op]:
        env.check(r.is_err(), f'{op}: a state the implementation must not return is reported as an error')
        env.check(g.pushed == 0, f'{op}: no output is pushed after an error')
    elif g.push_error:
        env.check(r.is_err() and node.state == 'BROKEN', 'an output that cannot be pushed breaks the node')
    else:
        env.check(r.is_ok() and r.ok() == g.out and node.state == g.out,
                  f'{op}: a successful operation returns the state the node is in, which its implementation chose')
        env.check(g.pushed == (1 if wired and op == 'tick' else 0), f'{op}: outputs are pushed exactly by a successful tick')
        if not data:
            pass
        elif op == 'setup':
            env.check(not d.has_value() and not o.has_value() and not o.is_updated(),
                      'a setup forgets dynamic inputs and outputs')
            env.check(node.node_config.inputs['s'].has_value(), 'a setup keeps static inputs')
            env.check(d.is_updated() and node.node_config.inputs['s'].is_updated(), 'after a setup every input counts as new')
        elif op == 'tick':
            env.check(not d.is_updated() and not node.node_config.inputs['s'].is_updated(),
                      'after a tick no input counts as new')
            env.check(o.is_updated() == g.changed, 'after a tick exactly the outputs it changed count as new')
            env.check(o.has_value() == (had or g.wrote), 'a tick keeps outputs it does not set')
        elif op == 'untick':
            env.check(not o.is_updated(), 'after an untick no output counts as new')
        elif op == 'reset':
            env.check(not o.has_value() and not o.is_updated(), 'a reset forgets the outputs')
            env.check(d.is_updated() and d.has_value() != unset, 'a reset keeps inputs, which count as new')
        env.cover(op + ' ' + g.out)


HARNESSES = [
    {'name': 'lifecycle', 'run': lambda e: lifecycle(e, False, False)},
    {'name': 'lifecycle-wired', 'run': lambda e: lifecycle(e, False, True)},
    {'name': 'data', 'run': lambda e: lifecycle(e, True, False)},
]
META = {'explanation': 'Node.setup, tick, untick, reset and shutdown against every behaviour of an implementation'}
