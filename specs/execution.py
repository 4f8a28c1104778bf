"""A tree manager around a root that answers like any node may, and a tick thread that does what C24 lets it do."""
import uuid

from rclpy.duration import Duration
from ros_bt_py import tree_exec_manager as M
from ros_bt_py.exceptions import BehaviorTreeException
from ros_bt_py.tree_exec_manager import TreeExecManager
from ros_bt_py.vendor.result import Err, Ok
from ros_bt_py_interfaces.msg import TreeState, TreeStructure

UNUSABLE = ('UNINITIALIZED', 'SHUTDOWN', 'BROKEN')
ALL = ('UNINITIALIZED', 'IDLE', 'RUNNING', 'SUCCEEDED', 'FAILED', 'BROKEN', 'PAUSED', 'SHUTDOWN')
RESULTS = ('RUNNING', 'SUCCEEDED', 'FAILED')


class Record:
    """An object with these attributes; `drop` are written but not kept."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class StateMsg(Record):
    """The tree state message (its node states are not looked at)."""

    @property
    def node_states(self):
        return []

    @node_states.setter
    def node_states(self, v):
        pass


class Silent:
    """Takes every call and does nothing (loggers, other managers)."""
    state = ''

    def nothing(self, *a, **k):
        return None

    def get_logger(self):
        return self

    def get_subtree_states(self):
        return []

    debug = info = warn = error = fatal = set_tree_name = set_tree_id = clear_subtrees = create_rate = nothing


class Root:
    """A root node: the contract of Node's operations (C08). `monitor(op, outcome)` is called after each."""

    def __init__(self, env, i, state, monitor):
        self._vc_env, self._vc_monitor = env, monitor
        self.node_id = uuid.UUID(int=100 + i)
        self.name = f'root{i}'
        self.children = []
        self.parent = None
        self.state = state

    def to_state_msg(self):
        return None

    def _do(self, op, legal, results):
        if not legal:
            self._vc_monitor(op, 'REFUSED')
            return Err(BehaviorTreeException('not allowed'))
        out = self._vc_env.choice('root.' + op, ('ERR',) + results)
        self.state = 'BROKEN' if out == 'ERR' else out
        self._vc_monitor(op, out)
        return Err(BehaviorTreeException(op)) if out == 'ERR' else Ok(out)

    def setup(self):
        return self._do('setup', self.state in ('UNINITIALIZED', 'SHUTDOWN'), ('IDLE',))

    def tick(self):
        return self._do('tick', self.state not in UNUSABLE, RESULTS)

    def untick(self):
        return self._do('untick', self.state not in UNUSABLE, ('IDLE', 'PAUSED'))

    def reset(self):
        return self._do('reset', self.state not in UNUSABLE, ('IDLE',))

    def shutdown(self):
        if self.state == 'SHUTDOWN':
            self._vc_monitor('shutdown', 'SHUTDOWN')
            return Ok('SHUTDOWN')
        return self._do('shutdown', True, ('SHUTDOWN',))


class Window:
    """The sliding window of tick durations: its contents do not matter here."""

    def pop(self, i=-1):
        return 0.0

    def append(self, x):
        pass

    def __iter__(self):
        return iter((1.0,))

    def __len__(self):
        return 10


class Time:
    def __init__(self, env):
        self._vc_env = env

    def __sub__(self, other):
        ns = self._vc_env.choice('duration', (0, 10**12))
        return Duration(nanoseconds=ns) if self._vc_env.concrete else Record(nanoseconds=ns)


class DataFlow:
    def __init__(self, env, monitor):
        self._vc_env, self._vc_monitor = env, monitor

    def initialize(self, nodes, wirings):
        self._vc_monitor('initialize', '')

    def push_incoming_data(self):
        out = self._vc_env.choice('push incoming data', ('ok', 'ERR'))
        self._vc_monitor('push', out)
        return Err('cannot push') if out == 'ERR' else Ok(None)


def patch(env, mod, name, value):
    """Replace a name of the module for the run."""
    old = getattr(mod, name)
    setattr(mod, name, value)
    env.defer(lambda: setattr(mod, name, old))


def manager(env, nodes, monitor, on_sleep, state, published, root_state=None):
    """nodes: number of roots. published(state): called with every state that is published."""
    ros = Silent()
    m = TreeExecManager(ros_node=ros, name='tree', logging_manager=Silent(), debug_manager=Silent(),
                        subtree_manager=Silent(), data_flow_manager=Silent())
    rate, quiet = Record(sleep=on_sleep), Silent()
    m.subtree_manager = m.debug_manager = quiet

    def new_rate(frequency):
        env.check(frequency > 0.0, 'the frequency of ticks is positive')
        return rate

    m.get_logger = lambda: quiet
    m.logging_manager = quiet
    m.ros_node = Record(get_clock=lambda: Record(now=lambda: Time(env)), create_rate=new_rate,
                        get_logger=lambda: quiet)
    m.rate = rate
    m.data_flow_manager = DataFlow(env, monitor)
    m._tree_state = StateMsg(tree_id='', state=state)
    m._tree_structure = Record(tree_id='', name='tree', root_id='', path='', data_wirings=[], tick_frequency_hz=10.0)
    m.tick_sliding_window = Window() if not env.concrete else [10.0] * 10
    m.publish_tree_state = lambda lst: published(lst.tree_states[-1].state)
    roots = []
    for i in range(nodes):
        roots.append(Root(env, i, root_state if root_state is not None else 'UNINITIALIZED', monitor))
        m.nodes[roots[-1].node_id] = roots[-1]
        env.track(f'root{i}', roots[-1])
    m._sync_children()
    env.track('manager', m)
    env.track('state', m._tree_state)
    env.track('structure', m._tree_structure)
    return m, roots
