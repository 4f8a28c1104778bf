"""A real tree manager with a small tree, a stand-in for the ROS node, and what one can see of a tree."""
import uuid
from unittest.mock import MagicMock

from ros_bt_py.data_types import GenericType, IntType, ReferenceType, StringType
from ros_bt_py.debug_manager import DebugManager
from ros_bt_py.node import Decorator, FlowControl, Leaf, Node, define_bt_node
from ros_bt_py.node_config import NodeConfig
from ros_bt_py.ros_helpers import uuid_to_ros
from ros_bt_py.subtree_manager import SubtreeManager
from ros_bt_py.tree_edit_manager import TreeEditManager
from ros_bt_py.vendor.result import Ok
from ros_bt_py_interfaces.msg import NodeDataLocation, Wiring


class Idle:
    def _do_setup(self):
        return Ok('IDLE')

    def _do_tick(self):
        return Ok('SUCCEEDED')

    def _do_untick(self):
        return Ok('IDLE')

    def _do_reset(self):
        return Ok('IDLE')

    def _do_shutdown(self):
        return Ok('SHUTDOWN')


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=None))
class Many(Idle, FlowControl):
    """any number of children"""


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=1))
class One(Idle, Decorator):
    """at most one child"""


@define_bt_node(NodeConfig(inputs={'opt': IntType(min_value=0, allow_dynamic=False)}, outputs={'o': IntType(allow_static=False)},
                           max_children=0))
class Source(Idle, Leaf):
    """an option and an output"""


@define_bt_node(NodeConfig(inputs={'i': IntType(allow_static=False)}, outputs={'o': IntType(allow_static=False),
                                                                               't': StringType(allow_static=False)}, max_children=0))
class Pipe(Idle, Leaf):
    """an input and two outputs"""


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=2))
class Two(Idle, Node):
    """at most two children"""


@define_bt_node(NodeConfig(inputs={'type': GenericType(valid_types=[int, str]), 'value': ReferenceType(reference='type', allow_dynamic=False)},
                           outputs={'o': ReferenceType(reference='type', allow_static=False)}, max_children=0))
class Value(Idle, Leaf):
    """an option of a type that is chosen, and an output of that type"""


CLASSES = {'Many': Many, 'One': One, 'Source': Source, 'Pipe': Pipe, 'Two': Two, 'Value': Value}
OPTIONS = {'Source': {'opt': 3}, 'Value': {'type': {'type_identifier': 2, 'min_value': -2**63, 'max_value': 2**63 - 1}, 'value': 4}}


def uid(i):
    """Ids in no particular order."""
    return uuid.UUID(int=1000 + i * 370 % 1009)


def rid(i):
    return uuid_to_ros(uid(i))


def make(kind, i, opt=None):
    """A node of this class that is in no tree."""
    n = CLASSES[kind](node_id=uid(i), name=f'n{i}')
    for k, v in ({'opt': opt} if opt is not None else OPTIONS.get(kind, {})).items():
        c = n.node_config.inputs[k]
        c.is_static = True
        assert c.set_value(v).is_ok()
    return n


def wiring(a, out, b, inp):
    return Wiring(source=NodeDataLocation(node_id=a if isinstance(a, str) else rid(a), data_key=out),
                  target=NodeDataLocation(node_id=b if isinstance(b, str) else rid(b), data_key=inp))


def manager(kinds=(), parents=(), wirings=(), name='tree', cls=TreeEditManager, **kw):
    """kinds[i]: class of node i; parents[i]: its parent (None: a root; parents come first)."""
    ros = MagicMock()
    log = MagicMock()
    m = cls(ros_node=ros, name=name, logging_manager=log, debug_manager=DebugManager(ros_node=ros),
            subtree_manager=SubtreeManager(), **kw)
    for i, k in enumerate(kinds):
        n = make(k, i)
        m.nodes[n.node_id] = n
        m._children[n.node_id] = []
    for i, p in enumerate(parents):
        if p is not None:
            assert m.nodes[uid(p)].add_child(m.nodes[uid(i)]).is_ok()
    m._sync_children()
    for w in wirings:
        m.wirings.append(wiring(*w))
    m.find_root()
    return m


def loc(x):
    return x.node_id, x.data_key


def data(conts, static_only):
    out = []
    for k, c in conts.items():
        out.append((k, c.serialize_type(), c.is_static, c.serialize_value() if c.is_static or not static_only else None))
    return out


def view(m, objects=True):
    """Everything a user can see of the tree that is being edited. objects: also which Python objects the nodes are."""
    nodes = {}
    for k, n in m.nodes.items():
        nodes[k] = (id(n) if objects else None, n.node_id, type(n).__name__, n.name, n.parent.node_id if n.parent is not None else None,
                    tuple(c.node_id for c in n.children), data(n.node_config.inputs, False), data(n.node_config.outputs, False),
                    n.state)
    return {'nodes': nodes, 'name': m.name, 'state': m.state, 'path': m._tree_structure.path,
            'wirings': [(loc(w.source), loc(w.target)) for w in m.wirings],
            'public': ([loc(x) for x in m._tree_structure.public_inputs], [loc(x) for x in m._tree_structure.public_outputs]),
            'hz': m.tick_frequency_hz}
