"""C04: NameSwitch and EnumSwitch."""
from ros_bt_py.nodes.fallback import NameSwitch
from ros_bt_py.ros_nodes.enum_switch import EnumSwitch
from ros_bt_py_interfaces.msg import NodeState
from specs.switch import by_enum, by_name, last_part, switch

FIELDS = {k: getattr(NodeState, k) for k in ('IDLE', 'RUNNING')}

HARNESSES = [
    {'name': 'name-switch', 'prove_s': 200,
     'run': lambda env: switch(env, NameSwitch, by_name, lambda s: s, ('c0', 'a', 'b', 'a.b', 'c.b'), True)},
    {'name': 'enum-switch', 'prove_s': 200,
     'run': lambda env: switch(env, EnumSwitch, by_enum(FIELDS), last_part,
                               ('RUNNING', 'IDLE', 'x.IDLE', 'IDLE.x', 'other', 'a.b.RUNNING', 'c.d'), True)},
]
