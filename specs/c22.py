"""C22: every edit request is refused, without touching the tree, unless the tree is editable (any other state string)."""
from ros_bt_py_interfaces.srv import (AddNode, AddNodeAtIndex, ChangeTreeName, ClearTree, LoadTree, LoadTreeFromPath, MorphNode,
                                      MoveNode, ReloadTree, RemoveNode, ReplaceNode, SetOptions, WireNodeData)
from ros_bt_py_interfaces.msg import NodeIO, TreeState, TreeStructure
from ros_bt_py.ros_helpers import uuid_to_ros
from specs.tree import make, manager, rid, view, wiring
import uuid

NIL = uuid_to_ros(uuid.UUID(int=0))
STATES = (TreeState.IDLE, TreeState.TICKING, TreeState.WAITING_FOR_TICK, TreeState.STOP_REQUESTED, TreeState.ERROR, '', 'editable')
TREE = dict(kinds=('Many', 'Source', 'Pipe', 'One', 'Pipe'), parents=(None, 0, 0, 0, 3), wirings=((1, 'o', 2, 'i'),))


def spare(kind='Pipe'):
    return make(kind, 77).to_structure_msg()


def other_tree():
    return TreeStructure(name='other', nodes=[spare()], tick_frequency_hz=5.0)


def options():
    io = make('Source', 1, opt=8).to_structure_msg().inputs[0]
    return io


REQUESTS = {
    'add_node': lambda: (AddNode, AddNode.Request(parent_node_id=rid(0), node=spare())),
    'add_node (no parent)': lambda: (AddNode, AddNode.Request(parent_node_id=NIL, node=spare())),
    'add_node_at_index': lambda: (AddNodeAtIndex, AddNodeAtIndex.Request(parent_node_id=rid(0), node=spare(), new_child_index=1)),
    'change_tree_name': lambda: (ChangeTreeName, ChangeTreeName.Request(name='renamed')),
    'remove_node': lambda: (RemoveNode, RemoveNode.Request(node_id=rid(2), remove_children=False)),
    'remove_node (children)': lambda: (RemoveNode, RemoveNode.Request(node_id=rid(3), remove_children=True)),
    'morph_node': lambda: (MorphNode, MorphNode.Request(node_id=rid(3), new_node=spare('Many'))),
    'set_options': lambda: (SetOptions, SetOptions.Request(node_id=rid(1), inputs=[options()])),
    'set_options (name)': lambda: (SetOptions, SetOptions.Request(node_id=rid(1), rename_node=True, new_name='new name')),
    'move_node': lambda: (MoveNode, MoveNode.Request(node_id=rid(4), parent_node_id=rid(0), new_child_index=0)),
    'move_node (no parent)': lambda: (MoveNode, MoveNode.Request(node_id=rid(4), parent_node_id=NIL, new_child_index=0)),
    'replace_node': lambda: (ReplaceNode, ReplaceNode.Request(old_node_id=rid(2), new_node_id=rid(4))),
    'wire_data': lambda: (WireNodeData, WireNodeData.Request(wirings=[wiring(1, 'o', 4, 'i')])),
    'unwire_data': lambda: (WireNodeData, WireNodeData.Request(wirings=[wiring(1, 'o', 2, 'i')])),
    'clear': lambda: (ClearTree, ClearTree.Request()),
    'load_tree': lambda: (LoadTree, LoadTree.Request(tree=other_tree())),
    'load_tree_from_path': lambda: (LoadTreeFromPath, LoadTreeFromPath.Request(path='file:///nonexistent')),
    'reload_tree': lambda: (ReloadTree, ReloadTree.Request()),
}
SPOILT = ('Request', 'None')


def refused(env):
    what = env.choice('request', tuple(REQUESTS))
    m = manager(**TREE)
    state = env.str('state', STATES)
    env.assume(state != 'EDITABLE')
    m._tree_state.state = state
    srv, request = REQUESTS[what]()
    before = view(m)
    r = getattr(m, what.split(' ')[0])(request, srv.Response())
    env.check(r.success == False, f'{what} is refused')
    after = view(m)
    for k in before:
        env.check(same(before[k], after[k]), f'{what}: a refused request leaves the tree alone ({k})')
    env.cover(what)


def same(a, b):
    return True if a == b else False


def allowed(env):
    """The same requests are carried out while the tree is editable (so that refusing them is not vacuous)."""
    what = env.choice('request', tuple(w for w in REQUESTS if w != 'load_tree_from_path'))
    m = manager(**TREE)
    srv, request = REQUESTS[what]()
    before = view(m)
    r = getattr(m, what.split(' ')[0])(request, srv.Response())
    env.check(r.success == True, f'{what} is carried out while the tree can be edited')
    env.check(m.state == 'EDITABLE', f'{what} leaves the tree editable')
    env.check(not same(before, view(m)), f'{what} changes the tree')
    env.cover(what)


LIMIT = 'one tree of five nodes and one instance of each request; every state string'
HARNESSES = [
    {'name': 'refused', 'run': refused, 'native': True, 'limit': LIMIT},
    {'name': 'allowed', 'run': allowed, 'native': True, 'limit': LIMIT},
]
META = {'assumptions': ['one tree of five nodes stands for all trees: the refused path is proved not to depend on it '
                        '(the guard reads the state only)']}
