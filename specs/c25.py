"""C25: a tree that is loaded from its message, or from a file it was saved to, is the same tree; bad messages are refused."""
import os
import shutil
import tempfile
import uuid
from copy import deepcopy

from ros_bt_py import package_manager as P
from ros_bt_py import tree_exec_manager as X
from ros_bt_py.node import Node
from ros_bt_py.package_manager import PackageManager
from ros_bt_py_interfaces.msg import NodeIO, TreeStructure
from ros_bt_py_interfaces.srv import LoadTree, LoadTreeFromPath, ReloadTree, SaveTree
from specs.edits import EDITS, SHAPES, Heard, actual, message, model, normal, step, to_wiring, tree, well_formed
from specs.execution import patch
from specs.tree import rid, uid, view
from unittest.mock import MagicMock

FULL = tuple(s for s in SHAPES if s != 'empty')
USED = ('empty', 'wired', 'loose')


def same(env, m, other, label):
    """The other manager has the same tree, of other objects."""
    a, b = view(m, objects=False), view(other, objects=False)
    for k in ('nodes', 'name', 'hz'):
        env.check(a[k] == b[k], f'{label} ({k})')
    env.check(sorted(a['wirings']) == sorted(b['wirings']), f'{label} (wirings)')
    well_formed(env, other)
    for n in other.nodes.values():
        env.check(not any(n is x for x in m.nodes.values()), f'{label} (new nodes)')


def load(m, msg):
    return m.load_tree(LoadTree.Request(tree=msg), LoadTree.Response())


def again(env, m, shape):
    """Loads the message of the tree into another manager, and checks that this is the same tree."""
    heard = Heard()
    other = tree(shape, publish_tree_structure_callback=heard, name='another')
    msg = deepcopy(m.structure_to_msg())
    r = load(other, deepcopy(msg))
    if not msg.nodes:
        env.check(not r.success, 'a message without nodes is refused')
        return None
    env.check(r.success, 'the message of a tree can be loaded')
    same(env, m, other, 'a tree that is loaded is the tree of the message')
    got = other.structure_to_msg()
    by_id = {n.node_id: n for n in got.nodes}
    env.check(len(by_id) == len(got.nodes) == len(msg.nodes), 'the message of the loaded tree has the same nodes')
    for n in msg.nodes:
        env.check(by_id.get(n.node_id) == n, 'the message of the loaded tree has the same nodes')
    env.check(got.data_wirings == msg.data_wirings and got.name == msg.name, 'the message of the loaded tree has the same wirings and name')
    env.check(heard.last is not None and heard.last.nodes == got.nodes, 'the tree that was loaded is published')
    env.check(other.state == 'EDITABLE', 'a tree that was loaded can be edited')
    return other


def round_trip(env):
    m = tree(env.choice('tree', FULL))
    m.tick_frequency_hz = env.choice('frequency', (5.0, 0.5))
    other = again(env, m, env.choice('before', USED))
    for _ in range(2):
        env.check(other.reload_tree(ReloadTree.Request(), ReloadTree.Response()).success, 'a tree can be loaded again')
        same(env, m, other, 'a tree that is loaded again is the same tree')
    env.cover('loaded')


def edited(env):
    """The same for trees that were made by edits."""
    heard = Heard()
    shape = env.choice('tree', tuple(SHAPES))
    m, t = tree(shape, publish_tree_structure_callback=heard), model(shape)
    for i in range(4):
        want, r, _ = step(env, m, t, heard, env.choice(f'edit {i}', EDITS[:-1]), f' {i}')
        if r.success and want is not None:
            t = want
    other = again(env, m, 'empty')
    if other is not None:
        env.check(other.reload_tree(ReloadTree.Request(), ReloadTree.Response()).success, 'a tree can be loaded again')
        same(env, m, other, 'a tree that is loaded again is the same tree')
        env.cover('loaded')


# Faults: each changes a good message (with at least one node) into one that has to be refused. None: does not apply.
def fault_node(change):
    return lambda env, msg: change(env.choice('node', msg.nodes))


def set_field(field, value):
    def change(n):
        setattr(n, field, value)
        return True
    return change


def option(text, key='opt'):
    def change(n):
        for io in n.inputs:
            if io.key == key:
                io.serialized_value = text
                return True
        return None
    return change


def extra_option(n):
    if n.node_class in ('Source', 'Value'):
        n.inputs = [*n.inputs, NodeIO(key='other', type=n.inputs[0].type, serialized_value='1')]
        return True


def other_type(n):
    """The option is declared a number, the message calls it something else."""
    for io in n.inputs:
        if io.key == 'opt':
            io.type.type_identifier = 4
            io.serialized_value = '"x"'
            return True


def twice(env, msg):
    msg.nodes = [*msg.nodes, deepcopy(env.choice('node', msg.nodes))]
    return True


def same_id(env, msg):
    if len(msg.nodes) < 2:
        return None
    a, b = env.choice('nodes', [(a, b) for a in msg.nodes for b in msg.nodes if a is not b])
    a.node_id = b.node_id
    return True


def add_child(child):
    def change(env, msg):
        n = env.choice('node', msg.nodes)
        n.child_ids = [*n.child_ids, child]
        return True
    return change


def second_parent(env, msg):
    """A node that is a child already becomes a child of another node too (or of the same one again)."""
    pairs = [(n, c) for n in msg.nodes for p in msg.nodes for c in p.child_ids if n.node_id != c]
    if not pairs:
        return None
    n, c = env.choice('pair', pairs)
    n.child_ids = [*n.child_ids, c]
    return True


def too_many(env, msg):
    kinds = [n for n in msg.nodes if n.node_class in ('One', 'Two', 'Source', 'Pipe', 'Value')]
    if not kinds:
        return None
    n = env.choice('node', kinds)
    most = {'One': 1, 'Two': 2}.get(n.node_class, 0)
    for i in range(most + 1 - len(n.child_ids)):
        new = message('Many', {}, 'extra')
        new.node_id = rid(300 + i)
        msg.nodes = [*msg.nodes, new]
        n.child_ids = [*n.child_ids, new.node_id]
    return True


def bad_wiring(change):
    def do(env, msg):
        if not msg.data_wirings:
            return None
        w = env.choice('wiring', msg.data_wirings)
        end, field, value = change
        setattr(getattr(w, end), field, value)
        return True
    return do


def constant_target(env, msg):
    """Data wired to an option."""
    targets = [n for n in msg.nodes if n.node_class == 'Source']
    if not targets:
        return None
    n = env.choice('node', targets)
    msg.data_wirings = [*msg.data_wirings, to_wiring((uuid.UUID(n.node_id), 'o', uuid.UUID(n.node_id), 'opt'))]
    return True


FAULTS = {
    'unknown class': fault_node(set_field('node_class', 'Missing')),
    'unknown module': fault_node(set_field('module', 'no.such.module')),
    'no class': fault_node(set_field('node_class', '')),
    'no module': fault_node(set_field('module', '')), 'relative module': fault_node(set_field('module', '.x')),
    'malformed id': fault_node(set_field('node_id', 'no id')),
    'no id': fault_node(set_field('node_id', '')),
    'option that is no text': fault_node(option('{')),
    'option of another type': fault_node(option('"text"')),
    'option that is a list': fault_node(option('[1]')),
    'option out of bounds': fault_node(option('-1')),
    'reference of another type': fault_node(option('"text"', 'value')),
    'type that is no type': fault_node(option('{}', 'type')),
    'type that is not offered': fault_node(option('{"type_identifier": 1}', 'type')),
    'type that is text': fault_node(option('"int"', 'type')),
    'unknown option': fault_node(extra_option),
    'option declared differently': fault_node(other_type),
    'node twice': twice, 'two nodes with an id': same_id,
    'unknown child': add_child(rid(99)), 'malformed child': add_child('no id'), 'no child id': add_child(''),
    'second parent': second_parent, 'too many children': too_many,
    'wiring from an unknown node': bad_wiring(('source', 'node_id', rid(99))),
    'wiring to an unknown node': bad_wiring(('target', 'node_id', rid(99))),
    'wiring from a malformed id': bad_wiring(('source', 'node_id', 'no id')),
    'wiring to a malformed id': bad_wiring(('target', 'node_id', '')),
    'wiring from unknown data': bad_wiring(('source', 'data_key', 'missing')),
    'wiring to unknown data': bad_wiring(('target', 'data_key', 'missing')),
    'wiring to a constant': constant_target,
}


def malformed(env):
    fault = env.choice('fault', tuple(FAULTS))
    shape = env.choice('tree', FULL)
    msg = deepcopy(tree(shape).structure_to_msg())
    env.assume(FAULTS[fault](env, msg) is not None)
    other = tree(env.choice('before', USED[1:]))
    r = load(other, msg)
    env.check(not r.success, f'a message is refused: {fault}')
    env.check(r.error_message != '', f'the reason for a refusal is reported: {fault}')
    env.check(other.state == 'EDITABLE', 'after a refusal the tree can be edited')
    env.check(load(other, deepcopy(tree(shape).structure_to_msg())).success, 'after a refusal another tree can be loaded')
    env.check(normal(actual(other)) == normal(model(shape)), 'after a refusal another tree can be loaded')
    env.cover(fault)


def cyclic(env):
    """Messages with cycles raise nothing, whether they are refused or loaded (to be repaired)."""
    shape = env.choice('tree', FULL)
    msg = deepcopy(tree(shape).structure_to_msg())
    n = env.choice('node', msg.nodes)
    n.child_ids = [*n.child_ids, env.choice('child', [x.node_id for x in msg.nodes])]
    other = tree('wired', publish_tree_structure_callback=Heard())
    r = load(other, msg)
    env.check(r.success or r.error_message != '', 'the reason for a refusal is reported')
    env.check(other.state == 'EDITABLE', 'after a refusal the tree can be edited')
    env.check(load(other, deepcopy(tree(shape).structure_to_msg())).success, 'after a refusal another tree can be loaded')
    env.check(normal(actual(other)) == normal(model(shape)), 'after a refusal another tree can be loaded')
    env.cover('cyclic')


MODULES = ('compare', 'io', 'constant', 'decorators', 'fallback', 'file', 'format', 'getters', 'list', 'maths', 'parallel',
           'passthrough_node', 'random_number', 'sequence', 'setters')
ROS_MODULES = ('service', 'action', 'enum', 'enum_switch', 'message_converters', 'param', 'throttle', 'time', 'topic', 'wait')
NAMES = tuple(f'ros_bt_py.nodes.{m}' for m in MODULES) + tuple(f'ros_bt_py.ros_nodes.{m}' for m in ROS_MODULES)
CHANGED = {'ros_bt_py.ros_nodes.wait.Wait': {'seconds_to_wait': 7.5}, 'ros_bt_py.ros_nodes.throttle.Throttle': {'tick_interval': 0.25},
           'ros_bt_py.nodes.decorators.Retry': {'num_retries': 3}, 'ros_bt_py.nodes.decorators.Repeat': {'num_repeats': 4},
           'ros_bt_py.nodes.maths.Operation': {'operator': 'pow'}, 'ros_bt_py.nodes.constant.Constant': {}}


def plain(io):
    """Limits of floating-point numbers may be written with or without a point."""
    io = deepcopy(io)
    if io.type.type_identifier == 3:
        io.type.min_value, io.type.max_value = str(float(io.type.min_value)), str(float(io.type.max_value))
    return io


def library(env):
    """Every node of the library is reproduced by its message."""
    import importlib
    name = env.choice('module', NAMES)
    importlib.import_module(name)
    cls = env.choice('class', [c for c in Node.node_classes[name].values() if c.__name__ != 'Subtree'])
    m = tree('empty')
    n = cls(node_id=uid(50), name='node', ros_node=MagicMock())
    full = f'{name}.{cls.__name__}'
    if full in CHANGED and env.choice('options', ('default', 'changed')) == 'changed':
        for k, v in CHANGED[full].items():
            env.check(n.node_config.inputs[k].set_value(v).is_ok(), 'options of the library can be set')
    msg = n.to_structure_msg()
    r = load(m, TreeStructure(name='library', nodes=[deepcopy(msg)], tick_frequency_hz=10.0))
    env.check(r.success, 'a node of the library is created from its message')
    got = m.nodes[uid(50)].to_structure_msg()
    for f in ('module', 'node_class', 'name', 'node_id', 'child_ids', 'max_children', 'tree_ref'):
        env.check(getattr(got, f) == getattr(msg, f), 'a node of the library is reproduced by its message')
    for f in ('inputs', 'outputs'):
        a, b = [plain(x) for x in getattr(got, f)], [plain(x) for x in getattr(msg, f)]
        env.check(sorted(map(str, a)) == sorted(map(str, b)), 'a node of the library is reproduced by its message')
    env.cover('library')


# Files
class Metadata:
    @staticmethod
    def version(name):
        return '1.2.3'


def scratch(env):
    d = tempfile.mkdtemp(prefix='verif-c25-')
    env.defer(lambda: shutil.rmtree(d, ignore_errors=True))
    patch(env, X, 'metadata', Metadata)
    patch(env, P, 'metadata', Metadata)
    from ros_bt_py import migrate_tree_files
    patch(env, migrate_tree_files, 'metadata', Metadata)
    return d


def from_path(m, path):
    return m.load_tree_from_path(LoadTreeFromPath.Request(path=path), LoadTreeFromPath.Response())


def saved(env):
    """A tree that was saved to a file and loaded from there is the same tree."""
    d = scratch(env)
    m = tree(env.choice('tree', FULL))
    m.name = env.choice('name', ('tree', 'a: "b" #c', '- x', '1.5', ''))
    r = PackageManager([d]).save_tree_to_path(SaveTree.Request(tree=deepcopy(m.structure_to_msg()), storage_path=d, filepath='sub/tree.yaml'),
                                              SaveTree.Response())
    env.check(r.success, 'a tree is saved')
    other = tree(env.choice('before', USED))
    path = 'file://' + r.file_path
    env.check(from_path(other, path).success, 'a file that was saved can be loaded')
    same(env, m, other, 'a tree that is loaded from a file is the tree that was saved')
    env.check(other._tree_structure.path == path, 'a tree that is loaded from a file knows its path')
    env.cover('saved')


HEAD = 'version: 1.2.3\n'
TEXTS = {
    'empty': '', 'nothing': '---\n---\n', 'a number': '5\n', 'a list': '- 1\n- 2\n', 'text': 'text\n', 'no text': '{',
    'bad indentation': 'a:\n  - b\n c: d\n', 'tabs': 'a:\n\t- b\n', 'no version': 'name: x\nnodes: []\n', 'version that is none': 'version: x y\n',
    'old version': 'version: 0.3.1\nname: x\n', 'version that is a list': 'version: [1]\n', 'no nodes': HEAD + 'name: x\nnodes: []\n',
    'unknown field': HEAD + 'name: x\nno_field: 1\n', 'two trees': HEAD + 'name: x\n---\n' + HEAD + 'name: y\n',
    'nodes that are none': HEAD + 'nodes: 5\n', 'nodes without fields': HEAD + 'nodes:\n- no_field: 1\n',
    'two documents': '5\n---\n6\n', 'alias': '*x\n', 'tag': '!!python/object:os.system x\n', 'control characters': 'a: \x00\n',
}
PATHS = ('', 'tree.yaml', '/absolute', 'http://x', 'file://', 'package://', 'package://no_such_package/tree.yaml', 'package:///x', 'FILE://x')


def files(env):
    """Files that contain no tree are refused."""
    d = scratch(env)
    what = env.choice('what', (*TEXTS, *PATHS, 'missing', 'directory', 'bytes'))
    path = os.path.join(d, 'tree.yaml')
    if what == 'directory':
        os.mkdir(path)
    elif what == 'bytes':
        with open(path, 'wb') as f:
            f.write(b'\xff\xfe\xfa')
    elif what in TEXTS:
        with open(path, 'w') as f:
            f.write(TEXTS[what])
    other = tree(env.choice('before', USED))
    before = normal(actual(other))
    r = from_path(other, what if what in PATHS else 'file://' + path)
    env.check(not r.success, f'a file is refused: {what}')
    env.check(r.error_message != '', f'the reason for a refusal is reported: {what}')
    env.check(normal(actual(other)) == before, f'a file without a tree leaves the tree alone: {what}')
    env.cover('refused')


HARNESSES = [
    {'name': 'round trip', 'run': round_trip, 'native': True, 'limit': 'the trees of specs/edits.py'},
    {'name': 'malformed', 'run': malformed, 'native': True, 'limit': 'one fault of 30 kinds at any place in one of ten trees'},
    {'name': 'cyclic', 'run': cyclic, 'native': True, 'limit': 'one more child in one of ten trees'},
    {'name': 'library', 'run': library, 'native': True, 'limit': 'the nodes of the library (without Subtree) with few options'},
    {'name': 'saved', 'run': saved, 'prove': False, 'bound': 'the trees of specs/edits.py with five names'},
    {'name': 'files', 'run': files, 'prove': False, 'bound': '33 texts and paths'},
    {'name': 'edited', 'run': edited, 'prove': False, 'bound': 'histories of four edits'},
]
META = {'trusted': ['rosidl_runtime_py (stand-in in stubs/, not installed here): writing messages as YAML and reading them'],
        'assumptions': ['messages with cycles of children may be accepted (they can be repaired in the editor)']}
