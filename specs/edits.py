"""What every edit request has to do to a tree, said on plain data, and what one can see of the real tree in the same terms."""
from copy import deepcopy

from ros_bt_py.data_types import GenericType
from ros_bt_py.ros_helpers import uuid_to_ros
from ros_bt_py_interfaces.msg import NodeDataLocation, NodeStructure, Wiring
from ros_bt_py_interfaces.srv import (AddNode, AddNodeAtIndex, ChangeTreeName, ClearTree, MorphNode, MoveNode, RemoveNode,
                                      ReplaceNode, SetOptions, WireNodeData)
from specs.tree import CLASSES, manager, make, uid, view, wiring
import uuid

NIL = uuid.UUID(int=0)
UNKNOWN = uuid.UUID(int=4711)
GARBAGE = 'no id'
MOST = {'Many': None, 'One': 1, 'Two': 2, 'Source': 0, 'Pipe': 0, 'Value': 0}
INT = {'type_identifier': 2, 'min_value': -2**63, 'max_value': 2**63 - 1}
STR = {'type_identifier': 4, 'max_length': 18446744073709550000}
SHAPES = {
    'empty': ((), (), ()),
    'one node': (('Many',), (None,), ()),
    'wired': (('Many', 'Source', 'Pipe'), (None, 0, 0), ((1, 'o', 2, 'i'),)),
    'deep': (('Many', 'One', 'Many', 'Pipe', 'Source'), (None, 0, 1, 2, 0), ((4, 'o', 3, 'i'),)),
    'limit': (('One', 'Source'), (None, 0), ()),
    'two trees': (('Many', 'Pipe', 'Many', 'Source'), (None, 0, None, 2), ((3, 'o', 1, 'i'),)),
    'full': (('Many', 'Two', 'Source', 'Pipe', 'Pipe'), (None, 0, 1, 1, 0), ((2, 'o', 3, 'i'), (3, 'o', 4, 'i'))),
    'typed': (('Many', 'Value', 'Pipe'), (None, 0, 0), ((1, 'o', 2, 'i'),)),
    'wide': (('Many', 'Many', 'Many', 'Source', 'Pipe', 'One'), (None, 0, 0, 1, 2, 2), ((3, 'o', 4, 'i'),)),
    'row': (('Many', 'Pipe', 'Source', 'One', 'Pipe'), (None, 0, 0, 0, 0), ((2, 'o', 4, 'i'),)),
    'loose': (('Pipe', 'Source', 'Two'), (None, None, None), ((1, 'o', 0, 'i'),)),
}


def default_opts(kind):
    return {'opt': 3} if kind == 'Source' else {'type': 'int', 'value': 4} if kind == 'Value' else {}


def model(shape):
    kinds, parents, wirings = SHAPES[shape]
    nodes = {}
    for i, (k, p) in enumerate(zip(kinds, parents)):
        nodes[uid(i)] = {'kind': k, 'name': f'n{i}', 'parent': None if p is None else uid(p), 'children': [], 'opts': default_opts(k)}
        if p is not None:
            nodes[uid(p)]['children'].append(uid(i))
    return {'nodes': nodes, 'wirings': [(uid(a), o, uid(b), i) for a, o, b, i in wirings], 'name': 'tree'}


def tree(shape, **kw):
    return manager(*SHAPES[shape], **kw)


def readable(kind, conts):
    """The options of a node of this class."""
    if kind == 'Source':
        return {'opt': conts['opt']}
    if kind == 'Value':
        t = conts['type']
        return {'type': {2: 'int', 4: 'str'}.get(t['type_identifier']) if isinstance(t, dict) else t, 'value': conts['value']}
    return {}


def actual(m):
    nodes = {}
    for k, n in m.nodes.items():
        kind = type(n).__name__
        values = {key: c.get_value().ok() if c.get_value().is_ok() else None for key, c in n.node_config.inputs.items()}
        nodes[k] = {'kind': kind, 'name': n.name, 'parent': None if n.parent is None else n.parent.node_id,
                    'children': [c.node_id for c in n.children], 'opts': readable(kind, values)}
    return {'nodes': nodes, 'wirings': [named(w) for w in m.wirings], 'name': m.name}


def named(w):
    return uuid.UUID(w.source.node_id), w.source.data_key, uuid.UUID(w.target.node_id), w.target.data_key


def out_type(n, key):
    kind = n['kind']
    if key == 'o' and kind in ('Source', 'Pipe'):
        return 'int'
    if key == 't' and kind == 'Pipe':
        return 'str'
    if key == 'o' and kind == 'Value':
        return n['opts']['type']
    return None


def fits(t, w):
    """The wiring connects existing data of the same type."""
    a, o, b, i = w
    return a in t['nodes'] and b in t['nodes'] and t['nodes'][b]['kind'] == 'Pipe' and i == 'i' and out_type(t['nodes'][a], o) == 'int'


def good_opts(kind, opts):
    if set(opts) != set(default_opts(kind)):
        return False
    if kind == 'Source':
        return isinstance(opts['opt'], int) and opts['opt'] >= 0
    if kind == 'Value':
        return isinstance(opts['value'], int if opts['type'] == 'int' else str)
    return True


def complete(kind, opts):
    """A number that is not given has its default."""
    return {'opt': 0} if kind == 'Source' and opts == {} else opts


def room(t, n, more=1):
    most = MOST[t['nodes'][n]['kind']]
    return most is None or len(t['nodes'][n]['children']) + more <= most


def above(t, n):
    """The node and everything above it."""
    out = []
    while n is not None and n not in out:
        out.append(n)
        n = t['nodes'][n]['parent']
    return out


def below(t, n):
    out = [n]
    for c in t['nodes'][n]['children']:
        out += below(t, c)
    return out


def insert(children, n, at):
    where = len(children) + 1 + at if at < 0 else at
    return children[:where] + [n] + children[where:]


def detach(t, n):
    p = t['nodes'][n]['parent']
    if p is not None:
        t['nodes'][p]['children'].remove(n)
        t['nodes'][n]['parent'] = None


def attach(t, n, p, at=-1):
    t['nodes'][p]['children'] = insert(t['nodes'][p]['children'], n, at)
    t['nodes'][n]['parent'] = p


# The effect of every request: the tree afterwards, or None if it has to be refused. t is a copy that may be changed.
def add(t, new, parent, kind, opts, name, children, at):
    opts = complete(kind, opts)
    if kind not in CLASSES or not good_opts(kind, opts):
        return None
    t['nodes'][new] = {'kind': kind, 'name': name, 'parent': None, 'children': [], 'opts': opts}
    if parent != NIL:
        if parent not in t['nodes'] or not room(t, parent):
            return None
        attach(t, new, parent, at)
    for c in children:
        if c not in t['nodes'] or t['nodes'][c]['parent'] is not None or c in above(t, new) or not room(t, new):
            return None
        attach(t, c, new)
    return t


def remove(t, n, everything):
    if n not in t['nodes']:
        return None
    gone = below(t, n) if everything else [n]
    for c in list(t['nodes'][n]['children']):
        if not everything:
            detach(t, c)
    detach(t, n)
    for g in gone:
        del t['nodes'][g]
    t['wirings'] = [w for w in t['wirings'] if w[0] not in gone and w[2] not in gone]
    return t


def move(t, n, parent, at):
    if n not in t['nodes']:
        return None
    if parent == NIL:
        detach(t, n)
        return t
    if parent not in t['nodes'] or n in above(t, parent):
        return None
    detach(t, n)
    if not room(t, parent):
        return None
    attach(t, n, parent, at)
    return t


def replace(t, old, new):
    if old not in t['nodes'] or new not in t['nodes'] or new in above(t, old):
        return None
    detach(t, new)
    children = list(t['nodes'][old]['children'])
    if not room(t, new, len(children)):
        return None
    for c in children:
        detach(t, c)
        attach(t, c, new)
    p = t['nodes'][old]['parent']
    if p is not None:
        at = t['nodes'][p]['children'].index(old)
        detach(t, old)
        attach(t, new, p, at)
    return remove(t, old, False)


def morph(t, n, kind, opts, name):
    opts = complete(kind, opts)
    if n not in t['nodes'] or kind not in CLASSES or not good_opts(kind, opts):
        return None
    t['nodes'][n].update(kind=kind, opts=opts, name=name)
    if not room(t, n, 0):
        return None
    t['wirings'] = [w for w in t['wirings'] if fits(t, w)]
    return t


def options(t, n, changes, name):
    if n not in t['nodes']:
        return None
    node = t['nodes'][n]
    node['opts'] = {**node['opts'], **changes}
    if not good_opts(node['kind'], node['opts']):
        return None
    if name is not None:
        node['name'] = name
    t['wirings'] = [w for w in t['wirings'] if fits(t, w)]
    return t


def wire(t, wirings, lenient):
    if not lenient and not all(fits(t, w) for w in wirings):
        return None
    t['wirings'] += [w for w in wirings if fits(t, w)]
    return t


def unwire(t, wirings, lenient):
    if not lenient and not all(w in t['wirings'] for w in wirings):
        return None
    for w in wirings:
        if w in t['wirings']:
            t['wirings'].remove(w)
    return t


# Requests
def ros(x):
    return x if isinstance(x, str) else uuid_to_ros(x)


def typed(v):
    return INT if v == 'int' else STR if v == 'str' else v


def message(kind, opts, name, children=()):
    """The message of a node of this class; the options need not be right."""
    n = make(kind if kind in CLASSES else 'Many', 77).to_structure_msg()
    n.node_class = kind
    n.name = name
    n.child_ids = [ros(c) for c in children]
    n.inputs = ios(opts)
    return n


def ios(opts):
    """The inputs that set these options."""
    import json

    from ros_bt_py_interfaces.msg import NodeIO
    known = {io.key: io.type for k in ('Source', 'Value') for io in make(k, 78).to_structure_msg().inputs}
    out = []
    for k, v in opts.items():
        text = json.dumps(typed(v) if k == 'type' else v)
        out.append(NodeIO(key=k, type=known.get(k, known['opt']), serialized_value=text))
    return out


def order(t):
    return list(t['nodes'])


def draw_id(env, name, t, extra=(UNKNOWN, GARBAGE)):
    return env.choice(name, (*order(t), *extra))


def draw_wirings(env, name, t):
    ids = order(t)
    kinds = {k: [i for i in ids if t['nodes'][i]['kind'] == k] for k in MOST}
    sources = [(i, 'o') for k in ('Source', 'Value', 'Pipe') for i in kinds[k]] + [(i, 't') for i in kinds['Pipe']]
    some = [(a, o, b, 'i') for a, o in sources for b in kinds['Pipe']]
    some += [(a, o, b, 'opt') for a, o in sources[:1] for b in kinds['Source']] + [(ids[0], 'x', ids[-1], 'i')] if ids else []
    some += [(UNKNOWN, 'o', i, 'i') for i in kinds['Pipe'][:1]]
    out = []
    for i in range(2):
        w = env.choice(f'{name} {i}', (None, *some, *(w for w in t['wirings'] if w not in some)))
        if w is not None:
            out.append(w)
    return out


def to_wiring(w):
    return Wiring(source=NodeDataLocation(node_id=ros(w[0]), data_key=w[1]), target=NodeDataLocation(node_id=ros(w[2]), data_key=w[3]))


KINDS = (('Many', {}), ('One', {}), ('Two', {}), ('Pipe', {}), ('Source', {'opt': 7}), ('Source', {'opt': -1}), ('Source', {}),
         ('Source', {'opt': 7, 'other': 1}), ('Value', {'type': 'str', 'value': 'text'}), ('Value', {'type': 'str', 'value': 5}),
         ('Value', {'type': 'int', 'value': 5}), ('Unknown', {}))
CHANGES = ({}, {'opt': 0}, {'opt': -1}, {'opt': 'text'}, {'other': 1}, {'value': 9}, {'value': 'text'}, {'type': 'str', 'value': 'text'},
           {'type': 'str'}, {'type': 'int', 'value': 'text'})
FEW = (0, 1, 3, 4, 5, 6, 8, 11)
EDITS = ('add', 'add at', 'remove', 'move', 'replace', 'morph', 'options', 'rename', 'wire', 'unwire', 'clear')


def request(env, what, t, tag=''):
    """A request, and the tree it has to lead to (or None, and a function that says so once the id of a new node is known)."""
    t = deepcopy(t)
    ids = order(t)
    if what in ('add', 'add at'):
        parent = draw_id(env, 'parent' + tag, t, (NIL, UNKNOWN, GARBAGE))
        kind, opts = KINDS[env.choice('kind' + tag, FEW if what == 'add' else FEW[:4] + FEW[-1:])]
        children = env.choice('children' + tag, ((), *((i,) for i in ids), (UNKNOWN,), (GARBAGE,), *([tuple(ids[-2:]), (ids[-1], ids[-1]),
                                                                                                  (ids[-1], UNKNOWN)] if len(ids) > 1 else ())))
        n = len(t['nodes'][parent]['children']) if parent in ids else 0
        msg = message(kind, opts, 'added', children)
        if what == 'add':
            return 'add_node', AddNode, AddNode.Request(parent_node_id=ros(parent), node=msg), \
                lambda new: add(t, new, parent, kind, opts, 'added', children, -1)
        at = env.choice('at' + tag, tuple(range(-n - 1, n + 1)))
        return 'add_node_at_index', AddNodeAtIndex, AddNodeAtIndex.Request(parent_node_id=ros(parent), node=msg, new_child_index=at), \
            lambda new: add(t, new, parent, kind, opts, 'added', children, at)
    if what == 'remove':
        n, everything = draw_id(env, 'node' + tag, t), env.choice('children too' + tag, (False, True))
        return 'remove_node', RemoveNode, RemoveNode.Request(node_id=ros(n), remove_children=everything), lambda _: remove(t, n, everything)
    if what == 'move':
        n, parent = draw_id(env, 'node' + tag, t), draw_id(env, 'parent' + tag, t, (NIL, UNKNOWN, GARBAGE))
        size = len([c for c in t['nodes'][parent]['children'] if c != n]) if parent in ids else 0
        at = env.choice('at' + tag, tuple(range(-size - 1, size + 1)))
        return 'move_node', MoveNode, MoveNode.Request(node_id=ros(n), parent_node_id=ros(parent), new_child_index=at), \
            lambda _: move(t, n, parent, at)
    if what == 'replace':
        old, new = draw_id(env, 'old' + tag, t), draw_id(env, 'new' + tag, t)
        return 'replace_node', ReplaceNode, ReplaceNode.Request(old_node_id=ros(old), new_node_id=ros(new)), lambda _: replace(t, old, new)
    if what == 'morph':
        n, (kind, opts) = draw_id(env, 'node' + tag, t), env.choice('kind' + tag, KINDS)
        return 'morph_node', MorphNode, MorphNode.Request(node_id=ros(n), new_node=message(kind, opts, 'morphed')), \
            lambda _: morph(t, n, kind, opts, 'morphed')
    if what == 'options':
        n, changes, name = draw_id(env, 'node' + tag, t), env.choice('changes' + tag, CHANGES), env.choice('name' + tag, (None, 'renamed'))
        return 'set_options', SetOptions, SetOptions.Request(node_id=ros(n), rename_node=name is not None, new_name=name or 'ignored',
                                                             inputs=ios(changes)), lambda _: options(t, n, changes, name)
    if what == 'rename':
        name = env.choice('name' + tag, ('other', ''))
        t['name'] = name
        return 'change_tree_name', ChangeTreeName, ChangeTreeName.Request(name=name), lambda _: t
    if what in ('wire', 'unwire'):
        ws, lenient = draw_wirings(env, 'wiring' + tag, t), env.choice('lenient' + tag, (False, True))
        return what + '_data', WireNodeData, WireNodeData.Request(wirings=[to_wiring(w) for w in ws], ignore_failure=lenient), \
            lambda _: (wire if what == 'wire' else unwire)(t, ws, lenient)
    return 'clear', ClearTree, ClearTree.Request(), lambda _: {'nodes': {}, 'wirings': [], 'name': 'UNKNOWN TREE'}


def normal(t):
    return {**t, 'wirings': sorted(t['wirings'])}


def well_formed(env, m):
    """What holds of the tree after every edit, whatever the edit was."""
    ids = list(m.nodes)
    for k, n in m.nodes.items():
        env.check(n.node_id == k, 'nodes are known under their ids')
        env.check(len({c.node_id for c in n.children}) == len(n.children), 'a node is a child once')
        for c in n.children:
            env.check(m.nodes.get(c.node_id) is c and c.parent is n, 'parents and children are nodes of the tree and agree')
        env.check(n.parent is None or (m.nodes.get(n.parent.node_id) is n.parent and any(c is n for c in n.parent.children)),
                  'parents and children are nodes of the tree and agree')
        most = n.node_config.max_children
        env.check(most is None or len(n.children) <= most, 'a node has no more children than its class allows')
        seen, x = 0, n
        while x is not None and seen <= len(ids):
            x, seen = x.parent, seen + 1
        env.check(x is None, 'there are no cycles')
    for w in m.wirings:
        env.check(m.validate_wiring(w).is_ok(), 'every wiring connects data of nodes of the tree that fit')


def described(env, t, msg):
    """The structure that was published is this tree."""
    nodes = {}
    for n in msg.nodes:
        i = uuid.UUID(n.node_id)
        env.check(i not in nodes, 'every node is published once')
        from json import loads
        values = {io.key: loads(io.serialized_value) if io.serialized_value else None for io in n.inputs}
        nodes[i] = {'kind': n.node_class, 'name': n.name, 'parent': None, 'children': [uuid.UUID(c) for c in n.child_ids],
                    'opts': readable(n.node_class, values)}
    for i in nodes:
        for c in nodes[i]['children']:
            if c in nodes:
                nodes[c]['parent'] = i
    env.check(nodes == t['nodes'], 'the published structure has the nodes of the tree')
    env.check(sorted(named(w) for w in msg.data_wirings) == sorted(t['wirings']), 'the published structure has the wirings of the tree')
    env.check(msg.name == t['name'], 'the published structure has the name of the tree')
    roots = [i for i, n in t['nodes'].items() if n['parent'] is None]
    if len(roots) == 1:
        env.check(msg.root_id == ros(roots[0]), 'the published structure has the root of the tree')


class Heard:
    """Keeps the last structure that was published, as it was then."""

    def __init__(self):
        self.last = None

    def __call__(self, structures):
        self.last = deepcopy(structures.tree_structures[-1])


def step(env, m, t, heard, what, tag=''):
    """One request. Returns the tree it leads to, the one that is there, whether it had to and did succeed."""
    call, srv, req, effect = request(env, what, t, tag)
    heard.last = None
    before = view(m, objects=False)
    r = getattr(m, call)(req, srv.Response())
    new = None
    if call.startswith('add_node'):
        fresh = [i for i in m.nodes if i not in t['nodes']]
        new = fresh[0] if r.success and len(fresh) == 1 else NIL
        if r.success:
            env.check(r.node_id == ros(new), 'the response names the node that was added')
    want = effect(new)
    return want, r, before


def show(t):
    return {str(k)[-4:] if isinstance(k, uuid.UUID) else k: v for k, v in t.items()}
