"""C19: children and parents agree after adding and removing children of nodes."""
from ros_bt_py.node import Node, define_bt_node
from ros_bt_py.node_config import NodeConfig
from specs.tree import Idle, One, make, uid


def define(env, most):
    """A class of nodes with this many children at most; it is forgotten again after the run."""
    cls = define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=most))(
        type('Sample', (Idle, Node), {'__module__': __name__}))
    env.defer(lambda: Node.node_classes.pop(__name__, None))
    assert cls._node_config.max_children == most
    return cls


def consistent(env, p, q, nodes):
    """Every node is a child at most once, and the node that lists it is its parent."""
    for n in nodes:
        for x in (p, q):
            listed = len([c for c in x.children if c is n])
            env.check(listed <= 1, 'a node is listed once')
            env.check((listed == 1) == (n.parent is x), 'the parent of a node is the node that lists it')
        env.check(n.parent is None or n.parent is p or n.parent is q, 'the parent of a node is the node that lists it')
    for x in (p, q):
        most = x.node_config.max_children
        env.check(most is None or len(x.children) <= most, 'a node has no more children than its class allows')
        env.check(all(any(c is n for n in nodes) for c in x.children), 'only nodes that were added are children')


def history(steps, start):
    """Two parents with limits, and a history of additions and removals of nodes that have no parent when added."""
    def run(env):
        most = env.choice('most', (None, 0, 1, 2, 3, 4))
        p = define(env, most)(node_id=uid(90), name='p')
        q = One(node_id=uid(91), name='q')
        nodes = [make('Source', i) for i in range(start + 2)]
        twin = make('Source', 0)      # another node with the id of the first
        everyone = [*nodes, twin]
        for n in nodes[:start]:
            if most is None or len(p.children) < most:
                env.check(p.add_child(n).is_ok(), 'a child is added while there is room for it')
        env.check(same(p.children, nodes[:start if most is None else min(start, most)]), 'children are added at the end')
        consistent(env, p, q, everyone)
        for s in range(steps):
            step(env, f'{s}', env.choice(f'node{s}', (p, q)), p, q, everyone)
            consistent(env, p, q, everyone)
        env.check(same(list(p.get_children_recursive()), [p, *p.children]), 'a node and its descendants are listed in order')
    return run


def step(env, tag, x, p, q, everyone):
    before = list(x.children)
    other = q if x is p else p
    others = list(other.children)
    if env.choice('what' + tag, ('add', 'remove')) == 'add':
        n = env.choice('child' + tag, everyone)
        env.assume(n.parent is None)
        size = len(before)
        at = env.choice('at' + tag, (None, *range(-size - 1, size + 1)))
        most = x.node_config.max_children
        r = x.add_child(n) if at is None else x.add_child(n, at)
        if (most is not None and size >= most) or n.node_id in [c.node_id for c in before]:
            env.check(r.is_err(), 'a child is refused if there is no room for it, or one with its id')
            env.check(same(x.children, before) and n.parent is None, 'a child that is refused changes nothing')
            env.cover('refused')
        else:
            env.check(r.is_ok() and r.ok() is x, 'a child is added while there is room for it')
            where = size if at is None else at if at >= 0 else at + size + 1
            env.check(same(x.children, before[:where] + [n] + before[where:]),
                      'the child is at the position asked for, the others keep their order')
            env.check(n.parent is x, 'the parent of a node is the node that lists it')
            env.check(x.get_child_index(n.node_id) == where, 'the index of a child is its position')
            env.cover('added')
    else:
        n = env.choice('child' + tag, everyone)
        wanted = [c for c in before if c.node_id == n.node_id]
        where = [i for i, c in enumerate(before) if c.node_id == n.node_id]
        env.check(x.get_child_index(n.node_id) == (where[0] if where else None), 'the index of a child is its position')
        was = n.parent
        r = x.remove_child(n.node_id)
        if wanted:
            env.check(r.is_ok() and r.ok() is wanted[0], 'the child that is asked for is removed')
            env.check(wanted[0].parent is None, 'a child that was removed has no parent')
            env.check(same(x.children, [c for c in before if c is not wanted[0]]), 'the other children stay in their order')
            env.cover('removed')
        else:
            env.check(r.is_err(), 'removing a node that is no child is refused')
            env.check(same(x.children, before) and n.parent is was, 'a removal that is refused changes nothing')
            env.cover('not removed')
    env.check(same(other.children, others), 'other nodes keep their children')


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def descend(x):
    out = [x]
    for c in x.children:
        out += descend(c)
    return out


def forest(env):
    """Nodes below nodes: all descendants are listed, parents first, each once."""
    nodes = [make('Many', i) for i in range(5)]
    for i in range(1, 5):
        p = env.choice(f'parent of {i}', tuple(range(i)) + (None,))
        at = env.choice(f'position of {i}', (None, 0)) if i > 2 else None
        if p is not None:
            env.check(nodes[p].add_child(nodes[i], at).is_ok(), 'a child is added while there is room for it')
    x = env.choice('from', nodes)
    listed = list(x.get_children_recursive())
    env.check(same(listed, descend(x)), 'a node and its descendants are listed in order')
    for n in nodes:
        env.check(len([c for c in listed if c is n]) <= 1, 'a node and its descendants are listed once')
    y = env.choice('removed', nodes[1:])
    if y.parent is not None:
        p, below = y.parent, descend(y)
        env.check(p.remove_child(y.node_id).is_ok(), 'the child that is asked for is removed')
        env.check(same(list(y.get_children_recursive()), below), 'a child that was removed keeps its descendants')
        env.check(not any(n is y for n in nodes[0].get_children_recursive()) or y is nodes[0],
                  'a child that was removed is below no node')
    env.cover('listed')


HARNESSES = [
    {'name': 'step', 'run': history(1, 4), 'native': True, 'limit': 'up to four children before the step'},
    {'name': 'history', 'run': history(4, 2), 'prove': False, 'bound': 'histories of four steps over two nodes and up to five children'},
    {'name': 'forest', 'run': forest, 'native': True, 'limit': 'five nodes'},
]
META = {'trusted': [], 'assumptions': ['a node that is added has no parent', 'an index given lies between -(n+1) and n for n children']}
