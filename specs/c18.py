"""C18: data that are wired reach every subscriber, and only when they are fresh."""
import uuid

from ros_bt_py import data_types as T
from ros_bt_py.data_flow_manager import DataFlowManager
from ros_bt_py.node import Leaf, Node, define_bt_node
from ros_bt_py.node_config import NodeConfig
from ros_bt_py.ros_helpers import uuid_to_ros
from ros_bt_py.vendor.result import Ok
from ros_bt_py_interfaces.msg import NodeDataLocation, Wiring
from specs.values import refused


class Hub(Leaf):
    """Two inputs and two outputs; a tick does what the harness says."""
    plan = None

    def _do_setup(self):
        return Ok('IDLE')

    def _do_tick(self):
        if self.plan is not None:
            self.plan[0](self)
        return Ok('SUCCEEDED')

    def _do_untick(self):
        return Ok('IDLE')

    def _do_reset(self):
        return Ok('IDLE')

    def _do_shutdown(self):
        return Ok('SHUTDOWN')


def define(env, name, inputs, outputs):
    cls = define_bt_node(NodeConfig(inputs=inputs, outputs=outputs, max_children=0))(type(name, (Hub,), {'__module__': __name__}))
    env.defer(lambda: Node.node_classes.pop(__name__, None))
    return cls


def uid(i):
    return uuid.UUID(int=500 + i)


def dyn():
    return T.IntType(allow_static=False)


def hubs(env, n, flow=None):
    env.defer(lambda: Node.node_classes.pop(__name__, None))
    cls = HUB[0]
    return [cls(node_id=uid(i), name=f'hub{i}', data_flow_manager=flow) for i in range(n)]


def base_class():
    c = define_bt_node(NodeConfig(inputs={'i': dyn(), 'j': dyn()}, outputs={'o': dyn(), 'p': dyn()}, max_children=0))(
        type('Plain', (Hub,), {'__module__': __name__}))
    Node.node_classes.pop(__name__, None)
    return c


HUB = (base_class(),)


def wire(a, out, b, inp):
    return Wiring(source=NodeDataLocation(node_id=uuid_to_ros(uid(a)), data_key=out),
                  target=NodeDataLocation(node_id=uuid_to_ros(uid(b)), data_key=inp))


def put(env, c, name, kinds=('none', 'old', 'new')):
    """A state of a container of numbers: without a value, with a value, with a value that is marked updated."""
    how = env.choice(name, kinds)
    c.reset_value()
    c.reset_updated()
    if how != 'none':
        v = env.int('value of ' + name, -2**63, 2**63 - 1, small=(0, 2))
        assert c.set_value(v).is_ok()
        if how == 'old':
            c.reset_updated()
    return how


def look(c):
    v = c.get_value()
    return v.is_ok(), v.ok() if v.is_ok() else None, c.is_updated()


def keeps(env, c, before, label):
    had, v, upd = look(c)
    env.check(had == before[0], label)
    env.check(upd == before[2], label)
    if had:
        env.check(v == before[1], label)


def arrives(env, c, before, v, what):
    had, now, upd = look(c)
    env.check(had, f'{what} arrive at every input they are wired to')
    env.check(now == v, f'{what} arrive at every input they are wired to')
    if not before[0]:
        env.check(upd == True, f'{what} mark the inputs that change as updated')
    else:
        env.check(upd == env.or_(before[2], before[1] != v), f'{what} mark the inputs that change as updated')


INPUTS = [(n, k) for n in range(3) for k in 'ij']
WIRES = [(0, o, n, k) for o in 'op' for n, k in ((0, 'i'), (1, 'i'), (1, 'j'), (2, 'i'))] + [(1, 'o', 2, 'i'), (1, 'o', 0, 'j')]


def draw_wires(env, most, part=None):
    out = []
    first = (None, *WIRES) if part is None else ((None, *WIRES[:3]), WIRES[3:6], WIRES[6:8], WIRES[8:])[part]
    for i in range(most):
        w = env.choice(f'wire {i}', (None, *WIRES) if i else first)
        if w is None:
            break
        out.append(w)
    return out


def expected(wires, source, outs):
    """(node, input) -> output that is pushed to it: the last one wins."""
    got = {}
    for a, o, n, k in wires:
        if a == source and o in outs:
            got[n, k] = o
    return got


def push(env, part=None):
    """After a push exactly the inputs wired to updated outputs have new values."""
    flow = DataFlowManager({}, {})
    nodes = hubs(env, 3)
    wires = draw_wires(env, 2, part)
    env.check(flow.initialize({n.node_id: n for n in nodes}, [wire(*w) for w in wires]).is_ok(), 'wirings between nodes are set up')
    outs = {}
    for o in 'op':
        if put(env, nodes[0].node_config.outputs[o], 'output ' + o) == 'new':
            outs[o] = nodes[0].node_config.outputs[o].get_value().ok()
    put(env, nodes[1].node_config.outputs['o'], 'output of another node', ('new',))
    seen = env.choice('input', sorted({(n, k) for _, _, n, k in wires}) + [(2, 'j')])
    put(env, nodes[seen[0]].node_config.inputs[seen[1]], 'input')
    before = {(n, k): look(nodes[n].node_config.inputs[k]) for n, k in INPUTS}
    outs_before = [look(x.node_config.outputs[o]) for x in nodes for o in 'op']
    env.check(flow.push_outputs(uid(0)).is_ok(), 'pushing the outputs of a node succeeds')
    got = expected(wires, 0, outs)
    for n, k in INPUTS:
        c = nodes[n].node_config.inputs[k]
        if (n, k) not in got:
            keeps(env, c, before[n, k], 'inputs not wired to updated outputs stay as they are')
        elif len([w for w in wires if w[0] == 0 and w[1] in outs and w[2:] == (n, k)]) == 1:
            arrives(env, c, before[n, k], outs[got[n, k]], 'data pushed')
            env.cover('arrived')
        else:
            env.check(look(c)[0] and look(c)[1] == outs[got[n, k]], 'of two outputs wired to one input the last arrives')
    for c, b in zip([x.node_config.outputs[o] for x in nodes for o in 'op'], outs_before):
        keeps(env, c, b, 'pushing changes no output')
    env.check(flow.push_outputs(uid(7)).is_err(), 'pushing the outputs of an unknown node is refused')


def tick(env, part=None):
    """What a node writes during a tick is with its subscribers after the tick."""
    flow = DataFlowManager({}, {})
    nodes = hubs(env, 3, flow)
    wires = draw_wires(env, 2, part)
    env.check(flow.initialize({n.node_id: n for n in nodes}, [wire(*w) for w in wires]).is_ok(), 'wirings between nodes are set up')
    for n in nodes:
        env.check(n.setup().is_ok(), 'a node is set up')
        for k in 'ij':
            put(env, n.node_config.inputs[k], f'{n.name} {k}', ('new',))
    a = nodes[0]
    olds, news = {}, {}
    for o in 'op':
        put(env, a.node_config.outputs[o], 'output ' + o, ('none', 'old', 'new') if o == 'o' else ('new',))
        olds[o] = look(a.node_config.outputs[o])
        what = env.choice('writes ' + o, ('nothing', 'once', 'twice') if o == 'o' else ('nothing', 'once'))
        news[o] = [env.int(f'new {o}{i}', -2**63, 2**63 - 1, small=(0, 2)) for i in range(('nothing', 'once', 'twice').index(what))]

    def plan(node):
        for k in 'ij':
            env.check(node.inputs.get_value(k).is_ok(), 'a node reads what arrived at its inputs')
        for o in 'op':
            for v in news[o]:
                env.check(node.outputs.set_value(o, v).is_ok(), 'a node writes its outputs')
    a.plan = (plan,)
    before = {(n, k): look(nodes[n].node_config.inputs[k]) for n, k in INPUTS}
    env.check(a.tick().is_ok(), 'a tick succeeds')
    for n, k in INPUTS:
        c = nodes[n].node_config.inputs[k]
        base = (True, before[n, k][1], False) if n == 0 else before[n, k]     # the node ticked has used its inputs
        got = [o for s, o, m, l in wires if s == 0 and (m, l) == (n, k)]
        if not got:
            keeps(env, c, base, 'inputs not wired to outputs written stay as they are')
        elif len(got) == 1:
            had, old, _ = olds[got[0]]
            vs = news[got[0]]
            if not vs:
                keeps(env, c, base, 'inputs not wired to outputs written stay as they are')
            elif not had:
                arrives(env, c, base, vs[-1], 'data written in a tick')
                env.cover('first value arrived')
            elif len(vs) == 1:
                if vs[0] != old:
                    arrives(env, c, base, vs[-1], 'data written in a tick')
                    env.cover('new value arrived')
                else:
                    keeps(env, c, base, 'inputs not wired to outputs that changed stay as they are')
            elif vs[0] != old or vs[1] != vs[0]:
                arrives(env, c, base, vs[-1], 'data written in a tick')
                env.cover('last value arrived')


def incoming(env):
    """Data from outside reach the inputs they are named after, updated outputs reach the data outside."""
    nodes = hubs(env, 2)
    key = lambda n, k: f'{uid(n)}.{k}'
    ins = {key(0, 'i'): dyn(), key(1, 'j'): dyn(), key(5, 'i'): dyn(), key(0, 'nope'): dyn(), 'path': dyn(), 'a.b': dyn(), 'a.b.c': dyn()}
    sent_out, other_out = env.choice('output named outside', ('op', 'po'))
    outs = {key(0, sent_out): dyn(), key(1, 'o'): dyn(), 'result': dyn(), key(5, 'o'): dyn()}
    flow = DataFlowManager(ins, outs)
    wires = [(0, 'o', 1, 'i')] if env.choice('wired', (False, True)) else []
    env.check(flow.initialize({n.node_id: n for n in nodes}, [wire(*w) for w in wires]).is_ok(), 'wirings between nodes are set up')
    for name, c in ins.items():
        put(env, c, 'incoming ' + name, ('none', 'old', 'new') if name in (key(0, 'i'), key(1, 'j')) else ('new',))
    if env.choice('direction', ('in', 'out')) == 'in':
        put(env, nodes[0].node_config.inputs['i'], 'input')
        for n, o in ((0, 'o'), (1, 'o')):
            put(env, nodes[n].node_config.outputs[o], f'output {n}', ('new',))
        before = {(n, k): look(nodes[n].node_config.inputs[k]) for n in (0, 1) for k in 'ij'}
        kept = {n: look(c) for n, c in outs.items()}
        sent = {n: look(c) for n, c in ins.items()}
        env.check(flow.push_incoming_data().is_ok(), 'pushing data from outside succeeds')
        for n, k in before:
            c = nodes[n].node_config.inputs[k]
            s = sent.get(key(n, k))
            if s is not None and s[0] and s[2]:
                arrives(env, c, before[n, k], s[1], 'data from outside')
                env.cover('arrived from outside')
            else:
                keeps(env, c, before[n, k], 'inputs without updated data from outside stay as they are')
        for n, c in ins.items():
            keeps(env, c, sent[n], 'pushing data changes no data outside')
        for n, c in outs.items():
            keeps(env, c, kept[n], 'pushing data changes no data outside')
    else:
        how = put(env, nodes[0].node_config.outputs[sent_out], 'output')
        put(env, nodes[0].node_config.outputs[other_out], 'other output')
        put(env, nodes[1].node_config.outputs['o'], 'output of another node', ('new',))
        put(env, outs[key(0, sent_out)], 'outgoing')
        before = {n: look(c) for n, c in outs.items()}
        v = look(nodes[0].node_config.outputs[sent_out])[1]
        env.check(flow.push_outputs(uid(0)).is_ok(), 'pushing the outputs of a node succeeds')
        for n, c in outs.items():
            if n == key(0, sent_out) and how == 'new':
                arrives(env, c, before[n], v, 'data pushed to the outside')
                env.cover('arrived outside')
            else:
                keeps(env, c, before[n], 'data outside without updated outputs stay as they are')


def limits(env):
    """A wiring is accepted exactly if the data exist and every value of the output suits the input; then no push fails."""
    from specs.tree import manager
    lo, hi = (env.int(n, -2**63, 2**63 - 1, small=(-2, 2)) for n in ('lo', 'hi'))
    lo2, hi2 = (env.int(n, -2**63, 2**63 - 1, small=(-2, 2)) for n in ('lo of the input', 'hi of the input'))
    env.assume(env.and_(lo <= hi, lo2 <= hi2))
    kinds = {'int': lambda a, b: T.IntType(min_value=a, max_value=b), 'float': lambda a, b: T.FloatType(),
             'str': lambda a, b: T.StringType(), 'bool': lambda a, b: T.BoolType(),
             'list': lambda a, b: T.ListType(element_type=T.IntType(min_value=a, max_value=b)), 'strs': lambda a, b: T.ListType(element_type=T.StringType())}
    ko, ki = env.choice('output', tuple(kinds)), env.choice('input', tuple(kinds))
    static = env.choice('input is a constant', (False, True))
    a = define(env, 'From', {}, {'o': kinds[ko](lo, hi)})(node_id=uid(0), name='a')
    b = define(env, 'To', {'i': kinds[ki](lo2, hi2)}, {})(node_id=uid(1), name='b')
    i, o = b.node_config.inputs['i'], a.node_config.outputs['o']
    i.is_static = static
    m = manager()
    for n in (a, b):
        m.nodes[n.node_id] = n
    w = wire(*env.choice('wiring', ((0, 'o', 1, 'i'), (0, 'x', 1, 'i'), (0, 'o', 1, 'x'), (0, 'o', 5, 'i'), (5, 'o', 1, 'i'), (1, 'i', 0, 'o'),
                                    (1, 'o', 1, 'i'), (0, 'o', 0, 'o'))))
    if env.choice('broken id', (False, True)):
        if env.choice('which', ('source', 'target')) == 'source':
            w.source.node_id = 'nobody'
        else:
            w.target.node_id = 'nobody'
    r = m.validate_wiring(w)
    fits = ko == ki and not static and (env.and_(lo2 <= lo, hi <= hi2) if ko in ('int', 'list') else True)
    exists = (w.source.node_id, w.source.data_key, w.target.node_id, w.target.data_key) == (uuid_to_ros(uid(0)), 'o', uuid_to_ros(uid(1)), 'i')
    env.check(r.is_ok() == (env.and_(fits) if exists else False), 'a wiring is valid exactly if its data exist and their types fit')
    if r.is_err():
        env.cover('refused')
        return
    v = {'int': lambda: env.int('v', -2**63, 2**63 - 1, small=(-2, 2)), 'float': lambda: 1.5, 'str': lambda: 'x', 'bool': lambda: False,
         'list': lambda: [env.int('v', -2**63, 2**63 - 1, small=(-2, 2))], 'strs': lambda: ['x']}[ko]()
    env.assume(refused(o.set_value, v) == '')
    flow = DataFlowManager({}, {})
    flow.initialize(m.nodes, [w])
    o.flag_updated()
    env.check(flow.push_outputs(uid(0)).is_ok(), 'no value of an output is refused at an input it may be wired to')
    env.check(i.get_value().ok() == v, 'data pushed arrive at every input they are wired to')
    env.cover('accepted')


POOL = [(2, 'o', 3, 'i'), (2, 'o', 4, 'i'), (3, 'o', 4, 'i'), (3, 't', 4, 'i'), (3, 'o', 9, 'i'), (9, 'o', 3, 'i'), (3, 'x', 4, 'i'), (2, 'o', 3, 'x'),
        (3, 'o', 2, 'opt'), ('nobody', 'o', 4, 'i')]
VALID = POOL[:3]


def requests(env):
    """Wirings are added and removed as requested, or nothing changes."""
    from specs.tree import manager, view, wiring
    have = env.choice('have', ((), tuple(VALID[:1]), tuple(VALID[:2]), tuple(VALID[:2] + VALID[:1])))
    m = manager(('Many', 'Many', 'Source', 'Pipe', 'Pipe'), (None, 0, 0, 1, 1), have)
    add = env.choice('request', ('wire', 'unwire')) == 'wire'
    ask = [env.choice(f'wiring {i}', POOL) for i in range(env.choice('number', (0, 1, 2)))]
    ignore = env.choice('ignore failure', (False, True))
    from ros_bt_py_interfaces.srv import WireNodeData
    before = view(m)
    f = m.wire_data if add else m.unwire_data
    r = f(request=WireNodeData.Request(wirings=[wiring(*w) for w in ask], ignore_failure=ignore), response=WireNodeData.Response())
    now = view(m)
    old = [tuple(x) for x in before['wirings']]
    asked = [((wiring(*w).source.node_id, w[1]), (wiring(*w).target.node_id, w[3])) for w in ask]
    good = [x for x, w in zip(asked, ask) if (w in VALID if add else w in have)]
    ok = ignore or len(good) == len(ask)
    env.check(r.success == ok, 'a request succeeds exactly if all its wirings are possible, or failures are to be ignored')
    env.check((r.error_message == '') == ok, 'a request that is refused says why')
    if ok and add:
        env.check(set(now['wirings']) == set(old) | set(good), 'after wiring there are the wirings before and those asked for')
        env.check(all(now['wirings'].count(x) >= old.count(x) for x in old), 'wiring removes no wiring')
        env.cover('wired')
    elif ok:
        for x in set(old) | set(good):
            n = old.count(x)
            if x not in good:
                env.check(now['wirings'].count(x) == n, 'unwiring removes no other wirings')
            else:
                env.check(now['wirings'].count(x) < n, 'unwiring removes the wirings asked for')
        env.check(set(now['wirings']) <= set(old), 'unwiring adds no wiring')
        env.cover('unwired')
    else:
        env.check(now['wirings'] == before['wirings'], 'a request that is refused changes nothing')
        env.cover('refused')
    env.check({k: v for k, v in now.items() if k != 'wirings'} == {k: v for k, v in before.items() if k != 'wirings'},
              'wiring and unwiring change nothing else')


def described(env):
    """The published wiring data show what is wired, its value, and whether it has arrived."""
    from ros_bt_py.data_flow_manager import DataFlowManager as D
    flow = D({}, {})
    nodes = hubs(env, 3)
    wires = draw_wires(env, 2)
    flow.initialize({n.node_id: n for n in nodes}, [wire(*w) for w in wires])
    v = (None, 5, 6)
    for a, o in {(a, o) for a, o, _, _ in wires}:
        x = env.choice(f'output {a} {o}', v)
        if x is not None:
            nodes[a].node_config.outputs[o].set_value(x)
    for n, k in {(n, k) for _, _, n, k in wires}:
        x = env.choice(f'input {n} {k}', v)
        if x is not None:
            nodes[n].node_config.inputs[k].set_value(x)
    got = flow.get_wiring_data()
    name = lambda w: (w.source.node_id, w.source.data_key, w.target.node_id, w.target.data_key)
    env.check(sorted(name(d.wiring) for d in got) == sorted(name(wire(*w)) for w in wires), 'the data of every wiring are published once')
    for d in got:
        a, o, n, k = next(w for w in wires if name(wire(*w)) == name(d.wiring))
        x, y = nodes[a].node_config.outputs[o].serialize_value(), nodes[n].node_config.inputs[k].serialize_value()
        env.check(d.serialized_data == x, 'the value published is that of the output')
        env.check(d.is_current == (x == y), 'the value published is current exactly if it has arrived')
        env.check((d.source_type.type_identifier, d.target_type.type_identifier) == (T.IntType.type_identifier,) * 2,
                  'the types published are those of the data')
        env.cover('published')


def part_of(f, i):
    return lambda env: f(env, i)


SMALL = 'three nodes with two inputs and two outputs each, up to two wirings'
HARNESSES = [
    *({'name': f'{n}-{i}', 'run': part_of(f, i), 'native': True, 'limit': SMALL} for n, f in (('push', push), ('tick', tick)) for i in range(4)),
    {'name': 'incoming', 'run': incoming, 'native': True, 'limit': 'two nodes, data outside from a list'},
    {'name': 'limits', 'run': limits, 'native': True, 'limit': 'one output and one input of the types listed'},
    {'name': 'requests', 'run': requests, 'native': True, 'limit': 'a tree of five nodes, up to three wirings, up to two asked for'},
    {'name': 'described', 'run': described, 'native': True, 'limit': SMALL},
]
META = {'trusted': [], 'assumptions': ['floats are finite reals', 'the wirings given to DataFlowManager.initialize are valid (C18 limits, C25)']}
