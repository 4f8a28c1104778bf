"""C17: every node has its own data, declared by its class, given on construction or added by the node."""
from ros_bt_py import data_types as T
from ros_bt_py.exceptions import BehaviorTreeException, NodeConfigError
from ros_bt_py.node import Leaf, Node, define_bt_node
from ros_bt_py.node_config import NodeConfig, NodeInputMap, NodeOutputMap
from ros_bt_py.vendor.result import Err, Ok
from ros_bt_py_interfaces.msg import NodeState
from specs.values import ACCESS, Int, LimitedInt, stand_ins, template

IDLE = NodeState.IDLE


class Plain(Leaf):
    extra_in = extra_out = None

    def add_extra_inputs(self):
        return Ok({}) if self.extra_in is None else type(self).extra_in()

    def add_extra_outputs(self):
        return Ok({}) if self.extra_out is None else type(self).extra_out()

    def _do_setup(self):
        from ros_bt_py.node import BTNodeState
        return Ok(BTNodeState.IDLE)

    def _do_tick(self):
        raise NotImplementedError

    _do_untick = _do_reset = _do_shutdown = _do_tick


def define(env, config, base=Plain, **attrs):
    """A new class of nodes; it is forgotten again after the run."""
    cls = type('Sample', (base,), dict(attrs, __module__=__name__))
    cls = define_bt_node(config)(cls)
    env.defer(lambda: Node.node_classes.pop(__name__, None))
    return cls


def declared(lo, hi):
    return NodeConfig(
        inputs={'n': T.IntType(min_value=lo, max_value=hi), 'd': T.IntType(allow_static=False),
                'l': T.ListType(element_type=T.IntType()), 's': T.StringType(), 't': T.GenericType(valid_types=[int, str, bool]),
                'r': T.ReferenceType(reference='t'), 'rl': T.ReferenceListType(reference='t')},
        outputs={'o': T.IntType(), 'ol': T.DictType(element_type=T.StringType()), 'ro': T.ReferenceType(reference='t')},
        max_children=0)


def state(config):
    out = {}
    for where, data in (('in', config.inputs), ('out', config.outputs)):
        for key, c in data.items():
            out[where, key] = (c.get_value(), c.is_updated(), c.is_static, c.allow_static, c.allow_dynamic)
    return out


def same_state(env, a, b, label):
    env.check(set(a) == set(b), label)
    for key, (value, *flags) in a.items():
        other, *others = b[key]
        env.check(flags == others, label)
        env.check(value.is_ok() == other.is_ok(), label)
        if value.is_ok():
            env.check(value.ok() == other.ok(), label)


VALUES = {('in', 'l'): [5], ('in', 's'): 'x', ('in', 't'): template(str), ('in', 'r'): 7, ('in', 'rl'): [7], ('out', 'ol'): {'a': 'b'},
          ('out', 'ro'): 9}


def isolation(env):
    """Nothing done with the data of one node changes those of another, or of the class."""
    stand_ins(env)
    lo, hi = env.int('lo', -2**63, 2**63, small=(-1, 2)), env.int('hi', -2**63, 2**63, small=(0, 3))
    env.assume(lo <= hi)
    cls = define(env, declared(lo, hi))
    a, b = cls(name='a'), cls(name='b')
    before, template_before = state(b.node_config), state(cls._node_config)
    same_state(env, before, template_before, 'a new node has the data its class declares')
    if env.choice('in place', (False, True)):
        before['in', 'l'][0].ok().append(1)    # what was read is a copy
        before = state(b.node_config)
    todo = env.choice('operation', ('set', 'reset', 'flag', 'setup', 'output', 'outputs', 'add', 'access', 'remove'))
    if todo in ('set', 'reset', 'flag', 'access'):
        key = env.choice('data', tuple(before))
        c = (a.node_config.inputs if key[0] == 'in' else a.node_config.outputs)[key[1]]
        if todo == 'set':
            v = VALUES.get(key)
            if v is None:
                v = env.int('v', -2**63, 2**63, small=(-1, 3))
                env.assume(v >= lo)
                env.assume(v <= hi)
            env.check(c.set_value(v).is_ok() and c.get_value().ok() == v, 'legal data is accepted')
        elif todo == 'reset':
            c.reset_value()
        elif todo == 'flag':
            c.flag_updated()
        else:
            c.is_static = not c.is_static
    elif todo == 'setup':
        a.setup()
    elif todo == 'output':
        env.check(a.outputs.set_value('o', 3).is_ok(), 'legal data is accepted')
        env.check(a.node_config.outputs['o'].get_value().ok() == 3, 'an output that is set holds the value')
    elif todo == 'outputs':
        env.check(a.outputs.set_multiple_values(o=4, ol={'a': 'c'}).is_ok(), 'legal data is accepted')
    elif todo == 'add':
        a.node_config.extend(NodeConfig(inputs={'new': T.IntType()}, outputs={'new': T.IntType()}, max_children=0))
    else:
        del a.node_config.inputs['n'], a.node_config.outputs['o']
    same_state(env, state(b.node_config), before, 'the data of other nodes stay as they are')
    same_state(env, state(cls._node_config), template_before, 'the declaration of the class stays as it is')
    same_state(env, state(cls(name='c').node_config), template_before, 'a new node has the data its class declares')
    for x in (a, b):
        env.check(x.inputs.data is x.node_config.inputs and x.outputs.data is x.node_config.outputs, 'a node reads its own data')
    env.cover('isolated')


TYPES = {int: 7, str: 'x', bool: True}
POOL = (7, 'x', True, [7], ['x'], [True], None)


def fits(t, v):
    return isinstance(v, bool) if t is bool else isinstance(v, t)


def accepted(c, v):
    try:
        return c.set_value(v).is_ok()
    except Exception:    # refused by a type check
        return False


def references(env):
    """Inputs and outputs that refer to a type follow the type chosen for the node."""
    stand_ins(env)
    cls = define(env, declared(0, 5))
    chosen = env.choice('type', (None, int, str, bool))
    given = {} if chosen is None else {'t': T.GenericType(valid_types=[int, str, bool], value=template(chosen))}
    other = cls(name='other', new_inputs={'t': T.GenericType(valid_types=[int, str, bool], value=template(env.choice('other', (int, str))))})
    node = cls(name='node', new_inputs=given)
    t = int if chosen is None else chosen
    where, key = env.choice('data', (('in', 'r'), ('in', 'rl'), ('out', 'ro')))
    c = (node.node_config.inputs if where == 'in' else node.node_config.outputs)[key]
    v = env.choice('value', POOL)
    if t is int and v is True:
        return
    want = (isinstance(v, list) and all(fits(t, x) for x in v)) if key == 'rl' else v is not None and fits(t, v)
    if t is int and isinstance(v, list) and v == [True]:
        return
    env.check(accepted(c, v) == want, 'a reference accepts the values of the type chosen for the node')
    if want:
        env.check(c.get_value().ok() == v, 'a reference accepts the values of the type chosen for the node')
        env.cover('accepted')
    else:
        env.cover('refused')
    env.check(other is not node, '')


def refused_config(f):
    try:
        return f(), False
    except NodeConfigError:
        return None, True


def new_inputs(env):
    """Data given on construction replace declared data they are compatible with; anything else is refused."""
    stand_ins(env)
    k, g = LimitedInt(env, ' declared'), LimitedInt(env, ' given')
    x, y = env.choice('access', ACCESS), env.choice('given access', ACCESS)
    extra = env.choice('declared by', ('class', 'node'))
    config = {'other': T.IntType()}
    attrs = {}
    if extra == 'class':
        config['n'] = k.make(**x)
    else:
        attrs['extra_in'] = lambda: Ok({'n': k.make(**x)})
    cls = define(env, NodeConfig(inputs=config, outputs={}, max_children=0), **attrs)
    given = g.make(**y)
    if env.choice('with value', (False, True)):
        v = g.draw('v')
        env.assume(g.valid(v))
        env.assume(given.set_value(v).is_ok())
    value = given.get_value()
    key = env.choice('key', ('n', 'unknown'))
    node, no = refused_config(lambda: cls(name='node', new_inputs={key: given}))
    wider = not (x['allow_static'] and not y['allow_static']) and not (x['allow_dynamic'] and not y['allow_dynamic'])
    ok = env.and_(key == 'n', wider, g.lo >= k.lo, g.hi <= k.hi)
    env.check((not no) == ok, 'given data is adopted exactly if it is declared and compatible')
    if no:
        env.cover('refused')
        return
    env.check(set(node.node_config.inputs) == {'other', 'n'}, 'the node has the data that is declared')
    c = node.node_config.inputs['n']
    env.check(c.is_static == y['is_static'], 'given data is used as static or dynamic as given')
    now = node.inputs.get_value('n')
    env.check(now.is_ok() == value.is_ok() and (now.is_err() or now.ok() == value.ok()), 'given data keeps its value')
    env.check(node.inputs.get_value('other').ok() == 0, 'other data is as declared')
    if extra == 'class':
        env.check(cls._node_config.inputs['n'] is not c, 'the declaration of the class stays as it is')
    env.cover('adopted')


def extras(env):
    """Data that a node adds itself must not be declared already; the class is not affected."""
    def extra(kind, where):
        def f():
            if kind == 'error':
                return Err(NodeConfigError('no'))
            if kind == 'nothing':
                return Ok({})
            return Ok({('e' if kind == 'new' else where): T.IntType(min_value=3)})
        return f
    i, o = env.choice('inputs', ('nothing', 'new', 'same', 'error')), env.choice('outputs', ('nothing', 'new', 'same', 'error'))
    cls = define(env, NodeConfig(inputs={'i': T.IntType(min_value=1)}, outputs={'o': T.IntType(min_value=2)}, max_children=0),
                 extra_in=extra(i, 'i'), extra_out=extra(o, 'o'))
    node, no = refused_config(lambda: cls(name='node'))
    env.check(no == (i in ('same', 'error') or o in ('same', 'error')), 'data a node adds is refused exactly if it exists already')
    env.check(set(cls._node_config.inputs) == {'i'} and set(cls._node_config.outputs) == {'o'}, 'the declaration of the class stays as it is')
    if not no:
        env.check(set(node.node_config.inputs) == {'i', 'e'} if i == 'new' else set(node.node_config.inputs) == {'i'}, 'a node has the data it adds')
        env.check(set(node.node_config.outputs) == {'o', 'e'} if o == 'new' else set(node.node_config.outputs) == {'o'}, 'a node has the data it adds')
        for c in node.node_config.outputs.values():
            env.check(c.allow_dynamic and not c.allow_static and not c.is_static, 'outputs are dynamic')
        env.cover('added')


def configs(env):
    """Declarations: outputs are dynamic, references have a type to refer to, nothing is declared twice."""
    what = env.choice('what', ('output', 'type output', 'reference', 'extend', 'inherit'))
    if what == 'output':
        x = env.choice('access', ACCESS)
        c = NodeConfig(inputs={}, outputs={'o': T.IntType(**x)}, max_children=0).outputs['o']
        env.check(c.allow_dynamic and not c.allow_static and not c.is_static, 'outputs are dynamic')
        return
    if what == 'type output':
        _, no = refused_config(lambda: NodeConfig(inputs={}, outputs={'t': T.GenericType()}, max_children=0))
        env.check(no, 'an output cannot be a type')
        return
    if what == 'reference':
        where = env.choice('where', ('inputs', 'outputs'))
        target = env.choice('target', ('type', 'value', 'missing'))
        data = {'type': {'t': T.GenericType()}, 'value': {'t': T.IntType()}, 'missing': {}}[target]
        ref = {'r': env.choice('kind', (T.ReferenceType, T.ReferenceListType, T.ReferenceDictType))(reference='t')}
        _, no = refused_config(lambda: NodeConfig(inputs=dict(data, **ref) if where == 'inputs' else data,
                                                  outputs=ref if where == 'outputs' else {}, max_children=0))
        env.check(no == (target != 'type'), 'a reference needs a type to refer to')
        return
    keys = ('a', 'b')
    mine = tuple({k: T.IntType(min_value=1) for k in keys if env.choice(f'{w} {k}', (False, True))} for w in ('input', 'output'))
    theirs = tuple({k: T.IntType(min_value=2) for k in keys if env.choice(f'their {w} {k}', (False, True))} for w in ('input', 'output'))
    n = env.choice('children', (0, 1, None))
    m = env.choice('their children', (0, 1, None)) if what == 'extend' else 0
    c, d = NodeConfig(*[dict(x) for x in mine], max_children=n), NodeConfig(*[dict(x) for x in theirs], max_children=m)
    clash = n != m or set(mine[0]) & set(theirs[0]) or set(mine[1]) & set(theirs[1])
    if what == 'extend':
        r = c.extend(d)
        env.check(r.is_err() if clash else r.is_ok(), 'data declared twice is reported')
        result = c
    else:
        base = define(env, d)
        cls = define(env, c, base=base)
        env.check(base._node_config is d, 'a base class keeps its declaration')
        if clash:
            return
        result = cls(name='node').node_config
    for i, got in enumerate((result.inputs, result.outputs)):
        for k in mine[i]:
            env.check(got[k].min_value == 1, 'declared data is never replaced')
        if not clash:
            env.check(set(got) == set(mine[i]) | set(theirs[i]), 'the data of both declarations is there')
    env.check(set(d.inputs) == set(theirs[0]) and set(d.outputs) == set(theirs[1]), 'the other declaration stays as it is')
    env.cover('merged')


def maps(env):
    """Reading and writing data of a node by name."""
    stand_ins(env)
    v = env.int('v', None, None, small=(-1, 6))
    a, b = T.IntType(min_value=0, max_value=4, allow_static=False), T.StringType(value='x')
    inputs = NodeInputMap('node.inputs', {'a': a, 'b': b})
    if env.choice('has value', (False, True)):
        env.assume(a.set_value(3).is_ok())
    else:
        a.reset_value()
    has = a.has_value()
    ua, ub = env.choice('updated a', (False, True)), env.choice('updated b', (False, True))
    (a.flag_updated if ua else a.reset_updated)()
    (b.flag_updated if ub else b.reset_updated)()
    r = inputs.get_value('a')
    env.check(r.is_ok() == has and (not has or r.ok() == 3), 'an input is read if it has a value')
    env.check(inputs.get_value('b').ok() == 'x', 'an input is read if it has a value')
    env.check(inputs.get_value('c').is_err(), 'unknown data is reported')
    r = inputs.get_value_as('a', int)
    env.check(r.is_ok() == has and (not has or r.ok() == 3), 'an input is read if it has a value of the type asked for')
    env.check(inputs.get_value_as('a', str).is_err() and inputs.get_value_as('b', int).is_err(), 'a value of another type is reported')
    env.check(inputs.get_value_as('b', str).ok() == 'x' and inputs.get_value_as('c', str).is_err(), 'unknown data is reported')
    env.check(inputs.any_updated('a').ok() == ua and inputs.any_updated('b').ok() == ub, 'updated data is found')
    env.check(inputs.any_updated('a', 'b').ok() == (ua or ub) and inputs.any_updated('b', 'a').ok() == (ua or ub), 'updated data is found')
    env.check(inputs.any_updated().ok() is False and inputs.any_updated('a', 'c').is_err(), 'unknown data is reported')
    o, p = T.IntType(min_value=0, max_value=4), T.IntType(min_value=-9, max_value=9)
    config = NodeConfig(inputs={}, outputs={'o': o, 'p': p}, max_children=0)
    outputs = NodeOutputMap('node.outputs', config.outputs)
    key = env.choice('key', ('o', 'p', 'q'))
    r = outputs.set_value(key, v)
    if key == 'q':
        env.check(r.is_err(), 'unknown data is reported')
        return
    c = config.outputs[key]
    env.check(r.is_ok() == env.and_(v >= c.min_value, v <= c.max_value), 'an output is set exactly if the value is legal')
    if r.is_ok():
        env.check(c.get_value().ok() == v, 'an output that is set holds the value')
    w = env.int('w', -9, 9, small=(-1, 6))
    r = outputs.set_multiple_values(p=w, o=v)
    env.check(r.is_ok() == env.and_(v >= 0, v <= 4), 'several outputs are set exactly if every value is legal')
    if r.is_ok():
        env.check(o.get_value().ok() == v and p.get_value().ok() == w, 'an output that is set holds the value')
        env.cover('set')


HARNESSES = [
    {'name': 'isolation', 'run': isolation, 'native': True, 'limit': 'one class with ten data of every kind'},
    {'name': 'references', 'run': references, 'native': True, 'limit': 'one class with three references'},
    {'name': 'new-inputs', 'run': new_inputs, 'native': True},
    {'name': 'extras', 'run': extras, 'native': True, 'limit': 'one declared input and output'},
    {'name': 'configs', 'run': configs, 'native': True, 'limit': 'up to two inputs and outputs'},
    {'name': 'maps', 'run': maps, 'native': True, 'limit': 'two inputs and outputs'},
]
META = {}
