"""Abstract children: what a parent may rely on (the contract of Node's public operations).

Symbolic runs: a child is (kind, index); its state lives in the map World.st; an operation answers with every
outcome its contract allows. Concrete runs: real Node objects whose _do_* methods answer what the harness draws.
The contract itself is discharged for Node by the property node-lifecycle.
"""
from ros_bt_py.exceptions import BehaviorTreeException
from ros_bt_py.vendor.result import Err, Ok
from ros_bt_py_interfaces.msg import UtilityBounds

S = {'UNINITIALIZED': 0, 'IDLE': 1, 'RUNNING': 2, 'SUCCEEDED': 3, 'FAILED': 4, 'BROKEN': 5, 'SHUTDOWN': 6}
NAMES = {v: k for k, v in S.items()}
NOT_TICKABLE = ('UNINITIALIZED', 'SHUTDOWN', 'BROKEN')


def give(env, node, name, value):
    """Set an input of the node; runs in which the input does not take the value are left out (C14 is about those)."""
    env.assume(node.node_config.inputs[name].set_value(value).is_ok())


def outcome(r):
    """'ERR' or the state inside an Ok"""
    return 'ERR' if r.is_err() else r.ok()


class World:
    """n children and their monitor. `monitor(op, idx, outcome)` is called after every operation on a child."""

    def __init__(self, env, label='w', small=3, lo=0, start='IDLE', errors=(), results=('RUNNING', 'SUCCEEDED', 'FAILED'),
                 monitor=None, groups={}, n=None, utility=(True,), names=None):
        """n: fixed number of children; utility: answers to calculate_utility (can_execute, or 'ERR').
        names: pool of the children's names (None: names do not matter)."""
        self._vc_env, self._vc_label = env, label
        self._vc_errors, self._vc_results = errors, results
        self._vc_monitor = monitor
        self._vc_utility = utility
        self.n = env.size(label + '.n', small, lo) if n is None else n
        self._vc_names = None
        if names is not None and env.fixed(self.n):
            self._vc_names = [env.token(f'{label}.name{i}', names) for i in range(self.n)]
        if env.concrete:
            self._vc_children = [concrete_child(env, self, i, start) for i in range(self.n)]
            self.children = self._vc_children
        else:
            from engine.core import SymArr
            import z3
            if start == 'ANY':
                self.st = SymArr(z3.Const(env.c.fresh(label + '.st'), z3.ArraySort(z3.IntSort(), z3.IntSort())))
            else:
                self.st = SymArr(z3.K(z3.IntSort(), z3.IntVal(S[start])))
            env.e.codes = sorted(set(env.e.codes) | set(S.values()))
            for gn, names in groups.items():
                env.e.groups[gn] = [S[x] for x in names]
            env.refs['Child'] = lambda kind, idx: Child(self, kind, idx)
            env.track(label, self)
            if env.fixed(self.n):
                self.children = [Child(self, label, i) for i in range(self.n)]
            else:
                from engine.loops import SymSeq
                env.const(label + '.n', self.n)
                self.children = SymSeq(self.n, lambda i: Child(self, label, i), None, label)
            if start == 'ANY':
                env.for_all(self.n, lambda i: self.is_state(i, tuple(S)))

    def state(self, k):
        """state name of child k (splits the symbolic path)"""
        if self._vc_env.concrete:
            return self._vc_children[k].state
        return state_of(self, k)

    def is_state(self, k, names):
        """is child k in one of these states (no split)"""
        if self._vc_env.concrete:
            return self._vc_children[k].state in names
        from engine.core import SymBool
        import z3
        t = self.st.select(k).t
        return SymBool(z3.Or([t == S[x] for x in names]))

    def name(self, k):
        """name of child k"""
        if self._vc_names is not None and self._vc_env.fixed(k):
            return self._vc_names[k]
        if self._vc_env.concrete:
            return self._vc_children[k].name
        import z3
        from engine.core import NAME, SymTok, num_term
        f = z3.Function(f'name.{self._vc_label}', z3.IntSort(), NAME)
        return SymTok(f(num_term(k)))

    def distinct(self, env, key):
        """Assume that no two children have the same key(name)."""
        if env.fixed(self.n):
            for i in range(self.n):
                for j in range(i):
                    env.assume(key(self.name(i)) != key(self.name(j)))
            return
        import z3
        from engine.core import NAME, SymBool
        inv = z3.Function(env.c.fresh('inv'), NAME, z3.IntSort())
        env.for_all(self.n, lambda k: SymBool(inv(key(self.name(k)).t) == k.t))

    def attach(self, node):
        node.children = self.children
        if self._vc_env.concrete:
            for c in self._vc_children:
                c.parent = node

    def event(self, op, idx, out):
        if self._vc_monitor is not None:
            self._vc_monitor(op, idx, out)


def state_of(w, k):
    from engine.core import ctx
    import z3
    v = w.st.select(k)
    c = ctx()
    t = z3.simplify(v.t)
    if z3.is_int_value(t):
        return NAMES[t.as_long()]
    codes = sorted(NAMES)
    i = c.choose(len(codes), lambda j: t == codes[j])
    return NAMES[codes[i]]


class Child:
    """Symbolic child."""
    __vc_ref__ = True

    def __init__(self, world, kind, idx):
        self._w, self.kind, self.idx = world, kind, idx

    parent = None

    @property
    def state(self):
        return state_of(self._w, self.idx)

    @property
    def name(self):
        return self._w.name(self.idx)

    @property
    def node_id(self):
        import z3
        from engine.core import SymInt, num_term
        f = z3.Function(f'id.{self.kind}', z3.IntSort(), z3.IntSort())
        return SymInt(f(num_term(self.idx)))

    def __eq__(self, o):
        if type(o) is Child and o.kind == self.kind:
            return self.idx == o.idx
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r)

    __hash__ = None

    def _set(self, s):
        w = self._w
        w.st = w.st.store(self.idx, S[s])

    def _in(self, names):
        import z3
        from engine.core import ctx
        t = self._w.st.select(self.idx).t
        return ctx().branch(z3.Or([t == S[x] for x in names]))

    def _do(self, op, bad, results):
        w, env = self._w, self._w._vc_env
        if bad and self._in(bad):
            r, out = Err(BehaviorTreeException(f'{op} in a state that does not allow it')), 'ERR'
        else:
            opts = tuple(results) + (('ERR',) if op in w._vc_errors else ())
            out = env.choice(f'{w._vc_label}.{op}', opts)
            if out == 'ERR':
                self._set('BROKEN')
                r = Err(BehaviorTreeException(f'child {op}'))
            else:
                self._set(out)
                r = Ok(out)
        w.event(op, self.idx, out)
        return r

    def tick(self):
        return self._do('tick', NOT_TICKABLE, self._w._vc_results)

    def untick(self):
        return self._do('untick', NOT_TICKABLE, ('IDLE',))

    def reset(self):
        return self._do('reset', NOT_TICKABLE, ('IDLE',))

    def setup(self):
        if not self._in(('UNINITIALIZED', 'SHUTDOWN')):
            return self._do_err('setup')
        return self._do('setup', (), ('IDLE',))

    def _do_err(self, op):
        self._w.event(op, self.idx, 'ERR')
        return Err(BehaviorTreeException(f'{op} in a state that does not allow it'))

    def calculate_utility(self):
        w = self._w
        return utility_answer(w)

    def shutdown(self):
        if self._in(('SHUTDOWN',)):
            self._w.event('shutdown', self.idx, 'SHUTDOWN')
            return Ok('SHUTDOWN')
        return self._do('shutdown', (), ('SHUTDOWN',))


def utility_answer(w):
    u = w._vc_env.choice(f'{w._vc_label}.utility', w._vc_utility)
    w.event('utility', 0, u)
    if u == 'ERR':
        return Err(BehaviorTreeException('child utility'))
    return Ok(UtilityBounds(can_execute=u))


_CON = {}


def concrete_child_class():
    if 'cls' in _CON:
        return _CON['cls']
    from ros_bt_py.node import Leaf, define_bt_node
    from ros_bt_py.node_config import NodeConfig

    class ScriptedChild(Leaf):
        def _ask(self, op, results):
            w = self.vc_world
            opts = tuple(results) + (('ERR',) if op in w._vc_errors else ())
            out = w._vc_env.choice(f'{w._vc_label}.{op}', opts)
            return Err(BehaviorTreeException(f'child {op}')) if out == 'ERR' else Ok(out)

        def _do_setup(self):
            return self._ask('setup', ('IDLE',))

        def _do_tick(self):
            return self._ask('tick', self.vc_world._vc_results)

        def _do_untick(self):
            return self._ask('untick', ('IDLE',))

        def _do_reset(self):
            return self._ask('reset', ('IDLE',))

        def _do_shutdown(self):
            return self._ask('shutdown', ('SHUTDOWN',))

        def _do_calculate_utility(self):
            return utility_answer(self.vc_world)

    def wrap(op):
        base = getattr(Leaf, op)

        def f(self):
            r = base(self)
            self.vc_world.event(op, self.vc_idx, outcome(r))
            return r
        f.__name__ = op
        return f
    for op in ('setup', 'tick', 'untick', 'reset', 'shutdown'):
        setattr(ScriptedChild, op, wrap(op))
    cls = define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))(ScriptedChild)
    _CON['cls'] = cls
    return cls


def concrete_child(env, world, i, start):
    c = concrete_child_class()(name=f'c{i}' if world._vc_names is None else world._vc_names[i])
    c.vc_world, c.vc_idx = world, i
    c.state = env.choice(f'{world._vc_label}.start', tuple(S)) if start == 'ANY' else start
    return c
