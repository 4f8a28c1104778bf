"""What the nodes that talk to ROS use of it: messages, publishers, subscriptions.

A message is a number (its contents); two messages are equal when their numbers are. Symbolic runs use Message,
concrete runs real std_msgs/Int64 messages.
"""
from rclpy.qos import QoSDurabilityPolicy, QoSReliabilityPolicy
from ros_bt_py.data_types import RosTopicType
from ros_bt_py.vendor.result import Ok
from specs.clock import Clock, FakeRos
from specs.execution import patch
from std_msgs.msg import Int64


class Message:
    __vc_ref__ = True
    kind = 'message'

    def __init__(self, idx=0):
        self.idx = idx

    @classmethod
    def get_fields_and_field_types(cls):
        return {'data': 'int64'}

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __eq__(self, o):
        if isinstance(o, Message):
            return self.idx == o.idx
        return False

    def __ne__(self, o):
        if isinstance(o, Message):
            return self.idx != o.idx
        return True

    __hash__ = None


def message_type(env):
    if env.symbolic:
        env.refs['Message'] = lambda kind, idx: Message(idx)
        return Message
    return Int64


def message(env, i):
    return Int64(data=i) if env.concrete else Message(i)


def contents(env, m):
    return m.data if env.concrete else m.idx


class Handle:
    """A subscription, publisher or client; idx: the number of the call that made it."""
    __vc_ref__ = True

    def __init__(self, kind, idx):
        self.kind, self.idx = kind, idx

    def __eq__(self, o):
        return self.idx == o.idx if isinstance(o, Handle) else False

    def __ne__(self, o):
        return self.idx != o.idx if isinstance(o, Handle) else True

    __hash__ = None


class Profile:
    """What a quality-of-service profile was made of."""

    def __init__(self, reliability=None, durability=None, depth=None, **kw):
        self.reliability, self.durability, self.depth = reliability, durability, depth


SETTINGS = ('topic_name', 'reliable', 'transient_local', 'depth')


class TopicRos(FakeRos):
    """A ROS node that may hold one subscription or publisher at a time (`made`: how many were made so far)."""

    def __init__(self, env, clock, g, mtype):
        self._vc_env, self._vc_clock, self._vc_g, self._vc_type = env, clock, g, mtype
        self._vc_arrives = None
        self._vc_started = False
        self._vc_callback = None
        if env.symbolic:
            env.refs['Handle'] = lambda kind, idx: Handle(kind, idx)
            env.refs['Publisher'] = lambda kind, idx: Publisher(idx, self)

    def make(self, what, msg_type, topic, profile):
        env, g = self._vc_env, self._vc_g
        env.check(not g.live, f'there is at most one {what} at a time')
        env.check(msg_type is self._vc_type, f'the {what} is for the configured message type')
        env.check(topic == g.topic, f'the {what} is for the configured topic')
        env.check((profile.reliability == QoSReliabilityPolicy.RELIABLE) == g.reliable, f'the {what} is reliable as configured')
        env.check((profile.durability == QoSDurabilityPolicy.TRANSIENT_LOCAL) == g.local, f'the {what} is durable as configured')
        env.check(profile.depth == g.depth, f'the {what} has the configured depth')
        g.live = True
        g.made = g.made + 1
        return Handle(what, g.made)

    def destroy(self, what, h):
        env, g = self._vc_env, self._vc_g
        env.check(g.live and h.idx == g.made, f'only the present {what} is released, and only once')
        if env.choice('destroyed', [True, False]):
            g.live = False
            return True
        g.stuck = True
        return False

    def create_subscription(self, msg_type, topic, callback, qos_profile):
        env = self._vc_env
        h = self.make('subscription', msg_type, topic, qos_profile)
        if env.concrete or self._vc_callback is None:
            self._vc_callback = callback
        if self._vc_started and self._vc_env.bool('at once'):
            self._vc_arrives()
        return h

    def destroy_subscription(self, h):
        return self.destroy('subscription', h)

    def create_publisher(self, msg_type, topic, qos_profile):
        h = self.make('publisher', msg_type, topic, qos_profile)
        return Publisher(h.idx, self)

    def destroy_publisher(self, h):
        return self.destroy('publisher', h)

    def published(self, idx, m):
        env, g = self._vc_env, self._vc_g
        env.check(g.live and idx == g.made, 'the present publisher is used')
        g.sent = g.sent + 1
        g.what = contents(env, m)


class Publisher(Handle):
    def __init__(self, idx, ros):
        self.kind, self.idx, self._vc_ros = 'publisher', idx, ros

    def publish(self, m):
        self._vc_ros.published(self.idx, m)


def topic_type(mtype):
    t = RosTopicType(interface_id=1)
    t.set_value(mtype)
    return t


FIELDS = {'topic_name': 'topic', 'reliable': 'reliable', 'transient_local': 'local', 'depth': 'depth'}


def give_container(env, c, v, first=False):
    """Set the value of a container. Proofs write the value (set_value is C14's) where that saves paths: the first value,
    and a value that is the same as the present one anyway."""
    if env.concrete or not first:
        env.assume(c.set_value(v).is_ok())
    if env.symbolic:
        if first:
            c._updated = True
            for n, f in (('min_value', lambda m: v >= m), ('max_value', lambda m: v <= m)):
                if hasattr(c, n):
                    env.assume(f(getattr(c, n)))
        c._value = v


def draw(env, name):
    return env.token('topic', ('a', 'b')) if name == 'topic_name' else env.int('depth', 0, None, small=(0, 2)) if name == 'depth' \
        else env.symbool(name)


def new_setting(env, g, node, name, v=None, first=False):
    """Give the node a new setting; g.changed: does it differ from the old one."""
    v = draw(env, name) if v is None else v
    env.note(f'{name}: {v}')
    g.changed = env.or_(g.changed, getattr(g, FIELDS[name]) != v)
    setattr(g, FIELDS[name], v)
    give_container(env, node.node_config.inputs[name], v, first)


def new_settings(env, g, node, first=None, fixed=False):
    """first: values of `reliable` and `transient_local` (otherwise arbitrary)"""
    for name in SETTINGS:
        new_setting(env, g, node, name, None if first is None else first.get(name), fixed)


def setting_invariants(env, message=False):
    """What the proof needs to know between two requests of a client: the settings were changed exactly if an input is
    marked as changed; the recorded settings are the node's."""
    if not env.symbolic:
        return
    import z3
    marks = [f'node.inputs.{name}._updated' for name in SETTINGS]
    env.invariant('changed is marked', ['g.changed'] + marks, lambda c, *u: c == z3.Or(u))
    for name in SETTINGS:
        env.invariant(f'{name} is recorded', ['g.' + FIELDS[name], f'node.inputs.{name}._value'],
                      lambda a, b: a == b if a.sort() == b.sort() else None)
    if message:
        env.invariant('new is marked', ['g.new', 'node.inputs.message.inner._updated'], lambda a, b: a == b)


def any_updated_contract(env, node):
    """In proofs: NodeInputMap.any_updated by its contract (Ok(is one of these inputs marked as updated); the contract is
    checked by the harness any-updated). One path instead of two for each input."""
    if not env.symbolic:
        return
    from ros_bt_py import node_config as N

    def any_updated(self, *keys):
        inputs = node.node_config.inputs
        for k in keys:
            env.check(k in inputs, 'any_updated is asked about inputs that exist')
        return Ok(env.or_(*[inputs[k].is_updated() for k in keys]))
    patch(env, N.NodeInputMap, 'any_updated', any_updated)


def any_updated(env):
    """any_updated meets its contract."""
    from ros_bt_py.data_types import BoolType
    from ros_bt_py.node_config import NodeInputMap
    names = ('a', 'b', 'c', 'd', 'e')
    asked = names[:env.choice('asked', (0, 1, 2, 3, 4, 5))]
    other = env.choice('other', (-1, 0, 1))
    if other >= 0:
        asked = asked[:other] + ('x',) + asked[other:]
    data = {n: BoolType() for n in names}
    flags = {}
    for n in names:
        flags[n] = env.bool('updated ' + n)
        if flags[n]:
            data[n].flag_updated()
    r = NodeInputMap('inputs', data).any_updated(*asked)
    if 'x' in asked:
        env.check(r.is_err(), 'asking about an input that does not exist is an error')
    else:
        env.check(r.is_ok() and r.ok() == any(flags[n] for n in asked), 'any_updated tells whether one of the inputs is updated')


class Call(Handle):
    """The answer to a request, some time: what rclpy's Future does. g.fut: the state of the latest one
    ('' none, 'pending', 'done', 'nothing' (done without a response), 'dropped' (cancelled by someone else),
    'gone' (cancelled by the node), 'late' (cancelled by the node, answered nevertheless))."""

    def __init__(self, idx, ros):
        self.kind, self.idx, self._vc_ros = 'call', idx, ros

    def now(self):
        g = self._vc_ros._vc_g
        return g.fut if self.idx == g.calls else 'late'

    def done(self):
        return self.now() in ('done', 'nothing', 'late')

    def cancelled(self):
        return self.now() in ('dropped', 'gone')

    def cancel(self):
        if self.now() == 'pending':
            self._vc_ros._vc_g.fut = 'gone'
            self._vc_ros.gone()

    def exception(self):
        return None

    def result(self):
        ros = self._vc_ros
        now = self.now()
        return ros.answer() if now == 'done' else ros.late() if now == 'late' else None


class Client(Handle):
    def __init__(self, idx, ros):
        self.kind, self.idx, self._vc_ros = 'client', idx, ros

    def call_async(self, request):
        return self._vc_ros.called(self.idx, request)

    def service_is_ready(self):
        ros = self._vc_ros
        ros._vc_env.check(ros._vc_g.live and self.idx == ros._vc_g.made, 'the present client is used')
        ros._vc_env.check(ros._vc_g.client == ros._vc_g.name, 'the configured service is asked for')
        return ros.ready()


class Payload:
    """A request or response with one number in it."""
    fields = ('a',)

    def __init__(self, **kw):
        for f in self.fields:
            setattr(self, f, kw.get(f, 0))

    @classmethod
    def get_fields_and_field_types(cls):
        return {f: 'int64' for f in cls.fields}


class Request(Payload):
    fields = ('a',)


class Response(Payload):
    fields = ('sum',)


class ServiceType:
    Request, Response = Request, Response


class ServiceRos(FakeRos):
    def __init__(self, env, clock, g):
        self._vc_env, self._vc_clock, self._vc_g = env, clock, g
        if env.symbolic:
            env.refs['Client'] = lambda kind, idx: Client(idx, self)
            env.refs['Call'] = lambda kind, idx: Call(idx, self)

    def create_client(self, srv_type, srv_name, **kw):
        env, g = self._vc_env, self._vc_g
        env.check(not g.live, 'there is at most one client at a time')
        env.check(srv_type is ServiceType, 'the client is for the configured service type')
        env.check(srv_name == g.name, 'the client is for the configured service')
        g.client = srv_name
        g.live = True
        g.made = g.made + 1
        return Client(g.made, self)

    def destroy_client(self, c):
        env, g = self._vc_env, self._vc_g
        env.check(g.live and c.idx == g.made, 'only the present client is released, and only once')
        if env.choice('destroyed', [True, False]):
            g.live, g.client = False, ''
            return True
        g.stuck = True
        return False

    def called(self, idx, request):
        env, g = self._vc_env, self._vc_g
        env.check(g.live and idx == g.made, 'the present client is used')
        env.check(g.client == g.name, 'the configured service is called')
        env.check(g.fut != 'pending', 'there is at most one call at a time')
        env.check(request.a == g.value, 'the request is made of the present inputs')
        g.sent = g.sent + 1
        g.calls = g.calls + 1
        g.fut = 'pending'
        return Call(g.calls, self)

    def gone(self):
        pass

    def answer(self):
        return Response(sum=self._vc_g.resp)

    def late(self):
        return Response(sum=-1)

    def ready(self):
        g = self._vc_g
        g.asked = True
        g.ready = self._vc_env.choice('ready', [False, True])
        return g.ready
