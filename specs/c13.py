"""C13: topic nodes over every sequence of messages, ticks, unticks, resets, restarts and changed settings."""
from ros_bt_py.data_types import ReferenceType
from ros_bt_py.ros_nodes import topic as T
from specs.clock import Clock
from specs.execution import patch
from specs.ros import SETTINGS, Profile, TopicRos, any_updated, any_updated_contract, contents, give_container, message, message_type, new_setting, new_settings, setting_invariants, topic_type
from specs.world import give

OPS = ('tick', 'message', 'settings', 'untick', 'reset', 'restart')
FIRST = ({'reliable': True, 'transient_local': False}, {'reliable': False, 'transient_local': True})
DELAYS = (0.0, 0.5, 1.0, 2.0, -1.0)


def track(env, node):
    env.track_node('node', node)
    for grp in ('inputs', 'outputs'):
        for k, c in getattr(node.node_config, grp).items():
            inner = getattr(c, '_inner_type', None)
            if inner is not None:
                env.track(f'node.{grp}.{k}.inner', inner)


def begin(env, cls, g, static, fixed=False):
    patch(env, T, 'QoSProfile', Profile)
    clock = Clock(env)
    mtype = message_type(env)
    inputs = {'topic_type': topic_type(mtype)}
    if cls is T.TopicPublisher:
        inputs['message'] = ReferenceType(reference='topic_type', is_static=fixed)
        env.assume(inputs['message'].set_type_map(inputs).is_ok())
    node = cls(new_inputs=inputs)
    ros = TopicRos(env, clock, g, mtype)
    if static:
        new_settings(env, g, node, FIRST[1] if cls is T.TopicMemorySubscriber else env.choice('fixed', FIRST), True)
    else:
        for name in SETTINGS:
            node.node_config.inputs[name].is_static = False
    return clock, node, ros


def failed(env, g, node, r):
    """After a release that failed: reported, and the client has nothing more to do with the node."""
    if g.stuck:
        env.check(r.is_err(), 'a subscription or publisher that cannot be released is reported')
        env.cover('not released')
    return g.stuck


def subscriber(env, cls, memory, static):
    g = env.ghost('g', live=False, made=0, stuck=False, topic='', reliable=False, local=False, depth=0, changed=True,
                  pend=False, last=0, a=0, b=0)
    env.generalize('changed', 'reliable', 'local', '_value')
    clock, node, ros = begin(env, cls, g, static)
    if memory:
        delay = env.real('delay', DELAYS)
        give_container(env, node.node_config.inputs['memory_delay'], delay, True)
    output = node.node_config.outputs['message']
    track(env, node)
    any_updated_contract(env, node)
    setting_invariants(env)
    env.check(node.setup().is_err(), 'without a ROS node the setup fails')
    node.state = 'UNINITIALIZED'
    node.ros_node = ros

    def arrive():
        i = env.int('contents', small=(0, 2))
        g.a = clock.now().nanoseconds
        ros._vc_callback(message(env, i))
        g.b = clock.t
        g.last, g.pend = i, True

    ros._vc_arrives = arrive

    def tick():
        if g.changed:
            g.pend = False
        made = g.made
        lo = clock.now().nanoseconds
        r = node.tick()
        hi = clock.t
        if failed(env, g, node, r):
            return False
        env.check(g.live, 'after a tick there is a subscription')
        env.check(env.or_(env.not_(g.changed), g.made > made), 'changed settings are in force after a tick')
        g.changed = False
        env.check(r.is_ok() and r.ok() == node.state, 'a tick returns the state of the node')
        if not g.pend:
            env.check(r.ok() == 'RUNNING', 'RUNNING as long as there is no message')
        elif memory and r.ok() == 'FAILED':
            env.check((hi - g.a) / 1e9 > delay, 'FAILED only when the message is too old')
        else:
            env.check(r.ok() == 'SUCCEEDED', 'SUCCEEDED when there is a message')
            if memory:
                env.check((lo - g.b) / 1e9 <= delay, 'SUCCEEDED only when the message is young enough')
            out = node.node_config.outputs['message'].get_value()
            env.check(out.is_ok() and contents(env, out.ok()) == g.last, 'the output is the latest message')
            if not memory:
                g.pend = False
        env.cover(r.ok())
        return True

    def setup(first=None):
        r = node.setup()
        env.check(r.is_ok() and node.state == 'IDLE', 'the setup leaves the node idle')
        if not static:
            new_settings(env, g, node, first, True)
        g.changed, g.pend = True, False
    setup(FIRST[0])     # any other settings: after a restart
    env.check(node.tick().is_ok(), 'the first tick subscribes')
    g.changed = False
    ros._vc_started = True
    for _ in env.rounds('r'):
        op = env.choice('op', OPS)
        if op == 'tick':
            if not tick():
                return
        elif op == 'message':
            if g.live:
                arrive()
        elif op == 'settings':
            if not static:
                new_setting(env, g, node, env.choice('which', SETTINGS))
        elif op == 'untick':
            r = node.untick()
            env.check(r.is_ok() and node.state == 'IDLE', 'an untick leaves the node idle')
        elif op == 'reset':
            r = node.reset()
            if failed(env, g, node, r):
                return
            env.check(r.is_ok() and node.state == 'IDLE', 'a reset leaves the node idle')
            g.changed, g.pend = True, False
        else:
            r = node.shutdown()
            if failed(env, g, node, r):
                return
            env.check(r.is_ok() and node.state == 'SHUTDOWN', 'a shutdown leaves the node shut down')
            env.check(not g.live, 'a shutdown releases the subscription')
            setup()
        output.reset_value()     # whoever reads it has read it


def publisher(env, static, fixed):
    g = env.ghost('g', live=False, made=0, stuck=False, topic='', reliable=False, local=False, depth=0, changed=True,
                  new=True, value=0, sent=0, what=0, given=False)
    env.generalize('changed', 'new', 'reliable', 'local', '_value')
    clock, node, ros = begin(env, T.TopicPublisher, g, static, fixed)
    track(env, node)
    any_updated_contract(env, node)
    setting_invariants(env, True)

    def feed():
        i = env.int('contents', small=(0, 2))
        if i != g.value:
            g.new = True
        g.value = i
        give(env, node, 'message', message(env, i))
    if fixed:
        feed()
    env.check(node.setup().is_err(), 'without a ROS node the setup fails')
    node.state = 'UNINITIALIZED'
    node.ros_node = ros

    def tick():
        g.sent = 0
        made = g.made
        r = node.tick()
        if failed(env, g, node, r):
            return False
        env.check(r.is_ok() and r.ok() == node.state and r.ok() == 'SUCCEEDED', 'a tick succeeds')
        env.check(g.live, 'after a tick there is a publisher')
        env.check(env.or_(env.not_(g.changed), g.made > made), 'changed settings are in force after a tick')
        if g.new:
            env.check(g.sent == 1 and g.what == g.value, 'a new message is published once')
            env.cover('published')
        else:
            env.check(g.sent == 0, 'a message that was published already is not published again')
            env.cover('not published')
        g.changed, g.new = False, False
        return True

    def setup():
        r = node.setup()
        env.check(r.is_ok() and node.state == 'IDLE', 'the setup leaves the node idle')
        if not static:
            new_settings(env, g, node, None, True)
        if not fixed:
            feed()
        g.new = True
    setup()
    for _ in env.rounds('r'):
        op = env.choice('op', OPS)
        if op == 'tick':
            if not tick():
                return
        elif op == 'message':
            if not fixed:
                feed()
        elif op == 'settings':
            if not static:
                new_setting(env, g, node, env.choice('which', SETTINGS))
        elif op == 'untick':
            r = node.untick()
            env.check(r.is_ok() and node.state == 'IDLE', 'an untick leaves the node idle')
        elif op == 'reset':
            r = node.reset()
            if failed(env, g, node, r):
                return
            env.check(r.is_ok() and node.state == 'IDLE', 'a reset leaves the node idle')
            env.check(not g.live, 'a reset releases the publisher')
            g.new = True
        else:
            r = node.shutdown()
            if failed(env, g, node, r):
                return
            env.check(r.is_ok() and node.state == 'SHUTDOWN', 'a shutdown leaves the node shut down')
            env.check(not g.live, 'a shutdown releases the publisher')
            setup()


def unused(env):
    """A node that was never set up has nothing to release."""
    cls = env.choice('class', (T.TopicSubscriber, T.TopicMemorySubscriber, T.TopicPublisher))
    g = env.ghost('g', live=False, made=0, stuck=False, topic='', reliable=False, local=False, depth=0, changed=True)
    clock, node, ros = begin(env, cls, g, True)
    if env.bool('ros'):
        node.ros_node = ros
    r = node.shutdown()
    env.check(r.is_ok() and node.state == 'SHUTDOWN', 'a node that was never set up can be shut down')


def sub(cls, memory, static):
    return lambda env: subscriber(env, cls, memory, static)


def pub(static, fixed):
    return lambda env: publisher(env, static, fixed)


HARNESSES = [
    {'name': 'subscriber, wired', 'run': sub(T.TopicSubscriber, False, False)},
    {'name': 'subscriber', 'run': sub(T.TopicSubscriber, False, True)},
    {'name': 'memory-subscriber, wired', 'run': sub(T.TopicMemorySubscriber, True, False)},
    {'name': 'memory-subscriber', 'run': sub(T.TopicMemorySubscriber, True, True)},
    {'name': 'publisher, wired', 'run': pub(False, False)},
    {'name': 'publisher', 'run': pub(True, False)},
    {'name': 'publisher of a fixed message, wired', 'run': pub(False, True)},
    {'name': 'publisher of a fixed message', 'run': pub(True, True)},
    {'name': 'any-updated', 'run': any_updated},
    {'name': 'unused', 'run': unused},
]
