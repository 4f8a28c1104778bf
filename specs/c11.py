"""C11: service nodes over every sequence of ticks, unticks, resets, restarts, changed inputs, answers and lost answers."""
from ros_bt_py.data_types import FloatType, RosServiceType
from ros_bt_py.ros_nodes.service import Service, WaitForService
from specs.clock import Clock
from specs.ros import ServiceRos, ServiceType, any_updated, any_updated_contract, give_container

SECONDS = (0.0, 0.5, 1.0, 2.0, -1.0)
OPS = ('tick', 'answer', 'input', 'untick', 'reset', 'restart')


def begin(env, cls, timeout_name):
    g = env.ghost('g', live=False, made=0, stuck=False, name='', client='', changed=True, value=0, fut='', calls=0, sent=0, resp=0, on=False,
                  a=0, b=0, asked=False, ready=False)
    env.generalize('changed')
    clock = Clock(env)
    t = RosServiceType(interface_id=1)
    env.assume(t.set_value(ServiceType).is_ok())
    timeout = env.real('timeout', SECONDS)
    f = FloatType(allow_dynamic=False)
    give_container(env, f, timeout, True)
    return g, clock, cls(new_inputs={'service_type': t, timeout_name: f}), ServiceRos(env, clock, g), timeout


def record(env, names):
    if not env.symbolic:
        return
    import z3
    env.invariant('changed is marked', ['g.changed'] + [f'node.inputs.{n}._updated' for n in names], lambda c, *u: c == z3.Or(u))
    env.invariant('the name is recorded', ['g.name', 'node.inputs.service_name._value'],
                  lambda a, b: a == b if a.sort() == b.sort() else None)
    env.invariant('the client is for the name', ['g.changed', 'g.client', 'g.name'],
                  lambda c, a, b: z3.Or(c, a == b) if a.sort() == b.sort() else None)


def setter(env, g, node, names):
    def new(which, first=False):
        v = env.token('name', ('a', 'b')) if which == 'service_name' else env.int('value', small=(0, 2))
        if which == 'service_name':
            g.changed = env.or_(g.changed, g.name != v)
            g.name = v
        else:
            g.changed = env.or_(g.changed, g.value != v)
            g.value = v
        give_container(env, node.node_config.inputs[which], v, first)
    return new


def service(env, static):
    g, clock, node, ros, timeout = begin(env, Service, 'wait_for_response_seconds')
    names = ('service_name', 'a')
    new = setter(env, g, node, names)
    if static:
        for n in names:
            new(n, True)
    else:
        for n in names:
            node.node_config.inputs[n].is_static = False
    env.track_node('node', node)
    any_updated_contract(env, node)
    record(env, names)
    output = node.node_config.outputs['sum']
    env.check(node.setup().is_err(), 'without a ROS node the setup fails')
    node.state = 'UNINITIALIZED'
    node.ros_node = ros

    def setup():
        r = node.setup()
        env.check(r.is_ok() and node.state == 'IDLE', 'the setup leaves the node idle')
        if not static:
            for n in names:
                new(n, True)
        g.changed, g.on = True, False

    def given_up(what):
        env.check(g.fut != 'pending', f'{what} cancels a call that is pending')
        g.on = False

    def failed(r):
        if g.stuck:
            env.check(r.is_err(), 'a client that cannot be released is reported')
            env.cover('not released')
        return g.stuck

    def tick():
        pre, fut = node.state, g.fut
        g.sent = 0
        lo = clock.now().nanoseconds
        r = node.tick()
        hi = clock.t
        if failed(r):
            return False
        if g.changed or pre == 'IDLE':
            env.check(g.sent == 1, 'new inputs and the first tick of an activation send one request')
            env.check(r.is_ok() and r.ok() == 'RUNNING', 'RUNNING when the request was sent')
            g.on, g.a, g.b = True, lo, hi
            env.cover('sent')
        else:
            env.check(g.sent == 0, 'otherwise no request is sent')
            if not g.on:
                env.check(r.is_ok() and r.ok() == pre, 'the outcome of the call is reported until there is a new one')
                env.cover('kept')
            elif fut == 'nothing':
                env.check(r.is_err(), 'a call that ended without a response is an error')
                env.cover('nothing')
                return False
            elif fut == 'done':
                env.check(r.is_ok() and r.ok() == 'SUCCEEDED', 'SUCCEEDED when the response is there')
                out = output.get_value()
                env.check(out.is_ok() and out.ok() == g.resp, 'the output is the response')
                g.on = False
                env.cover('response')
            elif fut == 'dropped':
                env.check(r.is_ok() and r.ok() == 'FAILED', 'FAILED when the call was cancelled')
                g.on = False
                env.cover('dropped')
            elif g.fut == 'pending':
                env.check(r.is_ok() and r.ok() == 'RUNNING', 'RUNNING while the call is pending')
                env.check((lo - g.b) / 1e9 <= timeout, 'a call is pending no longer than its timeout')
                env.cover('pending')
            else:
                env.check(r.is_ok() and r.ok() == 'FAILED', 'FAILED when the call is given up')
                env.check((hi - g.a) / 1e9 > timeout, 'a call is given up only after its timeout')
                g.on = False
                env.cover('timeout')
        g.changed = False
        env.check(r.ok() == node.state, 'a tick returns the state of the node')
        return True
    setup()
    for _ in env.rounds('r'):
        op = env.choice('op', OPS)
        if op == 'tick':
            if not tick():
                return
        elif op == 'answer':
            if g.fut == 'pending':
                g.fut = env.choice('answer', ('done', 'nothing', 'dropped'))
                g.resp = env.int('response', -2**63, 2**63 - 1, small=(0, 2))
            elif g.fut == 'gone':
                g.fut = 'late'
        elif op == 'input':
            if not static:
                new(env.choice('which', names))
        elif op == 'untick':
            r = node.untick()
            env.check(r.is_ok() and node.state == 'IDLE', 'an untick leaves the node idle')
            given_up('an untick')
        elif op == 'reset':
            r = node.reset()
            if failed(r):
                return
            env.check(r.is_ok() and node.state == 'IDLE', 'a reset leaves the node idle')
            given_up('a reset')
            g.changed = True
        else:
            r = node.shutdown()
            if failed(r):
                return
            env.check(r.is_ok() and node.state == 'SHUTDOWN', 'a shutdown leaves the node shut down')
            env.check(not g.live, 'a shutdown releases the client')
            given_up('a shutdown')
            setup()
        output.reset_value()     # whoever reads it has read it


def waiting(env, static):
    g, clock, node, ros, timeout = begin(env, WaitForService, 'wait_for_service_seconds')
    new = setter(env, g, node, ('service_name',))
    if static:
        new('service_name', True)
    else:
        node.node_config.inputs['service_name'].is_static = False
    env.track_node('node', node)
    any_updated_contract(env, node)
    record(env, ('service_name',))
    env.check(node.setup().is_err(), 'without a ROS node the setup fails')
    node.state = 'UNINITIALIZED'
    node.ros_node = ros

    def setup():
        r = node.setup()
        env.check(r.is_ok() and node.state == 'IDLE', 'the setup leaves the node idle')
        if not static:
            new('service_name', True)
        g.changed, g.on = True, False

    def failed(r):
        if g.stuck:
            env.check(r.is_err(), 'a client that cannot be released is reported')
        return g.stuck
    setup()
    for _ in env.rounds('r'):
        op = env.choice('op', OPS)
        if op == 'tick':
            if g.changed:
                g.on = False
            g.asked = False
            lo = clock.now().nanoseconds
            r = node.tick()
            hi = clock.t
            if failed(r):
                return
            g.changed = False
            env.check(r.is_ok() and r.ok() == node.state, 'a tick returns the state of the node')
            env.check(g.asked, 'a tick asks whether the service is available')
            if g.ready:
                env.check(r.ok() == 'SUCCEEDED', 'SUCCEEDED when the service is available')
            else:
                if not g.on:
                    g.on, g.a, g.b = True, lo, hi
                if r.ok() == 'FAILED':
                    env.check((hi - g.a) / 1e9 > timeout, 'FAILED only when the timeout has passed since the node started to wait')
                else:
                    env.check(r.ok() == 'RUNNING', 'RUNNING while the node waits')
                    env.check((lo - g.b) / 1e9 <= timeout, 'RUNNING only until the timeout has passed')
            env.cover(r.ok())
        elif op == 'input':
            if not static:
                new('service_name')
        elif op == 'untick':
            r = node.untick()
            env.check(r.is_ok() and node.state == 'IDLE', 'an untick leaves the node idle')
            g.on = False
        elif op == 'reset':
            r = node.reset()
            if failed(r):
                return
            env.check(r.is_ok() and node.state == 'IDLE', 'a reset leaves the node idle')
            g.changed, g.on = True, False
        elif op == 'restart':
            r = node.shutdown()
            if failed(r):
                return
            env.check(r.is_ok() and node.state == 'SHUTDOWN', 'a shutdown leaves the node shut down')
            env.check(not g.live, 'a shutdown releases the client')
            setup()


def unused(env):
    cls, name = env.choice('class', ((Service, 'wait_for_response_seconds'), (WaitForService, 'wait_for_service_seconds')))
    g, clock, node, ros, timeout = begin(env, cls, name)
    if env.bool('ros'):
        node.ros_node = ros
    r = node.shutdown()
    env.check(r.is_ok() and node.state == 'SHUTDOWN', 'a node that was never set up can be shut down')


HARNESSES = [
    {'name': 'service, wired', 'run': lambda env: service(env, False)},
    {'name': 'service', 'run': lambda env: service(env, True)},
    {'name': 'wait-for-service, wired', 'run': lambda env: waiting(env, False)},
    {'name': 'wait-for-service', 'run': lambda env: waiting(env, True)},
    {'name': 'any-updated', 'run': any_updated},
    {'name': 'unused', 'run': unused},
]
