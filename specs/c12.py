"""C12: action nodes over every sequence of ticks, unticks, resets, restarts, changed inputs and answers of the server."""
from ros_bt_py.data_types import FloatType, RosActionType
from ros_bt_py.ros_nodes import action as A
from specs.action import SUCCEEDED, ActionRos, ActionType, FeedbackMessage
from specs.clock import Clock
from specs.execution import patch
from specs.ros import any_updated, any_updated_contract, give_container

SECONDS = (0.0, 0.5, 1.0, 2.0, -1.0)
OPS = ('tick', 'answer', 'input', 'untick', 'reset', 'restart')


def begin(env):
    g = env.ghost('g', live=False, made=0, name='', client='', changed=True, value=0, goals=0, now='', resp=0, status=0,
                  a=0, b=0, again=False, due=False, stopping=False, timeout=0.0, seen=0, new=False)
    env.generalize('changed', 'again')
    clock = Clock(env)
    t = RosActionType(interface_id=1)
    env.assume(t.set_value(ActionType).is_ok())
    g.timeout = env.real('timeout', SECONDS)
    f = FloatType(allow_dynamic=False)
    give_container(env, f, g.timeout, True)
    ros = ActionRos(env, clock, g)
    patch(env, A, 'ActionClient', ros.make)
    return g, clock, A.Action(new_inputs={'action_type': t, 'timeout_seconds': f}), ros


def record(env):
    if not env.symbolic:
        return
    import z3
    env.invariant('changed is marked', ['g.changed', 'node.inputs.action_name._updated', 'node.inputs.a._updated'],
                  lambda c, *u: c == z3.Or(u))
    env.invariant('the name is recorded', ['g.name', 'node.inputs.action_name._value'],
                  lambda a, b: a == b if a.sort() == b.sort() else None)
    env.invariant('the client is for the name', ['g.client', 'node._client_action_name'],
                  lambda a, b: a == b if a.sort() == b.sort() else None)
    env.invariant('a new goal waits', ['g.again'], lambda a: a)
    env.invariant('the goal is up to date', ['g.changed', 'node._input_goal', 'g.value'], lambda c, a, b: z3.Or(c, a == b))


def record_time(env):
    if not env.symbolic:
        return
    import z3

    def late(t, a, s):
        return z3.ToReal(t - a) / z3.RealVal(10**9) > s
    env.invariant('time is up', ['clock.t', 'g.a', 'g.timeout'], late)
    env.invariant('time is up or a new goal waits', ['clock.t', 'g.a', 'g.timeout', 'g.again'],
                  lambda t, a, s, n: z3.Or(n, late(t, a, s)))


def action(env, static):
    g, clock, node, ros = begin(env)
    names = ('action_name', 'a')

    def new(which, first=False):
        v = env.token('name', ('a', 'b')) if which == 'action_name' else env.int('value', small=(0, 2))
        if which == 'action_name':
            g.changed = env.or_(g.changed, g.name != v)
            g.name = v
        else:
            g.changed = env.or_(g.changed, g.value != v)
            g.value = v
        give_container(env, node.node_config.inputs[which], v, first)
    if static:
        for n in names:
            new(n, True)
    else:
        for n in names:
            node.node_config.inputs[n].is_static = False
    env.track_node('node', node)
    any_updated_contract(env, node)
    record(env)
    record_time(env)
    output = node.node_config.outputs['result.x']
    env.check(node.setup().is_err(), 'without a ROS node the setup fails')
    node.state = 'UNINITIALIZED'
    node.ros_node = ros

    def setup():
        r = node.setup()
        env.check(r.is_ok() and node.state == 'IDLE', 'the setup leaves the node idle')
        if not static:
            for n in names:
                new(n, True)
        g.changed, g.again, g.due, g.now = True, False, False, ''

    def stop(op, what):
        pre = g.now
        g.stopping = True
        r = op()
        g.stopping = False
        if pre in ('asked', 'accepted', 'running'):
            env.check(g.now in ('cancelling', 'rejected', 'none', 'lost'), f'{what} cancels the goal')
            env.cover('given up ' + pre)
        g.now, g.again, g.due = '', False, False
        return r

    def tick():
        pre, state, due, goals = g.now, node.state, g.due, g.goals
        if pre != '':
            g.again = env.or_(g.again, g.changed)
        lo = clock.now().nanoseconds
        r = node.tick()
        hi = clock.t
        env.check(r.is_ok() and r.ok() == node.state, 'a tick returns the state of the node')
        out = r.ok()
        g.changed = False
        if g.goals > goals:
            env.check(g.goals == goals + 1 and out == 'RUNNING', 'RUNNING when a goal was sent')
            env.check(env.implies(pre == 'over', g.again), 'after an end a goal is sent only when the inputs changed')
            g.again = False
            env.cover('sent')
        elif pre == '':
            env.check(False, 'the first tick of an activation and the second one after a changed input send a goal')
        elif pre == 'over':
            if g.again:
                env.check(out == 'RUNNING', 'RUNNING when a new goal is to be sent')
                g.now, g.again = '', False
            else:
                env.check(out == state, 'the outcome is reported until the inputs change')
                env.cover('kept')
        elif pre == 'asked' or pre == 'cancelling':
            env.check(out == 'RUNNING', 'RUNNING until the server answers')
            env.check(g.now == pre, 'nothing is asked of the server while it has to answer')
        elif pre == 'accepted':
            env.check(out == 'RUNNING', 'RUNNING when the goal was accepted')
            env.check(g.now == 'cancelling' or g.now == 'running', 'the result is asked for')
            if g.now == 'running':
                env.check(env.not_(g.again), 'a goal is cancelled when the inputs changed')
                g.a, g.b = lo, hi
            else:
                env.cover('cancelled at once')
        elif pre in ('rejected', 'none', 'lost'):
            env.check(env.or_(out == 'FAILED', env.and_(g.again, out == 'RUNNING')), 'FAILED when the goal was not accepted')
            g.now = 'over'
            env.cover(pre)
        elif pre in ('running', 'done', 'nothing', 'dropped'):
            g.due = False
            if g.now == 'cancelling':
                env.check(out == 'RUNNING', 'RUNNING while the goal is cancelled')
                env.cover('cancelled')
            elif pre == 'running':
                env.check(out == 'RUNNING', 'RUNNING while the goal is')
                env.check(env.not_(g.again), 'a goal is cancelled when the inputs changed')
                env.check(not due, 'a goal is cancelled in the tick after its time was up')
                if (lo - g.b) / 1e9 > g.timeout:
                    g.due = True
                    env.cover('time is up')
            else:
                if pre == 'done':
                    env.check(out == ('SUCCEEDED' if g.status == SUCCEEDED else 'FAILED'), 'the outcome is that of the goal')
                    x = output.get_value()
                    env.check(x.is_ok() and x.ok() == g.resp, 'the output is the result')
                else:
                    env.check(out == 'FAILED', 'FAILED when there is no result')
                g.now = 'over'
                env.cover(pre)
        else:
            env.check(env.or_(out == 'FAILED', env.and_(g.again, out == 'RUNNING')), 'FAILED or a new goal after a cancellation')
            g.now = 'over'
            env.cover(pre)
    setup()
    for _ in env.rounds('r'):
        op = env.choice('op', OPS)
        if op == 'tick':
            tick()
        elif op == 'answer':
            ros.answer()
        elif op == 'input':
            if not static:
                new(env.choice('which', names))
        elif op == 'untick':
            r = stop(node.untick, 'an untick')
            env.check(r.is_ok() and node.state == 'IDLE', 'an untick leaves the node idle')
        elif op == 'reset':
            r = stop(node.reset, 'a reset')
            env.check(r.is_ok() and node.state == 'IDLE', 'a reset leaves the node idle')
            env.check(not g.live, 'a reset releases the client')
            g.changed = True
        else:
            r = stop(node.shutdown, 'a shutdown')
            env.check(r.is_ok() and node.state == 'SHUTDOWN', 'a shutdown leaves the node shut down')
            env.check(not g.live, 'a shutdown releases the client')
            setup()
        output.reset_value()     # whoever reads it has read it


def feedback(env):
    """The feedback outputs follow what the server reported last."""
    g, clock, node, ros = begin(env)
    env.assume(node.node_config.inputs['action_name'].set_value('a').is_ok())
    env.assume(node.node_config.inputs['a'].set_value(1).is_ok())
    g.name, g.value, node.ros_node, ros._vc_listen = 'a', 1, ros, True
    env.check('feedback.y' in node.node_config.outputs, 'every field of the feedback has an output')
    output = node.node_config.outputs['feedback.y']
    env.track_node('node', node)
    any_updated_contract(env, node)
    record_time(env)
    env.check(node.setup().is_ok() and node.tick().is_ok(), 'the goal is sent')
    ros._vc_listen = False
    for _ in env.rounds('r'):
        op = env.choice('op', ('tick', 'answer', 'feedback'))
        if op == 'tick':
            now, lo = g.now, clock.now().nanoseconds
            r = node.tick()
            env.check(r.is_ok() and r.ok() == node.state, 'a tick returns the state of the node')
            if g.new and now == 'running' and r.ok() == 'RUNNING' and g.now == 'running':
                y = output.get_value()
                if (clock.t - g.a) / 1e9 <= g.timeout:
                    env.check(y.is_ok() and y.ok() == g.seen, 'the latest feedback is output')
                    env.cover('feedback')
                g.new = False
            if now == 'accepted':
                g.a = lo
            if g.now not in ('running', 'asked', 'accepted'):
                return
        elif op == 'answer':
            ros.answer()
        elif g.now == 'running':
            g.seen = env.int('progress', -2**63, 2**63 - 1, small=(0, 2))
            ros._vc_feedback(FeedbackMessage(g.seen))
            g.new = True
        output.reset_value()


def unused(env):
    g, clock, node, ros = begin(env)
    if env.bool('ros'):
        node.ros_node = ros
    r = node.shutdown()
    env.check(r.is_ok() and node.state == 'SHUTDOWN', 'a node that was never set up can be shut down')


HARNESSES = [
    {'name': 'action, wired', 'prove_s': 300, 'run': lambda env: action(env, False)},
    {'name': 'action', 'prove_s': 200, 'run': lambda env: action(env, True)},
    {'name': 'feedback', 'run': feedback},
    {'name': 'any-updated', 'run': any_updated},
    {'name': 'unused', 'run': unused},
]
