"""Harness for decorators: at most one child, a client that may tick, untick, reset and restart the node at will."""
from specs.world import World, give


def decorator(env, cls, children, plan, empty='SUCCEEDED', paused=False, errors=True, inputs=(), before=None,
              child_reset=None, utility=(True,), pre_untick=None, after=None, small_n=3):
    """plan(g, out) -> (result of the tick, number of resets of the child) for a child that answered `out`.

    before(env, g, node) -> is the child ticked at all; gives the per-tick inputs.
    child_reset(g): does a reset reach the child; after(g, op): bookkeeping after setup/reset/untick.
    """
    g = env.ghost('g', kt=0, ku=0, kr=0, ks=0, kd=0, ord=0, err=False, out='', c=0, N=0, sure=True, fresh=True, live=True)

    def monitor(op, i, out):
        if op == 'utility':
            g.live = out is True
            if out == 'ERR':
                g.err = True
            return
        env.check(not g.err or op == 'shutdown', 'the child is left alone after an error')
        if op == 'tick':
            g.kt = g.kt + 1
            g.out = out
        elif op == 'untick':
            env.check(g.kt == 0, 'the child is unticked only before it is ticked')
            g.ku = g.ku + 1
        elif op == 'reset':
            g.kr = g.kr + 1
        elif op == 'setup':
            g.ks = g.ks + 1
        else:
            g.kd = g.kd + 1
        if out == 'ERR':
            g.err = True
    w = World(env, 'w', start='UNINITIALIZED', n=children, monitor=monitor, utility=utility,
              errors=('setup', 'tick', 'untick', 'reset') if errors else ())
    node = cls()
    w.attach(node)
    for name, lo in inputs:
        v = env.const('N', env.int('N', lo, None, small=(lo, small_n)))
        give(env, node, name, v)
        g.N = v
    env.track_node('node', node)
    if pre_untick:
        env.generalize('fresh')
        env.invariant('fresh is marked', ['g.fresh', 'node.inputs.watch._updated'], lambda a, b: a == b)

    def clear():
        g.kt, g.ku, g.kr, g.ks, g.kd, g.out = 0, 0, 0, 0, 0, ''

    def setup():
        g.live = True
        r = node.setup()
        if g.err:
            env.check(r.is_err(), 'an error of the child makes the setup an error')
            return False
        env.check(r.is_ok() and node.state == 'IDLE', 'the setup leaves the node idle')
        if children:
            env.check(g.ks == (1 if g.live else 0) and g.kt == 0 and g.ku == 0 and g.kr == 0,
                      'the setup sets the child up once')
        g.c, g.sure, g.fresh = 0, True, True
        clear()
        return True
    if not setup():
        return
    for _ in env.rounds('r', 5):
        if g.sure:
            op = env.choice('op', ['tick', 'untick', 'reset', 'restart'])
        else:
            op = env.choice('op2', ['reset', 'restart'])
        if op == 'tick':
            ticks = before(env, g, node) if before else True
            r = node.tick()
            if g.err:
                env.check(r.is_err(), 'an error of the child makes the tick an error')
                env.check(node.state == 'BROKEN', 'an error of the child breaks the node')
                env.cover('child error')
                return
            env.check(r.is_ok() and r.ok() == node.state, 'a tick without an error of the child returns the state of the node')
            if not children:
                env.check(r.ok() == empty, f'without a child the result is {empty}')
            elif not ticks or not g.live:
                env.check(r.ok() == 'SUCCEEDED', 'the result is SUCCEEDED when the child is not to be ticked')
                env.check(g.kt == 0 and g.ku == 0 and g.kr == 0, 'a child that is not to be ticked is left alone')
            else:
                env.check(g.kt == 1, 'the child is ticked exactly once')
                env.check(g.ku == ((1 if g.fresh else 0) if pre_untick else 0), 'the child is unticked before a tick only where documented')
                want, resets = plan(g, g.out)
                env.check(r.ok() == want, 'the result is the documented one for the result of the child')
                env.check(g.kr == resets, 'the child is reset exactly when it is repeated')
                env.cover(f'tick {g.out} -> {want}')
            g.fresh = False
        elif op == 'untick':
            r = node.untick()
            if g.err:
                env.check(r.is_err(), 'an error of the child makes the untick an error')
                return
            env.check(r.is_ok() and node.state == ('PAUSED' if paused else 'IDLE'),
                      'an untick leaves the node ' + ('paused' if paused else 'idle'))
            if children:
                env.check(g.ku == (1 if g.live else 0) and g.kt == 0 and g.kr == 0, 'an untick unticks the child once')
        elif op == 'reset':
            expected = (child_reset(g) if child_reset else True) and g.live
            r = node.reset()
            if g.err:
                env.check(r.is_err(), 'an error of the child makes the reset an error')
                return
            env.check(r.is_ok() and node.state == 'IDLE', 'a reset leaves the node idle')
            if children:
                env.check(g.kr == (1 if expected else 0) and g.kt == 0 and g.ku == 0, 'a reset resets the child once')
            if not child_reset:
                g.c = 0
            g.sure, g.fresh = True, True
        else:
            r = node.shutdown()
            env.check(r.is_ok() and node.state == 'SHUTDOWN', 'a shutdown leaves the node shut down')
            if children:
                env.check(g.kd == 1, 'a shutdown shuts the child down once')
            clear()
            if not setup():
                return
        clear()


def mapping(**m):
    return lambda g, out: (m.get(out, out), 0)


def until_success(g, out):
    return ('RUNNING', 1) if out == 'FAILED' else (out, 0)


def until_fail(g, out):
    return ('RUNNING', 1) if out == 'SUCCEEDED' else (out, 0)


def always(g, out):
    return 'RUNNING', (0 if out == 'RUNNING' else 1)


def retry(g, out):
    if out == 'FAILED':
        if g.c < g.N:
            g.c = g.c + 1
            return 'RUNNING', 1
        g.c = 0
        return 'FAILED', 0
    if out == 'SUCCEEDED':
        g.sure = False
    return out, 0


def repeat(g, out):
    if out == 'SUCCEEDED':
        if g.c < g.N:
            g.c = g.c + 1
            return 'RUNNING', 1
        g.sure = False
        return 'SUCCEEDED', 0
    if out == 'FAILED':
        g.sure = False
    return out, 0


def repeat_no_reset(g, out):
    if out == 'SUCCEEDED':
        g.c = g.c + 1
        return 'RUNNING', 1
    return out, 0


def no_reset_before(env, g, node):
    v = env.choice('reset input', [False, True])
    give(env, node, 'reset', v)
    if v:
        g.c = 0
    return True if g.c < g.N else False


def watch_before(env, g, node):
    if env.choice('new text', [False, True]):
        give(env, node, 'watch', env.choice('text', ['a', 'b']))
        node.node_config.inputs['watch'].flag_updated()
        g.fresh = True
    elif not node.node_config.inputs['watch'].has_value():
        give(env, node, 'watch', 'a')
        g.fresh = True
    return True
