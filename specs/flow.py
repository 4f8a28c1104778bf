"""Harnesses for the flow-control nodes: one client that may tick, untick and reset the node any number of times."""
from specs.world import World, give

TERMINAL = ('SUCCEEDED', 'FAILED')


def ordered(env, cls, good, memory=None, errors=False):
    """Sequence-like nodes. good: result that lets the next child run. memory: None, 'untick-clears', 'untick-keeps'."""
    bad = 'FAILED' if good == 'SUCCEEDED' else 'SUCCEEDED'
    g = env.ghost('g', next=0, last_ok=True, kt=0, ku=0, kr=0, ks=0, start=0, err=False, last=good)

    def monitor(op, i, out):
        env.check(not g.err, 'no child is touched after a child reported an error')
        if op == 'tick':
            env.check(i == g.next, 'children are ticked left to right, starting where the node resumes')
            env.check(g.last_ok, f'no child is ticked in the same tick after one that did not return {good}')
            g.next = i + 1
            g.last_ok = out == good
            g.last = out
            if i == k:
                g.kt = g.kt + 1
        elif op == 'untick':
            if i == k:
                g.ku = g.ku + 1
        elif op == 'reset':
            if i == k:
                g.kr = g.kr + 1
        elif op == 'setup':
            if i == k:
                g.ks = g.ks + 1
        else:
            env.fail('only setup, tick, untick and reset reach the children')
        if out == 'ERR':
            g.err = True
    w = World(env, 'w', start='UNINITIALIZED', monitor=monitor,
              errors=('setup', 'tick', 'untick', 'reset') if errors else ())
    k = env.arbitrary('k', w.n)
    node = cls()
    w.attach(node)
    env.track_node('node', node)
    if not setup(env, g, w, k, node):
        return
    for _ in env.rounds('r'):
        op = env.choice('op', ['tick', 'untick', 'reset'])
        g.last_ok, g.last, g.kt, g.ku, g.kr = True, good, 0, 0, 0
        prev = node.state
        if op == 'tick':
            if memory and prev in TERMINAL:
                g.start = 0
            g.next = g.start
            r = node.tick()
            if g.err:
                env.check(r.is_err(), 'an error of a child makes the tick an error')
                env.check(node.state == 'BROKEN', 'an error of a child breaks the node')
                env.cover('child error')
                return
            env.check(r.is_ok(), 'a tick without child errors succeeds')
            env.check(r.ok() == node.state, 'the tick returns the state the node is in')
            if w.n == 0:
                env.check(r.ok() == good, f'without children the result is {good}')
            else:
                env.check(r.ok() == g.last, 'the result is that of the last child ticked')
                env.check(g.next > g.start, 'at least one child is ticked')
                if g.last == good:
                    env.check(g.next == w.n, f'{good} only after the last child returned it')
                env.check(g.kt == env.ite(env.and_(k >= g.start, k < g.next), 1, 0),
                          'every child up to the last one ticked is ticked exactly once')
                env.check(g.ku == env.ite(env.and_(k >= g.next, g.last == bad), 1, 0),
                          f'after {bad} the later children are unticked once each, otherwise none is')
                env.check(g.kr == (1 if prev in TERMINAL else 0),
                          'children are reset exactly when the node had reached a result before')
                if memory:
                    if g.last == 'RUNNING':
                        g.start = g.next - 1
                    else:
                        g.start = 0
            env.cover('tick ' + r.ok())
        elif op == 'untick':
            r = node.untick()
            if g.err:
                env.check(r.is_err(), 'an error of a child makes the untick an error')
                return
            env.check(r.is_ok() and node.state == 'IDLE', 'an untick leaves the node idle')
            if w.n > 0:
                env.check(g.ku == 1 and g.kt == 0 and g.kr == 0, 'an untick unticks every child once')
                env.check(w.state(k) == 'IDLE', 'an untick leaves every child idle')
            if memory == 'untick-clears':
                g.start = 0
        else:
            r = node.reset()
            if g.err:
                env.check(r.is_err(), 'an error of a child makes the reset an error')
                return
            env.check(r.is_ok() and node.state == 'IDLE', 'a reset leaves the node idle')
            if w.n > 0:
                env.check(g.kr == 1 and g.kt == 0 and g.ku == 0, 'a reset resets every child once')
                env.check(w.state(k) == 'IDLE', 'a reset leaves every child idle')
            g.start = 0
        g.next, g.last_ok, g.last, g.kt, g.ku, g.kr = 0, True, good, 0, 0, 0


def setup(env, g, w, k, node):
    """Set the node up; False when a child refused."""
    r = node.setup()
    if g.err:
        env.check(r.is_err(), 'an error of a child makes the setup an error')
        return False
    env.check(r.is_ok() and node.state == 'IDLE', 'the setup leaves the node idle')
    if w.n > 0:
        env.check(g.ks == 1 and g.kt == 0 and g.ku == 0 and g.kr == 0, 'the setup sets every child up once')
        env.check(w.state(k) == 'IDLE', 'the setup leaves every child idle')
    g.ks = 0
    return True


def parallel(env, cls, tolerance, errors=False, default_needed=False, default_tol=False):
    """The cases in which a threshold equals the default of its input are separate harnesses (they run in parallel)."""
    g = env.ghost('g', ts=0, tf=0, kt=0, ku=0, kr=0, ks=0, err=False)

    def monitor(op, i, out):
        env.check(not g.err, 'no child is touched after a child reported an error')
        if op == 'tick':
            if out == 'SUCCEEDED':
                g.ts = g.ts + 1
            elif out == 'FAILED':
                g.tf = g.tf + 1
            if i == k:
                g.kt = g.kt + 1
        elif op == 'untick':
            if i == k:
                g.ku = g.ku + 1
        elif op == 'reset':
            if i == k:
                g.kr = g.kr + 1
        elif op == 'setup':
            if i == k:
                g.ks = g.ks + 1
        else:
            env.fail('only setup, tick, untick and reset reach the children')
        if out == 'ERR':
            g.err = True
    w = World(env, 'w', start='UNINITIALIZED', lo=1, monitor=monitor, groups={'result': TERMINAL},
              errors=('setup', 'tick', 'untick', 'reset') if errors else ())
    k = env.arbitrary('k', w.n)
    node = cls()
    w.attach(node)
    needed = env.const('needed', 1 if default_needed else env.int('needed', 2, None, small=(2, 3)))
    give(env, node, 'needed_successes', needed)
    if tolerance:
        tol = 0 if default_tol else env.int('tol', 1, None, small=(1, 2))
        give(env, node, 'tolerate_failures', tol)
    env.track_node('node', node)
    if needed > w.n:
        r = node.setup()
        env.check(r.is_err(), 'a threshold above the number of children is refused at setup')
        return
    if not setup(env, g, w, k, node):
        return
    for _ in env.rounds('r'):
        op = env.choice('op', ['tick', 'untick', 'reset'])
        prev = node.state
        if op == 'tick':
            fresh = prev in TERMINAL
            ps = 0 if fresh else env.count('preS', w.n, lambda i: w.is_state(i, ('SUCCEEDED',)))
            pf = 0 if fresh else env.count('preF', w.n, lambda i: w.is_state(i, ('FAILED',)))
            kpre = False if fresh else w.is_state(k, TERMINAL)
            r = node.tick()
            if g.err:
                env.check(r.is_err(), 'an error of a child makes the tick an error')
                env.check(node.state == 'BROKEN', 'an error of a child breaks the node')
                return
            env.check(r.is_ok(), 'a tick without child errors succeeds')
            env.check(r.ok() == node.state, 'the tick returns the state the node is in')
            s, f = ps + g.ts, pf + g.tf
            enough = s >= needed
            toomany = (f > tol) if tolerance else (f > w.n - needed)
            if r.ok() == 'SUCCEEDED':
                env.check(enough, 'SUCCEEDED only with enough successful children')
            elif r.ok() == 'FAILED':
                env.check(env.and_(env.not_(enough), toomany), 'FAILED only with too many failed children')
            else:
                env.check(r.ok() == 'RUNNING', 'the result is one of RUNNING, SUCCEEDED and FAILED')
                env.check(env.and_(env.not_(enough), env.not_(toomany)), 'RUNNING only while undecided')
            env.check(g.kt == env.ite(kpre, 0, 1),
                      'a child is ticked once unless it already has a result')
            env.check(g.kr == (1 if fresh else 0), 'children are reset exactly when the node had reached a result before')
            if r.ok() == 'RUNNING':
                env.check(g.ku == 0, 'no child is unticked while the node runs')
            else:
                env.check(env.not_(w.is_state(k, ('RUNNING',))), 'no child is left running once the node has a result')
                env.check(env.or_(env.not_(kpre), g.ku == 0), 'a child that had its result before is not unticked')
            env.cover('tick ' + r.ok())
        elif op == 'untick':
            r = node.untick()
            if g.err:
                env.check(r.is_err(), 'an error of a child makes the untick an error')
                return
            env.check(r.is_ok() and node.state == 'IDLE', 'an untick leaves the node idle')
            env.check(g.ku == 1 and g.kt == 0 and g.kr == 0, 'an untick unticks every child once')
            env.check(w.state(k) == 'IDLE', 'an untick leaves every child idle')
        else:
            r = node.reset()
            if g.err:
                env.check(r.is_err(), 'an error of a child makes the reset an error')
                return
            env.check(r.is_ok() and node.state == 'IDLE', 'a reset leaves the node idle')
            env.check(g.kr == 1 and g.kt == 0 and g.ku == 0, 'a reset resets every child once')
            env.check(w.state(k) == 'IDLE', 'a reset leaves every child idle')
        g.ts, g.tf, g.kt, g.ku, g.kr = 0, 0, 0, 0, 0
