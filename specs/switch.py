"""Harness for the switch nodes."""
from specs.flow import TERMINAL, setup
from specs.world import World, give


def switch(env, make, feed, key, names, errors=False):
    """feed(env, node, w) -> index of the selected child or None; sets the inputs of one tick.

    key: the part of a child's name that selects it (unique among the children)."""
    g = env.ghost('g', kt=0, ku=0, kr=0, ks=0, nt=0, sel=-1, last='', err=False)

    env.pivot('g.sel')

    def monitor(op, i, out):
        env.check(not g.err, 'no child is touched after a child reported an error')
        if op == 'tick':
            env.check(i == g.sel, 'only the selected child is ticked')
            g.nt = g.nt + 1
            g.last = out
            if i == k:
                g.kt = g.kt + 1
        elif op == 'untick':
            if i == k:
                g.ku = g.ku + 1
        elif op == 'reset':
            if i == k:
                g.kr = g.kr + 1
        elif op == 'setup':
            if i == k:
                g.ks = g.ks + 1
        else:
            env.fail('only setup, tick, untick and reset reach the children')
        if out == 'ERR':
            g.err = True
    w = World(env, 'w', start='UNINITIALIZED', monitor=monitor, names=names,
              errors=('setup', 'tick', 'untick', 'reset') if errors else ())
    w.distinct(env, key)
    k = env.arbitrary('k', w.n)
    node = make()
    w.attach(node)
    env.track_node('node', node)
    if not setup(env, g, w, k, node):
        return
    for _ in env.rounds('r'):
        op = env.choice('op', ['tick', 'untick', 'reset'])
        prev = node.state
        if op == 'tick':
            sel = feed(env, node, w)
            g.sel = -1 if sel is None else sel
            r = node.tick()
            if g.err:
                env.check(r.is_err(), 'an error of a child makes the tick an error')
                env.check(node.state == 'BROKEN', 'an error of a child breaks the node')
                return
            env.check(r.is_ok() and r.ok() == node.state, 'a tick without child errors returns the state of the node')
            if sel is None:
                env.check(r.ok() == 'FAILED', 'without a selected child the result is FAILED')
                env.check(g.kt == 0, 'without a selected child none is ticked')
                env.cover('none selected')
            else:
                env.check(g.nt == 1, 'the selected child is ticked exactly once')
                env.check(r.ok() == g.last, 'the result is that of the selected child')
                env.check(g.ku == env.ite(k == sel, 0, 1), 'every other child is unticked once')
                env.check(g.kr == (1 if prev in TERMINAL else 0),
                          'children are reset exactly when the node had reached a result before')
                env.cover('tick ' + r.ok())
        elif op == 'untick':
            r = node.untick()
            if g.err:
                env.check(r.is_err(), 'an error of a child makes the untick an error')
                return
            env.check(r.is_ok() and node.state == 'IDLE', 'an untick leaves the node idle')
            if w.n > 0:
                env.check(g.ku == 1 and g.kt == 0 and g.kr == 0, 'an untick unticks every child once')
        else:
            r = node.reset()
            if g.err:
                env.check(r.is_err(), 'an error of a child makes the reset an error')
                return
            env.check(r.is_ok() and node.state == 'IDLE', 'a reset leaves the node idle')
            if w.n > 0:
                env.check(g.kr == 1 and g.kt == 0 and g.ku == 0, 'a reset resets every child once')
        g.kt, g.ku, g.kr, g.nt, g.sel, g.last = 0, 0, 0, 0, -1, ''


def by_name(env, node, w):
    if w.n > 0 and env.choice('match', [True, False]):
        s = env.index('sel', w.n)
        give(env, node, 'name', w.name(s))
        return s
    other = env.token('other', ('c0', 'zz', '', 'c9'))
    env.for_all(w.n, lambda i: env.not_(w.name(i) == other))
    give(env, node, 'name', other)
    return None


def last_part(s):
    return s.split('.')[-1]


def by_enum(options):
    """options: {field: value} of the message type, plus a value that is none of them"""
    def feed(env, node, w):
        field = env.choice('field', list(options) + [None])
        if field is None:
            give(env, node, 'case', env.choice('bogus', [v for v in bogus(options)]))
            return None
        give(env, node, 'case', options[field])
        if w.n > 0 and env.choice('match', [True, False]):
            s = env.index('sel', w.n)
            env.assume(last_part(w.name(s)) == field)
            return s
        env.for_all(w.n, lambda i: env.not_(last_part(w.name(i)) == field))
        return None
    return feed


def bogus(options):
    v = next(iter(options.values()))
    return ['no such value', ''] if isinstance(v, str) else [97, -1]
