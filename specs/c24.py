"""C24: what a tick thread does: once, until a result, or periodically, for any number of ticks."""
from ros_bt_py_interfaces.msg import TreeState
from specs.execution import ALL, manager


def run(env):
    mode = env.choice('mode', ('once', 'result', 'periodic'))
    nodes = env.choice('roots', (1, 0, 2))
    g = env.ghost('g', ticks=0, pushed=False, setups=0, unticks=0, err=False, last='', stop=False, published='', inits=0,
                  unticked='', ended=False)

    def monitor(op, out):
        env.check(not g.err, 'nothing is done after an error')
        env.check(g.unticks == 0, 'nothing is done after the final untick')
        if op == 'tick':
            env.check(g.pushed, 'incoming data is pushed before every tick of the root')
            env.check(not (g.stop and m.state == 'STOP_REQUESTED'), 'no tick is started after the stop request was seen')
            env.check(not g.ended, 'no tick is started after the last one')
            g.pushed = False
            g.last = out
            g.ticks = g.ticks + 1
            if mode == 'once' or mode == 'result' and out in ('SUCCEEDED', 'FAILED'):
                g.ended = True
        elif op == 'push':
            env.check(not g.pushed, 'incoming data is pushed once per tick')
            g.pushed = True
        elif op == 'setup':
            env.check(g.setups == 0 and g.ticks == 0, 'the root is set up once, before the first tick')
            env.check(g.inits == 1, 'the wirings are initialised before the root is set up')
            g.setups = 1
        elif op == 'initialize':
            g.inits = g.inits + 1
        elif op == 'untick':
            g.unticks = 1
            g.unticked = out
        else:
            env.fail(f'ticking never uses {op}')
        if out in ('ERR', 'REFUSED'):
            g.err = True
        elif op == 'tick':
            request()

    def request():
        """Another thread may ask for a stop at any time."""
        if not g.stop and m.state == 'TICKING' and env.choice('stop', (False, True)):
            g.stop = True
            m.state = 'STOP_REQUESTED'

    def published(state):
        g.published = state
    start = env.choice('root state', ALL)
    m, roots = manager(env, nodes, monitor, request, 'TICKING', published, start)
    m._once, m._stop_after_result = mode == 'once', mode == 'result'
    if nodes == 1:
        orphan = env.choice('orphan', (False, True))
        if orphan:
            roots[0].parent = Orphan()
    else:
        orphan = False
    if env.choice('stopped before the start', (False, True)):
        g.stop = True
        m.state = 'STOP_REQUESTED'
    m.tick_report_exceptions()
    state = m.state
    env.check(state in ('IDLE', 'WAITING_FOR_TICK', 'ERROR'), 'a tick thread ends in a defined state')
    env.check(g.published == state, 'the state in which ticking ended is published')
    if nodes != 1 or orphan:
        env.check(state == 'ERROR' and g.ticks == 0 and g.setups == 0, 'a tree without exactly one root is not ticked')
        env.cover('malformed')
        return
    env.check((g.setups == 1) == (start in ('UNINITIALIZED', 'SHUTDOWN')), 'the root is set up exactly if it was not')
    env.check((state == 'ERROR') == g.err, 'the tree ends in the error state exactly if there was an error')
    if state == 'ERROR':
        env.cover('error')
        return
    if state == 'WAITING_FOR_TICK':
        env.check(mode == 'once' and g.unticks == 0, 'only a single tick leaves the tree waiting, without an untick')
        env.check(g.ticks == 1, 'a single tick ticks the root once')
        env.cover('waiting')
        return
    env.check(g.unticks == 1, 'when ticking ends the root is unticked')
    if mode == 'periodic' or mode == 'once':
        env.check(g.stop, 'periodic ticking ends only on request or by an error')
    else:
        env.check(g.stop or g.ended, 'ticking until a result ends on a result, on request, or by an error')
    if g.ended:
        env.cover('result')
    if g.stop:
        env.cover('stop')


class Orphan:
    """A parent that is not in the tree."""
    node_id = 'gone'
    name = 'gone'


HARNESSES = [
    {'name': 'tick-thread', 'run': run},
]
META = {'trusted': ['the root node is represented by the contract of Node (C08)'],
        'assumptions': ['stop requests of other threads arrive during a tick of the root or while sleeping']}
