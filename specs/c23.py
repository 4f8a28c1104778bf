"""C23: the execution commands, in any order and number, with any answers of the root and of the tick thread (C24)."""
from ros_bt_py import tree_exec_manager as M
from ros_bt_py_interfaces.msg import TreeState
from ros_bt_py_interfaces.srv import ControlTreeExecution
from specs.execution import ALL, Silent, manager, patch

R = ControlTreeExecution.Request
COMMANDS = {'tick once': R.TICK_ONCE, 'periodically': R.TICK_PERIODICALLY, 'until result': R.TICK_UNTIL_RESULT, 'stop': R.STOP,
            'reset': R.RESET, 'setup and shutdown': R.SETUP_AND_SHUTDOWN, 'shutdown': R.SHUTDOWN, 'nothing': R.DO_NOTHING,
            'unknown': 77}
TICKED = ('RUNNING', 'FAILED')


class TickThread:
    """The contract of the tick thread (C24). Only one object: a new thread is this object made new."""

    def __init__(self, env):
        self._vc_env = env
        self.started = self.alive = self.ending = False
        self.ok = True
        self.starts = 0
        self.mode = ''

    def new(self, target=None):
        self._vc_env.check(not self.alive, 'no second tick thread is made while one is running')
        self.started = False
        return self

    def start(self):
        env, m = self._vc_env, self._vc_manager
        env.check(not self.started, 'a tick thread is started once')
        env.check(m.state == 'TICKING', 'while a tick thread runs the tree is in a ticking state')
        self.started = self.alive = True
        self.ending = False
        self.starts = self.starts + 1
        self.mode = 'once' if m._once else 'until result' if m._stop_after_result else 'periodically'
        self._vc_note(m.state)

    def is_alive(self):
        return self.alive

    def join(self, timeout=None):
        self._vc_env.check(self.started, 'only a thread that was started is joined')
        self.go_on()

    def go_on(self):
        """The thread does something, or not."""
        env, m, root = self._vc_env, self._vc_manager, self._vc_root
        if not self.alive:
            return
        what = env.choice('thread', ('error', 'end', 'dead', 'runs'))
        if what == 'runs':
            return
        if what == 'error':
            root.state = env.choice('root after error', ('BROKEN', root.state))
            self.die('ERROR')
        elif self.ending:
            if what == 'dead':
                root.state = env.choice('root after untick', ('IDLE', 'PAUSED'))
                self.die('IDLE')
        elif self.mode == 'once' and what == 'end' and m.state == 'TICKING':
            root.state = env.choice('root ticked', TICKED)
            self.die('WAITING_FOR_TICK')
        elif what == 'end' and (m.state == 'STOP_REQUESTED' or self.mode == 'until result'):
            root.state = env.choice('root ticked', TICKED)
            self.ending = True
            m.state = 'IDLE'
            self._vc_note('IDLE')
            self._vc_published('IDLE')

    def die(self, state):
        self._vc_manager.state = state
        self._vc_note(state)
        self._vc_published(state)
        self.alive = False
        self.mode = ''


BETWEEN = ('EDITABLE', 'IDLE', 'WAITING_FOR_TICK', 'ERROR')


def command(env, name):
    nodes = env.choice('roots', (1, 0, 2))
    th = TickThread(env)
    env.track('thread', th)
    g = env.ghost('g', ops='', outcome='', published='', had_idle=False, had_tick=False, had_wait=False, had_error=False, had_stop=False)

    def published(state):
        g.published = state

    def note(state):
        if state == 'IDLE':
            g.had_idle = True
        elif state == 'TICKING':
            g.had_tick = True
        elif state == 'WAITING_FOR_TICK':
            g.had_wait = True
        elif state == 'ERROR':
            g.had_error = True
        elif state == 'STOP_REQUESTED':
            g.had_stop = True

    def monitor(op, out):
        env.check(g.ops == '' or g.ops == 'untick' and op == 'shutdown', 'a command uses one operation of the root, or stops and shuts down')
        g.ops = op
        g.outcome = out

    def ok():
        th.ok = th.ok and env.choice('ok', (True, False))
        return th.ok

    m, roots = manager(env, nodes, monitor, lambda: None, 'EDITABLE', published)
    root = roots[0] if roots else Silent()
    th._vc_manager, th._vc_root, th._vc_note, th._vc_published = m, root, note, published
    patch(env, M, 'Thread', th.new)
    patch(env, M, 'ok', ok)
    env.check(m._tick_thread is None and m.state == 'EDITABLE', 'a new tree can be edited and has no tick thread')
    # the invariant between commands: any state it allows
    if env.choice('before', ('new', 'used')) == 'used':
        m._tick_thread = th
        m._once, m._stop_after_result = env.symbool('once'), env.symbool('until result')
        phase = env.choice('thread', ('none', 'ended', 'running', 'ending') if nodes == 1 else ('none',))
        th.started = phase != 'none'
        th.alive, th.ending = phase in ('running', 'ending'), phase == 'ending'
        if th.alive:
            m._once, m._stop_after_result = False, env.choice('until result', (False, True))
            th.mode = 'until result' if m._stop_after_result else 'periodically'
        m.state = env.choice('state', BETWEEN if nodes == 1 else ('EDITABLE', 'IDLE', 'ERROR')) if not th.alive else 'IDLE' if th.ending else 'TICKING'
        if nodes == 1:
            root.state = env.choice('root', ALL)
    one(env, name, m, th, g, note, root, nodes)
    env.check(m._tick_thread is th, 'the tick thread is kept')
    if not th.ok:
        return
    if th.alive:
        env.check(not m._once and th.mode == ('until result' if m._stop_after_result else 'periodically'),
                  'a tick thread keeps its mode')
        env.check(m.state == ('IDLE' if th.ending else 'TICKING'), 'while a tick thread runs the tree is ticking')
    else:
        env.check(m.state in BETWEEN, 'without a tick thread the tree is not ticking')
        env.check(nodes == 1 or m.state != 'WAITING_FOR_TICK', 'a tree without a root is never ticked')


def one(env, name, m, th, g, note, root, nodes):
    hz = env.choice('frequency', (0.0, 5.0, -5.0)) if name == 'periodically' else 0.0
    if th.alive:
        th.go_on()
    m._tree_structure.tick_frequency_hz = 10.0
    g.ops = g.outcome = g.published = ''
    g.had_idle = g.had_tick = g.had_wait = g.had_error = g.had_stop = False
    s0, alive0, starts0, hz0, root0 = m.state, th.alive, th.starts, m.tick_frequency_hz, root.state
    note(s0)
    r = m.control_execution(R(command=COMMANDS[name], tick_frequency_hz=hz), ControlTreeExecution.Response())
    s1, done = m.state, r.success
    note(s1)
    env.check(r.tree_state == '' or r.tree_state == s1 or not done, 'a command that succeeds reports the state the tree is in')
    env.check(r.tree_state in ('', s1) or r.tree_state == s0, 'a command that fails does not invent a state')
    ran = th.starts - starts0
    env.check(ran == 0 or ran == 1, 'at most one tick thread is started by a command')
    if s1 != s0 and ran == 0 and th.ok:
        env.check(g.published == s1, 'a new state of the tree is published')
    quiet = not alive0                       # no thread was running when the command arrived
    same = s1 == s0 and ran == 0 and g.ops == '' and m.tick_frequency_hz == hz0 and root.state == root0
    if not th.ok:
        env.check(not done, 'a command that could not wait for the tick thread does not succeed')
        env.cover('ROS ends')
    elif s0 == 'ERROR' and name != 'shutdown':
        env.check(not done and same, 'in the error state everything but shutting down is refused')
        env.cover('refused in error state')
    elif quiet and s0 == 'TICKING':
        env.fail('a tree is ticking only while its tick thread runs')
    elif s0 == 'IDLE' and alive0 and th.alive and ran == 0:
        env.check(not done and g.ops == '', 'while the tick thread is ending commands are refused')
        env.cover('refused while ending')
    elif name == 'nothing':
        env.check(done or g.had_error, 'doing nothing succeeds')
        if quiet:
            env.check(same, 'doing nothing changes nothing')
            env.cover('nothing')
    elif name == 'unknown':
        env.check(not done, 'an unknown command does not succeed')
        if quiet:
            env.check(same, 'an unknown command changes nothing')
            env.cover('unknown')
    elif name in ('tick once', 'periodically', 'until result'):
        tick(env, m, th, g, name, nodes, quiet, done, same, ran, s0, s1, hz, hz0)
    elif name == 'reset':
        if th.alive:
            env.check(not done and g.ops == '', 'a running tree is not reset')
            env.cover('reset refused')
        elif quiet and nodes == 1:
            env.check(g.ops == 'reset', 'resetting resets the root')
            env.check(done == (g.outcome == 'IDLE'), 'resetting succeeds exactly if the root could be reset')
            env.check(s1 == ('IDLE' if done else s0), 'resetting leaves the tree idle, or as it was')
            env.cover('reset' if done else 'reset failed')
        elif quiet:
            env.check(done == (nodes == 0), 'only a well-formed tree is reset')
            env.check(s1 == 'IDLE' if done else same, 'resetting leaves the tree idle, or as it was')
    elif name == 'stop':
        stop(env, m, th, g, nodes, done, same, s0, s1, quiet)
    else:
        shutdown(env, m, th, g, name, nodes, done, s0, s1, quiet, same, root)


def tick(env, m, th, g, name, nodes, quiet, done, same, ran, s0, s1, hz, hz0):
    if not quiet and ran == 0:
        env.check(not done or nodes != 1, 'a tree that is ticking is not ticked again')
        env.check(g.ops == '', 'a tree that is ticking is not ticked again')
        env.cover('already ticking')
        return
    env.check(g.ops == '', 'ticking is left to the tick thread')
    if nodes != 1:
        env.check(same, 'a tree without exactly one root is not ticked')
        env.check(done == (nodes == 0), 'ticking a malformed tree fails')
        return
    env.check(ran == 1, 'a tree that is not running is ticked')
    env.check(m._stop_after_result == (name == 'until result'), 'ticking stops after a result exactly if asked to')
    if name == 'tick once':
        env.check(done == (s1 == 'WAITING_FOR_TICK'), 'a single tick succeeds exactly if it leaves the tree waiting')
        env.check(not th.alive, 'a single tick is waited for')
        env.check(m.tick_frequency_hz == hz0, 'a single tick does not change the frequency')
        env.cover('tick once' if done else 'tick once failed')
        return
    env.check(done, 'a tree that is not running is ticked')
    env.check(not m._once, 'periodic ticking does not stop after one tick')
    env.check(s1 == 'TICKING', 'periodic ticking leaves the tree ticking')
    env.check(m.tick_frequency_hz == (hz if hz > 0.0 else hz0), 'the frequency asked for is used')
    env.cover(name)


def stop(env, m, th, g, nodes, done, same, s0, s1, quiet):
    if s0 == 'WAITING_FOR_TICK':
        env.check(g.ops == ('untick' if nodes == 1 else ''), 'stopping a waiting tree unticks the root')
        env.check(done == (nodes == 1 and g.outcome in ('IDLE', 'PAUSED')), 'stopping a waiting tree succeeds exactly if it was unticked')
        env.check(s1 == ('IDLE' if done else 'ERROR'), 'stopping a waiting tree leaves it idle, or in the error state')
        env.cover('stop waiting' if done else 'stop waiting failed')
    elif s0 == 'TICKING':
        env.check(g.ops == '', 'a ticking tree is stopped by its tick thread')
        env.check(not th.alive or s1 == 'IDLE', 'stopping waits for the tick thread')
        env.check(done == (s1 == 'IDLE'), 'stopping succeeds exactly if it leaves the tree idle')
        env.check(s1 in ('IDLE', 'ERROR', 'WAITING_FOR_TICK'), 'stopping ends the ticking')
        env.cover('stop' if done else 'stop failed')
    else:
        env.check(not done, 'a tree that is not running is not stopped')
        if quiet:
            env.check(same, 'a tree that is not running is not stopped')
            env.cover('stop refused')


def shutdown(env, m, th, g, name, nodes, done, s0, s1, quiet, same, root):
    if name == 'setup and shutdown':
        if th.alive or s0 == 'TICKING':
            env.check(not done and g.ops == '', 'a running tree is not set up')
            env.cover('setup refused')
            return
        if nodes == 2:
            env.check(not done and s1 == s0 and g.ops == '', 'a tree without a root is not set up')
            return
    env.check(not th.alive or s1 == 'IDLE', 'shutting down waits for the tick thread')
    if done:
        env.check(s1 == 'EDITABLE', 'a tree that was shut down can be edited')
        env.check(not th.alive, 'a tree that was shut down has no tick thread')
        if nodes == 1:
            env.check(g.ops == 'shutdown' and root.state == 'SHUTDOWN', 'shutting down shuts the root down')
        env.cover('shutdown')
        return
    env.check(s1 != 'EDITABLE' or s0 == 'EDITABLE', 'a tree that was not shut down cannot be edited')
    if g.ops == 'shutdown':
        env.check(g.outcome == 'ERR', 'shutting down fails only if the root cannot be shut down or ticking could not be stopped')
        env.cover('shutdown failed')
    elif s0 == 'IDLE' and name == 'setup and shutdown' and s1 == 'ERROR' and g.had_error:
        env.cover('setup refused in error state')
    else:
        env.check(s1 in ('ERROR', 'WAITING_FOR_TICK') and s0 in ('TICKING', 'WAITING_FOR_TICK'),
                  'shutting down fails only if the root cannot be shut down or ticking could not be stopped')
        env.cover('stopping failed')


HARNESSES = [{'name': n.replace(' ', '-'), 'run': (lambda env, n=n: command(env, n))} for n in COMMANDS]
META = {'trusted': ['the root node is represented by the contract of Node (C08), the tick thread by that of C24'],
        'assumptions': ['commands are handled one after another', 'nothing is asked of the tree after ROS began to shut down']}
