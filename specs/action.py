"""An action server as its clients see it: what an action node uses of rclpy's ActionClient.

g.now is what is known about the latest goal:
'' none, 'asked' (sent, not answered), 'accepted', 'rejected', 'none' (no handle), 'lost' (request cancelled),
'running' (accepted and its result was asked for), 'done' (there is a result), 'nothing' (ended without), 'dropped' (result
request cancelled), 'cancelling' (a cancellation was requested), 'cancelled' (and answered), 'uncancelled' (and lost).
"""
from specs.ros import FakeRos, Handle

IN_FLIGHT = ('asked', 'accepted', 'running', 'done', 'nothing', 'dropped', 'cancelling')
SUCCEEDED = 4     # 5: canceled, 6: aborted


class Goal:
    """A goal with one number in it."""
    __vc_ref__ = True
    kind = 'goal'

    def __init__(self, idx=0):
        self.idx = idx

    @classmethod
    def get_fields_and_field_types(cls):
        return {'a': 'int64'}

    @property
    def a(self):
        return self.idx

    @a.setter
    def a(self, v):
        self.idx = v

    __hash__ = None


class Outcome:
    def __init__(self, x=0):
        self.x = x

    @classmethod
    def get_fields_and_field_types(cls):
        return {'x': 'int64'}


class Progress:
    def __init__(self, y=0):
        self.y = y

    @classmethod
    def get_fields_and_field_types(cls):
        return {'y': 'int64'}


class ActionType:
    Goal, Result, Feedback = Goal, Outcome, Progress


class Wrapped:
    """What comes with a result."""

    def __init__(self, status, result):
        self.status, self.result = status, result


class FeedbackMessage:
    __vc_ref__ = True
    kind = 'feedback'

    def __init__(self, idx):
        self.idx = idx

    @property
    def feedback(self):
        return Progress(self.idx)

    __hash__ = None


class Request(Handle):
    """The answer to a goal that was sent."""

    def __init__(self, idx, ros):
        self.kind, self.idx, self._vc_ros = 'goal request', idx, ros

    def now(self):
        return self._vc_ros.phase(self.idx)

    def done(self):
        return self.now() in ('accepted', 'rejected', 'none')

    def cancelled(self):
        return self.now() == 'lost'

    def exception(self):
        return None

    def result(self):
        now = self.now()
        self._vc_ros._vc_env.check(now != 'asked', 'an answer is used only when it is there')
        return GoalHandle(self.idx, self._vc_ros) if now in ('accepted', 'rejected') else None

    def add_done_callback(self, callback):
        self._vc_ros.answer()
        callback(self)


class GoalHandle(Handle):
    def __init__(self, idx, ros):
        self.kind, self.idx, self._vc_ros = 'goal handle', idx, ros

    @property
    def accepted(self):
        return self._vc_ros.phase(self.idx) not in ('rejected', 'none', 'lost', 'asked')

    def get_result_async(self):
        ros = self._vc_ros
        ros._vc_env.check(ros.phase(self.idx) == 'accepted', 'the result of an accepted goal is asked for, once')
        ros._vc_g.now = 'running'
        return Outgoing('result', self.idx, ros)

    def cancel_goal_async(self):
        ros = self._vc_ros
        ros.cancel(self.idx)
        return Outgoing('cancel', self.idx, ros)


class Outgoing(Handle):
    """The answer to a request for the result or the cancellation of a goal."""

    def __init__(self, kind, idx, ros):
        self.kind, self.idx, self._vc_ros = kind, idx, ros

    def now(self):
        return self._vc_ros.phase(self.idx)

    def done(self):
        return self.now() in (('done', 'nothing') if self.kind == 'result' else ('cancelled',))

    def cancelled(self):
        return self.now() == ('dropped' if self.kind == 'result' else 'uncancelled')

    def cancel(self):
        pass

    def exception(self):
        return None

    def result(self):
        g = self._vc_ros._vc_g
        now = self.now()
        if self.kind == 'result' and now == 'done':
            return Wrapped(g.status, Outcome(g.resp))
        return None


class ActionRos(FakeRos):
    def __init__(self, env, clock, g):
        self._vc_env, self._vc_clock, self._vc_g = env, clock, g
        self._vc_feedback, self._vc_listen = None, False
        if env.symbolic:
            env.refs['Goal'] = lambda kind, idx: Goal(idx)
            env.refs['FeedbackMessage'] = lambda kind, idx: FeedbackMessage(idx)
            for cls in (Request, GoalHandle, ActionClient):
                env.refs[cls.__name__] = lambda kind, idx, cls=cls: cls(idx, self)
            env.refs['Outgoing'] = lambda kind, idx: Outgoing(kind, idx, self)

    def phase(self, idx):
        self._vc_env.check(idx == self._vc_g.goals, 'only the latest goal is looked after')
        return self._vc_g.now

    def answer(self):
        """An answer to what was asked for last, if something was."""
        env, g = self._vc_env, self._vc_g
        if g.now == 'asked':
            g.now = env.choice('answer', ('accepted', 'rejected', 'none', 'lost'))
        elif g.now == 'running':
            g.now = env.choice('result', ('done', 'nothing', 'dropped'))
            g.resp = env.int('response', -2**63, 2**63 - 1, small=(0, 2))
            g.status = env.int('status', SUCCEEDED, 6) if g.now == 'done' else 0
        elif g.now == 'cancelling':
            g.now = env.choice('cancelled', ('cancelled', 'uncancelled'))

    def make(self, node, action_type, action_name, callback_group=None):
        env, g = self._vc_env, self._vc_g
        env.check(node is self and action_type is ActionType, 'the client is for the configured action type')
        env.check(not g.live, 'there is at most one client at a time')
        env.check(action_name == g.name, 'the client is for the configured action')
        g.made = g.made + 1
        g.live, g.client = True, action_name
        return ActionClient(g.made, self)

    def cancel(self, idx):
        env, g = self._vc_env, self._vc_g
        now = self.phase(idx)
        env.check(now in ('accepted', 'running', 'done', 'nothing', 'dropped'), 'a goal is cancelled once, after it was accepted')
        if not g.stopping:
            env.check(env.or_(g.again, (self._vc_clock.t - g.a) / 1e9 > g.timeout),
                      'a goal is cancelled in a tick only if the inputs changed or its time is up')
        g.now = 'cancelling'


class ActionClient(Handle):
    def __init__(self, idx, ros):
        self.kind, self.idx, self._vc_ros = 'action client', idx, ros

    def send_goal_async(self, goal, feedback_callback=None, goal_uuid=None):
        ros = self._vc_ros
        env, g = ros._vc_env, ros._vc_g
        env.check(g.live and self.idx == g.made, 'the present client is used')
        env.check(g.client == g.name, 'the goal is sent to the configured action')
        env.check(g.now not in IN_FLIGHT, 'a goal is sent only when none is in flight')
        env.check(isinstance(goal, Goal), 'a goal of the action type is sent')
        env.check(goal.idx == g.value, 'the goal is made of the present inputs')
        g.goals = g.goals + 1
        g.now = 'asked'
        if ros._vc_listen:
            ros._vc_feedback = feedback_callback
        return Request(g.goals, ros)

    def destroy(self):
        g = self._vc_ros._vc_g
        self._vc_ros._vc_env.check(g.live and self.idx == g.made, 'only the present client is released, and only once')
        self._vc_ros._vc_env.check(g.now not in ('asked', 'accepted', 'running'),
                                   'a client is released only when no goal needs it')
        g.live, g.client = False, ''

    def server_is_ready(self):
        return self._vc_env.choice('ready', (True, False))
