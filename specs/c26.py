"""C26: utility bounds of composite nodes, for every assignment of bounds to their children (numbers of children fixed)."""
import itertools

from ros_bt_py.exceptions import BehaviorTreeException
from ros_bt_py.nodes import decorators as D
from ros_bt_py.nodes.fallback import Fallback, MemoryFallback, NameSwitch
from ros_bt_py.nodes.parallel import Parallel, ParallelFailureTolerance
from ros_bt_py.nodes.sequence import MemorySequence, Sequence
from ros_bt_py.ros_nodes import throttle as T
from ros_bt_py.vendor.result import Err, Ok
from ros_bt_py_interfaces.msg import UtilityBounds
from specs.world import give

SIDES = ('lower', 'upper')
KINDS = ('success', 'failure')
FIELDS = tuple((s, k) for s in SIDES for k in KINDS)
NO = {'has': False, 'v': 0.0}


class Costs:
    """A child: only calculate_utility may be asked."""

    def __init__(self, answer):
        self.vc_answer = answer
        self.name = 'child'

    def calculate_utility(self):
        return self.vc_answer


def bound(b, side, kind):
    return getattr(b, f'has_{side}_bound_{kind}'), getattr(b, f'{side}_bound_{kind}')


def draw(env, i, focus, others, signed):
    """The answer of child i and its kind. focus: fields with arbitrary values; the others get fixed ones."""
    b = UtilityBounds(can_execute=True)
    for j, (side, kind) in enumerate(FIELDS):
        if (side, kind) in focus:
            has = env.bool(f'has {side} {kind}')
            v = env.real(f'{side} {kind}', (0.0, 1.0, 2.5, 0.25, 3.0))
            if not signed:
                env.assume(v >= 0)
        else:
            has, v = others[(i + j) % len(others)], float(7 * i + 50 * j + 1)
        setattr(b, f'has_{side}_bound_{kind}', has)
        setattr(b, f'{side}_bound_{kind}', v)
    return b


def same(env, a, b):
    return abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b)) if env.concrete else a == b


def minimum(env, vs):
    r = vs[0]
    for v in vs[1:]:
        r = env.ite(v < r, v, r)
    return r


def maximum(env, vs):
    r = vs[0]
    for v in vs[1:]:
        r = env.ite(v > r, v, r)
    return r


def chain(env, bs, side, fin, via):
    """Cost of: the children before i end in `via` and child i in `fin`, for the cheapest or dearest i."""
    vals = []
    for i in range(len(bs)):
        vals.append(sum([bound(b, side, via)[1] for b in bs[:i]], 0.0) + bound(bs[i], side, fin)[1])
    return minimum(env, vals) if side == 'lower' else maximum(env, vals)


def chain_known(bs, side, fin, via):
    return all(bound(b, side, fin)[0] for b in bs) and all(bound(b, side, via)[0] for b in bs[:-1])


def total(bs, side, kind):
    return sum([bound(b, side, kind)[1] for b in bs], 0.0)


def group(env, bs, side, kind, k):
    """Cheapest or dearest sum of k children."""
    sums = [sum([bound(b, side, kind)[1] for b in g], 0.0) for g in itertools.combinations(bs, min(k, len(bs)))]
    return minimum(env, sums) if side == 'lower' else maximum(env, sums)


def composite(env, node, n, expect, shortcut=(), signed=True, focuses=(FIELDS,)):
    """expect(bs, side, kind) -> (declared, value)"""
    focus = env.choice('focus', focuses)
    others = env.choice('others', ((False,), (True, False))) if focus != FIELDS else (True,)
    bad = env.choice('bad child', ('none', 'error', 'cannot execute')) if n else 'none'
    at = env.choice('bad index', tuple(range(n))) if bad != 'none' else -1
    bs, answers = [], []
    for i in range(n):
        if i == at:
            answers.append(Err(BehaviorTreeException('child')) if bad == 'error' else Ok(UtilityBounds(can_execute=False)))
        else:
            bs.append(draw(env, i, focus, others, signed))
            answers.append(Ok(bs[-1]))
    node.children = [Costs(a) for a in answers]
    before = [[bound(b, s, k) for s, k in FIELDS] for b in bs]
    r = node.calculate_utility()
    for b, old in zip(bs, before):
        for (s, k), (has, v) in zip(FIELDS, old):
            now = bound(b, s, k)
            env.check(now[0] == has, "a child's bounds are not changed")
            env.check(now[1] == v, "a child's bounds are not changed")
    if bad != 'none':
        env.check(r.is_err() or not r.ok().can_execute, 'a child that cannot execute keeps its parent from executing')
        env.cover(bad)
        return None
    if r.is_err():
        env.fail('executable children give bounds', lambda: str(r.err()))
    u = r.ok()
    env.check(u.can_execute == True, 'with executable children the node can execute')
    for side, kind in focus:
        declared, value = expect(bs, side, kind)
        has, v = bound(u, side, kind)
        env.check(has == declared, f'the {side} bound of {kind} is declared exactly if the children determine it')
        if declared:
            env.check(same(env, v, value), f'the {side} bound of {kind} is the one the children determine')
            env.cover(f'{side} {kind}')
    return u


def fresh(env, cls, n):
    node = cls()
    return node


def sequence(env):
    n = env.choice('children', (0, 1, 2, 3))
    cls = env.choice('class', (Sequence, MemorySequence))
    composite(env, cls(), n, lambda bs, side, kind: linear(env, bs, side, kind, 'success', 'failure'), focuses=FOCUS)


def fallback(env):
    n = env.choice('children', (0, 1, 2, 3))
    cls = env.choice('class', (Fallback, MemoryFallback, NameSwitch))
    composite(env, cls(), n, lambda bs, side, kind: linear(env, bs, side, kind, 'failure', 'success'), focuses=FOCUS)


def linear(env, bs, side, kind, every, one):
    """every: the result that needs all children; one: the result the first child with it brings about"""
    if not bs:
        return True, 0.0
    if kind == every:
        return all(bound(b, side, kind)[0] for b in bs), total(bs, side, kind)
    return chain_known(bs, side, one, every), chain(env, bs, side, one, every)


FOCUS = ((('lower', 'success'), ('lower', 'failure')), (('upper', 'success'), ('upper', 'failure')))
SINGLE = tuple((f,) for f in FIELDS)


def parallel(env):
    n = env.choice('children', (1, 2, 3))
    needed = env.choice('needed', (1, 2, 3, 4))
    node = Parallel()
    node._needed_successes = needed
    groups(env, node, n, needed, 1 + n - needed)


def tolerance(env):
    n = env.choice('children', (1, 2, 3))
    needed = env.choice('needed', (1, 2, 3, 4))
    tolerated = env.choice('tolerated', (0, 1, 2))
    env.assume(tolerated < n)
    node = ParallelFailureTolerance()
    node._needed_successes, node._tolerate_failures = needed, tolerated
    groups(env, node, n, needed, 1 + tolerated)


def groups(env, node, n, needed, failing):
    if needed > n:
        node.children = [Costs(Ok(UtilityBounds(can_execute=True))) for _ in range(n)]
        r = node.calculate_utility()
        env.check(r.is_err(), 'with too few children there are no bounds')
        env.cover('too few')
        return
    size = {'success': needed, 'failure': failing}
    composite(env, node, n, lambda bs, side, kind: (all(bound(b, side, kind)[0] for b in bs),
                                                    group(env, bs, side, kind, size[kind])),
              signed=False, focuses=SINGLE)


def enclosing(env):
    """If every child's lower bound is at most its upper bound, the same holds for the node."""
    make = env.choice('class', (Sequence, Fallback, Parallel, ParallelFailureTolerance))
    n = env.choice('children', (1, 2, 3))
    kinds = env.choice('kind', (('success',), ('failure',))) if make in (Parallel, ParallelFailureTolerance) else KINDS
    node = make()
    if make is not Sequence and make is not Fallback:
        node._needed_successes = env.choice('needed', tuple(range(1, n + 1)))
        node._tolerate_failures = env.choice('tolerated', tuple(range(0, n)))
    bs = []
    for i in range(n):
        b = UtilityBounds(can_execute=True)
        for kind in KINDS:
            if kind in kinds:
                lo, hi = env.real(f'lower {kind}', (0.0, 1.0, 2.5)), env.real(f'upper {kind}', (1.0, 2.5, 3.0))
                env.assume(lo >= 0)
                env.assume(lo <= hi)
            else:
                lo, hi = 1.0, 2.0
            for side, v in (('lower', lo), ('upper', hi)):
                setattr(b, f'has_{side}_bound_{kind}', True)
                setattr(b, f'{side}_bound_{kind}', v)
        bs.append(b)
    node.children = [Costs(Ok(b)) for b in bs]
    u = node.calculate_utility().ok()
    for kind in kinds:
        lo, hi = bound(u, 'lower', kind), bound(u, 'upper', kind)
        env.check(lo[0] == True and hi[0] == True, 'children with bounds give a node with bounds')
        env.check(lo[1] <= (hi[1] + 1e-9 if env.concrete else hi[1]), 'the lower bound does not exceed the upper bound')
    env.cover('enclosed')


def single(env):
    """Decorators have the bounds of their child."""
    cls = env.choice('class', (D.IgnoreFailure, D.IgnoreRunning, D.IgnoreSuccess, D.Inverter, D.UntilSuccess, D.Retry, D.Repeat,
                               D.RepeatAlways, D.RepeatUntilFail, D.RepeatIfFail, D.RepeatNoAutoReset, T.Throttle,
                               T.ThrottleSuccess, D.Watch, D.Optional))
    node = cls()
    n = env.choice('children', (0, 1))
    if n == 0:
        r = node.calculate_utility()
        env.check(r.is_ok() and r.ok().can_execute == True, 'without a child the node can execute')
        return
    kind = env.choice('child', ('ok', 'cannot execute', 'error'))
    b = draw(env, 0, FIELDS, (True,), True) if kind == 'ok' else UtilityBounds(can_execute=False)
    node.children = [Costs(Err(BehaviorTreeException('child')) if kind == 'error' else Ok(b))]
    r = node.calculate_utility()
    env.cover(kind)
    if kind == 'error':
        env.check(r.is_err(), 'an error of the child is passed on')
        return
    env.check(r.is_ok(), 'a child with bounds gives bounds')
    u = r.ok()
    if kind == 'cannot execute':
        env.check(u.can_execute == (cls is D.Optional), 'only Optional can execute without its child')
        for side, kd in FIELDS:
            env.check(bound(u, side, kd)[0] == False, 'without an executable child no bound is declared')
        return
    env.check(u.can_execute == True, 'with an executable child the node can execute')
    for side, kd in FIELDS:
        (has, v), (h, w) = bound(u, side, kd), bound(b, side, kd)
        env.check(has == h, "the bounds are the child's")
        if h:
            env.check(v == w, "the bounds are the child's")


CAP = 'numbers of children up to 3; all values of the bounds'
HARNESSES = [
    {'name': 'sequence', 'run': sequence, 'limit': CAP, 'native': True},
    {'name': 'fallback', 'run': fallback, 'limit': CAP, 'native': True},
    {'name': 'parallel', 'run': parallel, 'limit': CAP, 'native': True},
    {'name': 'parallel-tolerance', 'run': tolerance, 'limit': CAP, 'native': True},
    {'name': 'enclosing', 'run': enclosing, 'limit': CAP, 'native': True},
    {'name': 'single-child', 'run': single, 'native': True},
]
META = {'assumptions': ['costs are not negative (parallel nodes)', 'real arithmetic for float arithmetic']}
