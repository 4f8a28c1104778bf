"""C10: computation nodes return what their inputs determine."""
import copy
import math
import os
import shutil
import tempfile

import geometry_msgs.msg
from builtin_interfaces.msg import Time
import std_msgs.msg
from ros_bt_py import data_types as T
from ros_bt_py.nodes import compare, constant, file, format as fmt, getters, io, list as lists, maths, passthrough_node, random_number, setters
from ros_bt_py.ros_nodes import enum, message_converters, param, time
from ros_bt_py.exceptions import BehaviorTreeException
from ros_bt_py.vendor.result import Err, Ok
from ros_bt_py_interfaces.msg import NodeState, UtilityBounds
from specs.clock import FakeRos
from specs.execution import patch
from specs.values import ELEMENT, refused, template

BIG = 2**63
LARGE = 1.7976931348623157e308
SUCCEEDED, FAILED, RUNNING, ERROR = 'SUCCEEDED', 'FAILED', 'RUNNING', 'an error'


# -- a node and its inputs ---------------------------------------------------------------------------------------------------
def make(cls, types=None, static=()):
    """A node of the class: types has the values of the inputs that are types; the other inputs are wired, but for `static`."""
    given = {}
    for k, c in cls._node_config.copy().inputs.items():
        access = {'allow_dynamic': c.allow_dynamic, 'allow_static': c.allow_static,
                  'is_static': k in static or not c.allow_dynamic}
        if types and k in types:
            v = types[k]
            if isinstance(c, T.GenericType):
                given[k] = T.GenericType(valid_types=c.valid_types, value=copy.deepcopy(v if isinstance(v, dict) else template(v)), **access)
            else:
                given[k] = type(c)(value=v, **access)
        elif isinstance(c, T.ReferenceContainer):
            given[k] = type(c)(reference=c._reference, **access)
        else:
            given[k] = copy.deepcopy(c)
            given[k].is_static = access['is_static']
            if not access['is_static']:
                given[k].reset_value()
    for c in given.values():
        if isinstance(c, T.ReferenceContainer):
            assert c.set_type_map(given).is_ok()
    return cls(new_inputs=given)


class Kid:
    """A child that answers what the harness says."""
    name = 'kid'

    def __init__(self):
        self.answer, self.ticks, self.act = SUCCEEDED, 0, None

    def setup(self):
        return Ok('IDLE')

    reset = untick = setup

    def shutdown(self):
        return Ok('SHUTDOWN')

    def tick(self):
        self.ticks += 1
        if self.act is not None:
            self.act()
        return Err(BehaviorTreeException('kid')) if self.answer == ERROR else Ok(self.answer)

    def calculate_utility(self):
        return Ok(UtilityBounds(can_execute=True))


def start(env, node):
    env.check(node.setup().is_ok(), 'a node with types that fit is set up')


def put(env, node, values):
    """New data arrive at the inputs; gives the inputs that have changed."""
    changed = set()
    for k, v in values.items():
        c = node.node_config.inputs[k]
        c_old = c.is_updated()
        env.assume(refused(c.set_value, v) == '')
        if c.is_updated() and not c_old:
            changed.add(k)
    return changed


def same(env, a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and env.and_(True, *[same(env, x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and env.and_(True, *[same(env, a[k], b[k]) for k in a])
    if isinstance(a, str) != isinstance(b, str):
        return False
    if isinstance(a, float) != isinstance(b, float):
        return False
    return a == b


def expect(env, node, values, result, outputs=None):
    """One tick: the result, the outputs, and the inputs afterwards. An error may leave the outputs as they are."""
    r = node.tick()
    if result == ERROR:
        env.check(r.is_err(), 'what has no result is an error')
    else:
        env.check(r.is_ok(), 'what has a result is no error')
        env.check(r.ok() == result, 'the result is the one the inputs determine')
        env.check(node.state == result, 'the state is the result')
    for k, v in (outputs or {}).items():
        got = node.node_config.outputs[k].get_value()
        env.check(got.is_ok(), 'the outputs are those the inputs determine')
        env.check(same(env, got.ok(), v), 'the outputs are those the inputs determine')
    for k, v in values.items():
        env.check(same(env, node.node_config.inputs[k].get_value().ok(), v), 'a tick does not change the inputs')
    env.cover(result)


def between(env, node, first, result, outputs=None):
    """Nothing, or an earlier tick with other values and perhaps a reset or an untick."""
    how = env.choice('before', ('nothing', 'tick', 'reset', 'untick'))
    if how == 'nothing':
        return
    put(env, node, first)
    expect(env, node, first, result, outputs)
    if result == ERROR:
        return
    if how == 'reset':
        env.check(node.reset().is_ok(), 'a node is reset')
    if how == 'untick':
        env.check(node.untick().is_ok(), 'a node is unticked')


def number(env, name, t):
    if t is bool:
        return env.choice(name, (False, True))
    if t is int:
        return env.int(name, -BIG, BIG - 1, small=(-2, 3))
    return env.real(name, (0.0, 1.5, -2.25, 4.0, 1e300, -0.5))


POOL = {
    bool: (False, True), int: (0, 1, -1, 7, 64, BIG - 1, -BIG), float: (0.0, 1.5, -2.25, 4.0, 1e300),
    str: ('', 'a', 'Äb c', '7', 'True'), bytes: (b'a', b''), list: ([], [True], [True, False]), dict: ({}, {'a': True}, {'b': False, 'a': True}),
}


def value(env, name, t):
    if t in (int, float):
        return number(env, name, t)
    return copy.deepcopy(env.choice(name, POOL[t]))


# -- operations --------------------------------------------------------------------------------------------------------------
BINARY = {
    'add': lambda a, b: a + b, '+': lambda a, b: a + b, 'sub': lambda a, b: a - b, '-': lambda a, b: a - b,
    'mul': lambda a, b: a * b, '*': lambda a, b: a * b, 'div': lambda a, b: a / b, '/': lambda a, b: a / b,
    'truediv': lambda a, b: a / b, 'floordiv': lambda a, b: a // b, '//': lambda a, b: a // b, 'mod': lambda a, b: a % b,
    '%': lambda a, b: a % b, 'and': lambda a, b: a & b, '&': lambda a, b: a & b, 'or': lambda a, b: a | b, '|': lambda a, b: a | b,
    'xor': lambda a, b: a ^ b, '^': lambda a, b: a ^ b, 'pow': lambda a, b: a ** b, '**': lambda a, b: a ** b,
    'lshift': lambda a, b: a << b, '<<': lambda a, b: a << b, 'rshift': lambda a, b: a >> b, '>>': lambda a, b: a >> b,
}
LINEAR = ('add', '+', 'sub', '-')
ANY_INT = (*LINEAR, 'mul', '*', 'floordiv', '//', 'mod', '%', 'div', '/', 'truediv')
UNARY = {
    'not': lambda x: not x, 'inv': lambda x: ~x, '~': lambda x: ~x, 'neg': lambda x: -x, '-': lambda x: -x, 'pos': lambda x: +x,
    '+': lambda x: +x,
}
for _n in ('exp expm1 log log1p log10 ceil fabs factorial floor sqrt acos asin atan acosh asinh atanh cos sin tan cosh sinh tanh degrees '
           'radians erf erfc gamma lgamma').split():
    UNARY[_n] = getattr(math, _n)
UNDEFINED = (ArithmeticError, ValueError, TypeError, MemoryError)


def answer(env, f, t, *args):
    """(result, output) of an operation whose result is to be a value of type t."""
    try:
        v = f(*args)
    except UNDEFINED:
        return ERROR, None
    if t is bool:
        return (SUCCEEDED, v) if isinstance(v, bool) else (ERROR, None)
    if t is int:
        if isinstance(v, int):
            if -BIG <= v < BIG:
                return SUCCEEDED, v
        return ERROR, None
    if isinstance(v, (int, float)):
        v = v if isinstance(v, float) else float(v)
        if -LARGE <= v <= LARGE:
            return SUCCEEDED, v
    return ERROR, None


def result_of(env, node, values, f, t, *args):
    how, v = answer(env, f, t, *args)
    expect(env, node, values, how, {} if how == ERROR else {'result': v})


def binary(t, names, pool):
    """Operation"""
    def run(env):
        node = make(maths.Operation, {'operand_type': t})
        start(env, node)
        first = {'operator': '-', 'a': t(1), 'b': t(1)}
        between(env, node, first, ERROR if t is bool else SUCCEEDED, {} if t is bool else {'result': t(0)})
        op = env.choice('operator', names)
        a, b = (env.choice('a', pool), env.choice('b', pool)) if pool else (number(env, 'a', t), number(env, 'b', t))
        values = {'operator': op, 'a': a, 'b': b}
        put(env, node, values)
        if node.state == 'BROKEN':
            return
        result_of(env, node, values, BINARY[op], t, a, b)
    return run


def unary(t, names, pool):
    """UnaryOperation"""
    def run(env):
        node = make(maths.UnaryOperation, {'operand_type': t})
        start(env, node)
        between(env, node, {'operator': 'not', 'in': t(0)}, SUCCEEDED, {'result': True if t is not float else 1.0})
        op = env.choice('operator', names)
        a = env.choice('a', pool) if pool else number(env, 'a', t)
        values = {'operator': op, 'in': a}
        put(env, node, values)
        result_of(env, node, values, UNARY[op], t, a)
    return run


CONVERSIONS = {(int, bool): lambda x: x != 0, (bool, int): lambda x: 1 if x else 0, (int, float): float, (float, int): int}
TYPES = (bool, int, float, str, bytes, list, dict)


def convert(env):
    """Convert"""
    a = env.choice('from', TYPES)
    b = env.choice('to', TYPES)
    node = make(maths.Convert, {'input_type': a, 'output_type': b})
    f = (lambda x: x) if a is b else str if b is str else CONVERSIONS.get((a, b))
    if f is None:
        env.check(node.setup().is_err(), 'a conversion that does not exist is refused at setup')
        return
    start(env, node)
    first = {'in': copy.deepcopy(POOL[a][0])}
    between(env, node, first, SUCCEEDED, {'out': f(POOL[a][0])})
    v = copy.deepcopy(env.choice('v', POOL[a])) if b is str or (a, b) in ((float, int), (int, float)) else value(env, 'v', a)
    put(env, node, {'in': v})
    out = f(v)
    fits = True if b is not int else -BIG <= out < BIG
    expect(env, node, {'in': v}, SUCCEEDED if fits else ERROR, {'out': out} if fits else {})


# -- comparisons ---------------------------------------------------------------------------------------------------------------
def equal(env, a, b):
    return same(env, a, b) == True


def comparison(env):
    """Compare"""
    t = env.choice('type', TYPES)
    node = make(compare.Compare, {'compare_type': t})
    start(env, node)
    first = {'a': copy.deepcopy(POOL[t][0]), 'b': copy.deepcopy(POOL[t][0])}
    between(env, node, first, SUCCEEDED)
    values = {'a': value(env, 'a', t), 'b': value(env, 'b', t)}
    put(env, node, values)
    expect(env, node, values, SUCCEEDED if values['a'] == values['b'] else FAILED)


def news(env):
    """CompareNewOnly"""
    t = env.choice('type', (int, str))
    node = make(compare.CompareNewOnly, {'compare_type': t})
    start(env, node)
    new = True
    old = {}
    for i in range(2):
        values = {k: value(env, f'{k} {i}', t) for k in 'ab' if i == 0 or env.choice(f'new {k} {i}', (False, True))}
        for k, v in values.items():
            if not (k in old and old[k] == v):
                new = True
        put(env, node, values)
        old.update(values)
        expect(env, node, old, RUNNING if not new else SUCCEEDED if old['a'] == old['b'] else FAILED)
        new = False
        how = env.choice(f'after {i}', ('nothing', 'reset', 'untick')) if i == 0 else 'nothing'
        if how == 'reset':
            env.check(node.reset().is_ok(), 'a node is reset')
            new = True
        elif how == 'untick':
            env.check(node.untick().is_ok(), 'a node is unticked')


def less(env):
    """ALessThanB"""
    t = env.choice('type', (int, float))
    node = make(compare.ALessThanB, {'operand_type': t})
    start(env, node)
    between(env, node, {'a': t(1), 'b': t(1)}, FAILED)
    values = {'a': number(env, 'a', t), 'b': number(env, 'b', t)}
    put(env, node, values)
    expect(env, node, values, SUCCEEDED if values['a'] < values['b'] else FAILED)


# -- values that are passed on ------------------------------------------------------------------------------------------------
PASS = ((passthrough_node.PassthroughNode, 'passthrough_type'), (io.IOInput, 'io_type'), (io.IOOutput, 'io_type'))


def passing(env):
    """PassthroughNode, IOInput, IOOutput"""
    cls, key = env.choice('class', PASS)
    t = env.choice('type', TYPES)
    node = make(cls, {key: t})
    start(env, node)
    between(env, node, {'in': copy.deepcopy(POOL[t][1])}, SUCCEEDED, {'out': POOL[t][1]})
    v = value(env, 'v', t)
    put(env, node, {'in': v})
    expect(env, node, {'in': v}, SUCCEEDED, {'out': v})


def constants(env):
    """Constant"""
    t = env.choice('type', TYPES)
    node = make(constant.Constant, {'constant_type': t})
    v = value(env, 'v', t)
    put(env, node, {'constant_value': v})
    start(env, node)
    for _ in range(env.choice('ticks', (1, 2))):
        expect(env, node, {'constant_value': v}, SUCCEEDED, {'constant': v})


# -- lists and dictionaries ---------------------------------------------------------------------------------------------------
def items(env, name, t, most=3):
    return [value(env, f'{name} {i}', t) for i in range(env.choice(name + ' size', tuple(range(most + 1))))]


def length(env):
    """ListLength"""
    t = env.choice('type', (int, str))
    node = make(lists.ListLength, {'element_type': t})
    start(env, node)
    between(env, node, {'list': [t(1)]}, SUCCEEDED, {'length': 1})
    v = items(env, 'list', t)
    put(env, node, {'list': v})
    expect(env, node, {'list': v}, SUCCEEDED, {'length': len(v)})


def insertion(env):
    """InsertInList"""
    t = env.choice('type', (int, str))
    node = make(lists.InsertInList, {'element_type': t})
    start(env, node)
    between(env, node, {'list': [t(1)], 'index': 0, 'element': t(2)}, SUCCEEDED, {'list': [t(2), t(1)]})
    v, i, x = items(env, 'list', t, 2), env.choice('index', (0, 1, 2, BIG - 1)), value(env, 'x', t)
    values = {'list': v, 'index': i, 'element': x}
    put(env, node, values)
    expect(env, node, values, SUCCEEDED, {'list': v[:i] + [x] + v[i:]})


def membership(env):
    """IsInList"""
    t = env.choice('type', (int, float, list))
    node = make(lists.IsInList, {'compare_type': t})
    start(env, node)
    between(env, node, {'list': [copy.deepcopy(POOL[t][1])], 'in': copy.deepcopy(POOL[t][1])}, SUCCEEDED)
    values = {'list': items(env, 'list', t, 2 if t is list else 3), 'in': value(env, 'x', t)}
    put(env, node, values)
    found = False
    for y in values['list']:
        found = env.or_(found, y == values['in'])
    expect(env, node, values, SUCCEEDED if found else FAILED)


def appending(env):
    """AppendListItem"""
    t = int
    node = make(setters.AppendListItem, {'list_type': t})
    start(env, node)
    between(env, node, {'list': [], 'value': t(2)}, SUCCEEDED, {'new_list': [t(2)]})
    values = {'list': items(env, 'list', t), 'value': value(env, 'x', t)}
    put(env, node, values)
    expect(env, node, values, SUCCEEDED, {'new_list': values['list'] + [values['value']]})


KEYS = ('a', 'b', '')


def entries(env, name, t):
    return {k: value(env, f'{name} {k}', t) for k in env.choice(name + ' keys', ((), ('a',), ('b', 'a'), ('', 'a')))}


def dict_setting(env):
    """SetDictItem"""
    t = int
    node = make(setters.SetDictItem, {'attr_type': t})
    start(env, node)
    between(env, node, {'object': {'a': t(1)}, 'attr_name': 'b', 'attr_value': t(2)}, SUCCEEDED, {'new_object': {'a': t(1), 'b': t(2)}})
    values = {'object': entries(env, 'object', t), 'attr_name': env.choice('key', KEYS), 'attr_value': value(env, 'x', t)}
    put(env, node, values)
    expect(env, node, values, SUCCEEDED, {'new_object': {**values['object'], values['attr_name']: values['attr_value']}})


# -- getters -------------------------------------------------------------------------------------------------------------------
def getter(env, cls, types, draw, found, out, first):
    """Two ticks of a getter, with or without a child. found(values) -> the item or None."""
    node = make(cls, types)
    stale = env.bool('succeed_on_stale_data')
    put(env, node, {'succeed_on_stale_data': stale})
    kid = Kid() if env.bool('child') else None
    node.children = [kid] if kid else []
    start(env, node)
    old, new = {}, True
    for i in (0, 1):
        values = (draw() if env.bool('new data') else {}) if i else first
        if kid:
            kid.answer = env.choice(f'child {i}', (SUCCEEDED, FAILED, RUNNING, ERROR))
            if i and values and env.bool('from the child'):
                kid.act = lambda v=values: put(env, node, v)
        if not (kid and kid.act):
            put(env, node, values)
        for k, v in values.items():
            if not (k in old and same(env, old[k], v)):
                new = True
        old = {**old, **values}
        outputs = None
        if kid and kid.answer != SUCCEEDED:
            result = kid.answer
        else:
            item = found(old)
            result = FAILED if item is None else SUCCEEDED if new or stale else RUNNING
            outputs = {out: item} if result == SUCCEEDED else None
        expect(env, node, old, result, outputs)
        if kid:
            env.check(kid.ticks == i + 1, 'the child is ticked once')
        if result == ERROR:
            return
        new = False


def list_item(env):
    """GetListItem"""
    t = int
    getter(env, getters.GetListItem, {'list_type': t},
           lambda: {'list': items(env, 'list', t, 2), 'index': env.choice('index', (0, 1, 2, BIG - 1))},
           lambda v: v['list'][v['index']] if v['index'] < len(v['list']) else None, 'item', {'list': [t(1), t(2)], 'index': 1})


def dict_item(env):
    """GetDictItem"""
    t = int
    getter(env, getters.GetDictItem, {'value_type': t}, lambda: {'dict': entries(env, 'dict', t), 'key': env.choice('key', KEYS)},
           lambda v: v['dict'].get(v['key']), 'value', {'dict': {'a': t(1)}, 'key': 'a'})


def dict_items(env):
    """GetMultipleDictItems"""
    getter(env, getters.GetMultipleDictItems, {'value_type': int},
           lambda: {'dict': entries(env, 'dict', int), 'keys': list(env.choice('keys', ((), ('a',), ('b', 'a'), ('a', 'a'), ('c',), ('a', 'c'))))},
           lambda v: [v['dict'][k] for k in v['keys']] if all(k in v['dict'] for k in v['keys']) else None,
           'values', {'dict': {'a': 1}, 'keys': ['a']})


def posed(x=0.0, z=0.0, frame='', sec=0):
    p = geometry_msgs.msg.PoseStamped()
    p.header.frame_id, p.header.stamp.sec = frame, sec
    p.pose.position.x, p.pose.orientation.z = x, z
    return p


ATTRIBUTES = (('header.frame_id', str, 'map', lambda p: p.header.frame_id), ('header.stamp.sec', int, 5, lambda p: p.header.stamp.sec),
              ('pose.position.x', float, 2.5, lambda p: p.pose.position.x), ('pose.orientation.z', float, -1.5, lambda p: p.pose.orientation.z),
              ('pose.nothing', float, 2.5, None), ('nothing', int, 1, None), ('header.stamp.sec.more', int, 1, None))


def attribute(env):
    """GetAttr"""
    name, t, _, get = env.choice('attribute', ATTRIBUTES)
    pool = (posed(), posed(1.5, 2.0, 'a', 7))
    first_get = {str: 'header.frame_id', int: 'header.stamp.sec', float: 'pose.position.x'}[t]
    getter(env, getters.GetAttr, {'object_type': geometry_msgs.msg.PoseStamped, 'attr_type': t},
           lambda: {'object': copy.deepcopy(env.choice('object', pool)), 'attr_name': name},
           lambda v: next((g(v['object']) for n, _, _, g in ATTRIBUTES if n == v['attr_name'] and g), None), 'attr',
           {'object': posed(), 'attr_name': first_get})


def attribute_setting(env):
    """SetAttr"""
    name, t, x, get = env.choice('attribute', ATTRIBUTES)
    node = make(setters.SetAttr, {'object_type': geometry_msgs.msg.PoseStamped, 'attr_type': t})
    start(env, node)
    first_get = {str: 'header.frame_id', int: 'header.stamp.sec', float: 'pose.position.x'}[t]
    between(env, node, {'object': posed(), 'attr_name': first_get, 'attr_value': t(0)}, SUCCEEDED)
    obj = copy.deepcopy(env.choice('object', (posed(), posed(1.5, 2.0, 'a', 7))))
    values = {'object': obj, 'attr_name': name, 'attr_value': x}
    put(env, node, values)
    if get is None:
        r = node.tick()
        env.check(r.is_err() or r.ok() in (SUCCEEDED, FAILED), 'an attribute that does not exist gives a result or an error')
        env.cover('nothing to set')
        return
    want = copy.deepcopy(obj)
    path = name.split('.')
    target = want
    for p in path[:-1]:
        target = getattr(target, p)
    setattr(target, path[-1], x)
    expect(env, node, values, SUCCEEDED, {'new_object': want})


# -- iteration -----------------------------------------------------------------------------------------------------------------
def iteration(child):
    """IterateList: an invariant on the position, over any number of ticks"""
    def run(env):
        n = env.choice('n', (0, 1, 3))
        node = make(lists.IterateList, {'item_type': int})
        data = [10 + i for i in range(n)]
        kid = Kid() if child else None
        node.children = [kid] if kid else []
        start(env, node)
        put(env, node, {'list': data})
        at, wait = 0, True
        for i in range(5):
            op = env.choice(f'op {i}', ('tick', 'reset', 'untick', 'list') if i else ('tick',))
            if op == 'list':
                data = [20 + i + j for j in range(2)]
                at, wait = 0, True
                put(env, node, {'list': data})
                op = 'tick'
            if op == 'tick':
                was = kid.ticks if kid else 0
                out = None
                if not data:
                    result = SUCCEEDED
                else:
                    out = data[at]
                    if kid and wait:
                        wait, result = False, RUNNING
                        kid_ticks = 0
                    else:
                        kid_ticks = 1
                        got = SUCCEEDED
                        if kid:
                            got = kid.answer = env.choice(f'child {i}', (SUCCEEDED, FAILED, RUNNING, ERROR))
                        result = got
                        if got == SUCCEEDED:
                            at, wait = at + 1, True
                            result = RUNNING
                            if at == len(data):
                                at, result = 0, SUCCEEDED
                    if kid:
                        now = kid_ticks
                expect(env, node, {'list': data}, result, {'list_item': out} if data else None)
                if kid:
                    env.check(kid.ticks == was + (now if data else 0), 'the child is ticked once for every turn of an element')
                if result == ERROR:
                    return
            elif op == 'reset':
                env.check(node.reset().is_ok(), 'a node is reset')
                at, wait = 0, True
            else:
                env.check(node.untick().is_ok(), 'a node is unticked')
    return run


# -- text ----------------------------------------------------------------------------------------------------------------------
def concatenation(env):
    """StringConcatenation"""
    node = make(fmt.StringConcatenation)
    start(env, node)
    between(env, node, {'a': 'x', 'b': 'y'}, SUCCEEDED, {'formatted_string': 'xy'})
    values = {'a': env.choice('a', POOL[str]), 'b': env.choice('b', POOL[str])}
    put(env, node, values)
    expect(env, node, values, SUCCEEDED, {'formatted_string': values['a'] + values['b']})


DATA = {'first': 7, 'second': -12, 'x_y': 0}
PIECES = (('', ''), ('foo ', 'foo '), ('{first}', '7'), ('{second}', '-12'), ('{x_y:03d}', '000'), ('{{}}', '{}'), ('{first!s:>3}', '  7'),
          ('{first!r}', '7'), ('{second!a}', '-12'), ('{second!u}', '-12'), ('{second!l}', '-12'), ('{second!c}', '-12'), ('{first!s:_<4}', '7___'),
          ('{first:>{x_y}}', '7'), ('{nope}', None), ('{first', None), ('{}', None), ('{first!z}', None), ('{first.nope}', None))


def text(env, name, most):
    ps = [env.choice(f'{name} {i}', PIECES if i == 0 else PIECES[:9] + PIECES[14:16]) for i in range(most)]
    return ''.join(p[0] for p in ps), None if any(p[1] is None for p in ps) else ''.join(p[1] for p in ps)


def formatting(env):
    """FormatString"""
    node = make(fmt.FormatString)
    start(env, node)
    between(env, node, {'format_string': '{a}', 'dict': {'a': 1}}, SUCCEEDED, {'formatted_string': '1'})
    s, want = text(env, 'piece', 2)
    if '{first' in s.replace('{first}', '').replace('{first!', '').replace('{first:', '').replace('{first.', ''):
        env.assume(s.endswith('{first'))
        want = None
    values = {'format_string': s, 'dict': dict(DATA)}
    put(env, node, values)
    expect(env, node, values, FAILED if want is None else SUCCEEDED, None if want is None else {'formatted_string': want})


def formatting_list(env):
    """FormatStringList"""
    node = make(fmt.FormatStringList)
    start(env, node)
    between(env, node, {'format_strings': ['{a}'], 'dict': {'a': 1}}, SUCCEEDED, {'formatted_strings': ['1']})
    texts = [env.choice(f'piece {i}', PIECES if i == 0 else PIECES[:4] + PIECES[14:16]) for i in range(env.choice('n', (0, 1, 2)))]
    want = None if any(w is None for _, w in texts) else [w for _, w in texts]
    values = {'format_strings': [s for s, _ in texts], 'dict': dict(DATA)}
    put(env, node, values)
    expect(env, node, values, FAILED if want is None else SUCCEEDED, None if want is None else {'formatted_strings': want})


CASED = ((lambda f: f.convert_field('aBc dE', 'u'), 'ABC DE'), (lambda f: f.convert_field('aBc dE', 'l'), 'abc de'),
         (lambda f: f.convert_field('aBc dE', 'c'), 'Abc de'), (lambda f: f.convert_field('ä', 'r'), "'ä'"),
         (lambda f: f.convert_field('ä', 'a'), "'\\xe4'"), (lambda f: f.convert_field(5, 's'), '5'), (lambda f: f.convert_field(5, None), 5),
         (lambda f: f.format('{a!u} {b!l} {0!c}', 'xY', a='q', b='Z'), 'Q z Xy'))


def casing(env):
    """ExtendedFormatter"""
    f, want = env.choice('case', CASED)
    got = f(fmt.ExtendedFormatter())
    env.check(got == want and type(got) is type(want), 'a conversion gives the text it stands for')


PATHS = (('', '', ''), ('a', 'a', ''), ('a.txt', 'a', '.txt'), ('/x.d/a', '/x.d/a', ''), ('/x.d/a.tar.gz', '/x.d/a.tar', '.gz'), ('.rc', '.rc', ''),
         ('x/.rc', 'x/.rc', ''), ('..', '..', ''), ('a.', 'a', '.'), ('file://a b.yaml', 'file://a b', '.yaml'))


def extension(env):
    """GetFileExtension"""
    node = make(fmt.GetFileExtension)
    start(env, node)
    between(env, node, {'path': 'q.w'}, SUCCEEDED, {'filename': 'q', 'extension': '.w'})
    p, a, b = env.choice('path', PATHS)
    put(env, node, {'path': p})
    expect(env, node, {'path': p}, SUCCEEDED, {'filename': a, 'extension': b})


# -- random numbers ------------------------------------------------------------------------------------------------------------
class Dice:
    """random: any integer of the range"""

    def __init__(self, env):
        self._vc_env = env

    def randrange(self, start, stop):
        env = self._vc_env
        if not start < stop:
            raise ValueError('empty range for randrange()')
        v = env.int('drawn', None, None, small=(0, 3))
        env.assume(v >= start)
        env.assume(v < stop)
        return v

    def randint(self, a, b):
        return self.randrange(a, b + 1)


def random_int(env):
    """RandomInt"""
    if env.symbolic:
        patch(env, random_number, 'random', Dice(env))
    node = make(random_number.RandomInt)
    start(env, node)
    lo, hi = number(env, 'min', int), number(env, 'max', int)
    values = {'min': lo, 'max': hi}
    put(env, node, values)
    if lo < hi:
        r = node.tick()
        env.check(r.is_ok() and r.ok() == SUCCEEDED, 'a number is drawn from every range')
        v = node.node_config.outputs['random_number'].get_value().ok()
        env.check(lo <= v, 'the number is in the range')
        env.check(v <= hi, 'the number is in the range')
        env.cover('drawn')
    else:
        expect(env, node, values, ERROR)


# -- files ---------------------------------------------------------------------------------------------------------------------
# contents of a file -> the data in it (None: none, or no YAML at all)
FILES = ((b'- 1\n- 2\n', [1, 2]), (b'- 7\n', [7]), (b'a: 1\nb: 2\n', {'a': 1, 'b': 2}), (b'5\n', 5), (b'', None), (b'[1, 2', None), (b'{}', {}), (b'[]', []),
         (b'\xff\xfe\x00', None), (b'- a\n- 2\n', ['a', 2]), (b'a: x\n', {'a': 'x'}), (b'- !!python/object:os.system {}', None), (None, None))


def good(kind, data):
    """Data of the right kind, and whose elements are integers."""
    return isinstance(data, kind) and len(data) > 0, isinstance(data, kind) and all(isinstance(x, int) for x in (data.values() if kind is dict else data))


def loaded(env, kind):
    """YamlList, YamlDict: the data are those of the file when it is first asked for; it is read again after a reset or for a new name."""
    folder = tempfile.mkdtemp(prefix='vc-yaml-')
    env.defer(lambda: shutil.rmtree(folder, ignore_errors=True))

    def share(package_name, **kw):
        if package_name == 'known':
            return folder
        raise LookupError(package_name) if package_name else ValueError(package_name)
    patch(env, file.ament_index_python, 'get_package_share_directory', share)
    node = make(file.YamlList if kind is list else file.YamlDict, {'element_type': int})
    start(env, node)
    contents = {'p': None, 'q': None}

    def write(name, k):
        f = os.path.join(folder, name)
        raw, data = FILES[k]
        if raw is None:
            if os.path.exists(f):
                os.unlink(f)
        else:
            with open(f, 'wb') as h:
                h.write(raw)
        contents[name] = data
    write('p', env.choice('p', tuple(range(len(FILES)))))
    write('q', 0)
    seen = None
    where = None
    for i in range(3):
        step = env.choice(f'step {i}', ('p', 'q', 'package', 'nowhere', 'odd package', 'nul') if i == 0 else ('same', 'rewritten', 'reset', 'q'))
        if step == 'rewritten':
            write('p', env.choice(f'p {i}', (1, 12)))
        elif step == 'reset':
            env.check(node.reset().is_ok(), 'a node is reset')
            seen = None
        elif step != 'same':
            path, name = {'p': (f'file://{folder}/p', 'p'), 'q': (f'file://{folder}/q', 'q'), 'package': ('package://known/p', 'p'),
                          'nowhere': ('package://nowhere/p', None), 'odd package': ('package://', None), 'nul': ('file://a\0b', None)}[step]
            if path != where:
                seen = None
            put(env, node, {'file_path': path})
            where, source = path, name
        if seen is None:
            seen = (contents[source] if source else None,)
        right, fits = good(kind, seen[0])
        if not right:
            expect(env, node, {'file_path': where}, FAILED, {'load_success': False})
            env.check(node.node_config.outputs['load_error_msg'].get_value().ok() != '', 'a reason is given when nothing is loaded')
        elif not fits:
            expect(env, node, {'file_path': where}, ERROR)
            return
        else:
            out = {'load_success': True, 'load_error_msg': '', 'content': seen[0]}
            if kind is list:
                out['line_count'] = len(seen[0])
            expect(env, node, {'file_path': where}, SUCCEEDED, out)


# -- messages ------------------------------------------------------------------------------------------------------------------
MESSAGES = (
    (std_msgs.msg.Int64, {'data': (0, 5, -BIG)}), (std_msgs.msg.String, {'data': ('', 'ab')}), (std_msgs.msg.Bool, {'data': (False, True)}),
    (std_msgs.msg.ColorRGBA, {'r': (0.0, 0.5), 'g': (0.0, 1.0), 'b': (0.25,), 'a': (1.0,)}), (std_msgs.msg.Empty, {}),
    (std_msgs.msg.MultiArrayDimension, {'label': ('x',), 'size': (0, 2**32 - 1), 'stride': (3,)}),
    (geometry_msgs.msg.Point, {'x': (1.5, 0.0), 'y': (-2.0,), 'z': (0.0, 3.0)}),
)


def filled(cls, values):
    m = cls()
    for k, v in values.items():
        setattr(m, k, v)
    return m


def fields(env, tag=''):
    cls, pool = env.choice('message', MESSAGES)
    return cls, {k: env.choice(f'{k}{tag}', v) for k, v in pool.items()}, {k: v[0] for k, v in pool.items()}


def splitting(env):
    """MessageToFields"""
    cls, values, first = fields(env)
    node = make(message_converters.MessageToFields, {'input_type': cls})
    start(env, node)
    between(env, node, {'in': filled(cls, first)}, SUCCEEDED, {k: v for k, v in first.items() if k in node.node_config.outputs})
    m = filled(cls, values)
    put(env, node, {'in': m})
    env.check(all(k in node.node_config.outputs for k in values), 'there is an output for every field')
    expect(env, node, {'in': m}, SUCCEEDED, values)


def joining(env):
    """FieldsToMessage"""
    cls, values, first = fields(env)
    node = make(message_converters.FieldsToMessage, {'output_type': cls})
    env.check(all(k in node.node_config.inputs for k in values), 'there is an input for every field')
    how = env.choice('inputs', ('static', 'wired'))
    for k in first:
        c = node.node_config.inputs[k]
        c.is_static = how == 'static'
        if how == 'wired':
            c.reset_value()
    if how == 'static':
        put(env, node, values)
        start(env, node)
    else:
        start(env, node)
        between(env, node, first, SUCCEEDED, {'out': filled(cls, first)})
        put(env, node, values)
    put(env, node, {} if how == 'static' else values)
    expect(env, node, values, SUCCEEDED, {'out': filled(cls, values)})


ENUMS = (NodeState, T.NodeDataType, UtilityBounds, std_msgs.msg.Int64)


def constants_of(env):
    """EnumFields"""
    cls = env.choice('message', ENUMS)
    node = make(enum.EnumFields, {'ros_message_type': cls})
    want = {k: getattr(cls, k) for k in dir(type(cls)) if k.isupper() and k[0] != '_'}
    env.check(set(node.node_config.outputs) == set(want), 'there is an output for every constant')
    start(env, node)
    for _ in range(env.choice('ticks', (1, 2))):
        expect(env, node, {}, SUCCEEDED, want)


class Moment:
    def __init__(self, sec, nanosec):
        self.sec, self.nanosec = sec, nanosec

    def to_msg(self):
        return Time(sec=self.sec, nanosec=self.nanosec)


class Moments:
    def __init__(self, env):
        self._vc_env, self._vc_last = env, None

    def now(self):
        self._vc_last = Moment(self._vc_env.choice('s', (0, 5)), self._vc_env.choice('ns', (0, 7)))
        return self._vc_last


def now(env):
    """GetTimeNow"""
    node = make(time.GetTimeNow)
    if env.choice('ros', (True, False)):
        clock = Moments(env)
        node.ros_node = FakeRos(clock)
    else:
        env.check(node.setup().is_err(), 'a node that needs ROS is not set up without it')
        return
    start(env, node)
    for _ in range(env.choice('ticks', (1, 2))):
        r = node.tick()
        env.check(r.is_ok() and r.ok() == SUCCEEDED, 'the time can always be read')
        env.check(node.node_config.outputs['current_time'].get_value().ok() == clock._vc_last.to_msg(), 'the time is the present one')


class Parameter:
    def __init__(self, v):
        self.value = v


class Parameters(FakeRos):
    def __init__(self, values):
        self._vc_values = values

    def has_parameter(self, name):
        return name in self._vc_values

    def get_parameter(self, name):
        return Parameter(self._vc_values[name])


def parameter(env):
    """RosParam"""
    t = env.choice('type', (bool, int, float))
    node = make(param.RosParam, {'param_type': t})
    known = {'a': value(env, 'a', t), 'none': None, 'odd': 'text'}
    env.assume(t is not float or -LARGE <= known['a'] <= LARGE)
    if not env.choice('ros', (True, False)):
        env.check(node.setup().is_err(), 'a node that needs ROS is not set up without it')
        return
    node.ros_node = Parameters(known)
    start(env, node)
    between(env, node, {'param_name': 'none', 'default_value': t(1)}, SUCCEEDED, {'param': t(1)})
    values = {'param_name': env.choice('name', ('a', 'none', 'odd', 'missing')), 'default_value': value(env, 'default', t)}
    put(env, node, values)
    n = values['param_name']
    if n == 'missing':
        expect(env, node, values, FAILED)
    elif n == 'odd':
        expect(env, node, values, ERROR)
    else:
        expect(env, node, values, SUCCEEDED, {'param': known['a'] if n == 'a' else values['default_value']})


# -- harnesses -----------------------------------------------------------------------------------------------------------------
LIST3 = 'lists of up to three items'
VALUES = 'values from a list'
INTS = (0, 1, 2, -3, 62, 63, 64, -1)
FLOATS = (0.0, 0.5, 1.0, -1.0, 2.0, -2.5, 1e300, 171.5)


def harness(name, run, limit=None, **kw):
    h = {'name': name, 'run': run, 'native': True, **kw}
    if limit:
        h['limit'] = limit
    return h


HARNESSES = [
    harness('binary-int', binary(int, ANY_INT, None)),
    harness('binary-int-bits', binary(int, tuple(n for n in BINARY if n not in ANY_INT), INTS), VALUES),
    harness('binary-float', binary(float, (*LINEAR, 'mul', '*', 'div', '/', 'truediv'), None)),
    harness('binary-float-others', binary(float, tuple(n for n in BINARY if n not in (*LINEAR, 'mul', '*', 'div', '/', 'truediv')), FLOATS), VALUES),
    harness('binary-bool', binary(bool, tuple(BINARY), (False, True))),
    harness('unary-int', unary(int, ('neg', '-', 'pos', '+', 'not', 'inv', '~'), None)),
    harness('unary-int-others', unary(int, tuple(n for n in UNARY if n not in ('neg', '-', 'pos', '+', 'not', 'inv', '~')), (-1, 0, 1, 2, 5, 20, 21, 171)), VALUES),
    harness('unary-float', unary(float, ('neg', '-', 'pos', '+', 'not'), None)),
    harness('unary-float-others', unary(float, tuple(n for n in UNARY if n not in ('neg', '-', 'pos', '+', 'not')), FLOATS), VALUES),
    harness('unary-bool', unary(bool, tuple(UNARY), (False, True))),
    harness('convert', convert, VALUES),
    harness('compare', comparison, LIST3), harness('compare-new', news, 'two ticks'), harness('less', less),
    harness('passing', passing, LIST3), harness('constant', constants, LIST3),
    harness('list-length', length, LIST3), harness('list-insert', insertion, LIST3), harness('list-contains', membership, LIST3),
    harness('list-append', appending, LIST3), harness('dict-set', dict_setting, LIST3),
    harness('list-get', list_item, LIST3), harness('dict-get', dict_item, LIST3), harness('dict-get-several', dict_items, LIST3),
    harness('attribute-get', attribute, VALUES), harness('attribute-set', attribute_setting, VALUES),
    harness('iterate', iteration(True), 'lists of up to three items, five steps'),
    harness('iterate-alone', iteration(False), 'lists of up to three items, five steps'),
    harness('concatenate', concatenation, VALUES), harness('format', formatting, VALUES), harness('format-list', formatting_list, VALUES),
    harness('conversions', casing, VALUES), harness('extension', extension, VALUES), harness('random', random_int),
    harness('yaml-list', lambda env: loaded(env, list), 'files from a list'), harness('yaml-dict', lambda env: loaded(env, dict), 'files from a list'),
    harness('constants', constants_of, 'messages from a list'), harness('now', now, VALUES), harness('parameter', parameter),
    harness('message-to-fields', splitting, VALUES), harness('fields-to-message', joining, VALUES),
]
META = {'trusted': ['the functions of math and the operators of Python are what the operations stand for',
                    'random.randrange gives any number of its range', 'yaml.safe_load gives the data of a file'],
        'assumptions': ['floats are finite reals in sums, differences, products and comparisons; NaN is not considered']}
