"""C28: helper functions."""
import os
import shutil
import struct
import tempfile
import uuid

import geometry_msgs.msg
import std_msgs.msg
from ros_bt_py import data_types as T, helpers, node, package_manager, ros_helpers
from ros_bt_py_interfaces.msg import NodeState, TreeState, UtilityBounds, Wiring
from ros_bt_py.vendor.result import Err, Ok

BASES = ('', 'a', 'a b', 'ä', 'a_', '_', '__', '7', 'a1', 'a_x', 'a_1_', 'a_1_2', 'a_-1', 'a_1 ', 'a_1\n', '\n', 'a_²', 'a_٣', 'a.b', 'a_1.x')
NUMBERS = (None, '0', '1', '2', '7', '9', '10', '99', '01', '009', '123456789012345678901234567890')


def names(env):
    """increment_name: the number at the end is raised by one, or 2 is added."""
    base = env.choice('base', BASES)
    number = env.choice('number', NUMBERS)
    name = base if number is None else f'{base}_{number}'
    i = len(name)
    while i > 0 and name[i - 1] in '0123456789':
        i -= 1
    digits = name[i:]
    stem, n = (name[:i - 1], int(digits)) if digits and i > 0 and name[i - 1] == '_' else (name, 1)
    got = node.increment_name(name)
    env.check(got == f'{stem}_{n + 1}', 'the number at the end is raised by one, or 2 is added')
    env.check(got != name, 'the new name is another one')
    seen = {name}
    for _ in range(12):
        env.check(got not in seen, 'names do not come back')
        seen.add(got)
        got = node.increment_name(got)
    env.cover('done')


def paths(env):
    """make_filepath_unique: a path that is not taken, in the same folder, with the same extension; the given one if it is free."""
    top = tempfile.mkdtemp(prefix='verif-c28-')
    env.defer(lambda: shutil.rmtree(top, ignore_errors=True))
    taken = env.choice('taken', ((), ('a.x',), ('a.x', 'a_2.x'), ('a.x', 'a_2.x', 'a_3.x', 'a_5.x'), ('a_2.x',), ('a_9.x', 'a_10.x', 'a'), ('.x', 'a.'), ('b/',)))
    for f in taken:
        if f.endswith('/'):
            os.mkdir(os.path.join(top, f))
        else:
            open(os.path.join(top, f), 'w').close()
    ask = env.choice('ask', ('a.x', 'a_2.x', 'a_9.x', 'a', 'b', '.x', 'a.', 'a.x.y'))
    got = package_manager.make_filepath_unique(os.path.join(top, ask))
    env.check(os.path.dirname(got) == top, 'the path is in the same folder')
    env.check(not os.path.lexists(got), 'the path is not taken')
    env.check(os.path.splitext(got)[1] == os.path.splitext(ask)[1], 'the extension stays')
    if not any(t.rstrip('/') == ask for t in taken):
        env.check(got == os.path.join(top, ask), 'a path that is free is kept')
    env.check(set(os.listdir(top)) == {t.rstrip('/') for t in taken}, 'nothing is created')
    env.cover('done')


HEX = '0123456789abcdef'


def ids(env):
    """uuid_to_ros and ros_to_uuid"""
    n = 0
    for i in range(8):
        n = n * 2**16 + env.choice(f'part {i}', (0, 1, 0xffff, 0x8000, 0x1234))
    u = uuid.UUID(int=n)
    text = ros_helpers.uuid_to_ros(u)
    env.check(isinstance(text, str), 'an id is written as text')
    back = ros_helpers.ros_to_uuid(text)
    env.check(back.is_ok() and back.ok() == u, 'an id is read as it was written')
    want = ''.join(HEX[n >> 4 * (31 - i) & 15] for i in range(32))
    env.check(text.replace('-', '') == want, 'an id is written with its digits')
    at = env.choice('at', (0, 7, 20, 35))
    bad = env.choice('bad', (text[:at] + 'g' + text[at + 1:], text[:at] + text[at + 1:] if text[at] != '-' else text + '0', '', 'x', text + text, ' '))
    r = ros_helpers.ros_to_uuid(bad)
    env.check(r.is_err(), 'a text that is no id is an error')
    env.cover('done')


A, B, C = (uuid.UUID(int=i) for i in (1, 2, 3))


def wirings(env):
    """wiring_has_id"""
    w = Wiring()
    s, t, x = env.choice('source', (A, B, C)), env.choice('target', (A, B, C)), env.choice('id', (A, B, C))
    w.source.node_id, w.target.node_id = str(s), str(t)
    env.check(ros_helpers.wiring_has_id(w, x) == (s == x or t == x), 'a wiring has the ids of its two ends')
    env.cover('done')


INTS = {'int8': 'b', 'int16': 'h', 'int32': 'i', 'int64': 'q', 'uint8': 'B', 'uint16': 'H', 'uint32': 'I', 'uint64': 'Q'}


def packs(code, v):
    try:
        struct.pack('<' + code, v)
        return True
    except (struct.error, OverflowError):
        return False


def limits(env):
    """int_limits_dict, float_limits_dict and the containers made of them"""
    name = env.choice('type', (*INTS, 'float', 'double', 'boolean', 'string'))
    if name in INTS:
        d = helpers.int_limits_dict(name)
        code = INTS[name]
        env.check(set(d) == {'min_value', 'max_value'}, 'there are two limits')
        env.check(packs(code, d['min_value']) and packs(code, d['max_value']), 'the limits fit the type')
        env.check(not packs(code, d['min_value'] - 1) and not packs(code, d['max_value'] + 1), 'nothing beyond the limits fits the type')
        c = T.get_message_field_io_type(name).unwrap()
        env.check(isinstance(c, T.IntType) and (c.min_value, c.max_value) == (d['min_value'], d['max_value']), 'a field has the limits of its type')
        for v in (d['min_value'], d['max_value']):
            c = T.get_message_field_io_type(name).unwrap()
            env.check(c.set_value(v).is_ok() and c.get_value().ok() == v, 'a limit is a value of the field')
        for v in (d['min_value'] - 1, d['max_value'] + 1):
            env.check(T.get_message_field_io_type(name).unwrap().set_value(v).is_err(), 'a value beyond the limits is refused')
    elif name in ('float', 'double'):
        d = helpers.float_limits_dict(name)
        code = 'f' if name == 'float' else 'd'
        env.check(packs(code, d['min_value']) and packs(code, d['max_value']), 'the limits fit the type')
        env.check(d['min_value'] == -d['max_value'], 'the limits are symmetric')
        top = struct.unpack('<f', b'\xff\xff\x7f\x7f')[0] if name == 'float' else struct.unpack('<d', b'\xff\xff\xff\xff\xff\xff\xef\x7f')[0]
        env.check(abs(d['max_value'] - top) <= top * 2**-25, 'the limit is the greatest value of the type')
    else:
        for f in (helpers.int_limits_dict, helpers.float_limits_dict):
            try:
                f(name)
            except KeyError:
                continue
            env.fail('there are no limits for other types')
    env.cover('done')


class Box:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def attributes(env):
    """rgetattr, rsetattr"""
    depth = env.choice('depth', (1, 2, 3, 4))
    boxes = [Box(x=1, y=2)]
    for _ in range(depth - 1):
        boxes.append(Box(x=10, y=20, z=boxes[-1]))
    boxes.reverse()
    path = '.'.join(['z'] * (depth - 1) + [env.choice('name', ('x', 'y', 'new'))])
    leaf = boxes[-1]
    last = path.split('.')[-1]
    before = [dict(b.__dict__) for b in boxes]
    if last == 'new':
        try:
            helpers.rgetattr(boxes[0], path)
            env.fail('an attribute that does not exist is an AttributeError')
        except AttributeError:
            pass
        env.check(helpers.rgetattr(boxes[0], path, 'default') == 'default', 'a default stands for an attribute that does not exist')
    else:
        env.check(helpers.rgetattr(boxes[0], path) == getattr(leaf, last), 'an attribute is found by its path')
    helpers.rsetattr(boxes[0], path, 'set')
    env.check(getattr(leaf, last) == 'set' and helpers.rgetattr(boxes[0], path) == 'set', 'an attribute is set by its path')
    before[-1][last] = 'set'
    env.check([b.__dict__ for b in boxes] == before, 'nothing else is changed')
    env.cover('done')


STATES = ('UNINITIALIZED', 'IDLE', 'UNASSIGNED', 'ASSIGNED', 'RUNNING', 'SUCCEEDED', 'FAILED', 'BROKEN', 'PAUSED', 'SHUTDOWN')


def messages(env):
    """BTNodeState, get_interface_name, get_message_constant_fields"""
    s = env.choice('state', STATES)
    env.check(getattr(helpers.BTNodeState, s) == getattr(NodeState, s) == s, 'the states of nodes are those of the message')
    cls, name = env.choice('message', ((NodeState, 'ros_bt_py_interfaces/msg/NodeState'), (std_msgs.msg.Int64, 'std_msgs/msg/Int64'),
                                       (geometry_msgs.msg.PoseStamped, 'geometry_msgs/msg/PoseStamped'), (TreeState, 'ros_bt_py_interfaces/msg/TreeState')))
    env.check(ros_helpers.get_interface_name(cls) == name, 'the name of an interface is the one it is imported by')
    have = ros_helpers.get_message_constant_fields(cls)
    want = {a for a in dir(type(cls)) if a[:1].isupper() and a.isupper()}
    env.check(have.is_ok() and set(have.ok()) == want and len(have.ok()) == len(want), 'the constants of a message are all found')
    env.check(ros_helpers.get_message_constant_fields(cls()).is_err(), 'what is no class is an error')
    env.cover('done')


class Broken(Exception):
    pass


def results(env):
    """Ok and Err: the laws that the nodes rely on"""
    good = env.choice('good', (True, False))
    v = env.choice('value', (0, 1, None, 'x', []))
    r = Ok(v) if good else Err(v)
    env.check(r.is_ok() == good and r.is_err() == (not good), 'a result is either of the two')
    env.check(r.ok() == (v if good else None) and r.err() == (None if good else v), 'a result has its value')
    env.check(r.unwrap_or('other') == (v if good else 'other'), 'a default stands for an error')
    env.check(r == (Ok(v) if good else Err(v)) and r != (Err(v) if good else Ok(v)), 'results are equal if they are alike')
    called = []
    mapped = r.map(lambda x: called.append(x) or ('m', x))
    env.check(mapped == (Ok(('m', v)) if good else Err(v)) and called == ([v] if good else []), 'map changes the value and leaves an error')
    called.clear()
    chained = r.and_then(lambda x: called.append(x) or Err('e'))
    env.check(chained == (Err('e') if good else Err(v)) and called == ([v] if good else []), 'and_then stops at an error')
    mapped = r.map_err(lambda x: ('m', x))
    env.check(mapped == (Ok(v) if good else Err(('m', v))), 'map_err changes the error and leaves a value')
    match r:
        case Ok(x):
            env.check(good and x == v, 'a result matches its own pattern')
        case Err(x):
            env.check(not good and x == v, 'a result matches its own pattern')
    for f, fine in ((r.unwrap, good), (r.unwrap_err, not good)):
        try:
            got = f()
        except Exception:
            env.check(not fine, 'a value that is there is taken out')
        else:
            env.check(fine and got == v, 'a value that is there is taken out')
    a, b = env.choice('a', (Ok(1), Err('a'))), env.choice('b', (Ok(2), Err('b')))
    got = ros_helpers.do(Ok((x, y)) for x in a for y in b)
    env.check(got == (a if a.is_err() else b if b.is_err() else Ok((1, 2))), 'do gives the first error')
    env.cover('done')


HARNESSES = [{'name': n, 'run': f, 'native': True, 'limit': 'values from lists'} for n, f in (
    ('names', names), ('paths', paths), ('ids', ids), ('wirings', wirings), ('limits', limits), ('attributes', attributes), ('messages', messages),
    ('results', results))]
HARNESSES[2]['prove'] = False
META = {'trusted': ['struct packs the numbers that fit a type'], 'assumptions': []}
