"""C16: values and types survive serialisation."""
import geometry_msgs.msg
import numpy
import std_msgs.msg

from ros_bt_py import data_types as T
from specs.c14 import unchanged
from specs.c15 import FreeBytes
from specs.values import (Bool, Dict, Float, Int, Kind, LimitedInt, LimitedStr, List, Name, Path, Reference, ReferenceDict, ReferenceList,
                          RosClass, Sized, Str, TypeDict, of, refused, stand_ins)


def messages():
    g, s = geometry_msgs.msg, std_msgs.msg
    dim = s.MultiArrayDimension(label='x', size=2, stride=3)
    return (
        (s.Int64, s.Int64(data=-2**63), s.Int64(data=2**63 - 1)), (s.UInt64, s.UInt64(data=2**64 - 1), s.UInt64()),
        (s.String, s.String(data='"ä\\\n'), s.String()), (s.Bool, s.Bool(data=True), s.Bool()),
        (s.Float64, s.Float64(data=0.1), s.Float64(data=-1e300)), (s.Float32, s.Float32(data=0.5), s.Float32()),
        (s.Byte, s.Byte(data=b'\xff'), s.Byte()), (s.Char, s.Char(data=200), s.Char()), (s.Empty, s.Empty(), s.Empty()),
        (s.Header, s.Header(frame_id='map'), s.Header()), (s.ColorRGBA, s.ColorRGBA(r=0.5), s.ColorRGBA()),
        (s.Int32MultiArray, s.Int32MultiArray(data=[1, -2], layout=s.MultiArrayLayout(dim=[dim, dim])), s.Int32MultiArray()),
        (s.Float64MultiArray, s.Float64MultiArray(data=[0.5]), s.Float64MultiArray()),
        (s.ByteMultiArray, s.ByteMultiArray(data=[b'a', b'\x00']), s.ByteMultiArray()),
        (g.PoseWithCovariance, g.PoseWithCovariance(covariance=numpy.arange(36.0)), g.PoseWithCovariance()),
        (g.Polygon, g.Polygon(points=[g.Point32(x=1.0), g.Point32(y=2.5)]), g.Polygon()),
    )


MESSAGES = messages()


class AnyMessage(Kind):
    """RosMessageType: messages of several classes, with nested messages and arrays"""

    def __init__(self, env, tag=''):
        super().__init__(env, tag)
        self.n = env.choice('class' + tag, tuple(range(len(MESSAGES))))

    def make(self, **kw):
        return T.RosMessageType(message_type=MESSAGES[self.n][0], **kw)

    def draw(self, name):
        return MESSAGES[self.n][1 + self.env.choice(name, (0, 1))]

    def valid(self, v):
        return type(v) is MESSAGES[self.n][0]

    def same(self, a, b):
        return type(a) is type(b) and all(same_field(getattr(a, f), getattr(b, f)) for f in a.get_fields_and_field_types())


def same_field(a, b):
    if hasattr(a, 'get_fields_and_field_types'):
        return type(a) is type(b) and all(same_field(getattr(a, f), getattr(b, f)) for f in a.get_fields_and_field_types())
    if isinstance(a, (str, bytes, int, float)):
        return a == b and type(a) is type(b)
    return type(a) is type(b) and len(a) == len(b) and all(same_field(x, y) if hasattr(x, 'get_fields_and_field_types') else x == y
                                                            for x, y in zip(a, b))


def values(kind):
    """A value that is written and read by a container of the same type is the same value."""
    def run(env):
        stand_ins(env)
        k = kind(env)
        c, x = prepare(env, k)
        text = c.serialize_value()
        env.check(isinstance(text, str), 'a value is written as a string')
        if not c.has_value():
            env.check(text == '', 'no value is written as nothing')
            return
        v = c.get_value().ok()
        env.assume(k.valid(v))
        d, _ = prepare(env, k, x)
        env.check(refused(d.deserialize_value, text) == '', 'a value that was written is read')
        env.check(d.has_value() and k.same(d.get_value().ok(), v), 'the value read is the value written')
        env.check(k.same(c.get_value().ok(), v), 'writing a value does not change it')
        env.cover('read')
    return run


def prepare(env, k, x=None):
    tag = '' if x is None else ' of the reader'
    x = env.choice('access', k.access) if x is None else x
    c = k.make(**x)
    how = env.choice('state' + tag, ('default', 'set', 'cleared') if tag == '' else ('default', 'cleared'))
    if how == 'set':
        v = k.draw('v')
        env.assume(k.valid(v))
        env.assume(refused(c.set_value, v) == '')
    elif how == 'cleared':
        c.reset_value()
    return c, x


FIELDS = ('type_identifier', 'value_type_identifier', 'allow_dynamic', 'allow_static', 'is_static', 'serialized_value_options',
          'min_value', 'max_value', 'string_max_length', 'iterable_max_length', 'iterable_strict_length', 'reference_target',
          'ros_interface_kind', 'ros_msg_type', 'interface_id')


def plain(v):
    return v if isinstance(v, (str, int, bool, float)) else list(v)


def types(kind):
    """A type that is written and read accepts the same values and is written in the same way."""
    def run(env):
        stand_ins(env)
        k = kind(env)
        x = env.choice('access', k.access)
        c = k.make(**x)
        m = c.serialize_type()
        r = T.get_iotype_for_msg(m)
        env.check(r.is_ok(), 'a type that was written is read')
        d = r.ok()
        env.check(type(d) is type(c), 'the type read is the type written')
        env.check((d.allow_static, d.allow_dynamic, d.is_static) == (c.allow_static, c.allow_dynamic, c.is_static),
                  'the type read has the access of the type written')
        if isinstance(k, Reference):
            env.check(d.set_type_map(k.map).is_ok(), 'the reference read is the reference written')
        back = d.serialize_type()
        for f in FIELDS:
            env.check(plain(getattr(m, f)) == plain(getattr(back, f)), f'the type read is written like the type written ({f})')
        v = k.draw('v')
        got, want = refused(d.set_value, v), refused(c.set_value, v)
        env.check((got == '') == (want == ''), 'the type read accepts the same values')
        if got == '':
            env.check(k.same(d.get_value().ok(), c.get_value().ok()), 'the type read accepts the same values')
            env.cover('accepted')
    return run


TEXTS = ('', '{', 'nul', '"', '[1,', 'null', 'true', '1', '-7', '1.5', '"x"', '"zz"', '"61"', '[]', '[1]', '[[1]]', '["a", "b"]', '{}',
         '{"a": 1}', '{"a": "x"}', '{"a": [1]}', '{"data": "x"}', '{"data": 5}', '{"data": [1]}', '{"nope": 1}', '"file://a"',
         '{"type_identifier": 2}', '{"type_identifier": 99}', '{"type_identifier": 2, "min_value": "a", "max_value": "b"}',
         '{"type_identifier": 2, "min_value": "1", "max_value": "2"}', '{"type_identifier": 5, "max_length": 3, "strict_length": false}',
         '{"type_identifier": 5, "max_length": 3, "strict_length": false, "element_type": {}}',
         '{"type_identifier": 5, "max_length": 3, "strict_length": false, "element_type": 1}',
         '"foo/msg/Bar"', '"std_msgs/msg/Bar"', '"std_msgs"', '"std_msgs/msg/String"', '"std_srvs/srv/Trigger"', '"/a"')


def malformed(kind):
    """Whatever text is read: either the container holds a legal value afterwards, or the text is refused and nothing changes."""
    def run(env):
        k = kind(env)
        c, _ = prepare(env, k)
        had, old, upd = c.has_value(), c.get_value(), c.is_updated()
        text = env.choice('text', TEXTS)
        if refused(c.deserialize_value, text) == '':
            env.check(c.has_value() and k.valid(c.get_value().ok()), 'a text that is read gives a value of the type')
            env.cover('read')
        else:
            unchanged(env, k, c, had, old, upd)
            env.cover('refused')
    return run


def bad_types(env):
    """A message that describes no type is refused."""
    m = T.NodeDataType(type_identifier=env.choice('type', tuple(range(17)) + (99, 255)), allow_static=True, is_static=True,
                       min_value='0', max_value='1')
    what = env.choice('what', ('bare', 'interface', 'list of', 'unknown message'))
    if what == 'interface':
        m.ros_interface_kind = env.choice('kind', (1, 2, 3, 4, 9))
    if what == 'list of':
        m.value_type_identifier = [env.choice('element', (0, 2, 5, 99))]
        m.iterable_max_length = [3]
        m.iterable_strict_length = [False]
    if what == 'unknown message':
        m.ros_interface_kind = 1
        m.ros_msg_type = env.choice('message', ('', 'foo', 'foo/msg/Bar', 'std_msgs/msg/Nope'))
    try:
        r = T.get_iotype_for_msg(m)
    except IndexError:
        return    # a GenericType without any type: not produced by serialize_type
    if r.is_ok():
        d = r.ok()
        env.check(d.type_identifier == m.type_identifier, 'a message gives a container of its type or an error')
        env.check(d.serialize_type().type_identifier == m.type_identifier, 'a message gives a container of its type or an error')
        env.cover('read')
    else:
        env.check(m.type_identifier not in (1, 2, 3, 4, 7, 8, 13, 14, 15), 'a message that describes a type is read')
        env.cover('refused')


LISTS = 'lists and dictionaries of up to two items, up to two allowed values, strings of up to 100 characters'
NESTED = 'nested lists and dictionaries of up to one item'
POOL = 'values from a list'
CASES = (
    ('bool', Bool, None), ('int', Int, None), ('float', Float, None), ('string', Str, LISTS), ('path', Path, LISTS),
    ('bytes', FreeBytes, POOL), ('name', Name, None), ('list-int', of(List, LimitedInt), LISTS), ('list-float', of(List, Float, Sized), NESTED),
    ('list-str', of(List, LimitedStr), LISTS), ('dict-int', of(Dict, LimitedInt), LISTS), ('dict-str', of(Dict, LimitedStr), LISTS),
    ('list-list', of(List, of(List, LimitedInt, Sized), Sized), NESTED), ('dict-list', of(Dict, of(List, LimitedInt, Sized), Sized), NESTED),
    ('list-dict', of(List, of(Dict, LimitedStr, Sized), Sized), NESTED), ('type', TypeDict, POOL), ('ros-class', RosClass, POOL),
    ('message', AnyMessage, POOL), ('list-message', of(List, AnyMessage, Sized), POOL), ('reference', Reference, POOL), ('reference-list', ReferenceList, LISTS),
    ('reference-dict', ReferenceDict, LISTS),
)


def harness(name, run, limit):
    h = {'name': name, 'run': run, 'native': True}
    if limit:
        h['limit'] = limit
    return h


HARNESSES = [harness('value-' + n, values(k), limit) for n, k, limit in CASES] + \
            [harness('type-' + n, types(k), limit) for n, k, limit in CASES] + \
            [dict(harness('malformed-' + n, malformed(k), 'texts from a list'), ) for n, k, _ in CASES
               if n not in ('list-float', 'dict-str', 'dict-list', 'list-message', 'reference-dict')] + \
            [harness('bad-types', bad_types, 'messages from a list')]
META = {'trusted': ['json.loads(json.dumps(x)) gives x back for booleans, numbers, strings, lists and dictionaries with strings as keys',
                    'a NodeDataType message holds what is assigned to its fields', 'int(str(x)) and float(str(x)) give x back'],
        'assumptions': ['floats are finite reals; NaN is not considered',
                        'text may also be refused by a type error',
                        'BytesType has no list of allowed values (it cannot be put in a message)']}
