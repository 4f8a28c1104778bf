"""Data containers and their values (C14-C17): for each kind of container how to build one, draw values, and an independent
statement of which values it accepts."""
import copy
import json

import example_interfaces.action
import std_msgs.msg
import std_srvs.srv
from typeguard import TypeCheckError

from engine.core import is_sym
from ros_bt_py import data_types as T
from specs.execution import patch

INT_MIN, INT_MAX = -2**63, 2**64 - 1
ACCESS = ({'allow_static': True, 'allow_dynamic': True, 'is_static': False},
          {'allow_static': True, 'allow_dynamic': True, 'is_static': True},
          {'allow_static': True, 'allow_dynamic': False, 'is_static': True},
          {'allow_static': False, 'allow_dynamic': True, 'is_static': False})
TYPES_ONLY = (ACCESS[2],)


class Kind:
    """parameters drawn on construction; make(access) builds the container"""
    access = ACCESS
    mutable = False
    wrong = ()

    def __init__(self, env, tag=''):
        self.env, self.tag = env, tag

    def convert(self, v):
        return v

    def same(self, a, b):
        return a == b


class Bool(Kind):
    wrong = (0, 'True', None, [True], 1.0)

    def make(self, **kw):
        return T.BoolType(**kw)

    def draw(self, name):
        return self.env.choice(name, (True, False))

    def valid(self, v):
        return True


class Number(Kind):
    def __init__(self, env, tag=''):
        super().__init__(env, tag)
        self.lo = self.limit('min') if env.choice('has min' + tag, (False, True)) else None
        self.hi = self.limit('max') if env.choice('has max' + tag, (False, True)) else None
        if self.lo is not None and self.hi is not None:
            env.assume(self.lo <= self.hi)

    def make(self, **kw):
        return self.cls(min_value=self.lo, max_value=self.hi, **kw)

    def bounds(self):
        return (self.least if self.lo is None else self.lo), (self.most if self.hi is None else self.hi)

    def valid(self, v):
        lo, hi = self.bounds()
        return self.env.and_(v >= lo, v <= hi)


class Int(Number):
    cls = T.IntType
    least, most = INT_MIN, INT_MAX
    wrong = ('1', None, 1.5, [1], b'1')

    def limit(self, name):
        return self.env.int(name + self.tag, INT_MIN, INT_MAX, small=(-2, 3))

    def draw(self, name):
        return self.env.int(name + self.tag, None, None, small=(-3, 4))


class Float(Number):
    cls = T.FloatType
    least, most = T.FLOAT_LIMITS['double']
    wrong = ('1', None, [1.0], b'1')

    def limit(self, name):
        v = self.env.real(name + self.tag, (0.0, 1.0, -1.0, 2.0))
        self.env.assume(v >= self.least)
        self.env.assume(v <= self.most)
        return v

    def draw(self, name):
        if self.env.choice(name + ' as int', (False, True)):
            return self.env.int(name + self.tag, None, None, small=(-2, 3))
        return self.env.real(name + self.tag, (0.0, 1.0, -1.5, 0.5, 2.5, 1.2))

    def convert(self, v):
        return v


class Str(Kind):
    cls = T.StringType
    wrong = (1, None, b'a', ['a'], True)
    options = True

    def __init__(self, env, tag=''):
        super().__init__(env, tag)
        self.length = env.int('max length' + tag, 0, 50, small=(0, 8)) if env.choice('has length' + tag, (False, True)) else None
        n = env.choice('options' + tag, (None, 1, 2)) if self.options else None
        self.values = None if n is None else [self.draw(f'option {i}') for i in range(n)]

    def make(self, **kw):
        return self.cls(max_length=self.length, valid_values=self.values, **kw)

    def draw(self, name):
        v = self.env.str(name + self.tag, ('a', 'b', '', 'ab', 'abc', 'file://a', 'package://b', 'file:/c'))
        self.env.assume(len(v) <= 100)
        return v

    def size(self, v):
        return len(v)

    def valid(self, v):
        e = self.env
        ok = True
        if self.length is not None:
            ok = self.size(v) <= self.length
        if self.values is not None:
            ok = e.and_(ok, e.or_(*[v == o for o in self.values]))
        return ok


class Path(Str):
    cls = T.PathType

    def valid(self, v):
        return self.env.and_(super().valid(v), self.env.or_(v.startswith('file://'), v.startswith('package://')))


class Bytes(Kind):
    wrong = ('a', 1, None, [1])
    POOL = (b'a', b'', b'\x00', b'ab', b'\xff\x01', b'abc')

    def __init__(self, env, tag=''):
        super().__init__(env, tag)
        self.length = env.choice('max length' + tag, (None, 0, 1, 2))
        self.values = env.choice('options' + tag, (None, [b'a', b'ab']))

    def make(self, **kw):
        return T.BytesType(max_length=self.length, valid_values=self.values, **kw)

    def draw(self, name):
        return self.env.choice(name + self.tag, self.POOL)

    def valid(self, v):
        n = 1 if self.length is None else self.length
        return len(v) <= n and (self.values is None or v in self.values)


class Name(Kind):
    wrong = (1, None, ['a'])

    def __init__(self, env, tag=''):
        super().__init__(env, tag)
        self.cls = env.choice('interface' + tag, (T.RosTopicName, T.RosServiceName, T.RosActionName))
        self.iface = env.choice('interface id' + tag, (0, 3))

    def make(self, **kw):
        return self.cls(interface_id=self.iface, **kw)

    def draw(self, name):
        return self.env.str(name + self.tag, ('/a', '', 'b'))

    def valid(self, v):
        return True


class LimitedInt(Int):
    def __init__(self, env, tag=''):
        Kind.__init__(self, env, tag)
        self.lo, self.hi = self.limit('min'), self.limit('max')
        env.assume(self.lo <= self.hi)


class LimitedStr(Str):
    def __init__(self, env, tag=''):
        Kind.__init__(self, env, tag)
        self.length, self.values = env.int('max length' + tag, 0, 50, small=(0, 2)), None


class Items(Kind):
    mutable = True
    CAP = 2
    access = (ACCESS[1], ACCESS[3])
    of = LimitedInt

    def __init__(self, env, tag=''):
        super().__init__(env, tag)
        self.element = self.of(env, tag + ' element')
        self.length = env.int('max length' + tag, 0, 50, small=(0, 3)) if env.choice('has length' + tag, (False, True)) else None
        self.strict = env.choice('strict' + tag, (False, True)) if self.length is not None else False

    def make(self, **kw):
        return self.cls(element_type=self.element.make(), max_length=self.length, strict_length=self.strict, **kw)

    def fits(self, n):
        if self.length is None:
            return True
        return n == self.length if self.strict else n <= self.length

    def items(self, v):
        return v

    def valid(self, v):
        ok = self.fits(len(v))
        for x in self.items(v):
            ok = self.env.and_(ok, self.element.valid(x))
        return ok

    def same(self, a, b):
        if len(a) != len(b):
            return False
        return self.env.and_(True, *[self.element.same(x, y) for x, y in zip(a, b)])


class Sized:
    """mix-in: at most one item, always with a length"""
    CAP = 1

    def __init__(self, env, tag=''):
        Kind.__init__(self, env, tag)
        self.element = self.of(env, tag + ' element')
        self.length = env.int('max length' + tag, 0, 50, small=(0, 2))
        self.strict = env.choice('strict' + tag, (False, True))


class List(Items):
    cls = T.ListType
    wrong = (1, None, 'ab', {'a': 1}, (1,))

    def draw(self, name):
        n = self.env.choice(name + ' size' + self.tag, tuple(range(self.CAP + 1)))
        return [self.element.draw(f'{name} {i}') for i in range(n)]

    def spoil(self, v):
        v.append(77)


class Dict(Items):
    cls = T.DictType
    wrong = (1, None, 'ab', [1])
    KEYS = ('a', 2)

    def draw(self, name):
        n = self.env.choice(name + ' size' + self.tag, tuple(range(self.CAP + 1)))
        return {k: self.element.draw(f'{name} {k}') for k in self.KEYS[:n]}

    def items(self, v):
        return list(v.values())

    def convert(self, v):
        return {str(k): self.element.convert(x) for k, x in v.items()}

    def same(self, a, b):
        return set(a) == set(b) and self.env.and_(True, *[self.element.same(a[k], b[k]) for k in a])

    def spoil(self, v):
        v['spoilt'] = 77


ID, ELEMENT = T.IDENTIFIER_KEY, T.ELEMENT_KEY


def template(t, **change):
    d = dict(T.GENERIC_TYPE_MAP[t])
    d.update(change)
    return d


class TypeDict(Kind):
    """GenericType: a description of a type"""
    access = TYPES_ONLY
    mutable = True
    wrong = (1, 'int', None, [int])
    ALLOWED = ((int,), (str, list), (bool, int, list), tuple(T.GENERIC_TYPE_MAP))
    POOL = (template(int), template(int, min_value=3, max_value=4), template(str), template(bool), template(list),
            template(list, **{ELEMENT: template(int)}), template(list, **{ELEMENT: template(list, **{ELEMENT: template(str)})}),
            template(dict), template(float, min_value=0.5), template(object), {}, {ID: 99}, {ID: T.NodeDataType.INT_TYPE},
            {'min_value': 1}, template(str, extra=1), template(list, **{ELEMENT: {ID: 99}}))

    def __init__(self, env, tag=''):
        super().__init__(env, tag)
        self.allowed = env.choice('allowed' + tag, self.ALLOWED)

    def make(self, **kw):
        return T.GenericType(valid_types=list(self.allowed), **kw)

    def draw(self, name):
        return copy.deepcopy(self.env.choice(name + self.tag, self.POOL))

    def valid(self, v):
        for t in self.allowed:
            m = T.GENERIC_TYPE_MAP[t]
            if ID in v and m[ID] == v[ID] and set(m) == set(v):
                return ELEMENT not in v or self.valid(v[ELEMENT])
        return False

    def spoil(self, v):
        v['spoilt'] = 1


class RosClass(Kind):
    """RosTopicType and its relatives: a class of messages, services or actions"""
    access = TYPES_ONLY
    wrong = (1, 'std_msgs/msg/String', None)

    def __init__(self, env, tag=''):
        super().__init__(env, tag)
        self.cls, self.good = env.choice('interface' + tag, (
            (T.RosTopicType, 'msg'), (T.RosServiceType, 'srv'), (T.RosActionType, 'action'), (T.RosComponentType, 'msg')))

    def make(self, **kw):
        return self.cls(**kw)

    def draw(self, name):
        self.drawn = self.env.choice(name + self.tag, CLASSES)
        return self.drawn[0]

    def valid(self, v):
        return any(v is c and g == self.good for c, g in CLASSES)

    def same(self, a, b):
        return a is b


class Message(Kind):
    """RosMessageType: a message of one class"""
    mutable = True
    wrong = (1, None, {'data': 1}, 'a')
    CLASS, OTHER = std_msgs.msg.Int64, std_msgs.msg.String

    def make(self, **kw):
        return T.RosMessageType(message_type=self.CLASS, **kw)

    def draw(self, name):
        v = self.env.choice(name + self.tag, (0, 1, -5, 'other', 'class'))
        return self.CLASS if v == 'class' else self.OTHER(data='x') if v == 'other' else self.CLASS(data=v)

    def valid(self, v):
        return isinstance(v, self.CLASS) and v.data != SPOILT

    def same(self, a, b):
        return type(a) is type(b) and a.data == b.data

    def spoil(self, v):
        v.data = SPOILT


class Reference(Kind):
    """A reference, a list or a dictionary of references, to a type that is fixed"""

    def __init__(self, env, tag=''):
        super().__init__(env, tag)
        self.target = env.choice('target' + tag, tuple(TARGETS))
        self.kind = Kind.__new__(TARGETS[self.target])
        self.kind.env, self.kind.tag, self.kind.lo, self.kind.hi, self.kind.length, self.kind.values = env, tag, -2**63, 2**63 - 1, None, None
        self.map = {'t': T.GenericType(valid_types=[self.target], value=None), 'u': T.BoolType()}

    def link(self, c):
        self.env.check(refused(c.set_value, 1) != '' and not c.has_value(), 'a reference without target takes no value')
        self.env.check(refused(c.set_type_map, {}) != '', 'a reference to nothing is refused')
        self.env.check(c.set_type_map(self.map).is_ok(), 'a reference to a type is accepted')
        return c

    def make(self, **kw):
        return self.link(T.ReferenceType(reference='t', **kw))

    wrong = ((1,), None)

    def draw(self, name):
        return self.kind.draw(name)

    def valid(self, v):
        return self.kind.valid(v)


class ReferenceList(Reference):
    mutable = True

    def make(self, **kw):
        return self.link(T.ReferenceListType(reference='t', **kw))

    def draw(self, name):
        return [self.kind.draw(f'{name} {i}') for i in range(self.env.choice(name + ' size', (0, 1, 2)))]

    def valid(self, v):
        return self.env.and_(True, *[self.kind.valid(x) for x in v])

    def spoil(self, v):
        v.append((1,))

    def same(self, a, b):
        return len(a) == len(b) and self.env.and_(True, *[x == y for x, y in zip(a, b)])


class ReferenceDict(ReferenceList):
    def make(self, **kw):
        return self.link(T.ReferenceDictType(reference='t', **kw))

    def draw(self, name):
        return dict(zip(('a', 2), super().draw(name)))

    def convert(self, v):
        return {str(k): x for k, x in v.items()}

    def valid(self, v):
        return super().valid(list(v.values()))

    def same(self, a, b):
        return set(a) == set(b) and self.env.and_(True, *[a[k] == b[k] for k in a])

    def spoil(self, v):
        v['spoilt'] = (1,)


TARGETS = {int: LimitedInt, str: LimitedStr, bool: Bool}
SPOILT = 777
CLASSES = ((std_msgs.msg.String, 'msg'), (std_msgs.msg.Int64, 'msg'), (std_srvs.srv.Trigger, 'srv'),
           (std_srvs.srv.Trigger.Request, 'msg'), (example_interfaces.action.Fibonacci, 'action'), (int, ''))


def of(items, element, *mix):
    return type(items.__name__ + element.__name__, (*mix, items), {'of': element})


def refused(f, *a):
    """The error reported, if any; a value of another type may also be refused with a type error."""
    try:
        r = f(*a)
    except (TypeError, TypeCheckError, AttributeError):
        return 'type'
    return 'error' if r.is_err() else ''


# -- dependencies of data_types that carry symbolic values -----------------------------------------------------------------
class PlainMessage:
    """NodeDataType as a record of its fields; unsigned fields keep their range."""
    FIELDS = {'type_identifier': 0, 'value_type_identifier': list, 'allow_dynamic': False, 'allow_static': False, 'is_static': False,
              'serialized_value_options': list, 'min_value': '', 'max_value': '', 'string_max_length': 0,
              'iterable_max_length': list, 'iterable_strict_length': list, 'reference_target': '', 'ros_interface_kind': 0,
              'ros_msg_type': '', 'interface_id': 0}

    def __init__(self, **kw):
        for f, v in self.FIELDS.items():
            setattr(self, f, kw.pop(f) if f in kw else v() if v is list else v)
        assert not kw, f'NodeDataType has no field {sorted(kw)}'


for _n in dir(T.NodeDataType):
    if _n.isupper():
        setattr(PlainMessage, _n, getattr(T.NodeDataType, _n))


class Text:
    """json.dumps of data that holds symbolic values"""

    def __init__(self, data):
        self.data = data

    @property
    def __class__(self):
        return str

    def __eq__(self, other):
        return isinstance(other, Text) and self.data == other.data


class Json:
    """json: loads(dumps(x)) is x for booleans, numbers, strings, lists, and dictionaries with strings as keys"""
    JSONDecodeError = json.JSONDecodeError

    def dumps(self, obj, skipkeys=False, default=None):
        data, symbolic = self.plain(obj, default)
        return Text(data) if symbolic else json.dumps(data)

    def plain(self, x, default):
        if type(x) in (list, tuple):
            parts = [self.plain(v, default) for v in x]
            return [p[0] for p in parts], any(p[1] for p in parts)
        if type(x) is dict:
            parts = [(k, self.plain(v, default)) for k, v in x.items() if type(k) is str]
            return {k: p[0] for k, p in parts}, any(p[1] for k, p in parts)
        if isinstance(x, (bool, int, float, str, type(None))):
            return x, is_sym(x)
        return self.plain(default(x), default)

    def loads(self, s):
        return copy.deepcopy(s.data) if type(s) is Text else json.loads(s)


def stand_ins(env):
    if not env.concrete:
        patch(env, T, 'NodeDataType', PlainMessage)
        patch(env, T, 'json', Json())
