"""C15: a source container that is declared compatible only holds values its target accepts."""
from ros_bt_py import data_types as T
from specs.values import (Bool, Bytes, Dict, Float, Int, LimitedInt, LimitedStr, List, Message, Name, Path, Reference, ReferenceDict, ReferenceList,
                          RosClass, Sized, Str, TypeDict, of, refused, stand_ins)


class FreeBytes(Bytes):
    def __init__(self, env, tag=''):
        super().__init__(env, tag)
        self.values = None


class OtherMessage(Message):
    def __init__(self, env, tag=''):
        super().__init__(env, tag)
        if env.choice('class' + tag, (0, 1)):
            self.CLASS, self.OTHER = self.OTHER, self.CLASS

    def draw(self, name):
        return self.CLASS()

    def valid(self, v):
        return type(v) is self.CLASS

    def same(self, a, b):
        return a == b


def longest(k):
    return T.INT_FLOAT_MAX if k.length is None else k.length


def within(env, a, b):
    """The declared constraints of b are at least as narrow as those of a (same kind of container)."""
    if isinstance(a, (Int, Float)):
        (al, ah), (bl, bh) = a.bounds(), b.bounds()
        return env.and_(bl >= al, bh <= ah)
    if isinstance(a, Bytes):
        return (1 if b.length is None else b.length) <= (1 if a.length is None else a.length)
    if isinstance(a, Str):
        ok = longest(b) <= longest(a)
        if a.values is not None:
            ok = env.and_(ok, b.values is not None,
                          *[env.or_(*[v == o for o in a.values]) for v in b.values or ()])
        return ok
    if isinstance(a, Name):
        return a.cls is b.cls and a.iface == b.iface
    if isinstance(a, (List, Dict)):
        ok = longest(b) <= longest(a)
        if a.strict:
            ok = env.and_(b.strict, longest(b) == longest(a))
        return env.and_(ok, within(env, a.element, b.element))
    if isinstance(a, TypeDict):
        return set(b.allowed) <= set(a.allowed)
    if isinstance(a, RosClass):
        return a.cls is b.cls
    if isinstance(a, Message):
        return a.CLASS is b.CLASS
    return True


def wider(x, y):
    return not (x['allow_static'] and not y['allow_static']) and not (x['allow_dynamic'] and not y['allow_dynamic'])


def accepts(env, a, kb, ca):
    v = kb.draw('v')
    env.assume(kb.valid(v))
    v = kb.convert(v)
    env.check(refused(ca.set_value, v) == '', 'the target accepts every value of a compatible source')
    env.check(a.same(ca.get_value().ok(), v), 'the target holds the value of the source')
    env.cover('delivered')


def pair(kind):
    def run(env):
        stand_ins(env)
        a, b = kind(env, ' a'), kind(env, ' b')
        xa, xb = env.choice('access a', a.access), env.choice('access b', b.access)
        ca, cb = a.make(**xa), b.make(**xb)
        if env.choice('subject', ('as declared', 'at run time')) == 'as declared':
            env.check(ca.is_compatible(ca), 'a container is compatible with itself')
            ok = ca.is_compatible(cb)
            want = env.and_(wider(xa, xb), within(env, a, b))
        else:
            ca, cb = ca.get_runtime_type(), cb.get_runtime_type()
            env.check(ca.is_compatible(ca), 'the run-time type is compatible with itself')
            ok = ca.is_compatible(cb)
            want = env.and_(xa['is_static'] == xb['is_static'], within(env, a, b))
        ok = True if ok else False
        env.check(ok == want, 'compatible exactly if the constraints of the source are as narrow as those of the target')
        if ok:
            accepts(env, a, b, ca)
        else:
            env.cover('incompatible')
    return run


KINDS = (lambda **x: T.BoolType(**x), lambda **x: T.IntType(min_value=0, max_value=1, **x), lambda **x: T.FloatType(**x),
         lambda **x: T.StringType(**x), lambda **x: T.PathType(**x), lambda **x: T.BytesType(**x),
         lambda **x: T.RosTopicName(**x), lambda **x: T.RosServiceName(**x), lambda **x: T.RosActionName(**x),
         lambda **x: T.ListType(element_type=T.IntType(), **x), lambda **x: T.ListType(element_type=T.StringType(), **x),
         lambda **x: T.ListType(element_type=T.ListType(element_type=T.IntType()), **x),
         lambda **x: T.DictType(element_type=T.IntType(), **x), lambda **x: T.DictType(element_type=T.BoolType(), **x),
         lambda **x: T.RosMessageType(message_type=Message.CLASS, **x), lambda **x: T.ReferenceType(reference='t', **x),
         lambda **x: T.ReferenceListType(reference='t', **x), lambda **x: T.ReferenceDictType(reference='t', **x))


def different(env):
    """Containers of different kinds are never compatible."""
    stand_ins(env)
    i = env.choice('kind a', tuple(range(len(KINDS))))
    j = env.choice('kind b', tuple(range(len(KINDS))))
    if i == j:
        return
    ca, cb = (KINDS[n](**env.choice('access' + t, Bool.access)) for n, t in ((i, ' a'), (j, ' b')))
    env.check(not ca.is_compatible(cb), 'containers of different types are not compatible')
    env.check(not ca.get_runtime_type().is_compatible(cb.get_runtime_type()), 'containers of different types are not compatible')
    env.cover('different')


def references(kind, target):
    """A reference is, at run time, a container of the type it refers to."""
    def run(env):
        stand_ins(env)
        r = kind(env, ' r')
        x = env.choice('access r', r.access)
        c = r.make(**x)
        k = target(env, r, ' k')
        y = env.choice('access k', k.access)
        d = k.make(**y)
        back = env.choice('direction', ('reference reads', 'reference writes'))
        a, b = (c, d) if back == 'reference reads' else (d, c)
        ok = True if a.get_runtime_type().is_compatible(b.get_runtime_type()) else False
        full = full_kind(env, r, target)
        want = env.and_(x['is_static'] == y['is_static'], within(env, full, k) if back == 'reference reads' else within(env, k, full))
        env.check(ok == want, 'a reference is compatible exactly like the type it refers to')
        if ok:
            accepts(env, full if a is c else k, full if b is c else k, a.get_runtime_type())
        else:
            env.cover('incompatible')
    return run


def same_element(env, r, tag):
    return type(r.kind)(env, tag)


def listed(cls):
    def make(env, r, tag):
        return of(cls, type(r.kind))(env, tag)
    return make


def full_kind(env, r, target):
    if target is same_element:
        return r.kind
    k = List.__new__(List) if isinstance(r, ReferenceList) and not isinstance(r, ReferenceDict) else Dict.__new__(Dict)
    k.env, k.tag, k.element, k.length, k.strict = env, ' full', r.kind, None, False
    return k


def same_reference(env):
    """As declared, a reference is compatible with references to the same data only."""
    stand_ins(env)
    a, b = env.choice('name a', ('t', 'u')), env.choice('name b', ('t', 'u'))
    cls = (T.ReferenceType, T.ReferenceListType, T.ReferenceDictType)
    ka, kb = env.choice('kind a', (0, 1, 2)), env.choice('kind b', (0, 1, 2))
    x, y = env.choice('access a', Bool.access), env.choice('access b', Bool.access)
    ca, cb = cls[ka](reference=a, **x), cls[kb](reference=b, **y)
    env.check(ca.is_compatible(cb) == (ka == kb and a == b and wider(x, y)),
              'references are compatible exactly if they refer to the same data in the same way')


def element_access(env):
    """Whether an element is static or dynamic does not matter, only what the list itself is."""
    stand_ins(env)
    cls = env.choice('class', (T.ListType, T.DictType))
    x, y = env.choice('element a', Bool.access), env.choice('element b', Bool.access)
    a, b = cls(element_type=T.IntType(**x)), cls(element_type=T.IntType(**y))
    env.check(a.is_compatible(b), 'the access of the elements of a list is ignored')
    env.check(a.get_runtime_type().is_compatible(b.get_runtime_type()), 'the access of the elements of a list is ignored')


LISTS = 'lists and dictionaries of up to two items, up to two allowed values, strings of up to 100 characters'
HARNESSES = [
    {'name': 'bool', 'run': pair(Bool), 'native': True},
    {'name': 'int', 'run': pair(Int), 'native': True},
    {'name': 'float', 'run': pair(Float), 'native': True},
    {'name': 'string', 'run': pair(Str), 'native': True, 'limit': LISTS},
    {'name': 'path', 'run': pair(Path), 'native': True, 'limit': LISTS},
    {'name': 'bytes', 'run': pair(FreeBytes), 'native': True, 'limit': 'a few byte strings'},
    {'name': 'name', 'run': pair(Name), 'native': True},
    {'name': 'list-int', 'run': pair(of(List, LimitedInt)), 'native': True, 'limit': LISTS},
    {'name': 'list-str', 'run': pair(of(List, LimitedStr)), 'native': True, 'limit': LISTS},
    {'name': 'list-list', 'run': pair(of(List, of(List, LimitedInt, Sized), Sized)), 'native': True, 'limit': LISTS},
    {'name': 'list-dict', 'run': pair(of(List, of(Dict, LimitedInt, Sized), Sized)), 'native': True, 'limit': LISTS},
    {'name': 'dict-int', 'run': pair(of(Dict, LimitedInt)), 'native': True, 'limit': LISTS},
    {'name': 'dict-list', 'run': pair(of(Dict, of(List, LimitedStr, Sized), Sized)), 'native': True, 'limit': LISTS},
    {'name': 'type', 'run': pair(TypeDict), 'native': True, 'limit': 'descriptions of types from a list'},
    {'name': 'ros-class', 'run': pair(RosClass), 'native': True, 'limit': 'interface classes from a list'},
    {'name': 'message', 'run': pair(OtherMessage), 'native': True, 'limit': 'messages of two classes'},
    {'name': 'different', 'run': different, 'native': True},
    {'name': 'reference', 'run': references(Reference, same_element), 'native': True, 'limit': 'references to numbers, strings and booleans'},
    {'name': 'reference-list', 'run': references(ReferenceList, listed(List)), 'native': True, 'limit': LISTS},
    {'name': 'reference-dict', 'run': references(ReferenceDict, listed(Dict)), 'native': True, 'limit': LISTS},
    {'name': 'element-access', 'run': element_access, 'native': True},
    {'name': 'same-reference', 'run': same_reference, 'native': True},
]
META = {'trusted': ['a NodeDataType message holds what is assigned to its fields', 'int(str(x)) and float(str(x)) give x back'],
        'assumptions': ['floats are finite reals; NaN is not considered', 'BytesType has no list of allowed values (it cannot be put in a message)']}
