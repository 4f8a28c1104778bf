"""C14: a container holds only values of its type and limits. One step from every state a container can reach."""
from specs.values import (Bool, Bytes, Dict, Float, Int, LimitedInt, LimitedStr, List, Message, Name, Path, Reference, ReferenceDict, ReferenceList,
                          RosClass, Str, TypeDict, of, refused)


def scalar(kind):
    def run(env):
        k = kind(env)
        c = k.make(**env.choice('access', k.access))
        one_step(env, k, c)
    return run


def one_step(env, k, c):
    static = c.is_static
    env.check(c.is_updated() == False, 'a new container is not marked updated')
    # every state: the default, an accepted value, or no value; updated or not
    how = env.choice('value before', ('default', 'set', 'cleared'))
    if how == 'set':
        v0 = k.draw('v0')
        env.assume(k.valid(v0))
        env.check(refused(c.set_value, v0) == '', 'a value of the type and within the limits is accepted')
        env.check(k.same(c.get_value().ok(), k.convert(v0)), 'an accepted value is read back')
    elif how == 'cleared':
        c.reset_value()
        env.check(c.has_value() == static, 'clearing removes the value of a dynamic container only')
    if env.choice('updated', (False, True)):
        c.flag_updated()
        env.check(c.is_updated() == True, 'a container marked updated says so')
    else:
        c.reset_updated()
        env.check(c.is_updated() == False, 'a container not marked updated says so')
    had, old, upd = c.has_value(), c.get_value(), c.is_updated()
    env.check(had == old.is_ok(), 'a container has a value exactly if one can be read')
    op = env.choice('operation', ('set', 'wrong type', 'clear', 'flag'))
    if op == 'set':
        v = k.draw('v')
        legal = env.and_(k.valid(v), not (static and upd))
        r = refused(c.set_value, v)
        if r == '':
            env.check(legal, 'a value outside the type or limits, or for a locked container, is refused')
            now = c.get_value()
            env.check(now.is_ok() and k.same(now.ok(), k.convert(v)), 'an accepted value is read back')
            changed = True if old.is_err() else env.not_(k.same(old.ok(), k.convert(v)))
            env.check(c.is_updated() == env.or_(upd, changed), 'a container is marked updated if its value changed, and keeps its mark otherwise')
            env.cover('set')
            if k.mutable:
                k.spoil(v)
                env.check(k.valid(c.get_value().ok()), 'changing the object that was given changes nothing')
                k.spoil(c.get_value().ok())
                env.check(k.valid(c.get_value().ok()), 'changing the object that was read changes nothing')
        else:
            env.check(env.not_(legal), 'a value of the type and within the limits is accepted')
            unchanged(env, k, c, had, old, upd)
            env.cover('refused')
    elif op == 'wrong type':
        if not k.wrong:
            return
        v = env.choice('wrong', k.wrong)
        env.check(refused(c.set_value, v) != '', 'a value of another type is refused')
        unchanged(env, k, c, had, old, upd)
        env.cover('wrong type')
    elif op == 'clear':
        c.reset_value()
        if static:
            unchanged(env, k, c, had, old, upd)
        else:
            env.check(not c.has_value() and c.get_value().is_err(), 'clearing removes the value of a dynamic container only')
            env.check(c.is_updated() == upd, 'clearing does not touch the mark')
    else:
        c.reset_updated()
        unchanged(env, k, c, had, old, False)
        c.flag_updated()
        unchanged(env, k, c, had, old, True)


def unchanged(env, k, c, had, old, upd):
    env.check(c.has_value() == had, 'a refused value leaves the container as it was')
    now = c.get_value()
    env.check(now.is_ok() == old.is_ok(), 'a refused value leaves the container as it was')
    if had:
        env.check(k.same(now.ok(), old.ok()), 'a refused value leaves the container as it was')
    env.check(c.is_updated() == upd, 'a refused value leaves the container as it was')


def default(kind):
    def run(env):
        k = kind(env)
        c = k.make(**env.choice('access', k.access))
        if not c.is_static:
            return
        env.check(c.has_value() and k.valid(c.get_value().ok()), 'the default of a static number lies within its limits')
        env.cover('default')
    return run


LISTS = 'lists and dictionaries of up to two items, up to two allowed values, strings of up to 100 characters'
HARNESSES = [
    {'name': 'bool', 'run': scalar(Bool), 'native': True},
    {'name': 'int', 'run': scalar(Int), 'native': True},
    {'name': 'float', 'run': scalar(Float), 'native': True},
    {'name': 'string', 'run': scalar(Str), 'native': True, 'limit': LISTS},
    {'name': 'path', 'run': scalar(Path), 'native': True, 'limit': LISTS},
    {'name': 'bytes', 'run': scalar(Bytes), 'native': True, 'limit': 'a few byte strings'},
    {'name': 'name', 'run': scalar(Name), 'native': True},
    {'name': 'list-int', 'run': scalar(of(List, LimitedInt)), 'native': True, 'limit': LISTS},
    {'name': 'list-bool', 'run': scalar(of(List, Bool)), 'native': True, 'limit': LISTS},
    {'name': 'list-str', 'run': scalar(of(List, LimitedStr)), 'native': True, 'limit': LISTS},
    {'name': 'dict-int', 'run': scalar(of(Dict, LimitedInt)), 'native': True, 'limit': LISTS},
    {'name': 'dict-bool', 'run': scalar(of(Dict, Bool)), 'native': True, 'limit': LISTS},
    {'name': 'dict-str', 'run': scalar(of(Dict, LimitedStr)), 'native': True, 'limit': LISTS},
    {'name': 'type', 'run': scalar(TypeDict), 'native': True, 'limit': 'descriptions of types from a list'},
    {'name': 'ros-class', 'run': scalar(RosClass), 'native': True, 'limit': 'interface classes from a list'},
    {'name': 'message', 'run': scalar(Message), 'native': True, 'limit': 'messages of one class'},
    {'name': 'reference', 'run': scalar(Reference), 'native': True, 'limit': 'references to numbers, strings and booleans'},
    {'name': 'reference-list', 'run': scalar(ReferenceList), 'native': True, 'limit': LISTS},
    {'name': 'reference-dict', 'run': scalar(ReferenceDict), 'native': True, 'limit': LISTS},
    {'name': 'int-default', 'run': default(Int), 'native': True},
    {'name': 'float-default', 'run': default(Float), 'native': True},
]
META = {'assumptions': ['floats are finite reals; NaN is not considered',
                        'a value of another type may be refused by an error or by a type error']}
