"""Runtime the translated modules call (see transform.py)."""
import builtins
import functools
import types
import typing

import typeguard
import z3

from .core import Ctx, NumText, Sym, SymBool, SymInt, SymReal, SymStr, SymTok, Unsupported, ctx, num_term, str_term
from . import loops as L
from .loops import UNDEF, EnumSeq, MapSeq, RangeSeq, RevSeq, SymSeq, ZipSeq, isinstance_


class Loop(L.Loop):
    def leave(self):
        if self.cut:
            c = ctx()
            c.engine.drop_old(self)

    def left(self, v):
        self.leave()
        return v


def enter(name):
    c = Ctx.cur
    if c is not None:
        c.engine.functions.add(name)


def pick(loc, names, live):
    return {n: loc.get(n, UNDEF) if n in live else L.POISON for n in names}


def chk(o):
    c = Ctx.cur
    if c is not None and c.old:
        c.engine.check_old(o)
    return o


def chkm(o):
    """Receiver of a method whose name is that of a mutator."""
    c = Ctx.cur
    if c is not None and c.old and type(o) in (list, dict, set, bytearray):
        c.engine.check_old(o)
    return o


# -- the part of typeguard.typechecked that is kept ---------------------------------------------------
PLAIN = (builtins.str, builtins.bytes, builtins.int, builtins.float, builtins.bool, builtins.list, builtins.dict, builtins.tuple,
         builtins.type(None))
KEPT = (builtins.str, builtins.bytes, builtins.list, builtins.dict)


def _shape(a):
    """(container, types of its first item) of an annotation that is checked, or None"""
    if builtins.any(a is k for k in KEPT):
        return a, ()
    o = typing.get_origin(a)
    if o is builtins.list or o is builtins.dict:
        return o, builtins.tuple(x if builtins.any(x is k for k in KEPT) else None for x in typing.get_args(a))
    return None


def _fits(v, shape):
    """typeguard looks at the first item of a container only"""
    if builtins.type(v) not in PLAIN and builtins.type(v).__module__ not in ('array', 'numpy'):
        return True
    o, items = shape
    if not builtins.isinstance(v, o):
        return False
    if items and v and o is builtins.dict:
        k = builtins.next(builtins.iter(v))
        first = (k, v[k])
    else:
        first = v[:1] if items and o is builtins.list else ()
    return builtins.all(t is None or builtins.type(x) not in PLAIN or builtins.isinstance(x, t)
                        for x, t in builtins.zip(first, items))


def typed(f):
    if builtins.type(f) is not types.FunctionType:
        return f
    shapes = {n: _shape(a) for n, a in f.__annotations__.items()}
    back = shapes.pop('return', None)
    names = f.__code__.co_varnames[:f.__code__.co_argcount]
    given = [(i, n, shapes[n]) for i, n in builtins.enumerate(names) if shapes.get(n) is not None]
    if not given and back is None:
        return f

    @functools.wraps(f)
    def g(*a, **k):
        for i, n, shape in given:
            v = a[i] if i < builtins.len(a) else k[n] if n in k else UNDEF
            if v is not UNDEF and not _fits(v, shape):
                raise typeguard.TypeCheckError(f'argument "{n}" is not an instance of {shape[0].__name__}')
        r = f(*a, **k)
        if back is not None and not _fits(r, back):
            raise typeguard.TypeCheckError('the return value is not an instance of the declared type')
        return r
    return g


def seqlike(v):
    return isinstance_(v, SymSeq) or isinstance_(v, EnumSeq) or isinstance_(v, ZipSeq)


class GenNative:
    pass


def genexp(f, pred, it):
    if seqlike(it):
        return MapSeq(it, f, pred)
    if pred is None:
        return (f(x) for x in it)
    return (f(x) for x in it if pred(x))


def listcomp(f, pred, it):
    if seqlike(it):
        return MapSeq(it, f, pred)
    if pred is None:
        return [f(x) for x in it]
    return [f(x) for x in it if pred(x)]


def dictcomp(f, pred, it):
    if seqlike(it):
        if pred is not None:
            raise Unsupported('filtered dict comprehension over a sequence of symbolic length')
        return L.SymMap(it, f)
    if pred is None:
        return dict(f(x) for x in it)
    return dict(f(x) for x in it if pred(x))


def fstr(*parts):
    if any(type(p) is tuple and type(p[0]) is SymStr and p[1] in (-1, 115) and p[2] == '' for p in parts):
        out = []
        for p in parts:
            if type(p) is str:
                out.append(z3.StringVal(p))
            elif type(p[0]) is SymStr:
                out.append(p[0].t)
            elif type(p[0]) is SymInt and p[2] == '':
                t = p[0].t
                out.append(z3.If(t >= 0, z3.IntToStr(t), z3.Concat(z3.StringVal('-'), z3.IntToStr(-t))))
            else:
                out.append(z3.StringVal(native_fmt(p)))
        return SymStr(z3.Concat(*out) if len(out) > 1 else out[0])
    return ''.join(p if type(p) is str else native_fmt(p) for p in parts)


def native_fmt(p):
    v, conv, spec = p
    if conv == 114:
        v = repr(v)
    elif conv == 115:
        v = builtins.str(v)
    elif conv == 97:
        v = ascii(v)
    return format(v, spec)


# -- builtins ------------------------------------------------------------------------------------
def b_len(x):
    if hasattr(type(x), 'sym_len'):
        return x.sym_len()
    return builtins.len(x)


def b_range(*a):
    if any(isinstance_(x, Sym) for x in a):
        if builtins.len(a) == 1:
            return RangeSeq(SymInt(z3.IntVal(0)), a[0])
        if builtins.len(a) == 2:
            return RangeSeq(a[0], a[1])
        if builtins.len(a) == 3 and a[2] == 1:
            return RangeSeq(a[0], a[1])
        raise Unsupported('range() with a symbolic bound and a step')
    return builtins.range(*a)


def b_enumerate(x, start=0):
    if seqlike(x):
        return EnumSeq(x, start)
    return builtins.enumerate(x, start)


def b_sum(x, start=0):
    if seqlike(x):
        return L.sum_loop(x, start)
    return builtins.sum(x, start)


def b_any(x):
    if seqlike(x):
        return L.any_loop(x, True)
    return builtins.any(x)


def b_all(x):
    if seqlike(x):
        return not L.any_loop(x, False)
    return builtins.all(x)


def b_reversed(x):
    if seqlike(x):
        if isinstance_(x, SymSeq) and not isinstance_(x, MapSeq):
            return RevSeq(x)
        raise Unsupported('reversed() of this sequence')
    return builtins.reversed(x)


def b_zip(*a, **k):
    if any(seqlike(x) for x in a):
        if all(seqlike(x) for x in a):
            return ZipSeq(a)
        raise Unsupported('zip of symbolic and native sequences')
    return builtins.zip(*a, **k)


def _minmax(name):
    nat = getattr(builtins, name)

    def f(*a, **k):
        if builtins.len(a) == 1 and seqlike(a[0]):
            raise Unsupported(f'{name}() of a symbolic sequence')
        if builtins.len(a) >= 2 and not k and any(isinstance_(x, Sym) for x in a):
            r = a[0]
            for x in a[1:]:
                if (x < r) if name == 'min' else (x > r):
                    r = x
            return r
        return nat(*a, **k)
    return f


def b_sorted(x, **k):
    if seqlike(x):
        raise Unsupported('sorted() of a symbolic sequence')
    return builtins.sorted(x, **k)


def b_list(*a):
    if a and seqlike(a[0]):
        if isinstance_(a[0], SymSeq):
            return a[0]
        raise Unsupported('list() of this sequence')
    return builtins.list(*a)


def b_tuple(*a):
    if a and seqlike(a[0]):
        if isinstance_(a[0], SymSeq):
            return a[0]
        raise Unsupported('tuple() of this sequence')
    return builtins.tuple(*a)


def b_set(*a):
    if a and seqlike(a[0]):
        raise Unsupported('set() of a symbolic sequence')
    return builtins.set(*a)


def b_int(*a, **k):
    if a and not k and builtins.len(a) == 1:
        x = a[0]
        if type(x) is SymInt:
            return x
        if type(x) is SymBool:
            return SymInt(num_term(x))
        if type(x) is SymReal:
            # truncation toward zero
            return SymInt(z3.simplify(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t))))
        if type(x) is NumText:
            if z3.is_real(x.t):
                raise ValueError('invalid literal for int()')
            return SymInt(x.t)
        if type(x) is SymStr:
            raise Unsupported('int() of a symbolic string')
    return builtins.int(*a, **k)


def b_float(*a):
    if a and type(a[0]) is SymInt:
        return SymReal(z3.ToReal(a[0].t))
    if a and type(a[0]) is SymBool:
        return SymReal(z3.ToReal(num_term(a[0])))
    if a and type(a[0]) is SymReal:
        return a[0]
    if a and type(a[0]) is NumText:
        return SymReal(a[0].t if z3.is_real(a[0].t) else z3.ToReal(a[0].t))
    return builtins.float(*a)


def b_str(*a, **k):
    if a and type(a[0]) in (SymStr, SymTok):
        return a[0]
    if a and not k and type(a[0]) in (SymInt, SymReal):
        return NumText(a[0].t)
    return builtins.str(*a, **k)


def b_bool(*a):
    if a and type(a[0]) in (SymInt, SymReal):
        return SymBool(a[0].t != 0)
    if a and type(a[0]) is SymBool:
        return a[0]
    return builtins.bool(*a)


_TY = {SymInt: builtins.int, SymBool: builtins.bool, SymReal: builtins.float, SymStr: builtins.str, SymTok: builtins.str, NumText: builtins.str}


def b_type(*a):
    if builtins.len(a) == 1:
        t = builtins.type(a[0])
        if t in _TY:
            return _TY[t]
        if issubclass(t, SymSeq):
            return builtins.list
        return t
    return builtins.type(*a)


def b_abs(x):
    return builtins.abs(x)


def b_round(x, *a):
    if isinstance_(x, Sym):
        if type(x) is SymInt and not a:
            return x
        raise Unsupported('round() of a symbolic float')
    return builtins.round(x, *a)


def b_next(x, *a):
    if isinstance_(x, MapSeq):
        b, g = L.flat_iter(x)
        lp = Loop('engine:next', b)
        while lp.step({}):
            k, v = g(lp.item)
            if k:
                return lp.left(v)
        if a:
            return a[0]
        raise StopIteration
    return builtins.next(x, *a)


def b_map(f, *its):
    if builtins.len(its) == 1 and seqlike(its[0]):
        return MapSeq(its[0], f, None)
    return builtins.map(f, *its)


def b_filter(p, it):
    if seqlike(it):
        return MapSeq(it, lambda x: x, p or builtins.bool)
    return builtins.filter(p, it)


def b_iter(x, *a):
    if seqlike(x):
        raise Unsupported('iter() of a symbolic sequence')
    return builtins.iter(x, *a)


def b_repr(x):
    return builtins.repr(x)


POISON = L.POISON


def poison_check(v):
    if v is POISON:
        POISON._bad()
    return v


def is_(a, b):
    if a is POISON or b is POISON:
        POISON._bad()
    if hasattr(type(a), '__vc_ref__') and hasattr(type(b), '__vc_ref__'):
        return builtins.bool(a == b)
    return a is b


_KEYS = builtins.type({}.keys())


def in_(a, b):
    if isinstance(a, Sym) or builtins.type(a) in (SymInt, SymReal, SymBool, SymStr, SymTok, NumText):
        if builtins.type(b) in (builtins.list, builtins.tuple, builtins.dict, _KEYS):
            ts = []
            for x in b:
                r = a == x
                if builtins.type(r) is SymBool:
                    ts.append(r.t)
                elif r is True:
                    return True
            if not ts:
                return False
            return SymBool(z3.Or(ts) if builtins.len(ts) > 1 else ts[0])
    return a in b


def not_(r):
    if builtins.type(r) is SymBool:
        return SymBool(z3.Not(r.t))
    return not r


_B = {k[2:]: v for k, v in list(globals().items()) if k.startswith('b_')}
_B['min'], _B['max'] = _minmax('min'), _minmax('max')
_NATIVE = {n: getattr(builtins, n) for n in _B}


def b(name, obj):
    if Ctx.cur is not None and obj is _NATIVE.get(name):
        return _B[name]
    return obj
