"""Stand-ins for functions of the standard library that would need the value of a symbolic argument.

They behave like the library's for ordinary arguments; for symbolic ones they are the mathematical function
over the reals (the assumption that float arithmetic is real arithmetic)."""
import math

import z3

from .core import Sym, SymBool, SymInt, SymReal, Unsupported, num_term


def symbolic(v):
    return issubclass(type(v), Sym)


def wrap(name, f):
    nat = getattr(math, name)

    def g(*a):
        if any(symbolic(x) for x in a):
            return f(*a)
        return nat(*a)
    g.__name__ = name
    setattr(math, name, g)


def finite(v):
    if type(v) in (SymReal, SymInt, SymBool):
        return v
    raise TypeError('must be real number')


def real(v):
    t = num_term(finite(v))
    return z3.ToReal(t) if z3.is_int(t) else t


def fsum(nat):
    def g(it):
        xs = list(it)
        if not any(symbolic(x) for x in xs):
            return nat(xs)
        t = z3.RealVal(0)
        for x in xs:
            if num_term(x) is None:
                raise Unsupported('fsum of a value that is not a finite number')
            u = num_term(x)
            t = t + (z3.ToReal(u) if z3.is_int(u) else u)
        return SymReal(z3.simplify(t))
    return g


def install():
    math.fsum = fsum(math.fsum)
    wrap('isnan', lambda v: (finite(v), False)[1])
    wrap('isinf', lambda v: (finite(v), False)[1])
    wrap('isfinite', lambda v: (finite(v), True)[1])
    wrap('floor', lambda v: SymInt(z3.simplify(z3.ToInt(real(v)))))
    wrap('ceil', lambda v: SymInt(z3.simplify(-z3.ToInt(-real(v)))))
    wrap('trunc', lambda v: SymInt(z3.simplify(z3.If(real(v) >= 0, z3.ToInt(real(v)), -z3.ToInt(-real(v))))))
    wrap('fabs', lambda v: SymReal(z3.simplify(z3.If(real(v) >= 0, real(v), -real(v)))))
