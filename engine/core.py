"""Symbolic state, proxies and path exploration for the verification-condition generator.

The code of /repo is executed by CPython itself; symbolic values are proxy objects that record z3 terms.
A truth test of a symbolic value splits the path. Paths are enumerated depth first by re-executing the
harness from its start with a recorded prefix of decisions (so no state has to be copied).
"""
import os
import sys
import time

sys.path.append(os.environ.get('VP_SOLVERS', '/opt/veriftools/pyvenv/lib/python3.12/site-packages'))
import z3  # noqa: E402

def _fast_z3():
    """Plain C calls for accessors that cannot fail (z3py checks the error code after each call)."""
    for n in ('Z3_inc_ref', 'Z3_dec_ref', 'Z3_get_sort', 'Z3_is_eq_ast', 'Z3_is_eq_sort', 'Z3_get_sort_kind',
              'Z3_get_ast_id', 'Z3_get_ast_kind', 'Z3_get_app_decl', 'Z3_get_decl_kind', 'Z3_is_app'):
        f = getattr(z3.z3core, n, None)
        if f is not None and getattr(z3.z3, n, None) is f and f.__defaults__:
            setattr(z3.z3, n, f.__defaults__[0].f)


_fast_z3()
_SUBST = z3.z3core.Z3_substitute.__defaults__[0].f


def substitute(t, *pairs):
    n = len(pairs)
    if not n:
        return t
    a = (z3.z3types.Ast * n)(*[p.ast for p, _ in pairs])
    b = (z3.z3types.Ast * n)(*[q.ast for _, q in pairs])
    return z3.z3._to_expr_ref(_SUBST(t.ctx_ref(), t.ast, n, a, b), t.ctx)


TIMEOUT_MS = int(os.environ.get('VP_QUERY_MS', '20000'))


class PathEnd(BaseException):
    """The current path ends here (infeasible, cut at a loop back edge, ...)."""


class Unsupported(BaseException):
    """The code leaves the subset the generator translates; the caller falls back to a bounded check."""


class Budget(Unsupported):
    pass


class Ctx:
    """State of the path being executed."""

    cur = None

    def __init__(self, prefix, engine):
        self.engine = engine
        self.prefix = prefix
        self.decisions = []
        self.sizes = []
        self.solver = z3.Solver()
        self.solver.set('timeout', TIMEOUT_MS)
        self.foralls = []        # functions term -> BoolRef
        self.indices = []        # terms used as array indices on this path
        self._inst = set()
        self.fresh_n = {}
        self.inputs = {}         # name -> (kind, value or term)
        self.loop_stack = []
        self.loop_count = {}
        self.tracked = []
        self.indexset = set()
        self.lits = set()
        self.steps = 0
        self.old = []            # stack of {id: object} known before the cut loops now running
        self.trace = []          # [(name, python value or z3 term)] in order of the harness's requests
        self.was_cut = False
        self.deps, self.targets, self.spawned, self.obs = [], [], [], []
        self.volatile = False

    @property
    def replaying(self):
        """Still inside the part that the path which spawned this one went through (and checked) already."""
        return len(self.decisions) < len(self.prefix)

    # -- names -----------------------------------------------------------------------------------
    def fresh(self, hint):
        n = self.fresh_n.get(hint, 0)
        self.fresh_n[hint] = n + 1
        return f'{hint}!{n}'

    # -- assertions ------------------------------------------------------------------------------
    def assume(self, t):
        self.solver.add(t)

    def add_index(self, t):
        k = t.get_id() if hasattr(t, 'get_id') else t
        if k in self.indexset:
            return
        self.indexset.add(k)
        self.indices.append(t)
        for f in self.foralls:
            self.solver.add(f(t))

    def add_forall(self, f):
        self.foralls.append(f)
        for t in self.indices:
            self.solver.add(f(t))

    def check(self, *extra):
        e = self.engine
        t0 = time.time()
        r = self.solver.check(*extra)
        e.stats['queries'] += 1
        e.stats['solver_s'] += time.time() - t0
        if time.time() > e.deadline:
            raise Budget('time budget of this harness used up')
        return r

    # -- decisions -------------------------------------------------------------------------------
    def choose(self, n, feasible=None):
        """Fork over n alternatives; feasible(i) -> z3 term or None asserted for alternative i."""
        pos = len(self.decisions)
        self.sizes.append(n)
        if pos < len(self.prefix):
            i = self.prefix[pos]
            if i >= n:
                raise Unsupported('a path did not run the same way again')
            self.decisions.append(i)
            t = feasible(i) if feasible else None
            if t is not None:
                self.solver.add(t)
            return i
        if pos > self.engine.max_steps:
            raise Budget('too many choices on one path')
        ok = []
        for i in range(n):
            t = feasible(i) if feasible else None
            if t is None:
                ok.append(i)
                continue
            if z3.is_true(t):
                ok.append(i)
            elif z3.is_false(t):
                continue
            elif self.check(t) != z3.unsat:
                ok.append(i)
        if not ok:
            raise PathEnd('infeasible')
        for i in reversed(ok[1:]):
            self.spawned.append(self.decisions + [i])
        self.decisions.append(ok[0])
        t = feasible(ok[0]) if feasible else None
        if t is not None:
            self.solver.add(t)
        return ok[0]

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        self.steps += 1
        if self.steps > self.engine.max_steps:
            raise Budget('too many symbolic branches on one path')
        return self.choose(2, lambda i: t if i == 0 else z3.Not(t)) == 0

    def prove(self, t):
        """(proved?, model or None, reason)"""
        t = z3.simplify(t) if hasattr(t, 'sexpr') else z3.BoolVal(bool(t))
        if z3.is_true(t):
            return True, None, ''
        r = self.check(z3.Not(t))
        if r == z3.unsat:
            return True, None, ''
        if r == z3.sat:
            return False, self.solver.model(), 'sat'
        return False, None, self.solver.reason_unknown()


def ctx():
    c = Ctx.cur
    if c is None:
        raise RuntimeError('no symbolic context')
    return c


# -- proxies -------------------------------------------------------------------------------------
class Sym:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __hash__(self):
        raise Unsupported(f'hash of symbolic {type(self).__name__}')

    def __repr__(self):
        return '<sym>'

    __str__ = __repr__

    def __format__(self, spec):
        return '<sym>'

    def __reduce_ex__(self, p):
        raise Unsupported('pickle of a symbolic value')


def is_sym(v):
    return isinstance(v, Sym)


def num_term(v):
    """z3 term of a number-like value, or None."""
    if type(v) is SymInt or type(v) is SymReal:
        return v.t
    if type(v) is SymBool:
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if type(v) is bool:
        return z3.IntVal(int(v))
    if type(v) is int:
        return z3.IntVal(v)
    if type(v) is float:
        if v != v or v in (float('inf'), float('-inf')):
            return None
        return z3.RealVal(repr(v)) if 'e' not in repr(v) else z3.RealVal(str(_frac(v)))
    return None


def _frac(v):
    from fractions import Fraction
    return Fraction(v)


def _cmp(op):
    def f(self, other):
        o = num_term(other)
        if o is None:
            if type(other) is float:
                return op(0.0, other) if other == other else False
            if op in (_eq, _ne):
                return op is _ne
            return NotImplemented
        return SymBool(op(self.t, o))
    return f


def _eq(a, b): return a == b
def _ne(a, b): return a != b
def _lt(a, b): return a < b
def _le(a, b): return a <= b
def _gt(a, b): return a > b
def _ge(a, b): return a >= b


def wrap_num(t):
    return SymReal(t) if z3.is_real(t) else SymInt(t)


def _ar(op):
    def f(self, other):
        o = num_term(other)
        if o is None:
            return NotImplemented
        return wrap_num(z3.simplify(op(self.t, o)))
    return f


def _rar(op):
    def f(self, other):
        o = num_term(other)
        if o is None:
            return NotImplemented
        return wrap_num(z3.simplify(op(o, self.t)))
    return f


def _truediv(self, other):
    o = num_term(other)
    if o is None:
        return NotImplemented
    if ctx().branch(o == 0):
        raise ZeroDivisionError('division by zero')
    return SymReal(z3.simplify(z3.ToReal(self.t) / (o if z3.is_real(o) else z3.ToReal(o))
                               if z3.is_int(self.t) else
                               self.t / (o if z3.is_real(o) else z3.ToReal(o))))


class _Num(Sym):
    __slots__ = ()
    __eq__ = _cmp(_eq)
    __ne__ = _cmp(_ne)
    __lt__ = _cmp(_lt)
    __le__ = _cmp(_le)
    __gt__ = _cmp(_gt)
    __ge__ = _cmp(_ge)
    __hash__ = Sym.__hash__
    __add__ = _ar(lambda a, b: a + b)
    __radd__ = _rar(lambda a, b: a + b)
    __sub__ = _ar(lambda a, b: a - b)
    __rsub__ = _rar(lambda a, b: a - b)
    __mul__ = _ar(lambda a, b: a * b)
    __rmul__ = _rar(lambda a, b: a * b)
    __truediv__ = _truediv

    def __rtruediv__(self, other):
        o = num_term(other)
        return NotImplemented if o is None else _truediv(wrap_num(o), self)

    def __neg__(self):
        return wrap_num(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap_num(z3.If(self.t >= 0, self.t, -self.t))

    def __bool__(self):
        return ctx().branch(self.t != 0)


class SymInt(_Num):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __index__(self):
        return concretize_int(self)

    def __int__(self):
        return concretize_int(self)

    def __float__(self):
        raise Unsupported('float() of a symbolic int')

    def __floordiv__(self, other):
        o = num_term(other)
        if o is None or z3.is_real(o):
            return NotImplemented
        if ctx().branch(o == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        # Python floors; z3 'div' rounds so that the remainder is non-negative
        q = self.t / o
        return SymInt(z3.simplify(z3.If(z3.Or(o > 0, self.t % o == 0), q, q - 1)))

    def __mod__(self, other):
        o = num_term(other)
        if o is None or z3.is_real(o):
            return NotImplemented
        fd = self.__floordiv__(other)
        return SymInt(z3.simplify(self.t - fd.t * o))

    def _bits(self, *a):
        raise Unsupported('bit operation on a symbolic int')
    __and__ = __or__ = __xor__ = __lshift__ = __rshift__ = __pow__ = __rpow__ = _bits
    __rand__ = __ror__ = __rxor__ = _bits
    __divmod__ = __rdivmod__ = __rlshift__ = __rrshift__ = _bits

    def __rfloordiv__(self, other):
        o = num_term(other)
        return NotImplemented if o is None or z3.is_real(o) else SymInt(o).__floordiv__(self)

    def __rmod__(self, other):
        o = num_term(other)
        return NotImplemented if o is None or z3.is_real(o) else SymInt(o).__mod__(self)

    def __invert__(self):
        return SymInt(z3.simplify(-self.t - 1))


class SymReal(_Num):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def __int__(self):
        raise Unsupported('int() of a symbolic float')

    def __float__(self):
        raise Unsupported('float() of a symbolic float')

    def _u(self, *a):
        raise Unsupported('operation on a symbolic float')
    __floordiv__ = __mod__ = __pow__ = __rpow__ = __rfloordiv__ = __rmod__ = _u


def bool_term(v):
    if type(v) is SymBool:
        return v.t
    if type(v) is bool:
        return z3.BoolVal(v)
    t = num_term(v)
    if t is not None:
        return t != 0
    raise Unsupported(f'truth term of {type(v).__name__}')


class SymBool(Sym):
    __slots__ = ()

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return ctx().branch(self.t)

    def __eq__(self, o):
        if type(o) in (bool, SymBool):
            return SymBool(self.t == bool_term(o))
        t = num_term(o)
        return False if t is None else SymBool(num_term(self) == t)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if type(r) is bool else SymBool(z3.Not(r.t))

    __hash__ = Sym.__hash__

    def __and__(self, o):
        return SymBool(z3.And(self.t, bool_term(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.t, bool_term(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.t, bool_term(o)))

    def __add__(self, o):
        return SymInt(num_term(self)) + o
    __radd__ = __add__

    def __invert__(self):
        return SymInt(-num_term(self) - 1)

    def __index__(self):
        return 1 if ctx().branch(self.t) else 0


class SymStr(Sym):
    """A string, as a z3 sequence of characters."""
    __slots__ = ()

    @property
    def __class__(self):
        return str

    def __eq__(self, o):
        t = str_term(o)
        return False if t is None else SymBool(self.t == t)

    def __ne__(self, o):
        t = str_term(o)
        return True if t is None else SymBool(self.t != t)

    __hash__ = Sym.__hash__

    def __bool__(self):
        return ctx().branch(z3.Length(self.t) > 0)

    def __add__(self, o):
        t = str_term(o)
        return NotImplemented if t is None else SymStr(z3.Concat(self.t, t))

    def __radd__(self, o):
        t = str_term(o)
        return NotImplemented if t is None else SymStr(z3.Concat(t, self.t))

    def __contains__(self, o):
        t = str_term(o)
        if t is None:
            raise TypeError("'in <string>' requires string as left operand")
        return ctx().branch(z3.Contains(self.t, t))

    def sym_len(self):
        return SymInt(z3.Length(self.t))

    def __len__(self):
        return concretize_int(self.sym_len())

    def split(self, sep=None, *a):
        if type(sep) is not str or not sep or a:
            raise Unsupported('split with these arguments')
        return SplitStr(self, sep)

    def startswith(self, p, *a):
        if a or str_term(p) is None:
            raise Unsupported('startswith with these arguments')
        return SymBool(z3.PrefixOf(str_term(p), self.t))

    def endswith(self, p, *a):
        if a or str_term(p) is None:
            raise Unsupported('endswith with these arguments')
        return SymBool(z3.SuffixOf(str_term(p), self.t))

    def __getitem__(self, i):
        if isinstance(i, slice) and i.step is None:
            n = z3.Length(self.t)

            def norm(v, d):
                if v is None:
                    return d
                v = num_term(v)
                v = z3.If(v < 0, z3.If(v + n < 0, z3.IntVal(0), v + n), z3.If(v > n, n, v))
                return v
            a, b = norm(i.start, z3.IntVal(0)), norm(i.stop, n)
            return SymStr(z3.SubString(self.t, a, z3.If(b > a, b - a, z3.IntVal(0))))
        t = num_term(i)
        if t is None:
            raise TypeError('string indices must be integers')
        n = z3.Length(self.t)
        if not ctx().branch(z3.And(t < n, t >= -n)):
            raise IndexError('string index out of range')
        return SymStr(z3.SubString(self.t, z3.If(t < 0, t + n, t), 1))

    def __getattr__(self, name):
        if hasattr(str, name):
            raise Unsupported(f'str.{name} on a symbolic string')
        raise AttributeError(name)

    def __iter__(self):
        raise Unsupported('iteration over a symbolic string')

    def __lt__(self, o):
        raise Unsupported('ordering of symbolic strings')
    __le__ = __gt__ = __ge__ = __mod__ = __mul__ = __lt__


class NumText(Sym):
    """str(x) of a symbolic number; int() and float() give x back."""
    __slots__ = ()

    @property
    def __class__(self):
        return str

    def number(self):
        return SymReal(self.t) if z3.is_real(self.t) else SymInt(self.t)

    def __eq__(self, o):
        if type(o) is NumText:
            return SymBool(self.t == o.t) if z3.is_real(self.t) == z3.is_real(o.t) else False
        if type(o) is str:
            try:
                v = float(o) if z3.is_real(self.t) else int(o)
            except ValueError:
                return False
            if str(v) != o:
                return False
            return SymBool(self.t == num_term(v))
        if type(o) in (SymStr, SymTok):
            raise Unsupported('comparison of the text of a symbolic number with a symbolic string')
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.t)) if type(r) is SymBool else not r

    __hash__ = Sym.__hash__

    def __bool__(self):
        return True

    def __getattr__(self, name):
        if hasattr(str, name):
            raise Unsupported(f'str.{name} on the text of a symbolic number')
        raise AttributeError(name)

    def _no(self, *a):
        raise Unsupported('operation on the text of a symbolic number')
    __iter__ = __getitem__ = __contains__ = __add__ = __radd__ = __lt__ = __le__ = __gt__ = __ge__ = __mod__ = __len__ = _no


NAME = z3.DeclareSort('Name')
_CODE = z3.Function('name.code', NAME, z3.IntSort())
_LITS = {}


def lit(s):
    """the Name constant of a python string (different strings are different names)"""
    if s not in _LITS:
        _LITS[s] = (z3.Const(f'name:{s}', NAME), len(_LITS))
    k, n = _LITS[s]
    c = ctx()
    if s not in c.lits:
        c.lits.add(s)
        c.assume(_CODE(k) == n)
    return k


class SymTok(Sym):
    """A string of which only equality matters (an element of an uninterpreted sort)."""
    __slots__ = ()

    @property
    def __class__(self):
        return str

    def __eq__(self, o):
        t = tok_term(o)
        return False if t is None else SymBool(self.t == t)

    def __ne__(self, o):
        t = tok_term(o)
        return True if t is None else SymBool(self.t != t)

    __hash__ = Sym.__hash__

    def sym_len(self):
        n = z3.Function('name.len', NAME, z3.IntSort())(self.t)
        c = ctx()
        c.assume(n >= 0)
        c.assume((n == 0) == (self.t == lit('')))
        return SymInt(n)

    def __bool__(self):
        return ctx().branch(self.t != lit(''))

    def split(self, sep=None, *a):
        if type(sep) is not str or not sep or a:
            raise Unsupported('split with these arguments')
        return SplitStr(self, sep)

    def __getattr__(self, name):
        if hasattr(str, name):
            raise Unsupported(f'str.{name} on an uninterpreted string')
        raise AttributeError(name)

    def _no(self, *a):
        raise Unsupported('operation on an uninterpreted string')
    __iter__ = __getitem__ = __contains__ = __add__ = __radd__ = __lt__ = __le__ = __gt__ = __ge__ = __mod__ = __len__ = _no


def tok_term(v):
    if type(v) is SymTok:
        return v.t
    if type(v) is str:
        return lit(v)
    if type(v) is SymStr:
        raise Unsupported('comparison of an interpreted with an uninterpreted string')
    return None


class SplitStr:
    """s.split(sep): only the last part is available (a function of s that is not interpreted further)."""

    def __init__(self, s, sep):
        self._s, self._sep = s, sep

    def __getitem__(self, i):
        if i == -1:
            so = self._s.t.sort()
            f = z3.Function(f'lastpart[{self._sep}]', so, so)
            return type(self._s)(f(self._s.t))
        raise Unsupported('parts of a symbolic string')

    def _no(self, *a):
        raise Unsupported('parts of a symbolic string')
    __iter__ = __len__ = __contains__ = __bool__ = _no


def str_term(v):
    if type(v) is SymStr:
        return v.t
    if type(v) is str:
        return z3.StringVal(v)
    return None


def concretize_int(v, limit=24):
    """Split the path over every feasible value (complete, or Unsupported when there are too many)."""
    t = z3.simplify(v.t)
    if z3.is_int_value(t):
        return t.as_long()
    c = ctx()
    if not c.engine.split_ints:
        raise Unsupported('a symbolic int is used where CPython needs a concrete one')
    seen = []
    for _ in range(limit):
        if c.check() != z3.sat:
            raise PathEnd('infeasible')
        m = c.solver.model().eval(t, model_completion=True)
        # deterministic under re-execution: always try the smallest feasible value
        lo = m.as_long()
        while c.check(t < lo) == z3.sat:
            lo = c.solver.model().eval(t, model_completion=True).as_long()
            if lo < -limit:
                raise Unsupported('unbounded symbolic int used as a concrete one')
        if c.branch(t == lo):
            return lo
        seen.append(lo)
    raise Unsupported('too many values for a symbolic int used as a concrete one')


class SymArr(Sym):
    """A total map from int to int (ghost state); immutable."""
    __slots__ = ()

    def select(self, k):
        k = num_term(k)
        ctx().add_index(k)
        return SymInt(z3.Select(self.t, k))

    def store(self, k, v):
        k, v = num_term(k), num_term(v)
        ctx().add_index(k)
        return SymArr(z3.Store(self.t, k, v))
