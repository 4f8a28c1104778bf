"""Loop cutting with inferred (Houdini) invariants, and the symbolic sequence type.

A `for`/`while` of the code whose number of iterations is symbolic is cut at its head: the invariant is checked
on arrival, the variables the loop may change are replaced by fresh ones, the invariant is assumed, and one
arbitrary iteration (ending at the back edge, where the invariant is checked again) and the exit are explored.
Invariants are the largest conjunction of template predicates that is established on entry and preserved.
"""
import enum
import itertools
import threading

import z3

from .core import (Ctx, PathEnd, Sym, SymArr, SymBool, SymInt, SymReal, SymStr, SymTok, Unsupported, ctx, num_term, tok_term,
                   NAME,
                   substitute)


class Restart(BaseException):
    def __init__(self, lid):
        self.lid = lid


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()
LOCK = type(threading.Lock())


class Poison:
    """Stands for a value the loop abstraction does not track: any use ends the unbounded proof."""

    def _bad(self, *a, **k):
        raise Unsupported('a value computed in an earlier loop iteration is used and not tracked')
    __call__ = __bool__ = __eq__ = __ne__ = __lt__ = __iter__ = __len__ = __getitem__ = __hash__ = _bad
    __str__ = __repr__ = lambda self: '<untracked>'

    @property
    def __class__(self):
        self._bad()
    __add__ = __radd__ = __sub__ = __contains__ = _bad

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        self._bad()

    def __deepcopy__(self, m):
        return self


POISON = Poison()


# -- symbolic sequences --------------------------------------------------------------------------
class SymSeq:
    """elements get(base+0) .. get(base+n-1); n is a symbolic int."""

    def __init__(self, n, get, off=None, key='seq'):
        self.n = n if isinstance(n, Sym) else SymInt(z3.IntVal(n))
        self.get = get
        self.off = off if off is not None else SymInt(z3.IntVal(0))
        self.key = key

    @property
    def __class__(self):
        return list

    def sym_len(self):
        return self.n

    def __len__(self):
        return self.n.__index__()

    def __bool__(self):
        return ctx().branch(self.n.t > 0)

    def at(self, i):
        return self.get(SymInt(z3.simplify(num_term(i) + self.off.t)))

    def __getitem__(self, i):
        c = ctx()
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported('extended slice of a symbolic sequence')

            def norm(v, d):
                if v is None:
                    return d
                t = num_term(v)
                if t is None:
                    raise TypeError('slice indices must be integers')
                if c.branch(t < 0):
                    t = t + self.n.t
                    return z3.IntVal(0) if c.branch(t < 0) else z3.simplify(t)
                return self.n.t if c.branch(t > self.n.t) else t
            a, b = norm(i.start, z3.IntVal(0)), norm(i.stop, self.n.t)
            ln = z3.simplify(b - a)
            if not c.branch(ln >= 0):
                ln = z3.IntVal(0)
            return SymSeq(SymInt(ln), self.get, SymInt(z3.simplify(self.off.t + a)), self.key)
        t = num_term(i)
        if t is None:
            raise TypeError('list indices must be integers or slices')
        if c.branch(t < 0):
            t = t + self.n.t
            if not c.branch(t >= 0):
                raise IndexError('list index out of range')
        if not c.branch(t < self.n.t):
            raise IndexError('list index out of range')
        return self.at(SymInt(t))

    def __iter__(self):
        raise Unsupported('native iteration over a sequence of symbolic length')

    def __deepcopy__(self, m):
        return self

    def copy(self):
        return self

    def __getattr__(self, n):
        if hasattr(list, n):
            raise Unsupported(f'list.{n} on a sequence of symbolic length')
        raise AttributeError(n)

    def __add__(self, o):
        raise Unsupported('concatenation with a sequence of symbolic length')
    __radd__ = __mul__ = __setitem__ = __delitem__ = __contains__ = __add__

    def __repr__(self):
        return '<symseq>'


class MapSeq(SymSeq):
    """[f(x) for x in base if pred(x)] kept lazy; f and pred are evaluated when the elements are consumed."""

    def __init__(self, base, f, pred=None):
        self.base, self.f, self.pred = base, f, pred
        self.key = base.key

    @property
    def n(self):
        if self.pred is None:
            return self.base.sym_len()
        return count_loop(self)

    sym_len = lambda self: self.n    # noqa: E731

    @property
    def off(self):
        return self.base.off

    def at(self, i):
        if self.pred is not None:
            raise Unsupported('indexing a filtered sequence of symbolic length')
        return self.f(self.base.at(i))

    def get(self, i):
        if self.pred is not None:
            raise Unsupported('indexing a filtered sequence of symbolic length')
        return self.f(self.base.get(i))

    def __bool__(self):
        return ctx().branch(self.n.t > 0)


def flat_iter(seq):
    """(base sequence, function element -> (keep?, value))"""
    if isinstance_(seq, MapSeq):
        b, g = flat_iter(seq.base)
        f, p = seq.f, seq.pred

        def h(x):
            k, v = g(x)
            if not k:
                return False, None
            if p is not None and not p(v):
                return False, None
            return True, f(v)
        return b, h
    return seq, lambda x: (True, x)


def isinstance_(v, c):
    return issubclass(type(v), c)


def count_loop(seq):
    b, g = flat_iter(seq)
    acc = 0
    lp = Loop('engine:count', b)
    while lp.step({'acc': acc}):
        if lp.cut:
            acc = lp['acc']
        if g(lp.item)[0]:
            acc = acc + 1
    if lp.cut:
        acc = lp['acc']
    return acc if isinstance(acc, Sym) else SymInt(z3.IntVal(acc))


def sum_loop(seq, start=0):
    b, g = flat_iter(seq)
    acc = start
    lp = Loop('engine:sum', b)
    while lp.step({'acc': acc}):
        if lp.cut:
            acc = lp['acc']
        k, v = g(lp.item)
        if k:
            acc = acc + v
    if lp.cut:
        acc = lp['acc']
    return acc


def any_loop(seq, want=True):
    b, g = flat_iter(seq)
    lp = Loop('engine:any', b)
    while lp.step({}):
        k, v = g(lp.item)
        if k and bool(v) == want:
            return True
    return False


class SymMap:
    """{key(x): value(x) for x in seq}: for equal keys the last one counts. Keys are strings.

    pos(k) is the last index whose key is k (anything when there is none).
    """

    def __init__(self, seq, f):
        c = ctx()
        self.seq, self.f = seq, f
        self.F = z3.Function(c.fresh('pos'), NAME, z3.IntSort())
        n = num_term(seq.sym_len())

        def ax(k):
            key = self._key(k)
            p = self.F(key)
            return z3.Implies(z3.And(k >= 0, k < n), z3.And(p >= k, p < n, self._key(p) == key))
        c.add_forall(ax)

    @property
    def __class__(self):
        return dict

    def _key(self, k):
        v = self.f(self.seq.at(SymInt(k)))[0]
        t = tok_term(v)
        if t is None:
            raise Unsupported('keys of a symbolic dict must be strings')
        return t

    def _find(self, key):
        t = tok_term(key)
        if t is None:
            return None, z3.BoolVal(False)
        p = z3.simplify(self.F(t))
        ctx().add_index(p)
        return p, z3.And(p >= 0, p < num_term(self.seq.sym_len()), self._key(p) == t)

    def __contains__(self, key):
        return ctx().branch(self._find(key)[1])

    def __getitem__(self, key):
        p, there = self._find(key)
        if not ctx().branch(there):
            raise KeyError(key)
        return self.f(self.seq.at(SymInt(p)))[1]

    def get(self, key, default=None):
        p, there = self._find(key)
        return self.f(self.seq.at(SymInt(p)))[1] if ctx().branch(there) else default

    def _injective(self):
        c = ctx()
        i = z3.Int(c.fresh('inj'))
        c.add_index(i)
        p = self.F(self._key(i))
        c.add_index(p)
        n = num_term(self.seq.sym_len())
        if c.check(z3.And(i >= 0, i < n, p != i)) != z3.unsat:
            raise Unsupported('iteration over a symbolic dict whose keys may be equal')

    def items(self):
        self._injective()
        return MapSeq(self.seq, self.f)

    def keys(self):
        self._injective()
        return MapSeq(self.seq, lambda x: self.f(x)[0])

    def values(self):
        self._injective()
        return MapSeq(self.seq, lambda x: self.f(x)[1])

    def sym_len(self):
        self._injective()
        return self.seq.sym_len()

    def __bool__(self):
        return ctx().branch(num_term(self.seq.sym_len()) > 0)

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic dict')

    def __deepcopy__(self, m):
        return self

    def __getattr__(self, n):
        if hasattr(dict, n):
            raise Unsupported(f'dict.{n} on a symbolic dict')
        raise AttributeError(n)


# -- shapes --------------------------------------------------------------------------------------
def shape_of(v, entry, out, depth=0):
    """Abstract a value: returns its shape, appends the terms of its numeric parts to out."""
    if v is UNDEF:
        return ('U',)
    if v is POISON:
        return ('P',)
    ty = type(v)
    if ty is SymBool:
        return ('C', bool(v))
    if ty is bool or v is None:
        return ('C', v)
    if ty is int or ty is SymInt:
        out.append(num_term(v))
        return ('I',)
    if ty is SymReal:
        out.append(v.t)
        return ('F',)
    if ty is SymArr:
        out.append(v.t)
        return ('A',)
    if ty is SymStr:
        out.append(v.t)
        return ('S',)
    if ty is SymTok:
        out.append(v.t)
        return ('N',)
    if ty in (str, float) or isinstance(v, enum.Enum):
        return ('C', v)
    if ty is LOCK and not v.locked():
        return ('K',)
    if hasattr(ty, '__vc_ref__'):
        out.append(num_term(v.idx))
        return ('R', ty.__name__, v.kind)
    if ty.__name__ in ('Ok', 'Err') and ty.__module__.endswith('vendor.result.result'):
        inner = shape_of(v._value, entry._value if type(entry) is ty else None, out, depth + 1)
        return (ty.__name__, inner)
    if ty is tuple and depth < 2:
        es = entry if type(entry) is tuple and len(entry) == len(v) else [None] * len(v)
        return ('T',) + tuple(shape_of(x, e, out, depth + 1) for x, e in zip(v, es))
    if ty is list and 0 < len(v) < 9 and all(type(x) is str for x in v):
        return ('L', tuple(v))
    if v is entry:
        return ('E',)
    if isinstance(v, Exception) and not v.__dict__:
        return ('X', ty)
    return ('P',)


def build(shape, entry, terms, env):
    k = shape[0]
    if k == 'U':
        return UNDEF
    if k == 'P':
        return POISON
    if k == 'C':
        return shape[1]
    if k == 'I':
        return SymInt(terms.pop(0))
    if k == 'F':
        return SymReal(terms.pop(0))
    if k == 'A':
        return SymArr(terms.pop(0))
    if k == 'S':
        return SymStr(terms.pop(0))
    if k == 'B':
        return SymBool(terms.pop(0))
    if k == 'N':
        return SymTok(terms.pop(0))
    if k == 'R':
        return env.make_ref(shape[1], shape[2], SymInt(terms.pop(0)))
    if k in ('Ok', 'Err'):
        inner = build(shape[1], entry._value if type(entry).__name__ == k else None, terms, env)
        return env.result_class(k)(inner)
    if k == 'T':
        es = entry if type(entry) is tuple and len(entry) == len(shape) - 1 else [None] * (len(shape) - 1)
        return tuple(build(s, e, terms, env) for s, e in zip(shape[1:], es))
    if k == 'K':
        return threading.Lock()
    if k == 'L':
        return list(shape[1])
    if k == 'E':
        return entry
    if k == 'X':
        e = shape[1].__new__(shape[1])
        e.args = (POISON,)
        return e
    raise AssertionError(shape)


def fresh_terms(shape, name, c, out):
    k = shape[0]
    if k == 'I' or k == 'R':
        out.append((name, z3.Int(c.fresh(f'h.{name}'))))
    elif k == 'F':
        out.append((name, z3.Real(c.fresh(f'h.{name}'))))
    elif k == 'S':
        out.append((name, z3.String(c.fresh(f'h.{name}'))))
    elif k == 'N':
        out.append((name, z3.Const(c.fresh(f'h.{name}'), NAME)))
    elif k == 'B':
        out.append((name, z3.Bool(c.fresh(f'h.{name}'))))
    elif k == 'A':
        out.append((name, z3.Array(c.fresh(f'h.{name}'), z3.IntSort(), z3.IntSort())))
    elif k in ('Ok', 'Err'):
        fresh_terms(shape[1], name, c, out)
    elif k == 'T':
        for j, s in enumerate(shape[1:]):
            fresh_terms(s, f'{name}.{j}', c, out)


class Inv:
    """Invariant of one control mode. Variables outside `mod` keep their value on loop entry."""

    def __init__(self, names):
        self.names = names
        self.mod = set()
        self.looped = False      # has a back edge arrived in this mode?
        self.full = []           # every template predicate over the changed variables
        self.version = self.full_version = 0
        self.set([])

    def set(self, cands):
        self.cands = cands
        self.version += 1
        self._big = None
        self._parts = None

    def conj(self):
        if self._big is None:
            self._big = z3.And([cd.t for cd in self.cands] + [z3.BoolVal(True)])
        return self._big

    def parts(self):
        if self._parts is None:
            g = [cd.t for cd in self.cands if not cd.quant]
            q = [cd.t for cd in self.cands if cd.quant]
            self._parts = (z3.And(g) if g else None, z3.And(q) if q else None)
        return self._parts


class LoopInfo:
    def __init__(self):
        self.modes = []      # list of shape keys
        self.inv = {}        # shape key -> Inv


class Loop:
    """Controller of one execution of one loop."""

    def __init__(self, lid, it=None, is_for=True):
        c = Ctx.cur
        self.lid = lid
        self.is_for = is_for
        self.cut = False
        self.item = None
        self.n_iter = 0
        self.vals = {}
        self.arrived = False
        self._old_pairs = None
        if not is_for:
            self.cut = c is not None and lid in c.engine.cut_whiles
            self.seq = None
            if self.cut:
                self._setup(c)
            return
        if isinstance_(it, EnumSeq) or isinstance_(it, SymSeq) or isinstance_(it, ZipSeq):
            self.cut = True
            self.seq = it
            self._setup(c)
        elif isinstance_(it, SymInt):
            raise TypeError("'int' object is not iterable")
        else:
            self.it = iter(it)

    def _setup(self, c):
        base = (tuple(c.loop_stack), self.lid)
        k = c.loop_count.get(base, 0)
        c.loop_count[base] = k + 1
        c.was_cut = True
        self.key = base + (k,)

    # -- protocol used by the transformed code ----------------------------------------------------
    def __getitem__(self, name):
        return self.vals[name]

    def step(self, loc):
        if not self.cut:
            try:
                self.item = next(self.it)
                return True
            except StopIteration:
                return False
        c = ctx()
        if not self.arrived:
            self.entry_locals = dict(loc)
            c.engine.note_old(self, loc)
            self.idx0 = z3.IntVal(0)
            self.n = num_term(self.seq.sym_len())
            self._arrive(c, loc, z3.IntVal(0), True)
            self.i = z3.Int(c.fresh('i'))
            c.assume(z3.And(self.i >= 0, self.i <= self.n))
            self._havoc(c)
            self.arrived = True
            c.loop_stack.append(self.lid)
            if c.branch(self.i < self.n):
                self.in_body = True
                c.add_index(z3.simplify(self.i + num_term(self.seq.off)))
                self.item = self.seq.at(SymInt(self.i))
                return True
            c.loop_stack.pop()
            c.engine.drop_old(self)
            return False
        self._arrive(c, loc, self.i + 1, False)
        raise PathEnd('loop back edge')

    def wstep(self, loc):
        """while loops: called at each arrival at the head."""
        if not self.cut:
            c = Ctx.cur
            if c is not None:
                self.n_iter += 1
                if self.n_iter > 40 and len(c.decisions) > 30:
                    raise Restart(self.lid)
            return
        c = ctx()
        if not self.arrived:
            c.engine.note_old(self, loc)
            self._arrive(c, loc, None, True)
            self.i = None
            self._havoc(c)
            self.arrived = True
            return
        self._arrive(c, loc, None, False)
        raise PathEnd('loop back edge')

    def leave(self):
        pass

    # -- state vector -------------------------------------------------------------------------------
    def _collect(self, c, loc):
        vals = {}
        for n, v in loc.items():
            vals['l:' + n] = v
        for label, o in c.tracked:
            for a, v in sorted(vars(o).items()):
                if a.startswith('_vc_'):
                    continue
                vals[f'o:{label}.{a}'] = v
        return vals

    def _arrive(self, c, loc, i, entry):
        vals = self._collect(c, loc)
        if entry:
            self.entry_vals = vals
        names = sorted(set(vals) | set(self.entry_vals))
        shapes, terms, tnames = [], {}, []
        for n in names:
            out = []
            v = vals.get(n, UNDEF)
            if type(v) in (bool, SymBool) and n[:2] == 'o:' and n.rsplit('.', 1)[-1] in c.engine.generalize:
                s = ('B',)
                out.append(v.t if type(v) is SymBool else z3.BoolVal(v))
            else:
                s = shape_of(v, self.entry_vals.get(n, UNDEF) if not entry else vals[n], out)
            shapes.append((n, s))
            ft = []
            fresh_terms(s, n, _NoFresh, ft)
            for (fn, _), t in zip(ft, out):
                terms[fn] = t
                tnames.append(fn)
        key = tuple(shapes)
        if entry:
            self.key = self.key + (key,)
            self.info = c.engine.loops.setdefault(self.key, LoopInfo())
            self.entry_terms = terms
            self.u0 = num_term(self.seq.off) if self.is_for else None
        u = z3.simplify(i + self.u0) if i is not None else None
        info = self.info
        eng = c.engine
        if key not in info.inv:
            if len(info.modes) > 400:
                raise Unsupported('too many control modes at a loop head')
            info.inv[key] = Inv(tnames)
            info.modes.append(key)
            eng.changed = eng.grown = True
            if eng.debug:
                eng.log(f'new mode {self.key[:3]} ' + ' '.join(f'{n}={s[1] if s[0]=="C" else s[0]}' for n, s in key if s[0] not in 'E'))
        inv = info.inv[key]
        grew = False
        for v in tnames:
            if v in inv.mod:
                continue
            old = self.entry_terms.get(v)
            if old is None or old.sort() != terms[v].sort():
                bad = True
            elif old.eq(terms[v]):
                continue
            else:
                bad = z3.is_array(old) or c.check(old != terms[v]) != z3.unsat
            if bad:
                inv.mod.add(v)
                grew = True
        if not entry and not inv.looped:
            inv.looped = eng.changed = eng.grown = True
            inv.version += 1
        if grew:
            inv.full = (self._templates(c, {v: t for v, t in terms.items() if v in inv.mod}))
            inv.set(inv.full)
            inv.full_version += 1
            eng.changed = eng.grown = True
            if not entry:
                c.volatile = True
                return     # the head did not assume the new predicates yet
        c.targets.append((inv, inv.full_version))
        if not c.replaying:
            eng.filter_candidates(c, self, inv, terms, u, 'entry' if entry else 'back edge')

    def _havoc(self, c):
        info = self.info
        m = c.choose(len(info.modes))
        key = info.modes[m]
        inv = info.inv[key]
        c.deps.append((inv, inv.version, info, len(info.modes)))
        terms, order = {}, []
        for n, s in key:
            out = []
            fresh_terms(s, n, c, out)
            out = [(fn, t if fn in inv.mod or fn not in self.entry_terms else self.entry_terms[fn])
                   for fn, t in out]
            for fn, t in out:
                terms[fn] = t
            order.append((n, s, [t for _, t in out]))
        u = z3.simplify(self.i + self.u0) if self.i is not None else None
        if not inv.looped and self.i is not None:
            c.assume(self.i == 0)      # so far only the entry is known to reach this mode
        pairs = self.subst(c, terms, u)
        ground, quant = inv.parts()
        if ground is not None:
            c.assume(substitute(ground, *pairs))
        if quant is not None:
            q = substitute(quant, *pairs)
            c.add_forall(lambda k: substitute(q, (PK, k)))
        objs = dict(c.tracked)
        for n, s, ts in order:
            v = build(s, self.entry_vals.get(n, UNDEF), list(ts), c.engine.env)
            if n.startswith('l:'):
                self.vals[n[2:]] = v
            else:
                label, a = n[2:].rsplit('.', 1)
                if v is UNDEF:
                    vars(objs[label]).pop(a, None)
                else:
                    vars(objs[label])[a] = v
        self.head_terms = terms

    # -- templates ----------------------------------------------------------------------------------
    def _templates(self, c, terms):
        eng = c.engine
        ints = [n for n, t in terms.items() if z3.is_int(t)]
        reals = [n for n, t in terms.items() if z3.is_real(t)]
        arrs = [n for n, t in terms.items() if z3.is_array(t)]
        out = []
        has_u = self.is_for
        P = {v: ph('st.' + v, t.sort()) for v, t in terms.items()}
        O = {v: ph('old.' + v, t.sort()) for v, t in terms.items()
             if v in self.entry_terms and self.entry_terms[v].sort() == t.sort()}

        def T(name, t):
            out.append(Cand(name, t))
        E = {}
        if has_u:
            E['#u'], E['#n'], E['#u0'] = PU, PN + PU0, PU0
        for cn in eng.consts:
            E[cn] = ph('const.' + cn, z3.IntSort())
        for v in ints + reals:
            if v in O:
                T(f'{v} >= old({v})', P[v] >= O[v])
                T(f'{v} <= old({v})', P[v] <= O[v])
        for v in ints:
            for k in (0, 1):
                T(f'{v} == {k}', P[v] == k)
                T(f'{v} >= {k}', P[v] >= k)
            if has_u and v in O and v.startswith('o:g.'):
                T(f'{v} in (#u, old({v}))', z3.Or(P[v] == PU, P[v] == O[v]))
            if has_u and v in O:
                T(f'{v} == old({v}) + #u - #u0', P[v] == O[v] + PU - PU0)
        for a, b in itertools.combinations(ints, 2):
            for d in (-1, 0, 1):
                T(f'{a} == {b} + {d}', P[a] == P[b] + d)
            T(f'{a} <= {b}', P[a] <= P[b])
            T(f'{b} <= {a}', P[b] <= P[a])
        for name, (vs, f) in eng.hints.items():
            if any(v in P for v in vs) and all(v in P or v in self.entry_terms for v in vs):
                t = f(*[P[v] if v in P else ph('old.' + v, self.entry_terms[v].sort()) for v in vs])
                if t is not None:
                    T(name, t)
        # relations with the variables that keep their value
        for v in list(self.entry_terms):
            t = self.entry_terms[v]
            if v not in terms and z3.is_int(t):
                E['old ' + v] = ph('old.' + v, t.sort())
        for a in ints:
            for b, fb in E.items():
                for d in (-1, 0, 1):
                    T(f'{a} == {b} + {d}', P[a] == fb + d)
                T(f'{a} <= {b}', P[a] <= fb)
                T(f'{a} < {b}', P[a] < fb)
                if b in eng.consts:
                    T(f'{b} > 0 => {a} < {b}', z3.Implies(fb > 0, P[a] < fb))
                T(f'{b} <= {a}', fb <= P[a])
        if has_u:
            for b, fb in E.items():
                if not b.startswith('#'):
                    T(f'#u <= {b}', PU <= fb)
                    T(f'{b} <= #u', fb <= PU)
            for fn, F in eng.prefix_fns.items():
                for v in ints:
                    if v.startswith('o:node.'):
                        continue
                    T(f'{v} == {fn}(#u)', P[v] == F(PU))
                    for w in ints:
                        if w.startswith('o:g.') and w != v:
                            T(f'{v} == {fn}(#u) + {w}', P[v] == F(PU) + P[w])
        pivots = {}
        if has_u:
            pivots['#u'] = PU
        for v in ints:
            if v.startswith('l:') or v in eng.pivot_names or v.startswith('o:node.'):
                pivots[v] = P[v]
        for b, fb in E.items():
            if b.startswith('old l:') or b.startswith('old o:node.') or b[4:] in eng.pivot_names:
                pivots[b] = fb
        spec = eng.spec_fns
        for kn in eng.kappas:
            kt = ph('kappa.' + kn, z3.IntSort())
            for pn, pf in pivots.items():
                conds = [('<', kt < pf), ('>=', kt >= pf), ('==', kt == pf)]
                if has_u:
                    conds.append(('in0', z3.And(kt < pf, kt >= PU0)))
                    if pn == '#u':
                        conds.append(('<u0', kt < PU0))
                    if pn[4:] in eng.pivot_names:
                        conds.append(('==, <#u', z3.And(kt == pf, kt < PU)))
                        conds.append(('!=, <#u', z3.And(kt != pf, kt < PU)))
                    if pn != '#u':
                        conds.append(('btw', z3.And(kt >= pf, kt < PU)))
                if not has_u and pn in O:
                    conds.append(('since old', z3.And(kt >= O[pn], kt < pf)))
                    conds.append(('<old', kt < O[pn]))
                if has_u and pn == '#u':
                    for A in self.entry_terms:
                        if z3.is_array(self.entry_terms[A]) and eng.groups:
                            old = z3.Select(ph('old.' + A, self.entry_terms[A].sort()), kt)
                            for gn, codes in eng.groups.items():
                                ing = z3.Or([old == x for x in codes])
                                conds.append((f'old {A}[k] in {gn}, <', z3.And(kt < pf, ing)))
                                conds.append((f'old {A}[k] not in {gn}, <', z3.And(kt < pf, z3.Not(ing))))
                for cn, ct in conds:
                    for v in ints:
                        if v.startswith('l:') or v in pivots:
                            continue
                        pre = f'{kn} {cn} {pn} => {v}'
                        if v in O:
                            T(f'{pre} == old', z3.Implies(ct, P[v] == O[v]))
                            T(f'{pre} == old+1', z3.Implies(ct, P[v] == O[v] + 1))
                        for k in (0, 1):
                            T(f'{pre} == {k}', z3.Implies(ct, P[v] == k))
        for A in arrs:
            conds = [('all', z3.BoolVal(True))]
            for pn, pf in pivots.items():
                conds.append((f'k<{pn}', PK < pf))
                conds.append((f'k>={pn}', PK >= pf))
                conds.append((f'k>{pn}', PK > pf))
                if has_u and pn == '#u':
                    conds.append(('u0<=k<u', z3.And(PK >= PU0, PK < PU)))
                    conds.append(('k<u0', PK < PU0))
                elif has_u:
                    conds.append((f'{pn}<=k<u', z3.And(PK >= pf, PK < PU)))
                elif pn in O:
                    conds.append((f'old<=k<{pn}', z3.And(PK >= O[pn], PK < pf)))
                    conds.append((f'k<old {pn}', PK < O[pn]))
            sel = z3.Select(P[A], PK)
            if has_u and A in O:
                for gn, codes in eng.groups.items():
                    ing = z3.Or([z3.Select(O[A], PK) == x for x in codes])
                    conds.append((f'old in {gn}, k<u', z3.And(PK < PU, ing)))
                    conds.append((f'old not in {gn}, k<u', z3.And(PK < PU, z3.Not(ing))))
            for cn, ct in conds:
                if A in O:
                    out.append(Cand(f'{cn}: {A}[k] == old[k]', z3.Implies(ct, sel == z3.Select(O[A], PK)), True))
                for sn, sf in spec.items():
                    out.append(Cand(f'{cn}: {A}[k] == {sn}(k)', z3.Implies(ct, sel == sf(PK)), True))
                for code in eng.codes:
                    out.append(Cand(f'{cn}: {A}[k] == {code}', z3.Implies(ct, sel == code), True))
                    out.append(Cand(f'{cn}: {A}[k] != {code}', z3.Implies(ct, sel != code), True))
        return out

    def subst(self, c, terms, u):
        """Pairs (placeholder, term) for this arrival / head."""
        out = []
        for v, t in terms.items():
            out.append((ph('st.' + v, t.sort()), t))
        if self._old_pairs is None:
            self._old_pairs = [(ph('old.' + v, t.sort()), t) for v, t in self.entry_terms.items()]
        out += self._old_pairs
        for cn, t in c.engine.consts.items():
            out.append((ph('const.' + cn, z3.IntSort()), t))
        for cn, t in c.engine.kappas.items():
            out.append((ph('kappa.' + cn, z3.IntSort()), t))
        if u is not None:
            out += [(PU, u), (PU0, self.u0), (PN, self.n)]
        return out


class _NoFresh:
    @staticmethod
    def fresh(h):
        return h


class Cand:
    """A template predicate over placeholder constants (see ph)."""

    def __init__(self, name, t, quant=False):
        self.name, self.t, self.quant = name, t, quant


_PH = {}


def ph(name, sort):
    key = (name, sort.ast.value if hasattr(sort.ast, 'value') else sort.ast)
    if key not in _PH:
        _PH[key] = z3.Const('#' + name, sort)
    return _PH[key]


PK, PU, PU0, PN = (z3.Int('#' + x) for x in ('k', 'u', 'u0', 'n'))


class EnumSeq:
    def __init__(self, seq, start=0):
        self.seq, self.start = seq, start
        self.off = seq.off
        self.key = seq.key

    def sym_len(self):
        return self.seq.sym_len()

    def at(self, i):
        return (i + self.start, self.seq.at(i))

    def __iter__(self):
        raise Unsupported('native iteration over enumerate() of a symbolic sequence')


class ZipSeq:
    def __init__(self, seqs):
        self.seqs = seqs
        self.off = seqs[0].off
        self.key = seqs[0].key

    def sym_len(self):
        n = self.seqs[0].sym_len().t
        for s in self.seqs[1:]:
            m = num_term(s.sym_len())
            n = z3.If(m < n, m, n)
        return SymInt(z3.simplify(n))

    def at(self, i):
        return tuple(s.at(i) for s in self.seqs)

    def __iter__(self):
        raise Unsupported('native iteration over zip() of a symbolic sequence')


class RangeSeq(SymSeq):
    def __init__(self, a, b):
        n = z3.simplify(num_term(b) - num_term(a))
        super().__init__(SymInt(z3.If(n > 0, n, z3.IntVal(0))), lambda i: i, SymInt(num_term(a)), 'range')


class RevSeq(SymSeq):
    """reversed(seq): element i is seq[n-1-i]."""

    def __init__(self, seq):
        self.src = seq
        super().__init__(seq.sym_len(), None, None, 'rev')

    def at(self, i):
        return self.src.at(SymInt(z3.simplify(num_term(self.n) - 1 - num_term(i))))
