"""Symbolic environments (see env.py)."""
import z3

from .core import (PathEnd, Sym, SymArr, SymBool, SymInt, SymReal, SymStr, SymTok, NAME, Unsupported, bool_term, num_term)
from .driver import eval_trace
from .env import EnvBase, KNOWN, KNOWN_HITS
from .loops import SymSeq, RangeSeq


class SymEnv(EnvBase):
    symbolic = True
    bounded = False

    def __init__(self, engine, c):
        self.e, self.c = engine, c
        self.refs = {}
        self.labels = {}

    # -- inputs
    def choice(self, name, options):
        options = list(options)
        if not options:
            raise PathEnd('no option')
        i = self.c.choose(len(options)) if len(options) > 1 else 0
        self.c.trace.append((name, i))
        return options[i]

    def bool(self, name):
        return self.choice(name, [False, True])

    def symbool(self, name):
        t = z3.Bool(self.c.fresh(f'in.{name}'))
        return SymBool(t)

    def int(self, name, lo=None, hi=None, small=None):
        t = z3.Int(self.c.fresh(f'in.{name}'))
        if lo is not None:
            self.c.assume(t >= num_term(lo))
        if hi is not None:
            self.c.assume(t <= num_term(hi))
        self.c.trace.append((name, t))
        return SymInt(t)

    def real(self, name, pool=None):
        t = z3.Real(self.c.fresh(f'in.{name}'))
        self.c.trace.append((name, t))
        return SymReal(t)

    def str(self, name, pool=None):
        t = z3.String(self.c.fresh(f'in.{name}'))
        self.c.trace.append((name, t))
        return SymStr(t)

    def token(self, name, pool):
        """a string of which only equality matters"""
        if self.e.bounded is not None:
            return self.choice(name, pool)
        return SymTok(z3.Const(self.c.fresh(f'in.{name}'), NAME))

    def size(self, name, small=3, lo=0):
        if self.e.bounded is not None:
            n = self.choice_int(name, lo, min(small, self.e.bounded))
            return n
        v = self.int(name, lo)
        self.e.consts[name] = v.t
        return v

    def choice_int(self, name, lo, hi):
        i = self.c.choose(hi - lo + 1)
        self.c.trace.append((name, lo + i))
        return lo + i

    def rounds(self, name, small=4):
        if self.e.bounded is not None:
            return range(self.e.bounded)
        n = z3.Int(self.c.fresh(f'rounds.{name}'))
        self.c.assume(n >= 0)
        return RangeSeq(SymInt(z3.IntVal(0)), SymInt(n))

    def index(self, name, n):
        if self.e.bounded is not None:
            if n <= 0:
                raise PathEnd('empty')
            return self.choice_int(name, 0, n - 1)
        v = self.int(name, 0)
        self.c.assume(v.t < num_term(n))
        if self.c.check() == z3.unsat:
            raise PathEnd('infeasible')
        self.c.add_index(v.t)
        return v

    def arbitrary(self, name, n):
        """An arbitrary index of 0..n-1 (-1 when there is none), fixed for the run."""
        if self.e.bounded is not None:
            return self.choice_int(name, 0, n - 1) if n > 0 else -1
        v = self.int(name, -1)
        t, nt = v.t, num_term(n)
        self.c.assume(z3.If(nt > 0, z3.And(t >= 0, t < nt), t == -1))
        self.e.kappas[name] = t
        return v

    def count(self, name, n, pred):
        """number of i in 0..n-1 with pred(i) as of now"""
        if type(n) is int:
            t = z3.IntVal(0)
            for i in range(n):
                t = t + z3.If(bool_term(pred(i)), 1, 0)
            return SymInt(z3.simplify(t))
        F = z3.Function(self.c.fresh('cnt.' + name), z3.IntSort(), z3.IntSort())
        self.c.assume(F(z3.IntVal(0)) == 0)
        self.c.add_forall(lambda k: z3.Implies(k >= 0, z3.And(
            F(k) >= 0, F(k) <= k, F(k + 1) == F(k) + z3.If(bool_term(pred(SymInt(k))), 1, 0))))
        self.c.add_index(num_term(n))
        self.e.prefix_fns[name] = F
        return SymInt(F(num_term(n)))

    def for_all(self, n, pred):
        """assume pred(i) for i in 0..n-1 (pred must not split the path)"""
        if type(n) is int:
            for i in range(n):
                self.assume(pred(i))
            return
        nt = num_term(n)
        self.c.add_forall(lambda k: z3.Implies(z3.And(k >= 0, k < nt), bool_term(pred(SymInt(k)))))

    # -- logic
    def assume(self, cond):
        if type(cond) is bool:
            if not cond:
                raise PathEnd('assumption')
            return
        t = z3.simplify(bool_term(cond))
        if z3.is_true(t):
            return
        self.c.assume(t)
        if z3.is_false(t) or not self.c.replaying and self.c.check() == z3.unsat:
            raise PathEnd('assumption')

    def check(self, cond, label, detail='', known=None):
        e, c = self.e, self.c
        if isinstance(cond, Sym) or isinstance(cond, z3.AstRef):
            t = cond if isinstance(cond, z3.AstRef) else bool_term(cond)
        else:
            t = z3.BoolVal(bool(cond))
        if c.replaying:
            c.assume(t)
            return
        if not e.collect:
            c.assume(t)
            if z3.is_false(z3.simplify(t)):
                raise PathEnd('failed obligation')
            if known is not None and c.check() == z3.unsat:
                raise PathEnd('failed obligation')
            return
        ok, model, why = c.prove(t)
        if not ok and known is not None and known in KNOWN:
            KNOWN_HITS.setdefault(known, {'label': label, 'trace': eval_trace(c.trace, model)})
            raise PathEnd('known finding')
        e.obligation(c, label, ok, model, why if ok else f'{why}: {z3.simplify(t).sexpr()[:600]}')
        if not ok:
            c.assume(t)
            if c.check() == z3.unsat:
                raise PathEnd('failed obligation')

    def fail(self, label, detail='', known=None):
        self.check(False, label, detail, known)

    def cover(self, label):
        if label not in self.e.covers and not self.c.replaying and self.c.check() != z3.unsat:
            self.e.covers.add(label)

    def implies(self, a, b):
        if isinstance(a, bool):
            return b if a else True
        return SymBool(z3.Implies(bool_term(a), bool_term(b)))

    def ite(self, c_, a, b):
        if type(c_) is bool:
            return a if c_ else b
        x, y = num_term(a), num_term(b)
        r = z3.If(bool_term(c_), x, y)
        return SymReal(r) if z3.is_real(r) else SymInt(r)

    def and_(self, *a):
        return SymBool(z3.And([bool_term(x) for x in a]))

    def or_(self, *a):
        return SymBool(z3.Or([bool_term(x) for x in a]))

    def not_(self, a):
        return SymBool(z3.Not(bool_term(a)))

    # -- tracked state
    def invariant(self, name, variables, f):
        """Candidate loop invariant f(terms of the tracked variables, e.g. 'g.changed'); kept only where it is inductive."""
        self.e.hints[name] = (tuple('o:' + v for v in variables), f)

    def generalize(self, *names):
        self.e.generalize |= set(names)

    def track(self, label, obj):
        self.c.tracked.append((label, obj))

    def track_node(self, label, node):
        """The node object and the data containers it owns."""
        self.track(label, node)
        for grp in ('inputs', 'outputs'):
            for k, cont in getattr(node.node_config, grp).items():
                self.track(f'{label}.{grp}.{k}', cont)

    def const(self, name, v):
        t = num_term(v)
        if t is not None:
            self.e.consts[name] = t
        return v

    def kappa(self, name, v):
        self.e.kappas[name] = num_term(v)
        return v

    def pivot(self, name):
        """invariants may single out the index stored in this tracked variable"""
        self.e.pivot_names.add('o:' + name)

    def note(self, s):
        pass

    # -- used by loops.build
    def make_ref(self, cls, kind, idx):
        return self.refs[cls](kind, idx)

    def result_class(self, k):
        from ros_bt_py.vendor.result import Err, Ok
        return {'Ok': Ok, 'Err': Err}[k]
