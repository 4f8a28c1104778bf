"""Exploration driver of the verification-condition generator (symbolic modes of a harness)."""
import time
import traceback
import types

import z3

from . import core
from .core import Budget, Ctx, PathEnd, Sym, SymArr, SymBool, SymInt, SymReal, SymStr, Unsupported, bool_term, num_term, substitute
from .driver_common import code_exception
from .env import KNOWN_HITS
from .loops import PK, Restart, SymSeq, POISON, UNDEF, RangeSeq

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
ATOMS = (str, int, float, bool, type(None), bytes, type, types.FunctionType, types.ModuleType, types.MethodType,
         types.BuiltinFunctionType, z3.AstRef, Sym)


class _LIB:
    """the plain C functions"""


for _n in ('Z3_get_app_arg', 'Z3_mk_and', 'Z3_mk_not', 'Z3_model_eval'):
    setattr(_LIB, _n, staticmethod(getattr(z3.z3core, _n).__defaults__[0].f))


def _val(p):
    return p.value if hasattr(p, 'value') else p


def _arg(cr, p, i):
    return _LIB.Z3_get_app_arg(cr, p, i)


def _not_and(cr, goals, zctx):
    n = len(goals)
    arr = (z3.z3types.Ast * n)(*goals)
    both = z3.BoolRef(_LIB.Z3_mk_and(cr, n, arr), zctx) if n > 1 else z3.BoolRef(goals[0], zctx)
    return z3.BoolRef(_LIB.Z3_mk_not(cr, both.as_ast()), zctx)


def _model_false(cr, m, g, false_p):
    out = (z3.z3types.Ast * 1)()
    if not _LIB.Z3_model_eval(cr, m, g, True, out):
        return False
    v = _val(out[0])
    if v == false_p:
        return True
    return False


class Engine:
    def __init__(self, seconds=120, max_steps=4000, max_paths=200000, split_ints=True, bounded=None, debug=False):
        self.stats = {'queries': 0, 'solver_s': 0.0, 'paths': 0, 'passes': 0}
        self.seconds, self.deadline = seconds, time.time() + seconds
        self.worklist = []
        self.max_steps, self.max_paths, self.split_ints = max_steps, max_paths, split_ints
        self.loops = {}
        self.changed = False
        self.debug = debug
        self.cut_whiles = set()
        self.native = False
        self.bounded = bounded
        self.reset_templates()
        self.obligations = {}
        self.covers = set()
        self.functions = set()

    def reset_templates(self):
        self.consts, self.kappas, self.codes, self.groups = {}, {}, [], {}
        self.generalize = {'_updated'}
        self.hints = {}
        self.prefix_fns, self.spec_fns, self.pivot_names, self.extra_inv = {}, {}, set(), {}

    def log(self, *a):
        print('[engine]', *a, flush=True)

    # -- frame guard for cut loops ---------------------------------------------------------------
    def note_old(self, lp, loc):
        c = Ctx.cur
        seen = {}
        stack = list(loc.values())
        tracked = {id(o) for _, o in c.tracked}
        for _, o in c.tracked:
            stack.extend(vars(o).values())
        n = 0
        while stack:
            o = stack.pop()
            if o is POISON or o is UNDEF or issubclass(type(o), ATOMS) or id(o) in seen or id(o) in tracked:
                continue
            t = type(o)
            if hasattr(t, '__vc_ref__') or t.__module__.startswith(('z3', 'engine', '_frozen', 'typing')):
                continue
            n += 1
            if n > 20000:
                raise Unsupported('object graph at a loop head is too large')
            seen[id(o)] = o
            if t in (list, tuple, set, frozenset):
                stack.extend(o)
            elif t is dict:
                stack.extend(o.keys())
                stack.extend(o.values())
            else:
                d = getattr(o, '__dict__', None)
                if type(d) is dict:
                    stack.extend(d.values())
        c.old.append((lp, seen))

    def drop_old(self, lp):
        c = Ctx.cur
        while c.old and c.old[-1][0] is not lp:
            c.old.pop()
        if c.old:
            c.old.pop()
        if c.loop_stack and lp.is_for and c.loop_stack[-1] == lp.lid:
            c.loop_stack.pop()

    def check_old(self, o):
        c = Ctx.cur
        for lp, seen in c.old:
            if id(o) in seen and lp.arrived:
                raise Unsupported(f'{type(o).__name__} object that outlives an iteration is changed in a cut loop '
                                  f'({lp.lid}) and its contents are not tracked')

    # -- Houdini ---------------------------------------------------------------------------------
    def filter_candidates(self, c, lp, inv, terms, u, where):
        """Keep the predicates that hold for this arrival (works on raw z3 terms: this is the hot spot)."""
        if not inv.cands:
            return
        s = c.solver
        s.push()
        try:
            k = z3.Int(c.fresh('sk'))
            if any(cd.quant for cd in inv.cands):
                for f in c.foralls:
                    s.add(f(k))
            pairs = lp.subst(c, terms, u) + [(PK, k)]
            big = substitute(inv.conj(), *pairs)
            cr = big.ctx.ref()
            bp = big.as_ast()
            false_p, true_p = _val(FALSE.as_ast()), _val(TRUE.as_ast())
            todo, keep = [], []
            for i, cd in enumerate(inv.cands):
                g = _arg(cr, bp, i)
                v = _val(g)
                if v == true_p:
                    keep.append(id(cd))
                elif v != false_p:
                    todo.append((cd, g))
            while todo:
                r = c.check(_not_and(cr, [g for _, g in todo], big.ctx))
                if r == z3.unsat:
                    break
                if r == z3.sat:
                    m = s.model()
                    nxt = [(cd, g) for cd, g in todo if not _model_false(cr, m.model, g, false_p)]
                    if len(nxt) == len(todo):
                        todo = [(cd, g) for cd, g in todo if c.check(_not_and(cr, [g], big.ctx)) == z3.unsat]
                        break
                    todo = nxt
                else:
                    todo = [(cd, g) for cd, g in todo if c.check(_not_and(cr, [g], big.ctx)) == z3.unsat]
                    break
            keep = set(keep) | {id(cd) for cd, _ in todo}
            new = [cd for cd in inv.cands if id(cd) in keep]
            if len(new) != len(inv.cands):
                if self.debug > 1:
                    dropped = [cd.name for cd in inv.cands if id(cd) not in keep]
                    self.log('dropped at', where, lp.key[:3], len(dropped), [d for d in dropped if self.debug > 3] or dropped[:6])
                inv.set(new)
                self.changed = True
        finally:
            s.pop()

    # -- passes ----------------------------------------------------------------------------------
    def run(self, harness, env_cls):
        """Returns dict(status=..., obligations=..., ...). status: proved/refuted/unknown/unsupported."""
        out = {'status': 'proved', 'reason': ''}
        try:
            dirty = False
            self.collect = self.native      # native: no loop is expected to be cut, one pass is enough
            self.memo = {}
            for npass in range(400):
                self.changed = self.grown = False
                self.obligations = {}
                self.stats['passes'] += 1
                try:
                    self._pass(harness, env_cls)
                except Restart as r:
                    self.cut_whiles.add(r.lid)
                    self.memo = {}
                    self.changed = self.grown = True
                if self.debug:
                    self.log(f'pass {npass} t={time.time() - self.deadline + self.seconds:.1f}: paths {self.stats["paths"]} changed {self.changed} '
                             f'queries {self.stats["queries"]} solver {self.stats["solver_s"]:.1f}s')
                if self.loops and self.native:
                    self.native = self.collect = False
                    self.memo = {}
                    continue
                if self.grown:
                    dirty = True
                elif dirty:
                    # the modes and changed variables are known now: start the filtering afresh from all templates
                    dirty = False
                    for li in self.loops.values():
                        for iv in li.inv.values():
                            iv.set(iv.full)
                    self.memo = {}
                    continue
                if not self.changed:
                    if self.collect:
                        break
                    self.collect = True
            else:
                raise Budget('invariant inference did not stabilise')
        except Unsupported as u:
            out['status'], out['reason'] = 'unsupported', str(u) or type(u).__name__
            if self.debug:
                traceback.print_exc()
        finally:
            Ctx.cur = None
        if self.debug > 1:
            for k, li in self.loops.items():
                for m, iv in li.inv.items():
                    self.log('INV', k[:3], 'mod', sorted(iv.mod), [cd.name for cd in iv.cands])
        for lab, o in self.obligations.items():
            if o['status'] == 'refuted' and out['status'] != 'unsupported':
                out['status'] = 'refuted'
            elif o['status'] == 'unknown' and out['status'] == 'proved':
                out['status'] = 'unknown'
        out['obligations'] = self.obligations
        out['covers'] = sorted(self.covers)
        out['stats'] = self.stats
        out['functions'] = sorted(self.functions)
        out['known'] = dict(KNOWN_HITS)
        return out

    def _valid(self, rec):
        """Would this path run the same way again and find nothing new?"""
        if self.collect and not rec['collect']:
            return False
        for inv, ver, info, n in rec['deps']:
            if inv.version != ver or len(info.modes) != n:
                return False
        for inv, ver in rec['targets']:
            if inv.full_version != ver:
                return False
        return True

    def _pass(self, harness, env_cls):
        self.worklist = [[]]
        while self.worklist:
            prefix = self.worklist.pop()
            rec = self.memo.get(tuple(prefix))
            if rec is not None and self._valid(rec):
                self.worklist.extend(rec['spawned'])
                for label, entry in rec['obs']:
                    self._merge(label, entry)
                continue
            self.stats['paths'] += 1
            if self.stats['paths'] > self.max_paths:
                raise Budget('too many paths')
            self.reset_templates()
            c = Ctx(prefix, self)
            Ctx.cur = c
            env = env_cls(self, c)
            self.env = env
            try:
                harness(env)
                if self.debug > 2:
                    self.log('path end', c.decisions)
            except PathEnd as pe:
                if self.debug > 2:
                    self.log('path', pe, c.decisions)
            except Exception as e:
                in_repo, loc = code_exception(e)
                if not in_repo:
                    if self.debug:
                        traceback.print_exc()
                    raise Unsupported(f'harness does not fit this tree: {type(e).__name__}: {e} at {loc}')
                if c.check() != z3.unsat:
                    m = c.solver.model() if c.check() == z3.sat else None
                    self.obligation(c, f'no uncaught exception ({type(e).__name__} at {loc})', False, m,
                                    ''.join(traceback.format_exception(e))[-3000:])
            finally:
                env.close()
            self.worklist.extend(c.spawned)
            if c.volatile:
                self.memo.pop(tuple(prefix), None)
            else:
                self.memo[tuple(prefix)] = {'deps': c.deps, 'targets': c.targets, 'spawned': c.spawned, 'obs': c.obs,
                                            'collect': self.collect}

    def obligation(self, c, label, ok, model=None, detail=''):
        if c.replaying:
            return
        entry = None
        if not ok:
            entry = {'status': 'refuted' if model is not None else 'unknown', 'detail': detail, 'cut': c.was_cut,
                     'trace': eval_trace(c.trace, model), 'decisions': list(c.decisions)}
            if model is not None:
                entry['model'] = str(model)[:2000]
        c.obs.append((label, entry))
        self._merge(label, entry)

    def _merge(self, label, entry):
        o = self.obligations.setdefault(label, {'status': 'proved', 'vcs': 0})
        o['vcs'] += 1
        if entry and (o['status'] == 'proved' or (o['status'] == 'unknown' and entry['status'] == 'refuted')):
            o.update(entry)


def eval_trace(trace, model):
    out = []
    for name, v in trace:
        if isinstance(v, z3.AstRef):
            if model is None:
                out.append([name, None])
                continue
            e = model.eval(v, model_completion=True)
            if z3.is_int_value(e):
                v = e.as_long()
            elif z3.is_rational_value(e):
                v = float(e.as_fraction())
            elif z3.is_true(e):
                v = True
            elif z3.is_false(e):
                v = False
            elif z3.is_string_value(e):
                v = py_string(e)
            else:
                v = None
        out.append([name, v])
    return out


def py_string(e):
    s = e.as_string()
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)
