"""Mechanical translation of /repo's modules for symbolic execution (done on every run, nothing is stored).

What it changes, and nothing else: `for`/`while` statements get a loop controller (so that they can be cut),
calls of a few builtins and mutating methods go through the runtime, list comprehensions with one generator and
generator arguments of sum/any/all/len/... become lambdas handed to the runtime, f-strings are built by the
runtime, and the decorator `typechecked` (run-time argument type checks) is dropped except for checks that a plain
value given for str, bytes, list or dict is one (see rt.typed).
"""
import ast
import copy
import importlib.abc
import importlib.machinery
import sys

MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'add', 'discard', 'setdefault', 'sort',
       'reverse', 'popitem', 'appendleft', 'popleft'}
BUILT = {'len', 'range', 'enumerate', 'sum', 'any', 'all', 'sorted', 'reversed', 'zip', 'min', 'max', 'list', 'tuple',
         'set', 'int', 'float', 'str', 'bool', 'type', 'abs', 'round', 'isinstance', 'dict', 'next', 'iter', 'map',
         'filter', 'callable', 'repr'}
GENARG = {'sum', 'any', 'all', 'len', 'min', 'max', 'tuple', 'list', 'set', 'sorted', 'next'}


def vc(name):
    return ast.Attribute(ast.Name('__vc__', ast.Load()), name, ast.Load())


def assigned_names(nodes):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)
        visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, n):
            self.generic_visit(n)

        def visit_MatchAs(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_MatchStar(self, n):
            if n.name:
                out.add(n.name)

        def visit_MatchMapping(self, n):
            if n.rest:
                out.add(n.rest)
            self.generic_visit(n)
    v = V()
    for n in nodes:
        v.visit(n)
    return out


def names_in(node, store=False):
    out = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store if store else ast.Load):
            out.add(x.id)
    return out


def rbw(stmts, defined):
    """(names possibly read before written, names definitely written) of a statement list."""
    reads, d = set(), set(defined)

    def rd(node):
        if node is not None:
            reads.update(names_in(node) - d)

    for s in stmts:
        if isinstance(s, ast.Assign):
            rd(s.value)
            for t in s.targets:
                rd(t)
                d |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        elif isinstance(s, ast.AugAssign):
            rd(s.value)
            if isinstance(s.target, ast.Name):
                if s.target.id not in d:
                    reads.add(s.target.id)
                d.add(s.target.id)
            else:
                rd(s.target)
        elif isinstance(s, ast.If):
            rd(s.test)
            r1, d1 = rbw(s.body, d)
            r2, d2 = rbw(s.orelse, d)
            reads |= r1 | r2
            d = meet(d1, d2)
        elif isinstance(s, ast.Match):
            rd(s.subject)
            ds = []
            for case in s.cases:
                caps = assigned_names([case.pattern])
                if case.guard is not None:
                    reads |= names_in(case.guard) - d - caps
                reads |= names_in(case.pattern) - d
                r1, d1 = rbw(case.body, d | caps)
                reads |= r1
                ds.append(d1)
            # exhaustive matches are the norm in this code; a wrong guess only costs the proof
            if ds:
                x = ds[0]
                for y in ds[1:]:
                    x = meet(x, y)
                d = d | x
        elif isinstance(s, (ast.For, ast.While)):
            rd(s.iter if isinstance(s, ast.For) else s.test)
            r1, _ = rbw(([ast.Assign([s.target], ast.Constant(0))] if isinstance(s, ast.For) else []) + s.body, d)
            r2, _ = rbw(s.orelse, d)
            reads |= r1 | r2
        elif isinstance(s, (ast.Return, ast.Continue, ast.Break, ast.Raise)):
            for ch in ast.iter_child_nodes(s):
                rd(ch)
            return reads, d | {_ALL}
        elif isinstance(s, ast.With):
            for it in s.items:
                rd(it.context_expr)
                if it.optional_vars is not None:
                    d |= names_in(it.optional_vars, True)
            r1, d1 = rbw(s.body, d)
            reads |= r1
            d = d1
        elif isinstance(s, ast.Try):
            r1, d1 = rbw(s.body, d)
            reads |= r1
            dd = [d1]
            for h in s.handlers:
                r2, d2 = rbw(h.body, d | ({h.name} if h.name else set()))
                reads |= r2
                dd.append(d2)
            x = dd[0]
            for y in dd[1:]:
                x = meet(x, y)
            d = x
            r3, d3 = rbw(s.orelse + s.finalbody, d)
            reads |= r3
            d = d3
        else:
            rd(s)
            d |= names_in(s, True)
        if _ALL in d:
            break
    return reads, d


_ALL = '<left>'


def meet(a, b):
    return b if _ALL in a else a if _ALL in b else a & b


def has_yield(nodes):
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)):
                return True
    return False


def exc_names(fn):
    return {h.name for h in ast.walk(fn) if isinstance(h, ast.ExceptHandler) and h.name}


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.cont = []        # statements that may run after the current one, innermost block last
        self.fn = []          # enclosing function names
        self.cls = []
        self.loops = []       # enclosing loop variables of the current function
        self.n = 0
        self.decl = []        # global/nonlocal names of the function

    # -- scopes --
    def visit_FunctionDef(self, node):
        node.decorator_list = [vc('typed') if self._typechecked(d) else self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        node.returns = None if node.returns is None else node.returns
        save = (self.loops, self.n, self.decl)
        self.loops, self.n = [], 0
        self.decl = {n for s in ast.walk(node) if isinstance(s, (ast.Global, ast.Nonlocal)) for n in s.names}
        self.excs = exc_names(node)
        self.fn.append(node.name)
        csave, self.cont = self.cont, []
        node.body = self._body(node.body)
        self.cont = csave
        if self.mod.startswith('ros_bt_py') and not has_yield(node.body):
            at = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
            node.body.insert(at, ast.Expr(ast.Call(vc('enter'), [ast.Constant(
                f'{self.mod}:{".".join(self.cls + self.fn)}')], [])))
        self.fn.pop()
        self.loops, self.n, self.decl = save
        return node

    def visit_AsyncFunctionDef(self, node):
        return node

    def _typechecked(self, d):
        return (isinstance(d, ast.Name) and d.id == 'typechecked') or \
            (isinstance(d, ast.Attribute) and d.attr == 'typechecked')

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list if not self._typechecked(d)]
        self.cls.append(node.name)
        save = self.fn
        node.body = [self.visit(s) for s in node.body]
        self.fn = save
        self.cls.pop()
        return node

    def visit_AnnAssign(self, node):
        # annotations are left alone; only value and target are translated
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_arg(self, node):
        return node

    def _body(self, stmts, loop=None):
        out = []
        orig = copy.deepcopy(stmts) if self.fn else stmts
        for i, s in enumerate(stmts):
            if self.fn:
                self.cont.append(orig[i + 1:] + ([loop] if loop is not None else []))
            r = self.visit(s)
            if self.fn:
                self.cont.pop()
            out.extend(r if isinstance(r, list) else [r])
        return out

    def generic_visit(self, node):
        for f, old in ast.iter_fields(node):
            if isinstance(old, list):
                if old and isinstance(old[0], ast.stmt):
                    setattr(node, f, self._body(old))
                else:
                    new = []
                    for x in old:
                        new.append(self.visit(x) if isinstance(x, ast.AST) else x)
                    setattr(node, f, new)
            elif isinstance(old, ast.AST):
                setattr(node, f, self.visit(old))
        return node

    # -- statements --
    def _restore(self, lv, names):
        return [ast.If(ast.Attribute(ast.Name(lv, ast.Load()), 'cut', ast.Load()),
                       [ast.Assign([ast.Name(n, ast.Store())],
                                   ast.Subscript(ast.Name(lv, ast.Load()), ast.Constant(n), ast.Load()))
                        for n in sorted(names)] or [ast.Pass()], [])]

    def _locals(self, names, live):
        return ast.Call(vc('pick'), [ast.Call(ast.Name('locals', ast.Load()), [], []),
                                     ast.Constant(tuple(sorted(names))),
                                     ast.Constant(tuple(sorted(set(names) & live)))], [])

    def _live(self, node, first):
        """Names that may be read at the loop head before they are written (an over-approximation is not needed:
        a name left out is replaced by a value that ends the proof when used)."""
        reads, _ = rbw(first + node.body, set())
        cont = [x for blk in reversed(self.cont) for x in blk]
        reads |= rbw(cont, set())[0]
        return reads

    def _lid(self):
        self.n += 1
        return f"{self.mod}:{'.'.join(self.cls + self.fn)}#{self.n}"

    def visit_For(self, node):
        if not self.fn or has_yield(node.body):
            return self.generic_visit(node)
        lid = self._lid()
        lv = f'_vclp{self.n}_{len(self.loops)}'
        names = {n for n in assigned_names([node.target] + node.body) if n not in self.excs}
        live = self._live(node, [ast.Assign([node.target], ast.Constant(0))])
        it = self.visit(node.iter)
        tgt = self.visit(node.target)
        self.loops.append(lv)
        body = self._body(node.body, copy.deepcopy(node))
        self.loops.pop()
        orelse = self._body(node.orelse)
        step = ast.Call(ast.Attribute(ast.Name(lv, ast.Load()), 'step', ast.Load()), [self._locals(names, live)], [])
        new = ast.While(step,
                        self._restore(lv, names)
                        + [ast.Assign([tgt], ast.Attribute(ast.Name(lv, ast.Load()), 'item', ast.Load()))] + body,
                        self._restore(lv, names) + orelse)
        mk = ast.Assign([ast.Name(lv, ast.Store())], ast.Call(vc('Loop'), [ast.Constant(lid), it], []))
        return [ast.copy_location(mk, node), ast.copy_location(new, node)]

    def visit_While(self, node):
        if not self.fn or has_yield(node.body) or node.orelse:
            return self.generic_visit(node)
        lid = self._lid()
        lv = f'_vclp{self.n}_{len(self.loops)}'
        names = {n for n in assigned_names([node.test] + node.body) if n not in self.excs}
        live = self._live(node, [ast.Expr(node.test)])
        test = self.visit(node.test)
        self.loops.append(lv)
        body = self._body(node.body, copy.deepcopy(node))
        self.loops.pop()
        wstep = ast.Expr(ast.Call(ast.Attribute(ast.Name(lv, ast.Load()), 'wstep', ast.Load()),
                                  [self._locals(names, live)], []))
        mk = ast.Assign([ast.Name(lv, ast.Store())],
                        ast.Call(vc('Loop'), [ast.Constant(lid), ast.Constant(None), ast.Constant(False)], []))
        guard = ast.If(test, [ast.Pass()], [ast.Expr(ast.Call(ast.Attribute(
            ast.Name(lv, ast.Load()), 'leave', ast.Load()), [], [])), ast.Break()])
        new = ast.While(ast.Constant(True), [wstep] + self._restore(lv, names) + [guard] + body, [])
        return [ast.copy_location(mk, node), ast.copy_location(new, node)]

    def visit_Break(self, node):
        if not self.loops:
            return node
        return [ast.Expr(ast.Call(ast.Attribute(ast.Name(self.loops[-1], ast.Load()), 'leave', ast.Load()), [], [])),
                node]

    def visit_Return(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if self.loops:
            v = node.value or ast.Constant(None)
            for lv in reversed(self.loops):
                v = ast.Call(ast.Attribute(ast.Name(lv, ast.Load()), 'left', ast.Load()), [v], [])
            node.value = v
        return node

    def visit_Lambda(self, node):
        save, self.loops = self.loops, []
        self.generic_visit(node)
        self.loops = save
        return node

    # -- expressions --
    def visit_Attribute(self, node):
        node.value = self.visit(node.value)
        if isinstance(node.ctx, (ast.Store, ast.Del)) and self.fn:
            node.value = ast.Call(vc('chk'), [node.value], [])
        return node

    def visit_Subscript(self, node):
        node.value = self.visit(node.value)
        node.slice = self.visit(node.slice)
        if isinstance(node.ctx, (ast.Store, ast.Del)) and self.fn:
            node.value = ast.Call(vc('chk'), [node.value], [])
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in GENARG and node.args and isinstance(node.args[0], ast.GeneratorExp) \
                and self._simple(node.args[0]) and self.fn:
            node.args[0] = self._lc(node.args[0], 'genexp')
            node.args[1:] = [self.visit(a) for a in node.args[1:]]
        else:
            node.args = [self.visit(a) for a in node.args]
        node.keywords = [self.visit(k) for k in node.keywords]
        if isinstance(f, ast.Name):
            if f.id in BUILT and self.fn:
                node.func = ast.Call(vc('b'), [ast.Constant(f.id), f], [])
        elif isinstance(f, ast.Attribute):
            f.value = self.visit(f.value)
            if f.attr in MUT and self.fn and not (isinstance(f.value, ast.Call) and isinstance(
                    f.value.func, ast.Name) and f.value.func.id == 'super'):
                f.value = ast.Call(vc('chkm'), [f.value], [])
        else:
            node.func = self.visit(f)
        return node

    def _simple(self, n):
        if len(n.generators) != 1 or n.generators[0].is_async:
            return False
        g = n.generators[0]
        for x in ast.walk(n):
            if isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)):
                return False
        return isinstance(g.target, (ast.Name, ast.Tuple)) and all(
            isinstance(x, (ast.Name, ast.Tuple, ast.Store, ast.Load)) for x in ast.walk(g.target))

    def _lam(self, target, body):
        if isinstance(target, ast.Name):
            return ast.Lambda(ast.arguments([], [ast.arg(target.id)], None, [], [], None, []), body)
        # tuple target: nested destructuring through a one-shot comprehension over a singleton
        return ast.Lambda(
            ast.arguments([], [ast.arg('_vc_x')], None, [], [], None, []),
            ast.Subscript(ast.ListComp(body, [ast.comprehension(
                target, ast.List([ast.Name('_vc_x', ast.Load())], ast.Load()), [], 0)]), ast.Constant(0), ast.Load()))

    def _lc(self, node, kind):
        g = node.generators[0]
        it = self.visit(g.iter)
        save, self.loops = self.loops, []
        elt = self.visit(node.elt)
        ifs = [self.visit(i) for i in g.ifs]
        self.loops = save
        pred = ast.Constant(None)
        if ifs:
            pred = self._lam(g.target, ifs[0] if len(ifs) == 1 else ast.BoolOp(ast.And(), ifs))
        return ast.Call(vc(kind), [self._lam(g.target, elt), pred, it], [])

    def visit_ListComp(self, node):
        if self.fn and self._simple(node):
            return ast.copy_location(self._lc(node, 'listcomp'), node)
        return self.generic_visit(node)

    def visit_DictComp(self, node):
        if self.fn and self._simple(node):
            n = ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
            return ast.copy_location(self._lc(n, 'dictcomp'), node)
        return self.generic_visit(node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if self.fn and len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            r = ast.Call(vc('is_'), [node.left, node.comparators[0]], [])
            return r if isinstance(node.ops[0], ast.Is) else ast.UnaryOp(ast.Not(), r)
        if self.fn and len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = ast.Call(vc('in_'), [node.left, node.comparators[0]], [])
            return r if isinstance(node.ops[0], ast.In) else ast.Call(vc('not_'), [r], [])
        return node

    def visit_Match(self, node):
        self.generic_visit(node)
        if self.fn:
            node.subject = ast.Call(vc('poison_check'), [node.subject], [])
        return node

    def visit_JoinedStr(self, node):
        if not self.fn:
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
            else:
                parts.append(v)
        return ast.Call(vc('fstr'), parts, [])


def transform_source(src, modname, filename):
    tree = ast.parse(src, filename)
    tree = T(modname).visit(tree)
    # the runtime import goes after the docstring and __future__ imports
    k = 0
    for i, s in enumerate(tree.body):
        if (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) or \
                (isinstance(s, ast.ImportFrom) and s.module == '__future__'):
            k = i + 1
        else:
            break
    tree.body.insert(k, ast.ImportFrom('engine', [ast.alias('rt', '__vc__')], 0))
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        return compile(transform_source(src.decode(), fullname, path), path, 'exec', dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, pkgs):
        self.pkgs = pkgs

    def find_spec(self, name, path, target=None):
        if name.split('.')[0] not in self.pkgs:
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install(*pkgs):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(pkgs or ('ros_bt_py',)))
