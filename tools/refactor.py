"""Behaviour-preserving rewrites of a whole source tree, to see whether the checks stay quiet.

usage: refactor.py NAME SRCDIR      rewrites SRCDIR/**/*.py in place
       refactor.py --list
"""
import ast
import copy
import os
import sys


class Base(ast.NodeTransformer):
    """Visits the statements of functions only"""

    depth = 0

    def visit_FunctionDef(self, n):
        self.depth += 1
        n = self.function(n)
        self.generic_visit(n)
        self.depth -= 1
        return n

    def function(self, n):
        return n


class Flip(Base):
    """if c: A else: B  ->  if not c: B else: A"""

    def visit_If(self, n):
        self.generic_visit(n)
        if self.depth and n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class Compare(Base):
    """a < b  ->  b > a"""

    OPS = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if self.depth and len(n.ops) == 1 and type(n.ops[0]) in self.OPS:
            return ast.Compare(n.comparators[0], [self.OPS[type(n.ops[0])]()], [n.left])
        return n


class Results(Base):
    """return E  ->  result = E; return result"""

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is not None and not isinstance(n.value, (ast.Name, ast.Constant)):
            return [ast.Assign([ast.Name("the_result", ast.Store())], n.value), ast.Return(ast.Name("the_result", ast.Load()))]
        return n


class Dead(Base):
    """A statement that does nothing in every function"""

    def function(self, n):
        k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body = n.body[:k] + ast.parse("not_used = None\nif not_used:\n    pass").body + n.body[k:]
        return n


class Cond(Base):
    """x = a if c else b  ->  if c: x = a else: x = b"""

    def visit_Assign(self, n):
        if self.depth and isinstance(n.value, ast.IfExp):
            v = n.value
            return ast.If(v.test, [ast.Assign(n.targets, v.body)], [ast.Assign(copy.deepcopy(n.targets), v.orelse)])
        return n


class CondExpr(Base):
    """if c: x = a else: x = b  ->  x = a if c else b"""

    def visit_If(self, n):
        self.generic_visit(n)
        if self.depth and len(n.body) == len(n.orelse) == 1:
            a, b = n.body[0], n.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and len(a.targets) == len(b.targets) == 1 and ast.dump(a.targets[0]) == ast.dump(b.targets[0]):
                return ast.Assign(a.targets, ast.IfExp(n.test, a.value, b.value))
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
                return ast.Return(ast.IfExp(n.test, a.value, b.value))
        return n


class Loops(Base):
    """[f(x) for x in s]  ->  a loop that appends"""

    k = 0

    def visit_Assign(self, n):
        v = n.value
        if self.depth and isinstance(v, ast.ListComp) and len(v.generators) == 1 and not v.generators[0].ifs and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            g = v.generators[0]
            Loops.k += 1
            name = "items_%d" % Loops.k
            fresh = {x.id: "%s_%d" % (x.id, Loops.k) for x in ast.walk(g.target) if isinstance(x, ast.Name)}

            class R(ast.NodeTransformer):
                def visit_Name(self, m):
                    return ast.Name(fresh.get(m.id, m.id), m.ctx)

            elt, target = R().visit(v.elt), R().visit(g.target)
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), "append", ast.Load()), [elt], []))]
            return [
                ast.Assign([ast.Name(name, ast.Store())], ast.List([], ast.Load())),
                ast.For(target, g.iter, body, []),
                ast.Assign(n.targets, ast.Name(name, ast.Load())),
            ]
        return n


class Enumerate(Base):
    """for x in s  ->  for k, x in enumerate(s)"""

    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        Enumerate.k += 1
        if self.depth:
            n.target = ast.Tuple([ast.Name("count_%d" % Enumerate.k, ast.Store()), n.target], ast.Store())
            n.iter = ast.Call(ast.Name("enumerate", ast.Load()), [n.iter], [])
        return n


class Elif(Base):
    """if c: ...return  else: ...  ->  if c: ...return; ..."""

    def visit_If(self, n):
        self.generic_visit(n)
        if self.depth and n.orelse and isinstance(n.body[-1], (ast.Return, ast.Raise)):
            return [ast.If(n.test, n.body, [])] + n.orelse
        return n


class Temps(Base):
    """x = f(a + b)  ->  t = a + b; x = f(t)  (first operations first)"""

    k = 0

    def _hoist(self, v):
        out = []
        if isinstance(v, ast.BinOp):
            for side in ("left", "right"):
                s = getattr(v, side)
                if isinstance(s, (ast.BinOp, ast.Call)):
                    Temps.k += 1
                    name = "part_%d" % Temps.k
                    out.append(ast.Assign([ast.Name(name, ast.Store())], s))
                    setattr(v, side, ast.Name(name, ast.Load()))
                elif not isinstance(s, (ast.Name, ast.Constant)):
                    break
        return out

    def visit_Assign(self, n):
        return self._hoist(n.value) + [n] if self.depth else n

    def visit_Return(self, n):
        return self._hoist(n.value) + [n] if n.value is not None else n


def _locals(f):
    out, skip = set(), set()
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            skip.add(n.arg)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f:
            skip.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            skip.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            skip.add(n.name)
        elif isinstance(n, ast.alias):
            skip.add((n.asname or n.name).split(".")[0])
        elif isinstance(n, ast.Lambda):
            skip.update(a.arg for a in n.args.args)
    return out - skip


class Rename(Base):
    """All local variables get another name"""

    def visit_FunctionDef(self, f):
        names = _locals(f)

        class R(ast.NodeTransformer):
            def visit_Name(self, m):
                return ast.Name("my_" + m.id if m.id in names else m.id, m.ctx)

        return R().visit(f)


class Helpers(Base):
    """The expression returned by a function is computed by another one"""

    k = 0

    def visit_Module(self, m):
        self.out = []
        m.body = [self.visit(s) for s in m.body]
        # after the imports, before the classes
        k = max([0] + [i + 1 for i, s in enumerate(m.body) if isinstance(s, (ast.Import, ast.ImportFrom))])
        m.body[k:k] = self.out
        return m

    def visit_ClassDef(self, n):
        for s in n.body:
            self.visit(s)
        return n

    def visit_FunctionDef(self, f):
        if any(isinstance(s, (ast.FunctionDef, ast.Import, ast.ImportFrom)) for s in ast.walk(f) if s is not f):
            return f
        if any(isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id in ("super", "locals") for s in ast.walk(f)):
            return f
        names = _locals(f) | {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
        me = self

        class R(ast.NodeTransformer):
            def visit_Return(self, n):
                v = n.value
                if v is None or isinstance(v, (ast.Name, ast.Constant)):
                    return n
                if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.NamedExpr)) for x in ast.walk(v)):
                    return n
                used = []
                for x in ast.walk(v):
                    if isinstance(x, ast.Name) and x.id in names and x.id not in used:
                        used.append(x.id)
                Helpers.k += 1
                name = "_compute_%d" % Helpers.k
                args = ast.arguments([], [ast.arg(u) for u in used], None, [], [], None, [])
                me.out.append(ast.FunctionDef(name, args, [ast.Return(v)], [], None))
                return ast.Return(ast.Call(ast.Name(name, ast.Load()), [ast.Name(u, ast.Load()) for u in used], []))

            def visit_Lambda(self, n):
                return n

        f.body = [R().visit(s) for s in f.body]
        return f


class Methods(Base):
    """The second half of a function that ends in its only return is another function"""

    k = 0

    def visit_Module(self, m):
        self.out = []
        m.body = [self.visit(s) for s in m.body]
        k = max([0] + [i + 1 for i, s in enumerate(m.body) if isinstance(s, (ast.Import, ast.ImportFrom))])
        m.body[k:k] = self.out
        return m

    visit_ClassDef = Helpers.visit_ClassDef

    def visit_FunctionDef(self, f):
        body = f.body
        inner = [s for s in ast.walk(f) if s is not f]
        if any(isinstance(s, (ast.FunctionDef, ast.Lambda, ast.Import, ast.ImportFrom, ast.Yield, ast.Global, ast.Nonlocal, ast.ListComp, ast.GeneratorExp)) for s in inner):
            return f
        if any(isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id in ("super", "locals") for s in inner):
            return f
        rets = [s for s in inner if isinstance(s, ast.Return)]
        if len(rets) != 1 or body[-1] is not rets[0] or len(body) < 5 or f.args.vararg or f.args.kwarg:
            return f
        k = (len(body) + 1) // 2
        first, second = body[:k], body[k:]
        loads = lambda ss: {x.id for s in ss for x in ast.walk(s) if isinstance(x, ast.Name)}
        stored = lambda ss: {x.id for s in ss for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        args = [a.arg for a in f.args.args]
        # names that the second half may read before it writes them, and that surely exist
        sure = set(args) | {x.id for s in first if isinstance(s, ast.Assign) for t in s.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        need = loads(second) & (set(args) | stored(first))
        if not need <= sure or any(isinstance(s, ast.ExceptHandler) for s in inner):
            return f
        Methods.k += 1
        name = "_second_half_%d" % Methods.k
        need = sorted(need)
        self.out.append(ast.FunctionDef(name, ast.arguments([], [ast.arg(u) for u in need], None, [], [], None, []), second, [], None))
        f.body = first + [ast.Return(ast.Call(ast.Name(name, ast.Load()), [ast.Name(u, ast.Load()) for u in need], []))]
        return f


class Guards(Base):
    """if c: A (the last statement)  ->  nested else with pass; and x += y of names -> unchanged"""

    def visit_If(self, n):
        self.generic_visit(n)
        if self.depth and not n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Pass()], n.body)
        return n


class Nothing(Base):
    """Only the layout changes"""


ALL = {c.__name__.lower(): c for c in (Flip, Compare, Results, Dead, Cond, CondExpr, Loops, Enumerate, Elif, Temps, Rename, Helpers, Methods, Guards, Nothing)}


def rewrite(text, name):
    tree = ast.fix_missing_locations(ALL[name]().visit(ast.parse(text)))
    return ast.unparse(tree) + "\n"


def main():
    if sys.argv[1] == "--list":
        return print(" ".join(ALL))
    for d, _, fs in os.walk(sys.argv[2]):
        for f in fs:
            if f.endswith(".py") and f not in ("version.py", "setup_package.py"):
                p = os.path.join(d, f)
                s = open(p).read()
                open(p, "w").write(rewrite(s, sys.argv[1]))


if __name__ == "__main__":
    main()
