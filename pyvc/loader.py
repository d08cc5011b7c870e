"""Loads /repo/src/naima from its current sources for symbolic execution.

The text that runs is the repository's: every statement is kept; the only rewriting is
  * float literals become exact rationals, / and ** go through exact helpers,
  * the iterables of for loops and list comprehensions go through a helper, which
    executes the body for a generic element when the length is symbolic,
  * `[]` makes a list that knows about such generic elements,
and imports of numpy, astropy, scipy are answered by the symbolic versions."""
import ast
import builtins
import copy
import os
import sys
import types
from fractions import Fraction as F

import astropy.units as ru

from . import loops, sym, terms as t, units
from .sym import SArr, SymQ, as_arr, np, num
from .terms import Unsupported

SRC = os.environ.get("VERIF_REPO", "/repo") + "/src/naima"


# ---------------------------------------------------------------- AST rewriting
class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.fn = [None]
        self.loops = 0

    def visit_JoinedStr(self, n):
        return n

    def visit_Constant(self, n):
        if type(n.value) is float:
            return ast.copy_location(_call("_pyvc_C", ast.Constant(repr(n.value))), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(_call("_pyvc_div", n.left, n.right), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(_call("_pyvc_pow", n.left, n.right), n)
        return n

    def visit_AugAssign(self, n):
        r = self._augassign(n)
        x, pre = n.target, []
        if isinstance(x, ast.Attribute) and _simple(x.value):
            pre.append(ast.Expr(_call("_pyvc_note", _as_load(x.value), ast.Constant(x.attr))))
        elif isinstance(x, ast.Subscript) and _simple(x.value):
            k = _as_load(x.slice) if isinstance(x.slice, (ast.Constant, ast.Name)) else ast.Constant(None)
            pre.append(ast.Expr(_call("_pyvc_notei", _as_load(x.value), k)))
        for p in pre:
            ast.copy_location(p, n)
        return pre + [r] if pre else r

    def _augassign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Div, ast.Pow)):
            load = _as_load(n.target)
            f = "_pyvc_idiv" if isinstance(n.op, ast.Div) else "_pyvc_ipow"
            return ast.copy_location(ast.Assign([n.target], _call(f, load, n.value)), n)
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        pre = []
        for tg in n.targets:
            for x in ast.walk(tg):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and _simple(x.value):
                    pre.append(ast.Expr(_call("_pyvc_note", _as_load(x.value), ast.Constant(x.attr))))
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and _simple(x.value):
                    k = x.slice if isinstance(x.slice, (ast.Constant, ast.Name)) else ast.Constant(None)
                    pre.append(ast.Expr(_call("_pyvc_notei", _as_load(x.value), _as_load(k) if isinstance(k, ast.Name) else k)))
        for p in pre:
            ast.copy_location(p, n)
        return pre + [n] if pre else n

    def visit_FunctionDef(self, n):
        self.fn.append(n)
        self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if not n.elts and isinstance(n.ctx, ast.Load):
            return ast.copy_location(_call("_pyvc_list"), n)
        return n

    def visit_For(self, n):
        bad = _carried(n, self.fn[-1])
        if _exits(n.body) or n.orelse:
            bad.add("<early exit>")
        self.generic_visit(n)
        it = n.iter
        bad = ast.Constant(",".join(sorted(bad)))
        rule = self._rule(n, "for")
        if rule is None:
            n.iter = ast.copy_location(_call("_pyvc_iter", it, bad), it)
            return n
        v = rule[0].targets[0].id + "_it"
        n.iter = ast.copy_location(_call("_pyvc_iter", ast.Name(v, ast.Load()), bad), it)
        return self._placed([ast.Assign([ast.Name(v, ast.Store())], it)] + self._with_rule(n, rule, v), n)

    def visit_While(self, n):
        self.generic_visit(n)
        rule = self._rule(n, "while")
        if rule is None:
            return n
        n.test = ast.copy_location(_call("_pyvc_turn", n.test), n.test)
        return self._placed(self._with_rule(n, rule, None), n)

    def _rule(self, n, kind):
        """The statements that look up a loop specification"""
        if self.fn[-1] is None or n.orelse or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Delete, ast.Global, ast.Nonlocal)) for x in ast.walk(n)):
            return None
        self.loops += 1
        v = "_pyvc_w%d" % self.loops
        names = sorted(
            {x.id for s in n.body for x in _own(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and not x.id.startswith("_pyvc")}
            | ({x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)} if kind == "for" else set())
        )
        look = ast.parse(
            "%s = _pyvc_loop(%r, %s, locals(), %r) if _pyvc_on() else None" % (v, kind, v + "_it" if kind == "for" else "None", tuple(names))
        ).body[0]
        return [look, v, names]

    def _with_rule(self, n, rule, it):
        look, v, names = rule
        test = ast.parse("%s.more()" % v, mode="eval").body if it else n.test
        if it is None and isinstance(test, ast.Call):
            test = test.args[0]
        once = ast.For(
            n.target if it else ast.Name("_pyvc_once", ast.Store()),
            ast.parse("%s.once()" % v, mode="eval").body,
            n.body,
            ast.parse("%s.end(locals())" % v).body,
        )
        havoc = [ast.parse("%s = %s[%r]" % (x, v, x)).body[0] for x in names]
        sel = ast.If(
            ast.parse("%s is None" % v, mode="eval").body,
            [n],
            havoc + [ast.If(test, [once], [])],
        )
        return [look, sel]

    def _placed(self, ss, n):
        for s in ss:
            for x in ast.walk(s):
                if isinstance(x, (ast.stmt, ast.expr)) and getattr(x, "lineno", 0) < n.lineno:
                    ast.copy_location(x, n)
        return ss

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "list" and len(n.args) == 1 and not n.keywords:
            n.func = ast.copy_location(ast.Name("_pyvc_tolist", ast.Load()), n.func)
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].ifs:
            g = n.generators[0]
            g.iter = ast.copy_location(_call("_pyvc_iter", g.iter, ast.Constant("")), g.iter)
            return ast.copy_location(_call("_pyvc_lc", n), n)
        if not any(g.ifs for g in n.generators) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(n)):
            # the lists of the inner loops one after the other
            e = n.elt
            for k, g in enumerate(reversed(n.generators)):
                g.iter = ast.copy_location(_call("_pyvc_iter", g.iter, ast.Constant("")), g.iter)
                e = _call("_pyvc_lc", ast.ListComp(e, [g]))
                if k:
                    e = _call("_pyvc_flat", e)
            return ast.copy_location(e, n)
        for g in n.generators:
            g.iter = ast.copy_location(_call("_pyvc_conc", g.iter), g.iter)
        return n

    def visit_GeneratorExp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].ifs and not any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(n)):
            it = n.generators[0].iter
            m = copy.deepcopy(n)
            m.generators[0].iter = ast.Name("_pyvc_it", ast.Load())
            c = copy.deepcopy(m)
            c = ast.ListComp(c.elt, c.generators)
            c.generators[0].iter = _call("_pyvc_iter", c.generators[0].iter, ast.Constant(""))
            lam = lambda b: ast.Lambda(ast.arguments([], [ast.arg("_pyvc_it")], None, [], [], None, []), b)
            return ast.copy_location(_call("_pyvc_gen", it, lam(_call("_pyvc_lc", c)), lam(m)), n)
        for g in n.generators:
            g.iter = ast.copy_location(_call("_pyvc_conc", g.iter), g.iter)
        return n


def _call(f, *a):
    return ast.Call(ast.Name(f, ast.Load()), list(a), [])


def _simple(x):
    while isinstance(x, ast.Attribute):
        x = x.value
    return isinstance(x, ast.Name)


def _own(s):
    """The nodes of a statement without those of nested functions"""
    stack = [s]
    while stack:
        x = stack.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            stack.extend(ast.iter_child_nodes(x))
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            yield ast.Name(x.name, ast.Store())


def _exits(body, inner=False):
    """Does a loop body leave the loop early"""
    for s in body:
        if isinstance(s, ast.Return) or (isinstance(s, ast.Break) and not inner):
            return True
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        for f in ("body", "orelse", "finalbody"):
            if _exits(getattr(s, f, []) or [], inner or isinstance(s, (ast.For, ast.While))):
                return True
        for h in getattr(s, "handlers", []) or []:
            if _exits(h.body, inner):
                return True
    return False


def _as_load(x):
    y = ast.parse(ast.unparse(x), mode="eval").body
    return Rewriter().visit(y)


def _walk(s):
    """The nodes of a statement, without the variables of comprehensions"""
    stack = [(s, frozenset())]
    while stack:
        x, bound = stack.pop()
        if isinstance(x, ast.Name) and x.id in bound:
            continue
        yield x
        kids = list(ast.iter_child_nodes(x))
        if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            first = x.generators[0].iter
            stack.append((first, bound))
            inner = bound | {n.id for g in x.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            for g in x.generators:
                stack += [(g.target, inner)] + [(i, inner) for i in g.ifs] + ([(g.iter, inner)] if g.iter is not first else [])
            kids = [k for k in kids if not isinstance(k, ast.comprehension)]
            bound = inner
        stack += [(k, bound) for k in kids]


def _carried(loop, fn):
    """Variables that carry a value from one iteration to the next, or out of the loop"""
    stored = {n.id for s in loop.body for n in _walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    tgt = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
    bad = set()
    for s in loop.body:
        for n in ast.walk(s):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                if not _assigned_before(loop.body, n.target.id, n):
                    bad.add(n.target.id)
    if fn is not None:
        for n in _walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in stored | tgt:
                if n.lineno > loop.end_lineno and not _restored(fn, n.id, loop.end_lineno, n):
                    bad.add(n.id)
    for name in stored:
        first = None
        for s in loop.body:
            for n in _walk(s):
                if isinstance(n, ast.Name) and n.id == name:
                    key = (n.lineno, 0 if isinstance(n.ctx, ast.Load) else 1, n.col_offset)
                    if isinstance(n.ctx, ast.Load) and any(
                        isinstance(p, ast.Assign) and p.lineno <= n.lineno <= p.end_lineno
                        for p in ast.walk(s)
                        if isinstance(p, ast.Assign) and any(m is n for m in ast.walk(p))
                    ):
                        key = (n.lineno, 0, n.col_offset)
                    if first is None or key < first[0]:
                        first = (key, n.ctx)
        if first and isinstance(first[1], ast.Load) and name not in tgt:
            bad.add(name)
    return bad


def _assigned_before(body, name, node):
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Assign) and n.end_lineno < node.lineno:
                for tg in n.targets:
                    if any(isinstance(m, ast.Name) and m.id == name for m in ast.walk(tg)):
                        return True
    return False


def _restored(fn, name, after, use):
    """Is the name assigned again between the loop and the use (at any nesting)"""
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
            if after < n.lineno <= use.lineno:
                return True
    return False


# ---------------------------------------------------------------- helpers of the rewritten code
_C = {}


def C(s):
    r = _C.get(s)
    if r is None:
        if s in ("inf", "nan"):
            return as_arr(float(s))
        r = _C[s] = F(s)
    return num(t.const(r))


def _exact(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def div(a, b):
    if _exact(a) and _exact(b):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return as_arr(a) / as_arr(b)
    if isinstance(a, bool) and isinstance(b, (int, bool)):
        return as_arr(a) / as_arr(b)
    return a / b


def pow_(a, b):
    if _exact(a) and _exact(b):
        if isinstance(a, int) and isinstance(b, int) and b >= 0:
            return a**b
        return as_arr(a) ** as_arr(b)
    return a**b


def idiv(a, b):
    if _exact(a) and _exact(b):
        return div(a, b)
    a /= b
    return a


def ipow(a, b):
    if _exact(a) and _exact(b):
        return pow_(a, b)
    a **= b
    return a


class SList(list):
    def __init__(self, *a):
        list.__init__(self, *a)
        if sym.EX is not None:
            sym.EX.list_new(self)

    def append(self, v):
        ex = sym.EX
        if ex is not None and ex.loops:
            ex.list_append(self, v)
        else:
            list.append(self, v)

    def __getitem__(self, k):
        if _generic(self):
            if len(self) != 1 or isinstance(k, slice):
                raise Unsupported("element of a list with a symbolic number of elements and others")
            r = list.__getitem__(self, 0)
            k = sym._t(k)
            if k.const is not None and k.const < 0:
                if r.axis.n == 1:
                    idx = (t.add(r.axis.length, k),)
                elif k.const == -1:
                    idx = tuple(t.add(b, t.MINUS1) for b in r.axis.bases)
                else:
                    raise Unsupported("element of a nested list")
            elif r.axis.n == 1:
                idx = (k,)
            elif k.const == 0:
                idx = (t.ZERO,) * r.axis.n
            else:
                raise Unsupported("element of a nested list")
            if r.axis.mask is not None and r.axis.mask.k != "true":
                raise Unsupported("element of a list of the selected elements")
            return subst_value(r.value, dict(zip(r.atoms, idx)))
        return list.__getitem__(self, k)


def _generic(x):
    """Is it a list with a symbolic number of elements"""
    return isinstance(x, list) and any(isinstance(v, sym.Rep) for v in list.__iter__(x))


class SymGen:
    """A generator over an iterable of symbolic length"""

    def __init__(self, rep):
        self.rep, self.sym_axis = rep, rep.axis

    def sym_element(self, idx):
        return subst_value(self.rep.value, dict(zip(self.rep.atoms, idx)))

    def __iter__(self):
        raise Unsupported("generator over a symbolic iterable")


def gen(it, comp, orig):
    if _symlen(it) is None:
        return orig(it)
    r = comp(it)
    if not _generic(r) or list.__len__(r) != 1:
        raise Unsupported("generator over a symbolic iterable")
    return SymGen(list.__getitem__(r, 0))


def _flat(x):
    """The elements of a list of symbolic length, or None"""
    if isinstance(x, SymGen):
        return sym.stack([x.rep])
    if _generic(x):
        return sym.stack(list.__iter__(x))
    return None


def _over(name, f):
    """A function of an iterable that has no meaning for lists of symbolic length but f's"""
    b = getattr(builtins, name)

    def g(*a, **k):
        for x in a:
            if isinstance(x, SymGen) or _generic(x):
                if f is None or len(a) != 1 or k:
                    raise Unsupported("%s of a list of symbolic length" % name)
                return f(_flat(x))
        return b(*a, **k)

    return g


class SymRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __getattr__(self, n):
        raise Unsupported("range of symbolic length: " + n)


class SymEnum:
    def __init__(self, it, start=0):
        self.it, self.start = it, start


class SymZip:
    def __init__(self, its):
        self.its = its


def _symlen(x):
    """The axis of an iterable of symbolic length, or None"""
    if isinstance(x, (SArr, SymQ)):
        ax = x.axes
        if not ax:
            return None
        c = ax[0].const
        if c is not None and ax[0].mask is None:
            return None
        return ax[0]
    if isinstance(x, SymRange):
        n = t.add(x.hi, t.neg(x.lo))
        return sym.axis_of_len(n)
    if isinstance(x, SymEnum):
        return _symlen(x.it)
    if isinstance(x, SymZip):
        for i in x.its:
            a = _symlen(i)
            if a is not None:
                return a
        return None
    if isinstance(x, list) and any(isinstance(v, sym.Rep) for v in x):
        if len(x) != 1:
            raise Unsupported("iteration over a mixed list")
        return list.__getitem__(x, 0).axis
    if getattr(x, "sym_axis", None) is not None:
        return x.sym_axis
    return None


def _element(x, ax, idx):
    if isinstance(x, SArr):
        nd = x.node
        rest = x.axes[1:]
        if not rest:
            v = nd.at(idx)
            return num(v, x.kind)
        return SArr(sym.Node(rest, lambda *i: nd.at(tuple(idx) + i), x.kind))
    if isinstance(x, SymQ):
        return SymQ._mk(_element(x.val, ax, idx), x.unit)
    if isinstance(x, SymRange):
        return num(t.add(x.lo, idx[0]), "i")
    if isinstance(x, SymEnum):
        if ax.mask is not None:
            raise Unsupported("enumerate of a selection")
        return (num(t.add(t.const(x.start), idx[0]), "i"), _element(x.it, ax, idx))
    if isinstance(x, SymZip):
        out = []
        for i in x.its:
            a = _symlen(i)
            if a is None:
                raise Unsupported("zip of symbolic and concrete iterables")
            if a.key != ax.key and not (a.mask is None and ax.mask is None and sym.EX.equal_len(a.length, ax.length)):
                raise Unsupported("zip of iterables of different length")
            out.append(_element(i, ax, idx))
        return tuple(out)
    if isinstance(x, list):
        r = list.__getitem__(x, 0)
        return subst_value(r.value, dict(zip(r.atoms, idx)))
    return x.sym_element(idx)


def subst_value(v, m):
    if isinstance(v, SymQ):
        return SymQ._mk(subst_value(v.val, m), subst_value(v.unit, m))
    if isinstance(v, units.SUnit):
        sc = t.subst(v.scale, m)
        return v if sc is v.scale else units.SUnit(v.dims, sc)
    if isinstance(v, SArr):
        nd = v.node
        return SArr(sym.Node(v.axes, lambda *i: t.subst(nd.at(i), m), v.kind), v.arr0)
    if isinstance(v, (list, tuple)):
        return type(v)([subst_value(x, m) for x in v])
    if isinstance(v, dict):
        return type(v)((k, subst_value(x, m)) for k, x in v.items())
    if isinstance(v, (int, str, type(None), float)):
        return v
    if hasattr(v, "sym_subst"):
        return v.sym_subst(m)
    raise Unsupported("generic element of type %s" % type(v).__name__)


def conc(it):
    if _symlen(it) is not None:
        raise Unsupported("comprehension over a symbolic iterable")
    return it


def pyvc_iter(it, bad):
    if getattr(type(it), "rows_of", None) is not None:
        # the rows of a table can only be added to another one, all of them
        if bad:
            raise Unsupported("loop-carried variables: " + bad)
        yield it.rows_of()
        return
    ax = _symlen(it)
    if ax is None:
        if isinstance(it, SymEnum):
            it = builtins.enumerate(it.it, it.start)
        elif isinstance(it, SymZip):
            it = builtins.zip(*it.its)
        yield from it
        if sym.EX is not None:
            sym.EX.last_loop = None
        return
    if bad:
        raise Unsupported("loop-carried variables: " + bad)
    ex = sym.EX
    yield from ex.loop(ax, lambda idx: _element(it, ax, idx))


def lc(res):
    ex = sym.EX
    if ex is None or ex.last_loop is None or len(res) != ex.last_loop[2]:
        return res
    ax, atoms, n, conds = ex.last_loop
    ex.last_loop = None
    v = ex.merge_values(res, conds)
    out = SList()
    list.append(out, sym.Rep(ax, atoms, v))
    return out


def flat_list(x):
    """The elements of lists, one after the other"""
    out = SList()
    if not _generic(x):
        for v in list.__iter__(x):
            if _generic(v):
                raise Unsupported("nested comprehension")
            list.extend(out, list.__iter__(v))
        return out
    r = list.__getitem__(x, 0)
    v = r.value
    if list.__len__(x) != 1 or not _generic(v) or list.__len__(v) != 1 or r.axis.mask is not None and r.axis.mask.k != "true":
        raise Unsupported("nested comprehension")
    q = list.__getitem__(v, 0)
    if q.axis.mask is not None and q.axis.mask.k != "true" or any(a in t.atoms_of(b) for a in r.atoms for b in q.axis.bases):
        raise Unsupported("nested comprehension")
    list.append(out, sym.Rep(sym.masked_axis(r.axis.bases + q.axis.bases, t.true()), list(r.atoms) + list(q.atoms), q.value))
    return out


_turns = [None, 0]


def _turn(b):
    """The test of a while loop without an invariant"""
    ex = sym.EX
    if ex is not None and isinstance(b, SArr):
        if _turns[0] is not ex.main:
            _turns[:] = [ex.main, 0]
        _turns[1] += 1
        if _turns[1] > 200:
            raise Unsupported("while loop without an invariant")
    return b


def _tolist(*a):
    if len(a) == 1 and isinstance(a[0], SymRange):
        return a[0]
    return builtins.list(*a)


# ---------------------------------------------------------------- builtins
def _len(x):
    if isinstance(x, (SArr, SymQ)):
        if not x.axes:
            raise TypeError("object of type 'float' has no len()")
        return sym._wrap_len(x.axes[0].length)
    if isinstance(x, list) and any(isinstance(v, sym.Rep) for v in x):
        return sym._wrap_len(_symlen(x).length)
    a = getattr(x, "sym_axis", None)
    if a is not None:
        return sym._wrap_len(a.length)
    return builtins.len(x)


def _range(*a):
    if any(isinstance(x, SArr) for x in a):
        if len(a) > 2:
            raise Unsupported("range with a step")
        lo, hi = (0, a[0]) if len(a) == 1 else a
        lo, hi = sym._t(lo), sym._t(hi)
        if lo.const is not None and hi.const is not None:
            return builtins.range(int(lo.const), int(hi.const))
        return SymRange(lo, hi)
    return builtins.range(*a)


def _enumerate(x, start=0):
    return SymEnum(x, start) if _symlen(x) is not None else builtins.enumerate(x, start)


def _zip(*xs):
    return SymZip(xs) if any(_symlen(x) is not None for x in xs) else builtins.zip(*xs)


class _Int(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, int) or (isinstance(x, SArr) and not x.axes and x.kind == "i")

    def __call__(cls, x=0, *a):
        if isinstance(x, SymQ):
            x = x.to_dimensionless()
        if isinstance(x, SArr):
            if x.kind == "i":
                return num(x.scalar(), "i")
            return num(sym._trunc(sym._num(x.scalar())), "i")
        if isinstance(x, F):
            return int(x)
        return int(x, *a)


class _intc(metaclass=_Int):
    pass


class _Float(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, float) or (isinstance(x, SArr) and not x.axes and x.kind == "f" and not x.arr0)

    def __call__(cls, x=0):
        if isinstance(x, SymQ):
            x = x.to_dimensionless()
        if isinstance(x, SArr):
            return num(sym._num(x.scalar()))
        if isinstance(x, str):
            return C(repr(float(x)))
        return C(repr(float(x)))


class _floatc(metaclass=_Float):
    pass


def _max(*a, **k):
    if len(a) == 1 and _flat(a[0]) is not None:
        return np.max(_flat(a[0]))
    xs = list(a[0]) if len(a) == 1 else list(a)
    if any(isinstance(x, (SArr, SymQ)) for x in xs):
        r = xs[0]
        kind = "i" if all(isinstance(x, int) or (isinstance(x, SArr) and x.kind == "i") for x in xs) else "f"
        for x in xs[1:]:
            r = np.maximum(r, x)
        return r if isinstance(r, SymQ) else num(r.scalar(), kind)
    return builtins.max(*a, **k)


def _min(*a, **k):
    if len(a) == 1 and _flat(a[0]) is not None:
        return np.min(_flat(a[0]))
    xs = list(a[0]) if len(a) == 1 else list(a)
    if any(isinstance(x, (SArr, SymQ)) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            r = np.minimum(r, x)
        return r
    return builtins.min(*a, **k)


def _sum(x, start=0):
    if isinstance(x, (SArr, SymQ)):
        return np.sum(x)
    if _flat(x) is not None:
        return start + np.sum(_flat(x))
    return builtins.sum(x, start)


_TMAP = {int: _intc, float: _floatc}


def _fix(c):
    if isinstance(c, tuple):
        return tuple(_fix(x) for x in c)
    return c


def _isinstance(x, c):
    if isinstance(c, tuple):
        return any(_isinstance(x, k) for k in c)
    if c is int:
        c = _intc
    elif c is float:
        c = _floatc
    elif c is list and isinstance(x, SList):
        return True
    return builtins.isinstance(x, c)


def _type(x, *a):
    if a:
        return builtins.type(x, *a)
    if isinstance(x, SList):
        return list
    return builtins.type(x)


class _Method:
    pass


BUILTINS = dict(vars(builtins))
BUILTINS.update(
    len=_len,
    range=_range,
    enumerate=_enumerate,
    zip=_zip,
    int=_intc,
    float=_floatc,
    max=_max,
    min=_min,
    sum=_sum,
    any=_over("any", lambda x: np.any(x)),
    all=_over("all", lambda x: np.all(x)),
    sorted=_over("sorted", None),
    reversed=_over("reversed", None),
    map=_over("map", None),
    filter=_over("filter", None),
    next=_over("next", None),
    iter=_over("iter", None),
    isinstance=_isinstance,
    type=_type,
    print=lambda *a, **k: None,
    _pyvc_C=C,
    _pyvc_div=div,
    _pyvc_pow=pow_,
    _pyvc_idiv=idiv,
    _pyvc_ipow=ipow,
    _pyvc_iter=pyvc_iter,
    _pyvc_conc=conc,
    _pyvc_lc=lc,
    _pyvc_flat=flat_list,
    _pyvc_gen=gen,
    _pyvc_list=SList,
    _pyvc_on=loops.on,
    _pyvc_loop=loops.enter,
    _pyvc_turn=_turn,
    _pyvc_tolist=_tolist,
    _pyvc_note=lambda o, a: sym.EX.note_attr(o, a) if sym.EX is not None else None,
    _pyvc_notei=lambda o, k: sym.EX.note_item(o, k) if sym.EX is not None else None,
)


# ---------------------------------------------------------------- astropy
class U:
    """astropy.units"""

    Quantity = SymQ
    UnitsError = ru.UnitsError
    UnitConversionError = ru.UnitConversionError
    UnitTypeError = ru.UnitTypeError
    UnitBase = units.SUnit
    CompositeUnit = units.SUnit

    @staticmethod
    def Unit(x, *a, **k):
        return units.as_unit(x)

    @staticmethod
    def def_physical_type(un, name):
        ru.def_physical_type(un.real, name)

    get_physical_type = staticmethod(lambda x: ru.get_physical_type(x.real if isinstance(x, units.SUnit) else x))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        x = getattr(ru, n)
        if isinstance(x, ru.UnitBase):
            return units.as_unit(x)
        raise Unsupported("astropy.units.%s" % n)


u = U()


def _constants():
    def q(n, un):
        return SymQ(num(t.sym(n, pos=True)), un)

    ns = types.SimpleNamespace(
        alpha=q("alpha_fs", ""),
        c=q("c0", "m/s"),
        hbar=q("hbar", "J s"),
        m_e=q("m_e", "kg"),
        m_p=q("m_p", "kg"),
        sigma_sb=q("sigma_sb", "W / (K4 m2)"),
        k_B=q("k_B", "J/K"),
        h=q("h_planck", "J s"),
        G=q("G_newton", "m3 / (kg s2)"),
    )
    # electron charge in the Gaussian system: esu = cm^(3/2) g^(1/2) / s
    sc = t.mul(t.power(t.const(F(1, 100)), t.const(F(3, 2))), t.power(t.const(F(1, 1000)), t.const(F(1, 2))))
    esu = units.SUnit({"m": F(3, 2), "kg": F(1, 2), "s": -1}, sc)
    ns.e = types.SimpleNamespace(gauss=SymQ(num(t.sym("e_esu", pos=True)), esu), esu=SymQ(num(t.sym("e_esu", pos=True)), esu))
    ns.e.si = SymQ(num(t.sym("e_SI", pos=True)), "C")
    return ns


from .table import QTable, Table, vstack  # noqa: E402


class Package:
    """The modules of naima under symbolic execution"""

    def __init__(self, src=None):
        self.src = src or SRC
        self.mods = {}
        self.extra = {}  # name -> replacement of imported names
        self.stubbed = set()
        self.initial = []  # (module, class or container, its contents after the import)
        self.stubs = {}  # label -> (module, name, function: original -> stub)
        self.constants = _constants()

    def _fake(self):
        tab = types.SimpleNamespace(Table=Table, QTable=QTable, vstack=vstack)
        a = types.SimpleNamespace()
        a.units = u
        a.constants = self.constants
        a.table = tab
        import logging

        lg = logging.getLogger("pyvc")
        lg.setLevel(logging.CRITICAL)
        a.log = lg
        a.utils = types.SimpleNamespace(
            data=types.SimpleNamespace(get_pkg_data_filename=lambda n, *k: n)
        )
        a.io = types.SimpleNamespace(misc=types.SimpleNamespace(hdf5=types.SimpleNamespace(read_table_hdf5=None, write_table_hdf5=None)))
        a.io.misc.hdf5.read_table_hdf5 = a.io.misc.hdf5.write_table_hdf5 = _nofun("hdf5")
        return a

    def imp(self, name, globs=None, locs=None, fromlist=(), level=0):
        if level:
            pkg = globs["__pyvc_pkg__"].split(".")
            pkg = pkg[: len(pkg) - (level - 1)]
            full = ".".join(pkg + ([name] if name else []))
            if name:
                return self.load(full)
            ns = types.SimpleNamespace()
            for f in fromlist or ():
                setattr(ns, f, self.load(full + "." + f))
            return ns
        top = name.split(".")[0]
        if name in self.extra:
            return self.extra[name]
        if top == "astropy":
            a = self._fake()
            if not fromlist:
                return a
            for p in name.split(".")[1:]:
                a = getattr(a, p)
            return a
        if top == "numpy":
            return np
        if top == "scipy":
            if name == "scipy.special":
                return types.SimpleNamespace(cbrt=np.cbrt, expit=None)
            if name == "scipy.integrate":
                return types.SimpleNamespace(quad=_quad)
            if name == "scipy.interpolate":
                return types.SimpleNamespace(interp1d=_Interp1d, RectBivariateSpline=_Spline2d)
            if name == "scipy" and fromlist:
                ns = types.SimpleNamespace()
                for f in fromlist:
                    setattr(ns, f, self.extra.get("scipy." + f, _Opaque("scipy." + f)))
                return ns
            raise Unsupported(name)
        if top in ("h5py", "emcee", "matplotlib", "sherpa", "corner"):
            return self.extra.get(name, None) or _Opaque(name)
        if top == "multiprocessing":
            return types.SimpleNamespace(Pool=_nofun("Pool"), cpu_count=lambda: 1)
        return builtins.__import__(name, globs, locs, fromlist, level)

    def load(self, full):
        if full in self.mods:
            return self.mods[full]
        rel = full.split(".")[1:]
        path = os.path.join(self.src, *rel)
        if os.path.isdir(path):
            pkg, path = full, os.path.join(path, "__init__.py")
        else:
            pkg, path = full.rsplit(".", 1)[0], path + ".py"
        if not os.path.exists(path):
            raise ImportError(full)
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(Rewriter().visit(tree))
        m = types.ModuleType(full)
        b = dict(BUILTINS)
        b["__import__"] = self.imp
        m.__dict__["__builtins__"] = b
        m.__dict__["__pyvc_pkg__"] = pkg
        m.__file__ = path
        self.mods[full] = m
        exec(compile(tree, path, "exec"), m.__dict__)
        for k, (mod, name, make) in list(self.stubs.items()):
            if mod != full:
                continue
            obj = m
            *path, name = name.split(".")
            for q in path:
                obj = getattr(obj, q, None)
            if obj is not None and name in obj.__dict__:
                new = make(obj.__dict__[name])
                if obj is m:
                    m.__dict__[name] = new
                else:
                    setattr(obj, name, new)
                self.stubbed.add(k)
        self.initial += _snapshot(m)
        return m

    def restore(self):
        """The state of modules and classes right after their import: each path is a new run"""
        for obj, what in self.initial:
            if isinstance(obj, (dict, set)):
                obj.clear()
                obj.update(what)
            elif isinstance(obj, list):
                obj[:] = what
            elif isinstance(obj, type):
                for k in [k for k in vars(obj) if k not in what and not k.startswith("__")]:
                    delattr(obj, k)
                for k, v in what.items():
                    if vars(obj).get(k, obj) is not v:
                        setattr(obj, k, v)
            else:
                for k, v in what.items():
                    vars(obj)[k] = v


def _snapshot(m):
    """Contents of a module, its classes, and the containers in them"""
    out, seen = [], set()

    def see(x):
        if id(x) in seen:
            return
        if isinstance(x, (dict, list, set)):
            seen.add(id(x))
            out.append((x, x.copy()))
            for v in x.values() if isinstance(x, dict) else x:
                see(v)
        elif isinstance(x, type) and x.__module__ == m.__name__:
            seen.add(id(x))
            d = {k: v for k, v in vars(x).items() if not k.startswith("__")}
            out.append((x, d))
            for v in d.values():
                see(v)

    d = {k: v for k, v in vars(m).items() if not k.startswith("__")}
    out.append((m, d))
    for v in d.values():
        see(v)
    return out


class _Opaque:
    """A library outside of the verified subset: using it stops the proof"""

    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Opaque(self._n + "." + n)

    def __call__(self, *a, **k):
        raise Unsupported("call of %s" % self._n)

    def __mro_entries__(self, bases):
        return ()


def _nofun(name):
    def f(*a, **k):
        raise Unsupported(name)

    return f


def _quad(f, a, b, args=(), epsrel=None, epsabs=None, **k):
    """scipy.integrate.quad: the integral itself (quadrature error is not modelled), up to an unknown
    absolute error if one is allowed (which it is by default)"""
    if not isinstance(args, tuple):
        args = (args,)
    a, b = sym._t(as_arr(a)), sym._t(as_arr(b))
    ex = sym.EX

    def body(i):
        v = f(num(i), *args)
        return as_arr(v).scalar()

    # the integration variable lies between the limits
    v = ex.integral(body, a, b)
    if epsabs is None or not as_arr(epsabs).scalar() is t.ZERO:
        v = t.add(v, t.fresh("quadrature error"))
    return (num(v), num(t.ZERO))


class _Interp1d:
    """scipy.interpolate.interp1d: an uninterpreted interpolant within the range of x that passes
    through its points and reproduces straight lines"""

    def __init__(self, x, y, kind="linear", fill_value=None, bounds_error=None, **k):
        k.pop("assume_sorted", None) if k.get("assume_sorted") is False else None
        self.x, self.y, self.kind = as_arr(x).copy(), as_arr(y).copy(), kind
        # scipy's default outside of the range
        self.fill = t.nan() if fill_value is None else fill_value
        self.bounds_error = bounds_error
        if k or not isinstance(kind, str) or self.x.ndim != 1 or self.y.ndim != 1:
            raise Unsupported("interp1d options")
        n = self.x.axes[0].length
        self.tag = (sym._arrterm(self.x), sym._arrterm(self.y))
        key = ("interp1d", kind) + self.tag
        ex = sym.EX
        if key not in ex.perms:
            ex.perms.add(key)

            def facts(idx, bases, x=self.x, y=self.y):
                # the interpolant passes through its points
                if len(idx) != 1 or bases[0] is not n:
                    return []
                return [t.eq(self._at(x.at(idx[0])), y.at(idx[0]))]

            ex.axiom(facts)

    def _at(self, v):
        # at one of its points
        n = self.x.axes[0].length
        js = [t.ZERO, t.add(n, t.MINUS1)]
        for a in t.atoms_of(v):
            if a.kind == "app":
                js += [j for j in a.key[2] if isinstance(j, t.T)]
        for j in js:
            if self.x.at(j) is v:
                return sym._num(self.y.at(j))
        # a straight line
        i = sym.CAN(0)
        ai = t.atom_of(i)
        x, y = sym._num(self.x.at(i)), sym._num(self.y.at(i))
        for b in [t.ZERO] + list(getattr(sym.EX, "slopes", ())):
            rest = t.add(y, t.neg(t.mul(b, x)))
            if ai not in t.atoms_of(rest):
                return t.add(rest, t.mul(b, v))
        return t.app("interp1d:%s" % self.kind, self.tag + (v,))

    def __call__(self, x):
        # scipy converts with numpy.asarray, which drops the unit
        x = as_arr(x.val if isinstance(x, sym.SymQ) else x)
        if self.bounds_error is not False:
            raise Unsupported("interp1d with bounds_error")
        lo, hi = np.min(self.x).scalar(), np.max(self.x).scalar()
        fl = as_arr(self.fill).scalar()

        def f(v):
            return t.ite(t.conj([t.le(lo, v), t.le(v, hi)]), self._at(v), fl)

        return sym.unop(f, x)


class _Spline2d:
    """scipy.interpolate.RectBivariateSpline without smoothing: an uninterpreted function that
    passes through its points; called with two sequences, the values on their grid"""

    def __init__(self, x, y, z, bbox=None, kx=3, ky=3, s=0):
        self.x, self.y, self.z = as_arr(x).copy(), as_arr(y).copy(), as_arr(z).copy()
        if bbox is not None or s != 0 or (self.x.ndim, self.y.ndim, self.z.ndim) != (1, 1, 2):
            raise Unsupported("RectBivariateSpline options")
        for a, b in zip(self.z.axes, (self.x.axes[0], self.y.axes[0])):
            if a.length is not b.length:
                raise ValueError("x, y and z dimensions")
        self.tag = (sym._arrterm(self.x), sym._arrterm(self.y), sym._arrterm(self.z), t.const(kx), t.const(ky))

    @staticmethod
    def _node(arr, v):
        n = arr.axes[0].length
        js = [t.ZERO, t.add(n, t.MINUS1)]
        if n.const is not None:
            js += [t.const(k) for k in range(int(n.const))]
        for a in t.atoms_of(v):
            if a.kind == "app":
                js += [j for j in a.key[2] if isinstance(j, t.T)]
        return next((j for j in js if arr.at(j) is v), None)

    def _at(self, v, w):
        i, j = self._node(self.x, v), self._node(self.y, w)
        if i is not None and j is not None:
            return sym._num(self.z.at(i, j))
        return t.app("spline", self.tag + (v, w))

    def __call__(self, x, y):
        x, y = (np.atleast_1d(as_arr(a.val if isinstance(a, sym.SymQ) else a)) for a in (x, y))
        return sym.binop(self._at, x[:, None], y[None, :])
