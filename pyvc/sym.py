"""Symbolic arrays, quantities and the numpy/astropy surface that the code under
contract uses. An array is a list of axes and a function from indices to a term; array
contents, lengths, units and values are all symbolic, so that one execution covers every
shape and value at once. Real arithmetic: floating point is treated as mathematical."""
import builtins
from fractions import Fraction as F

import numpy as _np

from . import terms as t
from .terms import B, T, Unsupported

EX = None  # the current explorer


def decide(b):
    if EX is None:
        if b.k == "true":
            return True
        if b.k == "false":
            return False
        raise Unsupported("branch outside of an exploration: %r" % b)
    return EX.decide(b)


def effect(obj, attr, old):
    if EX is not None:
        EX.log_effect(obj, attr, old)


# ---------------------------------------------------------------- axes
def CAN(k):
    return t.sym("ix%d" % k, nonneg=True, isint=True)


def _canatoms(n):
    return [t.atom_of(CAN(k)) for k in range(n)]


class Axis:
    __slots__ = ("bases", "mask", "length", "key")

    def __init__(self, bases, mask=None):
        self.bases = tuple(t.const(b) for b in bases)
        self.mask = mask
        if mask is None:
            assert len(self.bases) == 1
            self.length = self.bases[0]
        else:
            self.length = _count(self.bases, mask)
        self.key = (self.bases, mask)

    @property
    def n(self):
        return len(self.bases)

    def mask_at(self, idx):
        if self.mask is None:
            return t.true()
        return t.subst(self.mask, dict(zip(_canatoms(self.n), idx)))

    @property
    def const(self):
        c = self.length.const
        return None if c is None else int(c)


ONE_AXIS = None
WRITTEN = {}  # text -> number it was written from
_counts = {}  # length term -> Axis
_count_any = {}  # length term -> B


def reset():
    _counts.clear()
    _count_any.clear()
    _anys.clear()


def _count(bases, mask):
    ats = _canatoms(len(bases))

    def nest(k, sub):
        if k == len(bases):
            return t.ite(t.subst(mask, dict(sub)), t.ONE, t.ZERO)
        return t.bsum(bases[k], lambda i: nest(k + 1, sub + [(ats[k], i)]))

    if mask.k == "false":
        return t.ZERO
    r = nest(0, [])
    # a count is an opaque integer
    n = t.app("count", (r,), nonneg=True, isint=True) if r.const is None else r
    return n


def axis_of_len(n):
    n = t.const(n)
    if n in _counts:
        return _counts[n]
    return Axis((n,))


def masked_axis(bases, mask):
    a = Axis(bases, mask)
    if a.length.const is None:
        _counts[a.length] = a
        _count_any[a.length] = any_atom(bases, mask)
    return a


_anys = {}  # B -> (bases, mask)


def any_atom(bases, mask):
    """exists idx: mask(idx)"""
    if mask.k in ("false", "true"):
        # arrays are assumed not empty
        return mask
    if any(n.const == 1 for n in bases):
        # axes of one element
        can, m, keep = _canatoms(len(bases)), {}, []
        for k, n in enumerate(bases):
            if n.const == 1:
                m[can[k]] = t.ZERO
            else:
                m[can[k]] = CAN(len(keep))
                keep.append(n)
        mask, bases = t.subst(mask, m), tuple(keep)
        if mask.k in ("false", "true") or not bases:
            return mask
    b = t.bapp("any", (mask,) + tuple(bases))
    _anys[b] = (tuple(bases), mask)
    return b


# ---------------------------------------------------------------- nodes
class Node:
    __slots__ = ("axes", "fn", "kind", "cache")

    def __init__(self, axes, fn, kind):
        self.axes, self.fn, self.kind, self.cache = tuple(axes), fn, kind, {}

    def at(self, idx):
        idx = tuple(idx)
        r = self.cache.get(idx)
        if r is None:
            r = self.fn(*idx)
            self.cache[idx] = r
        return r

    def split(self, idx):
        out, k = [], 0
        for a in self.axes:
            out.append(tuple(idx[k : k + a.n]))
            k += a.n
        return out


def _same_axis(a, b):
    return a.key == b.key


def _is1(a):
    return a.mask is None and a.length is t.ONE


def bcast(*axess):
    """Broadcast axes: (result axes, one index mapper per input)"""
    nd = max(len(a) for a in axess)
    res = []
    for k in range(1, nd + 1):
        cur = None
        for ax in axess:
            if len(ax) < k:
                continue
            a = ax[-k]
            if cur is None or _is1(cur):
                cur = a
            elif _is1(a) or _same_axis(cur, a):
                pass
            else:
                ca, cb = cur.const, a.const
                if ca is not None and cb is not None and ca != cb:
                    raise ValueError("operands could not be broadcast together")
                if cur.mask is None and a.mask is None and EX is not None and EX.equal_len(cur.length, a.length):
                    continue
                raise Unsupported("broadcast of axes of different length: %r, %r" % (cur.length, a.length))
        res.append(cur)
    res = tuple(reversed(res))

    def mapper(ax):
        off = nd - len(ax)

        def m(idx):
            parts, k = [], 0
            for a in res:
                parts.append(idx[k : k + a.n])
                k += a.n
            out = []
            for j, a in enumerate(ax):
                if _is1(a) and not _is1(res[off + j]):
                    out.append(t.ZERO)
                else:
                    out.extend(parts[off + j])
            return tuple(out)

        return m

    return res, [mapper(a) for a in axess]


def _mod(a, b):
    # Python's sign convention, which Fraction follows
    return t.const(a.const % b.const) if a.const is not None and b.const else t.app("mod", (a, b))


class WhereIdx(tuple):
    """The value of np.where(mask): a tuple of index arrays"""


class IdxArr:
    def __init__(self, mask):
        self.mask = mask

    @property
    def size(self):
        return _wrap_len(self.mask.masked().length)

    @property
    def shape(self):
        return (self.size,)

    def __len__(self):
        raise Unsupported("len of an index array")


def _wrap_len(n):
    c = n.const
    return int(c) if c is not None else SArr(Node((), lambda: n, "i"))


_KIND = {"b": 0, "i": 1, "f": 2}


class SArr:
    """Symbolic array (or, without axes, a number or a boolean)"""

    __array_ufunc__ = None
    __array_priority__ = 1e6

    def __init__(self, node, arr0=False):
        self._node = node
        self.arr0 = arr0  # 0-d array rather than a number

    # ---- structure
    @property
    def node(self):
        return self._node

    @property
    def axes(self):
        return self._node.axes

    @property
    def kind(self):
        return self._node.kind

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def shape(self):
        return tuple(_wrap_len(a.length) for a in self.axes)

    @property
    def size(self):
        r = t.ONE
        for a in self.axes:
            if a.mask is not None and a.mask.k == "true":
                for b in a.bases:
                    r = t.mul(r, b)
            else:
                r = t.mul(r, a.length)
        return _wrap_len(r)

    @property
    def dtype(self):
        return {"b": _np.dtype(bool), "i": _np.dtype(int), "f": _np.dtype(float)}[self.kind]

    @property
    def nidx(self):
        return sum(a.n for a in self.axes)

    @property
    def isscalar(self):
        return not self.axes

    def at(self, *idx):
        return self.node.at(tuple(t.const(i) for i in idx))

    def scalar(self):
        if self.axes:
            if all(_is1(a) for a in self.axes):
                return self.at(*([t.ZERO] * self.nidx))
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return self.node.at(())

    def item(self):
        return num(self.scalar())

    @property
    def real(self):
        return self

    @property
    def T(self):
        if self.ndim != 2:
            return self
        a, b = self.axes
        return View(
            self,
            lambda i: tuple(i[b.n :] + i[: b.n]),
            (b, a),
            self.kind,
            lambda i: (t.true(), tuple(i[a.n :] + i[: a.n])),
        )

    def masked(self):
        """The axis selected by a boolean array"""
        if self.kind != "b":
            raise Unsupported("mask that is not boolean")
        bases, ms = [], []
        for a in self.axes:
            bases.extend(a.bases)
        can = [CAN(k) for k in range(len(bases))]
        k = 0
        for a in self.axes:
            ms.append(a.mask_at(can[k : k + a.n]))
            k += a.n
        ms.append(self.at(*can))
        return masked_axis(bases, t.conj(ms))

    def __repr__(self):
        # numpy writes 8 digits of some of the elements: the text does not tell the values
        return repr(self.scalar()) if not self.axes else "[...]"

    def __format__(self, spec):
        v = None if self.axes or self.kind not in "if" else getattr(self.scalar(), "const", None)
        return repr(self) if v is None else format(int(v) if self.kind == "i" else float(v), spec)

    def tobytes(self):
        """Distinct bytes for distinct contents (of arrays of the same type and shape)"""
        return repr(_arrterm(self)).encode()

    tostring = tobytes

    def show(self):
        if not self.axes:
            return repr(self.scalar())
        return "SArr(%s, %r)" % (
            ",".join(repr(a.length) for a in self.axes),
            self.at(*[CAN(k) for k in range(self.nidx)]),
        )

    def __str__(self):
        r = repr(self)
        if not self.axes:
            WRITTEN[r] = self.scalar()
        return r

    def __hash__(self):
        if self.axes:
            raise TypeError("unhashable type: array")
        return hash(self.scalar())

    def __len__(self):
        if not self.axes:
            raise TypeError("object of type 'float' has no len()")
        c = self.axes[0].const
        if c is None:
            raise Unsupported("len() of an array of symbolic length outside of the instrumented code")
        return c

    def __bool__(self):
        if self.axes and not all(_is1(a) for a in self.axes):
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        v = self.scalar()
        if isinstance(v, B):
            return decide(v)
        return decide(t.ne(v, t.ZERO))

    def __index__(self):
        c = self.scalar().const
        if c is None or c.denominator != 1:
            raise Unsupported("symbolic index")
        return int(c)

    def __float__(self):
        raise Unsupported("conversion of a symbolic number to float")

    def __int__(self):
        c = self.scalar().const
        if c is None:
            raise Unsupported("conversion of a symbolic number to int")
        return int(c)

    def copy(self):
        return SArr(self.node, self.arr0)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, *a, **k):
        return self.copy()

    def view(self, *a, **k):
        return self

    # ---- arithmetic
    def _bin(self, o, op, kind=None, rev=False):
        if isinstance(o, SymQ) or _is_unit(o):
            return NotImplemented
        try:
            o = as_arr(o)
        except TypeError:
            return NotImplemented
        return binop(op, o, self, kind) if rev else binop(op, self, o, kind)

    def __add__(self, o):
        return self._bin(o, _add)

    def __radd__(self, o):
        return self._bin(o, _add, rev=True)

    def __sub__(self, o):
        return self._bin(o, _sub)

    def __rsub__(self, o):
        return self._bin(o, _sub, rev=True)

    def __mul__(self, o):
        if _is_unit(o):
            return o * self
        return self._bin(o, _mul)

    def __rmul__(self, o):
        if isinstance(o, list) and len(o) == 1 and not self.axes and not self.arr0 and self.kind == "i" and not isinstance(o[0], SymQ):
            # repetition of a list
            v = as_arr(o[0])
            if not v.axes:
                x = v.node
                return SArr(Node((axis_of_len(self.scalar()),), lambda i: x.at(()), v.kind))
        return self._bin(o, _mul, rev=True)

    def __truediv__(self, o):
        if _is_unit(o):
            from .units import as_unit

            return as_unit(o).__rtruediv__(self)
        return self._bin(o, _div, "f")

    def __rtruediv__(self, o):
        return self._bin(o, _div, "f", rev=True)

    def __pow__(self, o):
        return self._bin(o, _pow)

    def __rpow__(self, o):
        return self._bin(o, _pow, rev=True)

    def __mod__(self, o):
        return self._bin(o, lambda a, b: _mod(a, b))

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: t.const(a.const // b.const) if a.const is not None and b.const else t.app("floordiv", (a, b), isint=True))

    def __neg__(self):
        return unop(lambda a: t.neg(_num(a)), self, None)

    def __pos__(self):
        return self

    def __abs__(self):
        return unop(lambda a: t.absv(_num(a)), self, None)

    def __invert__(self):
        return unop(lambda a: t.bnot(_boo(a)), self, "b")

    def __and__(self, o):
        return self._bin(o, lambda a, b: t.conj([_boo(a), _boo(b)]), "b")

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, lambda a, b: t.disj([_boo(a), _boo(b)]), "b")

    __ror__ = __or__

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: t.lt(_num(a), _num(b)))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: t.le(_num(a), _num(b)))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: t.lt(_num(b), _num(a)))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: t.le(_num(b), _num(a)))

    def _cmp(self, o, f):
        if isinstance(o, SymQ):
            return NotImplemented
        # is a count positive: the existential itself
        if not self.axes and isinstance(o, int) and not isinstance(o, bool) and self.kind == "i":
            n = self.scalar()
            if n in _count_any:
                e = _count_any[n]
                b = f(n, t.const(o))
                if b is t.lt(t.ZERO, n) or b is t.le(t.ONE, n):
                    return num(e)
                if b is t.le(n, t.ZERO) or b is t.lt(n, t.ONE):
                    return num(t.bnot(e))
        return self._bin(o, f, "b")

    def __eq__(self, o):
        if isinstance(o, SymQ):
            return NotImplemented
        if o is None or isinstance(o, (str, dict)):
            return False
        if not self.axes and isinstance(o, int) and self.kind == "i":
            n = self.scalar()
            if n in _count_any and o == 0:
                return num(t.bnot(_count_any[n]))
        return self._bin(o, _eq, "b")

    def __ne__(self, o):
        if isinstance(o, SymQ):
            return NotImplemented
        if o is None or isinstance(o, (str, dict)):
            return True
        r = self.__eq__(o)
        return r if r is NotImplemented else ~r

    # ---- in place
    def _inplace(self, o, op, kind=None):
        if isinstance(o, SymQ):
            if not self.axes:
                return NotImplemented
            o = o.to_dimensionless()
        r = self._bin(o, op, kind)
        if r is NotImplemented or (not self.axes and not self.arr0):
            return r
        if len(r.axes) != len(self.axes) or not all(_same_axis(a, b) for a, b in zip(r.axes, self.axes)):
            raise ValueError("non-broadcastable output operand")
        if _KIND[r.kind] > _KIND[self.kind]:
            raise TypeError("Cannot cast ufunc output (in place operation on %s)" % self.kind)
        self._set(r.node)
        return self

    def _set(self, node):
        self.__dict__.pop("perm", None)
        effect(self, "_node", self._node)
        self._node = node

    def __iadd__(self, o):
        return self._inplace(o, _add)

    def __isub__(self, o):
        return self._inplace(o, _sub)

    def __imul__(self, o):
        if _is_unit(o):
            return self * o
        return self._inplace(o, _mul)

    def __itruediv__(self, o):
        if _is_unit(o):
            return self / o
        return self._inplace(o, _div, "f")

    def __ipow__(self, o):
        return self._inplace(o, _pow)

    # ---- indexing
    def _plan(self, key):
        """Decode a basic index: list of (axis or None, kind, data)"""
        if not isinstance(key, tuple) or isinstance(key, WhereIdx):
            key = (key,)
        n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
        out, ax = [], 0
        axes = self.axes
        for k in key:
            if k is None:
                out.append((None, "new", None))
            elif k is Ellipsis:
                for _ in range(len(axes) - n_real):
                    out.append((ax, "slice", slice(None)))
                    ax += 1
            else:
                if ax >= len(axes):
                    raise IndexError("too many indices for array")
                out.append((ax, "slice" if isinstance(k, slice) else "idx", k))
                ax += 1
        while ax < len(axes):
            out.append((ax, "slice", slice(None)))
            ax += 1
        return out

    def __getitem__(self, key):
        if not self.axes and key != ():
            raise IndexError("invalid index to scalar variable.")
        m = _mask_key(key)
        if m is not None:
            return self._select(m)
        if isinstance(key, tuple) and any(_mask_key(k) is not None for k in key if not isinstance(k, slice) and k is not None):
            return self._getitem_mixed(key)
        plan = self._plan(key)
        base = self
        res_axes, pieces = [], []
        for ax, kind, k in plan:
            if kind == "new":
                res_axes.append(Axis((t.ONE,)))
                pieces.append(("new",))
                continue
            a = self.axes[ax]
            if kind == "slice":
                lo, n = _slice(k, a)
                if lo is None:
                    res_axes.append(a)
                    pieces.append(("all", a.n))
                else:
                    res_axes.append(Axis((n,)))
                    pieces.append(("shift", lo, n))
            else:
                if isinstance(k, list) and k and all(isinstance(j, int) and not isinstance(j, bool) for j in k):
                    k = stack([num(_index(j, a), "i") for j in k])
                if isinstance(k, SArr) and k.axes:
                    if a.mask is not None or len(k.axes) != 1:
                        raise Unsupported("fancy index")
                    res_axes.append(k.axes[0])
                    pieces.append(("gather", k.node, k.axes[0].n))
                    continue
                for i in _flatindex(k, a):
                    pieces.append(("at", i))
        kind = self.kind

        def remap(idx):
            out, p = [], 0
            for pc in pieces:
                if pc[0] == "new":
                    p += 1
                elif pc[0] == "all":
                    out.extend(idx[p : p + pc[1]])
                    p += pc[1]
                elif pc[0] == "shift":
                    out.append(t.add(idx[p], pc[1]))
                    p += 1
                elif pc[0] == "gather":
                    out.append(pc[1].at(idx[p : p + pc[2]]))
                    p += pc[2]
                else:
                    out.append(pc[1])
            return tuple(out)

        if not res_axes:
            snap = self.node
            return SArr(Node((), lambda: snap.at(remap(())), kind))
        if any(pc[0] == "gather" for pc in pieces):
            return View(self, remap, res_axes, kind).copy()

        def back(idx):
            out, conds, p = [], [], 0
            for pc in pieces:
                if pc[0] == "new":
                    out.append(t.ZERO)
                elif pc[0] == "all":
                    out.extend(idx[p : p + pc[1]])
                    p += pc[1]
                elif pc[0] == "shift":
                    i = t.add(idx[p], t.neg(pc[1]))
                    conds += [t.le(t.ZERO, i), t.lt(i, pc[2])]
                    out.append(i)
                    p += 1
                else:
                    conds.append(t.eq(idx[p], pc[1]))
                    p += 1
            return t.conj(conds), tuple(out)

        return View(self, remap, res_axes, kind, back)

    def _select(self, m):
        if m.ndim != self.ndim:
            if m.ndim == 1 and self.ndim > 1:
                return self._getitem_mixed((m,))
            raise IndexError("too many indices for array")
        _, maps = bcast(self.axes, m.axes)
        if not all(_same_axis(a, b) for a, b in zip(self.axes, m.axes)):
            if not all(_same_axis(a, b) or (EX is not None and EX.equal_len(a.length, b.length)) for a, b in zip(self.axes, m.axes)):
                raise Unsupported("mask of a different shape")
        ax = m.masked()
        nd = self.node
        return SArr(Node((ax,), lambda *i: nd.at(i), self.kind))

    def _getitem_mixed(self, key):
        """One mask among slices"""
        if not isinstance(key, tuple):
            key = (key,)
        axes, out_axes = list(self.axes), []
        k2 = list(key) + [slice(None)] * (len(axes) - len(key))
        for a, k in zip(axes, k2):
            m = _mask_key(k)
            if m is not None:
                out_axes.append(m.masked())
                if not _same_axis(m.axes[0], a):
                    raise Unsupported("mask of a different shape")
            elif isinstance(k, slice) and k == slice(None):
                out_axes.append(a)
            else:
                raise Unsupported("mixed index")
        nd = self.node
        return SArr(Node(out_axes, lambda *i: nd.at(i), self.kind))

    def __setitem__(self, key, v):
        if isinstance(v, SymQ):
            v = v.to_dimensionless()
        v = as_arr(v)
        if not self.axes and not self.arr0:
            raise TypeError("'float' object does not support item assignment")
        if _KIND[v.kind] > _KIND[self.kind]:
            if self.kind == "i":
                raise Unsupported("assignment of a float to an integer array")
        m = _mask_key(key)
        old = self.node
        kd = self.kind
        cast = (lambda x: x) if v.kind == kd else (_num if kd != "b" else _boo)
        if m is not None:
            if m.ndim != self.ndim:
                raise Unsupported("mask of a different shape")
            ax = m.masked()
            if v.axes and not (len(v.axes) == 1 and (_same_axis(v.axes[0], ax) or _is1(v.axes[0]))):
                if len(v.axes) == 1 and v.axes[0].mask is not None and v.axes[0].bases == ax.bases:
                    raise Unsupported("assignment between different selections")
                raise ValueError("shape mismatch: value array could not be broadcast to indexing result")
            vn, mn = v.node, m.node
            one = bool(v.axes) and _is1(v.axes[0])
            self._set(
                Node(
                    self.axes,
                    lambda *i: _ite(mn.at(i), cast(vn.at(((t.ZERO,) if one else i) if v.axes else ())), old.at(i)),
                    kd,
                )
            )
            return
        if isinstance(key, tuple) and any(_mask_key(k) is not None for k in key):
            return self._setitem_mixed(key, v, cast)
        plan = self._plan(key)
        res_axes, tests = [], []
        for ax, kind, k in plan:
            if kind == "new":
                raise Unsupported("newaxis in an assignment")
            a = self.axes[ax]
            if kind == "slice":
                lo, n = _slice(k, a)
                if lo is None:
                    res_axes.append(a)
                    tests.append(("all", a.n))
                else:
                    res_axes.append(Axis((n,)))
                    tests.append(("shift", lo, n))
            else:
                if isinstance(k, SArr) and k.axes:
                    pm = getattr(k, "perm", None)
                    if pm is None or a.mask is not None or not _same_axis(k.axes[0], a):
                        raise Unsupported("fancy assignment")
                    res_axes.append(k.axes[0])
                    tests.append(("perm", EX.argsort(k).node))
                    continue
                tests.append(("at", _index(k, a)))
        rax, maps = bcast(tuple(res_axes), v.axes)
        if len(rax) != len(res_axes):
            raise ValueError("could not broadcast input array")
        vn = v.node

        def fn(*idx):
            cond, ri, p = [], [], 0
            for ts in tests:
                if ts[0] == "all":
                    ri.extend(idx[p : p + ts[1]])
                    p += ts[1]
                elif ts[0] == "perm":
                    ri.append(ts[1].at((idx[p],)))
                    p += 1
                elif ts[0] == "shift":
                    cond.append(t.le(ts[1], idx[p]))
                    cond.append(t.lt(idx[p], t.add(ts[1], ts[2])))
                    ri.append(t.add(idx[p], t.neg(ts[1])))
                    p += 1
                else:
                    cond.append(t.eq(idx[p], ts[1]))
                    p += 1
            c = t.conj(cond)
            if c.k == "false":
                return old.at(idx)
            return _ite(c, cast(vn.at(maps[1](tuple(ri)))), old.at(idx))

        self._set(Node(self.axes, fn, kd))

    def _setitem_mixed(self, key, v, cast):
        axes = list(self.axes)
        k2 = list(key) + [slice(None)] * (len(axes) - len(key))
        masks, out_axes = [], []
        for a, k in zip(axes, k2):
            m = _mask_key(k)
            if m is not None:
                masks.append(m.node)
                out_axes.append(m.masked())
            elif isinstance(k, slice) and k == slice(None):
                masks.append(None)
                out_axes.append(a)
            else:
                raise Unsupported("mixed assignment")
        rax, maps = bcast(tuple(out_axes), v.axes)
        old, vn = self.node, v.node

        def fn(*idx):
            cond, p = [], 0
            for a, m in zip(axes, masks):
                if m is not None:
                    cond.append(m.at(idx[p : p + a.n]))
                p += a.n
            return _ite(t.conj(cond), cast(vn.at(maps[1](idx))), old.at(idx))

        self._set(Node(self.axes, fn, self.kind))

    # ---- shape
    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        want = [t.const(_t(s)) if not isinstance(s, SArr) else s.scalar() for s in shape]
        if want == [t.MINUS1]:
            return self.flatten()
        merged = self._merge_axes(want)
        if merged is not None:
            return merged
        src = [(k, a) for k, a in enumerate(self.axes) if not _is1(a)]
        dst, k = [], 0
        for w in want:
            if w is t.ONE:
                dst.append(None)
            else:
                if k >= len(src) or (w is not t.MINUS1 and src[k][1].length is not w):
                    raise Unsupported("reshape")
                dst.append(src[k])
                k += 1
        if k != len(src):
            raise Unsupported("reshape")
        axes = [Axis((t.ONE,)) if d is None else d[1] for d in dst]
        pos = {d[0]: j for j, d in enumerate(dst) if d is not None}
        nd, mine = self.node, self.axes

        def remap(idx):
            parts, p = [], 0
            for a in axes:
                parts.append(idx[p : p + a.n])
                p += a.n
            out = []
            for k, a in enumerate(mine):
                out.extend(parts[pos[k]] if k in pos else (t.ZERO,))
            return tuple(out)

        def back(idx):
            parts, p = [], 0
            for a in mine:
                parts.append(idx[p : p + a.n])
                p += a.n
            out = []
            for d in dst:
                out.extend((t.ZERO,) if d is None else parts[d[0]])
            return t.true(), tuple(out)

        return View(self, remap, axes, self.kind, back)

    def _merge_axes(self, want):
        """The first two axes as one"""
        ax = self.axes
        if len(ax) < 2 or len(want) != len(ax) - 1 or any(a.mask is not None for a in ax) or _is1(ax[0]) or _is1(ax[1]):
            return None
        if t.mul(ax[0].length, ax[1].length) is not want[0] or any(a.length is not w for a, w in zip(ax[2:], want[1:])):
            return None
        nd = self.node
        return SArr(Node((masked_axis([ax[0].bases[0], ax[1].bases[0]], t.true()),) + tuple(ax[2:]), lambda *i: nd.at(i), self.kind))

    def flatten(self):
        big = [a for a in self.axes if not _is1(a)]
        if len(big) > 1:
            if any(a.mask is not None for a in big) or len(big) != len(self.axes):
                raise Unsupported("flatten of a matrix")
            nd = self.node
            return SArr(Node((masked_axis([b for a in big for b in a.bases], t.true()),), lambda *i: nd.at(i), self.kind))
        r = self.reshape(*[_wrap_len(a.length) for a in big]) if big else self.reshape(1)
        return r.copy()

    ravel = flatten

    def squeeze(self):
        big = [a for a in self.axes if not _is1(a)]
        if not big:
            nd, k = self.node, self.nidx
            return SArr(Node((), lambda: nd.at((t.ZERO,) * k), self.kind), arr0=True)
        return self.reshape(*[_wrap_len(a.length) for a in big])

    def tolist(self):
        return [self[i] for i in range(len(self))]

    def sum(self, axis=None):
        return np.sum(self, axis=axis)

    def any(self):
        return np.any(self)

    def all(self):
        return np.all(self)

    def mean(self, *a, **k):
        return np.mean(self, *a, **k)

    def min(self, *a):
        return np.min(self, *a)

    def max(self, *a):
        return np.max(self, *a)

    def argmin(self):
        return EX.extreme(self, "argmin")

    def argmax(self):
        return EX.extreme(self, "argmax")

    def __iter__(self):
        if not self.axes:
            raise TypeError("'float' object is not iterable")
        c = self.axes[0].const
        if c is None:
            raise Unsupported("iteration over an array of symbolic length")
        return iter([self[i] for i in range(c)])


def _bagterm(a):
    """The same, for what does not depend on the order of the elements"""
    from itertools import permutations

    if not 2 <= a.nidx <= 3:
        return _arrterm(a)
    return min((_arrterm(a, p) for p in permutations(range(a.nidx))), key=repr)


def _arrterm(a, order=None):
    """A term that stands for the whole contents of an array"""
    n = a.nidx
    bases = [b for ax in a.axes for b in ax.bases]
    if order is not None:
        bases = [bases[k] for k in order]

    def nest(k, idx):
        if k == n:
            if order is not None:
                idx = [i for _, i in sorted(zip(order, idx), key=lambda e: e[0])]
            v = a.at(*idx)
            v = v if isinstance(v, T) else t.ite(v, t.ONE, t.ZERO)
            p, ms = 0, []
            for ax in a.axes:
                if ax.mask is not None:
                    ms.append(ax.mask_at(idx[p : p + ax.n]))
                p += ax.n
            return t.ite(t.conj(ms), v, t.sym("absent")) if ms else v
        return t.bind("arr", bases[k], lambda i: [nest(k + 1, idx + [i])])

    return nest(0, [])


class View(SArr):
    """A view reads its base lazily, so that later writes to the base are seen"""

    def __init__(self, base, remap, axes, kind, back=None):
        self.base, self.remap, self.back = base, remap, back
        self._axes, self._kind = tuple(axes), kind
        self.arr0 = False
        self._snap = (None, None)

    @property
    def node(self):
        bn = self.base.node
        if self._snap[0] is not bn:
            remap = self.remap
            self._snap = (bn, Node(self._axes, lambda *i: bn.at(remap(i)), self._kind))
        return self._snap[1]

    @property
    def _node(self):
        return self.node

    @property
    def axes(self):
        return self._axes

    @property
    def kind(self):
        return self._kind

    def _set(self, node):
        if self.back is None or node.kind != self._kind:
            raise Unsupported("write through a view")
        old, back = self.base.node, self.back

        def fn(*idx):
            c, i = back(idx)
            if c.k == "false":
                return old.at(idx)
            v = node.at(i)
            return v if c.k == "true" else _ite(c, v, old.at(idx))

        self.base._set(Node(old.axes, fn, old.kind))


def _mask_key(k):
    """The boolean mask of an index, if it is one"""
    if isinstance(k, WhereIdx):
        return k[0].mask
    if isinstance(k, IdxArr):
        return k.mask
    if isinstance(k, SArr) and k.kind == "b":
        return k
    return None


def _t(x):
    return x.scalar() if isinstance(x, SArr) else t.const(x)


def _index(k, a):
    if isinstance(k, SymQ):
        raise TypeError("only integers can be used as indices")
    if a.mask is not None:
        raise Unsupported("index into a selection")
    if isinstance(k, (int, SArr)):
        i = _t(k)
        c, n = i.const, a.const
        if c is not None:
            if n is not None and not -n <= c < n:
                raise IndexError("index %s is out of bounds for axis of size %s" % (c, n))
            if c < 0:
                i = t.add(a.length, i)
        return i
    raise Unsupported("index of type %s" % type(k).__name__)


def _flatindex(k, a):
    """The indices along the parts of a flattened axis"""
    if a.mask is None or a.mask.k != "true" or a.n == 1 or not isinstance(k, (int, SArr)):
        return (_index(k, a),)
    out, r = [], _t(k)
    if r.const is not None and r.const < 0:
        r = t.add(a.length, r)
    for n in range(1, a.n):
        w = t.ONE
        for b in a.bases[n:]:
            w = t.mul(w, b)
        # the terms with a factor of the number of elements per step
        q = t.ZERO
        for m, c in r.d.items():
            one = t.mul(t.mono(m, c), t.power(w, t.MINUS1))
            if all(e > 0 for mm, _ in [(m, c) for m in one.d] for _, e in mm[1]) and all(x.isint for x in t.atoms_of(one, False)):
                q = t.add(q, one)
        r = t.add(r, t.neg(t.mul(q, w)))
        _inrange(q, a.bases[n - 1])
        out.append(q)
    _inrange(r, a.bases[-1])
    return tuple(out) + (r,)


def _inrange(i, n):
    if EX is None or not (EX.proves(t.le(t.ZERO, i)) and EX.proves(t.lt(i, n))):
        raise Unsupported("index into a flattened array")


class ObjArr:
    """An array of objects of symbolic shape, written once per element in loops over its axes"""

    def __init__(self, dims, cells=None, at=()):
        self.dims, self.cells, self.at = tuple(_t(d) for d in dims), {} if cells is None else cells, at
        self.root = self.dims
        self.full = self.dims

    def _sub(self, idx):
        r = ObjArr(self.full, self.cells, self.at + tuple(idx))
        r.dims = r.full[len(r.at):]
        return r

    @property
    def shape(self):
        return tuple(_wrap_len(d) for d in self.dims)

    def __len__(self):
        if self.dims[0].const is None:
            raise Unsupported("len of an array of objects")
        return int(self.dims[0].const)

    @property
    def sym_axis(self):
        return None if self.dims[0].const is not None else axis_of_len(self.dims[0])

    def sym_element(self, idx):
        return self[_wrap_len(idx[0])]

    def sym_subst(self, m):
        r = ObjArr(self.full, self.cells, tuple(t.subst(i, m) for i in self.at))
        r.dims = r.full[len(r.at):]
        return r

    def __iter__(self):
        return iter([self[k] for k in range(len(self))])

    def __getitem__(self, k):
        k = k if isinstance(k, tuple) else (k,)
        idx = []
        for i, n in zip(k, self.dims):
            if isinstance(i, (slice, SymQ)) or i is None or i is Ellipsis:
                raise Unsupported("index of an array of objects")
            i = _t(i)
            if i.const is not None and i.const < 0:
                i = t.add(n, i)
            if n.const is not None and i.const is not None and i.const >= n.const:
                raise IndexError("index out of bounds")
            idx.append(i)
        if len(k) > len(self.dims):
            raise IndexError("too many indices for array")
        if len(idx) < len(self.dims):
            return self._sub(idx)
        idx = self.at + tuple(idx)
        key = tuple(int(i.const) for i, n in zip(idx, self.full) if n.const is not None) if all(i.const is not None for i, n in zip(idx, self.full) if n.const is not None) else None
        if key not in self.cells:
            raise Unsupported("an element of an array of objects that is not known")
        frames, atoms, v = self.cells[key]
        if any(f in EX.loops for f in frames):
            raise Unsupported("reading an array of objects in the loop that writes it")
        from .loader import subst_value

        gen = [i for i, n in zip(idx, self.full) if n.const is None]
        return subst_value(v, dict(zip(atoms, gen)))

    def __setitem__(self, k, v):
        k = tuple(_t(i) for i in (k if isinstance(k, tuple) else (k,)))
        if self.at or len(k) != len(self.full):
            raise Unsupported("store of several objects")
        gen, key = [], []
        for i, n in zip(k, self.full):
            if n.const is not None:
                if i.const is None or not -n.const <= i.const < n.const:
                    raise Unsupported("store of an object")
                key.append(int(i.const) % int(n.const))
            else:
                gen.append((i, n))
        frames = list(EX.loops)
        for fr in frames:
            # every iteration stores, and none of the others the same element
            if not fr.loop or fr.pending or fr.rerun and fr.pos or fr.axis.mask is not None or not any(i is fr.idx[0] and EX.proves(t.eq(n, fr.axis.length)) for i, n in gen):
                raise Unsupported("store of an object in a symbolic loop")
        if len(gen) != len(frames) or len(set(i for i, _ in gen)) != len(gen):
            raise Unsupported("store of an object with a symbolic index")
        self.cells[tuple(key)] = (frames, [t.atom_of(i) for i, _ in gen], v)

    def __getattr__(self, n):
        if n.startswith("__") or n in ("rows_of", "sym_column", "masked"):
            raise AttributeError(n)
        raise Unsupported("array of objects: " + n)


def _slice(s, a):
    """(start, length) or (None, None) for the whole axis"""
    if s.step is not None:
        raise Unsupported("slice with a step")
    if s.start is None and s.stop is None:
        return None, None
    if a.mask is not None:
        raise Unsupported("slice of a selection")
    n = a.length

    def pos(x, d):
        if x is None:
            return d
        x = _t(x)
        if x.const is not None and x.const < 0:
            return t.add(n, x)
        c, m = x.const, n.const
        if c is not None and m is not None and c > m:
            return n
        return x

    lo, hi = pos(s.start, t.ZERO), pos(s.stop, n)
    ln = t.add(hi, t.neg(lo))
    if ln.const is not None and ln.const < 0:
        ln = t.ZERO
    if lo is t.ZERO and ln is n:
        return None, None
    return lo, ln


# ---------------------------------------------------------------- scalar operations
def _num(a):
    return t.ite(a, t.ONE, t.ZERO) if isinstance(a, B) else a


def _boo(a):
    return a if isinstance(a, B) else t.ne(a, t.ZERO)


def _ite(c, a, b):
    if isinstance(a, B) and isinstance(b, B):
        return t.ibool(c, a, b)
    return t.ite(c, _num(a), _num(b))


def _add(a, b):
    if isinstance(a, B) and isinstance(b, B):
        return t.disj([a, b])
    return t.add(_num(a), _num(b))


def _sub(a, b):
    return t.add(_num(a), t.neg(_num(b)))


def _mul(a, b):
    if isinstance(a, B) and isinstance(b, B):
        return t.conj([a, b])
    return t.mul(_num(a), _num(b))


def _div(a, b):
    return t.mul(_num(a), t.power(_num(b), t.MINUS1))


def _pow(a, b):
    return t.power(_num(a), _num(b))


def _eq(a, b):
    if isinstance(a, B) and isinstance(b, B):
        return t.ibool(a, b, t.bnot(b))
    return t.eq(_num(a), _num(b))


def binop(op, x, y, kind=None):
    axes, (mx, my) = bcast(x.axes, y.axes)
    nx, ny = x.node, y.node
    if kind is None:
        kind = x.kind if _KIND[x.kind] >= _KIND[y.kind] else y.kind
        if kind == "b" and op not in (_add, _mul):
            kind = "i"
    if not axes:
        v = op(nx.at(()), ny.at(()))
        return SArr(Node((), lambda: v, kind))
    return SArr(Node(axes, lambda *i: op(nx.at(mx(i)), ny.at(my(i))), kind))


def unop(op, x, kind="f"):
    nx = x.node
    kind = kind or ("i" if x.kind == "b" else x.kind)
    if not x.axes:
        v = op(nx.at(()))
        return SArr(Node((), lambda: v, kind))
    return SArr(Node(x.axes, lambda *i: op(nx.at(i)), kind))


def num(v, kind=None):
    """A 0-d value"""
    if isinstance(v, B):
        return SArr(Node((), lambda: v, "b"))
    return SArr(Node((), lambda: v, kind or "f"))


def _is_unit(o):
    from .units import SUnit

    return isinstance(o, SUnit)


def as_arr(x):
    if isinstance(x, SArr):
        return x
    if isinstance(x, SymQ):
        return x.to_dimensionless()
    if isinstance(x, (T, B)):
        return num(x)
    if isinstance(x, bool) or isinstance(x, _np.bool_):
        return num(t.boolc(bool(x)))
    if isinstance(x, int) or isinstance(x, _np.integer):
        v = t.const(int(x))
        return num(v, "i")
    if isinstance(x, (float, F)) or isinstance(x, _np.floating):
        return num(t.const(float(x) if not isinstance(x, F) else x))
    if isinstance(x, (list, tuple)):
        return stack(x)
    if isinstance(x, _np.ndarray):
        if x.size > 4000:
            raise Unsupported("large concrete array")
        return stack(list(x)) if x.ndim else as_arr(x.item())
    raise TypeError("%s is not a number" % type(x).__name__)


class Rep:
    """Stands for a value appended at every iteration of a loop over an axis"""

    def __init__(self, axis, atoms, value):
        self.axis, self.atoms, self.value = axis, atoms, value

    def _no(self, *a):
        raise Unsupported("a list with a symbolic number of elements")

    __bool__ = __len__ = __iter__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __getitem__ = __call__ = __float__ = __int__ = _no

    def __eq__(self, o):
        return True if self is o else self._no()

    __hash__ = object.__hash__


def stack(xs, units=None):
    """np.array of a list"""
    xs = list(xs)
    if any(isinstance(x, Rep) for x in xs):
        if len(xs) != 1:
            raise Unsupported("list with a symbolic number of elements and others")
        r = xs[0]
        v = r.value
        if isinstance(v, SymQ):
            raise Unsupported("quantity list")
        v = as_arr(v)
        vn = v.node
        return SArr(
            Node(
                (r.axis,) + v.axes,
                lambda *i: t.subst(vn.at(i[r.axis.n :]), dict(zip(r.atoms, i[: r.axis.n]))),
                v.kind,
            )
        )
    els = [as_arr(x) for x in xs]
    n = len(els)
    if n == 0:
        return SArr(Node((Axis((t.ZERO,)),), lambda i: t.ZERO, "f"))
    kind = max((e.kind for e in els), key=_KIND.get)
    inner, maps = bcast(*[e.axes for e in els])
    if any(len(e.axes) != len(inner) for e in els):
        raise ValueError("setting an array element with a sequence: inhomogeneous shape")
    nodes = [e.node for e in els]

    def fn(i, *rest):
        c = i.const
        if c is not None:
            if not 0 <= c < n:
                raise IndexError("index out of bounds")
            return nodes[int(c)].at(maps[int(c)](rest))
        r = nodes[-1].at(maps[-1](rest))
        for k in range(n - 2, -1, -1):
            r = _ite(t.eq(i, t.const(k)), nodes[k].at(maps[k](rest)), r)
        return r

    return SArr(Node((Axis((t.const(n),)),) + tuple(inner), fn, kind))


# ---------------------------------------------------------------- quantities
class SymQ:
    """astropy Quantity: mutable value and unit"""

    __array_ufunc__ = None
    __array_priority__ = 1e7

    def __new__(cls, value=None, unit=None, dtype=None, copy=True, **kw):
        return object.__new__(SymQ)

    def __init__(self, value, unit=None, dtype=None, copy=True, **kw):
        from .units import as_unit

        un = None if unit is None else as_unit(unit)
        if isinstance(value, SymQ):
            v = value if un is None else value.to(un)
            self.val, self.unit = v.val.copy(), v.unit
            return
        if isinstance(value, str):
            raise Unsupported("Quantity of a string")
        if isinstance(value, (list, tuple)):
            xs = list(value)
            if any(isinstance(x, SymQ) for x in xs) or any(isinstance(x, Rep) and isinstance(x.value, SymQ) for x in xs):
                if un is None:
                    for x in xs:
                        # (of a generic element: the first one)
                        first = {a: t.ZERO for a in x.atoms} if isinstance(x, Rep) else None
                        x = x.value if isinstance(x, Rep) else x
                        if isinstance(x, SymQ):
                            un = x.unit
                            if first:
                                from .units import SUnit

                                un = SUnit(un.dims, t.subst(un.scale, first), un.name)
                            break
                vals = []
                for x in xs:
                    if isinstance(x, Rep):
                        vals.append(Rep(x.axis, x.atoms, x.value.to(un).val if isinstance(x.value, SymQ) else x.value))
                    else:
                        vals.append(x.to(un).val if isinstance(x, SymQ) else as_arr(x) * 1)
                self.val, self.unit = stack(vals), un
                return
            value = stack(xs)
        elif hasattr(value, "unit") and hasattr(value, "sym_column"):
            q = value.sym_column
            v = q if un is None else q.to(un)
            self.val, self.unit = v.val.copy(), v.unit
            return
        from .units import SUnit

        if isinstance(value, dict):
            raise TypeError("unable to convert dict to Quantity")
        self.val = as_arr(value).copy() if as_arr(value).axes else as_arr(value)
        self.unit = un if un is not None else SUnit({}, t.ONE)

    # ---- structure
    @property
    def value(self):
        return self.val

    @property
    def info(self):
        raise AttributeError("info")

    ndim = property(lambda s: s.val.ndim)
    shape = property(lambda s: s.val.shape)
    size = property(lambda s: s.val.size)
    axes = property(lambda s: s.val.axes)
    dtype = property(lambda s: s.val.dtype)
    isscalar = property(lambda s: not s.val.axes)

    def __repr__(self):
        return "<Q %r %r>" % (self.val, self.unit)

    def tobytes(self):
        return self.val.tobytes()

    tostring = tobytes

    def show(self):
        return "<Q %s %r>" % (self.val.show(), self.unit)

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        return hash((self.val.scalar(), self.unit))

    def __len__(self):
        return len(self.val)

    def __bool__(self):
        return bool(self.val)

    def copy(self):
        return SymQ._mk(self.val.copy(), self.unit)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    @staticmethod
    def _mk(val, unit):
        q = object.__new__(SymQ)
        q.val, q.unit = val, unit
        return q

    # ---- conversion
    def to(self, unit, equivalencies=None, copy=True):
        from .units import as_unit

        un = as_unit(unit)
        return SymQ._mk(self.val * self.unit.to(un), un)

    def to_value(self, unit=None):
        return self.val if unit is None else self.to(unit).val

    def decompose(self, bases=None):
        from .units import si_of

        return self.to(si_of(self.unit))

    @property
    def si(self):
        return self.decompose()

    @property
    def cgs(self):
        from .units import cgs_of

        return self.to(cgs_of(self.unit))

    def to_dimensionless(self):
        import astropy.units as ru

        if self.unit.dims:
            raise ru.UnitTypeError("only dimensionless quantities can be converted")
        if self.unit.scale is t.ONE:
            return self.val
        return self.val * as_arr(self.unit.scale)

    # ---- arithmetic
    def _other(self, o):
        if isinstance(o, SymQ):
            return o
        if _is_unit(o):
            return SymQ._mk(as_arr(1), o)
        from .units import SUnit

        try:
            return SymQ._mk(as_arr(o), SUnit({}, t.ONE))
        except TypeError:
            return None

    def _same(self, o):
        """Other operand in the unit of self, for sums and comparisons"""
        import astropy.units as ru

        if isinstance(o, SymQ):
            if o.unit == self.unit:
                return o.val
            if o.unit.dims != self.unit.dims:
                raise ru.UnitConversionError("Can only apply function to quantities with compatible dimensions")
            return o.to(self.unit).val
        a = as_arr(o)
        if self.unit.dims:
            if not a.axes:
                v = a.scalar()
                if isinstance(v, T) and (v is t.ZERO or t._infsign(v)):
                    return a
            raise ru.UnitConversionError(
                "Can only apply function to dimensionless quantities when other argument is not a quantity"
            )
        return a * as_arr(t.power(self.unit.scale, t.MINUS1)) if self.unit.scale is not t.ONE else a

    def __mul__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        return SymQ._mk(self.val * o.val, self.unit._mul(o.unit, 1))

    def __rmul__(self, o):
        o = self._other(o)
        return SymQ._mk(o.val * self.val, self.unit._mul(o.unit, 1))

    def __truediv__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        return SymQ._mk(self.val / o.val, self.unit._mul(o.unit, -1))

    def __rtruediv__(self, o):
        o = self._other(o)
        return SymQ._mk(o.val / self.val, o.unit._mul(self.unit, -1))

    def __pow__(self, o):
        import astropy.units as ru

        o = as_arr(o)
        if o.axes:
            if not self.unit.dims:
                return SymQ._mk(self.to_dimensionless() ** o, SymQ(1).unit)
            raise ru.UnitTypeError("can only raise something to an array power if it is dimensionless")
        p = o.scalar().const
        if p is None:
            if self.unit.dims:
                raise Unsupported("symbolic power of a quantity")
            return SymQ._mk(self.to_dimensionless() ** o, SymQ(1).unit)
        return SymQ._mk(self.val**o, self.unit**p)

    def __rpow__(self, o):
        return SymQ._mk(as_arr(o) ** self.to_dimensionless(), SymQ(1).unit)

    def _addsub(self, o, f):
        if _is_unit(o):
            o = SymQ._mk(as_arr(1), o)
        return SymQ._mk(f(self.val, self._same(o)), self.unit)

    def __add__(self, o):
        return self._addsub(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._addsub(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return SymQ._mk(-self.val, self.unit)

    def __abs__(self):
        return SymQ._mk(abs(self.val), self.unit)

    def _cmpq(self, o, f, ne=None):
        import astropy.units as ru

        if isinstance(o, (str, dict)) or o is None:
            return ne
        try:
            return f(self.val, self._same(o))
        except ru.UnitConversionError:
            if ne is not None:
                return ne
            raise

    def __lt__(self, o):
        return self._cmpq(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmpq(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmpq(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmpq(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmpq(o, lambda a, b: a == b, False)

    def __ne__(self, o):
        return self._cmpq(o, lambda a, b: a != b, True)

    # ---- in place
    def _iset(self, q):
        if len(q.val.axes) != len(self.val.axes) or not all(
            _same_axis(a, b) for a, b in zip(q.val.axes, self.val.axes)
        ):
            raise ValueError("non-broadcastable output operand")
        if _KIND[q.val.kind] > _KIND[self.val.kind]:
            import astropy.units as ru

            raise TypeError("cannot store output without down-casting")
        ov, ou = self.val, self.unit
        if self.val.axes:
            self.val._set(q.val.node)  # arrays share their memory
        else:

            effect(self, "val", ov)
            self.val = q.val
        effect(self, "unit", ou)
        self.unit = q.unit
        return self

    def __imul__(self, o):
        return self._iset(self * o)

    def __itruediv__(self, o):
        return self._iset(self / o)

    def __iadd__(self, o):
        return self._iset(self + o)

    def __isub__(self, o):
        return self._iset(self - o)

    # ---- items and shape
    def __getitem__(self, k):
        if isinstance(k, str):
            raise IndexError("only integers, slices and integer or boolean arrays are valid indices")
        if not self.val.axes:
            raise TypeError("'Quantity' object with a scalar value does not support indexing")
        return SymQ._mk(self.val[k], self.unit)

    def __setitem__(self, k, v):
        if isinstance(v, SymQ):
            self.val[k] = v.to(self.unit).val
        else:
            self.val[k] = self._same(v)

    def __iter__(self):
        if not self.val.axes:
            raise TypeError("'Quantity' object with a scalar value is not iterable")
        return iter([SymQ._mk(v, self.unit) for v in self.val])

    def flatten(self):
        return SymQ._mk(self.val.reshape(1) if not self.val.axes else self.val.flatten(), self.unit)

    def reshape(self, *s):
        return SymQ._mk(self.val.reshape(*s), self.unit)

    def squeeze(self):
        return SymQ._mk(self.val.squeeze(), self.unit)

    def sum(self, axis=None):
        return SymQ._mk(np.sum(self.val, axis=axis), self.unit)

    def item(self, *a):
        return SymQ._mk(as_arr(self.val.scalar()), self.unit)

    def argmin(self):
        return self.val.argmin()

    def argmax(self):
        return self.val.argmax()

    def min(self, *a):
        return np.min(self, *a)

    def max(self, *a):
        return np.max(self, *a)

    @property
    def T(self):
        return SymQ._mk(self.val.T, self.unit)


# ---------------------------------------------------------------- numpy
def _lift(f, kind="f"):
    def g(x, *a, **k):
        if isinstance(x, SymQ):
            return SymQ._mk(unop(f, x.to_dimensionless(), kind), SymQ(1).unit)
        return unop(f, as_arr(x), kind)

    return g


def _sgn(a):
    a = _num(a)
    return t.ite(t.lt(a, t.ZERO), t.MINUS1, t.ite(t.eq(a, t.ZERO), t.ZERO, t.ONE))


class _NDArrayMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymQ):
            return True
        if isinstance(x, SArr):
            return bool(x.axes) or x.arr0
        return builtins.isinstance(x, _np.ndarray)


class ndarray(metaclass=_NDArrayMeta):
    pass


def _dkind(d):
    """The kind of elements that a dtype asks for, or None"""
    if d is None:
        return None
    if isinstance(d, _np.dtype):
        k = {"b": "b", "i": "i", "u": "i", "f": "f"}.get(d.kind)
    else:
        n = d if isinstance(d, str) else getattr(d, "__name__", "?")
        k = {"bool": "b", "bool_": "b", "int": "i", "_intc": "i", "int_": "i", "int64": "i"}.get(n)
        if n in ("float", "_floatc", "float64", "double", "float_", "d", "f8"):
            k = "f"
    if k is None:
        raise Unsupported("dtype %r" % (d,))
    return k


def _as_kind(r, k):
    if k is None or k == r.kind:
        return r
    f = {"b": _boo, "f": _num, "i": lambda a: _trunc(_num(a))}[k]
    return unop(f, r, k)


class _AddReduce:
    def reduce(self, a, axis=0):
        return np.sum(a, axis=axis)

    def __call__(self, a, b):
        return a + b


class NP:
    """The numpy functions known to the verifier"""

    ndarray = ndarray
    newaxis = None
    int_ = _np.int_
    bool_ = _np.bool_
    str_ = _np.str_
    float64 = _np.float64
    dtype = _np.dtype
    __name__ = "numpy"

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n == "VisibleDeprecationWarning":
            raise AttributeError(n)
        raise Unsupported("numpy.%s" % n)

    @property
    def pi(self):
        return num(t.PI)

    @property
    def inf(self):
        return num(t.INF)

    @property
    def nan(self):
        return num(t.nan())

    @property
    def e(self):
        return num(t.exp(t.ONE))

    add = _AddReduce()

    def floor(self, x):
        return unop(lambda a: _floor(_num(a)), as_arr(x), "f")

    def ceil(self, x):
        return unop(lambda a: _floor(_num(a), True), as_arr(x), "f")
    log = staticmethod(_lift(lambda a: t.log(_num(a))))
    log10 = staticmethod(_lift(lambda a: t.log10(_num(a))))
    log2 = staticmethod(_lift(lambda a: t.mul(t.log(_num(a)), t.power(t.LC(2), t.MINUS1))))
    log1p = staticmethod(_lift(lambda a: t.log(t.add(t.ONE, _num(a)))))
    expm1 = staticmethod(_lift(lambda a: t.add(t.exp(_num(a)), t.MINUS1)))
    exp = staticmethod(_lift(lambda a: t.exp(_num(a))))
    sign = staticmethod(_lift(_sgn, None))

    def _trig(self, name, x):
        if isinstance(x, SymQ):
            x = x.to("rad").val
        return unop(lambda a: t.fun(name, a), as_arr(x))

    def cos(self, x):
        return self._trig("cos", x)

    def sin(self, x):
        return self._trig("sin", x)

    def sqrt(self, x):
        if isinstance(x, SymQ):
            return SymQ._mk(unop(lambda a: t.sqrt(_num(a)), x.val), x.unit ** F(1, 2))
        return unop(lambda a: t.sqrt(_num(a)), as_arr(x))

    def cbrt(self, x):
        if isinstance(x, SymQ):
            x = x.to_dimensionless()
        return unop(lambda a: t.power(_num(a), t.const(F(1, 3))), as_arr(x))

    def square(self, x):
        return x * x

    def abs(self, x):
        return abs(x) if isinstance(x, SymQ) else abs(as_arr(x))

    absolute = abs
    fabs = abs

    def power(self, a, b):
        if isinstance(a, SymQ):
            return a**b
        return as_arr(a) ** as_arr(b)

    def multiply(self, a, b):
        return a * b

    def divide(self, a, b):
        return (a if isinstance(a, SymQ) else as_arr(a)) / b

    true_divide = divide

    def subtract(self, a, b):
        return a - b

    def negative(self, a):
        return -a

    def _m2(self, a, b, f):
        if isinstance(a, SymQ) or isinstance(b, SymQ):
            if not isinstance(a, SymQ):
                a, b = b, a
            return SymQ._mk(binop(f, a.val, as_arr(a._same(b))), a.unit)
        return binop(f, as_arr(a), as_arr(b))

    def maximum(self, a, b):
        return self._m2(a, b, lambda x, y: t.ite(t.lt(_num(y), _num(x)), _num(x), _num(y)))

    def minimum(self, a, b):
        return self._m2(a, b, lambda x, y: t.ite(t.lt(_num(x), _num(y)), _num(x), _num(y)))

    fmax, fmin = maximum, minimum

    def clip(self, a, lo, hi):
        if lo is not None:
            a = self.maximum(a, lo)
        if hi is not None:
            a = self.minimum(a, hi)
        return a

    def heaviside(self, x, h0):
        return self.where(as_arr(x) < 0, 0, self.where(as_arr(x) > 0, 1, h0)) * as_arr(F(1))

    def isnan(self, x):
        # over the reals there is no NaN, except for the constant itself
        v = x.val if isinstance(x, SymQ) else as_arr(x)
        return unop(lambda a: t.boolc(isinstance(a, T) and a is t.nan()), v, "b")

    def isinf(self, x):
        v = x.val if isinstance(x, SymQ) else as_arr(x)
        return unop(lambda a: _isinf(a), v, "b")

    def isfinite(self, x):
        return ~(self.isnan(x) | self.isinf(x))

    def nan_to_num(self, x, nan=0.0, **k):
        return x

    def isscalar(self, x):
        if isinstance(x, SArr):
            return not x.axes and not x.arr0
        if isinstance(x, SymQ):
            return False
        return _np.isscalar(x)

    def isreal(self, x):
        # terms stand for real numbers
        return True if isinstance(x, (SArr, SymQ)) else _np.isreal(x)

    def asanyarray(self, x, dtype=None):
        if isinstance(x, SymQ):
            return x
        if isinstance(x, SArr) and (x.axes or x.arr0):
            return x
        r = as_arr(x)
        return SArr(r.node, arr0=not r.axes)

    def asarray(self, x, dtype=None):
        if isinstance(x, SymQ):
            x = x.val
        r, k = self.asanyarray(x), _dkind(dtype)
        return r if k is None or k == r.kind else SArr(_as_kind(r, k).node, arr0=not r.axes)

    def take(self, x, i, axis=None):
        if axis not in (0, None) or (axis is None and as_arr(x).ndim != 1) or isinstance(x, SymQ):
            raise Unsupported("take")
        return as_arr(x)[i]

    ascontiguousarray = asarray

    def atleast_1d(self, x):
        if isinstance(x, SymQ):
            return SymQ._mk(self.atleast_1d(x.val), x.unit)
        x = as_arr(x)
        return x if x.axes else x.reshape(1)

    def array(self, x, dtype=None, copy=True):
        if isinstance(x, SymQ):
            return x.val.copy()
        r = _as_kind(as_arr(x), _dkind(dtype))
        return SArr(r.node, arr0=not r.axes)

    def _shape(self, s):
        if isinstance(s, (tuple, list)):
            return tuple(axis_of_len(_t(k)) for k in s)
        return (axis_of_len(_t(s)),)

    def zeros(self, shape, dtype=None):
        kind = _dkind(dtype) or "f"
        z = t.false() if kind == "b" else t.ZERO
        return SArr(Node(self._shape(shape), lambda *i: z, kind), arr0=shape == ())

    def empty(self, shape, dtype=None):
        if dtype is object or getattr(dtype, "__name__", "") == "object":
            return ObjArr(shape if isinstance(shape, (tuple, list)) else (shape,))
        kind = _dkind(dtype) or "f"
        nm = "empty!%d" % t._fresh[0]
        t._fresh[0] += 1
        f = (lambda *i: t.bapp(nm, i)) if kind == "b" else (lambda *i: t.app(nm, i, isint=kind == "i"))
        return SArr(Node(self._shape(shape), f, kind), arr0=shape == ())

    def ones(self, shape, dtype=None):
        kind = _dkind(dtype) or "f"
        z = t.true() if kind == "b" else t.ONE
        return SArr(Node(self._shape(shape), lambda *i: z, kind), arr0=shape == ())

    def full(self, shape, v, dtype=None):
        if isinstance(v, SymQ):
            return SymQ._mk(self.full(shape, v.val), v.unit)
        z = as_arr(v).scalar()
        return SArr(Node(self._shape(shape), lambda *i: z, as_arr(v).kind))

    def _like(self, x, z):
        if isinstance(x, SymQ):
            return SymQ._mk(self._like(x.val, z), x.unit)
        x = as_arr(x)
        zz = t.boolc(z is t.ONE) if x.kind == "b" else z
        return SArr(Node(x.axes, lambda *i: zz, x.kind), arr0=not x.axes)

    def zeros_like(self, x, dtype=None):
        return self._like(x, t.ZERO)

    def ones_like(self, x, dtype=None):
        return self._like(x, t.ONE)

    def full_like(self, x, v, dtype=None):
        return self.zeros_like(x) + v

    def vstack(self, x):
        if isinstance(x, SymQ):
            return SymQ._mk(self.vstack(x.val), x.unit)
        if isinstance(x, (list, tuple)) and x and all(isinstance(y, Rep) or isinstance(y, SArr) and y.ndim == 1 for y in x):
            x = stack(x)
        x = as_arr(x)
        if x.ndim == 1:
            if x.axes[0].const is not None and isinstance(x, list):
                raise Unsupported("vstack")
            nd = x.node
            a = x.axes[0]
            return View(x, lambda i: i[: a.n], (a, Axis((t.ONE,))), x.kind).copy()
        if x.ndim == 2:
            return x.copy()
        raise Unsupported("vstack of %d dimensions" % x.ndim)

    def expand_dims(self, x, axis):
        return x[:, None] if axis in (1, -1) else x[None]

    def reshape(self, x, s):
        return x.reshape(s)

    def ravel(self, x):
        return x.flatten()

    def squeeze(self, x):
        return x.squeeze()

    def where(self, c, a=None, b=None):
        c = as_arr(c)
        if c.kind != "b":
            c = unop(_boo, c, "b")
        if a is None:
            m = c if c.axes else c.reshape(1)
            return WhereIdx(IdxArr(m) for _ in m.axes)
        if isinstance(a, SymQ) or isinstance(b, SymQ):
            if isinstance(a, SymQ):
                un = a.unit
                av, bv = a.val, as_arr(a._same(b))
            else:
                un = b.unit
                av, bv = as_arr(b._same(a)), b.val
            return SymQ._mk(self.where(c, av, bv), un)
        a, b = as_arr(a), as_arr(b)
        axes, (mc, ma, mb) = bcast(c.axes, a.axes, b.axes)
        cn, an, bn = c.node, a.node, b.node
        kind = max(a.kind, b.kind, key=_KIND.get)
        cast = _num if kind != "b" else (lambda x: x)
        return SArr(
            Node(axes, lambda *i: _ite(cn.at(mc(i)), cast(an.at(ma(i))), cast(bn.at(mb(i)))), kind), arr0=not axes
        )

    def nonzero(self, c):
        return self.where(c)

    def sum(self, x, axis=None, dtype=None, **k):
        if isinstance(x, SymQ):
            return SymQ._mk(self.sum(x.val, axis=axis), x.unit)
        x = as_arr(x)
        if not x.axes:
            return unop(_num, x, None)
        nd = x.node
        if x.kind == "b" and (axis is None or x.ndim == 1):
            return num(x.masked().length, "i")
        kind = "i" if x.kind == "b" else x.kind
        axs = list(range(x.ndim)) if axis is None else [axis % x.ndim]
        rest = [a for k, a in enumerate(x.axes) if k not in axs]

        def fn(*idx):
            def nest(k, acc, p):
                if k == x.ndim:
                    return _num(nd.at(tuple(acc)))
                a = x.axes[k]
                if k not in axs:
                    return nest(k + 1, acc + list(idx[p : p + a.n]), p + a.n)
                c = a.const
                if c is not None and c <= 12 and a.mask is None:
                    r = t.ZERO
                    for j in range(c):
                        r = t.add(r, nest(k + 1, acc + [t.const(j)], p))
                    return r

                def over(j, got):
                    if j == a.n:
                        return t.ite(a.mask_at(got), nest(k + 1, acc + got, p), t.ZERO)
                    return t.bsum(a.bases[j], lambda i: over(j + 1, got + [i]))

                return over(0, [])

            return nest(0, [], 0)

        def whole():
            """The sum of all elements, in one order of the indices whatever the order of the axes is"""
            from itertools import permutations

            bases = [b for a in x.axes for b in a.bases]

            def nest(order, k, idx):
                if k == len(order):
                    return _num(nd.at(tuple(i for _, i in sorted(zip(order, idx), key=lambda e: e[0]))))
                b = bases[order[k]]
                if b.const is not None and b.const <= 12:
                    r = t.ZERO
                    for j in range(int(b.const)):
                        r = t.add(r, nest(order, k + 1, idx + [t.const(j)]))
                    return r
                return t.bsum(b, lambda i: nest(order, k + 1, idx + [i]))

            return min((nest(o, 0, []) for o in permutations(range(len(bases)))), key=repr)

        if not rest and 2 <= x.nidx <= 3 and all(a.mask is None or a.mask.k == "true" for a in x.axes):
            return num(whole(), kind)
        if not rest:
            v = fn()
            return num(v, kind)
        return SArr(Node(rest, fn, kind))

    def mean(self, x, axis=None):
        if axis is not None:
            raise Unsupported("mean over an axis")
        n = x.size
        return self.sum(x) / n

    def average(self, x, axis=None, weights=None):
        if weights is None:
            return self.mean(x, axis)
        return self.sum(x * weights, axis=axis) / self.sum(weights, axis=axis)

    def var(self, x, axis=None):
        d = x - self.mean(x, axis)
        return self.mean(d * d, axis)

    def std(self, x, axis=None):
        return self.sqrt(self.var(x, axis))

    def percentile(self, x, q, axis=None):
        """The percentiles of the elements of an array: a function of all of its elements"""
        if isinstance(q, (list, tuple)) or isinstance(q, SArr) and q.axes:
            r = [self.percentile(x, y, axis) for y in q]
            if isinstance(x, SymQ):
                return SymQ._mk(stack([y.val for y in r]), x.unit)
            return stack(r)
        if isinstance(x, SymQ):
            return SymQ._mk(self.percentile(x.val, q, axis), x.unit)
        x, q = as_arr(x), as_arr(q).scalar()
        if axis is not None:
            if axis not in (0, -x.ndim) or x.ndim != 2 or any(a.n != 1 for a in x.axes):
                raise Unsupported("percentile over an axis")
            nd, a = x.node, x.axes[0]
            col = lambda j: SArr(Node((a,), lambda i: nd.at((i,) + tuple(j)), x.kind))
            return SArr(Node(x.axes[1:], lambda *j: t.app("quantile", (q, _arrterm(col(j)))), "f"))
        if x.kind == "b":
            raise Unsupported("percentile of booleans")
        return num(t.app("quantile", (q, _bagterm(x))), "f")

    def quantile(self, x, q, axis=None):
        q = [as_arr(y) * 100 for y in q] if isinstance(q, (list, tuple)) else as_arr(q) * 100
        return self.percentile(x, q, axis)

    def median(self, x, axis=None):
        return self.percentile(x, 50, axis)

    def dot(self, a, b):
        return self.sum(a * b)

    def cumsum(self, x, axis=None):
        raise Unsupported("cumsum")

    def any(self, x):
        x = as_arr(x)
        if not x.axes:
            return num(_boo(x.scalar()))
        if x.ndim == 1 and x.axes[0].const is not None and x.axes[0].mask is None:
            return num(t.disj([_boo(x.at(k)) for k in range(x.axes[0].const)]))
        if x.kind != "b":
            x = unop(_boo, x, "b")
        ax = x.masked()
        return num(any_atom(ax.bases, ax.mask))

    def all(self, x):
        if isinstance(x, (list, tuple)) and all(isinstance(k, bool) for k in x):
            return all(x)
        r = self.any(unop(lambda a: t.bnot(_boo(a)), as_arr(x), "b"))
        return ~r

    def count_nonzero(self, x):
        return self.sum(x)

    def _extreme(self, x, name):
        if isinstance(x, SymQ):
            return SymQ._mk(self._extreme(x.val, name), x.unit)
        x = as_arr(x)
        if not x.axes:
            return x
        if x.ndim == 1 and x.axes[0].const is not None and x.axes[0].mask is None:
            r = x.at(0)
            for k in range(1, x.axes[0].const):
                v = x.at(k)
                c = t.lt(v, r) if name == "min" else t.lt(r, v)
                r = t.ite(c, v, r)
            return num(r)
        return EX.extreme(x, name)

    def min(self, x, *a):
        return self._extreme(x, "min")

    def max(self, x, *a):
        return self._extreme(x, "max")

    amin, amax = min, max

    def argsort(self, x, kind=None):
        v = x.val if isinstance(x, SymQ) else as_arr(x)
        if v.ndim != 1 or v.axes[0].mask is not None:
            raise Unsupported("argsort")
        return EX.argsort(v)

    def sort(self, x, axis=-1):
        if axis is None:
            raise Unsupported("sort of a flattened array")
        if x.ndim == 1:
            return x[self.argsort(x)]
        if isinstance(x, SymQ):
            return SymQ._mk(self.sort(x.val, axis), x.unit)
        if x.ndim != 2:
            raise Unsupported("sort over an axis")
        axis %= 2
        nd, a, kind = x.node, x.axes[axis], x.kind

        def fn(*i):
            own, other = i[: x.axes[0].n], i[x.axes[0].n :]
            if axis == 1:
                own, other = other, own
            col = SArr(Node((a,), (lambda *k: nd.at(tuple(k) + tuple(other))) if axis == 0 else (lambda *k: nd.at(tuple(other) + tuple(k))), kind))
            return self.sort(col).at(*own)

        return SArr(Node(x.axes, fn, kind))

    def argmax(self, x, axis=None):
        if axis is not None:
            raise Unsupported("argmax over an axis")
        return x.argmax()

    def argmin(self, x, axis=None):
        if axis is not None:
            raise Unsupported("argmin over an axis")
        return x.argmin()

    def unravel_index(self, i, shape):
        u = getattr(i, "unravelled", None)
        if u is None or tuple(_t(n) for n in shape) != u[1]:
            raise Unsupported("unravel_index")
        return tuple(num(k, "i") for k in u[0])

    def unique(self, x):
        """The values of an array with few known values (all of them present)"""
        x = as_arr(x)
        vals = getattr(x, "values_of", None)
        if vals is None and x.ndim == 1:
            v = x.at(*[t.fresh("any", nonneg=True, isint=True)] * x.nidx)
            vals = [v] if v.const is not None else None
        if vals is None:
            raise Unsupported("numpy.unique")
        return stack([num(t.const(v), x.kind) for v in sorted(vals, key=lambda v: t.const(v).const)])

    def logspace(self, a, b, n=50, endpoint=True):
        lin = self.linspace(a, b, n)
        return as_arr(10) ** lin

    def geomspace(self, a, b, n=50):
        return self.power(a, 1) * self.logspace(0, self.log10(b / a), n)

    def linspace(self, a, b, n=50):
        a, b, nn = as_arr(a).scalar(), as_arr(b).scalar(), _t(n)
        d = t.add(b, t.neg(a))
        m1 = t.power(t.add(nn, t.MINUS1), t.MINUS1)
        return SArr(Node((Axis((nn,)),), lambda i: t.add(a, t.mul(t.mul(d, i), m1)), "f"))

    def arange(self, a, b=None, step=1):
        if b is None:
            a, b = 0, a
        lo, hi = _t(a), _t(b)
        if step != 1:
            st = _t(step)
            if lo.const is None or hi.const is None or st.const is None:
                raise Unsupported("arange with a step")
            n = len(_np.arange(float(lo.const), float(hi.const), float(st.const)))
            return SArr(Node((Axis((t.const(n),)),), lambda i: t.add(lo, t.mul(st, i)), "f"))
        return SArr(Node((Axis((t.add(hi, t.neg(lo)),)),), lambda i: t.add(lo, i), "i"))

    def array_equal(self, a, b):
        a, b = as_arr(a), as_arr(b)
        m, n = a.shape, b.shape
        if len(m) != len(n) or not all(bool(i == j) for i, j in zip(m, n)):
            return False
        return self.all(a == b)

    def allclose(self, a, b, rtol=1e-5, atol=1e-8):
        a, b = as_arr(a), as_arr(b)
        return self.all(self.abs(a - b) <= as_arr(atol) + as_arr(rtol) * self.abs(b))

    def copy(self, x):
        return x.copy()

    def broadcast_to(self, x, shape):
        return self.zeros(shape) + x

    def prod(self, x):
        """of a sequence of numbers"""
        if not isinstance(x, (list, tuple)) or any(isinstance(v, (Rep, SymQ)) for v in x):
            raise Unsupported("prod of an array")
        r = as_arr(1)
        for v in x:
            r = r * v
        return r

    def shape(self, x):
        return x.shape if hasattr(x, "shape") else as_arr(x).shape

    def size(self, x):
        return x.size if hasattr(x, "size") else as_arr(x).size

    def ndim(self, x):
        return x.ndim if hasattr(x, "ndim") else as_arr(x).ndim

    def trapezoid(self, y, x=None):
        if isinstance(y, SymQ) or isinstance(x, SymQ):
            yu = y.unit if isinstance(y, SymQ) else SymQ(1).unit
            xu = x.unit if isinstance(x, SymQ) else SymQ(1).unit
            yv = y.val if isinstance(y, SymQ) else as_arr(y)
            xv = x.val if isinstance(x, SymQ) else as_arr(x)
            return SymQ._mk(self.trapezoid(yv, xv), yu._mul(xu, 1))
        d = x[1:] - x[:-1]
        return self.sum(d * (y[1:] + y[:-1]) / 2)

    trapz = trapezoid

    def diff(self, x):
        return x[1:] - x[:-1]

    def seterr(self, **k):
        return {}

    def errstate(self, **k):
        import contextlib

        return contextlib.nullcontext()


def _trunc(a):
    c = a.const
    if c is not None:
        return t.const(int(c))
    s = t.split_ite(a)
    if s:
        return t.ite(s[0], _trunc(s[1]), _trunc(s[2]))
    if any(at.kind != "sym" and not at.isint for e, fs in a.d for at, _ in fs) or not all(
        c.denominator == 1 and e is None and all(at.isint and q > 0 and q.denominator == 1 for at, q in fs)
        for (e, fs), c in a.d.items()
    ):
        return t.fun("trunc", a, isint=True)
    return a


def _floor(a, up=False):
    c = a.const
    if c is not None:
        return t.const(-((-c) // 1) if up else c // 1)
    s = t.split_ite(a)
    if s:
        return t.ite(s[0], _floor(s[1], up), _floor(s[2], up))
    if _trunc(a) is a:
        return a
    return t.neg(t.fun("floor", t.neg(a), isint=True)) if up else t.fun("floor", a, isint=True)


def _isinf(a):
    if not isinstance(a, T):
        return t.false()
    s = None
    try:
        s = t._infsign(a)
    except Unsupported:
        raise
    if s:
        return t.true()
    sp = t.split_ite(a)
    if sp:
        return t.ibool(sp[0], _isinf(sp[1]), _isinf(sp[2]))
    at = [x for e, fs in a.d for x, _ in fs]
    for x in at:
        if x.key in INF_SYMS:
            return INF_SYMS[x.key]
    return t.false()


INF_SYMS = {}  # symbols that can be infinite: atom key -> B

np = NP()


def tll(y, x, axis=-1):
    """The log-log integral of the samples y at x, as a binder (contract of trapz_loglog)"""
    u = None
    if isinstance(y, SymQ):
        u, y = y.unit, y.val
    if isinstance(x, SymQ):
        u = x.unit if u is None else u._mul(x.unit, 1)
        x = x.val
    y, x = as_arr(y), as_arr(x)
    if not y.axes:
        raise Unsupported("integral of a number")
    ax = axis % y.ndim
    a = y.axes[ax]
    if any(q.mask is not None for q in y.axes + x.axes):
        raise Unsupported("integral of a selection")
    if x.ndim == 1:
        b = x.axes[0]
        xat = lambda idx, k: x.at(k)
    elif x.ndim == y.ndim:
        b = x.axes[ax]
        xat = lambda idx, k: x.at(*[t.ZERO if _is1(q) else i for q, i in zip(x.axes, idx[:ax] + (k,) + idx[ax:])])
    else:
        raise Unsupported("integral with abscissae of another dimension")
    if not _same_axis(a, b) and not (EX is not None and EX.equal_len(a.length, b.length)):
        raise ValueError("operands could not be broadcast together")
    rest = y.axes[:ax] + y.axes[ax + 1 :]

    def fn(*idx):
        return t.bind("tll", a.length, lambda k: [_num(y.at(*(idx[:ax] + (k,) + idx[ax:]))), _num(xat(idx, k))])

    r = num(fn(), "f") if not rest else SArr(Node(rest, fn, "f"))
    return r if u is None else SymQ._mk(r, u)
