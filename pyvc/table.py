"""astropy tables: named columns of one length"""
import copy

from . import sym, terms as t
from .sym import SArr, SymQ, as_arr
from .terms import Unsupported


class Column(SArr):
    """Column of a table; in a QTable only columns without unit are columns"""

    def __init__(self, arr, unit=None):
        SArr.__init__(self, arr.node, False)
        self.unit = unit
        for k in ("values_of",):
            if hasattr(arr, k):
                setattr(self, k, getattr(arr, k))

    @property
    def quantity(self):
        return SymQ(SArr(self.node), self.unit)

    @property
    def data(self):
        return SArr(self.node)

    value = data

    @property
    def sym_column(self):
        if self.unit is None:
            raise AttributeError("sym_column")
        return self.quantity

    def copy(self):
        return Column(SArr(self.node), self.unit)

    def _bin(self, o, op, kind=None, rev=False):
        if self.unit is not None:
            raise Unsupported("arithmetic of a column with a unit")
        return SArr._bin(self, o, op, kind, rev)


class RowsOf:
    """A row of the loop over a table"""

    def __init__(self, table):
        self.__dict__["table"] = table

    def __getattr__(self, n):
        raise Unsupported("row of a table")

    def __getitem__(self, k):
        raise Unsupported("row of a table")


class Table:
    quantities = False

    def __init__(self, data=None, meta=None, copy=True, names=None, **k):
        if k or names is not None:
            raise Unsupported("options of a table")
        self.cols = {}
        self.meta = {}
        if isinstance(data, Table):
            self.meta = dict(data.meta)
        elif isinstance(data, dict):
            pass
        elif data is not None:
            raise Unsupported("table of %s" % type(data).__name__)
        if meta:
            self.meta.update(meta)
        if isinstance(data, Table):
            for n, c in data.cols.items():
                self[n] = c
        elif data is not None:
            for n, c in data.items():
                self[n] = c

    # ---- structure
    @property
    def axis(self):
        for c in self.cols.values():
            return c.axes[0]
        return None

    @property
    def sym_axis(self):
        return self.axis if self.cols else sym.axis_of_len(t.ZERO)

    @property
    def colnames(self):
        return list(self.cols)

    columns = property(lambda s: s.cols)

    def keys(self):
        return list(self.cols)

    def __contains__(self, n):
        raise Unsupported("in a table")

    def __len__(self):
        c = self.sym_axis.const
        if c is None:
            raise Unsupported("length of a table")
        return c

    def __bool__(self):
        raise Unsupported("truth of a table")

    def copy(self, copy_data=True):
        r = type(self)()
        r.meta = copy.deepcopy(self.meta)
        for n, c in self.cols.items():
            r.cols[n] = c.copy()
        return r

    def __deepcopy__(self, memo):
        return self.copy()

    def _column(self, v):
        if isinstance(v, SymQ):
            if self.quantities and v.unit.dims:
                return v.copy()
            if self.quantities:
                return v.copy()
            return Column(v.val.copy(), v.unit)
        if isinstance(v, Column):
            if self.quantities and v.unit is not None:
                return v.quantity
            return v.copy()
        a = as_arr(v)
        r = Column(a if not isinstance(v, SArr) else a.copy())
        if hasattr(v, "values_of"):
            r.values_of = v.values_of
        return r

    def __setitem__(self, n, v):
        if not isinstance(n, str):
            raise Unsupported("rows set in a table")
        if isinstance(v, str) or v is None:
            raise Unsupported("column of %r" % (v,))
        c = self._column(v)
        ax = self.axis
        if not c.axes:
            if ax is None:
                raise TypeError("Empty table cannot have column set to scalar value")
            raise Unsupported("column set to a scalar")
        if ax is not None and n in self.cols and len(self.cols) == 1:
            ax = None
        if ax is not None and c.axes[0].key != ax.key:
            if not (sym.EX is not None and sym.EX.equal_len(c.axes[0].length, ax.length)):
                raise ValueError("Inconsistent data column lengths")
            c = _with_axis(c, ax)
        self.cols[n] = c

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise KeyError(k)
            return self.cols[k]
        if isinstance(k, sym.WhereIdx) and len(k) == 1:
            k = k[0].mask
        if isinstance(k, sym.IdxArr):
            k = k.mask
        if isinstance(k, (SArr, slice)):
            r = type(self)()
            r.meta = copy.deepcopy(self.meta)
            for n, c in self.cols.items():
                if isinstance(c, Column):
                    r.cols[n] = Column(SArr(c.node)[k].copy(), c.unit)
                else:
                    r.cols[n] = c[k].copy()
            return r
        raise Unsupported("index of a table: %s" % type(k).__name__)

    def sort(self, keys, kind=None, reverse=False):
        if reverse or not isinstance(keys, str):
            raise Unsupported("sort of a table")
        order = sym.EX.argsort(_val(self.cols[keys]))
        self.cols = self[order].cols

    def argsort(self, keys=None, kind=None):
        if not isinstance(keys, str):
            raise Unsupported("sort of a table")
        return sym.EX.argsort(_val(self.cols[keys]))

    def remove_column(self, n):
        del self.cols[n]

    def rename_column(self, a, b):
        self.cols = {b if n == a else n: c for n, c in self.cols.items()}

    # ---- rows
    def rows_of(self):
        return RowsOf(self)

    def add_row(self, row):
        if not isinstance(row, RowsOf) or (sym.EX is not None and sym.EX.loops):
            raise Unsupported("row added to a table")
        # the values of a row are taken by position
        o = row.table
        if len(o.cols) != len(self.cols):
            raise ValueError("Mismatch between number of vals and columns")
        t2 = type(o)()
        t2.cols = dict(zip(self.cols, o.cols.values()))
        self._append(t2)

    def _append(self, other):
        if set(self.cols) != set(other.cols):
            raise Unsupported("rows with other columns")
        new = {}
        a = self.axis.length
        n = t.add(a, other.axis.length)
        if self.axis.mask is not None or other.axis.mask is not None:
            raise Unsupported("rows of a selection")
        ax = sym.axis_of_len(n)
        for name, c in self.cols.items():
            o = other.cols[name]
            if isinstance(c, SymQ):
                if not isinstance(o, SymQ):
                    raise Unsupported("rows with other units")
                x, y = c.val, o.to(c.unit).val
            else:
                if isinstance(o, SymQ) or o.unit is not None or c.unit is not None:
                    raise Unsupported("rows with other units")
                x, y = c, o
            if x.ndim != 1:
                raise Unsupported("column of arrays")
            new[name] = _make(c, _concat(x, y, a, ax))
        self.cols = new

    def __iter__(self):
        raise Unsupported("iteration over a table")


class QTable(Table):
    quantities = True


def _val(c):
    return c.val if isinstance(c, SymQ) else SArr(c.node)


def _make(c, arr):
    return SymQ._mk(arr, c.unit) if isinstance(c, SymQ) else Column(arr, c.unit)


def _with_axis(c, ax):
    v = _val(c)
    nd = v.node
    r = _make(c, SArr(sym.Node((ax,) + tuple(v.axes[1:]), lambda *i: nd.at(i), v.kind)))
    if hasattr(c, "values_of"):
        r.values_of = c.values_of
    return r


def _concat(x, y, a, ax):
    xn, yn = x.node, y.node
    kind = max((x.kind, y.kind), key=sym._KIND.get)
    if (x.kind == "b") != (y.kind == "b"):
        raise Unsupported("rows of another type")

    def fn(i):
        c = t.lt(i, a)
        if c.k == "true":
            return xn.at((i,))
        j = t.add(i, t.neg(a))
        if c.k == "false":
            return yn.at((j,))
        return sym._ite(c, xn.at((i,)), yn.at((j,)))

    return SArr(sym.Node((ax,), fn, kind))


def vstack(tables, **k):
    if k:
        raise Unsupported("options of vstack")
    r = tables[0].copy()
    for o in tables[1:]:
        r._append(o)
    return r
