"""Units with exact (or symbolic) scales. The dimensions are those of astropy."""
from fractions import Fraction as F

import astropy.units as ru

from . import terms as t
from .terms import Unsupported

# base dimensions: names of irreducible SI units
BASES = {"m": ru.m, "kg": ru.kg, "s": ru.s, "K": ru.K, "A": ru.A, "rad": ru.rad, "mol": ru.mol, "cd": ru.cd}

# units whose scale is an experimental constant or is irrational: a positive symbol
_SYMBOLIC = {"eV": {"m": 2, "kg": 1, "s": -2}, "pc": {"m": 1}, "AU": {"m": 1}, "lyr": {"m": 1}}


class UnitConversionError(Exception):
    pass


class UnitName(str):
    """The name of a unit, that stands for the unit"""


class SUnit:
    __slots__ = ("dims", "scale", "name")

    def __init__(self, dims, scale, name=None):
        self.dims = tuple(sorted((k, F(v)) for k, v in dict(dims).items() if v))
        self.scale = t.const(scale)
        self.name = name

    # --- identification
    def __repr__(self):
        return self.name or "%r[%s]" % (self.scale, ",".join("%s^%s" % d for d in self.dims))

    __str__ = __repr__

    def to_string(self, *a, **k):
        r = UnitName(repr(self))
        r.unit = self
        return r

    def __format__(self, spec):
        return repr(self)

    def __eq__(self, o):
        o = as_unit(o, silent=True)
        return o is not None and o.dims == self.dims and o.scale is self.scale

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.dims, self.scale))

    @property
    def real(self):
        """An astropy unit of the same dimensions"""
        u = ru.dimensionless_unscaled
        for k, q in self.dims:
            u = u * BASES[k] ** q
        return u

    @property
    def physical_type(self):
        return self.real.physical_type

    def is_equivalent(self, o):
        return as_unit(o).dims == self.dims

    # --- algebra
    def _mul(self, o, s):
        d = dict(self.dims)
        for k, q in o.dims:
            d[k] = d.get(k, 0) + s * q
        return SUnit(d, t.mul(self.scale, t.power(o.scale, t.const(s))))

    def __mul__(self, o):
        from .sym import SymQ, as_arr

        if isinstance(o, str):
            o = as_unit(o)
        if isinstance(o, (SUnit, ru.UnitBase)):
            return self._mul(as_unit(o), 1)
        if isinstance(o, SymQ):
            return SymQ(o.val, self._mul(o.unit, 1))
        return SymQ(as_arr(o), self)

    __rmul__ = __mul__

    def __truediv__(self, o):
        from .sym import SymQ, as_arr

        if isinstance(o, str):
            o = as_unit(o)
        if isinstance(o, (SUnit, ru.UnitBase)):
            return self._mul(as_unit(o), -1)
        if isinstance(o, SymQ):
            return SymQ(as_arr(1) / o.val, self._mul(o.unit, -1))
        return SymQ(as_arr(1) / as_arr(o), self)

    def __rtruediv__(self, o):
        from .sym import SymQ, as_arr

        inv = SUnit({}, t.ONE)._mul(self, -1)
        if isinstance(o, str):
            return as_unit(o)._mul(self, -1)
        if isinstance(o, SymQ):
            return SymQ(o.val, o.unit._mul(self, -1))
        return SymQ(as_arr(o), inv)

    def __pow__(self, n):
        from .sym import as_arr

        q = as_arr(n).scalar().const
        if q is None:
            raise Unsupported("symbolic power of a unit")
        return SUnit({k: v * q for k, v in self.dims}, t.power(self.scale, t.const(q)))

    def to(self, o, value=1):
        from .sym import as_arr

        o = as_unit(o)
        if o.dims != self.dims:
            raise ru.UnitConversionError("%r and %r are not convertible" % (self, o))
        return as_arr(value) * as_arr(t.mul(self.scale, t.power(o.scale, t.MINUS1)))

    def decompose(self, bases=None):
        return SUnit(self.dims, self.scale)

    @property
    def si(self):
        return SUnit(self.dims, self.scale)


_cache = {}


def clear():
    _cache.clear()


def _from_real(r):
    if isinstance(r, ru.CompositeUnit):
        s = _ratio(r.scale)
        out = SUnit({}, s)
        for b, p in zip(r.bases, r.powers):
            p = F(p).limit_denominator(1000)
            b = _from_real(b)
            out = out._mul(SUnit({k: v * p for k, v in b.dims}, t.power(b.scale, t.const(p))), 1)
        return out
    n = r.name
    if n in BASES:
        return SUnit({n: 1}, t.ONE)
    if n in _SYMBOLIC:
        return SUnit(_SYMBOLIC[n], t.sym("unit_" + n, pos=True))
    if n == "deg":
        return SUnit({"rad": 1}, t.mul(t.PI, t.const(F(1, 180))))
    if n in ("Fr", "statC", "Bi", "St", "D", "esu", "abC"):
        raise Unsupported("cgs unit " + n)
    if n == "g":
        return SUnit({"kg": 1}, F(1, 1000))
    if isinstance(r, ru.IrreducibleUnit):
        raise Unsupported("base unit " + n)
    rep = r.represents
    if rep is r or (not isinstance(rep, ru.CompositeUnit)):
        d = r.decompose()
        if d is r:
            raise Unsupported("unit " + n)
        return _from_real(d)
    return _from_real(rep)


def _ratio(x):
    f = float(x)
    q = F(repr(f))
    return q


class ScaledName:
    pass


def as_unit(x, silent=False):
    from .sym import SymQ, SArr

    if isinstance(x, SUnit):
        return x
    if isinstance(x, UnitName):
        return x.unit
    if isinstance(x, str):
        x = ru.Unit(x)
    if isinstance(x, ru.UnitBase):
        k = x.to_string() if not isinstance(x, ru.CompositeUnit) else (x.scale, tuple(b.name for b in x.bases), tuple(x.powers))
        r = _cache.get(k)
        if r is None:
            r = _from_real(x)
            try:
                r = SUnit(r.dims, r.scale, x.to_string())
            except Exception:
                pass
            _cache[k] = r
        return r
    if isinstance(x, SymQ):
        v = x.val.scalar()
        return SUnit(x.unit.dims, t.mul(v, x.unit.scale))
    if isinstance(x, (int, float, SArr)) and not isinstance(x, bool):
        from .sym import as_arr

        return SUnit({}, as_arr(x).scalar())
    if silent:
        return None
    raise TypeError("%r can not be converted to a Unit" % (x,))


CGS = {"m": F(1, 100), "kg": F(1, 1000)}


def cgs_of(un):
    """The cgs unit with the dimensions of un"""
    s = F(1)
    scale = t.ONE
    for k, p in un.dims:
        if k in CGS:
            scale = t.mul(scale, t.power(t.const(CGS[k]), t.const(p)))
        elif k == "A":
            raise Unsupported("electromagnetic cgs unit")
    return SUnit(un.dims, scale)


def si_of(un):
    return SUnit(un.dims, t.ONE)
