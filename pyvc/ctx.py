"""Contract harnesses: the same text is executed symbolically (proof) and concretely
(run-time check of the same contract on the real package, used to replay counterexamples
and as the labelled bounded stand-in where the proof does not reach)."""
import math
import os
import random
import sys
import types
import warnings

import numpy as rnp
import astropy.units as ru
import astropy.constants as rc

REPO = os.environ.get("VERIF_REPO", "/repo")

UNITS = {
    "energy": ["eV", "erg", "TeV", "J", "keV", "GeV", "MeV"],
    "length": ["cm", "kpc", "m", "pc", "Mpc"],
    "density": ["cm-3", "m-3", "pc-3"],
    "mass": ["g", "kg"],
    "B": ["G", "uG", "mG", "T"],
    "amplitude": ["1/eV", "1/TeV", "1/erg", "1/J"],
    "energy density": ["eV/cm3", "erg/cm3", "J/m3"],
    "differential flux": ["1/(cm2 s TeV)", "1/(m2 s eV)", "1/(cm2 s erg)"],
    "energy flux": ["erg/(cm2 s)", "W/m2", "TeV/(m2 s)"],
    "flux": ["1/(cm2 s)", "1/(m2 h)"],
    "differential power": ["1/(s TeV)", "1/(s eV)", "1/(h erg)"],
    "power": ["erg/s", "W", "TeV/h"],
    "temperature": ["K", "kK", "mK"],
    "differential number density": ["1/(eV cm3)", "1/(erg m3)"],
    "inverse energy": ["1/eV", "1/erg"],
    "photon density": ["1/(eV cm3)", "1/(TeV m3)", "1/(erg cm3)"],
    "time": ["s", "h", "yr"],
    "angle": ["rad", "deg"],
    "volume": ["cm3", "m3"],
    "solid": ["sr"],
}
LOGMID = {  # log10 in SI of a typical value
    "energy": (-9, -3),
    "length": (19, 21),
}


class Skip(Exception):
    """A sampled input outside of the precondition"""


class Failed(Exception):
    pass


def load_real():
    """The real naima from /repo/src"""
    src = REPO + "/src"
    if sys.path[0] != src:
        sys.path.insert(0, src)
    if not os.path.exists(src + "/naima/version.py") and "naima.version" not in sys.modules:
        m = types.ModuleType("naima.version")
        m.version = m.__version__ = "0"
        sys.modules["naima.version"] = m
    import matplotlib

    matplotlib.use("Agg")
    warnings.simplefilter("ignore")
    rnp.seterr(all="ignore")
    import naima
    import naima.extern.validator
    import logging

    try:
        from astropy import log

        log.setLevel("CRITICAL")
    except Exception:
        pass
    logging.disable(logging.CRITICAL)
    assert naima.__file__.startswith(src), naima.__file__
    return naima


# ------------------------------------------------------------------ concrete
class CMath:
    """Mathematics of the specifications, on floats"""

    pi = math.pi
    inf = math.inf
    exp = staticmethod(lambda x: rnp.exp(rnp.float64(x)))
    log = staticmethod(lambda x: rnp.log(rnp.float64(x)))
    log10 = staticmethod(lambda x: rnp.log10(rnp.float64(x)))
    sqrt = staticmethod(lambda x: rnp.sqrt(rnp.float64(x)))
    cbrt = staticmethod(lambda x: rnp.cbrt(rnp.float64(x)))
    cos = staticmethod(lambda x: rnp.cos(rnp.float64(x)))
    sin = staticmethod(lambda x: rnp.sin(rnp.float64(x)))
    abs = staticmethod(abs)

    @staticmethod
    def pow(a, b):
        return rnp.float64(a) ** rnp.float64(b)

    @staticmethod
    def q(a, b=1):
        return rnp.float64(a) / b

    @staticmethod
    def ite(c, a, b):
        v = a if c else b
        return v() if callable(v) else v

    @staticmethod
    def sum(n, f):
        return math.fsum(float(f(k)) for k in range(int(n)))

    @staticmethod
    def tll(n, x, y):
        return ref_tll([x(k) for k in range(int(n))], [y(k) for k in range(int(n))])

    @staticmethod
    def trunc(x):
        return rnp.float64(int(x))

    @staticmethod
    def quad(f, a, b, **k):
        from scipy.integrate import quad

        k = dict(dict(epsrel=1e-8, epsabs=0, limit=500), **k)
        return rnp.float64(quad(lambda x: float(f(x)), float(a), float(b), **k)[0])

    @staticmethod
    def eq(a, b):
        return a == b

    @staticmethod
    def lt(a, b):
        return a < b

    @staticmethod
    def le(a, b):
        return a <= b

    @staticmethod
    def and_(*a):
        return all(a)

    @staticmethod
    def or_(*a):
        return any(a)

    @staticmethod
    def not_(a):
        return not a

    @staticmethod
    def min(a, b):
        return min(a, b)

    @staticmethod
    def max(a, b):
        return max(a, b)


def ref_tll(x, y):
    """Integral of the power-law interpolation, independent of naima"""
    tot = rnp.float64(0)
    for k in range(len(x) - 1):
        x0, x1, y0, y1 = (rnp.float64(v) for v in (x[k], x[k + 1], y[k], y[k + 1]))
        if not (x0 > 0 and x1 > 0 and y0 > 0 and y1 > 0):
            continue
        with rnp.errstate(all="ignore"):
            b = rnp.log(y1 / y0) / rnp.log(x1 / x0)
            if abs(b + 1) > 1e-10:
                v = y0 * x0 * ((x1 / x0) ** (b + 1) - 1) / (b + 1)
                # small exponents: stable form
                z = (b + 1) * rnp.log(x1 / x0)
                if abs(z) < 0.5:
                    v = y0 * x0 * rnp.log(x1 / x0) * (rnp.expm1(z) / z)
                else:
                    v = (x1 * y1 - x0 * y0) / (b + 1)
            else:
                v = y0 * x0 * rnp.log(x1 / x0)
        if rnp.isfinite(v):
            tot += v
    return tot


class Concrete:
    """One concrete evaluation of a harness"""

    symbolic = False
    concrete = True

    def __init__(self, naima, rng, values=None, hints=None, literals=(), rtol=1e-7):
        self.naima, self.rng = naima, rng
        self.given = values or {}
        self.hints = hints or {}
        self.literals = literals
        self.inputs = {}
        self.M = CMath
        self.failures = []
        self.n = 0
        self.rtol = rtol
        self.nontrivial = 0

    # ---- inputs
    def _draw(self, name, f):
        if name in self.given:
            v = self.given[name]
        else:
            v = f()
        self.inputs[name] = v
        return v

    def choice(self, name, xs):
        xs = list(xs)
        k = self._draw(name, lambda: self.rng.randrange(len(xs)))
        return xs[int(k) % len(xs)]

    def forall(self, name, xs):
        """A finite set of cases: all of them in the proof, one per run-time evaluation"""
        return self.choice(name, xs)

    def _value(self, lo, hi, log, extra=()):
        r = self.rng
        u = r.random()
        if u < 0.1:
            return r.choice([lo, hi])
        if u < 0.2 and extra:
            return min(max(r.choice(list(extra)), lo), hi)
        if u < 0.35 and self.literals:
            v = abs(r.choice(self.literals)) * r.choice([1, 1, 1, 1 + 1e-9, 1 - 1e-9, 1.5, -1 if lo < 0 else 1])
            if lo <= v <= hi:
                return float(v)
        if log:
            return math.exp(r.uniform(math.log(lo), math.log(hi)))
        return r.uniform(lo, hi)

    def _hint(self, name, lo, hi):
        h = self.hints.get(name)
        if h is not None and not isinstance(h, list) and lo <= float(h) <= hi:
            return float(h)

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, log=None, extra=(), isint=False):
        if lo is None:
            lo = (0.01 if pos else 0.0 if nonneg else -5.0)
        if hi is None:
            hi = 100.0 if pos or nonneg else 5.0
        if log is None:
            log = pos and lo > 0

        def f():
            h = self._hint(name, lo, hi)
            v = h if h is not None else self._value(lo, hi, log, extra)
            return int(round(v)) if isint else v

        return self._draw(name, f)

    def num(self, name, lo=None, hi=None, pos=False, nonneg=False, isint=False, whole=True, **k):
        """A Python number handed to naima; now and then an int"""
        v = [self.real(name, lo=lo, hi=hi, pos=pos, nonneg=nonneg, isint=isint, **k)]
        if not whole or not self._whole(name, v, -5 if lo is None else lo, 100 if hi is None else hi, pos):
            return v[0]
        self.inputs[name] = v[0]
        return int(v[0])

    def _whole(self, name, v, lo, hi, pos=False, sorted=False):
        """Whether the numbers (which are replaced by whole ones, then) are given as ints"""
        if name + "!int" in self.given or name in self.given or name in self.hints:
            return bool(self.given.get(name + "!int"))
        w = [float(round(x)) for x in v if abs(x) < 2**50]
        if len(w) != len(v) or not all(lo <= x <= hi and (x > 0 or not pos) for x in w) or sorted and any(x >= y for x, y in zip(w, w[1:])):
            return False
        if not self._draw(name + "!int", lambda: self.rng.random() < 0.1):
            return False
        v[:] = w
        return True

    def size(self, name, min=1, max=9):
        def f():
            h = self._hint(name, min, max)
            return int(h) if h is not None else self.rng.randint(min, max)

        return int(self._draw(name, f))

    def array(self, name, n, lo=None, hi=None, pos=False, nonneg=False, log=None, sorted=False, extra=(), at0=None, whole=True):
        if lo is None:
            lo = (0.01 if pos else 0.0 if nonneg else -5.0)
        if hi is None:
            hi = 100.0 if pos or nonneg else 5.0
        if log is None:
            log = pos and lo > 0

        def f():
            v = [self._value(lo, hi, log, extra) for _ in range(int(n))]
            h = self.hints.get(name)
            if isinstance(h, list) and h:
                for k, x in enumerate(h[: len(v)]):
                    if lo <= float(x) <= hi:
                        v[k] = float(x)
                self.rng.shuffle(v)
            if sorted:
                v = rnp.sort(v)
                for k in range(1, len(v)):
                    if v[k] <= v[k - 1]:
                        v[k] = v[k - 1] * (1 + 1e-3) + (1e-3 if v[k - 1] <= 0 else 0)
                v = [float(x) for x in v]
            return v

        v = list(self._draw(name, f))
        if whole and self._whole(name, v, lo, hi, pos, sorted):
            self.inputs[name] = v
            return rnp.array(v, dtype=int)
        return rnp.array(v, dtype=float)

    def array_of(self, xs):
        """An array with these numbers"""
        return rnp.array(xs)

    def matrix(self, name, n, m, **k):
        """A two dimensional array"""
        return self.array(name, int(n) * int(m), **k).reshape(int(n), int(m))

    def boolarray(self, name, n):
        return rnp.array(self._draw(name, lambda: [self.rng.random() < 0.4 for _ in range(int(n))]), dtype=bool)

    def unit(self, name, ptype):
        us = UNITS[ptype] if isinstance(ptype, str) else ptype
        k = self._draw(name, lambda: self.rng.randrange(len(us)))
        return ru.Unit(us[int(k)])

    def u(self, s):
        return ru.Unit(s)

    def Q(self, v, unit):
        return ru.Quantity(v, unit)

    def quantity(self, name, ptype, lo=None, hi=None, ref=None, pos=True, **k):
        """A scalar quantity with any unit; lo, hi in the unit ref"""
        un = self.unit(name + ".unit", ptype)
        v = self.real(name, lo=lo, hi=hi, pos=pos, **k)
        return ru.Quantity(v, ref or un).to(un)

    def qarray(self, name, ptype, n, lo=None, hi=None, ref=None, pos=True, **k):
        un = self.unit(name + ".unit", ptype)
        v = self.array(name, n, lo=lo, hi=hi, pos=pos, **k)
        return ru.Quantity(v, ref or un).to(un)

    def table(self, cols, plain=False):
        """An astropy QTable (or a Table, whose columns carry their units)"""
        from astropy.table import QTable, Table

        r = (Table if plain else QTable)()
        for n, v in cols.items():
            r[n] = v
        return r

    def fn_of(self, module, name):
        """A function of a module of naima"""
        import importlib

        return getattr(importlib.import_module("naima." + module), name)

    def order(self, x):
        """The permutation that sorts an array"""
        v = rnp.asarray(getattr(x, "value", x))
        if len(set(v.tolist())) != len(v):
            raise Skip()
        return [int(k) for k in rnp.argsort(v)]

    def labels(self, name, n, values):
        """An array with these values, each of them at least once"""
        v = self._draw(name, lambda: [self.rng.choice(list(values)) for _ in range(int(n))])
        if set(v) != set(values):
            raise Skip()
        return rnp.array(v)

    def integers(self, name, n, lo=0, hi=3):
        """An array of integers (sampled between the limits)"""
        return rnp.array(self._draw(name, lambda: [self.rng.choice([lo, self.rng.randint(lo, hi)]) for _ in range(int(n))]), dtype=int)

    def flags(self, name, n):
        """An array of the integers 0 and 1"""
        return rnp.array(self.boolarray(name, n), dtype=int)

    def concat(self, qs):
        """Quantities one after the other, in the unit of the first"""
        return ru.Quantity(rnp.concatenate([q.to_value(qs[0].unit) for q in qs]), qs[0].unit)

    def assume(self, b):
        if not b:
            raise Skip()

    # ---- views
    def V(self, x, unit=None):
        """Raw value of a scalar"""
        if unit is not None:
            return rnp.float64(x.to_value(unit) if hasattr(x, "to_value") else ru.Quantity(x).to_value(unit))
        if isinstance(x, ru.Quantity):
            x = x.to_value("")
        a = rnp.asarray(x)
        return bool(a) if a.dtype == bool else rnp.float64(a.reshape(()) if a.size == 1 else a)

    def At(self, x, i, unit=None):
        """Raw element"""
        i = i if isinstance(i, tuple) else (i,)
        if isinstance(x, ru.Quantity):
            x = x.to_value(unit if unit is not None else "")
        v = rnp.asarray(x)[i]
        return bool(v) if v.dtype == bool else rnp.float64(v)

    def each(self, x):
        a = rnp.asarray(getattr(x, "value", x))
        idx = list(rnp.ndindex(a.shape))
        if len(idx) > 40:
            idx = self.rng.sample(idx, 40)
        return idx

    def indices(self, n):
        return [(k,) for k in range(int(n))]

    def n(self, x):
        return len(x)

    def length(self, x):
        return len(x)

    def const(self, name):
        return rnp.float64(
            {
                "c": rc.c.si.value,
                "m_e": rc.m_e.si.value,
                "m_p": rc.m_p.si.value,
                "hbar": rc.hbar.si.value,
                "alpha": rc.alpha.value,
                "sigma_sb": rc.sigma_sb.si.value,
                "e_esu": rc.e.gauss.value,
            }[name]
        )

    def scale(self, unit):
        """SI value of a unit"""
        return rnp.float64(ru.Unit(unit).decompose().scale)

    def fn(self, name, pos=False, lo=0.1, hi=10.0):
        """An arbitrary function of one number (a random smooth one)"""
        a = [self.real("%s.%d" % (name, k), lo=-1, hi=1) for k in range(3)]

        def f(x):
            x = rnp.asarray(x, dtype=float)
            z = rnp.log(rnp.abs(x) + 1e-300)
            v = 1.3 + a[0] * rnp.sin(z + a[1]) + 0.1 * a[2]
            return v if pos else v - 1

        return f

    # ---- obligations
    def _rec(self, name, ok, detail):
        self.n += 1
        if not ok:
            self.failures.append((name, detail))

    def ensure_eq(self, name, lhs, rhs, rtol=None, atol=0.0):
        rtol = self.rtol if rtol is None else rtol
        if isinstance(lhs, (bool, rnp.bool_)) or isinstance(rhs, (bool, rnp.bool_)):
            return self._rec(name, bool(lhs) == bool(rhs), "%r != %r" % (lhs, rhs))
        a, b = float(lhs), float(rhs)
        if a == b:
            ok = True
        elif math.isnan(a) and math.isnan(b):
            ok = True
        elif not (math.isfinite(a) and math.isfinite(b)):
            ok = False
            # results outside of the range of floating point are not judged
            if (math.isinf(a) and abs(b) > 1e290) or (math.isinf(b) and abs(a) > 1e290):
                ok = True
        else:
            ok = abs(a - b) <= rtol * max(abs(a), abs(b)) + atol
            if max(abs(a), abs(b)) < 1e-290:
                ok = True
        if ok and a != 0:
            self.nontrivial += 1
        self._rec(name, ok, "got %r, contract says %r" % (a, b))

    def ensure(self, name, b):
        self.nontrivial += 1
        self._rec(name, bool(b), "false")

    lemma = ensure

    def instance(self, name, stmt, *args, real=(), by=None):
        self.ensure(name, stmt(*args))

    def ensure_unit(self, name, q, unit):
        ok = isinstance(q, ru.Quantity) and q.unit.is_equivalent(ru.Unit(unit))
        self._rec(name, ok, "unit of %r is not %s" % (getattr(q, "unit", type(q)), unit))

    def ensure_shape(self, name, x, y):
        self._rec(name, rnp.shape(x) == rnp.shape(y), "shape %r, %r" % (rnp.shape(x), rnp.shape(y)))

    def ensure_raises(self, name, exc, f):
        try:
            v = f()
        except exc:
            return self._rec(name, True, "")
        except Exception as e:
            return self._rec(name, False, "raised %s: %s" % (type(e).__name__, e))
        self._rec(name, False, "no exception; returned %.200r" % (v,))

    def ensure_is(self, name, ok, detail=""):
        self._rec(name, bool(ok), detail)


# ------------------------------------------------------------------ symbolic
class SMath:
    """Mathematics of the specifications, on terms"""

    def __init__(self, ex):
        from . import terms as t

        self.t, self.ex = t, ex
        self.pi, self.inf = t.PI, t.INF

    def c(self, x):
        return self.t.const(x)

    def exp(self, x):
        return self.t.exp(self.c(x))

    def log(self, x):
        return self.t.log(self.c(x))

    def log10(self, x):
        return self.t.log10(self.c(x))

    def sqrt(self, x):
        return self.t.sqrt(self.c(x))

    def cbrt(self, x):
        from fractions import Fraction

        return self.t.power(self.c(x), self.c(Fraction(1, 3)))

    def cos(self, x):
        return self.t.fun("cos", self.c(x))

    def sin(self, x):
        return self.t.fun("sin", self.c(x))

    def abs(self, x):
        return self.t.absv(self.c(x))

    def pow(self, a, b):
        return self.t.power(self.c(a), self.c(b))

    def q(self, a, b=1):
        from fractions import Fraction

        return self.c(Fraction(repr(a)) / Fraction(repr(b)))

    def ite(self, c, a, b):
        if isinstance(c, bool):
            c = self.t.boolc(c)
        if c.k == "true":
            return a() if callable(a) else self.c(a)
        if c.k == "false":
            return b() if callable(b) else self.c(b)
        a = a() if callable(a) else a
        b = b() if callable(b) else b
        return self.t.ite(c, self.c(a), self.c(b))

    def sum(self, n, f):
        return self.t.bsum(self.c(n), f)

    def tll(self, n, x, y):
        return self.t.bind("tll", self.c(n), lambda i: [self.c(y(i)), self.c(x(i))])

    def trunc(self, x):
        from .sym import _trunc

        return _trunc(self.c(x))

    def quad(self, f, a, b, **k):
        return self.ex.integral(lambda x: self.c(f(x)), self.c(a), self.c(b))

    def eq(self, a, b):
        return self.t.eq(self.c(a), self.c(b))

    def lt(self, a, b):
        return self.t.lt(self.c(a), self.c(b))

    def le(self, a, b):
        return self.t.le(self.c(a), self.c(b))

    def and_(self, *a):
        return self.t.conj(a)

    def or_(self, *a):
        return self.t.disj(a)

    def not_(self, a):
        return self.t.bnot(a)

    def min(self, a, b):
        return self.t.ite(self.t.lt(self.c(a), self.c(b)), a, b)

    def max(self, a, b):
        return self.t.ite(self.t.lt(self.c(a), self.c(b)), b, a)


class Symbolic:
    symbolic = True
    concrete = False

    def __init__(self, pkg, ex):
        from . import loader, sym, terms, units

        self.pkg, self.ex = pkg, ex
        self.t, self.s, self.un = terms, sym, units
        self.naima = _Lazy(pkg)
        self.M = SMath(ex)
        self.arrays = {}

    # ---- inputs
    def choice(self, name, xs):
        """Every alternative is explored"""
        xs = list(xs)
        for k in range(len(xs) - 1):
            if self.ex.decide(self.t.bsym("%s=%d" % (name, k))):
                return xs[k]
        return xs[-1]

    forall = choice

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, log=None, extra=(), isint=False):
        return self.t.sym(name, pos=pos, nonneg=nonneg, isint=isint)

    def num(self, name, **k):
        return self.s.num(self.real(name, **k), "i" if k.get("isint") else None)

    def size(self, name, min=1, max=9):
        n = self.t.sym(name, pos=min >= 1, nonneg=True, isint=True)
        if min > 1:
            self.ex.add(self.t.le(self.t.const(min), n))
        return self.s.num(n, "i")

    def array(self, name, n, lo=None, hi=None, pos=False, nonneg=False, log=None, sorted=False, extra=(), at0=None, whole=True):
        t, s = self.t, self.s
        f = lambda i: t.app(name, (i,), pos=pos, nonneg=nonneg)
        nn = s._t(n)
        if sorted:
            ax = getattr(self.ex, "axioms", [])

            def ordered(idx, bases, f=f, nn=nn):
                if len(idx) == 1 and (bases[0] is nn or bases[0] is t.add(nn, t.MINUS1)):
                    i = idx[0]
                    return [t.lt(f(i), f(t.add(i, t.ONE)))]
                return []

            self.ex.axioms = ax + [ordered]
        return s.SArr(s.Node((s.axis_of_len(nn),), f, "f"))

    def array_of(self, xs):
        return self.s.as_arr(list(xs))

    def matrix(self, name, n, m, pos=False, nonneg=False, **k):
        t, s = self.t, self.s
        f = lambda i, j: t.app(name, (i, j), pos=pos, nonneg=nonneg)
        return s.SArr(s.Node((s.axis_of_len(s._t(n)), s.axis_of_len(s._t(m))), f, "f"))

    def boolarray(self, name, n):
        t, s = self.t, self.s
        return s.SArr(s.Node((s.axis_of_len(s._t(n)),), lambda i: t.bapp(name, (i,)), "b"))

    def unit(self, name, ptype):
        us = UNITS[ptype] if isinstance(ptype, str) else ptype
        base = self.un.as_unit(us[0])
        return self.un.SUnit(base.dims, self.t.sym(name, pos=True), name)

    def u(self, s):
        return self.un.as_unit(s)

    def Q(self, v, unit):
        if isinstance(v, self.t.T):
            v = self.s.num(v)
        return self.s.SymQ(v, unit)

    def quantity(self, name, ptype, lo=None, hi=None, ref=None, pos=True, **k):
        un = self.unit(name + ".unit", ptype)
        return self.s.SymQ(self.s.num(self.real(name, pos=pos, **k)), un)

    def qarray(self, name, ptype, n, lo=None, hi=None, ref=None, pos=True, **k):
        un = self.unit(name + ".unit", ptype)
        return self.s.SymQ(self.array(name, n, pos=pos, **k), un)

    def table(self, cols, plain=False):
        from .table import QTable, Table

        return (Table if plain else QTable)(cols)

    def fn_of(self, module, name):
        """A function of a module of naima"""
        return getattr(self.pkg.load("naima." + module), name)

    def order(self, x):
        v = x.val if isinstance(x, self.s.SymQ) else x
        r = self.ex.argsort(self.s.SArr(v.node))
        return _Order(r)

    def labels(self, name, n, values):
        t, s = self.t, self.s
        values = list(values)

        def f(i):
            r = t.const(values[-1])
            for k in range(len(values) - 2, -1, -1):
                r = t.ite(t.bapp("%s=%d" % (name, k), (i,)), t.const(values[k]), r)
            return r

        a = s.SArr(s.Node((s.axis_of_len(s._t(n)),), f, "i"))
        a.values_of = values
        return a

    def integers(self, name, n, lo=0, hi=3):
        s = self.s
        return s.SArr(s.Node((s.axis_of_len(s._t(n)),), lambda i: self.t.app(name, (i,), isint=True), "i"))

    def flags(self, name, n):
        s = self.s
        return s.SArr(s.Node((s.axis_of_len(s._t(n)),), lambda i: self.t.ite(self.t.bapp(name, (i,)), self.t.ONE, self.t.ZERO), "i"))

    def concat(self, qs):
        from .table import _concat

        r = qs[0]
        for q in qs[1:]:
            a, n = r.val.axes[0].length, q.val.axes[0].length
            r = self.s.SymQ._mk(_concat(r.val, q.to(r.unit).val, a, self.s.axis_of_len(self.t.add(a, n))), r.unit)
        return r

    def loops(self, *specs):
        """The invariants of loops (see loops.py)"""
        self.ex.specs = list(specs)

    def assume(self, b):
        if isinstance(b, bool):
            b = self.t.boolc(b)
        from .explore import Dead
        from . import solver

        self.ex.add(b)
        if solver.check(self.ex.relevant(b) , 500) == "unsat":
            raise Dead()

    def facts(self, i, n):
        """What is known of every index of an axis, at this one"""
        for f in self.ex.instantiate((i,), (self.s._t(n),)):
            self.assume(f)

    # ---- views
    def V(self, x, unit=None):
        s = self.s
        if isinstance(x, s.SymQ):
            x = x.to(unit).val if unit is not None else x.to_dimensionless()
        elif unit is not None:
            x = s.SymQ(x).to(unit).val
        return s.as_arr(x).scalar()

    def At(self, x, i, unit=None):
        s = self.s
        i = i if isinstance(i, tuple) else (i,)
        if isinstance(x, s.SymQ):
            x = x.to(unit).val if unit is not None else x.to_dimensionless()
        return s.as_arr(x).at(*i)

    def each(self, x):
        t = self.t
        axes = x.axes if hasattr(x, "axes") else self.s.as_arr(x).axes
        out = []
        for ax in axes:
            if ax.const is not None and ax.mask is None and ax.const == 1:
                out.append(t.ZERO)
                continue
            idx = [t.fresh("at", nonneg=True, isint=True) for _ in ax.bases]
            for i, n in zip(idx, ax.bases):
                self.ex.add(t.lt(i, n))
            m = ax.mask_at(idx)
            if m.k != "true":
                self.ex.add(m)
            for f in self.ex.instantiate(tuple(idx), ax.bases):
                self.ex.add(f)
            self.ex.used.append((tuple(idx), ax.bases))
            out += idx
        return [tuple(out)]

    def indices(self, n):
        t = self.t
        i = t.fresh("at", nonneg=True, isint=True)
        self.ex.add(t.lt(i, self.s._t(n)))
        for f in self.ex.instantiate((i,), (self.s._t(n),)):
            self.ex.add(f)
        self.ex.used.append(((i,), (self.s._t(n),)))
        return [(i,)]

    def length(self, x):
        return x.axes[0].length

    def const(self, name):
        k = {"c": "c0", "alpha": "alpha_fs"}.get(name, name)
        return self.t.sym(k, pos=True)

    def scale(self, unit):
        return self.un.as_unit(unit).scale

    def fn(self, name, pos=False, lo=0, hi=0):
        t, s = self.t, self.s

        def f(x):
            if isinstance(x, t.T):
                return t.app(name, (x,), pos=pos)
            return s.unop(lambda a: t.app(name, (a,), pos=pos), s.as_arr(x))

        return f

    # ---- obligations
    def ensure_eq(self, name, lhs, rhs, rtol=None, atol=0):
        t = self.t
        if isinstance(lhs, bool):
            lhs = t.boolc(lhs)
        if isinstance(rhs, bool):
            rhs = t.boolc(rhs)
        self.ex.ensure_eq(name, lhs, rhs)

    def ensure(self, name, b):
        if isinstance(b, bool):
            b = self.t.boolc(b)
        self.ex.ensure(name, b)

    def lemma(self, name, b):
        """An obligation that is used as a fact once it has been generated"""
        self.ensure(name, b)
        self.ex.add(self.t.boolc(b) if isinstance(b, bool) else b)

    def instance(self, name, stmt, *args, real=(), by=None):
        """A lemma about any positive numbers (an obligation), used for these. The arguments
        whose positions are in real can be any number"""
        t = self.t
        pc, self.ex.pc = self.ex.pc, []
        any_ = [t.fresh("any", pos=k not in real) for k in range(len(args))]
        if by:
            by(*any_)
        self.ensure(name + " (lemma)", stmt(*any_))
        self.ex.pc = pc
        for k, a in enumerate(args):
            if k not in real:
                self.ensure(name + " (positive)", t.lt(t.ZERO, t.const(a)))
        self.ex.add(stmt(*args))

    def ensure_unit(self, name, q, unit):
        ok = isinstance(q, self.s.SymQ) and q.unit.dims == self.un.as_unit(unit).dims
        self.ex.ensure_fact(name, ok, "unit of the result: %r" % (getattr(q, "unit", None),))

    def ensure_shape(self, name, x, y):
        ax, ay = x.axes, y.axes
        ok = len(ax) == len(ay) and all(a.key == b.key for a, b in zip(ax, ay))
        self.ex.ensure_fact(name, ok, "shape of the result: %r, %r" % ([a.length for a in ax], [a.length for a in ay]))

    def ensure_raises(self, name, exc, f):
        try:
            f()
        except exc:
            return self.ex.ensure_fact(name, True)
        except Exception as e:
            return self.ex.ensure_fact(name, False, "raised %s: %s" % (type(e).__name__, e))
        self.ex.ensure_fact(name, False, "no exception")

    def ensure_is(self, name, ok, detail=""):
        self.ex.ensure_fact(name, bool(ok), detail)


class _Order:
    def __init__(self, r):
        self.r = r

    def __getitem__(self, i):
        return self.r.at(i)


class _Lazy:
    def __init__(self, pkg, name="naima"):
        self._p, self._n = pkg, name

    def __getattr__(self, n):
        if n.startswith("_") and n != "_validate_ene":
            raise AttributeError(n)
        full = self._n + "." + n
        try:
            return self._p.load(full) if n not in ("extern",) else _Lazy(self._p, full)
        except ImportError:
            # names that naima re-exports
            for mod in ("models", "utils", "core", "analysis", "radiative", "model_fitter"):
                try:
                    m = self._p.load("naima." + mod)
                except ImportError:
                    continue
                if n in m.__dict__:
                    return m.__dict__[n]
            raise AttributeError(n)
