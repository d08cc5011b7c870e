"""Inputs shared by the contracts"""
import types


def particles(c, name="pd", unit="1/eV", lo=0.5, hi=3.5, ref="TeV"):
    """An arbitrary particle distribution: any positive function of the energy.
    Returns (callable for naima, value in 1/ref as a function of the value in ref)"""
    f = c.fn(name, pos=True)
    un = c.u(unit)
    if c.symbolic:
        g = f
    else:
        p = c.real(name + ".index", lo=lo, hi=hi)
        k = c.real(name + ".magnitude", lo=-30, hi=70)
        g = lambda x: f(x) * x ** -p * 10**k

    def pd(e):
        return c.Q(g(e.to(ref).value), "1/" + ref).to(un)

    return pd, g


def tll_stub(pkg):
    """trapz_loglog by its contract (P03): the sum over the intervals, homogeneous in both
    arguments; written as a binder over the samples"""
    from pyvc import sym, terms as t

    def make(original):
        def trapz_loglog(y, x, axis=-1, intervals=False):
            if intervals:
                return original(y, x, axis=axis, intervals=True)
            return sym.tll(y, x, axis)

        return trapz_loglog

    pkg.stubs["trapz_loglog"] = ("naima.utils", "trapz_loglog", make)


TLL = "calls of trapz_loglog are checked against its contract (property P03), not its body"


def _elementwise(label, where, name, unit=None, static=False, pos=False, flag=None):
    """Stub: the method is an arbitrary function, applied to each element of its broadcast
    arguments (what its own contract in another property says, without the value)"""
    module, attr = where

    def stub(pkg):
        from pyvc import sym, terms as t

        def make(original):
            def value(args, extra=""):
                arrs, units = [], ()
                for a in args:
                    if isinstance(a, sym.SymQ):
                        a = a.to(unit[0]).val if unit else a.val
                    arrs.append(sym.as_arr(a))
                axes, maps = sym.bcast(*[a.axes for a in arrs])
                nodes = [a.node for a in arrs]
                fn = lambda *i: t.app(name + extra, tuple(sym._num(n.at(m(i))) for n, m in zip(nodes, maps)), pos=pos)
                return sym.SArr(sym.Node(axes, fn, "f")) if axes else sym.num(fn())

            if static:
                return staticmethod(lambda *args: value(args))

            def method(self, *args):
                extra = "" if flag is None else " of " + "|".join(str(getattr(self, k, None)) for k in flag)
                return value(args, extra)

            return method

        pkg.stubs[label] = (module, attr, make)

    return stub


_rad = "naima.radiative"
pp_stub = _elementwise("pp", (_rad, "PionDecay._diffsigma"), "diffsigma")
PP = "in the contracts of whole spectra, PionDecay._diffsigma stands for an arbitrary function of the proton and photon energies (its value: property P12)"


pp_model_stub = _elementwise("pp", (_rad, "PionDecay._diffsigma"), "diffsigma", flag=("hiEmodel", "nuclear_enhancement"))


def lut_stub(pkg):
    """A lookup table by what it is: a function of the two energies, one for each file; all
    the files are there, or none"""
    from pyvc import sym, terms as t

    class Table:
        def __init__(self, filename):
            self.fname = filename

        def __call__(self, X, Y):
            x, y = sym.as_arr(X), sym.as_arr(Y).scalar()
            name = self.fname.split("/")[-1]
            return sym.SArr(sym.Node(x.axes, lambda *i: t.app("table " + name, (sym._num(x.node.at(i)), y)), "f"))

    def find(name):
        if pkg.files == "none":
            raise OSError("no such file")
        return "/" + name

    pkg.files = "all"
    pkg.stubs["LookupTable"] = (_rad, "LookupTable", lambda original: Table)
    pkg.stubs["get_pkg_data_filename"] = (_rad, "get_pkg_data_filename", lambda original: find)
    pkg.stubs["warn"] = (_rad, "warnings", lambda original: original)


LUT = "a lookup table is a function of the two energies that depends on the file only (its contents: contract files of property P12; scipy RectBivariateSpline)"


def ee_stub(pkg):
    """Bremsstrahlung cross sections: arbitrary functions of the two energies"""
    from pyvc import sym, terms as t, units

    def binary(name, a, b):
        a, b = sym.as_arr(a), sym.as_arr(b)
        axes, (ma, mb) = sym.bcast(a.axes, b.axes)
        an, bn = a.node, b.node
        return sym.SArr(sym.Node(axes, lambda *i: t.app(name, (an.at(ma(i)), bn.at(mb(i)))), "f"))

    def make_ee(original):
        def _sigma_ee(self, gam, Eph):
            mec2 = pkg.load(_rad).mec2
            return sym.SymQ._mk(binary("sigma_ee", gam, (Eph / mec2).decompose().value), units.as_unit("cm2/eV")).to(units.as_unit("cm2") / Eph.unit)

        return _sigma_ee

    def make_ep(original):
        def _sigma_ep(self, gam, eps):
            return sym.SymQ._mk(binary("sigma_ep", gam, eps), units.as_unit("cm2/eV"))

        return _sigma_ep

    pkg.stubs["ee"] = (_rad, "Bremsstrahlung._sigma_ee", make_ee)
    pkg.stubs["ep"] = (_rad, "Bremsstrahlung._sigma_ep", make_ep)


EE = "in the contracts of whole spectra, the Bremsstrahlung cross sections stand for arbitrary functions of the electron and photon energies (their values: property P11)"


def ic_stub(pkg):
    """Thermal inverse Compton kernels: arbitrary functions of the energies, temperature, angle"""
    from pyvc import sym, terms as t

    def kernel(name, gam, T, eph, extra=()):
        gam, eph, T = sym.as_arr(gam), sym.as_arr(eph), sym.as_arr(T)
        if gam.ndim != 1 or eph.ndim != 1 or T.axes:
            raise t.Unsupported("inverse Compton kernel called with other dimensions")
        ex = tuple(sym.as_arr(x).scalar() for x in extra)
        fn = lambda i, j: t.app(name, (gam.at(j), T.scalar(), eph.at(i)) + ex, nonneg=True)
        return sym.SArr(sym.Node((eph.axes[0], gam.axes[0]), fn, "f"))

    def iso(original):
        return staticmethod(lambda electron_energy, soft_photon_temperature, gamma_energy: kernel("ic_iso", electron_energy, soft_photon_temperature, gamma_energy))

    def ani(original):
        return staticmethod(
            lambda electron_energy, soft_photon_temperature, gamma_energy, theta: kernel(
                "ic_ani", electron_energy, soft_photon_temperature, gamma_energy, (theta,)
            )
        )

    pkg.stubs["iso"] = (_rad, "InverseCompton._iso_ic_on_planck", iso)
    pkg.stubs["ani"] = (_rad, "InverseCompton._ani_ic_on_planck", ani)


def line_stub(pkg):
    """Kernel of a single photon energy: an arbitrary function of the energies and density"""
    from pyvc import sym, terms as t

    def make(original):
        def mono(electron_energy, seed_energy, seed_edensity, gamma_energy):
            if seed_energy.val.axes[0].const != 1 or seed_edensity.val.axes[0].const != 1:
                raise t.Unsupported("table of photon densities")
            E = seed_energy.to("eV").val.at(t.ZERO)
            U = seed_edensity.to("eV/cm3").val.at(t.ZERO)
            gam, eph = sym.as_arr(electron_energy), sym.as_arr(gamma_energy)
            if gam.ndim != 1 or eph.ndim != 1:
                raise t.Unsupported("inverse Compton kernel called with other dimensions")
            fn = lambda i, j: t.app("ic_line", (gam.at(j), E, U, eph.at(i)), nonneg=True)
            return sym.SArr(sym.Node((eph.axes[0], gam.axes[0]), fn, "f"))

        return staticmethod(mono)

    pkg.stubs["line"] = (_rad, "InverseCompton._iso_ic_on_monochromatic", make)


IC = "in the contracts of whole spectra, the inverse Compton kernels stand for arbitrary functions of electron energy, temperature, photon energy and angle (their values: property P09)"


kel_sigma = _elementwise("kel_sigma", (_rad, "PionDecayKelner06._sigma_inel"), "kel_sigma")
kel_f = _elementwise("kel_f", (_rad, "PionDecayKelner06._Fgamma"), "kel_f")
KEL = "in the contracts of whole spectra, PionDecayKelner06._sigma_inel and _Fgamma stand for arbitrary functions (their values: property P13)"


def grid(c, lo, hi, per_decade):
    """The sampling of the energies: number of points, and point k"""
    M = c.M
    n = M.max(10, M.trunc(per_decade * M.log10(hi / lo)))
    return n, lambda k: lo * M.pow(hi / lo, k / (n - 1))


def mec2(c, unit="eV"):
    return c.const("m_e") * c.const("c") * c.const("c") / c.scale(unit)


def nonneg_integral(c, lo, hi, per, y, name="integrand is not negative"):
    """The log-log integral over the sampling of the energies from lo to hi.
    It is not negative where the integrand is not negative (contracts nonnegative and
    sampling of P03): their preconditions are obligations here, their postcondition is used"""
    n, x = grid(c, lo, hi, per)
    v = c.M.tll(n, x, y(x))
    if c.symbolic:
        c.ensure("lower limit is positive", c.M.lt(0, lo))
        c.ensure("lower limit is below the upper limit", c.M.lt(lo, hi))
        c.ensure("at least two samples", c.M.le(2, n))
        (k,) = c.indices(c.s.num(n, "i"))[0]
        c.ensure(name, c.M.le(0, y(x)(k)))
        c.ex.add(c.M.le(0, v))
    return v


def group_edges_stub(pkg):
    """Energy bins of a group: an arbitrary function of the energies of the group"""
    from pyvc import sym, terms as t, units

    def make(original):
        def single(ene):
            if not isinstance(ene, sym.SymQ) or len(ene.val.axes) != 1:
                raise t.Unsupported("energies of a group")
            v = ene.to("TeV").val
            ax = v.axes[0]

            def nest(k, idx):
                if k == ax.n:
                    m = ax.mask_at(idx)
                    return [t.ite(m, t.ONE, t.ZERO), t.ite(m, v.at(*idx), t.ZERO)]
                return [t.bind("arr", ax.bases[k], lambda i: nest(k + 1, idx + [i]))]

            A = nest(0, [])[0]
            two = sym.Axis((t.const(2),))
            fn = lambda s, *i: t.app("group_edge", (A, s) + i)
            return sym.SymQ._mk(sym.SArr(sym.Node((two, ax), fn, "f")), units.as_unit("TeV")).to(ene.unit)

        return single

    pkg.stubs["edges"] = ("naima.utils", "_generate_energy_edges_single", make)


EDGES = "in the contract of groups, the bins of one group stand for an arbitrary function of the energies of that group (their values: the contracts of a single group)"


def table_edges_stub(pkg):
    """generate_energy_edges: an arbitrary function of the energies and groups"""
    from pyvc import sym, terms as t, units

    def make(original):
        def edges(ene, groups=None):
            if not isinstance(ene, sym.SymQ) or len(ene.val.axes) != 1:
                raise t.Unsupported("energies")
            A = sym._arrterm(ene.to("TeV").val)
            G = t.ZERO if groups is None else sym._arrterm(sym.as_arr(groups))
            two = sym.Axis((t.const(2),))
            fn = lambda s, i: t.app("table_edge", (A, G, s, i))
            return sym.SymQ._mk(sym.SArr(sym.Node((two, ene.val.axes[0]), fn, "f")), units.as_unit("TeV")).to(ene.unit)

        return edges

    pkg.stubs["table_edges"] = ("naima.utils", "generate_energy_edges", make)


TABLE_EDGES = "in the contract of generated bins, generate_energy_edges stands for an arbitrary function of the energies and groups (its value: property P16)"


class library:
    """A module that functions import while they run, with some of its names replaced"""

    def __init__(self, c, module, **names):
        self.c, self.module, self.names = c, module, names

    def __enter__(self):
        if self.c.symbolic:
            ns = types.SimpleNamespace(**self.names)
            if self.module.split(".")[-1] not in self.names:
                setattr(ns, self.module.split(".")[-1], ns)  # import a.b as c
            self.c.pkg.extra[self.module] = ns
        else:
            import importlib

            self.m = importlib.import_module(self.module)
            self.old = dict(vars(self.m))
            for k, v in self.names.items():
                setattr(self.m, k, v)
        return self

    def __exit__(self, *a):
        if not self.c.symbolic:
            for k in self.names:
                if k in self.old:
                    setattr(self.m, k, self.old[k])
                else:
                    delattr(self.m, k)


def bound(fn, a, k):
    """The arguments of a call of fn, by name, with their defaults"""
    import inspect

    b = inspect.signature(fn).bind(*a, **k)
    b.apply_defaults()
    return dict(b.arguments)


class patched:
    """Names of a module (the plots, if no other is given) that stand for something else in a contract"""

    def __init__(self, c, module="plot", **names):
        self.c, self.module, self.names = c, module, names

    def __enter__(self):
        c = self.c
        getattr(c.naima, self.module).np  # loads it
        self.m = c.pkg.mods["naima." + self.module].__dict__ if c.symbolic else getattr(c.naima, self.module).__dict__
        self.old = {k: self.m[k] for k in self.names}
        self.m.update(self.names)

    def __exit__(self, *a):
        self.m.update(self.old)
