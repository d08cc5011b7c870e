"""P27: plots of data and residuals"""
import types

from pyvc.report import Property
from .common import bound, patched

P = Property("P27")
_p = "naima.plot."
FORMS = {"differential flux": "1/(cm2 s TeV)", "energy flux": "erg/(cm2 s)", "differential power": "1/(s TeV)", "power": "erg/s"}
SED = {"differential flux": "energy flux", "energy flux": "energy flux", "differential power": "power", "power": "power"}
DIFF = {"differential flux": "differential flux", "energy flux": "differential flux", "differential power": "differential power", "power": "differential power"}
GROUPS = [None, (0,), (0, 1), (2, 5)]
AXES = "matplotlib draws what it is given (the axes are a stand-in that records it)"


class Axes:
    """What is drawn, in order"""

    def __init__(self, label=""):
        self.bars, self.label, self.limits, self.ylimits = [], label, [], []
        self.yaxis = self
        self.scales = []
        self.autoscaled = self.lines = 0
        self.texts, self.titles = [], []

    def errorbar(self, x, y, yerr=None, xerr=None, **k):
        self.bars.append((x, y, yerr, xerr, k))

    def set_xlim(self, left=None, right=None):
        self.limits.append((left, right))

    def set_ylim(self, bottom=None, top=None):
        self.ylimits.append((bottom, top))

    def set_xscale(self, s):
        self.scales.append(("x", s))

    def set_yscale(self, s):
        self.scales.append(("y", s))

    def set_ylabel(self, s, **k):
        pass

    def set_xlabel(self, s, **k):
        self.label = s

    def get_xlabel(self):
        return self.label

    def axhline(self, *a, **k):
        self.lines += 1

    def set_major_locator(self, *a, **k):
        pass

    def autoscale(self, *a, **k):
        self.autoscaled += 1

    def axis(self):
        return 1.0, 100.0, 0.0, 1e-30

    @property
    def transAxes(self):
        return None

    def get_xticklabels(self):
        return []

    def text(self, *a, **k):
        self.texts.append(a)

    def set_title(self, s, **k):
        self.titles.append(s)


class Data:
    """A validated table and its rows"""

    def __init__(self, c, groups="", forms=FORMS, limits=True, n=None):
        self.c = c
        self.form = c.forall("form", list(forms))
        self.groups = c.forall("groups", GROUPS)
        ref = FORMS[self.form]
        few = len(self.groups or (0,))
        self.n = n = c.size("n", min=few, max=5)
        e = c.qarray("energy", "energy", n, lo=1, hi=100, ref="TeV", log=True)
        f = lambda name, lo: c.qarray(name, self.form, n, lo=lo, hi=3, ref=ref)
        self.cols = d = {
            "energy": e,
            "flux": f("flux", 0.5),
            "flux_error_lo": f("lo", 0.1),
            "flux_error_hi": f("hi", 0.1),
            "energy_error_lo": c.qarray("elo", "energy", n, lo=0.01, hi=0.9, ref="TeV"),
            "energy_error_hi": c.qarray("ehi", "energy", n, lo=0.01, hi=0.9, ref="TeV"),
        }
        d["ul"] = c.boolarray("ul", n)
        if self.groups is not None:
            d["group"] = c.labels("group", n, self.groups)
        self.table = c.table(d)

    def rows(self, g, limits):
        """The columns of the rows of a group, upper limits or detections"""
        d = self.cols
        sel = d["ul"] if limits else ~d["ul"]
        if self.groups is not None:
            sel = sel & (d["group"] == g)
        return {k: v[sel] for k, v in d.items()}

    def form_of(self, sed):
        return (SED if sed else DIFF)[self.form]

    def value(self, v, e, sed):
        """A value of a row (in the reference unit of the form of the data) in the form drawn"""
        out = self.form_of(sed)
        if out == self.form:
            return v
        k = self.c.scale("TeV") / self.c.scale("erg")
        return v * e * e * k if sed else v / (e * e * k)


def same_table(c, D):
    """The table is left as it was given"""
    for name, v in D.cols.items():
        for i in c.each(v):
            w = D.table[name]
            unit = getattr(v, "unit", None)
            if unit is None:
                c.ensure_eq("table stays: " + name, c.At(w, i), c.At(v, i))
            else:
                c.ensure_eq("table stays: " + name, c.At(w, i, unit), c.At(v, i, unit))


def drawn(c, D, ax, eu, sed, name="", colors=True):
    """The bars drawn are those of the rows"""
    M = c.M
    ref, bars, used = FORMS[D.form], list(ax.bars), []
    for g in D.groups or (0,):
        r = D.rows(g, False)
        x, y, yerr, xerr, k = bars.pop(0)
        used.append(k.get("color"))
        c.ensure_is("points are not limits", not k.get("uplims"))
        c.ensure_shape("as many points as detections", x, r["energy"])
        c.ensure_shape("as many values as detections", y, r["energy"])
        for i in c.each(r["energy"]):
            e, f = c.At(r["energy"], i, "TeV"), c.At(r["flux"], i, ref)
            lo, hi = c.At(r["flux_error_lo"], i, ref), c.At(r["flux_error_hi"], i, ref)
            c.ensure_eq("energies", c.At(x, i), c.At(r["energy"], i, eu))
            c.ensure_eq("fluxes", c.At(y, i), D.value(f, e, sed))
            c.ensure_eq("width below", c.At(xerr[0], i), c.At(r["energy_error_lo"], i, eu))
            c.ensure_eq("width above", c.At(xerr[1], i), c.At(r["energy_error_hi"], i, eu))
            lo = M.ite(M.lt(lo, f), lambda: lo, lambda: f * (1 - M.q(1e-7)))
            c.ensure_eq("error below", c.At(yerr[0], i), D.value(lo, e, sed), rtol=1e-6)
            c.ensure_eq("error above", c.At(yerr[1], i), D.value(hi, e, sed))
        r = D.rows(g, True)
        if bars and bars[0][4].get("color") == used[-1] and len(bars) >= 2 and bars[1][4].get("uplims"):
            (x, y, yerr, xerr, k), (x2, y2, yerr2, xerr2, k2) = bars.pop(0), bars.pop(0)
            c.ensure_shape("as many limits", x, r["energy"])
            c.ensure_shape("as many arrows", x2, r["energy"])
            c.ensure_is("only the arrows are limits", yerr is None and xerr2 is None and not k.get("uplims") and k2["color"] == used[-1])
            for i in c.each(r["energy"]):
                e, f = c.At(r["energy"], i, "TeV"), c.At(r["flux"], i, ref)
                f = D.value(f, e, sed)
                for a, b in ((x, y), (x2, y2)):
                    c.ensure_eq("energy of a limit", c.At(a, i), c.At(r["energy"], i, eu))
                    c.ensure_eq("flux of a limit", c.At(b, i), f)
                c.ensure_eq("length of the arrow", c.At(yerr2, i), f / 4)
                c.ensure_eq("width of a limit below", c.At(xerr[0], i), c.At(r["energy_error_lo"], i, eu))
                c.ensure_eq("width of a limit above", c.At(xerr[1], i), c.At(r["energy_error_hi"], i, eu))
        else:
            for i in c.each(D.cols["ul"]):
                limit = c.At(D.cols["ul"], i)
                if D.groups is not None:
                    limit = M.and_(limit, M.eq(c.At(D.cols["group"], i), g))
                c.ensure("no limit is left out", M.not_(limit))
    c.ensure_is("nothing else is drawn", not bars)
    c.ensure_is("groups have their own colours", len(set(used)) == len(used))


@P.contract(_p + "_plot_data_to_ax", _p + "_plot_ulims", "naima.utils.sed_conversion", samples=200, assumes=[AXES])
def points(c):
    """Every detection is a point with its errors, every upper limit an arrow, in the unit and form asked for"""
    D = Data(c)
    sed = c.forall("sed", [True, False])
    eu = c.unit("plot energies", "energy")
    ax = Axes()
    c.naima.plot._plot_data_to_ax(D.table, ax, e_unit=eu, sed=sed)
    drawn(c, D, ax, eu, sed)
    c.ensure_is("logarithmic axes", set(ax.scales) == {("x", "log"), ("y", "log")})
    same_table(c, D)


@P.contract(_p + "_plot_data_to_ax", _p + "_plot_ulims", samples=100, assumes=[AXES])
def options(c):
    """Options of one plot are used in it, and in no other"""
    D = Data(c, groups=(0,), forms=["differential flux"])
    opts, limits = {"elinewidth": 9, "marker": "x"}, c.forall("options of limits", [None, {"capsize": 7}, {"height_fraction": 0.5}])
    given, dicts = (dict(opts), dict(limits or {})), {}
    if limits is not None:
        dicts["ulim_opts"] = limits
    TeV = c.u("TeV")
    ax = Axes()
    c.naima.plot._plot_data_to_ax(D.table, ax, e_unit=TeV, errorbar_opts=opts, **dicts)
    c.ensure_is("the options of the caller stay", (opts, limits or {}) == given)
    for x, y, yerr, xerr, k in ax.bars:
        c.ensure_is("options given", k["elinewidth"] == 9)
        if k.get("uplims"):
            c.ensure_is("width of the arrow", k["capsize"] == given[1].get("capsize", 5))
            for i in c.each(y):
                c.ensure_eq("length of the arrow", c.At(yerr, i), c.At(y, i) * c.M.q(given[1].get("height_fraction", 0.25)))
        elif yerr is not None:
            c.ensure_is("options given", k["marker"] == "x")
    ax = Axes()
    c.naima.plot._plot_data_to_ax(D.table, ax, e_unit=TeV)
    c.ensure_is("the next plot has the defaults", all(b[4]["elinewidth"] == 2 and b[4].get("marker") != "x" for b in ax.bars))
    c.ensure_is("the next plot has the defaults", all(b[4]["capsize"] == 5 for b in ax.bars if b[4].get("uplims")))


@P.contract(_p + "_plot_residuals_to_ax", "naima.utils.sed_conversion", samples=200, assumes=[AXES])
def residuals(c):
    """Residuals: the data minus the model at the energy of the data, in units of the mean error"""
    D = Data(c)
    M, n, ref = c.M, D.n, FORMS[D.form]
    sed = c.forall("sed", [True, False])
    eu = c.unit("plot energies", "energy")
    mform = c.forall("form of the model", [f for f in FORMS if SED[f] == SED[D.form]])
    y = c.qarray("model", mform, n, lo=0.5, hi=2, ref=FORMS[mform])
    e = D.cols["energy"]
    # the model is given at the energies of the data, in any unit
    x = e.to(c.unit("model energies", "energy"))
    ax = Axes()
    if c.symbolic:
        c.pkg.extra["matplotlib.ticker"] = types.SimpleNamespace(MaxNLocator=lambda *a, **k: None)
    c.naima.plot._plot_residuals_to_ax(D.table, (x, y), ax, e_unit=eu, sed=sed)
    c.ensure_is("one set of points for each group, one line", len(ax.bars) == len(D.groups or (0,)) and ax.lines == 1)
    D.cols["model"] = y
    k = c.scale("TeV") / c.scale("erg")
    for g, (px, py, yerr, xerr, o) in zip(D.groups or (0,), ax.bars):
        r = D.rows(g, False)
        c.ensure_shape("as many residuals as detections", px, r["energy"])
        c.ensure_shape("as many residuals as detections", py, r["energy"])
        for i in c.each(r["energy"]):
            e = c.At(r["energy"], i, "TeV")
            m = c.At(r["model"], i, FORMS[mform])
            if mform != D.form:
                m = m * e * e * k if SED[mform] != mform else m / (e * e * k)
            err = (c.At(r["flux_error_lo"], i, ref) + c.At(r["flux_error_hi"], i, ref)) / 2
            f = c.At(r["flux"], i, ref)
            c.ensure_eq("energies", c.At(px, i), c.At(r["energy"], i, eu))
            c.ensure_eq("residual", c.At(py, i), (f - m) / err, rtol=1e-6, atol=1e-6 * float((f + m) / err) if c.concrete else 0)
            c.ensure_eq("error of one", c.At(yerr, i), 1)
            c.ensure_eq("width below", c.At(xerr[0], i), c.At(r["energy_error_lo"], i, eu))
            c.ensure_eq("width above", c.At(xerr[1], i), c.At(r["energy_error_hi"], i, eu))
    del D.cols["model"]
    same_table(c, D)


@P.contract(_p + "_plot_residuals_to_ax", samples=200, assumes=[AXES, "scipy's interp1d is linear interpolation, equal for equal points"])
def other_energies(c):
    """The model is interpolated to the energies of the data where it has others"""
    D = Data(c, forms=["differential flux", "power"])
    M, n, ref = c.M, D.n, FORMS[D.form]
    sed = c.forall("sed", [True, False])
    eu = c.unit("plot energies", "energy")
    more = c.forall("more energies", [1, 0, 7])
    x = c.qarray("x", "energy", n + more, lo=1, hi=100, ref="TeV", log=True)
    y = c.qarray("model", D.form, n + more, lo=0.5, hi=2, ref=ref)
    ax = Axes()
    if c.symbolic:
        c.pkg.extra["matplotlib.ticker"] = types.SimpleNamespace(MaxNLocator=lambda *a, **k: None)
        if more == 0:
            # one energy, at least, is another one
            (k,) = c.indices(n)[0]
            a, b = c.At(D.cols["energy"], k, "TeV"), c.At(x, k, "TeV")
            c.assume(M.lt(b * M.q(1.00001), a))
    else:
        import numpy

        a, b = D.cols["energy"].to_value("TeV"), x.to_value("TeV")
        c.assume(len(set(b)) == len(b) and (more or numpy.any(abs(a - b) > 2e-5 * b)))
    c.naima.plot._plot_residuals_to_ax(D.table, (x, y), ax, e_unit=eu, sed=sed)
    if c.symbolic and more == 0:
        c.facts(k, n)
    c.ensure_is("one set of points for each group, one line", len(ax.bars) == len(D.groups or (0,)) and ax.lines == 1)
    out = D.form_of(sed)
    v = y if out == D.form else y * x**2 if sed else y / x**2
    v = v.to(c.u(FORMS[out]))
    if c.symbolic:
        from pyvc.loader import _Interp1d

        f = _Interp1d(x.to(eu).val, v.val, bounds_error=False)
    else:
        p = numpy.argsort(x.value)
        f = lambda e: numpy.interp(e, x.to_value(eu)[p], v.value[p], left=numpy.nan, right=numpy.nan)
    for g, (px, py, yerr, xerr, o) in zip(D.groups or (0,), ax.bars):
        r = D.rows(g, False)
        c.ensure_shape("as many residuals as detections", py, r["energy"])
        for i in c.each(r["energy"]):
            e = c.At(r["energy"], i, "TeV")
            err = D.value((c.At(r["flux_error_lo"], i, ref) + c.At(r["flux_error_hi"], i, ref)) / 2, e, sed)
            flux = D.value(c.At(r["flux"], i, ref), e, sed)
            at = c.At(r["energy"], i, eu)
            m = c.At(f(c.s.num(at)), ()) if c.symbolic else f(at)
            c.ensure_eq("residual", c.At(py, i), (flux - m) / err, rtol=1e-6, atol=1e-6 * float((flux + m) / err) if c.concrete else 0)
            c.ensure_eq("error of one", c.At(yerr, i), 1)


class Figure:
    def __init__(self, axes=()):
        self.axes = list(axes)

    def add_subplot(self, *a, **k):
        if a and isinstance(a[0], Axes):
            if a[0] not in self.axes:
                self.axes.append(a[0])
            return a[0]
        self.axes.append(Axes())
        return self.axes[-1]

    def subplots_adjust(self, *a, **k):
        pass

    def text(self, *a, **k):
        pass


LABELS = {"none": "", "TeV": r"$\mathrm{Energy}$ [$\mathrm{TeV}$]", "GeV": r"Energy [$\mathrm{GeV}$]", "keV": "Energy [keV]", "other": "Photon energies", "Hz": "Frequency [$\\mathrm{Hz}$]"}


@P.contract(_p + "plot_data", samples=150, assumes=["in this contract validate_data_table (P15) and _plot_data_to_ax (contract points) stand for their own contracts"])
def figures(c):
    """The data of the table or sampler given are drawn once, in the unit asked for, or else in that of the plot in the figure, or else in their own"""
    n = c.size("n", min=1, max=4)
    valid = c.table({"energy": c.qarray("energy", "energy", n, lo=1, hi=10, ref="TeV"), "flux": c.qarray("flux", "differential flux", n, lo=1, hi=10)})
    what = c.forall("input", ["table", "sampler"])
    old = c.forall("figure", ["new"] + list(LABELS))
    unit = c.forall("unit", [None, "eV"])
    sed = c.forall("sed", [True, False])
    given = object()
    if what == "sampler":
        given = types.SimpleNamespace(data=valid)
    asked, got = [], []
    mod = c.naima.plot
    draw, validate = mod._plot_data_to_ax, mod.validate_data_table

    def validate_data_table(*a, **k):
        asked.append(bound(validate, a, k))
        if what != "table":
            raise TypeError("not a table")
        return valid

    def plot_data_to_ax(*a, **k):
        got.append(bound(draw, a, k))

    fig = Figure([] if old == "new" else [Axes(LABELS[old]), Axes("another")])
    kw = {"e_unit": c.u(unit)} if unit else {}
    opts, limits, name = {"ms": 3}, {"capsize": 1}, object()
    with patched(c, validate_data_table=validate_data_table, _plot_data_to_ax=plot_data_to_ax):
        r = c.naima.plot.plot_data(given, figure=fig, sed=sed, ylabel=name, errorbar_opts=opts, ulim_opts=limits, **kw)
    c.ensure_is("the table is validated", len(asked) == 1 and asked[0]["data_table"] is given)
    c.ensure_is("drawn once, in the figure given", r is fig and len(got) == 1)
    k = got[0]
    c.ensure_is("these data", k["data_all"] is valid)
    c.ensure_is("in the first axes", k["ax1"] is fig.axes[0] and len(fig.axes) == (1 if old == "new" else 2))
    c.ensure_is("in the form asked for", k["sed"] is sed and k["ylabel"] is name)
    c.ensure_is("with the options", k["errorbar_opts"] == {"ms": 3} and k["ulim_opts"] == {"capsize": 1})
    expected = c.u(unit) if unit else c.u(old) if old in ("TeV", "GeV", "keV") else valid["energy"].unit
    c.ensure_eq("unit of the energies", c.scale(k["e_unit"]), c.scale(expected))
    ax = fig.axes[0]
    if old in ("new", "none"):
        c.ensure_is("label of the energies", k["e_unit"].to_string("latex_inline") in ax.label)
    elif old != "other":
        c.ensure_is("the label stays", ax.label == LABELS[old])


@P.contract(_p + "plot_data", samples=20)
def no_data(c):
    """Anything else is refused"""
    bad = c.forall("input", [object(), 3, "abc"])
    c.ensure_raises("no data", (TypeError, AttributeError, ValueError, KeyError), lambda: c.naima.plot.plot_data(bad, figure=Figure()))


CURVES = ["samples", "bands", "best"]


@P.contract(_p + "plot_fit", "naima.utils.sed_conversion", samples=200, max_paths=4000, assumes=[AXES, "in this contract find_ML (P21), plot_CI, plot_samples, _plot_MLmodel (P26), _plot_data_to_ax and _plot_residuals_to_ax (contracts above) stand for their own contracts"])
def fit(c):
    """The model and data of the sampler are drawn together: samples, bands or the best model, with the data and residuals where they are comparable"""
    form, mform = c.forall("forms", [("differential flux", "differential flux"), ("power", "differential flux"), ("differential power", "power")])
    n = c.size("n", min=1, max=4)
    same = c.forall("same number of energies", [True, False])
    m = n if same else n + 2
    sed = c.forall("sed", [True, False])
    what = c.forall("curves", CURVES)
    wanted = c.forall("data wanted", [None, True, False])
    res = c.forall("residuals wanted", [None, True, False])
    unit, blobs, rng = c.forall("unit given, stored models, range given", [(False, True, False), (True, True, True), (True, False, False), (False, False, True)])
    q = lambda name, pt, n, **k: c.qarray(name, pt, n, **k)
    ee = dict(lo=1, hi=9.99, ref="TeV")
    data = c.table({"energy": q("energy", "energy", n, **ee), "flux": q("flux", form, n, lo=1, hi=10), "energy_error_lo": q("elo", "energy", n, lo=0.1, hi=0.9, ref="TeV"), "energy_error_hi": q("ehi", "energy", n, lo=0.1, hi=9, ref="TeV")})
    model = (q("model energy", "energy", m, **ee), q("model", mform, m, lo=1, hi=10, ref=FORMS[mform]))
    sp = types.SimpleNamespace(data=data, labels=["a", "norm"])
    if blobs:
        sp.blobs = object()
    calls, mod = [], c.naima.plot
    names = ["plot_CI", "plot_samples", "_plot_MLmodel", "_plot_data_to_ax", "_plot_residuals_to_ax", "plot_data"]

    def record(name, f):
        def g(*a, **k):
            calls.append((name, bound(f, a, k)))
            return "figure of the data"

        return g

    stand_ins = {k: record(k, getattr(mod, k)) for k in names}
    find, asked = mod.find_ML, []

    def find_ML(*a, **k):
        asked.append(bound(find, a, k))
        return -1.5, [1.0, 2.0], [0.1, 0.2], model

    stand_ins["find_ML"] = find_ML
    fig, more = Figure(), []

    def subplot2grid(*a, **k):
        more.append(Axes())
        return more[-1]

    kw = {}
    if unit:
        kw["e_unit"] = c.u("keV")
    if rng:
        kw["e_range"] = given = c.Q(c.array_of([1.0, 50.0]), "TeV")
    if wanted is not None:
        kw["plotdata"] = wanted
    if res is not None:
        kw["plotresiduals"] = res
    opts, limits, name, xname, title = {"ms": 3}, {"capsize": 1}, "y", "x", "title"
    curves = {"samples": {"n_samples": 7}, "bands": {"confs": [1, 3]}, "best": {"n_samples": None}}[what]
    with patched(c, **stand_ins), _pyplot(c, subplot2grid):
        r = mod.plot_fit(sp, 1, label=title, sed=sed, last_step=True, figure=fig, e_npoints=33, threads=2, xlabel=xname, ylabel=name, ulim_opts=limits, errorbar_opts=opts, **curves, **kw)
    c.ensure_is("best model of this sampler", len(asked) == 1 and asked[0]["sampler"] is sp and asked[0]["modelidx"] == 1)
    comparable = same and (SED[form] == SED[mform])
    show = comparable if wanted is None else wanted
    show_res = res if res is not None else show and what != "best"
    drawn = [k for k, a in calls]
    if what == "best" and show and not show_res:
        c.ensure_is("only the data", drawn == ["plot_data"] and r == "figure of the data")
        a = calls[0][1]
        c.ensure_is("data of the sampler", a["input_data"] is data and a["sed"] is sed and a["figure"] is fig and a["e_unit"] is kw.get("e_unit"))
        c.ensure_is("options", a["errorbar_opts"] == opts and a["ulim_opts"] == limits and a["xlabel"] == xname and a["ylabel"] == name)
        return
    c.ensure_is("figure given", r is fig)
    curve = {"samples": "plot_samples", "bands": "plot_CI", "best": "_plot_MLmodel"}[what]
    c.ensure_is("what is drawn", drawn == [curve] + ["_plot_data_to_ax"] * bool(show) + ["_plot_residuals_to_ax"] * bool(show and show_res))
    eu = c.u("keV") if unit else data["energy"].unit
    a = calls[0][1]
    ax = a["ax"]
    c.ensure_is("curve of this sampler", a["sampler"] is sp and a["modelidx"] == 1 and a["sed"] is sed and a["e_npoints"] == 33)
    c.ensure_eq("unit of the curve", c.scale(a["e_unit"]), c.scale(eu))
    if what != "best":
        c.ensure_is("samples asked for", a["last_step"] is True and a["threads"] == 2 and a["label"] == title)
    if what == "samples":
        c.ensure_is("number of samples", a["n_samples"] == 7)
    if what == "bands":
        c.ensure_is("levels", list(a["confs"]) == [1, 3])
    if rng:
        c.ensure_is("range asked for", a["e_range"] is given)
    elif blobs:
        c.ensure_is("stored models", a["e_range"] is None)
    else:
        # a range around the data
        c.ensure_eq("lowest energy", c.At(a["e_range"], 0, "TeV"), c.At(data["energy"], 0, "TeV") / 3)
        last = int(n) - 1 if c.concrete else c.t.add(c.s._t(n), c.t.MINUS1)
        c.ensure_eq("highest energy", c.At(a["e_range"], 1, "TeV"), c.At(data["energy"], last, "TeV") * 3)
    for k, a in calls[1:]:
        c.ensure_is("data of the sampler", a["data_all"] is data and a["sed"] is sed and a["errorbar_opts"] == opts)
        c.ensure_eq("unit of the points", c.scale(a["e_unit"]), c.scale(eu))
        if k == "_plot_data_to_ax":
            c.ensure_is("in the same axes", a["ax1"] is ax and a["ylabel"] == name and a["ulim_opts"] == limits)
        else:
            c.ensure_is("residuals of the best model", a["model_ML"] is model and a["ax"] is not ax)
    if show and c.concrete:
        lo, hi = ax.limits[0]
        for i in c.each(data["energy"]):
            e = c.At(data["energy"], i, eu)
            c.ensure("all data are in the range shown", lo <= e - c.At(data["energy_error_lo"], i, eu) and e + c.At(data["energy_error_hi"], i, eu) <= hi)
    c.ensure_is("title", ax.titles == [title])
    c.ensure_is("label of the energies", (calls[-1][1]["ax"] if show and show_res else ax).label == xname)


class _pyplot:
    """matplotlib.pyplot that makes axes of its own"""

    def __init__(self, c, subplot2grid):
        self.c, self.f = c, subplot2grid

    def __enter__(self):
        if self.c.symbolic:
            self.c.pkg.extra["matplotlib.pyplot"] = types.SimpleNamespace(pyplot=types.SimpleNamespace(subplot2grid=self.f))
        else:
            import matplotlib.pyplot as p

            self.p, self.old = p, p.subplot2grid
            p.subplot2grid = self.f

    def __exit__(self, *a):
        if not self.c.symbolic:
            self.p.subplot2grid = self.old


@P.contract(_p + "plot_blob", samples=30, assumes=["in this contract _process_blob (P26), plot_fit (contract above) and plot_distribution stand for themselves"])
def blob(c):
    """A blob of numbers is drawn as a distribution of its values, a blob of models as a fit of that blob"""
    number = c.forall("number", [True, False])
    label = c.forall("label", [None, "W"])
    step = c.forall("last step", [True, False])
    mod = c.naima.plot
    calls, x, y, sp, fig = [], object(), object(), object(), Figure()
    proc, dist, fit = mod._process_blob, mod.plot_distribution, mod.plot_fit

    def process(*a, **k):
        calls.append(("blob", bound(proc, a, k)))
        return (None if number else x), y

    def record(name, f):
        def g(*a, **k):
            calls.append((name, bound(f, a, k)))
            return name

        return g

    with patched(c, _process_blob=process, plot_distribution=record("distribution", dist), plot_fit=record("fit", fit)):
        r = mod.plot_blob(sp, 2, label=label, last_step=step, figure=fig, **({} if number else {"sed": False, "n_samples": 5}))
    c.ensure_is("blob asked for", calls[0][0] == "blob" and calls[0][1]["sampler"] is sp and calls[0][1]["modelidx"] == 2 and calls[0][1]["last_step"] is step)
    c.ensure_is("one plot", len(calls) == 2 and r == calls[1][0] == ("distribution" if number else "fit"))
    k = calls[1][1]
    c.ensure_is("label", k["label"] == label if label else bool(k["label"]))
    c.ensure_is("figure", k["figure"] is fig)
    if number:
        c.ensure_is("values of the blob", k["samples"] is y)
    else:
        c.ensure_is("fit of the blob", k["sampler"] is sp and k["modelidx"] == 2 and k["last_step"] is step and k["sed"] is False and k["n_samples"] == 5)
