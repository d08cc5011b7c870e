"""P28: the interactive fitter"""
import types

from pyvc.report import Property
from . import P24
from .common import bound, library, patched
from .P27 import Axes, FORMS, SED, DIFF

P = Property("P28")
_f = "naima.model_fitter.InteractiveModelFitter."
GUI = "matplotlib draws what it is given; its sliders hold their initial value, moved into their range, and afterwards the value last set, and call back when it changes; its buttons call back when they are used (axes, figure and widgets are stand-ins)"
CALLEES = "in these contracts validate_data_table (P15), lnprobmodel (P17), _prefit (P19) and _plot_data_to_ax (P27) stand for their own contracts"
LABELS = [("log10(norm)", "index"), ("norm", "alpha"), ("log10(cutoff)", "B"), ("amplitude", "log(amplitude)")]


class Line:
    def __init__(self, x, y):
        self.x, self.y = x, y

    def set_ydata(self, y):
        self.y = y


class Plot(Axes):
    def loglog(self, x, y, **k):
        self.curve = Line(x, y)
        return [self.curve]

    def text(self, *a, **k):
        self.said = Text()
        return self.said


class Text:
    text = None

    def set_text(self, s):
        self.text = s


class Slider:
    def __init__(self, ax, label, valmin, valmax, valinit=0.5, valfmt=None, **k):
        self.ax, self.label, self.valmin, self.valmax = ax, label, valmin, valmax
        self.calls = []
        self.val = valmin if valinit <= valmin else valmax if valinit >= valmax else valinit

    def on_changed(self, f):
        self.calls.append(f)

    def set_val(self, v):
        self.val = v
        for f in self.calls:
            f(v)


class Button:
    def __init__(self, ax, label=None, actives=None, **k):
        self.label, self.actives, self.calls = label, actives, []

    def on_clicked(self, f):
        self.calls.append(f)

    def click(self):
        for f in self.calls:
            f("click")


def drawn(v):
    """The numbers that are drawn"""
    return getattr(v, "value", v)


class Fitter:
    """The fitter of a model that returns any values, and what it does with them"""

    def __init__(self, c, forms=None, ranges=True, nodata=True, labels=True, wrap=True):
        self.c = c
        M = c.M
        self.has = c.forall("data", [True, False]) if nodata else True
        form, mform = c.forall("forms", forms or [("differential flux", "differential flux"), ("energy flux", "differential flux"), ("differential power", "power")])
        self.form, self.mform = form, mform
        self.sed = c.forall("sed", [True, False])
        self.wrap = c.forall("what the model returns", ["values", "tuple", "list"]) if wrap else "values"
        self.auto = c.forall("automatic updates", [True, False])
        self.names = c.forall("labels", LABELS) if labels else ("log10(norm)", "log10(cutoff)")
        self.given = c.forall("labels given", ["all", "one", "none", "array"]) if labels else "all"
        self.rng = c.forall("range given", [False, True]) if ranges else False
        self.n = n = c.size("n", min=2, max=4)
        self.points = c.size("points", min=2, max=5) if self.rng or not self.has else None
        self.data = None
        if self.has:
            self.data = c.table({"energy": c.qarray("energy", "energy", n, lo=1, hi=100, ref="TeV", log=True), "flux": c.qarray("flux", form, n, lo=1, hi=10, ref=FORMS[form]), "energy_error_lo": c.qarray("elo", "energy", n, lo=0.1, hi=0.9, ref="TeV"), "energy_error_hi": c.qarray("ehi", "energy", n, lo=0.1, hi=9, ref="TeV")})
        self.p0 = [c.num("p0", lo=-4, hi=4), c.num("p1", lo=-4, hi=9)]
        self.models, self.probs, self.drawn, self.valid, self.fits = [], [], [], [], []
        self.unit = c.unit("model", mform)
        self.widgets, self.axes, self.shown = [], [], 0
        self.table = object() if self.has else None
        self.best = None

    def model(self, pars, data):
        c = self.c
        e = data["energy"]
        y = c.Q(c.array("model%d" % len(self.models), e.shape[0], lo=0.5, hi=2, pos=True), self.unit)
        self.models.append((list(pars), data, y))
        return {"values": y, "tuple": (y, "other"), "list": [y, "other"]}[self.wrap]

    def make(self):
        c = self.c
        mod = c.naima.model_fitter
        real = {k: getattr(mod, k) for k in ("validate_data_table", "lnprobmodel", "_prefit", "_plot_data_to_ax")}

        def validate(*a, **k):
            self.valid.append(bound(real["validate_data_table"], a, k))
            return self.data

        def prob(*a, **k):
            k = bound(real["lnprobmodel"], a, k)
            v = -10.25 * (1 + len(self.probs))
            self.probs.append((k["model"], k["data"], "%.1f" % v))
            return v if len(self.probs) % 2 else c.Q(v if c.concrete else c.s._t(v), c.u(""))

        def prefit(*a, **k):
            self.fits.append(bound(real["_prefit"], a, k))
            return self.best

        def draw(*a, **k):
            self.drawn.append(bound(real["_plot_data_to_ax"], a, k))

        def grid(*a, **k):
            self.axes.append(Plot())
            return self.axes[-1]

        def widget(kind):
            def make(*a, **k):
                w = kind(*a, **k)
                self.widgets.append(w)
                return w

            return make

        def show(*a, **k):
            self.shown += 1

        from .P27 import Figure

        fig = Figure()
        fig.canvas = types.SimpleNamespace(draw_idle=lambda: None)
        self.figure = fig
        closed = self.closed = []
        kw = {}
        if self.rng:
            # the two ends in the same unit or not
            self.range = c.qarray("range", "energy", 2, lo=1, hi=10, ref="TeV", sorted=True)
            kw["e_range"] = self.range
        if self.points is not None:
            kw["e_npoints"] = self.points
        if self.given != "none":
            self.labels = list(self.names[:1] if self.given == "one" else self.names)
            if self.given == "array":
                self.labels = tuple(self.labels[:1])
            kw["labels"] = self.labels
        before = list(self.labels) if self.given != "none" else None
        self.context = [
            patched(c, "model_fitter", validate_data_table=validate, lnprobmodel=prob, _prefit=prefit, _plot_data_to_ax=draw),
            library(c, "matplotlib.pyplot", figure=lambda *a, **k: fig, subplot2grid=grid, show=show, close=lambda *a: closed.extend(a)),
            library(c, "matplotlib.widgets", Slider=widget(Slider), Button=widget(Button), CheckButtons=widget(Button)),
        ]
        for x in self.context:
            x.__enter__()
        p0 = list(self.p0)
        self.imf = mod.InteractiveModelFitter(self.model, p0, data=self.table, sed=self.sed, auto_update=self.auto, **kw)
        c.ensure_is("the inputs stay", len(p0) == 2 and (before is None or list(self.labels) == before))
        for a, b in zip(p0, self.p0):
            c.ensure_eq("the parameters given stay", c.V(a), c.V(b))
        self.sliders = [w for w in self.widgets if isinstance(w, Slider)]
        self.buttons = {w.label: w for w in self.widgets if isinstance(w, Button)}
        self.check = [w for w in self.widgets if isinstance(w, Button) and w.actives is not None]
        return self

    def done(self):
        for x in reversed(self.context):
            x.__exit__()

    def ensure_pars(self, pars, name="parameters"):
        c = self.c
        c.ensure_is("as many parameters", len(self.imf.pars) == len(pars))
        for i, v in enumerate(pars):
            c.ensure_eq(name, c.V(self.imf.pars[i]), c.V(v))

    def ensure_shown(self, pars):
        """The curve and the likelihood are those of the model of these parameters"""
        c = self.c
        ax = self.axes[0]
        line = ax.curve
        e = self.energies
        # the model that is drawn is one computed for these parameters at the energies of the curve
        used = [m for m in self.models if m[1] is self.imf.data_for_model or (self.has and not self.rng)]
        p, data, y = used[-1]
        for a, b in zip(p, pars):
            c.ensure_eq("parameters of the model", c.V(a), c.V(b))
        c.ensure_shape("as many values as energies", line.y, e)
        form = (SED if self.sed else DIFF)[self.mform]
        k = c.scale("TeV") / c.scale("erg")
        for i in c.each(e):
            E = c.At(e, i, "TeV")
            m = c.At(y, i, FORMS[self.mform])
            if form != self.mform:
                m = m * E * E * k if self.sed else m / (E * E * k)
            c.ensure_eq("energies of the model", c.At(data["energy"], i, "TeV"), E)
            c.ensure_eq("energies of the curve", c.At(drawn(line.x), i), c.At(e, i, self.eu))
            c.ensure_eq("curve", c.At(drawn(line.y), i), m)
        if self.has:
            m, d, txt = self.probs[-1]
            c.ensure_is("likelihood of the data", d is self.data)
            p, data, y = self.models[-1]
            c.ensure_is("likelihood of the model shown", m is y)
            for a, b in zip(p, pars):
                c.ensure_eq("parameters of the model of the likelihood", c.V(a), c.V(b))
            c.ensure_eq("model at the energies of the data", c.length(y), c.length(self.data["energy"]))
            for i in c.each(self.data["energy"]):
                if c.symbolic and self.rng:
                    # energies of the curve that are found to be those of the data
                    for n in (self.n, self.points):
                        c.facts(i[0], n)
                c.ensure_eq("model at the energies of the data", c.At(data["energy"], i, "TeV"), c.At(self.data["energy"], i, "TeV"))
            c.ensure_is("likelihood shown", txt in ax.said.text)
        else:
            c.ensure_is("no likelihood without data", not self.probs)

    @property
    def energies(self):
        c = self.c
        if self.has and not self.rng:
            return self.data["energy"]
        e = self.imf.data_for_model["energy"]
        if self.rng:
            lo, hi = c.At(self.range, 0, "TeV"), c.At(self.range, 1, "TeV")
        else:
            lo, hi = c.M.q(1e-4), c.M.q(100)
        c.ensure_eq("first energy", c.At(e, 0, "TeV"), lo)
        n = int(self.points) if c.concrete else c.s._t(self.points)
        # from the first to the last, n - 1 equal steps of the logarithm
        for i in c.each(e):
            c.ensure_eq("energies", c.At(e, i, "TeV"), lo * (hi / lo) ** (i[0] / (n - 1)))
        c.ensure_eq("number of energies", c.length(e), n)
        return e

    @property
    def eu(self):
        if self.has:
            return self.data["energy"].unit
        return self.range.unit if self.rng else self.c.u("TeV")


@P.contract(_f + "__init__", "naima.model_fitter._process_model", samples=150, max_paths=20000, assumes=[GUI, CALLEES])
def start(c):
    """What is shown first are the model and likelihood of the parameters given"""
    f = Fitter(c, labels=False).make()
    try:
        f.ensure_pars(f.p0)
        f.ensure_shown(f.p0)
        c.ensure_is("not a maximum yet", not f.imf.P0_IS_ML)
        if f.has:
            c.ensure_is("the data are validated in the form shown", len(f.valid) == 1 and f.valid[0]["data_table"] is f.table and f.valid[0]["sed"] is f.sed)
            c.ensure_is("the data are drawn", len(f.drawn) == 1 and f.drawn[0]["data_all"] is f.data and f.drawn[0]["ax1"] is f.axes[0] and f.drawn[0]["sed"] is f.sed)
            c.ensure_eq("unit of the data drawn", c.scale(f.drawn[0]["e_unit"]), c.scale(f.eu))
        else:
            c.ensure_is("no data", not f.drawn and not f.valid)
        c.ensure_is("the window is shown", f.shown == 1)
        c.ensure_is("a fit is offered with data only", any("fit" in b.lower() for b in f.buttons if isinstance(b, str)) is bool(f.has))
        c.ensure_is("the state of the box", list(f.check[0].actives) == [f.auto] and f.imf.autoupdate is f.auto)
    finally:
        f.done()


@P.contract(_f + "__init__", samples=100, max_paths=20000, assumes=[GUI, CALLEES])
def sliders(c):
    """There is one slider for each parameter, with its name and its value"""
    f = Fitter(c, forms=[("differential flux", "differential flux")], ranges=False, wrap=False).make()
    try:
        c.ensure_is("one slider for each parameter", len(f.sliders) == 2)
        want = list(f.names) if f.given == "all" else list(f.names[:1]) + ["par1"] if f.given in ("one", "array") else ["par0", "par1"]
        c.ensure_is("names of the parameters", [s.label for s in f.sliders] == want)
        for s, v in zip(f.sliders, f.p0):
            c.ensure_eq("a slider starts at the parameter", c.V(s.val), c.V(v))
        f.ensure_pars(f.p0)
    finally:
        f.done()


@P.contract("naima.core.get_sampler", samples=100, max_paths=4000, assumes=["naima.model_fitter.InteractiveModelFitter stands for its own contracts (above)", "emcee samples the function it is given"])
def run(c):
    """A run that is set up with the window starts at the parameters left in it, and fits them only if they are not a maximum already"""
    window = c.forall("left at a maximum", [True, False])
    prefit = c.forall("prefit", [None, "converged", "failed"])
    P24.setup(c, 2, c.forall("labels", [["index", "amp"], ["index"], None]), c.forall("guess", [True, False]), prefit, c.forall("burn-in", [0, 2]), walkers=c.size("walkers", min=2, max=40), window=window)


SCRIPTS = [
    ("slide 0", "update"),
    ("toggle", "slide 1", "toggle", "slide 0"),
    ("slide 0", "slide 1", "update", "slide 0"),
    ("fit",),
    ("fit", "slide 0", "update"),
    ("fit", "update"),
    ("slide 1", "fit", "slide 0"),
    ("toggle", "fit", "slide 1", "update"),
    ("bad fit",),
    ("slide 0", "bad fit", "update"),
    ("fit", "bad fit"),
    ("bad fit", "fit"),
    ("fit", "fit"),
    ("fit", "close"),
]


@P.contract(_f + "update", _f + "update_if_auto", _f + "update_autoupdate", _f + "do_fit", _f + "close_fig", samples=150, max_paths=20000, assumes=[GUI, CALLEES])
def history(c):
    """Whatever is done in the window: the parameters are those of what is shown, and they are a maximum only if nothing was changed since it was found"""
    script = c.forall("what is done", SCRIPTS)
    f = Fitter(c, forms=[("energy flux", "differential flux")], nodata=not any("fit" in s for s in script), labels=False, wrap=script == ("fit", "update")).make()
    imf = f.imf
    try:
        button = {k: [b for b in f.widgets if isinstance(b, Button) and b.actives is None and k in b.label.lower()] for k in ("update", "fit", "close")}
        pars = shown = values = list(f.p0)
        auto, best, fits = f.auto, False, 0
        for n, s in enumerate(script):
            if s.startswith("slide"):
                k = int(s[-1])
                v = c.num("value%d" % n, lo=-3, hi=3)
                values = [v if i == k else x for i, x in enumerate(values)]
                f.sliders[k].set_val(v)
                if auto:
                    pars = shown = values
                    best = False
            elif s == "toggle":
                f.check[0].click()
                auto = not auto
            elif s == "update":
                button["update"][0].click()
                pars = shown = values
                best = False
            elif s == "close":
                button["close"][0].click()
                c.ensure_is("the window is closed", len(f.closed) == 1 and f.closed[0] is f.figure)
            else:
                new = [c.num("fit%d.%d" % (n, i), lo=-3, hi=3) for i in range(2)]
                best = s == "fit"
                f.best = (list(new), best)
                button["fit"][0].click()
                a = f.fits[fits]
                fits += 1
                for x, y in zip(a["p0"], values):
                    c.ensure_eq("the fit starts where the sliders are", c.V(x), c.V(y))
                c.ensure_is("fit of the model to the data", a["model"] == f.model and a["data"] is f.data)
                pars = new
                if best:
                    shown = values = new
            f.ensure_pars(pars)
            f.ensure_shown(shown)
            for x, v in zip(f.sliders, values):
                c.ensure_eq("values of the sliders", c.V(x.val), c.V(v))
            c.ensure_is("a maximum", bool(imf.P0_IS_ML) is best)
            c.ensure_is("automatic updates", bool(imf.autoupdate) is auto)
            c.ensure_is("fits", len(f.fits) == fits)
    finally:
        f.done()
