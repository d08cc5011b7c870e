"""P29: summaries of the chain"""
import types

from pyvc.report import Property
from .chains import EMCEE, Sampler, last, tensor
from .common import bound, library, patched
from . import P27

P = Property("P29")
_p = "naima.plot."
SHOW = "matplotlib draws what it is given; gaussian_kde and the autocorrelation time are only shown (figure, axes and these functions are stand-ins)"


class Axes(P27.Axes):
    def __init__(self, c):
        super().__init__()
        self.c, self.curves, self.hists, self.vlines, self.spans = c, [], [], [], []
        self.xaxis = self

    def plot(self, *a, **k):
        self.curves.append((a, k))

    def hist(self, x, bins=None, **k):
        self.hists.append((x, bins, k))
        return self.c.array_of([1.0, 3.0]), self.c.array_of([1.0, 2.0, 3.0]), None

    def axvline(self, x, **k):
        self.vlines.append((x, k))

    def axvspan(self, a, b, **k):
        self.spans.append((a, b, k))

    def set_rasterization_zorder(self, z):
        pass

    def set_label_coords(self, *a):
        pass


class Figure:
    def __init__(self, c):
        self.c, self.axes, self.texts = c, [], []

    def add_subplot(self, *a, **k):
        self.axes.append(Axes(self.c))
        return self.axes[-1]

    def subplots_adjust(self, *a, **k):
        pass

    def text(self, x, y, s, **k):
        self.texts.append(s)


class Run:
    """Calls a function of the plots with everything that draws replaced, and keeps what it is given"""

    def __init__(self, c):
        self.c, self.figures, self.numbers, self.errors = c, [], [], []
        self.time = True
        mod = c.naima.plot
        real = {k: getattr(mod, k) for k in ("_latex_float", "_latex_value_error")}

        class AutocorrError(Exception):
            pass

        def time(chain):
            self.times = chain
            if self.time:
                return [7.5, 8.5, 9.5]
            raise AutocorrError

        def number(*a, **k):
            self.numbers.append(bound(real["_latex_float"], a, k)["f"])
            return "<number %d>" % (len(self.numbers) - 1)

        def error(*a, **k):
            k = bound(real["_latex_value_error"], a, k)
            self.errors.append((k["val"], k["elo"], k["ehi"]))
            return "<errors %d>" % (len(self.errors) - 1)

        def figure(*a, **k):
            self.figures.append(Figure(c))
            return self.figures[-1]

        self.context = [
            patched(c, _latex_float=number, _latex_value_error=error, autocorr=types.SimpleNamespace(integrated_time=time, AutocorrError=AutocorrError)),
            library(c, "matplotlib.pyplot", figure=figure),
            library(c, "scipy.stats", gaussian_kde=lambda x: lambda y: y),
        ]

    def __enter__(self):
        for x in self.context:
            x.__enter__()
        return self

    def __exit__(self, *a):
        for x in reversed(self.context):
            x.__exit__(*a)


def samples(c, sp, k, step):
    """The samples of a parameter: of all walkers and steps, or of the last step"""
    if c.concrete:
        v = sp.chain[-1:, :, k] if step else sp.chain[:, :, k]
        return v.reshape(-1)
    s, t, nd = c.s, c.t, sp.chain.node
    k = t.const(k)
    if step:
        return s.SArr(s.Node((sp.chain.axes[1],), lambda j: nd.at((last(c, sp.S), j, k)), "f"))
    return s.SArr(s.Node(sp.chain.axes[:2], lambda i, j: nd.at((i, j, k)), "f"))


def quantile(c, x, q):
    if c.concrete:
        import numpy as np

        return np.percentile(x, q)
    return c.t.app("quantile", (c.t.const(q), c.s._bagterm(x)))


def reported(c, x, run, k, text):
    """The text tells the quantiles of these samples"""
    q = {p: quantile(c, x, p) for p in (16, 50, 84)}
    val, lo, hi = run.errors[k]
    c.ensure_eq("median reported", c.V(val), q[50])
    c.ensure_eq("error below", c.V(lo), q[50] - q[16], rtol=1e-6, atol=1e-12)
    c.ensure_eq("error above", c.V(hi), q[84] - q[50], rtol=1e-6, atol=1e-12)
    c.ensure_is("the errors are shown", "<errors %d>" % k in text)


def band(c, ax, x):
    q = {p: quantile(c, x, p) for p in (16, 50, 84)}
    c.ensure_is("one median and one band", len(ax.vlines) == 1 and len(ax.spans) == 1)
    c.ensure_eq("median drawn", c.V(ax.vlines[0][0]), q[50])
    c.ensure_eq("lower end of the band", c.V(ax.spans[0][0]), q[16])
    c.ensure_eq("upper end of the band", c.V(ax.spans[0][1]), q[84])


def spread(c, x):
    """The standard deviation"""
    if c.concrete:
        import numpy as np

        return np.std(x)
    return c.V(c.s.np.std(x))


@P.contract(_p + "_plot_chain_func", _p + "plot_chain", samples=150, max_paths=3000, assumes=[SHOW, EMCEE])
def chain(c):
    """The plot of a parameter shows the samples of this parameter, their median and their band"""
    names = c.forall("labels", [("norm", "index"), ("log10(norm)", "log(cutoff)"), ("a_log", "log10(B)")])
    k = c.forall("parameter", [0, 1])
    step = c.forall("last step", [False, True])
    sp = Sampler(c, N=2, S=c.size("steps", min=1, max=4), W=c.size("walkers", min=2, max=70))
    sp.labels = list(names)
    with Run(c) as run:
        run.time = c.forall("autocorrelation time", [True, False])
        r = c.naima.plot.plot_chain(sp, k, last_step=step)
    c.ensure_is("one figure", len(run.figures) == 1 and r is run.figures[0])
    x = samples(c, sp, k, step)
    (text,) = r.texts
    hist = [a for a in r.axes if a.hists]
    c.ensure_is("one distribution", len(hist) == 1 and len(hist[0].hists) == 1)
    band(c, hist[0], x)
    reported(c, x, run, 0, text)
    c.ensure_is("numbers shown", len(run.numbers) == 2 and "<number 0>" in text and "<number 1>" in text and text.index("<number 0>") < text.index("<number 1>"))
    c.ensure_eq("median", c.V(run.numbers[0]), quantile(c, x, 50))
    c.ensure_eq("standard deviation", c.V(run.numbers[1]), spread(c, x), rtol=1e-6, atol=1e-12)
    c.ensure_is("name of the parameter", names[k] in text)
    kind = names[k].split("(")[0] if "(" in names[k] else ""
    c.ensure_is("the parameter, and what it is the logarithm of", len(run.errors) == (2 if kind else 1))
    if kind:
        y = 10**x if kind == "log10" else c.s.np.exp(x) if c.symbolic else __import__("numpy").exp(x)
        reported(c, y, run, 1, text)
    if run.time:
        c.ensure_is("autocorrelation time of the parameter", "%.1f" % (7.5 + k) in text)
        c.ensure_shape("autocorrelation time of the chain", run.times, sp.chain)
    c.ensure_is("labels stay", sp.labels == list(names))
    traces = [a for a in r.axes if a is not hist[0]]
    c.ensure_is("the traces have their own axes", len(traces) == 1 and not traces[0].hists)
    drawn = hist[0].hists[0][0]
    if c.concrete:
        import numpy as np

        W, S = int(sp.W), int(sp.S)
        c.ensure("the distribution is that of the samples", np.array_equal(np.sort(np.ravel(drawn)), np.sort(x)))
        got = sorted(list(map(float, a[-1])) for a, _ in traces[0].curves)
        c.ensure("every walker is drawn once, over all steps", got == sorted(sp.chain[:, j, k].tolist() for j in range(W)))
        c.ensure("sizes", "Walkers: %d " % W in text and "Steps in chain: %d " % S in text)
        c.ensure("mean acceptance", "%.3f" % np.mean(sp.acceptance_fraction) in text)
    else:
        c.ensure_is("the distribution is that of the samples", c.s._bagterm(drawn) is c.s._bagterm(x))


@P.contract(_p + "plot_chain", samples=20, assumes=[SHOW, EMCEE])
def chains(c):
    """Without a parameter, every parameter has its plot"""
    N = c.forall("parameters", [1, 2, 3])
    sp = Sampler(c, N=N)
    step = c.forall("last step", [None, True, False])
    calls = []
    real = c.naima.plot._plot_chain_func

    def one(*a, **k):
        calls.append(bound(real, a, k))

    with patched(c, _plot_chain_func=one):
        c.naima.plot.plot_chain(sp, **({} if step is None else {"last_step": step}))
    num = lambda p: int(c.V(p).const) if c.symbolic and not isinstance(p, int) else int(p)
    c.ensure_is("every parameter once", sorted(num(k["p"]) for k in calls) == list(range(N)))
    c.ensure_is("of this sampler, of the steps asked for", all(k["sampler"] is sp and bool(k["last_step"]) is bool(step) for k in calls))


@P.contract(_p + "plot_distribution", samples=150, assumes=[SHOW])
def distribution(c):
    """The plot of a distribution shows the samples, their median and their band, with their unit"""
    n = c.size("n", min=2, max=60)
    x = c.array("x", n, lo=-5, hi=5)
    unit = c.forall("unit", [None, "erg", "1/(cm2 s TeV)"])
    given = c.forall("figure", [True, False])
    v = c.Q(x, unit) if unit else x
    fig = Figure(c) if given else None
    with Run(c) as run:
        r = c.naima.plot.plot_distribution(v, "W", figure=fig)
    c.ensure_is("in the figure given", r is fig and not run.figures if given else run.figures == [r])
    (text,), (ax,) = r.texts, r.axes
    band(c, ax, x)
    reported(c, x, run, 0, text)
    c.ensure_is("one distribution", len(run.errors) == 1 and len(ax.hists) == 1)
    c.ensure_is("numbers shown", len(run.numbers) == 2 and "<number 0>" in text and "<number 1>" in text and text.index("<number 0>") < text.index("<number 1>"))
    c.ensure_eq("median", c.V(run.numbers[0]), quantile(c, x, 50))
    c.ensure_eq("standard deviation", c.V(run.numbers[1]), spread(c, x), rtol=1e-6, atol=1e-12)
    drawn = ax.hists[0][0]
    for i in c.each(x):
        c.ensure_eq("the distribution is that of the samples", c.At(drawn, i), c.At(x, i))
    c.ensure_is("name", "W" in text and "W" in ax.label)
    if unit:
        c.ensure_is("unit", str(c.u(unit)) in text and str(c.u(unit)) in ax.label)
    for i in c.each(x):
        c.ensure_eq("the samples stay", c.At(v, i, unit) if unit else c.At(v, i), c.At(x, i))


@P.contract(_p + "plot_corner", samples=60, assumes=["corner.corner draws what it is given (a stand-in)", "in this contract find_ML stands for its own contract (P21)", EMCEE])
def corners(c):
    """The corner plot is given all samples, the names, and the best parameters unless they are not wanted"""
    sp = Sampler(c, N=2)
    best = c.forall("best parameters shown", [None, True, False])
    opts = c.forall("options", [{}, {"bins": 7}, {"truth_color": "k", "labels": ["x", "y"]}])
    given = dict(opts)
    figure, params, calls, finds = object(), object(), [], []
    rc = {"lines.linewidth": 3.25}
    real = c.naima.plot.find_ML

    def find(*a, **k):
        finds.append(bound(real, a, k))
        return -1.0, params, [], []

    def corner(x, *a, **k):
        calls.append((x, a, k))
        return figure

    with patched(c, find_ML=find), library(c, "corner", corner=corner), library(c, "matplotlib.pyplot", rcParams=rc):
        r = c.naima.plot.plot_corner(sp, **({} if best is None else {"show_ML": best}), **opts)
    c.ensure_is("one plot", r is figure and len(calls) == 1 and not calls[0][1])
    x, _, k = calls[0]
    flat = sp.get_chain(flat=True)
    c.ensure_shape("all samples", x, flat)
    for i in c.each(flat):
        c.ensure_eq("all samples", c.At(x, i), c.At(flat, i))
    c.ensure_is("names", list(k["labels"]) == (opts.get("labels") or sp.labels))
    c.ensure_is("best parameters", k.get("truths") is (None if best is False else params))
    c.ensure_is("of this sampler", len(finds) == (0 if best is False else 1) and all(f["sampler"] is sp for f in finds))
    c.ensure_is("quantiles", list(k["quantiles"]) == [0.16, 0.5, 0.84])
    c.ensure_is("options", all(k[o] is v for o, v in given.items()) and opts == given)
    c.ensure_is("the settings of the caller stay", rc == {"lines.linewidth": 3.25} and sp.labels == ["p0", "p1"])


class Saved:
    """A figure that is saved"""

    def __init__(self, what, log):
        self.what, self.log = what, log

    def savefig(self, name, **k):
        self.log.append((self.what, name, k))

    def clf(self):
        pass


NAMES = [("norm", "index"), ("log10(norm)", "log(cutoff)", "B"), ("a",)]


@P.contract("naima.analysis.save_diagnostic_plots", samples=80, max_paths=6000, assumes=["in this contract plot_chain, plot_corner and plot_blob stand for their own contracts (above and P27)", "savefig writes the figure to the file it is given"])
def diagnostics(c):
    """One plot for each parameter, one of all of them, and one for each model asked for, in files of their own or pages of one"""
    names = c.forall("labels", NAMES)
    sp = Sampler(c, N=len(names), kinds=("array", "value", "array"))
    sp.labels = list(names)
    idx = c.forall("models", [None, [1], [2, 0]])
    pdf = c.forall("pdf", [False, True])
    sed = c.forall("sed", [True, False, "each"])
    step = c.forall("last step", [True, False])
    models = [0, 1, 2] if idx is None else list(idx)
    titles = c.forall("blob labels", [None, "one", "less", "all"])
    bad = c.forall("a plot that fails", [None, "chain", "blob"])
    seds = [k % 2 == 0 for k in models] if sed == "each" else [sed] * len(models)
    want = ["T%d" % k for k in models]
    given = None
    if titles == "one":
        given = "T" if len(models) == 1 else ["T"]
    elif titles == "less":
        given = want[:-1] or None
    elif titles == "all":
        given = want
    before = list(given) if isinstance(given, list) else given
    log, closed, pages = [], [], []
    rc = {"interactive": c.forall("interactive", [True, False])}
    inter = rc["interactive"]
    mod = c.naima.plot
    real = {k: getattr(mod, k) for k in ("plot_chain", "plot_corner", "plot_blob")}
    calls = []

    def num(p):
        return int(c.V(p).const) if c.symbolic and not isinstance(p, int) else int(p)

    def plot_chain(*a, **k):
        s = __import__("inspect").signature(real["plot_chain"])
        k = bound(real["plot_chain"], a, k)
        k.update(k.pop("kwargs", {}))
        calls.append(("chain", k, rc["interactive"]))
        if bad == "chain" and num(k["p"]) == 0:
            raise ValueError("no plot")
        return Saved(("chain", num(k["p"])), log)

    def plot_corner(*a, **k):
        calls.append(("corner", bound(real["plot_corner"], a, k), rc["interactive"]))
        return Saved(("corner",), log)

    def plot_blob(*a, **k):
        k = bound(real["plot_blob"], a, k)
        k.update(k.pop("kwargs", {}))
        calls.append(("blob", k, rc["interactive"]))
        if bad == "blob" and num(k["blobidx"]) == models[0]:
            raise ValueError("no plot")
        return Saved(("blob", num(k["blobidx"])), log)

    class Pages:
        def __init__(self, name, *a, **k):
            self.name, self.open = name, True
            pages.append(self)

        def close(self):
            self.open = False

    pyplot = types.SimpleNamespace(rcParams=rc, rc=lambda *a, **k: None, close=lambda f: closed.append(f))
    kw = {} if idx is None else {"modelidxs": idx}
    if given is not None:
        kw["blob_labels"] = given
    with patched(c, plot_chain=plot_chain, plot_corner=plot_corner, plot_blob=plot_blob), library(c, "matplotlib", pyplot=pyplot), library(c, "matplotlib.backends.backend_pdf", PdfPages=Pages):
        c.naima.analysis.save_diagnostic_plots("out", sp, pdf=pdf, sed=list(seds) if sed == "each" else sed, last_step=step, **kw)
    chains = [k for n, k, i in calls if n == "chain"]
    c.ensure_is("a plot for each parameter", [num(k["p"]) for k in chains] == list(range(len(names))))
    c.ensure_is("of the steps asked for", all(k["sampler"] is sp and k["last_step"] is step for k in chains))
    corner = [k for n, k, i in calls if n == "corner"]
    c.ensure_is("one plot of all parameters", len(corner) == 1 and corner[0]["sampler"] is sp and corner[0]["show_ML"] is True and not corner[0]["kwargs"])
    blobs = [k for n, k, i in calls if n == "blob"]
    c.ensure_is("a plot for each model asked for", [num(k["blobidx"]) for k in blobs] == models)
    c.ensure_is("in the form asked for", [k["sed"] for k in blobs] == seds)
    c.ensure_is("of the steps asked for", all(k["sampler"] is sp and k["last_step"] is step for k in blobs))
    if titles == "all":
        c.ensure_is("titles", [k["label"] for k in blobs] == want)
    elif titles == "less":
        c.ensure_is("titles", [k["label"] for k in blobs][:-1] == want[:-1])
    elif titles == "one":
        c.ensure_is("titles", blobs[0]["label"] == "T")
    c.ensure_is("every model has a title of its own", len({k["label"] for k in blobs}) == len(models) and all(k["label"] for k in blobs))
    c.ensure_is("not interactive meanwhile", not any(i for n, k, i in calls))
    done = [("chain", k) for k in range(len(names)) if not (bad == "chain" and k == 0)] + [("corner",)] + [("blob", k) for k in models if not (bad == "blob" and k == models[0])]
    c.ensure_is("each plot is saved once", [x[0] for x in log] == done)
    c.ensure_is("and closed", [f.what for f in closed] == done)
    if pdf:
        c.ensure_is("one file", len(pages) == 1 and pages[0].name == "out_plots.pdf" and not pages[0].open)
        c.ensure_is("all pages in it", all(x[1] is pages[0] for x in log))
    else:
        files = [x[1] for x in log]
        c.ensure_is("files of their own", not pages and len(set(files)) == len(files) and all(f.startswith("out_") and f.endswith(".png") for f in files))
        short = [n.split("(")[-1].split(")")[0] for n in names]
        for what, f, k in log:
            c.ensure_is("name of the file", f == ("out_corner.png" if what[0] == "corner" else "out_chain_%s.png" % short[what[1]] if what[0] == "chain" else "out_model%d.png" % what[1]))
    c.ensure_is("the settings of the caller stay", rc == {"interactive": inter})
    c.ensure_is("the inputs stay", given == before and sp.labels == list(names) and (idx is None or list(idx) == models))


def number(s):
    """The number written"""
    s = s.strip("$ ")
    if r"\times" in s:
        a, b = s.split(r"\times")
        return float(a.strip("() ")) * 10 ** int(b.strip().removeprefix("10^").strip("{}"))
    return float(s)


@P.contract(_p + "_latex_float", _p + "_latex_value_error", _p + "round2", samples=4000, symbolic=False, bounded="4000 numbers with their errors, of 30 decades", why="digits of decimal text")
def digits(c):
    """The text of a number tells it to three digits; the text of a value with errors tells them to the precision of the errors"""
    m = c.naima.plot
    v = c.choice("sign", [1, -1]) * c.real("v", lo=1e-15, hi=1e15, pos=True, log=True)
    c.ensure_eq("three digits", number(m._latex_float(v)), v, rtol=5.01e-3)
    rel = c.real("relative error", lo=1e-6, hi=10, pos=True, log=True)
    lo = abs(v) * rel
    hi = lo * c.choice("asymmetry", [1, 1.2, 0.81, c.real("ratio", lo=0.05, hi=20, pos=True, log=True)])
    if c.choice("one error", [False, False, True]):
        s, hi = m._latex_value_error(v, lo), lo
    else:
        s = m._latex_value_error(v, lo, hi)
    s, power = s.strip("$"), 1
    if r"\times" in s:
        s, p = s.split(r"\times")
        power = 10.0 ** int(p.strip().removeprefix("10^").strip("{}"))
        s = s.strip("()")
    if r"\pm" in s:
        x, e = s.split(r"\pm")
        a = b = float(e) * power
        c.ensure("errors that differ are told apart", abs(lo - hi) <= 0.2501 * (lo + hi) / 2)
        lo = hi = (lo + hi) / 2
    else:
        x, e = s.split("^{+")
        a, b = e.split("}_{-")
        b, a = float(a) * power, float(b.rstrip("}")) * power
    x = float(x) * power
    c.ensure("value", abs(x - v) <= 0.2501 * min(lo, hi) + 1e-12 * abs(v))
    c.ensure("error below", abs(a - lo) <= 0.2501 * lo)
    c.ensure("error above", abs(b - hi) <= 0.2501 * hi)
