"""P24: setting up a fit keeps the caller's inputs and meaning.

The sampler library is replaced by a record of what it is given (in both modes); that the library
samples the function it is given is assumed."""
from pyvc.report import Property
from .P17 import FORMS, SED, _data
from .common import bound, library
from .common import patched as other

P = Property("P24")
_c = "core."
SAMPLER = "emcee.EnsembleSampler samples the function it is given with the arguments and the starting positions it is given, and sample() yields its states one after the other, as many as asked for"
CALLEES = "in these contracts validate_data_table, lnprob and _prefit stand for their own contracts (properties P15, P18 and P19)"
NORMAL = "np.random.normal(size) draws independent numbers"


class State:
    """emcee.State"""

    def __init__(self, coords, log_prob=None, **k):
        self.coords, self.log_prob = (coords.coords, coords.log_prob) if isinstance(coords, State) else (coords, log_prob)


def fake(c, log):
    class EnsembleSampler:
        def __init__(self, nwalkers, ndim, log_prob_fn, pool=None, moves=None, args=None, kwargs=None, backend=None, vectorize=False, blobs_dtype=None, parameter_names=None):
            self.nwalkers, self.ndim, self.fn, self.pool = nwalkers, ndim, log_prob_fn, pool
            self.a, self.k, self.blobs_dtype = list(args or []), dict(kwargs or {}), blobs_dtype
            log.append(("sampler", self))
            if moves is not None or backend is not None or vectorize or parameter_names is not None:
                raise NotImplementedError("other options of the sampler")

        def posterior(self, pars):
            return self.fn(pars, *self.a, **self.k)

        def reset(self):
            log.append(("reset",))

        def get_chain(self, **k):
            return _Chain(self.ndim)

        def sample(self, initial_state, log_prob0=None, rstate0=None, blobs0=None, iterations=1, store=True, **k):
            log.append(("sample", initial_state, iterations, store, k))
            for i in range(iterations):
                s = self.state(i)
                log.append(("state", s))
                yield s

        def state(self, i):
            n = self.nwalkers
            if c.symbolic:
                s, t = c.s, c.t
                mk = lambda name, m: s.SArr(s.Node(tuple(s.axis_of_len(s._t(k)) for k in m), lambda *ix, k="%s%d_%d" % (name, len(log), i): t.app(k, ix), "f"))
                return State(mk("state", (n, self.ndim)), mk("lnp", (n,)))
            import numpy as np

            return State(np.arange(n * self.ndim).reshape(n, self.ndim) * 1.0 + i, np.arange(n) * 1.0)

    class emcee:
        pass

    emcee.EnsembleSampler, emcee.State = EnsembleSampler, State
    return emcee


class _Chain:
    def __init__(self, n):
        self.shape = (1, 1, n)


class Pool:
    def __init__(self, n, log):
        self.n, self.log = n, log
        log.append(("pool", n))

    def close(self):
        self.log.append(("close", self))

    def join(self):
        self.log.append(("join", self))


class patched:
    """The module naima.core with the libraries replaced"""

    def __init__(self, c, log, **names):
        self.c, self.log, self.names = c, log, names

    def __enter__(self):
        c, log = self.c, self.log
        m = c.naima.core
        new = dict(self.names)
        new["emcee"] = fake(c, log)
        new["Pool"] = lambda n=None: Pool(n, log)
        if c.symbolic:
            new["np"] = _Numpy(c, log)
        self.m = c.pkg.mods["naima.core"].__dict__ if c.symbolic else m.__dict__
        self.old = {k: self.m[k] for k in new}
        self.m.update(new)
        self.m["print"] = lambda *a, **k: None
        return self

    def __exit__(self, *a):
        self.m.update(self.old)
        self.m.pop("print", None)


class _Numpy:
    def __init__(self, c, log):
        self._c, self.random = c, _Random(c, log)

    def __getattr__(self, n):
        return getattr(self._c.s.np, n)


class _Random:
    def __init__(self, c, log):
        self._c, self._log = c, log

    def normal(self, loc=0.0, scale=1.0, size=None):
        c, s, t = self._c, self._c.s, self._c.t
        if size is None:
            raise t.Unsupported("a single random number")
        size = size if isinstance(size, tuple) else (size,)
        k = sum(1 for x in self._log if x[0] == "draw")
        self._log.append(("draw", k))
        turn = sum((tuple(fr.idx) for fr in c.ex.loops if fr.loop), ())
        z = s.SArr(s.Node(tuple(s.axis_of_len(s._t(n)) for n in size), lambda *i: t.app("normal%d" % k, turn + i), "f"))
        return loc + scale * z

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def randn(self, *size):
        return self.normal(size=size)

    def __getattr__(self, n):
        raise self._c.t.Unsupported("np.random." + n)


LABELS = {
    1: [None, [], ["norm"], ["log(Ampl)"], ["LOG10(Norm)"], ["Log(NORM)"], ["AMPL"], ["index"]],
    2: [None, ["a"], ["norm", "index"], ["index", "Amplitude"], ["cutoff", "log10(We)"], ["norm", "amplitude"], ("x", "y"), ["Wp", "e"]],
    3: [None, ["We"], ["index", "log(wp)", "B"], ["a", "b", "c"], ["gamma", "normalization", "cutoff"], ["subnorm", "x", "log10(e)"], ["norm", "index", "Norm"]],
}


def names(labels, n):
    """The labels, completed"""
    if labels is None:
        return ["norm"] + ["par%d" % k for k in range(1, n)]
    return list(labels) + ["par%d" % k for k in range(len(labels), n)]


def guessed(labels):
    """The parameter that is the normalisation, and whether it is a logarithm"""
    out = []
    for k, l in enumerate(labels):
        for pre, kind in (("", ""), ("log(", "log"), ("log10(", "log10")):
            if any(l.lower().startswith(pre + w) for w in ("norm", "ampl", "we", "wp")):
                out.append((k, kind))
    return out


def _ratio(c, d, m, form, mform):
    """Energy in the data over that in the model"""
    M = c.M
    diff = "1/(cm2 s TeV)" if "flux" in form else "1/(s TeV)"
    q = c.scale("erg") / c.scale("TeV")
    n = c.length(d["energy"]) if c.symbolic else len(d["energy"])

    def integral(y, f):
        o = c.order(d["energy"])
        E = lambda i: c.At(d["energy"], o[i], "TeV")

        def v(i):
            x = c.At(y, o[i], FORMS[f])
            return x * E(i) if "differential" in f else x * q / E(i)

        one = c.t.ONE if c.symbolic else 1
        return M.sum(c.t.add(n, c.t.MINUS1) if c.symbolic else n - 1, lambda i: (E(i + one) - E(i)) * (v(i) + v(i + one)) / 2)

    return integral(d["flux"], form), integral(m, mform)


def setup(c, N, labels, guess, prefit, nburn, blobs=False, walkers=None, threads=1, form=None, mform=None, window=None):
    """Runs get_sampler and checks everything but the starting point; returns the starting point it should use"""
    s = c.s if c.symbolic else None
    W = walkers
    form = form or "differential flux"
    mform = mform or form
    n = c.size("n", min=2, max=6)
    d, n = _data(c, form, n=n)
    if c.concrete and labels is not None or guess:
        c.order(d["energy"])
    log = []
    kind = c.forall("p0 given as", ["array", "list"]) if not guess or c.concrete else "array"
    start = [c.num("p%d" % k, lo=0.5, hi=3, pos=True) for k in range(N)]
    m = c.qarray("m", mform, n, lo=0.1, hi=10, ref=FORMS[mform])
    table, prior = object(), object()
    p0 = list(start) if kind == "list" else c.array_of(start)
    given = None if labels is None else list(labels) if isinstance(labels, list) else tuple(labels)
    sed = object() if c.symbolic else c.choice("sed", [None, True, False])
    calls = []

    def model(pars, data):
        calls.append((pars, data))
        return (m, 1.0) if blobs else m

    def validate(t, sed=None):
        log.append(("validate", t, sed))
        return d

    originals = c.naima.core.lnprob, c.naima.core._prefit

    def lnprob(*a, **k):
        log.append(("lnprob", bound(originals[0], a, k)))
        return 0.0

    if window is not None:
        chosen = [c.num("w%d" % k, lo=0.5, hi=3, pos=True) for k in range(N)]
        before = c.forall("matplotlib interactive", [True, False])
    p1 = c.array_of([c.num("q%d" % k, lo=0.5, hi=3, pos=True) for k in range(N)])

    def pre(*a, **k):
        log.append(("prefit", bound(originals[1], a, k)))
        return p1, prefit == "converged"

    with patched(c, log, validate_data_table=validate, lnprob=lnprob, _prefit=pre):
        k = {} if labels is None else {"labels": given}
        if threads is not None:
            k["threads"] = threads
        if c.concrete:
            import numpy as np

            np.random.seed(c.rng.randrange(2**31) if hasattr(c, "rng") else 1)
        if window is not None:
            k["interactive"] = True
            fitter = c.naima.model_fitter.InteractiveModelFitter

            class Window:
                def __init__(self, *a, **k):
                    log.append(("window", bound(fitter, a, k), mpl.rcParams["interactive"]))
                    self.pars, self.P0_IS_ML = chosen, window

            stand_in = other(c, "model_fitter", InteractiveModelFitter=Window)
            mpl = library(c, "matplotlib.pyplot", rcParams={"interactive": before})
            mpl.rcParams = mpl.names["rcParams"]
            stand_in.__enter__(), mpl.__enter__()
        sampler, state = c.naima.core.get_sampler(data_table=table, p0=p0, model=model, prior=prior, nwalkers=W, nburn=nburn, guess=guess, prefit=prefit is not None, data_sed=sed, **k)
        if window is not None:
            stand_in.__exit__(), mpl.__exit__()
            c.ensure_is("the windows of the caller stay interactive, or not", mpl.rcParams == {"interactive": before})
        pars = object()
        sampler.posterior(pars)
    val = [x for x in log if x[0] == "validate"]
    c.ensure_is("the data table is validated, in the form asked for", bool(val) and all(x[1] is table and x[2] is sed for x in val))
    # nothing of the caller is changed
    same = len(p0) == N if kind == "list" else True
    c.ensure_is("the starting parameters of the caller stay", same and (all(a is b for a, b in zip(p0, start)) if kind == "list" else True))
    if kind == "array":
        for i in range(N):
            c.ensure_eq("the starting parameters of the caller stay", c.At(p0, i if c.concrete else c.t.const(i)), c.V(start[i]))
    if labels is not None:
        c.ensure_is("the labels of the caller stay", given == labels and type(given) is type(labels))
    want = names(labels, N)
    c.ensure_is("labels", list(sampler.labels) == want)
    # posterior
    c.ensure_is("one sampler", [x[0] for x in log].count("sampler") == 1 and log[[x[0] for x in log].index("sampler")][1] is sampler)
    c.ensure_is("number of walkers and parameters", _same(c, sampler.nwalkers, W) and _int(c, sampler.ndim) == N)
    call = [x[1] for x in log if x[0] == "lnprob"][-1:]
    ok = bool(call) and call[0] == {"pars": pars, "data": d, "modelfunc": model, "priorfunc": prior}
    c.ensure_is("samples the posterior of the model, the data and the prior", ok)
    c.ensure_is("keeps what it was made from", sampler.data is d and sampler.data_table is table and sampler.modelfn is model)
    c.ensure_is("the blobs are objects", sampler.blobs_dtype is object or str(sampler.blobs_dtype) in ("object", "O"))
    pools = [x for x in log if x[0] == "pool"]
    if threads is not None:
        c.ensure_is("threads", len(pools) == (1 if threads > 1 else 0) and all(x[1] == threads for x in pools) and (sampler.pool is None) == (threads == 1))
    # the starting point
    g = guessed(want)
    expected = [c.V(x) for x in start]
    if guess and len(g) == 1:
        k, how = g[0]
        a, b = _ratio(c, d, m, form, mform)
        r = a / b
        expected[k] = expected[k] * r if how == "" else expected[k] + (c.M.log(r) if how == "log" else c.M.log10(r))
    if window is not None:
        got = [x[1:] for x in log if x[0] == "window"]
        c.ensure_is("one window, of the model and the data", len(got) == 1 and got[0][0]["modelfn"] == model and got[0][0]["data"] is d and got[0][0]["e_range"] is None)
        c.ensure_is("it waits until it is closed", got[0][1] is False)
        c.ensure_is("names of the parameters", list(got[0][0]["labels"]) == want)
        for i in range(N):
            c.ensure_eq("the window starts at the starting parameters", c.At(got[0][0]["p0"], i if c.concrete else c.t.const(i)), expected[i], rtol=1e-9)
        expected = [c.V(x) for x in chosen]
        if window:
            c.ensure_is("a maximum found needs no other fit", not [x for x in log if x[0] == "prefit"])
            prefit = None
    if prefit is not None:
        got = [x[1] for x in log if x[0] == "prefit"]
        c.ensure_is("one preliminary fit, of the model to the data", len(got) == 1 and got[0]["data"] is d and got[0]["model"] is model and got[0]["prior"] is prior)
        for i in range(N):
            c.ensure_eq("the preliminary fit starts at the starting parameters", c.At(got[0]["p0"], i if c.concrete else c.t.const(i)), expected[i], rtol=1e-9)
        expected = [c.At(p1, i if c.concrete else c.t.const(i)) for i in range(N)]
    info = sampler.run_info
    c.ensure_is("run information", _same(c, info["n_walkers"], W) and info["n_burn"] == nburn and info["guess"] == guess and len(info["p0"]) == N)
    for i in range(N):
        c.ensure_eq("starting parameters in the run information", c.V(info["p0"][i]), expected[i], rtol=1e-9)
    # the ball of walkers
    samples = [x for x in log if x[0] == "sample"]
    states = [x[1] for x in log if x[0] == "state"]
    if nburn:
        c.ensure_is("one burn-in of the length asked for, stored", len(samples) == 1 and samples[0][2] == nburn and samples[0][3] is True and not samples[0][4])
        c.ensure_is("the state after the burn-in", state is states[-1])
        pos = samples[0][1]
        pos = pos.coords if isinstance(pos, State) else pos
    else:
        c.ensure_is("no burn-in", not samples)
        pos = state.coords
    spread = c.M.q(5, 1000) if prefit == "converged" or window else c.M.q(1, 10)
    ball(c, pos, W, N, expected, spread)
    med = info["p0_burn_median"]
    c.ensure_is("median of the walkers", len(med) == N)
    if c.concrete:
        import numpy as np

        for i in range(N):
            c.ensure_eq("median of the walkers", med[i], float(np.median(np.asarray(state.coords)[:, i])))
    else:
        for i in range(N):
            col = c.s.SArr(c.s.Node((state.coords.axes[0],), lambda k: state.coords.at(k, c.t.const(i)), "f"))
            c.ensure_eq("median of the walkers", c.V(med[i]), c.t.app("quantile", (c.t.const(50), c.s._arrterm(col))))
    return sampler


def ball(c, pos, W, N, centre, spread):
    """Normally distributed around the starting parameters, each walker and parameter with its own number"""
    if c.concrete:
        import numpy as np

        pos = np.asarray(pos)
        c.ensure_is("positions of all walkers", pos.shape == (W, N))
        z = (pos / np.array(centre) - 1) / spread
        c.ensure("around the starting parameters", bool(np.all(np.abs(z) < 7)))
        c.ensure("all different", len(set(z.ravel().tolist())) == z.size)
        if z.size >= 60:
            c.ensure("of the relative size stated", bool(0.5 < z.std() < 1.5 and abs(z.mean()) < 0.7))
        return
    t = c.t
    c.ensure_is("positions of all walkers", pos.ndim == 2 and c.length(pos) is c.s._t(W) and pos.axes[1].const == N)
    used = set()
    (i,) = c.indices(W)[0]
    for j in range(N):
        p = pos.at(i, t.const(j))
        zs = [a for a in t.atoms_of(p) if a.kind == "app" and str(a.key[1]).startswith("normal")]
        c.ensure_is("its own number for each parameter", len(zs) == 1 and zs[0] not in used)
        c.ensure_is("its own number for each walker", i in zs[0].key[2])
        used.update(zs)
        c.ensure_eq("around the starting parameters", p, centre[j] * (1 + spread * t.from_atom(zs[0])))


def _same(c, x, y):
    return c.s._t(x) is c.s._t(y) if c.symbolic else x == y


def _int(c, x):
    if c.symbolic and isinstance(x, c.s.SArr):
        return int(x.scalar().const)
    return x


for _N in LABELS:

    @P.contract(_c + "get_sampler", samples=120, assumes=[SAMPLER, CALLEES, NORMAL])
    def _setup(c, _N=_N):
        labels = c.forall("labels", LABELS[_N])
        setup(c, _N, labels, c.forall("guess", [True, False]), None, 0, walkers=c.size("walkers", min=2, max=40))

    P.harnesses[-1].name = "setup_%d" % _N


@P.contract(_c + "get_sampler", samples=160, assumes=[SAMPLER, CALLEES, NORMAL])
def guess_forms(c):
    """The guess of the normalisation, for model and data of any form, with and without blobs"""
    form = c.forall("data", list(FORMS))
    mform = SED[form] if c.forall("model in the other form", [True, False]) else form
    labels = c.forall("labels", [["norm", "x"], ["x", "log(norm)"], ["log10(We)", "x"]])
    setup(c, 2, labels, True, None, 0, walkers=c.size("walkers", min=2, max=40), form=form, mform=mform, blobs=c.forall("blobs", [True, False]))


@P.contract(_c + "get_sampler", _c + "_run_mcmc", samples=120, assumes=[SAMPLER, CALLEES, NORMAL])
def start(c):
    """With a preliminary fit, burn-in and several processes"""
    prefit = c.forall("prefit", [None, "converged", "failed"])
    setup(c, 2, ["index", "amp"], c.forall("guess", [True, False]), prefit, c.forall("burn-in", [0, 1, 3]), walkers=c.size("walkers", min=2, max=40), threads=c.forall("threads", [1, 2]))


@P.contract(_c + "get_sampler", samples=200)
def refused(c):
    """Missing arguments, and models that cannot be compared with the data"""
    a = c.forall("data", list(FORMS))
    b = c.forall("model", list(FORMS))
    c.assume(("power" in a) != ("power" in b))
    d, n = _data(c, a, ul=c.array_of([False]), n=1)
    m = c.qarray("m", b, 1, lo=0.1, hi=10)
    UnitsError = __import__("astropy.units").units.UnitsError
    get = c.naima.core.get_sampler
    out = (m, 1.0) if c.forall("blobs", [True, False]) else m
    with patched(c, [], validate_data_table=lambda t, sed=None: d):
        k = dict(p0=[1.0], threads=1, nwalkers=4, nburn=0, guess=c.forall("guess", [True, False]))
        c.ensure_raises("flux and luminosity", UnitsError, lambda: get(data_table=object(), model=lambda p, data: out, **k))
        other = c.qarray("o", "energy", 1, lo=0.1, hi=10)
        c.ensure_raises("not a flux", UnitsError, lambda: get(data_table=object(), model=lambda p, data: other, **k))
        c.ensure_raises("no model", TypeError, lambda: get(data_table=object(), **k))
        c.ensure_raises("no data", TypeError, lambda: get(model=lambda p, data: m, **k))


def _sampler(c, log, W, N):
    E = fake(c, log).EnsembleSampler
    s = E(W, N, lambda p: 0.0)
    s.labels = ["a", "b", "c"][:N]
    s.run_info = {"n_walkers": W}
    return s


@P.contract(_c + "run_sampler", _c + "_run_mcmc", samples=60, assumes=[SAMPLER])
def run(c):
    """The run starts at the given positions with an empty chain, has the length asked for, and ends the processes"""
    log = []
    W, N = c.size("walkers", min=2, max=10), c.forall("N", [1, 2])
    nrun = c.forall("steps", [1, 2, 3] if c.symbolic else [1, 2, 3, 25])
    s = _sampler(c, log, W, N)
    pool = c.forall("pool", ["none", "yes", "missing"])
    if pool != "missing":
        s._naima_pool = Pool(3, log) if pool == "yes" else None
    p = s._naima_pool if pool == "yes" else None
    made = c.forall("sampler", ["given", "made", "made anew"])
    pos = State(s.state(0).coords)
    got = []

    def get(**k):
        got.append(k)
        return s, pos

    del log[:]
    with patched(c, log, get_sampler=get):
        if made == "given":
            r, last = c.naima.core.run_sampler(nrun, s, pos)
            c.ensure_is("the sampler given is used", not got)
        else:
            r, last = c.naima.core.run_sampler(nrun=nrun, p0=s, labels=log, **({} if made == "made" else {"sampler": object()}))
            c.ensure_is("made with the arguments", len(got) == 1 and set(got[0]) == {"p0", "labels"} and got[0]["p0"] is s and got[0]["labels"] is log)
    ops = [x[0] for x in log if x[0] != "state"]
    c.ensure_is("the chain starts anew, then one run", ops[:2] == ["reset", "sample"] and ops.count("sample") == 1)
    call = [x for x in log if x[0] == "sample"][0]
    c.ensure_is("from the positions, for the steps asked for, stored", call[1] is pos and call[2] == nrun and call[3] is True and not call[4])
    states = [x[1] for x in log if x[0] == "state"]
    c.ensure_is("as many states", len(states) == nrun)
    c.ensure_is("returns the sampler and the last state", r is s and last is states[-1])
    c.ensure_is("number of steps in the run information", s.run_info["n_run"] == nrun and "n_walkers" in s.run_info)
    c.ensure_is("the processes are ended", (pool != "yes") or (("close", p) in log and ("join", p) in log and s._naima_pool is None))
