"""P26: confidence bands of the sampled models.

The chain and its blobs come from a stand-in for the sampler with any number of steps, walkers and
energies (contracts/chains.py)."""
from pyvc.report import Property
from .chains import EMCEE, KINDS, Model, Sampler, last, tensor
from .common import bound, patched

P = Property("P26")
_p = "plot."
RANDOM = "np.random.randint(n, size) draws indices from 0 to n-1"
POOL = "Pool.starmap applies the function to the arguments, in order"
ASCEND = "np.sort returns the values in ascending order; the integer part of a number ascends"
CDF = "scipy.stats.norm.cdf increases from 0 to 1 and is symmetric about cdf(0) = 1/2"


def _energies(c, sp, k, kind):
    """What the energies of a blob should be"""
    return sp.data["energy"] if kind == "array" else sp.x[k]


def _same(c, name, a, b, n):
    """The same energies"""
    c.ensure_is(name, a is not None and b is not None)
    c.ensure_shape(name, a, b)
    for (i,) in c.indices(n):
        c.ensure_eq(name, c.At(a, i, "TeV"), c.At(b, i, "TeV"))


@P.contract(_p + "_process_blob", samples=150, assumes=[EMCEE])
def process(c):
    """The samples of a blob: all of the run, or of the last step, in order"""
    k = c.forall("blob", [0, 1])
    kind = c.forall("kind", KINDS)
    other = c.forall("kind of the other", ["array", "float"])
    sp = Sampler(c, kinds=[kind, other] if k == 0 else [other, kind], varying=True)
    step = c.forall("last step", [True, False])
    x, m = c.naima.plot._process_blob(sp, k, last_step=step)
    n = {"array": sp.n, "value": None, "float": None}.get(kind, sp.m)
    if kind == "value" and c.concrete and sp.n == 1:
        # a single energy cannot be told from a number
        n, kind = None, "one"
    if n is None:
        if kind != "one":
            one = c.symbolic and x is not None
            c.ensure_is("numbers have no energies", x is None or one)
            if one:
                c.ensure_eq("one energy", c.s._t(sp.n), c.t.ONE)
    else:
        _same(c, "energies of the samples", x, _energies(c, sp, k, kind), n)
    un = c.u("") if kind == "float" else sp.unit[k]
    for (i,) in [(last(c, sp.S),)] if step else c.indices(sp.S):
        for (j,) in c.indices(sp.W):
            at = (j,) if step else (i, j) if c.symbolic else (i * int(sp.W) + j,)
            if n is None:
                c.ensure_eq("the samples of the blob", c.At(m, at, un), sp.value(i, j, k))
            else:
                for (e,) in c.indices(n):
                    c.ensure_eq("the samples of the blob", c.At(m, at + (e,), un), sp.value(i, j, k, e))
    if c.symbolic:
        c.ensure_is("as many samples", m.axes[0].bases == ((c.s._t(sp.W),) if step else (c.s._t(sp.S), c.s._t(sp.W))))
    else:
        c.ensure_is("as many samples", len(m) == int(sp.W) * (1 if step else int(sp.S)))


class _Pool:
    def __init__(self, log):
        self.log = log

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.log.append("exit")

    def close(self):
        pass

    join = terminate = close

    def _call(self, f, args, star):
        self.log.append(args)
        ax = getattr(args, "sym_axis", None)
        if ax is None:
            return [f(*a) if star else f(a) for a in args]
        from pyvc import sym

        idx = self.c.indices(ax.length)[0]
        a = args.sym_element(idx)
        v = f(*a) if star else f(a)
        return self.SList([sym.Rep(ax, [self.c.t.atom_of(i) for i in idx], v)])

    def starmap(self, f, args, *a):
        return self._call(f, args, True)

    def map(self, f, args, *a):
        return self._call(f, args, False)


class _Numpy:
    def __init__(self, c, log):
        self._c, self.random = c, _Random(c, log)

    def __getattr__(self, n):
        return getattr(self._c.s.np, n)


class _Random:
    def __init__(self, c, log):
        self._c, self._log = c, log

    def randint(self, low, high=None, size=None):
        c, s, t = self._c, self._c.s, self._c.t
        if high is not None:
            raise t.Unsupported("randint")
        n = s._t(low)
        k = len(self._log)
        self._log.append((n, size))
        f = lambda i: t.app("randint%d" % k, (i,), nonneg=True, isint=True)
        c.ex.axiom(lambda idx, bases: [t.lt(f(idx[0]), n)] if len(idx) == 1 and bases[0] is s._t(size) else [])
        return s.SArr(s.Node((s.axis_of_len(s._t(size)),), f, "i"))

    def __getattr__(self, n):
        raise self._c.t.Unsupported("np.random." + n)


@P.contract(_p + "_read_or_calc_samples", _p + "_process_blob", samples=80, assumes=[EMCEE, RANDOM, POOL])
def computed(c):
    """Models computed for samples of the chain, on a range of energies"""
    kind = c.forall("kind", ["array", "pair", "list pair", "blobs"])
    idx = c.forall("blob", [0, 1]) if kind == "blobs" else 0
    model = Model(c, kind)
    sp = Sampler(c, kinds=["array"], model=model)
    c.ex.add(c.t.le(c.t.const(2), c.s._t(sp.n))) if c.symbolic else None
    step = c.forall("last step", [True, False])
    R = c.size("samples", min=1, max=5)
    K = c.size("points", min=2, max=6)
    un = c.unit("range.unit", "energy")
    a, b = c.num("a", lo=0.1, hi=1, pos=True), c.num("b", lo=2, hi=20, pos=True)
    rng = c.Q(c.array_of([a, b]), un)
    if c.forall("range as", ["quantity", "list"]) == "list":
        rng = [c.Q(a, un), c.Q(b, un)]
    log, drawn = [], []
    pool = _Pool(log)
    pool.c = c
    if c.symbolic:
        from pyvc.loader import SList

        pool.SList = SList
    names = {"Pool": lambda n=None: pool}
    if c.symbolic:
        names["np"] = _Numpy(c, drawn)
    threads = c.choice("threads", [None, 1, 2])
    with patched(c, **names):
        x, m = c.naima.plot._read_or_calc_samples(sp, idx, n_samples=R, last_step=step, e_range=rng, e_npoints=K, threads=threads)
    n = sp_n = K if "pair" not in kind else model.m
    E = lambda i: c.V(a) * c.M.pow(c.V(b) / c.V(a), i / c.M.q(1) / ((c.s._t(K) if c.symbolic else K) - 1)) * c.scale(un) / c.scale("TeV")
    for (e,) in c.indices(n):
        want = E(e) if "pair" not in kind else c.At(model.mx, e, "TeV")
        c.ensure_eq("energies", c.At(x, e, "TeV"), want)
    c.ensure_is("as many samples", (m.axes[0].length is c.s._t(R)) if c.symbolic else len(m) == R)
    f = 2 if idx else 1
    if c.symbolic:
        (r,) = c.indices(R)[0]
        row = c.t.app("randint0", (r,), nonneg=True, isint=True)
        c.ensure_is("one draw for all samples", len(drawn) == 1 and drawn[0][0] is (c.s._t(sp.W) if step else c.t.mul(c.s._t(sp.S), c.s._t(sp.W))))
        p = [c.t.app("chain", (last(c, sp.S), row, c.t.const(k)), pos=True) if step else c.t.app("flatchain", (row, c.t.const(k)), pos=True) for k in range(sp.N)]
        for (e,) in c.indices(n):
            en = c.At(x, e, "TeV")
            c.ensure_eq("the model of a sample of the chain", c.At(m, (r, e), model.unit), f * model.number(p, en))
    else:
        import numpy as np

        rows = np.concatenate([sp.chain[-1]] if step else list(sp.chain))
        for pars, data in model.calls:
            c.ensure_is("parameters of the chain", any(np.array_equal(pars, r) for r in rows))
        c.ensure_is("one model for each sample", len(model.calls) == R)
        for r in range(R):
            p = [float(v) for v in model.calls[r][0]]
            for (e,) in c.indices(n):
                c.ensure_eq("the model of a sample of the chain", c.At(m, (r, e), model.unit), f * model.number(p, c.At(x, e, "TeV")))
    for pars, data in model.calls[:3]:
        c.ensure_is("the model is given a flux in the form of the data", data["flux"].unit == sp.data["flux"].unit)


@P.contract(_p + "_read_or_calc_samples", samples=40)
def stored(c):
    """Without a range of energies: those stored"""
    got = []
    sp, out = object(), (object(), object())

    original = c.naima.plot._process_blob

    def process(*a, **k):
        got.append(bound(original, a, k))
        return out

    step = c.forall("last step", [True, False])
    with patched(c, _process_blob=process):
        r = c.naima.plot._read_or_calc_samples(sp, 3, n_samples=c.forall("samples", [None, 10]), last_step=step)
    c.ensure_is("the samples stored", tuple(r) == out and len(got) == 1 and got[0]["sampler"] is sp and got[0]["modelidx"] == 3 and got[0]["last_step"] is step)


class _Norm:
    def __init__(self, c):
        self.c = c

    def cdf(self, x):
        c, t, s = self.c, self.c.t, self.c.s
        x = s.as_arr(x).scalar()
        return s.num(cdf(c, x))


def cdf(c, x):
    """The normal distribution, symmetric: cdf(-x) = 1 - cdf(x)"""
    if not c.symbolic:
        from scipy import stats

        return float(stats.norm.cdf(x))
    t = c.t
    if x.const is not None and x.const < 0:
        return 1 - cdf(c, -x)
    return t.app("normcdf", (x,), pos=True)


def _tables(c):
    if c.symbolic:
        import types

        c.pkg.extra["scipy.stats"] = types.SimpleNamespace(norm=_Norm(c))


@P.contract(_p + "_calc_CI", samples=120, assumes=[CDF, ASCEND, "in this contract _read_or_calc_samples stands for its own contract"])
def bands(c):
    """The bands are order statistics of the sampled models at each energy"""
    M, t = c.M, c.t if c.symbolic else None
    confs = c.forall("levels", [[3, 1], [1], [1, 3, 2], [0.5, 5], (3, 1, 0.5)])
    R, n = c.size("samples", min=1, max=30), c.size("energies", min=1, max=3)
    x = c.qarray("energy", "energy", n, lo=1e-2, hi=1e2)
    un = c.unit("unit", "differential flux")
    y = tensor(c, "y", (R, n))
    m = c.Q(y, un)
    given = [(v if not c.concrete else float(v)) for v in confs]
    arg = type(confs)(confs)
    er = c.forall("range", [False, True])
    rng = c.Q(c.array_of([c.num("a", lo=0.1, hi=1, pos=True), c.num("b", lo=2, hi=20, pos=True)]), c.u("TeV")) if er else None
    step, K, sp = c.forall("last step", [True, False]), 37, object()
    got = []

    original = c.naima.plot._read_or_calc_samples

    def samples(*a, **k):
        got.append(bound(original, a, k))
        return x, m

    _tables(c)
    if c.symbolic:
        F = {v: cdf(c, t.const(_frac(v))) for v in confs}
        for a in confs:
            c.assume(M.and_(M.lt(M.q(1, 2), F[a]), M.lt(F[a], 1)))
            for b in confs:
                if a < b:
                    c.assume(M.lt(F[a], F[b]))
    with patched(c, _read_or_calc_samples=samples):
        modelx, CI = c.naima.plot._calc_CI(sp, modelidx=1, confs=arg, last_step=step, e_range=rng, e_npoints=K, threads=3)
    c.ensure_is("one set of samples", len(got) == 1)
    g = got[0]
    c.ensure_is("of the model asked for", g["sampler"] is sp and g["modelidx"] == 1 and g["last_step"] is step and g["e_range"] is rng and g["e_npoints"] == K and g["threads"] == 3)
    if er:
        if c.symbolic:
            y1 = 1 / (1 - F[max(confs)]) + 1
            c.instance("inverse", lambda p: M.or_(M.le(1, p), M.lt(1, 1 / (1 - p) + 1)), F[max(confs)])
            c.assume(M.or_(M.lt(y1, 1), M.le(1, M.trunc(y1))))
        c.ensure("enough samples", M.le(1, c.V(g["n_samples"])))
    _same(c, "energies of the samples", modelx, x, n)
    c.ensure_is("the levels stay", list(arg) == list(confs))
    c.ensure_is("one band for each level", len(CI) == len(confs) and all(len(b) == 2 for b in CI))
    for (i,) in c.indices(n):
        if c.symbolic:
            nd = y.node
            col = c.s.SArr(c.s.Node((y.axes[0],), lambda k: nd.at((k, i)), "f"))
            o = c.order(col)
            stat = lambda k: nd.at((o[k], i))
            N1 = t.add(c.s._t(R), t.MINUS1)
        else:
            srt = sorted(float(v) for v in y[:, i])
            stat = lambda k: srt[int(k)]
            N1 = int(R) - 1
        lim = []
        for conf, (lo, hi) in zip(confs, CI):
            f = cdf(c, t.const(_frac(conf)) if c.symbolic else conf)
            for b, fr in ((lo, 1 - f), (hi, f)):
                c.ensure_shape("shape of the bands", b, x)
                k = M.trunc(fr * N1)
                c.ensure_eq("order statistics", c.At(b, i, un), stat(k))
            lim.append((conf, M.trunc((1 - f) * N1), M.trunc(f * N1), c.At(lo, i, un), c.At(hi, i, un), f))
        if c.symbolic:
            # sorted values ascend, and so do integer parts and products
            N = c.V(R) - 1
            mul = lambda f, g, n: M.or_(M.lt(g, f), M.or_(M.lt(n, 0), M.le(f * n, g * n)))
            fr = [v for z in lim for v in (1 - z[5], z[5])] + [M.q(1, 2)]
            for a in fr:
                for b in fr:
                    if a is not b:
                        c.instance("products ascend", mul, a, b, N, real=(0, 1, 2))
                        c.assume(M.or_(M.lt(b * N, a * N), M.le(M.trunc(a * N), M.trunc(b * N))))
                        ka, kb = M.trunc(a * N), M.trunc(b * N)
                        c.assume(M.or_(M.lt(kb, ka), M.le(stat(ka), stat(kb))))
        mid = stat(M.trunc(N1 / 2) if c.symbolic else N1 // 2)
        for a in lim:
            c.ensure("the limits are ordered", M.le(a[3], a[4]))
            c.ensure("the band contains the (lower) median", M.and_(M.le(a[3], mid), M.le(mid, a[4])))
            for b in lim:
                if a[0] < b[0]:
                    c.ensure("bands of increasing levels are nested", M.and_(M.le(b[3], a[3]), M.le(a[4], b[4])))


def _frac(x):
    from fractions import Fraction

    return Fraction(str(x))


@P.contract(_p + "find_ML", samples=150, assumes=[EMCEE])
def ml(c):
    """The sample with the largest log-probability, with its own blob"""
    k = c.forall("blob", [0, 1, None])
    kind = c.forall("kind", ["array", "pair", "list pair"])
    sp = Sampler(c, N=c.forall("parameters", [1, 2]), kinds=[kind, kind], varying=True)
    ML, p, err, mm = c.naima.plot.find_ML(sp, k)
    _ml(c, sp, ML, p, err)
    if k is None:
        c.ensure_is("no model asked for", tuple(mm) == (None, None))
        return
    i, j = _best(c, sp)
    n = sp.n if kind == "array" else sp.m
    _same(c, "energies of the model", mm[0], _energies(c, sp, k, kind), n)
    for (e,) in c.indices(n):
        c.ensure_eq("the model of the sample", c.At(mm[1], e, sp.unit[k]), sp.value(i, j, k, e))


def _best(c, sp):
    if c.symbolic:
        A = c.s._arrterm(sp.lnp)
        return tuple(c.t.app("argmax_%d" % k, (A,), nonneg=True, isint=True) for k in range(2))
    import numpy as np

    return np.unravel_index(np.argmax(sp.lnp), sp.lnp.shape)


def _ml(c, sp, ML, p, err):
    i, j = _best(c, sp)
    top = sp.lnp.at(i, j) if c.symbolic else sp.lnp[i, j]
    c.ensure_eq("the largest log-probability", c.V(ML), top)
    for (a,) in c.indices(sp.S):
        for (b,) in c.indices(sp.W):
            if c.symbolic:
                for f in c.ex.instantiate((a, b), (c.s._t(sp.S), c.s._t(sp.W))):
                    c.ex.add(f)
            c.ensure("no sample has a larger log-probability", c.M.le(sp.lnp.at(a, b) if c.symbolic else sp.lnp[a, b], c.V(ML)))
    c.ensure_is("a value and an error for each parameter", len(p) == sp.N == len(err) if not c.symbolic else c.length(p).const == sp.N == len(err))
    for q in range(sp.N):
        kk = c.t.const(q) if c.symbolic else q
        c.ensure_eq("the parameters of the sample", c.At(p, kk), sp.chain.at(i, j, kk) if c.symbolic else sp.chain[i, j, q])
        if c.symbolic:
            nd = sp.flat().node
            col = c.s._arrterm(c.s.SArr(c.s.Node((nd.axes[0],), lambda r: nd.at((r, kk)), "f")))
            pc = lambda w: c.t.app("quantile", (c.t.const(w), col))
        else:
            import numpy as np

            pc = lambda w: float(np.percentile(sp.chain[:, :, q].ravel(), w))
        c.ensure_eq("half the width of the central 68 percent", c.V(err[q]), (pc(84) - pc(16)) / 2)


@P.contract(_p + "find_ML", _p + "_process_blob", samples=80, assumes=[EMCEE])
def ml_without_blobs(c):
    """Without stored blobs the model is computed for the parameters of the sample"""
    kind = c.forall("kind", ["array", "pair", "list pair", "blobs"])
    k = c.forall("blob", [0, 1]) if kind == "blobs" else 0
    model = Model(c, kind)
    sp = Sampler(c, model=model, blobs=False)
    if c.symbolic:
        c.ex.add(c.t.le(c.t.const(2), c.s._t(sp.n)))
    ML, p, err, mm = c.naima.plot.find_ML(sp, k)
    _ml(c, sp, ML, p, err)
    _model(c, sp, model, kind, k, mm, sp.data["energy"], sp.n)


def _model(c, sp, model, kind, k, mm, energy, n):
    i, j = _best(c, sp)
    n = n if "pair" not in kind else model.m
    _same(c, "energies of the model", mm[0], energy if "pair" not in kind else model.mx, n)
    p = [sp.chain.at(i, j, c.t.const(q)) if c.symbolic else float(sp.chain[i, j, q]) for q in range(sp.N)]
    for (e,) in c.indices(n):
        c.ensure_eq("the model for the parameters of the sample", c.At(mm[1], e, model.unit), (2 if k else 1) * model.number(p, c.At(mm[0], e, "TeV")))


@P.contract(_p + "_calc_ML", _p + "find_ML", samples=80, assumes=[EMCEE])
def calc_ml(c):
    """On a range of energies the model is computed there, for the parameters of the best sample"""
    kind = c.forall("kind", ["array", "pair", "list pair", "blobs"])
    k = c.forall("blob", [0, 1]) if kind == "blobs" else 0
    model = Model(c, kind)
    sp = Sampler(c, kinds=["array", "array"], model=model)
    K = c.size("points", min=2, max=6)
    un = c.unit("range.unit", "energy")
    a, b = c.num("a", lo=0.1, hi=1, pos=True), c.num("b", lo=2, hi=20, pos=True)
    rng = c.Q(c.array_of([a, b]), un)
    if c.forall("range as", ["quantity", "list"]) == "list":
        rng = [c.Q(a, un), c.Q(b, un)]
    ML, p, err, mm = c.naima.plot._calc_ML(sp, k, e_range=rng, e_npoints=K)
    _ml(c, sp, ML, p, err)
    E = lambda i: c.V(a) * c.M.pow(c.V(b) / c.V(a), i / c.M.q(1) / ((c.s._t(K) if c.symbolic else K) - 1)) * c.scale(un) / c.scale("TeV")
    if "pair" not in kind:
        for (e,) in c.indices(K):
            c.ensure_eq("energies", c.At(mm[0], e, "TeV"), E(e))
    _model(c, sp, model, kind, k, mm, mm[0], K)
    for pars, data in model.calls:
        c.ensure_is("the model is given a flux in the form of the data", data["flux"].unit == sp.data["flux"].unit)
    r = c.naima.plot._calc_ML(sp, k)
    i, j = _best(c, sp)
    for (e,) in c.indices(sp.n):
        c.ensure_eq("without a range: the stored model of the sample", c.At(r[3][1], e, sp.unit[k]), sp.value(i, j, k, e))


class _Axes:
    def __init__(self):
        self.lines, self.fills = [], []

    def loglog(self, x, y, **k):
        self.lines.append((x, y))

    plot = loglog

    def fill_between(self, x, a, b=0, **k):
        self.fills.append((x, a, b))

    def set_ylabel(self, *a, **k):
        pass


FORMS = {"differential flux": "1/(cm2 s TeV)", "energy flux": "erg/(cm2 s)"}


@P.contract(_p + "plot_CI", _p + "_plot_MLmodel", "utils.sed_conversion", samples=80, assumes=["in this contract _calc_CI and _calc_ML stand for their own contracts"])
def curves(c):
    """What is drawn: the bands of the samples and the best model, at their energies, in the form asked for"""
    M = c.M
    form = c.forall("form of the model", list(FORMS))
    sed = c.forall("sed", [True, False])
    n = c.size("energies", min=1, max=4)
    eu = c.unit("plot energies", "energy")
    x = c.qarray("energy", "energy", n, lo=1e-2, hi=1e2)
    x2 = c.qarray("energy of the best", "energy", n, lo=1e-2, hi=1e2)
    un = c.unit("unit", form)
    q = lambda name: c.Q(tensor(c, name, (n,)), un)
    confs = c.forall("levels", [[3, 1, 0.5], [1, 3], [2]])
    CI = [(q("lo%d" % k), q("hi%d" % k)) for k in range(len(confs))]
    best = c.qarray("best", form, n, lo=0.1, hi=10)
    sp, rng, got = object(), object(), []

    ci, ml = c.naima.plot._calc_CI, c.naima.plot._calc_ML

    def calc_CI(*a, **k):
        k = bound(ci, a, k)
        got.append((k["sampler"], {**k, "confs": list(k["confs"])}))
        return x, CI

    def calc_ML(*a, **k):
        k = bound(ml, a, k)
        got.append((k["sampler"], k))
        return 0.0, [1.0], [0.1], (x2, best)

    ax = _Axes()
    given = list(confs)
    with patched(c, _calc_CI=calc_CI, _calc_ML=calc_ML):
        c.naima.plot.plot_CI(ax, sp, modelidx=1, sed=sed, confs=given, e_unit=eu, e_range=rng, e_npoints=17, threads=2, last_step=True)
    c.ensure_is("the levels of the caller stay", given == list(confs))
    c.ensure_is("of the sampler", len(got) == 2 and all(a is sp and k["modelidx"] == 1 and k["e_range"] is rng and k["e_npoints"] == 17 for a, k in got))
    c.ensure_is("all levels, the largest first", got[0][1]["confs"] == sorted(confs, reverse=True) and got[0][1]["last_step"] is True and got[0][1]["threads"] == 2)
    c.ensure_is("one band for each level, one best model", len(ax.fills) == len(confs) and len(ax.lines) == 1)
    out = FORMS["energy flux" if sed else "differential flux"]
    scale = c.scale("erg") / c.scale("TeV")

    def value(v, e):
        """In the form drawn"""
        if form == "energy flux":
            return v if sed else v / (e * e) * scale
        return v * e * e / scale if sed else v

    def check(name, px, py, ex, y):
        c.ensure_shape(name + ": as many points", py, y)
        for (i,) in c.indices(n):
            e = c.At(ex, i, "TeV")
            c.ensure_eq(name + ": energies", c.At(px, i), c.At(ex, i, eu))
            c.ensure_eq(name, c.At(py, i), value(c.At(y, i, FORMS[form]), e))

    for (px, a, b), (lo, hi) in zip(ax.fills, CI):
        top, bottom = (a, b)
        check("upper limit", px, top, x, hi)
        check("lower limit", px, bottom, x, lo)
    check("best model", ax.lines[0][0], ax.lines[0][1], x2, best)


@P.contract(_p + "plot_samples", _p + "_plot_MLmodel", "utils.sed_conversion", samples=80, assumes=[RANDOM, "in this contract _read_or_calc_samples and _calc_ML stand for their own contracts"])
def lines(c):
    """The curves drawn are samples of the model, at their energies, in the form asked for"""
    form = c.forall("form of the model", list(FORMS))
    sed = c.forall("sed", [True, False])
    n, R, D = c.size("energies", min=1, max=4), c.size("samples", min=1, max=5), c.forall("drawn", [1, 2])
    eu = c.unit("plot energies", "energy")
    x, x2 = c.qarray("energy", "energy", n, lo=1e-2, hi=1e2), c.qarray("energy of the best", "energy", n, lo=1e-2, hi=1e2)
    un = c.unit("unit", form)
    y = c.Q(tensor(c, "y", (R, n)), un)
    best = c.qarray("best", form, n, lo=0.1, hi=10)
    sp, rng, got, drawn, best_of = object(), object(), [], [], []

    rs, ml = c.naima.plot._read_or_calc_samples, c.naima.plot._calc_ML

    def samples(*a, **k):
        k = bound(rs, a, k)
        got.append((k["sampler"], k))
        return x, y

    def calc_ML(*a, **k):
        k = bound(ml, a, k)
        best_of.append(k)
        return 0.0, [1.0], [0.1], (x2, best)

    ax = _Axes()
    with patched(c, _read_or_calc_samples=samples, _calc_ML=calc_ML, **({"np": _Numpy(c, drawn)} if c.symbolic else {})):
        c.naima.plot.plot_samples(ax, sp, modelidx=1, sed=sed, n_samples=D, e_unit=eu, e_range=rng, e_npoints=17, threads=2, last_step=True)
    c.ensure_is("of the sampler", got[0][0] is sp and got[0][1]["modelidx"] == 1 and got[0][1]["e_range"] is rng and got[0][1]["e_npoints"] == 17 and got[0][1]["last_step"] is True)
    c.ensure_is("best model of the sampler", len(best_of) == 1 and best_of[0]["sampler"] is sp and best_of[0]["modelidx"] == 1 and best_of[0]["e_range"] is rng and best_of[0]["e_npoints"] == 17)
    c.ensure_is("as many curves as asked for, and the best model", len(ax.lines) == D + 1)
    scale = c.scale("erg") / c.scale("TeV")
    E = FORMS["energy flux" if sed else "differential flux"]

    def value(v, e):
        if form == "energy flux":
            return v if sed else v / (e * e) * scale
        return v * e * e / scale if sed else v

    for k, (px, py) in enumerate(ax.lines):
        one = k == D
        ex = x2 if one else x
        if c.symbolic:
            row = None if one else c.t.app("randint0", (c.t.const(k),), nonneg=True, isint=True)
            curves = [row]
        else:
            curves = [None] if one else list(range(int(R)))
        ok = False
        for row in curves:
            same = True
            for (i,) in c.indices(n):
                e = c.At(ex, i, "TeV")
                v = value(c.At(best, i, FORMS[form]) if one else c.At(y, (row, i), FORMS[form]), e)
                c.ensure_eq("energies", c.At(px, i), c.At(ex, i, eu))
                if c.symbolic or one:
                    c.ensure_eq("the curve is a sample", c.At(py, i), v)
                else:
                    same = same and abs(c.At(py, i) - v) <= 1e-7 * abs(v)
            ok = ok or same
        c.ensure_is("the curve is one of the samples", ok)
