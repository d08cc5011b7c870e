"""P21: reported results are those of the chain"""
import os
import shutil
import tempfile

from pyvc.report import Property
from . import P26
from .chains import EMCEE, Sampler, last

P = Property("P21")
_a = "analysis."
for _f in (P26.ml, P26.ml_without_blobs):
    P.contract("plot.find_ML", samples=120, assumes=[EMCEE])(_f)
TABLE = "astropy's Table keeps the rows added to it and writes them in the format asked for"


class _Column:
    description = ""


class _Table:
    """The part of astropy's table that is used, with symbolic rows"""

    def __init__(self, names=None, dtype=None, **k):
        self.names, self.dtype, self.rows, self.meta, self.written = list(names), list(dtype), [], {}, []
        self.columns = {n: _Column() for n in names}

    def __getitem__(self, n):
        return self.columns[n]

    def add_row(self, vals):
        self.rows.append(dict(zip(self.names, vals)) if not isinstance(vals, dict) else dict(vals))

    def write(self, name, format=None, overwrite=False, **k):
        self.written.append((name, format, overwrite))


class patched:
    def __init__(self, c, **names):
        self.c, self.names = c, names

    def __enter__(self):
        c = self.c
        c.naima.analysis.save_results_table
        self.m = c.pkg.mods["naima.analysis"].__dict__ if c.symbolic else c.naima.analysis.__dict__
        self.old = {k: self.m[k] for k in self.names}
        self.m.update(self.names)

    def __exit__(self, *a):
        self.m.update(self.old)


def _percentiles(c, f, n, kind=None):
    """16, 50 and 84 percent of values, given by index"""
    if c.symbolic:
        s, t = c.s, c.t
        ax = s.axis_of_len(s._t(n)) if not isinstance(n, tuple) else s.Axis(tuple(s._t(k) for k in n), t.true())
        A = s._arrterm(s.SArr(s.Node((ax,), f, "f")))
        return [t.app("quantile", (t.const(q), A)) for q in (16, 50, 84)]
    import numpy as np

    return [float(np.percentile(np.array(f), q)) for q in (16, 50, 84)]


LABELS = {
    1: [["norm"], ["log10(norm)"], ["log(amplitude)"], ["catalog(x)"]],
    2: [["log10(norm)", "index"], ["index", "log(We)"], ["log10(a)", "log(b)"]],
}


def results(c, N, kinds, form="ascii.ecsv", **opts):
    labels = c.forall("labels", LABELS[N])
    sp = Sampler(c, N=N, kinds=kinds, varying=True)
    if c.symbolic:
        # (a model at a single energy is a number)
        c.ex.add(c.t.le(c.t.const(2), c.s._t(sp.n)))
    sp.labels = list(labels)
    info = {"n_walkers": 4, "n_run": 10, "note": "some text"}
    sp.run_info = dict(info)
    tmp = tempfile.mkdtemp() if c.concrete else None
    out = os.path.join(tmp, "fit.v1") if tmp else "somewhere/fit.v1"
    try:
        _results(c, sp, N, kinds, labels, info, out, form, **opts)
    finally:
        if tmp:
            shutil.rmtree(tmp)


def _results(c, sp, N, kinds, labels, info, out, form, step, convert, blobs):
    made = []

    def make(*a, **k):
        made.append(_Table(*a, **k))
        return made[-1]

    k = {} if form is None else {"format": form}
    overwrite = c.forall("overwrite", [True, False])
    call = lambda: c.naima.analysis.save_results_table(out, sp, convert_log=convert, last_step=step, include_blobs=blobs, overwrite=overwrite, **k)
    form = form or "ascii.ecsv"
    ext = "ecsv" if form == "ascii.ecsv" else "dat"
    name = out + "_results." + ext
    if c.symbolic:
        with patched(c, Table=make, HAS_PYYAML=True):
            t = call()
        c.ensure_is("the table returned", len(made) == 1 and t is made[0])
        c.ensure_is("one file written", t.written == [(name, form, overwrite)])
        rows = t.rows
    else:
        if overwrite:
            open(name, "w").close()
        t = call()
        rows = [dict(zip(t.colnames, r)) for r in t]
        c.ensure_is("one file written", os.listdir(os.path.dirname(out)) == [os.path.basename(name)])
        from astropy.table import Table

        back = Table.read(name, format=form)
        c.ensure_is("read back: rows", list(back["label"]) == list(t["label"].astype(str)))
        import numpy as np

        for col in ("median", "unc_lo", "unc_hi"):
            c.ensure("read back: values", bool(np.allclose(back[col], t[col], rtol=1e-9, atol=0, equal_nan=True)))
        if form == "ascii.ecsv":
            c.ensure_is("read back: information", all(_close(back.meta[q], v) for q, v in t.meta.items()) and set(back.meta) == set(t.meta))
        if not overwrite:
            c.ensure_raises("no file is overwritten", OSError, call)
    m = t.meta
    if form == "ascii.ipac":
        m = {q: v["value"] for q, v in t.meta["keywords"].items()}
    # the rows expected
    i0 = last(c, sp.S)
    want = []
    for p, label in enumerate(labels):
        if c.symbolic:
            kk = c.t.const(p)
            f = (lambda w: sp.chain.at(i0, w, kk)) if step else (lambda w: sp.flat().at(w, kk))
            n = sp.W if step else c.t.mul(c.s._t(sp.S), c.s._t(sp.W))
        else:
            f = (sp.chain[-1] if step else sp.chain)[..., p].ravel()
            n = None
        want.append((label, _percentiles(c, f, n)))
        for pre, g in (("log10(", lambda v: c.M.pow(10, v)), ("log(", c.M.exp)):
            if convert and label.startswith(pre):
                h = (lambda w: g(f(w))) if c.symbolic else [float(g(v)) for v in f]
                want.append((label[len(pre) : -1], _percentiles(c, h, n)))
    if blobs:
        for b, kind in enumerate(kinds):
            if kind in ("value", "float") or kind == "array" and c.concrete and sp.n == 1:
                un = None
                if kind != "float":
                    # in the unit stated, that of the last step's first walker
                    un = sp.unit_of(i0, c.t.ZERO, b) if c.symbolic else c.u(m["blob%d_unit" % b])
                if c.symbolic:
                    f = (lambda w: sp.value(i0, w, b, unit=un)) if step else (lambda v, w: sp.value(v, w, b, unit=un))
                    n = sp.W if step else (sp.S, sp.W)
                else:
                    e = () if kind != "array" else (0,)
                    f, n = [sp.value(v, w, b, *e, unit=un) for v in ([i0] if step else range(int(sp.S))) for w in range(int(sp.W))], None
                want.append(("blob%d" % b, _percentiles(c, f, n)))
                if kind != "float":
                    c.ensure_is("the unit of the blob", c.u(m["blob%d_unit" % b]).is_equivalent(sp.unit[b]) if c.concrete else m["blob%d_unit" % b] == repr(un))
    c.ensure_is("a row for each parameter and derived value", [_str(r["label"]) for r in rows] == [w[0] for w in want])
    for r, (label, (lo, med, hi)) in zip(rows, want):
        c.ensure_eq("median", c.V(r["median"]), med, rtol=1e-9)
        c.ensure_eq("lower error: down to the 16th percentile", c.V(r["unc_lo"]), med - lo, rtol=1e-9, atol=1e-12)
        c.ensure_eq("upper error: up to the 84th percentile", c.V(r["unc_hi"]), hi - med, rtol=1e-9, atol=1e-12)
    # the information
    i, j = P26._best(c, sp)
    for p in range(N):
        c.ensure_eq("parameters of the best sample", c.V(m["ML_pars"][p]), sp.chain.at(i, j, c.t.const(p)) if c.symbolic else sp.chain[i, j, p])
    top = sp.lnp.at(i, j) if c.symbolic else float(sp.lnp[i, j])
    c.ensure_eq("largest log-likelihood", c.V(m["MaxLogLikelihood"]), top)
    nd = c.s._t(sp.n) if c.symbolic else sp.n
    c.ensure_eq("Bayesian information", c.V(m["BIC"]), N * c.M.log(nd) - 2 * top, rtol=1e-9, atol=1e-9)
    ns = (c.s._t(sp.W) if step else c.t.mul(c.s._t(sp.S), c.s._t(sp.W))) if c.symbolic else int(sp.W) * (1 if step else int(sp.S))
    c.ensure_eq("number of samples", c.V(m["n_samples"]) if c.symbolic else m["n_samples"], ns)
    c.ensure_is("run information", all(m[q] == v for q, v in info.items()))
    c.ensure_is("the sampler stays", sp.run_info == info and sp.labels == list(labels))


def _str(x):
    return x.decode() if isinstance(x, bytes) else str(x)


def _close(a, b):
    if isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_close(x, y) for x, y in zip(a, b))
    if isinstance(b, float):
        return abs(a - b) <= 1e-9 * abs(b)
    return a == b


for _N in LABELS:

    @P.contract(_a + "save_results_table", "plot.find_ML", samples=60, assumes=[EMCEE, TABLE])
    def _table(c, _N=_N):
        """Rows for the parameters and their logarithms"""
        results(c, _N, ["array", "float"], form=c.forall("format", [None, "ascii.ipac"]), step=c.forall("last step", [True, False]), convert=c.forall("convert", [True, False]), blobs=c.forall("include", [True, False]))

    P.harnesses[-1].name = "table_%d" % _N


@P.contract(_a + "save_results_table", "plot.find_ML", samples=60, assumes=[EMCEE, TABLE])
def derived(c):
    """Rows for the values stored with the samples"""
    kinds = c.forall("kinds", [["array", "value"], ["value", "float", "value"], ["pair", "float"], ["array", "array", "list pair", "value"]])
    results(c, 1, kinds, step=c.forall("last step", [True, False]), convert=True, blobs=True)
