"""P15: data tables"""
from pyvc.report import Property
from .common import TABLE_EDGES, table_edges_stub

P = Property("P15")
_v, _s, _b = "naima.utils.validate_data_table", "naima.utils._validate_single_data_table", "naima.utils.build_data_table"
_col = "naima.utils.validate_column"
FORMS = {"differential flux": "1/(cm2 s TeV)", "energy flux": "erg/(cm2 s)", "differential power": "1/(s TeV)", "power": "erg/s"}
SED = {"differential flux": "energy flux", "energy flux": "energy flux", "differential power": "power", "power": "power"}
DIFF = {"differential flux": "differential flux", "energy flux": "differential flux", "differential power": "differential power", "power": "differential power"}
BINS = ["width", "half width", "distances", "edges", "none"]


class T:
    """A table as the user gives it, and what is documented for each of its rows"""

    def __init__(self, c, form="differential flux", err="one", bins="none", ul=None, flux_ul=False, cl=None, group=None, plain=False, nr="", n=None, number=0, alone=None):
        self.c, self.form, M = c, form, c.M
        self.n = n = c.size("n" + nr, min=1, max=5) if n is None else n
        q = lambda name, pt, **k: c.qarray(name + nr, pt, n, **k)
        self.energy = e = q("energy", "energy", lo=0.1, hi=100, ref="TeV", log=True)
        ref = FORMS[form]
        d = {"energy": e, "flux": q("flux", form, lo=0.1, hi=10, ref=ref)}
        tev = lambda x, i: c.At(x, i, "TeV")
        f = lambda x: lambda i: c.At(x, i, ref)
        self.flux = f(d["flux"])
        if err == "one":
            d["flux_error"] = q("err", form, lo=0.1, hi=1, ref=ref)
            self.lo = self.hi = f(d["flux_error"])
        else:
            d["flux_error_lo"] = q("errlo", form, lo=0.1, hi=1, ref=ref)
            d["flux_error_hi"] = q("errhi", form, lo=0.1, hi=1, ref=ref)
            self.lo, self.hi = f(d["flux_error_lo"]), f(d["flux_error_hi"])
        if bins == "width":
            w = d["energy_width"] = q("width", "energy", lo=0.01, hi=0.1, ref="TeV")
            self.elo = self.ehi = lambda i: tev(w, i) / 2
        elif bins == "half width":
            h = d["energy_error"] = q("half", "energy", lo=0.01, hi=0.1, ref="TeV")
            self.elo = self.ehi = lambda i: tev(h, i)
        elif bins == "distances":
            a = d["energy_error_lo"] = q("dlo", "energy", lo=0.01, hi=0.1, ref="TeV")
            b = d["energy_error_hi"] = q("dhi", "energy", lo=0.01, hi=0.1, ref="TeV")
            self.elo, self.ehi = lambda i: tev(a, i), lambda i: tev(b, i)
        elif bins == "edges":
            a2 = d["energy_lo"] = q("edgelo", "energy", lo=0.01, hi=0.09, ref="TeV")
            b2 = d["energy_hi"] = q("edgehi", "energy", lo=120, hi=1000, ref="TeV")
            self.elo, self.ehi = lambda i: tev(e, i) - tev(a2, i), lambda i: tev(b2, i) - tev(e, i)
        else:
            self.elo = self.ehi = None
        if alone is not None:
            # one side of the bins is not enough: ignored
            d[alone] = q("alone", "energy", lo=0.01, hi=0.09, ref="TeV")
        if group is not None:
            g = d["group"] = group(n)
            self.group = lambda i: c.At(g, i)
        else:
            self.group = lambda i: number
        if ul is None:
            self.ul = lambda i: 0
        else:
            flags = c.boolarray("ul" + nr, n) if ul == "bool" else c.flags("ul" + nr, n)
            d["ul"] = flags
            if ul == "text":
                d["ul"] = __import__("numpy").array(["True" if x else "False" for x in flags])
            self.ul = lambda i: M.ite(_flag(c, c.At(flags, i)), lambda: M.q(1), lambda: M.q(0))
        if flux_ul:
            x = d["flux_ul"] = q("limit", form, lo=0.1, hi=10, ref=ref)
            detected = self.flux
            self.flux = lambda i: M.ite(M.lt(0, self.ul(i)), lambda: c.At(x, i, ref), lambda: detected(i))
        self.table = c.table(d, plain=plain)
        self.cl = 0.9 if c.concrete else M.q(9, 10)
        if cl == "given":
            v = c.num("cl" + nr, lo=0.5, hi=0.99, pos=True)
            self.cl = c.V(v)
            self.table.meta["keywords"] = {"cl": {"value": v}, "name": {"value": "x"}}
        elif cl == "other keywords":
            self.table.meta["keywords"] = {"name": {"value": "x"}}

    def to(self, form, x, i):
        """A flux in the requested form"""
        if form == self.form:
            return x
        E, q = self.c.At(self.energy, i, "TeV"), self.c.scale("erg") / self.c.scale("TeV")
        return x * E * E / q if form in ("energy flux", "power") else x / (E * E) * q

    def check(self, r, k, i, form, bins=True):
        """Row k of the result is row i of this table"""
        c = self.c
        u = FORMS[form]
        c.ensure_eq("energy", c.At(r["energy"], k, "TeV"), c.At(self.energy, i, "TeV"))
        c.ensure_eq("flux", c.At(r["flux"], k, u), self.to(form, self.flux(i), i))
        c.ensure_eq("lower error", c.At(r["flux_error_lo"], k, u), self.to(form, self.lo(i), i))
        c.ensure_eq("upper error", c.At(r["flux_error_hi"], k, u), self.to(form, self.hi(i), i))
        if self.elo is not None and bins:
            c.ensure_eq("bin below", c.At(r["energy_error_lo"], k, "TeV"), self.elo(i))
            c.ensure_eq("bin above", c.At(r["energy_error_hi"], k, "TeV"), self.ehi(i))
        c.ensure_eq("upper limit", c.M.ite(_flag(c, c.At(r["ul"], k)), lambda: c.M.q(1), lambda: c.M.q(0)), self.ul(i))
        c.ensure_eq("confidence level", c.At(r["cl"], k), self.cl)
        c.ensure_eq("group", c.At(r["group"], k), self.group(i))


def _flag(c, x):
    return c.t.ne(x, c.t.ZERO) if c.symbolic and isinstance(x, c.t.T) else bool(x) if c.concrete else x


def _check(c, r, x, form, **k):
    """All rows, in the order of the energies"""
    p = c.order(x.energy)
    c.ensure_unit("unit of the flux", r["flux"][:1], FORMS[form])
    c.ensure_unit("unit of the errors", r["flux_error_lo"][:1], FORMS[form])
    c.ensure_unit("unit of the errors", r["flux_error_hi"][:1], FORMS[form])
    c.ensure_shape("rows", r["flux"], x.energy)
    for (k_,) in c.indices(x.n):
        x.check(r, k_, p[k_], form, **k)




@P.contract(_v, _s, _col, samples=400)
def columns(c):
    """Every choice of the columns of errors and energy bins"""
    x = T(c, form=c.forall("form", list(FORMS)), err=c.forall("errors", ["one", "two"]), bins=c.forall("bins", BINS[:4]), plain=c.forall("plain", [False, True]))
    _check(c, c.naima.utils.validate_data_table(x.table), x, x.form)


@P.contract(_v, _s, samples=100, stubs=(table_edges_stub,), assumes=(TABLE_EDGES,))
def generated_bins(c):
    """Without any bins, they are those generated for the energies and groups of the table"""
    group = c.forall("groups", [None, lambda n: c.labels("g", n, (1, 4))])
    x = T(c, plain=c.forall("plain", [False, True]), group=group, n=c.size("n", min=3, max=6), alone=c.forall("one side", [None, "energy_lo", "energy_hi", "energy_error_lo", "energy_error_hi"]))
    r = c.naima.utils.validate_data_table(x.table)
    e = x.energy
    g = x.table["group"] if group else c.naima.utils.np.zeros(x.n)
    lo, hi = c.naima.utils.generate_energy_edges(e, groups=g)
    p = c.order(e)
    for (k,) in c.indices(x.n):
        x.check(r, k, p[k], x.form)
        c.ensure_eq("bin below", c.At(r["energy_error_lo"], k, "TeV"), c.At(lo, p[k], "TeV"))
        c.ensure_eq("bin above", c.At(r["energy_error_hi"], k, "TeV"), c.At(hi, p[k], "TeV"))


@P.contract(_v, _s, samples=300)
def limits(c):
    """Upper limit flags, fluxes and confidence level"""
    kinds = [None, "bool", "int"] + (["text"] if c.concrete else [])
    ul = c.choice("kind of flag", kinds)
    x = T(c, form=c.forall("form", list(FORMS)[:2]), bins="half width", ul=ul, flux_ul=c.forall("limits in a column", [False, True]),
          cl=c.forall("confidence level", [None, "given", "other keywords"]), plain=c.forall("plain", [False, True]))
    _check(c, c.naima.utils.validate_data_table(x.table), x, x.form)


@P.contract(_v, samples=200)
def form(c):
    """SED or differential flux where the caller asks for it"""
    sed = c.forall("sed", [True, False])
    x = T(c, form=c.forall("form", list(FORMS)), err=c.forall("errors", ["one", "two"]), bins="distances", ul="bool", flux_ul=c.forall("limits", [False, True]), plain=c.forall("plain", [False, True]))
    _check(c, c.naima.utils.validate_data_table(x.table, sed=sed), x, (SED if sed else DIFF)[x.form])


@P.contract(_v, _s, samples=300)
def joined(c):
    """Several tables: each row keeps its own values and its own group"""
    f1 = c.forall("form", list(FORMS))
    other = {"differential flux": "energy flux", "energy flux": "differential flux", "differential power": "power", "power": "differential power"}
    f2 = c.forall("form of the second", [f1, other[f1]])
    sed = c.forall("sed", [None, True, False])
    own = c.forall("groups", [False, True])
    g = (lambda n: c.integers("g", n)) if own else None
    a = T(c, form=f1, bins="half width", ul="bool", cl="given", nr="1")
    b = T(c, form=f2, err="two", bins="edges", cl=None, nr="2", group=g, n=c.size("n2", min=1, max=5) if own else None, number=1, plain=c.forall("plain", [False, True]))
    want = f1 if sed is None else (SED if sed else DIFF)[f1]
    _joined(c, c.naima.utils.validate_data_table([a.table, b.table], sed=sed), [a, b], want)


@P.contract(_v, _s, samples=100)
def three(c):
    """Three tables"""
    f1 = c.forall("form", list(FORMS)[:2])
    xs = [T(c, form=f1, bins=b, ul=ul, cl=cl, nr=str(k), number=k) for k, (b, ul, cl) in enumerate([("width", "bool", None), ("half width", None, "given"), ("distances", "int", None)])]
    _joined(c, c.naima.utils.validate_data_table([x.table for x in xs]), xs, f1)


def _joined(c, r, xs, form):
    e = c.concat([x.energy for x in xs])
    p = c.order(e)
    c.ensure_shape("rows", r["energy"], e)
    M = c.M
    n = c.length(e)
    for (k,) in c.indices(n):
        i, start = p[k], 0
        if c.symbolic:
            t = c.t
            start = t.ZERO
            which = c.choice("table of the row", list(range(len(xs))))
            for x in xs[:which]:
                start = t.add(start, c.s._t(x.n))
            c.assume(t.le(start, i))
            c.assume(t.lt(i, t.add(start, c.s._t(xs[which].n))))
            j = t.add(i, t.neg(start))
            for f in c.ex.instantiate((j,), (c.s._t(xs[which].n),)):
                c.ex.add(f)
            xs[which].check(r, k, j, form)
            return
        for x in xs:
            if i < start + x.n:
                x.check(r, k, i - start, form)
                break
            start += x.n


@P.contract(_b, _v, _s, samples=200)
def built(c):
    """A table built from arrays contains these arrays, and validates to them"""
    x = T(c, form=c.forall("form", list(FORMS)), err=c.forall("errors", ["one", "two"]), bins=c.forall("bins", ["width", "edges"]), ul=c.forall("flags", [None, "bool"]), cl=c.forall("cl", [None, "given"]))
    t = x.table
    k = {n: t[n] for n in t.colnames if n not in ("energy", "flux")}
    if "keywords" in t.meta:
        k["cl"] = t.meta["keywords"]["cl"]["value"]
    b = c.naima.utils.build_data_table(t["energy"], t["flux"], **k)
    for i in c.each(b["energy"]):
        c.ensure_eq("energy", c.At(b["energy"], i, "TeV"), c.At(x.energy, i, "TeV"))
        c.ensure_eq("flux", c.At(b["flux"], i, FORMS[x.form]), x.flux(i if c.symbolic else i[0] if isinstance(i, tuple) else i))
    _check(c, c.naima.utils.validate_data_table(b), x, x.form)


@P.contract(_b, samples=60, stubs=(table_edges_stub,), assumes=(TABLE_EDGES,))
def one_side(c):
    """One side of the bins is not enough: the bins are those generated"""
    side = c.forall("side", ["energy_lo", "energy_hi"])
    x = T(c, bins="none", alone=side, n=c.size("n", min=3, max=6))
    t = x.table
    kw = {"flux_error": t["flux_error"]}
    a = c.naima.utils.build_data_table(t["energy"], t["flux"], **kw, **{side: t[side]})
    c.ensure_is("no bins in the table", not any(k.startswith("energy_") for k in a.colnames))
    for i in c.each(a["energy"]):
        c.ensure_eq("energy", c.At(a["energy"], i, "TeV"), c.At(x.energy, i, "TeV"))


@P.contract(_v, _s, _col, _b, samples=200)
def refused(c):
    """Missing or wrongly dimensioned columns"""
    x = T(c, err="two", bins="half width", plain=c.forall("plain", [False, True]), ul="bool")
    what = c.forall("what", ["energy", "flux", "flux_error_lo", "flux_error_hi", "all errors", "energy unit", "flux unit", "error unit", "bin unit", "no unit", "flag", "not a table", "list of others"])
    t = x.table
    bad = c.qarray("bad", "length", x.n, lo=1, hi=2)
    if what in ("energy", "flux", "flux_error_lo", "flux_error_hi"):
        t.remove_column(what)
    elif what == "all errors":
        t.remove_column("flux_error_lo")
        t.remove_column("flux_error_hi")
    elif what.endswith(" unit") and what != "no unit":
        t[{"energy": "energy", "flux": "flux", "error": "flux_error_hi", "bin": "energy_error"}[what.split()[0]]] = bad
    elif what == "no unit":
        t["flux"] = c.array("bare", x.n, lo=1, hi=2)
    elif what == "flag":
        t["ul"] = c.array("bare", x.n, lo=1, hi=2, whole=False)
    arg = t
    if what == "not a table":
        arg = c.qarray("other", "energy", 2, lo=1, hi=2) if c.forall("array", [True, False]) else 3
    elif what == "list of others":
        arg = [t, {"energy": 1}]
    c.ensure_raises("refused", TypeError, lambda: c.naima.utils.validate_data_table(arg))


@P.contract(_v, samples=60)
def mixed(c):
    """Fluxes and luminosities cannot be joined"""
    a, b = c.forall("first", list(FORMS)), c.forall("second", list(FORMS))
    c.assume(("power" in a) != ("power" in b))
    x, y = T(c, form=a, bins="half width", nr="1"), T(c, form=b, bins="half width", nr="2")
    c.ensure_raises("refused", (TypeError, ValueError), lambda: c.naima.utils.validate_data_table([x.table, y.table]))


@P.contract(_v, _s, samples=100)
def left_alone(c):
    """The table given is not changed, and the result is another one"""
    x = T(c, form=c.forall("form", list(FORMS)), bins="half width", ul="bool", flux_ul=True, plain=c.forall("plain", [False, True]))
    before = {n: x.table[n].copy() for n in x.table.colnames}
    r = c.naima.utils.validate_data_table(x.table, sed=c.forall("sed", [None, True, False]))
    r["flux"] *= 2
    r["energy"] *= 3
    c.ensure_is("columns", list(x.table.colnames) == list(before))
    for i in c.each(before["energy"]):
        for n, u in (("energy", "TeV"), ("flux", FORMS[x.form]), ("flux_error", FORMS[x.form]), ("flux_ul", FORMS[x.form])):
            c.ensure_eq(n, c.At(_q(c, x.table[n]), i, u), c.At(_q(c, before[n]), i, u))


def _q(c, x):
    return x.quantity if hasattr(x, "quantity") else x
