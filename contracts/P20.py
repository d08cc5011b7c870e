"""P20: a saved run reads back to what was saved"""
import os
import shutil
import tempfile

from pyvc.report import Property
from .chains import EMCEE, Sampler

P = Property("P20")
_a = "analysis."
H5 = "a HDF5 file keeps the values of a dataset in order, and the attributes, under their names; one opened with 'w' loses what it had"
TABLE = "astropy's write_table_hdf5 and read_table_hdf5 keep a table with its units"
UNITS = "the name of a unit written by astropy is read as the same unit"


# ---------------------------------------------------------------- files in memory
class Files:
    def __init__(self, c):
        self.c, self.files, self.opened = c, {}, []

    def File(self, name, mode="a"):
        name = str(name)
        self.opened.append((name, mode))
        if mode == "w":
            self.files[name] = Group(self.c)
        elif mode != "r":
            raise NotImplementedError(mode)
        elif name not in self.files:
            raise OSError("no file " + name)
        return self.files[name]


class Attrs(dict):
    def __setitem__(self, k, v):
        ok = lambda x: isinstance(x, (str, int, float)) or hasattr(x, "node")
        if not (ok(v) or isinstance(v, (list, tuple)) and all(ok(x) for x in v)):
            raise TypeError("no native HDF5 equivalent")
        dict.__setitem__(self, k, v)


class Group:
    def __init__(self, c):
        self.c, self.items, self.attrs = c, {}, Attrs()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    def create_group(self, name):
        self._new(name, Group(self.c))
        return self.items[name]

    def _new(self, name, x):
        if name in self.items:
            raise ValueError("name already exists")
        self.items[name] = x

    def create_dataset(self, name, data=None, compression=None):
        self._new(name, Dataset(self.c.s.np.array(data)))
        return self.items[name]

    def __getitem__(self, name):
        g = self
        for part in name.split("/"):
            g = g.items[part]
        return g

    def __contains__(self, name):
        return name in self.items

    def __iter__(self):
        return iter(sorted(self.items))

    def keys(self):
        return sorted(self.items)


def Dataset(arr):
    class D(type(arr)):
        def __getitem__(self, k):
            return (arr if k == () else arr[k]).copy()

    r = D(arr.node)
    r.attrs = Attrs()
    return r


class patched:
    def __init__(self, c, **names):
        self.c, self.names = c, names

    def __enter__(self):
        c = self.c
        c.naima.analysis.save_run
        self.m = c.pkg.mods["naima.analysis"].__dict__ if c.symbolic else c.naima.analysis.__dict__
        self.old = {k: self.m[k] for k in self.names}
        self.m.update(self.names)
        return self

    def __exit__(self, *a):
        self.m.update(self.old)


class _Os:
    def __init__(self, files, existing):
        self.path = self
        self.files, self.existing = files, existing

    def exists(self, name):
        return str(name) in self.files.files or str(name) in self.existing


class Storage:
    """Files in a scratch directory, or in memory"""

    def __init__(self, c):
        self.c = c

    def __enter__(self):
        c = self.c
        if c.concrete:
            self.dir = tempfile.mkdtemp()
            return self
        self.dir = "somewhere"
        self.files, self.existing = Files(c), set()
        self.tables = []
        self.patch = patched(c, h5py=self.files, os=_Os(self.files, self.existing), write_table_hdf5=self._write, read_table_hdf5=self._read)
        self.patch.__enter__()
        return self

    def _write(self, table, group, path=None, serialize_meta=False, compression=None):
        group._new(path, table)
        # (that of the column descriptions)
        group._new(path + ".__table_column_meta__", None)

    def _read(self, group, path):
        return group[path]

    def __exit__(self, *a):
        if self.c.concrete:
            shutil.rmtree(self.dir)
        else:
            self.patch.__exit__()

    def path(self, name):
        return os.path.join(self.dir, name)


INFO = {"n_walkers": 12, "n_run": 100, "note": "some text", "guess": 1.5, "p0": [1.0, 2.0], "other": None}


def _eq(a, b):
    import numpy as np

    return bool(np.all(np.asarray(a) == np.asarray(b)))


def same(c, sp, r, what="", modelfn=None):
    """A sampler r has what sp has"""
    S, W, N = sp.S, sp.W, sp.N
    chain, lnp, blobs = r.get_chain(), r.get_log_prob(), r.get_blobs()
    _dims(c, what + "chain", chain, (S, W, N))
    _dims(c, what + "log-probability", lnp, (S, W))
    flat = r.get_chain(flat=True)
    # (the place of blobs that can not be saved is kept, when there are others after them)
    kinds = list(sp.kinds)
    while kinds and kinds[-1] == "text":
        kinds.pop()
    c.ensure_is(what + "kinds of blobs", int(blobs.shape[2]) == len(kinds))
    if c.concrete:
        c.ensure_is(what + "flattened chain", _eq(flat, sp.get_chain(flat=True)))
        c.ensure_is(what + "flattened blobs", r.get_blobs(flat=True).shape == (int(S) * int(W), len(kinds)))
        c.ensure_is(what + "flattened log-probability", _eq(r.get_log_prob(flat=True), sp.lnp.ravel()))
        c.ensure_is(what + "chain", _eq(chain, sp.chain))
        c.ensure_is(what + "log-probability", _eq(lnp, sp.lnp))
    for (i,) in c.indices(S):
        for (j,) in c.indices(W):
            if c.symbolic:
                for p in range(N):
                    k = c.t.const(p)
                    c.ensure_eq(what + "chain", chain.at(i, j, k), sp.chain.at(i, j, k))
                    c.ensure_eq(what + "flattened chain", flat.at(i, j, k), sp.chain.at(i, j, k))
                c.ensure_eq(what + "log-probability", lnp.at(i, j), sp.lnp.at(i, j))
                c.ensure_eq(what + "flattened log-probability", r.get_log_prob(flat=True).at(i, j), sp.lnp.at(i, j))
            for k, kind in enumerate(kinds):
                b = blobs[c.s._wrap_len(i) if c.symbolic else i, c.s._wrap_len(j) if c.symbolic else j, k]
                item = sp.blob(i, j, k)
                if kind == "text":
                    if c.concrete:
                        c.ensure_is(what + "kind of blob not saved", b != b)
                    continue
                if "pair" in kind:
                    c.ensure_is(what + "pairs", isinstance(b, (list, tuple)) and len(b) == 2)
                    x = b[0]
                    for e in c.indices(sp.m):
                        c.ensure_eq(what + "first of the pair", c.V(x[_ix(c, e[0])].to_value("TeV" if kind != "plain pair" else "")), c.V(sp.x[k][_ix(c, e[0])].to_value("TeV")), rtol=1e-12)
                    b, item = b[1], item[1]
                if kind == "float":
                    c.ensure_eq(what + "number", c.V(b * c.u("")), sp.value(i, j, k), rtol=1e-15)
                    continue
                c.ensure_is(what + "unit of a blob", b.unit.is_equivalent(sp.unit[k]))
                if kind == "value":
                    c.ensure_eq(what + "value", c.V(b.to_value(sp.unit[k])), sp.value(i, j, k), rtol=1e-12)
                    continue
                n = sp.m if "pair" in kind else sp.n
                _dims(c, what + "length of a blob", b, (n,))
                for e in c.indices(n):
                    c.ensure_eq(what + "values of a blob", c.V(b[_ix(c, e[0])].to_value(sp.unit[k])), sp.value(i, j, k, e[0]), rtol=1e-12)
    c.ensure_is(what + "labels", [str(x) for x in r.labels] == list(sp.labels))
    c.ensure_is(what + "model function", r.modelfn is modelfn)
    for key, v in sp.run_info.items():
        want = str(v) if v is None else v
        c.ensure_is(what + "run information", key in r.run_info and (_eq(r.run_info[key], want)))
    if c.symbolic:
        c.ensure_is(what + "data", r.data is sp.data)
        c.ensure_eq(what + "acceptance fraction", c.V(r.acceptance_fraction), c.V(c.s.np.mean(sp.acceptance_fraction)))
    else:
        import numpy as np

        c.ensure_is(what + "data", r.data.colnames == sp.data.colnames)
        for col in sp.data.colnames:
            c.ensure_is(what + "data", _eq(r.data[col], sp.data[col]) and r.data[col].unit == sp.data[col].unit)
        c.ensure_eq(what + "acceptance fraction", r.acceptance_fraction, float(np.mean(sp.acceptance_fraction)), rtol=1e-12)


def _dims(c, name, x, dims):
    if c.concrete:
        return c.ensure_is(name + ": shape", x.shape == tuple(int(n) for n in dims))
    c.ensure_is(name + ": dimensions", len(x.axes) == len(dims))
    for a, n in zip(x.axes, dims):
        c.ensure_eq(name + ": shape", a.length, c.s._t(n))


def _ix(c, e):
    return c.s._wrap_len(e) if c.symbolic else e


COMBOS = [["array"], ["value"], ["float"], ["pair"], ["list pair"], ["array", "float", "value"], ["pair", "array"], ["plain pair", "value"], ["text", "array"], ["array", "text"], ["array", "list pair", "float"], []]
for _k, _kinds in enumerate(COMBOS):

    @P.contract(_a + "save_run", _a + "read_run", _a + "_result.get_value", _a + "_result.get_chain", _a + "_result.get_log_prob", _a + "_result.get_blobs", samples=25, assumes=[EMCEE, H5, TABLE, UNITS])
    def roundtrip(c, _kinds=_kinds):
        """What is saved is what is read"""
        N = c.forall("parameters", [1, 3])
        sp = Sampler(c, N=N, kinds=_kinds, varying=True)
        if c.symbolic:
            c.ex.add(c.t.le(c.t.const(2), c.s._t(sp.n)))
        sp.run_info = dict(INFO)
        comp = c.forall("compression", [True, False])
        fn = c.forall("model", [None, len])
        with Storage(c) as st:
            name = st.path(c.forall("name", ["run.h5", "run.v2.hdf5"]))
            c.ensure_is("saved", c.naima.save_run(name, sp, compression=comp) is None)
            r = c.naima.read_run(name, modelfn=fn)
            same(c, sp, r, modelfn=fn)
            c.ensure_is("the sampler stays", sp.run_info == INFO)

    P.harnesses[-1].name = "roundtrip_" + ("_".join(_kinds) or "none").replace(" ", "_")


ALL = [_a + f for f in ("save_run", "read_run", "_result.get_value", "_result.get_chain", "_result.get_log_prob", "_result.get_blobs")]
for _k, _kinds in enumerate([["array"], ["value", "float"], ["list pair"], ["pair", "array"]]):

    @P.contract(*ALL, samples=20, assumes=[EMCEE, H5, TABLE, UNITS])
    def again(c, _kinds=_kinds):
        """What was read can be saved again, and reads back to the same"""
        sp = Sampler(c, N=2, kinds=_kinds, varying=True)
        if c.symbolic:
            c.ex.add(c.t.le(c.t.const(2), c.s._t(sp.n)))
        sp.run_info = dict(INFO)
        with Storage(c) as st:
            c.naima.save_run(st.path("one.h5"), sp)
            first = c.naima.read_run(st.path("one.h5"), modelfn=len)
            c.naima.save_run(st.path("two.h5"), first)
            r = c.naima.read_run(st.path("two.h5"), modelfn=len)
            same(c, sp, r, "again: ", modelfn=len)
            same(c, sp, first, "first: ", modelfn=len)

    P.harnesses[-1].name = "again_" + "_".join(_kinds).replace(" ", "_")


@P.contract(*ALL, samples=10, assumes=[EMCEE, H5, TABLE, UNITS])
def many(c):
    """More parameters and blobs than have a single digit"""
    kinds = ["value", "float"] * 6
    sp = Sampler(c, N=12, kinds=kinds)
    sp.labels = ["q%d" % (7 * k % 12) for k in range(12)]
    with Storage(c) as st:
        c.naima.save_run(st.path("one.h5"), sp)
        same(c, sp, c.naima.read_run(st.path("one.h5")))


@P.contract(_a + "save_run", _a + "read_run", samples=25, assumes=[EMCEE, H5, TABLE, UNITS])
def overwriting(c):
    """A file that exists stays as it is, unless told"""
    old, new = Sampler(c, N=1, kinds=["float"]), Sampler(c, N=2, kinds=["float"])
    old.labels = ["old"]
    clobber = c.forall("clobber", [None, True, False])
    kw = {} if clobber is None else {"clobber": clobber}
    with Storage(c) as st:
        name = st.path("run.h5")
        c.naima.save_run(name, old)
        if c.symbolic:
            c.ensure_is("written once", st.files.opened == [(name, "w")])
        else:
            before = open(name, "rb").read()
        c.naima.save_run(name, new, **kw)
        if not clobber:
            if c.symbolic:
                c.ensure_is("not opened again", st.files.opened == [(name, "w")])
            else:
                c.ensure_is("the same bytes", open(name, "rb").read() == before)
        r = c.naima.read_run(name)
        c.ensure_is("labels", [str(x) for x in r.labels] == (["p0", "p1"] if clobber else ["old"]))
        same(c, new if clobber else old, r)


@P.contract(_a + "save_run", samples=10, assumes=[EMCEE, H5, TABLE, UNITS])
def foreign(c):
    """Nor is a file that is no run written over, or one whose name has another suffix"""
    sp = Sampler(c, N=1, kinds=["float"])
    clobber = c.forall("clobber", [True, False])
    other = c.forall("other name", ["run", "run.txt", "h5", "run.h5.bak", ".h5", "run.H5"])
    with Storage(c) as st:
        path = st.path(other)
        c.ensure_raises("another suffix", ValueError, lambda: c.naima.save_run(path, sp, clobber=clobber))
        if c.concrete:
            c.ensure_is("nothing is written", os.listdir(st.dir) == [])
        else:
            c.ensure_is("nothing is written", st.files.opened == [])
        name = st.path("other.hdf5")
        if c.concrete:
            with open(name, "w") as f:
                f.write("something else")
        else:
            st.existing.add(name)
        if not clobber:
            c.naima.save_run(name, sp, clobber=False)
            if c.concrete:
                c.ensure_is("the file stays", open(name).read() == "something else")
            else:
                c.ensure_is("the file stays", st.files.opened == [])
        else:
            c.naima.save_run(name, sp, clobber=True)
            same(c, sp, c.naima.read_run(name))


@P.contract(*ALL, "plot.find_ML", samples=20, assumes=[EMCEE, H5, TABLE, UNITS])
def best(c):
    """The best sample of the run read is that of the run saved"""
    kinds = c.forall("kinds", [["array", "value"], ["value", "array"]])
    sp = Sampler(c, N=2, kinds=kinds)
    sp.run_info = dict(INFO)
    if c.symbolic:
        c.ex.add(c.t.le(c.t.const(2), c.s._t(sp.n)))
    k = kinds.index("array")
    with Storage(c) as st:
        name = st.path("run.h5")
        c.naima.save_run(name, sp)
        r = c.naima.read_run(name)
        (m1, p1, e1, (x1, y1)), (m2, p2, e2, (x2, y2)) = [c.naima.plot.find_ML(x, k) for x in (sp, r)]
        c.ensure_eq("largest log-probability", c.V(m1), c.V(m2))
        for p in range(2):
            c.ensure_eq("parameters", c.V(p1[p]), c.V(p2[p]))
            if c.concrete:
                c.ensure_eq("errors", e1[p], e2[p])
        for e in c.indices(sp.n):
            c.ensure_eq("energies", c.V(x1[_ix(c, e[0])].to_value("TeV")), c.V(x2[_ix(c, e[0])].to_value("TeV")), rtol=1e-12)
            c.ensure_eq("model", c.V(y1[_ix(c, e[0])].to_value(sp.unit[k])), c.V(y2[_ix(c, e[0])].to_value(sp.unit[k])), rtol=1e-12)


@P.contract(*ALL, _a + "save_results_table", "plot.find_ML", symbolic=False, samples=40, why="the functions of the analysis read the accessors proved equal")
def analysis(c):
    """The functions of the analysis return the same for the run read"""
    import numpy as np

    kinds = c.choice("kinds", [["array", "value"], ["value", "float"], ["array", "pair"]])
    sp = Sampler(c, N=2, kinds=kinds)
    sp.run_info = {"n_walkers": 4, "n_run": 10}
    with Storage(c) as st:
        name = st.path("run.h5")
        c.naima.save_run(name, sp)
        r = c.naima.read_run(name)
        a, b = [c.naima.plot.find_ML(x, 0) for x in (sp, r)]
        c.ensure_is("maximum likelihood", _eq(a[0], b[0]) and _eq(a[1], b[1]) and _eq(a[2], b[2]))
        for x, y in zip(a[3], b[3]):
            c.ensure("model of the maximum likelihood", bool(np.allclose(y.to_value(x.unit) if hasattr(x, "unit") else y, x.value if hasattr(x, "unit") else x, rtol=1e-12, atol=0)))
        last = c.choice("last step", [True, False])
        t1, t2 = [c.naima.save_results_table(st.path(n), x, last_step=last) for n, x in (("a", sp), ("b", r))]
        n = min(len(t1), len(t2))
        c.ensure_is("labels of the table", list(t1["label"][:n]) == list(t2["label"][:n]))
        for col in ("median", "unc_lo", "unc_hi"):
            c.ensure("values of the table", bool(np.allclose(t1[col][:n], t2[col][:n], rtol=1e-9, atol=1e-12)))
        c.ensure_is("rows of the table", len(t1) == len(t2))
