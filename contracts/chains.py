"""A sampler with a chain of any length, and the blobs of any kind it stores (both modes).

The library emcee is represented by what its accessors return: the chain of shape (steps, walkers,
parameters), also flattened step by step, the log-probabilities of shape (steps, walkers) and the
blobs as an array of objects of shape (steps, walkers, number of blobs)."""

EMCEE = "emcee's get_chain, get_log_prob and get_blobs return the stored states in the same order, flat=True the same step by step"
KINDS = ["array", "value", "float", "pair", "list pair"]


def tensor(c, name, dims, lo=0.5, hi=5.0, pos=True):
    if c.symbolic:
        s, t = c.s, c.t
        return s.SArr(s.Node(tuple(s.axis_of_len(s._t(d)) for d in dims), lambda *i: t.app(name, i, pos=pos), "f"))
    import numpy as np

    n = int(np.prod([int(d) for d in dims]))
    v = c.array(name, n, lo=lo, hi=hi) if n else np.zeros(0)
    return np.array(v, dtype=float).reshape([int(d) for d in dims])


def last(c, n):
    return c.t.add(c.s._t(n), c.t.MINUS1) if c.symbolic else int(n) - 1


class Sampler:
    def __init__(self, c, N=2, kinds=("array",), model=None, modelkind="array", blobs=True, S=None, W=None, n=None, form="differential flux", varying=False):
        self.varying = varying
        self.c, self.N, self.kinds = c, N, list(kinds)
        self.S = c.size("steps", min=1, max=3) if S is None else S
        self.W = c.size("walkers", min=1, max=4) if W is None else W
        self.n = c.size("energies", min=1, max=4) if n is None else n
        # a number of energies that is not 1 is not the size of a number
        self.data = c.table({"energy": c.qarray("energy", "energy", self.n, lo=1e-2, hi=1e2, ref="TeV"), "flux": c.qarray("flux", form, self.n, lo=0.1, hi=10)})
        self.chain = tensor(c, "chain", (self.S, self.W, N))
        self.lnp = tensor(c, "lnp", (self.S, self.W), lo=-5, hi=5, pos=False)
        self.unit = [c.unit("blob%d.unit" % k, "differential flux") if kind not in ("float", "text") else None for k, kind in enumerate(self.kinds)]
        self.m = c.size("other energies", min=1, max=4) if any("pair" in k for k in self.kinds) else None
        self.x = [c.qarray("x%d" % k, "energy", self.m, lo=1e-2, hi=1e2) if "pair" in kind else None for k, kind in enumerate(self.kinds)]
        size = {"array": (self.n,), "value": (), "float": (), "text": (), "pair": (self.m,), "list pair": (self.m,), "plain pair": (self.m,)}
        self.val = [tensor(c, "blob%d" % k, (self.S, self.W) + size[kind]) for k, kind in enumerate(self.kinds)]
        self.hasblobs = blobs
        self.labels = ["p%d" % k for k in range(N)]
        self.run_info = {}
        self.acceptance_fraction = tensor(c, "acceptance", (self.W,))
        if model is not None:
            self.modelfn = model

    # ---- the parts of emcee's interface
    def get_chain(self, flat=False, thin=1, discard=0):
        if thin != 1 or discard:
            raise NotImplementedError
        if not flat:
            return self.chain if self.c.symbolic else self.chain.copy()
        if self.c.symbolic:
            return self.flat()
        return self.chain.reshape(-1, self.N).copy()

    def flat(self):
        c, s, t = self.c, self.c.s, self.c.t
        n = t.mul(s._t(self.S), s._t(self.W))
        return s.SArr(s.Node((s.axis_of_len(n), s.axis_of_len(t.const(self.N))), lambda i, j: t.app("flatchain", (i, j), pos=True), "f"))

    def get_log_prob(self, flat=False):
        if flat:
            raise NotImplementedError
        return self.lnp if self.c.symbolic else self.lnp.copy()

    def get_blobs(self, flat=False):
        if flat:
            raise NotImplementedError
        if not self.hasblobs:
            return None
        if self.c.symbolic:
            return Blobs(self)
        import numpy as np

        out = np.empty((int(self.S), int(self.W), len(self.kinds)), dtype=object)
        for i in range(int(self.S)):
            for j in range(int(self.W)):
                for k in range(len(self.kinds)):
                    out[i, j, k] = self.blob(i, j, k)
        return out

    # ---- what is stored
    def blob(self, i, j, k):
        """The blob k of a walker at a step"""
        c, kind = self.c, self.kinds[k]
        if kind == "text":
            return "something else"
        v = self.val[k]
        if c.symbolic:
            s = c.s
            nd = v.node
            v = s.SArr(s.Node(v.axes[2:], lambda *e: nd.at((i, j) + e), "f"))
        else:
            v = v[int(i), int(j)]
            v = v.copy() if getattr(v, "ndim", 0) else float(v)
        if kind == "float":
            return c.s.num(v.scalar()) if c.symbolic else v
        q = c.Q(v, self.unit_of(i, j, k))
        if "pair" in kind:
            # (an array of numbers without a unit can be one of them)
            x = self.x[k].to_value("TeV") if kind == "plain pair" else self.x[k]
            return (list if kind == "list pair" else tuple)([x, q])
        return q

    def unit_of(self, i, j, k):
        """The unit of a blob: a model function can return any"""
        c = self.c
        if not self.varying:
            return self.unit[k]
        if c.symbolic:
            return c.un.SUnit(self.unit[k].dims, c.t.app("blob%d.unit" % k, (i, j), pos=True))
        us = ["1/(m2 s eV)", "1/(cm2 s erg)"]
        return self.unit[k] if (int(i) + int(j)) % 2 else c.u(us[(int(i) + k) % 2])

    def value(self, i, j, k, e=None, unit=None):
        """The same as a number, in the unit of blob k (or the one given)"""
        v = self.val[k]
        ix = (i, j) if e is None else (i, j, e)
        r = v.at(*ix) if self.c.symbolic else float(v[tuple(int(x) for x in ix)])
        if self.kinds[k] == "float":
            return r
        un = self.unit[k] if unit is None else unit
        if self.c.symbolic:
            return r * self.unit_of(i, j, k).scale / un.scale
        return float(self.c.Q(r, self.unit_of(i, j, k)).to_value(un))


class Blobs:
    """The array of blobs, of symbolic shape"""

    def __init__(self, s):
        self.s = s
        self.sym_axis = s.chain.axes[0]

    def sym_element(self, idx):
        return Step(self.s, idx[0])

    def __getitem__(self, k):
        if isinstance(k, tuple):
            i, j = k[:2]
            w = Walker(self.s, _at(self.s, i, self.s.S), _at(self.s, j, self.s.W))
            return w if len(k) == 2 else w[k[2]]
        return Step(self.s, _at(self.s, k, self.s.S))

    @property
    def shape(self):
        return (self.s.S, self.s.W, len(self.s.kinds))

    def __iter__(self):
        raise self.s.c.t.Unsupported("iteration over the blobs")

    def __getattr__(self, n):
        if n in ("rows_of", "sym_column", "sym_subst") or n.startswith("__"):
            raise AttributeError(n)
        raise self.s.c.t.Unsupported("array of blobs: " + n)


def _at(s, k, n):
    t = s.c.t
    k = s.c.s._t(k)
    return t.add(s.c.s._t(n), k) if k.const is not None and k.const < 0 else k


class Step(Blobs):
    def __init__(self, s, i):
        self.s, self.i = s, i
        self.sym_axis = s.chain.axes[1]

    def sym_element(self, idx):
        return Walker(self.s, self.i, idx[0])

    def __getitem__(self, k):
        if isinstance(k, tuple):
            return Walker(self.s, self.i, _at(self.s, k[0], self.s.W))[k[1]]
        return Walker(self.s, self.i, _at(self.s, k, self.s.W))

    @property
    def shape(self):
        return (self.s.W, len(self.s.kinds))

    def sym_subst(self, m):
        return Step(self.s, self.s.c.t.subst(self.i, m))


class Walker:
    def __init__(self, s, i, j):
        self.s, self.i, self.j = s, i, j

    def __len__(self):
        return len(self.s.kinds)

    def __getitem__(self, k):
        return self.s.blob(self.i, self.j, range(len(self.s.kinds))[k])

    def __iter__(self):
        return iter([self[k] for k in range(len(self))])

    def sym_subst(self, m):
        t = self.s.c.t
        return Walker(self.s, t.subst(self.i, m), t.subst(self.j, m))


class Model:
    """A model function of the parameters and the energies, with any kind of output"""

    def __init__(self, c, kind="array", unit=None, extra=True):
        self.c, self.kind, self.calls = c, kind, []
        self.unit = unit if unit is not None else c.unit("model.unit", "differential flux")
        self.m = None
        self.mx = None
        if "pair" in kind:
            self.m = c.size("model energies", min=1, max=4)
            self.mx = c.qarray("model.x", "energy", self.m, lo=1e-2, hi=1e2)

    def number(self, pars, e):
        """The value for parameters and an energy in TeV"""
        if self.c.symbolic:
            return self.c.t.app("modelfn", tuple(pars) + (e,), pos=True)
        return float(sum((k + 1.3) * p for k, p in enumerate(pars)) * e**-1.5)

    def _quantity(self, pars, energy):
        c = self.c
        if c.symbolic:
            s = c.s
            p = [s.as_arr(pars).at(c.t.const(k)) for k in range(pars.axes[0].const)]
            en = energy.to("TeV").val.node
            return c.Q(s.SArr(s.Node(en.axes, lambda *i: self.number(p, en.at(i)), "f")), self.unit)
        import numpy as np

        return c.Q(np.array([self.number([float(p) for p in pars], float(e)) for e in energy.to_value("TeV")]), self.unit)

    def __call__(self, pars, data):
        self.calls.append((pars, data))
        if self.kind == "array":
            return self._quantity(pars, data["energy"])
        if "pair" in self.kind:
            q = self._quantity(pars, self.mx)
            pair = (self.mx, q) if self.kind == "pair" else [self.mx, q]
            return (pair, 1.0)
        # with blobs: the model is the second one
        return (self._quantity(pars, data["energy"]), self._quantity(pars, data["energy"]) * 2)
