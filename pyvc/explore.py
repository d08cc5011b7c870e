"""Path exploration of a harness over the symbolic package, and the proof obligations."""
import sys
import time
import traceback

from . import loader, solver, sym, terms as t, units
from .loader import SList
from .sym import SArr, SymQ, as_arr, num
from .terms import B, T, Unsupported


class Dead(BaseException):
    """The path condition is contradictory"""


class Frame:
    def __init__(self, prefix, loop=False):
        self.prefix, self.pos, self.taken, self.pending = list(prefix), 0, [], []
        self.effects, self.appends, self.loop, self.lists = [], [], loop, set()
        self.attrs, self.items = [], []
        self.rerun = bool(prefix)


class Obligation:
    def __init__(self, name, path, status, how, detail="", model=None, pc=(), seconds=0.0, func=None):
        self.name, self.path, self.status, self.how = name, path, status, how
        self.detail, self.model, self.pc, self.seconds = detail, model, pc, seconds

    def asdict(self):
        return {
            "obligation": self.name,
            "path": self.path,
            "status": self.status,
            "how": self.how,
            "detail": self.detail,
            "path_condition": [repr(b)[:400] for b in self.pc][:40],
            "model": {repr(k): str(v) for k, v in (self.model or {}).items()},
            "seconds": round(self.seconds, 3),
        }


class Poison:
    """The value of an attribute after a symbolic loop that changes it"""

    def __init__(self, what):
        self.__dict__["_w"] = what

    def __getattr__(self, n):
        raise Unsupported("attribute set within a symbolic loop: " + self._w)

    def _no(self, *a):
        raise Unsupported("value set within a symbolic loop: " + self._w)

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _no
    __pow__ = __rpow__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __len__ = _no
    __iter__ = __getitem__ = __call__ = __neg__ = __abs__ = __index__ = __float__ = _no
    __hash__ = object.__hash__


class Explorer:
    def __init__(self, name, max_paths=600, deadline=None):
        self.name, self.max_paths = name, max_paths
        self.deadline = deadline
        self.obligations = []
        self.paths = 0
        self.undecided = []  # tool limits: text
        self.exceptions = []  # unexpected exceptions: (text, model)
        self.vac = {}  # obligation name -> is some instance refutable when perturbed
        self.notes = []

    # ------------------------------------------------ exploration
    def run(self, fn):
        pending = [[]]
        sym.EX = self
        try:
            while pending:
                if self.paths >= self.max_paths or (self.deadline and time.time() > self.deadline):
                    self.undecided.append("path or time limit (%d paths)" % self.paths)
                    break
                prefix = pending.pop()
                self.main = Frame(prefix)
                self.loops = []
                self.pc, self.pcset = [], set()
                self.universals = []
                self.universal_facts = []  # (length, index -> fact): loop invariants assumed
                self.perms = set()
                self.perm_lengths = []
                self.specs = None
                self.used = []
                self.local_counts = {}
                self.last_loop = None
                self.poison = None
                self.paths += 1
                t._fresh[0] = 0
                sym._counts.clear(), sym._count_any.clear()
                try:
                    fn()
                    if self.poison:
                        raise Unsupported(self.poison)
                except Dead:
                    pass
                except Unsupported as e:
                    self.undecided.append(self._where("unsupported: %s" % e))
                except RecursionError:
                    self.undecided.append(self._where("recursion limit"))
                except Exception as e:
                    r, m = solver.check(self.pc, 3000, want_model=True)
                    if r != "unsat":
                        self.exceptions.append((self._where("%s: %s" % (type(e).__name__, e)), m))
                pending += self.main.pending
        finally:
            sym.EX = None

    def _where(self, text):
        tb = traceback.extract_tb(sys.exc_info()[2])
        fr = [f for f in tb if "/naima/" in f.filename]
        inner = tb[-1]
        pos = "%s:%s (%s)" % (fr[-1].filename.split("/src/")[-1], fr[-1].lineno, fr[-1].name) if fr else ""
        return "%s at %s [%s:%s]" % (text, pos, inner.filename.rsplit("/", 1)[-1], inner.lineno)

    # ------------------------------------------------ decisions
    @property
    def frame(self):
        return self.loops[-1] if self.loops else self.main

    def known(self, b):
        if b.k == "true" or b in self.pcset:
            return True
        if b.k == "false":
            return False
        n = t.bnot(b)
        if n in self.pcset:
            return False
        if b.k == "and":
            vs = [self.known(x) for x in b.a]
            if any(v is False for v in vs):
                return False
            if all(v is True for v in vs):
                return True
        if b.k == "or":
            vs = [self.known(x) for x in b.a]
            if any(v is True for v in vs):
                return True
            if all(v is False for v in vs):
                return False
        return None

    def relevant(self, b):
        """The part of the path condition that shares atoms with b"""
        atoms = set(t.atoms_of(b))
        rest = [(p, t.atoms_of(p)) for p in self.pc]
        out, changed = [], True
        while changed:
            changed = False
            keep = []
            for p, a in rest:
                if a & atoms:
                    out.append(p)
                    atoms |= a
                    changed = True
                else:
                    keep.append((p, a))
            rest = keep
        return out

    def decide(self, b):
        k = self.known(b)
        if k is not None:
            return k
        fr = self.frame
        if fr.pos < len(fr.prefix):
            v = fr.prefix[fr.pos]
            fr.pos += 1
            fr.taken.append((b, v))
            self.add(b if v else t.bnot(b))
            return v
        if b.k.startswith("bapp:"):
            can = None
        else:
            h = self.relevant(b)
            if solver.check(h + [b], 700) == "unsat":
                can = False
            elif solver.check(h + [t.bnot(b)], 700) == "unsat":
                can = True
            else:
                can = None
        if can is not None:
            # entailed: recorded too, so that re-execution takes the same number of decisions
            fr.pos += 1
            fr.prefix.append(can)
            fr.taken.append((b, can))
            self.add(b if can else t.bnot(b))
            return can
        fr.pending.append([v for _, v in fr.taken] + [False])
        fr.prefix.append(True)
        fr.pos += 1
        fr.taken.append((b, True))
        self.add(b)
        return True

    def proves(self, b):
        k = self.known(b)
        return k if k is not None else solver.check(self.relevant(b) + [t.bnot(b)], 700) == "unsat"

    def add(self, b):
        if b.k == "true":
            return
        if b.k == "false":
            raise Dead()
        if b.k == "and":
            for x in b.a:
                self.add(x)
            return
        if b in self.pcset:
            return
        self.pc.append(b)
        self.pcset.add(b)
        if b.k == "bapp:any":
            bases, mask = sym._anys[b]
            w = [t.fresh("w", nonneg=True, isint=True) for _ in bases]
            m = dict(zip(sym._canatoms(len(bases)), w))
            for i, n in zip(w, bases):
                self.add(t.lt(i, n))
            self.add(t.subst(mask, m))
        elif b.k == "not" and b.a[0].k == "bapp:any":
            bases, mask = sym._anys[b.a[0]]
            self.universals.append((bases, t.bnot(mask)))

    def instantiate(self, idx, bases):
        """Universal facts at an index (one or more axes)"""
        out = []
        for bs, body in self.universals:
            if len(bs) == len(idx) and all(x is y for x, y in zip(bs, bases)):
                out.append(t.subst(body, dict(zip(sym._canatoms(len(bs)), idx))))
        for f in getattr(self, "axioms", ()):
            out += f(idx, bases)
        return [o for o in out if o.k != "true"]

    def facts_at(self, i, n):
        return self.instantiate((i,), (n,))

    def equal_len(self, a, b):
        if a is b:
            return True
        return self.decide(t.eq(a, b))

    # ------------------------------------------------ loops over a generic element
    def log_effect(self, obj, attr, old):
        if self.loops:
            self.loops[-1].effects.append((obj, attr, old))

    def note_attr(self, obj, attr):
        if self.loops:
            old = obj.__dict__.get(attr, Poison) if hasattr(obj, "__dict__") else Poison
            if old is Poison and not hasattr(obj, "__dict__"):
                raise Unsupported("attribute store in a symbolic loop")
            self.loops[-1].attrs.append((obj, attr, old))

    def note_item(self, obj, k):
        if self.loops and isinstance(obj, (dict, list)):
            if not isinstance(k, (int, str)) or (isinstance(obj, list) and not -len(obj) <= k < len(obj)):
                raise Unsupported("container store in a symbolic loop")
            old = obj.get(k, Poison) if isinstance(obj, dict) else obj[k]
            self.loops[-1].items.append((obj, k, old))

    def list_new(self, lst):
        if self.loops:
            self.loops[-1].lists.add(id(lst))
            self.loops[-1].keep = getattr(self.loops[-1], "keep", []) + [lst]

    def list_append(self, lst, v):
        fr = self.loops[-1]
        if not fr.loop or id(lst) in fr.lists:
            list.append(lst, v)
            return
        if len(lst):
            raise Unsupported("append to a list that is not empty in a symbolic loop")
        fr.appends.append((lst, v))

    def _locals(self, hyps, loop):
        """Run a body for each of its local paths: generator of frames"""
        pending = [[]]
        n0 = len(self.pc)
        count = 0
        while pending:
            count += 1
            if count > 200:
                raise Unsupported("too many local paths")
            fr = Frame(pending.pop(), loop)
            self.loops.append(fr)
            nu = len(self.universals)
            fr.dead = False
            try:
                for h in hyps:
                    self.add(h)
                yield fr
            except Dead:
                fr.dead = True
            if not self.loops or self.loops[-1] is not fr:
                raise Unsupported("unfinished symbolic loop")
            self.loops.pop()
            pending += fr.pending
            for b in self.pc[n0:]:
                self.pcset.discard(b)
            del self.pc[n0:]
            del self.universals[nu:]
            fr.final = {}
            for obj, attr, old in fr.effects:
                fr.final[(id(obj), attr)] = (obj, attr, getattr(obj, attr))
            for obj, attr, old in reversed(fr.effects):
                setattr(obj, attr, old)
            for obj, attr, old in reversed(fr.attrs):
                if old is Poison:
                    obj.__dict__.pop(attr, None)
                else:
                    obj.__dict__[attr] = old
            for obj, k, old in reversed(fr.items):
                if old is Poison:
                    obj.pop(k, None)
                else:
                    obj[k] = old
            fr.cond = t.conj([b if v else t.bnot(b) for b, v in fr.taken])

    def value_of(self, fn, hyps=()):
        """The value of fn() with its own branches merged into conditionals"""
        res, conds = [], []
        for fr in self._locals(list(hyps), False):
            v = fn()
            if fr.effects:
                new = [o for o, a, _ in fr.effects]
            res.append(v)
            conds.append(fr)
        return self.merge_values(res, [f.cond for f in conds])

    def merge_values(self, vals, conds):
        if len(vals) == 1:
            return vals[0]
        v0 = vals[0]
        if any(isinstance(v, SymQ) for v in vals):
            un = next(v.unit for v in vals if isinstance(v, SymQ))
            if not all(isinstance(v, SymQ) for v in vals):
                raise Unsupported("merge of a quantity and a number")
            return SymQ._mk(self.merge_values([v.to(un).val for v in vals], conds), un)
        if isinstance(v0, (tuple, list)):
            if not all(isinstance(v, type(v0)) and len(v) == len(v0) for v in vals):
                raise Unsupported("merge of sequences")
            return type(v0)(self.merge_values([v[k] for v in vals], conds) for k in range(len(v0)))
        if v0 is None or isinstance(v0, str):
            if all(v is v0 or v == v0 for v in vals):
                return v0
            raise Unsupported("merge of different objects")
        if isinstance(v0, (T, B)):
            r = vals[-1]
            for v, c in zip(vals[-2::-1], conds[-2::-1]):
                r = sym._ite(c, v, r)
            return r
        arrs = [as_arr(v) for v in vals]
        r = arrs[-1]
        for v, c in zip(arrs[-2::-1], conds[-2::-1]):
            r = sym.np.where(num(c), v, r)
        return num(r.scalar(), r.kind) if not r.axes else r

    def loop(self, ax, elem):
        if any(b.const is not None for b in ax.bases) and ax.mask is None:
            pass
        idx = tuple(t.fresh("it", nonneg=True, isint=True) for _ in ax.bases)
        hyps = [t.lt(i, n) for i, n in zip(idx, ax.bases)] + [ax.mask_at(idx)] + self.instantiate(idx, ax.bases)
        self.poison = self.poison or None
        outer_poison = self.poison
        frames = []
        self.poison = "break or return out of a symbolic loop"
        for fr in self._locals(hyps, True):
            fr.idx, fr.axis = idx, ax
            yield elem(idx)
            if fr.loop:
                frames.append(fr)
        # second pass, with the arrays that the loop writes hidden at the other indices
        touched = {}
        for fr in frames:
            for (k, attr), (obj, a, v) in fr.final.items():
                touched[(k, attr)] = (obj, attr)
        stale = {}
        nap = [len(fr.appends) for fr in frames]
        written = {(id(o), a): (o, a) for fr in frames for o, a, _ in fr.attrs}
        items = {(id(o), k): (o, k) for fr in frames for o, k, _ in fr.items}
        for obj, attr in written.values():
            obj.__dict__[attr] = Poison(attr)
        for obj, k in items.values():
            obj[k] = Poison(str(k))
        if touched or written or items:
            for key, (obj, attr) in touched.items():
                if attr == "unit":
                    continue
                if attr != "_node":
                    raise Unsupported("scalar changed by a symbolic loop")
                old = obj._node
                if ax.mask is not None or ax.n != 1:
                    raise Unsupported("array written in a loop over a selection")
                nm = "stale!%d" % t._fresh[0]
                t._fresh[0] += 1
                pm = old.kind

                def fn(j, *rest, _old=old, _nm=nm):
                    s = t.app(_nm, (j,) + rest)
                    if pm == "b":
                        raise Unsupported("boolean array written in a symbolic loop")
                    return t.ite(t.eq(j, idx[0]), _old.at((j,) + rest), s)

                stale[key] = (obj, old, sym.Node(old.axes, fn, old.kind), nm)
            frames = []
            for o, old, nd, nm in stale.values():
                o._node = nd
            for fr in self._locals(hyps, True):
                fr.idx, fr.axis = idx, ax
                yield elem(idx)
                frames.append(fr)
            for o, old, nd, nm in stale.values():
                o._node = old
        self.poison = outer_poison
        conds = [fr.cond for fr in frames]
        names = {nm for _, _, _, nm in stale.values()}

        def clean(x):
            return not any(a.kind == "app" and a.key[1] in names for a in t.atoms_of(x))

        # units of written quantities must not change
        for fr in frames:
            for (k, attr), (obj, a, v) in fr.final.items():
                if attr == "unit" and not (v == obj.unit):
                    raise Unsupported("unit changed by a symbolic loop")
        for key, (obj, old, nd, nm) in stale.items():
            contents = []
            for fr in frames:
                f = fr.final.get(key)
                contents.append(f[2] if f else nd)
            ia = t.atom_of(idx[0])

            def merged(j, *rest, _c=contents, _k=old.kind):
                vs = [c.at((idx[0],) + rest) for c in _c]
                r = vs[-1]
                for v, c in zip(vs[-2::-1], conds[-2::-1]):
                    r = sym._ite(c, v, r)
                if not clean(r):
                    raise Unsupported("iteration that reads what another iteration writes")
                return t.subst(r, {ia: j})

            # frame: only index i is written
            j = t.fresh("j", nonneg=True, isint=True)
            rest = tuple(t.fresh("j", nonneg=True, isint=True) for _ in range(sum(a.n for a in old.axes) - 1))
            ne = t.eq(j, idx[0])
            for c in contents:
                v = c.at((j,) + rest)
                v = solver.assume_deep(v, ne, False)
                if v is not t.app(nm, (j,) + rest):
                    raise Unsupported("loop that writes other indices than its own")
            n = ax.bases[0]

            def fn(j, *rest, _m=merged, _o=old, _n=n):
                if _o.axes[0].length is _n:
                    return _m(j, *rest)
                return t.ite(t.lt(j, _n), _m(j, *rest), _o.at((j,) + rest))

            obj._set(sym.Node(old.axes, fn, old.kind))
        # appends: the same lists, once per iteration
        lists = {}
        for fr in frames:
            seen = {}
            for lst, v in fr.appends:
                if id(lst) in seen:
                    raise Unsupported("several appends per iteration")
                seen[id(lst)] = (lst, v)
            for k, (lst, v) in seen.items():
                lists.setdefault(k, (lst, []))[1].append((fr.cond, v))
        for k, (lst, cv) in lists.items():
            if len(cv) != len(frames):
                raise Unsupported("append on some paths of a symbolic loop only")
            if any(isinstance(v, sym.Rep) for _, v in cv):
                if len(cv) != 1 or ax.mask is not None and ax.mask.k != "true":
                    raise Unsupported("append in nested symbolic loops")
                inner = cv[0][1]
                nested = sym.Axis(ax.bases + inner.axis.bases, t.true())
                if any(t.atom_of(i) in t.atoms_of(b) for i in idx for b in inner.axis.bases):
                    raise Unsupported("append in nested loops of varying length")
                atoms = inner.atoms
                v = inner.value
            else:
                nested, atoms = ax, []
                v = self.merge_values([v for _, v in cv], [c for c, _ in cv])
            for x in _terms_of(v):
                if not clean(x):
                    raise Unsupported("iteration that reads what another iteration writes")
            r = sym.Rep(nested, [t.atom_of(i) for i in idx] + list(atoms), v)
            if self.loops and self.loops[-1].loop and id(lst) not in self.loops[-1].lists:
                # of an outer loop: its elements are those of all iterations of both
                if list.__len__(lst) or ax.mask is not None and ax.mask.k != "true":
                    raise Unsupported("append in nested symbolic loops")
                self.loops[-1].appends.append((lst, r))
                continue
            list.append(lst, r)
        # results of a list comprehension: those of the last pass
        self.last_loop = (ax, [t.atom_of(i) for i in idx], sum(nap) if False else len(frames), conds)
        if stale or written or items:
            self.last_loop = None

    def integral(self, body, a, b):
        x = t.fresh("x")
        at = t.atom_of(x)
        h = [t.disj([t.conj([t.le(a, x), t.le(x, b)]), t.conj([t.le(b, x), t.le(x, a)])])]
        v = self.value_of(lambda: body(x), h)
        v = sym._num(v) if isinstance(v, (T, B)) else as_arr(v).scalar()
        bodies = [v, a, b]
        depth = max(q.depth for q in bodies) + 1
        return t._bind("quad", t.ONE, bodies, at, depth, ())

    def argsort(self, v):
        """The permutation that sorts an array (argsort), or the inverse of one (argrank)"""
        inverse = getattr(v, "perm", None)
        n = v.axes[0].length
        if inverse is not None:
            name, A = ("argrank" if inverse[0] == "argsort" else "argsort"), inverse[1]
            x = inverse[2]
        else:
            name, A, x = "argsort", sym._arrterm(v), v.copy()
        at = lambda i: t.app(name, (A, i), nonneg=True, isint=True)
        r = SArr(sym.Node(v.axes, at, "i"))
        r.perm = (name, A, x)
        key = (name, A)
        if key not in self.perms:
            self.perms.add(key)
            self.perm_lengths.append(n)
            srt = lambda i: t.app("argsort", (A, i), nonneg=True, isint=True)
            val = lambda i: sym._num(x.at(srt(i)))

            def facts(idx, bases):
                if len(idx) != 1 or bases[0] is not n:
                    return []
                i = idx[0]
                up, dn = t.add(i, t.ONE), t.add(i, t.MINUS1)
                out = [t.lt(at(i), n)]
                if name == "argsort":
                    for a, b in ((i, up), (dn, i)):
                        out.append(t.disj([t.lt(a, t.ZERO), t.le(n, b), t.le(val(a), val(b))]))
                        out.append(t.disj([t.lt(a, t.ZERO), t.le(n, b), t.ne(srt(a), srt(b))]))
                    out.append(t.disj([t.lt(i, t.ZERO), t.le(n, i), t.le(val(t.ZERO), val(i))]))
                    rk = t.app("argrank", (A, i), nonneg=True, isint=True)
                    out.append(t.disj([t.lt(i, t.ZERO), t.le(n, i), t.conj([t.lt(rk, n), t.le(val(t.ZERO), sym._num(x.at(i)))])]))
                return out

            self.axiom(facts)
        return r

    def axiom(self, facts):
        """Facts at every index, those already in use included"""
        self.axioms = list(getattr(self, "axioms", [])) + [facts]
        if not self.loops:
            for idx, bases in self.used:
                for f in facts(idx, bases):
                    self.add(f)

    def extreme(self, x, name):
        """The least or largest element of an array, or the index of one such element"""
        which, index = name[-3:], name.startswith("arg")
        if index and x.ndim > 1 and all(a.n == 1 and a.mask is None for a in x.axes):
            return self._extreme_at(x, which)
        if x.ndim != 1 or x.axes[0].mask is not None:
            if index or not x.axes:
                raise Unsupported(name)
            if x.ndim == 1:
                # of a selection: a value of which nothing is known
                full = SArr(sym.Node(tuple(sym.Axis((b,)) for b in x.axes[0].bases), lambda *i: t.ite(x.axes[0].mask_at(i), sym._num(x.at(*i)), t.ZERO), "f"))
                sel = SArr(sym.Node(full.axes, lambda *i: t.ite(x.axes[0].mask_at(i), t.ONE, t.ZERO), "i"))
                return num(t.app(name, (sym._arrterm(full), sym._arrterm(sel))))
            if any(a.mask is not None for a in x.axes):
                raise Unsupported(name)
            return num(t.app(name, (sym._arrterm(x),)))
        A, n, x = sym._arrterm(x), x.axes[0].length, x.copy()
        at = t.app("arg" + which, (A,), nonneg=True, isint=True)
        v = t.app(which, (A,))
        key = ("arg" + which, A)
        if key not in self.perms:
            self.perms.add(key)
            own = [t.lt(at, n), t.eq(sym._num(x.at(at)), v)]

            def facts(idx, bases):
                if len(idx) != 1 or bases[0] is not n:
                    return own
                y = sym._num(x.at(idx[0]))
                return own + [t.le(v, y) if which == "min" else t.le(y, v)]

            self.axiom(facts)
            if not self.loops:
                for f in own:
                    self.add(f)
                for f in self.instantiate((at,), (n,)):
                    self.add(f)
        return num(at, "i") if index else num(v)

    def _extreme_at(self, x, which):
        """The flat index of the first extreme element of an array with several axes"""
        A, lens, x = sym._arrterm(x), tuple(a.length for a in x.axes), x.copy()
        at = tuple(t.app("arg%s_%d" % (which, k), (A,), nonneg=True, isint=True) for k in range(len(lens)))
        key = ("arg" + which, A)
        if key not in self.perms:
            self.perms.add(key)
            v = sym._num(x.at(*at))
            own = [t.lt(i, n) for i, n in zip(at, lens)]

            def facts(idx, bases):
                if tuple(bases) != lens:
                    return own
                y = sym._num(x.at(*idx))
                return own + [t.le(v, y) if which == "min" else t.le(y, v)]

            self.axiom(facts)
            if not self.loops:
                for f in own:
                    self.add(f)
        flat = t.ZERO
        for i, n in zip(at, lens):
            flat = t.add(t.mul(flat, n), i)
        r = num(flat, "i")
        r.unravelled = (at, lens)
        return r

    # ------------------------------------------------ obligations
    def _prover(self):
        dl = time.time() + 120
        if self.deadline:
            dl = min(dl, self.deadline)
        return solver.Prover(self.facts_at, dl)

    def _apply_pc(self, x, pc):
        for b in pc:
            for c in [b]:
                if c.k in ("<", "<=", "==") or c.k.startswith("b"):
                    x = solver.assume_deep(x, c, True)
                elif c.k == "not":
                    x = solver.assume_deep(x, c.a[0], False)
        return x

    def ensure_eq(self, name, lhs, rhs, hyps=()):
        t0 = time.time()
        if isinstance(lhs, B) or isinstance(rhs, B):
            return self.ensure(name, t.disj([t.conj([lhs, rhs]), t.conj([t.bnot(lhs), t.bnot(rhs)])]), hyps)
        if self.universal_facts and t.const(lhs) is not t.const(rhs):
            return self.ensure_split(name, t.eq(t.const(lhs), t.const(rhs)), hyps)
        pc = self.pc + [h for h in hyps]
        lhs, rhs = self._apply_pc(t.const(lhs), pc), self._apply_pc(t.const(rhs), pc)
        r = self._prover().prove_eq(lhs, rhs, pc)
        self._record(name, r, pc, t0)
        if r.ok and name not in self.vac:
            # a wrong right hand side differs, and the path can be taken
            wrong = t.add(t.mul(rhs, t.const(2)), t.const(1))
            if lhs is not wrong and solver.check(pc, 1000) != "unsat":
                self.vac[name] = True
        return r.ok

    def ensure(self, name, goal, hyps=()):
        if self.universal_facts:
            return self.ensure_split(name, goal, hyps)
        t0 = time.time()
        pc = self.pc + list(hyps)
        goal = self._apply_pc(goal, pc)
        r = solver.prove_bool(goal, pc)
        self._record(name, r, pc, t0)
        if r.ok and name not in self.vac and solver.check(pc, 1000) != "unsat":
            self.vac[name] = True
        return r.ok

    def ensure_split(self, name, goal, hyps=()):
        """Like ensure, by cases on the conditions within the goal (below functions and binders too),
        with the universal facts at the indices that occur"""
        t0 = time.time()
        pc = self.pc + list(hyps)
        self.split_deadline = time.time() + 40
        r = self._by_cases(self._apply_pc(goal, pc), pc, [], 0)
        if r.ok is None and r.detail:
            r.detail = "%s; goal %s" % (r.detail, repr(goal)[:600])
        self._record(name, r, pc, t0)
        if r.ok and name not in self.vac and solver.check(pc, 1000) != "unsat":
            self.vac[name] = True
        return r.ok

    def _by_cases(self, goal, pc, steps, depth):
        if goal.k == "true":
            return solver.Result(True, "nf")
        c = _nested_condition(goal)
        if c is None or depth > 14 or time.time() > self.split_deadline:
            return self._leaf(goal, pc, steps)
        how = "nf"
        for val in (True, False):
            b = c if val else t.bnot(c)
            if solver.check(self._near(b, pc), 500) == "unsat":
                continue
            st = (c, val, _solved(c) if val else None)
            g = _step(goal, st)
            r = self._by_cases(g, pc + [b], steps + [st], depth + 1)
            if not r.ok:
                return r
            how = r.how if r.how != "nf" else how
        return solver.Result(True, how)

    def _near(self, b, pc):
        """Hypotheses that share atoms with b, directly"""
        at = t.atoms_of(b)
        return [b] + [p for p in pc if t.atoms_of(p) & at]

    def _leaf(self, goal, pc, steps):
        from .loops import candidates

        for st in steps:
            pc = [_step(p, st) for p in pc]
        if any(p.k == "false" for p in pc):
            return solver.Result(True, "nf")
        pc = [p for p in pc if p.k != "true"] + [c if v else t.bnot(c) for c, v, _ in steps]
        facts, done = [], []
        for rnd in range(3):
            new = [i for i in candidates([goal] + facts + (pc if rnd == 0 else [])) if i not in done]
            if not new:
                break
            done += new
            for i in new:
                for n, f in self.universal_facts:
                    facts.append(t.disj([t.lt(i, t.ZERO), t.le(n, i), f(i)]))
                for f in getattr(self, "axioms", ()):
                    for bs in {n for n, _ in self.universal_facts} | {b for _, bs in self.used for b in bs[:1]} | set(self.perm_lengths):
                        facts += f((i,), (bs,))
            for st in steps:
                facts = [_step(f, st) for f in facts]
            facts = list(dict.fromkeys(f for f in facts if f.k != "true"))
            r = solver.prove_bool(goal, pc + facts, 3000)
            if r.ok:
                return r
            if time.time() > self.split_deadline:
                break
        r = solver.prove_bool(goal, pc + facts, 6000)
        r.case = [c if v else t.bnot(c) for c, v, _ in steps]
        return r

    def ensure_fact(self, name, ok, detail=""):
        """An obligation decided by the execution itself (identity, unit, exception, ...)"""
        t0 = time.time()
        if not ok:
            r, m = solver.check(self.pc, 3000, want_model=True)
            if r == "unsat":
                ok = True
            else:
                self.obligations.append(Obligation(name, self.paths, "failed" if r == "sat" else "unknown", "execution", detail, m, list(self.pc), 0))
                return False
        solver.STATS["nf"] += 1
        self.obligations.append(Obligation(name, self.paths, "proved", "execution"))
        self.vac[name] = True
        return True

    def _record(self, name, r, pc, t0):
        st = {True: "proved", False: "failed", None: "unknown"}[r.ok]
        case = list(r.case or [])
        self.obligations.append(
            Obligation(name, self.paths, st, r.how, r.detail or "", r.model, list(pc) + case if not r.ok else (), time.time() - t0)
        )


def _nested_condition(b):
    """An atomic condition within b, without bound variables: of a conditional, or an equality that
    determines an integer"""
    best = None
    cs = [solver._atomic(a.key[1]) for a in t.atoms_of(b) if a.kind == "ite"]
    if b.k in ("and", "or", "not"):
        cs += [x for x in _parts(b) if x.k == "==" and _solved(x)]
    for c in cs:
        if c.k in ("true", "false") or any(isinstance(x, T) and t.has_free_bv(x) for x in c.a):
            continue
        if any(y.kind == "ite" and not t.has_free_bv(t.from_atom(y)) for y in t.atoms_of(c)):
            continue
        key = (c.k != "==", len(repr(c)), repr(c))
        if best is None or key < best[0]:
            best = (key, c)
    return best[1] if best else None


def _parts(b):
    if b.k in ("and", "or", "not"):
        for x in b.a:
            yield from _parts(x)
    else:
        yield b


def _solved(c):
    """{atom: term} for an equality that determines an integer atom"""
    if c.k != "==":
        return None
    x = c.a[0]
    best = None
    for (e, fs), k in x.d.items():
        if e is None and len(fs) == 1 and fs[0][1] == 1 and abs(k) == 1:
            a = fs[0][0]
            if a.isint and a.kind in ("app", "sym"):
                rest = t.add(x, t.neg(t.mul(t.const(k), t.from_atom(a))))
                if a in t.atoms_of(rest):
                    continue
                key = (a.kind != "app", repr(a))
                if best is None or key < best[0]:
                    best = (key, {a: t.mul(t.const(-k), rest)})
    return best[1] if best else None


def _step(b, st):
    c, val, m = st
    b = solver.assume_deep(b, c, val)
    return t.subst(b, m) if m else b


def _terms_of(v):
    if isinstance(v, SymQ):
        v = v.val
    if isinstance(v, dict):
        v = list(v.values())
    if isinstance(v, (list, tuple)):
        for x in v:
            yield from _terms_of(x)
    elif isinstance(v, SArr):
        yield v.at(*[t.fresh("q", nonneg=True, isint=True) for _ in range(v.nidx)])
