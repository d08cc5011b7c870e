"""Discharge of obligations: normal forms first, then z3 and cvc5 on the polynomial
abstraction of the terms (with sign and monotonicity axioms for exp, log and powers)."""
import sys
import time
from fractions import Fraction as F

for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)
import z3

from . import terms as t
from .terms import B, T

STATS = {"nf": 0, "z3": 0, "cvc5": 0, "lemma": 0, "z3_calls": 0, "z3_time": 0.0, "unknown": 0}


def _q(c):
    return z3.RealVal("%d/%d" % (c.numerator, c.denominator))


class Enc:
    """Encoding of terms for z3. Atoms are variables; the axioms that relate them are
    collected in self.ax"""

    def __init__(self):
        self.v = {}
        self.ax = []
        self.memo = {}
        self.exps = {}
        self.logs = {}
        self.names = {}

    def var(self, key, name, pos=False, nonneg=False, isint=False):
        x = self.v.get(key)
        if x is None:
            nm = "v%d" % len(self.v)
            if isint:
                iv = z3.Int(nm)
                x = z3.ToReal(iv)
            else:
                x = z3.Real(nm)
            self.v[key] = x
            self.names[nm] = key
            if pos:
                self.ax.append(x > 0)
            elif nonneg:
                self.ax.append(x >= 0)
        return x

    def term(self, x):
        r = self.memo.get(x)
        if r is not None:
            return r
        out = []
        for (e, fs), c in x.d.items():
            fac = []
            if c != 1 or (e is None and not fs):
                fac.append(_q(c))
            for a, q in fs:
                fac.append(self.pow(a, q))
            if e is not None:
                fac.append(self.exp(e))
            out.append(z3.Product(fac) if len(fac) > 1 else fac[0])
        r = z3.Sum(out) if len(out) > 1 else out[0] if out else z3.RealVal(0)
        self.memo[x] = r
        return r

    def exp(self, e):
        v = self.exps.get(e)
        if v is None:
            v = self.var(("exp", e), "exp", pos=True)
            self.exps[e] = v
            te = self.term(e)
            self.ax.append(z3.And((te > 0) == (v > 1), (te == 0) == (v == 1)))
            self.ax.append(v >= 1 + te)
        return v

    def pow(self, a, q):
        if q.denominator == 1:
            b = self.atom(a)
            n = int(q)
            if n > 0:
                return b if n == 1 else z3.Product([b] * n) if n <= 8 else b**n
            inv = self.var(("inv", a), "inv", pos=a.pos)
            if ("invax", a) not in self.v:
                self.v[("invax", a)] = True
                self.ax.append(z3.Implies(b != 0, inv * b == 1))
            n = -n
            return inv if n == 1 else z3.Product([inv] * n) if n <= 8 else inv**n
        k = q.numerator // q.denominator
        fr = q - k
        key = ("root", a, fr)
        b = self.atom(a)
        new = key not in self.v
        r = self.var(key, "root", pos=a.pos, nonneg=True)
        if new:
            d = fr.denominator
            if d <= 5:
                self.ax.append(z3.Implies(b >= 0, z3.Product([r] * d) == (z3.Product([b] * fr.numerator) if fr.numerator > 1 else b)))
            self.ax.append(z3.Implies(b >= 0, z3.And((b > 1) == (r > 1), (b == 0) == (r == 0), (b < 1) == (r < 1))))
        if k == 0:
            return r
        return self.pow(a, F(k)) * r

    def atom(self, a):
        k = a.kind
        if k == "ite":
            key = ("iteval", a)
            r = self.memo.get(key)
            if r is None:
                r = z3.If(self.bool(a.key[1]), self.term(a.key[2]), self.term(a.key[3]))
                self.memo[key] = r
            return r
        if k == "poly":
            return self.term(a.key[1])
        if k == "lconst":
            v = self.var(a, "lc", pos=True)
            if ("lcax", a) not in self.v:
                self.v[("lcax", a)] = True
                import math

                x = math.log(a.key[1])
                self.ax.append(z3.And(v > _q(F(x) - F(1, 10**9)), v < _q(F(x) + F(1, 10**9))))
            return v
        if k == "prime":
            v = self.var(a, "prime", pos=True)
            if ("prax", a) not in self.v:
                self.v[("prax", a)] = True
                # the generator p of fractional powers: only its value matters
                self.ax.append(v == a.key[1])
            return v
        if k == "log":
            v = self.logs.get(a)
            if v is None:
                v = self.var(a, "log")
                self.logs[a] = v
                x = self.term(a.key[1])
                self.ax.append(z3.Implies(x > 0, z3.And((x > 1) == (v > 0), (x == 1) == (v == 0), v <= x - 1)))
            return v
        if a.key == ("sym", "pi"):
            v = self.var(a, "pi", pos=True)
            if "piax" not in self.v:
                self.v["piax"] = True
                self.ax.append(z3.And(v > _q(F(31415926535, 10**10)), v < _q(F(31415926536, 10**10))))
            return v
        if k == "app" and a.key[1] in ("cos", "sin"):
            new = a not in self.v
            v = self.var(a, "trig")
            if new:
                self.ax.append(z3.And(v >= -1, v <= 1))
            return v
        return self.var(a, k, a.pos, a.nonneg, a.isint)

    def bool(self, b):
        key = ("b", b)
        r = self.memo.get(key)
        if r is not None:
            return r
        k = b.k
        if k == "true":
            r = z3.BoolVal(True)
        elif k == "false":
            r = z3.BoolVal(False)
        elif k == "<":
            r = self.term(b.a[0]) < 0
        elif k == "<=":
            r = self.term(b.a[0]) <= 0
        elif k == "==":
            r = self.term(b.a[0]) == 0
        elif k == "not":
            r = z3.Not(self.bool(b.a[0]))
        elif k == "and":
            r = z3.And([self.bool(x) for x in b.a])
        elif k == "or":
            r = z3.Or([self.bool(x) for x in b.a])
        else:
            r = z3.Bool("p%d" % b.id)
        self.memo[key] = r
        return r

    def ordering_axioms(self):
        """Monotonicity between pairs of exponentials and logarithms (few of them only)"""
        ex = list(self.exps.items())
        if len(ex) <= 5:
            for i in range(len(ex)):
                for j in range(i):
                    a, b = self.term(ex[i][0]), self.term(ex[j][0])
                    self.ax.append((a < b) == (ex[i][1] < ex[j][1]))
                    self.ax.append((a == b) == (ex[i][1] == ex[j][1]))
        lg = list(self.logs.items())
        if len(lg) <= 5:
            for i in range(len(lg)):
                for j in range(i):
                    a, b = self.term(lg[i][0].key[1]), self.term(lg[j][0].key[1])
                    c = z3.And(a > 0, b > 0)
                    self.ax.append(z3.Implies(c, (a < b) == (lg[i][1] < lg[j][1])))
                    if len(lg) <= 3:
                        self.ax.append(z3.Implies(c, (b < a) == (lg[j][1] < lg[i][1])))


_sat_memo = {}


def reset():
    _sat_memo.clear()


def check(bs, timeout=1500, want_model=False):
    """'unsat', 'sat' or 'unknown' for a conjunction of B"""
    bs = [b for b in bs if b.k != "true"]
    if any(b.k == "false" for b in bs):
        return ("unsat", None) if want_model else "unsat"
    key = (frozenset(bs), timeout)
    if not want_model and key in _sat_memo:
        return _sat_memo[key]
    enc = Enc()
    fs = [enc.bool(b) for b in bs]
    for p in t.POS:
        if any(a.id for a in ()):
            pass
    used = set()
    for b in bs:
        used |= t.atoms_of(b)
    for p in t.POS:
        if t.atoms_of(p) & used:
            fs.append(enc.term(p) > 0)
    enc.ordering_axioms()
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*fs)
    s.add(*enc.ax)
    t0 = time.time()
    r = str(s.check())
    STATS["z3_calls"] += 1
    STATS["z3_time"] += time.time() - t0
    if r == "unknown" and not want_model:
        r = _cvc5(s, timeout)
    if r == "unknown":
        STATS["unknown"] += 1
    if want_model:
        m = None
        if r == "sat":
            mod = s.model()
            m = {}
            for nm, k in enc.names.items():
                if isinstance(k, t.Atom):
                    v = mod.eval(enc.v[k], model_completion=True)
                    try:
                        if z3.is_algebraic_value(v):
                            v = v.approx(12)
                        m[k] = F(v.numerator_as_long(), v.denominator_as_long())
                    except Exception:
                        pass
        return r, m
    _sat_memo[key] = r
    return r


def _cvc5(s, timeout):
    try:
        import cvc5
    except ImportError:
        return "unknown"
    t0 = time.time()
    try:
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(timeout))
        slv.setLogic("ALL")
        prs = cvc5.InputParser(slv)
        prs.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, s.to_smt2().replace("(check-sat)", ""), "q")
        sm = prs.getSymbolManager()
        while True:
            c = prs.nextCommand()
            if c.isNull():
                break
            c.invoke(slv, sm)
        r = slv.checkSat()
        out = "unsat" if r.isUnsat() else "sat" if r.isSat() else "unknown"
    except Exception:
        out = "unknown"
    STATS["z3_time"] += time.time() - t0
    if out == "unsat":
        STATS["cvc5"] += 1
    return out


# ---------------------------------------------------------------- equalities
class Result:
    def __init__(self, ok, how, detail=None, case=None, model=None):
        self.ok, self.how, self.detail, self.case, self.model = ok, how, detail, case, model


def prove_bool(goal, hyps, timeout=4000):
    if goal.k == "true":
        STATS["nf"] += 1
        return Result(True, "nf")
    r = check(list(hyps) + [t.bnot(goal)], timeout)
    if r == "unsat":
        STATS["z3"] += 1
        return Result(True, "z3")
    if r == "sat":
        r2, m = check(list(hyps) + [t.bnot(goal)], timeout, want_model=True)
        return Result(False, "sat", repr(goal)[:2000], model=m, case=[])
    return Result(None, "unknown", repr(goal)[:2000])


def _conds(x):
    """The atomic conditions of the conditionals of a term"""
    s = t.split_ite(x)
    return s


def _atomic(c):
    while c.k in ("and", "or", "not"):
        c = c.a[0]
    return c


def assume_deep(x, c, val):
    """Simplify x (term or boolean) under an atomic condition, everywhere: conditionals
    whose condition contains c are reduced, also below functions and binders"""
    nc = t.bnot(c)
    memo = {}

    def bo(b):
        if b is c:
            return t.boolc(val)
        if b is nc:
            return t.boolc(not val)
        r = memo.get(b)
        if r is None:
            if b.k == "and":
                r = t.conj([bo(y) for y in b.a])
            elif b.k == "or":
                r = t.disj([bo(y) for y in b.a])
            elif b.k == "not":
                r = t.bnot(bo(b.a[0]))
            elif b.k in ("<", "<=", "=="):
                r = t._cmp(b.k, te(b.a[0]))
            else:
                r = b
            memo[b] = r
        return r

    def te(x):
        r = memo.get(x)
        if r is None:
            if not _has_ite(x):
                r = x
            else:
                r = t.ZERO
                for (e, fs), k in x.d.items():
                    y = t.const(k)
                    if e is not None:
                        y = t.mul(y, t.exp(te(e)))
                    for a, q in fs:
                        y = t.mul(y, t.power(at(a), t.const(q)))
                    r = t.add(r, y)
            memo[x] = r
        return r

    def at(a):
        k = a.kind
        if k == "ite":
            cc = bo(a.key[1])
            if cc.k == "true":
                return te(a.key[2])
            if cc.k == "false":
                return te(a.key[3])
            return t.ite(cc, te(a.key[2]), te(a.key[3]))
        if k == "poly":
            return te(a.key[1])
        if k == "log":
            return t.log(te(a.key[1]))
        if k == "pow":
            return t.power(te(a.key[1]), te(a.key[2]))
        if k == "app":
            args = [te(y) if isinstance(y, T) else bo(y) for y in a.key[2]]
            if all(p is q for p, q in zip(args, a.key[2])):
                return t.from_atom(a)
            return t.reapp(a.key[1], args, a)
        if k == "bind":
            bodies = [te(y) for y in a.key[3]]
            n = te(a.key[2])
            if n is a.key[2] and all(p is q for p, q in zip(bodies, a.key[3])):
                return t.from_atom(a)
            return t.binder(a.key[1], n, bodies, a.key[4], a.depth)
        return t.from_atom(a)

    return te(x) if isinstance(x, T) else bo(x)


_ite_memo = {}


def _has_ite(x):
    r = _ite_memo.get(x)
    if r is None:
        r = any(a.kind == "ite" for a in t.atoms_of(x))
        _ite_memo[x] = r
    return r


def _first_cond(x):
    """An atomic condition, free of bound variables, of some conditional of x"""
    best = None
    for a in sorted((a for a in t.atoms_of(x) if a.kind == "ite"), key=lambda a: a.id):
        for c in _leaves(a.key[1]):
            if not any(y.kind == "bv" for y in t.atoms_of(c)):
                return c
    return best


def _leaves(c):
    if c.k in ("and", "or", "not"):
        for y in c.a:
            yield from _leaves(y)
    elif c.k not in ("true", "false"):
        yield c


class Prover:
    def __init__(self, facts_at=None, deadline=None, cases_max=4000):
        self.facts_at = facts_at or (lambda i, n: [])
        self.cases = 0
        self.cases_max = cases_max
        self.memo = {}
        self.light = 0
        self.deadline = deadline

    def prove_eq(self, lhs, rhs, hyps):
        if lhs is rhs:
            STATS["nf"] += 1
            return Result(True, "nf")
        return self._split(lhs, rhs, list(hyps), [])

    def _split(self, lhs, rhs, hyps, case):
        if lhs is rhs:
            STATS["nf"] += 1
            return Result(True, "nf")
        self.cases += 1
        if self.cases > self.cases_max or (self.deadline and time.time() > self.deadline):
            return Result(None, "case limit", "more than %d cases" % self.cases)
        c = _first_cond(lhs)
        if c is None:
            c = _first_cond(rhs)
        if c is None:
            r = self._base(lhs, rhs, hyps)
            if not r.ok and r.case is None:
                r.case = case
            return r
        how = "nf"
        for val in (True, False):
            cc = c if val else t.bnot(c)
            # only infeasible cases are dropped
            if check(hyps + [cc], 800) == "unsat":
                continue
            l2, r2 = assume_deep(lhs, c, val), assume_deep(rhs, c, val)
            r = self._split(l2, r2, hyps + [cc], case + [cc])
            if not r.ok:
                return r
            if r.how != "nf":
                how = r.how
        return Result(True, how)

    def _base(self, lhs, rhs, hyps):
        d = t.add(lhs, t.neg(rhs))
        if not d.d:
            STATS["nf"] += 1
            return Result(True, "nf")
        d2 = self._numerator(d, hyps)
        if d2 is not None and not d2.d:
            STATS["nf"] += 1
            return Result(True, "nf")
        if self._linear(lhs, rhs, hyps):
            return Result(True, "congruence")
        if self._sums(d, hyps):
            return Result(True, "congruence")
        # congruence: unify atoms whose arguments can be proved equal
        l2, r2, n = self._congruence(lhs, rhs, hyps)
        if n:
            if l2 is r2:
                STATS["nf"] += 1
                return Result(True, "congruence")
            d = t.add(l2, t.neg(r2))
            d2 = self._numerator(d, hyps)
            if d2 is not None and not d2.d:
                STATS["nf"] += 1
                return Result(True, "congruence")
        goal = t.eq(l2, r2)
        if goal.k == "false":
            if self.light == 2:
                return Result(None, "candidate")
            r, m = check(hyps, 3000, want_model=True)
            if r == "unsat":
                return Result(True, "z3")
            return Result(False, "nf-differ", "%r  !=  %r" % (lhs, rhs), model=m)
        if self.light == 2:
            return Result(None, "candidate")
        if self.light:
            # a candidate of the congruence: large ones are left to the normal form
            size = sum(len(a.key[1].d) for a in t.atoms_of(goal) if a.kind == "poly")
            if size > 24 or len(t.atoms_of(goal)) > 16:
                return Result(None, "candidate")
        r = check(hyps + [t.bnot(goal)], 3000)
        if r == "unsat":
            STATS["z3"] += 1
            return Result(True, "z3")
        m = None
        if r == "sat" and not self.light:
            _, m = check(hyps + [t.bnot(goal)], 3000, want_model=True)
        return Result(False if r == "sat" else None, r, ("%r  !=  %r" % (lhs, rhs))[:4000], model=m)

    def _numerator(self, d, hyps):
        """Multiply by the denominators (sums raised to negative powers); None if too large"""
        for _ in range(12):
            # merge polys that are equal up to a factor are already the same atom
            den = {}
            for (e, fs), c in d.d.items():
                for a, q in fs:
                    if a.kind == "poly" and q < 0 and q.denominator == 1:
                        den[a] = min(den.get(a, 0), q)
                    elif a.kind == "poly" and q.denominator != 1:
                        k = q.numerator // q.denominator
                        if k < 0:
                            den[a] = min(den.get(a, 0), F(k))
            if not den:
                return d
            m = (None, tuple(sorted(((a, -q) for a, q in den.items()), key=lambda x: x[0].id)))
            if len(d.d) > 3000:
                return None
            try:
                # multiply monomial by monomial so that powers cancel before expansion
                r = t.ZERO
                for mm, c in d.d.items():
                    k, m2, extra = t._mmul(mm, m)
                    y = t.const(c * k)
                    e, fs = m2
                    keep, expand = [], []
                    fs = list(fs)
                    for a, q in fs:
                        if a.kind == "poly" and q > 0 and q.denominator == 1:
                            expand.append((a, int(q)))
                        elif a.kind == "poly" and q > 1:
                            k2 = q.numerator // q.denominator
                            keep.append((a, q - k2))
                            expand.append((a, int(k2)))
                        else:
                            keep.append((a, q))
                    for a, q in extra or []:
                        if (a, F(q)) not in fs:
                            expand.append((a, q))
                    y = t.mul(y, t._mk({(e, tuple(keep)): F(1)}))
                    for a, q in expand:
                        y = t.mul(y, t.ipow(a.key[1], q))
                    r = t.add(r, y)
                d = r
            except t.Unsupported:
                return None
            if not d.d:
                return d
        return d

    def _linear(self, lhs, rhs, hyps):
        """c1 * B{y1} = c2 * B{y2} where c1 * y1 = c2 * y2, for a binder that is linear in y"""
        if not lhs.d or not rhs.d:
            return self._zero(lhs if lhs.d else rhs, hyps)
        if self.light == 2 or len(lhs.d) != 1 or len(rhs.d) != 1:
            return False

        def parts(x):
            (e, fs), k = next(iter(x.d.items()))
            bs = [(a, q) for a, q in fs if a.kind == "bind" and a.key[1] in t.LINEAR and q == 1]
            return (bs, e, fs, k)

        (la, le_, lf, lk), (ra, re_, rf, rk) = parts(lhs), parts(rhs)
        lo = [a for a, _ in la if a not in [b for b, _ in ra]]
        ro = [a for a, _ in ra if a not in [b for b, _ in la]]
        if len(lo) != 1 or len(ro) != 1:
            return False
        a, b = lo[0], ro[0]
        if not self._same_shape(a, b) or not self._eq_memo(a.key[2], b.key[2], hyps):
            return False
        ca = t._mk({(le_, tuple((x, q) for x, q in lf if x is not a)): lk})
        cb = t._mk({(re_, tuple((x, q) for x, q in rf if x is not b)): rk})
        if a.key[1] in t.REAL_BINDERS:
            i = t.fresh("k")
            ba, bb = open_bind(a, i), open_bind(b, i)
            lo, hi = ba[1], ba[2]
            h2 = hyps + [t.disj([t.conj([t.le(lo, i), t.le(i, hi)]), t.conj([t.le(hi, i), t.le(i, lo)])])]
        else:
            i = t.fresh("k", nonneg=True, isint=True)
            ba, bb = open_bind(a, i), open_bind(b, i)
            h2 = hyps + [t.lt(i, a.key[2])] + list(self.facts_at(i, a.key[2]))
        if not all(self._eq_memo(x, y, h2) for x, y in zip(ba[1:], bb[1:])):
            return False
        r = t.mul(ca, t.power(cb, t.MINUS1))
        return self._eq_memo(t.mul(r, ba[0]), bb[0], h2)

    def _sums(self, d, hyps):
        """A combination of sums over one index whose bodies add up to zero at every index"""
        if self.light == 2 or len(d.d) < 3:
            return False
        parts, n = [], None
        for (e, fs), c in d.d.items():
            bs = [a for a, q in fs if a.kind == "bind" and a.key[1] == "sum" and q == 1]
            if len(bs) != 1:
                parts.append((e, fs, c, None))
                continue
            a = bs[0]
            if n is None:
                n = a.key[2]
            elif a.key[2] is not n:
                return False
            parts.append((e, fs, c, a))
        if n is None:
            return False
        i = t.fresh("k", nonneg=True, isint=True)
        total = t.ZERO
        for e, fs, c, a in parts:
            if a is None:
                total = t.add(total, t.mul(t._mk({(e, fs): c}), t.power(n, t.MINUS1)))
            else:
                k = t._mk({(e, tuple((x, q) for x, q in fs if x is not a)): c})
                total = t.add(total, t.mul(k, open_bind(a, i)[0]))
        h2 = hyps + [t.lt(i, n)] + list(self.facts_at(i, n))
        return self._eq_memo(total, t.ZERO, h2)

    def _zero(self, x, hyps):
        """Every term contains a linear binder of a body that is zero"""
        for (e, fs) in x.d:
            ok = False
            for a, q in fs:
                if a.kind == "bind" and a.key[1] in t.LINEAR and q > 0 and a.key[1] not in t.REAL_BINDERS:
                    i = t.fresh("k", nonneg=True, isint=True)
                    h2 = hyps + [t.lt(i, a.key[2])] + list(self.facts_at(i, a.key[2]))
                    ok = self._eq_memo(open_bind(a, i)[0], t.ZERO, h2)
                if ok:
                    break
            if not ok:
                return False
        return True

    # -- congruence
    def _congruence(self, lhs, rhs, hyps):
        la, ra = self._top(lhs), self._top(rhs)
        only_l = [a for a in la if a not in ra]
        only_r = [a for a in ra if a not in la]
        sub, n, esub = {}, 0, {}
        el, er = self._exps(lhs), self._exps(rhs)
        was = self.light
        # normal forms first, solvers for what is left
        for level in (2, was) if was != 2 else (2,):
            self.light = level
            for a in only_l:
                if a in sub:
                    continue
                for b in only_r:
                    if b in sub.values() or not self._same_shape(a, b):
                        continue
                    if self._atoms_equal(a, b, hyps):
                        sub[a] = b
                        n += 1
                        break
            for x in el:
                if x in er or x in esub:
                    continue
                for y in er:
                    if y in el or y in esub.values():
                        continue
                    if self._eq_memo(x, y, hyps):
                        esub[x] = y
                        n += 1
                        break
        self.light = was
        if n:
            lhs = self._replace(lhs, sub, esub)
        return lhs, rhs, n

    def _top(self, x):
        out = set()
        for (e, fs) in x.d:
            for a, q in fs:
                if a.kind == "poly":
                    out |= self._top(a.key[1])
                out.add(a)
        return out

    def _exps(self, x):
        out = set()
        for (e, fs) in x.d:
            if e is not None:
                out.add(e)
            for a, q in fs:
                if a.kind == "poly":
                    out |= self._exps(a.key[1])
        return out

    def _replace(self, x, sub, esub):
        r = t.ZERO
        for (e, fs), c in x.d.items():
            y = t.const(c)
            if e is not None:
                y = t.mul(y, t.exp(esub.get(e, e)))
            for a, q in fs:
                if a in sub:
                    y = t.mul(y, t.power(t.from_atom(sub[a]), t.const(q)))
                elif a.kind == "poly":
                    y = t.mul(y, t.power(self._replace(a.key[1], sub, esub), t.const(q)))
                else:
                    y = t.mul(y, t.from_atom(a, q))
            r = t.add(r, y)
        return r

    @staticmethod
    def _same_shape(a, b):
        if a.kind != b.kind:
            return False
        if a.kind == "app":
            return a.key[1] == b.key[1] and len(a.key[2]) == len(b.key[2])
        if a.kind == "bind":
            return a.key[1] == b.key[1] and len(a.key[3]) == len(b.key[3]) and a.key[4] == b.key[4]
        return a.kind in ("log", "pow", "poly")

    def _eq_memo(self, x, y, hyps):
        if x is y:
            return True
        k = (x, y, frozenset(hyps), self.light)
        r = self.memo.get(k)
        if r is None:
            r = bool(self._split(x, y, hyps, []).ok)
            self.memo[k] = r
        return r

    def _atoms_equal(self, a, b, hyps):
        k = a.kind
        if k == "app":
            return all(
                x is y or (isinstance(x, T) and isinstance(y, T) and self._eq_memo(x, y, hyps))
                for x, y in zip(a.key[2], b.key[2])
            )
        if k in ("log", "poly"):
            was, self.light = self.light, self.light or int(k == "poly")
            r = self._eq_memo(a.key[1], b.key[1], hyps)
            self.light = was
            return r
        if k == "pow":
            return self._eq_memo(a.key[1], b.key[1], hyps) and self._eq_memo(a.key[2], b.key[2], hyps)
        if k == "bind":
            if not self._eq_memo(a.key[2], b.key[2], hyps):
                return False
            n = a.key[2]
            if a.key[1] in t.REAL_BINDERS:
                i = t.fresh("k")
                ba, bb = open_bind(a, i), open_bind(b, i)
                lo, hi = ba[1], ba[2]
                h2 = hyps + [t.disj([t.conj([t.le(lo, i), t.le(i, hi)]), t.conj([t.le(hi, i), t.le(i, lo)])])]
            else:
                i = t.fresh("k", nonneg=True, isint=True)
                ba, bb = open_bind(a, i), open_bind(b, i)
                h2 = hyps + [t.lt(i, n)] + list(self.facts_at(i, n))
            return all(self._eq_memo(x, y, h2) for x, y in zip(ba, bb))
        return False


def open_bind(a, i):
    v = t.atom_of(t.bv(a.depth, a.key[1] in t.REAL_BINDERS))
    return [t.subst(b, {v: i}) for b in a.key[3]]
