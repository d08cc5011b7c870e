"""Exact real terms in a normal form.

A term T is a finite sum  sum_k c_k * exp(t_k) * prod_j a_kj ** q_kj  with rational
coefficients c_k, interned atoms a_kj, rational exponents q_kj and exponent terms t_k.
Two terms with the same normal form are equal wherever both are defined, so that many
equality obligations are discharged by the canonicaliser alone; the rest go to SMT.

Every product rule that needs a sign (x**a * y**a, log(x*y), sqrt(x**2), ...) is applied
only when the signs are known from the declared preconditions.
"""
from fractions import Fraction
from math import isqrt

F = Fraction
_Z, _ONE = F(0), F(1)


class Unsupported(BaseException):
    """The code uses a construct outside of the verified subset (a limit of the tool)."""


_intern_T = {}
_intern_A = {}
_intern_B = {}
POS = set()  # terms declared positive by a precondition (content-free)
NONNEG = set()


def reset():
    for d in (_intern_T, _intern_A, _intern_B, _memo_pos, _memo_subst):
        d.clear()
    POS.clear()
    NONNEG.clear()
    Atom.count = 0
    _consts()


# ---------------------------------------------------------------- atoms
class Atom:
    """kind: sym, app, log, lconst, prime, poly, ite, bind, bv, pow"""

    __slots__ = ("id", "kind", "key", "pos", "nonneg", "isint", "depth")
    count = 0

    def __repr__(self):
        k = self.kind
        if k == "sym":
            return str(self.key[1])
        if k == "app":
            return "%s(%s)" % (self.key[1], ", ".join(map(repr, self.key[2])))
        if k == "log":
            return "log(%r)" % (self.key[1],)
        if k == "lconst":
            return "log(%s)" % self.key[1]
        if k == "prime":
            return "{%s}" % self.key[1]
        if k == "poly":
            return "(%r)" % (self.key[1],)
        if k == "ite":
            return "ite(%r, %r, %r)" % self.key[1:4]
        if k == "bv":
            return "#%d" % self.key[1]
        if k == "bind":
            return "%s[%r]{%s}" % (self.key[1], self.key[2], "; ".join(map(repr, self.key[3])))
        if k == "pow":
            return "pow(%r, %r)" % self.key[1:3]
        return str(self.key)


def _atom(key, pos=False, nonneg=False, isint=False, depth=0):
    a = _intern_A.get(key)
    if a is None:
        a = Atom()
        Atom.count += 1
        a.id, a.kind, a.key = Atom.count, key[0], key
        a.pos, a.nonneg, a.isint, a.depth = pos, nonneg or pos, isint, depth
        _intern_A[key] = a
    return a


# ---------------------------------------------------------------- terms
class T:
    __slots__ = ("d", "h", "_s", "depth", "inf")

    def __init__(self):
        raise TypeError

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        if self._s is None:
            self._s = _show(self)
        return self._s

    # arithmetic
    def __add__(self, o):
        return add(self, o)

    def __sub__(self, o):
        return add(self, neg(o))

    def __mul__(self, o):
        return mul(self, o)

    def __neg__(self):
        return neg(self)

    def __truediv__(self, o):
        return mul(self, power(o, MINUS1))

    @property
    def const(self):
        """The value if the term is a rational constant, else None"""
        d = self.d
        if not d:
            return _Z
        if len(d) == 1:
            m, c = next(iter(d.items()))
            if m == M1:
                return c
        return None


M1 = (None, ())


def _show(t):
    if not t.d:
        return "0"
    out = []
    for (e, fs), c in sorted(t.d.items(), key=lambda mc: _mkey(mc[0])):
        s = []
        if c != 1 or (e is None and not fs):
            s.append(str(c) if c.denominator < 10**6 else "%.10g" % float(c))
        for a, q in fs:
            s.append(repr(a) if q == 1 else "%r^%s" % (a, q))
        if e is not None:
            s.append("exp(%r)" % e)
        out.append("*".join(s))
    return " + ".join(out)


def _mkey(m):
    return (repr(m[0]) if m[0] is not None else "", tuple((a.id, q) for a, q in m[1]))


_INFKEY = ("sym", "inf")


def _mk(d):
    k = frozenset(d.items())
    t = _intern_T.get(k)
    if t is None:
        t = object.__new__(T)
        t.d, t.h, t._s = d, hash(k), None
        dep, inf = 0, False
        for e, fs in d:
            if e is not None and e.depth > dep:
                dep = e.depth
            for a, _ in fs:
                if a.depth > dep:
                    dep = a.depth
                if a.key == _INFKEY:
                    inf = True
        t.depth, t.inf = dep, inf
        _intern_T[k] = t
    return t


def _consts():
    global ZERO, ONE, MINUS1, PI, INF
    ZERO, ONE, MINUS1 = _mk({}), _mk({M1: _ONE}), _mk({M1: -_ONE})
    PI = sym("pi", pos=True)
    INF = sym("inf", pos=True)


def const(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x:
            return nan()
        if x in (float("inf"), float("-inf")):
            return INF if x > 0 else neg(INF)
        x = F(repr(x))
    x = F(x)
    return _mk({M1: x}) if x else ZERO


def nan():
    return sym("nan")


def from_atom(a, q=_ONE):
    return _mk({(None, ((a, q),)): _ONE})


def sym(name, pos=False, nonneg=False, isint=False):
    return from_atom(_atom(("sym", name), pos, nonneg, isint))


def bv(k, real=False):
    """The variable bound by the binder with number k: the number of binders nested below"""
    if real:
        return from_atom(_atom(("bv", k, "r")))
    return from_atom(_atom(("bv", k), nonneg=True, isint=True))


REAL_BINDERS = {"quad"}


def _bvar(kind):
    return fresh("b") if kind in REAL_BINDERS else fresh("b", nonneg=True, isint=True)


_INVERSE = {"argsort": "argrank", "argrank": "argsort"}


def app(name, args, pos=False, nonneg=False, isint=False):
    args = tuple(args)
    if name in _INVERSE and len(args[1].d) == 1:
        # a permutation of its inverse
        (e, fs), c = next(iter(args[1].d.items()))
        if e is None and c == 1 and len(fs) == 1 and fs[0][1] == 1:
            k = fs[0][0].key
            if k[0] == "app" and k[1] == _INVERSE[name] and k[2][0] is args[0]:
                return k[2][1]
    return from_atom(
        _atom(("app", name, args), pos, nonneg, isint, depth=max((a.depth for a in args), default=0))
    )


def _infsign(t):
    """+1/-1 if the term is an infinity, 0 otherwise"""
    if not t.inf:
        return 0
    s = 0
    for (e, fs), c in t.d.items():
        if any(a.key == ("sym", "inf") for a, _ in fs):
            if len(fs) != 1 or fs[0][1] != 1 or e is not None:
                raise Unsupported("arithmetic on infinity")
            n = 1 if c > 0 else -1
            if s and s != n:
                raise Unsupported("inf - inf")
            s = n
    return s


def add(x, y):
    y = const(y)
    if not y.d:
        return x
    if not x.d:
        return y
    s1, s2 = _infsign(x), _infsign(y)
    if s1 or s2:
        if s1 and s2 and s1 != s2:
            return nan()
        return INF if (s1 or s2) > 0 else _mk({next(iter(INF.d)): -_ONE})
    d = dict(x.d)
    for m, c in y.d.items():
        c2 = d.get(m, _Z) + c
        if c2:
            d[m] = c2
        else:
            d.pop(m, None)
    return _mk(d)


def neg(x):
    x = const(x)
    return _mk({m: -c for m, c in x.d.items()})


def scale(x, c):
    return _mk({m: k * c for m, k in x.d.items()}) if c else ZERO


def _mmul(m1, m2):
    """Product of monomials: (coefficient, monomial, [positive integer powers of sums])"""
    e1, f1 = m1
    e2, f2 = m2
    e = e1 if e2 is None else e2 if e1 is None else add(e1, e2)
    if e is not None and not e.d:
        e = None
    if not f1:
        return _ONE, (e, f2), None
    if not f2:
        return _ONE, (e, f1), None
    out, i, j, c, exp = [], 0, 0, _ONE, None
    n1, n2 = len(f1), len(f2)
    while i < n1 and j < n2:
        a, q = f1[i]
        b, r = f2[j]
        if a is b:
            s = q + r
            i += 1
            j += 1
            if s:
                if a.kind == "prime":
                    k = s.numerator // s.denominator
                    if k:
                        c *= F(a.key[1]) ** k
                        s -= k
                    if s:
                        out.append((a, s))
                elif a.kind == "poly" and s > 0 and s.denominator == 1:
                    exp = (exp or []) + [(a, int(s))]
                elif a.kind == "ite" and s.denominator == 1 and s > 1 and a.key[2:] == (ONE, ZERO):
                    out.append((a, _ONE))
                else:
                    out.append((a, s))
        elif a.id < b.id:
            out.append((a, q))
            i += 1
        else:
            out.append((b, r))
            j += 1
    out.extend(f1[i:])
    out.extend(f2[j:])
    return c, (e, tuple(out)), exp


def mul(x, y):
    y = const(y)
    if not x.d or not y.d:
        return ZERO
    if len(y.d) == 1 and M1 in y.d:
        return scale(x, y.d[M1])
    if len(x.d) == 1 and M1 in x.d:
        return scale(y, x.d[M1])
    s1, s2 = _infsign(x), _infsign(y)
    if s1 or s2:
        o, s = (y, s1) if s1 else (x, s2)
        if is_pos(o):
            return INF if s > 0 else neg(INF)
        if is_pos(neg(o)):
            return INF if s < 0 else neg(INF)
        raise Unsupported("product of infinity and a term of unknown sign")
    if len(x.d) * len(y.d) > 60000:
        raise Unsupported("term too large")
    d, extra = {}, []
    for m1, c1 in x.d.items():
        for m2, c2 in y.d.items():
            k, m, exp = _mmul(m1, m2)
            if exp:
                t = _mk({m: c1 * c2 * k})
                for a, n in exp:
                    t = mul(t, ipow(a.key[1], n))
                extra.append(t)
                continue
            c = d.get(m, _Z) + c1 * c2 * k
            if c:
                d[m] = c
            else:
                d.pop(m, None)
    r = _mk(d)
    for t in extra:
        r = add(r, t)
    return r


# ---------------------------------------------------------------- signs
_memo_pos = {}


def _mono_pos(m):
    for a, q in m[1]:
        if not (a.pos or (a.kind == "poly" and is_pos(a.key[1]))):
            return False
    return True


def _mono_nonneg(m):
    for a, q in m[1]:
        if a.pos or a.nonneg or (q.denominator == 1 and q.numerator % 2 == 0):
            continue
        if a.kind == "poly" and is_nonneg(a.key[1]):
            continue
        if q.denominator != 1 and q.denominator % 2 == 0:
            continue  # an even root is defined for nonnegative values only
        return False
    return True


def is_pos(t):
    t = const(t)
    k = (t, len(POS))
    r = _memo_pos.get(k)
    if r is None:
        if not t.d:
            r = False
        else:
            r = False
            if all(c > 0 for c in t.d.values()):
                r = all(_mono_nonneg(m) for m in t.d) and any(_mono_pos(m) for m in t.d)
            if not r and POS:
                c, m, p = content(t)
                r = p in POS and c > 0 and _mono_pos(m)
        _memo_pos[k] = r
    return r


def is_nonneg(t):
    t = const(t)
    if is_pos(t) or not t.d:
        return True
    if all(c > 0 and _mono_nonneg(m) for m, c in t.d.items()):
        return True
    c, m, p = content(t)
    return p in NONNEG and c > 0 and _mono_nonneg(m)


def declare_pos(t):
    c, m, p = content(t)
    if len(p.d) > 1:
        POS.add(p if c > 0 else neg(p))
        _memo_pos.clear()


def content(t):
    """t = c * m * p with p primitive (leading coefficient +1, no common factor)"""
    if not t.d:
        return _ONE, M1, t
    if len(t.d) == 1:
        m, c = next(iter(t.d.items()))
        return c, m, ONE
    common = None
    es = set()
    for e, fs in t.d:
        es.add(e)
        fd = dict(fs)
        if common is None:
            common = fd
        else:
            new = {}
            for a in set(common) | set(fd):
                q = min(common.get(a, _Z), fd.get(a, _Z))
                if q:
                    new[a] = q
            common = new
    # primes are part of the coefficient field: only a factor common to all is taken out
    for a in [a for a in common if a.kind == "prime"]:
        del common[a]
    e = None
    if len(es) == 1:
        e = es.pop()
    m = (e, tuple(sorted(common.items(), key=lambda aq: aq[0].id)))
    if m != M1:
        t = mul(t, _minv(m))
        t2 = expand_polys(t)
        if t2 is not t:
            # a common denominator came out: the numerators are expanded
            c2, m2, p2 = content(t2)
            f = mul(_mk({m: _ONE}), _mk({m2: c2}))
            if len(f.d) == 1:
                (m3, c3), = f.d.items()
                return c3, m3, p2
    lm = min(t.d, key=_leadkey)
    lead = t.d[lm]
    pr = tuple((a, q) for a, q in lm[1] if a.kind == "prime")
    if pr:
        # the leading term has no radical of a constant
        t = mul(t, _mk({(None, tuple((a, -q) for a, q in pr)): 1 / lead}))
        m = _mmul(m, (None, pr))[1]
    else:
        t = scale(t, 1 / lead)
    for a, q in m[1]:
        # sums that divide the rest
        if a.kind == "poly":
            n, b = 0, a.key[1]
            while len(t.d) > 1 and (q + n < 0 or q.denominator != 1):
                r = _divide(t, b)
                if r is None:
                    break
                t, n = r, n + 1
            if n:
                fs = [(x, k) for x, k in m[1] if x is not a] + ([(a, q + n)] if q + n else [])
                m1 = (m[0], tuple(sorted(fs, key=lambda x: x[0].id)))
                c2, m2, p2 = content(t)
                f = mul(_mk({m1: lead}), _mk({m2: c2}))
                (m3, c3), = f.d.items()
                return c3, m3, p2
    return lead, m, t


def _leadkey(m):
    return _mkey((m[0], tuple((a, q) for a, q in m[1] if a.kind != "prime")))


def _divide(p, b):
    """p / b where it is a sum of monomials, else None"""
    if len(p.d) < len(b.d) or len(p.d) > 60:
        return None
    ids = set()
    for x in (p, b):
        for e, fs in x.d:
            if e is not None:
                return None
            for a, q in fs:
                if a.kind != "prime":
                    ids.add(a)
    ids = sorted(ids, key=lambda a: a.id)

    def vec(m):
        d = dict(m[1])
        return tuple(d.get(a, _Z) for a in ids)

    lb = max(b.d, key=vec)
    if len([m for m in b.d if vec(m) == vec(lb)]) > 1:
        return None
    inv = _mk({_minmono(lb): 1 / b.d[lb]})
    lo = tuple(x - y for x, y in zip(min(map(vec, p.d)), min(map(vec, b.d))))
    r, out = p, ZERO
    for _ in range(len(p.d) + 4):
        if not r.d:
            return out
        lr = max(r.d, key=vec)
        f = mul(_mk({lr: r.d[lr]}), inv)
        if len(f.d) != 1 or vec(next(iter(f.d))) < lo:
            return None
        out = add(out, f)
        r = add(r, neg(mul(f, b)))
        if len(r.d) > 80:
            return None
    return None if r.d else out


def _minmono(m):
    return m[0], tuple((a, -q) for a, q in m[1])


def expand_polys(t):
    """Expand the sums that are raised to positive integer powers"""
    r = None
    for (e, fs), c in t.d.items():
        if any(a.kind == "poly" and q > 0 and q.denominator == 1 for a, q in fs):
            break
    else:
        return t
    r = ZERO
    for (e, fs), c in t.d.items():
        keep = tuple((a, q) for a, q in fs if not (a.kind == "poly" and q > 0 and q.denominator == 1))
        y = _mk({(e, keep): c})
        for a, q in fs:
            if a.kind == "poly" and q > 0 and q.denominator == 1:
                y = mul(y, ipow(a.key[1], int(q)))
        r = add(r, y)
    return r


def _minv(m):
    e, fs = m
    return _mk({(None if e is None else neg(e), tuple((a, -q) for a, q in fs)): _ONE})


def mono(m, c=_ONE):
    return _mk({m: c})


# ---------------------------------------------------------------- powers, log, exp
def ipow(x, n):
    r = ONE
    while n:
        if n & 1:
            r = mul(r, x)
        n >>= 1
        if n:
            x = mul(x, x)
    return r


_SMALL = (2, 3, 5, 7, 11, 13)


def _factor(n):
    out = {}
    for p in _SMALL:
        while n % p == 0:
            n //= p
            out[p] = out.get(p, 0) + 1
    if n > 1:
        r = isqrt(n)
        if r * r == n:
            for p, k in _factor(r).items():
                out[p] = out.get(p, 0) + 2 * k
        else:
            out[n] = out.get(n, 0) + 1
    return out


def _cpow(c, q):
    """c ** q for a positive rational c"""
    if q.denominator == 1:
        return const(c ** int(q))
    r = ONE
    fac = _factor(c.numerator)
    for p, k in _factor(c.denominator).items():
        fac[p] = fac.get(p, 0) - k
    for p, k in fac.items():
        e = k * q
        n = e.numerator // e.denominator
        r = scale(r, F(p) ** n)
        e -= n
        if e:
            r = mul(r, from_atom(_atom(("prime", p), pos=True), e))
    return r


def power(x, y):
    """x ** y over the reals"""
    x, y = const(x), const(y)
    q = y.const
    if q is None:
        cx = x.const
        if cx == 1:
            return ONE
        s = _infsign(y)
        if s:
            if cx is not None and cx > 1:
                return INF if s > 0 else ZERO
            raise Unsupported("power with infinite exponent")
        s = split_ite(y)
        if s:
            c, a, b = s
            return ite(c, power(x, a), power(x, b))
        s = split_ite(x)
        if s:
            c, a, b = s
            return ite(c, power(a, y), power(b, y))
        if is_pos(x):
            return exp(mul(y, log(x)))
        return from_atom(_atom(("pow", x, y), depth=max(x.depth, y.depth)))
    if q == 0:
        return ONE
    if q == 1:
        return x
    if not x.d:
        if q > 0:
            return ZERO
        return sym("div0")
    s = _infsign(x)
    if s:
        if q < 0:
            return ZERO
        raise Unsupported("power of infinity")
    if q.denominator == 1 and q > 0:
        if len(x.d) == 1:
            pass
        elif len(x.d) ** int(q) <= 1500:
            return ipow(x, int(q))
    s = split_ite(x)
    if s:
        c, a, b = s
        return ite(c, power(a, y), power(b, y))
    c, m, p = content(x)
    if q.denominator == 1:
        r = const(c ** int(q))
        r = mul(r, _mpow(m, q))
        return mul(r, _ppow(p, q))
    if c > 0 and _mono_pos(m):
        return mul(mul(_cpow(c, q), _mpow(m, q)), _ppow(p, q))
    # unknown sign: keep the whole base together
    x2 = expand_polys(x)
    if x2 is not x:
        return power(x2, y)
    if c < 0:
        cc, x = -c, scale(x, 1 / abs(c))
    else:
        cc, x = c, scale(x, 1 / c)
    a = _atom(("poly", x), nonneg=False, depth=x.depth)
    return mul(_cpow(cc, q), from_atom(a, q))


def _mpow(m, q):
    e, fs = m
    r = ONE
    if e is not None:
        r = exp(scale(e, q))
    out = []
    for a, k in fs:
        s = k * q
        if a.kind == "prime":
            n = s.numerator // s.denominator
            r = scale(r, F(a.key[1]) ** n)
            s -= n
            if s:
                out.append((a, s))
        elif a.kind == "poly" and s > 0 and s.denominator == 1:
            r = mul(r, ipow(a.key[1], int(s)))
        else:
            out.append((a, s))
    if out:
        r = mul(r, _mk({(None, tuple(out)): _ONE}))
    return r


def _ppow(p, q):
    if p is ONE:
        return ONE
    if len(p.d) == 1:  # cannot happen, content() took it out
        return power(p, const(q))
    return from_atom(_atom(("poly", p), pos=is_pos(p), depth=p.depth), q)


def _lconst(c):
    """log of a positive rational"""
    r = ZERO
    fac = _factor(c.numerator)
    for p, k in _factor(c.denominator).items():
        fac[p] = fac.get(p, 0) - k
    k5 = fac.pop(5, 0)
    if k5:
        r = add(r, scale(LC(10), F(k5)))
        fac[2] = fac.get(2, 0) - k5
    for p, k in fac.items():
        if k:
            r = add(r, scale(LC(p), F(k)))
    return r


def LC(p):
    return from_atom(_atom(("lconst", p), pos=True))


def log(x):
    x = const(x)
    if not x.d:
        return neg(INF)
    if _infsign(x) > 0:
        return INF
    s = split_ite(x)
    if s:
        c, a, b = s
        return ite(c, log(a), log(b))
    c, m, p = content(x)
    if c > 0 and _mono_pos(m):
        e, fs = m
        r = _lconst(c)
        if e is not None:
            r = add(r, e)
        for a, q in fs:
            if a.kind == "prime":
                r = add(r, scale(_lconst(F(a.key[1])), q))
            elif a.kind == "poly":
                r = add(r, scale(from_atom(_atom(("log", a.key[1]), depth=a.depth)), q))
            else:
                r = add(r, scale(from_atom(_atom(("log", from_atom(a)), depth=a.depth)), q))
        if p is not ONE:
            r = add(r, from_atom(_atom(("log", p), depth=p.depth)))
        return r
    # unknown sign: only the magnitude of the coefficient is taken out
    k = abs(c)
    return add(_lconst(k), from_atom(_atom(("log", scale(x, 1 / k)), depth=x.depth)))


def exp(x):
    x = const(x)
    if not x.d:
        return ONE
    s = _infsign(x)
    if s:
        return INF if s > 0 else ZERO
    s = split_ite(x)
    if s:
        c, a, b = s
        return ite(c, exp(a), exp(b))
    r, rest = ONE, {}
    for m, c in x.d.items():
        e, fs = m
        if e is None and len(fs) == 1 and fs[0][1] == 1:
            a = fs[0][0]
            if a.kind == "log" and (c.denominator == 1 or is_pos(a.key[1])):
                r = mul(r, power(a.key[1], const(c)))
                continue
            if a.kind == "lconst":
                r = mul(r, _cpow(F(a.key[1]), c))
                continue
        rest[m] = c
    if rest:
        r = mul(r, _mk({(_mk(rest), ()): _ONE}))
    return r


def sqrt(x):
    return power(x, const(F(1, 2)))


def log10(x):
    return mul(log(x), power(LC(10), MINUS1))


def fun(name, x, **kw):
    """Opaque function of one argument (cos, sin, trunc, ...), lifted over ite"""
    x = const(x)
    s = split_ite(x)
    if s:
        c, a, b = s
        return ite(c, fun(name, a, **kw), fun(name, b, **kw))
    return app(name, (x,), **kw)


def absv(x):
    x = const(x)
    if is_nonneg(x):
        return x
    if is_nonneg(neg(x)):
        return neg(x)
    return ite(lt(x, ZERO), neg(x), x)


# ---------------------------------------------------------------- booleans
class B:
    __slots__ = ("k", "a", "h", "depth", "id")
    n = 0

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        k = self.k
        if k == "true" or k == "false":
            return k
        if k in ("<", "<=", "=="):
            return "(%r %s 0)" % (self.a[0], k)
        if k == "not":
            return "!%r" % (self.a[0],)
        if k in ("and", "or"):
            return "(" + (" & " if k == "and" else " | ").join(sorted(map(repr, self.a))) + ")"
        return "%s(%s)" % (k, ", ".join(map(repr, self.a)))


def _b(k, a):
    key = (k, a)
    r = _intern_B.get(key)
    if r is None:
        r = object.__new__(B)
        r.k, r.a, r.h = k, a, hash(key)
        B.n += 1
        r.id = B.n
        r.depth = max((getattr(x, "depth", 0) for x in a), default=0)
        _intern_B[key] = r
    return r


TRUE_KEY, FALSE_KEY = ("true", ()), ("false", ())


def true():
    return _b("true", ())


def false():
    return _b("false", ())


def boolc(x):
    return true() if x else false()


def bsym(name):
    return _b("bsym", (name,))


def bapp(name, args):
    return _b("bapp:" + name, tuple(args))


def _ncmp(t):
    """t up to a positive factor"""
    c, m, p = content(t)
    pos, rest = [], []
    for a, q in m[1]:
        ok = a.pos or (a.kind == "poly" and is_pos(a.key[1]))
        if not ok and q.denominator == 1 and q.numerator % 2 == 0 and q < 0:
            ok = True  # even negative power: positive wherever defined
        (pos if ok else rest).append((a, q))
    t = mul(const(1 if c > 0 else -1), p)
    if rest:
        t = mul(t, _mk({(None, tuple(rest)): _ONE}))
    return t


def _cmp(op, t):
    c = t.const
    if c is not None:
        return boolc(c < 0 if op == "<" else c <= 0 if op == "<=" else c == 0)
    s = _infsign(t)
    if s:
        return boolc(s < 0 and op != "==")
    if any(a.key == ("sym", "nan") for e, fs in t.d for a, _ in fs):
        return false()
    s = split_ite(t)
    if s:
        c, a, b = s
        return ibool(c, _cmp(op, a), _cmp(op, b))
    t = _ncmp(t)
    c = t.const
    if c is not None:
        return boolc(c < 0 if op == "<" else c <= 0 if op == "<=" else c == 0)
    if op == "==":
        if is_pos(t) or is_pos(neg(t)):
            return false()
        # sign and nonzero powers are irrelevant
        if len(t.d) == 1:
            (e, fs), c = next(iter(t.d.items()))
            return disj([_b("==", (from_atom(a),)) for a, q in fs if q > 0])
        if t.d[min(t.d, key=_mkey)] < 0:
            t = neg(t)
        return _b("==", (t,))
    if op == "<":
        if is_pos(neg(t)):
            return true()
        if is_nonneg(t):
            return false()
        return _b("<", (t,))
    if is_nonneg(neg(t)):
        return true()
    if is_pos(t):
        return false()
    return _b("<=", (t,))


def ibool(c, a, b):
    if a is b:
        return a
    return disj([conj([c, a]), conj([bnot(c), b])])


def lt(x, y):
    return _cmp("<", add(const(x), neg(const(y))))


def le(x, y):
    return _cmp("<=", add(const(x), neg(const(y))))


def eq(x, y):
    x, y = const(x), const(y)
    if x is y:
        return true()
    return _cmp("==", add(x, neg(y)))


def ne(x, y):
    return bnot(eq(x, y))


def bnot(b):
    if b.k == "true":
        return false()
    if b.k == "false":
        return true()
    if b.k == "not":
        return b.a[0]
    if b.k == "<":
        return _cmp("<=", neg(b.a[0]))
    if b.k == "<=":
        return _cmp("<", neg(b.a[0]))
    if b.k == "and":
        return disj([bnot(x) for x in b.a])
    if b.k == "or":
        return conj([bnot(x) for x in b.a])
    return _b("not", (b,))


def _nary(k, bs, unit, zero):
    out = set()
    for x in bs:
        if x.k == k:
            out |= set(x.a)
        elif x.k == unit:
            continue
        elif x.k == zero:
            return _b(zero, ())
        else:
            out.add(x)
    for x in out:
        if bnot1(x) in out:
            return _b(zero, ())
    if not out:
        return _b(unit, ())
    if len(out) == 1:
        return out.pop()
    return _b(k, tuple(sorted(out, key=lambda b: b.id)))


def bnot1(x):
    return bnot(x) if x.k not in ("and", "or") else None


def conj(bs):
    return _nary("and", list(bs), "true", "false")


def disj(bs):
    return _nary("or", list(bs), "false", "true")


# ---------------------------------------------------------------- ite
def ite(c, a, b):
    a, b = const(a), const(b)
    if c.k == "true" or a is b:
        return a
    if c.k == "false":
        return b
    if _infsign(a) or _infsign(b):
        at = _atom(("ite", c, a, b), depth=max(c.depth, a.depth, b.depth))
        return from_atom(at)
    if c.k in ("not",):
        return ite(c.a[0], b, a)
    # one orientation per condition and its negation
    n = bnot(c)
    if n.id < c.id:
        c, a, b = n, b, a
    # simplify nested conditionals on the same condition
    a, b = assume_in(a, c, True), assume_in(b, c, False)
    if a is b:
        return a
    # take the common factor out
    g, cf = _common(a, b)
    if g is not None:
        a, b = mul(a, _minv(g)), mul(b, _minv(g))
    if cf != 1:
        a, b = scale(a, 1 / cf), scale(b, 1 / cf)
    pos = is_pos(a) and is_pos(b)
    at = _atom(
        ("ite", c, a, b), pos, is_nonneg(a) and is_nonneg(b), depth=max(c.depth, a.depth, b.depth)
    )
    r = from_atom(at)
    if g is not None:
        r = mul(r, mono(g))
    return scale(r, cf) if cf != 1 else r


_MAY = {}


def may_inf(t):
    """Is one of the cases of a term infinite?"""
    if t.inf:
        return True
    r = _MAY.get(t)
    if r is None:
        r = any(a.kind == "ite" and (may_inf(a.key[2]) or may_inf(a.key[3])) for _, fs in t.d for a, _ in fs)
        _MAY[t] = r
    return r


def _common(a, b):
    if not a.d and not b.d or may_inf(a) or may_inf(b):
        return None, _ONE
    if not a.d or not b.d:
        c, m, p = content(a if a.d else b)
        return (None if m == M1 else m), c
    ca, ma, pa = content(a)
    cb, mb, pb = content(b)
    fa, fb = dict(ma[1]), dict(mb[1])
    out = []
    for at in fa:
        if at in fb and (fa[at] > 0) == (fb[at] > 0):
            q = min(fa[at], fb[at], key=abs)
            out.append((at, q))
    e = ma[0] if ma[0] is mb[0] else None
    if not out and e is None:
        return None, _ONE
    return (e, tuple(sorted(out, key=lambda aq: aq[0].id))), _ONE


def split_ite(t):
    """(c, t|c, t|not c) for an outermost conditional of t, or None"""
    for e, fs in t.d:
        for a, q in fs:
            if a.kind == "ite":
                c = a.key[1]
                return c, assume_in(t, c, True), assume_in(t, c, False)
        if e is not None:
            raise_ = split_ite(e)
            if raise_:
                c = raise_[0]
                return c, assume_in(t, c, True), assume_in(t, c, False)
    return None


def assume_in(t, c, val):
    """Simplify the conditionals of t under condition c (top level and exponents)"""
    return rewrite(t, lambda a: _assume_atom(a, c, val))


def _assume_atom(a, c, val):
    if a.kind == "ite":
        k = a.key[1]
        v = entails(c, val, k)
        if v is True:
            return a.key[2]
        if v is False:
            return a.key[3]
    return None


def entails(c, val, k):
    if k is c:
        return val
    if bnot(k) is c:
        return not val
    if val and c.k == "and":
        if k in c.a:
            return True
        if bnot(k) in c.a:
            return False
    if not val and c.k == "or":
        if k in c.a:
            return False
        if bnot(k) in c.a:
            return True
    if not val and k.k == "and" and c in k.a:
        return False
    if val and k.k == "or" and c in k.a:
        return True
    if k.k == "and" and val and any(bnot(x) is c for x in k.a):
        return False
    return None


_memo_hi = {}


def has_ite(t):
    """Is there a conditional in t (where rewrite looks for it)"""
    r = _memo_hi.get(t)
    if r is None:
        r = False
        for e, fs in t.d:
            if e is not None and has_ite(e):
                r = True
                break
            for a, _ in fs:
                k = a.kind
                if k == "ite" or (k in ("poly", "log") and has_ite(a.key[1])):
                    r = True
                    break
            if r:
                break
        _memo_hi[t] = r
    return r


def rewrite(t, f, memo=None):
    """Replace conditionals of t (not below binders or functions, but through conditionals,
    sums used as a base, exponents, logs) by f(atom)"""
    if not has_ite(t):
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    same = True
    parts = []
    for (e, fs), c in t.d.items():
        e2 = rewrite(e, f, memo) if e is not None else None
        fs2 = []
        ok = e2 is e
        for a, q in fs:
            x = _rw_atom(a, f, memo)
            ok = ok and x is from_atom(a)
            fs2.append((x, q))
        same = same and ok
        parts.append((e, fs, c, e2, fs2, ok))
    if same:
        memo[t] = t
        return t
    r = ZERO
    for e, fs, c, e2, fs2, ok in parts:
        if ok:
            r = add(r, _mk({(e, fs): c}))
            continue
        x = const(c)
        if e2 is not None:
            x = mul(x, exp(e2))
        for y, q in fs2:
            x = mul(x, power(y, const(q)))
        r = add(r, x)
    memo[t] = r
    return r


def _rw_atom(a, f, memo):
    k = a.kind
    if k not in ("ite", "poly", "log"):
        return from_atom(a)
    r = memo.get(a)
    if r is not None:
        return r
    r = from_atom(a)
    if k == "ite":
        n = f(a)
        if n is not None:
            r = rewrite(n, f, memo)
        else:
            c, x, y = a.key[1:]
            x2, y2 = rewrite(x, f, memo), rewrite(y, f, memo)
            if x2 is not x or y2 is not y:
                r = ite(c, x2, y2)
    elif k == "poly":
        p = rewrite(a.key[1], f, memo)
        if p is not a.key[1]:
            r = p
    else:
        p = rewrite(a.key[1], f, memo)
        if p is not a.key[1]:
            r = log(p)
    memo[a] = r
    return r


# ---------------------------------------------------------------- substitution
_memo_subst = {}


def subst(t, m, _memo=None):
    """Replace atoms by terms everywhere. m: {Atom: T}; B allowed for t"""
    memo = {} if _memo is None else _memo
    return _subst(t, m, memo)


def _subst(t, m, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if isinstance(t, B):
        if t.k in ("<", "<=", "=="):
            r = _cmp(t.k, _subst(t.a[0], m, memo))
        elif t.k == "not":
            r = bnot(_subst(t.a[0], m, memo))
        elif t.k == "and":
            r = conj([_subst(x, m, memo) for x in t.a])
        elif t.k == "or":
            r = disj([_subst(x, m, memo) for x in t.a])
        elif t.k.startswith("bapp:"):
            r = bapp(t.k[5:], [_subst(x, m, memo) for x in t.a])
        else:
            r = t
        memo[t] = r
        return r
    r = ZERO
    for (e, fs), c in t.d.items():
        x = const(c)
        if e is not None:
            x = mul(x, exp(_subst(e, m, memo)))
        for a, q in fs:
            x = mul(x, power(_subst_atom(a, m, memo), const(q)))
        r = add(r, x)
    memo[t] = r
    return r


def _subst_atom(a, m, memo):
    if a in m:
        return m[a]
    r = memo.get(a)
    if r is not None:
        return r
    k = a.kind
    if k in ("sym", "lconst", "prime", "bv"):
        r = from_atom(a)
    elif k == "app":
        args = [_subst(x, m, memo) for x in a.key[2]]
        if all(x is y for x, y in zip(args, a.key[2])):
            r = from_atom(a)
        else:
            r = reapp(a.key[1], args, a)
    elif k == "log":
        r = log(_subst(a.key[1], m, memo))
    elif k == "poly":
        r = _subst(a.key[1], m, memo)
    elif k == "pow":
        r = power(_subst(a.key[1], m, memo), _subst(a.key[2], m, memo))
    elif k == "ite":
        r = ite(*[_subst(x, m, memo) for x in a.key[1:]])
    elif k == "bind":
        n, mb, memob = _subst(a.key[2], m, memo), m, memo
        v = atom_of(bv(a.depth, a.key[1] in REAL_BINDERS))
        if v in m:
            # bound here
            mb, memob = {x: y for x, y in m.items() if x is not v}, {}
        bodies = [_subst(x, mb, memob) for x in a.key[3]] if mb else list(a.key[3])
        if n is a.key[2] and all(x is y for x, y in zip(bodies, a.key[3])):
            r = from_atom(a)
        else:
            r = binder(a.key[1], n, bodies, a.key[4], a.depth)
    else:
        raise AssertionError(k)
    memo[a] = r
    return r


REAPP = {}


def reapp(name, args, a):
    """Rebuild an application (functions can register simplification rules)"""
    f = REAPP.get(name.split("#")[0])
    if f is not None:
        return f(name, args, a)
    s = None
    return app(name, args, a.pos, a.nonneg, a.isint)


# ---------------------------------------------------------------- binders
def uses(t, a):
    """Does atom a occur in t"""
    return a in atoms_of(t)


_memo_atoms = {}


def atoms_of(t, deep=True):
    out = set()
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, B):
            stack.extend(y for y in x.a if isinstance(y, (T, B)))
            continue
        for e, fs in x.d:
            if e is not None:
                stack.append(e)
            for a, _ in fs:
                if a in out:
                    continue
                out.add(a)
                if not deep:
                    continue
                k = a.kind
                if k == "app":
                    stack.extend(y for y in a.key[2] if isinstance(y, (T, B)))
                elif k in ("log", "poly"):
                    stack.append(a.key[1])
                elif k == "pow":
                    stack.extend(a.key[1:3])
                elif k == "ite":
                    stack.extend(a.key[1:4])
                elif k == "bind":
                    stack.append(a.key[2])
                    stack.extend(a.key[3])
    return out


_free_memo = {}


def has_free_bv(x):
    """Does x contain a bound variable outside of its binder"""
    return bool(_free(x))


def _free(x):
    r = _free_memo.get(x)
    if r is not None:
        return r
    if isinstance(x, B):
        r = frozenset().union(*[_free(y) for y in x.a if isinstance(y, (T, B))])
    else:
        out = set()
        for e, fs in x.d:
            if e is not None:
                out |= _free(e)
            for a, _ in fs:
                k = a.kind
                if k == "bv":
                    out.add(a)
                elif k == "app":
                    for y in a.key[2]:
                        if isinstance(y, (T, B)):
                            out |= _free(y)
                elif k in ("log", "poly"):
                    out |= _free(a.key[1])
                elif k == "pow":
                    out |= _free(a.key[1]) | _free(a.key[2])
                elif k == "ite":
                    out |= _free(a.key[1]) | _free(a.key[2]) | _free(a.key[3])
                elif k == "bind":
                    inner = set()
                    own = atom_of(bv(a.depth, a.key[1] in REAL_BINDERS))
                    for y in a.key[3]:
                        inner |= _free(y)
                    out |= {v for v in inner if v is not own} | _free(a.key[2])
        r = frozenset(out)
    _free_memo[x] = r
    return r


_fresh = [0]


def fresh(prefix="i", **kw):
    _fresh[0] += 1
    return sym("%s!%d" % (prefix, _fresh[0]), **kw)


# binders that are linear in the given bodies: factors free of the bound variable move out
LINEAR = {"sum": (0,), "tll": (0, 1), "quad": (0,)}


def bind(kind, n, bodies_fn, extra=()):
    """bodies_fn: function of the index term -> list of bodies (T)"""
    i = _bvar(kind)
    bodies = [const(b) for b in bodies_fn(i)]
    at = next(iter(i.d))[1][0][0]
    depth = max([b.depth for b in bodies] + [n.depth]) + 1
    return _bind(kind, n, bodies, at, depth, tuple(extra))


def _bind(kind, n, bodies, at, depth, extra):
    out = ONE
    bodies = list(bodies)
    for j in LINEAR.get(kind, ()):
        body = bodies[j]
        if not body.d:
            return ZERO
        if kind == "sum" and len(body.d) > 1:
            r = ZERO
            for m, c in body.d.items():
                r = add(r, _bind(kind, n, [mono(m, c)], at, depth, extra))
            return r
        c, m, p = content(body)
        e, fs = m
        free, bound = [], []
        for a, q in fs:
            (bound if uses(from_atom(a), at) else free).append((a, q))
        fe = None
        if e is not None:
            fe_d = {mm: cc for mm, cc in e.d.items() if not uses(mono(mm), at)}
            if fe_d:
                fe = _mk(fe_d)
        factor = mono((fe, tuple(free)), c)
        if factor is not ONE:
            bodies[j] = mul(body, power(factor, MINUS1))
            out = mul(out, factor)
    if kind == "sum" and not uses(bodies[0], at):
        return mul(out, mul(n, bodies[0]))
    # a variable that is free in the bodies (its own binder is open) is not captured
    taken = {v.key[1] for b in bodies for v in _free(b)}
    while depth in taken:
        depth += 1
    v = bv(depth, kind in REAL_BINDERS)
    m = {at: v}
    key = ("bind", kind, n, tuple(subst(b, m) for b in bodies), extra)
    pos = kind in ("tll", "sum") and all(is_pos(b) for b in bodies)
    a = _atom(key, nonneg=pos, depth=depth)
    return mul(out, from_atom(a))


def binder(kind, n, bodies, extra, depth):
    """Rebuild a binder atom whose bodies may have changed under the bound variable"""
    v = next(iter(bv(depth, kind in REAL_BINDERS).d))[1][0][0]
    i = _bvar(kind)
    at = next(iter(i.d))[1][0][0]
    nb = [subst(b, {v: i}) for b in bodies]
    d2 = max([b.depth for b in nb] + [n.depth]) + 1
    return _bind(kind, n, nb, at, d2, extra)


def bsum(n, f):
    if n.const is not None and 0 <= n.const <= 6 and n.const.denominator == 1:
        r = ZERO
        for k in range(int(n.const)):
            r = add(r, const(f(const(k))))
        return r
    return bind("sum", n, lambda i: [f(i)])


def atom_of(t):
    (e, fs), c = next(iter(t.d.items()))
    return fs[0][0]


_consts()


# ---------------------------------------------------------------- python operators
def _install_ops():
    T.__radd__ = lambda s, o: add(const(o), s)
    T.__rmul__ = lambda s, o: mul(const(o), s)
    T.__rsub__ = lambda s, o: add(const(o), neg(s))
    T.__sub__ = lambda s, o: add(s, neg(const(o)))
    T.__truediv__ = lambda s, o: mul(s, power(const(o), MINUS1))
    T.__rtruediv__ = lambda s, o: mul(const(o), power(s, MINUS1))
    T.__pow__ = lambda s, o: power(s, const(o))
    T.__rpow__ = lambda s, o: power(const(o), s)
    T.__lt__ = lambda s, o: lt(s, const(o))
    T.__le__ = lambda s, o: le(s, const(o))
    T.__gt__ = lambda s, o: lt(const(o), s)
    T.__ge__ = lambda s, o: le(const(o), s)
    B.__and__ = lambda s, o: conj([s, o])
    B.__or__ = lambda s, o: disj([s, o])
    B.__invert__ = lambda s: bnot(s)


_install_ops()
