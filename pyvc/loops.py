"""Loop invariants.

A contract can register loop specifications. When the execution reaches a while loop, or a for
loop over a range, a specification that recognises the loop in the local variables replaces the
iteration by the rule of Hoare logic: the invariant is an obligation on entry, the variables that
the body assigns get arbitrary values that satisfy the invariant, the body runs once and the
invariant is an obligation after it; after the loop the invariant and the negated test hold. What
the specification does not name must not change in the body, or else the proof stops here
(Unsupported), as it does when no specification recognises the loop."""
import types

from . import solver, sym, terms as t
from .sym import SArr, SymQ, as_arr, num
from .terms import B, T, Unsupported


class Spec:
    """A loop specification. Subclasses define
    match(env, kind)  the roles of local variables {role: name} and of container elements
                      {role: (list, index)}, or None where it is another loop
    inv(s)            the invariant: [(name, fact)] and [(name, length, index -> fact)]
    step(s, e)        (optional) values of the ghost elements after an iteration"""

    kind = "while"
    name = "loop"

    def inplace(self, role):
        return False

    def begin(self, s):
        """Ghost values on entry"""

    variant = None

    def step(self, old, new):
        return {}


class State:
    """Values of the roles at some point"""

    def __init__(self, env, names, cells, k=None, entry=None):
        self.k, self.entry, self.env = k, entry, env
        for r, n in names.items():
            v = env[n]
            if isinstance(v, SArr):
                v = SArr(v.node, v.arr0)
            setattr(self, r, v)
        for r, (lst, i) in cells.items():
            setattr(self, r, lst[i])


def on():
    return sym.EX is not None and getattr(sym.EX, "specs", None)


def enter(kind, it, env, names):
    """At the head of a loop: the active rule, or None for the plain execution"""
    ex = sym.EX
    from . import loader

    if kind == "for":
        if isinstance(it, loader.SymRange) or (isinstance(it, range) and it.step == 1):
            lo, n = (it.lo, t.add(it.hi, t.neg(it.lo))) if isinstance(it, loader.SymRange) else (t.const(it.start), t.const(len(it)))
            if n.const is not None and n.const == 0:
                return None
        else:
            return None
    else:
        lo = n = None
    for spec in ex.specs:
        if spec.kind != kind:
            continue
        m = spec.match(env, names)
        if m is None:
            continue
        return Rule(spec, m[0], m[1], env, names, lo, n)
    return None


class Rule:
    def __init__(self, spec, roles, cells, env, names, lo, n):
        ex = self.ex = sym.EX
        if ex.loops:
            raise Unsupported("loop invariant within a symbolic loop")
        self.spec, self.roles, self.cells, self.lo, self.n = spec, roles, cells, lo, n
        self.tag = "loop invariant of %s: " % spec.name
        k0 = t.ZERO if n is not None else None
        spec.begin(None)
        s0 = State(env, roles, cells, k0)
        s0.entry = s0
        self.entry = s0
        if n is not None:
            ex.ensure(self.tag + "length", t.le(t.ZERO, n))
        self._assert(s0, "on entry")
        # arrays that are havocked have no other name
        mine = {}
        for r, nm in roles.items():
            if nm not in names and isinstance(env[nm], SArr):
                # written in place only
                if not spec.inplace(r):
                    raise Unsupported("loop invariant over an array that the loop does not bind: " + nm)
            if isinstance(env[nm], (list, dict)) or isinstance(env[nm], SymQ):
                raise Unsupported("loop invariant over a container")
            mine[nm] = env[nm]
        for nm, v in mine.items():
            if isinstance(v, SArr) and v.axes:
                for other, w in env.items():
                    if other != nm and not other.startswith("_pyvc") and _aliases(w, v):
                        raise Unsupported("loop variable %s has another name %s" % (nm, other))
        # arbitrary values
        self.vals = {}
        from .explore import Poison

        rev = {nm: r for r, nm in roles.items()}
        self.arrays = {}
        self.k = t.fresh("it", nonneg=True, isint=True) if n is not None else None
        for nm in names:
            if nm in rev:
                self.vals[nm] = self._fresh(rev[nm], env[nm])
            else:
                self.vals[nm] = Poison(nm)
        self.saved = []
        for nm, r in rev.items():
            if nm not in names:
                v = env[nm]
                if isinstance(v, SArr) and v.axes:
                    v._set(self._fresh(r, v).node)
                # otherwise the loop does not change it
        for r, (lst, i) in cells.items():
            lst[i] = self._fresh(r, lst[i])
        env2 = dict(env)
        env2.update(self.vals)
        self.env2 = env2
        self.s = State(env2, roles, cells, self.k, s0)
        for c in self.spec.inv(self.s):
            if len(c) == 2:
                ex.add(t.boolc(c[1]) if isinstance(c[1], bool) else c[1])
            else:
                ex.universal_facts.append((sym._t(c[1]), c[2]))
        if n is not None:
            ex.add(t.le(self.k, n))
        self.names = names
        self.snap = _snapshot([v for k, v in env2.items() if not k.startswith("_pyvc")], self._exempt())

    def _exempt(self):
        ids = set()
        for nm in self.roles.values():
            v = self.env2[nm]
            ids.add(id(_root(v)))
        return ids

    def _fresh(self, role, old):
        nm = "h!%s!%d" % (role, t._fresh[0])
        t._fresh[0] += 1
        if isinstance(old, T):
            return t.sym(nm)
        if isinstance(old, bool) or old is None or isinstance(old, str):
            raise Unsupported("loop variable %s" % role)
        if isinstance(old, int):
            return num(t.sym(nm, isint=True), "i")
        a = as_arr(old)
        if a.kind == "b":
            raise Unsupported("boolean loop variable")
        if not a.axes:
            return num(t.sym(nm, isint=a.kind == "i"), a.kind)
        if any(x.mask is not None for x in a.axes):
            raise Unsupported("loop variable over a selection")
        return SArr(sym.Node(a.axes, lambda *i: t.app(nm, i, isint=a.kind == "i"), a.kind))

    def __getitem__(self, nm):
        return self.vals[nm]

    def more(self):
        """for: is there another element"""
        return self.ex.decide(t.lt(self.k, self.n))

    def once(self):
        if self.n is None:
            return (None,)
        return (num(t.add(self.lo, self.k), "i"),)

    def end(self, env):
        """The end of the body: the invariant again, and the path is finished"""
        from .explore import Dead

        ex = self.ex
        for nm in self.roles.values():
            if nm not in env:
                raise Unsupported("loop variable removed")
            a, b = as_arr(env[nm]), as_arr(self.env2[nm])
            if len(a.axes) != len(b.axes) or a.kind != b.kind:
                raise Unsupported("loop variable %s changes its type" % nm)
            for x, y in zip(a.axes, b.axes):
                if x.key != y.key and not (x.mask is None and y.mask is None and ex.equal_len(x.length, y.length)):
                    raise Unsupported("loop variable %s changes its shape" % nm)
        new = State(env, self.roles, self.cells, t.add(self.k, t.ONE) if self.n is not None else None, self.entry)
        for r, v in self.spec.step(self.s, new).items():
            setattr(new, r, v)
        if self.spec.variant is not None:
            a, b = self.spec.variant(self.s), self.spec.variant(new)
            ex.ensure_split(self.tag + "termination", t.conj([t.le(t.ZERO, a), t.lt(b, a)]))
        _compare(self.snap, self.cells)
        self._assert(new, "preserved")
        raise Dead()

    def _assert(self, s, when):
        for c in self.spec.inv(s):
            name = "%s%s %s" % (self.tag, c[0], when)
            if len(c) == 2:
                self.ex.ensure_split(name, t.boolc(c[1]) if isinstance(c[1], bool) else c[1])
            else:
                i = t.fresh("i", nonneg=True, isint=True)
                n = sym._t(c[1])
                self.ex.ensure_split(name, c[2](i), [t.lt(i, n)])


def _root(v):
    while isinstance(v, sym.View):
        v = v.base
    return v


def _aliases(w, v, depth=0):
    if isinstance(w, SymQ):
        w = w.val
    if isinstance(w, SArr):
        return _root(w) is _root(v)
    if depth < 4:
        if isinstance(w, (list, tuple)):
            return any(_aliases(x, v, depth + 1) for x in w)
        if isinstance(w, dict):
            return any(_aliases(x, v, depth + 1) for x in w.values())
    return False


def _reach(roots):
    out, seen, stack = [], set(), list(roots)
    while stack:
        x = stack.pop()
        if id(x) in seen or isinstance(x, (int, str, float, type(None), T, B, type, types.ModuleType)):
            continue
        seen.add(id(x))
        if isinstance(x, SymQ):
            stack.append(x.val)
        elif isinstance(x, SArr):
            out.append(x)
            if isinstance(x, sym.View):
                stack.append(x.base)
        elif isinstance(x, (list, tuple)):
            out.append(x)
            stack.extend(x)
        elif isinstance(x, dict):
            out.append(x)
            stack.extend(x.values())
        elif isinstance(x, types.FunctionType):
            for c in x.__closure__ or ():
                try:
                    stack.append(c.cell_contents)
                except ValueError:
                    pass
        elif isinstance(x, types.MethodType):
            stack.append(x.__self__)
        elif type(x).__module__.startswith("naima") and hasattr(x, "__dict__"):
            out.append(x)
            stack.extend(vars(x).values())
    return out


def _content(x):
    if isinstance(x, SArr):
        return None if isinstance(x, sym.View) else x._node
    if isinstance(x, list):
        return tuple(x)
    if isinstance(x, tuple):
        return None
    if isinstance(x, dict):
        return tuple(x.items())
    return tuple(vars(x).items())


def _without(x, c, keys):
    if isinstance(x, dict):
        return tuple(v for v in c if v[0] not in keys)
    return tuple(v for k, v in enumerate(c) if k not in keys)


def _same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    return a is b or (isinstance(a, (int, str)) and type(a) is type(b) and a == b)


def _snapshot(roots, exempt):
    return [(x, _content(x)) for x in _reach(roots) if id(x) not in exempt]


def _compare(snap, cells):
    own = {}
    for lst, i in cells.values():
        own.setdefault(id(lst), []).append(i)
    for x, c in snap:
        d = _content(x)
        if id(x) in own:
            c, d = _without(x, c, own[id(x)]), _without(x, d, own[id(x)])
        if not _same(c, d):
            raise Unsupported("the loop changes something that its invariant does not name")


# ---------------------------------------------------------------- instances
def candidates(bs, limit=60):
    """Index terms at which universal facts are of use: those of the applications in bs"""
    out = []
    for b in bs:
        for a in t.atoms_of(b):
            if a.kind != "app" or not a.key[2]:
                continue
            i = a.key[2][1] if a.key[1] in ("argsort", "argrank") else a.key[2][0] if a.key[1].startswith("h!") else None
            c = [i] if i is not None else []
            if a.key[1] in ("argsort", "argrank", "argmin", "argmax"):
                c.append(t.from_atom(a))
            for i in c:
                if isinstance(i, T) and i not in out and not t.has_free_bv(i):
                    out.append(i)
                    if len(out) >= limit:
                        return out
    return out
