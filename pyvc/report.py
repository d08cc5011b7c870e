"""Runs the harnesses of a property and writes its evidence."""
import ast
import glob
import json
import math
import os
import random
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def mine_literals():
    out = set()
    for p in glob.glob(REPO + "/src/naima/*.py"):
        if p.endswith(("plot.py", "setup_package.py")):
            continue
        try:
            tree = ast.parse(open(p).read())
        except SyntaxError:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and type(n.value) in (int, float) and n.value:
                v = abs(float(n.value))
                if 1e-30 < v < 1e30:
                    out.add(v)
    return sorted(out)


class Harness:
    """One contract. fn(c) is run symbolically (if symbolic) and concretely (if concrete)"""

    def __init__(self, fn, functions, symbolic=True, concrete=True, samples=40, rtol=1e-7, max_paths=600, stubs=(), assumes=(), bounded=None, budget=150, why=None, thorough=8):
        self.fn, self.functions = fn, functions
        self.symbolic, self.concrete, self.samples = symbolic, concrete, samples
        self.rtol, self.max_paths, self.stubs = rtol, max_paths, stubs
        self.assumes, self.bounded, self.budget, self.why = assumes, bounded, budget, why
        self.thorough = thorough
        self.name = fn.__name__


class Property:
    def __init__(self, pid):
        self.pid, self.harnesses = pid, []
        self.assumptions, self.trusted, self.lemmas = [], [], []

    def contract(self, *functions, **k):
        def deco(fn):
            self.harnesses.append(Harness(fn, list(functions), **k))
            return fn

        return deco


BASE_TRUST = [
    "pyvc (/verif/pyvc): the AST loader, the symbolic semantics of the numpy/astropy operations the code uses, and the term normaliser",
    "z3 5.3 / cvc5 1.4 (SMT back ends)",
    "CPython: control flow, attribute access and calls of the verified code are executed by the interpreter itself",
]
BASE_ASSUME = [
    "machine arithmetic treated as mathematical (real) arithmetic: rounding, overflow, underflow and NaN are not modelled by the proofs",
    "numpy, astropy.units, scipy behave as the symbolic semantics states (element-wise operations, broadcasting, exact unit scales)",
]


def _model_hints(model):
    """Counterexample values by input name"""
    h = {}
    for a, v in (model or {}).items():
        if a.kind == "sym":
            h[str(a.key[1])] = float(v)
        elif a.kind == "app" and len(a.key[2]) == 1:
            h.setdefault(str(a.key[1]), [])
            if isinstance(h[a.key[1]], list):
                h[a.key[1]].append(float(v))
    return h


def run_concrete(h, naima, seed, n, literals, models=(), values=None, budget=None):
    from .ctx import Concrete, Skip

    t0 = time.time()
    rng = random.Random(seed * 7919 + sum(map(ord, h.name)))
    ev = nt = skipped = 0
    fails = []
    distinct = set()
    samples = []
    hints = [(_model_hints(m)) for m in models if m]
    k = 0
    while ev < n and skipped < 20 * n + 50:
        if budget and time.time() - t0 > budget and ev >= 1:
            break
        hint = {}
        if hints and k % 2 == 0:
            hint = dict(hints[(k // 2) % len(hints)])
            # keep some of the values only, so that a partial model can be completed
            if k > 2 * len(hints):
                hint = {a: b for a, b in hint.items() if rng.random() < 0.7}
        k += 1
        c = Concrete(naima, rng, values=values, hints=hint, literals=literals if rng.random() < 0.7 else (), rtol=h.rtol)
        err = None
        try:
            h.fn(c)
        except Skip:
            skipped += 1
            if values is not None:
                break
            continue
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            err = ("no exception", "%s: %s at %s:%s" % (type(e).__name__, e, tb[-1].filename, tb[-1].lineno))
            if not any("/naima/" in f.filename for f in tb):
                # a result of other dimensions or size than the contract states is a failure of it
                kind = "dimensions of a result" if isinstance(e, _units_error()) else "size of a result" if isinstance(e, IndexError) else "harness"
                err = (kind, "".join(traceback.format_exc()[-1500:]))
        ev += 1
        key = json.dumps(c.inputs, sort_keys=True, default=str)
        if c.nontrivial or c.n:
            distinct.add(hash(key))
        if len(samples) < 2:
            samples.append(json.loads(json.dumps(c.inputs, default=str)))
        fl = list(c.failures) + ([err] if err else [])
        if fl:
            fails.append({"harness": h.name, "inputs": c.inputs, "failures": [[a, b] for a, b in fl[:6]]})
            if len(fails) >= 3:
                break
        if values is not None:
            break
    return {"evaluations": ev, "distinct": len(distinct), "fails": fails, "samples": samples, "skipped": skipped}


def _jitter(v, rng):
    if isinstance(v, float):
        return v * (1 + 1e-7 * rng.uniform(-1, 1))
    if isinstance(v, list):
        return [_jitter(x, rng) for x in v]
    return v


def _is_tie(h, naima, f, seed):
    """A failure of a proved contract that is gone when the inputs move by 1e-7: two numbers
    that are equal but for rounding fell on the other side of a comparison. A value that is
    not a number, or an exception, is never taken for one."""
    if any("nan" in str(b).lower() or a in ("no exception", "harness") for a, b in f["failures"]):
        return False
    evaluated = 0
    for k in range(6):
        rng = random.Random(seed * 31 + k)
        r = run_concrete(h, naima, seed + k, 1, (), values={a: _jitter(v, rng) for a, v in f["inputs"].items()})
        evaluated += r["evaluations"]
        if r["fails"]:
            return False
    return evaluated >= 4


def _units_error():
    from astropy.units import UnitsError

    return UnitsError


def run_symbolic(h, budget):
    from . import explore, loader, solver, sym, terms as t, units
    from .ctx import Symbolic

    t.reset()
    sym.reset()
    units.clear()
    solver.reset()
    solver._ite_memo.clear()
    t._memo_atoms.clear()
    t._memo_hi.clear()
    loader._C.clear()
    pkg = loader.Package()
    for s in h.stubs:
        s(pkg)
    ex = explore.Explorer(h.name, h.max_paths, time.time() + budget)
    ex.axioms = []

    def go():
        ex.axioms = []
        pkg.restore()
        c = Symbolic(pkg, ex)
        h.fn(c)

    try:
        ex.run(go)
    except Exception:
        ex.undecided.append("engine: " + traceback.format_exc()[-1500:])
    return ex


def run_harness(h, naima, lits, tier, seed, known, verbose):
    """Proof and run-time evaluation of one contract; returns plain data"""
    from . import solver

    th = time.time()
    out = {"obligations": 0, "discharged": 0, "vacuous": [], "known": [], "violations": [], "text": [], "standin": False}
    solver.STATS.update({k: type(v)() for k, v in solver.STATS.items()})
    ex = None
    failed = []
    if h.symbolic:
        ex = run_symbolic(h, h.budget * 3 if tier == "thorough" else min(h.budget, max(10, 540 - (time.time() - _START))))
        out["obligations"] = len(ex.obligations)
        out["discharged"] = sum(o.status == "proved" for o in ex.obligations)
        failed = [o for o in ex.obligations if o.status == "failed"]
        unk = [o for o in ex.obligations if o.status == "unknown"]
        names = {o.name for o in ex.obligations}
        if not ex.obligations:
            ex.undecided.append("no obligation was generated")
        out["vacuous"] = [n for n in names if n not in ex.vac and all(o.status == "proved" for o in ex.obligations if o.name == n)]
        proved = not (failed or unk or ex.undecided or ex.exceptions)
    else:
        proved, unk, names = False, [], set()
    n = h.samples * (h.thorough if tier == "thorough" else 1)
    models = [o.model for o in failed + unk if o.model] + [m for _, m in (ex.exceptions if ex else []) if m]
    if failed or unk or (ex and (ex.undecided or ex.exceptions)):
        n = max(n * 3, 60)
    res = {"evaluations": 0, "distinct": 0, "fails": [], "samples": []}
    if h.concrete:
        res = run_concrete(h, naima, seed, n, lits, models, budget=h.budget * 3 if tier == "thorough" else min(h.budget * 0.7, max(10, 640 - (time.time() - _START))))
    ties = [f for f in res["fails"] if proved and h.symbolic and _is_tie(h, naima, f, seed)]
    res["fails"] = [f for f in res["fails"] if f not in ties]
    out["evaluations"], out["distinct"], out["samples"] = res["evaluations"], res["distinct"], res["samples"][:1]
    hard = [f for f in res["fails"] if not all(x[0] == "harness" for x in f["failures"])]
    broken = [f for f in res["fails"] if f not in hard]
    d = {
        "contract": h.name,
        "functions": h.functions,
        "obligations": len(ex.obligations) if ex else 0,
        "paths": ex.paths if ex else 0,
        "proved": proved,
        "runtime_evaluations": res["evaluations"],
        "seconds": round(time.time() - th, 2),
    }
    if not proved:
        why = h.why or ""
        if ex:
            why = "; ".join(
                [why] * bool(why)
                + sorted({u[:300] for u in ex.undecided})[:4]
                + sorted({e[:300] for e, _ in ex.exceptions})[:4]
                + ["%s: %s" % (o.name, o.how) for o in (failed + unk)[:4]]
            )
        d["bounded_standin"] = "the contract is checked at run time on %d sampled inputs, not proved (%s)" % (res["evaluations"], why[:900])
        out["standin"] = True
    if ties:
        d["ties_by_rounding"] = [{"inputs": json.loads(json.dumps(f["inputs"], default=str)), "failures": f["failures"][:2]} for f in ties]
    if ex and ex.obligations:
        d["obligation_names"] = sorted(names)
    if verbose:
        w = out["text"].append
        w("%-40s %-6s obl %3d paths %3d runtime %4d  %.1fs" % (h.name, "PROVED" if proved else "open", d["obligations"], d["paths"], d["runtime_evaluations"], d["seconds"]))
        if not proved:
            w("    " + d["bounded_standin"])
        for n in names:
            if ex and n not in ex.vac:
                w("    vacuity not excluded: " + n)
        for o in failed + unk:
            w("  %s %s path %d: %s" % (o.status, o.name, o.path, o.detail[:600]))
            for b in o.pc[-12:]:
                w("      | " + repr(b)[:300])
        for f in res["fails"]:
            w("  CONCRETE " + json.dumps({"harness": f["harness"], "failures": f["failures"], "inputs": f["inputs"]}, default=str)[:1500])
    if broken:
        d["harness_errors"] = [f["failures"][0][1][:800] for f in broken[:2]]
    kf = [k for k in known if k.get("harness") == h.name]
    for f in list(hard):
        if any(_matches(k, f) for k in kf):
            out["known"].append((h.name, f))
            hard.remove(f)
    if hard:
        out["violations"].append({"harness": h.name, "kind": "input", "fails": hard, "obligations": [o.asdict() for o in (failed + unk)[:5]]})
    elif failed and not any(k.get("obligation") in [o.name for o in failed] for k in kf):
        out["violations"].append({"harness": h.name, "kind": "obligation", "fails": [], "obligations": [o.asdict() for o in failed[:8]]})
    out["detail"], out["stats"] = d, dict(solver.STATS)
    return out


_ARGS = None
_START = time.time()  # the quick tier answers within its time whatever the sources have become


def _worker(k):
    return run_harness(_ARGS[0][k], *_ARGS[1:])


def run_property(prop, tier, seed, known=(), only=None, verbose=False):
    """All contracts of a property, each in a process of its own"""
    global _ARGS
    from . import solver
    from .ctx import load_real

    sys.setrecursionlimit(20000)
    t0 = time.time()
    naima = load_real()
    hs = [h for h in prop.harnesses if not only or h.name in only]
    _ARGS = (hs, naima, mine_literals(), tier, seed, known, verbose)
    jobs = min(int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 1, len(hs))
    outs = [None] * len(hs)
    if jobs > 1:
        import concurrent.futures as cf
        import multiprocessing

        with cf.ProcessPoolExecutor(jobs, multiprocessing.get_context("fork")) as pool:
            fs = [pool.submit(_worker, k) for k in range(len(hs))]
            for k, f in enumerate(fs):
                try:
                    outs[k] = f.result()
                except Exception:
                    outs[k] = None
    for k in range(len(hs)):
        if outs[k] is None:
            outs[k] = _worker(k)
        for line in outs[k]["text"]:
            print(line)
    stats = {}
    for o in outs:
        for k, v in o["stats"].items():
            stats[k] = stats[k] + v if k in stats else v
    cat = lambda k: [x for o in outs for x in o[k]]
    tot = lambda k: sum(o[k] for o in outs)
    return {
        "detail": [o["detail"] for o in outs],
        "obligations": tot("obligations"),
        "discharged": tot("discharged"),
        "evaluations": tot("evaluations"),
        "distinct": tot("distinct"),
        "samples": cat("samples"),
        "violations": cat("violations"),
        "standins": [h.name for h, o in zip(hs, outs) if o["standin"]],
        "known": cat("known"),
        "vacuous": cat("vacuous"),
        "stats": stats,
        "wall": time.time() - t0,
    }


def _matches(k, f):
    return any(k.get("obligation") == x[0] for x in f["failures"])
