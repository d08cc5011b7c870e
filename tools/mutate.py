#!/opt/venv/bin/python
"""Mutation testing of the contracts.

usage: mutate.py list [FILE...]                number of mutants of each function
       mutate.py run OUT.jsonl [--per N] [--seed S] [--jobs J] [--match TEXT] [--skip OLD.jsonl]
       mutate.py one TREE CONTRACTS            (used by run) CONTRACTS: P07:many,P07:fields,...

For each mutant of a function under contract: the contracts that name the function are first
evaluated at run time, then, where no evaluation fails, proved. The outcome is
  runtime   an evaluation fails
  refuted   no evaluation fails, the proof does (no-failing-input-found)
  open      neither, but some contract is no longer proved
  survived  everything is proved: an equivalent mutant, or a gap of the contracts
With --sound the mutants found at run time are proved as well; one that is proved all the same
shows that a rule of the verifier is wrong (or that the contract says less symbolically)."""
import ast
import copy
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/naima"
SWAP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
ARITH = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Mult]}


def functions(tree, mod):
    out = []

    def walk(n, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.FunctionDef):
                out.append((pre + "." + c.name, c))
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                walk(c, pre + "." + c.name)
            elif not isinstance(c, ast.expr):
                walk(c, pre)

    walk(tree, mod)
    return out


def docstring(n):
    return n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str)


def sites(fn):
    """(node, field, index, description, replacement) inside of a function, without nested ones"""
    out = []

    def quiet(n):
        s = ast.unparse(n)
        return s.startswith(("log.", "warnings.", "raise ")) or "log.warn" in s[:20]

    def walk(n):
        if isinstance(n, ast.stmt) and (quiet(n) or isinstance(n, (ast.Import, ast.ImportFrom))):
            return
        for f, v in ast.iter_fields(n):
            kids = list(enumerate(v)) if isinstance(v, list) else [(None, v)]
            for i, k in kids:
                if not isinstance(k, ast.AST):
                    continue
                if n is fn and f in ("decorator_list", "args", "returns"):
                    continue
                if isinstance(k, (ast.FunctionDef, ast.ClassDef)):
                    continue
                if n is fn and f == "body" and i == 0 and docstring(fn):
                    continue
                mutate(n, f, i, k)
                walk(k)

    def put(n, f, i, k, new, d):
        out.append((n, f, i, "%s -> %s" % (ast.unparse(k)[:60].replace("\n", " "), d), new, k.lineno if hasattr(k, "lineno") else n.lineno))

    def mutate(n, f, i, k):
        if isinstance(k, ast.Compare) and len(k.ops) == 1:
            for o in SWAP.get(type(k.ops[0]), []):
                new = ast.Compare(k.left, [o()], k.comparators)
                put(n, f, i, k, new, ast.unparse(new)[:60])
        elif isinstance(k, ast.BinOp):
            for o in ARITH.get(type(k.op), []):
                new = ast.BinOp(k.left, o(), k.right)
                put(n, f, i, k, new, ast.unparse(new)[:60])
        elif isinstance(k, ast.BoolOp):
            new = ast.BoolOp(ast.And() if isinstance(k.op, ast.Or) else ast.Or(), k.values)
            put(n, f, i, k, new, "and/or")
            put(n, f, i, k, k.values[0], "first only")
        elif isinstance(k, ast.UnaryOp) and isinstance(k.op, (ast.Not, ast.USub)) and not isinstance(k.operand, ast.Constant):
            put(n, f, i, k, k.operand, "without " + type(k.op).__name__)
        elif isinstance(k, ast.Constant) and isinstance(k.value, bool):
            put(n, f, i, k, ast.Constant(not k.value), str(not k.value))
        elif isinstance(k, ast.Constant) and isinstance(k.value, (int, float)):
            for v in ([k.value + 1] if isinstance(k.value, int) else [k.value * 1.03 if k.value else 1.0]):
                put(n, f, i, k, ast.Constant(v), repr(v))
        elif isinstance(k, ast.Call) and f == "value" and isinstance(n, (ast.Assign, ast.Return)) and k.args and not k.keywords and len(k.args) == 1:
            put(n, f, i, k, k.args[0], "argument itself")
        elif isinstance(k, ast.Call) and len(k.args) == 2 and not isinstance(k.args[0], ast.Constant):
            new = ast.Call(k.func, k.args[::-1], k.keywords)
            put(n, f, i, k, new, "arguments swapped")
        elif isinstance(k, ast.Call) and isinstance(k.func, ast.Attribute) and k.func.attr == "copy":
            put(n, f, i, k, k.func.value, "without copy")
        elif isinstance(k, (ast.If, ast.While)) and isinstance(k, ast.If):
            for v in (True, False):
                new = ast.If(ast.Constant(v), k.body, k.orelse)
                put(n, f, i, k, new, "condition %s" % v)
        elif isinstance(k, ast.IfExp):
            put(n, f, i, k, k.body, "first")
            put(n, f, i, k, k.orelse, "second")
        elif isinstance(k, (ast.Expr, ast.AugAssign, ast.Delete)) or (isinstance(k, ast.Assign) and not isinstance(k.targets[0], ast.Name)):
            if not (isinstance(k, ast.Expr) and isinstance(k.value, ast.Constant)):
                put(n, f, i, k, ast.Pass(), "removed")
        elif isinstance(k, (ast.Break, ast.Continue)):
            put(n, f, i, k, ast.Pass(), "removed")
        if isinstance(k, ast.keyword) and not isinstance(k.value, ast.Constant) and k.arg:
            out.append((n, f, i, "%s -> argument removed" % ast.unparse(k.value)[:50], None, k.value.lineno))

    walk(fn)
    return out


def apply(n, f, i, new):
    if new is None:
        del getattr(n, f)[i]
    elif i is None:
        setattr(n, f, new)
    else:
        getattr(n, f)[i] = new


def modules():
    for root, _, fs in os.walk(SRC):
        for f in sorted(fs):
            if f.endswith(".py") and f not in ("version.py", "setup_package.py", "__init__.py"):
                p = os.path.join(root, f)
                yield p, p[len(os.path.dirname(SRC)) + 1 : -3].replace("/", ".")


def coverage():
    cov = {}
    for f in sorted(glob.glob(HERE + "/evidence/P*.json")):
        d = json.load(open(f))
        for x in d["coverage"]["contracts"]:
            for n in x["functions"]:
                n = n if n.startswith("naima.") else "naima." + n
                cov.setdefault(n, []).append(d["property"] + ":" + x["contract"])
    return cov


def lookup(cov, q, known):
    """The contracts on a function; of the functions around it where it has none"""
    parts = q.split(".")
    if parts[-1] == "__init__":
        pre = ".".join(parts[:-1])
        wide = sorted({c for m in cov for c in cov[m] if m.startswith(pre + ".")})
        if wide:
            return wide
    for k in range(len(parts), 1, -1):
        n = ".".join(parts[:k])
        if n in cov:
            return cov[n]
        if parts[k - 1] == "__init__" or k < len(parts):
            pre = sorted({c for m in cov for c in cov[m] if m.startswith(n + ".")})
            if pre and k > 2:
                return pre
    return []


def one(tree, contracts, sound):
    os.environ["VERIF_REPO"] = tree
    sys.path.insert(0, HERE)
    import importlib
    import warnings

    warnings.simplefilter("ignore")
    sys.setrecursionlimit(20000)
    from pyvc import report
    from pyvc.ctx import load_real

    res = {"runtime": [], "refuted": [], "open": [], "proved": [], "unsound": []}
    try:
        naima = load_real()
    except Exception as e:
        res["runtime"].append("import: %r" % e)
        print(json.dumps(res))
        return
    lits = report.mine_literals()
    hs = []
    for c in contracts:
        p, h = c.split(":")
        P = importlib.import_module("contracts." + p).P
        hs.append((c, next(x for x in P.harnesses if x.name == h)))
    for c, h in hs:
        if h.concrete:
            r = report.run_concrete(h, naima, 1, h.samples, lits, (), budget=60)
            hard = [f for f in r["fails"] if not all(x[0] == "harness" for x in f["failures"])]
            if hard:
                res["runtime"].append(c)
                if not sound:
                    break
    if not res["runtime"] or sound:
        for c, h in hs:
            if not h.symbolic or (res["runtime"] and c not in res["runtime"]):
                continue
            ex = report.run_symbolic(h, h.budget)
            failed = [o for o in ex.obligations if o.status == "failed"]
            unk = [o for o in ex.obligations if o.status == "unknown"]
            if failed:
                res["refuted"].append(c + ":" + failed[0].name)
                break
            elif unk or ex.undecided or ex.exceptions or not ex.obligations:
                res["open"].append(c + ":" + str((unk and unk[0].name) or (ex.undecided or ex.exceptions or ["-"])[0])[:160])
            else:
                res["proved"].append(c)
                if c in res["runtime"]:
                    res["unsound"].append(c)
    print(json.dumps(res))


def main():
    a = sys.argv[1:]
    if a[0] == "one":
        return one(a[1], a[2].split(","), "--sound" in a)
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    cov = coverage()
    todo = []
    rng = random.Random(int(opt("--seed", "1")))
    per = int(opt("--per", "6"))
    match = opt("--match", "")
    done = set()
    for f in opt("--skip", "").split(","):
        if f:
            done |= {json.loads(l)["key"] for l in open(f)}
    for path, mod in modules():
        tree = ast.parse(open(path).read())
        for q, fn in functions(tree, mod):
            ss = sites(fn)
            cs = lookup(cov, q, None)
            if a[0] == "list":
                print(len(ss), q, len(cs))
                continue
            if match and match not in q:
                continue
            if not cs:
                continue
            ks = list(range(len(ss)))
            rng.shuffle(ks)
            n = 0
            for k in ks:
                key = "%s#%d#%s" % (q, ss[k][5], ss[k][3])
                if n >= per:
                    break
                if key in done:
                    continue
                n += 1
                todo.append((path, mod, q, k, key, cs))
    if a[0] == "list":
        return
    rng.shuffle(todo)
    out = a[1]
    jobs = int(opt("--jobs", "6"))
    sound = "--sound" in a
    print(len(todo), "mutants", flush=True)
    import concurrent.futures as cf

    def work(x):
        path, mod, q, k, key, cs = x
        w = tempfile.mkdtemp(prefix="mutant-")
        try:
            shutil.copytree(SRC, w + "/src/naima", symlinks=True, ignore=shutil.ignore_patterns("data", "__pycache__"))
            os.symlink(SRC + "/data", w + "/src/naima/data")
            tree = ast.parse(open(path).read())
            fn = dict(functions(tree, mod))[q]
            s = sites(fn)[k]
            apply(s[0], s[1], s[2], s[4])
            new = ast.unparse(ast.fix_missing_locations(tree))
            p2 = w + "/src/naima" + path[len(SRC) :]
            open(p2, "w").write(new)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
            try:
                r = subprocess.run(["/opt/venv/bin/python", os.path.abspath(__file__), "one", w, ",".join(cs)] + ["--sound"] * sound, env=env, capture_output=True, text=True, timeout=900)
                res = json.loads(r.stdout.strip().splitlines()[-1]) if r.stdout.strip() else {"error": r.stderr[-400:]}
            except subprocess.TimeoutExpired:
                res = {"error": "timeout"}
        finally:
            shutil.rmtree(w, ignore_errors=True)
        kind = "error" if "error" in res else "unsound" if res["unsound"] else "runtime" if res["runtime"] else "refuted" if res["refuted"] else "open" if res["open"] else "survived"
        return {"key": key, "kind": kind, "contracts": cs, "result": res}

    with cf.ThreadPoolExecutor(jobs) as ex, open(out, "a") as o:
        for f in cf.as_completed([ex.submit(work, x) for x in todo]):
            r = f.result()
            o.write(json.dumps(r) + "\n")
            o.flush()
            if r["kind"] not in ("runtime",):
                print(r["kind"], r["key"], str(r["result"].get("open") or r["result"].get("refuted") or r["result"].get("unsound") or r["result"].get("error") or "")[:200], flush=True)


main()
