#!/usr/bin/env python3
"""Development aid: small AST mutants of /repo's sources that pass the repository's tests, run against the checks.

mutate.py OUT.jsonl [--file SUBSTR] [--workers N] [--verif DIR] [--scale S] [--every K --offset O] [--guard SEED]
Writes one line per mutant: {"id", "file", "line", "func", "what", "status": tests|killed|SURVIVED, "by"}.
Not used by any check."""
import argparse, ast, copy, json, multiprocessing as mp, os, shutil, subprocess, sys, time
ALL = [f"C{i:02d}" for i in range(1, 38)]
LPC = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C35", "C36", "C37"]
GROUPS = {
    "programs/_linear.py": LPC + ["C33", "C17", "C16", "C20"],
    "programs/_integer.py": ["C17", "C09", "C08", "C11", "C12", "C13", "C34", "C37", "C16"],
    "programs/_unconstrained.py": ["C18"],
    "formulations/": ["C19", "C20", "C34", "C24", "C25"],
    "graphs/_undirected.py": ["C21", "C22", "C23", "C24", "C25", "C29", "C33", "C32"],
    "graphs/_directed.py": ["C26", "C23", "C27", "C28", "C29", "C33", "C32"],
    "parsers/": ["C37", "C30", "C31", "C29", "C32", "C21", "C26"],
    "utilities/_comparator.py": ["C32", "C33"] + LPC,
    "utilities/_disjoint.py": ["C33", "C32", "C22", "C24"],
}
CMP = {ast.Lt: [ast.LtE, ast.Gt, ast.GtE], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.MatMult: [], ast.BitOr: [ast.BitAnd], ast.BitAnd: [ast.BitOr], ast.Mod: [ast.FloorDiv], ast.FloorDiv: [ast.Div], ast.Pow: [ast.Mult]}
STR = {"<=": [">="], ">=": ["<="], "=": ["<="], "max": ["min"], "min": ["max"]}


def variants(node):
    """Yields (description, replacement) for one node."""
    if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
            for alt in CMP.get(type(op), []):
                n = copy.deepcopy(node)
                n.ops[i] = alt()
                yield f"{type(op).__name__}->{alt.__name__}", n
    elif isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node)
        n.op = ast.And() if isinstance(node.op, ast.Or) else ast.Or()
        yield "and<->or", n
        for i in range(len(node.values)):
            v = [x for k, x in enumerate(node.values) if k != i]
            n = copy.deepcopy(node)
            n.values = copy.deepcopy(v)
            yield f"drop operand {i}", n if len(v) > 1 else copy.deepcopy(v[0])
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub, ast.Invert)):
        yield "drop unary", copy.deepcopy(node.operand)
    elif isinstance(node, ast.BinOp):
        for alt in BIN.get(type(node.op), []):
            n = copy.deepcopy(node)
            n.op = alt()
            yield f"{type(node.op).__name__}->{alt.__name__}", n
    elif isinstance(node, ast.AugAssign):
        for alt in BIN.get(type(node.op), []):
            n = copy.deepcopy(node)
            n.op = alt()
            yield f"{type(node.op).__name__}=->{alt.__name__}=", n
        yield "drop statement", ast.Pass()
    elif isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            yield f"{v}->{not v}", ast.Constant(not v)
        elif isinstance(v, int):
            yield f"{v}->{v + 1}", ast.Constant(v + 1)
            yield f"{v}->{v - 1}", ast.Constant(v - 1)
        elif isinstance(v, float):
            yield f"{v}->{v * 2}", ast.Constant(v * 2)
            yield f"{v}->{v * 1000}", ast.Constant(v * 1000)
        elif isinstance(v, str) and v in STR:
            for a in STR[v]:
                yield f"{v!r}->{a!r}", ast.Constant(a)
    elif isinstance(node, ast.Call):
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == "copy" and not node.args:
            yield "drop .copy()", copy.deepcopy(f.value)
        nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if len(node.args) >= 1 and nm in ("list", "sorted", "set", "copy", "deepcopy", "array", "abs", "float", "int", "round", "reversed", "unique", "tuple", "asarray", "floor", "ceil"):
            yield f"drop {nm}()", copy.deepcopy(node.args[0])
        swap = {"any": "all", "all": "any", "min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "floor": "ceil", "ceil": "floor", "append": "insert0", "vstack": "hstack", "isclose": None}
        if nm in ("any", "all", "min", "max", "argmin", "argmax", "floor", "ceil") :
            n = copy.deepcopy(node)
            if isinstance(n.func, ast.Attribute): n.func.attr = swap[nm]
            else: n.func.id = swap[nm]
            yield f"{nm}->{swap[nm]}", n
        for i, k in enumerate(node.keywords):
            if k.arg:
                n = copy.deepcopy(node)
                n.keywords.pop(i)
                yield f"drop keyword {k.arg}", n
        for i in range(len(node.args) - 1):
            n = copy.deepcopy(node)
            n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
            yield f"swap arguments {i}", n
    elif isinstance(node, (ast.If, ast.While)):
        n = copy.deepcopy(node)
        n.test = ast.Constant(False)
        yield "condition False", n
        if isinstance(node, ast.If):
            n = copy.deepcopy(node)
            n.test = ast.Constant(True)
            yield "condition True", n
            if node.orelse:
                n = copy.deepcopy(node)
                n.orelse = []
                yield "drop else", n
    elif isinstance(node, ast.IfExp):
        yield "then", copy.deepcopy(node.body)
        yield "else", copy.deepcopy(node.orelse)
    elif isinstance(node, (ast.Assign, ast.Expr, ast.Raise, ast.Continue, ast.Break, ast.AnnAssign)):
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return
        yield "drop statement", ast.Pass()
        if isinstance(node, ast.Break):
            yield "break->continue", ast.Continue()
        if isinstance(node, ast.Continue):
            yield "continue->break", ast.Break()
    elif isinstance(node, ast.Return) and node.value is not None and not isinstance(node.value, ast.Constant):
        yield "return None", ast.Return(ast.Constant(None))
    elif isinstance(node, ast.comprehension):
        for i in range(len(node.ifs)):
            n = copy.deepcopy(node)
            n.ifs.pop(i)
            yield "drop filter", n
    elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
        s = node.slice
        for part in ("lower", "upper"):
            if getattr(s, part) is not None:
                n = copy.deepcopy(node)
                setattr(n.slice, part, None)
                yield f"drop slice {part}", n


def sites(tree):
    """(parent, field, index, node, func) for every node outside annotations, defaults of abstract stubs and docstrings."""
    def walk(node, func):
        for field, value in ast.iter_fields(node):
            if field in ("annotation", "returns", "decorator_list", "type_comment"):
                continue
            for i, child in (enumerate(value) if isinstance(value, list) else [(None, value)]):
                if not isinstance(child, ast.AST):
                    continue
                f = func
                if isinstance(child, (ast.FunctionDef, ast.ClassDef)):
                    f = (func + "." if func else "") + child.name
                if isinstance(child, (ast.Import, ast.ImportFrom)):
                    continue
                yield node, field, i, child, f
                yield from walk(child, f)
    yield from walk(tree, "")


LP = ["self._A.shape[1] >= 5", "self._A.shape[0] >= 4", "self._A.shape[0] >= 3 and self._A.shape[1] >= 4", "self._z < 0", "len(self._free_variables) >= 2",
      "len(self._negative_variables) >= 2", "len(self._negative_variables) > 0 and len(self._free_variables) > 0", "np.abs(self._A).max() > 40",
      "not np.all(self._A == np.floor(self._A))", "(self._b < 0).sum() >= 2", "(self._b == 0).sum() >= 2", "not self._A.any(axis=1).all()", "not self._A.any(axis=0).all()",
      "self._objective == 'min' and (self._c < 0).any()", "len(self._steps) > 2", "self._A.shape[0] == self._A.shape[1] > 1", "self._A.shape[0] > self._A.shape[1]",
      "len(self._c[self._c == 0]) >= 2", "np.abs(self._b).max() < 1"]
UG = ["len(self._vertices) >= 7", "len(self._edges) >= 9", "any(len(v) > 1 for v in self._vertices)", "any(w != int(w) for w in self._edges.values())", "0 in self._edges.values()",
      "len(self._edges) >= len(self._vertices)", "any(not s for s in self._graph.values())", "max(map(len, self._graph.values()), default=0) >= 4",
      "any(not v.isascii() for v in self._vertices)"]
DG = ["len(self._nodes) >= 6", "len(self._arcs) >= 10", "any((b, a) in self._arcs for a, b in self._arcs)", "0 in self._arcs.values()", "any(w != int(w) for w in self._arcs.values())",
      "any(len(v) > 1 for v in self._nodes)"]
OFTEN = ["(self.__dict__.__setitem__('_times', self.__dict__.get('_times', 0) + 1) or self.__dict__['_times'] > 2)"]
WHEN = {"_linear.py": LP + OFTEN, "_integer.py": LP + ["self._integral_variables is not None and len(self._integral_variables) > 1"] + OFTEN, "_undirected.py": UG + OFTEN, "_directed.py": DG + OFTEN,
        "_unconstrained.py": ["not self._minimize"] + OFTEN, "_disjoint.py": OFTEN}


def guarded(path, node, new, func, key):
    """The mutant only when a rare condition holds."""
    import random
    name = os.path.basename(path)
    conds = next((v for k, v in WHEN.items() if name == k), None) if "parsers" not in path and "formulations" not in path else None
    if conds is None or func.endswith("__init__") or func.endswith("random"):
        return None
    cond = ast.parse(random.Random(key).choice(conds), mode="eval").body
    if isinstance(node, ast.stmt):
        return ast.unparse(cond), ast.If(cond, [new], [copy.deepcopy(node)])
    if isinstance(node, ast.expr) and not isinstance(getattr(node, "ctx", None), ast.Store):
        return ast.unparse(cond), ast.IfExp(cond, new, copy.deepcopy(node))
    return None


def has_self(tree, line):
    fs = [f for f in ast.walk(tree) if isinstance(f, ast.FunctionDef) and f.lineno <= line <= f.end_lineno]
    return any(f.args.args and f.args.args[0].arg == "self" for f in fs)


def mutants(path, guard=None):
    src = open(path).read()
    tree, whole = ast.parse(src), ast.parse(src)
    seen = {ast.unparse(tree)}
    n = 0
    for parent, field, i, node, func in list(sites(tree)):
        if not func or isinstance(parent, ast.Raise) or isinstance(parent, ast.JoinedStr):
            continue
        for what, new in variants(node):
            if guard is not None:
                key = f"{guard}/{path}/{getattr(node, 'lineno', 0)}/{getattr(node, 'col_offset', 0)}/{what}"
                g = guarded(path, node, new, func, key) if has_self(whole, getattr(node, "lineno", 0)) else None
                if g is None:
                    continue
                what, new = f"[{g[0]}] {what}", g[1]
            if i is None:
                setattr(parent, field, new)
            else:
                getattr(parent, field)[i] = new
            ast.fix_missing_locations(tree)
            try:
                text = ast.unparse(tree)
            except Exception:
                text = None
            if i is None:
                setattr(parent, field, node)
            else:
                getattr(parent, field)[i] = node
            if text is None or text in seen:
                continue
            seen.add(text)
            line = getattr(node, "lineno", getattr(parent, "lineno", getattr(getattr(node, "target", None), "lineno", 0)))
            if "error" in src.splitlines()[line - 1].lower() and "raise" in src.splitlines()[line - 1] and what != "drop statement":
                continue
            n += 1
            try:
                expr = ast.unparse(new)[:100]
            except Exception:
                expr = ""
            yield n, line, func, f"{what}: {expr}", text


def sh(cmd, cwd, env, t):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env={**os.environ, **env}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=t)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 124, ""


WINS = {}


def work(job):
    (rel, n, line, func, what, text), o = job
    d = f"/tmp/mut/w{mp.current_process()._identity[0]}"
    if not os.path.isdir(d):
        subprocess.check_call(["cp", "-a", "/repo", d])
    target = os.path.join(d, rel)
    orig = open(os.path.join("/repo", rel)).read()
    rec = {"id": f"{rel}#{n}", "file": rel, "line": line, "func": func, "what": what}
    try:
        open(target, "w").write(text)
        rc, out = sh("/opt/venv/bin/python -B -m pytest -q -x -p no:cacheprovider pytimize", d, {"MPLBACKEND": "Agg", "PYTHONPATH": d}, 40)
        if rc != 0:
            return {**rec, "status": "tests"}
        group = next(v for k, v in GROUPS.items() if k in rel)
        key = (rel, func)
        order = sorted(group, key=lambda p: -WINS.get(key, {}).get(p, 0))
        notes = []
        for scale in [o.scale]:
            for p in order:
                rc, out = sh(f"/opt/venv/bin/python check.py {p} --scale {scale}", o.verif, {"PBT_REPO": d, "PBT_WORKERS": "1", "VERIF_SEED": "1"}, 400)
                if rc == 1 and f"VIOLATION property={p}" in out:
                    WINS.setdefault(key, {}).setdefault(p, 0)
                    WINS[key][p] += 1
                    msg = [l for l in out.splitlines() if l.startswith("[")]
                    return {**rec, "status": "killed", "by": p, "scale": scale, "msg": (msg or [""])[0][:160]}
                if rc != 0:
                    notes.append(f"{p} rc {rc}")
        return {**rec, "status": "SURVIVED", "notes": notes}
    except Exception as e:
        return {**rec, "status": "error", "msg": repr(e)}
    finally:
        open(target, "w").write(orig)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--file", default="")
    ap.add_argument("--func", default="")
    ap.add_argument("--workers", type=int, default=6)
    ap.add_argument("--verif", default=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    ap.add_argument("--scale", type=float, default=0.5)
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--guard", help="mutants that only act under a rare condition, chosen by this seed")
    ap.add_argument("--count", action="store_true")
    ap.add_argument("--survivors", help="only the mutants that SURVIVED in this earlier output")
    o = ap.parse_args()
    jobs = []
    only = None
    if o.survivors:
        only = {json.loads(l)["id"] for l in open(o.survivors) if '"SURVIVED"' in l}
    for k in GROUPS:
        base = os.path.join("/repo/pytimize", k)
        files = [base] if base.endswith(".py") else sorted(os.path.join(r, f) for r, _, fs in os.walk(base) for f in fs if f.endswith(".py") and "tests" not in r)
        for f in files:
            rel = os.path.relpath(f, "/repo")
            if o.file not in rel:
                continue
            for m in mutants(f, o.guard):
                if o.func and o.func not in m[2]:
                    continue
                if only is not None and f"{rel}#{m[0]}" not in only:
                    continue
                jobs.append(((rel,) + m, o))
    jobs = jobs[o.offset::o.every]
    print(len(jobs), "mutants", flush=True)
    if o.count:
        return
    done = set()
    if os.path.exists(o.out):
        done = {json.loads(l)["id"] for l in open(o.out)}
    jobs = [j for j in jobs if f"{j[0][0]}#{j[0][1]}" not in done]
    t = {}
    with mp.get_context("fork").Pool(o.workers) as pool, open(o.out, "a") as f:
        for r in pool.imap_unordered(work, jobs):
            f.write(json.dumps(r) + "\n")
            f.flush()
            t[r["status"]] = t.get(r["status"], 0) + 1
    print(t)


if __name__ == "__main__":
    main()
