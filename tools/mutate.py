#!/usr/bin/env python3
"""Development tool: apply small source changes to a scratch copy of the repository and see which the obligations notice.

python3 tools/mutate.py FILE [FUNCTION-REGEX] [--show]      (FILE relative to the repository)"""
import ast
import copy
import multiprocessing as mp
import os
import re
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(60000)
NAMES = "--names" in sys.argv
REPO = os.environ.get("SA_REPO", "/repo")


def mutants(tree, rx):
    """(description, mutated tree)"""
    sites = []

    def visit(node, qual):
        notes = [getattr(node, "annotation", None), getattr(node, "returns", None)]
        for child in ast.iter_child_nodes(node):
            if child in notes:
                continue
            q = qual
            if isinstance(child, (ast.FunctionDef, ast.ClassDef)):
                q = (qual + "." if qual else "") + child.name
            if q and rx.search(q) or not q and rx.search("<module>"):
                sites.append((child, q))
            visit(child, q)
    visit(tree, "")
    BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}
    CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
           ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
    for node, q in sites:
        def emit(desc, undo):
            t = copy.deepcopy(tree)
            undo()
            return f"{q}:{getattr(node, 'lineno', '?')} {desc}", t
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            old = node.op
            node.op = BIN[type(old)]()
            yield emit(f"{type(old).__name__}->{type(node.op).__name__} in {ast.unparse(node)[:60]}", lambda: setattr(node, "op", old))
            node.op = old
        if isinstance(node, ast.Compare):
            for i, o in enumerate(node.ops):
                if type(o) in CMP:
                    node.ops[i] = CMP[type(o)]()
                    yield emit(f"{type(o).__name__}->{type(node.ops[i]).__name__} in {ast.unparse(node)[:60]}", lambda: node.ops.__setitem__(i, o))
                    node.ops[i] = o
        if isinstance(node, ast.BoolOp):
            old = node.op
            node.op = ast.Or() if isinstance(old, ast.And) else ast.And()
            yield emit(f"and/or in {ast.unparse(node)[:60]}", lambda: setattr(node, "op", old))
            node.op = old
        if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
            old = node.value
            node.value = old + 1
            yield emit(f"{old}->{node.value}", lambda: setattr(node, "value", old))
            node.value = old
        if isinstance(node, ast.Constant) and isinstance(node.value, bool):
            old = node.value
            node.value = not old
            yield emit(f"{old}->{node.value}", lambda: setattr(node, "value", old))
            node.value = old
        if isinstance(node, ast.Constant) and isinstance(node.value, str) and node.value and " " not in node.value.strip():
            old = node.value
            node.value = old + "_"
            yield emit(f"{old!r} changed", lambda: setattr(node, "value", old))
            node.value = old
        if isinstance(node, (ast.Name, ast.Attribute)) and isinstance(node.ctx, ast.Load) and NAMES:
            f = "id" if isinstance(node, ast.Name) else "attr"
            old = getattr(node, f)
            pool = sorted({getattr(n, f) for m, mq in sites if mq == q and isinstance(m, type(node)) for n in [m]
                           if isinstance(n.ctx, ast.Load)} - {old})
            if pool:
                new = pool[(getattr(node, "lineno", 0) * 7 + getattr(node, "col_offset", 0)) % len(pool)]
                setattr(node, f, new)
                yield emit(f"name {old}->{new}", lambda: setattr(node, f, old))
                setattr(node, f, old)
        if isinstance(node, ast.Call) and len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args):
            for i in range(len(node.args) - 1):
                if ast.dump(node.args[i]) != ast.dump(node.args[i + 1]):
                    node.args[i], node.args[i + 1] = node.args[i + 1], node.args[i]
                    def undo(i=i):
                        node.args[i], node.args[i + 1] = node.args[i + 1], node.args[i]
                    yield emit(f"swap args {i} of {ast.unparse(node)[:60]}", undo)
        for field in ("body", "orelse"):
            b = getattr(node, field, None)
            if isinstance(b, list) and not isinstance(node, (ast.ClassDef, ast.Module)):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Continue, ast.Break)) and not (
                            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        if isinstance(s, ast.Expr) and ast.unparse(s).startswith("print"):
                            continue
                        b[i] = ast.copy_location(ast.Pass(), s)
                        yield emit(f"drop {ast.unparse(s)[:60]}", lambda: b.__setitem__(i, s))
                        b[i] = s
        if isinstance(node, ast.If) and node.orelse:
            old = node.test
            node.test = ast.copy_location(ast.UnaryOp(ast.Not(), old), old)
            yield emit(f"negate {ast.unparse(old)[:60]}", lambda: setattr(node, "test", old))
            node.test = old
        if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id in ("Constants", "Config") and isinstance(node.ctx, ast.Load):
            old = node.attr
            node.attr = {"water_density": "ice_density", "ice_density": "water_density", "zero_temperature": "albedo_ice"}.get(old, "water_density")
            yield emit(f"Constants.{old}->{node.attr}", lambda: setattr(node, "attr", old))
            node.attr = old


def job(a):
    desc, src, rel, names = a
    import check
    d = tempfile.mkdtemp(prefix="mut")
    try:
        for sub in ("cosipy", "convert_config.py", "config.toml", "constants.toml", "utilities_config.toml", "slurm_config.toml", "COSIPY.py", "pyproject.toml"):
            s = os.path.join(REPO, sub)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(d, sub), ignore=shutil.ignore_patterns("__pycache__", "*.pyc", "tests"))
            elif os.path.exists(s):
                shutil.copy(s, d)
        with open(os.path.join(d, rel), "w") as f:
            f.write(src)
        os.environ["SA_REPO"] = d
        res, und = "ok", []
        for n in names:
            _n, out, _f, _s, err = check.work((n, None, 60))
            if err:
                und.append(err)
            for st, where, what, det, rule, key in out:
                if st == "violation":
                    return desc, "killed", f"{what}"
                if st == "undecided":
                    und.append(f"{what}: {det}"[:160])
        return desc, ("undecided" if und else "SURVIVED"), "; ".join(und[:2])
    finally:
        shutil.rmtree(d)


def main():
    rel = sys.argv[1]
    rx = re.compile(sys.argv[2] if len(sys.argv) > 2 and sys.argv[2][0] != "-" else ".")
    import registry
    import check
    mod = rel[:-3].replace("/", ".")
    cover = {}
    with mp.Pool(8) as pool:
        for name, out, fns, secs, err in pool.map(check.work, [(n, None, 100) for n in registry.OBLIGATIONS
                                                               if registry.OBLIGATIONS[n].tier == "quick"], chunksize=1):
            cover[name] = (set(fns), secs)
        tree = ast.parse(open(os.path.join(REPO, rel)).read())
        jobs = []
        for desc, t in mutants(tree, rx):
            q = mod + "." + desc.split(":")[0]
            names = sorted((n for n, (f, s) in cover.items() if q in f), key=lambda n: cover[n][1])
            jobs.append((desc, ast.unparse(t), rel, names[:14]))
        count = {}
        for desc, res, det in pool.imap_unordered(job, jobs):
            count[res] = count.get(res, 0) + 1
            if res != "killed" or "--show" in sys.argv:
                print(res, desc, "|", det[:200])
    print(rel, count)


if __name__ == "__main__":
    main()
