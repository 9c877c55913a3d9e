#!/usr/bin/env python3
"""Systematic small changes to the library, to see what the tests and then the checks miss.

mutate.py list [FILE...]                 -> how many sites there are
mutate.py run N SEED OUT.jsonl [FILE..]  -> N seeded mutants: tests first, then (if they pass) the checks
    (environment: J jobs, SCALE of the checks' runs, TESTS_ONLY, SKIP_FIRST n,
     SURVIVORS=OUT.jsonl of an earlier TESTS_ONLY run: only those, straight to the checks)

Works on scratch copies under /tmp; never on /repo."""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/v8serialize"
PY = "/opt/venv/bin/python"
SKIP = {"_typing.py", "_values.py", "__init__.py", "_v8traceback.py", "_versions.py", "constants.py", "_normalise_property_key.py"}
PROPS = ["C01", "C03", "C02", "C17", "C12", "C13", "C11", "C04", "C05", "C06", "C07", "C16", "C14", "C15", "C09", "C10", "C08"]
FIRST = {"jstypes/jsbuffers.py": ["C11"], "jstypes/jsarrayproperties.py": ["C12"], "jstypes/jsobject.py": ["C12"],
         "jstypes/jsarray.py": ["C12"], "jstypes/_repr.py": ["C10", "C09"], "jstypes/jsmap.py": ["C13"],
         "jstypes/jsset.py": ["C13"], "jstypes/_equality.py": ["C13"], "_recursive_eq.py": ["C09"], "extensions.py": ["C16"]}
WIRE = ["C01", "C03", "C02", "C17", "C04", "C05", "C06", "C07", "C16", "C14", "C15"]
# the checks a change in a file can matter to (the others never run what it holds)
ONLY = {"jstypes/jsbuffers.py": ["C11", "C03", "C16", "C01", "C06"], "jstypes/jsarrayproperties.py": ["C12", "C01", "C07"],
        "jstypes/jsobject.py": ["C12", "C01"], "jstypes/jsarray.py": ["C12", "C01"], "jstypes/_repr.py": ["C10", "C09"],
        "jstypes/jsmap.py": ["C13"], "jstypes/jsset.py": ["C13"], "jstypes/_equality.py": ["C13"],
        "_recursive_eq.py": ["C09"], "extensions.py": ["C16", "C06", "C03"]}
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not",
        ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.BitAnd: "|", ast.BitOr: "&", ast.LShift: ">>", ast.RShift: "<<",
       ast.FloorDiv: "*", ast.Mult: "//", ast.Mod: "//"}


def sites(path):
    t = open(path).read()
    tree = ast.parse(t)
    lines = t.splitlines(keepends=True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()))
    b = t.encode()
    pos = lambda l, c: offs[l - 1] + c  # noqa: E731
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))  # noqa: E731
    src = lambda n: b[slice(*span(n))].decode()  # noqa: E731
    out = []

    def add(n, new, what):
        s, e = span(n)
        out.append((s, e, new, what, n.lineno))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and "TYPE_CHECKING" in src(n.test):
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, (ast.FunctionDef,)):
            for d in n.decorator_list:
                if "overload" in src(d):
                    skip.update(ast.walk(n))
                skip.update(ast.walk(d))
            for a in [*n.args.args, *n.args.kwonlyargs, *n.args.posonlyargs]:
                if a.annotation:
                    skip.update(ast.walk(a.annotation))
            if n.returns:
                skip.update(ast.walk(n.returns))
        if isinstance(n, ast.AnnAssign):
            skip.update(ast.walk(n.annotation))
        if isinstance(n, ast.ClassDef):
            for x in [*n.bases, *n.decorator_list, *n.keywords]:
                skip.update(ast.walk(x))
            if any("Protocol" in src(x) for x in n.bases):
                skip.update(ast.walk(n))
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                if m is not n:
                    skip.add(m)
        if isinstance(n, ast.JoinedStr):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Call) and src(n.func) in ("cast", "TypeVar", "self.throw"):
            skip.update(m for m in ast.walk(n) if m is not n)
        if isinstance(n, ast.Subscript) and src(n.value) in ("Literal", "Union", "Optional"):
            skip.update(ast.walk(n))
    infun = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for s in n.body:
                infun.update(ast.walk(s))
    for n in ast.walk(tree):
        if n in skip or n not in infun:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = SWAP.get(type(n.ops[0]))
            if op:
                add(n, f"{src(n.left)} {op} {src(n.comparators[0])}", "compare")
        elif isinstance(n, ast.BoolOp):
            j = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + j.join(f"({src(v)})" for v in n.values) + ")", "boolop")
            add(n, f"({src(n.values[0])})", "first operand")
            add(n, f"({src(n.values[-1])})", "last operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f"({src(n.operand)})", "not")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, f"({src(n.left)} {BIN[type(n.op)]} {src(n.right)})", "binop")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, str(n.value + 1), "constant")
            if n.value:
                add(n, str(n.value - 1), "constant")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), "constant")
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, "True" if isinstance(n, ast.If) else "False", "condition")
            if isinstance(n, ast.If):
                add(n.test, "False", "condition")
        elif isinstance(n, ast.IfExp):
            add(n, f"({src(n.body)})", "ifexp")
            add(n, f"({src(n.orelse)})", "ifexp")
        elif isinstance(n, (ast.Raise, ast.AugAssign, ast.Delete)):
            add(n, "pass", "delete " + type(n).__name__)
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "delete call")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, "pass", "delete assignment")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add(n, "return None", "return")
        elif isinstance(n, ast.keyword) and n.arg:
            pass
        elif isinstance(n, (ast.With,)):
            s, _ = span(n.items[0].context_expr)
            for it in n.items:
                if it.optional_vars is None:
                    add(it.context_expr, "__import__('contextlib').nullcontext()", "with")
        elif isinstance(n, ast.Call) and src(n.func) in ("list", "bytes", "tuple", "bytearray", "frozenset", "dict") and len(n.args) == 1:
            add(n, f"({src(n.args[0])})", "copy")
        elif isinstance(n, ast.Try) and n.finalbody:
            for st in n.finalbody:
                add(st, "pass", "finally")
    res = []
    for s, e, new, what, line in out:
        nt = (b[:s] + new.encode() + b[e:]).decode()
        try:
            ast.parse(nt)
        except SyntaxError:
            continue
        res.append((what, line, b[s:e].decode(), new, nt))
    return res


def all_sites(files):
    r = []
    root = os.path.join("/repo", SRC)
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            if not f.endswith(".py") or (files and rel not in files) or (not files and (f in SKIP or "_pycompat" in d)):
                continue
            r += [(rel, *s) for s in sites(p)]
    return r


class Known(Exception):
    """The tests are known to pass."""


def survivors(s, path, skip):
    """The sites which an earlier run (TESTS_ONLY) wrote to ``path`` as not killed."""
    out = []
    for r in list(map(json.loads, open(path)))[skip:]:
        if r["killed"] is None:
            c = [(abs(x[2] - r["line"]), k) for k, x in enumerate(s)
                 if (x[0], x[1], x[3][:200], x[4][:200]) == (r["file"], r["what"], r["old"], r["new"])]
            if c and min(c)[0] < 30:
                out.append((r["k"], s[min(c)[1]]))
    return out


def one(job):
    k, (rel, what, line, old, new, text), scale = job
    d = tempfile.mkdtemp(prefix="/tmp/mutate.")
    t0 = time.time()
    res = {"k": k, "file": rel, "line": line, "what": what, "old": old[:200], "new": new[:200]}
    try:
        repo = os.path.join(d, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", ".hypothesis", "__pycache__", "node_modules"))
        with open(os.path.join(repo, SRC, rel), "w") as f:
            f.write(text)
        env = {**os.environ, "PYTHONPATH": os.path.join(repo, "src") + ":/opt/vp/plugins", "PYTHONHASHSEED": "0",
               "HYPOTHESIS_STORAGE_DIRECTORY": os.path.join(d, "hypothesis"), "PYTHONDONTWRITEBYTECODE": "1"}
        try:
            if os.environ.get("SURVIVORS"):
                raise Known
            p = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-n0", "-p", "vp_hypothesis", "--insta", "update-none",
                                "-o", f"cache_dir={d}/cache", "test"],
                               cwd=repo, env=env, capture_output=True, timeout=150, text=True, start_new_session=True)
            ok = p.returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        except Known:
            ok = True
        res["tests_s"] = round(time.time() - t0)
        if not ok:
            res["killed"] = "tests"
            return res
        if os.environ.get("TESTS_ONLY"):
            res["killed"] = None
            return res
        for prop in sorted(ONLY.get(rel, WIRE), key=lambda x: x not in FIRST.get(rel, ())):
            q = subprocess.run([os.path.join(VERIF, "check"), prop, "--no-shrink", "--jobs", "2",
                                *(["--runs", str(max(200, int(RUNS[prop] * scale)))] if scale < 1 else [])],
                               env={**os.environ, "SIM_REPO": repo}, capture_output=True, text=True, timeout=1200)
            if q.returncode == 1:
                m = re.search(r"seed=.*", q.stdout)
                res["killed"] = prop
                res["how"] = m.group(0)[:200] if m else ""
                return res
            if q.returncode != 0:
                res.setdefault("rc", []).append([prop, q.returncode, q.stdout[-300:]])
        res["killed"] = None
        return res
    except Exception as e:  # noqa: BLE001
        res["killed"] = f"error {e!r}"
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


RUNS = {}


def main():
    if sys.argv[1] == "list":
        s = all_sites(sys.argv[2:])
        from collections import Counter
        print(len(s), Counter(x[0] for x in s).most_common())
        return
    n, seed, out = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    sys.path.insert(0, os.path.join(VERIF, "sim"))
    for p in PROPS:
        m = re.search(r'RUNS = \{"quick": ([\d_]+)', open(os.path.join(VERIF, "sim", "props", p.lower() + ".py")).read())
        RUNS[p] = int(m.group(1))
    s = all_sites(sys.argv[5:])
    random.Random(seed).shuffle(s)
    jobs = int(os.environ.get("J", "4"))
    scale = float(os.environ.get("SCALE", "0.25"))
    first = int(os.environ.get("SKIP_FIRST", "0"))
    if os.environ.get("SURVIVORS"):
        todo = [(k, x, scale) for k, x in survivors(s, os.environ["SURVIVORS"], first)]
    else:
        todo = [(k, x, scale) for k, x in enumerate(s[:n])][first:]
    with ThreadPoolExecutor(jobs) as ex, open(out, "a") as f:
        for r in ex.map(one, todo):
            f.write(json.dumps(r) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
