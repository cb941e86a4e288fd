"""Mutation survey: which small changes of the library do the checks not notice?

  tools/mutate.py gen OUT.json [FILE...]      list mutants
  tools/mutate.py run LIST.json OUT.json      run a reduced set of cases of the relevant checks
  tools/mutate.py full OUT.json ID...         run the complete quick checks on survivors

A development aid, not a check.  Works on copies under /tmp.
"""

import ast
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/ptwt"
PY = "/opt/venv/bin/python"
COMMON = ["C06", "C18", "C19", "C17"]
CHECKS = {
    "_util.py": ["C01", "C03", "C02", "C05", "C04", "C19", "C06", "C10", "C23", "C15", "C22", "C13", "C18", "C21", "C09", "C17", "C11"],
    "constants.py": ["C03", "C19", "C01"],
    "conv_transform.py": ["C01", "C02", "C07", "C22", "C23"] + COMMON,
    "conv_transform_2.py": ["C03", "C07", "C22", "C23"] + COMMON,
    "conv_transform_3.py": ["C04", "C07", "C22", "C23"] + COMMON,
    "separable_conv_transform.py": ["C05", "C07", "C22", "C23"] + COMMON,
    "stationary_transform.py": ["C15", "C22", "C23"] + COMMON,
    "packets.py": ["C11", "C12", "C13", "C14", "C09", "C22"] + COMMON,
    "matmul_transform.py": ["C10", "C08", "C09", "C22", "C23"] + COMMON,
    "matmul_transform_2.py": ["C10", "C08", "C09", "C22", "C23"] + COMMON,
    "matmul_transform_3.py": ["C10", "C08", "C09", "C22", "C23"] + COMMON,
    "sparse_math.py": ["C20", "C08", "C10"],
    "continuous_transform.py": ["C16", "C17", "C18", "C06"],
    "wavelets_learnable.py": ["C21", "C18"],
}
CMP = {"<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "==": ["!="], "!=": ["=="], "is": ["is not"], "is not": ["is"], "in": ["not in"], "not in": ["in"]}
OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
BIN = {ast.Add: ("+", ["-"]), ast.Sub: ("-", ["+"]), ast.Mult: ("*", ["+", "//"]), ast.Div: ("/", ["*"]), ast.FloorDiv: ("//", ["*"]), ast.Mod: ("%", ["*", "//"]), ast.Pow: ("**", ["*"])}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()
    off = lambda ln, col: starts[ln - 1] + col
    span = lambda n: (off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset))
    seg = lambda a, b: raw[a:b].decode()
    out = []

    def add(node, a, b, new, kind):
        if seg(a, b) != new:
            out.append({"file": os.path.basename(path), "line": node.lineno, "a": a, "b": b, "new": new, "old": seg(a, b)[:120], "kind": kind})

    skip = set()
    for n in ast.walk(tree):
        # no annotations, docstrings, decorators, messages
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                skip.add(n.body[0])
        if isinstance(n, ast.FunctionDef):
            for x in [n.returns] + [a.annotation for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs] + n.decorator_list:
                if x is not None:
                    skip.add(x)
        if isinstance(n, ast.AnnAssign):
            skip.add(n.annotation)
        if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call):
            skip.update(n.exc.args)
        if isinstance(n, ast.Assert) and n.msg is not None:
            skip.add(n.msg)
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("cast", "TypeVar", "overload"):
            skip.update(n.args[:1])
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.add(n)
        if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Subscript,)) and isinstance(n.value.value, ast.Name) and n.value.value.id in ("Union", "Literal", "Optional", "Sequence"):
            skip.add(n)
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING":
            skip.add(n)

    def visit(n):
        if n in skip:
            return
        a, b = span(n) if hasattr(n, "lineno") else (0, 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = span(n.left)[1], span(n.comparators[0])[0]
            o = OPS[type(n.ops[0])]
            for m in CMP[o]:
                add(n, l, r, seg(l, r).replace(o, m, 1), "cmp")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            l, r = span(n.left)[1], span(n.right)[0]
            o, ms = BIN[type(n.op)]
            for m in ms:
                add(n, l, r, seg(l, r).replace(o, m, 1), "bin")
        if isinstance(n, ast.BoolOp):
            l, r = span(n.values[0])[1], span(n.values[1])[0]
            o, m = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            add(n, l, r, seg(l, r).replace(o, m, 1), "bool")
            for v in n.values:
                va, vb = span(v)
                add(n, va, vb, "True" if o == "and" else "False", "boolterm")
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not):
                add(n, a, b, seg(*span(n.operand)), "not")
            if isinstance(n.op, ast.USub):
                add(n, a, b, seg(*span(n.operand)), "neg")
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, a, b, str(not n.value), "bool const")
            elif isinstance(n.value, int):
                add(n, a, b, str(n.value + 1), "const")
                add(n, a, b, f"({n.value - 1})", "const")
            elif isinstance(n.value, float):
                add(n, a, b, str(n.value * 2), "const")
            elif isinstance(n.value, str) and len(n.value) < 14 and n.value:
                add(n, a, b, repr(n.value[:-1] + ("a" if n.value[-1] != "a" else "d")), "string")
        if isinstance(n, (ast.If, ast.While)):
            ta, tb = span(n.test)
            add(n, ta, tb, "not (" + seg(ta, tb) + ")", "negate")
            if isinstance(n, ast.If):
                add(n, ta, tb, "False", "if false")
                add(n, ta, tb, "True", "if true")
        if isinstance(n, ast.IfExp):
            ta, tb = span(n.test)
            add(n, ta, tb, "True", "ifexp true")
            add(n, ta, tb, "False", "ifexp false")
        if isinstance(n, ast.Raise):
            add(n, a, b, "pass", "drop raise")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, a, b, "pass", "drop call")
        if isinstance(n, (ast.AugAssign, ast.Delete)):
            add(n, a, b, "pass", "drop stmt")
        if isinstance(n, (ast.Break, ast.Continue)):
            add(n, a, b, "pass", "drop " + type(n).__name__)
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, a, b, "pass", "drop assign")
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            # an update of an existing name
            nm = n.targets[0].id
            if any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(n.value)):
                add(n, a, b, "pass", "drop update")
        if isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                if k.arg is None:
                    continue
                ka, kb = span(k)
                e = kb
                while raw[e : e + 1] in (b" ", b"\n", b"\t"):
                    e += 1
                e = e + 1 if raw[e : e + 1] == b"," else kb
                add(k, ka, e, "", "drop keyword " + k.arg)
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args[:2]) and getattr(n.func, "id", "") not in ("isinstance", "cast", "getattr", "hasattr"):
                (a0, b0), (a1, b1) = span(n.args[0]), span(n.args[1])
                add(n, a0, b1, seg(a1, b1) + seg(b0, a1) + seg(a0, b0), "swap args")
            # drop a method call: x.f(...) -> x
            if isinstance(n.func, ast.Attribute) and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("torch", "np", "pywt", "self", "cls", "math", "F")):
                add(n, a, b, seg(*span(n.func.value)), "drop method " + n.func.attr)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for part in ("lower", "upper", "step"):
                q = getattr(n.slice, part)
                if q is not None:
                    qa, qb = span(q)
                    add(n, qa, qb, "", "drop slice " + part)
        if isinstance(n, (ast.Tuple, ast.List)) and len(n.elts) >= 2 and isinstance(n.ctx, ast.Load) and not any(isinstance(x, ast.Starred) for x in n.elts):
            (a0, b0), (a1, b1) = span(n.elts[0]), span(n.elts[1])
            add(n, a0, b1, seg(a1, b1) + seg(b0, a1) + seg(a0, b0), "swap elements")
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Call) and n.value.args:
            add(n, *span(n.value), seg(*span(n.value.args[0])), "return argument")
        for c in ast.iter_child_nodes(n):
            visit(c)

    visit(tree)
    ok = []
    seen = set()
    for m in out:
        new = raw[: m["a"]] + m["new"].encode() + raw[m["b"] :]
        if new in seen:
            continue
        seen.add(new)
        try:
            ast.parse(new.decode())
        except SyntaxError:
            continue
        ok.append(m)
    return ok


INNER = r'''
import sys, os, json, collections, importlib, random
sys.path.insert(0, "/verif")
from harness import core, worker
tmp, n, props = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
worker.CASE_SECONDS = 60
try:
    core.import_ptwt()
except BaseException as ex:
    print("KILLED import", repr(ex)[:100]); sys.exit()
groups = collections.defaultdict(list)
budget = {"C08": 0.25, "C09": 0.5, "C18": 0.6}
for p in props:
    core.TMP = "/tmp/mutprep/" + p
    mod = importlib.import_module("harness.props." + p.lower())
    k = 0
    lim = max(8, int(n * budget.get(p, 1)))
    gens = []
    cs = []
    if hasattr(mod, "fixed"):
        f = list(mod.fixed("quick")); random.Random(5).shuffle(f); cs += f[:lim]
    r = random.Random("mut" + p)
    while len(cs) < 2 * lim:
        cs += list(mod.make(r, "quick"))
    for c in cs:
        c["id"] = f"{p}-{k}"; k += 1
        ev = worker.run_case(mod, c)
        if not isinstance(ev, list): ev = [ev]
        if ev and ev[0].get("op") == "fail":
            print("KILLED timeout", p); sys.exit()
        groups[getattr(mod, "TRACE_MODULE", "PtwtTrace")] += [json.dumps(e) for e in ev]
for m, ls in groups.items():
    tr = os.path.join(tmp, m + ".ndjson")
    open(tr, "w").write("\n".join(ls) + "\n")
    rc, out, bad, st = worker.judge(m, tr, tmp)
    bad = [b for b in bad if not b["clause"].startswith("KNOWN")]
    if bad:
        print("KILLED", bad[0]["id"], bad[0]["clause"]); sys.exit()
    if rc:
        print("TLCFAIL", out[-300:].replace("\n", " ")); sys.exit()
print("SURVIVED")
'''


def prep():
    d = "/tmp/mutprep"
    if not os.path.exists(d):
        for p in ("C09", "C12", "C07", "C15"):
            os.makedirs(f"{d}/{p}")
        e = dict(os.environ, PYTHONPATH=HERE)
        subprocess.run([sys.executable, "-c", "import importlib,sys\nfrom harness import core\ncore.TMP='/tmp/mutprep'\nfor p in ('C09','C12','C07','C15'):\n    m=importlib.import_module('harness.props.'+p.lower())\n    core.TMP='/tmp/mutprep/'+p\n    print(p,[x['ok'] for x in m.prepare(core.TMP,'quick')])"], cwd=HERE, env=e, check=True)


def one(m):
    tmp = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        shutil.copytree("/repo/src", tmp + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        f = f"{tmp}/src/ptwt/{m['file']}"
        raw = open(f, "rb").read()
        open(f, "wb").write(raw[: m["a"]] + m["new"].encode() + raw[m["b"] :])
        env = dict(os.environ, PTWT_REPO=tmp, OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        cs = CHECKS[m["file"]]
        res = "?"
        for n, props in ((15, cs[:3]), (40, cs)):
            try:
                p = subprocess.run([PY, "-c", INNER, tmp, str(n), *props], cwd=HERE, env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return {**m, "res": "KILLED whole run timed out"}
            last = [l for l in p.stdout.splitlines() if l.startswith(("KILLED", "SURVIVED", "TLCFAIL"))]
            res = last[-1] if last else f"KILLED process rc {p.returncode} {p.stderr[-200:]}"
            if not res.startswith("SURVIVED"):
                break
        return {**m, "res": res[:200]}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    cmd = sys.argv[1]
    if cmd == "gen":
        files = sys.argv[3:] or sorted(CHECKS)
        ms = [m for f in files for m in mutants(os.path.join(SRC, f))]
        for i, m in enumerate(ms):
            m["id"] = f"{m['file'][:-3]}-{i}"
        json.dump(ms, open(sys.argv[2], "w"), indent=0)
        print(len(ms))
    elif cmd == "run":
        prep()
        ms = json.load(open(sys.argv[2]))
        out = open(sys.argv[3], "a")
        done = {json.loads(l)["id"] for l in open(sys.argv[3])}
        with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
            for r in ex.map(one, [m for m in ms if m["id"] not in done]):
                out.write(json.dumps(r) + "\n")
                out.flush()


main()
