"""Mutation testing of the checks (not part of any check).

  mutate.py sample DIR N SEED   - draw N mutants of /repo's sources
  mutate.py test DIR            - keep those that pass the repository's tests
  mutate.py check DIR           - run the mapped checks on the kept ones

Everything happens in copies below DIR.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

SRC = os.environ.get("MUTATE_SRC", "/repo/src/oemof/solph")
MAP = {
    "flows/_simple_flow_block.py": "C02 C03 C04 C05 C06 C20 C22 C21",
    "flows/_investment_flow_block.py": "C11 C20 C21 C22 C45",
    "flows/_non_convex_flow_block.py": "C07 C08 C09 C05 C22",
    "flows/_invest_non_convex_flow_block.py": "C10 C27 C08 C09",
    "flows/_shared.py": "C21 C07 C08 C09 C10 C05 C22",
    "flows/_flow.py": "C31 C02 C41 C36 C20",
    "buses/_bus.py": "C01 C43 C21",
    "components/_converter.py": "C12 C43",
    "components/_link.py": "C13 C31",
    "components/_extraction_turbine_chp.py": "C14 C31",
    "components/_generic_chp.py": "C15 C31",
    "components/_offset_converter.py": "C16 C40 C31",
    "components/_generic_storage.py": "C17 C18 C19 C45 C23 C48 C31 C20 C21 C29",
    "components/_sink.py": "C31 C01",
    "components/_source.py": "C31 C01",
    "components/experimental/_piecewise_linear_converter.py": "C44 C31",
    "components/experimental/_generic_caes.py": "C44 C31",
    "constraints/equate_flows.py": "C26",
    "constraints/equate_variables.py": "C26",
    "constraints/flow_count_limit.py": "C27",
    "constraints/integral_limit.py": "C24 C22 C31",
    "constraints/investment_limit.py": "C25 C31",
    "constraints/shared_limit.py": "C28",
    "constraints/storage_level.py": "C29 C33",
    "_models.py": "C34 C30 C03 C22 C23 C46 C47 C33",
    "_energy_system.py": "C30 C31 C22 C20",
    "_options.py": "C31 C36 C08",
    "_plumbing.py": "C39 C41",
    "_results.py": "C32 C46 C35",
    "processing.py": "C33 C41 C34 C46",
    "views.py": "C42",
    "helpers.py": "C39",
    "_helpers.py": "C30 C31",
    "_groupings.py": "C43 C36",
}
SWAP = [
    ("minimum", "maximum"), ("inputs", "outputs"), ("inflow", "outflow"),
    ("positive", "negative"), ("startup", "shutdown"),
    ("uptime", "downtime"), ("activity", "inactivity"), ("min", "max"),
    ("input", "output"), ("upper", "lower"), ("lifetime", "age"),
    ("sequences", "scalars"), ("PERIODS", "TIMESTEPS"),
    ("TIMESTEPS", "TIMEPOINTS"), ("existing", "minimum"),
]
CMP = {
    ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"],
    ast.GtE: [">", "<="], ast.Eq: ["!=", "<=", ">="], ast.NotEq: ["=="],
    ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"],
    ast.NotIn: ["in"],
}
BIN = {
    ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"],
    ast.Pow: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["+"],
}


def offsets(text):
    out, pos = [0], 0
    for line in text.splitlines(True):
        pos += len(line.encode())
        out.append(pos)
    return out


def mutants_of(path):
    text = open(path).read()
    raw = text.encode()
    off = offsets(text)
    tree = ast.parse(text)
    docs, skip = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                getattr(n.body[0], "value", None), ast.Constant
            ):
                docs.add(id(n.body[0]))
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom)):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Call) and getattr(
            n.func, "id", getattr(n.func, "attr", "")
        ) in ("warn", "info", "debug", "warning", "format"):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Assign) and getattr(
            n.targets[0], "id", ""
        ) in ("msg", "message", "__all__", "error_message"):
            skip |= {id(x) for x in ast.walk(n)}

    def span(n):
        return (off[n.lineno - 1] + n.col_offset,
                off[n.end_lineno - 1] + n.end_col_offset)

    def src(n):
        a, b = span(n)
        return raw[a:b].decode()

    def put(kind, n, new, node=None):
        a, b = span(n)
        out.append({"kind": kind, "a": a, "b": b, "old": src(n), "new": new,
                    "line": n.lineno})

    out = []
    for n in ast.walk(tree):
        if id(n) in skip or id(n) in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), []):
                put("cmp", n,
                    f"{src(n.left)} {op} {src(n.comparators[0])}")
        elif isinstance(n, ast.BinOp):
            for op in BIN.get(type(n.op), []):
                put("bin", n, f"({src(n.left)} {op} {src(n.right)})")
            if isinstance(n.op, (ast.Mult, ast.Sub, ast.Div)):
                put("value", n.right, f"abs({src(n.right)})")
                put("value", n.right, f"max(0, {src(n.right)})")
                put("value", n.right, f"round({src(n.right)}, 2)")
                put("value", n.right, f"min(4, {src(n.right)})")
                put("value", n.left, f"abs({src(n.left)})")
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                put("drop", n, f"({src(n.left)})")
                if not isinstance(n.op, ast.Sub):
                    put("drop", n, f"({src(n.right)})")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            put("bool", n, "(" + op.join(
                f"({src(v)})" for v in n.values) + ")")
            put("bool", n, f"({src(n.values[0])})")
            put("bool", n, f"({src(n.values[-1])})")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put("not", n, f"({src(n.operand)})")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            put("neg", n, f"({src(n.operand)})")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                put("const", n, str(not n.value))
            elif isinstance(n.value, (int, float)):
                put("const", n, str(n.value + 1))
                if n.value == 1:
                    put("const", n, "0")
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for x, y in SWAP:
                for p, q in ((x, y), (y, x)):
                    parts = n.attr.split("_")
                    if p in parts or n.attr == p:
                        new = "_".join(q if k == p else k for k in parts)
                        put("swap", n, f"{src(n.value)}.{new}")
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            s = n.slice
            if isinstance(s, ast.Name):
                put("index", n, f"{src(n.value)}[0]")
                if s.id in ("t", "p", "timestep", "a", "k"):
                    put("index", n, f"{src(n.value)}[max({s.id} - 1, 0)]")
            elif isinstance(s, ast.Tuple) and len(s.elts) >= 2:
                el = [src(e) for e in s.elts]
                if all(isinstance(e, ast.Name) for e in s.elts[:2]):
                    put("index", n,
                        f"{src(n.value)}[{', '.join([el[1], el[0]] + el[2:])}]")
                if el[-1] in ("t", "p"):
                    put("index", n, f"{src(n.value)}"
                        f"[{', '.join(el[:-1] + ['max(' + el[-1] + ' - 1, 0)'])}]")
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                put("filter", c, "True")
        elif isinstance(n, ast.Return) and n.value is not None:
            put("return", n, "return None")
        elif isinstance(n, ast.If) or isinstance(n, ast.IfExp):
            put("if", n.test, "True")
            put("if", n.test, "False")
        elif isinstance(n, (ast.Expr, ast.AugAssign)):
            put("delete", n, "pass")
        elif isinstance(n, ast.Continue):
            put("delete", n, "pass")
        if isinstance(n, ast.Call) and n.keywords:
            for kw in n.keywords:
                if kw.arg is None:
                    continue
                rest = [src(a) for a in n.args] + [
                    (f"{k.arg}=" if k.arg else "**") + src(k.value)
                    for k in n.keywords if k is not kw
                ]
                put("keyword", n, f"{src(n.func)}({', '.join(rest)})")
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") in (
            "max", "min", "any", "all"
        ):
            other = {"max": "min", "min": "max", "any": "all",
                     "all": "any"}[n.func.id]
            put("call", n.func, other)
    ok = []
    for m in out:
        new = raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]
        try:
            ast.parse(new.decode())
        except SyntaxError:
            continue
        ok.append(m)
    return ok


def write(repo, m):
    path = os.path.join(repo, "src/oemof/solph", m["file"])
    raw = open(os.path.join(SRC, m["file"]), "rb").read()
    with open(path, "wb") as f:
        f.write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])
    return path


def undo(m, path):
    shutil.copy(os.path.join(SRC, m["file"]), path)


def sample(folder, count, seed):
    rng = random.Random(seed)
    pools = {f: mutants_of(os.path.join(SRC, f)) for f in MAP}
    kinds = os.environ.get("KINDS")
    if kinds:
        pools = {f: [m for m in p if m["kind"] in kinds.split()]
                 for f, p in pools.items()}
    total = {f: len(p) for f, p in pools.items()}
    print(total, sum(total.values()))
    weight = {f: total[f] ** 0.75 for f in total if total[f]}
    todo = []
    for f, w in weight.items():
        k = min(total[f], max(3, round(count * w / sum(weight.values()))))
        todo += [dict(m, file=f) for m in rng.sample(pools[f], k)]
    rng.shuffle(todo)
    for i, m in enumerate(todo):
        m["id"] = f"m{seed}_{i}"
    json.dump(todo, open(f"{folder}/mutants.json", "w"), indent=1)
    print(len(todo))


def test(folder, workers=8):
    todo = json.load(open(f"{folder}/mutants.json"))
    repos = []
    for w in range(workers):
        r = f"{folder}/w{w}"
        if not os.path.isdir(r):
            subprocess.run(["cp", "-a", "/repo", r], check=True)
        os.makedirs(f"{folder}/home{w}", exist_ok=True)
        repos.append(r)
    free = list(range(workers))

    def one(m):
        w = free.pop()
        r = repos[w]
        path = write(r, m)
        env = dict(os.environ, HOME=f"{folder}/home{w}", MPLBACKEND="Agg",
                   PYTHONPATH=f"{r}/tests:{r}/src", PYTHONHASHSEED="0",
                   PYTHONDONTWRITEBYTECODE="1",
                   PATH="/opt/venv/bin:/usr/bin:/bin")
        try:
            p = subprocess.run(
                ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p",
                 "no:cacheprovider", "--timeout=100"],
                cwd=r, env=env, capture_output=True, timeout=200,
            )
            m["survives"] = p.returncode == 0
        except subprocess.TimeoutExpired:
            m["survives"] = False
        undo(m, path)
        free.append(w)
        return m

    done = []
    with ThreadPoolExecutor(workers) as ex:
        for m in ex.map(one, todo):
            done.append(m)
            if len(done) % 50 == 0:
                print(len(done), sum(x["survives"] for x in done), flush=True)
    json.dump(done, open(f"{folder}/tested.json", "w"), indent=1)
    print(len(done), sum(x["survives"] for x in done))


def check(folder, workers=2):
    todo = [m for m in json.load(open(f"{folder}/tested.json"))
            if m["survives"]]
    log = f"{folder}/checked.json"
    done = json.load(open(log)) if os.path.exists(log) else []
    have = {m["id"] for m in done}
    for w in range(workers):
        subprocess.run(["cp", "-a", "/verif", f"{folder}/v{w}"], check=True) \
            if not os.path.isdir(f"{folder}/v{w}") else None
    free = list(range(workers))

    def one(m):
        w = free.pop()
        r = f"{folder}/w{w}"
        path = write(r, m)
        m["by"], m["errors"] = None, []
        for prop in MAP[m["file"]].split():
            try:
                p = subprocess.run(
                    ["./check.py", prop], cwd=f"{folder}/v{w}",
                    env=dict(os.environ, VERIF_REPO=r, PYTHONHASHSEED="0"),
                    capture_output=True, text=True, timeout=600,
                )
            except subprocess.TimeoutExpired:
                m["errors"].append(prop)
                continue
            if p.returncode == 1 and "VIOLATION" in p.stdout:
                m["by"] = prop
                lines = p.stdout.splitlines()
                m["how"] = next(
                    (x[:300] for x in lines[1:]), "")
                break
            if p.returncode != 0:
                m["errors"].append([prop, p.returncode, p.stdout[-500:],
                                    p.stderr[-500:]])
        undo(m, path)
        free.append(w)
        return m

    with ThreadPoolExecutor(workers) as ex:
        for m in ex.map(one, [m for m in todo if m["id"] not in have]):
            done.append(m)
            json.dump(done, open(log, "w"), indent=1)
            print(m["id"], m["file"], m["line"], m["kind"],
                  repr(m["old"])[:60], "->", repr(m["new"])[:60], m["by"],
                  "ERR" if m["errors"] else "", flush=True)


if __name__ == "__main__":
    cmd, folder = sys.argv[1:3]
    os.makedirs(folder, exist_ok=True)
    if cmd == "sample":
        sample(folder, int(sys.argv[3]), int(sys.argv[4]))
    else:
        {"test": test, "check": check}[cmd](
            folder, *map(int, sys.argv[3:4]))
