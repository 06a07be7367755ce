"""Development tool: random small changes of the library, which of them the
tests notice and which the checks notice.  Not used by any check.

  mutants.py make N SEED DIR     write N mutants as patches into DIR
  mutants.py tests DIR [JOBS]    drop those that the tests notice
  mutants.py checks DIR [JOBS]   run the checks on the rest
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
FILES = {
    "inflation/InflationProblem.py": "I01 N01 S02 L02 S01 D01",
    "inflation/sdp/InflationSDP.py": "V01 S03 S02 S05 H01 N01 S01 S04 U01 C01 W01 O01",
    "inflation/lp/InflationLP.py": "V01 L02 L03 L01 H01 N01 S03 U01 C01 W02",
    "inflation/sdp/fast_npa.py": "S02 I01 S01 S03 M01",
    "inflation/lp/numbafied.py": "L02 M01",
    "inflation/sdp/sdp_utils.py": "S05 C01 O01",
    "inflation/lp/lp_utils.py": "L03 C01 W02",
    "inflation/sdp/writer_utils.py": "W01",
    "inflation/lp/writer_utils.py": "W02",
    "inflation/sdp/monomial_classes.py": "N01 S03 S02 U01 C01",
    "inflation/lp/monomial_classes.py": "V01 N01 L02 S03 U01 C01",
    "inflation/sdp/monomial_utils.py": "S03 N01 S02",
    "inflation/sdp/quantum_tools.py": "S02 S01 S04 N01 S03",
    "inflation/optimization_utils.py": "O01",
    "inflation/utils.py": "I01 C01 L03 L02 O01",
}
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
        ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not",
        ast.IsNot: "is"}


def points(src):
    """(start, end, replacement) in characters"""
    tree = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda l, c: off[l - 1] + c
    span = lambda n: (pos(n.lineno, n.col_offset),
                      pos(n.end_lineno, n.end_col_offset))
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.If,)):
            t = ast.get_source_segment(src, n.test) or ""
            if "verbose" in t:
                for m in ast.walk(n):
                    skip.add(id(m))
        if isinstance(n, (ast.Raise, ast.Assert, ast.JoinedStr)):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, (ast.FunctionDef,)):
            for a in ast.walk(n.args):
                skip.add(id(a))
            if n.returns:
                for a in ast.walk(n.returns):
                    skip.add(id(a))
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") in (
                "print", "warn", "eprint", "tqdm"):
            for m in ast.walk(n):
                skip.add(id(m))
    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef):
            continue
        for n in ast.walk(f):
            if id(n) in skip or not hasattr(n, "lineno"):
                continue
            s, e = span(n)
            seg = b[s:e].decode()
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                l = pos(n.left.end_lineno, n.left.end_col_offset)
                r = pos(n.comparators[0].lineno, n.comparators[0].col_offset)
                out.append((l, r, f" {SWAP[type(n.ops[0])]} "))
            elif isinstance(n, ast.BinOp) and isinstance(
                    n.op, (ast.Add, ast.Sub, ast.Mult)):
                l = pos(n.left.end_lineno, n.left.end_col_offset)
                r = pos(n.right.lineno, n.right.col_offset)
                if b"\n" in b[l:r] or '"' in seg or "'" in seg:
                    continue
                out.append((l, r, {ast.Add: " - ", ast.Sub: " + ",
                                   ast.Mult: " + "}[type(n.op)]))
            elif isinstance(n, ast.BoolOp):
                l = pos(n.values[0].end_lineno, n.values[0].end_col_offset)
                r = pos(n.values[1].lineno, n.values[1].col_offset)
                t = b[l:r].decode()
                if len(n.values) == 2 and "(" not in t and ")" not in t:
                    out.append((l, r, t.replace("and", "OR").replace(
                        "or", "and").replace("OR", "or")))
                    # one of the conditions only
                    i = random.randrange(2)
                    out.append((s, e, ast.get_source_segment(
                        src, n.values[i])))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                out.append((s, e, "(" + ast.get_source_segment(
                    src, n.operand) + ")"))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                out.append((s, e, ast.get_source_segment(src, n.operand)))
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                out.append((s, e, str(not n.value)))
            elif isinstance(n, ast.Constant) and type(n.value) in (
                    int, float) and n.value in (0, 1, 2, -1):
                out.append((s, e, str(n.value + 1)))
                if n.value:
                    out.append((s, e, str(n.value - 1)))
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr == "copy" \
                    and not n.args:
                out.append((s, e, ast.get_source_segment(src, n.func.value)))
            elif isinstance(n, ast.Call) and getattr(
                    n.func, "id", "") in ("sorted", "set", "abs", "float") \
                    and len(n.args) == 1 and not n.keywords:
                out.append((s, e, ast.get_source_segment(src, n.args[0])))
            elif isinstance(n, ast.Slice) and n.lower is not None \
                    and n.upper is None:
                out.append((s, e, ":"))
            elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Continue,
                                ast.Break, ast.Delete)) and not (
                    isinstance(n, ast.Expr)
                    and isinstance(n.value, ast.Constant)):
                out.append((s, e, "pass"))
            elif isinstance(n, ast.IfExp):
                out.append((s, e, "(" + ast.get_source_segment(
                    src, n.body) + ")"))
                out.append((s, e, "(" + ast.get_source_segment(
                    src, n.orelse) + ")"))
    return b, out


def make(n, seed, d):
    random.seed(seed)
    os.makedirs(d, exist_ok=True)
    pool = []
    for f in FILES:
        src = open(f"{REPO}/{f}").read()
        b, out = points(src)
        pool += [(f, p) for p in out]
    # as many from each file as the square root of its size
    by = {}
    for f, p in pool:
        by.setdefault(f, []).append(p)
    w = {f: len(v) ** .5 for f, v in by.items()}
    done = 0
    while done < n:
        f = random.choices(list(w), list(w.values()))[0]
        s, e, new = random.choice(by[f])
        b = open(f"{REPO}/{f}", "rb").read()
        m = b[:s] + new.encode() + b[e:]
        if m == b:
            continue
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        line = b[:s].count(b"\n") + 1
        k = f"m{seed}_{done:03d}"
        json.dump({"file": f, "line": line, "old": b[s:e].decode(),
                   "new": new, "s": s, "e": e,
                   "text": b.splitlines()[line - 1].decode().strip()},
                  open(f"{d}/{k}.json", "w"))
        done += 1


def copy(k, info):
    w = f"/tmp/mut_{k}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", REPO, w], check=True)
    p = f"{w}/{info['file']}"
    b = open(p, "rb").read()
    assert b[info["s"]:info["e"]].decode() == info["old"], k
    open(p, "wb").write(b[:info["s"]] + info["new"].encode() + b[info["e"]:])
    return w


def each(d, jobs, fn, want):
    ks = sorted(x[:-5] for x in os.listdir(d) if x.endswith(".json"))

    def go(k):
        info = json.load(open(f"{d}/{k}.json"))
        if not want(info):
            return
        w = copy(k, info)
        try:
            fn(k, info, w)
        except Exception as e:
            info["error"] = str(e)[:300]
        finally:
            shutil.rmtree(w, ignore_errors=True)
        json.dump(info, open(f"{d}/{k}.json", "w"))
        print(k, info["file"], info["line"], repr(info["old"][:40]), "->",
              repr(info["new"][:40]), "|", info.get("tests"),
              info.get("caught"), flush=True)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(go, ks))


def tests(k, info, w):
    base = json.load(open("/opt/vp/BASELINE.json"))
    key = next(x for x in ("passed", "stable", "pass") if x in base)
    out = f"/tmp/mut_{k}.json"
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               NUMBA_CACHE_DIR=f"{w}/.nb", PYTHONPATH=w)
    ids = sorted(base[key])
    nodes = []
    for t in ids:
        mod, name = t.rsplit("::", 1)
        parts = mod.split(".")
        nodes.append("/".join(parts[:2]) + ".py::" + parts[2] + "::" + name)
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q",
                        "-p", "no:cacheprovider"] + nodes, cwd=w, env=env,
                       capture_output=True, text=True, timeout=600)
    info["tests"] = "pass" if r.returncode == 0 else "fail"


def checks(k, info, w):
    env = dict(os.environ, VERIF_REPO=w, VERIF_WORKERS="4",
               VERIF_EVIDENCE=f"/tmp/mut_ev_{k}")
    info["caught"], info["ran"] = None, []
    for p in FILES[info["file"]].split():
        r = subprocess.run(["/verif/run.py", p, "--budget", "40"], env=env,
                           capture_output=True, text=True, timeout=600)
        info["ran"].append((p, r.returncode))
        if r.returncode:
            info["caught"] = p
            m = re.findall(r"mechanism: (.*)", r.stdout)
            info["mech"] = m[:2]
            return


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "make":
        make(int(a[1]), int(a[2]), a[3])
    elif a[0] == "tests":
        each(a[1], int(a[2]) if len(a) > 2 else 4, tests,
             lambda i: "tests" not in i)
    elif a[0] == "checks":
        each(a[1], int(a[2]) if len(a) > 2 else 2, checks,
             lambda i: i.get("tests") == "pass" and "caught" not in i)
