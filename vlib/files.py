"""Readers for the file formats that the library exports to, written from the
format descriptions, and the programmes they describe."""
import re
import numpy as np
from scipy.optimize import linprog


class Malformed(Exception):
    pass


def num(s):
    t = s.strip().lower()
    m = re.fullmatch(r"([+-]?)(inf|infinity)", t)
    if m:
        return -np.inf if m.group(1) == "-" else np.inf
    if not re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)(e[+-]?\d+)?", t):
        raise Malformed(f"not a number: {s!r}")
    return float(t)


class FileLP:
    """max/min c.x + c0; rows (coefficients, sense, rhs); bounds."""

    def __init__(self):
        self.c, self.c0, self.maximise = {}, 0., False
        self.rows, self.bounds = [], {}

    def variables(self):
        out = {}
        for d in [self.c, self.bounds] + [r[0] for r in self.rows]:
            for v in d:
                out.setdefault(v, len(out))
        return out

    def solve(self):
        V = self.variables()
        n = max(1, len(V))
        lb, ub = np.zeros(n), np.full(n, np.inf)
        for v, (l, u) in self.bounds.items():
            lb[V[v]], ub[V[v]] = l, u
        c = np.zeros(n)
        for v, a in self.c.items():
            c[V[v]] += a
        E, e, A, b = [], [], [], []
        for d, s, r in self.rows:
            x = np.zeros(n)
            for v, a in d.items():
                x[V[v]] += a
            if s == "=":
                E.append(x), e.append(r)
            else:
                k = 1. if s == "<=" else -1.
                A.append(k * x), b.append(k * r)
        return solve_lp(c, self.c0, self.maximise, E, e, A, b, lb, ub)


def solve_lp(c, c0, maximise, E, e, A, b, lb, ub):
    if np.any(lb > ub + 1e-9):
        return "infeasible", None
    s = -1. if maximise else 1.
    kw = dict(A_ub=np.array(A) if len(A) else None,
              b_ub=b if len(A) else None,
              A_eq=np.array(E) if len(E) else None,
              b_eq=e if len(E) else None,
              bounds=np.column_stack([lb, np.maximum(lb, ub)]),
              method="highs")
    r = linprog(s * c, **kw)
    if r.status == 4 or r.status == 3 or (r.status == 2):
        f = linprog(0 * c, **kw)
        if f.status == 2:
            return "infeasible", None
        if r.status != 3:
            r = linprog(s * c, options={"presolve": False}, **kw)
    if r.status == 3:
        return "unbounded", None
    if r.status != 0:
        return "other", None
    return "optimal", s * r.fun + c0


TERM = re.compile(r"\s*([+-]?)\s*([+-]?)\s*(\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+"
                  r"(?:[eE][+-]?\d+)?)?\s*([A-Za-z_][\w.\[\]#]*)?")


def linear(s):
    """Terms of a linear expression in LP format: (coefficients, constant)."""
    d, c, i = {}, 0., 0
    s = s.strip()
    first = True
    while i < len(s):
        m = TERM.match(s, i)
        if m is None or m.end() == i or not (m.group(3) or m.group(4)):
            raise Malformed(f"cannot read {s[i:i + 40]!r}")
        if not first and not m.group(1):
            raise Malformed(f"missing operator before {s[i:i + 40]!r}")
        first = False
        v = float(m.group(3)) if m.group(3) else 1.
        for g in (1, 2):
            if m.group(g) == "-":
                v = -v
        if m.group(4):
            d[m.group(4)] = d.get(m.group(4), 0.) + v
        else:
            c += v
        i = m.end()
        while i < len(s) and s[i].isspace():
            i += 1
    return d, c


def read_lp(text):
    P = FileLP()
    sec = None
    for raw in text.split("\n"):
        line = raw.split("\\")[0].strip()
        low = line.lower()
        if not line:
            continue
        if low in ("maximize", "maximise", "max", "minimize", "minimise",
                   "min"):
            P.maximise = low.startswith("max")
            sec = "obj"
            continue
        if low in ("subject to", "such that", "st", "s.t."):
            sec = "rows"
            continue
        if low in ("bounds", "bound"):
            sec = "bounds"
            continue
        if low == "end":
            sec = "end"
            continue
        if sec == "obj":
            if ":" in line:
                line = line.split(":", 1)[1]
            d, c = linear(line)
            for v, a in d.items():
                P.c[v] = P.c.get(v, 0.) + a
            P.c0 += c
        elif sec == "rows":
            if ":" in line:
                line = line.split(":", 1)[1]
            m = re.fullmatch(r"(.*?)(<=|>=|=<|=>|=|<|>)(.*)", line)
            if not m:
                raise Malformed(f"constraint {raw!r}")
            d, c = linear(m.group(1))
            s = {"=<": "<=", "<": "<=", ">": ">=", "=>": ">="}.get(
                m.group(2), m.group(2))
            P.rows.append((d, s, num(m.group(3)) - c))
        elif sec == "bounds":
            ps = [x.strip() for x in re.split(r"(<=|>=|=)", line)]
            if len(ps) == 1:
                m = re.fullmatch(r"(\S+)\s+free", line, re.I)
                if not m:
                    raise Malformed(f"bound {raw!r}")
                P.bounds[m.group(1)] = (-np.inf, np.inf)
                continue
            isname = [bool(re.fullmatch(r"[A-Za-z_][\w.]*", x)) and
                      not re.fullmatch(r"[+-]?(inf|infinity)", x, re.I)
                      for x in ps[::2]]
            if sum(isname) != 1:
                raise Malformed(f"bound {raw!r}")
            k = isname.index(True)
            v = ps[2 * k]
            l, u = P.bounds.get(v, (0., np.inf))
            for j, x in enumerate(ps[::2]):
                if j == k:
                    continue
                op, val = (ps[1], num(x)) if len(ps) == 3 else (
                    ps[2 * min(j, k) + 1], num(x))
                if op == "=":
                    l = u = val
                elif (op == "<=") == (j < k):
                    l = val
                else:
                    u = val
            P.bounds[v] = (l, u)
        else:
            raise Malformed(f"{raw!r} outside of a section")
    if sec != "end":
        raise Malformed("no end")
    return P


def read_mps(text):
    P = FileLP()
    sec, sense, rows, order, obj = None, {}, {}, [], None
    cols, rhs, done = {}, {}, False
    for raw in text.split("\n"):
        if not raw.strip() or raw.startswith("*"):
            continue
        f = raw.split()
        if not raw[0].isspace():
            sec = f[0]
            if sec == "ENDATA":
                done = True
            if sec == "OBJSENSE" and len(f) > 1:
                P.maximise = f[1].upper().startswith("MAX")
            if sec not in ("NAME", "OBJSENSE", "ROWS", "COLUMNS", "RHS",
                           "RANGES", "BOUNDS", "ENDATA"):
                raise Malformed(f"section {raw!r}")
            continue
        if sec == "OBJSENSE":
            P.maximise = f[0].upper().startswith("MAX")
        elif sec == "ROWS":
            if f[1] in sense:
                raise Malformed(f"repeated row {raw!r}")
            sense[f[1]] = f[0]
            if f[0] == "N" and obj is None:
                obj = f[1]
        elif sec == "COLUMNS":
            col = cols.setdefault(f[0], {})
            if len(f) % 2 == 0:
                raise Malformed(raw)
            for r, v in zip(f[1::2], f[2::2]):
                if r not in sense or r in col:
                    raise Malformed(f"row in {raw!r}")
                col[r] = num(v)
        elif sec == "RHS":
            g = f[1:] if len(f) % 2 else f
            for r, v in zip(g[::2], g[1::2]):
                if r not in sense:
                    raise Malformed(f"row in {raw!r}")
                rhs[r] = num(v)
        elif sec == "RANGES":
            raise Malformed("ranges")
        elif sec == "BOUNDS":
            t, v = f[0], f[2]
            if v not in cols:
                raise Malformed(f"bound of an undeclared column {raw!r}")
            l, u = P.bounds.get(v, (0., np.inf))
            if t == "FR":
                l, u = -np.inf, np.inf
            elif t == "MI":
                l = -np.inf
            elif t == "PL":
                u = np.inf
            elif t == "LO":
                l = num(f[3])
            elif t == "UP":
                u = num(f[3])
            elif t == "FX":
                l = u = num(f[3])
            else:
                raise Malformed(raw)
            P.bounds[v] = (l, u)
        else:
            raise Malformed(f"{raw!r} outside of a section")
    if not done:
        raise Malformed("no ENDATA")
    for v in cols:
        P.bounds.setdefault(v, (0., np.inf))
    for r, s in sense.items():
        d = {v: c[r] for v, c in cols.items() if r in c}
        if r == obj:
            P.c, P.c0 = d, -rhs.get(r, 0.)
        else:
            P.rows.append((d, {"E": "=", "G": ">=", "L": "<="}[s],
                           rhs.get(r, 0.)))
    return P


def read_with_mosek(path):
    """The same, as MOSEK understands the file."""
    import mosek
    P = FileLP()
    bk = mosek.boundkey
    with mosek.Task() as t:
        t.readdata(path)
        n, m = t.getnumvar(), t.getnumcon()
        P.maximise = t.getobjsense() == mosek.objsense.maximize
        P.c0 = t.getcfix()
        c = [0.] * n
        t.getc(c)
        P.c = {i: float(c[i]) for i in range(n)}

        def rng(k, l, u):
            return {bk.lo: (l, np.inf), bk.up: (-np.inf, u), bk.fx: (l, l),
                    bk.fr: (-np.inf, np.inf), bk.ra: (l, u)}[k]
        for i in range(n):
            P.bounds[i] = rng(*t.getvarbound(i))
        for j in range(m):
            k = t.getarownumnz(j)
            sub, val = [0] * k, [0.] * k
            t.getarow(j, sub, val)
            l, u = rng(*t.getconbound(j))
            d = {int(i): float(v) for i, v in zip(sub, val)}
            if np.isfinite(l):
                P.rows.append((d, ">=", l))
            if np.isfinite(u):
                P.rows.append((d, "<=", u))
    return P


# -- SDPA ---------------------------------------------------------------------
class FileSDP:
    """Variables x >= ...: sum x_k F_k - F_0 >= 0 (block diagonal)."""


def read_sdpa(text):
    P = FileSDP()
    lines = text.split("\n")
    P.comments = []
    while lines and lines[0][:1] in ('"', "*"):
        P.comments.append(lines.pop(0))

    def ints(s):
        s = s.split("=")[0]
        return [int(x) for x in re.findall(r"[+-]?\d+", s)]
    P.n = ints(lines.pop(0))[0]
    nb = ints(lines.pop(0))[0]
    P.blocks = ints(lines.pop(0))
    if len(P.blocks) != nb:
        raise Malformed(f"{nb} blocks declared, structure {P.blocks}")
    if 0 in P.blocks:
        raise Malformed("empty block")
    obj = lines.pop(0)
    P.c = [num(x) for x in re.split(r"[,\s]+", re.sub(r"[{}()]", " ",
                                                      obj).strip()) if x]
    if len(P.c) != P.n:
        raise Malformed(f"{P.n} variables declared, {len(P.c)} in the "
                        "objective")
    P.entries = []
    seen = set()
    for ln in lines:
        if not ln.strip():
            continue
        f = ln.split()
        if len(f) != 5:
            raise Malformed(f"entry {ln!r}")
        k, b, i, j = (int(x) for x in f[:4])
        v = num(f[4])
        if not (0 <= k <= P.n and 1 <= b <= nb):
            raise Malformed(f"entry {ln!r}: no such variable or block")
        sz = abs(P.blocks[b - 1])
        if not (1 <= i <= sz and 1 <= j <= sz) or (
                P.blocks[b - 1] < 0 and i != j):
            raise Malformed(f"entry {ln!r} outside of its block of size {sz}")
        if (k, b, min(i, j), max(i, j)) in seen:
            raise Malformed(f"entry {ln!r} repeated")
        seen.add((k, b, min(i, j), max(i, j)))
        P.entries.append((k, b - 1, i - 1, j - 1, v))
    return P
