"""Driver: runs the instrumented harness along every feasible path, decides path conditions and obligations with an
SMT solver, replays counterexamples on a plain build of the same sources."""
import math, os, re, subprocess, sys, time, hashlib, random, tempfile, shutil, json
from fractions import Fraction
import numpy as np

np.seterr(all="ignore")
Z3 = os.environ.get("SE_Z3", "/usr/local/bin/z3-new")
FUN2 = {"pow", "atan2", "fmod", "remainder", "hypot"}
NPF = {"exp": np.exp, "log": np.log, "sin": np.sin, "cos": np.cos, "tan": np.tan, "asin": np.arcsin, "acos": np.arccos,
       "atan": np.arctan, "exp2": np.exp2, "log10": np.log10, "log2": np.log2, "sinh": np.sinh, "cosh": np.cosh,
       "tanh": np.tanh, "expm1": np.expm1, "log1p": np.log1p, "pow": np.power, "atan2": np.arctan2, "fmod": np.fmod,
       "remainder": np.remainder, "hypot": np.hypot}
MARGIN = 1e-6


class Ev(tuple):
    """a comparison event with a simplified form attached"""
    s = None


class Rec:
    """One path: expression DAG and event list."""

    def __init__(self, path):
        self.path = path
        self.nodes, self.order, self.vars, self.ev, self.obl = {}, [], {}, [], []
        self.funcs, self.reach, self.status, self.conc = [], [], "none", 0
        with open(path) as f:
            for line in f:
                p = line.split()
                if not p:
                    continue
                t = p[0]
                if t == "n":
                    i = int(p[1])
                    if p[2] == "c":
                        self.nodes[i] = ("c", 0, 0, float.fromhex(p[3]))
                    elif p[2] == "v":
                        self.nodes[i] = ("v", 0, 0, float.fromhex(p[6]))
                        self.vars[i] = (p[3], float.fromhex(p[4]), float.fromhex(p[5]))
                    else:
                        self.nodes[i] = (p[2], int(p[3]), int(p[4]), float.fromhex(p[5]))
                    self.order.append(i)
                elif t == "B":
                    self.ev.append(("B", p[1], int(p[2]), int(p[3]), int(p[4])))
                elif t == "I":
                    self.ev.append(("I", int(p[1]), int(p[2])))
                elif t == "C":
                    self.ev.append(("C", p[1], int(p[2]), int(p[3])))
                elif t == "A":
                    self.ev.append(("A", p[1], int(p[2]), int(p[3])))
                elif t in "ZN" and len(t) == 1:
                    self.ev.append((t, int(p[1])))
                elif t == "O":
                    what = " ".join(p[5:])
                    self.ev.append(("O", len(self.obl)))
                    self.obl.append((p[1], int(p[2]), int(p[3]), float.fromhex(p[4]), what, len(self.ev) - 1))
                elif t == "R":
                    self.reach.append(" ".join(p[1:]))
                elif t == "F":
                    self.funcs.append(p[1])
                elif t == "K":
                    self.conc = int(p[1])
                elif t == "END":
                    self.status = " ".join(p[1:])
        self.decs = [(k, e) for k, e in enumerate(self.ev) if e[0] in "BIC"]

    polyexe = None
    _simp = False

    def simplify(self):
        """replace comparisons of non-affine terms by the sign of a cancelled polynomial, where the normaliser finds a small one"""
        if self._simp or not self.polyexe:
            return
        self._simp = True
        L = linear(self)
        want = sorted({(e[2], e[3]) for e in self.ev if e[0] in "BA" and len(e) > 3 and not (L[e[2]] and L[e[3]])})
        if not want:
            return
        cf = self.path + ".cond"
        try:
            if os.path.exists(cf):
                txt = open(cf).read()
            else:
                txt = subprocess.run([self.polyexe, self.path, "conds"] + ["%d,%d" % w for w in want], stdout=subprocess.PIPE,
                                     stderr=subprocess.DEVNULL, text=True, env=dict(os.environ, POLY_TMAX="15"), timeout=40).stdout
                with open(cf + str(os.getpid()), "w") as f:
                    f.write(txt)
                os.rename(cf + str(os.getpid()), cf)
        except Exception:
            return
        S = {}
        for line in txt.splitlines():
            p = line.split()
            if not p or p[0] != "K":
                continue
            ts, ids, lin = [], set(), True
            for t in p[3:]:
                fs = t.split("*")
                mul = [q(Fraction(fs[0]))]
                deg = 0
                for x in fs[1:]:
                    n, k = x.split("^")
                    ids.add(int(n))
                    mul += ["t" + n] * int(k)
                    deg += int(k)
                    lin = lin and self.nodes[int(n)][0] == "v"
                lin = lin and deg <= 1
                ts.append(mul[0] if len(mul) == 1 else "(* %s)" % " ".join(mul))
            S[(int(p[1]), int(p[2]))] = ("(+ 0.0 %s)" % " ".join(ts) if ts else "0.0", sorted(ids), lin)
        for k, e in enumerate(self.ev):
            if e[0] in "BA" and len(e) > 3 and (e[2], e[3]) in S:
                x = Ev(e)
                x.s = S[(e[2], e[3])]
                self.ev[k] = x
        self.decs = [(k, e) for k, e in enumerate(self.ev) if e[0] in "BIC"]

    def decvalue(self, e):
        return e[4] if e[0] == "B" else e[2] if e[0] == "I" else e[3]

    def seeds(self):
        return {self.vars[i][0]: self.nodes[i][3] for i in self.vars}


# ---- vectorised evaluation --------------------------------------------------------------------------------------
def evaluate(rec, X):
    """X: dict var id -> array; returns dict id -> array."""
    V = {}
    for i in rec.order:
        op, a, b, val = rec.nodes[i]
        if op == "c":
            V[i] = np.float64(val)
        elif op == "v":
            V[i] = X[i]
        elif op == "+":
            V[i] = V[a] + V[b]
        elif op == "-":
            V[i] = V[a] - V[b]
        elif op == "*":
            V[i] = V[a] * V[b]
        elif op == "/":
            V[i] = V[a] / V[b]
        elif op == "~":
            V[i] = -V[a]
        elif op == "sqrt":
            V[i] = np.sqrt(V[a])
        elif op == "cbrt":
            V[i] = np.cbrt(V[a])
        elif op in FUN2:
            V[i] = NPF[op](V[a], V[b])
        elif op in NPF:
            V[i] = NPF[op](V[a])
        else:
            V[i] = V[a] * np.nan
    return V


def samples(rec, M, rng):
    X = {}
    for i, (name, lo, hi) in rec.vars.items():
        s = rec.nodes[i][3]
        w = hi - lo
        u = lo + w * rng.random(M)
        near = np.clip(s + w * rng.standard_normal(M) * 10.0 ** rng.uniform(-4, -0.3, M), lo, hi)
        X[i] = (u, near, s, lo, hi)
    mode = rng.integers(0, 10, M)
    out = {}
    keep = rng.random(M)
    zero = rng.random(M) < 0.15
    for i, (u, near, s, lo, hi) in X.items():
        r = np.where(mode < 3, u, near)
        # some samples move only a few coordinates
        stay = (mode >= 6) & (rng.random(M) < keep)
        r = np.where(stay, s, r)
        edge = (mode == 9) & (rng.random(M) < 0.3)
        r = np.where(edge, np.where(rng.random(M) < 0.5, lo, hi), r)
        r = np.where(zero & (rng.random(M) < 0.6) & (lo <= 0 <= hi), 0.0, r)
        r[0] = s
        out[i] = r
    return out


def holds(e, V, M):
    k = e[0]
    if k == "B":
        a, b = V[e[2]], V[e[3]]
        r = (a < b) if e[1] == "<" else (a == b)
        return r if e[4] else ~r & ~np.isnan(a + b)
    if k == "A":
        a, b = V[e[2]], V[e[3]]
        return a <= b if e[1] == "<=" else a < b if e[1] == "<" else a == b if e[1] == "=" else a != b
    if k == "I":
        return np.floor(V[e[1]]) == e[2]
    if k == "Z":
        return V[e[1]] != 0
    if k == "N":
        return V[e[1]] >= 0
    return np.ones(M, bool)


# ---- SMT-LIB ----------------------------------------------------------------------------------------------------
def q(x):
    f = Fraction(x)
    n, d = f.numerator, f.denominator
    s = str(abs(n)) + ".0" if d == 1 else "(/ %d.0 %d.0)" % (abs(n), d)
    return "(- %s)" % s if n < 0 else s


def cone(rec, ids):
    seen, st = set(), list(ids)
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        op, a, b, v = rec.nodes[i]
        if op in "cv":
            continue
        st.append(a)
        if op in "+-*/" or op in FUN2:
            st.append(b)
    return seen


def encode(rec, ids):
    out = []
    for i in sorted(cone(rec, ids)):
        op, a, b, v = rec.nodes[i]
        if op == "c":
            if math.isfinite(v):
                out.append("(define-fun t%d () Real %s)" % (i, q(v)))
            else:
                out.append("(declare-const t%d Real)" % i)
        elif op == "v":
            n, lo, hi = rec.vars[i]
            out.append("(declare-const t%d Real)(assert (and (<= %s t%d) (<= t%d %s)))" % (i, q(lo), i, i, q(hi)))
        elif op in ("+", "-", "*"):
            out.append("(define-fun t%d () Real (%s t%d t%d))" % (i, op, a, b))
        elif op == "~":
            out.append("(define-fun t%d () Real (- t%d))" % (i, a))
        elif op == "/":
            if rec.nodes[b][0] == "c" and rec.nodes[b][3] != 0 and math.isfinite(rec.nodes[b][3]):
                out.append("(define-fun t%d () Real (/ t%d t%d))" % (i, a, b))
            else:
                out.append("(declare-const t%d Real)(assert (= (* t%d t%d) t%d))" % (i, i, b, a))
        elif op == "sqrt":
            out.append("(declare-const t%d Real)(assert (and (>= t%d 0.0) (= (* t%d t%d) t%d)))" % (i, i, i, i, a))
        elif op == "cbrt":
            out.append("(declare-const t%d Real)(assert (= (* t%d t%d t%d) t%d))" % (i, i, i, i, a))
        else:
            out.append("(declare-const t%d Real)" % i)
            if op in ("sin", "cos", "tanh", "erf"):
                out.append("(assert (and (<= (- 1.0) t%d) (<= t%d 1.0)))" % (i, i))
            if op in ("exp", "exp2", "cosh"):
                out.append("(assert (> t%d 0.0))" % i)
            if op == "acos":
                out.append("(assert (and (<= 0.0 t%d) (<= t%d 3.1415926535898)))" % (i, i))
    return out


def encode_opaque(rec, ids):
    out = []
    L = linear(rec)
    lin = [i for i in ids if L[i]]
    done = cone(rec, lin)
    out += encode(rec, lin)
    for i in sorted(set(ids) - done):
        out.append("(declare-const t%d Real)" % i)
        if rec.nodes[i][0] == "sqrt":
            out.append("(assert (>= t%d 0.0))" % i)
    return out


def evsmt(e, neg=False):
    k = e[0]
    sf = getattr(e, "s", None)
    if sf and e[1] != "!":
        f = "(%s %s 0.0)" % (e[1], sf[0])
        t = e[4] if k == "B" else 1
    elif k == "B":
        f = "(%s t%d t%d)" % (e[1], e[2], e[3])
        t = e[4]
    elif k == "A":
        f = "(%s t%d t%d)" % (e[1], e[2], e[3]) if e[1] != "!" else "(distinct t%d t%d)" % (e[2], e[3])
        t = 1
    elif k == "I":
        f = "(and (<= %s t%d) (< t%d %s))" % (q(e[2]), e[1], e[1], q(e[2] + 1))
        t = 1
    elif k == "Z":
        f = "(distinct t%d 0.0)" % e[1]
        t = 1
    elif k == "N":
        f = "(>= t%d 0.0)" % e[1]
        t = 1
    else:
        return None
    if neg:
        t = 1 - t
    return f if t else "(not %s)" % f


def evids(e):
    k = e[0]
    sf = getattr(e, "s", None)
    if sf and e[1] != "!":
        return sf[1]
    if k in "BA":
        return [e[2], e[3]]
    if k in "IZN":
        return [e[1]]
    return []


def parse_val(s):
    s = s.strip()
    toks = re.findall(r"[()]|[^\s()]+", s)
    pos = 0

    def p():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t != "(":
            return Fraction(t.rstrip("?"))
        op = toks[pos]
        pos += 1
        args = []
        while toks[pos] != ")":
            args.append(p())
        pos += 1
        if op == "-":
            return -args[0] if len(args) == 1 else args[0] - args[1]
        if op == "/":
            return args[0] / args[1]
        if op == "+":
            return sum(args)
        if op == "*":
            return args[0] * args[1]
        raise ValueError(op)

    return p()


class Stats:
    def __init__(self):
        self.d = {"queries": 0, "sat": 0, "unsat": 0, "unknown": 0, "solver_s": 0.0, "normal_form": 0}


def smt(lines, tmo, stats, want=None, logic="QF_NRA"):
    """returns ('unsat',None) | ('sat',{id:Fraction}) | ('unknown',None)"""
    txt = ["(set-option :pp.decimal true)", "(set-option :pp.decimal_precision 25)"]
    if logic:
        txt.append("(set-logic %s)" % logic)
    txt += lines
    txt.append("(check-sat)")
    if want:
        txt.append("(get-value (%s))" % " ".join("t%d" % i for i in want))
    t0 = time.time()
    stats.d["queries"] += 1
    try:
        r = subprocess.run([Z3, "-in", "-memory:3000", "-T:%d" % max(1, int(tmo))], input="\n".join(txt), text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=tmo + 5).stdout
    except subprocess.TimeoutExpired:
        r = "timeout"
    stats.d["solver_s"] += time.time() - t0
    head = r.split("\n", 1)[0].strip()
    if head == "unsat":
        stats.d["unsat"] += 1
        return "unsat", None
    if head == "sat":
        body = r.split("\n", 1)[1] if "\n" in r else ""
        m = {}
        if want:
            if "(error" in body:
                stats.d["unknown"] += 1
                return "unknown", None
            for k, v in re.findall(r"\(t(\d+)\s+((?:[^()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))+?)\)(?=\s|\)|$)", body):
                try:
                    m[int(k)] = parse_val(v)
                except Exception:
                    pass
        stats.d["sat"] += 1
        return "sat", m
    stats.d["unknown"] += 1
    return "unknown", None


def relevant(rec, conds, ids):
    """cone of influence: keep only the conditions that share inputs (transitively) with ids"""
    vs = lambda l: {i for i in cone(rec, l) if rec.nodes[i][0] == "v"}
    cur = vs(ids)
    rest = [(e, vs(evids(e))) for e in conds if evids(e)]
    keep = []
    ch = True
    while ch:
        ch = False
        nr = []
        for e, s in rest:
            if s & cur or not s:
                keep.append(e)
                if not s <= cur:
                    cur |= s
                ch = True
            else:
                nr.append((e, s))
        rest = nr
    return keep


def linear(rec):
    """node id -> True when it is an affine function of the inputs by construction"""
    if getattr(rec, "_lin", None) is None:
        L, Cn = {}, {}
        for i in rec.order:
            op, a, b, v = rec.nodes[i]
            if op in "cv":
                L[i], Cn[i] = True, op == "c"
            elif op in "+-":
                L[i], Cn[i] = L[a] and L[b], Cn[a] and Cn[b]
            elif op == "~":
                L[i], Cn[i] = L[a], Cn[a]
            elif op == "*":
                L[i], Cn[i] = L[a] and L[b] and (Cn[a] or Cn[b]), Cn[a] and Cn[b]
            elif op == "/":
                L[i], Cn[i] = L[a] and Cn[b], Cn[a] and Cn[b]
            else:
                L[i], Cn[i] = False, False
        rec._lin = L
    return rec._lin


def query_unsat_first(rec, conds, extra, ids, tmo, stats, ev=None):
    """a refutation from the affine conditions alone is sound and cheap"""
    L = linear(rec)
    isl = lambda e: e.s[2] if getattr(e, "s", None) else all(L[i] for i in evids(e))
    if (isl(ev) if ev else all(L[i] for i in ids)):
        lc = [e for e in conds if isl(e)]
        if len(lc) < len(conds):
            r, m = query(rec, lc, extra, ids, min(tmo, 5), stats)
            if r == "unsat":
                return r, m
    if (ev is not None and getattr(ev, "s", None)) and any(rec.nodes[i][0] not in "cv" for i in ids):
        # roots and other atoms as opaque reals: sound for unsat
        lc = [e for e in conds if getattr(e, "s", None) or isl(e)]
        r, m = query(rec, lc, extra, ids, min(tmo, 5), stats, opaque=True)
        if r == "unsat":
            return r, m
    return query(rec, conds, extra, ids, tmo, stats)


def query(rec, conds, extra, extra_ids, tmo, stats, fix=None, slice_=True, opaque=False):
    """is (conds and extra) satisfiable; fix: {var id: Fraction}"""
    if slice_ and fix is None:
        conds = relevant(rec, conds, extra_ids)
    ids = set(extra_ids)
    for e in conds:
        ids.update(evids(e))
    if fix:
        ids.update(fix)
    lines = encode(rec, ids) if not opaque else encode_opaque(rec, ids)
    for e in conds:
        s = evsmt(e)
        if s:
            lines.append("(assert %s)" % s)
    lines += ["(assert %s)" % s for s in extra]
    if fix:
        lines += ["(assert (= t%d %s))" % (i, q(v)) for i, v in fix.items()]
    want = [i for i in sorted(cone(rec, ids)) if rec.nodes[i][0] == "v"] if not opaque else []
    r, m = smt(lines, tmo, stats, want)
    return r, m


def seeds_from(rec, m, base=None):
    s = dict(base or rec.seeds())
    for i, v in (m or {}).items():
        if i in rec.vars:
            s[rec.vars[i][0]] = float(v)
    return s


# ---- one path ---------------------------------------------------------------------------------------------------
def run_bin(exe, case, seeds, prefix, out, tmo, env=None):
    inp = out + ".in"
    with open(inp, "w") as f:
        for k, v in seeds.items():
            f.write("s %s %s\n" % (k, float(v).hex()))
        for k, v in prefix:
            f.write("p %s %d\n" % (k, v))
    try:
        subprocess.run([exe, case, inp, out, str(tmo)], timeout=tmo + 20, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, cwd=os.path.dirname(out), env=dict(os.environ, **env) if env else None)
    except subprocess.TimeoutExpired:
        pass
    try:
        os.remove(inp)
    except OSError:
        pass


def conds_before(rec, k):
    return [e for e in rec.ev[:k] if e[0] in "BAIZN"]


def itv_eval(rec, refine_conds):
    """interval evaluation with simple bounds from comparisons against constants"""
    ref = {}

    def below(a, b):
        if rec.nodes[a][0] == "c":
            lo, hi = ref.get(b, (-math.inf, math.inf))
            ref[b] = (max(lo, rec.nodes[a][3]), hi)
        if rec.nodes[b][0] == "c":
            lo, hi = ref.get(a, (-math.inf, math.inf))
            ref[a] = (lo, min(hi, rec.nodes[b][3]))

    for e in refine_conds:
        if e[0] == "A":
            if e[1][0] == "<":
                below(e[2], e[3])
            elif e[1] == "=":
                below(e[2], e[3]); below(e[3], e[2])
        elif e[0] == "B":
            if e[1] == "<":
                below(e[2], e[3]) if e[4] else below(e[3], e[2])
            elif e[4]:
                below(e[2], e[3]); below(e[3], e[2])
        elif e[0] == "I":
            lo, hi = ref.get(e[1], (-math.inf, math.inf))
            ref[e[1]] = (max(lo, e[2]), min(hi, e[2] + 1))
    I = {}
    inf = math.inf

    def out(lo, hi):
        if lo != lo:
            lo = -inf
        if hi != hi:
            hi = inf
        return (lo - 1e-12 * abs(lo) if abs(lo) < inf else lo, hi + 1e-12 * abs(hi) if abs(hi) < inf else hi)

    def m(x, y):
        return 0.0 if x == 0 or y == 0 else x * y

    for i in rec.order:
        op, a, b, v = rec.nodes[i]
        if op == "c":
            r = (v, v) if v == v else (-inf, inf)
        elif op == "v":
            r = rec.vars[i][1:]
        elif op == "+":
            r = out(I[a][0] + I[b][0], I[a][1] + I[b][1])
        elif op == "-":
            r = out(I[a][0] - I[b][1], I[a][1] - I[b][0])
        elif op == "~":
            r = (-I[a][1], -I[a][0])
        elif op == "*":
            p = [m(x, y) for x in I[a] for y in I[b]]
            r = out(min(p), max(p))
            if a == b:
                r = (max(0.0, r[0]), r[1])
                if I[a][0] <= 0 <= I[a][1]:
                    r = (0.0, r[1])
        elif op == "/":
            lo, hi = I[b]
            if lo > 0 or hi < 0:
                p = [m(x, y) for x in I[a] for y in (1 / lo, 1 / hi)]
                r = out(min(p), max(p))
            else:
                r = (-inf, inf)
        elif op == "sqrt":
            r = out(math.sqrt(max(0.0, I[a][0])), math.sqrt(max(0.0, I[a][1])) if I[a][1] < inf else inf)
            r = (max(0.0, r[0]), r[1])
        elif op == "cbrt":
            r = out(float(np.cbrt(I[a][0])), float(np.cbrt(I[a][1])))
        elif op in ("sin", "cos", "tanh", "erf"):
            r = (-1.0, 1.0)
        elif op == "exp":
            r = (0.0, out(0, float(np.exp(I[a][1])))[1])
        elif op == "acos":
            r = (0.0, 3.1415926535898)
        else:
            r = (-inf, inf)
        if i in ref:
            r = (max(r[0], ref[i][0]), min(r[1], ref[i][1]))
        I[i] = r
    return I


# ---- Taylor models ----------------------------------------------------------------------------------------------
class Taylor:
    """enclosures p(x) + [-r, r] of nodes, x: the inputs scaled to [-1, 1]; p of degree 8 in one input, of degree 2 in up to 48"""

    def __init__(self, rec, limit=200000):
        self.rec, self.limit, self.T = rec, limit, {}
        self.vars = list(rec.vars)
        self.n = len(self.vars)
        self.one = self.n == 1
        self.ok = 1 <= self.n <= 48 and all(math.isfinite(lo) and math.isfinite(hi) for _, lo, hi in rec.vars.values())
        self.K = 8 if self.one else 2
        if self.ok and not self.one:
            n = self.n
            self.iu = np.triu_indices(n)
            self.len = 1 + n + len(self.iu[0])

    def const(self, v):
        c = np.zeros(self.K + 1 if self.one else self.len)
        c[0] = v
        return c, 0.0

    def bound(self, t):
        c, r = t
        s = float(np.abs(c[1:]).sum()) + r
        return c[0] - s, c[0] + s

    def mag(self, t):
        return float(np.abs(t[0]).sum()) + t[1]

    def add(self, a, b, s=1):
        c = a[0] + s * b[0]
        return c, a[1] + b[1] + 4e-16 * float(np.abs(c).sum())

    def scale(self, a, k):
        c = a[0] * k
        return c, a[1] * abs(k) + 4e-16 * float(np.abs(c).sum())

    def mul(self, a, b):
        A, B = float(np.abs(a[0]).sum()), float(np.abs(b[0]).sum())
        if self.one:
            f = np.convolve(a[0], b[0])
            c = f[:self.K + 1].copy()
            cut = float(np.abs(f[self.K + 1:]).sum())
        else:
            n = self.n
            la, lb = a[0][1:n + 1], b[0][1:n + 1]
            qa, qb = a[0][n + 1:], b[0][n + 1:]
            o = np.outer(la, lb)
            o = o + o.T
            o[np.diag_indices(n)] *= 0.5
            c = np.concatenate(([a[0][0] * b[0][0]], a[0][0] * lb + b[0][0] * la, a[0][0] * qb + b[0][0] * qa + o[self.iu]))
            La, Lb, Qa, Qb = (float(np.abs(x).sum()) for x in (la, lb, qa, qb))
            cut = La * Qb + Qa * Lb + Qa * Qb
        return c, cut * (1 + 1e-12) + A * b[1] + B * a[1] + a[1] * b[1] + 1e-14 * A * B

    def series(self, a, coef, rem):
        """sum of coef[k] d^k with d = a/c0 - 1, |d| <= q < 1; rem(q) bounds the tail"""
        c0 = a[0][0]
        d = self.scale(a, 1.0 / c0)
        d[0][0] = 0.0
        d = (d[0], d[1] + 1e-15)
        qd = self.mag(d)
        if not qd < 0.9:
            return None
        t = self.const(coef[-1])
        for k in range(len(coef) - 2, -1, -1):
            t = self.mul(t, d)
            t[0][0] += coef[k]
            t = (t[0], t[1] + 4e-16 * abs(t[0][0]))
        return t[0], t[1] + rem(qd) * (1 + 1e-9)

    def inv(self, a):
        lo, hi = self.bound(a)
        if not (lo > 0 or hi < 0):
            return None
        N = 14
        t = self.series(a, [(-1.0) ** k for k in range(N + 1)], lambda q_: q_ ** (N + 1) / (1 - q_))
        return self.scale(t, 1.0 / a[0][0]) if t else None

    def sqrt(self, a):
        lo, hi = self.bound(a)
        if not lo > 0:
            return None
        N, cs, c = 14, [], 1.0
        for k in range(N + 1):
            cs.append(c)
            c *= (0.5 - k) / (k + 1)
        t = self.series(a, cs, lambda q_: 0.5 * q_ ** (N + 1) / (1 - q_))
        return self.scale(t, math.sqrt(a[0][0])) if t else None

    def box(self, lo, hi):
        if not (math.isfinite(lo) and math.isfinite(hi)):
            return None
        m = 0.5 * (lo + hi)
        t = self.const(m)
        return t[0], max(hi - m, m - lo) * (1 + 1e-12) + 1e-300

    def eval(self, ids):
        if not self.ok:
            return False
        need = [i for i in cone(self.rec, ids) if i not in self.T]
        if len(need) > self.limit / (1 if self.one else max(1, self.n / 8)):
            return False
        T = self.T
        if not hasattr(self, "I"):
            self.I = itv_eval(self.rec, [])
        for i in sorted(need):
            op, a, b, v = self.rec.nodes[i]
            r = None
            if op == "c":
                r = self.const(v) if math.isfinite(v) else None
            elif op == "v":
                _, lo, hi = self.rec.vars[i]
                r = self.const(0.5 * (lo + hi))
                r[0][1 + self.vars.index(i)] = 0.5 * (hi - lo)
                r = (r[0], 4e-16 * (abs(lo) + abs(hi)))
            else:
                A, B = T.get(a), T.get(b)
                if op in "+-" and A and B:
                    r = self.add(A, B, 1 if op == "+" else -1)
                elif op == "~" and A:
                    r = (-A[0], A[1])
                elif op == "*" and A and B:
                    r = self.mul(A, B)
                elif op == "/" and A and B:
                    r = self.inv(B)
                    r = self.mul(A, r) if r else None
                elif op == "sqrt" and A:
                    r = self.sqrt(A)
            if r is None or not math.isfinite(r[1]) or not np.isfinite(r[0]).all():
                r = self.box(*self.I[i])
            T[i] = r
        return True

    def diff(self, a, b):
        """bounds of a - b"""
        if not self.eval([a, b]) or not self.T[a] or not self.T[b]:
            return None
        return self.add(self.T[a], self.T[b], -1)

    def form(self, t):
        """as bounded monomials for the solver"""
        n, ts = self.n, []
        for k, c in enumerate(t[0]):
            if c == 0:
                continue
            if k == 0:
                ts.append((Fraction(float(c)), 1.0, 1.0, "1"))
                continue
            if self.one:
                even = k % 2 == 0
            else:
                even = k > n and self.iu[0][k - n - 1] == self.iu[1][k - n - 1]
            ts.append((Fraction(float(c)), 0.0 if even else -1.0, 1.0, "x%d" % k))
        return {"t": ts, "rest": t[1]}


def taylor(rec):
    if getattr(rec, "_tm", None) is None:
        rec._tm = Taylor(rec)
    return rec._tm


def pairs(polyexe, rec, want, total=120):
    """bounds of a-b by normal form for each (a, b, event number); bounds established by assumptions that precede it are used"""
    at = [o[5] for o in rec.obl]
    args, res = [], [(-math.inf, math.inf)] * len(want)
    for a, b, k in want:
        args.append("%d,%d,%d" % (a, b, sum(1 for x in at if x < k)))
    for s in range(0, len(args), 500):
        try:
            out = subprocess.run([polyexe, rec.path, "pairs"] + args[s:s + 500], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                 text=True, env=dict(os.environ, POLY_TMAX=str(min(6, total))), timeout=total).stdout
        except subprocess.TimeoutExpired as ex:
            out = ex.stdout or ""
            out = out.decode() if isinstance(out, bytes) else out
        for l in out.splitlines():
            r = l.split()
            if len(r) == 4 and r[0] == "V":
                res[s + int(r[1])] = (float(r[2]), float(r[3]))
    return res


def implied(e, la, ha, lb, hb):
    if e[1] == "<":
        return e[4] and ha < lb or (not e[4]) and la >= hb
    if not e[4]:
        return ha < lb or hb < la
    return la == ha == lb == hb


def expand(rec, plen, opts, rng, stats, polyexe=None):
    """flips of every decision after the first plen; returns list of (seeds, prefix), undecided descriptions"""
    new, und = [], []
    decs = [(k, e) for k, e in rec.decs]
    if len(decs) <= plen:
        return new, und
    M = opts.get("samples", 400)
    X = samples(rec, M, rng)
    V = evaluate(rec, X)
    mask = np.ones(M, bool)
    pref = []
    di = 0
    maxdec = opts.get("max_decisions", 400)
    tmo = opts.get("branch_tmo", 8)
    # decisions that every input makes the same way, by intervals without and with cancellation
    easy, want, n = set(), [], 0
    I = itv_eval(rec, [])
    for k, e in enumerate(rec.ev):
        if e[0] in ("B", "I", "C"):
            if e[0] == "B" and plen <= n < maxdec:
                if implied(e, *I[e[2]], *I[e[3]]):
                    easy.add(k)
                else:
                    want.append(k)
            n += 1
    nf = {}
    if want and opts.get("taylor"):
        tm, rest = taylor(rec), []
        for k in want:
            e = rec.ev[k]
            d = tm.diff(e[2], e[3])
            lo, hi = tm.bound(d) if d else (-math.inf, math.inf)
            if e[1] == "<" and (hi < 0 if e[4] else lo >= 0) or e[1] == "=" and not e[4] and (hi < 0 or lo > 0):
                easy.add(k)
                stats.d["flip_taylor"] = stats.d.get("flip_taylor", 0) + 1
            else:
                rest.append(k)
        want = rest
    if polyexe and want:
        m2 = mask.copy()
        flips = set()
        for k, e in enumerate(rec.ev):
            if e[0] != "O":
                h = holds(e, V, M)
                if e[0] == "B" and (m2 & ~h & ~np.isnan(V[e[2]] + V[e[3]])).any():
                    flips.add(k)
                m2 = m2 & h
        want = [k for k in want if k not in flips]
        nf = dict(zip(want, pairs(polyexe, rec, [(rec.ev[k][2], rec.ev[k][3], k) for k in want], opts.get("pairs_s", 120))))
    for k, e in enumerate(rec.ev):
        if e[0] == "O":
            continue
        h = holds(e, V, M)
        if e[0] in "BIC":
            if di >= plen and di < maxdec:
                if e[0] == "C":
                    for v in range(e[2]):
                        if v != e[3]:
                            new.append((rec.seeds(), pref + [("C", v)]))
                elif e[0] == "B":
                    fl = mask & ~h & ~np.isnan(V[e[2]] + V[e[3]])
                    idx = np.flatnonzero(fl)
                    fv = ("B", 1 - e[4])
                    if len(idx):
                        j = idx[0]
                        sd = {rec.vars[i][0]: float(X[i][j]) for i in rec.vars}
                        new.append((sd, pref + [fv]))
                        stats.d["flip_by_model"] = stats.d.get("flip_by_model", 0) + 1
                    else:
                        imp = k in easy
                        if not imp and k in nf:
                            dlo, dhi = nf[k]
                            if e[1] == "<":
                                imp = (e[4] and dhi < 0) or (not e[4] and dlo >= 0)
                            else:
                                imp = not e[4] and (dhi < 0 or dlo > 0)
                        if not imp:
                            I = itv_eval(rec, conds_before(rec, k))
                            imp = implied(e, *I[e[2]], *I[e[3]])
                        if imp:
                            stats.d["flip_interval"] = stats.d.get("flip_interval", 0) + 1
                        else:
                            rec.simplify()
                            e = rec.ev[k]
                            r, m = query_unsat_first(rec, conds_before(rec, k), [evsmt(e, True)], evids(e), tmo, stats, e)
                            if r == "sat":
                                new.append((seeds_from(rec, m), pref + [fv]))
                            elif r == "unknown":
                                und.append("branch %s after %d decisions" % (e[1], di))
                else:  # I
                    seen = [e[2]]
                    for _ in range(opts.get("max_int", 40)):
                        fl = mask & np.isfinite(V[e[1]])
                        for s in seen:
                            fl = fl & (np.floor(V[e[1]]) != s)
                        idx = np.flatnonzero(fl)
                        if len(idx):
                            j = idx[0]
                            kk = int(np.floor(V[e[1]][j] if np.ndim(V[e[1]]) else V[e[1]]))
                            sd = {rec.vars[i][0]: float(X[i][j]) for i in rec.vars}
                        else:
                            ex = ["(not %s)" % evsmt(("I", e[1], s)) for s in seen]
                            r, m = query(rec, conds_before(rec, k), ex, [e[1]], tmo, stats)
                            if r == "unsat":
                                break
                            if r == "unknown":
                                und.append("integer conversion after %d decisions" % di)
                                break
                            sd = seeds_from(rec, m)
                            V1 = evaluate(rec, {i: np.array([sd[rec.vars[i][0]]]) for i in rec.vars})
                            kk = int(np.floor(np.ravel(V1[e[1]])[0]))
                            if kk in seen:  # rounding of an algebraic model value
                                kk = kk - 1 if kk - 1 not in seen else kk + 1
                                if kk in seen:
                                    und.append("integer conversion (rounding)")
                                    break
                        seen.append(kk)
                        new.append((sd, pref + [("I", kk)]))
                    else:
                        und.append("integer conversion: more than %d values" % opts.get("max_int", 40))
            pref = pref + [(e[0], rec.decvalue(e))]
            di += 1
        mask = mask & h
    if di > maxdec:
        und.append("decision limit %d reached" % maxdec)
    return new, und


# ---- obligations ------------------------------------------------------------------------------------------------
def polyeng(exe, rec, idxs, tmax):
    env = dict(os.environ, POLY_TMAX=str(tmax))
    try:
        r = subprocess.run([exe, rec.path] + [str(i) for i in idxs], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           text=True, env=env, timeout=tmax * (len(idxs) + 1) * 2 + 60).stdout
    except subprocess.TimeoutExpired as ex:
        r = (ex.stdout or b"")
        r = r.decode() if isinstance(r, bytes) else r
    res, cur = {}, None
    for line in r.splitlines():
        p = line.split()
        if p[0] in "ZXY":
            res.setdefault(int(p[1]), {})[p[0]] = p[2] if len(p) > 2 else 1
        elif p[0] == "S":
            res[int(p[1])]["scale"] = float(p[2])
        elif p[0] in "TN":
            cur = res.setdefault(int(p[1]), {}).setdefault(p[0], {"n": int(p[2]), "bound": float(p[3]), "t": [], "rest": 0.0})
        elif p[0] == "t":
            cur["t"].append((Fraction(p[1]), float(p[2]), float(p[3]), p[4]))
        elif p[0] == "r":
            cur["rest"] = float(p[1])
    return res


def lra(poly, rel, tol, stats):
    """monomials as independent reals within their bounds; True if no assignment violates the obligation"""
    if poly["rest"] > 0 and not math.isfinite(poly["rest"]):
        return False
    lines, terms = [], []
    rest, nv = Fraction(poly["rest"] if poly["rest"] > 0 else 0), 0
    for k, (c, lo, hi, m) in enumerate(poly["t"]):
        if m == "1":
            terms.append(q(c))
            continue
        nv += 1
        if nv > 40 and math.isfinite(lo) and math.isfinite(hi):
            rest += abs(c) * Fraction(max(abs(lo), abs(hi)))  # lumped: the small terms as one bounded real
            continue
        lines.append("(declare-const m%d Real)" % k)
        if math.isfinite(lo):
            lines.append("(assert (>= m%d %s))" % (k, q(lo)))
        if math.isfinite(hi):
            lines.append("(assert (<= m%d %s))" % (k, q(hi)))
        terms.append("(* %s m%d)" % (q(c), k))
    if rest > 0:
        up = float(rest) * (1 + 1e-9) + 1e-300
        lines.append("(declare-const rr Real)(assert (and (<= (- %s) rr) (<= rr %s)))" % (q(up), q(up)))
        terms.append("rr")
    s = "(+ 0.0 %s)" % " ".join(terms)
    lines.append("(define-fun d () Real %s)" % s)
    if rel == "eq":
        lines.append("(assert (or (> d %s) (< d (- %s))))" % (q(tol), q(tol)))
    elif rel == "le":
        lines.append("(assert (> d %s))" % q(tol))
    else:
        lines.append("(assert (>= d 0.0))")
    r, _ = smt(lines, 10, stats, logic="QF_LRA")
    return r == "unsat"


def decide(rec, idxs, opts, polyexe, rng, stats):
    """decides obligations idxs of the path; returns list of (idx, verdict, info); verdict: ok|bad|undecided.
    bad comes with a candidate {name: value}."""
    res = []
    todo = []
    for i in idxs:
        kind, a, b, tol, what, ek = rec.obl[i]
        if kind == "tr":
            if a:
                res.append((i, "ok", "path"))
            else:
                # is this path reachable: its own seeds are the witness, the solver confirms
                res.append((i,) + path_bad(rec, ek, opts, rng, stats))
            continue
        if kind == "fi":
            res.append((i,) + decide_finite(rec, i, opts, rng, stats))
            continue
        na, nb = rec.nodes[a], rec.nodes[b]
        if a == b and kind != "lt":
            res.append((i, "ok", "identical"))
            stats.d["normal_form"] += 1
            continue
        if na[0] == "c" and nb[0] == "c":
            x, y = na[3], nb[3]
            good = (abs(x - y) <= max(tol, 1e-13 * (abs(x) + abs(y))) if kind == "eq" else x <= y + tol if kind == "le" else x < y)
            if good:
                res.append((i, "ok", "constant"))
                stats.d["normal_form"] += 1
            else:
                res.append((i,) + path_bad(rec, ek, opts, rng, stats))
            continue
        if opts.get("taylor"):
            d = taylor(rec).diff(a, b)
            if d and lra(taylor(rec).form(d), kind, tol, stats):
                res.append((i, "ok", "taylor"))
                continue
        todo.append(i)
    same = [i for i, v, how in res if how == "identical"]
    if same and opts.get("xcheck", True):
        # the solver's own verdict on the obligations whose two sides have become one term
        i = max((x for x in same), key=lambda x: (len(cone(rec, [rec.obl[x][1]])) < 200, rec.obl[x][1]))
        t = rec.obl[i][1]
        if len(cone(rec, [t])) < 200:
            r, _ = query(rec, [], ["(not (= (- t%d t%d) 0.0))" % (t, t)], [t], 2, stats)
            stats.d["xcheck_" + r] = stats.d.get("xcheck_" + r, 0) + 1
    if not todo:
        return res
    pe = polyeng(polyexe, rec, todo, opts.get("poly_s", 40))
    M = opts.get("samples", 400)
    V = None
    xleft = 3
    for i in todo:
        kind, a, b, tol, what, ek = rec.obl[i]
        r = pe.get(i, {})
        if "Z" in r and kind != "lt":
            stats.d["normal_form"] += 1
            if opts.get("xcheck", True) and xleft > 0 and len(cone(rec, [a, b])) < 120 and not any(
                    rec.nodes[k][0] in NPF or rec.nodes[k][0] in FUN2 for k in cone(rec, [a, b])):
                # second opinion: the solver on the same obligation, no precondition needed for an identity
                xleft -= 1
                rr, m = query(rec, conds_before(rec, ek), ["(not (= t%d t%d))" % (a, b)], [a, b], 2, stats)
                stats.d["xcheck_" + rr] = stats.d.get("xcheck_" + rr, 0) + 1
                if rr == "unknown":
                    xleft -= 2
                if rr == "sat" and kind == "eq":
                    r3, _ = query(rec, conds_before(rec, ek), ["(> (- t%d t%d) %s)" % (a, b, q(1e-6))], [a, b], 2, stats)
                    if r3 == "sat":
                        res.append((i, "undecided", "solver and normal form disagree"))
                        continue
            res.append((i, "ok", "normal form"))
            continue
        if "T" in r and r["T"]["t"]:
            if lra(r["T"], kind, tol, stats):
                res.append((i, "ok", "lra"))
                continue
        if "N" in r and r.get("scale", 0) > 0:
            sc = r["scale"]
            if kind == "eq" and lra(r["N"], "eq", tol * sc, stats):
                res.append((i, "ok", "lra-num"))
                continue
        rec.simplify()
        conds = conds_before(rec, ek)
        mtol = max(10 * tol, MARGIN)

        def neg(t):
            d = "(- t%d t%d)" % (a, b)
            if kind == "eq":
                return "(or (> %s %s) (< %s (- %s)))" % (d, q(t), d, q(t))
            if kind == "le":
                return "(> %s %s)" % (d, q(t))
            return "(>= %s 0.0)" % d

        # look for a violation: candidate values from concrete evaluation, confirmed by the solver
        if V is None:
            X = samples(rec, M, rng)
            V = evaluate(rec, X)
        mask = np.ones(M, bool)
        for e in conds:
            mask = mask & holds(e, V, M)
        d = np.broadcast_to(V[a] - V[b], (M,))
        sc = 1e-6 * np.minimum(np.abs(np.broadcast_to(V[a], (M,))), np.abs(np.broadcast_to(V[b], (M,))))
        viol = (np.abs(d) > mtol + sc) if kind == "eq" else (d > mtol + sc) if kind == "le" else (d >= 0)
        viol = viol & mask & np.isfinite(d)
        idx = np.flatnonzero(viol)
        if len(idx):
            j = idx[0]
            cand = {rec.vars[v][0]: float(X[v][j]) for v in rec.vars}
            hasfun = any(rec.nodes[x][0] not in "cv+-*/~sqrtcbrt" for x in cone(rec, [a, b]))
            fix = {v: Fraction(float(X[v][j])) for v in rec.vars}
            rr, m = query(rec, conds, [neg(tol)], [a, b], opts.get("obl_tmo", 20), stats, fix=fix)
            if rr != "unsat":
                res.append((i, "bad", cand))
                continue
        # the general query
        rr, m = query_unsat_first(rec, conds, [neg(tol)], [a, b], opts.get("obl_tmo", 20), stats)
        if rr == "unsat":
            res.append((i, "ok", "nra"))
        elif rr == "sat":
            # a violation with a margin floating point cannot hide?
            r2, m2 = query(rec, conds, [neg(mtol)], [a, b], opts.get("obl_tmo", 20), stats)
            res.append((i, "bad", seeds_from(rec, m2 if r2 == "sat" else m)))
        else:
            res.append((i, "undecided", "solver gave no verdict"))
    return res


def path_bad(rec, ek, opts, rng, stats):
    rec.simplify()
    conds = conds_before(rec, ek)
    X = {v: np.array([rec.nodes[v][3]]) for v in rec.vars}
    V = evaluate(rec, X)
    ok = all(bool(np.ravel(holds(e, V, 1))[0]) for e in conds)
    if ok:
        stats.d["queries"] += 0
        return "bad", rec.seeds()
    r, m = query(rec, conds, [], [x for e in conds for x in evids(e)], opts.get("obl_tmo", 20), stats)
    if r == "unsat":
        return "ok", "infeasible path"
    if r == "sat":
        return "bad", seeds_from(rec, m)
    return "bad", rec.seeds()


def decide_finite(rec, i, opts, rng, stats):
    kind, a, b, tol, what, ek = rec.obl[i]
    na = rec.nodes[a]
    if na[0] == "c":
        return ("ok", "constant") if math.isfinite(na[3]) else path_bad(rec, ek, opts, rng, stats)
    # conditions about definedness are what is being decided: leave them out
    base = [e for e in conds_before(rec, ek) if e[0] not in "ZN"]
    und = False
    I = itv_eval(rec, base)
    cn = sorted(cone(rec, [a]))
    for x in cn:
        op, u, v, val = rec.nodes[x]
        if op == "c" and not math.isfinite(val):
            return path_bad(rec, ek, opts, rng, stats)
        if op == "/":
            lo, hi = I[v]
            if lo > 0 or hi < 0:
                continue
            r, m = query(rec, base, ["(= t%d 0.0)" % v], [v], opts.get("obl_tmo", 20), stats)
            if r == "sat":
                return "bad", seeds_from(rec, m)
            und |= r == "unknown"
        if op == "sqrt":
            if I[u][0] >= 0:
                continue
            r, m = query(rec, base, ["(< t%d 0.0)" % u], [u], opts.get("obl_tmo", 20), stats)
            if r == "sat":
                return "bad", seeds_from(rec, m)
            und |= r == "unknown"
    return ("undecided", "definedness") if und else ("ok", "finite")
