"""Instances: which instantiations of the library are analysed, on which abstract inputs, and the
specification (value graph or predicate) every partition is compared with."""
import itertools, os, re
from math import isqrt
from fractions import Fraction
from . import values as V, conds
from .values import Node, const, var
from .facts import LT, EQ, GT, UN, ALL

TYPES = {  # kind, stored size, stride, signed
 "float": ("f32", 4, 4, True), "double": ("f64", 8, 8, True), "long double": ("f80", 10, 16, True),
 "signed char": ("i8", 1, 1, True), "unsigned char": ("i8", 1, 1, False), "char": ("i8", 1, 1, True),
 "short": ("i16", 2, 2, True), "unsigned short": ("i16", 2, 2, False),
 "int": ("i32", 4, 4, True), "unsigned": ("i32", 4, 4, False),
 "long": ("i64", 8, 8, True), "unsigned long": ("i64", 8, 8, False), "long long": ("i64", 8, 8, True), "unsigned long long": ("i64", 8, 8, False),
 "std::size_t": ("i64", 8, 8, False), "bool": ("i8", 1, 1, False),
}
FLOATS = ["float", "double", "long double"]
SINTS = ["signed char", "short", "int", "long", "long long"]
UINTS = ["unsigned char", "unsigned short", "unsigned", "unsigned long", "unsigned long long"]
INTS = SINTS + UINTS
OVERFLOW = "_ZTISt14overflow_error"

class Finding:
    def __init__(self, kind, msg, loc=None, want=None, nodes=(), sampler=None):
        self.sampler = sampler; self.kind = kind; self.msg = msg; self.loc = loc; self.want = want; self.nodes = list(nodes)

class Scen:
    def __init__(self, name="generic", elems=None, ints=None, pre=(), alias=None, sampler=None, prepred=None, expect="value",
                 data=None, nan=False):
        self.name = name; self.elems = elems or {}; self.ints = ints or {}; self.pre = pre; self.alias = alias or {}
        self.sampler = sampler; self.prepred = prepred; self.expect = expect; self.data = data; self.nan = nan

class Inst:
    def __init__(self, fam, op, T, ins, outs, code, spec, ints=(), scens=None, cap=400, quick=True, core=False, kw=None,
                 throws=None, weight=1, budget=None, small=True):
        self.fam = fam; self.op = op; self.T = T; self.ins = ins; self.outs = outs; self.code = code; self.spec = spec
        self.ints = list(ints); self.scens = scens or [Scen()]; self.cap = cap; self.quick = quick; self.core = core
        self.own = False; self.kw = kw or {}; self.throws = throws; self.weight = weight; self.budget = budget; self.small = small
    @property
    def name(self):
        return "%s<%s> %s%s" % (self.op, self.T, self.kw["label"] + " " if "label" in self.kw else "", " ".join("%s:%dx%d" % (n, r, c) for n, r, c, *_ in (self.ins if any(x[1] for x in self.ins) else self.ins + self.outs)))
    def cxx(self, sym):
        ps = []
        for n, r, c, *t in self.ins:
            ct = t[0] if t else self.T; ro = not (len(t) > 1 and t[1] == "inout")
            ps.append("%s%s* p%s" % ("const " if ro else "", ctype(ct, r, c), n))
        for n, r, c, *t in self.outs: ps.append("%s* o%s" % (ctype(t[0] if t else self.T, r, c), n))
        for n in self.ints: ps.append("std::size_t %s" % n)
        head = "extern \"C\" void %s(%s)\n{\n" % (sym, ", ".join(ps))
        for n, r, c, *t in self.ins: head += "  auto& %s = *p%s; (void)%s;\n" % (n, n, n)
        for n, r, c, *t in self.outs: head += "  auto& %s = *o%s; (void)%s;\n" % (n, n, n)
        return head + "  typedef %s T; (void)sizeof(T);\n  using namespace mlib;\n  " % self.T + self.code + "\n}\n"

def ctype(t, r, c):
    """r = 0: a scalar;  c = 0: a plain array of r elements"""
    if r == 0 or c == 0: return t
    return "mlib::Matrix<%s, %d, %d>" % (t, r, c)

# ------------------------------------------------------------------ value-graph helpers
class Ctx:
    """inputs of one scenario as value graphs"""
    def __init__(self, inst, scen):
        self.inst = inst; self.scen = scen; self.T = inst.T
        self.kind, self.size, self.stride, self.signed = TYPES[inst.T]
        self.flt = self.kind[0] == "f"
        self.I = {}; self.ob = 0; self.ints = scen.ints
        for n, r, c, *t in inst.ins:
            if n in scen.alias: self.I[n] = self.I[scen.alias[n]]; continue
            ct = t[0] if t else inst.T
            k, _, _, sg = TYPES[ct]
            vk = k if sg else "u" + k[1:]
            f = scen.elems.get(n)
            name = n
            m = []
            for i in range(max(r, 1)):
                row = []
                for j in range(max(c, 1)):
                    x = f(i, j) if f else None
                    if x is None: x = var("%s[%d][%d]" % (name, i, j) if r else name, vk)
                    elif not isinstance(x, Node): x = const(Fraction(x), k)
                    row.append(x)
                m.append(row)
            self.I[n] = m
    def M(self, n): return self.I[n]
    def s(self, n): return self.I[n][0][0]
    def c(self, x): return const(Fraction(x), self.kind)
    def add(self, a, b): return V.add(a, b, self.kind)
    def sub(self, a, b): return V.sub(a, b, self.kind)
    def mul(self, a, b): return V.mul(a, b, self.kind)
    def div(self, a, b):
        if self.flt: return V.div(a, b, self.kind)
        if b.op == "c" and b.args[0] == 1: return a
        if b.op == "c" and b.args[0] == -1: return V.neg(a, self.kind)
        if a.op == "c" and a.args[0] == 0: return a
        return V.mk("tdiv", (a, b), self.kind)
    def sum(self, xs):
        r = None
        for x in xs: r = x if r is None else self.add(r, x)
        return self.c(0) if r is None else r
    def matmul(self, A, B):
        m = len(B)
        return [[self.sum(self.mul(A[i][k], B[k][j]) for k in range(m)) for j in range(len(B[0]))] for i in range(len(A))]
    def eye(self, n): return [[self.c(1 if i == j else 0) for j in range(n)] for i in range(n)]
    def det(self, A):
        n = len(A); memo = {}
        def go(r, cols):
            if r == n: return self.c(1)
            key = (r, cols)
            if key in memo: return memo[key]
            t = self.c(0)
            for k, c in enumerate(cols):
                if A[r][c].op == "c" and A[r][c].args[0] == 0: continue
                x = self.mul(A[r][c], go(r + 1, cols[:k] + cols[k + 1:]))
                t = self.add(t, x) if k % 2 == 0 else self.sub(t, x)
            memo[key] = t
            return t
        return go(0, tuple(range(n)))
    def minor(self, A, i, j): return [[A[r][c] for c in range(len(A)) if c != j] for r in range(len(A)) if r != i]
    def inverse(self, A):
        n = len(A); d = self.det(A)
        if n == 1: return [[V.div(self.c(1), d, self.kind)]]
        r = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                m = self.det(self.minor(A, i, j))
                if (i + j) % 2: m = V.neg(m, self.kind)
                r[j][i] = V.div(m, d, self.kind)
        return r
    def power(self, A, p):
        if p < 0: A = self.inverse(A); p = -p
        R = self.eye(len(A))
        while p:
            if p & 1: R = self.matmul(R, A)
            p >>= 1
            if p: A = self.matmul(A, A)
        return R

def evq(env, n):
    return env.ev(n)

def mismatch(ctx, v, e):
    from .witness import differ
    from .values import Undefined
    def want(env):
        x = env.ev(e)
        try: y = env.ev(v)
        except Undefined: return True
        return differ(y, x, ctx.flt and ctx.kind)
    return want

def as_node(ctx, v, ct=None):
    if isinstance(v, Node): return v
    if v.__class__ is int:
        k, size, _, sg = TYPES[ct or ctx.T]
        if k[0] == "f":
            from .engine import bits_to_float
            return bits_to_float(v, k)
        w = 8 * size
        if sg and v >> (w - 1): v -= 1 << w
        return const(v, k)
    return None

def compare_elem(ctx, o, what, v, e, ct=None):
    n = as_node(ctx, v, ct)
    if n is None:
        return [Finding("uninit" if v.__class__.__name__ == "Undef" else "bytes",
                        "%s is %s" % (what, "uninitialised" if v.__class__.__name__ == "Undef" else "not a whole element"), None, None, [])]
    if o.facts.same(n, e):
        ctx.ob += 1
        if ctx.flt and ctx.inst.fam in COPIES and n.op not in ("v", "c") and e.op == "v" and {x.op for x in V.walk([n])} & {"+", "-", "*", "/"}:
            return [Finding("value", "%s is computed as %s where the element %s itself belongs (they differ for a negative zero, an infinity or a NaN)" % (what, V.show(n, 5), V.show(e, 5)), None, None, [n, e])]
        if n is e or not ctx.flt or ctx.inst.fam not in EXACT: return []
        from .witness import find_infinite
        env = find_infinite(o.facts, n, e)
        if env:
            f = Finding("value", "%s is computed as %s, which is not %s for an infinite operand" % (what, V.show(n, 5), V.show(e, 5)), None, None, [n, e]); f.ready = env
            return [f]
        return inexact(ctx, what, n, e)
    f = Finding("value", "%s is %s, expected %s" % (what, V.show(n, 5), V.show(e, 5)), None, mismatch(ctx, n, e), [n, e])
    if ctx.flt and ctx.inst.fam in EXACT: f.rounded = ([n, e], tells_apart(n, e), None)
    return [f]

def tells_apart(n, e):
    def want(value, env):
        y = value(e)
        return y != "overflow" and y is not None and value(n) != y
    return want

COPIES = {"C03", "C04"}      # elements are moved, never computed
EXACT = {"C01", "C03", "C04", "C05", "C23", "C25"}      # element operations and copies: nothing may be rounded on the way
def inexact(ctx, what, n, e):
    """equal in exact arithmetic but computed differently: a finding only if rounding can tell them apart"""
    from .witness import rounded, mantissas, QEnv, Undefined
    import random
    if n.op == "v" or not any(x.op in ("+", "-", "*", "/", "sqrt") for x in V.walk([n])): return []
    prec = V.PREC[ctx.kind]; smp = mantissas(prec)
    def want(env): return rounded(env, n, ctx.kind) != rounded(env, e, ctx.kind)
    rng = random.Random(7); vs = sorted(V.support(n) | V.support(e), key=lambda v: v.id)
    for _ in range(12):
        try:
            if want(QEnv(smp(rng, vs))): break
        except (Undefined, ZeroDivisionError): pass
    else: return []
    return [Finding("rounding", "%s is computed as %s, which rounds differently from %s" % (what, V.show(n, 5), V.show(e, 5)), None, want, [n, e], smp)]

def expect_matrix(ctx, o, name, exp, ct=None):
    out = o.outs[name]; fs = []
    for i, row in enumerate(exp):
        for j, e in enumerate(row):
            fs += compare_elem(ctx, o, "%s[%d][%d]" % (name, i, j), out[i][j], e, ct)
            if len(fs) >= 3: return fs
    return fs

def value_spec(build):
    """spec: out R equals the matrix build(ctx)"""
    def spec(ctx, o):
        exp = build(ctx)
        fs = []
        for name, m in (exp.items() if isinstance(exp, dict) else [("R", exp)]):
            fs += expect_matrix(ctx, o, name, m)
        return fs
    return spec

# ------------------------------------------------------------------ literals of the current sources seed extra sizes
def header_files(repo):
    out = []
    for d, ds, fs in os.walk(os.path.join(repo, "matrix")):
        ds.sort(); out += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".hpp", ".h", ".ipp", ".inl", ".tpp", ".hxx"))]
    return out
def header_literals(repo):
    out = set()
    for f in header_files(repo):
        t = open(f, errors="replace").read()
        t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S); t = re.sub(r"//[^\n]*", " ", t); t = re.sub(r'"[^"\n]*"', " ", t)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?=[uUlL]*(?![\w.]))", t):
            try: out.add(int(m.group(1), 0))
            except ValueError: pass
        for m in re.finditer(r"1[uUlL]*\s*<<\s*(\d+)", t): out.add(1 << min(int(m.group(1)), 62))
    return out

TYPEWORDS = r"\b(sizeof|alignof|typeid|is_[a-z_]+|numeric_limits|conditional|enable_if|true_type|false_type|integral_constant|float|double|short|int|long|char|unsigned|signed|u?int\d+_t)\b"
KNOWN_TYPEWORDS = 21
def typed_source(repo):
    """how often the headers name a concrete type or ask for a property of one (beyond what they are known to)"""
    n = 0
    for f in header_files(repo):
        t = open(f, errors="replace").read()
        t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S); t = re.sub(r"//[^\n]*", " ", t); t = re.sub(r'"[^"\n]*"', " ", t)
        n += len(re.findall(TYPEWORDS, t))
    return n
# shapes that every family has
COMMON = [(r, c) for r in range(1, 4) for c in range(1, 4)] + [(4, 4), (5, 5), (1, 7), (1, 17)]
class Sizes:
    def __init__(self, repo, tier):
        self.tier = tier
        self.typed = typed_source(repo) > KNOWN_TYPEWORDS or tier == "thorough"     # then the checks over all operations widen as well
        self.lits = sorted(x for x in header_literals(repo) if 3 <= x <= 1 << 62)
        ds = set()
        for c in self.lits:
            for b in {c, c // 2, c // 4, c // 8, c // 16}:
                for d in (b - 1, b, b + 1):
                    if 5 < d: ds.add(d)
        self.dims = sorted(d for d in ds if d <= 300)
        self.extra = sorted(d for d in {x + e for x in self.lits for e in (-1, 0, 1)} if 5 < d <= 48)
        sq = set()
        for c in self.lits:
            for b in {c, c // 4, c // 8, c // 16, c // 2}:
                for s in (isqrt(b), isqrt(b) + 1):
                    if 5 < s <= 40: sq.add(s)
        self.squares = sorted(sq | set(self.extra))
        self.cond2 = []; self.cond3 = []
        one, two, three, self.exps, self.cpairs, self.conditions = conds.extra(repo, range(1, 6), COMMON, itertools.product(range(1, 5), repeat=3))
        self.cond2 = [s for a in [(n, n) for n in one] + two for s in (a, a[::-1])]; self.cond3 = three
        for t in {max(p) for p in self.cpairs}: self.cond2 += [(t + 1, 2), (2, t + 1)]
        one += [t + 1 for t in {max(p) for p in self.cpairs}]
        self.squares = sorted(set(self.squares) | {n for n in one if n <= 40} | {r for r, c in two if r == c and r <= 40})
    def shapes(self, lim=2100):
        base = [(r, c) for r in range(1, 6) for c in range(1, 6)]
        base += [(1, 6), (6, 1), (1, 7), (7, 1), (6, 6), (7, 7), (2, 6), (6, 2), (3, 7), (7, 3), (8, 8), (1, 9), (9, 1), (5, 8), (8, 5), (9, 4), (4, 9),
                 (10, 10), (3, 12), (12, 3), (1, 16), (16, 1), (1, 17), (17, 2), (2, 17), (11, 13), (16, 16), (17, 17), (1, 33), (33, 1), (3, 32), (32, 3),
                 (1, 65), (65, 1), (20, 21), (128, 2), (2, 130), (1, 257), (258, 1), (3, 300), (301, 2)]
        if self.tier == "thorough":
            base += [(r, c) for r in range(1, 13) for c in range(1, 13)] + [(n, n) for n in range(13, 41)] + [(33, 20), (20, 33), (1, 257), (257, 1), (64, 32), (32, 65)]
        base += self.cond2
        for d in self.dims[:60]: base += [(1, d), (d, 1), (2, d), (d, 3)]
        for d in self.squares[:20]: base += [(d, d), (d, d + 1), (d + 1, d)]
        small = [x for x in self.lits if x <= 40]
        if len(small) > 1:
            for a in small[:7]:
                for b in small[:7]: base += [(a, b), (a + 1, b + 1), (a + 1, b), (a, b + 1)]
        out = []
        for s in dict.fromkeys(base):
            if s[0] * s[1] <= lim: out.append(s)
        if lim >= 2100:
            out += [(1, 65537), (65538, 1)]                        # past 16-bit counters
            for c in self.lits:
                if 40 < c <= 130: out += [x for x in ((c - 1, c - 1), (c, c), (c + 1, c + 1)) if x not in out]
                if 300 < c < 70000: out += [x for x in ((1, c + 1), (c + 1, 1), (isqrt(c) + 1, isqrt(c) + 1)) if x not in out]
            out = out[:400]
        return out
    def index_pairs(self, n, cap):
        """pairs of indices below n: the ends, the middle, around the source's literals, and a spread of others"""
        import random
        m = {0, 1, n // 2, n - 2, n - 1}; near = {x + e for x in self.lits for e in (-1, 0, 1)}
        ends = [(i, j) for i in sorted(m) for j in sorted(m)]; lit = [(i, j) for i in sorted(m | near) for j in sorted(m | near) if i < n and j < n and (i, j) not in ends]
        rng = random.Random(n); rng.shuffle(lit); rest = [(rng.randrange(n), rng.randrange(n)) for _ in range(cap)]; rng.shuffle(ends)
        c = [q for p in self.cpairs for q in (p, p[::-1]) if max(p) < n]
        return list(dict.fromkeys(c[:cap // 2] + ends[:12] + lit[:cap // 2] + ends[12:] + rest))[:cap]
    def squares_upto(self, n, extra_cap=20):
        return list(range(1, n + 1)) + [d for d in self.squares if n < d <= extra_cap]

MIX_EXTRA = set()
WIDE = [(r, c) for r in range(1, 5) for c in range(1, 5)] + [(5, 5), (1, 6), (6, 1), (7, 7), (1, 9), (9, 2), (8, 8), (2, 7), (12, 9), (1, 17), (17, 1), (40, 2), (2, 33)]
def typ_mix(shapes_other, more=WIDE):
    """(T, shape) pairs: float everywhere is added by the caller; the other types on a few shapes, the common ones on many
    (the latter only in the operation's own check, not in the checks that go over all operations)"""
    out = []
    for T in TYPES:
        if T in ("float", "bool", "std::size_t"): continue
        for s in shapes_other: out.append((T, s))
        for s in more:
            if s not in shapes_other: out.append((T, s)); MIX_EXTRA.add((T, s))
    return out

# ------------------------------------------------------------------ families
FAM = {}
wide = [True]           # an operation's own check always takes every element type over all shapes
PRIM = "float"          # the element type on which a family goes over all its shapes
def others(p, f, sz, have):
    """the source distinguishes element types: the family once more, with each other type on (nearly) all the shapes"""
    global PRIM
    seen = {(i.op, i.T, tuple(i.ins), tuple(i.outs), i.code) for i in have}; out = []
    for T in TYPES:
        if T in ("float", "bool", "std::size_t"): continue
        flt = TYPES[T][0][0] == "f"
        if p in ("C06", "C07", "C09", "C11", "C27") and not flt: continue
        PRIM = T
        try: new = f(sz)
        finally: PRIM = "float"
        for i in new:
            key = (i.op, i.T, tuple(i.ins), tuple(i.outs), i.code)
            if i.T != T or key in seen: continue
            if not flt and (p in ("C08", "C10") and i.op not in ("div(A,s)", "A/s", "isSymetric(A)") or p == "C16" and not TYPES[T][3] and i.op.startswith("compare")): continue
            if max([x[1] * max(x[2], 1) for x in i.ins + i.outs]) > (900 if p not in ("C14", "C15") else 120): continue
            seen.add(key); i.own = True; i.core = False; i.cap = min(i.cap, 60); out.append(i)
    return out
NANS = {"C01", "C03", "C04", "C05", "C23"}      # element operations and copies: small float instances also with NaN elements
def family(p):
    def d(f):
        def g(sz):
            MIX_EXTRA.clear()
            out = f(sz)
            if sz.typed or wide[0]: out += others(p, f, sz, out)
            for i in out:
                n, r, c, *_ = (i.ins + i.outs)[0] if (i.ins + i.outs)[0][1] else (i.ins + i.outs)[-1]
                if (i.T, (r, c)) in MIX_EXTRA: i.own = True
                if p in NANS and TYPES[i.T][0][0] == "f" and sum(max(x[1], 1) * max(x[2], 1) for x in i.ins) <= 60:
                    for x in i.scens: x.nan = True
                if max([x[1] * max(x[2], 1) for x in i.ins + i.outs]) > 5000: i.cap = min(i.cap, 2)
            return out
        FAM[p] = g; return g
    return d

OTHER = [(1, 1), (2, 3), (3, 2), (4, 4), (1, 5)]

@family("C01")
def elementwise(sz):
    forms = [
     ("sum(A,B)", "AB", "R = mlib::sum(A, B);", lambda c, a, b: c.add(a, b)),
     ("A+B", "AB", "R = A + B;", lambda c, a, b: c.add(a, b)),
     ("sub(A,B)", "AB", "R = mlib::sub(A, B);", lambda c, a, b: c.sub(a, b)),
     ("A-B", "AB", "R = A - B;", lambda c, a, b: c.sub(a, b)),
     ("sum(A,s)", "As", "R = mlib::sum(A, s);", lambda c, a, b: c.add(a, b)),
     ("A+s", "As", "R = A + s;", lambda c, a, b: c.add(a, b)),
     ("s+A", "As", "R = s + A;", lambda c, a, b: c.add(a, b)),
     ("sub(A,s)", "As", "R = mlib::sub(A, s);", lambda c, a, b: c.sub(a, b)),
     ("A-s", "As", "R = A - s;", lambda c, a, b: c.sub(a, b)),
     ("mult(A,s)", "As", "R = mlib::mult(A, s);", lambda c, a, b: c.mul(a, b)),
     ("A*s", "As", "R = A * s;", lambda c, a, b: c.mul(a, b)),
     ("s*A", "As", "R = s * A;", lambda c, a, b: c.mul(a, b)),
     ("div(A,s)", "As", "R = mlib::div(A, s);", lambda c, a, b: c.div(a, b)),
     ("A/s", "As", "R = A / s;", lambda c, a, b: c.div(a, b)),
     ("A++", "A", "R = A++;", lambda c, a, b: c.add(a, c.c(1))),
     ("A--", "A", "R = A--;", lambda c, a, b: c.sub(a, c.c(1))),
     ("abs(A)", "A", "R = mlib::abs(A);", lambda c, a, b: V.fabs(a, c.kind)),
    ]
    out = []
    work = [(PRIM, s) for s in sz.shapes()] + typ_mix(OTHER if sz.tier == "quick" else OTHER + [(5, 5), (7, 1), (3, 8), (9, 9)])
    for T, (r, c) in work:
        for op, ps, code, f in forms:
            if op == "abs(A)" and not TYPES[T][3]: continue
            ins = [("A", r, c)] + ([("B", r, c)] if "B" in ps else []) + ([("s", 0, 0)] if "s" in ps else [])
            def build(ctx, f=f, ps=ps, r=r, c=c):
                A = ctx.M("A")
                if "B" in ps:
                    B = ctx.M("B"); return [[f(ctx, A[i][j], B[i][j]) for j in range(c)] for i in range(r)]
                s = ctx.s("s") if "s" in ps else None
                return [[f(ctx, A[i][j], s) for j in range(c)] for i in range(r)]
            scens = [Scen()]
            if "B" in ps and (r, c) in ((2, 3), (3, 3), (1, 1), (5, 2)): scens.append(Scen("same operand twice", alias={"B": "A"}))
            thr = (lambda ctx, o: o.facts.is_zero(ctx.s("s"))) if "/" in op or "div" in op else None
            ispec = value_spec(build)
            dv = {"divisor": lambda ctx: [ctx.s("s")]} if thr else {}
            out.append(Inst("C01", op, T, ins, [("R", r, c)], code, ispec, scens=scens, throws=thr, cap=400 if r * c <= 6 else 48,
                            core=(T == PRIM and r <= 4 and c <= 4) or (T != PRIM and (r, c) == (2, 3)) or (r, c) in ((1, 9), (9, 1), (17, 2)),
                            weight=1 + r * c / 30, kw=dv))
    return out

@family("C02")
def product(sz):
    out = []
    dims = list(itertools.product(range(1, 5), repeat=3))
    dims += [(5, 5, 5), (5, 3, 4), (4, 5, 3), (1, 7, 1), (7, 1, 7), (2, 9, 3), (6, 6, 6), (3, 8, 5), (8, 2, 3), (3, 2, 8), (7, 7, 7), (8, 8, 8), (9, 9, 9), (1, 16, 1), (2, 17, 2),
             (16, 1, 3), (3, 3, 17), (10, 10, 10), (12, 5, 7), (1, 33, 2), (2, 65, 1), (16, 16, 16), (17, 9, 5)]
    if sz.tier == "thorough":
        dims += [d for d in itertools.product(range(1, 7), repeat=3)] + [(n, n, n) for n in range(11, 25)] + [(1, 257, 1), (32, 32, 2), (2, 32, 33), (33, 33, 3)]
    dims += sz.cond3 + [(r, c, 2) for r, c in sz.cond2] + [(2, r, c) for r, c in sz.cond2]
    for d in sz.dims[:40]: dims += [(1, d, 2), (2, d, 1)] + ([(d, 2, 1), (1, 2, d)] if d < 100 else [])
    for d in sz.squares[:12]:
        if d <= 26: dims += [(d, d, d), (d, d + 1, 2)]
    dims += [(65, 1, 65), (257, 1, 1), (1, 1, 258), (1, 300, 1), (1, 65537, 1), (65537, 1, 1), (1, 1, 65537)]
    for c in sz.lits:
        if 300 < c < 70000: dims += [(c + 1, 1, 1), (1, 1, c + 1), (isqrt(c) + 1, 1, isqrt(c) + 1)]
        if 300 < c < 5000: dims += [(1, c + 1, 1)]
    dims = dims[:400]
    seen = set(); work = []
    for d in dims:
        if d not in seen: seen.add(d); work.append((PRIM, d))
    for T in TYPES:
        if T not in (PRIM, "bool", "std::size_t"):
            for d in ((1, 1, 1), (2, 2, 2), (2, 3, 4), (4, 3, 1), (3, 3, 3), (1, 5, 2)): work.append((T, d))
            if T in ("double", "long double", "int", "long", "unsigned char", "unsigned"):
                for d in list(itertools.product((1, 2, 3, 4), repeat=3)) + [(5, 5, 5), (6, 6, 6), (8, 8, 8), (1, 9, 1), (9, 2, 9), (2, 17, 3)]:
                    if (T, d) not in work: work.append((T, d))
    for T, (n, m, p) in work:
        for op, code in (("mult(A,B)", "R = mlib::mult(A, B);"), ("A*B", "R = A * B;")):
            def build(ctx): return ctx.matmul(ctx.M("A"), ctx.M("B"))
            scens = [Scen()]
            if n == m == p and n in (1, 2, 3, 4, 5, 8): scens.append(Scen("same operand twice", alias={"B": "A"}))
            out.append(Inst("C02", op, T, [("A", n, m), ("B", m, p)], [("R", n, p)], code, value_spec(build), scens=scens,
                            core=(T == PRIM and max(n, m, p) <= 3) or (n, m, p) == (2, 3, 4), weight=1 + n * m * p / 40))
    for T in TYPES:
        if T in ("bool", "std::size_t"): continue
        def build(ctx): return ctx.matmul(ctx.M("A"), ctx.M("B"))
        out.append(Inst("C02", "strassen(A,B)", T, [("A", 2, 2), ("B", 2, 2)], [("R", 2, 2)], "R = mlib::strassen(A, B);", value_spec(build),
                        scens=[Scen(), Scen("same operand twice", alias={"B": "A"})], core=True))
    return out

@family("C03")
def relocation(sz):
    out = []
    work = [(PRIM, s) for s in sz.shapes()] + typ_mix(OTHER)
    for T, (r, c) in work:
        core = (T == PRIM and max(r, c) <= 4) or (r, c) == (2, 3)
        def tr(ctx):
            A = ctx.M("A"); return [[A[i][j] for i in range(len(A))] for j in range(len(A[0]))]
        out.append(Inst("C03", "trans(A)", T, [("A", r, c)], [("R", c, r)], "R = mlib::trans(A);", value_spec(tr), core=core, weight=1 + r * c / 30))
    # concatenation: pairs of different shapes
    pairs = [(a, b, k) for a in range(1, 5) for b in range(1, 5) for k in range(1, 6) if a != b]
    pairs += [(1, 7, 3), (7, 1, 3), (6, 2, 9), (2, 6, 1), (9, 4, 2), (5, 3, 5), (3, 5, 3), (16, 1, 5), (1, 16, 4), (17, 16, 2), (8, 7, 8), (32, 33, 1), (10, 11, 10), (9, 2, 3), (2, 9, 3), (12, 3, 2), (3, 12, 2), (20, 2, 4), (2, 20, 4), (6, 4, 12), (33, 2, 3), (128, 129, 1), (1, 257, 2), (300, 2, 2), (2, 1, 300), (1, 65537, 1), (65538, 2, 1), (2, 1, 65537)]
    if sz.tier == "thorough": pairs += [(a, b, k) for a in range(1, 8) for b in range(1, 8) for k in range(1, 9) if a != b]
    for d in sz.extra[:20]: pairs += [(d, 1, 2), (1, d, 2), (2, 1, d)]
    for t in sz.cond3: pairs += [p for p in itertools.permutations(t) if p[0] != p[1]]
    seen = set(); cw = []
    for p in pairs:
        if p not in seen: seen.add(p); cw.append((PRIM, p))
    for T in TYPES:
        if T not in (PRIM, "bool", "std::size_t"): cw += [(T, (1, 2, 3)), (T, (3, 1, 2)), (T, (2, 3, 1))]
    for T, (a, b, k) in cw:
        core = T == PRIM and max(a, b, k) <= 3
        def vert(ctx): return ctx.M("A") + ctx.M("B")
        def horz(ctx): return [x + y for x, y in zip(ctx.M("A"), ctx.M("B"))]
        out.append(Inst("C03", "concatenate(A,B) vertical", T, [("A", a, k), ("B", b, k)], [("R", a + b, k)], "R = mlib::concatenate(A, B);", value_spec(vert), core=core))
        out.append(Inst("C03", "concatenate(A,B) horizontal", T, [("A", k, a), ("B", k, b)], [("R", k, a + b)], "R = mlib::concatenate(A, B);", value_spec(horz), core=core))
    ns = sorted(set(list(range(1, 8)) + [8, 9, 12, 16, 17] + [d for d in sz.squares if d <= 24] + [130, 258]))
    sq = [(PRIM, n) for n in ns] + [(T, n) for T in TYPES if T not in (PRIM, "bool", "std::size_t") for n in (1, 2, 3)]
    for T, n in sq:
        core = T == PRIM and n <= 4 or n == 2
        def both(ctx): return {"V": ctx.M("A") + ctx.M("B"), "H": [x + y for x, y in zip(ctx.M("A"), ctx.M("B"))]}
        def v1(ctx): return ctx.M("A") + ctx.M("B")
        def h1(ctx): return [x + y for x, y in zip(ctx.M("A"), ctx.M("B"))]
        sc = [Scen()] + ([Scen("same operand twice", alias={"B": "A"})] if n in (2, 3) else [])
        out.append(Inst("C03", "concatenate(A,B) square pair", T, [("A", n, n), ("B", n, n)], [("V", 2 * n, n), ("H", n, 2 * n)],
                        "auto q = mlib::concatenate(A, B); V = q.first; H = q.second;", value_spec(both), core=core, scens=sc))
        out.append(Inst("C03", "concatenateV(A,B)", T, [("A", n, n), ("B", n, n)], [("R", 2 * n, n)], "R = mlib::concatenateV(A, B);", value_spec(v1), core=core, scens=sc))
        out.append(Inst("C03", "concatenateH(A,B)", T, [("A", n, n), ("B", n, n)], [("R", n, 2 * n)], "R = mlib::concatenateH(A, B);", value_spec(h1), core=core, scens=sc))
    for T, n in sq:
        if n < 2: continue
        idx = [(i, j) for i in range(n) for j in range(n)]
        if n > 7 and (n != 12 or T != "float"): idx = sz.index_pairs(n, 49 if n < 100 else 5)
        if T != PRIM: idx = idx[:9]
        def mn(ctx): return ctx.minor(ctx.M("A"), ctx.ints["i"], ctx.ints["j"])
        out.append(Inst("C03", "getminor(A,i,j)", T, [("A", n, n)], [("R", n - 1, n - 1)], "R = mlib::getminor(A, i, j);", value_spec(mn), ints=["i", "j"],
                        scens=[Scen("i=%d j=%d" % ij, ints={"i": ij[0], "j": ij[1]}) for ij in idx], core=T == PRIM and n <= 4, weight=1 + len(idx) / 4))
    return out

@family("C04")
def swaps(sz):
    out = []
    work = [(PRIM, s) for s in dict.fromkeys(sz.shapes() + [(24, 1), (1, 24), (12, 2), (2, 12)])] + typ_mix(OTHER)
    for T, (r, c) in work:
        core = (T == PRIM and max(r, c) <= 3) or (r, c) == (2, 3)
        for op, n in (("swap_rows", r), ("swap_cols", c)):
            prs = [(i, j) for i in range(min(n, 6)) for j in range(min(n, 6))]
            if n > 6 and ((r, c) not in ((24, 1), (1, 24), (12, 2), (2, 12)) or T not in ("float", "int")): prs = sz.index_pairs(n, 49)
            if r * c > 5000: prs = [(0, n - 1), (n - 1, n // 2), (0, 0)] if n > 1 else [(0, 0)]
            elif r * c > 60 and n > 6: prs = prs[:24]
            def build(ctx, op=op):
                A = [row[:] for row in ctx.M("A")]; x, y = ctx.ints["x"], ctx.ints["y"]
                if op == "swap_rows": A[x], A[y] = A[y], A[x]
                else:
                    for row in A: row[x], row[y] = row[y], row[x]
                return {"A": A}
            out.append(Inst("C04", op, T, [("A", r, c, T, "inout")], [], "mlib::%s(A, x, y);" % op, value_spec(build), ints=["x", "y"],
                            scens=[Scen("%d<->%d" % p, ints={"x": p[0], "y": p[1]}) for p in prs], core=core, weight=1 + len(prs) * (1 + r * c / 60) / 4))
    return out

@family("C05")
def generators(sz):
    out = []
    work = [(PRIM, s) for s in dict.fromkeys(sz.shapes() + [(130, 130), (258, 258)])] + typ_mix(OTHER)
    for T, (r, c) in work:
        core = (T == PRIM and max(r, c) <= 3) or (r, c) == (2, 3)
        def k(v): return lambda ctx, r=r, c=c: [[ctx.c(v)] * c for _ in range(r)]
        def kf(ctx, r=r, c=c): return [[ctx.s("s")] * c for _ in range(r)]
        w = 1 + r * c / 60
        out.append(Inst("C05", "fill(s)", T, [("s", 0, 0)], [("R", r, c)], "R = mlib::fill<T, %d, %d>(s);" % (r, c), value_spec(kf), core=core, weight=w))
        out.append(Inst("C05", "zeros()", T, [], [("R", r, c)], "R = mlib::zeros<T, %d, %d>();" % (r, c), value_spec(k(0)), core=core, weight=w))
        out.append(Inst("C05", "ones<T,i,j>()", T, [], [("R", r, c)], "R = mlib::ones<T, %d, %d>();" % (r, c), value_spec(k(1)), core=core, weight=w))
        if T == "unsigned" or T == "float":
            out.append(Inst("C05", "ones<i,j>()", "unsigned", [], [("R", r, c)], "R = mlib::ones<%d, %d>();" % (r, c), value_spec(k(1)), core=core, weight=w))
        if r == c:
            def e1(ctx, r=r): return ctx.eye(r)
            def es(ctx, r=r): return [[ctx.s("s") if i == j else ctx.c(0) for j in range(r)] for i in range(r)]
            out.append(Inst("C05", "eye()", T, [], [("R", r, r)], "R = mlib::eye<T, %d>();" % r, value_spec(e1), core=core, weight=w))
            out.append(Inst("C05", "eye(s)", T, [("s", 0, 0)], [("R", r, r)], "R = mlib::eye<T, %d>(s);" % r, value_spec(es), core=core, weight=w))
            out.append(Inst("C05", "ones<T,n>()", T, [], [("R", r, r)], "R = mlib::ones<T, %d>();" % r, value_spec(k(1)), core=core, weight=w))
            if T in ("unsigned", "float"):
                out.append(Inst("C05", "ones<n>()", "unsigned", [], [("R", r, r)], "R = mlib::ones<%d>();" % r, value_spec(k(1)), core=core, weight=w))
    return out

# ------------------------------------------------------------------ linear algebra
def perm_pattern(perm, extra=()):
    """non-zero exactly at (i, perm[i]) and the extra positions"""
    pos = {(i, p) for i, p in enumerate(perm)} | set(extra)
    return lambda i, j: None if (i, j) in pos else 0
def zero_pattern(zeros):
    z = set(zeros); return lambda i, j: 0 if (i, j) in z else None

def det_scens(n, tier):
    """structured inputs that steer the elimination through zero pivots"""
    import random
    rng = random.Random(n)
    sc = [Scen()]
    if n >= 2:
        sc.append(Scen("zero matrix", {"A": lambda i, j: 0}))
        sc.append(Scen("zero first row", {"A": lambda i, j: 0 if i == 0 else None}))
        sc.append(Scen("zero first column", {"A": lambda i, j: 0 if j == 0 else None}))
        sc.append(Scen("zero last row", {"A": lambda i, j: 0 if i == n - 1 else None}))
        sc.append(Scen("zero last column", {"A": lambda i, j: 0 if j == n - 1 else None}))
        sc.append(Scen("anti-diagonal", {"A": perm_pattern([n - 1 - i for i in range(n)])}))
        sc.append(Scen("cyclic shift", {"A": perm_pattern([(i + 1) % n for i in range(n)])}))
        sc.append(Scen("lower triangular", {"A": lambda i, j: 0 if j > i else None}))
        sc.append(Scen("upper triangular", {"A": lambda i, j: 0 if j < i else None}))
        sc.append(Scen("upper triangular, zero diagonal", {"A": lambda i, j: 0 if j <= i else None}))
        sc.append(Scen("zero diagonal", {"A": lambda i, j: 0 if i == j else None}))
        sc.append(Scen("two equal rows", {"A": lambda i, j: var("A[0][%d]" % j, "x") if i == 1 else None}))
        sc.append(Scen("two equal columns", {"A": lambda i, j: var("A[%d][0]" % i, "x") if j == n - 1 else None}))
        sc.append(Scen("rank one", {"A": lambda i, j: V.mul(var("u%d" % i, "f64"), var("v%d" % j, "f64"), "f64")}))
        sc.append(Scen("all ones", {"A": lambda i, j: 1}))
        sc.append(Scen("identity", {"A": lambda i, j: 1 if i == j else 0}))
    cnt = 12 if tier == "quick" else 60
    for t in range(cnt if n >= 3 else 0):
        perm = list(range(n)); rng.shuffle(perm)
        ex = {(rng.randrange(n), rng.randrange(n)) for _ in range(rng.randint(0, n))}
        sc.append(Scen("sparse %d: permutation %s + %s" % (t, perm, sorted(ex)), {"A": perm_pattern(perm, ex)}))
    for t in range(cnt if n >= 3 else 0):
        z = {(rng.randrange(n), rng.randrange(n)) for _ in range(rng.randint(1, n))}
        sc.append(Scen("zeros at %s" % sorted(z), {"A": zero_pattern(z)}))
    return sc

def fix_kinds(scens, T):
    """variables used in scenario element functions get the element kind"""
    k, _, _, sg = TYPES[T]; vk = k if sg else "u" + k[1:]
    def conv(n):
        if n.op == "v": return var(n.args[0], vk)
        if n.op == "*": return V.mul(conv(n.args[0]), conv(n.args[1]), k)
        return n
    out = []
    for s in scens:
        el = {}
        for p, f in s.elems.items():
            el[p] = (lambda f: lambda i, j: conv(f(i, j)) if isinstance(f(i, j), Node) else f(i, j))(f)
        t = Scen(s.name, el, s.ints, s.pre, s.alias, s.sampler, s.prepred, s.expect, s.data, s.nan)
        out.append(t)
    return out

@family("C06")
def determinant(sz):
    out = []
    def build(ctx): return [[ctx.det(ctx.M("A"))]]
    ns = [(T, n) for n in range(1, 9) for T in FLOATS if T == PRIM or n <= 5] + [(PRIM, n) for n in (9, 10, 11)]
    ns += [(PRIM, d) for d in sz.squares if d == 12]
    ns += [(T, n) for T in INTS for n in (1, 2, 3)] + [("int", 4), ("int", 5), ("long", 4)]
    for T, n in ns:
        sc = fix_kinds(det_scens(n, sz.tier), T)
        if T in INTS and n >= 4:
            # the elimination divides: integer inputs on which every quotient is exact, whatever the values
            names = ("zero matrix", "anti-diagonal", "cyclic shift", "upper triangular", "upper triangular, zero diagonal", "identity", "all ones")
            sc = [s for s in sc if s.name in names]
            rng = __import__("random").Random(n)
            for t in range(12):
                perm = list(range(n)); rng.shuffle(perm); sc.append(Scen("permutation %s" % perm, {"A": perm_pattern(perm)}))
            out.append(Inst("C06", "det(A)", T, [("A", n, n)], [("R", 0, 0)], "R = mlib::det(A);", value_spec(build), scens=sc, cap=60, weight=4, kw={"label": "exact quotients"}))
            out.append(Inst("C06", "det(A)", T, [("A", n, n)], [("R", 0, 0)], "R = mlib::det(A);", value_spec(build), scens=[Scen()], cap=3, weight=2))
            continue
        if n > 6 or (T != PRIM and n >= 4): sc = sc[:16] + sc[-6:]
        cap = 1200 if n <= 4 else 40 if sz.tier == "quick" else 600
        if n == 4 and T != PRIM: cap = 60
        if n == 5 and T == PRIM: cap = 120 if sz.tier == "quick" else 12000
        out.append(Inst("C06", "det(A)", T, [("A", n, n)], [("R", 0, 0)], "R = mlib::det(A);", value_spec(build), scens=sc, cap=cap, core=n <= 4 and T in ("float", "int"),
                        weight=1 + (n ** 3 / 8 if n >= 4 else 0) * (1 if T == PRIM else .4), kw={"later": 24 if sz.tier == "quick" else 300}))
    return out

def nz_det(A):
    from .values import Undefined
    def pre(env):
        return True
    return pre

@family("C07")
def inverse(sz):
    out = []
    for T in FLOATS:
        for n in [n for n in range(1, 10 if T == PRIM else 6)] + [d for d in sz.squares if 9 < d <= 12 and T == PRIM]:
            sc = fix_kinds(det_scens(n, sz.tier), T)
            if n > 4: sc = sc[:1] + [s for s in sc if "sparse" in s.name][:4] + [s for s in sc if s.name.startswith(("anti", "cyclic", "zeros at", "zero diag"))][:5]
            if n > 6: sc = sc[:1] + [s for s in sc if s.name.startswith(("anti", "cyclic", "lower", "upper triangular"))][:4]
            def spec(ctx, o, n=n):
                A = ctx.M("A"); X = []
                if o.facts.is_zero(ctx.det(A)): return []          # singular: not this property's business
                fs = []
                for i in range(n):
                    row = []
                    for j in range(n):
                        v = as_node(ctx, o.outs["R"][i][j])
                        if v is None: return [Finding("uninit", "R[%d][%d] is uninitialised" % (i, j))]
                        row.append(v)
                    X.append(row)
                I = ctx.eye(n)
                for nm, P in (("A*inv(A)", ctx.matmul(A, X)), ("inv(A)*A", ctx.matmul(X, A))):
                    for i in range(n):
                        for j in range(n):
                            if o.facts.same(P[i][j], I[i][j]): ctx.ob += 1
                            else: fs.append(Finding("value", "(%s)[%d][%d] is not %d" % (nm, i, j, i == j), None, mismatch(ctx, P[i][j], I[i][j]), [P[i][j]]))
                            if len(fs) > 2: return fs
                return fs
            big = n >= 5
            out.append(Inst("C07", "inv(A)", T, [("A", n, n)], [("R", n, n)], "R = mlib::inv(A);", spec, scens=sc,
                            throws=lambda ctx, o: o.facts.is_zero(ctx.det(ctx.M("A"))), core=n <= 4 and T == PRIM,
                            cap=(300 if n <= 4 and T == PRIM else 40 if n <= 4 else 5 if n == 5 else 3 if n == 6 else 1) if sz.tier == "quick" else (2000 if n <= 4 else 300 if n == 5 else 30 if n == 6 else 2),
                            weight=([0, 1, 1, 1, 12, 40, 50] + [80] * 20)[n] * (1 if T == PRIM else .5),
                            kw={"later": (12 if n <= 4 else 2) if sz.tier == "quick" else 60, "divisor": lambda ctx: [ctx.det(ctx.M("A"))]}))
    return out

@family("C08")
def refusals(sz):
    """expect='throw': every feasible partition throws overflow_error; expect='value': throws only where the divisor vanishes"""
    out = []
    def want_throw(ctx, o):
        return [Finding("norefusal", "returns normally although %s" % ctx.scen.name, None, None)]
    def ok(ctx, o):
        fs = []
        for e in o.events:
            if e[0] == "divzero": fs.append(Finding("divzero", "divides by %s, which is zero on this partition, and returns" % e[1], e[2]))
        d = ctx.inst.kw["divisor"](ctx)
        for x in d:
            if o.facts.is_zero(x): fs.append(Finding("norefusal", "returns normally although the divisor %s is zero" % V.show(x, 3)))
        return fs[:2]
    # scalar division
    shp = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (3, 3), (4, 4), (5, 5), (1, 7), (7, 3)] + [(d, 2) for d in sz.extra[:8]] + [(d, d) for d in sz.squares[:8]] + [s for s in sz.cond2 if s[0] * s[1] <= 400]
    shp = list(dict.fromkeys(shp))
    work = [(PRIM, s) for s in shp] + [(T, s) for T in TYPES if T not in ("bool", "std::size_t", PRIM) for s in ((1, 1), (2, 3), (3, 3))]
    for T, (r, c) in work:
        for op, code in (("div(A,s)", "R = mlib::div(A, s);"), ("A/s", "R = A / s;")):
            sc = [Scen("the scalar divisor is zero", {"s": lambda i, j: 0}, expect="throw"), Scen(),
                  Scen("zero matrix divided by zero", {"s": lambda i, j: 0, "A": lambda i, j: 0}, expect="throw"),
                  Scen("zero matrix", {"A": lambda i, j: 0})]
            out.append(Inst("C08", op, T, [("A", r, c), ("s", 0, 0)], [("R", r, c)], code, ok, scens=sc, core=(r, c) == (2, 3),
                            throws=lambda ctx, o: o.facts.is_zero(ctx.s("s")), kw={"divisor": lambda ctx: [ctx.s("s")]}))
    # inverse
    def sing(n):
        L = [s for s in det_scens(n, "quick") if s.name in ("zero matrix", "zero first row", "zero first column", "zero last row", "zero last column", "two equal rows",
             "two equal columns", "rank one", "all ones", "upper triangular, zero diagonal")]
        if n == 1: L = [Scen("zero matrix", {"A": lambda i, j: 0})]
        if n == 2: L = [s for s in L]
        for s in L: s.expect = "throw"
        if n >= 2: L.append(Scen("det(A) = 0", expect="throw", pre=lambda ctx: [(ctx.det(ctx.M("A")), ctx.c(0), EQ)]))
        return L
    Ts = [(T, n) for T in FLOATS for n in range(1, 7 if T == PRIM else 6)] + [(T, n) for T in ("int", "long") for n in (1, 2, 3)]
    for T, n in Ts:
        sc = [Scen()] + fix_kinds(sing(n), T)
        sc += [s for s in fix_kinds(det_scens(n, "quick"), T) if s.name in ("anti-diagonal", "cyclic shift", "zero diagonal", "identity", "lower triangular", "upper triangular")] if n >= 2 else []
        if n >= 5: sc = [s for s in sc if s.expect == "throw"] + sc[:1]
        q = sz.tier == "quick"
        out.append(Inst("C08", "inv(A)", T, [("A", n, n)], [("R", n, n)], "R = mlib::inv(A);", ok, scens=sc, core=n <= 3,
                        cap=60 if n <= 4 and q else 3 if q else 400 if n <= 4 else 40, throws=lambda ctx, o: o.facts.is_zero(ctx.det(ctx.M("A"))),
                        kw={"divisor": lambda ctx: [ctx.det(ctx.M("A"))], "later": 16 if n >= 4 and q else 400}, weight=[0, 1, 1, 1, 20, 25, 40][n]))
    for T, n in [(PRIM, 1), (PRIM, 2), ("double", 2), (PRIM, 3), ("double", 3), (PRIM, 4)]:
        far = [-64, -127, -1000, -(2 ** 31 - 1)] + [-x - e for x in sz.lits for e in (-1, 0, 1) if x + e < 2 ** 31] if n == 2 and T == "double" else []
        for p, P in [(p, "int") for p in [-1, -2, -3, -5] + far] + ([(p, P) for P in ("long", "short", "signed char", "long long") for p in (-1, -4)] if T == "double" else []):
            sc = [Scen()] + fix_kinds(sing(n), T)
            if p < -20: sc = [s for s in sc if s.expect == "throw"]
            if n == 4: sc = [s for s in sc if s.expect == "throw"][:4]
            out.append(Inst("C08", "pow(A,(%s)%d)" % (P, p), T, [("A", n, n)], [("R", n, n)], "%s e = %d; R = mlib::pow(A, e);" % (P, p), ok, scens=sc, cap=30,
                            throws=lambda ctx, o: o.facts.is_zero(ctx.det(ctx.M("A"))), kw={"divisor": lambda ctx: [ctx.det(ctx.M("A"))]}, core=n == 2, weight=1 + n))
    # LU: leading principal minors are the products of the pivots
    for T, n in [(T, n) for T in FLOATS for n in range(1, 6)] + [(PRIM, 6), (PRIM, 7)]:
        def lead(ctx, n=n):
            A = ctx.M("A"); return [ctx.det([row[:k] for row in A[:k]]) for k in range(1, n + 1)]
        sc = [Scen()]
        for k in range(1, n + 1):
            sc.append(Scen("pivot %d is zero" % k, expect="throw", pre=(lambda k: lambda ctx: [(ctx.det([r[:k] for r in ctx.M("A")[:k]]), ctx.c(0), EQ)])(k)))
        extra = [s for s in sing(n) if s.name != "det(A) = 0"]
        sc += fix_kinds(extra, T)
        sc += fix_kinds([s for s in det_scens(n, "quick") if s.name in ("identity", "lower triangular", "upper triangular")], T)
        def thr(ctx, o, lead=lead): return any(o.facts.is_zero(x) for x in lead(ctx))
        out.append(Inst("C08", "lu(A)", T, [("A", n, n)], [("P", n, n), ("U", n, n)], "auto q = mlib::lu(A); P = q.first; U = q.second;", ok, scens=sc, cap=200,
                        throws=thr, kw={"divisor": lead}, core=n <= 3, weight=1 + n))
    return out

@family("C09")
def lu(sz):
    out = []
    for T, n in [(PRIM, n) for n in range(1, 14)] + [(T, n) for T in ("double", "long double") for n in range(1, 6)] + [(PRIM, d) for d in sz.squares if 13 < d <= 16]:
        def spec(ctx, o, n=n):
            A = ctx.M("A"); fs = []; Lm = []; Um = []
            for nm, D in (("P", Lm), ("U", Um)):
                for i in range(n):
                    D.append([as_node(ctx, o.outs[nm][i][j]) for j in range(n)])
                    if None in D[-1]: return [Finding("uninit", "%s has an uninitialised element in row %d" % ("L" if nm == "P" else "U", i))]
            z = ctx.c(0); one = ctx.c(1)
            for i in range(n):
                for j in range(n):
                    if j > i: fs += compare_elem(ctx, o, "L[%d][%d]" % (i, j), Lm[i][j], z)
                    if j == i: fs += compare_elem(ctx, o, "L[%d][%d]" % (i, j), Lm[i][j], one)
                    if j < i: fs += compare_elem(ctx, o, "U[%d][%d]" % (i, j), Um[i][j], z)
            P = ctx.matmul(Lm, Um)
            for i in range(n):
                for j in range(n): fs += compare_elem(ctx, o, "(L*U)[%d][%d]" % (i, j), P[i][j], A[i][j])
                if len(fs) > 2: break
            return fs[:3]
        def lead(ctx, n=n):
            A = ctx.M("A"); return [ctx.det([row[:k] for row in A[:k]]) for k in range(1, n + 1)]
        sc = [Scen()]
        if n >= 2: sc += fix_kinds([s for s in det_scens(n, "quick") if s.name in ("identity", "lower triangular", "upper triangular")], T)
        if n >= 3:
            sc.append(Scen("arrow", {"A": lambda i, j: None if i == j or i == 0 or j == 0 else 0}))
            sc.append(Scen("tridiagonal", {"A": lambda i, j: None if abs(i - j) <= 1 else 0}))
        def thr(ctx, o, lead=lead, n=n): return n > 9 or any(o.facts.is_zero(x) for x in lead(ctx))
        out.append(Inst("C09", "lu(A)", T, [("A", n, n)], [("P", n, n), ("U", n, n)], "auto q = mlib::lu(A); P = q.first; U = q.second;", spec, scens=sc, cap=60,
                        throws=thr, core=n <= 4 and T == PRIM, weight=1 + n ** 2 / 4, kw={"divisor": lead} if n <= 9 else {}))
    return out

@family("C10")
def cholesky(sz):
    out = []
    def spd_sampler(n):
        def f(rng, vs):
            Lo = [[Fraction(rng.randint(-2, 3)) if j < i else Fraction(rng.randint(1, 4)) if i == j else Fraction(0) for j in range(n)] for i in range(n)]
            if rng.random() < .5:                           # small and large pivots, small and large matrices
                ks = [Fraction(10) ** rng.choice((0, 0, 0, -1, -2, -4, -6, -9, -15, -25, 2, 4, 9, 20)) for _ in range(n)]
                one = rng.random() < .3
                for i in range(n):
                    for j in range(i + 1): Lo[i][j] *= ks[0] if one else ks[i] if rng.random() < .9 or i == j else 1
            a = {}
            for v in vs:
                m = re.match(r"A\[(\d+)\]\[(\d+)\]$", v.args[0])
                if m:
                    i, j = int(m.group(1)), int(m.group(2))
                    a[v] = sum(Lo[i][k] * Lo[j][k] for k in range(n))
            return a
        return f
    for T, n in [(PRIM, n) for n in range(1, 9)] + [(T, n) for T in ("double", "long double") for n in range(1, 6)] + [(PRIM, d) for d in sz.squares if 8 < d <= 14]:
        k = TYPES[T][0]
        symf = (lambda k: lambda i, j: var("A[%d][%d]" % (max(i, j), min(i, j)), k))(k)
        def spec(ctx, o, n=n):
            A = ctx.M("A"); fs = []; Lm = []
            for i in range(n):
                Lm.append([as_node(ctx, o.outs["R"][i][j]) for j in range(n)])
                if None in Lm[-1]: return [Finding("uninit", "R has an uninitialised element in row %d" % i)]
            z = ctx.c(0)
            for i in range(n):
                for j in range(i + 1, n): fs += compare_elem(ctx, o, "L[%d][%d]" % (i, j), Lm[i][j], z)
            P = ctx.matmul(Lm, [[Lm[j][i] for j in range(n)] for i in range(n)])
            for i in range(n):
                for j in range(n): fs += compare_elem(ctx, o, "(L*trans(L))[%d][%d]" % (i, j), P[i][j], A[i][j])
                if len(fs) > 2: break
            for i in range(n):
                d = Lm[i][i]
                if o.facts.sign(d) & LT:
                    fs.append(Finding("value", "L[%d][%d] is not a non-negative square root" % (i, i), None,
                                      (lambda d: lambda env: (env.ev(d) is None) or env.ev(d) < 0)(d), [d]))
                else: ctx.ob += 1
            return fs[:3]
        def pre(env, n=n, k=k):
            M = [[env.ev(var("A[%d][%d]" % (max(i, j), min(i, j)), k)) for j in range(n)] for i in range(n)]
            try:
                for c in range(n):
                    if M[c][c] <= 0: return False
                    for r in range(c + 1, n):
                        f = M[r][c] / M[c][c]
                        for q in range(c, n): M[r][q] -= f * M[c][q]
            except Exception: return False
            return True
        sc = [Scen("symmetric", {"A": symf}, sampler=spd_sampler(n), prepred=pre)]
        out.append(Inst("C10", "chol(A)", T, [("A", n, n)], [("R", n, n)], "R = mlib::chol(A);", spec, scens=sc, cap=60, core=n <= 4 and T == PRIM,
                        weight=1 + n ** 2 / 6, kw={"spd": True}))
    wk = [(PRIM, n) for n in list(range(1, 7)) + [8]] + [(T, n) for T in ("double", "long double", "int", "unsigned", "long", "short", "unsigned char") for n in (1, 2, 3, 4)] + [(T, n) for T in ("char", "signed char", "unsigned short", "unsigned long", "long long") for n in (2, 3)]
    wk += [(PRIM, d) for d in sz.squares if 8 < d <= 20]
    for T, n in wk:
        def rels(ctx, n=n):
            A = ctx.M("A"); return [(A[i][j], A[j][i], EQ) for i in range(n) for j in range(i)]
        out.append(Inst("C10", "isSymetric(A)", T, [("A", n, n)], [("R", 0, 0, "bool")], "R = mlib::isSymetric(A);", predicate_spec(rels), cap=120,
                        scens=[Scen()] + ([Scen("unit diagonal, NaN allowed elsewhere", {"A": lambda i, j: 1 if i == j else None}, nan=True)] if TYPES[T][0][0] == "f" else []), core=n <= 3 and T in ("float", "int"), weight=1 + n ** 2 / 5))
    return out

def predicate_spec(rels):
    """R is true iff all relations (a, b, mask) hold"""
    def spec(ctx, o):
        from .witness import rel
        v = o.outs["R"][0][0]
        if v.__class__ is not int:
            if isinstance(v, Node) and v.op == "c": v = int(v.args[0])
            else: return [Finding("uninit", "the result is %r" % (v,))]
        rs = rels(ctx); q = [(o.facts.query(a, b), m) for a, b, m in rs]
        nodes = [x for a, b, m in rs for x in (a, b)]
        def holds(env): return all(rel(env.ev(a), env.ev(b)) & m for a, b, m in rs)
        if v == 1:
            if all(not (x & ~m) for x, m in q): ctx.ob += len(rs) or 1; return []
            bad = [r for r, (x, m) in zip(rs, q) if x & ~m]
            f = Finding("value", "returns true although %s is not established" % show_rel(bad[0]), None, lambda env: not holds(env), nodes)
            if ctx.flt and all(m == EQ for a, b, m in rs): f.equalities = rs
            return [f]
        if v == 0:
            if any(not (x & m) for x, m in q): ctx.ob += 1; return []
            return [Finding("value", "returns false although nothing on the path contradicts the definition", None, holds, nodes)]
        return [Finding("value", "returns the boolean byte %d" % v)]
    return spec
def show_rel(r):
    from .facts import MASKS
    return "%s %s %s" % (V.show(r[0], 3), MASKS.get(r[2], r[2]), V.show(r[1], 3))

def unipotent(rng, vs):
    """triangular with units on the diagonal: the powers of such a matrix stay small"""
    lower = rng.random() < .5; a = {}
    for v in vs:
        m = re.match(r"A\[(\d+)\]\[(\d+)\]", str(v.args[0]))
        if not m: continue
        r, c = int(m.group(1)), int(m.group(2))
        a[v] = Fraction(rng.choice((1, 1, -1)) if r == c else rng.randint(1, 3) if (r > c) == lower else 0)
    return a

@family("C11")
def powers(sz):
    out = []
    q = sz.tier == "quick"
    small = list(range(-9, 26))
    bigp = [31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 65535, 65536, 1000003, 2 ** 30, 2 ** 31 - 1, -16, -17, -31, -32, -33, -64, -100, -255, -256, -2 ** 30, -(2 ** 31 - 1)]
    lits = [x + e for x in sz.lits for e in (-1, 0, 1) if x + e < 2 ** 31]; lits += [-x for x in lits]
    lits += sz.exps
    work = []
    for p in small + bigp + lits: work.append(("double", 2, p, "int"))
    for p in list(range(-4, 18)) + [20, 23, 25, 31, 64, 127] + [x for x in lits if abs(x) <= 130]: work += [(PRIM, 1, p, "int"), (PRIM, 3, p, "int"), ("int", 2, p, "int") if p >= 0 else None]
    for p in (-2, -1, 0, 1, 2, 3, 5, 6, 9): work.append((PRIM, 4, p, "int"))
    for p in (0, 1, 2, 3, 7): work.append((PRIM, 5, p, "int"))
    for P in ("long", "short", "signed char", "long long"):
        for p in (-5, -3, -1, 0, 1, 2, 3, 6, 11, 100, 127): work.append(("double", 2, p, P))
    for p in (2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 40 + 5, 2 ** 62, 2 ** 63 - 1, -(2 ** 31), -(2 ** 32) - 1, -(2 ** 63 - 1)): work.append(("double", 2, p, "long"))
    work += [("double", 2, -127, "signed char"), ("double", 2, -(2 ** 15 - 1), "short"), ("double", 2, 2 ** 15 - 1, "short")]
    for T in ("long double", "long", "unsigned", "unsigned long"):
        for p in list(range(0, 17)) + [20, 24, 31, 33, 48, 64]: work.append((T, 2, p, "int"))
    if not q:
        for p in list(range(26, 140)) + list(range(-40, -9)): work.append(("double", 2, p, "int"))
        for p in range(-9, 30): work.append(("double", 3, p, "int"))
    return power_insts("C11", work)

@family("C27")
def least_exponents(sz):
    """exponents whose negation their type cannot represent"""
    work = []
    for P, b in (("signed char", 7), ("short", 15), ("int", 31), ("long", 63), ("long long", 63)):
        for T in ("double", "float", "long double"):
            for n in (1, 2): work.append((T, n, -2 ** b, P))
    work += [("double", 3, -2 ** 7, "signed char"), ("float", 3, -2 ** 7, "signed char"), ("float", 4, -2 ** 7, "signed char")]
    return power_insts("C27", work)

def power_insts(prop, work):
    out = []
    seen = set()
    for w in work:
        if w is None or w in seen: continue
        seen.add(w); T, n, p, P = w
        def build(ctx, p=p): return ctx.power(ctx.M("A"), p)
        thr = (lambda ctx, o: o.facts.is_zero(ctx.det(ctx.M("A")))) if p < 0 else None
        lit = "%d%s" % (p, "LL" if abs(p) >= 2 ** 31 else "") if p != -2 ** 63 else "(-9223372036854775807LL - 1)"
        sc = [Scen(sampler=unipotent if abs(p) > 300 else None)]
        if n in (3, 4) and -4 <= p < 0 or n == 2 and p < 0: sc += fix_kinds([Scen("symmetric", {"A": lambda i, j: None if i <= j else V.var("A[%d][%d]" % (j, i), "?")})], T)
        if n in (2, 3) and abs(p) <= 6: sc += fix_kinds([Scen("nilpotent", {"A": lambda i, j: None if j > i else 0}), Scen("identity", {"A": lambda i, j: 1 if i == j else 0}),
                                             Scen("diagonal", {"A": lambda i, j: None if i == j else 0})], T) if p >= 0 else fix_kinds([Scen("anti-diagonal", {"A": perm_pattern([n - 1 - i for i in range(n)])})], T)
        out.append(Inst(prop, "pow(A,(%s)%d)" % (P, p), T, [("A", n, n)], [("R", n, n)], "%s e = static_cast<%s>(%s); R = mlib::pow(A, e);" % (P, P, lit), value_spec(build), scens=sc,
                        throws=thr, cap=60 if n < 4 else 12, core=(n == 2 and abs(p) <= 40 and P == "int" and T == "double") or (n <= 3 and abs(p) <= 5) or P == "long", weight=1 + (n >= 4) * 3 + (n >= 4 and p < 0) * 8,
                        small=abs(p) <= 64, budget=3000000, kw={"divisor": lambda ctx: [ctx.det(ctx.M("A"))]} if p < 0 else {}))
    return out

@family("C12")
def convolution(sz):
    out = []
    work = [(PRIM, s) for s in sz.shapes(700)] + [(PRIM, (1, 1025)), (PRIM, (1026, 1)), (PRIM, (1, 32770)), (PRIM, (32770, 1))] + typ_mix([(1, 1), (2, 3), (3, 3), (4, 5)])
    for T, (r, c) in work:
        core = (T == PRIM and max(r, c) <= 5) or (r, c) == (4, 5)
        def full(ctx, r=r, c=c):
            A, K = ctx.M("A"), ctx.M("K")
            return [[ctx.sum(ctx.mul(K[u][v], A[i - u][j - v]) for u in range(3) for v in range(3) if 0 <= i - u < r and 0 <= j - v < c)
                     for j in range(c + 2)] for i in range(r + 2)]
        def same(ctx, full=full, r=r, c=c): return [row[1:c + 1] for row in full(ctx)[1:r + 1]]
        def valid(ctx, full=full, r=r, c=c): return [row[2:c] for row in full(ctx)[2:r]]
        ins = [("A", r, c), ("K", 3, 3)]
        w = 1 + r * c / 6
        sc = [Scen()] + ([Scen("image is the kernel", alias={"K": "A"})] if (r, c) == (3, 3) else [])
        out.append(Inst("C12", "conv2(A,K)", T, ins, [("R", r, c)], "R = mlib::conv2(A, K);", value_spec(same), core=core, weight=w, scens=sc, kw={"maxsteps": 15000000}))
        if r * c < 10000: out.append(Inst("C12", "conv2_full(A,K)", T, ins, [("R", r + 2, c + 2)], "R = mlib::conv2_full(A, K);", value_spec(full), core=core, weight=w, scens=sc))
        if r >= 3 and c >= 3:
            out.append(Inst("C12", "conv2_valid(A,K)", T, ins, [("R", r - 2, c - 2)], "R = mlib::conv2_valid(A, K);", value_spec(valid), core=core, weight=w, scens=sc))
    return out

@family("C13")
def statistics(sz):
    out = []
    work = [(PRIM, s) for s in sz.shapes()] + typ_mix(OTHER + [(3, 3), (2, 2)])
    work += [(T, s) for T in ("signed char", "unsigned char", "char") for s in ((1, 127), (127, 1), (16, 8), (1, 255), (16, 16), (257, 1), (10, 30))]
    work += [(T, s) for T in ("short", "unsigned short") for s in ((1, 300),)] + [("short", (1, 32769)), ("unsigned short", (257, 256))]
    for T, (r, c) in work:
        core = (T == PRIM and max(r, c) <= 4) or (r, c) == (2, 3)
        n = r * c
        def mk(n):
            def cn(ctx): return const(Fraction(n), ctx.kind if ctx.flt or n < 1 << 8 * ctx.size - 1 else "i64")
            def mean(ctx): return ctx.div(ctx.sum(x for row in ctx.M("A") for x in row), cn(ctx))
            def var_(ctx):
                m = mean(ctx); d = [ctx.sub(x, m) for row in ctx.M("A") for x in row]
                return ctx.div(ctx.sum(ctx.mul(x, x) for x in d), cn(ctx))
            def sd(ctx):
                v = var_(ctx)
                if ctx.flt: return V.sqrt(v, ctx.kind)
                d = V.mk("itofpf64", (v,), "f64") if ctx.size == 8 else V.mk("conv", (v,), "f64")
                return V.mk("fptoint" if ctx.signed else "fptouint", (V.mk("sqrt", (d,), "f64"),), ctx.kind)
            return mean, var_, sd
        mean, var_, sd = mk(n)
        w = 1 + n / 40
        out.append(Inst("C13", "mean(A)", T, [("A", r, c)], [("R", 0, 0)], "R = mlib::mean(A);", value_spec(lambda ctx, f=mean: [[f(ctx)]]), core=core, weight=w))
        out.append(Inst("C13", "var(A)", T, [("A", r, c)], [("R", 0, 0)], "R = mlib::var(A);", value_spec(lambda ctx, f=var_: [[f(ctx)]]), core=core, weight=w))
        if T in FLOATS or T in ("int", "short") or (r, c) in ((1, 1), (1, 2), (2, 2), (2, 3)):
            out.append(Inst("C13", "stddev(A)", T, [("A", r, c)], [("R", 0, 0)], "R = mlib::stddev(A);", value_spec(lambda ctx, f=sd: [[f(ctx)]]), core=core and T in FLOATS, weight=w))
    return out

# ------------------------------------------------------------------ order statistics and histograms
def order_scens(n, T, rng, count):
    """inputs whose elements are known to be ordered like a given weak ordering: one partition each"""
    k, _, _, sg = TYPES[T]; vk = k if sg else "u" + k[1:]
    out = []
    def scen(name, rank, c):
        # rank: element index -> level; elements of one level are equal (the same unknown)
        lv = sorted(set(rank))
        def el(i, j): return var("x%d" % rank[i * c + j], vk)
        pre = lambda ctx: [(var("x%d" % a, vk), var("x%d" % b, vk), LT) for a, b in zip(lv, lv[1:])]
        return Scen(name, {"A": el}, pre=pre, data=list(rank))
    return scen

def rankings(n, rng, count):
    out = [("ascending", list(range(n))), ("descending", list(range(n))[::-1]), ("all equal", [0] * n), ("alternating", [(i // 2) if i % 2 == 0 else n - 1 - i // 2 for i in range(n)]),
           ("two values", [i % 2 for i in range(n)]), ("organ pipe", [min(i, n - 1 - i) for i in range(n)])]
    if n > 1:
        out.append(("rotated", [(i + 1) % n for i in range(n)]))
        out.append(("one smaller at the end", [1] * (n - 1) + [0])); out.append(("one larger in front", [1] + [0] * (n - 1)))
    for t in range(count):
        p = list(range(n)); rng.shuffle(p); out.append(("permutation %d" % t, p))
    for t in range(count):
        m = rng.randint(2, max(2, n // 2 + 1)); out.append(("ties %d" % t, [rng.randrange(m) for _ in range(n)]))
    return out

def big_rankings(n):
    return [("all equal", [0] * n), ("two values", [i % 2 for i in range(n)]), ("one different", [1] * (n - 1) + [0]), ("seven values", [i * 3 % 7 for i in range(n)])]

def known_leq(facts, a, b): return not (facts.query(a, b) & (GT | UN))

@family("C14")
def median(sz):
    import random
    out = []
    rng = random.Random(14)
    shp = [(r, c) for r in range(1, 4) for c in range(1, 4)] + [(1, 4), (4, 1), (1, 5), (5, 1), (2, 4), (4, 2), (1, 7), (7, 1), (4, 4), (3, 5), (5, 3), (1, 16), (16, 1), (1, 17), (17, 1), (2, 9), (5, 5), (6, 6), (4, 5), (5, 4), (7, 5), (8, 8), (1, 33), (40, 1), (2, 33), (1, 64), (10, 10), (1, 130), (16, 17), (259, 1), (1, 521), (24, 22)]
    if sz.tier == "thorough": shp += [(r, c) for r in range(1, 9) for c in range(1, 9)] + [(10, 10), (11, 11), (1, 100), (101, 1), (16, 16)]
    for d in sz.dims[:30]:
        if d <= 80: shp += [(1, d), (d, 1)]
    for d in sz.squares[:8]:
        if d * d <= 150: shp.append((d, d))
    shp += [s for s in sz.cond2 if s[0] * s[1] <= 150]
    shp = list(dict.fromkeys(shp))
    work = [(PRIM, s) for s in shp] + typ_mix([(1, 1), (1, 2), (2, 2), (1, 3), (3, 3), (2, 3)])
    for T, (r, c) in work:
        n = r * c
        mk = order_scens(n, T, rng, 0)
        exh = 6 if sz.tier == "thorough" and T == "float" else 5 if T == "float" else 3
        scens = [Scen()] if n <= exh else []
        scens += [mk(nm, rk, c) for nm, rk in (rankings(n, rng, ((6 if T == "float" else 2) if sz.tier == "quick" else 25) if n < 100 else 2) if n < 400 else big_rankings(n))]
        def spec(ctx, o, n=n):
            xs = [x for row in ctx.M("A") for x in row]
            v = as_node(ctx, o.outs["R"][0][0])
            if v is None: return [Finding("uninit", "the result is uninitialised")]
            le = {}
            def rank_ok(x, k):
                """x is certainly the k-th smallest (0-based)"""
                a = sum(1 for y in xs if known_leq(o.facts, y, x)); b = sum(1 for y in xs if known_leq(o.facts, x, y))
                return a >= k + 1 and b >= n - k
            h = n // 2
            if n % 2:
                for x in dict.fromkeys(xs):
                    if o.facts.same(v, x) and rank_ok(x, h): ctx.ob += 1; return inexact(ctx, "the result", v, x) if ctx.flt and v is not x else []
            else:
                ux = list(dict.fromkeys(xs))
                lo = [x for x in ux if rank_ok(x, h - 1)]; hi = [x for x in ux if rank_ok(x, h)]
                for a in lo:
                    for b in hi:
                        if o.facts.same(v, ctx.div(ctx.add(a, b), ctx.c(2))): ctx.ob += 1; return []
                        if not ctx.flt and o.facts.same(v, ctx.div(ctx.add(b, a), ctx.c(2))): ctx.ob += 1; return []
            def want(env):
                ys = sorted(env.ev(x) for x in xs)
                from .witness import differ, trunc
                if n % 2: e = ys[h]
                else:
                    e = (ys[h - 1] + ys[h]) / 2
                    if not ctx.flt: e = trunc(e)
                return differ(env.ev(v), e, ctx.flt and ctx.kind)
            return [Finding("value", "the result %s is not shown to be the middle of the sorted elements" % V.show(v, 4), None, want, [v] + xs)]
        out.append(Inst("C14", "median(A)", T, [("A", r, c)], [("R", 0, 0)], "R = mlib::median(A);", spec, scens=scens, cap=800, core=(T == PRIM and n <= 6) or (r, c) == (1, 3) or (r, c) in ((1, 17), (5, 5)), 
                        weight=1 + n / 6, kw={"corescens": 4}))
    return out

@family("C15")
def histograms(sz):
    import random
    out = []
    rng = random.Random(15)
    shp = [(r, c) for r in range(1, 4) for c in range(1, 4)] + [(1, 4), (4, 1), (1, 5), (5, 1), (2, 4), (4, 2), (4, 4), (3, 5), (5, 3), (1, 9), (9, 1), (1, 17), (17, 1), (5, 5), (4, 6), (6, 4), (6, 6), (1, 257), (17, 16), (260, 1)]
    if sz.tier == "thorough": shp += [(r, c) for r in range(1, 7) for c in range(1, 7)] + [(8, 8), (1, 64), (40, 1)]
    for d in sz.dims[:20]:
        if d <= 60: shp += [(1, d), (d, 1)]
    for d in sz.squares[:6]:
        if d <= 8: shp.append((d, d))
    shp += [s for s in sz.cond2 if s[0] * s[1] <= 80]
    shp = list(dict.fromkeys(shp))
    work = [(PRIM, s) for s in shp] + typ_mix([(1, 1), (1, 2), (2, 2), (1, 3), (2, 3)])
    for T, (r, c) in work:
        n = r * c
        mk = order_scens(n, T, rng, 0)
        exh = 5 if sz.tier == "thorough" and T == "float" else 4 if T == "float" else 3
        scens = [Scen()] if n <= exh else []
        scens += [mk(nm, rk, c) for nm, rk in (rankings(n, rng, (4 if T == "float" else 1) if sz.tier == "quick" else 20) if n < 200 else big_rankings(n))]
        for op, cum in (("histogram(A)", False), ("cumulative_histogram(A)", True)):
            def spec(ctx, o, n=n, cum=cum):
                xs = [x for row in ctx.M("A") for x in row]
                cnt = o.outs["C"][0][0]
                if cnt.__class__ is not int: return [Finding("uninit", "size of the map is %r" % (cnt,))]
                ks = [as_node(ctx, o.outs["K"][i][0]) for i in range(min(cnt, n + 1))]; ns = [o.outs["N"][i][0] for i in range(min(cnt, n + 1))]
                if cnt > n: return [Finding("value", "the map has %d keys for %d elements" % (cnt, n))]
                if None in ks: return [Finding("uninit", "a key is uninitialised")]
                ok = True
                def num(x): return int(x) if x.__class__ is int else x
                for a, b in zip(ks, ks[1:]):
                    if o.facts.query(a, b) != LT: ok = False
                counts = [0] * cnt
                for x in xs:
                    hit = [i for i, k in enumerate(ks) if o.facts.query(x, k) == EQ]
                    if len(hit) != 1: ok = False
                    else: counts[hit[0]] += 1
                if 0 in counts: ok = False
                if cum:
                    for i in range(1, cnt): counts[i] += counts[i - 1]
                if ok and all(x == y for x, y in zip(ns, counts)): ctx.ob += cnt; return []
                def want(env):
                    vals = [env.ev(x) for x in xs]; d = {}
                    for x in vals: d[x] = d.get(x, 0) + 1
                    e = sorted(d.items())
                    if cum:
                        t = 0; f = []
                        for k, q in e: t += q; f.append((k, t))
                        e = f
                    got = [(env.ev(k), q) for k, q in zip(ks, ns)]
                    return got != e
                return [Finding("value", "the map {%s} does not hold the counts of the elements" % ", ".join("%s: %s" % (V.show(k, 3), q) for k, q in zip(ks[:6], ns[:6])), None, want, xs + ks)]
            fn = op[:-3]
            code = ("std::size_t c = 0; auto m = mlib::%s(A); static_assert(std::is_same<decltype(m), std::map<T, std::size_t>>::value, \"type\"); "
                    "for (auto it = m.begin(); it != m.end(); ++it) { if (c < %d) { (&K)[c] = it->first; (&N)[c] = it->second; } c++; } C = c;" % (fn, n + 1))
            out.append(Inst("C15", op, T, [("A", r, c)], [("K", n + 1, 0), ("N", n + 1, 0, "std::size_t"), ("C", 0, 0, "std::size_t")], code, spec, scens=scens, cap=700,
                            core=(T == PRIM and n <= 6) or (r, c) == (1, 3), weight=1 + n, kw={"corescens": 3, "alloc_ok": True}))
    return out

@family("C16")
def predicates(sz):
    out = []
    shp = [(r, c) for r in range(1, 4) for c in range(1, 5)] + [(4, 4), (5, 5), (1, 7), (7, 1), (5, 2), (2, 5), (6, 3), (8, 8), (1, 17), (17, 1), (16, 2), (1, 258), (257, 1), (2, 300)] + [(1, d) for d in sz.dims[:10] if d < 80] + [(d, d) for d in sz.squares[:6] if d <= 12] + [s for s in sz.cond2 if s[0] * s[1] <= 150]
    for T, (r, c) in [(PRIM, s) for s in dict.fromkeys(shp)] + [(T, s) for T in ("double", "long double", "int", "short", "signed char", "char", "long", "long long") for s in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 1))]:
        def rels(ctx, r=r, c=c):
            A, B, e = ctx.M("A"), ctx.M("B"), ctx.s("e")
            return [(V.fabs(ctx.sub(A[i][j], B[i][j]), ctx.kind), e, LT | EQ) for i in range(r) for j in range(c)]
        flt = TYPES[T][0][0] == "f"
        sc = [Scen("NaN allowed", nan=True)] if flt else [Scen()]
        sc += [Scen("same operand twice", alias={"B": "A"}, nan=flt)] if (r, c) in ((2, 2), (2, 3)) else []
        out.append(Inst("C16", "compare(A,B,eps)", T, [("A", r, c), ("B", r, c), ("e", 0, 0, "float")], [("R", 0, 0, "bool")], "R = mlib::compare(A, B, e);", predicate_spec(rels), scens=sc, cap=200,
                        core=max(r, c) <= 3, weight=1 + r * c / 4, kw={"strip": not flt}))
    wk = [(PRIM, n) for n in (1, 2, 3, 4, 5, 6, 8)] + [(T, n) for T in ("double", "long double", "int", "unsigned", "long", "unsigned long", "short", "unsigned short", "signed char", "unsigned char", "char", "long long") for n in (1, 2, 3, 4)]
    wk += [(PRIM, d) for d in sz.squares if 8 < d <= 16]
    for T, n in wk:
        def rels(ctx, n=n):
            A = ctx.M("A"); return [(A[i][j], ctx.c(1 if i == j else 0), EQ) for i in range(n) for j in range(n)]
        out.append(Inst("C16", "isIdentity(A)", T, [("A", n, n)], [("R", 0, 0, "bool")], "R = mlib::isIdentity(A);", predicate_spec(rels), cap=120, scens=[Scen("NaN allowed", nan=True)] if TYPES[T][0][0] == "f" else None, core=n <= 3, weight=1 + n * n / 4))
    return out

@family("C23")
def printing(sz):
    return print_insts("C23", [(PRIM, s) for s in sz.shapes(700)] + [(PRIM, (1, 4097)), (PRIM, (4097, 1))] + typ_mix([(1, 1), (2, 3), (3, 2), (1, 4)]))

def silent_insts(sz):
    """print without PRINT_IOSTREAM_ENABLE: nothing is written anywhere"""
    def spec(ctx, o):
        for ev in o.out_events: return [Finding("output", "writes to a stream (%s) although stream output is not enabled" % ev[0], ev[-1])]
        for e in o.events:
            if e[0] in ("opwrite", "gstore", "gload", "impure", "streamstate", "alloc"): return [Finding(e[0], "has an effect (%s) although stream output is not enabled" % e[1], e[2])]
        ctx.ob += 1
        return []
    sh = [s for s in sz.shapes(120)]
    return [Inst("C28", "print(A) without stream output", T, [("A", r, c)], [], "mlib::print(A);", spec, kw={"prints": True})
            for T in TYPES if T not in ("bool", "std::size_t") for r, c in (sh if T in ("float", "int") else [(1, 1), (1, 4), (2, 3), (3, 3), (5, 2)])]

# ------------------------------------------------------------------ complex elements
class CC:
    """complex arithmetic over pairs of value graphs"""
    def __init__(self, ctx): self.x = ctx
    def c(self, v): return (self.x.c(v), self.x.c(0))
    def add(self, a, b): return (self.x.add(a[0], b[0]), self.x.add(a[1], b[1]))
    def sub(self, a, b): return (self.x.sub(a[0], b[0]), self.x.sub(a[1], b[1]))
    def mul(self, a, b):
        x = self.x
        return (x.sub(x.mul(a[0], b[0]), x.mul(a[1], b[1])), x.add(x.mul(a[0], b[1]), x.mul(a[1], b[0])))
    def sum(self, xs):
        r = None
        for v in xs: r = v if r is None else self.add(r, v)
        return self.c(0) if r is None else r
    def M(self, n): return [[(row[2 * j], row[2 * j + 1]) for j in range(len(row) // 2)] for row in self.x.M(n)]
    def s(self, n): return self.M(n)[0][0]

def complex_insts(sz):
    """matrices of std::complex<T>: each operand is its elements' real and imaginary parts, interleaved"""
    out = []
    def add(op, T, ins, outs, expr, build, **kw):
        ct = "std::complex<%s>" % T; code = ""
        for n, r, c in ins:
            code += "auto& %s_ = reinterpret_cast<const %s&>(%s); (void)%s_; " % (n, "mlib::Matrix<%s, %d, %d>" % (ct, r, c), n, n) if n != "s" else "const %s s_(s[0][0], s[0][1]); " % ct
        n, r, c = outs
        code += "reinterpret_cast<mlib::Matrix<%s, %d, %d>&>(R) = %s;" % (ct, r, c, expr)
        def spec(ctx): return [[y for x in row for y in x] for row in build(CC(ctx))]
        out.append(Inst("C29", op, T, [(n, r, 2 * c) for n, r, c in ins], [("R", r, 2 * c)], code, value_spec(spec), kw={"label": "complex"}, weight=1 + r * c / 20, **kw))
    q = sz.tier == "quick"
    sh = [s for s in sz.shapes(90 if q else 300) if s[0] * s[1] <= (90 if q else 300)]
    for T in ("double", "long double", "float"):
        for r, c in (sh if T == "double" else [(1, 1), (1, 3), (2, 2), (2, 3), (3, 2), (3, 3), (4, 5)]):
            A = ("A", r, c); B = ("B", r, c); S = ("s", 1, 1); R = ("R", r, c)
            def ew(f): return lambda k: [[f(k, a, b) for a, b in zip(x, y)] for x, y in zip(k.M("A"), k.M("B"))]
            def es(f): return lambda k: [[f(k, a, k.s("s")) for a in x] for x in k.M("A")]
            for op, e in (("sum(A,B)", "mlib::sum(A_, B_)"), ("A+B", "A_ + B_")): add(op, T, [A, B], R, e, ew(lambda k, a, b: k.add(a, b)))
            for op, e in (("sub(A,B)", "mlib::sub(A_, B_)"), ("A-B", "A_ - B_")): add(op, T, [A, B], R, e, ew(lambda k, a, b: k.sub(a, b)))
            for op, e in (("sum(A,s)", "mlib::sum(A_, s_)"), ("A+s", "A_ + s_"), ("s+A", "s_ + A_")): add(op, T, [A, S], R, e, es(lambda k, a, b: k.add(a, b)))
            for op, e in (("sub(A,s)", "mlib::sub(A_, s_)"), ("A-s", "A_ - s_")): add(op, T, [A, S], R, e, es(lambda k, a, b: k.sub(a, b)))
            for op, e in (("mult(A,s)", "mlib::mult(A_, s_)"), ("A*s", "A_ * s_"), ("s*A", "s_ * A_")): add(op, T, [A, S], R, e, es(lambda k, a, b: k.mul(a, b)))
            add("trans(A)", T, [A], ("R", c, r), "mlib::trans(A_)", lambda k: [list(x) for x in zip(*k.M("A"))])
            add("A++", T, [A], R, "const_cast<mlib::Matrix<std::complex<T>, %d, %d>&>(A_)++" % (r, c), lambda k: [[k.add(a, k.c(1)) for a in x] for x in k.M("A")])
            add("A--", T, [A], R, "const_cast<mlib::Matrix<std::complex<T>, %d, %d>&>(A_)--" % (r, c), lambda k: [[k.sub(a, k.c(1)) for a in x] for x in k.M("A")])
            add("zeros", T, [A], R, "mlib::zeros<std::complex<T>, %d, %d>()" % (r, c), lambda k, r=r, c=c: [[k.c(0)] * c for _ in range(r)])
            add("ones", T, [A], R, "mlib::ones<std::complex<T>, %d, %d>()" % (r, c), lambda k, r=r, c=c: [[k.c(1)] * c for _ in range(r)])
            add("fill(s)", T, [S], R, "mlib::fill<std::complex<T>, %d, %d>(s_)" % (r, c), lambda k, r=r, c=c: [[k.s("s")] * c for _ in range(r)])
            K3 = ("K", 3, 3)
            if r * c <= 30:
                def full(k, r=r, c=c):
                    a, m = k.M("A"), k.M("K")
                    return [[k.sum(k.mul(m[u][v], a[i - u][j - v]) for u in range(3) for v in range(3) if 0 <= i - u < r and 0 <= j - v < c) for j in range(c + 2)] for i in range(r + 2)]
                add("conv2(A,K)", T, [A, K3], R, "mlib::conv2(A_, K_)", lambda k, full=full, r=r, c=c: [x[1:c + 1] for x in full(k)[1:r + 1]])
                add("conv2_full(A,K)", T, [A, K3], ("R", r + 2, c + 2), "mlib::conv2_full(A_, K_)", full)
                if r >= 3 and c >= 3: add("conv2_valid(A,K)", T, [A, K3], ("R", r - 2, c - 2), "mlib::conv2_valid(A_, K_)", lambda k, full=full, r=r, c=c: [x[2:c] for x in full(k)[2:r]])
            if r != c:
                add("concatenate(A,B)", T, [A, ("B", r, c + 1)], ("R", r, 2 * c + 1), "mlib::concatenate(A_, B_)", lambda k: [x + y for x, y in zip(k.M("A"), k.M("B"))])
                add("concatenate(A,B)", T, [A, ("B", r + 1, c)], ("R", 2 * r + 1, c), "mlib::concatenate(A_, B_)", lambda k: k.M("A") + k.M("B"))
            else:
                add("concatenateV(A,B)", T, [A, B], ("R", 2 * r, c), "mlib::concatenateV(A_, B_)", lambda k: k.M("A") + k.M("B"))
                add("concatenateH(A,B)", T, [A, B], ("R", r, 2 * c), "mlib::concatenateH(A_, B_)", lambda k: [x + y for x, y in zip(k.M("A"), k.M("B"))])
                add("eye", T, [A], R, "mlib::eye<std::complex<T>, %d>()" % r, lambda k, r=r: [[k.c(int(i == j)) for j in range(r)] for i in range(r)])
            for p in (1, 2, 3, c):
                add("A*B", T, [A, ("B", c, p)], ("R", r, p), "A_ * B_", lambda k: [[k.sum(k.mul(a, b) for a, b in zip(x, y)) for y in zip(*k.M("B"))] for x in k.M("A")])
        add("strassen(A,B)", T, [("A", 2, 2), ("B", 2, 2)], ("R", 2, 2), "mlib::strassen(A_, B_)", lambda k: [[k.sum(k.mul(a, b) for a, b in zip(x, y)) for y in zip(*k.M("B"))] for x in k.M("A")])
    seen = set(); res = []
    for i in out:
        key = (i.op, i.T, tuple(i.ins), tuple(i.outs))
        if key not in seen: seen.add(key); res.append(i)
    return res

def print_insts(prop, work):
    out = []
    for T, (r, c) in work:
        def spec(ctx, o, r=r, c=c):
            A = ctx.M("A"); k = TYPES[ctx.T][0]
            cat = "char" if k == "i8" else "float" if k[0] == "f" else "int"
            exp = []
            for i in range(r):
                for j in range(c): exp += [A[i][j], " "]
                exp.append("\n")
            def chunks(seq):
                buf = ""; res = []
                for x in seq:
                    if isinstance(x, str): buf += x
                    else:
                        if buf: res.append(buf); buf = ""
                        res.append(x)
                if buf: res.append(buf)
                return res
            got = []; locs = []
            for ev in o.out_events:
                if ev[0] != "_ZSt4cout": return [Finding("value", "writes to %s" % ev[0], ev[-1])]
                if ev[1] == "fmt": return [Finding("value", "an element is printed with a changed %s" % ev[2], ev[-1])]
                if ev[1] == "manip": return [Finding("value", "changes the stream formatting (%s)" % ev[2], ev[-1])]
                if ev[1] == "str": got.append(ev[2])
                else:
                    v = as_node(ctx, ev[3])
                    if v is None: return [Finding("value", "prints %r" % (ev[3],), ev[-1])]
                    got.append((ev[2], v, ev[-1]))
            for e in o.events:
                if e[0] == "streamstate": return [Finding("value", "leaves the formatting of the stream changed", e[2])]
            g = chunks(got); e = chunks(exp)
            for k_, (x, y) in enumerate(itertools.zip_longest(g, e)):
                if isinstance(y, Node):
                    if not isinstance(x, tuple): return [Finding("value", "output item %d is %r, expected element %s" % (k_, x, V.show(y)), None)]
                    if x[0] != cat and not (cat == "int" and x[0] == "int"): return [Finding("value", "element %s is printed as %s" % (V.show(y), x[0]), x[2])]
                    if o.facts.same(x[1], y) and ctx.flt and x[1] is not y:
                        r_ = inexact(ctx, "output item %d" % k_, x[1], y)
                        if r_: return r_
                    if not o.facts.same(x[1], y): return [Finding("value", "output item %d is %s, expected %s" % (k_, V.show(x[1]), V.show(y)), x[2], mismatch(ctx, x[1], y), [x[1], y])]
                    ctx.ob += 1
                else:
                    if x != y: return [Finding("value", "output item %d is %r, expected %r" % (k_, x[1] if isinstance(x, tuple) else x, y), x[2] if isinstance(x, tuple) else None)]
                    ctx.ob += 1
            return []
        out.append(Inst(prop, "print(A)", T, [("A", r, c)], [], "mlib::print(A);", spec, core=(T == PRIM and max(r, c) <= 3) or (r, c) == (2, 3), kw={"prints": True}))
    return out

@family("C25")
def storage(sz):
    """subscripting, row-major storage, independent copies, equality"""
    out = []
    work = [("float", s) for s in [(r, c) for r in range(1, 5) for c in range(1, 5)] + [(1, 9), (9, 1), (5, 7), (7, 5), (16, 16), (17, 3)]]
    work += [(T, s) for T in TYPES if T not in ("float", "std::size_t", "bool") for s in ((1, 1), (2, 3), (3, 2))]
    for T, (r, c) in work:
        idx = [(i, j) for i in range(r) for j in range(c)]
        if len(idx) > 25: idx = sorted({(i, j) for i in (0, 1, r // 2, r - 1) for j in (0, 1, c // 2, c - 1) if i < r and j < c})
        sc = [Scen("x=%d y=%d" % p, ints={"x": p[0], "y": p[1]}) for p in idx]
        out.append(Inst("C25", "A[x][y]", T, [("A", r, c)], [("R", 0, 0)], "R = A[x][y];", value_spec(lambda ctx: [[ctx.M("A")[ctx.ints["x"]][ctx.ints["y"]]]]), ints=["x", "y"], scens=sc, weight=1 + len(sc) / 8))
        def wr(ctx):
            A = [row[:] for row in ctx.M("A")]; A[ctx.ints["x"]][ctx.ints["y"]] = ctx.s("s"); return {"A": ctx.M("A"), "R": A}
        out.append(Inst("C25", "B=A; B[x][y]=s", T, [("A", r, c, T, "inout"), ("s", 0, 0)], [("R", r, c)], "auto B = A; B[x][y] = s; R = B;", value_spec(wr), ints=["x", "y"], scens=sc, weight=1 + len(sc) / 8))
        def cp(ctx, r=r, c=c): return [[ctx.M("A")[i][j] for j in range(c)] for i in range(r)]
        out.append(Inst("C25", "row-major traversal", T, [("A", r, c)], [("R", r, c)], "std::size_t k = 0; for (auto& row : A) for (auto& e : row) { (&R[0][0])[k] = e; ++k; }", value_spec(cp)))
        if r * c <= 9:
            def rels(ctx, r=r, c=c): return [(ctx.M("A")[i][j], ctx.M("B")[i][j], EQ) for i in range(r) for j in range(c)]
            out.append(Inst("C25", "A==B", T, [("A", r, c), ("B", r, c)], [("R", 0, 0, "bool")], "R = (A == B);", predicate_spec(rels), scens=[Scen(), Scen("a copy", alias={"B": "A"})], cap=60))
    return out

def cross_only(sz):
    """uses whose result no property specifies (integer decompositions, non-symmetric or NaN input) but which must still be pure, bounded, finite, allocation-free and unconverted"""
    def none(ctx, o): return []
    out = []; q = sz.tier == "quick"
    def add(op, T, n, code, outs, scens, w=1.0, cap=12): out.append(Inst("X", op, T, [("A", n, n)], outs, code, none, scens=scens, cap=cap, throws=lambda ctx, o: True, weight=w))
    for T in FLOATS:
        nan = [Scen("NaN allowed", nan=True)]
        for n in range(1, 6):
            if T != "float" and n not in (2, 4): continue
            add("chol(A)", T, n, "R = mlib::chol(A);", [("R", n, n)], nan, 1 + n * n / 6)
            add("lu(A)", T, n, "auto q = mlib::lu(A); P = q.first; U = q.second;", [("P", n, n), ("U", n, n)], nan, 1 + n * n / 4)
            add("det(A)", T, n, "R = mlib::det(A);", [("R", 0, 0)], nan, 1 + n * n / 2)
            if n < 5: add("inv(A)", T, n, "R = mlib::inv(A);", [("R", n, n)], nan, 1 + n * n, 6)
        for p in (-3, 5): add("pow(A,%d)" % p, T, 2, "R = mlib::pow(A, %d);" % p, [("R", 2, 2)], nan, 3)
    for T in ["signed char", "short", "int", "long", "long long", "unsigned", "unsigned long"]:
        for n in (2, 3, 4): add("lu(A)", T, n, "auto q = mlib::lu(A); P = q.first; U = q.second;", [("P", n, n), ("U", n, n)], [Scen()], 1 + n * n / 4, 8)
        add("chol(A)", T, 1, "R = mlib::chol(A);", [("R", 1, 1)], [Scen()])
        add("det(A)", T, 4, "R = mlib::det(A);", [("R", 0, 0)], [Scen()], 8, 8)
    for T in ("int", "long", "long long"):
        add("inv(A)", T, 4, "R = mlib::inv(A);", [("R", 4, 4)], [Scen(), Scen("lower triangular", {"A": lambda i, j: 0 if j > i else None}), Scen("diagonal", {"A": lambda i, j: 0 if j != i else None})], 12, 4)
        for p in (-1, 3): add("pow(A,%d)" % p, T, 3, "R = mlib::pow(A, %d);" % p, [("R", 3, 3)], [Scen()], 4, 8)
    for i in out:
        if TYPES[i.T][0][0] != "f": i.scens = [Scen(x.name, x.elems, x.ints) for x in i.scens]
    return out

def instances(prop, sz): return FAM[prop](sz)
def core(sz):
    out = []
    for p in FAM: out += [x for x in FAM[p](sz) if x.core]
    return out
