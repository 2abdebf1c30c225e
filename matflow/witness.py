"""Feasibility of a partition: before a discrepancy is reported, a rational point is sought that
satisfies every fact of the partition and shows the discrepancy.  Value graphs are evaluated,
never the program.  No point found -> the partition is counted as undecided, not reported."""
import random, time
from fractions import Fraction
from math import isqrt
from . import values as V
from .values import Node, Env, Undefined, support
from .facts import LT, EQ, GT, UN, ALL

SCALE = 10 ** 50
class NaNStop(Exception): pass

def q_sqrt(a):
    if a is None: return None
    if a < 0: return None
    n, d = a.numerator, a.denominator
    r, s = isqrt(n), isqrt(d)
    if r * r == n and s * s == d: return Fraction(r, s)
    return Fraction(isqrt(n * SCALE * SCALE // d), SCALE)
def q_inv(a):
    if a is None: return None
    if a == 0: raise Undefined()
    return 1 / a
def trunc(a): return Fraction(a.numerator // a.denominator if a >= 0 else -((-a.numerator) // a.denominator))
class Unknown(Undefined):
    """the graph has a function without an interpretation here"""
def wrap(x, w, signed):
    x = int(x) & ((1 << w) - 1)
    return Fraction(x - (1 << w) if signed and x >> (w - 1) else x)
def half(v): return Fraction((v + Fraction(1, 2)).__floor__()) if v >= 0 else -Fraction((-v + Fraction(1, 2)).__floor__())
ROUND = {"floor": lambda v: Fraction(v.__floor__()), "ceil": lambda v: Fraction(v.__ceil__()), "trunc": trunc,
         "round": half, "roundeven": lambda v: Fraction(round(v)), "rint": lambda v: Fraction(round(v)), "nearbyint": lambda v: Fraction(round(v))}
def q_uf(n, a):
    """two's complement / IEEE meaning of the operations that are uninterpreted when value numbers are compared"""
    from .engine import round_to, S
    name = n.op
    if name == "special": return None if n.args[0] == "nan" else Fraction(10) ** 5000 * n.args[1]
    if any(x is None for x in a): return None
    k = n.kind; w = int(k[1:]) if k[1:].isdigit() else 0
    sg = S.tsigned or (k[0] in "iu" and w > S.tw)
    wa = int(n.args[0].kind[1:]) if n.args and n.args[0].__class__ is Node and n.args[0].kind[0] in "iu" else 0
    if name in ("tdiv", "trem"):
        if a[1] == 0: raise Undefined()
        q = trunc(a[0] / a[1])
        return q if name == "tdiv" else a[0] - a[1] * q
    if name in ("udiv", "urem", "sdiv", "srem"):
        x, y = [wrap(v, w, name[0] == "s") for v in a]
        if y == 0: raise Undefined()
        q = trunc(x / y)
        return wrap(q if name[1:] == "div" else x - y * q, w, sg)
    if name in ("and", "or", "xor"):
        x, y = int(a[0]), int(a[1])
        return wrap(x & y if name == "and" else x | y if name == "or" else x ^ y, w, sg)
    if name in ("shl", "lshr", "ashr"):
        y = int(a[1])
        if not 0 <= y < w: raise Undefined()
        if name == "shl": return wrap(int(a[0]) << y, w, sg)
        return wrap(int(wrap(a[0], w, name == "ashr")) >> y, w, sg)
    if name == "fptoint" or name == "fptouint":
        r = trunc(a[0])
        lo, hi = (0, 1 << w) if name == "fptouint" else (-(1 << (w - 1)), 1 << (w - 1))
        return r if lo <= r < hi else Fraction(lo if lo else 1 << (w - 1))
    if name.startswith("fptrunc"): return round_to(a[0], V.PREC[name[7:]])
    if name.startswith("itofp"): return round_to(a[0], V.PREC[name[5:]])
    if name in ("uitofp", "sitofp") and wa: return round_to(wrap(a[0], wa, name[0] == "s"), V.PREC[k])
    if name.startswith("trunc"): return wrap(a[0], int(name[5:]), S.tsigned)
    if name.startswith("sext"): return wrap(a[0], int(name[4:]), True)
    if name.startswith("zext"): return wrap(a[0], int(name[4:]), False)
    if name == "asunsigned": return wrap(a[0], w, False)
    if name == "assigned": return wrap(a[0], w, True)
    if name.startswith("round:"):
        f = ROUND.get(name[6:])
        if f: return f(a[0])
    if name == "copysign": return abs(a[0]) if a[1] >= 0 else -abs(a[0])
    if name == "frem":
        if a[1] == 0: return None
        return a[0] - a[1] * trunc(a[0] / a[1])
    raise Unknown()

def q_mul(a, b):
    if a is None or b is None: return None
    r = a * b
    if r.numerator.bit_length() > 60000 or r.denominator.bit_length() > 60000: raise Undefined()      # out of reach: this point is no use
    return r

class QF:
    zero = Fraction(0)
    add = staticmethod(lambda a, b: None if a is None or b is None else a + b)
    sub = staticmethod(lambda a, b: None if a is None or b is None else a - b)
    mul = staticmethod(lambda a, b: q_mul(a, b))
    inv = staticmethod(q_inv); const = staticmethod(lambda f: f); sqrt = staticmethod(q_sqrt)
    fabs = staticmethod(lambda a: None if a is None else abs(a)); ufn = staticmethod(q_uf)

class QEnv(Env):
    def __init__(self, assign):
        Env.__init__(self, F=QF, value=lambda n: Fraction(0)); self.assign = dict(assign); self.trivial = False

EPS = Fraction(1, 10 ** 30)
def rel(x, y):
    if x is None or y is None: return UN
    d = x - y
    if abs(d) <= EPS: return EQ
    return LT if d < 0 else GT

def differ(x, y, tfloat):
    """discrepancy beyond what rounding of constants can explain"""
    if x is None and y is None: return False
    if x is None or y is None: return True
    if not tfloat: return x != y
    return abs(x - y) > TOL.get(tfloat, TOL["f32"]) * max(abs(x), abs(y), Fraction(1, 10 ** 3))
TOL = {"f32": Fraction(1, 10 ** 5), "f64": Fraction(1, 10 ** 12), "f80": Fraction(1, 10 ** 14)}

def conversion_points(roots):
    """values at which the conversions of the graph lose something"""
    out = set()
    for n in V.walk(roots):
        op = n.op
        if op.startswith("itofp"): out.add(Fraction((1 << V.PREC[op[5:]]) + 1))
        elif op in ("sitofp", "uitofp"): out.add(Fraction((1 << V.PREC.get(n.kind, 24)) + 1))
        elif op.startswith("fptrunc"): out |= {1 + Fraction(3, 1 << (V.PREC[op[7:]] + 1)), Fraction((1 << V.PREC[op[7:]]) + 1)}
        elif op in ("fptoint", "fptouint"): out |= {Fraction(3, 4), Fraction(7, 2), Fraction((1 << int(n.kind[1:])) + 5)}
        elif op[:5] == "trunc" and op[5:].isdigit(): out |= {Fraction((1 << int(op[5:])) + 3), Fraction((1 << (int(op[5:]) - 1)) + 2)}
        elif op[:4] in ("sext", "zext") and op[4:].isdigit(): out.add(Fraction((1 << (int(op[4:]) - 1)) + 2))
        elif op.startswith("round:"): out |= {Fraction(3, 4), Fraction(7, 2)}
        if len(out) > 16: break
    return out

def fits(env, roots, big):
    """every integer unknown lies in its type, and (for the large sample points) no integer operation overflows"""
    from .engine import S
    for v, x in env.assign.items():
        k = v.kind
        if x is None or k[0] not in "iu": continue
        w = int(k[1:]); u = k[0] == "u" or not S.tsigned
        if not ((0 if u else -(1 << (w - 1))) <= x < (1 << w if u else 1 << (w - 1))): return False
    if big:
        for n in V.walk(roots):
            if n.op in ("+", "-", "*", "neg") and n.kind[0] in "iu" and n.kind[1:].isdigit():
                x = env.ev(n); w = int(n.kind[1:])
                if x is None: continue
                if S.tsigned or w > S.tw:
                    if not -(1 << (w - 1)) <= x < 1 << (w - 1): return False
                elif not 0 <= x < 1 << w: return False
    return True

def interesting(facts, extra):
    """constants of the partition's facts and points around and between them"""
    cs = set()
    roots = [x for a, b, m in facts.rels for x in (a, b)]
    for n in V.walk(roots + list(extra)):
        if n.op == "c" and n.args[0] != 0: cs.add(abs(n.args[0]))
        if len(cs) > 24: break
    cs = sorted(cs); out = set(cs)
    out |= conversion_points(list(roots) + list(extra))
    for c in cs: out |= {c / 2, c * 2, c * Fraction(999, 1000), c * Fraction(1001, 1000), c / 100, c + 1, abs(c - 1)}
    for a, b in zip(cs, cs[1:]): out.add((a + b) / 2)
    return sorted(out)

def sample(vs, rng, k, tfloat, signed, nan, pts=()):
    a = {}
    mode = k % 10
    if mode >= 8:
        if not pts: mode -= 8
        else:
            for v in vs:
                x = rng.choice(pts) if rng.random() < (.8 if mode == 8 else .25) else Fraction(rng.randint(0, 5))
                if not tfloat: x = Fraction(trunc(x))
                if signed and v.kind[0] != "u" and rng.random() < .5: x = -x
                a[v] = x
            return a
    lo = -4 if signed else 0
    base = Fraction(rng.randint(1, 3))
    for v in vs:
        s = v.kind[0] != "u"
        if mode in (0, 1, 5): x = Fraction(rng.randint(lo if s else 0, 5))
        elif mode == 2: x = base
        elif mode == 3: x = Fraction(rng.randint(-50 if signed and s else 0, 50))
        elif mode == 4: x = Fraction(rng.randint(0, 1))
        elif mode == 6: x = Fraction(rng.randint(-8, 8), rng.choice((1, 2, 3))) if tfloat else Fraction(rng.randint(lo, 9))
        else: x = Fraction(rng.randint(1, 9))
        a[v] = x
    if mode in (2, 4) and vs and k > 0:
        for v in rng.sample(vs, min(len(vs), rng.randint(1, 2))):
            a[v] += Fraction(rng.choice((1, 2, 5, 100) if not signed else (1, -1, 2, 5, 100)))
    if nan and rng.random() < 0.5 and vs:
        v = rng.choice(vs)
        if v.kind[0] == "f": a[v] = None
    return a

def rounded(env, n, kind, memo=None):
    """value of the graph when every operation rounds to its own precision, as stored in the given kind"""
    from .engine import round_to
    memo = {} if memo is None else memo
    def go(x):
        r = memo.get(x.id, memo)
        if r is not memo: return r
        if x.op == "c": r = x.args[0]
        elif x.op == "v": r = env.ev(x)
        else:
            a = [go(y) for y in x.args if isinstance(y, Node)]
            if None in a: r = None
            else:
                r = V.apply_op(QF, x, a)
                pr = V.PREC.get(x.kind)
                if pr and r is not None and x.op in ("+", "-", "*", "/", "sqrt"): r = round_to(r, pr)
        memo[x.id] = r
        return r
    r = go(n)
    pr = V.PREC.get(kind)
    return round_to(r, pr) if pr and r is not None else r

EMIN = {"f32": -149, "f64": -1074, "f80": -16445}
EMAX = {"f32": 128, "f64": 1024, "f80": 16384}
def ieee(v, kind):
    """round to nearest even in the given format, gradual underflow included"""
    from .engine import round_to
    if v == 0: return v
    r = round_to(v, V.PREC[kind])
    u = Fraction(2) ** EMIN[kind]
    if abs(r) < u * (1 << (V.PREC[kind] - 1)): r = Fraction(round(v / u)) * u
    if abs(r) >= Fraction(2) ** EMAX[kind]: raise Undefined()
    return r
def ieee_eval(env, n, memo):
    if not isinstance(n, Node): return n
    r = memo.get(n.id, memo)
    if r is not memo: return r
    if n.op == "v": r = env.ev(n)
    elif n.op == "c": r = n.args[0]
    else:
        a = [ieee_eval(env, y, memo) for y in n.args if isinstance(y, Node)]
        r = None if None in a else V.apply_op(QF, n, a)
    if r is not None and n.kind in EMIN: r = ieee(r, n.kind)
    memo[n.id] = r
    return r
def exact_rel(x, y): return UN if x is None or y is None else LT if x < y else GT if x > y else EQ
def find_ieee(facts, rs, kind, seed=1, secs=1):
    """equality predicates in the arithmetic of the element type: a point near one that satisfies the definition, at which the
    definition fails but every rounded comparison of the partition goes the partition's way"""
    if kind not in EMIN: return None
    nodes = [x for a, b, m in rs for x in (a, b)]
    t0 = time.process_time(); rng = random.Random(seed)
    e = EMIN[kind]; p = V.PREC[kind]
    deltas = [Fraction(2) ** (e // 2 - 4), Fraction(2) ** (e // 2 + p), Fraction(2) ** (1 - p), Fraction(2) ** e, Fraction(2) ** (-p - 3), Fraction(2) ** (-p // 2 - 2), Fraction(2) ** (e // 4)]
    for k in range(3):
        env = find(facts, nodes, True, True, want=lambda v: all(exact_rel(v.ev(a), v.ev(b)) & m for a, b, m in rs), seed=seed + k, tries=60, secs=secs)
        if env is None: return None
        base = dict(env.assign)
        if k == 1: base = {v: ieee(x * Fraction(2) ** (p // 2 + 3), kind) if x is not None else x for v, x in base.items()}
        vs = sorted(base, key=lambda v: v.id)
        for t in range(120):
            if time.process_time() - t0 > secs: return None
            a = dict(base); v = rng.choice(vs)
            if a[v] is None: continue
            d = rng.choice(deltas) * rng.choice((1, -1)) * (abs(a[v]) if rng.random() < .5 and a[v] else 1)
            try:
                a[v] = ieee(a[v] + d, kind)
                if any(x is not None and ieee(x, kind) != x for x in a.values()): continue
                env = QEnv(a); memo = {}
                if all(exact_rel(env.ev(p_), env.ev(q_)) & m for p_, q_, m in rs): continue
                if all(exact_rel(ieee_eval(env, p_, memo), ieee_eval(env, q_, memo)) & m for p_, q_, m in facts.rels): return env
            except (Undefined, ZeroDivisionError): continue
    return None

def extreme(kind, rng):
    """a representable value of any magnitude the format has"""
    p = V.PREC[kind]; e = EMAX[kind]
    x = rng.randint(0, 9)
    if x == 0: return Fraction(0)
    if x <= 2: return Fraction(rng.randint(1, 5)) * rng.choice((1, -1))
    m = Fraction(rng.choice((1, 1, 3, rng.getrandbits(p) | 1 | 1 << (p - 1))))
    m /= 1 << (m.numerator.bit_length() - 1)
    k = rng.choice((-e // 2 - 15, -e // 2 + 2, e // 2 + 15, e // 2 - 3, -e + 5, e - 6, -e // 4, e // 4, -p, p, EMIN[kind] + 3, 0))
    return ieee(m * Fraction(2) ** k, kind) * rng.choice((1, -1))
def find_rounded(facts, nodes, kind, want, seed=1, tries=400, secs=1, draw=None):
    """a point of the element type at which every comparison of the partition, made in that type's arithmetic, goes the partition's
    way and want(value) holds; value(node) is the node's value in that arithmetic ('overflow' where it leaves the format)"""
    if kind not in EMIN: return None
    vs = set()
    for a, b, m in facts.rels: vs |= support(a) | support(b)
    for n in nodes: vs |= support(n)
    vs = sorted(vs, key=lambda v: v.id); rng = random.Random(seed); t0 = time.process_time()
    if any(v.kind not in EMIN for v in vs): return None
    for k in range(tries):
        if time.process_time() - t0 > secs: return None
        a = draw(rng, vs) if draw else {v: extreme(kind, rng) for v in vs}
        env = QEnv(a); memo = {}
        def value(n):
            try: return ieee_eval(env, n, memo)
            except Undefined: return "overflow"
        try:
            for p_, q_, m in facts.rels:
                if not exact_rel(ieee_eval(env, p_, memo), ieee_eval(env, q_, memo)) & m: break
            else:
                if want(value, env): return env
        except (Undefined, ZeroDivisionError): continue
    return None

def mantissas(prec):
    """sampler of full-length significands of differing magnitude"""
    def f(rng, vs):
        return {v: Fraction(rng.getrandbits(prec) | 1 | 1 << (prec - 1)) * Fraction(2) ** (rng.randint(-2, 2) * rng.choice((1, 1, 8)) - prec) * (-1 if rng.random() < .5 else 1) for v in vs}
    return f

def solve(env, n, target, v, F=QF):
    """move v so that n = target, if n is affine in v"""
    old = env.assign.get(v)
    if old is None: return False
    try:
        env.set(v, Fraction(0)); f0 = env.ev(n)
        env.set(v, Fraction(1)); f1 = env.ev(n)
        env.set(v, Fraction(2)); f2 = env.ev(n)
        if None not in (f0, f1, f2) and f1 != f0 and f2 - f1 == f1 - f0:
            env.set(v, (target - f0) / (f1 - f0)); return True
        # rational in v: numerator may still be linear
        if None not in (f0, f1, f2) and f1 != f0:
            env.set(v, old)
    except (Undefined, ZeroDivisionError): pass
    env.set(v, old); return False

def target(env, p, q, w, rng, tfloat):
    """a wanted value of p - q with the sign w"""
    if w == EQ: return Fraction(0)
    t = Fraction(rng.choice((1, 1, 2, 3, 7)))
    if tfloat:
        u = rng.random()
        if u < .3: t /= rng.choice((8, 8, 1000, 10 ** 5, 10 ** 8, 10 ** 11, 10 ** 15))
        elif u < .6:
            x, y = env.ev(p), env.ev(q)
            b = max((abs(z) for z in (x, y) if z is not None and (p if z is x else q).op == "c"), default=None)
            if b: t = b * Fraction(rng.choice((1, 2, 3)), 4)
    return t if w == GT else -t

def solve_abs(env, p, q, t, c, rng):
    """p - q = t where one side is an absolute value"""
    if p.op == "fabs": inner, val = p.args[0], lambda: env.ev(q) + t
    else: inner, val = q.args[0], lambda: env.ev(p) - t
    try: x = val()
    except TypeError: return False
    if x is None or x < 0: return False
    if rng.random() < .5: x = -x
    z = support(inner)
    return any(solve(env, inner, x, v) for v in c if v in z)

def find(facts, extra, tfloat, signed, want=None, pre=None, sampler=None, seed=1, tries=160, secs=None):
    """an assignment satisfying the facts (and pre) at which want(env) holds, or None"""
    rng = random.Random(seed)
    vs = set()
    for a, b, m in facts.rels: vs |= support(a) | support(b)
    for n in extra: vs |= support(n)
    vs = sorted(vs, key=lambda v: v.id)
    rels = list(facts.rels)
    pts = interesting(facts, extra)
    roots = [x for a, b, m in rels for x in (a, b)] + list(extra)
    big = bool(conversion_points(roots))
    diffs = [V.mk("-", (a, b), "x") for a, b, m in rels]
    t0 = time.process_time()
    for k in range(tries):
        if secs and k >= 3 and time.process_time() - t0 > secs: break
        a = sampler(rng, vs) if sampler and k % 4 != 3 else sample(vs, rng, k, tfloat, signed, facts.nan, pts)
        for v in vs: a.setdefault(v, Fraction(rng.randint(0, 5)))
        env = QEnv(a)
        try:
            ok = False
            for it in range(6 + 4 * len(rels)):
                bad = None
                if secs and it % 8 == 7 and time.process_time() - t0 > 2 * secs: return None
                if any(x is not None and x.denominator.bit_length() > 600 for x in env.assign.values()): break
                for j, (p, q, m) in enumerate(rels):
                    r = rel(env.ev(p), env.ev(q))
                    if not (r & m): bad = j; break
                if bad is None: ok = True; break
                p, q, m = rels[bad]
                if m == UN:
                    c = [v for v in support(p) | support(q) if v.kind[0] == "f"]
                    if not c: break
                    env.set(rng.choice(sorted(c, key=lambda v: v.id)), None); continue
                ch = [x for x in (LT, EQ, GT) if m & x]
                if not ch: break
                if m & UN and facts.nan and rng.random() < .4:
                    c = sorted((v for v in support(p) | support(q) if v.kind[0] == "f"), key=lambda v: v.id)
                    if c: env.set(rng.choice(c), None); continue
                w = rng.choice(ch)
                t = target(env, p, q, w, rng, tfloat)
                c = sorted(support(diffs[bad]), key=lambda v: v.id); rng.shuffle(c)
                for v in c:
                    if env.assign.get(v) is None: env.set(v, Fraction(rng.randint(0, 3)))
                if p.op == "fabs" or q.op == "fabs":
                    if solve_abs(env, p, q, t, c, rng): continue
                if not any(solve(env, diffs[bad], t, v) for v in c):
                    for v in c: env.set(v, Fraction(rng.randint(-3, 3) if signed else rng.randint(0, 5)))
            if not ok: continue
            if not tfloat and any(x is not None and x.denominator != 1 for x in env.assign.values()): continue
            if not tfloat and not signed and any(x is not None and x < 0 for x in env.assign.values()): continue
            if not fits(env, roots, big): continue
            if pre is not None and not pre(env): continue
            if want is None or want(env): return env
        except (Undefined, ZeroDivisionError):
            continue
    return None

# ------------------------------------------------------------------ infinities
def floats(env, n, memo):
    """value of a term in binary64, infinities and NaN included"""
    import math
    r = memo.get(n.id)
    if r is not None: return r
    if n.op == "v": r = env.get(n, 1.5)
    elif n.op == "c": r = float(n.args[0])
    else:
        a = [floats(env, y, memo) for y in n.args if isinstance(y, Node)]
        if n.op == "+": r = a[0] + a[1]
        elif n.op == "-": r = a[0] - a[1]
        elif n.op == "*": r = a[0] * a[1]
        elif n.op == "/":
            if a[1] == 0: raise Undefined()
            r = a[0] / a[1]
        elif n.op == "neg": r = -a[0]
        elif n.op == "fabs": r = abs(a[0])
        elif n.op == "conv": r = a[0]
        else: raise Undefined()
    memo[n.id] = r
    return r
def find_infinite(facts, n, e):
    """an infinite operand on which n is NaN (or finite) where e is not, and which takes the partition"""
    import math
    vs = sorted(support(n) | support(e), key=lambda v: v.id)
    if len(vs) > 4: return None
    def cls(x): return "nan" if math.isnan(x) else x if math.isinf(x) else "finite"
    for v in vs:
        for x in (math.inf, -math.inf):
            env = {v: x}; memo = {}
            try:
                if cls(floats(env, n, memo)) == cls(floats(env, e, memo)): continue
                for p, q, m in facts.rels:
                    a, b = floats(env, p, memo), floats(env, q, memo)
                    if not (UN if a != a or b != b else LT if a < b else GT if a > b else EQ) & m: break
                else:
                    r = QEnv({}); r.assign = {u: (x if u is v else 1.5) for u in vs}; return r
            except (Undefined, OverflowError, RecursionError): continue
    return None

def show(env, limit=30):
    r = {}
    for v, x in list(env.assign.items())[:limit]: r[str(v.args[0])] = "NaN" if x is None else str(x)
    return r
