"""Value numbers: hash-consed algebraic terms over the unknown elements of the operands.

A term never has a concrete machine value.  Terms are compared modulo the field axioms
(commutativity, associativity, distributivity, x/x = 1, sqrt(x)^2 = x) by polynomial
identity testing: every unknown is mapped to a random element of GF(p), p = 2^61-1
(GF(p^2) where a square root has to be adjoined), and a term to the image of the
rational function it denotes.  Equal rational functions always get equal images
(no false alarm); different ones collide with probability < degree / 2^61.
Everything that is not a field operation (integer division, narrowing conversions,
|x|, bit operations ...) is an uninterpreted function of the images of its arguments.
"""
import hashlib
from fractions import Fraction

p = (1 << 61) - 1          # = 3 mod 4, so GF(p^2) = GF(p)[i]

class Undefined(Exception):
    """division by an expression that is identically zero"""

# ---------------------------------------------------------------- field arithmetic
def f_add(a, b):
    if a.__class__ is int and b.__class__ is int: return (a + b) % p
    a = a if a.__class__ is tuple else (a, 0); b = b if b.__class__ is tuple else (b, 0)
    return _n(((a[0] + b[0]) % p, (a[1] + b[1]) % p))
def f_sub(a, b):
    if a.__class__ is int and b.__class__ is int: return (a - b) % p
    a = a if a.__class__ is tuple else (a, 0); b = b if b.__class__ is tuple else (b, 0)
    return _n(((a[0] - b[0]) % p, (a[1] - b[1]) % p))
def f_mul(a, b):
    if a.__class__ is int and b.__class__ is int: return a * b % p
    a = a if a.__class__ is tuple else (a, 0); b = b if b.__class__ is tuple else (b, 0)
    return _n(((a[0] * b[0] - a[1] * b[1]) % p, (a[0] * b[1] + a[1] * b[0]) % p))
def f_inv(a):
    if a.__class__ is int:
        if a == 0: raise Undefined()
        return pow(a, -1, p)
    d = (a[0] * a[0] + a[1] * a[1]) % p
    if d == 0: raise Undefined()
    di = pow(d, -1, p)
    return _n((a[0] * di % p, -a[1] * di % p))
def _n(t): return t[0] if t[1] == 0 else t
def f_const(fr):
    return fr.numerator * pow(fr.denominator, -1, p) % p if fr.denominator != 1 else fr.numerator % p
def f_hash(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), "little") % p
def f_sqrt(a):
    if a.__class__ is int:
        r = pow(a, (p + 1) // 4, p)
        if r * r % p == a: return r
        r = pow(-a % p, (p + 1) // 4, p)
        return (0, r)
    return f_hash("sqrt2", a)
def f_fabs(a):
    n = f_sub(0, a)
    k = min((str(a), str(n)))
    return f_hash("fabs", k)

class GF:
    """the field used for comparing terms"""
    add = staticmethod(f_add); sub = staticmethod(f_sub); mul = staticmethod(f_mul)
    inv = staticmethod(f_inv); const = staticmethod(f_const); sqrt = staticmethod(f_sqrt)
    fabs = staticmethod(f_fabs)
    uf = staticmethod(lambda name, *a: f_hash(name, *a))
    zero = 0

PREC = {"f16": 11, "f32": 24, "f64": 53, "f80": 64, "f128": 113}
def bits(kind):
    return int(kind[1:])

class Node:
    __slots__ = ("op", "args", "kind", "id", "fp", "sup")
    def __repr__(self): return show(self)

_tab = {}
SEED = [1]
def reset(seed):
    _tab.clear(); SEED[0] = seed

def var_value(name, salt=0):
    return f_hash("var", SEED[0], salt, name) or 1

def apply_op(F, n, a, order=None, env=None):
    """image of node n given images a of its arguments"""
    op = n.op
    if op == "+": return F.add(a[0], a[1])
    if op == "-": return F.sub(a[0], a[1])
    if op == "*": return F.mul(a[0], a[1])
    if op == "/": return F.mul(a[0], F.inv(a[1]))
    if op == "neg": return F.sub(F.zero, a[0])
    if op == "conv": return a[0]
    if op == "sqrt": return F.sqrt(a[0])
    if op == "fabs":
        if order is not None:
            s = order(n.args[0])
            if s > 0: return a[0]
            if s < 0: return F.sub(F.zero, a[0])
        return F.fabs(a[0])
    if F is not GF: return F.ufn(n, a)
    return F.uf((op,) + tuple(x for x in n.args if not isinstance(x, Node)), *a)

def mk(op, args, kind):
    key = (op, args, kind)
    n = _tab.get(key)
    if n is not None: return n
    n = Node(); n.op = op; n.args = args; n.kind = kind; n.id = len(_tab); n.sup = None
    if op == "c": n.fp = f_const(args[0])
    elif op == "v": n.fp = var_value(args[0])
    else:
        a = [x.fp for x in args if x.__class__ is Node]
        try:
            n.fp = None if None in a else apply_op(GF, n, a)
        except Undefined:
            n.fp = None
    _tab[key] = n
    return n

def const(fr, kind):
    return mk("c", (fr if fr.__class__ is Fraction else Fraction(fr),), kind)
def var(name, kind): return mk("v", (name,), kind)

def is_c(n): return n.op == "c"

def support(n):
    """the set of unknowns a term depends on (iterative, memoised at the roots asked for)"""
    if n.sup is not None: return n.sup
    seen = {n.id}; stack = [n]; s = set()
    while stack:
        x = stack.pop()
        if x.op == "v": s.add(x); continue
        for y in x.args:
            if y.__class__ is Node and y.id not in seen:
                seen.add(y.id)
                if y.sup is not None: s |= y.sup
                else: stack.append(y)
    n.sup = frozenset(s)
    return n.sup

def walk(roots):
    seen = set(); st = [r for r in roots if isinstance(r, Node)]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id); yield x
        for y in x.args:
            if y.__class__ is Node: st.append(y)

# ---------------------------------------------------------------- constructors with light folding
KEEP = [False]         # no folding of neutral elements (copies are told from computations)
def add(a, b, k):
    if a.op == "c":
        if b.op == "c": return const(a.args[0] + b.args[0], k)
        if a.args[0] == 0 and not KEEP[0]: return b
    elif b.op == "c" and b.args[0] == 0 and not KEEP[0]: return a
    return mk("+", (a, b), k)
def sub(a, b, k):
    if b.op == "c":
        if a.op == "c": return const(a.args[0] - b.args[0], k)
        if b.args[0] == 0: return a
    return mk("-", (a, b), k)
def mul(a, b, k):
    if a.op == "c":
        if b.op == "c": return const(a.args[0] * b.args[0], k)
        if a.args[0] == 1: return b
    elif b.op == "c" and b.args[0] == 1: return a
    return mk("*", (a, b), k)
def div(a, b, k):
    if b.op == "c" and b.args[0] != 0:
        if a.op == "c": return const(a.args[0] / b.args[0], k)
        if b.args[0] == 1: return a
    return mk("/", (a, b), k)
def neg(a, k):
    if a.op == "c": return const(-a.args[0], k)
    return mk("neg", (a,), k)
def fabs(a, k):
    if a.op == "c": return const(abs(a.args[0]), k)
    return mk("fabs", (a,), k)
def sqrt(a, k):
    if a.op == "c" and a.args[0] in (0, 1): return a
    return mk("sqrt", (a,), k)

def show(n, depth=6):
    if not isinstance(n, Node): return str(n)
    op = n.op
    if op == "c": return str(n.args[0])
    if op == "v": return str(n.args[0])
    if depth == 0: return "..."
    a = [show(x, depth - 1) for x in n.args]
    if op in "+-*/" and len(a) == 2: return "(%s %s %s)" % (a[0], op, a[1])
    if op == "neg": return "-" + a[0]
    if op == "conv": return a[0]
    return "%s(%s)" % (op, ", ".join(a))

# ---------------------------------------------------------------- evaluation in another assignment
class Env:
    """An assignment of field elements to the unknowns, adjustable so that given terms vanish
    (a generic point of the variety cut out by the equality facts of a partition)."""
    def __init__(self, F=GF, value=var_value, order=None):
        self.F = F; self.assign = {}; self.memo = {}; self.zeros = []; self.exact = True
        self.value = value; self.order = order; self.trivial = F is GF and order is None
    def ev(self, n):
        if self.trivial: 
            if n.fp is None: raise Undefined()
            return n.fp
        memo = self.memo
        r = memo.get(n.id)
        if r is not None: return r
        stack = [n]
        while stack:
            x = stack[-1]
            if x.id in memo: stack.pop(); continue
            if x.op == "c": memo[x.id] = self.F.const(x.args[0]); stack.pop(); continue
            if x.op == "v":
                memo[x.id] = self.assign[x] if x in self.assign else self.value(x.args[0])
                stack.pop(); continue
            ch = [y for y in x.args if y.__class__ is Node]
            todo = [y for y in ch if y.id not in memo]
            if todo: stack.extend(todo); continue
            memo[x.id] = apply_op(self.F, x, [memo[y.id] for y in ch], self.order)
            stack.pop()
        return memo[n.id]
    def set(self, v, val):
        self.assign[v] = val; self.memo.clear(); self.trivial = False
    def vanish(self, n):
        """move the assignment onto {n = 0}; False if impossible to arrange"""
        F = self.F
        try:
            if self.ev(n) == F.zero:
                self.zeros.append(n); return True
        except Undefined:
            return False
        order = sorted(support(n), key=lambda v: (sum(v in support(z) for z in self.zeros), v.id))
        saved = dict(self.assign); triv = self.trivial
        one = F.const(Fraction(1)); two = F.const(Fraction(2))
        for v in order:
            try:
                self.set(v, F.zero); f0 = self.ev(n)
                self.set(v, one); f1 = self.ev(n)
                self.set(v, two); f2 = self.ev(n)
                s = F.sub(f1, f0)
                if s == F.zero or F.sub(f2, f1) != s:
                    raise Undefined()
                self.set(v, F.mul(F.sub(F.zero, f0), F.inv(s)))
                if self.ev(n) == F.zero and all(self.ev(z) == F.zero for z in self.zeros):
                    self.zeros.append(n); return True
            except (Undefined, ZeroDivisionError):
                pass
            self.assign = dict(saved); self.memo.clear(); self.trivial = triv
        self.exact = False
        return False
