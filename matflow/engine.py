"""matflow: abstract interpreter over LLVM IR.

Domains: flat constants for control integers, (object, offset) for pointers, algebraic value
numbers (values.py) for element data, relational facts (facts.py) for data-dependent branches.
Nothing of the analysed program is executed; element data never has a concrete value."""
import random, re, time, struct, sys
from fractions import Fraction
from . import llvmc as L, values as V
from .values import Node, mk, const, var
from .facts import Facts, LT, EQ, GT, UN, ALL, flip
sys.setrecursionlimit(200000)

class Unsupported(Exception): pass
class Infeasible(Exception): pass
class Stop(Exception):
    """end of a partition other than by return or throw"""
    def __init__(self, kind, msg, loc=None):
        self.kind = kind; self.msg = msg; self.loc = loc
class Throw(Exception):
    def __init__(self, ti, obj, loc): self.ti = ti; self.obj = obj; self.loc = loc

class Undef:
    def __repr__(self): return "uninitialised"
    def __getitem__(self, k): raise Stop("uninit", "an uninitialised value is used as an address")
UNDEF = Undef()

class Obj:
    __slots__ = ("id", "size", "cells", "esz", "zero", "kind", "name", "dead", "ro", "loc", "tag")
    def __init__(self, size, kind, name="", ro=False):
        S.nobj += 1
        self.id = S.nobj; self.size = size; self.cells = {}; self.esz = 0; self.zero = None
        self.kind = kind; self.name = name; self.dead = False; self.ro = ro; self.loc = None; self.tag = None
    def __repr__(self): return "<%s %s>" % (self.kind, self.name)

class Cond:
    __slots__ = ("mask", "a", "b")
    def __init__(self, mask, a, b): self.mask = mask; self.a = a; self.b = b

class Pack:
    """bytes of several abstract cells moved together (ABI-coerced copies)"""
    __slots__ = ("pieces", "size")
    def __init__(self, pieces, size): self.pieces = pieces; self.size = size

class State: pass
S = State()
S.nobj = 0
NULLOBJ = Obj(0, "null"); NULL = (NULLOBJ, 0)

# ------------------------------------------------------------------ types
class Types:
    def __init__(self, td): self.td = td; self.cache = {}
    def get(self, t):
        r = self.cache.get(t)
        if r is None: r = self.cache[t] = self._mk(t)
        return r
    def _mk(self, t):
        k = L.TK.get(L.TypeKind(t))
        if k == "int": return ("i", L.IntWidth(t), L.StoreSize(self.td, t))
        if k == "float": return ("f", "f32", 4)
        if k == "double": return ("f", "f64", 8)
        if k == "x86_fp80": return ("f", "f80", 10)
        if k == "fp128": return ("f", "f128", 16)
        if k == "half": return ("f", "f16", 2)
        if k == "ptr": return ("p", 64, 8)
        if k == "struct":
            n = L.CountStruct(t)
            return ("s", [(L.OffsetOfElement(self.td, t, i), self.get(L.StructElem(t, i))) for i in range(n)],
                    L.ABISize(self.td, t))
        if k == "array":
            e = L.ElemType(t); es = L.ABISize(self.td, e); n = L.ArrayLength(t); et = self.get(e)
            return ("s", [(i * es, et) for i in range(n)] if n <= 65536 else None, n * es)
        if k == "vector":
            e = L.ElemType(t); es = L.ABISize(self.td, e); n = L.VectorSize(t); et = self.get(e)
            return ("v", [(i * es, et) for i in range(n)], n * es)
        if k == "void": return ("void", 0, 0)
        return ("other", k, 0)

def zero_of(ty):
    k = ty[0]
    if k == "i": return 0
    if k == "f": return const(0, ty[1])
    if k == "p": return NULL
    return [zero_of(t) for _, t in ty[1]]
def undef_of(ty):
    if ty[0] in "sv": return [undef_of(t) for _, t in ty[1]]
    return UNDEF

def bits_to_float(b, kind):
    if kind == "f32":
        x = struct.unpack("<f", struct.pack("<I", b))[0]
    elif kind == "f64":
        x = struct.unpack("<d", struct.pack("<Q", b))[0]
    elif kind == "f80":
        m = b & ((1 << 64) - 1); e = (b >> 64) & 0x7fff; s = -1 if b >> 79 else 1
        if e == 0x7fff: return mk("special", ("inf" if m << 1 & ((1 << 64) - 1) == 0 else "nan", s), kind)
        if m == 0: return const(0, kind)
        return const(Fraction(s * m) * Fraction(2) ** (e - 16383 - 63), kind)
    else: raise Unsupported("float kind " + kind)
    if x != x: return mk("special", ("nan", 1), kind)
    if x in (float("inf"), float("-inf")): return mk("special", ("inf", 1 if x > 0 else -1), kind)
    return const(Fraction(x), kind)

# ------------------------------------------------------------------ memory
def where(I):
    """file:line (function) of an instruction"""
    if I is None: return None
    d = L.DebugLoc(I)
    if not d: return None
    return "%s:%d" % d

def bounds(o, off, size, I, what):
    if o.dead: raise Stop("oob", "%s of storage whose lifetime has ended (%s)" % (what, o.name), where(I))
    if o is NULLOBJ: raise Stop("oob", "%s through a null pointer" % what, where(I))
    if off < 0 or off + size > o.size:
        raise Stop("oob", "%s of %d bytes at offset %d of %s (%d bytes)" % (what, size, off, o.name or o.kind, o.size), where(I))

def overlaps(o, off, size):
    c = o.cells
    if len(c) * 1 > size + 16:
        return [x for x in range(off - 16, off + size) if x in c and x + c[x][0] > off]
    return [x for x in c if x < off + size and x + c[x][0] > off]

def carve(o, off, size):
    """remove the bytes [off, off+size) from the cells, keeping the rest of split cells"""
    for x in overlaps(o, off, size):
        n, v = o.cells.pop(x)
        if x < off: put(o, x, off - x, piece(v, n, 0, off - x))
        if x + n > off + size: put(o, off + size, x + n - off - size, piece(v, n, off + size - x, x + n - off - size))
    if o.zero:
        z = []
        for lo, hi in o.zero:
            if lo < off: z.append((lo, min(hi, off)))
            if hi > off + size: z.append((max(lo, off + size), hi))
        o.zero = [t for t in z if t[0] < t[1]] or None

def piece(v, n, lo, size):
    if lo == 0 and size == n: return v
    if v.__class__ is int: return (v >> (8 * lo)) & ((1 << (8 * size)) - 1)
    if v is UNDEF: return UNDEF
    if v.__class__ is Pack: return pack_slice(v, lo, size)
    if v.__class__ is Node and v.op == "c" and v.args[0] == 0: return 0
    return Pack([(0, size, ("part", v, n, lo, size))], size)

def put(o, off, size, v):
    if v.__class__ is Pack and not (len(v.pieces) == 1 and v.pieces[0][2].__class__ is tuple and v.pieces[0][2][0] == "part"):
        for r, n, x in v.pieces: put(o, off + r, n, x)
        return
    o.cells[off] = (size, v); o.esz = size if o.esz in (0, size) else -1

def pack_slice(pk, lo, size):
    out = []
    for r, n, x in pk.pieces:
        a, b = max(r, lo), min(r + n, lo + size)
        if a < b: out.append((a - lo, b - a, x if b - a == n else piece(x, n, a - r, b - a)))
    if len(out) == 1 and out[0][0] == 0 and out[0][1] == size: return out[0][2]
    return Pack(out, size)

def add_zero(o, lo, hi):
    z = []
    for a, b in o.zero or ():
        if b < lo or a > hi: z.append((a, b))
        else: lo = min(lo, a); hi = max(hi, b)
    z.append((lo, hi)); o.zero = z

def covered_zero(o, off, size):
    if o.zero:
        for lo, hi in o.zero:
            if lo <= off and off + size <= hi: return True
    return False

def coerce(v, ty, I):
    k = ty[0]
    if k == "f":
        if v.__class__ is int: return bits_to_float(v, ty[1])
        if v.__class__ is Node and v.op == "c" and v.kind[0] != "f" and v.args[0] == 0: return const(0, ty[1])
        if v.__class__ is Pack: return join_float(v, ty)
    elif k == "p" and v.__class__ is int:
        return NULL if v == 0 else (NULLOBJ, v)
    return v
def join_float(v, ty):
    return mk("bytes", tuple(x for _, _, x in v.pieces if x.__class__ is Node), ty[1])

def load(p, ty, I):
    k = ty[0]
    if k in "sv" and len(k) == 1:
        if k == "s" and ty[1] is None: raise Unsupported("huge aggregate load")
        return [load((p[0], p[1] + o), t, I) for o, t in ty[1]]
    o, off = p; size = ty[2]
    if o.kind in SPECIAL_KINDS:
        return SPECIAL_KINDS[o.kind](o, off, ty, I)
    bounds(o, off, size, I, "read")
    c = o.cells.get(off)
    if c is not None and c[0] == size: return coerce(c[1], ty, I)
    ov = overlaps(o, off, size)
    if not ov:
        if covered_zero(o, off, size): return zero_of(ty)
        if o.zero and any(a < off + size and b > off for a, b in o.zero) and o.tag != "havoc":
            return Pack([(q, 1, 0 if covered_zero(o, off + q, 1) else UNDEF) for q in range(size)], size) if k == "i" else UNDEF
        if o.tag == "havoc":
            S.events.append(("gload", o.name, where(I)))
            kd = ty[1] if k == "f" else "i%d" % ty[1]
            v = var("global %s+%d" % (o.name, off), kd) if k in "if" else None
            if v is None: raise Unsupported("pointer read from mutable global %s" % o.name)
            o.cells[off] = (size, v); return v
        return UNDEF
    # assemble
    out = []; pos = off; ov.sort()
    for x in ov + [off + size]:
        if x > pos:
            n = min(x, off + size) - pos
            if covered_zero(o, pos, n): out.append((pos - off, n, 0))
            elif not o.zero: out.append((pos - off, n, UNDEF))
            else: out.extend((q - off, 1, 0 if covered_zero(o, q, 1) else UNDEF) for q in range(pos, pos + n))
            pos += n
        if x == off + size and x not in ov: break
        n, v = o.cells[x]
        a, b = max(x, off), min(x + n, off + size)
        if a < b:
            out.append((a - off, b - a, piece(v, n, a - x, b - a))); pos = b
    flat = []
    for r, n, x in out:
        if x.__class__ is Pack: flat.extend((r + q, m, y) for q, m, y in x.pieces)
        else: flat.append((r, n, x))
    if all(x.__class__ is int for _, _, x in flat):
        return coerce(sum(x << (8 * r) for r, n, x in flat), ty, I)
    if all(x.__class__ is int or (x.__class__ is Node and x.op == "c" and x.args[0] == 0) for _, _, x in flat):
        return coerce(sum((x if x.__class__ is int else 0) << (8 * r) for r, n, x in flat), ty, I)
    if all(x is UNDEF for _, _, x in flat): return UNDEF
    # re-joining the parts of one split cell
    y = flat[0][2]
    if y.__class__ is tuple and len(y) == 5 and y[0] == "part" and y[3] == 0 and y[2] == size:
        if sum(n for _, n, x in flat if x.__class__ is tuple and len(x) == 5 and x[1] is y[1]) == size: return coerce(y[1], ty, I)
    if k == "f": return join_float(Pack(flat, size), ty)
    return Pack(flat, size)

def store(p, v, ty, I):
    k = ty[0]
    if k in "sv" and len(k) == 1:
        if v.__class__ is list:
            for (o, t), x in zip(ty[1], v): store((p[0], p[1] + o), x, t, I)
            return
    o, off = p; size = ty[2]
    bounds(o, off, size, I, "write")
    note_write(o, off, v, I)
    if o.kind == "stream":
        S.fmt[o.name, off] = v; S.fmtloc[o.name, off] = where(I); return
    if o.tag == "guarded" and v.__class__ is Node and v.op != "c":
        S.events.append(("gstore", o.name, where(I)))
        v = var("static %s+%d" % (o.name, off), v.kind)
    c = o.cells.get(off)
    if c is not None and c[0] == size and v.__class__ is not Pack:
        if c[1] is not v:
            S.memver += 1
            if S.journals: journal(o)
        o.cells[off] = (size, v); return
    S.memver += 1
    if S.journals: journal(o)
    if o.zero is None and v.__class__ is not Pack and (o.esz == 0 or (o.esz == size and off % size == 0)):
        o.cells[off] = (size, v); o.esz = size; return
    carve(o, off, size)
    put(o, off, size, v)

def journal(o):
    """remembers what an object held when each running loop was last sampled"""
    for j in S.journals.values():
        if o not in j: j[o] = (dict(o.cells), list(o.zero) if o.zero else None, o.dead)
def unchanged(j, born):
    """the memory is as it was at the sample; objects made since then cannot be reached if the rest is equal"""
    for o, (cells, zero, dead) in j.items():
        if o.id > born: continue
        if o.dead != dead or len(o.cells) != len(cells) or (o.zero or None) != (zero or None): return False
        for k, (n, v) in cells.items():
            c = o.cells.get(k)
            if c is None or c[0] != n or not (c[1] is v or (v.__class__ in (int, tuple) and c[1] == v)): return False
    return True

def note_write(o, off, v, I):
    if o.ro:
        S.events.append(("opwrite", o.name, where(I)))
    elif o.kind == "global" and not S.initing:
        if o.tag == "guard": return
        if o.tag != "guarded" or not S.ginit: S.events.append(("gstore", o.name, where(I)))
    elif o.kind == "const":
        S.events.append(("constwrite", o.name, where(I)))

def memcopy(d, s, n, I):
    if n == 0: return
    if n.__class__ is not int: raise Unsupported("copy of data-dependent length")
    do, doff = d; so, soff = s
    if so.kind in SPECIAL_KINDS: raise Unsupported("copy from " + so.kind)
    bounds(do, doff, n, I, "write"); bounds(so, soff, n, I, "read")
    note_write(do, doff, None, I)
    if do.kind == "stream": return
    if so.tag == "havoc":
        # materialise every byte range of a mutable global before copying it
        step = so.esz if so.esz > 0 else 4
        for x in range(soff, soff + n, step):
            if not overlaps(so, x, step): load((so, x), ("i", 8 * step, step), I)
    S.memver += 1
    if S.journals: journal(do)
    cells = []
    for x in overlaps(so, soff, n):
        m, v = so.cells[x]
        a, b = max(x, soff), min(x + m, soff + n)
        if do.tag == "guarded" and v.__class__ is Node and v.op != "c":
            S.events.append(("gstore", do.name, where(I))); v = var("static %s+%d" % (do.name, x), v.kind)
        cells.append((a - soff, b - a, v if b - a == m else piece(v, m, a - x, b - a)))
    zs = [(max(lo, soff) - soff, min(hi, soff + n) - soff) for lo, hi in (so.zero or ()) if lo < soff + n and hi > soff]
    carve(do, doff, n)
    for a, b in zs: add_zero(do, doff + a, doff + b)
    for r, m, v in cells: put(do, doff + r, m, v)
    if do.esz == -1 and do.cells:
        ss = {c[0] for c in do.cells.values()}
        if len(ss) == 1:
            z = ss.pop()
            if all(o % z == 0 for o in do.cells): do.esz = z

def memfill(d, v, n, I):
    if n == 0: return
    if n.__class__ is not int: raise Unsupported("fill of data-dependent length")
    o, off = d
    bounds(o, off, n, I, "write"); note_write(o, off, None, I)
    if o.kind == "stream":
        S.fmt[o.name, off] = v; S.fmtloc[o.name, off] = where(I); return
    S.memver += 1
    if S.journals: journal(o)
    carve(o, off, n)
    if v.__class__ is int and v == 0:
        add_zero(o, off, off + n)
    else:
        for x in range(off, off + n): put(o, x, 1, v)

def address(p):
    return (p[0].id << 32) + p[1]

# ------------------------------------------------------------------ decisions on element data
def lift(x, w, unsigned=False):
    if x.__class__ is int:
        if not unsigned and x >> (w - 1): x -= 1 << w
        return const(x, "i%d" % w)
    if x.__class__ is Node: return x
    if x is UNDEF: return UNDEF
    if x.__class__ is Cond: return const(decide(x), "i%d" % w)
    if x.__class__ is Pack: return mk("bytes", tuple(y for _, _, y in x.pieces if y.__class__ is Node), "i%d" % w)
    raise Unsupported("arithmetic on %r" % (x,))

def decide(c, I=None):
    if c.__class__ is int: return c
    if c.__class__ is not Cond:
        if c is UNDEF: raise Stop("uninit", "a branch depends on an uninitialised value", where(I))
        if c.__class__ is Node: c = Cond(ALL & ~EQ, c, const(0, c.kind))
        else: raise Unsupported("branch on %r" % (c,))
    m = S.facts.query(c.a, c.b)
    t = m & c.mask; f = m & ~c.mask
    if not f: return 1
    if not t: return 0
    i = S.ndec; S.ndec += 1
    if i < len(S.prefix): ch = S.prefix[i]
    else:
        ch = 0 if c.mask & 7 == EQ else 1
        if i < S.maxdec: S.alts.append((S.trail, i))
        else: S.truncated = True
    S.trail.append(ch)
    S.log.append((I, c, ch))
    if not S.facts.assume(c.a, c.b, c.mask if ch else ALL & ~c.mask): raise Infeasible()
    return ch

def fresh_bit(name, I=None):
    return decide(Cond(EQ, var(name, "u1"), const(1, "u1")), I)

# ------------------------------------------------------------------ data arithmetic
def sx(x, w): return x - (1 << w) if x >> (w - 1) else x

def opaque(tag, kind, *a):
    return mk(tag, a, kind)

def int_data(op, a, b, w, I):
    """integer operation with at least one element-data operand"""
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.__class__ is tuple or b.__class__ is tuple: return ptr_int(op, a, b, w, I)
    if a.__class__ is Pack or b.__class__ is Pack: return pack_op(op, a, b, w, I)
    if w == 1:
        a = decide(a, I); b = decide(b, I)
        return {"add": a ^ b, "sub": a ^ b, "xor": a ^ b, "mul": a & b, "and": a & b, "or": a | b}[op]
    k = "i%d" % w
    u = op in ("udiv", "urem", "lshr")
    x = lift(a, w, u and S.tw == w and not S.tsigned); y = lift(b, w, u and S.tw == w and not S.tsigned)
    if x is UNDEF or y is UNDEF: return UNDEF
    if x.kind[0] == "f": x = opaque("bitcast", k, x)
    if y.kind[0] == "f": y = opaque("bitcast", k, y)
    if op == "add": return V.add(x, y, k)
    if op == "sub": return V.sub(x, y, k)
    if op == "mul": return V.mul(x, y, k)
    if op in ("sdiv", "udiv", "srem", "urem"):
        if S.facts.is_zero(y) or (y.op == "c" and y.args[0] == 0):
            raise Stop("ub", "integer division by zero", where(I))
        good = (op[0] == "s") == S.tsigned or (op[0] == "s" and w > S.tw)
        if op[1:] == "div":
            if y.op == "c" and y.args[0] == 1: return x
            if y.op == "c" and y.args[0] == -1 and good: return V.neg(x, k)
            if good and S.facts.is_zero(x): return const(0, k)
            if good and x.op == "*":
                if x.args[0] is y: return x.args[1]
                if x.args[1] is y: return x.args[0]
            if good and x is y: return const(1, k)
            return mk("tdiv" if good else op, (x, y), k)
        return mk("trem" if good else op, (x, y), k)
    if op == "shl" and y.op == "c": return V.mul(x, const(1 << int(y.args[0]), k), k)
    if op == "xor":
        if y.op == "c" and y.args[0] == -1: return V.sub(const(-1, k), x, k)
        if x is y: return const(0, k)
    if op == "and" and y.op == "c" and y.args[0] == -1: return x
    if op in ("and", "or", "xor"):
        if x.id > y.id: x, y = y, x
    return mk(op, (x, y), k)

def ptr_int(op, a, b, w, I):
    if op == "sub" and a.__class__ is tuple and b.__class__ is tuple:
        if a[0] is b[0]: return (a[1] - b[1]) & ((1 << w) - 1)
        return (address(a) - address(b)) & ((1 << w) - 1)
    if op == "add" and b.__class__ is int: return (a[0], a[1] + sx(b, w))
    if op == "add" and a.__class__ is int: return (b[0], b[1] + sx(a, w))
    if op == "sub" and b.__class__ is int: return (a[0], a[1] - sx(b, w))
    if op in ("and", "lshr", "urem", "or", "xor") and b.__class__ is int and a.__class__ is tuple:
        x = address(a)
        return {"and": x & b, "lshr": x >> b, "urem": x % b if b else 0, "or": x | b, "xor": x ^ b}[op]
    raise Unsupported("%s on pointers" % op)

def pack_op(op, a, b, w, I):
    if a.__class__ is Pack and b.__class__ is int:
        if op == "lshr" and b % 8 == 0: 
            r = pack_slice(a, b // 8, a.size - b // 8)
            return Pack([(0, a.size - b // 8, r), (a.size - b // 8, b // 8, 0)], a.size) if r.__class__ is not Pack else \
                   Pack(r.pieces + [(a.size - b // 8, b // 8, 0)], a.size)
        if op in ("or", "add", "xor") and b == 0: return a
        if op == "and" and b == (1 << w) - 1: return a
    return opaque(op + "bytes", "i%d" % w, *[y for z in (a, b) for y in (
        [q for _, _, q in z.pieces if q.__class__ is Node] if z.__class__ is Pack else [lift(z, w)] )])

IPRED = {32: EQ, 33: LT | GT, 34: GT, 35: GT | EQ, 36: LT, 37: LT | EQ, 38: GT, 39: GT | EQ, 40: LT, 41: LT | EQ}
FPRED = {0: 0, 1: EQ, 2: GT, 3: GT | EQ, 4: LT, 5: LT | EQ, 6: LT | GT, 7: LT | EQ | GT,
         8: UN, 9: UN | EQ, 10: UN | GT, 11: UN | GT | EQ, 12: UN | LT, 13: UN | LT | EQ, 14: UN | LT | GT, 15: ALL}

def icmp_data(pred, a, b, w, I):
    if a is UNDEF or b is UNDEF: return UNDEF
    if a.__class__ is tuple or b.__class__ is tuple:
        if a.__class__ is int: a = coerce(a, ("p",), I)
        if b.__class__ is int: b = coerce(b, ("p",), I)
        if a.__class__ is tuple and b.__class__ is tuple:
            if a[0] is b[0]: x, y = a[1], b[1]
            else: x, y = address(a), address(b)
            r = EQ if x == y else LT if x < y else GT
            return 1 if r & IPRED[pred] else 0
        raise Unsupported("comparison of pointer with data")
    if w == 1:
        a = decide(a, I); b = decide(b, I)
        r = EQ if a == b else LT if a < b else GT
        return 1 if r & IPRED[pred] else 0
    u = pred in (34, 35, 36, 37)
    x = lift(a, w, u); y = lift(b, w, u)
    if x.kind[0] == "f": x = opaque("bitcast", "i%d" % w, x)
    if y.kind[0] == "f": y = opaque("bitcast", "i%d" % w, y)
    if pred >= 34:
        if u and S.tsigned:
            if x.op != "c": x = opaque("asunsigned", "u%d" % w, x)
            if y.op != "c": y = opaque("asunsigned", "u%d" % w, y)
        elif not u and not S.tsigned and w <= S.tw:
            if x.op != "c": x = opaque("assigned", "i%d" % w, x)
            if y.op != "c": y = opaque("assigned", "i%d" % w, y)
    return mkcond(IPRED[pred], x, y)

def mkcond(mask, x, y):
    m = S.facts.query(x, y)
    if not (m & ~mask): return 1
    if not (m & mask): return 0
    return Cond(mask, x, y)

def fcmp(pred, a, b, I):
    if a.__class__ is not Node or b.__class__ is not Node:
        if a is UNDEF or b is UNDEF: return UNDEF
        raise Unsupported("fcmp on %r, %r" % (a, b))
    if a.op == "special" or b.op == "special": return special_cmp(pred, a, b, I)
    return mkcond(FPRED[pred], a, b)

def special_cmp(pred, a, b, I):
    m = FPRED[pred]
    for x, y, fl in ((a, b, False), (b, a, True)):
        if x.op == "special":
            if x.args[0] == "nan": return 1 if m & UN else 0
            r = GT if x.args[1] > 0 else LT
            if fl: r = flip(r)
            if y.op == "special": raise Unsupported("comparison of special constants")
            if S.facts.may_nan(y): raise Unsupported("comparison of NaN-able data with infinity")
            return 1 if m & r else 0

def fbin(op, a, b, k, I):
    if a.__class__ is not Node or b.__class__ is not Node:
        if a is UNDEF or b is UNDEF: return UNDEF
        if a.__class__ is list: return [fbin(op, x, y, k, I) for x, y in zip(a, b)]
        raise Unsupported("float arithmetic on %r, %r" % (a, b))
    if op == "fadd": return V.add(a, b, k)
    if op == "fsub": return V.sub(a, b, k)
    if op == "fmul": return V.mul(a, b, k)
    if op == "fdiv":
        if (b.op == "c" and b.args[0] == 0) or S.facts.is_zero(b):
            S.events.append(("divzero", V.show(b, 3), where(I)))
        return V.div(a, b, k)
    return mk(op, (a, b), k)

def is_data(n): return n.op != "c" and bool(V.support(n))

def narrow_fp(n, k, I):
    """float conversion to kind k"""
    if n.op == "c": return n if n.kind == k else mk("c", n.args, k)
    if n.op == "special": return mk("special", n.args, k)
    return n

# ------------------------------------------------------------------ module / function decoding
class Fn: 
    __slots__ = ("name", "dem", "ptr", "decl", "nargs", "proto", "blocks", "nreg", "byval", "nounwind", "decoded", "ext",
                 "alloca", "arr", "mod", "kind", "esize", "cells", "dead", "size", "id", "ro", "zero", "esz", "tag")
class Blk:
    __slots__ = ("idx", "body", "term", "phid", "phis", "n", "bb")

SPECIAL_KINDS = {}

class Module:
    def __init__(self, path):
        self.raw = L.RawModule(path); self.T = Types(self.raw.td)
        self.fns = {}; self.gobjs = {}; self.by_ptr = {}
        for n, p in self.raw.functions.items():
            f = Fn(); f.name = n; f.dem = None; f.ptr = p; f.decl = bool(L.IsDeclaration(p)); f.nargs = L.CountParams(p)
            f.decoded = False; f.mod = self; f.kind = "fn"; f.dead = False; f.cells = {}; f.size = 0; f.ro = True; f.zero = None
            f.esz = 0; f.tag = None; f.id = len(self.fns) + 1; f.arr = None
            f.nounwind = bool(L.FnAttr(p, 0xffffffff, A_NOUNWIND))
            self.fns[n] = f; self.by_ptr[p] = f
        self.gptr = {p: n for n, p in self.raw.globals.items()}
        self._const_only = {}
    # ---------------------------------------------------------------- globals
    def global_obj(self, n):
        o = S.globals.get(n)
        if o is None: o = S.globals[n] = self.make_global(n)
        return o
    def make_global(self, n):
        g = self.raw.globals[n]
        t = L.GlobalValueType(g)
        try: size = L.ABISize(self.raw.td, t)
        except Exception: size = 8
        if L.IsDeclaration(g):
            if n.startswith(("_ZSt4cout", "_ZSt4cerr", "_ZSt4clog", "_ZSt3cin", "_ZSt5wcout")):
                return Obj(1 << 16, "stream", n)
            if n.startswith(("_ZTI", "_ZTV", "_ZTS")): return Obj(1 << 12, "ext", n)
            o = Obj(max(size, 1), "global", n); o.tag = "havoc"; return o
        isc = bool(L.IsGlobalConstant(g))
        o = Obj(size, "const" if isc else "global", n)
        if not isc and not self.readonly_global(n, g):
            if n.startswith("_ZGV"): o.tag = "guard"
            elif "_ZGV" + n[2:] in self.raw.globals: o.tag = "guarded"
            else:
                o.tag = "havoc"; return o
        S.initing += 1
        try:
            ini = L.Initializer(g)
            if ini: self.init(o, 0, ini, t)
        finally: S.initing -= 1
        if isc: o.kind = "const"
        return o
    def readonly_global(self, n, g):
        r = self._const_only.get(n)
        if r is None:
            r = False
            if L.GetLinkage(g) in (8, 9):     # internal, private
                stored = self.stored_globals()
                r = n not in stored
            self._const_only[n] = r
        return r
    def stored_globals(self):
        """globals that appear anywhere except as the address of a load or of a GEP feeding loads"""
        if hasattr(self, "_stored"): return self._stored
        out = set()
        for f in self.raw.functions.values():
            b = L.FirstBB(f)
            while b:
                i = L.FirstInst(b)
                while i:
                    op = L.OPC[L.Opcode(i)]
                    for k in range(L.NumOperands(i)):
                        o = L.Operand(i, k)
                        if o in self.gptr and op != "load": out.add(self.gptr[o])
                        elif op != "load" and L.VK.get(L.ValueKind(o)) == "cexpr":
                            q = L.Operand(o, 0)
                            if q in self.gptr: out.add(self.gptr[q])
                    i = L.NextInst(i)
                b = L.NextBB(b)
        self._stored = out
        return out
    def init(self, o, off, c, t):
        ty = self.T.get(t); vk = L.VK.get(L.ValueKind(c))
        if L.IsNull(c) or vk == "zeroagg":
            n = ty[2] if ty[0] != "s" else ty[2]
            if n: o.zero = (o.zero or []) + [(off, off + n)]
            return
        if vk in ("undef", "poison"): return
        if ty[0] in ("s", "v") and vk in ("carray", "cstruct", "cvector", "cdataarray", "cdatavector"):
            if L.TK.get(L.TypeKind(t)) == "struct":
                for k, (eo, _) in enumerate(ty[1]): self.init(o, off + eo, L.AggElem(c, k), L.StructElem(t, k))
            else:
                e = L.ElemType(t)
                for k, (eo, _) in enumerate(ty[1]): self.init(o, off + eo, L.AggElem(c, k), e)
            return
        v = self.const(c)
        o.cells[off] = (ty[2], v); o.esz = ty[2] if o.esz in (0, ty[2]) else -1
    # ---------------------------------------------------------------- constants (may depend on the run: objects)
    def const(self, c):
        vk = L.VK.get(L.ValueKind(c)); t = L.TypeOf(c); ty = self.T.get(t)
        if vk == "cint":
            if ty[1] <= 64: return L.ConstIntZExt(c)
            s = L.PrintValue(c).split()[-1]; return int(s) & ((1 << ty[1]) - 1)
        if vk == "cfp": return self.fpconst(c, ty)
        if vk in ("undef", "poison"): return undef_of(ty)
        if vk in ("null", "zeroagg"): return zero_of(ty)
        if vk == "function": return (self.by_ptr[c], 0)
        if vk == "global": return (self.global_obj(self.gptr[c]), 0)
        if vk == "alias": return self.const(L.GlobalAliasTarget(c))
        if vk in ("carray", "cstruct", "cvector", "cdataarray", "cdatavector"):
            return [self.const(L.AggElem(c, k)) for k in range(len(ty[1]))]
        if vk == "cexpr":
            op = L.OPC.get(L.ConstOpcode(c))
            a = [L.Operand(c, k) for k in range(L.NumOperands(c))]
            if op == "gep":
                st = L.GEPSourceType(c); p = self.const(a[0])
                off, var_ = self.gep(st, a[1:])
                if var_: raise Unsupported("constant gep")
                return (p[0], p[1] + off)
            if op in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast"): return self.const(a[0])
            if op in ("sub", "add"):
                x, y = self.const(a[0]), self.const(a[1])
                return ptr_int(op, x, y, ty[1], None) if tuple in (x.__class__, y.__class__) else \
                    ((x + y if op == "add" else x - y) & ((1 << ty[1]) - 1))
        raise Unsupported("constant %s" % L.PrintValue(c)[:80])
    def fpconst(self, c, ty):
        s = L.PrintValue(c).split()[-1]
        if ty[1] == "f80": return bits_to_float(int(s[3:], 16), "f80")
        if s.startswith("0x"):
            n = bits_to_float(int(s, 16), "f64")
            return mk(n.op, n.args, ty[1])
        lo = __import__("ctypes").c_int()
        return const(Fraction(L.ConstRealDouble(c, __import__("ctypes").byref(lo))), ty[1])
    def gep(self, st, idx):
        """(constant offset, [(operand, scale, width)])"""
        off = 0; vs = []; t = st; td = self.raw.td
        for k, i in enumerate(idx):
            isc = L.VK.get(L.ValueKind(i)) == "cint"
            if k == 0:
                es = L.ABISize(td, t)
            else:
                kd = L.TK.get(L.TypeKind(t))
                if kd == "struct":
                    n = L.ConstIntZExt(i); off += L.OffsetOfElement(td, t, n); t = L.StructElem(t, n); continue
                t = L.ElemType(t); es = L.ABISize(td, t)
            w = L.IntWidth(L.TypeOf(i))
            if isc: off += sx(L.ConstIntZExt(i) & ((1 << w) - 1), w) * es
            else: vs.append((i, es, w))
        return off, vs
    # ---------------------------------------------------------------- functions
    def fn(self, name): return self.fns.get(name)
    def decode(self, f):
        f.decoded = True
        f.dem = L.demangle(f.name)
        p = f.ptr; f.alloca = False
        slot = {}; f.byval = []
        for k in range(f.nargs):
            a = L.GetParam(p, k); slot[a] = k
            at = L.FnAttr(p, k + 1, A_BYVAL)
            if at: f.byval.append((k, L.ABISize(self.raw.td, L.AttrType(at))))
        if f.decl: return
        f.arr = array_access(self, f)
        bbs = []; b = L.FirstBB(p)
        while b: bbs.append(b); b = L.NextBB(b)
        bidx = {b: i for i, b in enumerate(bbs)}
        n = f.nargs; insts = []
        for b in bbs:
            l = []; i = L.FirstInst(b)
            while i: l.append(i); slot[i] = n; n += 1; i = L.NextInst(i)
            insts.append(l)
        consts = {}
        D = Decoder(self, f, slot, bidx, n)
        f.blocks = []
        for k, b in enumerate(bbs):
            B = Blk(); B.idx = k; B.body = []; B.phid = []; B.phis = {}; B.n = len(insts[k]); B.bb = b
            for i in insts[k]:
                op = L.OPC.get(L.Opcode(i))
                if op == "phi":
                    B.phid.append(slot[i])
                    for q in range(L.CountIncoming(i)):
                        B.phis.setdefault(bidx[L.IncomingBlock(i, q)], []).append(D.op(L.IncomingValue(i, q)))
                elif op in TERMS: B.term = D.term(op, i, k)
                else:
                    c = D.inst(op, i)
                    if c is not None: B.body.append(c)
            f.blocks.append(B)
        f.proto = None; f.nreg = D.n
        f.cells = {}; f.esize = D.consts   # (slot, const value pointer) resolved per run

A_NOUNWIND = L.AttrKind("nounwind"); A_BYVAL = L.AttrKind("byval")
TERMS = ("ret", "br", "switch", "unreachable", "invoke", "resume")

def array_access(mod, f):
    """std::array<X, N>::operator[]: (N, sizeof X); checked by the same rule as its assertion"""
    d = f.dem
    if not d.startswith("std::array<") or "::operator[](unsigned long)" not in d: return None
    head = d[:d.index("::operator[](")]
    n = head.rstrip(">").rsplit(",", 1)[-1].strip()
    n = "".join(ch for ch in n if ch.isdigit())
    if not n: return None
    N = int(n)
    b = L.FirstBB(f.ptr)
    while b:
        i = L.FirstInst(b)
        while i:
            if L.OPC.get(L.Opcode(i)) == "gep":
                t = L.GEPSourceType(i)
                if L.TK.get(L.TypeKind(t)) == "array" and L.ArrayLength(t) == N:
                    return (N, L.ABISize(mod.raw.td, L.ElemType(t)))
            i = L.NextInst(i)
        b = L.NextBB(b)
    return None

RET = -1
class Decoder:
    def __init__(self, mod, f, slot, bidx, n):
        self.mod = mod; self.f = f; self.slot = slot; self.bidx = bidx; self.n = n; self.consts = []; self.cs = {}
    def op(self, v):
        s = self.slot.get(v)
        if s is not None: return s
        s = self.cs.get(v)
        if s is None:
            s = self.cs[v] = self.n; self.n += 1
            vk = L.VK.get(L.ValueKind(v))
            if vk in ("mdasvalue", "bb", "asm"): self.consts.append((s, None))
            else: self.consts.append((s, v))
        return s
    def term(self, op, I, bk):
        mod = self.mod
        if op == "ret":
            if L.NumOperands(I) == 0:
                def t(R): S.ret = None; return RET
                return t
            a = self.op(L.Operand(I, 0))
            def t(R): S.ret = R[a]; return RET
            return t
        if op == "br":
            if not L.IsConditional(I):
                d = self.bidx[L.Successor(I, 0)]
                return lambda R: d
            c = self.op(L.Condition(I)); x = self.bidx[L.Successor(I, 0)]; y = self.bidx[L.Successor(I, 1)]
            def t(R):
                v = R[c]
                if v.__class__ is not int: v = decide(v, I)
                return x if v else y
            return t
        if op == "switch":
            c = self.op(L.Operand(I, 0)); dflt = self.bidx[L.Successor(I, 0)]
            w = L.IntWidth(L.TypeOf(L.Operand(I, 0)))
            cases = []
            for k in range(1, L.NumSuccessors(I)):
                cases.append((L.ConstIntZExt(L.Operand(I, 2 * k)), self.bidx[L.Successor(I, k)]))
            tab = dict(cases)
            def t(R):
                v = R[c]
                if v.__class__ is int: return tab.get(v, dflt)
                if v is UNDEF: raise Stop("uninit", "a switch depends on an uninitialised value", where(I))
                for cv, d in cases:
                    if decide(icmp_data(32, v, cv, w, I), I): return d
                return dflt
            return t
        if op == "unreachable":
            def t(R): raise Stop("ub", "an unreachable point is reached", where(I))
            return t
        if op == "invoke":
            call = self.call(I); nd = self.bidx[L.NormalDest(I)]; ud = self.bidx[L.UnwindDest(I)]
            def t(R):
                d = S.depth
                try: call(R)
                except Throw as e:
                    S.depth = d; S.pending = e; return ud
                return nd
            return t
        if op == "resume":
            a = self.op(L.Operand(I, 0))
            def t(R):
                v = R[a]
                raise S.exc[v[0][0].id]
            return t
    # ---------------------------------------------------------------- calls
    def call(self, I):
        mod = self.mod; d = self.slot[I]
        cv = L.CalledValue(I); na = L.NumArgOperands(I)
        args = [self.op(L.Operand(I, k)) for k in range(na)]
        vk = L.VK.get(L.ValueKind(cv))
        while vk == "alias": cv = L.GlobalAliasTarget(cv); vk = L.VK.get(L.ValueKind(cv))
        if vk == "asm":
            t = L.PrintValue(cv); m = re.search(r'asm (?:\w+ )*"((?:[^"\\]|\\.)*)", "([^"]*)"', t)
            if m and not m.group(1).strip() and all(x.startswith("~") for x in m.group(2).split(",") if x): return lambda R: None     # a mere barrier
            def c(R): raise Unsupported("inline assembly")
            return c
        if vk == "function":
            f = mod.by_ptr[cv]
            if f.name.startswith(("llvm.dbg.", "llvm.lifetime.", "llvm.assume", "llvm.experimental.noalias", "llvm.donothing",
                                  "llvm.invariant", "llvm.prefetch")):
                return lambda R: None
            if f.decl:
                from . import extern
                h = extern.handler(f)
                def c(R): R[d] = h([R[a] for a in args], I, f)
                return c
            if not f.decoded and f.name.startswith(("_ZNSt5array", "_ZNKSt5array")):
                mod.decode(f)
            if f.decoded and f.arr:
                N, es = f.arr; a0, a1 = args[0], args[1]
                def c(R):
                    p = R[a0]; i = R[a1]
                    if i.__class__ is int:
                        if i < N: R[d] = (p[0], p[1] + i * es); return
                        raise Stop("oob", "subscript %s of an array of %d elements" % (sx(i, 64), N), where(I))
                    R[d] = run(f, [p, i], I)
                return c
            def c(R): R[d] = run(f, [R[a] for a in args], I)
            return c
        fv = self.op(cv)
        def c(R):
            p = R[fv]
            o = p[0]
            if o.__class__ is not Fn: raise Unsupported("call through a pointer to %r" % (o,))
            a = [R[x] for x in args]
            if o.decl:
                from . import extern
                R[d] = extern.handler(o)(a, I, o)
            else: R[d] = run(o, a, I)
        return c
    # ---------------------------------------------------------------- straight-line instructions
    def inst(self, op, I):
        mod = self.mod; T = mod.T; d = self.slot[I]; o = self.op
        ty = T.get(L.TypeOf(I))
        if op == "call": return self.call(I)
        if op == "alloca":
            self.f.alloca = True
            t = L.AllocatedType(I); size = L.ABISize(mod.raw.td, t); cnt = o(L.Operand(I, 0)); nm = L.ValueName(I)
            nm = "local %s of %s" % (nm, short(self.f.dem))
            def f(R):
                n = R[cnt]
                if n.__class__ is not int: raise Unsupported("alloca of data-dependent size")
                x = Obj(size * n, "local", nm); S.fa.append(x); R[d] = (x, 0)
            return f
        if op == "load":
            a = o(L.Operand(I, 0))
            if ty[0] in ("i", "p", "f"):
                size = ty[2]
                if ty[0] == "f":
                    def f(R):
                        p = R[a]; c = p[0].cells.get(p[1])
                        if c is not None and c[0] == size and c[1].__class__ is Node: R[d] = c[1]
                        else: R[d] = load(p, ty, I)
                else:
                    i1 = ty[0] == "i" and ty[1] < 8
                    k0 = ty[0]
                    def f(R):
                        p = R[a]; c = p[0].cells.get(p[1])
                        if c is not None and c[0] == size and c[1].__class__ is not int: R[d] = c[1]
                        else: R[d] = load(p, ty, I)
                    if k0 == "i":
                        def f(R):
                            p = R[a]; c = p[0].cells.get(p[1])
                            if c is not None and c[0] == size: R[d] = c[1]
                            else: R[d] = load(p, ty, I)
                return f
            def f(R): R[d] = load(R[a], ty, I)
            return f
        if op == "store":
            v = o(L.Operand(I, 0)); a = o(L.Operand(I, 1)); vt = T.get(L.TypeOf(L.Operand(I, 0)))
            if vt[0] == "i" and vt[1] == 1:
                def f(R): store(R[a], decide(R[v], I) if R[v].__class__ is Cond else R[v], vt, I)
                return f
            def f(R): store(R[a], R[v], vt, I)
            return f
        if op == "gep":
            st = L.GEPSourceType(I); base = o(L.Operand(I, 0))
            off, vs = mod.gep(st, [L.Operand(I, k) for k in range(1, L.NumOperands(I))])
            vs = [(o(v), es, w) for v, es, w in vs]
            if not vs:
                def f(R): p = R[base]; R[d] = (p[0], p[1] + off)
                return f
            if len(vs) == 1:
                v0, es, w = vs[0]; H = 1 << (w - 1); M = 1 << w
                def f(R):
                    p = R[base]; i = R[v0]
                    if i.__class__ is not int: i = index(i, w, I)
                    if i >= H: i -= M
                    R[d] = (p[0], p[1] + off + i * es)
                return f
            def f(R):
                p = R[base]; x = p[1] + off
                for v, es, w in vs:
                    i = R[v]
                    if i.__class__ is not int: i = index(i, w, I)
                    x += sx(i, w) * es
                R[d] = (p[0], x)
            return f
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            a = o(L.Operand(I, 0)); b = o(L.Operand(I, 1))
            if ty[0] == "v":
                w = ty[1][0][1][1]
                def f(R): R[d] = [int_any(op, x, y, w, I) for x, y in zip(R[a], R[b])]
                return f
            w = ty[1]; M = (1 << w) - 1
            if op == "add":
                def f(R):
                    x = R[a]; y = R[b]
                    R[d] = (x + y) & M if x.__class__ is int and y.__class__ is int else int_data("add", x, y, w, I)
            elif op == "sub":
                def f(R):
                    x = R[a]; y = R[b]
                    R[d] = (x - y) & M if x.__class__ is int and y.__class__ is int else int_data("sub", x, y, w, I)
            elif op == "mul":
                def f(R):
                    x = R[a]; y = R[b]
                    R[d] = (x * y) & M if x.__class__ is int and y.__class__ is int else int_data("mul", x, y, w, I)
            elif op == "xor" and w == 1:
                def f(R):
                    x = R[a]; y = R[b]
                    if x.__class__ is int and y.__class__ is int: R[d] = x ^ y
                    elif x.__class__ is Cond and y.__class__ is int: R[d] = Cond(ALL & ~x.mask, x.a, x.b) if y else x
                    else: R[d] = int_data("xor", x, y, 1, I)
            elif op in ("and", "or") and w == 1:
                absorb = 0 if op == "and" else 1
                def f(R):
                    x = R[a]; y = R[b]
                    if x.__class__ is int: R[d] = absorb if x == absorb else y
                    elif y.__class__ is int: R[d] = absorb if y == absorb else x
                    else: R[d] = int_data(op, x, y, 1, I)
            else:
                def f(R): R[d] = int_any(op, R[a], R[b], w, I)
            return f
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            a = o(L.Operand(I, 0)); b = o(L.Operand(I, 1)); k = ty[1] if ty[0] == "f" else ty[1][0][1][1]
            fold = {"fadd": V.add, "fsub": V.sub, "fmul": V.mul}.get(op)
            if fold:
                def f(R):
                    x = R[a]; y = R[b]
                    R[d] = fold(x, y, k) if x.__class__ is Node and y.__class__ is Node else fbin(op, x, y, k, I)
            else:
                def f(R): R[d] = fbin(op, R[a], R[b], k, I)
            return f
        if op == "fneg":
            a = o(L.Operand(I, 0)); k = ty[1] if ty[0] == "f" else ty[1][0][1][1]
            def f(R):
                x = R[a]
                R[d] = UNDEF if x is UNDEF else [V.neg(y, k) for y in x] if x.__class__ is list else V.neg(x, k)
            return f
        if op == "icmp":
            pr = L.ICmpPred(I); a = o(L.Operand(I, 0)); b = o(L.Operand(I, 1)); t0 = T.get(L.TypeOf(L.Operand(I, 0)))
            w = t0[1]
            if t0[0] == "p": w = 64
            if t0[0] == "v": raise Unsupported("vector compare")
            H = 1 << (w - 1)
            if pr == 32:
                def f(R):
                    x = R[a]; y = R[b]
                    R[d] = (1 if x == y else 0) if x.__class__ is int and y.__class__ is int else icmp_data(pr, x, y, w, I)
            elif pr == 33:
                def f(R):
                    x = R[a]; y = R[b]
                    R[d] = (1 if x != y else 0) if x.__class__ is int and y.__class__ is int else icmp_data(pr, x, y, w, I)
            elif pr == 36:
                def f(R):
                    x = R[a]; y = R[b]
                    R[d] = (1 if x < y else 0) if x.__class__ is int and y.__class__ is int else icmp_data(pr, x, y, w, I)
            else:
                m = IPRED[pr]; sgn = pr >= 38
                def f(R):
                    x = R[a]; y = R[b]
                    if x.__class__ is int and y.__class__ is int:
                        if sgn: x ^= H; y ^= H
                        R[d] = 1 if m & (EQ if x == y else LT if x < y else GT) else 0
                    else: R[d] = icmp_data(pr, x, y, w, I)
            return f
        if op == "fcmp":
            pr = L.FCmpPred(I); a = o(L.Operand(I, 0)); b = o(L.Operand(I, 1))
            def f(R): R[d] = fcmp(pr, R[a], R[b], I)
            return f
        if op == "select":
            c = o(L.Operand(I, 0)); a = o(L.Operand(I, 1)); b = o(L.Operand(I, 2))
            isi1 = ty[0] == "i" and ty[1] == 1
            def f(R):
                v = R[c]
                if v.__class__ is int: R[d] = R[a] if v else R[b]
                else: R[d] = select_data(v, R[a], R[b], I)
            return f
        if op in ("zext", "sext", "trunc", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui", "bitcast",
                  "ptrtoint", "inttoptr", "freeze"):
            a = o(L.Operand(I, 0)); st = T.get(L.TypeOf(L.Operand(I, 0)))
            if ty[0] == "v" or st[0] == "v":
                if op == "bitcast":
                    def f(R): R[d] = vec_bitcast(R[a], st, ty, I)
                    return f
                def f(R): R[d] = [convert(op, x, st[1][0][1], ty[1][0][1], I) for x in R[a]]
                return f
            if op == "zext":
                M = (1 << ty[1]) - 1
                def f(R):
                    x = R[a]
                    R[d] = x if x.__class__ is int else convert(op, x, st, ty, I)
            elif op == "sext":
                w = st[1]; H = 1 << (w - 1); E = ((1 << ty[1]) - 1) ^ ((1 << w) - 1)
                def f(R):
                    x = R[a]
                    R[d] = (x | E if x & H else x) if x.__class__ is int else convert(op, x, st, ty, I)
            elif op == "trunc":
                M = (1 << ty[1]) - 1
                def f(R):
                    x = R[a]
                    R[d] = x & M if x.__class__ is int else convert(op, x, st, ty, I)
            else:
                def f(R): R[d] = convert(op, R[a], st, ty, I)
            return f
        if op == "extractvalue":
            a = o(L.Operand(I, 0)); ix = [L.Indices(I)[k] for k in range(L.NumIndices(I))]
            def f(R):
                x = R[a]
                for i in ix: x = x[i] if x is not UNDEF else UNDEF
                R[d] = x
            return f
        if op == "insertvalue":
            a = o(L.Operand(I, 0)); v = o(L.Operand(I, 1)); ix = [L.Indices(I)[k] for k in range(L.NumIndices(I))]
            def put_(x, ix, v, t):
                x = list(x) if x.__class__ is list else undef_of(t)
                x[ix[0]] = v if len(ix) == 1 else put_(x[ix[0]], ix[1:], v, t[1][ix[0]][1])
                return x
            def f(R): R[d] = put_(R[a], ix, R[v], ty)
            return f
        if op == "extractelement":
            a = o(L.Operand(I, 0)); b = o(L.Operand(I, 1))
            def f(R): R[d] = R[a][R[b]] if R[a].__class__ is list else UNDEF
            return f
        if op == "insertelement":
            a = o(L.Operand(I, 0)); v = o(L.Operand(I, 1)); b = o(L.Operand(I, 2))
            def f(R):
                x = list(R[a]) if R[a].__class__ is list else undef_of(ty)
                x[R[b]] = R[v]; R[d] = x
            return f
        if op == "shufflevector":
            a = o(L.Operand(I, 0)); b = o(L.Operand(I, 1)); ms = [L.MaskValue(I, k) for k in range(L.NumMask(I))]
            st = T.get(L.TypeOf(L.Operand(I, 0)))
            def f(R):
                x = (R[a] if R[a].__class__ is list else undef_of(st)) + (R[b] if R[b].__class__ is list else undef_of(st))
                R[d] = [UNDEF if m < 0 else x[m] for m in ms]
            return f
        if op == "landingpad":
            cl = []
            for k in range(L.NumClauses(I)):
                c = L.Clause(I, k); cl.append(c)
            cleanup = bool(L.IsCleanup(I))
            def f(R):
                e = S.pending; sel = 0
                for c in cl:
                    vk = L.VK.get(L.ValueKind(c))
                    if vk == "null" or L.IsNull(c): sel = 1; break
                    n = mod.gptr.get(c)
                    if n and derives(e.ti, n): sel = typeid(n); break
                ob = e.obj[0]
                S.exc[ob.id] = e
                R[d] = [(ob, 0), sel]
                if sel == 0 and not cleanup: raise e
            return f
        if op == "fence": return lambda R: None
        if op == "atomicrmw" or op == "cmpxchg" or op == "vaarg":
            def f(R): raise Unsupported(op)
            return f
        raise Unsupported("instruction " + op)

_tids = {}
def typeid(n): return _tids.setdefault(n, len(_tids) + 2)
BASES = {"_ZTISt14overflow_error": "_ZTISt13runtime_error", "_ZTISt15underflow_error": "_ZTISt13runtime_error",
         "_ZTISt11range_error": "_ZTISt13runtime_error", "_ZTISt13runtime_error": "_ZTISt9exception",
         "_ZTISt12domain_error": "_ZTISt11logic_error", "_ZTISt16invalid_argument": "_ZTISt11logic_error",
         "_ZTISt12length_error": "_ZTISt11logic_error", "_ZTISt12out_of_range": "_ZTISt11logic_error",
         "_ZTISt11logic_error": "_ZTISt9exception", "_ZTISt9bad_alloc": "_ZTISt9exception"}
def derives(t, b):
    while t:
        if t == b: return True
        n = BASES.get(t)
        if n is None and S.mod and t in S.mod.raw.globals and not L.IsDeclaration(S.mod.raw.globals[t]):
            ini = L.Initializer(S.mod.raw.globals[t])     # __si_class_type_info: { vtable, name, base }
            n = None
            if ini and L.NumOperands(ini) >= 3: n = S.mod.gptr.get(L.Operand(ini, 2))
        t = n
    return False

def index(i, w, I):
    if i is UNDEF: raise Stop("uninit", "an uninitialised value is used as a subscript", where(I))
    if i.__class__ is Node and i.op == "c": return int(i.args[0]) & ((1 << w) - 1)
    if i.__class__ is Cond: return decide(i, I)
    raise Unsupported("subscript computed from element data")

def int_any(op, x, y, w, I):
    if x.__class__ is int and y.__class__ is int:
        M = (1 << w) - 1
        if op == "add": return (x + y) & M
        if op == "sub": return (x - y) & M
        if op == "mul": return (x * y) & M
        if op == "and": return x & y
        if op == "or": return x | y
        if op == "xor": return x ^ y
        if op == "shl":
            if y >= w: return UNDEF
            return (x << y) & M
        if op == "lshr": return x >> y if y < w else UNDEF
        if op == "ashr": return (sx(x, w) >> y) & M if y < w else UNDEF
        if y == 0: raise Stop("ub", "integer division by zero", where(I))
        if op == "udiv": return x // y
        if op == "urem": return x % y
        a, b = sx(x, w), sx(y, w)
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0): q = -q
        return (q if op == "sdiv" else a - q * b) & M
    return int_data(op, x, y, w, I)

def select_data(c, x, y, I):
    if c is UNDEF: raise Stop("uninit", "a selection depends on an uninitialised value", where(I))
    if c.__class__ is Cond and x.__class__ is Node and y.__class__ is Node:
        if x is y: return x
        z = c.a if c.b.op == "c" and c.b.args[0] == 0 else c.b if c.a.op == "c" and c.a.args[0] == 0 else None
        if z is not None and x.fp is not None and y.fp is not None and V.f_add(x.fp, y.fp) == 0 and not S.facts.nan:
            m = c.mask if z is c.a else flip(c.mask)
            if z.fp == x.fp or z.fp == y.fp:
                if m & 7 in (GT, GT | EQ): return V.fabs(z, x.kind) if z.fp == x.fp else V.neg(V.fabs(z, x.kind), x.kind)
                if m & 7 in (LT, LT | EQ): return V.fabs(z, x.kind) if z.fp == y.fp else V.neg(V.fabs(z, x.kind), x.kind)
    if x.__class__ is int and y.__class__ is int and x == y: return x
    if x.__class__ is int and y.__class__ is int and c.__class__ is Cond and {x, y} == {0, 1}:
        return x if decide(c, I) else y
    return x if decide(c, I) else y

def vec_bitcast(x, st, ty, I):
    if st[0] == "v" and ty[0] == "v" and len(st[1]) == len(ty[1]): return x
    o = Obj(max(st[2], ty[2]), "local", "bitcast")
    store((o, 0), x, st, I)
    return load((o, 0), ty, I)

def convert(op, x, st, ty, I):
    if x is UNDEF: return UNDEF
    if op == "freeze": return x
    if x.__class__ is Cond: x = decide(x, I)
    if op in ("zext", "sext", "trunc"):
        w, W = st[1], ty[1]
        if x.__class__ is int:
            if op == "sext": return sx(x, w) & ((1 << W) - 1)
            return x & ((1 << W) - 1)
        if x.__class__ is tuple: return x
        if x.__class__ is Pack:
            if op == "trunc" and W % 8 == 0: return pack_slice(x, 0, W // 8)
            if op == "zext": return Pack(x.pieces + [(x.size, W // 8 - x.size, 0)], W // 8)
            return opaque(op, "i%d" % W, *[y for _, _, y in x.pieces if y.__class__ is Node])
        if x.kind[0] == "f": x = opaque("bitcast", "i%d" % w, x)
        if x.op == "c":
            return const(x.args[0], "i%d" % W)
        if op == "trunc":
            if x.op in ("zext%d" % W, "sext%d" % W): return x.args[0]
            if W < S.tw or S.tfloat: 
                S.events.append(("narrow", "truncation to %d bits" % W, where(I)))
                return opaque("trunc%d" % W, "i%d" % W, x)
            return x
        if op == "sext":
            if S.tsigned or w > S.tw: return x
            return opaque("sext%d" % w, "i%d" % W, x)
        if S.tsigned:
            return opaque("zext%d" % w, "i%d" % W, x)
        return x
    if op in ("fpext", "fptrunc"):
        if x.__class__ is not Node: raise Unsupported("float conversion of %r" % (x,))
        if op == "fptrunc" and x.op not in ("c", "special"):
            if not S.strip and (V.PREC[ty[1]] < V.PREC.get(S.tkind, 0) or (not S.tfloat and V.PREC[ty[1]] < S.tw)):
                S.events.append(("narrow", "conversion %s -> %s" % (st[1], ty[1]), where(I)))
                return opaque("fptrunc" + ty[1], ty[1], x)
        if op == "fptrunc" and x.op == "c" and x.args[0] != 0:
            return mk("c", (round_to(x.args[0], V.PREC[ty[1]]),), ty[1])
        return narrow_fp(x, ty[1], I)
    if op in ("sitofp", "uitofp"):
        if x.__class__ is int:
            return const(sx(x, st[1]) if op == "sitofp" else x, ty[1])
        if x.__class__ is not Node: raise Unsupported("int to float conversion of %r" % (x,))
        if x.kind[0] == "f": x = opaque("bitcast", "i%d" % st[1], x)
        if x.op == "c": return const(x.args[0], ty[1])
        w = st[1]
        if (op == "uitofp") == S.tsigned and not (op == "sitofp" and w > S.tw):
            return opaque(op, ty[1], x)
        if V.PREC[ty[1]] < min(w, S.tw) - (1 if S.tsigned else 0) and not S.strip:
            S.events.append(("narrow", "conversion i%d -> %s" % (w, ty[1]), where(I)))
            return opaque("itofp" + ty[1], ty[1], x)
        return mk("conv", (x,), ty[1])
    if op in ("fptosi", "fptoui"):
        if x.__class__ is not Node: raise Unsupported("float to int conversion of %r" % (x,))
        if x.op == "c":
            v = x.args[0]; v = v.numerator // v.denominator if v >= 0 else -((-v.numerator) // v.denominator)
            return v & ((1 << ty[1]) - 1)
        if x.op == "conv" and x.args[0].kind[0] in "iu" and (op == "fptosi") == S.tsigned and ty[1] >= S.tw: return x.args[0]
        if S.tfloat or ty[1] < S.tw:
            S.events.append(("narrow", "conversion %s -> i%d" % (st[1], ty[1]), where(I)))
        return opaque("fptoint" if op == "fptosi" else "fptouint", "i%d" % ty[1], x)
    if op in ("ptrtoint", "inttoptr"):
        if x.__class__ is int and op == "inttoptr": return NULL if x == 0 else (NULLOBJ, x)
        return x
    if op == "bitcast":
        if st[0] == ty[0] and st[0] != "f": return x
        if ty[0] == "i" and x.__class__ is Node: return x if x.op != "c" or x.args[0] != 0 else 0
        return coerce(x, ty, I)
    raise Unsupported(op)

def round_to(v, prec):
    """round a rational to prec significant bits (to nearest even)"""
    if v == 0: return v
    a = abs(v); e = 0
    n, dd = a.numerator, a.denominator
    e = n.bit_length() - dd.bit_length()
    s = Fraction(2) ** (prec - 1 - e)
    q = a * s
    r = round(q)
    r = Fraction(r) / s
    return r if v > 0 else -r

def short(d):
    i = d.find("(")
    return d if i < 0 or len(d) < 90 else d[:90] + "..."

# ------------------------------------------------------------------ running one function
def run(f, args, I=None):
    if not f.decoded: f.mod.decode(f)
    if f.name in S.summaries:
        r = S.summaries[f.name](f, args, I)
        if r is not None: return r
    if f.byval:
        for k, size in f.byval:
            p = args[k]; o = Obj(size, "local", "parameter %d of %s" % (k, short(f.dem)))
            memcopy((o, 0), p, size, I); args[k] = (o, 0)
    S.depth += 1
    if S.depth > S.maxdepth: raise Stop("hang", "recursion deeper than %d frames in %s" % (S.maxdepth, short(f.dem)), where(I))
    pr = S.protos.get(f)
    if pr is None:
        pr = [None] * f.nreg
        for s, v in f.esize:
            if v is not None: pr[s] = f.mod.const(v)
        S.protos[f] = pr
        S.called.add(f.name)
    R = pr[:]
    R[:len(args)] = args
    if f.alloca: save = S.fa; S.fa = fa = []
    blocks = f.blocks; B = blocks[0]; prev = 0
    S.stack.append((f, I))
    seen = None; turns = 0; power = 1; key = S.depth
    try:
        while True:
            if B.phid:
                vals = [R[s] for s in B.phis[prev]]
                for s, v in zip(B.phid, vals): R[s] = v
            for ins in B.body: ins(R)
            S.steps += B.n
            nxt = B.term(R)
            if nxt == RET: break
            prev = B.idx; B = blocks[nxt]
            if S.steps > S.watch:
                if S.steps > S.maxsteps: raise Stop("steps", "more than %d abstract steps" % S.maxsteps, where(L.FirstInst(B.bb)))
                if nxt <= prev:
                    # Brent's cycle detection on the abstract state
                    if (seen is not None and seen[1] == nxt and seen[2] == prev and len(seen[3]) == len(R)
                            and all(x is y or (x.__class__ in (int, tuple) and x == y) for x, y in zip(seen[3], R))
                            and (seen[0] == S.memver or (key in S.journals and unchanged(S.journals[key], seen[4])))):
                        raise Stop("hang", "the loop repeats the same abstract state for ever", where(L.FirstInst(B.bb)))
                    turns += 1
                    if turns == power:
                        seen = (S.memver, nxt, prev, list(R), S.nobj); power *= 2
                        if power > 32: S.journals[key] = {}
    except Throw as e:
        if f.nounwind: raise Stop("terminate", "exception %s leaves the noexcept function %s" % (e.ti, short(f.dem)), e.loc)
        raise
    except Stop as e:
        e.turns = max(getattr(e, "turns", 0), turns)
        raise
    finally:
        S.stack.pop()
        S.depth -= 1
        if S.journals: S.journals.pop(key, None)
        if f.alloca:
            for o in fa: o.dead = True; o.cells = {}
            S.fa = save
    return S.ret

# ------------------------------------------------------------------ partitions of one entry point
class Outcome:
    __slots__ = ("kind", "msg", "loc", "events", "facts", "log", "trail", "outs", "out_events", "steps", "ti", "trace", "turns")
    def where(self): return self.loc or "?"
    def path(self, limit=14):
        r = []
        for I, c, ch in self.log[:limit]:
            from .facts import MASKS
            m = c.mask if ch else ALL & ~c.mask
            if not self.facts.nan: m &= 7
            r.append("%s: %s %s %s" % (where(I) or "?", V.show(c.a, 3), MASKS.get(m, str(m)), V.show(c.b, 3)))
        if len(self.log) > limit: r.append("... %d decisions" % len(self.log))
        return r

# the formatting state of a standard stream: precision, field width, flags (skipws | dec), fill character
FMT0 = {16: 6, 24: 0, 32: 0x1002, 232: 32}
FMTNAME = {16: "precision", 24: "field width", 32: "format flags", 232: "fill character"}
class Setup:
    """how an entry point is analysed: bind(name->objects), element type, assumptions"""
    pass

def new_state(mod, tkind="f32", tsigned=True, nan=False):
    S.mod = mod
    S.facts = Facts(nan, tsigned or tkind[0] == "f"); S.events = []; S.alts = []; S.trail = []; S.log = []; S.ndec = 0; S.depth = 0
    S.globals = {}; S.protos = {}; S.initing = 0; S.ginit = []; S.gdone = set(); S.memver = 0; S.journals = {}; S.steps = 0; S.ret = None; S.fa = []; S.stack = []
    S.exc = {}; S.pending = None; S.caught = []; S.out = []; S.fmt = {}; S.fmtloc = {}
    S.tkind = tkind; S.tfloat = tkind[0] == "f"; S.tw = V.PREC[tkind] if S.tfloat else int(tkind[1:])
    S.tsigned = tsigned or S.tfloat
    if S.tfloat: S.tw = 64
    S.truncated = False

S.summaries = {}; S.called = set(); S.maxdepth = 3000; S.maxsteps = 30000000; S.watch = 400000; S.prefix = []; S.maxdec = 100000
S.mod = None

def partition(mod, name, bind, prefix, tkind, tsigned, nan, summaries):
    """analyse one partition of entry point `name`; returns an Outcome or None (infeasible)"""
    new_state(mod, tkind, tsigned, nan)
    S.prefix = prefix; S.summaries = summaries
    f = mod.fn(name)
    out = Outcome(); out.ti = None; out.turns = 0; out.loc = None; out.msg = ""
    try:
        args, outs = bind()
        if args is None: return None
        try:
            run(f, args)
            out.kind = "return"
        except Throw as e:
            out.kind = "throw"; out.ti = e.ti; out.loc = e.loc; out.msg = "throws " + L.demangle(e.ti[1:] if e.ti.startswith("__") else e.ti)
        except Stop as e:
            out.kind = e.kind; out.msg = e.msg; out.loc = e.loc; out.turns = getattr(e, "turns", 0)
        except Unsupported as e:
            out.kind = "unsupported"; out.msg = str(e)
    except Infeasible:
        return None
    for k, v in S.fmt.items():
        if v.__class__ is not int or v != FMT0.get(k[1], None): S.events.append(("streamstate", k[0], S.fmtloc[k]))
    out.events = S.events; out.facts = S.facts; out.log = S.log; out.trail = list(S.trail); out.outs = outs
    out.out_events = S.out; out.steps = S.steps
    out.trace = [short(g.dem or g.name) for g, _ in S.stack]
    return out

def explore(mod, name, bind, tkind, tsigned=True, nan=False, cap=2000, summaries=None, rng=None, maxsteps=30000000, budget=None, strip=False, until=None):
    """all partitions of an entry point (at most cap); yields Outcome; sets .complete"""
    rng = rng or random.Random(V.SEED[0])
    pool = [[]]; n = 0; total = 0
    S.maxsteps = maxsteps; S.strip = strip
    res = Exploration()
    while pool:
        if n >= cap or (budget and total > budget) or (n and until and time.time() > until): res.complete = False; break
        k = len(pool) - 1 if rng.random() < 0.5 else rng.randrange(len(pool))
        pool[k], pool[-1] = pool[-1], pool[k]
        prefix = pool.pop()
        if prefix.__class__ is tuple: t, i = prefix; prefix = t[:i] + [1 - t[i]]
        o = partition(mod, name, bind, prefix, tkind, tsigned, nan, summaries or {})
        pool.extend(S.alts)
        if S.truncated: res.complete = False
        total += S.steps
        if o is None: res.infeasible += 1; n += 0.2; continue
        n += 1
        res.outcomes.append(o)
    res.steps = total
    return res

class Exploration:
    def __init__(self): self.outcomes = []; self.complete = True; self.infeasible = 0; self.steps = 0
