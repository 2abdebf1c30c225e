"""Summaries of the external functions library code may call."""
import re
from fractions import Fraction
from . import llvmc as L, values as V
from .values import Node, const, mk
from . import engine as E
from .engine import S, Stop, Throw, Unsupported, Obj, NULL, UNDEF, where, load, store, memcopy, memfill, decide, Cond, lift, coerce
from .facts import LT, EQ, GT, UN, ALL

def need_int(x, what="length"):
    if x.__class__ is int: return x
    if x.__class__ is Node and x.op == "c": return int(x.args[0])
    raise Unsupported("data-dependent " + what)
def nan_undef(f):
    def g(a, I, fn):
        for x in a:
            if x is UNDEF: return UNDEF
        return f(a, I, fn)
    return g
P8 = ("p", 64, 8); I64 = ("i", 64, 8); I8 = ("i", 8, 1); I32 = ("i", 32, 4)

# ------------------------------------------------------------------ arithmetic
def kindof(fn):
    t = E.S.mod.T.get(L.TypeOf(L.GetParam(fn.ptr, 0)))
    return t
def elem(f):
    def g(a, I, fn):
        if a[0].__class__ is list:
            return [g([x[i] if x.__class__ is list else x for x in a], I, fn) for i in range(len(a[0]))]
        return f(a, I, fn)
    return g
def ekind(fn):
    t = kindof(fn)
    return t[1] if t[0] == "f" else t[1][0][1][1]
@elem
@nan_undef
def fabs_(a, I, fn):
    if a[0].__class__ is not Node: raise Unsupported("fabs")
    return V.fabs(a[0], ekind(fn))
@elem
@nan_undef
def sqrt_(a, I, fn):
    x = a[0]
    if x.op == "c":
        n, d = x.args[0].numerator, x.args[0].denominator
        if n >= 0:
            import math
            r, q = math.isqrt(n), math.isqrt(d)
            if r * r == n and q * q == d: return const(Fraction(r, q), ekind(fn))
    return V.sqrt(x, ekind(fn))
@elem
@nan_undef
def fma_(a, I, fn):
    k = ekind(fn); return V.add(V.mul(a[0], a[1], k), a[2], k)
@elem
@nan_undef
def floor_(a, I, fn):
    x = a[0]
    if x.op == "c":
        import math
        n = fn.name
        f = math.ceil if "ceil" in n else math.trunc if "trunc" in n else math.floor
        if "round" in n or "rint" in n or "nearby" in n:
            f = lambda v: math.floor(v + Fraction(1, 2)) if v >= 0 else -math.floor(-v + Fraction(1, 2))
        return const(f(x.args[0]), ekind(fn))
    return mk("round:" + fn.name.rstrip("fl").replace("llvm.", "").split(".")[0], (x,), ekind(fn))
def iabs_(a, I, fn):
    x = a[0]; w = kindof(fn)[1]
    if x is UNDEF: return UNDEF
    if x.__class__ is int:
        v = E.sx(x, w); return abs(v) & ((1 << w) - 1)
    x = lift(x, w)
    return V.fabs(x, "i%d" % w)
def libabs_(a, I, fn): return iabs_(a, I, fn)
@nan_undef
def pow_(a, I, fn):
    x, y = a; k = ekind(fn)
    if y.__class__ is int: y = const(E.sx(y, 32), k)
    if y.op == "c":
        e = y.args[0]
        if e.denominator == 1 and abs(e) <= 64:
            r = const(1, k)
            for _ in range(abs(int(e))): r = V.mul(r, x, k)
            return r if e >= 0 else V.div(const(1, k), r, k)
        if e == Fraction(1, 2): return V.sqrt(x, k)
    return mk("pow", (x, y), k)
def minmax(which, signed=None):
    def g(a, I, fn):
        x, y = a
        if x is UNDEF or y is UNDEF: return UNDEF
        t = kindof(fn)
        if t[0] == "i":
            w = t[1]
            if x.__class__ is int and y.__class__ is int:
                p, q = (E.sx(x, w), E.sx(y, w)) if signed else (x, y)
                return x if (p <= q) == (which == "min") else y
            c = E.icmp_data(40 if signed else 36, x, y, w, I)
        else: c = E.mkcond(LT, x, y)
        return (x if decide(c, I) else y) if which == "min" else (y if decide(c, I) else x)
    return elem(g)
@nan_undef
def copysign_(a, I, fn):
    if a[1].op == "c": return V.fabs(a[0], ekind(fn)) if a[1].args[0] >= 0 else V.neg(V.fabs(a[0], ekind(fn)), ekind(fn))
    return mk("copysign", tuple(a), ekind(fn))
def ctlz_(a, I, fn):
    w = kindof(fn)[1]; x = need_int(a[0], "bit count"); return w - x.bit_length()
def cttz_(a, I, fn):
    w = kindof(fn)[1]; x = need_int(a[0], "bit count"); return w if x == 0 else (x & -x).bit_length() - 1
def ctpop_(a, I, fn): return bin(need_int(a[0], "bit count")).count("1")
def overflow_(op, signed):
    def g(a, I, fn):
        w = kindof(fn)[1]; x, y = a
        if x.__class__ is int and y.__class__ is int:
            if signed: x, y = E.sx(x, w), E.sx(y, w)
            r = {"add": x + y, "sub": x - y, "mul": x * y}[op]; m = r & ((1 << w) - 1)
            return [m, 0 if (E.sx(m, w) if signed else m) == r else 1]
        return [E.int_data(op, x, y, w, I), 0]
    return g
def fpclass(a, I, fn):
    x = a[0]
    if x is UNDEF: return UNDEF
    m = need_int(a[1], "class mask")
    if x.__class__ is Node and x.op == "c": raise Unsupported("is.fpclass on constant")
    if m & 3 == 3 and m & ~3 == 0: return E.mkcond(UN, x, x)
    if m & ~(3) == 0x3fc: return E.mkcond(LT | EQ | GT, x, x)
    raise Unsupported("is.fpclass %d" % m)

# ------------------------------------------------------------------ memory
def memcpy_(a, I, fn): memcopy(a[0], a[1], need_int(a[2]), I); return a[0]
def memset_(a, I, fn):
    v = a[1]
    if fn.name == "memset": v = v & 255 if v.__class__ is int else E.convert("trunc", v, I32, I8, I)
    memfill(a[0], v, need_int(a[2]), I); return a[0]
def memcmp_(a, I, fn):
    n = need_int(a[2]); p, q = a[0], a[1]
    if n == 0: return 0
    E.bounds(p[0], p[1], n, I, "read"); E.bounds(q[0], q[1], n, I, "read")
    if fn.name != "bcmp": pass
    def cells(p):
        o, off = p
        return {x - off: c for x, c in o.cells.items() if off <= x < off + n}
    cp, cq = cells(p), cells(q)
    pos = 0
    while pos < n:
        c = cp.get(pos) or cq.get(pos)
        size = c[0] if c else 1
        if c is None:
            nx = [x for x in list(cp) + list(cq) if x > pos]
            size = 1
        x = load((p[0], p[1] + pos), ("i", 8 * size, size), I); y = load((q[0], q[1] + pos), ("i", 8 * size, size), I)
        if x is UNDEF or y is UNDEF: raise Stop("uninit", "a comparison reads uninitialised storage", where(I))
        if not (x.__class__ is int and y.__class__ is int and x == y):
            if x.__class__ is tuple or y.__class__ is tuple: raise Unsupported("memcmp of pointers")
            if x.__class__ is Node and x.kind[0] == "f" or y.__class__ is Node and y.kind[0] == "f":
                k = x.kind if x.__class__ is Node else y.kind
                if x.__class__ is int: x = coerce(x, ("f", k, size), I)
                if y.__class__ is int: y = coerce(y, ("f", k, size), I)
            else: x = lift(x, 8 * size); y = lift(y, 8 * size)
            if not decide(E.mkcond(EQ, x, y), I): return 1
        pos += size
    return 0
def alloc(kind):
    def g(a, I, fn):
        n = need_int(a[0], "allocation size")
        if fn.name == "calloc": n *= need_int(a[1], "allocation size")
        o = Obj(n, "heap", "heap block")
        if fn.name == "calloc": o.zero = [(0, n)]
        S.events.append(("alloc", fn.name, where(caller_loc(I))))
        return (o, 0)
    return g
def caller_loc(I):
    """innermost call site inside the library headers"""
    for f, i in reversed(S.stack):
        pass
    best = I
    for f, i in reversed(S.stack):
        w = where(best)
        if w and "/matrix/" in w: return best
        if i is not None: best = i
    return best
def free_(a, I, fn):
    p = a[0]
    if p is UNDEF: raise Stop("uninit", "an uninitialised pointer is freed", where(I))
    if p[0] is E.NULLOBJ: return None
    if p[0].kind != "heap" or p[1] != 0 or p[0].dead: raise Stop("ub", "invalid deallocation", where(I))
    if S.journals: E.journal(p[0])
    p[0].dead = True; p[0].cells = {}
    return None
def strlen_(a, I, fn):
    n = 0
    while True:
        c = load((a[0][0], a[0][1] + n), I8, I)
        if c.__class__ is not int: raise Unsupported("strlen of unknown string")
        if c == 0: return n
        n += 1
def cstr(p, I, n=None):
    out = []
    k = 0
    while n is None or k < n:
        c = load((p[0], p[1] + k), I8, I)
        if c.__class__ is not int: raise Unsupported("unknown string")
        if n is None and c == 0: break
        out.append(chr(c)); k += 1
    return "".join(out)
def memchr_(a, I, fn): raise Unsupported(fn.name)

# ------------------------------------------------------------------ exceptions
def cxa_alloc(a, I, fn):
    S.events.append(("alloc", "an exception object", where(caller_loc(I))))
    return (Obj(max(need_int(a[0]), 16), "exc", "exception object"), 0)
def cxa_throw(a, I, fn):
    ti = a[1][0].name
    t = Throw(ti, a[0], where(caller_loc(I)))
    raise t
def cxa_begin(a, I, fn):
    S.caught.append(S.exc.get(a[0][0].id)); return a[0]
def cxa_end(a, I, fn):
    if S.caught: S.caught.pop()
def cxa_rethrow(a, I, fn):
    if not S.caught or S.caught[-1] is None:
        raise Stop("terminate", "rethrow without an active exception: std::terminate", where(caller_loc(I)))
    raise S.caught[-1]
def typeid_for(a, I, fn): return E.typeid(a[0][0].name)
def std_throw(ti):
    def g(a, I, fn):
        raise Throw(ti, (Obj(16, "exc", "exception object"), 0), where(caller_loc(I)))
    return g
def terminate(a, I, fn): raise Stop("terminate", fn.name + " is called", where(caller_loc(I)))
def assert_fail(a, I, fn): raise Stop("oob", "a library precondition fails (%s)" % safe_str(a, I), where(caller_loc(I)))
def safe_str(a, I):
    try: return cstr(a[3], I)
    except Exception: return "subscript out of range"
def c_assert(a, I, fn): raise Stop("terminate", "assertion failure", where(caller_loc(I)))
def exit_(a, I, fn): raise Stop("terminate", fn.name + " is called", where(caller_loc(I)))

def guard_acquire(a, I, fn):
    """first entry into the declaration of a function-local static; afterwards its initialiser is not run again"""
    if a[0][0] in S.gdone: return 0
    S.ginit.append(a[0][0]); return 1
def guard_release(a, I, fn):
    if a[0][0] in S.ginit: S.ginit.remove(a[0][0])
    S.gdone.add(a[0][0]); return None
def nothing(a, I, fn): return None
def atexit_(a, I, fn): return 0

# ------------------------------------------------------------------ red-black tree (std::map), as an unbalanced search tree
def F(p, off): return (p[0], p[1] + off)
def ld(p, off, I): return load(F(p, off), P8, I)
def eqp(a, b): return a[0] is b[0] and a[1] == b[1]
def isnull(p): return p[0] is E.NULLOBJ
def rb_inc(a, I, fn):
    x = a[0]
    if not isnull(ld(x, 24, I)):
        x = ld(x, 24, I)
        while not isnull(ld(x, 16, I)): x = ld(x, 16, I)
        return x
    y = ld(x, 8, I)
    while eqp(x, ld(y, 24, I)): x = y; y = ld(y, 8, I)
    return y if not eqp(ld(x, 24, I), y) else x
def rb_dec(a, I, fn):
    x = a[0]
    par = ld(x, 8, I)
    if load(x, I32, I) == 0 and not isnull(par) and eqp(ld(par, 8, I), x): return ld(x, 24, I)
    if not isnull(ld(x, 16, I)):
        y = ld(x, 16, I)
        while not isnull(ld(y, 24, I)): y = ld(y, 24, I)
        return y
    y = ld(x, 8, I)
    while eqp(x, ld(y, 16, I)): x = y; y = ld(y, 8, I)
    return y
def rb_insert(a, I, fn):
    left, x, p, h = a
    if left.__class__ is not int: left = decide(left, I)
    store(F(x, 8), p, P8, I); store(F(x, 16), NULL, P8, I); store(F(x, 24), NULL, P8, I); store(x, 1, I32, I)
    if left:
        store(F(p, 16), x, P8, I)
        if eqp(p, h): store(F(h, 8), x, P8, I); store(F(h, 24), x, P8, I)
        elif eqp(p, ld(h, 16, I)): store(F(h, 16), x, P8, I)
    else:
        store(F(p, 24), x, P8, I)
        if eqp(p, ld(h, 24, I)): store(F(h, 24), x, P8, I)
    return None
def rb_erase(a, I, fn):
    z, h = a
    l, r, p = ld(z, 16, I), ld(z, 24, I), ld(z, 8, I)
    def inc(x): return rb_inc([x], I, fn)
    nxt = inc(z) if eqp(ld(h, 16, I), z) else None
    prv = rb_dec([z], I, fn) if eqp(ld(h, 24, I), z) else None
    def replace(old, new):
        q = ld(old, 8, I)
        if eqp(ld(h, 8, I), old): store(F(h, 8), new, P8, I)
        elif eqp(ld(q, 16, I), old): store(F(q, 16), new, P8, I)
        else: store(F(q, 24), new, P8, I)
        if not isnull(new): store(F(new, 8), q, P8, I)
    if isnull(l): replace(z, r)
    elif isnull(r): replace(z, l)
    else:
        y = r
        while not isnull(ld(y, 16, I)): y = ld(y, 16, I)
        if not eqp(ld(y, 8, I), z):
            replace(y, ld(y, 24, I)); store(F(y, 24), r, P8, I); store(F(r, 8), y, P8, I)
        replace(z, y); store(F(y, 16), l, P8, I); store(F(l, 8), y, P8, I)
    if isnull(ld(h, 8, I)): store(F(h, 16), h, P8, I); store(F(h, 24), h, P8, I)
    else:
        if nxt is not None: store(F(h, 16), nxt, P8, I)
        if prv is not None: store(F(h, 24), prv, P8, I)
    return z

# ------------------------------------------------------------------ standard output
def is_out(p): return p[0].kind == "stream"
def stream_name(p): return p[0].name
def emit(p, what, I):
    if not is_out(p): raise Unsupported("output to another stream")
    for (n, off), v in S.fmt.items():
        if n == p[0].name and (v.__class__ is not int or v != E.FMT0.get(off)) and (what[0] == "num" or off == 24):
            if off == 16 and (what[1] != "float"): continue
            if off == 232 and not S.fmt.get((n, 24)): continue
            if off == 32 and v.__class__ is int:
                if what[0] != "num" or what[1] == "char": continue
                if what[1] == "float" and not v & 0x4d04: continue                                 # fixed, scientific, showpoint, showpos, uppercase
                if what[1] in ("int", "bool") and not v & 0xa48 and not (what[1] == "bool" and v & 1): continue   # hex, oct, showbase, showpos, boolalpha
            S.out.append((n, "fmt", E.FMTNAME.get(off, "state"), S.fmtloc[n, off]))
    if (p[0].name, 24) in S.fmt: S.fmt[p[0].name, 24] = 0
    S.out.append((stream_name(p),) + what + (where(caller_loc(I)),))
def out_num(cat):
    def g(a, I, fn):
        if a[1] is UNDEF: raise Stop("uninit", "an uninitialised value is printed", where(caller_loc(I)))
        v = a[1]
        emit(a[0], ("num", cat, v), I); return a[0]
    return g
def out_str(a, I, fn): emit(a[0], ("str", cstr(a[1], I)), I); return a[0]
def out_strn(a, I, fn): emit(a[0], ("str", cstr(a[1], I, need_int(a[2]))), I); return a[0]
def out_char(a, I, fn):
    c = a[1]
    if c.__class__ is int: emit(a[0], ("str", chr(c & 255)), I)
    elif c is UNDEF: raise Stop("uninit", "an uninitialised value is printed", where(caller_loc(I)))
    else: emit(a[0], ("num", "char", c), I)
    return a[0]
def out_fn(a, I, fn):
    f = a[1][0]
    n = getattr(f, "name", "")
    if "4endl" in n: emit(a[0], ("str", "\n"), I); return a[0]
    if "5flush" in n: emit(a[0], ("str", ""), I); return a[0]
    if "4ends" in n: emit(a[0], ("str", "\0"), I); return a[0]
    if f.__class__ is E.Fn and a[0][1] == 0 and ("Rt9basic_ios" in fn.name or "RSt8ios_base" in fn.name):
        E.run(f, [(a[0][0], 8)], I); return a[0]        # a manipulator such as std::fixed, applied to the stream's base
    emit(a[0], ("manip", n), I); return a[0]
def out_endl(a, I, fn): emit(a[0], ("str", "\n"), I); return a[0]
def out_flush(a, I, fn): emit(a[0], ("str", ""), I); return a[0]

def impure(a, I, fn):
    S.events.append(("impure", fn.name, where(caller_loc(I))))
    raise Unsupported("call of %s" % fn.name)
def errno_(a, I, fn):
    """the thread's error number: state that outlives the call"""
    S.events.append(("impure", "errno", where(caller_loc(I))))
    o = Obj(4, "local", "errno"); store((o, 0), V.var("errno#%d" % len(S.events), "i32"), I32, I)
    return (o, 0)
def exc_member(a, I, fn):
    d = L.demangle(fn.name).split("(")
    if len(d) > 1 and ("char const*" in d[1] or "basic_string" in d[1] or "std::string" in d[1]): S.events.append(("alloc", "message of " + d[0].rsplit("::", 1)[0], where(caller_loc(I))))
    return None
ENVIRON = re.compile(r"(printf|fprintf|vprintf|puts|fputs|putchar|fputc|putc|fwrite|write|read|open|fopen|fclose|close|getpid|gettid|gettimeofday|clock_gettime|times|nanosleep|usleep|sleep|sched_\w+|pthread_\w+|fe[a-z]+|drand48|erand48|"
                     r"srand48|srandom|random_r|rand_r|localeconv|setenv|putenv|unsetenv|signal|raise|sigaction|atexit|at_quick_exit|sysconf|getrandom|localtime|gmtime|mktime|strftime|perror|system|fflush|setvbuf|getauxval|getrusage|sched_getcpu|"
                     r"_ZNSt13random_device\w*|_ZNSt6thread\w*|_ZNSt11this_thread\w*|_ZNSt6locale\w*|_ZNKSt6locale\w*|_ZSt15set_new_handler\w*|_ZSt13set_terminate\w*|_ZNSi\w*|_ZSt18uncaught_exception\w*|_ZSt19uncaught_exceptions\w*)$")
def impure_int(a, I, fn):
    S.events.append(("impure", fn.name, where(caller_loc(I))))
    S.nfresh = getattr(S, "nfresh", 0) + 1
    return V.var("%s()#%d" % (fn.name, len(S.events)), "i%d" % (L.IntWidth(rett(fn)) if L.TK[L.TypeKind(rett(fn))] == "int" else 64))
def impure_null(a, I, fn):
    S.events.append(("impure", fn.name, where(caller_loc(I)))); return NULL
import ctypes as C
_ret = L._f("LLVMGetReturnType", L.P, L.P); _fty = L._f("LLVMGlobalGetValueType", L.P, L.P)
def rett(fn): return _ret(_fty(fn.ptr))

def unknown(a, I, fn):
    raise Unsupported("external function %s" % L.demangle(fn.name))

TABLE = {
 "memcpy": memcpy_, "memmove": memcpy_, "memset": memset_, "memcmp": memcmp_, "bcmp": memcmp_, "strlen": strlen_,
 "__memcpy_chk": memcpy_, "__memmove_chk": memcpy_, "__memset_chk": memset_,
 "_Znwm": alloc("new"), "_Znam": alloc("new"), "malloc": alloc("malloc"), "calloc": alloc("calloc"), "aligned_alloc": lambda a, I, fn: alloc("m")([a[1]], I, fn),
 "_ZnwmRKSt9nothrow_t": alloc("new"), "_ZnamRKSt9nothrow_t": alloc("new"), "_ZnwmSt11align_val_t": alloc("new"), "_ZnamSt11align_val_t": alloc("new"),
 "_ZdlPv": free_, "_ZdaPv": free_, "_ZdlPvm": free_, "_ZdaPvm": free_, "free": free_, "_ZdlPvRKSt9nothrow_t": free_, "_ZdlPvSt11align_val_t": free_, "_ZdlPvmSt11align_val_t": free_,
 "__cxa_allocate_exception": cxa_alloc, "__cxa_free_exception": nothing, "__cxa_throw": cxa_throw,
 "__cxa_begin_catch": cxa_begin, "__cxa_end_catch": cxa_end, "__cxa_rethrow": cxa_rethrow, "__cxa_get_exception_ptr": lambda a, I, fn: a[0],
 "__cxa_guard_acquire": guard_acquire, "__cxa_guard_release": guard_release, "__cxa_guard_abort": guard_release, "__cxa_atexit": atexit_,
 "__cxa_throw_bad_array_new_length": std_throw("_ZTISt9bad_alloc"), "__cxa_pure_virtual": terminate,
 "_ZSt9terminatev": terminate, "abort": terminate, "__clang_call_terminate": terminate, "exit": exit_, "_exit": exit_, "quick_exit": exit_,
 "__assert_fail": c_assert, "_ZSt21__glibcxx_assert_failPKciS0_S0_": assert_fail,
 "_ZSt17__throw_bad_allocv": std_throw("_ZTISt9bad_alloc"), "_ZSt28__throw_bad_array_new_lengthv": std_throw("_ZTISt9bad_alloc"),
 "_ZSt20__throw_length_errorPKc": std_throw("_ZTISt12length_error"), "_ZSt20__throw_out_of_rangePKc": std_throw("_ZTISt12out_of_range"),
 "_ZSt24__throw_out_of_range_fmtPKcz": std_throw("_ZTISt12out_of_range"), "_ZSt19__throw_logic_errorPKc": std_throw("_ZTISt11logic_error"),
 "_ZSt24__throw_invalid_argumentPKc": std_throw("_ZTISt16invalid_argument"), "_ZSt21__throw_runtime_errorPKc": std_throw("_ZTISt13runtime_error"),
 "_ZSt20__throw_domain_errorPKc": std_throw("_ZTISt12domain_error"), "_ZSt22__throw_overflow_errorPKc": std_throw("_ZTISt14overflow_error"),
 "_ZSt19__throw_range_errorPKc": std_throw("_ZTISt11range_error"), "_ZSt25__throw_bad_function_callv": std_throw("_ZTISt17bad_function_call"),
 "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base": rb_inc, "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base": rb_inc,
 "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base": rb_dec, "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base": rb_dec,
 "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_": rb_insert,
 "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_": rb_erase,
 "abs": libabs_, "labs": libabs_, "llabs": libabs_,
}
for n in ("sqrt",): TABLE[n] = TABLE[n + "f"] = TABLE[n + "l"] = sqrt_
for n in ("fabs",): TABLE[n] = TABLE[n + "f"] = TABLE[n + "l"] = fabs_
for n in ("fma",): TABLE[n] = TABLE[n + "f"] = TABLE[n + "l"] = fma_
for n in ("floor", "ceil", "trunc", "round", "rint", "nearbyint"): TABLE[n] = TABLE[n + "f"] = TABLE[n + "l"] = floor_
for n in ("pow",): TABLE[n] = TABLE[n + "f"] = TABLE[n + "l"] = pow_
for n in ("fmin", "fminf", "fminl"): TABLE[n] = minmax("min")
for n in ("fmax", "fmaxf", "fmaxl"): TABLE[n] = minmax("max")
for n in ("copysign", "copysignf", "copysignl"): TABLE[n] = copysign_
for n in ("rand", "random", "time", "clock", "lrand48"): TABLE[n] = impure_int
TABLE["__errno_location"] = errno_
TABLE["getenv"] = TABLE["secure_getenv"] = impure_null
TABLE["_ZNSt6chrono3_V212system_clock3nowEv"] = TABLE["_ZNSt6chrono3_V212steady_clock3nowEv"] = impure_int
for n in ("srand", "setlocale", "fesetround", "feenableexcept", "pthread_self"): TABLE[n] = impure
OSTREAM = {"f": "float", "d": "float", "e": "float", "i": "int", "j": "int", "l": "int", "m": "int", "x": "int", "y": "int",
           "s": "int", "t": "int", "b": "bool"}
for c, cat in OSTREAM.items(): TABLE["_ZNSolsE" + c] = out_num(cat)
TABLE["_ZNSo9_M_insertIdEERSoT_"] = TABLE["_ZNSo9_M_insertIeEERSoT_"] = out_num("float")
for c in "lmxy": TABLE["_ZNSo9_M_insertI%sEERSoT_" % c] = out_num("int")
TABLE["_ZNSo9_M_insertIbEERSoT_"] = out_num("bool")
TABLE["_ZNSolsEPFRSoS_E"] = out_fn
TABLE["_ZNSolsEPFRSt8ios_baseS0_E"] = out_fn
TABLE["_ZNSolsEPFRSt9basic_iosIcSt11char_traitsIcEES3_E"] = out_fn
TABLE["_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc"] = out_str
for c in "cah": TABLE["_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_" + c] = out_char
TABLE["_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l"] = out_strn
TABLE["_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_"] = out_endl
TABLE["_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_"] = out_flush
TABLE["_ZNSo5flushEv"] = out_flush
TABLE["_ZNSo3putEc"] = out_char
TABLE["_ZNSo5writeEPKcl"] = out_strn

def set_fmt(off, combine=None):
    """the standard manipulators with an argument: they change one field of the stream's formatting state"""
    def g(a, I, fn):
        if not is_out(a[0]): raise Unsupported("state of another stream")
        k = (a[0][0].name, off); old = S.fmt.get(k, E.FMT0[off]); v = need_int(a[1])
        S.fmt[k] = combine(old, v) if combine else v
        S.fmtloc[k] = where(caller_loc(I)); return a[0]
    return g
MANIP = "_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_"
TABLE[MANIP + "St13_Setprecision"] = set_fmt(16)
TABLE[MANIP + "St5_Setw"] = set_fmt(24)
TABLE[MANIP + "St8_SetfillIS3_E"] = set_fmt(232, lambda old, v: v & 255)
TABLE[MANIP + "St8_Setbase"] = set_fmt(32, lambda old, v: (old & ~0x4a) | {8: 0x40, 10: 2, 16: 8}.get(v, 0))
TABLE[MANIP + "St12_Setiosflags"] = set_fmt(32, lambda old, v: old | v)
TABLE[MANIP + "St14_Resetiosflags"] = set_fmt(32, lambda old, v: old & ~v)

PREFIX = [
 ("llvm.memcpy", memcpy_), ("llvm.memmove", memcpy_), ("llvm.memset", memset_), ("llvm.fabs", fabs_), ("llvm.sqrt", sqrt_),
 ("llvm.fma", fma_), ("llvm.fmuladd", fma_), ("llvm.floor", floor_), ("llvm.ceil", floor_), ("llvm.trunc", floor_), ("llvm.round", floor_),
 ("llvm.rint", floor_), ("llvm.nearbyint", floor_), ("llvm.abs", iabs_), ("llvm.pow", pow_), ("llvm.copysign", copysign_),
 ("llvm.smin", minmax("min", True)), ("llvm.smax", minmax("max", True)), ("llvm.umin", minmax("min", False)), ("llvm.umax", minmax("max", False)),
 ("llvm.minnum", minmax("min")), ("llvm.maxnum", minmax("max")),
 ("llvm.ctlz", ctlz_), ("llvm.cttz", cttz_), ("llvm.ctpop", ctpop_), ("llvm.expect", lambda a, I, fn: a[0]),
 ("llvm.eh.typeid.for", typeid_for), ("llvm.trap", terminate), ("llvm.is.constant", lambda a, I, fn: 0),
 ("llvm.objectsize", lambda a, I, fn: (1 << 64) - 1), ("llvm.threadlocal.address", lambda a, I, fn: a[0]),
 ("llvm.stacksave", lambda a, I, fn: NULL), ("llvm.stackrestore", nothing), ("llvm.is.fpclass", fpclass), ("llvm.launder", lambda a, I, fn: a[0]),
 ("llvm.sadd.with", overflow_("add", True)), ("llvm.uadd.with", overflow_("add", False)), ("llvm.ssub.with", overflow_("sub", True)),
 ("llvm.usub.with", overflow_("sub", False)), ("llvm.smul.with", overflow_("mul", True)), ("llvm.umul.with", overflow_("mul", False)),
 ("llvm.va_", unknown), ("llvm.ubsantrap", terminate),
]
def handler(f):
    n = f.name
    h = TABLE.get(n)
    if h: return h
    for p, h in PREFIX:
        if n.startswith(p): return h
    d = L.demangle(n)
    # constructors and destructors of the standard exception classes
    if d.startswith("std::") and ("_error::" in d or d.startswith(("std::exception::", "std::bad_alloc::", "std::invalid_argument::", "std::out_of_range::"))):
        return exc_member
    if ENVIRON.match(n): return impure
    if n == "_ZNSt9basic_iosIcSt11char_traitsIcEE4fillEc":
        def g(a, I, fn):
            if not is_out(a[0]): raise Unsupported("state of another stream")
            k = (a[0][0].name, 232); old = S.fmt.get(k, 32); S.fmt[k] = a[1]; S.fmtloc[k] = where(caller_loc(I)); return old
        return g
    if n == "_ZNKSt9basic_iosIcSt11char_traitsIcEE4fillEv":
        return lambda a, I, fn: S.fmt.get((a[0][0].name, 232), 32)
    if n.startswith(("_ZNSt8ios_base", "_ZNKSt8ios_base", "_ZNSt9basic_ios")):
        def g(a, I, fn): S.out.append(("_ZSt4cout", "manip", n, where(caller_loc(I)))); return NULL
        return g
    return unknown

def load_stream(o, off, ty, I):
    if ty[0] == "p" and off == 0:
        v = S.globals.get("#vt")
        if v is None: v = S.globals["#vt"] = Obj(256, "streamvt", "stream vtable")
        return (v, 128)
    if ty[0] == "i":
        v = S.fmt.get((o.name, off), E.FMT0.get(off))
        return V.var("stream+%d" % off, "i%d" % ty[1]) if v is None else v
    raise Unsupported("read of stream state")
def load_vt(o, off, ty, I):
    if ty[0] == "i": return 8
    raise Unsupported("virtual call on stream")
E.SPECIAL_KINDS["stream"] = load_stream
E.SPECIAL_KINDS["streamvt"] = load_vt
