"""Whole-call-graph effect rules over the IR (path-insensitive): what a library function can reach at all.

For every function defined in matrix/*.hpp: the external functions reachable through the resolved call graph (function
addresses that are taken count as called) and the mutable globals referenced from there.  Where the rule discharges a
function, the verdict holds for all element values at that instantiation, whatever branch is taken; where it does not,
the function is left to the partitioned analysis and listed."""
from . import llvmc as L, engine as E

ALLOC = ("_Znw", "_Zna", "malloc", "calloc", "realloc", "aligned_alloc", "posix_memalign", "memalign", "valloc", "strdup", "strndup", "mmap", "sbrk")
RAISE = ("__cxa_allocate_exception", "__cxa_throw", "__cxa_free_exception", "__cxa_rethrow", "__cxa_begin_catch", "__cxa_end_catch", "__gxx_personality_v0", "_Unwind_Resume",
         "_ZSt9terminatev", "__clang_call_terminate", "_ZSt20__throw_", "_ZSt17__throw_", "_ZSt24__throw_", "_ZSt19__throw_", "_ZSt21__throw_", "_ZSt28__throw_", "_ZSt22__throw_",
         "_ZSt21__glibcxx_assert_fail", "__assert_fail", "abort")
PURE = ("llvm.", "memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen", "sqrt", "fabs", "floor", "ceil", "trunc", "round", "rint", "nearbyint", "abs", "labs", "llabs", "fma", "fmin", "fmax", "copysign", "pow",
        "_ZSt18_Rb_tree_", "_ZSt29_Rb_tree_", "_ZSt28_Rb_tree_", "_ZSt9terminatev")

def _operands(v, out, seen, depth=0):
    """functions and globals mentioned by a value, through constant expressions"""
    k = L.VK.get(L.ValueKind(v))
    if k in ("function", "global"): out.add(v); return
    if k in ("cexpr", "carray", "cstruct", "cvector") and depth < 6:
        for i in range(L.NumOperands(v)): _operands(L.Operand(v, i), out, seen, depth + 1)

class Graph:
    def __init__(self, mod):
        self.mod = mod; self.refs = {}; self.gname = mod.gptr; self.fname = {p: n for n, p in mod.raw.functions.items()}
        self.indirect = {}
        for n, p in mod.raw.functions.items():
            if L.IsDeclaration(p): continue
            fs, gs, ind = set(), set(), 0
            b = L.FirstBB(p)
            while b:
                i = L.FirstInst(b)
                while i:
                    op = L.OPC.get(L.Opcode(i))
                    out = set()
                    for k in range(L.NumOperands(i)): _operands(L.Operand(i, k), out, None)
                    for v in out:
                        if v in self.fname: fs.add(self.fname[v])
                        elif v in self.gname: gs.add(self.gname[v])
                    if op in ("call", "invoke") and L.VK.get(L.ValueKind(L.CalledValue(i))) not in ("function",): ind += 1
                    i = L.NextInst(i)
                b = L.NextBB(b)
            self.refs[n] = (fs, gs); self.indirect[n] = ind
    def reach(self, root):
        seen = {root}; st = [root]; ext = set(); gl = set(); ind = 0
        while st:
            f = st.pop()
            if f not in self.refs: ext.add(f); continue
            fs, gs = self.refs[f]; gl |= gs; ind += self.indirect[f]
            for x in fs:
                if x not in seen: seen.add(x); st.append(x)
        return seen, ext, gl, ind
    def recursive(self):
        """functions on a call-graph cycle (Tarjan)"""
        idx = {}; low = {}; on = set(); st = []; out = set(); c = [0]
        import sys
        sys.setrecursionlimit(20000)
        def go(v):
            idx[v] = low[v] = c[0]; c[0] += 1; st.append(v); on.add(v)
            for w in self.refs.get(v, (set(),))[0]:
                if w not in self.refs: continue
                if w not in idx: go(w); low[v] = min(low[v], low[w])
                elif w in on: low[v] = min(low[v], idx[w])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop(); on.discard(w); comp.append(w)
                    if w == v: break
                if len(comp) > 1 or v in self.refs[v][0]: out.update(comp)
        for v in self.refs:
            if v not in idx: go(v)
        return out

def mutable(mod, n):
    g = mod.raw.globals[n]
    if n.startswith((".str", "__const", "_ZTI", "_ZTV", "_ZTS", "llvm.", "__dso_handle")): return False
    if L.IsDeclaration(g): return True
    return not L.IsGlobalConstant(g)

def summary(mod, roots):
    """roots: entry symbol -> instance. Returns per entry: (allocators, unknown externals, mutable globals, indirect calls, functions reached)"""
    g = Graph(mod); out = {}
    for sym in roots:
        seen, ext, gl, ind = g.reach(sym)
        al = sorted(e for e in ext if e.startswith(ALLOC))
        env = sorted(e for e in ext if not e.startswith(ALLOC + RAISE + PURE) and not exception_member(e))
        mg = sorted(n for n in gl if mutable(mod, n))
        out[sym] = (al, env, mg, ind, len(seen))
    return out
def exception_member(n):
    d = L.demangle(n)
    return d.startswith("std::") and ("_error::" in d or d.startswith(("std::exception::", "std::bad_alloc::", "std::invalid_argument::", "std::out_of_range::"))) or n.startswith(("_ZdlPv", "_ZdaPv"))
