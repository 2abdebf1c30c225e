"""Runs the catalogue's instances through the abstract interpreter and turns outcomes into findings."""
import json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time, traceback
from fractions import Fraction
from multiprocessing import get_context
from multiprocessing.connection import wait as mp_wait
from . import values as V, engine as E, extern, witness, effects, catalog as K
from .catalog import Ctx, Finding, TYPES, COPIES
from .values import Node

REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = ["clang++", "-std=c++14", "-O0", "-Xclang", "-disable-O0-optnone", "-ffp-contract=off", "-D_GLIBCXX_ASSERTIONS",
       "-gline-tables-only", "-w", "-ferror-limit=0", "-fbracket-depth=2048"]

def cell_type(ct):
    k, size, stride, sg = TYPES[ct]
    return ("f", k, size) if k[0] == "f" else ("i", 8 * size, size)

# ------------------------------------------------------------------ building
STDALL = "".join("#include <%s>\n" % h for h in "algorithm array cctype cerrno cfloat climits cmath complex cstddef cstdint cstdio cstdlib cstring deque functional initializer_list iomanip ios iostream iterator limits list locale map memory "
                 "numeric random set sstream stdexcept string tuple type_traits utility valarray vector".split())
_PRE = []
HEAD = ['#include "matrix.hpp"\n']          # what a client includes
def prelude():
    """empty if matrix.hpp stands alone; otherwise (a defect of C21, which reports it) the standard headers, so that the other properties can still be decided"""
    if not _PRE:
        def ok(t): return subprocess.run(["clang++", "-std=c++14", "-fsyntax-only", "-w", "-I" + os.path.join(REPO, "matrix"), "-x", "c++", "-"], input=t, capture_output=True, text=True).returncode == 0
        use = HEAD[0]
        _PRE.append("" if ok(use) or not ok(STDALL + use) else STDALL)
    return _PRE[0]
def build(insts, d, tag):
    """IR module with one entry point per instance; returns (module path or None, error text)"""
    src = os.path.join(d, tag + ".cpp"); bc = os.path.join(d, tag + ".bc"); out = os.path.join(d, tag + ".o.bc")
    with open(src, "w") as f:
        f.write(prelude() + HEAD[0] + '#include <type_traits>\n')
        for sym, i in insts: f.write(i.cxx(sym))
    p = subprocess.run(CXX + ["-I" + os.path.join(REPO, "matrix"), "-c", "-emit-llvm", src, "-o", bc], capture_output=True, text=True)
    if p.returncode: return None, p.stderr
    p = subprocess.run(["opt", "-passes=mem2reg,simplifycfg", bc, "-o", out], capture_output=True, text=True)
    if p.returncode: return None, "opt: " + p.stderr
    return out, ""

def blamed(err, src):
    """entry points of the unit in which the compiler reported errors"""
    lines = open(src).read().split("\n"); start = []
    for k, l in enumerate(lines, 1):
        m = re.match(r'extern "C" void (\w+)\(', l)
        if m: start.append((k, m.group(1)))
    bad = set()
    for m in re.finditer(r"u\.cpp:(\d+):\d+: (error|note: in instantiation)", err):
        n = int(m.group(1)); sym = None
        for k, s in start:
            if k <= n: sym = s
        if sym: bad.add(sym)
    return bad

# ------------------------------------------------------------------ binding a scenario
def make_bind(inst, scen, ctx):
    def bind():
        args = []; outs = {}; objs = {}
        for n, r, c, *t in inst.ins:
            if n in scen.alias:
                args.append((objs[scen.alias[n]], 0)); continue
            ct = t[0] if t else inst.T
            k, size, stride, sg = TYPES[ct]
            ro = not (len(t) > 1 and t[1] == "inout")
            o = E.Obj(max(r, 1) * max(c, 1) * stride, "input", "operand " + n, ro)
            m = ctx.I[n]
            for i in range(max(r, 1)):
                for j in range(max(c, 1)):
                    o.cells[(i * max(c, 1) + j) * stride] = (size, m[i][j])
            o.esz = size if stride == size else -1
            objs[n] = o; args.append((o, 0))
            if not ro: outs[n] = (o, r, c, ct)
        for n, r, c, *t in inst.outs:
            ct = t[0] if t else inst.T
            stride = TYPES[ct][2]
            o = E.Obj(max(r, 1) * max(c, 1) * stride, "out", "result " + n)
            args.append((o, 0)); outs[n] = (o, r, c, ct)
        for n in inst.ints: args.append(scen.ints[n] & ((1 << 64) - 1))
        if scen.pre:
            for a, b, m in scen.pre(ctx):
                if not E.S.facts.assume(a, b, m): return None, None
        return args, outs
    return bind

def read_outs(o):
    r = {}
    for n, (obj, rows, cols, ct) in o.outs.items():
        ty = cell_type(ct); st = TYPES[ct][2]; R, C = max(rows, 1), max(cols, 1)
        m = []
        for i in range(R):
            row = []
            for j in range(C):
                try: row.append(E.load((obj, (i * C + j) * st), ty, None))
                except E.Stop: row.append(E.UNDEF)
            m.append(row)
        r[n] = m
    return r

# ------------------------------------------------------------------ judging
ABNORMAL = ("oob", "uninit", "ub", "terminate", "hang")
class Result:
    def __init__(self, inst):
        self.name = inst.name; self.op = inst.op; self.T = inst.T; self.scens = 0; self.parts = 0; self.ob = 0; self.undecided = []
        self.partial = 0; self.unsupported = []; self.findings = []; self.steps = 0; self.infeasible = 0; self.returns = 0; self.throws = 0
        self.branches = 0; self.sample = None; self.fns = set(); self.err = None; self.events = 0; self.time = 0.0; self.eff = None

def diagonal(kind):
    """diagonal matrices of powers of two, scalars likewise: products and sums of these are not rounded unless they leave the format"""
    def f(rng, vs):
        a = {}
        lim = witness.EMAX[kind]
        k = rng.choice((0, 1, -lim // 2 - 12, lim // 2 + 12, -lim // 3, lim // 3, -lim // 4, -lim // 5))
        for v in vs:
            m = re.match(r"\w+\[(\d+)\]\[(\d+)\]$", str(v.args[0]))
            a[v] = Fraction(2) ** (k if rng.random() < .5 else 0) * rng.choice((1, 1, -1)) if m is None or m.group(1) == m.group(2) else Fraction(0)
        return a
    return f

def functional(ctx, o):
    inst, scen = ctx.inst, ctx.scen
    if o.kind in ABNORMAL: return [Finding(o.kind, o.msg, o.loc)]
    if o.kind in ("steps", "unsupported"): return None
    if o.kind == "throw":
        if scen.expect == "throw":
            if o.ti != K.OVERFLOW: return [Finding("wrongthrow", "%s instead of std::overflow_error" % o.msg, o.loc)]
            ctx.ob += 1; return []
        if inst.throws and inst.throws(ctx, o):
            if o.ti != K.OVERFLOW and inst.fam == "C08": return [Finding("wrongthrow", "%s instead of std::overflow_error" % o.msg, o.loc)]
            ctx.ob += 1; return []
        want = None; nodes = []
        dv = inst.kw.get("divisor")
        if dv:
            nodes = dv(ctx)
            def want(env): return all(env.ev(x) not in (0, None) for x in nodes)
        f = Finding("throw", "%s although nothing calls for it" % o.msg, o.loc, want, nodes)
        if nodes and ctx.flt and inst.fam == "C08" and not inst.op.startswith("pow"): f.rounded = (nodes, lambda value, env: all(value(x) not in (0, None, "overflow") and env.ev(x) != 0 for x in nodes), diagonal(ctx.kind))
        return [f]
    if scen.expect == "throw":
        return [Finding("norefusal", "returns normally although %s" % scen.name)]
    return inst.spec(ctx, o)

STDOUT = {"printf", "vprintf", "puts", "putchar", "fputs", "fputc", "putc", "fwrite", "fflush", "fprintf"}
def c17(ctx, o):
    fs = []
    for e in o.events:
        if e[0] == "opwrite": fs.append(Finding("opwrite", "writes to %s" % e[1], e[2]))
        elif e[0] in ("gload", "gstore"): fs.append(Finding(e[0], "%s state that outlives the call (%s)" % ("reads" if e[0] == "gload" else "writes", e[1]), e[2]))
        elif e[0] == "constwrite": fs.append(Finding("constwrite", "writes to a constant (%s)" % e[1], e[2]))
        elif e[0] == "impure" and ctx.inst.kw.get("prints") and e[1] in STDOUT: pass
        elif e[0] == "impure": fs.append(Finding("impure", "consults the environment (%s)" % e[1], e[2]))
        elif e[0] == "streamstate": fs.append(Finding("stream", "changes stream state (%s)" % e[1], e[2]))
    if not ctx.inst.kw.get("prints"):
        for ev in o.out_events: fs.append(Finding("output", "writes to a stream (%s)" % ev[0], ev[-1])); break
    elif any(ev[1] == "manip" for ev in o.out_events):
        fs.append(Finding("stream", "changes the formatting state of the stream", [ev for ev in o.out_events if ev[1] == "manip"][0][-1]))
    if not fs:
        if o.kind == "unsupported": return None
        ctx.ob += 1
    return fs[:2]

def c18(ctx, o):
    if o.kind == "unsupported": return None
    if o.kind != "return": return []
    if ctx.inst.kw.get("alloc_ok"): return []
    fs = [Finding("alloc", "allocates from the heap (%s)" % e[1], e[2]) for e in o.events if e[0] == "alloc"]
    if not fs: ctx.ob += 1
    return fs[:1]

def c19(ctx, o):
    if o.kind in ("oob", "uninit", "ub"): return [Finding(o.kind, o.msg, o.loc)]
    if o.kind == "return" and not ctx.inst.kw.get("alloc_ok"):
        for n, m in o.outs.items():
            for i, row in enumerate(m):
                for j, v in enumerate(row):
                    if v is E.UNDEF: return [Finding("uninit", "%s[%d][%d] is returned uninitialised" % (n, i, j))]
    if o.kind == "unsupported": return None
    ctx.ob += 1
    return []

def c22(ctx, o):
    if o.kind == "unsupported": return None
    if o.kind == "hang": return [Finding("hang", o.msg, o.loc)]
    if o.kind == "steps":
        # a loop of one activation that has turned far more often than any pass over pairs of elements would
        n = max(max(x[1], 1) * max(x[2], 1) for x in ctx.inst.ins + ctx.inst.outs)
        if ctx.inst.small and o.turns > 500 + 20 * n * n: return [Finding("hang", "a loop turned %d times without end on this small instance (%s)" % (o.turns, o.msg), o.loc)]
        return None
    ctx.ob += 1
    return []

def c24(ctx, o):
    if not ctx.flt and ctx.inst.op.split("(")[0] in ("compare", "chol", "stddev"): return []
    fs = [Finding("narrow", "element data goes through a narrower or different-kind type: %s" % e[1], e[2]) for e in o.events if e[0] == "narrow"]
    if not fs:
        if o.kind == "unsupported": return None
        ctx.ob += 1
    return fs[:2]

def c28(ctx, o):
    if o.kind == "unsupported" and "without" in ctx.inst.op: return ctx.inst.spec(ctx, o) or None       # an effect seen on the way counts
    return functional(ctx, o)

JUDGE = {"C28": c28, "C17": c17, "C18": c18, "C19": c19, "C22": c22, "C24": c24}

def feasible(ctx, o, f, seed):
    if getattr(f, "ready", None): return f.ready
    if not o.facts.rels and f.want is None and ctx.scen.prepred is None: return witness.QEnv({})
    t0 = time.process_time()
    left = (3 if ctx.inst.kw.get("tier") != "thorough" else 15) - ctx.inst.kw.get("wtime", 0)
    nodes = f.nodes + ([x for m in ctx.I.values() for row in m for x in row if x.__class__ is Node] if ctx.scen.prepred else [])
    env = witness.find(o.facts, nodes, ctx.flt, ctx.signed, want=f.want, pre=ctx.scen.prepred, sampler=f.sampler or ctx.scen.sampler, seed=seed,
                       tries=240 if left > 0 else 12, secs=min(2, max(left, .05)))
    if env is None and getattr(f, "equalities", None): env = witness.find_ieee(o.facts, f.equalities, ctx.kind, seed)
    if env is None and getattr(f, "rounded", None): env = witness.find_rounded(o.facts, f.rounded[0], ctx.kind, f.rounded[1], seed, draw=f.rounded[2])
    if env is None: ctx.inst.kw["wtime"] = ctx.inst.kw.get("wtime", 0) + time.process_time() - t0
    return env

class TimeUp(BaseException): pass
def _alarm(*a): raise TimeUp()

def analyse(mod, sym, inst, prop, seed, tier, **opts):
    """analysis of one instance under a hard time limit; what was decided before the limit is kept"""
    res = Result(inst); t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 60 if tier == "quick" else 420)
    try:
        try: _analyse(res, mod, sym, inst, prop, seed, tier, **opts)
        finally: signal.setitimer(signal.ITIMER_REAL, 0)
    except TimeUp: res.partial += 1; res.undecided.append("time limit of the instance")
    res.fns = {f for f in E.S.called}
    res.time = time.time() - t0
    return res

def _analyse(res, mod, sym, inst, prop, seed, tier, scen_cap=None, maxsteps=6000000, deadline=None):
    t0 = time.time()
    judge = JUDGE.get(prop, functional)
    scens = inst.scens
    if scen_cap: scens = scens[:scen_cap]
    inst.kw["tier"] = tier
    limit = (25 if tier == "quick" else 200)
    for si, scen in enumerate(scens):
        if time.time() - t0 > limit or (deadline and time.time() > deadline): res.partial += 1; continue
        V.reset(seed)
        try:
            ctx = Ctx(inst, scen)
            V.KEEP[0] = ctx.flt and prop in COPIES
            cap = inst.cap
            if si and inst.kw.get("later"): cap = min(cap, inst.kw["later"])
            if prop in JUDGE: cap = min(cap, inst.kw.get("crosscap", 40 if tier == "quick" else 400))
            ex = E.explore(mod, sym, make_bind(inst, scen, ctx), ctx.kind, ctx.signed, nan=scen.nan, cap=cap,
                           rng=random.Random(seed * 7919 + si), maxsteps=inst.kw.get("maxsteps", maxsteps), budget=inst.budget, strip=inst.kw.get("strip", False) and prop not in JUDGE,
                           until=min(t0 + limit, deadline or 1e18))
        except E.Unsupported as e:
            res.unsupported.append("%s: %s" % (scen.name, e)); continue
        finally: V.KEEP[0] = False
        res.scens += 1; res.steps += ex.steps; res.infeasible += ex.infeasible
        if not ex.complete: res.partial += 1
        for o in ex.outcomes:
            res.parts += 1; res.branches += len(o.log); res.events += len(o.events)
            if o.kind == "return": res.returns += 1
            elif o.kind == "throw": res.throws += 1
            o.outs = read_outs(o)
            try: fs = judge(ctx, o)
            except V.Undefined: fs = None
            if fs is None and o.kind == "unsupported":
                if not res.unsupported or not res.unsupported[-1].startswith(scen.name + ": "): res.unsupported.append("%s: %s" % (scen.name, o.msg))
                continue
            if fs is None: res.undecided.append("%s: %s" % (scen.name, o.msg or o.kind)); continue
            for f in fs:
                if time.time() - t0 > 2 * limit: res.undecided.append("%s: %s (no time left to look for an input)" % (scen.name, f.msg)); continue
                env = feasible(ctx, o, f, seed)
                if env is None:
                    res.undecided.append("%s: %s (no input found that takes this partition and shows it)" % (scen.name, f.msg)); continue
                res.findings.append({"instance": inst.name, "op": inst.op, "type": inst.T, "scenario": scen.name, "kind": f.kind, "what": f.msg,
                    "where": f.loc or o.loc, "facts": o.facts.show(), "path": o.path(), "outcome": o.kind, "witness": witness.show(env),
                    "stack": o.trace, "ops": sorted({x.op for x in V.walk(f.nodes + [y for p, q, m in o.facts.rels for y in (p, q)])} - {"v", "c"})[:12]})
                if len(res.findings) >= 4: break
            if len(res.findings) >= 4: break
        if res.sample is None and ex.outcomes:
            o = ex.outcomes[0]
            res.sample = {"instance": inst.name, "scenario": scen.name, "partitions": len(ex.outcomes), "complete": ex.complete, "outcome": o.kind,
                          "facts": o.facts.show(4), "result": {n: V.show(m[0][0], 4) for n, m in list(o.outs.items())[:2]}}
        res.ob += ctx.ob
        if len(res.findings) >= 4: break

def lib_functions(mod, called):
    out = set()
    for n in called:
        f = mod.fns.get(n)
        if f is None or f.decl: continue
        bb = L_first(f)
        if bb and "/matrix/" in bb: out.add((re.sub(r".*/matrix/", "matrix/", bb), E.short(f.dem or E.L.demangle(n))))
    return out
def L_first(f):
    b = E.L.FirstBB(f.ptr)
    n = 0
    while b and n < 4:
        i = E.L.FirstInst(b)
        while i:
            w = E.where(i)
            if w: return w.rsplit(":", 1)[0]
            i = E.L.NextInst(i)
        b = E.L.NextBB(b); n += 1
    return None

def work(job):
    """one chunk: compile, analyse"""
    insts, prop, seed, tier, ids, opts = job; opts = dict(opts)
    d = tempfile.mkdtemp(prefix="u.", dir=opts.pop("scratch", None))
    out = []
    try:
        named = [("I%d" % k, i) for k, i in enumerate(insts)]
        path, err = build(named, d, "u")
        groups = []
        tries = nf = 0
        while path is None and named:
            # drop the instances the errors belong to; they are reported one by one
            bad = blamed(err, os.path.join(d, "u.cpp")) if tries < 6 else {n for n, _ in named}
            if not bad: bad = {n for n, _ in named}
            left = []
            for sym, inst in named:
                if sym not in bad: left.append((sym, inst)); continue
                p, e = build([(sym, inst)], d, sym)
                if p is None:
                    r = Result(inst); r.err = e; out.append((r, set()))
                else: groups.append((p, [(sym, inst)]))
            named = left; tries += 1
            if named: path, err = build(named, d, "u")
        if named: groups.append((path, named))
        for path, lst in groups:
            mod = E.Module(path)
            eff = effects.summary(mod, [s_ for s_, _ in lst]) if prop in ("C17", "C18", "C22") else {}
            for sym, inst in lst:
                E.S.called = set()
                try: r = analyse(mod, sym, inst, prop, seed, tier, **opts)
                except Exception:
                    r = Result(inst); r.unsupported.append("internal: " + traceback.format_exc(limit=-3))
                r.eff = eff.get(sym)
                out.append((r, lib_functions(mod, E.S.called)))
                r.fns = None
                if r.findings:
                    nf += 1
                    if nf > 12: return out                    # enough to report
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out

def run_all(insts, prop, seed, tier, opts=None, procs=8, per_inst=None):
    """analyse all instances in parallel chunks"""
    opts = dict(opts or {}); opts.setdefault("deadline", time.time() + (400 if tier == "quick" else 780))
    order = sorted(range(len(insts)), key=lambda k: -insts[k].weight)
    total = sum(i.weight for i in insts) or 1
    nchunk = max(1, min(len(insts), max(procs, int(len(insts) / 60) + 1, min(3 * procs, int(total / 40)))))
    if nchunk > procs: nchunk = (nchunk + procs - 1) // procs * procs
    loads = [0.0] * nchunk; chunks = [[] for _ in range(nchunk)]
    import heapq
    h = [(0.0, k) for k in range(nchunk)]; heapq.heapify(h)
    for k in order:
        w, c = heapq.heappop(h); chunks[c].append(k); heapq.heappush(h, (w + insts[k].weight, c))
    global _INSTS
    prelude()
    _INSTS = insts
    jobs = [(c, prop, seed, tier, n, opts) for n, c in enumerate(chunks) if c]
    jobs.sort(key=lambda j: -sum(insts[k].weight for k in j[0]))
    res = []
    opts["scratch"] = tempfile.mkdtemp(prefix="matflow.")
    try:
        for j, r in farm(_job, jobs, procs):
            if r is None:                                   # the worker ended without an answer (memory, crash)
                r = []
                for k in j[0]:
                    x = Result(insts[k]); x.unsupported.append("the analyser process of this chunk ended without an answer"); r.append((x, set()))
            res.extend(r)
            if sum(1 for x, _ in res if x.findings or x.err) > 30: break           # enough to report
    finally: shutil.rmtree(opts["scratch"], ignore_errors=True)
    return res

def farm(fn, jobs, procs):
    """one process per job, at most procs at a time; yields (job, result), result None if the process died"""
    ctx = get_context("fork"); todo = list(jobs); live = {}
    def start():
        j = todo.pop(0); rd, wr = ctx.Pipe(False)
        p = ctx.Process(target=_child, args=(fn, j, wr)); p.start(); wr.close(); live[rd] = (p, j)
    try:
        while todo or live:
            while todo and len(live) < procs: start()
            for rd in mp_wait(list(live)):
                p, j = live.pop(rd)
                try: r = rd.recv()
                except (EOFError, OSError): r = None
                rd.close(); p.join()
                yield j, r
    finally:
        for p, j in live.values(): p.kill()
        for p, j in live.values(): p.join()
def _child(fn, j, wr):
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    wr.send(fn(j)); wr.close()
MEMORY = 6 << 30
def _job(j):
    return work(([_INSTS[k] for k in j[0]],) + j[1:])
