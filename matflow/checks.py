"""One entry per property: what is analysed, how the verdict is formed, what the evidence says."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time
from . import catalog as K, compilew as W, driver as D

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
CROSS = ("C17", "C18", "C19", "C22", "C24")

RULE = {
 "C01": "each result element's value number equals that of the scalar operation on the matching operand elements",
 "C02": "each result element's value number equals the sum of products over the inner dimension",
 "C03": "each result element is the operand element the index mapping names",
 "C04": "after the call the argument's elements are the operand's with exactly the two rows (columns) exchanged",
 "C05": "each element is the requested constant or value",
 "C06": "on every partition of the zero tests the result's value number equals the Leibniz determinant modulo the partition's equalities",
 "C07": "on every partition with non-zero determinant A*X and X*A have the value numbers of the identity",
 "C08": "every partition on which the divisor (scalar, determinant, pivot) is zero ends in std::overflow_error, and no other partition throws",
 "C09": "L has unit diagonal and zeros above, U zeros below, and L*U has the value numbers of A",
 "C10": "L is lower triangular with non-negative square roots on the diagonal and L*trans(L) has the value numbers of A; isSymetric is true on exactly the partitions with A[i][j] = A[j][i]",
 "C11": "pow has the value numbers of the repeated product (of the inverse for negative exponents)",
 "C12": "each result element has the value number of the zero-padded convolution sum",
 "C13": "the result has the value number of the population statistic (truncating division for integers)",
 "C14": "on every partition of the element order the result is provably the middle order statistic",
 "C15": "on every partition of the element order the map's keys are the distinct elements and its counts are exact",
 "C16": "the predicate is true on exactly the partitions whose facts imply the definition and false on exactly those that contradict it",
 "C17": "no store reaches a read-only operand, no load or store touches mutable storage that outlives the call, no call consults the environment or writes to a stream",
 "C18": "no allocation function is called on a path that returns; call-graph rule: no allocation function reachable outside exception raising",
 "C19": "every load and store lies inside its object and row, no uninitialised cell reaches a result, an address or a branch",
 "C22": "every partition ends: no block is re-entered with an unchanged abstract state, and every loop of a small instance ends within the step bound",
 "C23": "the sequence of stream insertions is exactly the elements in row-major order, each followed by a blank, with a newline per row",
 "C24": "no conversion instruction on a value that depends on element data has a result type with less precision or range than the element type",
 "C29": "the real and imaginary parts of each result element have the value numbers of the complex sum, difference, product or copy",
 "C28": "without PRINT_IOSTREAM_ENABLE print has no effect on any path and no header's include closure contains <iostream>; with it the insertions are those of C23",
 "C27": "pow of the least exponent of a signed type has the value numbers of the repeated product of the inverse",
 "C25": "static_asserts on layout traits, constant-expression initialisation, and value numbers of subscripting, copying and traversal",
}

def known_findings():
    out = []
    with open(os.path.join(HERE, "KNOWN_FINDINGS.txt")) as f:
        for l in f:
            m = re.match(r'known: property=(\w+) instance="([^"]+)" scenario="([^"]+)" kind="([^"]+)" op="([^"]+)" :: (.*)', l)
            if m: out.append(m.groups())
    return out
def is_known(prop, f, known):
    for k in known:
        if k[0] == prop and f.get("instance") == k[1] and f.get("scenario") == k[2] and f.get("kind") == k[3] and k[4] in f.get("ops", []): return k
    return None

class Run:
    def __init__(self, prop, tier, seed):
        self.prop = prop; self.tier = tier; self.seed = seed; self.t0 = time.time()
        self.findings = []; self.cov = {}; self.assume = []; self.samples = []; self.broken = None; self.known = []; self.undecided = 0
    def add(self, **f): self.findings.append(f)

# ------------------------------------------------------------------ value-flow checks
def flow(run, insts):
    res = D.run_all(insts, run.prop, run.seed, run.tier)
    fns = set(); c = {k: 0 for k in ("instances", "scenarios", "partitions", "obligations_discharged", "partitions_undecided", "scenarios_not_exhausted", "scenarios_unsupported",
                                     "abstract_steps", "partitions_infeasible", "partitions_returning", "partitions_throwing", "data_branches", "instances_rejected_by_compiler")}
    for r, s in res:
        c["instances"] += 1; c["scenarios"] += r.scens; c["partitions"] += r.parts; c["obligations_discharged"] += r.ob; c["partitions_undecided"] += len(r.undecided)
        c["scenarios_not_exhausted"] += r.partial; c["scenarios_unsupported"] += len(r.unsupported); c["abstract_steps"] += r.steps; c["partitions_infeasible"] += r.infeasible
        c["partitions_returning"] += r.returns; c["partitions_throwing"] += r.throws; c["data_branches"] += r.branches; fns |= s
        if r.err:
            c["instances_rejected_by_compiler"] += 1
            run.add(instance=r.name, kind="does not compile", what=W.first_error(r.err), where=None, scenario="compilation")
        for f in r.findings: run.add(**f)
        if r.unsupported and "unsupported_example" not in run.cov: run.cov["unsupported_example"] = "%s: %s" % (r.name, r.unsupported[0][:400])
        if r.undecided and len(run.cov.setdefault("undecided_examples", [])) < 5: run.cov["undecided_examples"].append("%s: %s" % (r.name, r.undecided[0][:300]))
    run.cov.update(c); run.undecided += c["partitions_undecided"]
    lib = {}
    for f, n in {(f.split(":")[0], n) for f, n in fns}:
        m = re.search(r"mlib::([A-Za-z_]\w*|operator[^\w\s(<]+)", n)
        lib.setdefault("%s: %s" % (f, m.group(1) if m else re.sub(r"<.*", "", n)), set()).add(n)
    run.cov["library_functions_analysed"] = {k: "%d instantiations, e.g. %s" % (len(v), min(v, key=lambda x: (len(x), x))) for k, v in sorted(lib.items())}
    run.cov["library_instantiations_analysed"] = sum(map(len, lib.values()))
    effect_rule(run, res)
    by = {}
    for r, _ in res: by[r.op.split("(")[0]] = by.get(r.op.split("(")[0], 0) + 1
    run.cov["instances_by_operation"] = by
    run.cov["element_types"] = sorted({r.T for r, _ in res})
    # a few written-out cases: a generic one, one with several partitions, one that throws
    for want in (lambda r: r.sample, lambda r: r.sample and r.parts > 3, lambda r: r.sample and r.throws):
        for r, _ in res:
            if want(r) and r.sample not in run.samples: run.samples.append(r.sample); break
    if c["instances_rejected_by_compiler"] == c["instances"]: run.broken = "no instance compiles: " + (run.findings[0]["what"] if run.findings else "")
    elif c["scenarios_unsupported"] > c["scenarios"]: run.cov["warning"] = "most scenarios are outside what the analyser models: " + run.cov.get("unsupported_example", "")
    return res

def effect_rule(run, res):
    """path-insensitive call-graph verdicts: they hold for all element values of the instance, also where partitions were not exhausted"""
    eff = [(r, r.eff) for r, _ in res if getattr(r, "eff", None)]
    if not eff or run.prop not in ("C17", "C18"): return
    if run.prop == "C18":
        ok = [r for r, e in eff if not e[0] and not e[3] and not e[1]]
        left = [r for r, e in eff if e[0] or e[3] or e[1]]
        what = "no allocation function, unknown external function or indirect call is reachable (raising an exception aside)"
    else:
        ok = [r for r, e in eff if not e[1] and not e[2] and not e[3]]
        left = [r for r, e in eff if e[1] or e[2] or e[3]]
        what = "no mutable global, no external function outside the pure list and no indirect call is reachable"
    run.cov["call_graph_rule"] = {"rule": what, "instances_discharged_for_all_element_values": len(ok), "left_to_the_partitioned_analysis": len(left),
        "operations_left": sorted({r.op.split("(")[0] for r in left}), "functions_reached_at_most": max([e[4] for _, e in eff] or [0]),
        "unexhausted_instances_covered_by_this_rule": len([r for r in ok if r.partial])}

def all_instances(sz):
    out = []; seen = set(); extra = []
    K.wide[0] = False
    for p in K.FAM:
        if p in ("C25", "C27"): continue
        for i in K.FAM[p](sz):
            key = (i.op, i.T, tuple(i.ins), tuple(i.outs), i.code)
            if p in ("C08",) and key in seen: continue
            if i.own and (sz.tier == "quick" or i.core is False and p in ("C01", "C14", "C15") and i.T not in ("double", "long", "short")):
                if sz.typed: extra.append(i)
                continue
            seen.add(key); out.append(i)
    # where the source distinguishes element types: a share of the further type-shape combinations, spread over operations and types
    by = {}
    for i in extra:
        n = max(x[1] * max(x[2], 1) for x in i.ins + i.outs)
        if n <= 170: by.setdefault((i.op, i.T), []).append((n, i))
    for v in by.values():
        v.sort(key=lambda x: x[0]); k = max(1, len(v) // 8)
        out += [i for _, i in v[::k][-9:]]
    return out + K.cross_only(sz)

# ------------------------------------------------------------------ compile-time checks
def tmp():
    return tempfile.mkdtemp(prefix="matflow.")

def shapes(run):
    """C20: result types of conforming uses; rejection of ill-shaped programs"""
    d = tmp()
    try:
        rows = W.type_table(); src, where = W.type_unit(rows)
        comps = ["clang++"] + (["g++"] if run.tier == "thorough" else [])
        stds = (14,) if run.tier == "quick" else (11, 14, 17, 20, 23)
        n = 0; ok = 0
        for comp in comps:
            for std in stds:
                flags = [comp, "-std=c++%d" % std, "-fsyntax-only", "-w"] + (["-ferror-limit=0"] if comp == "clang++" else ["-fmax-errors=0"])
                rc, err = W.cc(flags, src, d, "t.cpp"); n += len(rows)
                if rc == 0: ok += len(rows); continue
                bad = {}
                for l in err.splitlines():
                    m = re.search(r"t\.cpp:(\d+):", l)
                    if m and int(m.group(1)) in where and ("error" in l or "required from here" in l or "in instantiation" in l): bad.setdefault(where[int(m.group(1))], l.strip()[:300])
                if not bad: bad = {0: W.first_error(err)}
                ok += len(rows) - len(bad)
                for k, e in list(bad.items())[:10]:
                    run.add(instance="%s, %s c++%d" % (rows[k][1], comp, std), kind="result type", scenario="operands " + ", ".join("%s %s" % (t, x) for x, t in rows[k][0]),
                            what="does not have the result type %s, or does not compile: %s" % (rows[k][2], e), where=None)
        refs = W.refusals()
        def one(j):
            comp, k = j
            what, bad, e, good = refs[k]
            f = [comp, "-std=c++14", "-fsyntax-only", "-w"]
            r1, _ = W.cc(f, W.refusal_src(bad, e), d, "b%s%d.cpp" % (comp[0], k)); r2, e2 = W.cc(f, W.refusal_src(good, e), d, "g%s%d.cpp" % (comp[0], k))
            return comp, what, e, r1, r2, W.first_error(e2)
        rej = acc = 0
        with cf.ThreadPoolExecutor(8) as ex:
            for comp, what, e, r1, r2, msg in ex.map(one, [(c, k) for c in comps for k in range(len(refs))]):
                if r1 == 0: run.add(instance=what, kind="accepted", scenario="must be rejected", what="the ill-shaped program '%s' compiles (%s)" % (e, comp), where=None)
                else: rej += 1
                if r2 != 0: run.add(instance=what, kind="rejected", scenario="conforming counterpart", what="the conforming counterpart of '%s' does not compile (%s): %s" % (e, comp, msg), where=None)
                else: acc += 1
        grid = W.refusal_grid(K.Sizes(D.REPO, run.tier).lits, 5 if run.tier == "quick" else 8)
        parts = [grid[k::8] for k in range(8)]
        def some(j):
            k, rows = j
            src, where = W.grid_unit(rows)
            rc, err = W.cc(["clang++", "-std=c++14", "-fsyntax-only", "-w", "-ferror-limit=0", "-fshow-overloads=best", "-fno-caret-diagnostics", "-ftemplate-backtrace-limit=0"], src, d, "grid%d.cpp" % k)
            hit = {where[int(m.group(1))] for m in re.finditer(r"grid%d\.cpp:(\d+):" % k, err) if int(m.group(1)) in where}
            silent = [rows[x] for x in range(len(rows)) if x not in hit]; bad = []
            # a combination no diagnostic points at is compiled on its own before it counts as accepted
            for n_, (what, ds, e) in enumerate(silent[:60]):
                src, _ = W.grid_unit([(what, ds, e)])
                if W.cc(["clang++", "-std=c++14", "-fsyntax-only", "-w"], src, d, "one%d_%d.cpp" % (k, n_))[0] == 0: bad.append((what, e))
                if len(bad) >= 3: break
            return len(rows), len(silent), bad
        gn = 0
        with cf.ThreadPoolExecutor(8) as ex:
            for k_, silent, bad in ex.map(some, list(enumerate(parts))):
                gn += k_
                for what, e in bad: run.add(instance=what, kind="accepted", scenario="must be rejected", what="the ill-shaped program '%s' compiles (clang++)" % e, where=None)
        run.cov["ill_shaped_grid"] = gn
        run.cov.update(result_type_assertions=n, result_types_exact=ok, ill_shaped_programs=len(refs) * len(comps), rejected=rej, conforming_counterparts_accepted=acc, compilers=comps, standards=list(stds))
        run.samples += [{"assertion": rows[7][1], "type": rows[7][2]}, {"must_not_compile": refs[0][0], "program": W.refusal_src(refs[0][1], refs[0][2])}]
        run.cov["rule"] = "decltype of every conforming use is exactly the specified type; every ill-shaped program is rejected while its conforming counterpart is accepted"
        if rej == 0 or acc == 0: run.broken = "the compiler does not work"
    finally: shutil.rmtree(d, ignore_errors=True)

def units(run):
    """C21"""
    d = tmp()
    try:
        stds = (11, 14, 17, 20, 23); comps = ("clang++", "g++"); n = 0; good = 0
        rest = [T for T in W.ARITH if T not in ("float", "double", "int")]
        jobs = [(c, s, v) for c in comps for s in stds for v in ("alone", "twice")] + [(c, s, "alltypes") for c in comps for s in ((11, 20) if run.tier == "quick" else stds)]
        text = {"alone": W.use_all("u"), "twice": W.use_all("u", twice=True), "alltypes": W.use_all("u", types=rest)}
        def one(j):
            c, s, v = j
            rc, err = W.cc([c, "-std=c++%d" % s, "-fsyntax-only", "-pedantic-errors"], text[v], d, "%s%d%s.cpp" % (c[0], s, v))
            return j, rc, err
        with cf.ThreadPoolExecutor(8) as ex:
            for (c, s, v), rc, err in ex.map(one, jobs):
                n += 1
                if rc == 0: good += 1; continue
                src = text[v].split("\n")
                m = re.search(r"%s%d%s\.cpp:(\d+):" % (re.escape(c[0]), s, v), err)
                run.add(instance="%s -std=c++%d, matrix.hpp included %s" % (c, s, v), kind="rejected", scenario=src[int(m.group(1)) - 1][:200] if m else "the header itself",
                        what=W.first_error(err), where=None)
        # each public header of matrix.hpp's closure stands behind matrix.hpp; symbols of two units
        syms = {}; strong = []
        def obj(j):
            c, s, u = j; nm = "o%s%d%s" % (c[0], s, u)
            rc, err = W.cc([c, "-std=c++%d" % s, "-O0", "-c", "-w"], W.use_all(u), d, nm + ".cpp", ["-o", nm + ".o"])
            if rc: return None
            def nmrun(opt): return [l.strip().split(" ", 2) for l in subprocess.run(["nm", "-C", opt, os.path.join(d, nm + ".o")], capture_output=True, text=True).stdout.splitlines()]
            return ({l[2] for l in nmrun("--defined-only") if len(l) == 3 and l[1] in "TDBRCGS"}, {" ".join(l[1:]) for l in nmrun("--undefined-only") if "mlib::" in " ".join(l[1:]).split("(")[0]})
        pairs = [(c, s) for c in comps for s in (11, 17)]
        with cf.ThreadPoolExecutor(8) as ex: objs = dict(zip([p + (u,) for p in pairs for u in "uv"], ex.map(obj, [p + (u,) for p in pairs for u in "uv"])))
        for c, s in pairs:
            per = [objs[c, s, "u"], objs[c, s, "v"]]; lab = "two translation units, %s -std=c++%d" % (c, s)
            if None in per: continue
            dup = sorted(per[0][0] & per[1][0]); syms["%s c++%d" % (c, s)] = len(per[0][0] | per[1][0])
            for x in dup: run.add(instance=lab, kind="duplicate definition", scenario="each includes matrix.hpp", what="both units define the strong symbol %s" % x, where=None)
            for x in sorted(per[0][1]): run.add(instance=lab, kind="no definition", scenario="matrix.hpp included", what="%s is used but defined in no header" % x, where=None)
            rc = subprocess.run([c, "-r", "-nostdlib", "-o", os.path.join(d, "r.o")] + [os.path.join(d, "o%s%d%s.o" % (c[0], s, u)) for u in "uv"], capture_output=True, text=True)
            if rc.returncode: run.add(instance=lab, kind="duplicate definition", scenario="linking", what=rc.stderr.strip()[:300], where=None)
        vend, vl = W.vendor_rule()
        for what, where in vend: run.add(instance=what, kind="compiler extension", scenario="not conditional on the compiler", what="%s is not C++: another conforming compiler need not accept it" % what, where=where)
        run.cov["header_lines_scanned_for_extensions"] = vl
        bad, checked, hdrs, std = W.include_rule()
        for hd, name, where in bad: run.add(instance="std::%s" % name, kind="missing include", scenario="reachable includes: %s" % ", ".join(std), what="std::%s is used but no header reached from matrix.hpp includes <%s>" % (name, hd), where=where)
        # macro pollution / internal linkage: static functions in headers are allowed, strong ones are not
        run.cov.update(translation_units=n, accepted=good, compilers=list(comps), standards=list(stds), operations_used=len(W.all_ops()) + 6, strong_symbols_compared=syms, headers_scanned=hdrs, standard_headers_checked=checked)
        run.cov["rule"] = "every unit including only matrix.hpp compiles with -pedantic-errors; no strong symbol is defined by two units; every standard name used has its header included"
        run.samples.append({"unit": W.use_all("u")[:600]})
        if good == 0 and not syms: run.broken = run.findings[0]["what"] if len(run.findings) > 30 else None
    finally: shutil.rmtree(d, ignore_errors=True)

def layout(run):
    d = tmp()
    try:
        stds = (11, 14, 17, 20) if run.tier == "quick" else (11, 14, 17, 20, 23); comps = ("clang++", "g++"); tot = 0; ok = 0
        def one(j):
            c, s = j; src, n = W.layout_src(s, run.tier == "thorough", [x + e for x in K.Sizes(D.REPO, run.tier).lits for e in (-1, 0, 1) if x < 3000])
            rc, err = W.cc([c, "-std=c++%d" % s, "-fsyntax-only", "-w"] + (["-ferror-limit=0"] if c == "clang++" else []), src, d, "l%s%d.cpp" % (c[0], s))
            return c, s, n, rc, err
        with cf.ThreadPoolExecutor(8) as ex:
            for c, s, n, rc, err in ex.map(one, [(c, s) for c in comps for s in stds]):
                tot += n; es = [l for l in err.splitlines() if "error" in l]
                ok += n - (min(len(es), n) if rc else 0)
                if rc:
                    for l in es[:4]: run.add(instance="%s -std=c++%d" % (c, s), kind="layout", scenario="static assertion", what=l.strip()[:300], where=None)
        run.cov.update(static_assertions=tot, static_assertions_hold=ok, compilers=list(comps), standards=list(stds))
    finally: shutil.rmtree(d, ignore_errors=True)
    flow(run, K.instances("C25", K.Sizes(D.REPO, run.tier)))

def silent(run):
    """C28: print compiled without stream output; no header but matrix.hpp brings <iostream> in"""
    d = tmp(); sz = K.Sizes(D.REPO, run.tier); use = '#include "matrix_type.hpp"\n#include "matrix_print.hpp"\n'
    try:
        hs = [os.path.relpath(h, os.path.join(D.REPO, "matrix")) for h in K.header_files(D.REPO)]
        # a header that enables stream output itself (matrix.hpp does) is outside this property
        own = [h for h in hs if re.search(r"^\s*#\s*define\s+PRINT_IOSTREAM_ENABLE\b", W.strip(open(os.path.join(D.REPO, "matrix", h), errors="replace").read()), re.M)]
        rest = [h for h in hs if h not in own and h.endswith((".hpp", ".h"))]; reached = 0
        for comp in ("clang++", "g++"):
            for h in rest:
                rc = subprocess.run([comp, "-std=c++14", "-M", "-x", "c++", "-I" + os.path.join(D.REPO, "matrix"), "-"], input='#include "%s"\n' % h, capture_output=True, text=True, cwd=d)
                if rc.returncode: continue
                deps = [os.path.basename(x) for x in rc.stdout.replace("\\\n", " ").split()]
                if any(x in own for x in deps): continue
                reached += 1
                if "iostream" in deps: run.add(instance="#include \"%s\"" % h, kind="include", scenario="PRINT_IOSTREAM_ENABLE not defined, %s" % comp, what="<iostream> is included although stream output is not enabled", where="matrix/" + h)
        run.cov["headers_include_closure"] = reached
        if not reached: run.broken = "no header could be preprocessed"
    finally: shutil.rmtree(d, ignore_errors=True)
    D.HEAD[0] = use
    flow(run, K.silent_insts(sz))
    first = {k: run.cov[k] for k in ("instances", "scenarios", "partitions", "obligations_discharged", "partitions_undecided", "scenarios_unsupported")}
    D.HEAD[0] = "#define PRINT_IOSTREAM_ENABLE 1\n" + use; D._PRE.clear()
    flow(run, K.print_insts("C28", [(T, s) for T in ("float", "double", "int", "signed char", "unsigned long") for s in ((1, 1), (1, 4), (4, 1), (2, 3), (3, 3))]))
    run.cov["enabled_by_the_macro"] = {k: run.cov[k] for k in first}
    run.cov["without_the_macro"] = first
    for k in first: run.cov[k] += first[k]

# ------------------------------------------------------------------ main
EXPL = ("Abstract interpretation of the LLVM IR that clang emits for instantiations of the library (one entry point per operation, element type and shape; nothing is executed and no solver is called). "
        "Control, sizes and addresses are tracked by constant propagation with a pointer/extent domain; element data are unknowns tracked by algebraic value numbering; where a branch depends on element data the "
        "trace is partitioned on that comparison and its outcome kept as a fact. Each partition's outcome is compared with the specification. A discrepancy is reported only together with an input in the partition "
        "that shows it; otherwise it counts as undecided.")
ASSUME = ["exact arithmetic: rounding and overflow of the element type are not modelled", "clang 18's translation of the instantiations to IR", "the models of the standard library's external functions in matflow/extern.py",
          "shapes and types beyond the analysed instances behave alike (the headers' own integer literals seed extra shapes)"]

def main(argv):
    prop = argv[0]
    tier = "thorough" if "--thorough" in argv else os.environ.get("VERIF_TIER", "quick")
    if "--quick" in argv: tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    run = Run(prop, tier, seed)
    os.makedirs(EVID, exist_ok=True)
    sz = K.Sizes(D.REPO, tier)
    if prop == "C20": shapes(run)
    elif prop == "C21": units(run)
    elif prop == "C25": layout(run)
    elif prop == "C28": silent(run)
    elif prop == "C29": D.HEAD[0] = '#include <complex>\n' + D.HEAD[0]; flow(run, K.complex_insts(sz))
    elif prop in CROSS: flow(run, all_instances(sz))
    elif prop in K.FAM: flow(run, K.instances(prop, sz))
    else: print("unknown property " + prop); return 2
    known = known_findings(); real = []; seen = set()
    for f in run.findings:
        k = is_known(prop, f, known)
        if k:
            if k not in seen: seen.add(k); run.known.append(k); print("KNOWN-FINDING: property=%s %s: %s" % (prop, k[1], k[5]))
        else: real.append(f)
    wall = time.time() - run.t0
    run.cov["explanation"] = run.cov.get("rule") or EXPL
    run.cov.setdefault("rule", RULE.get(prop, ""))
    if prop not in ("C20", "C21"): run.cov["shape_conditions_read_from_the_source"] = {"conditions": sz.conditions, "shapes_added": sz.cond2[:60] + sz.cond3[:24]}
    if sz.lits and prop not in ("C20", "C21"): run.cov["integer_literals_seeding_shapes"] = sz.lits[:40]
    run.cov["samples"] = run.samples[:4]
    run.cov["known_findings_seen"] = len(run.known)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": run.cov, "assumptions": ASSUME if prop not in ("C20", "C21") else ["the installed clang++ 18 and g++ 13 decide acceptance"],
          "wall_s": round(wall, 2), "violations": len(real)}
    if run.broken: ev["coverage"]["broken"] = run.broken
    with open(os.path.join(EVID, prop + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    rp = os.path.join(EVID, prop + ".replay.json")
    if real:
        real.sort(key=lambda f: (f.get("where") is None, len(f.get("instance", "")), f.get("instance", "")))
        with open(rp, "w") as f: json.dump({"property": prop, "rule": run.cov["rule"], "rerun": "python3 check.py %s" % prop, "violations": real[:60]}, f, indent=1, default=str)
        for f in real[:6]:
            print("%s: %s [%s; %s]%s" % (f.get("where") or f.get("instance"), f["what"], f.get("instance"), f.get("scenario"), " e.g. %s" % f["witness"] if f.get("witness") else ""))
            for s in (f.get("path") or [])[:6]: print("    via " + str(s))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if os.path.exists(rp): os.remove(rp)
    if run.broken: print("BROKEN: " + run.broken); return 2
    c = run.cov
    if "warning" in c: print("WARNING: " + c["warning"])
    print("%s holds on everything analysed (%s; %.1f s)" % (prop, ", ".join("%s %s" % (c[k], k) for k in ("instances", "scenarios", "partitions", "obligations_discharged", "partitions_undecided", "scenarios_not_exhausted",
          "scenarios_unsupported", "result_types_exact", "rejected", "accepted", "static_assertions_hold") if k in c), wall))
    return 0
