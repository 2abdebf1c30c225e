"""Compile-time witnesses: programs whose (non-)acceptance by the compiler decides the property."""
import concurrent.futures as cf, os, re, shutil, subprocess, tempfile
from . import driver as D

def cc(cmd, src, d, name, extra=()):
    p = os.path.join(d, name)
    with open(p, "w") as f: f.write(src)
    r = subprocess.run(cmd + ["-I" + os.path.join(D.REPO, "matrix"), p] + list(extra), capture_output=True, text=True, cwd=d)
    return r.returncode, r.stderr

def first_error(err):
    for l in err.splitlines():
        if "error" in l: return l.strip()[:300]
    return err.strip()[:300]

PRE = '#include "matrix.hpp"\n'
ARITH = ["float", "double", "long double", "signed char", "unsigned char", "char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long"]

def M(T, r, c): return "mlib::Matrix<%s, %d, %d>" % (T, r, c)

# ------------------------------------------------------------------ result types
BIG = [(6, 6), (8, 8), (9, 9), (10, 3), (3, 10), (12, 12), (16, 16), (17, 17), (32, 33), (33, 32), (64, 64), (65, 1), (1, 65), (128, 2), (2, 128), (256, 3), (1, 257), (1000, 1), (1, 1000), (120, 130)]
def type_table():
    """(expression over declared names, result type): every conforming use"""
    rows = []
    def add(decls, expr, res, note=""): rows.append((decls, expr, res))
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 7), (7, 1), (4, 6), (5, 5)]
    for T in ARITH:
        sh = shapes if T in ("float", "double") else [(1, 1), (2, 3), (3, 3)]
        if T == "float": sh = sh + BIG
        if T in ("double", "int"): sh = sh + [(9, 9), (16, 17), (33, 5)]
        for r, c in sh:
            m = M(T, r, c); d = [("A", m), ("B", m), ("s", T)]
            for e in ("mlib::sum(A, B)", "A + B", "mlib::sub(A, B)", "A - B", "mlib::sum(A, s)", "A + s", "s + A", "mlib::sub(A, s)", "A - s",
                      "mlib::mult(A, s)", "A * s", "s * A", "mlib::div(A, s)", "A / s", "A++", "A--"): add(d, e, m)
            if T in ("float", "double", "long double", "int", "long", "short", "signed char"): 
                add(d, "mlib::abs(A)", m); add(d + [("e", "float")], "mlib::compare(A, B, e)", "bool")
            add(d, "mlib::trans(A)", M(T, c, r))
            for p in ((1, 2, 4) if r * c < 30 else (1, 2, 65, 200)): add([("A", m), ("B", M(T, c, p))], "mlib::mult(A, B)", M(T, r, p)); add([("A", m), ("B", M(T, c, p))], "A * B", M(T, r, p))
            if r != c or True:
                if not (r == c): 
                    add([("A", m), ("B", M(T, r + 1, c))], "mlib::concatenate(A, B)", M(T, 2 * r + 1, c)) if r + 1 != c or True else None
                    add([("A", m), ("B", M(T, r, c + 1))], "mlib::concatenate(A, B)", M(T, r, 2 * c + 1))
            add([], "mlib::zeros<%s, %d, %d>()" % (T, r, c), m); add([], "mlib::ones<%s, %d, %d>()" % (T, r, c), m)
            add([("s", T)], "mlib::fill<%s, %d, %d>(s)" % (T, r, c), m)
            add(d, "mlib::mean(A)", T); add(d, "mlib::var(A)", T); add(d, "mlib::median(A)", T); add(d, "mlib::stddev(A)", T)
            add(d, "mlib::histogram(A)", "std::map<%s, std::size_t>" % T); add(d, "mlib::cumulative_histogram(A)", "std::map<%s, std::size_t>" % T)
            k = [("A", m), ("K", M(T, 3, 3))]
            add(k, "mlib::conv2(A, K)", m); add(k, "mlib::conv2_full(A, K)", M(T, r + 2, c + 2))
            if r >= 3 and c >= 3: add(k, "mlib::conv2_valid(A, K)", M(T, r - 2, c - 2))
            if r == c:
                add([], "mlib::eye<%s, %d>()" % (T, r), m); add([("s", T)], "mlib::eye<%s, %d>(s)" % (T, r), m)
                add(d, "mlib::det(A)", T); add(d, "mlib::isIdentity(A)", "bool"); add(d, "mlib::isSymetric(A)", "bool")
                add(d, "mlib::concatenate(A, B)", "std::pair<%s, %s>" % (M(T, 2 * r, r), M(T, r, 2 * r)))
                add(d, "mlib::concatenateV(A, B)", M(T, 2 * r, r)); add(d, "mlib::concatenateH(A, B)", M(T, r, 2 * r))
                if r >= 2: add(d + [("i", "std::size_t"), ("j", "std::size_t")], "mlib::getminor(A, i, j)", M(T, r - 1, r - 1))
                if T in ("float", "double", "long double", "int", "long"):
                    add(d, "mlib::inv(A)", m); add(d + [("p", "int")], "mlib::pow(A, p)", m)
                if T in ("float", "double", "long double"):
                    add(d, "mlib::lu(A)", "std::pair<%s, %s>" % (m, m)); add(d, "mlib::chol(A)", m)
                if r == 2: add(d, "mlib::strassen(A, B)", m)
    add([], "mlib::ones<3>()", M("unsigned", 3, 3)); add([], "mlib::ones<2, 3>()", M("unsigned", 2, 3)); add([], "mlib::ones<3, 2>()", M("unsigned", 3, 2))
    add([], "mlib::ones<float, 3>()", M("float", 3, 3))
    return [r for r in rows if r]

def type_unit(rows):
    s = D.prelude() + PRE + "#include <type_traits>\nusing namespace mlib;\ntemplate<class X> using D_ = typename std::remove_cv<typename std::remove_reference<X>::type>::type;\n"
    where = {}
    for k, (ds, e, res) in enumerate(rows):
        ln = s.count("\n") + 1
        body = "void w%d(%s) { " % (k, ", ".join("%s& %s" % (t, n) for n, t in ds))
        body += "static_assert(std::is_same<D_<decltype(%s)>, %s>::value, \"result type\"); auto r_ = %s; (void)r_; }\n" % (e, res, e)
        s += body; where[ln] = k
    return s, where

# ------------------------------------------------------------------ programs that must not compile
def refusals():
    """(what, setup, bad expression, good expression): bad must be rejected, good accepted"""
    out = []
    def M2(n, r, c, T="float"): return "mlib::Matrix<%s, %d, %d> %s{};" % (T, r, c, n)
    pairs = [((2, 3), (3, 2)), ((2, 2), (3, 3)), ((2, 3), (2, 4)), ((2, 3), (1, 3)), ((1, 4), (4, 1)), ((3, 3), (3, 2)), ((2, 2), (2, 1)), ((1, 1), (2, 2)), ((1, 1), (1, 2))]
    for (r, c), (p, q) in pairs:
        for e in ("mlib::sum(A, B)", "A + B", "mlib::sub(A, B)", "A - B", "mlib::compare(A, B, 0.1f)"):
            out.append(("%s of %dx%d and %dx%d" % (e, r, c, p, q), M2("A", r, c) + M2("B", p, q), e, M2("A", r, c) + M2("B", r, c)))
    for (r, c), (p, q) in [((2, 3), (2, 3)), ((2, 2), (3, 3)), ((1, 3), (1, 3)), ((3, 3), (2, 3)), ((4, 2), (4, 2)), ((2, 3), (4, 2)), ((1, 1), (2, 2)), ((2, 2), (1, 2))]:
        for e in ("mlib::mult(A, B)", "A * B"):
            out.append(("%s of %dx%d and %dx%d" % (e, r, c, p, q), M2("A", r, c) + M2("B", p, q), e, M2("A", r, c) + M2("B", c, q)))
    for (r, c), (p, q) in [((2, 3), (3, 2)), ((2, 2), (3, 3)), ((1, 4), (4, 1)), ((2, 3), (4, 5)), ((1, 2), (3, 4))]:
        out.append(("concatenate of %dx%d and %dx%d" % (r, c, p, q), M2("A", r, c) + M2("B", p, q), "mlib::concatenate(A, B)", M2("A", r, c) + M2("B", r, c + 1)))
    for (r, c), (p, q) in [((2, 3), (2, 3)), ((2, 2), (3, 3)), ((2, 2), (2, 3))]:
        for f in ("concatenateV", "concatenateH"):
            out.append(("%s of %dx%d and %dx%d" % (f, r, c, p, q), M2("A", r, c) + M2("B", p, q), "mlib::%s(A, B)" % f, M2("A", r, r) + M2("B", r, r)))
    for r, c in [(2, 3), (3, 2), (1, 2), (2, 1), (4, 5), (5, 4), (1, 4), (3, 4)]:
        for e in ("mlib::det(A)", "mlib::inv(A)", "mlib::lu(A)", "mlib::chol(A)", "mlib::pow(A, 2)", "mlib::getminor(A, 0, 0)", "mlib::isIdentity(A)", "mlib::isSymetric(A)"):
            n = max(r, c)
            out.append(("%s of a %dx%d matrix" % (e, r, c), M2("A", r, c), e, M2("A", n, n)))
    for (r, c) in [(3, 3), (1, 1), (4, 4), (2, 3), (3, 2), (1, 2)]:
        out.append(("strassen of %dx%d" % (r, c), M2("A", r, c) + M2("B", r, c), "mlib::strassen(A, B)", M2("A", 2, 2) + M2("B", 2, 2)))
    for (p, q) in [(2, 2), (5, 5), (3, 2), (2, 3), (1, 1), (3, 4), (4, 3)]:
        for f in ("conv2", "conv2_full", "conv2_valid"):
            out.append(("%s with a %dx%d kernel" % (f, p, q), M2("A", 5, 6) + M2("K", p, q), "mlib::%s(A, K)" % f, M2("A", 5, 6) + M2("K", 3, 3)))
    # element types do not mix
    return out

def refusal_grid(lits=(), top=5):
    """(what, operands, expression) for every ill-shaped combination over a grid of extents: none may be accepted"""
    dims = list(range(1, top + 1)); out = []
    big = [7, 9, 16] + [x for x in lits if top < x <= 300][:6]
    def t(r, c): return "mlib::Matrix<float, %d, %d>&" % (r, c)
    sh = [(r, c) for r in dims for c in dims]
    pairs = [(a, b) for a in sh for b in sh]
    for d in big:
        pairs += [((d, d), (d, d - 1)), ((d - 1, d), (d, d)), ((1, d), (1, d + 1)), ((d, 1), (d + 1, 1)), ((2, d), (3, d)), ((d, 2), (2, d)), ((1, d), (d, 1)), ((d, 3), (d, 1)), ((1, 1), (1, d)), ((2, 1), (d, 2)), ((1, 2), (1, d)),
                  ((d, d), (1, 1)), ((d, 2), (d + 1, 2)), ((2, d), (d + 1, 3)), ((2, d + 1), (d, 3)), ((3, d), (d - 1, 2))]
    for a, b in pairs:
        ab = "%dx%d and %dx%d" % (a + b); ds = (("A", t(*a)), ("B", t(*b)))
        if a != b:
            for e in ("mlib::sum(A, B)", "A + B", "mlib::sub(A, B)", "A - B", "mlib::compare(A, B, 0.1f)"): out.append(("%s of %s" % (e, ab), ds, e))
        if a[1] != b[0]:
            for e in ("mlib::mult(A, B)", "A * B"): out.append(("%s of %s" % (e, ab), ds, e))
        if a[0] != b[0] and a[1] != b[1]: out.append(("concatenate of " + ab, ds, "mlib::concatenate(A, B)"))
        if a != b or a[0] != a[1]:
            for f in ("concatenateV", "concatenateH"): out.append(("%s of %s" % (f, ab), ds, "mlib::%s(A, B)" % f))
        if (a, b) != ((2, 2), (2, 2)): out.append(("strassen of " + ab, ds, "mlib::strassen(A, B)"))
    for r, c in sh + [(d, d - 1) for d in big] + [(1, d) for d in big] + [(d, 2) for d in big]:
        if r == c: continue
        for e in ("mlib::det(A)", "mlib::inv(A)", "mlib::lu(A)", "mlib::chol(A)", "mlib::pow(A, 2)", "mlib::pow(A, -1)", "mlib::getminor(A, 0, 0)", "mlib::isIdentity(A)", "mlib::isSymetric(A)"):
            out.append(("%s of a %dx%d matrix" % (e, r, c), (("A", t(r, c)),), e))
    for p, q in [x for x in sh if x != (3, 3)] + [(7, 7), (9, 9), (3, 9), (9, 3), (9, 1), (1, 9)]:
        for r, c in ((5, 6), (4, 4), (3, 3), (1, 1)):
            if (r, c) == (p, q) and (r, c) == (3, 3): continue
            for f in ("conv2", "conv2_full", "conv2_valid"):
                if f == "conv2_valid" and min(r, c) < 3: continue
                out.append(("%s of %dx%d with a %dx%d kernel" % (f, r, c, p, q), (("A", t(r, c)), ("K", t(p, q))), "mlib::%s(A, K)" % f))
    return out
def grid_unit(rows):
    s = D.prelude() + PRE + "using namespace mlib;\n"
    base = s.count("\n") + 1
    s += "".join("void w%d(%s) { auto r_ = %s; (void)r_; }\n" % (k, ", ".join("%s %s" % (t, n) for n, t in ds), e) for k, (w, ds, e) in enumerate(rows))
    return s, {base + k: k for k in range(len(rows))}

def refusal_src(setup, e):
    return D.prelude() + PRE + "using namespace mlib;\nint main() { %s auto r_ = %s; (void)r_; return 0; }\n" % (setup, e)

# ------------------------------------------------------------------ one unit that uses everything
def all_ops(types=("float", "double", "int")):
    ops = []
    for T in types:
        for ds, e, res in type_table():
            if ("<%s," % T) in res or res == T or any(("<%s," % T) in t for _, t in ds):
                ops.append((ds, e))
    seen = set(); out = []
    for ds, e in ops:
        key = (tuple(ds), e)
        if key in seen: continue
        seen.add(key); out.append((ds, e))
    return out
def use_all(tag, twice=False, types=("float", "double", "int")):
    s = PRE + (PRE if twice else "") + "using namespace mlib;\n"
    for k, (ds, e) in enumerate(all_ops(types)):
        s += "void %s%d(%s) { auto r_ = %s; (void)r_; }\n" % (tag, k, ", ".join("%s& %s" % (t, n) for n, t in ds), e)
    s += "void %ssw(mlib::Matrix<float, 2, 3>& A, std::size_t x, std::size_t y) { mlib::swap_rows(A, x, y); mlib::swap_cols(A, x, y); mlib::print(A); }\n" % tag
    s += "void %sswi(mlib::Matrix<int, 3, 3>& A, std::size_t x, std::size_t y) { mlib::swap_rows(A, x, y); mlib::swap_cols(A, x, y); mlib::print(A); }\n" % tag
    return s

NEEDS = {"algorithm": ["sort", "nth_element", "partial_sort"], "cmath": ["sqrt", "abs", "fabs"], "map": ["map"], "iostream": ["cout"], "stdexcept": ["overflow_error"],
         "array": ["array"], "utility": ["pair", "make_pair", "swap"], "numeric": ["accumulate", "inner_product", "iota"],
         "type_traits": ["common_type", "is_same", "enable_if", "is_floating_point", "is_integral", "is_signed", "is_unsigned", "is_arithmetic", "conditional", "make_signed", "make_unsigned"]}
ALSO = {"utility": {"map", "algorithm", "utility", "array"}, "iostream": {"iostream"}, "array": {"array"}, "cmath": {"cmath"}, "map": {"map"},
        "stdexcept": {"stdexcept"}, "numeric": {"numeric"}, "type_traits": {"type_traits"}, "algorithm": {"algorithm"}}
def strip(t):
    t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S); t = re.sub(r"//[^\n]*", " ", t); return re.sub(r'"[^"\n]*"', lambda m: m.group(0), t)
def include_rule():
    """std names used by the headers whose standard header matrix.hpp does not reach by its own #includes"""
    d = os.path.join(D.REPO, "matrix"); std = {}; used = {}; todo = ["matrix.hpp"]; seen = []
    while todo:
        h = todo.pop(0)
        if h in seen or not os.path.exists(os.path.join(d, h)): continue
        seen.append(h); t = strip(open(os.path.join(d, h), errors="replace").read())
        for m in re.finditer(r'^\s*#\s*include\s*"([^"]+)"', t, re.M):
            near = os.path.normpath(os.path.join(os.path.dirname(h), m.group(1)))
            todo.append(near if os.path.exists(os.path.join(d, near)) else os.path.normpath(m.group(1)))
        for m in re.finditer(r"^\s*#\s*include\s*<([^>]+)>", t, re.M): std.setdefault(m.group(1), h)
        for n, line in enumerate(t.split("\n"), 1):
            for m in re.finditer(r"\bstd::(\w+)", line): used.setdefault(m.group(1), "matrix/%s:%d" % (h, n))
    bad = []; checked = 0
    for hd, names in NEEDS.items():
        u = [n for n in names if n in used]
        if u:
            checked += 1
            if not (ALSO[hd] & set(std)): bad.append((hd, u[0], used[u[0]]))
    return bad, checked, seen, sorted(std)

VENDOR = re.compile(r"\b(__builtin_\w+|__attribute__|__int128\w*|__typeof__|__extension__|__restrict\w*|__forceinline|__declspec|__asm\w*|_Pragma)|<bits/[^>]*>|<ext/[^>]*>|\b__gnu_cxx\b")
def vendor_rule():
    """compiler extensions used outside any conditional on the compiler"""
    d = os.path.join(D.REPO, "matrix"); bad = []; lines = 0
    from .catalog import header_files
    for h in [os.path.relpath(f, d) for f in header_files(D.REPO)]:
        st = []
        for n, l in enumerate(strip(open(os.path.join(d, h), errors="replace").read()).split("\n"), 1):
            lines += 1; t = l.strip()
            m = re.match(r"#\s*(ifdef|ifndef|if|elif|else|endif)\b(.*)", t)
            if m:
                k = m.group(1); dep = bool(re.search(r"__\w+|_MSC_VER|defined", m.group(2)))
                if k in ("if", "ifdef", "ifndef"): st.append(dep)
                elif k in ("elif",) and st: st[-1] = st[-1] or dep
                elif k == "endif" and st: st.pop()
            if not any(st):
                m = VENDOR.search(re.sub(r'"[^"]*"', '""', l) if "include" not in l else l)
                if m: bad.append((m.group(0), "matrix/%s:%d" % (h, n)))
    return bad, lines

# ------------------------------------------------------------------ layout
def layout_src(std, thorough, dims=()):
    s = D.prelude() + PRE + "#include <type_traits>\nusing namespace mlib;\n"
    n = 0
    s += ("template<class T, std::size_t r, std::size_t c> struct W_ { typedef Matrix<T, r, c> m; static_assert(sizeof(m) == r * c * sizeof(T), \"size\"); static_assert(alignof(m) == alignof(T), \"alignment\"); "
          "static_assert(std::is_trivially_copyable<m>::value && std::is_standard_layout<m>::value && std::is_trivially_destructible<m>::value, \"plain value\"); "
          "static_assert(std::is_same<decltype(std::declval<m&>()[0][0]), T&>::value, \"subscript\"); static_assert(sizeof(std::declval<m&>()[0]) == c * sizeof(T), \"row\"); };\n")
    top = 40 if thorough else 20
    for T in ("float", "double", "int", "unsigned char", "long double", "short"):
        small = T not in ("float", "double")
        sh = {(r, c) for r in range(1, top + 1) for c in range(1, top + 1) if not small or (r <= 8 and c <= 8)}
        for x in sorted(set(dims) | {24, 31, 32, 33, 48, 63, 64, 65, 100, 128, 255, 256, 257, 1000, 1024}):
            if x > 0: sh |= {(x, x), (1, x), (x, 1), (x, 3), (2, x)}
        for r, c in sorted(sh):
            s += "template struct W_<%s, %d, %d>;\n" % (T, r, c); n += 5
    Ts = ARITH + ["bool"]
    for T in Ts:
        for r, c in [(1, 1), (1, 2), (2, 1), (2, 3), (3, 2), (3, 3), (1, 17), (17, 1), (5, 4), (16, 16)] + ([(64, 3), (33, 65), (100, 100)] if thorough or T == "float" else []):
            m = M(T, r, c)
            for cond in ("std::is_trivially_copyable<%s>::value" % m, "std::is_standard_layout<%s>::value" % m, "std::is_trivially_destructible<%s>::value" % m,
                         "std::is_trivially_copy_constructible<%s>::value" % m, "std::is_trivially_copy_assignable<%s>::value" % m,
                         "sizeof(%s) == %du * sizeof(%s)" % (m, r * c, T), "alignof(%s) == alignof(%s)" % (m, T),
                         "std::is_same<decltype(std::declval<%s&>()[0][0]), %s&>::value" % (m, T), "std::is_same<decltype(std::declval<const %s&>()[0][0]), const %s&>::value" % (m, T),
                         "sizeof(std::declval<%s&>()[0]) == %du * sizeof(%s)" % (m, c, T), "std::is_default_constructible<%s>::value" % m):
                s += "static_assert(%s, \"%s\");\n" % (cond, cond.replace('"', "")); n += 1
            if std >= 17: s += "static_assert(std::is_aggregate<%s>::value, \"aggregate %s\");\n" % (m, m); n += 1
    for T in Ts:
        lit = (lambda k: ("true" if k % 2 else "false") if T == "bool" else "static_cast<%s>(%d)" % (T, k))
        for r, c in [(1, 1), (2, 3), (3, 2), (1, 4), (4, 1), (3, 3)]:
            vals = [lit(i) for i in range(1, r * c + 1)]
            nested = "{{" + ", ".join("{{" + ", ".join(vals[i * c:(i + 1) * c]) + "}}" for i in range(r)) + "}}"
            nm = "c_%s_%d_%d" % (re.sub(r"\W", "_", T), r, c)
            s += "constexpr %s %s = %s;\n" % (M(T, r, c), nm, nested)
            s += "constexpr %s %s_f = {{%s}};\n" % (M(T, r, c), nm, ", ".join(vals)); n += 2
            if std >= 14:
                for i in range(r):
                    for j in range(c):
                        for v in (nm, nm + "_f"):
                            s += "static_assert(%s[%d][%d] == %s, \"row-major initialisation\");\n" % (v, i, j, vals[i * c + j]); n += 1
    return s, n
