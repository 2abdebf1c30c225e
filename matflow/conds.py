"""Shapes the source distinguishes.

Every condition in the headers' templates that depends on the template's extents (and on loop indices and sizeof) is read from
clang's syntax tree and evaluated for all extents of a range: where one of its outcomes is reached by none (or few) of the
shapes that are analysed anyway, the smallest shapes that reach it are analysed too.  This only chooses instances; it
decides nothing."""
import itertools, json, os, re, subprocess

PASS = {"ParenExpr", "ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "ConstantExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "InitListExpr", "CXXUnresolvedConstructExpr", "ParenListExpr"}
M64 = (1 << 64) - 1
CMP = {"==", "!=", "<", ">", "<=", ">="}

class Unsup(Exception): pass

def tree(repo):
    r = subprocess.run(["clang++", "-std=c++14", "-w", "-I" + os.path.join(repo, "matrix"), "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=mlib", "-x", "c++", "-"],
                       input='#include "matrix.hpp"\n', capture_output=True, text=True, timeout=60)
    dec = json.JSONDecoder(); s = r.stdout; k = 0; out = []
    while k < len(s):
        while k < len(s) and s[k] in " \r\n\t": k += 1
        if k >= len(s) or s[k] != "{": break
        o, k = dec.raw_decode(s, k); out.append(o)
    return out

class Reader:
    def __init__(self):
        self.param = {}; self.vars = {}; self.conds = []; self.seen = set()
    def declare(self, n, loop=False):
        k = n.get("kind")
        if k in ("FunctionTemplateDecl", "ClassTemplateDecl", "ClassTemplatePartialSpecializationDecl", "TypeAliasTemplateDecl", "VarTemplateDecl"):
            ps = [c for c in n.get("inner", ()) if c.get("kind") == "NonTypeTemplateParmDecl"]
            for i, c in enumerate(ps): self.param[c["id"]] = (n["id"], i, len(ps))
        if k == "VarDecl" and not loop: self.vars[n["id"]] = n
        if k == "ForStmt" and n.get("inner"):               # loop variables run over a range
            self.declare(n["inner"][0], True)
            for c in n["inner"][1:]: self.declare(c)
            return
        for c in n.get("inner", ()): self.declare(c, loop)
    def expr(self, n, st):
        """Python text of an integer expression over p0.. (extents) and u0.. (unknowns)"""
        k = n.get("kind"); inner = [c for c in n.get("inner", ()) if c.get("kind")]
        if k in PASS:
            if len(inner) != 1: raise Unsup()
            return self.expr(inner[0], st)
        if k in ("IntegerLiteral",): return "(%s)" % n["value"]
        if k == "CXXBoolLiteralExpr": return "1" if n.get("value") else "0"
        if k == "SubstNonTypeTemplateParmExpr": return self.expr(inner[-1], st)
        if k == "DeclRefExpr":
            d = n.get("referencedDecl", {})
            if d.get("kind") == "NonTypeTemplateParmDecl" and d["id"] in self.param:
                t, i, m = self.param[d["id"]]
                if st["t"] not in (None, t): raise Unsup()
                st["t"] = t; st["m"] = m; st["p"] += 1
                return "p%d" % i
            if d.get("kind") in ("VarDecl", "ParmVarDecl"):
                v = self.vars.get(d["id"])
                q = d.get("type", {}).get("qualType", "")
                if v is not None and d["id"] not in st["busy"]:
                    init = [c for c in v.get("inner", ()) if c.get("kind", "").endswith(("Expr", "Operator", "Literal"))]
                    if init:
                        sub = dict(st, p=0, busy=st["busy"] | {d["id"]}, u=dict(st["u"]))
                        try:
                            e = self.expr(init[-1], sub)
                            if sub["p"]: st.update(t=sub["t"], m=sub["m"], p=st["p"] + sub["p"], u=sub["u"]); return e
                        except Unsup: pass
                if d["kind"] == "ParmVarDecl" and re.fullmatch(r"(const )?[A-Z]\w*", q): return st["u"].setdefault(d["id"], "u%d" % len(st["u"]))
                if not any(w in q for w in ("int", "long", "size_t", "short", "char", "auto")) or "Matrix" in q: raise Unsup()
                return st["u"].setdefault(d["id"], "u%d" % len(st["u"]))
            raise Unsup()
        if k == "UnaryExprOrTypeTraitExpr" and n.get("name") == "sizeof": return st["u"].setdefault("sizeof", "sz")
        if k == "UnaryOperator":
            o = n.get("opcode")
            if o not in ("-", "+", "!", "~"): raise Unsup()
            return ("(not %s)" if o == "!" else "(" + o + "%s)") % self.expr(inner[0], st)
        if k == "ConditionalOperator":
            a, b, c = inner; return "(%s if %s else %s)" % (self.expr(b, st), self.expr(a, st), self.expr(c, st))
        if k == "BinaryOperator":
            o = n.get("opcode"); a, b = inner
            if o in ("&&", "||"):
                py = " and " if o == "&&" else " or "; parts = []
                for x in (a, b):
                    sub = dict(st, u=dict(st["u"]))
                    try: e = self.expr(x, sub); st.update(sub); parts.append(e)
                    except Unsup: pass                      # depends on element data: either way is possible
                if not parts: raise Unsup()
                return "(" + py.join(parts) + ")"
            x, y = self.expr(a, st), self.expr(b, st)
            if o in CMP: return "(%s %s %s)" % (x, o, y)
            if o in ("+", "-", "*", "&", "|", "^", "<<", ">>"):
                w = n.get("type", {}).get("qualType", "")
                return ("((%s %s %s) & M)" if "unsigned long" in w or "size_t" in w else "(%s %s %s)") % (x, o, y)
            if o == "/": return "D(%s, %s)" % (x, y)
            if o == "%": return "R(%s, %s)" % (x, y)
        raise Unsup()
    def note(self, n):
        st = {"t": None, "m": 0, "p": 0, "u": {}, "busy": frozenset()}
        try: e = self.expr(n, st)
        except (Unsup, KeyError, ValueError, RecursionError): return
        us = sorted(v for v in st["u"].values() if v != "sz")
        if st["m"] == 0 and len(us) not in (1, 2): return
        if st["m"] > 3 or len(us) > 2 or not st["p"] and not us: return
        key = (st["m"], e)
        if key in self.seen: return
        self.seen.add(key); self.conds.append((st["m"], len(us), "sz" in st["u"].values(), e, sorted(us)))
    def walk(self, n, first=True):
        k = n.get("kind")
        if k == "BinaryOperator" and n.get("opcode") in CMP | {"&&", "||"}: self.note(n)
        if k in ("IfStmt", "WhileStmt", "ConditionalOperator") and n.get("inner"): self.note(n["inner"][0])
        for c in n.get("inner", ()):
            self.walk(c)

def conditions(repo):
    rd = Reader()
    try:
        ts = tree(repo)
        for t in ts: rd.declare(t)
        for t in ts: rd.walk(t)
    except (OSError, ValueError, subprocess.SubprocessError, RecursionError): return []
    return rd.conds

def D(a, b): q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
def R(a, b): return a - b * D(a, b)

def outcomes(f, ps, us, sz, want):
    """can the condition have the outcome for these extents?"""
    top = max(ps) if ps else 0
    for s in ((1, 2, 4, 8, 16) if sz else (0,)):
        for u in itertools.product(range(top), repeat=us):
            try:
                if bool(f(*ps, *u, s)) == want: return True
            except (ZeroDivisionError, ValueError, OverflowError, MemoryError): pass
    return False

def extra(repo, base1, base2, base3):
    """further extents (n), (r, c), (n, m, p) that reach outcomes the base does not"""
    add = {1: [], 2: [], 3: []}; exps = []; pairs = []
    base = {1: [(n,) for n in base1], 2: list(base2), 3: list(base3)}
    cand = {1: [(n,) for n in range(1, 65)],
            2: sorted([(r, c) for r in range(1, 41) for c in range(1, 41)] + [(1, d) for d in range(41, 200)] + [(d, 1) for d in range(41, 200)] + [(2, d) for d in range(41, 130)] + [(d, 3) for d in range(41, 130)], key=lambda s: (s[0] * s[1], s)),
            3: sorted(itertools.product(range(1, 13), repeat=3), key=lambda s: s[0] * s[1] * s[2])}
    conds = conditions(repo)
    for m, us, sz, e, names in conds:
        ar = m or 2                                        # indices only: taken as positions in a matrix
        args = ["p%d" % i for i in range(ar)] + ["u%d" % i for i in range(us)] + ["sz"]
        try: f = eval("lambda %s: %s" % (", ".join(args), e), {"M": M64, "D": D, "R": R, "__builtins__": {}})
        except SyntaxError: continue
        if m == 0 and us == 1:                             # an argument such as an exponent
            for want in (True, False):
                def hit(x):
                    try: return bool(f(1, 1, x, 4)) == want
                    except (ZeroDivisionError, ValueError, OverflowError): return False
                if sum(map(hit, range(1, 18))) < 3: exps += [x for x in range(18, 300) if hit(x)][:3]
                if sum(map(hit, range(-9, 0))) < 3: exps += [x for x in range(-10, -200, -1) if hit(x)][:3]
        if m == 0 and us == 2:                             # two indices
            for want in (True, False):
                def hit2(x, y):
                    try: return bool(f(1, 1, x, y, 4)) == want
                    except (ZeroDivisionError, ValueError, OverflowError): return False
                if sum(hit2(x, y) for x in range(7) for y in range(7)) >= 3: continue
                pairs += [p for p in sorted(itertools.product(range(80), repeat=2), key=max) if hit2(*p)][:4]
        lim = 1 << 30 if us == 0 else 1600 if us == 1 else 150      # extents tried, where indices are enumerated too
        for want in (True, False):
            have = sum(1 for s in base[ar] if (us == 0 or max(s) <= (300 if us == 1 else 24)) and outcomes(f, s, us, sz, want))
            if have >= 3: continue
            got = []
            for s in cand[ar]:
                k = 1
                for x in s: k *= x
                if us and k > lim or us == 2 and max(s) > 40: continue
                if s not in base[ar] and outcomes(f, s, us, sz, want):
                    got.append(s)
                    if len(got) >= 4: break
            if ar == 2 and us == 0 and got:
                for test in (lambda s: s[0] == s[1], lambda s: s[0] > s[1] > 1, lambda s: 1 < s[0] < s[1]):
                    for s in cand[2]:
                        if test(s) and s not in got and s not in base[2] and outcomes(f, s, us, sz, want): got.append(s); break
            for s in got:
                if s not in add[ar]: add[ar].append(s)
    return [s[0] for s in add[1]][:12], add[2][:40], add[3][:24], list(dict.fromkeys(exps))[:24], list(dict.fromkeys(pairs))[:16], len(conds)
