"""Relational facts of one partition: what the branches taken so far say about the element data.

Facts are masks over {<, =, >, unordered} for pairs of value numbers, closed under transitivity
with the order of the constants; an equality additionally moves the random assignment onto the
variety it defines, so later comparisons of value numbers are made modulo that equality."""
from fractions import Fraction
from . import values as V
from .values import Node, Env, Undefined, support

LT, EQ, GT, UN = 1, 2, 4, 8
ALL = 15
def flip(m):
    return (m & (EQ | UN)) | (GT if m & LT else 0) | (LT if m & GT else 0)
MASKS = {1: "<", 2: "==", 4: ">", 3: "<=", 6: ">=", 5: "!=", 13: "!=", 7: "ordered", 8: "unordered", 12: "not <=",
         9: "not >=", 14: "not <", 11: "not >", 10: "== or unordered"}

class Facts:
    def __init__(self, nan=False, signed=True):
        self.nan = nan; self.signed = signed
        self.env = Env()
        self.rels = []            # (a, b, mask) in the order they were learnt
        self.diff = {}            # image(a-b) -> mask
        self.edges = {}           # image -> {image: strict}
        self.into = set()         # images that an edge leads to
        self.consts = {}          # image -> Fraction
        self.ordered = set()      # unknowns known not to be NaN
        self.fork_eq = False      # an equality could not be put into the assignment
        self._oenv = None
    # ------------------------------------------------------------ images
    def v(self, n):
        try: return self.env.ev(n)
        except Undefined: return ("undef", n.id)
    def may_nan(self, n):
        return self.nan and not (support(n) <= self.ordered)
    def dz(self, a, b):
        """image of a-b"""
        x, y = self.v(a), self.v(b)
        if x.__class__ is tuple and x and x[0] == "undef" or y.__class__ is tuple and y and y[0] == "undef":
            return ("d", x, y)
        return V.f_sub(x, y)
    # ------------------------------------------------------------ query
    def query(self, a, b):
        un = UN if (self.nan and (self.may_nan(a) or self.may_nan(b))) else 0
        if a is b: return EQ | un
        if a.op == "c" and b.op == "c":
            x, y = a.args[0], b.args[0]
            return EQ if x == y else LT if x < y else GT
        x, y = self.v(a), self.v(b)
        if x == y: return EQ | un
        m = LT | EQ | GT | un
        d = self.diff.get(self.dz(a, b))
        if d is not None: m &= d
        if a.op == "c" or b.op == "c" or m & (m - 1):
            m &= self._closure(a, b, x, y) | UN
            if b.op == "c": m &= (self._sgn(a, b.args[0]) & self._type(a, b.args[0])) | UN
            elif a.op == "c": m &= flip(self._sgn(b, a.args[0]) & self._type(b, a.args[0])) | UN
        return m
    def _type(self, n, c):
        """relation of n to the constant c that follows from the range of an integer unknown's type"""
        while n.op == "conv": n = n.args[0]
        k = n.kind
        if n.op != "v" or k[0] not in "iu": return LT | EQ | GT
        w = int(k[1:]); lo, hi = (0, (1 << w) - 1) if k[0] == "u" or not self.signed else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        return LT if c > hi else GT if c < lo else LT | EQ if c == hi else GT | EQ if c == lo else LT | EQ | GT
    def _sgn(self, n, c):
        """relation of n to the constant c, from its structure"""
        if c > 0: return LT | EQ | GT
        s = self.sign(n)
        if c == 0: return s
        return GT if not (s & LT) else LT | EQ | GT
    def sign(self, n, depth=4):
        op = n.op
        if op == "c":
            x = n.args[0]; return EQ if x == 0 else LT if x < 0 else GT
        m = LT | EQ | GT
        d = self.diff.get(self.v(n))
        if d is not None: m &= d
        try:
            if self.env.ev(n) == 0: return EQ
        except Undefined: pass
        if depth == 0 or not (m & (m - 1)): return m
        if op in ("fabs", "sqrt"):
            s = self.sign(n.args[0], depth - 1)
            m &= (GT | EQ) if s & EQ else GT
        elif op == "v" and n.kind[0] in "iu" and not self.signed: m &= GT | EQ
        elif op == "conv": m &= self.sign(n.args[0], depth - 1)
        elif op == "neg": m &= flip(self.sign(n.args[0], depth - 1))
        elif op == "*":
            if n.args[0] is n.args[1] or n.args[0].fp == n.args[1].fp:
                s = self.sign(n.args[0], depth - 1); m &= (GT | EQ) if s & EQ else GT
            else:
                m &= self._mulsign(self.sign(n.args[0], depth - 1), self.sign(n.args[1], depth - 1))
        elif op == "+":
            s, t = self.sign(n.args[0], depth - 1), self.sign(n.args[1], depth - 1)
            if not ((s | t) & LT): m &= (GT | EQ) if (s & EQ and t & EQ) else GT
            elif not ((s | t) & GT): m &= (LT | EQ) if (s & EQ and t & EQ) else LT
        return m or (LT | EQ | GT)
    @staticmethod
    def _mulsign(s, t):
        r = 0
        for x in (LT, EQ, GT):
            if s & x:
                for y in (LT, EQ, GT):
                    if t & y: r |= EQ if EQ in (x, y) else GT if x == y else LT
        return r
    def _closure(self, a, b, x, y):
        m = LT | EQ | GT
        r = self._reach(a, b, x, y)
        if r == 2: return LT
        if r == 1: m &= LT | EQ
        r = self._reach(b, a, y, x)
        if r == 2: return GT
        if r == 1: m &= GT | EQ
        return m
    def _reach(self, a, b, x, y):
        """2: a<b follows, 1: a<=b follows, 0: nothing follows"""
        if not self.edges: return 0
        if b.op != "c" and y not in self.into and y not in self.consts: return 0
        best = {x: 1}; todo = [(x, 1)]
        cx = a.args[0] if a.op == "c" else None; cy = b.args[0] if b.op == "c" else None
        res = 0
        def push(z, s):
            if best.get(z, 0) < s: best[z] = s; todo.append((z, s))
        while todo:
            z, s = todo.pop()
            if z == y:
                res = max(res, s)
                if res == 2: return 2
                continue
            e = self.edges.get(z)
            if e:
                for w, strict in e.items(): push(w, 2 if strict else s)
            cz = self.consts.get(z)
            if cz is None and z == x: cz = cx
            if cz is not None:
                for w, cw in self.consts.items():
                    if cw > cz: push(w, 2)
                if cy is not None and cy > cz: push(y, 2)
        return res
    # ------------------------------------------------------------ update
    def _note(self, a, b, m):
        d = self.dz(a, b); e = self.dz(b, a)
        self.diff[d] = self.diff.get(d, ALL) & m
        self.diff[e] = self.diff.get(e, ALL) & flip(m)
        x, y = self.v(a), self.v(b)
        for n, z in ((a, x), (b, y)):
            if n.op == "c": self.consts[z] = n.args[0]
        if not (m & UN):
            if not (m & GT):
                e = self.edges.setdefault(x, {}); e[y] = e.get(y, False) or not (m & EQ); self.into.add(y)
            if not (m & LT):
                e = self.edges.setdefault(y, {}); e[x] = e.get(x, False) or not (m & EQ); self.into.add(x)
            if self.nan: self.ordered |= support(a) | support(b)
    def assume(self, a, b, mask):
        m = self.query(a, b) & mask
        if not m: return False
        self.rels.append((a, b, m)); self._oenv = None
        if m == EQ: return self._equal(a, b)
        self._note(a, b, m)
        return True
    def _equal(self, a, b):
        if self.nan: self.ordered |= support(a) | support(b)
        for n, o in ((a, b), (b, a)):
            if n.op in ("fabs", "sqrt") and o.op == "c" and o.args[0] == 0:
                return self._equal(n.args[0], o)
            if n.op in ("conv",): return self._equal(n.args[0], o)
        ok = self.env.vanish(V.mk("-", (a, b), "x"))
        if not ok: self.fork_eq = True
        self.diff = {}; self.edges = {}; self.into = set(); self.consts = {}
        for (p, q, m) in self.rels:
            if m == EQ:
                if not ok: self._note(p, q, m)
                continue
            if not (m & (EQ | UN)) and self.v(p) == self.v(q): return False
            self._note(p, q, m)
        return True
    # ------------------------------------------------------------ comparing value numbers under the facts
    def oenv(self):
        if self._oenv is None:
            e = Env(order=self._order); e.assign = dict(self.env.assign); e.trivial = False
            self._oenv = e
        return self._oenv
    def _order(self, n):
        s = self.sign(n)
        return 1 if not (s & LT) else -1 if not (s & GT) else 0
    def same(self, x, y):
        """x and y denote the same rational function on this partition"""
        if x is y: return True
        try:
            if self.env.ev(x) == self.env.ev(y): return True
        except Undefined: return False
        if self.rels:
            try: return self.oenv().ev(x) == self.oenv().ev(y)
            except Undefined: return False
        return False
    def is_zero(self, n):
        try: return self.env.ev(n) == 0
        except Undefined: return False
    def show(self, limit=12):
        r = ["%s %s %s" % (V.show(a, 3), MASKS.get(m, str(m)), V.show(b, 3)) for a, b, m in self.rels[:limit]]
        if len(self.rels) > limit: r.append("... (%d facts)" % len(self.rels))
        return r
