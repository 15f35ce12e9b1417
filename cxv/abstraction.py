"""Arithmetic abstraction of a fact: everything that is not linear integer arithmetic or propositional becomes an unconstrained constant.
The abstraction is weaker than the fact, so unsatisfiability of the abstract facts implies unsatisfiability of the facts."""
import z3
AR = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT,
      z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_ANUM, z3.Z3_OP_ITE}
I, B = z3.IntSort(), z3.BoolSort()

class Abs:
    def __init__(self):
        self.memo = {}; self.side = []; self.n = 0
    def const(self, t, sort):
        self.n += 1
        return z3.Const('@%d' % self.n, sort)
    def __call__(self, t):
        k = t.get_id()
        if k in self.memo: return self.memo[k][1]
        r = self.make(t)
        self.memo[k] = (t, r)
        return r
    def make(self, t):
        s = t.sort()
        if not z3.is_app(t): return self.const(t, s)
        k = t.decl().kind()
        if s == B or s == I:
            ch = t.children()
            if k == z3.Z3_OP_MUL and sum(0 if z3.is_int_value(c) else 1 for c in ch) > 1: return self.const(t, s)
            if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(ch[1]): return self.const(t, s)
            if k in AR and all(c.sort() in (I, B) for c in ch):
                return t if not ch else t.decl()(*[self(c) for c in ch])
            if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(ch) == 2:
                if ch[0].sort() in (I, B):
                    e = self(ch[0]) == self(ch[1])
                    return e if k == z3.Z3_OP_EQ else z3.Not(e)
                r = self.const(t, B)
                if ch[0].sort() == z3.StringSort():
                    e = r if k == z3.Z3_OP_EQ else z3.Not(r)
                    self.side.append(z3.Implies(e, self.length(ch[0]) == self.length(ch[1])))
                return r
            if k == z3.Z3_OP_UNINTERPRETED and not ch: return t
            if k == z3.Z3_OP_SEQ_LENGTH: return self.length(ch[0])
            return self.const(t, s)
        return self.const(t, s)
    def length(self, t):
        k = ('len', t.get_id())
        if k in self.memo: return self.memo[k][1]
        if z3.is_string_value(t): r = z3.Length(t); r = z3.simplify(r)
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            r = z3.Sum([self.length(c) for c in t.children()])
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_UNIT: r = z3.IntVal(1)
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            r = z3.If(self(t.arg(0)), self.length(t.arg(1)), self.length(t.arg(2)))
        else:
            r = self.const(t, I); self.side.append(r >= 0)
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
                o, l, n = self(t.arg(1)), self(t.arg(2)), self.length(t.arg(0))
                self.side.append(z3.If(z3.And(o >= 0, o < n, l > 0), r == z3.If(o + l <= n, l, n - o), r == 0))
            elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_AT: self.side.append(r <= 1)
        self.memo[k] = (t, r)
        return r
    def take(self):
        s, self.side = self.side, []
        return s
