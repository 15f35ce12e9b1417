"""Short forms for writing contracts: recursive spec functions over sequences, accumulator invariants, units."""
import z3
from .contracts import *
from .runner import Unit
from . import stdfns

class Fold:
    """spec function: the concatenation of enc(a_0[i], a_1[i], ...) for i < k over one or more sequences (defined by recursion on k; only its unfoldings are used)"""
    def __init__(self, name, enc): self.name, self.enc = name, enc
    def __call__(self, ctx, vecs, k, extra=()):
        L = ctx.lib
        vecs = [raw(v) for v in (vecs if isinstance(vecs, (list, tuple)) else [vecs])]
        if isinstance(k, int) and (k <= 0 or all(v.items is not None and k <= len(v.items) for v in vecs)):
            return Str([self.enc(ctx, *([L.elem_get(ctx, v, i) for v in vecs] + list(extra))) for i in range(k)])
        arrs = [L.vec_arr(ctx, v)[0] for v in vecs]
        ex = [zi(x) if not isinstance(x, Str) else x.term() for x in extra]
        f = z3.Function('%s<%s>' % (self.name, ','.join(str(a.sort().range()) for a in arrs)), *([a.sort() for a in arrs] + [x.sort() for x in ex] + [z3.IntSort(), z3.StringSort()]))
        K = simp0_(zi(k))
        t = f(*(arrs + ex + [K]))
        key = ('fold', t.get_id())
        if key not in ctx.memo:
            ctx.memo[key] = True; ctx.memo.setdefault('keep', []).append(t)
            j = simp0_(K - 1)
            if ctx.V.unroll is not None and ctx.ghost.get('$folddepth', 0) < ctx.V.unroll + 1:
                ctx.ghost['$folddepth'] = ctx.ghost.get('$folddepth', 0) + 1
                self(ctx, vecs, j, extra)
                ctx.ghost['$folddepth'] -= 1
            ctx.in_spec += 1
            try: el = [L.elem_get(ctx, Vec(v.et, arr=a, n=v.len()), j) for v, a in zip(vecs, arrs)]
            finally: ctx.in_spec -= 1
            e = self.enc(ctx, *(el + list(extra)))
            prev = f(*(arrs + ex + [j]))
            ctx.assume(z3.Implies(K <= 0, t == z3.StringVal('')))
            ctx.assume(z3.Implies(K > 0, t == Str([prev, e]).term()))
        return Str([t])
    def same(self, ctx, a, b, n):
        """lemma (induction on n, both steps are congruence): sequences that agree below n have the same fold"""
        L = ctx.lib
        a, b = raw(a), raw(b)
        i = z3.Int(ctx.uniq('?fi'))
        aa, _ = L.vec_arr(ctx, a); bb, _ = L.vec_arr(ctx, b)
        return z3.Implies(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(n)), z3.Select(aa, i) == z3.Select(bb, i))), self(ctx, a, n).term() == self(ctx, b, n).term())

def simp0_(x): return z3.simplify(x) if is_sym(x) else x

def texts(lc):
    """places that hold text: string and stream locals, and the string and stream fields of object locals"""
    ctx = lc.ctx
    out = []
    def look(l, depth):
        v = l.get()
        if isinstance(v, Str): out.append(l)
        elif isinstance(v, Struct) and 'buf' in v.f and isinstance(v.f['buf'], Str): out.append(FieldLV(l, 'buf'))
        elif isinstance(v, Struct) and depth < 2:
            for n, x in list(v.f.items()):
                if isinstance(x, (Str, Struct)): look(FieldLV(l, n), depth + 1)
    for l in lc.locals(): look(l, 0)
    th = lc.this()
    if th is not None and isinstance(th.get(), Struct): look(th, 0)
    return out

def intplaces(lc):
    out = []
    def look(l, depth):
        v = l.get()
        if isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool) and not (isinstance(v, z3.ArithRef) and v.is_real()): out.append(l)
        elif isinstance(v, Struct) and depth < 2 and 'buf' not in v.f:
            for n, x in list(v.f.items()):
                if isinstance(x, (int, z3.ArithRef, Struct)): look(FieldLV(l, n), depth + 1)
    for l in lc.locals(): look(l, 0)
    th = lc.this()
    if th is not None and isinstance(th.get(), Struct): look(th, 0)
    return out

def accumulate(*accs):
    """candidate clauses: a text grew, since the loop was entered, by acc(scope, k) for some counter k"""
    def gen(lc):
        ctx = lc.ctx; s = ctx.ghost['scope']
        out = []
        for c in counters(lc):
            if not lc.modified(c.l): continue
            for t in texts(lc):
                if not lc.modified(t): continue
                for ai, acc in enumerate(accs):
                    def cl(c=c, t=t, acc=acc):
                        a = acc(s, c.get())
                        return seq_(t.get(), t.get(lc.entry) + a)
                    out.append(('%s = its entry text + accumulator %d of %s' % (t, ai, c), cl))
            for x in intplaces(lc):
                if not lc.modified(x) or repr(x) == repr(c.l): continue
                out.append(('%s + %s is constant' % (x, c), lambda c=c, x=x: ieq(iadd(x.get(), c.get()), iadd(x.get(lc.entry), c.get(lc.entry)))))
                out.append(('%s - %s is constant' % (x, c), lambda c=c, x=x: ieq(isub(x.get(), c.get()), isub(x.get(lc.entry), c.get(lc.entry)))))
        return out
    return gen

def prefix_of(*elems):
    """candidate clauses: a growing sequence holds elem(scope, i) at every position i"""
    def gen(lc):
        ctx = lc.ctx; s = ctx.ghost['scope']; L = ctx.lib
        out = []
        for l in lc.locals():
            v = l.get()
            if not isinstance(v, Vec) or not lc.modified(l): continue
            for ei, el in enumerate(elems):
                def cl(l=l, el=el):
                    v = l.get(); n0 = l.get(lc.entry).len()
                    arr, n = L.vec_arr(ctx, v)
                    i = z3.Int(ctx.uniq('?pi'))
                    ctx.in_spec += 1
                    try: x = el(s, i)
                    finally: ctx.in_spec -= 1
                    x = x.term() if isinstance(x, Str) else L.pack(ctx, x, v.et)
                    if isinstance(n, int) and n == 0: return True
                    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(n)), z3.Select(arr, i) == x), patterns=[z3.Select(arr, i)])
                out.append(('%s holds element rule %d everywhere' % (l, ei), cl))
        return out
    return gen

def gens(*gs):
    def g(lc):
        out = []
        for x in gs:
            try: out += x(lc)
            except (KeyError, AttributeError, Unsupported): pass
        return out
    return g

def spec(fn, ensures=None, requires=None, invs=None, nparams=None, sig_has=None, throws=None, name=None, setup=None, prepare=None, args=None, **kw):
    """a contract class from functions of the scope"""
    d = {'fn': fn, 'nparams': nparams, 'sig_has': sig_has}
    if ensures: d['ensures'] = lambda self, s: ensures(s)
    if requires: d['requires'] = lambda self, s: requires(s)
    d['on_throw'] = (lambda self, s, ty: throws(s, ty)) if throws else (lambda self, s, ty: [('never fails', False)])
    if invs: d['loop_invs'] = staticmethod(invs)
    if setup: d['setup'] = lambda self, ctx, f: setup(self, ctx, f)
    if prepare: d['prepare'] = lambda self, s: prepare(s)
    if args: d['mkargs'] = lambda self, ctx, f: args(self, ctx, f)
    d.update(kw)
    return type(name or fn.split('::')[-1], (Contract,), d)

def units_of(specs, install=None, files=None, opts=None):
    out = []
    for c in specs:
        def mk(prog, c=c):
            lib = Lib(prog); reg = Registry()
            lib.abstract_str.add('quarkdb::PinnedBuffer')
            lib.extra_methods[('quarkdb::PinnedBuffer', 'sv')] = lambda L, ctx, o, e: L.as_str(ctx, o.get())
            if install: install(prog, lib, reg)
            return lib, reg, c()
        out.append(Unit(mk, c.__name__, opts=dict(opts or {}, **c.opts), group=files))
    return out

NL = '\r\n'
def bulk(ctx, x):
    x = S(x)
    return Str(['$', ctx.lib.itos(ctx, x.len()), NL, x, NL])
def simple_line(ctx, x): return Str(['+', S(x), NL])

def named(ctx, t):
    """a constant that equals t (so that patterns over arrays stay simple)"""
    if z3.is_const(t): return t
    key = ('named', t.get_id())
    if key not in ctx.memo:
        c = z3.Const(ctx.uniq('?def'), t.sort())
        ctx.memo[key] = (c, t); ctx.assume(c == t)
    return ctx.memo[key][0]

class SFold:
    """spec function over the characters of a text: SF(s, k) = the concatenation of the images of the first k characters; img maps a character code to [(condition, text)] cases"""
    def __init__(self, name, img): self.name, self.img = name, img
    def __call__(self, ctx, s, k):
        s = S(s); t = s.term(); K = simp0_(zi(k))
        f = z3.Function(self.name, z3.StringSort(), z3.IntSort(), z3.StringSort())
        r = f(t, K); key = ('sfold', r.get_id())
        if key not in ctx.memo:
            ctx.memo[key] = True; ctx.memo.setdefault('keep', []).append(r)
            j = simp0_(K - 1)
            if ctx.V.unroll is not None and ctx.ghost.get('$folddepth', 0) < ctx.V.unroll + 1:
                ctx.ghost['$folddepth'] = ctx.ghost.get('$folddepth', 0) + 1
                self(ctx, s, j)
                ctx.ghost['$folddepth'] -= 1
            # lemma (induction on k): the fold of the first k characters depends on those characters only
            if len(s.parts) > 1:
                p = Str(s.parts[:-1]); ctx.assume(z3.Implies(K <= zi(p.len()), r == self(ctx, p, K).term()))
            elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() == 0:
                x = t.arg(0); ctx.assume(z3.Implies(z3.And(K <= t.arg(2), t.arg(2) <= z3.Length(x)), r == self(ctx, Str([x]), K).term()))
            prev = f(t, j)
            if len(s.parts) > 1 and ('sfold', prev.get_id()) not in ctx.memo:
                p = Str(s.parts[:-1]); ctx.memo.setdefault('keep', []).append(prev)
                ctx.assume(z3.Implies(j <= zi(p.len()), prev == self(ctx, p, j).term()))
            ctx.assume(z3.Implies(K <= 0, r == z3.StringVal('')))
            c = sat(s, j); c = zi(c); ctx.assume(z3.Implies(z3.And(K > 0, K <= z3.Length(t)), z3.And(c >= 0, c < 256)))
            for cond, im in self.img(c): ctx.assume(z3.Implies(z3.And(K > 0, cond), r == Str([prev] + im).term()))
        return Str([r])

def scount(ctx, s, k, ch):
    """spec function: how many of the characters from position k on equal ch"""
    s = S(s); t = s.term(); K = simp0_(zi(k)); c = zi(ch)
    f = z3.Function('COUNTFROM', z3.StringSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
    r = f(t, c, K); key = ('scount', r.get_id())
    if key not in ctx.memo:
        ctx.memo[key] = True; ctx.memo.setdefault('keep', []).append(r)
        j = simp0_(K + 1); nx = f(t, c, j)
        ctx.assume(z3.And(r >= 0, nx >= 0))
        ctx.assume(z3.Implies(K >= z3.Length(t), r == 0))
        x = zi(sat(s, K)); ctx.assume(z3.Implies(z3.And(K >= 0, K < z3.Length(t)), z3.And(x >= 0, x < 256)))
        ctx.assume(z3.Implies(z3.And(K >= 0, K < z3.Length(t)), r == nx + z3.If(x == c, 1, 0)))
        ctx.assume(z3.Implies(K >= 0, r <= z3.If(z3.Length(t) >= K, z3.Length(t) - K, 0)))
    return r
