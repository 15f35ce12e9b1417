"""contracts of the functions that enumerate: an iterator over the stored keys in order, pages and cursors (shared by the state machine properties)"""
from .smspec import *
IT = 'rocksdb::Iterator'
imul = lambda a, b: simp0_(zi(a) * zi(b))
REST = lambda v, p, i: z3.Function('REST', z3.ArraySort(SS, BS), SS, IS, SS)(base(v.dom), S(p).term(), zi(i))      # what follows the prefix in the i-th stored key that starts with it, in order
RANKF = z3.Function('RANK', z3.ArraySort(SS, BS), SS, SS, IS)      # how many stored keys with the prefix continue with something smaller
OUTV = z3.Function('BEYONDVALID', z3.ArraySort(SS, BS), SS, BS); OUTK = z3.Function('BEYONDKEY', z3.ArraySort(SS, BS), SS, SS)
def rest(ctx, v, p, i):
    """REST with what its definition says"""
    if ctx.ghost.get('restof'):
        x = ctx.ghost['restof'](ctx, v, S(p), i)
        if x is not None: return x
    i = simp0_(zi(i)); r = REST(v, p, i); key = ('rest', r.get_id())
    if key not in ctx.memo:
        ctx.memo[key] = True; ctx.memo.setdefault('keep', []).append(r); b = base(v.dom); n = CNTF(b, S(p).term()); inr = z3.And(0 <= i, i < n)
        ctx.assume(z3.Length(r) < (1 << 29))      # stored keys are shorter than that
        ctx.assume(z3.Implies(inr, z3.Select(b, (S(p) + Str([r])).term())))
        ctx.assume(z3.Implies(z3.And(inr, i >= 1), z3.Length(r) >= 1))
        ctx.assume(z3.Implies(inr, RANKF(b, S(p).term(), r) == i))
    return Str([r])
def rank(ctx, v, p, x):
    x = S(x)
    if x.lit() == '': return 0
    if ctx.ghost.get('rankof'):
        y = ctx.ghost['rankof'](ctx, v, S(p), x)
        if y is not None: return y
    b = base(v.dom); r = RANKF(b, S(p).term(), x.term()); n = CNTF(b, S(p).term())
    ctx.assume(z3.And(0 <= r, r <= n)); ctx.assume(z3.Implies(z3.Length(x.term()) == 0, r == 0)); return r
def after(s, p):
    """what follows p in s, when s is written as p followed by something"""
    a, b = list(S(s).parts), list(S(p).parts)
    while b:
        if not a: return None
        x, y = a[0], b[0]
        if isinstance(x, str) and isinstance(y, str):
            if x.startswith(y): a[0] = x[len(y):]; b.pop(0)
            elif y.startswith(x): b[0] = y[len(x):]; a.pop(0)
            else: return None
            if a and a[0] == '': a.pop(0)
        elif is_sym(x) and is_sym(y) and x.eq(y): a.pop(0); b.pop(0)
        else: return None
    return Str(a)
def its(ctx, c): return Struct(parse(IT), dict(ctx.ghost['iterof'], pos=c.get().f.get('pos')))
def starts(k, p, ctx=None):
    k, p = S(k), S(p); a = after(k, p)
    if ctx is not None and ctx.ghost.get('other') is not None and len(k.parts) == 1 and is_sym(k.parts[0]) and k.parts[0].eq(ctx.ghost['other']) and p.term().eq(S(ctx.ghost['pp']).term()): return False
    return True if a is not None else z3.PrefixOf(p.term(), k.term())
def ikey(ctx, it):
    """the key at the position"""
    v, p, i = View_(ctx, it.f['dom'], it.f['val']), it.f['prefix'], it.f['pos']
    if ctx.branch(ilt(i, it.f['n'])): return S(p) + rest(ctx, v, p, i)
    if ctx.ghost.get('pp') is not None and S(p).parts and S(p).parts[0] == '!':      # a key with another first byte, or one with a different continuation
        q = ctx.ghost.get('beyondq'); q = q if q is not None else 0 if ctx.branch(z3.Bool(ctx.uniq('beyond'))) else 1 if ctx.branch(z3.Bool(ctx.uniq('beyond'))) else 2
        ctx.ghost['beyondq'] = q
        if q == 0: return Str([])
        if q == 1: x = z3.Int('beyondbyte'); ctx.assume(z3.And(0 <= x, x < 256, x != 33)); return Str([z3.StrFromCode(x), z3.String('beyondrest')])
        r = z3.String('beyondkey'); ctx.assume(z3.Not(z3.PrefixOf(S(ctx.ghost['pp']).term(), r))); ctx.ghost['other'] = r; return Str(['!', r])
    b = base(v.dom); k = OUTK(b, S(p).term()); ctx.assume(z3.Not(z3.PrefixOf(S(p).term(), k))); return Str([k])
def install_scan(prog, lib, reg):
    install(prog, lib, reg)
    M = lib.extra_methods
    def new(ctx, w):
        c = ctx.cell('iterator', parse(IT), Struct(parse(IT), {'pos': None}, origin=None)); ctx.ghost['iter'] = c; ctx.ghost['iterof'] = {'dom': w.f['dom'], 'val': w.f['val']}; return Ptr(c)
    def dbiter(L, ctx, o, e):
        op = ctx.ev(e['args'][0])
        if isinstance(op, LV): op = op.get()
        w = op.f.get('$snap') if isinstance(op, Struct) else None
        return new(ctx, w) if w is not None else Ptr(ctx.cell('base iterator', parse(IT), Struct(parse(IT), {'$base': True})))
    M[('rocksdb::DB', 'NewIterator')] = dbiter
    def withbase(L, ctx, o, e):
        b = ctx.ev(e['args'][0]); ctx.check(isinstance(b, Ptr) and '$base' in b.lv.get().f, 'the iterator covers batch and database @%s' % ctx.where(), 'pre'); return new(ctx, o.get())
    M[(WB, 'NewIteratorWithBase')] = withbase
    def need(ctx, o):
        if o.get().f.get('pos') is None: raise Unsupported('iterator used before it is positioned')
        return its(ctx, o)
    def seek(L, ctx, o, e):
        s = L.as_str(ctx, ctx.ev(e['args'][0])); it = its(ctx, o); v = View_(ctx, it.f['dom'], it.f['val'])
        for p in ctx.ghost['scan']:
            r = after(s, p)
            if r is not None:
                n = CNTF(base(v.dom), S(p).term()); ctx.assume(z3.And(n >= 0, n < MAXN))
                ctx.ghost['iterof'] = dict(ctx.ghost['iterof'], prefix=S(p), n=n); k0 = rank(ctx, v, p, r); ctx.ghost['seekpos'] = k0; o.set(o.get().with_('pos', k0)); return None
        raise Unsupported('seek to %s' % (s,))
    def valid(L, ctx, o, e):
        it = need(ctx, o)
        if ctx.branch(ilt(it.f['pos'], it.f['n'])): return True
        return OUTV(base(it.f['dom']), S(it.f['prefix']).term())
    def nxt(L, ctx, o, e):
        it = need(ctx, o); ctx.check(ilt(it.f['pos'], it.f['n']), 'the iterator stays within the key @%s' % ctx.where(), 'pre'); o.set(o.get().with_('pos', iadd(it.f['pos'], 1)))
    def key(L, ctx, o, e): return ikey(ctx, need(ctx, o))
    def value(L, ctx, o, e):
        it = need(ctx, o); v = View_(ctx, it.f['dom'], it.f['val']); k = ikey(ctx, it); x = Str([z3.Select(base(v.val), k.term())]); return x
    for n, f in (('Seek', seek), ('Valid', valid), ('Next', nxt), ('key', key), ('value', value)): M[(IT, n)] = f
    reg.mod[Q + 'StringUtils::startsWith'] = lambda ctx, o, args, e: starts(val(args[0]), val(args[1]))
    for t in ('std::basic_string', 'rocksdb::Slice'):
        M.setdefault((t, 'ToString'), lambda L, ctx, o, e: L.as_str(ctx, o.get() if isinstance(o, LV) else o))
class Enum:
    """spec function: the list of what item(ctx, view, p, j) gives for every j from `frm` up to i (defined by recursion on i; only its unfoldings are used)"""
    def __init__(self, name, item, stride=1): self.name, self.item, self.stride, self.last = name, item, stride, {}
    def __call__(self, ctx, v, p, frm, i):
        b, vb = base(v.dom), base(v.val); AS = z3.ArraySort(IS, SS); i = simp0_(zi(i)); frm = simp0_(zi(frm))
        f = z3.Function(self.name, b.sort(), vb.sort(), SS, IS, IS, AS); r = f(b, vb, S(p).term(), frm, i); key = ('enum', r.get_id())
        if key not in ctx.memo:
            ctx.memo[key] = True; ctx.memo.setdefault('keep', []).append(r); j = simp0_(i - 1)
            if ctx.V.unroll is not None and ctx.ghost.get('$folddepth', 0) < ctx.V.unroll + 1:
                ctx.ghost['$folddepth'] = ctx.ghost.get('$folddepth', 0) + 1
                self(ctx, v, p, frm, j)
                ctx.ghost['$folddepth'] -= 1
            a = f(b, vb, S(p).term(), frm, j)
            for t, x in enumerate(self.item(ctx, View_(ctx, b, vb), p, j)): a = z3.Store(a, simp0_((j - frm) * self.stride + t), S(x).term())
            ctx.assume(z3.Implies(i <= frm, r == z3.Array('emptyvec.String', IS, SS))); ctx.assume(z3.Implies(i > frm, r == a)); self.last[r.get_id()] = a
        return r
def fieldat(ctx, v, p, j): return rest(ctx, v, p, j)
def valat(ctx, v, p, j): return Str([z3.Select(v.val, (S(p) + rest(ctx, v, p, j)).term())])
FIELDS = Enum('FIELDS', lambda ctx, v, p, j: [fieldat(ctx, v, p, j)])
VALUES = Enum('VALUES', lambda ctx, v, p, j: [valat(ctx, v, p, j)])
PAIRS_ = Enum('PAIRS', lambda ctx, v, p, j: [fieldat(ctx, v, p, j), valat(ctx, v, p, j)], 2)
def listed(E, frm=lambda s: 0):
    """loop invariant: the growing list holds exactly what was passed so far"""
    def gen(lc):
        ctx = lc.ctx; s = ctx.ghost['scope']; c = ctx.ghost['iter']; it = c.get(); v0 = ctx.ghost['v0']; out = []
        if it.f['pos'] is None: return out
        p = ctx.ghost['iterof']['prefix']; n = CNTF(base(v0.dom), S(p).term()); pos = lambda: c.get().f['pos']; a = zi(frm(s))
        out.append(('the position is within the key', lambda: And(ile(a, pos()), ile(pos(), n))))
        def vecs():
            for l in list(lc.locals()) + list(s.args):
                if isinstance(l.get(), Vec) and lc.modified(l): yield l
        for l in vecs():
            out.append(('%s grows with the position' % l, lambda l=l: ieq(l.get().len(), imul(isub(pos(), a), E.stride))))
            def cl(l=l):
                arr, _ = ctx.lib.vec_arr(ctx, l.get()); x = E(ctx, v0, p, a, pos())
                if ctx.inv_goal and ilt(a, pos()) is not False and not arr.eq(x): return z3.If(zb(ilt(a, pos())), arr == E.last[x.get_id()], arr == x)
                return arr == x
            out.append(('%s holds what was passed' % l, cl))
        for l in list(lc.locals()) + list(s.args):
            if isinstance(l.get(), Str) and lc.modified(l): out.append(('%s is still what it was' % l, lambda l=l: seq_(l.get(), l.get(lc.entry))))
        for l in s.args:
            if isinstance(l.get(), (int, z3.ArithRef)) and not lc.modified(l): out.append(('no more than %s were passed' % l, lambda l=l: ile(isub(pos(), a), l.get())))
        for x in lc.ints():
            if lc.modified(x): out.append(('%s counts the positions' % x, lambda x=x: ieq(isub(x.get(), x.get(lc.entry)), isub(pos(), a))))
        return out
    return gen
def listing(E, s, v0, p, out, frm=0, to=None):
    to = CNTF(base(v0.dom), S(p).term()) if to is None else to; r = OUT(s, out); arr, n = s.lib.vec_arr(s.ctx, r)
    return [('exactly that many', ieq(n, imul(isub(to, frm), E.stride))), ('exactly the stored elements, each once, in order', arr == E(s.ctx, v0, p, frm, to))]
def all_(E, tag, out=2):
    def post(s, v0, v, ks):
        r = [('a read changes nothing', v0.same(v))]
        if s.ctx.branch(ks.bad(tag)): return r + [('a key of another type is refused', status(s, WRONG))]
        return r + [('succeeds', status(s, 0))] + listing(E, s, v0, pf(s, tag), out)
    return post
def scanreq(tag): return lambda s, v, *ks: s.ctx.ghost.__setitem__('scan', [pf(s, tag)]) or []
ENUMS = [x for fn, E, t in (('hkeys', FIELDS, 'b'), ('hvals', VALUES, 'b'), ('hgetall', PAIRS_, 'b'), ('smembers', FIELDS, 'c')) for x in both(fn, all_(E, t), t, req=scanreq(t), inv=listed(E))]
def same_start(lc):
    s = lc.ctx.ghost['scope']; a, b = (lambda: S(s.argv(0)).term()), (lambda: S(s.argv(1)).term())
    return [('the first %s characters agree' % x, lambda x=x: z3.And(0 <= zi(x.get()), zi(x.get()) <= z3.Length(b()), z3.SubString(a(), 0, zi(x.get())) == z3.SubString(b(), 0, zi(x.get())))) for x in lc.ints() if lc.modified(x)]
STARTS = [spec(Q + 'StringUtils::startsWith', lambda s: [('exactly a prefix test', Iff(s.ret, z3.PrefixOf(S(s.argv(1)).term(), S(s.argv(0)).term())))], name='startsWith', invs=same_start)]
# ---- pages: from the cursor on, at most `count` elements, and the cursor that continues
def page(E, tag, cur=2, cnt_=3, nc=4, out=5):
    def post(s, v0, v, ks):
        c = s.ctx; r = [('a read changes nothing', v0.same(v))]
        if c.branch(ks.bad(tag)): return r + [('a key of another type is refused', status(s, WRONG))]
        p = pf(s, tag); n = CNTF(base(v0.dom), p.term()); r0 = zi(rank(c, v0, p, A(s, cur))); count = zi(s.argv(cnt_)); m = z3.If(count < n - r0, count, n - r0); to = simp0_(r0 + m)
        last = c.branch(ieq(to, n))
        nxt = ('there is no further page', seq_(OUT(s, nc), '')) if last else ('the cursor is the next element', seq_(OUT(s, nc), rest(c, v0, p, to)))
        return r + [('succeeds', status(s, 0)), nxt] + listing(E, s, v0, p, out, r0, to)
    return post
def pagereq(tag, cur=2, cnt_=3):
    def f(s, v, *ks):
        s.ctx.ghost['scan'] = [pf(s, tag)]; return [ile(1, s.argv(cnt_)), ilt(s.argv(cnt_), 1 << 63)]
    return f
def paged(E, tag, cur=2): return listed(E, lambda s: rank(s.ctx, s.ctx.ghost['v0'], pf(s, tag), A(s, cur)))
PAGES = [x for fn, E, t in (('hscan', PAIRS_, 'b'), ('sscan', FIELDS, 'c')) for x in both(fn, page(E, t), t, req=pagereq(t), inv=paged(E, t))]
def vhgetall_(s, v0, v, ks):
    r = [('a read changes nothing', v0.same(v))]
    if s.ctx.branch(ks.bad('g')): return r + [('a key of another type is refused', status(s, WRONG))]
    return r + [('succeeds', status(s, 0)), ('the version', ieq(OUT(s, 3), vver(s, ks)))] + listing(PAIRS_, s, v0, pf(s, 'g'), 2)
def cgetall_(s, v0, v): return [('a read changes nothing', v0.same(v)), ('succeeds', status(s, 0))] + listing(PAIRS_, s, v0, Str(['~']), 1)
def cfgreq(s, v): s.ctx.ghost['scan'] = [Str(['~'])]; return []
MORE = both('vhgetall', vhgetall_, 'g', req=scanreq('g'), inv=listed(PAIRS_)) + both('configGetall', cgetall_, keys=(), req=cfgreq, inv=listed(PAIRS_))
# ---- a page of a deque, from its back
def dscan_rest(ctx, v, p, i):
    ks = ctx.ghost['keystates'][0]
    return Str([ctx.lib.be64(ctx, simp0_(zi(ks.s) + 1 + zi(i)))])
def dscan_rank(ctx, v, p, x):
    ks = ctx.ghost['keystates'][0]
    if len(x.parts) == 1 and is_sym(x.parts[0]) and x.parts[0].decl().name() == 'BE64': return simp0_(x.parts[0].arg(0) - ks.s - 1)
    return None
def dscanreq(s, v, ks):
    s.ctx.ghost['scan'] = [pf(s, 'd')]; s.ctx.ghost['restof'] = dscan_rest; s.ctx.ghost['rankof'] = dscan_rank; l = s.args[5]; l.set(Vec(l.get().et, arr=z3.Array('emptyvec.String', IS, SS), n=0))
    return [Implies(ks.is_('d'), And(ile(FAR, ks.s), ile(ks.e, 7 * FAR), ieq(CNTF(base(v.dom), pf(s, 'd').term()), ks.n))), ile(1, s.argv(3))]
def dscan_(s, v0, v, ks):
    c = s.ctx; r = [('a read changes nothing', v0.same(v))]; cur = A(s, 2); none = [('no items', ieq(OUT(s, 5).len(), 0))]
    if c.branch(ks.bad('d')): return r + [('a key of another type is refused', status(s, WRONG))]
    if not c.branch(ks.has): return r + [('succeeds', status(s, 0)), ('there is no further page', seq_(OUT(s, 4), ''))] + none
    first = c.branch(ieq(cur.len(), 0))
    if not first and not c.branch(ieq(cur.len(), 8)): return r + [('a bad cursor is refused', status(s, WRONG))] + none
    x = None if first else INVBE_(c, cur); cm = zi(ks.e) if first else z3.If(x > ks.e, ks.e, x)
    lo = z3.If(cm - s.argv(3) > ks.s + 1, cm - s.argv(3), ks.s + 1); last = c.branch(ile(lo, ks.s + 1))
    nxt = ('there is no further page', seq_(OUT(s, 4), '')) if last else ('the cursor is where this page ends', seq_(OUT(s, 4), Str([c.lib.be64(c, lo)])))
    r += [('succeeds', status(s, 0)), nxt]
    if c.branch(ile(cm, lo)): return r + none
    return r + listing(VALUES, s, v0, pf(s, 'd'), 5, simp0_(lo - ks.s - 1), simp0_(cm - ks.s - 1))
def INVBE_(c, cur): return c.lib.be64_dec(c, cur) if hasattr(c.lib, 'be64_dec') else INVBE(cur.term())
def dscan_from(s):
    ks = s.ctx.ghost['keystates'][0]; it = s.ctx.ghost['iter']; return it.get(s.pre) if False else s.ctx.ghost['seekpos']
DSCAN = both('dequeScanBack', dscan_, 'd', req=dscanreq, inv=listed(VALUES, dscan_from))
# ---- pages of keys that match a pattern
MATCH = z3.Function('MATCH', SS, SS, BS); PPRE = z3.Function('LITERALSTART', SS, SS)
def literal(pat): return Str([PPRE(S(pat).term())])
def hit(pat, k): return z3.Or(S(pat).term() == z3.StringVal(''), S(pat).term() == z3.StringVal('*'), MATCH(S(pat).term(), S(k).term()))
class Filter:
    """spec functions: how many of the keys j from `frm` up to i match the pattern, and their list (defined by recursion on i; only the unfoldings are used)"""
    def __init__(self): self.last = {}
    def __call__(self, ctx, v, p, pat, frm, i):
        b = base(v.dom); AS = z3.ArraySort(IS, SS); i = simp0_(zi(i)); frm = simp0_(zi(frm)); pt = S(pat).term()
        fa = z3.Function('MATCHES', b.sort(), SS, SS, IS, IS, AS); fn = z3.Function('NMATCHES', b.sort(), SS, SS, IS, IS, IS); a, n = fa(b, S(p).term(), pt, frm, i), fn(b, S(p).term(), pt, frm, i); key = ('filter', a.get_id())
        if key not in ctx.memo:
            ctx.memo[key] = True; ctx.memo.setdefault('keep', []).append((a, n)); j = simp0_(i - 1)
            if ctx.V.unroll is not None and ctx.ghost.get('$folddepth', 0) < ctx.V.unroll + 1:
                ctx.ghost['$folddepth'] = ctx.ghost.get('$folddepth', 0) + 1; self(ctx, v, p, pat, frm, j); ctx.ghost['$folddepth'] -= 1
            pa, pn = fa(b, S(p).term(), pt, frm, j), fn(b, S(p).term(), pt, frm, j); k = S(ctx.ghost['pp']) + rest(ctx, v, p, j); h = hit(pat, k)
            na, nn = z3.If(h, z3.Store(pa, pn, k.term()), pa), z3.If(h, pn + 1, pn)
            ctx.assume(z3.Implies(i <= frm, z3.And(a == z3.Array('emptyvec.String', IS, SS), n == 0))); ctx.assume(z3.Implies(i > frm, z3.And(a == na, n == nn))); ctx.assume(z3.And(0 <= n, z3.Implies(i >= frm, n <= i - frm)))
            self.last[a.get_id()] = (na, nn)
        return a, n
FILT = Filter()
def scanargs(later):
    def f(s, v):
        c = s.ctx; pp = literal(A(s, 2)); c.assume(z3.And(z3.Length(pp.term()) <= z3.Length(A(s, 2).term()), z3.Length(A(s, 2).term()) < (1 << 29))); c.ghost['pp'] = pp; c.ghost['scan'] = [Str(['!']) + pp]; l = s.args[5]; l.set(Vec(l.get().et, arr=z3.Array('emptyvec.String', IS, SS), n=0))
        s.args[1].set(pp + Str([z3.String('from')]) if later else Str([]))
        return [ile(1, s.argv(3)), ilt(s.argv(3), 1 << 63)] + ([ilt(0, s.args[1].get().len())] if later else [])
    return f
def scanfrom(s):
    c = s.ctx; x = after(A(s, 1), c.ghost['pp']) if A(s, 1).lit() != '' else Str([])
    return zi(rank(c, c.ghost['v0'], Str(['!']) + c.ghost['pp'], x))
def scaninv(lc):
    ctx = lc.ctx; s = ctx.ghost['scope']; c = ctx.ghost['iter']; out = []; v0 = ctx.ghost['v0']
    if c.get().f.get('pos') is None: return out
    p = ctx.ghost['iterof']['prefix']; n = CNTF(base(v0.dom), S(p).term()); pos = lambda: zi(c.get().f['pos']); a = scanfrom(s)
    out.append(('the position is within the keys', lambda: And(ile(a, pos()), ile(pos(), n), ile(pos() - a, s.argv(3)))))
    for x in lc.ints():
        if lc.modified(x): out.append(('%s counts the positions' % x, lambda x=x: ieq(isub(x.get(), x.get(lc.entry)), isub(pos(), a))))
    for l in list(lc.locals()) + list(s.args):
        if isinstance(l.get(), Vec) and lc.modified(l):
            def cl(l=l):
                arr, m = ctx.lib.vec_arr(ctx, l.get()); x, y = FILT(ctx, v0, p, A(s, 2), a, pos())
                if ctx.inv_goal and ilt(a, pos()) is not False: na, nn = FILT.last[x.get_id()]; return z3.And(z3.If(zb(ilt(a, pos())), arr == na, arr == x), z3.If(zb(ilt(a, pos())), zi(m) == nn, zi(m) == y))
                return z3.And(arr == x, zi(m) == y)
            out.append(('%s holds the matching keys so far' % l, cl))
        if isinstance(l.get(), Str) and lc.modified(l): out.append(('%s is still what it was' % l, lambda l=l: seq_(l.get(), l.get(lc.entry))))
    return out
def scan_(s, v0, v):
    c = s.ctx; pp = c.ghost['pp']; p = Str(['!']) + pp; n = CNTF(base(v0.dom), p.term()); r0 = scanfrom(s); count = zi(s.argv(3)); to = simp0_(r0 + z3.If(count < n - r0, count, n - r0)); last = c.branch(ieq(to, n))
    x, y = FILT(c, v0, p, A(s, 2), r0, to); arr, m = s.lib.vec_arr(c, OUT(s, 5))
    return [('a read changes nothing', v0.same(v)), ('succeeds', status(s, 0)), ('there is no further page', seq_(OUT(s, 4), '')) if last else ('the cursor is the next key', seq_(OUT(s, 4), pp + rest(c, v0, p, to))),
            ('as many keys as match', ieq(m, y)), ('exactly the matching keys, each once, in order', arr == x)]
def install_keys(prog, lib, reg):
    install_scan(prog, lib, reg)
    reg.mod[Q + 'extractPatternPrefix'] = lambda ctx, o, args, e: ctx.ghost['pp'] if 'pp' in ctx.ghost and S(val(args[0])).term().eq(A(ctx.ghost['scope'], 2).term()) else literal(val(args[0]))
    def mem(ctx, p, n): return S(lib.ptr_range(ctx, val(p), val(n), 'text'))
    reg.mod[Q + 'StringUtils::isPrefix'] = lambda ctx, o, args, e: starts(mem(ctx, args[1], args[2]), val(args[0]), ctx) if len(args) == 3 else starts(val(args[1]), val(args[0]), ctx)
    reg.mod[Q + 'stringmatchlen'] = lambda ctx, o, args, e: z3.If(MATCH(mem(ctx, args[0], args[1]).term(), mem(ctx, args[2], args[3]).term()), z3.IntVal(1), z3.IntVal(0))
KEYSCAN = [sm('scan', scan_, keys=(), req=scanargs(l), inv=scaninv, variant=var, name=nm, readonly=ro) for l, var, nm, ro in ((False, 'first page', 'scan1', False), (True, 'later page', 'scan2', False), (True, 'later page on a snapshot', 'scan3', True))]
# ---- removing everything under a prefix
def rmreq(s, v):
    x = z3.Int('firstbyte'); s.ctx.assume(z3.And(0 <= x, x < 256, x != ord('_'), x != ord('~'))); p = Str([z3.StrFromCode(x), z3.String('restofprefix')]); s.args[0].set(p); s.ctx.ghost['scan'] = [p]; s.ctx.ghost['rm'] = p
    K = z3.String('?anykey'); b = base(v.dom); s.ctx.ghost['anykey'] = K; r = z3.Int('?place'); s.ctx.ghost['place'] = r; n = CNTF(b, p.term()); un = z3.PrefixOf(p.term(), K)
    rr = RESTF(b, p, r)      # a present key with the prefix has a place in the order
    s.ctx.assume(z3.Implies(z3.And(z3.Select(b, K), un), z3.And(0 <= r, r < n, z3.Concat(p.term(), rr) == K, RANKF(b, p.term(), rr) == r)))
    s.ctx.assume(n >= 0); s.ctx.assume(n < MAXN)
    return []
def RESTF(b, p, i): return z3.Function('REST', z3.ArraySort(SS, BS), SS, IS, SS)(b, S(p).term(), zi(i))
def rmat(s, v0, upto):
    """is the arbitrary key still there when the first `upto` keys with the prefix were removed"""
    c = s.ctx; K, r, p = c.ghost['anykey'], c.ghost['place'], c.ghost['rm']
    return z3.And(z3.Select(base(v0.dom), K), z3.Or(z3.Not(z3.PrefixOf(p.term(), K)), r >= zi(upto)))
def rminv(lc):
    ctx = lc.ctx; s = ctx.ghost['scope']; c = ctx.ghost['iter']; v0 = ctx.ghost['v0']; out = []
    if c.get().f.get('pos') is None: return out
    p = ctx.ghost['rm']; n = CNTF(base(v0.dom), p.term()); pos = lambda: zi(c.get().f['pos']); K = ctx.ghost['anykey']
    out.append(('the position is within the keys', lambda: And(ile(0, pos()), ile(pos(), n))))
    out.append(('every key with the prefix before the position is gone, no other', lambda: z3.Select(view_of(s).dom, K) == rmat(s, v0, pos())))
    out.append(('values stay', lambda: z3.Select(view_of(s).val, K) == z3.Select(v0.val, K)))
    for x in list(lc.ints()) + [l for l in s.args if isinstance(l.get(), (int, z3.ArithRef))]:
        if lc.modified(x): out.append(('%s counts the removed keys' % x, lambda x=x: ieq(x.get(), pos())))
    return out
def rm_(s, v0, v):
    K = s.ctx.ghost['anykey']; p = s.ctx.ghost['rm']
    return [('the keys with the prefix go, every other stays', z3.Select(v.dom, K) == z3.And(z3.Select(v0.dom, K), z3.Not(z3.PrefixOf(p.term(), K)))), ('values stay', z3.Implies(z3.Select(v.dom, K), z3.Select(v.val, K) == z3.Select(v0.val, K))), ('counts them', ieq(OUT(s, 1), CNTF(base(v0.dom), p.term())))]
REMOVE = [sm('remove_all_with_prefix', rm_, keys=(), req=rmreq, inv=rminv, variant='any prefix of elements')]
def membuf(self, ctx, f):
    args = []
    for i, p in enumerate(f['params']):
        t = strip_ref(parse(p['t']))
        if t.kind == 'p' or str(t).rstrip('const ').endswith('*'):
            mem = ctx.cell('memory', parse('std::string'), Str([z3.String('memory')])); args.append(ctx.cell('arg%d' % i, t, Ptr(mem, False, 0, ty=parse('char *'))))
            ctx.ghost['mem'] = mem
        else: args.append(ctx.cell('arg%d' % i, t, ctx.lib.fresh(ctx, t, 'arg%d' % i)))
    return None, args
def same_mem(lc):
    s = lc.ctx.ghost['scope']; a, b = (lambda: S(lc.ctx.ghost['mem'].get()).term()), (lambda: S(s.argv(0)).term())
    return [('the first %s characters agree' % x, lambda x=x: z3.And(0 <= zi(x.get()), zi(x.get()) <= z3.Length(b()), z3.SubString(a(), 0, zi(x.get())) == z3.SubString(b(), 0, zi(x.get())))) for x in lc.ints() if lc.modified(x)]
def mem_pre(s): return [ile(0, s.argv(2)), ile(s.argv(2), S(s.ctx.ghost['mem'].get()).len())]
def mem_post(s): return [('exactly a prefix test', Iff(s.ret, z3.PrefixOf(S(s.argv(0)).term(), z3.SubString(S(s.ctx.ghost['mem'].get()).term(), 0, zi(s.argv(2))))))]
SPECIAL = [ord(c) for c in '?*[]\\']
def special(s, i): c = zi(sat(S(s.argv(0)), i)); return z3.Or(*[c == x for x in SPECIAL])
def literal_post(s):
    r, a = S(s.ret), S(s.argv(0)); n = zi(r.len()); i = z3.Int('?at')      # an arbitrary position
    return [('a prefix of the pattern', z3.PrefixOf(r.term(), a.term())), ('without special characters', z3.Implies(z3.And(0 <= i, i < n), z3.Not(special(s, i)))), ('the longest such', z3.Or(n == zi(a.len()), special(s, n)))]
def literal_inv(lc):
    s = lc.ctx.ghost['scope']; i = z3.Int('?at')
    return [('no special character before %s' % x, lambda x=x: z3.Implies(z3.And(0 <= i, i < zi(x.get())), z3.Not(special(s, i)))) for x in lc.ints() if lc.modified(x)] + [('%s is within the pattern' % x, lambda x=x: And(ile(0, x.get()), ile(x.get(), S(s.argv(0)).len()))) for x in lc.ints() if lc.modified(x)]
TEXTS = STARTS + [spec(Q + 'StringUtils::isPrefix', mem_post, mem_pre, name='isPrefix', nparams=3, invs=same_mem, setup=membuf),
    spec(Q + 'extractPatternPrefix', literal_post, name='extractPatternPrefix', invs=literal_inv)]
SCANUNITS = ENUMS + PAGES + MORE + DSCAN
