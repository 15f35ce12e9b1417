"""contracts of the reader of a connection: all the bytes asked for, in the order of the stream, or none; bytes handed out are never overwritten (C16)"""
from cxv.spec import *
from .parsespec import Q, BR, STRT, IS, val, ev, evs, cellg, g, rng
MR, PB = Q + 'MemoryRegion', Q + 'PinnedBuffer'; BS = 32768; BIG = 1 << 60
# ghost of a region: 'base', the place in the stream of its first byte. A region holds stream bytes base .. base+k, written once
def BASE(ctx, snap=None): return ctx.heap[(MR, 'base')].get(snap)
def fld(ctx, n, snap=None): return FieldLV(ctx.ghost['reader'], n).get(snap)
def bufs(ctx, snap=None): return fld(ctx, 'buffers', snap)
def stream(ctx, snap=None): return S(g(ctx, 'stream', snap))
def used(ctx, snap=None): return g(ctx, 'consumed', snap)
def rsetup(self, ctx, fn):
    L = ctx.lib; this = ctx.cell('this', parse(BR), L.fresh(ctx, parse(BR), 'this')); ctx.ghost['reader'] = this; ctx.ghost['events'] = []
    cellg(ctx, 'stream', 'std::basic_string<char>', L.fresh(ctx, STRT, 'stream')); cellg(ctx, 'consumed', 'long', rng(ctx, 'consumed', 0, BIG))
    if 'link' in dict(L.rec_fields(parse(BR))): ctx.assume(Not(FieldLV(this, 'link').get().null))
    args = self.mkargs(ctx, fn); ctx.ghost['out'] = args[1] if len(args) > 1 else None; return this, args
def inv(ctx, snap=None):
    """what is buffered is the part of the stream after what was consumed"""
    L = ctx.lib; b = bufs(ctx, snap); a, n = L.vec_arr(ctx, b); a = named(ctx, a); i = z3.Int(ctx.uniq('?rg')); pr, pw = fld(ctx, 'position_read', snap), fld(ctx, 'position_write', snap); H = BASE(ctx, snap); first, last = z3.Select(H, z3.Select(a, 0)), z3.Select(H, z3.Select(a, zi(n) - 1)); R, C = stream(ctx, snap).len(), used(ctx, snap)
    return [('buffers of the usual size', ieq(fld(ctx, 'buffer_size', snap), BS)), ('there is a buffer', And(ile(1, n), ile(n, 1 << 45))), ('marks lie within their buffers', And(ile(0, pr), ile(pr, BS), ile(0, pw), ilt(pw, BS))),
        ('buffers follow one another in the stream', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(n)), z3.And(z3.Select(a, i) > 0, z3.Select(a, i) <= zi(ctx.heap['top'].get(snap)), z3.Select(H, z3.Select(a, i)) == first + BS * i)), patterns=[z3.Select(a, i)])),
        ('what is consumed is what the reading mark says', ieq(iadd(first, pr), C)), ('what is received is what the writing mark says', ieq(iadd(first + BS * (zi(n) - 1), pw), R)), ('nothing is read before it is received', And(ile(0, C), ile(C, R), ile(R, BIG))), ('no more is buffered than was asked for', ile(isub(R, C), LIM + BS))]
def invpre(s): return [zb(x) for _, x in inv(s.ctx)]
def kept(s): return [('the reader stays consistent: ' + n, x) for n, x in inv(s.ctx)]
def received(s):
    """the stream only grows, by what the link delivered"""
    s0, s1 = stream(s.ctx, s.pre), stream(s.ctx); return [('the stream only grows', seq_(ssub(s1, 0, s0.len()), s0))]
def install(prog, lib, reg):
    lib.heap_types = [MR]; lib._heapf[MR] = [('base', parse('long'))]; lib.abstract_str.add(PB)
    def construct(ctx, o, args, e):
        ctx.check(ieq(val(args[0]), BS), 'regions are as large as the reader believes', 'pre'); u = z3.Int(ctx.uniq('region')); top = ctx.heap['top']; ctx.assume(z3.And(u > 0, u > top.get())); top.set(u); H = ctx.heap[(MR, 'base')]
        b = z3.Const(ctx.uniq('bases'), H.get().sort()); x = z3.Int(ctx.uniq('?b')); old = H.get(); ctx.assume(z3.Select(b, u) == zi(stream(ctx).len())); ctx.assume(z3.ForAll([x], z3.Implies(x != u, z3.Select(b, x) == z3.Select(old, x)), patterns=[z3.Select(b, x)])); H.set(b)
        return Ptr(None, False, uid=u, ty=parse('std::shared_ptr<%s>' % MR))
    reg.mod[MR + '::Construct'] = construct
    def data(ctx, o, args, e):
        b = z3.Select(BASE(ctx), zi(o.uid)); ctx.ghost['region'] = b; return Ptr(ctx.ghost['stream'], False, b)
    reg.mod[MR + '::data'] = data; lib.extra_methods[(MR, 'data')] = lambda L, ctx, o, e: data(ctx, o, [], e)
    def within(ctx, p, n, what):
        o = isub(p.off, ctx.ghost['region']); ctx.check(And(ile(0, n), ile(0, o), ile(iadd(o, n), BS)), what, 'pre')
    def recv(ctx, o, args, e):
        p, n = val(args[0]), args[1]; ctx.check(p.lv is ctx.ghost['stream'] or p.lv.__class__ is ctx.ghost['stream'].__class__, 'bytes are received into a region', 'pre'); within(ctx, p, n, 'bytes are received within a region'); ctx.check(ieq(p.off, stream(ctx).len()), 'bytes are received where the stream continues, never over bytes already received', 'pre')
        r = rng(ctx, 'received', -(1 << 31), (1 << 31) - 1); ctx.assume(ile(r, n))
        if ctx.branch(ile(0, r)):
            c = ctx.lib.fresh(ctx, STRT, 'arrived'); ctx.assume(ieq(c.len(), r)); ctx.ghost['stream'].set(stream(ctx) + c); ctx.assume(ile(stream(ctx).len(), BIG)); cell = ctx.ghost['short']; cell.set(z3.If(zb(ilt(r, n)), 1, 0))
        else: ctx.ghost['broken'].set(1)
        return r
    reg.mod[Q + 'Link::Recv'] = recv
    # text taken from a region
    def append(L, ctx, o, e):
        a, n = ctx.ev(e['args'][0]), ctx.ev(e['args'][1]); a = val(a); within(ctx, a, n, 'bytes are taken within a region'); ctx.check(ile(iadd(a.off, n), stream(ctx).len()), 'only received bytes are taken', 'pre'); o.set(S(o.get()) + ssub(stream(ctx), a.off, n)); return o
    reg.mod_append = append
    for k in ('std::basic_string', 'std::__cxx11::basic_string'): lib.extra_methods[(k, 'append')] = append
    def pinned(L, ctx, t, e):
        a = e['args']
        if not a: return Str([])
        if len(a) != 3: return NotImplemented
        r, p, n = [val(ctx.ev(x)) for x in a]; within(ctx, p, n, 'bytes are taken within a region'); ctx.check(z3.Select(BASE(ctx), zi(r.uid)) == zi(ctx.ghost['region']), 'the region of the bytes is the one kept alive', 'pre'); ctx.check(ile(iadd(p.off, n), stream(ctx).len()), 'only received bytes are taken', 'pre'); return ssub(stream(ctx), p.off, n)
    lib.extra_ctors[PB] = pinned
    reg.mod[PB + '::getInternalBuffer'] = lambda ctx, o, args, e: o
def rsetup2(self, ctx, fn):
    r = rsetup(self, ctx, fn); cellg(ctx, 'short', 'int', 0); cellg(ctx, 'broken', 'int', 0); return r
# ---------------------------------------------------------------- receiving

def PRE(ctx): return ctx.ghost['scope'].pre
def rfl_post(s):
    ctx = s.ctx; r = s.ret; d = isub(stream(ctx).len(), stream(ctx, s.pre).len())
    return kept(s) + received(s) + [('nothing is consumed', ieq(used(ctx), used(ctx, s.pre))), ('the number of bytes received is told', Implies(ile(0, r), And(ieq(r, d), ile(r, iadd(s.argv(0), BS))))), ('an error only if the link broke', Implies(ilt(r, 0), ieq(g(ctx, 'broken'), 1))), ('stops early only if the link has no more', Implies(And(ile(0, r), ile(r, s.argv(0))), ieq(g(ctx, 'short'), 1)))]
def rfl_inv(lc):
    ctx = lc.ctx; out = [(n, lambda n=n: dict(inv(ctx))[n]) for n, _ in inv(ctx)]
    out += [('nothing is consumed', lambda: ieq(used(ctx), used(ctx, PRE(ctx)))), ('the stream only grows', lambda: seq_(ssub(stream(ctx), 0, stream(ctx, PRE(ctx)).len()), stream(ctx, PRE(ctx)))), ('the link is whole', lambda: ieq(g(ctx, 'broken'), 0))]
    for t in [l for l in lc.ints() if lc.modified(l)]:
        out.append(('%s counts what was received' % t, lambda t=t: ieq(t.get(), isub(stream(ctx).len(), stream(ctx, PRE(ctx)).len()))))
        out.append(('%s is within the limit' % t, lambda t=t: And(ile(0, t.get()), ile(t.get(), LIM))))
        out.append(('%s is within its argument' % t, lambda t=t: ile(t.get(), ctx.ghost['limit'])))
    return out
LIM = (1 << 31) - (1 << 17)
def rflsetup(self, ctx, fn):
    r = rsetup2(self, ctx, fn); ctx.ghost['limit'] = r[1][0] if not isinstance(r[1][0], LV) else r[1][0].get(); return r
READU = [spec(BR + '::readFromLink', rfl_post, lambda s: invpre(s) + [And(ile(0, s.argv(0)), ile(iadd(s.argv(0), avail(s.ctx)), LIM))], invs=rfl_inv, setup=rflsetup, name='readFromLink')]
# ---------------------------------------------------------------- is there enough
def mod_rfl(ctx, o, args, e):
    n = args[0]; ctx.check(And(ile(0, n), ile(iadd(n, avail(ctx)), LIM)), 'a sensible number of bytes is waited for', 'pre'); s0 = stream(ctx)
    for nm, x in inv(ctx): ctx.check(x, 'the reader is consistent when it receives: ' + nm, 'pre')
    this = ctx.ghost['reader']; L = ctx.lib; r = rng(ctx, 'linked', -(1 << 31), (1 << 31) - 1); c = L.fresh(ctx, STRT, 'arrived'); ctx.ghost['stream'].set(s0 + c); FieldLV(this, 'buffers').set(L.fresh(ctx, parse('std::deque<std::shared_ptr<%s>>' % MR), 'buffers')); FieldLV(this, 'position_write').set(ctx.fint('pw', 'long'))
    f0 = fld(ctx, 'position_read'); H = ctx.heap[(MR, 'base')]; old = H.get(); b = z3.Const(ctx.uniq('bases'), old.sort()); H.set(b); top = ctx.heap['top']; t = z3.Int(ctx.uniq('top')); ctx.assume(t >= top.get()); top.set(t)
    for nm, x in inv(ctx): ctx.assume(x)
    ctx.assume(Implies(ile(0, r), And(ieq(r, c.len()), ile(r, iadd(n, BS))))); ctx.ghost['broken'].set(z3.If(zb(ilt(r, 0)), 1, 0)); sh = ctx.fint('short', 'int'); ctx.assume(Implies(And(ile(0, r), ile(r, n)), ieq(sh, 1))); ctx.ghost['short'].set(sh); return r
def install_can(prog, lib, reg): install(prog, lib, reg); reg.mod[BR + '::readFromLink'] = mod_rfl
def avail(ctx, snap=None): return isub(stream(ctx, snap).len(), used(ctx, snap))
def can_post(s):
    ctx = s.ctx; r, n = s.ret, s.argv(0)
    return kept(s) + received(s) + [('nothing is consumed', ieq(used(ctx), used(ctx, s.pre))), ('enough exactly if it says so', Implies(ile(1, r), ile(n, avail(ctx)))), ('not enough only if the link has no more', Implies(ieq(r, 0), And(ilt(avail(ctx), n), ieq(g(ctx, 'short'), 1)))), ('an error only if the link broke', Implies(ilt(r, 0), ieq(g(ctx, 'broken'), 1)))]
CANU = [spec(BR + '::canConsume', can_post, lambda s: invpre(s) + [And(ile(1, s.argv(0)), ile(s.argv(0), LIM))], setup=rsetup2, name='canConsume')]
# ---------------------------------------------------------------- handing out
def mod_can(ctx, o, args, e):
    n = args[0]; ctx.check(And(ile(1, n), ile(n, LIM)), 'a sensible number of bytes is asked for', 'pre'); s0 = stream(ctx)
    for nm, x in inv(ctx): ctx.check(x, 'the reader is consistent when asked: ' + nm, 'pre')
    this = ctx.ghost['reader']; L = ctx.lib; r = rng(ctx, 'can', -(1 << 31), (1 << 31) - 1); c = L.fresh(ctx, STRT, 'arrived'); ctx.ghost['stream'].set(s0 + c); FieldLV(this, 'buffers').set(L.fresh(ctx, parse('std::deque<std::shared_ptr<%s>>' % MR), 'buffers')); FieldLV(this, 'position_write').set(ctx.fint('pw', 'long'))
    H = ctx.heap[(MR, 'base')]; H.set(z3.Const(ctx.uniq('bases'), H.get().sort())); top = ctx.heap['top']; t = z3.Int(ctx.uniq('top')); ctx.assume(t >= top.get()); top.set(t)
    for nm, x in inv(ctx): ctx.assume(x)
    ctx.assume(Implies(ile(1, r), ile(n, avail(ctx)))); ctx.assume(Implies(ieq(r, 0), ilt(avail(ctx), n))); ctx.ghost['broken'].set(z3.If(zb(ilt(r, 0)), 1, 0)); ctx.ghost['short'].set(z3.If(zb(ieq(r, 0)), 1, 0)); return r
def taken(s, out):
    """exactly the next bytes of the stream"""
    ctx = s.ctx; n = s.argv(0); c0 = used(ctx, s.pre); return [('exactly the next bytes of the stream', seq_(out, ssub(stream(ctx), c0, n))), ('as many as asked for', ieq(S(out).len(), n)), ('the number is told', ieq(s.ret, n))]
def outof(s): return S(raw(s.argpost(1)))
def adv(ctx):
    """ghost: what the reading mark says is consumed"""
    a, n = ctx.lib.vec_arr(ctx, bufs(ctx)); return iadd(z3.Select(BASE(ctx), z3.Select(a, 0)), fld(ctx, 'position_read'))
def int_post(s):
    ctx = s.ctx; n = s.argv(0); ctx.ghost['consumed'].set(iadd(used(ctx, s.pre), n)); return taken(s, outof(s)) + kept(s) + [('nothing is received meanwhile', seq_(stream(ctx), stream(ctx, s.pre)))]
def ci_inv(lc):
    ctx = lc.ctx; C0 = lambda: used(ctx, PRE(ctx)); n = ctx.ghost['limit']
    def state(c):
        def f(nm):
            old = ctx.ghost['consumed'].get(); ctx.ghost['consumed'].set(c())
            try: return dict(inv(ctx))[nm]
            finally: ctx.ghost['consumed'].set(old)
        return f
    out = []
    for t in [l for l in lc.ints() if lc.modified(l)]:
        c = lambda t=t: iadd(C0(), isub(n, t.get())); out.append(('%s is what is left' % t, lambda t=t: And(ile(0, t.get()), ile(t.get(), n))))
        f = state(c)
        for nm, _ in inv(ctx): out.append(('%s: %s' % (t, nm), lambda nm=nm, f=f, t=t: Implies(And(ile(0, t.get()), ile(t.get(), n)), f(nm))))
        out.append(('%s: what is taken is the stream so far' % t, lambda t=t: Implies(And(ile(0, t.get()), ile(t.get(), n)), And(seq_(S(val(ctx.ghost['out'])), ssub(stream(ctx), C0(), isub(n, t.get()))), ieq(S(val(ctx.ghost['out'])).len(), isub(n, t.get()))))))
    return out
INTU = [spec(BR + '::consumeInternal', int_post, lambda s: invpre(s) + [And(ile(1, s.argv(0)), ile(s.argv(0), LIM)), ile(s.argv(0), avail(s.ctx))], invs=ci_inv, setup=rflsetup, name='consumeInternal')]
def mod_int(ctx, o, args, e):
    n = args[0]; ctx.check(And(ile(1, n), ile(n, LIM), ile(n, avail(ctx))), 'no more is taken than there is', 'pre')
    for nm, x in inv(ctx): ctx.check(x, 'the reader is consistent when bytes are taken: ' + nm, 'pre')
    this = ctx.ghost['reader']; L = ctx.lib; c0 = used(ctx); FieldLV(this, 'buffers').set(L.fresh(ctx, parse('std::deque<std::shared_ptr<%s>>' % MR), 'buffers')); FieldLV(this, 'position_read').set(ctx.fint('pr', 'long')); ctx.ghost['consumed'].set(iadd(c0, n))
    for nm, x in inv(ctx): ctx.assume(x)
    args[1].set(ssub(stream(ctx), c0, n)); ev(ctx, 'taken'); return n
def install_con(prog, lib, reg): install(prog, lib, reg); reg.mod[BR + '::canConsume'] = mod_can; reg.mod[BR + '::consumeInternal'] = mod_int
def con_post(s):
    ctx = s.ctx; n = s.argv(0)
    if ctx.branch(ile(1, s.ret)):
        if not evs(s, 'taken'): ctx.ghost['consumed'].set(iadd(used(ctx, s.pre), n))
        return taken(s, outof(s)) + kept(s) + received(s)
    return kept(s) + received(s) + [('nothing is consumed', ieq(used(ctx), used(ctx, s.pre))), ('nothing is handed out', seq_(outof(s), S(s.argv(1)))), ('none only if there are not enough', Implies(ieq(s.ret, 0), And(ilt(avail(ctx), n), ieq(g(ctx, 'short'), 1)))), ('an error only if the link broke', Implies(ilt(s.ret, 0), ieq(g(ctx, 'broken'), 1)))]
CONU = [spec(BR + '::consume', con_post, lambda s: invpre(s) + [And(ile(1, s.argv(0)), ile(s.argv(0), LIM))], setup=rsetup2, sig_has=h, name='consume(%s)' % w) for h, w in (('string', 'text'), ('PinnedBuffer', 'element'))]
# ---------------------------------------------------------------- the start
def ctor_post(s): return [('a fresh reader is consistent: ' + n, x) for n, x in inv(s.ctx)] + [('reads from its link', True)]
RCTORU = [spec(BR + '::BufferedReader', ctor_post, lambda s: [ieq(s.argv(1), BS), ieq(stream(s.ctx).len(), 0), ieq(used(s.ctx), 0)], setup=rsetup2, name='BufferedReader')]
