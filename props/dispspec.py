"""contracts of the dispatcher around batches: requests run in order on one batch, which is committed once with its index (C13)"""
from .commitspec import *
from . import reqs
from .reqs import REQ, READ, WRITE
from cxv.spec import *
RD = Q + 'RedisDispatcher'; RDQ = RD + '::'
RESP = 'quarkdb::RedisEncodedResponse'; TXT = 'quarkdb::Transaction'
def fs(L): return L.sort(REQ)
AD, AV, BSS = z3.ArraySort(SS, BS), z3.ArraySort(SS, SS), None
def fns(L):
    R = fs(L)
    return dict(wd=z3.Function('WRITE.dom', AD, AV, R, AD), wv=z3.Function('WRITE.val', AD, AV, R, AV), wr=z3.Function('WRITE.reply', AD, AV, R, SS), rr=z3.Function('READ.reply', AD, AV, R, SS))
class Run:
    """spec functions: contents and reply text after the first k requests of a batch (by recursion on k; only unfoldings are used)"""
    def __call__(self, ctx, v0, vec, k):
        L = ctx.lib; vec = raw(vec); arr, _ = L.vec_arr(ctx, vec); F = fns(L); K = simp0_(zi(k))
        a = [v0.dom, v0.val, arr]; so = [x.sort() for x in a] + [IS]
        fd, fv, ft = z3.Function('RUN.dom', *(so + [AD])), z3.Function('RUN.val', *(so + [AV])), z3.Function('RUN.text', *(so + [SS]))
        def at(i): return fd(*(a + [i])), fv(*(a + [i])), ft(*(a + [i]))
        d, v, t = at(K); key = ('run', d.get_id())
        if key not in ctx.memo:
            ctx.memo[key] = (d, v, t); j = simp0_(K - 1)
            if ctx.V.unroll is not None and ctx.ghost.get('$folddepth', 0) < ctx.V.unroll + 1:
                ctx.ghost['$folddepth'] = ctx.ghost.get('$folddepth', 0) + 1
                self(ctx, v0, vec, j); ctx.ghost['$folddepth'] -= 1
            pd, pv, pt = at(j); q = z3.Select(arr, j)
            ctx.in_spec += 1
            try: w = ieq(ctx.get_field(L.elem_get(ctx, Vec(vec.et, arr=arr, n=vec.len()), j), 'commandType'), WRITE)
            finally: ctx.in_spec -= 1
            w = zb(w)
            ctx.assume(z3.Implies(K <= 0, z3.And(d == v0.dom, v == v0.val, t == z3.StringVal(''))))
            ctx.assume(z3.Implies(z3.And(K > 0, w), z3.And(d == F['wd'](pd, pv, q), v == F['wv'](pd, pv, q), t == z3.Concat(pt, F['wr'](pd, pv, q)))))
            ctx.assume(z3.Implies(z3.And(K > 0, z3.Not(w)), z3.And(d == pd, v == pv, t == z3.Concat(pt, F['rr'](pd, pv, q)))))
        return View_(ctx, d, v), Str([t])
RUN = Run()
def aview(lv, ctx, snap=None): w = FieldLV(lv, 'writeBatchWithIndex').get(snap); return View_(ctx, w.f['dom'], w.f['val'])
def setview(lv, v):
    f = FieldLV(lv, 'writeBatchWithIndex'); w = f.get(); f.set(Struct(w.ty, dict(w.f, dom=v.dom, val=v.val)))
def rep(t): return Struct(parse(RESP), {'val': t if isinstance(t, Str) else Str([t])})
def pk(ctx, lv): return ctx.lib.pack(ctx, lv.get() if isinstance(lv, LV) else lv, REQ)
def boom(ctx): raise CppThrow('quarkdb::FatalException')
def install_disp(prog, lib, reg):
    install_area(prog, lib, reg); reqs.install(prog, lib, reg)
    def ctor(ctx, o, args, e):
        ro = args[1].get() if len(args) > 1 and isinstance(args[1], LV) else (args[1] if len(args) > 1 else False)
        smc = args[0]; d = FieldLV(smc, 'db').get().lv.get()
        w = Struct(parse(WB), {'dom': d.f['dom'], 'val': d.f['val'], 'in': z3.K(SS, z3.BoolVal(False))})
        o.set(Struct(parse(SA), {'stateMachine': Ptr(smc), 'writeBatchWithIndex': w, 'bulkLoad': False, 'readOnly': ro, 'mRevisionTracker': ctx.lib.fresh(ctx, parse(Q + 'VersionedHashRevisionTracker'), 'revisions')}, origin='area'))
        if not ctx.branch(ro): ctx.locks.append('writeMtx'); ctx.ghost['locked'] = ctx.ghost.get('locked', 0) + 1; ctx.check(ctx.locks.count('writeMtx') == 1, 'the write lock is taken once', 'pre')
    reg.mod_ctor[SA + '::StagingArea'] = ctor
    def dtor(ctx, o, x, e):
        if not ctx.branch(FieldLV(o, 'readOnly').get()) and 'writeMtx' in ctx.locks: ctx.locks.remove('writeMtx')
    reg.mod[SA + '::~StagingArea'] = dtor
    def commit(ctx, o, args, e):
        i = args[0].get() if isinstance(args[0], LV) else args[0]
        if ctx.branch(FieldLV(o, 'readOnly').get()): boom(ctx)
        ctx.check('writeMtx' in ctx.locks, 'a batch is committed under the write lock', 'pre')
        smc = ctx.ghost['sm']; la = FieldLV(smc, 'lastApplied'); old = la.get(); v = aview(o, ctx)
        if ctx.branch(ilt(0, i)):
            if ctx.branch(Not(ieq(i, iadd(old, 1)))): boom(ctx)
            v = v.put(Str([APPL]), be(ctx, i)); new = i
        else:
            if ctx.branch(Not(ieq(old, 0))): boom(ctx)
            new = old
        if not ctx.branch(ctx.fbool('commit.ok')): boom(ctx)
        db = ctx.ghost['db']; d = db.get(); db.set(Struct(d.ty, dict(d.f, dom=v.dom, val=v.val, writes=iadd(d.f['writes'], 1)))); la.set(new)
        ctx.ghost['log'] = ctx.ghost['log'] + ['commit']
        return ctx.lib.status(0)
    reg.mod[SA + '::commit'] = commit
    F = fns(lib)
    def write(ctx, o, args, e):
        a, q = args; ctx.check(ieq(ctx.get_field(q.get(), 'commandType'), WRITE), 'only writes are run as writes', 'pre')
        if ctx.branch(FieldLV(a, 'readOnly').get()): boom(ctx)
        if not ctx.branch(ctx.fbool('write.ok')): boom(ctx)
        v = aview(a, ctx); p = pk(ctx, q); setview(a, View_(ctx, F['wd'](v.dom, v.val, p), F['wv'](v.dom, v.val, p)))
        return rep(F['wr'](v.dom, v.val, p))
    def read(ctx, o, args, e):
        a, q = args; ctx.check(Not(ieq(ctx.get_field(q.get(), 'commandType'), WRITE)), 'no write is run as a read', 'pre')
        if not ctx.branch(ctx.fbool('read.ok')): boom(ctx)
        v = aview(a, ctx); return rep(F['rr'](v.dom, v.val, pk(ctx, q)))
    reg.mod[RDQ + 'dispatchWrite'] = write; reg.mod[RDQ + 'dispatchRead'] = read
    def anyreply(ctx, o, args, e): return rep(Str([ctx.fstr('reply')]))
    for n in ('errArgs', 'err', 'ok', 'pong', 'string'): reg.mod[Q + 'Formatter::' + n] = anyreply
    reg.mod[Q + 'RequestCounter::account'] = lambda ctx, o, args, e: None
    reg.mod[SMQ + 'hardSynchronizeDynamicClock'] = lambda ctx, o, args, e: None
    reg.mod[Q + 'VersionedHashRevisionTracker::empty'] = lambda ctx, o, args, e: z3.Bool('batch.norevisions')
    def publish(ctx, o, args, e):
        ctx.check('commit' in ctx.ghost['log'], 'revisions are published after the commit only', 'pre')
        ctx.ghost['log'] = ctx.ghost['log'] + ['publish']
    reg.mod[Q + 'Publisher::schedulePublishing'] = publish
    # text of an array under construction (C17)
    def adv(ctx, o, args, e):
        a, v = args[0], args[1]; i = args[1]
    def clk(ctx, o, args, e):
        if len(args) != 2: raise Unsupported('advanceClock overload')
        a = args[0]
        if not (isinstance(a, LV) and strip_ref(a.ty).name == SA): raise Unsupported('advanceClock overload')
        x = args[1].get() if isinstance(args[1], LV) else args[1]
        if not ctx.branch(ctx.fbool('clock.ok')): boom(ctx)
        v = aview(a, ctx); fd = z3.Function('CLK.dom', AD, AV, IS, AD); fv = z3.Function('CLK.val', AD, AV, IS, AV); setview(a, View_(ctx, fd(v.dom, v.val, zi(x)), fv(v.dom, v.val, zi(x))))
    reg.mod[SMQ + 'advanceClock'] = clk
def dispsetup(self, ctx, f):
    smc = sm_cell(ctx); ctx.ghost['db'] = dbcell(smc); ctx.ghost['sm'] = smc; ctx.ghost['log'] = []
    if f['cls'] == SMQ[:-2]: this = smc
    else:
        pub = ctx.cell('pub', parse(Q + 'Publisher'), Struct(parse(Q + 'Publisher'), {}, origin='pub'))
        this = ctx.cell('this', parse(RD), Struct(parse(RD), {'store': Ptr(smc), 'publisher': Ptr(pub)}, origin='this'))
    args = []
    for i, p in enumerate(f['params']):
        t = strip_ref(parse(p['t']))
        if t.name == SA:
            ro = z3.Bool('readonly'); w = Struct(parse(WB), {'dom': z3.Array('wb.dom', SS, BS), 'val': z3.Array('wb.val', SS, SS), 'in': z3.Array('wb.in', SS, BS)})
            args.append(ctx.cell('sa', t, Struct(t, {'stateMachine': Ptr(smc), 'writeBatchWithIndex': w, 'bulkLoad': False, 'readOnly': ro, 'mRevisionTracker': ctx.lib.fresh(ctx, parse(Q + 'VersionedHashRevisionTracker'), 'revisions')}, origin='sa')))
        else: args.append(ctx.cell('arg%d' % i, t, ctx.lib.fresh(ctx, t, 'arg%d' % i)))
    return this, args
def q_(s, i, n, snap=None): return FieldLV(s.args[i], n).get(s.pre if snap is None else snap)
def val(s): return s.ret.val if isinstance(s.ret, View) else s.ctx.get_field(s.ret, 'val')
def hdr_(s, vec, ph):
    return Str(['']) if s.ctx.branch(ph) else Str(['*', s.lib.itos(s.ctx, vec.len()), '\r\n'])
def runinv(lc):
    ctx = lc.ctx; s = ctx.ghost['scope']; out = []; th = ctx.ghost.get('run')
    if th is None: return out
    v0, vec = th
    for c in counters(lc):
        if not lc.modified(c.l): continue
        def k(c=c): return isub(c.get(), c.get(lc.entry))
        for a in [l for l in list(lc.locals()) + list(s.args) if isinstance(l, LV) and l.ty is not None and strip_ref(l.ty).kind == 'n' and strip_ref(l.ty).name == SA]:
            def cl(c=c, a=a):
                r, _ = RUN(ctx, v0, vec, k(c)); w = aview(a, ctx); return z3.And(w.dom == r.dom, w.val == r.val)
            out.append(('%s holds the effect of the first %s requests' % (a, c), cl))
        for t in texts(lc):
            if not lc.modified(t): continue
            out.append(('%s grew by the replies to the first %s requests' % (t, c), lambda c=c, t=t: seq_(t.get(), t.get(lc.entry) + RUN(ctx, v0, vec, k(c))[1])))
        for x in intplaces(lc):
            if not lc.modified(x) or repr(x) == repr(c.l): continue
            out.append(('%s + %s is constant' % (x, c), lambda c=c, x=x: ieq(iadd(x.get(), c.get()), iadd(x.get(lc.entry), c.get(lc.entry)))))
    out.append(('the database is untouched', lambda: gdb(s).same(gdb(s, lc.entry))))
    out.append(('nothing is written', lambda: ieq(s.ctx.ghost['db'].get().f['writes'], 0)))
    return out
def prep(i, area=True):
    def r(s):
        v0 = aview(s.args[0], s.ctx) if area else gdb(s)
        vec = FieldLV(s.args[i], 'requests').get(); s.ctx.ghost['run'] = (v0, vec)
        return [ilt(vec.len(), 1 << 40)]
    return r
def classified(s):
    """the classification of a batch is truthful (transactions property)"""
    t = s.args[1].get(); v = s.ctx.get_field(t, 'requests'); hw = s.ctx.get_field(t, 'hasWrites'); arr, _ = s.lib.vec_arr(s.ctx, v); i = z3.Int(s.ctx.uniq('?ck'))
    s.ctx.in_spec += 1
    try: w = zb(ieq(s.ctx.get_field(s.lib.elem_get(s.ctx, Vec(v.et, arr=arr, n=v.len()), i), 'commandType'), WRITE))
    finally: s.ctx.in_spec -= 1
    return [z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(v.len()), w), zb(hw)), patterns=[z3.Select(arr, i)])]
def ran(s):
    v0, vec = s.ctx.ghost['run']; v, t = RUN(s.ctx, v0, vec, vec.len())
    return [('every request runs once, in order, on the batch', aview(s.args[0], s.ctx).same(v)), ('one reply per request, in order', seq_(val(s), hdr_(s, vec, q_(s, 1, 'phantom')) + t))] + nowrite(s)
def one(s):
    L = s.lib; F = fns(L); a = s.args[0]; v0 = aview(a, s.ctx, s.pre); p = pk(s.ctx, s.args[1].get(s.pre)); w = s.ctx.branch(ieq(q_(s, 1, 'commandType'), WRITE))
    v = View_(s.ctx, F['wd'](v0.dom, v0.val, p), F['wv'](v0.dom, v0.val, p)) if w else v0
    return [('a write runs on the batch, a read leaves it alone', aview(a, s.ctx).same(v)), ('its reply is returned', seq_(val(s), Str([(F['wr'] if w else F['rr'])(v0.dom, v0.val, p)])))] + nowrite(s)
def committed(s, v, i, reply=None):
    """v is committed in one write with index i"""
    old = smf(s, 'lastApplied', s.pre); indexed = s.ctx.branch(ilt(0, i)); x = v.put(Str([APPL]), be(s.ctx, i)) if indexed else v
    return [('exactly one atomic write', ieq(s.ctx.ghost['db'].get().f['writes'], 1)), ('with the effect of exactly these requests and the index', gdb(s).same(x)), ('the last applied index follows', ieq(smf(s, 'lastApplied'), i if indexed else old)),
            ('the write lock was held throughout, once', ieq(s.ctx.ghost.get('locked', 0), 1)), ('and is released', 'writeMtx' not in s.ctx.locks)]
def untouched_(s, ty=None): return nowrite(s) + [('the last applied index stays', ieq(smf(s, 'lastApplied'), smf(s, 'lastApplied', s.pre))), ('nothing is published', 'publish' not in s.ctx.ghost['log'])]
def txdone(s):
    v0, vec = s.ctx.ghost['run']; v, t = RUN(s.ctx, v0, vec, vec.len()); w = s.ctx.branch(q_(s, 0, 'hasWrites'))
    out = [('one reply per request, in order', seq_(val(s), hdr_(s, vec, q_(s, 0, 'phantom')) + t))]
    if not w: return out + untouched_(s) + [('a read-only batch takes no lock', ieq(s.ctx.ghost.get('locked', 0), 0))]
    nr = s.ctx.branch(z3.Bool('batch.norevisions')); n = s.ctx.ghost['log'].count('publish')
    return out + committed(s, v, s.argv(1)) + [('its revisions are published once, after the commit', n == (0 if nr else 1))]
def ix(s, i): return [ile(-(1 << 62), s.argv(i)), ilt(s.argv(i), 1 << 62), ile(0, smf(s, 'lastApplied')), ilt(smf(s, 'lastApplied'), 1 << 62)]
def reqpre(s):
    c = s.ctx.get_field(s.args[0].get(), 'contents'); x = S(s.lib.elem_get(s.ctx, c, 0))
    s.ctx.ghost['first'] = x
    return ix(s, 1) + [ile(1, c.len()), Implies(ieq(s.ctx.get_field(s.args[0].get(), 'command'), reqs.cmds(s.lib.prog)['PING']), Not(ieq(s.ctx.get_field(s.args[0].get(), 'commandType'), WRITE)))]
def reqdone(s):
    L = s.lib; F = fns(L); ctx = s.ctx; i = s.argv(1); v0 = gdb(s, s.pre); p = pk(ctx, s.args[0].get(s.pre)); cmd = q_(s, 0, 'command'); kd = q_(s, 0, 'commandType'); C = reqs.cmds(L.prog)
    if ctx.branch(ieq(cmd, C['INVALID'])):
        if ctx.branch(z3.PrefixOf(z3.StringVal('JOURNAL_'), ctx.ghost['first'].term())): return committed(s, v0, i)
        return untouched_(s) + [('unknown commands never carry an index', ieq(i, 0))]
    if ctx.branch(ieq(cmd, C['PING'])): return untouched_(s) + [('no index is skipped', Or(ile(i, 0), False))]
    if ctx.branch(ieq(kd, WRITE)): return committed(s, View_(ctx, F['wd'](v0.dom, v0.val, p), F['wv'](v0.dom, v0.val, p)), i) + [('its reply is returned', seq_(val(s), Str([F['wr'](v0.dom, v0.val, p)])))]
    out = untouched_(s) + [('no index is skipped', ile(i, 0)), ('a read takes no lock', ieq(ctx.ghost.get('locked', 0), 0))]
    return out + ([('its reply is returned', seq_(val(s), Str([F['rr'](v0.dom, v0.val, p)])))] if ctx.branch(ieq(kd, READ)) else [])
def rwdone(s):
    L = s.lib; F = fns(L); ctx = s.ctx; i = s.argv(1); v0 = gdb(s, s.pre); p = pk(ctx, s.args[0].get(s.pre)); kd = q_(s, 0, 'commandType')
    if ctx.branch(ieq(kd, WRITE)): return committed(s, View_(ctx, F['wd'](v0.dom, v0.val, p), F['wv'](v0.dom, v0.val, p)), i)
    return untouched_(s)
def clkdone(s):
    ctx = s.ctx; v = gdb(s, s.pre); x = zi(s.argv(0)); fd = z3.Function('CLK.dom', AD, AV, IS, AD); fv = z3.Function('CLK.val', AD, AV, IS, AV)
    return committed(s, View_(ctx, fd(v.dom, v.val, x), fv(v.dom, v.val, x)), s.argv(1))
DISP = [
    spec(RDQ + 'dispatch', ran, prep(1), invs=runinv, nparams=2, sig_has='StagingArea', name='batch', setup=dispsetup, throws=lambda s, ty: nowrite(s)),
    spec(RDQ + 'dispatchReadOnly', ran, lambda s: prep(1)(s) + classified(s), invs=runinv, nparams=2, name='batchReadOnly', setup=dispsetup, throws=lambda s, ty: nowrite(s)),
    spec(RDQ + 'dispatchReadWrite', one, nparams=2, name='dispatchReadWrite', setup=dispsetup, throws=lambda s, ty: nowrite(s)),
    spec(RDQ + 'dispatch', txdone, lambda s: prep(0, False)(s) + ix(s, 1), invs=runinv, nparams=2, sig_has='Transaction &, long', name='transaction', setup=dispsetup, throws=untouched_),
    spec(RDQ + 'dispatch', reqdone, reqpre, nparams=2, sig_has='RedisRequest &, long', name='request', setup=dispsetup, throws=untouched_),
    spec(RDQ + 'dispatchReadWriteAndCommit', rwdone, lambda s: ix(s, 1), nparams=2, name='dispatchReadWriteAndCommit', setup=dispsetup, throws=untouched_),
    spec(SMQ + 'noop', lambda s: committed(s, gdb(s, s.pre), s.argv(0)), lambda s: ix(s, 0), nparams=1, name='noop', setup=dispsetup, throws=untouched_),
    spec(SMQ + 'advanceClock', clkdone, lambda s: ix(s, 1), nparams=2, sig_has='(unsigned long, long)', name='advanceClock', setup=dispsetup, throws=untouched_),
]
