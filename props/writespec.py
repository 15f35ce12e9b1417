"""contracts of the way of a write through the journal and back to its client (C08)"""
from .rpcspec import *
PQ_, MAPT = Q + 'PendingQueue', 'std::map<long,std::shared_ptr<%s>>' % (Q + 'PendingQueue')
def uid(p): return zi(p.uid) if p.uid is not None else (z3.IntVal(0) if p.null is True else None)
def install_write(prog, lib, reg):
    install_rpc(prog, lib, reg); lib.heap_types = [PQ_]; lib._heapf[PQ_] = [('subscriptions', parse('long'))]
    for n in ('flushQueues',): reg.mod.pop(WT + '::' + n)
    def pop(ctx, o, args, e):
        if ctx.branch(ctx.fbool('waiting')): u = ctx.fint('queue', 'long'); ctx.assume(u > 0); ev(ctx, 'pop', val(args[0]), u); return Ptr(None, False, uid=u, ty=Ty('ptr', sub=parse(PQ_)))
        ev(ctx, 'pop', val(args[0]), 0); return Ptr(None, True)
    reg.mod[BW + '::popIndex'] = pop
    reg.mod[BW + '::insert'] = lambda ctx, o, args, e: ev(ctx, 'insert', val(args[0]), uid(val(args[1])))
    reg.mod[BW + '::flush'] = lambda ctx, o, args, e: (ctx.check(held(ctx, 'mtx'), 'no write is added meanwhile', 'pre'), ev(ctx, 'flushed', S(F(ctx, val(args[0]), 'val')).term()))[1]
    def pending(ctx, o, args, e):
        i = zi(val(args[1])); r = ctx.fint('next', 'long'); ctx.assume(z3.Or(r == -1, z3.And(r > i, r < LIM))); ev(ctx, 'serve', o.uid, i, val(args[0]), r); return r
    reg.mod[PQ_ + '::dispatchPending'] = pending
    def addp(ctx, o, args, e): ev(ctx, 'enqueue', o.uid, val(args[0]), S(val(args[1]).f['x']).term() if False else val(args[1]), val(args[2])); return 1
    reg.mod[PQ_ + '::addPendingTransaction'] = addp
    reg.mod[PQ_ + '::flushPending'] = lambda ctx, o, args, e: (ev(ctx, 'answer', S(F(ctx, val(args[0]), 'val')).term()), tell(ctx, zi(o.uid)), 1)[2]
    def disp(ctx, o, args, e): ev(ctx, 'apply', val(args[0]), zi(val(args[1])), o); return lib_fresh(ctx, RESP, 'answer')
    reg.mod[Q + 'RedisDispatcher::dispatch'] = disp
    REQ_ = parse(Q + 'RedisRequest'); TXS = lib.sort(parse(Q + 'Transaction')); ASREQ = z3.Function('REQUEST.of', TXS, lib.sort(REQ_))
    reg.mod[Q + 'Transaction::toRedisRequest'] = lambda ctx, o, args, e: lib.unpack(ctx, ASREQ(lib.pack(ctx, o.get(), parse(Q + 'Transaction'))), REQ_)
    lib.ASREQ = ASREQ
    def append(ctx, o, args, e):
        ok = ctx.fbool('appended'); ev(ctx, 'journal', zi(val(args[0])), val(args[1]), ok); ctx.check(held(ctx, 'mtx'), 'no entry is applied before its client waits for it', 'pre'); return ok
    reg.mod[JR + '::append'] = append
    reg.mod[WT + '::applySingleCommit'] = one
def tell(ctx, u): c = ctx.ghost['told']; m = c.get(); c.set(Map(m.kt, m.vt, z3.Store(m.dom, u, z3.BoolVal(True)), m.val, m.n))
def one(ctx, o, args, e):
    i = zi(val(args[0])); a = ctx.ghost['app']; ctx.check(i == zi(a.get()) + 1, 'entries are applied in order, each once', 'pre'); ctx.check(held(ctx, 'mtx'), 'by one at a time', 'pre'); ctx.check(i <= ctx.ghost['scope'].argv(0), 'only committed entries are applied', 'pre'); a.set(i)
def wsetup(self, ctx, fn):
    ctx.ghost['events'] = []; ctx.ghost['now'] = NOW0; new_journal(ctx); cellg(ctx, 'app', 'long', z3.Int('applied0')); ctx.ghost['applied'] = z3.Int('applied0')
    this = ctx.cell('this', parse(WT), Struct(parse(WT), {'journal': ref(ctx, 'RaftJournal'), 'stateMachine': ref(ctx, 'StateMachine'), 'redisDispatcher': stub('RedisDispatcher'), 'blockedWrites': stub('RaftBlockedWrites'), 'shutdown': z3.Bool('shutdown'), 'commitApplierActive': z3.Bool('active')}, origin='this')); args = []
    for i, p in enumerate(fn['params']):
        t = strip_ref(parse(p['t'])); n = str(t).split('::')[-1]
        if 'PendingQueue' in str(t): u = z3.Int('client'); ctx.assume(u > 0); v = Ptr(None, False, uid=u, ty=Ty('ptr', sub=parse(PQ_)))
        elif n == 'RedisDispatcher': v = stub(n)
        else: v = ctx.lib.fresh(ctx, t, 'arg%d' % i)
        args.append(ctx.cell('arg%d' % i, t, v))
    return this, args
def update_mod(reg):
    reg.mod[Q + 'StateMachine::getLastApplied'] = lambda ctx, o, args, e: ctx.ghost['app'].get()
def install_upd(prog, lib, reg): install_write(prog, lib, reg); update_mod(reg)
def install_single(prog, lib, reg): install_write(prog, lib, reg); reg.mod.pop(WT + '::applySingleCommit')
def upd_post(s): a0, c = z3.Int('applied0'), zi(s.argv(0)); return [('everything committed is applied, and nothing else', zi(s.ctx.ghost['app'].get()) == z3.If(a0 > c, a0, c))]
def upd_inv(lc):
    ctx = lc.ctx; a = ctx.ghost['app']; out = []; s = ctx.ghost['scope']; c0 = zi(s.argv(0)); a0 = z3.Int('applied0')
    out.append(('not past what is committed', lambda: z3.And(zi(a.get()) <= z3.If(a0 > c0, a0, c0), zi(a.get()) >= a0)))
    for l in lc.locals():
        v = l.get()
        if isinstance(v, z3.ExprRef) and v.sort() == IS and lc.modified(l): out += [('%s is the next to apply' % l, lambda l=l: zi(l.get()) == zi(a.get()) + 1)]
    return out
def single_post(s):
    ctx = s.ctx; i = zi(s.argv(0)); po, ap, sv, ins = evs(s, 'pop'), evs(s, 'apply'), evs(s, 'serve'), evs(s, 'insert'); out = [('it is looked up once whose it is', And(len(po) == 1, po and ieq(po[0][1], i)))]
    if len(po) != 1: return out
    mine = not isinstance(po[0][2], int)
    if not mine:
        e = entry_at(s, i); out += [('a foreign entry is applied once, at its index', And(len(ap) == 1, ap and ieq(ap[0][2], i), not sv, not ins))]
        if len(ap) == 1: out += [('exactly what the journal holds', s.lib.eq(ctx, raw(ap[0][1]), F(ctx, e, 'request')))]
        return out
    out += [('an entry of a waiting client is served once, at its index', And(len(sv) == 1, not ap, sv and And(ieq(sv[0][2], i), ieq(sv[0][1], po[0][2]))))]
    if len(sv) == 1:
        nx = zi(sv[0][4]); more = ctx.branch(nx > 0)
        out += [('the next write of the client waits for its own commit', And(len(ins) == 1, ins and And(ieq(ins[0][1], nx), ieq(ins[0][2], po[0][2]))) if more else not ins)]
    return out
def entry_at(s, i): return s.lib.unpack(s.ctx, z3.Select(J(s), i), parse(RE))
def single_pre(s): return [ile(1, s.argv(0)), ilt(s.argv(0), LIM)]
def app_post(s):
    ctx = s.ctx; ap, ins, en = evs(s, 'journal'), evs(s, 'insert'), evs(s, 'enqueue'); i, t = zi(s.argv(0)), zi(s.argv(1)); tx = s.args[2].get(s.pre); out = [('one entry is added', len(ap) == 1)]
    if len(ap) != 1: return out
    ok = ap[0][3]; good = ctx.branch(ok); e = raw(ap[0][2]); names = [x[0] for x in evs(s)]
    out += [('the caller learns whether it was', Iff(s.ret, ok)), ('at the given index, with the given term', And(ieq(ap[0][1], i), ieq(F(ctx, e, 'term'), t))), ('holding the request', s.lib.eq(ctx, F(ctx, e, 'request'), s.lib.unpack(ctx, s.lib.ASREQ(s.lib.pack(ctx, tx, parse(Q + 'Transaction'))), parse(Q + 'RedisRequest'))))]
    if not good: return out + [('a refused write waits for nothing', not ins and not en), ('and can be tried again', s.lib.eq(ctx, s.args[2].get(), tx))]
    out += [('the client is found by that index', And(len(ins) == 1, ins and And(ieq(ins[0][1], i), ieq(ins[0][2], z3.Int('client'))))), ('the same request waits in the queue of the client', And(len(en) == 1, en and And(ieq(en[0][1], z3.Int('client')), ieq(en[0][4], i), s.lib.eq(ctx, raw(en[0][3]), tx))))]
    return out
def flq_post(s): f = evs(s, 'flushed'); return [('all waiting clients get the given answer', And(len(f) == 1, f and f[0][1] == S(F(s.ctx, s.args[0].get(s.pre), 'val')).term()))]
UPDU = [spec(WT + '::updatedCommitIndex', upd_post, lambda s: [ilt(s.argv(0), LIM)], invs=upd_inv, setup=wsetup, name='updatedCommitIndex')]
SINU = [spec(WT + '::applySingleCommit', single_post, single_pre, setup=wsetup, throws=fatal_only, name='applySingleCommit')]
APPU = [spec(WT + '::append', app_post, setup=wsetup, name='append'), spec(WT + '::flushQueues', flq_post, setup=wsetup, name='flushQueues')]
# ---------------------------------------------------------------- blocked writes
def install_bw(prog, lib, reg):
    install_write(prog, lib, reg)
    for n in ('popIndex', 'insert', 'flush'): reg.mod.pop(BW + '::' + n)
def bsetup(self, ctx, fn):
    ctx.ghost['events'] = []; cellg(ctx, 'told', 'std::map<long,bool>', ctx.lib.default(ctx, parse('std::map<long,bool>'))); m = ctx.lib.fresh(ctx, parse(MAPT), 'tracker'); k = z3.Int('?bt'); ctx.assume(z3.ForAll([k], z3.Implies(z3.Select(m.dom, k), z3.Select(m.val, k) > 0), patterns=[z3.Select(m.val, k)]))
    this = ctx.cell('this', parse(BW), Struct(parse(BW), {'tracker': m}, origin='this')); args = []
    for i, p in enumerate(fn['params']):
        t = strip_ref(parse(p['t']))
        if 'PendingQueue' in str(t): u = z3.Int('client'); ctx.assume(u > 0); v = Ptr(None, False, uid=u, ty=Ty('ptr', sub=parse(PQ_)))
        else: v = ctx.lib.fresh(ctx, t, 'arg%d' % i)
        args.append(ctx.cell('arg%d' % i, t, v))
    return this, args
def trk(s, snap=None): return FieldLV(s.thislv, 'tracker').get(snap)
def bpop(s):
    i = zi(s.argv(0)); m0, m = trk(s, s.pre), trk(s); u = uid(s.ret); k = z3.Int('?bp'); have = z3.Select(m0.dom, i)
    return [('whoever waits for the index is returned', u == z3.If(have, z3.Select(m0.val, i), 0)), ('and waits no more', m.dom == z3.Store(m0.dom, i, z3.BoolVal(False))), ('the others keep waiting', z3.ForAll([k], z3.Implies(z3.Select(m.dom, k), z3.Select(m.val, k) == z3.Select(m0.val, k))))]
def bins(s):
    i = zi(s.argv(0)); m0, m = trk(s, s.pre), trk(s); k = z3.Int('?bi'); return [('the index is waited for', z3.And(m.dom == z3.Store(m0.dom, i, z3.BoolVal(True)), z3.Select(m.val, i) == z3.Int('client'))), ('the others keep waiting', z3.ForAll([k], z3.Implies(k != i, z3.Select(m.val, k) == z3.Select(m0.val, k))))]
def told(s): return s.ctx.ghost['told'].get().dom
def bflush(s):
    m0, m = trk(s, s.pre), trk(s); k = z3.Int('?bf'); return [('nobody waits any more', m.dom == z3.K(IS, z3.BoolVal(False))), ('everybody who waited was answered', z3.ForAll([k], z3.Implies(z3.Select(m0.dom, k), z3.Select(told(s), z3.Select(m0.val, k))))), ('with the given answer', And(*[x[1] == S(F(s.ctx, s.args[0].get(s.pre), 'val')).term() for x in evs(s, 'answer')]))]
def bflush_inv(lc):
    ctx = lc.ctx; s = ctx.ghost['scope']; out = []; m0 = trk(s, s.pre); e = begin_of(ctx, s); k = z3.Int('?bl')
    for l in lc.locals():
        v = l.get()
        if isinstance(v, Iter): out += [('those passed were answered: %s' % l, lambda l=l: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(l.get().pos)), z3.Select(told(s), z3.Select(m0.val, z3.Select(e, k)))), patterns=[z3.Select(e, k)])), ('%s within' % l, lambda l=l: And(ile(0, l.get().pos), ile(l.get().pos, m0.n)))]
    return out
def begin_of(ctx, s): c = ctx.cell('$enum', parse(MAPT), trk(s, s.pre)); return ctx.lib.map_begin(ctx, c).extra[1]
BWU = [spec(BW + '::popIndex', bpop, setup=bsetup, name='popIndex'), spec(BW + '::insert', bins, setup=bsetup, name='insert'), spec(BW + '::flush', bflush, invs=bflush_inv, setup=bsetup, name='flush')]
