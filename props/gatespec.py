"""contracts of how a node serves clients and administrators (C08)"""
from .writespec import *
from . import reqs
TX_, CONN = Q + 'Transaction', Q + 'Connection'
# ---------------------------------------------------------------- client requests
def install_service(prog, lib, reg):
    install_rpc(prog, lib, reg); reqs.install(prog, lib, reg)
    reg.mod[Q + 'Formatter::multiply'] = lambda ctx, o, args, e: response(ctx, 'multiply', val(args[0]), val(args[1]))
    reg.mod[CONN + '::raw'] = lambda ctx, o, args, e: (ev(ctx, 'reply', val(args[0])), ctx.fint('link', 'int'))[1]
    def disp(ctx, o, args, e): ev(ctx, 'stale', val(args[1])); return ctx.fint('link', 'int')
    reg.mod[Q + 'RedisDispatcher::dispatch'] = disp
    def last(ctx, o, args, e): n = ctx.fint('applied', 'long'); a = ctx.ghost['app']; ctx.assume(n >= zi(a.get())); ctx.assume(n < LIM); a.set(n); return n
    reg.mod[Q + 'StateMachine::getLastApplied'] = last
    def wait(ctx, o, args, e): b = ctx.fbool('caughtup'); n = last(ctx, o, args, e); ctx.assume(z3.Implies(b, n >= zi(val(args[0])))); ctx.check(not ctx.locks, 'nothing is locked while waiting', 'pre'); return b
    reg.mod[Q + 'StateMachine::waitUntilTargetLastApplied'] = wait
    reg.mod[ST + '::isSnapshotCurrent'] = lambda ctx, o, args, e: ctx.fbool('current')
    def addp(ctx, o, args, e): ev(ctx, 'read', val(args[1])); return ctx.fint('link', 'int')
    reg.mod[CONN + '::addPendingTransaction'] = addp
    reg.mod[Q + 'StateMachine::getDynamicClock'] = lambda ctx, o, args, e: ctx.fint('clock', 'unsigned long')
    def transform(ctx, o, args, e):
        ev(ctx, 'lease', zi(val(args[1]))); hw, ph = F(ctx, val(args[0]), 'hasWrites'), F(ctx, val(args[0]), 'phantom'); v = lib.fresh(ctx, parse(TX_), ctx.uniq('filtered')); args[0].set(v); FieldLV(args[0], 'hasWrites').set(hw); FieldLV(args[0], 'phantom').set(ph); ctx.assume(F(ctx, val(args[0]), 'requests').len() == zi(ctx.ghost['n0']))
    reg.mod[Q + 'LeaseFilter::transform'] = transform
    reg.mod[CONN + '::getQueue'] = lambda ctx, o, args, e: Ptr(None, False, uid=z3.Int('client'), ty=Ty('ptr', sub=parse(PQ_)))
    lib.heap_types = [PQ_]; lib._heapf[PQ_] = [('subscriptions', parse('long'))]
    def append(ctx, o, args, e):
        ok = ctx.fbool('accepted'); ctx.check(held(ctx, 'raftCommand'), 'one write takes a position of the journal at a time', 'pre'); ev(ctx, 'write', zi(val(args[0])), zi(val(args[1])), val(args[2]), val(args[3]).uid, ok); return ok
    reg.mod[WT + '::append'] = append
    def size(ctx, o, args, e): ctx.check(held(ctx, 'raftCommand'), 'the position is chosen under the same lock', 'pre'); return ctx.ghost['size'].get()
    reg.mod[JR + '::getLogSize'] = size
    def again(ctx, o, args, e): ctx.check(not ctx.locks, 'nothing is locked when starting over', 'pre'); ev(ctx, 'again', val(args[1])); return ctx.fint('link', 'int')
    lib.again = again
def install_serv(prog, lib, reg): install_service(prog, lib, reg); reg.recursive = {RD + '::service'}; reg.mod[RD + '::service'] = lib.again
def ssetup(self, ctx, fn):
    this, args = rdsetup(self, ctx, [dict(fn, params=[])][0]); cellg(ctx, 'app', 'long', z3.Int('applied0')); args = []
    for i, p in enumerate(fn['params']):
        t = parse(p['t']); n = str(strip_ref(t)).split('::')[-1]
        if t.kind == 'ptr':
            c = ctx.cell('conn', t.sub, Struct(t.sub, {'raftStaleReads': z3.Bool('stale'), 'raftAuthorization': z3.Bool('authorised')}, origin='conn')); ctx.ghost['conn'] = c; args.append(ctx.cell('arg%d' % i, t, Ptr(c, False, ty=t)))
        else:
            v = ctx.lib.fresh(ctx, strip_ref(t), 'arg%d' % i); args.append(ctx.cell('arg%d' % i, strip_ref(t), v))
            if n == 'Transaction': ctx.ghost['n0'] = F(ctx, v, 'requests').len()
    return this, args
def serv_post(s):
    ctx = s.ctx; tx = s.args[1].get(s.pre); sn = evs(s, 'snapshot'); ends = [x for x in evs(s) if x[0] in ('reply', 'stale', 'read', 'write', 'again')]; wr = evs(s, 'write'); done = [x for x in ends if not (x[0] == 'write' and not ctx.branch(x[5]))]; out = [('the request is passed on or answered exactly once', len(done) == 1), ('one look at the state', len(sn) == 1)]
    if len(done) != 1 or len(sn) != 1: return out
    x = sn[0][1].get(); lead = ieq(F(ctx, x, 'status'), st(s, 'LEADER')); w = F(ctx, tx, 'hasWrites'); d = done[0]; n = z3.If(zb(F(ctx, tx, 'phantom')), zi(F(ctx, tx, 'requests').len()), 1); app = zi(ctx.ghost['app'].get()); mark = zi(F(ctx, x, 'leadershipMarker')); same = lambda v: s.lib.eq(ctx, v, tx)
    if d[0] == 'reply':
        m = made(ctx, d[1]); inner = made(ctx, m[1]) if m and m[0] == 'multiply' else None; none = srv_is_empty(ctx, F(ctx, x, 'leader'))
        out += [('only a follower refuses', Not(lead)), ('each of the requests gets an answer', And(m is not None and m[0] == 'multiply', m is not None and ieq(m[2], n)))]
        if inner is not None and inner[0] == 'moved': out += [('redirected to the leader, if there is one', And(Not(none), srv(ctx, inner[1]) == srv(ctx, F(ctx, x, 'leader'))))]
        else: out += [('unavailable only without a leader', And(inner is not None, none))]
    elif d[0] == 'stale': out += [('only followers with a leader serve old data', And(Not(lead), Not(srv_is_empty(ctx, F(ctx, x, 'leader'))))), ('only if the client asked for it', z3.Bool('stale')), ('writes never bypass the journal', Not(w)), ('the request itself', same(d[1]))]
    elif d[0] == 'read': out += [('only the leader reads', lead), ('writes never bypass the journal', Not(w)), ('a new leader reads only once it has applied what was committed before', app >= mark), ('the request itself', same(d[1]))]
    elif d[0] == 'write':
        ls = evs(s, 'lease'); out += [('only the leader writes', lead), ('only writes enter the journal', w), ('a new leader writes only once it has applied what was committed before', app >= mark), ('at the end of the journal, in the term it leads', And(d[1] == zi(G(s, 'size')), ieq(d[2], F(ctx, x, 'term')))), ('for the queue of this client', ieq(d[4], z3.Int('client'))), ('with the time of leases fixed once', len(ls) == 1)]
    else: out += [('only if the state changed meanwhile or the journal refused', True)]
    return out
SERVU = [spec(RD + '::service', serv_post, setup=ssetup, name='service')]
# ---------------------------------------------------------------- subscriptions
def install_pub(prog, lib, reg): install_service(prog, lib, reg); reg.mod[Q + 'Publisher::dispatch'] = lambda ctx, o, args, e: (ev(ctx, 'publish', val(args[1])), ctx.fint('link', 'int'))[1]
def pub_post(s):
    ctx = s.ctx; sn = evs(s, 'snapshot'); ends = [x for x in evs(s) if x[0] in ('reply', 'publish')]; out = [('answered exactly once', len(ends) == 1 and len(sn) == 1)]
    if len(ends) != 1 or len(sn) != 1: return out
    x = sn[0][1].get(); lead = ieq(F(ctx, x, 'status'), st(s, 'LEADER')); d = ends[0]; none = srv_is_empty(ctx, F(ctx, x, 'leader'))
    if d[0] == 'publish': return out + [('only the leader serves subscriptions', lead), ('the request itself', s.lib.eq(ctx, d[1], s.args[1].get(s.pre)))]
    m = made(ctx, d[1]); return out + [('only a follower refuses', Not(lead)), ('redirected to the leader, if there is one', And(Not(none), srv(ctx, m[1]) == srv(ctx, F(ctx, x, 'leader'))) if m and m[0] == 'moved' else And(m is not None, none))]
PUBU = [spec(RD + '::dispatchPubsub', pub_post, setup=ssetup, name='dispatchPubsub')]
# ---------------------------------------------------------------- replication status
RS, RP = Q + 'ReplicationStatus', Q + 'ReplicaStatus'
def rsetup(self, ctx, fn):
    t0 = parse(RP if fn['q'].startswith(RP + '::') else RS) if 'q' in fn else parse(RS); this = ctx.cell('this', t0, ctx.lib.fresh(ctx, t0, 'status')); args = [ctx.cell('arg%d' % i, strip_ref(parse(p['t'])), ctx.lib.fresh(ctx, strip_ref(parse(p['t'])), 'arg%d' % i)) for i, p in enumerate(fn['params'])]; return this, args
def rsetup_of(t0):
    def f(self, ctx, fn): this = ctx.cell('this', parse(t0), ctx.lib.fresh(ctx, parse(t0), 'status')); return this, [ctx.cell('arg%d' % i, strip_ref(parse(p['t'])), ctx.lib.fresh(ctx, strip_ref(parse(p['t'])), 'arg%d' % i)) for i, p in enumerate(fn['params'])]
    return f
def uptodate(ctx, x, l): return And(F(ctx, x, 'online'), ile(0, F(ctx, x, 'logSize')), ilt(isub(l, F(ctx, x, 'logSize')), 30000))
def reps(s, snap=None): return vec_of(s.ctx, F(s.ctx, s.thislv.get(snap), 'replicas'))
def tgt(ctx, x): return srv(ctx, F(ctx, ctx.lib.unpack(ctx, x, parse(RP)), 'target'))
from .quorumspec import Count, quorum
UPD_ = Count('UPTODATE', lambda ctx, x, l: uptodate(ctx, ctx.lib.unpack(ctx, x, parse(RP)), l))
def upd_cnt(s, k): a, n = reps(s, s.pre); return UPD_(s.ctx, [a], k, (s.argv(0),))
def named_pos(lc): return [l for l in lc.locals() if isinstance(l.get(), (int, z3.ArithRef)) and not isinstance(l.get(), bool) and lc.modified(l)]
def cnt_inv(lc):
    ctx = lc.ctx; s = ctx.ghost['scope']; ls = named_pos(lc); return [('%s counts those among the first %s' % (a, b), lambda a=a, b=b: zi(a.get()) == upd_cnt(s, zi(b.get()))) for a in ls for b in ls if a is not b] + [('%s within' % b, lambda b=b: z3.And(0 <= zi(b.get()), zi(b.get()) <= reps(s, s.pre)[1])) for b in ls]
def none_before(s, k): a, n = reps(s, s.pre); i = z3.Int('?nb'); x = srv(s.ctx, s.argv(0)) if 'ReplicaStatus' not in str(s.args[0].ty) else srv(s.ctx, F(s.ctx, s.argv(0), 'target')); return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(k)), tgt(s.ctx, z3.Select(a, i)) != x), patterns=[z3.Select(a, i)])
def find_inv(lc):
    s = lc.ctx.ghost['scope']; return [('not among the first %s' % l, lambda l=l: none_before(s, l.get())) for l in named_pos(lc)] + [('the replicas stay while searching', lambda: z3.And(reps(s)[1] == reps(s, s.pre)[1], reps(s)[0] == reps(s, s.pre)[0]))]
def missing(s): return none_before(s, reps(s, s.pre)[1])
def rsize(s): return [reps(s)[1] < (1 << 30)] + [ilt(s.argv(i), LIM) for i in range(len(s.args)) if isinstance(s.argv(i), z3.ExprRef) and s.argv(i).sort() == IS] + [ile(-LIM, s.argv(i)) for i in range(len(s.args)) if isinstance(s.argv(i), z3.ExprRef) and s.argv(i).sort() == IS]
def not_found(s, ty): return [('only a fatal error escapes', ty == 'quarkdb::FatalException'), ('and only if there is no such replica', missing(s))]
def is_found(s, ty): return [('only a fatal error escapes', ty == 'quarkdb::FatalException'), ('and only if the replica is there already', Not(missing(s)))]
def removed(s):
    a0, n0 = reps(s, s.pre); a, n = reps(s); i = z3.Int('?ri'); w = z3.Int(s.ctx.uniq('?w')); x = srv(s.ctx, s.argv(0))
    return [('one fewer', n == n0 - 1), ('the first entry of that replica is gone, the others stay', z3.Exists([w], z3.And(w >= 0, w < n0, tgt(s.ctx, z3.Select(a0, w)) == x, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(a, i) == z3.Select(a0, z3.If(i < w, i, i + 1)))))))]
def added(s):
    a0, n0 = reps(s, s.pre); a, n = reps(s); i = z3.Int('?ad'); return [('one more', n == n0 + 1), ('the given one is last', z3.Select(a, n0) == s.lib.pack(s.ctx, s.argv(0), parse(RP))), ('the others stay', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n0), z3.Select(a, i) == z3.Select(a0, i))))]
def of_it(s): a, n = reps(s, s.pre); i = z3.Int('?of'); v = s.lib.pack(s.ctx, s.ret, parse(RP)); return [('an entry of that replica', And(srv(s.ctx, F(s.ctx, s.ret, 'target')) == srv(s.ctx, s.argv(0)), z3.Exists([i], z3.And(i >= 0, i < n, z3.Select(a, i) == v))))]
STU = [spec(RP + '::upToDate', lambda s: [('reachable, with a journal nearly as long', Iff(s.ret, uptodate(s.ctx, s.thislv.get(s.pre), s.argv(0))))], rpre_ := (lambda s: [ilt(s.argv(0), LIM), ile(0, s.argv(0)), ilt(F(s.ctx, s.thislv.get(), 'logSize'), LIM)]), setup=rsetup_of(RP), name='upToDate'),
    spec(RS + '::contains', lambda s: [('exactly if there is such a replica', Iff(s.ret, Not(missing(s))))], rsize, invs=find_inv, setup=rsetup_of(RS), name='status contains'),
    spec(RS + '::removeReplica', removed, rsize, invs=find_inv, setup=rsetup_of(RS), throws=not_found, name='removeReplica'), spec(RS + '::addReplica', added, rsize, invs=find_inv, setup=rsetup_of(RS), throws=is_found, name='addReplica'),
    spec(RS + '::getReplicaStatus', of_it, rsize, invs=find_inv, setup=rsetup_of(RS), throws=not_found, name='getReplicaStatus')]
def install_cnt(prog, lib, reg):
    install_rpc(prog, lib, reg)
    reg.mod[RP + '::upToDate'] = lambda ctx, o, args, e: zb(uptodate(ctx, o.get(), val(args[0])))
def install_quorum(prog, lib, reg):
    install_cnt(prog, lib, reg); reg.mod[RS + '::replicasUpToDate'] = lambda ctx, o, args, e: UPD_(ctx, [vec_of(ctx, F(ctx, o.get(), 'replicas'))[0]], vec_of(ctx, F(ctx, o.get(), 'replicas'))[1], (zi(val(args[0])),))
CNTU = [spec(RS + '::replicasUpToDate', lambda s: [('the count of those reachable with a journal nearly as long', zi(s.ret) == upd_cnt(s, reps(s, s.pre)[1]))], rsize, invs=cnt_inv, setup=rsetup_of(RS), name='replicasUpToDate')]
QUU = [spec(RS + '::quorumUpToDate', lambda s: [('a majority is up to date, or the leader is alone', Iff(s.ret, z3.Or(reps(s, s.pre)[1] == 1, quorum(reps(s, s.pre)[1]) <= upd_cnt(s, reps(s, s.pre)[1]))))], rsize, setup=rsetup_of(RS), name='quorumUpToDate')]
# ---------------------------------------------------------------- may a node be removed?
def install_accept(prog, lib, reg):
    install_rpc(prog, lib, reg); dom = lambda ctx: ctx.ghost['rs'].get()
    def setdom(ctx, x, b): m = dom(ctx); ctx.ghost['rs'].set(Map(m.kt, m.vt, z3.Store(m.dom, x, z3.BoolVal(b)), m.val, m.n))
    reg.mod[Q + 'RaftReplicator::getStatus'] = lambda ctx, o, args, e: Struct(parse(RS), {'replicas': lib.fresh(ctx, parse('std::vector<%s>' % RP), 'replicas')})
    reg.mod[JR + '::getMembership'] = lambda ctx, o, args, e: Struct(parse(Q + 'RaftMembership'), dict(lib.fresh(ctx, parse(Q + 'RaftMembership'), ctx.uniq('membership')).f, nodes=nodes(ctx), observers=observers(ctx)))
    reg.mod[RS + '::contains'] = lambda ctx, o, args, e: z3.Select(dom(ctx).dom, srv(ctx, val(args[0])))
    def rem(ctx, o, args, e): x = srv(ctx, val(args[0])); ctx.check(z3.Select(dom(ctx).dom, x), 'only known replicas are taken out (an unknown one ends the process)', 'pre'); setdom(ctx, x, False)
    reg.mod[RS + '::removeReplica'] = rem
    def add(ctx, o, args, e):
        r = val(args[0]); x = srv(ctx, F(ctx, r, 'target')); ctx.check(z3.Not(z3.Select(dom(ctx).dom, x)), 'only new replicas are added (a known one ends the process)', 'pre'); ctx.check(And(x == mepk(ctx), F(ctx, r, 'online'), ieq(F(ctx, r, 'logSize'), ctx.ghost['size'].get())), 'the leader counts itself as it is', 'pre'); setdom(ctx, x, True)
    reg.mod[RS + '::addReplica'] = add
    reg.mod[RS + '::quorumUpToDate'] = lambda ctx, o, args, e: (lambda b: (ev(ctx, 'quorum', dom(ctx).dom, zi(val(args[0])), b), b)[1])(ctx.fbool('uptodate'))
def observers(ctx):
    if 'observers' not in ctx.ghost: ctx.ghost['observers'] = ctx.lib.fresh(ctx, parse('std::vector<%s>' % SRV), 'observers')
    return ctx.ghost['observers']
NPOS = lambda ctx: z3.Function('NPOS', ctx.lib.sort(SRV), IS)
def OPOS(ctx): return z3.Function('OPOS', ctx.lib.sort(SRV), IS)
def isnode(ctx, x): a, n = vec_of(ctx, nodes(ctx)); return z3.And(NPOS(ctx)(x) >= 0, NPOS(ctx)(x) < n, z3.Select(a, NPOS(ctx)(x)) == x)
def isobs(ctx, x): a, n = vec_of(ctx, observers(ctx)); return z3.And(OPOS(ctx)(x) >= 0, OPOS(ctx)(x) < n, z3.Select(a, OPOS(ctx)(x)) == x)
def acsetup(self, ctx, fn):
    this, args = rdsetup(self, ctx, fn); cellg(ctx, 'rs', 'std::map<%s,bool>' % SRV, ctx.lib.fresh(ctx, parse('std::map<%s,bool>' % SRV), 'known')); ctx.ghost['rs0'] = ctx.ghost['rs'].get().dom; return this, args
def acpre(s):
    ctx = s.ctx; x = z3.Const('?ac', s.lib.sort(SRV)); i = z3.Int('?acp'); a, n = vec_of(ctx, nodes(ctx)); b, m = vec_of(ctx, observers(ctx)); out = [n < (1 << 30), m < (1 << 30), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), NPOS(ctx)(z3.Select(a, i)) == i), patterns=[z3.Select(a, i)]), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), OPOS(ctx)(z3.Select(b, i)) == i), patterns=[z3.Select(b, i)])]
    return out + [z3.ForAll([x], z3.Implies(z3.Select(ctx.ghost['rs0'], x), z3.And(z3.Or(isnode(ctx, x), isobs(ctx, x)), x != mepk(ctx))), patterns=[z3.Select(ctx.ghost['rs0'], x)]), z3.ForAll([x], z3.Not(z3.And(isnode(ctx, x), isobs(ctx, x))), patterns=[NPOS(ctx)(x)]), isnode(ctx, mepk(ctx)), srv(ctx, s.argv(0)) != mepk(ctx)]
def ac_post(s):
    ctx = s.ctx; q = evs(s, 'quorum'); x = z3.Const('?ap', s.lib.sort(SRV)); X = srv(ctx, s.argv(0))
    if len(q) != 1: return [('accepted only after counting who would be up to date', Not(s.ret))]
    return [('accepted only if a majority would be up to date', Iff(s.ret, q[0][3])), ('among exactly the full members that remain', z3.ForAll([x], z3.Select(q[0][1], x) == z3.And(isnode(ctx, x), x != X), patterns=[z3.Select(q[0][1], x)])), ('compared to the journal of the leader', q[0][2] == zi(G(s, 'size')))]
def ac_inv(lc):
    ctx = lc.ctx; s = ctx.ghost['scope']; x = z3.Const('?ai', s.lib.sort(SRV)); D = lambda: ctx.ghost['rs'].get().dom; d0 = ctx.ghost['rs0']; out = []; X = srv(ctx, s.argv(0))
    for l in lc.locals():
        v = l.get(); k = None
        if isinstance(v, Iter) and getattr(v, 'kind', 'vec') in ('vec', None): k = lambda l=l: zi(l.get().pos)
        elif isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool): k = lambda l=l: zi(l.get())
        if k is None or not lc.modified(l): continue
        out += [('of the observers the first %s are out' % l, lambda k=k: z3.ForAll([x], z3.Select(D(), x) == z3.And(z3.Select(d0, x), z3.Not(z3.And(isobs(ctx, x), OPOS(ctx)(x) < k()))), patterns=[z3.Select(D(), x)])), ('of the members the first %s are known' % l, lambda k=k: (lambda i, a: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k(), z3.Select(a, i) != mepk(ctx), z3.Select(a, i) != X), z3.Select(D(), z3.Select(a, i))), patterns=[z3.Select(a, i)]))(z3.Int('?am'), vec_of(ctx, nodes(ctx))[0])),
            ('%s within' % l, lambda k=k: z3.And(k() >= 0))]
    return out
ACU = [spec(RD + '::checkIfNodeRemovalAcceptable', ac_post, acpre, invs=ac_inv, setup=acsetup, name='checkIfNodeRemovalAcceptable')]
