"""contracts of replication towards one node: what is counted as held by it, and from when it counts as in contact (C07)"""
from .electspec import *
RT, AE, HBR = Q + 'RaftReplicaTracker', Q + 'RaftAppendEntriesResponse', Q + 'RaftHeartbeatResponse'
PR = RT + '::PendingResponse'
F_SENT, F_FROM, F_SIZE, F_TERM = [z3.Function('REQUEST.' + n, IS, IS) for n in ('sent', 'from', 'size', 'lastterm')]
def bounded(ctx, n): x = ctx.fint(n, 'long'); ctx.assume(z3.And(x >= 0, x < LIM)); return x
def stamp(ctx):
    n = ctx.fint('t', 'long'); ctx.assume(n >= zi(ctx.ghost['now'])); ctx.assume(n < LIM); ctx.ghost['now'] = n; return n
def snapterm(ctx): return ctx.ghost['snapterm']
def install_repl(prog, lib, reg):
    install_elect(prog, lib, reg); g = lambda ctx, n: ctx.ghost[n]
    reg.mod_ctor[TK + '::RaftTalker'] = lambda ctx, o, args, e: o.set(stub('RaftTalker'))
    for n, v in (('RaftContactDetails::getRaftTimeouts', lambda ctx: ctx.cell('timeouts', parse(Q + 'RaftTimeouts'), stub('RaftTimeouts'))), ('RaftTimeouts::getHeartbeatInterval', lambda ctx: ctx.fint('interval', 'long')), ('RaftServer::toString', lambda ctx: Str([ctx.fstr('srv')])),
                 ('RaftConfig::getResilveringEnabled', lambda ctx: ctx.fbool('resilvering')), ('RaftTrimmingBlock::lift', lambda ctx: None), ('RaftTrimmingBlock::enforce', lambda ctx: None), ('RaftState::wait', lambda ctx: None),
                 ('RaftJournal::waitForUpdates', lambda ctx: ctx.fbool('updated')), ('RaftJournal::getLogSize', lambda ctx: bounded(ctx, 'logSize')), ('RaftJournal::getLogStart', lambda ctx: ctx.fint('logStart', 'long')), ('RaftReplicaTracker::updateStatus', lambda ctx: None), ('RaftReplicaTracker::triggerResilvering', lambda ctx: None),
                 ('RaftReplicaTracker::streamUpdates', lambda ctx: ctx.fint('next', 'long')), ('OnlineTracker::seenOnline', lambda ctx: None), ('OnlineTracker::seenOffline', lambda ctx: None), ('OnlineTracker::isOnline', lambda ctx: ctx.fbool('online')), ('OnlineTracker::hasBeenOfflineForLong', lambda ctx: ctx.fbool('long')),
                 ('ThreadAssistant::terminationRequested', lambda ctx: ctx.fbool('stop')), ('RaftTalker::getNodeVersion', lambda ctx: Str([ctx.fstr('version')])), ('AssistedThread::setName', lambda ctx: None)):
        cls, meth = n.rsplit('::', 1); reg.mod[Q + n] = lambda ctx, o, args, e, v=v: v(ctx)
    reg.mod['OnlineTracker::seenOnline'] = lambda ctx, o, args, e: g(ctx, 'online').set(True)
    reg.mod['OnlineTracker::seenOffline'] = lambda ctx, o, args, e: g(ctx, 'online').set(False)
    reg.mod['OnlineTracker::isOnline'] = lambda ctx, o, args, e: g(ctx, 'online').get()
    reg.mod['OnlineTracker::hasBeenOfflineForLong'] = lambda ctx, o, args, e: ctx.fbool('long')
    reg.mod_ctor['OnlineTracker::OnlineTracker'] = lambda ctx, o, args, e: o.set(stub('OnlineTracker'))
    reg.mod[ST + '::observed'] = lambda ctx, o, args, e: ctx.check(srv_is_empty(ctx, val(args[1])), 'no leader is named', 'pre') or ctx.fbool('observed')
    reg.mod[CT + '::getHandler'] = lambda ctx, o, args, e: mine(ctx, args, ctx.cell('match', parse(MI), Struct(parse(MI), {}, origin='match')))
    reg.mod[RL + '::getHandler'] = lambda ctx, o, args, e: mine(ctx, args, ctx.cell('contact', parse(LC), Struct(parse(LC), {}, origin='contact')))
    def mine(ctx, args, c): ctx.check(lib.pack(ctx, val(args[0]), SRV) == lib.pack(ctx, gf(ctx.ghost['this'], 'target'), SRV), 'progress is recorded for the node replicated to', 'pre'); return c
    def send(ctx, o, args, e):
        f = ctx.fint('request', 'long'); t = ctx.fint('contact', 'long'); n = ctx.fint('payload', 'long'); lt = ctx.fint('lastterm', 'long'); ok = ctx.fbool('sent')
        ctx.assume(z3.And(t >= zi(ctx.ghost['now']), t < LIM)); ctx.ghost['now'] = t; ctx.assume(z3.And(f >= 0, t <= F_SENT(f), F_FROM(f) == zi(val(args[1])), F_SIZE(f) == n, F_TERM(f) == lt, n >= 0))
        if ctx.branch(ok):
            for a, x in zip(args[3:], (f, t, n, lt)): a.set(x)
        return ok
    reg.mod[RT + '::sendPayload'] = send
    def reply(kind, fields):
        def f(ctx, o, args, e):
            fut = val(args[0]); r = args[1]; R = parse(kind); v = lib.fresh(ctx, R, ctx.uniq('reply')); ok = ctx.fbool('answered')
            if ctx.branch(ok): r.set(v); g(ctx, 'answered').set(zi(fut)); g(ctx, 'answer').set(v)
            else: g(ctx, 'answered').set(-1)
            if kind == HBR: return ok
            x = ctx.fint('reception', 'int'); ctx.assume(z3.And(Iff(ok, x == 0), x >= 0, x <= 2)); return x
        return f
    reg.mod[Q + 'retrieve_response'] = reg.mod['retrieve_response'] = reply(AE, 0); reg.mod[Q + 'retrieve_heartbeat_reply'] = reg.mod['retrieve_heartbeat_reply'] = reply(HBR, 0)
    lib.extra_methods[('std::unique_ptr', 'reset')] = lambda L, ctx, o, e: None
    def update(ctx, o, args, e):
        i = val(args[0]); f = g(ctx, 'answered').get(); a = g(ctx, 'answer').get(); A = lambda n: ctx.get_field(a, n)
        ctx.check(And(ile(0, f), A('outcome')), 'only what the node acknowledged counts', 'pre'); ctx.check(ieq(i, isub(A('logSize'), 1)), 'up to the entry it acknowledged', 'pre')
        ctx.check(F_TERM(zi(f)) == zi(snapterm(ctx)), 'only once an entry of the current term was replicated', 'pre'); ctx.check(ile(A('term'), snapterm(ctx)), 'never after a newer term was seen', 'pre')
    reg.mod[MI + '::update'] = update
    def beat(ctx, o, args, e):
        f = g(ctx, 'answered').get(); a = g(ctx, 'answer').get(); A = lambda n: ctx.get_field(a, n)
        ctx.check(ile(0, f), 'only a node that answered counts as in contact', 'pre'); ctx.check(zi(val(args[0])) <= F_SENT(zi(f)), 'from no later than the request it answered was sent', 'pre'); ctx.check(ile(A('term'), snapterm(ctx)), 'never after a newer term was seen', 'pre')
        if a.ty.name == HBR: ctx.check(A('nodeRecognizedAsLeader'), 'only a node that follows this leader counts', 'pre')
    reg.mod[LC + '::heartbeat'] = beat
RREFS = {'journal': 'RaftJournal', 'state': 'RaftState', 'lease': 'RaftLease', 'commitTracker': 'RaftCommitTracker', 'trimmer': 'RaftTrimmer', 'shardDirectory': 'ShardDirectory', 'config': 'RaftConfig', 'contactDetails': 'RaftContactDetails', 'matchIndex': 'RaftMatchIndexTracker', 'lastContact': 'RaftLastContact'}
def rsetup(kind=AE):
    def f(self, ctx, fn):
        L = ctx.lib; sn = fresh_snapshot(ctx, 'snap'); ctx.ghost['snapterm'] = ctx.get_field(sn.get(), 'term'); ctx.ghost['now'] = NOW0; ctx.ghost['events'] = []; ctx.ghost['logSize'] = z3.Int('logSize')
        d = {n: ref(ctx, t) for n, t in RREFS.items()}; d.update(target=L.fresh(ctx, SRV, 'target'), snapshot=Ptr(sn), shutdown=z3.Bool('shutdown'), running=True, streamingUpdates=z3.Bool('streaming'))
        FT = dict(L.rec_fields(parse(RT)))
        for n in ('inFlight', 'trimmingBlock', 'statusNodeVersion'): d[n] = L.fresh(ctx, FT['inFlight'], 'inFlight') if n == 'inFlight' else Struct(FT[n], {}, origin=n)
        this = ctx.cell('this', parse(RT), Struct(parse(RT), d, origin='this')); ctx.ghost['this'] = this
        cellg(ctx, 'online', 'bool', False); cellg(ctx, 'answered', 'long', -1); cellg(ctx, 'answer', kind, L.fresh(ctx, parse(kind), 'answer0')); args = []
        for i, p in enumerate(fn['params']):
            t = strip_ref(parse(p['t'])); n = str(t).split('::')[-1]
            args.append(ctx.cell('arg%d' % i, t, stub(n) if n in ('RaftTalker', 'ThreadAssistant') else L.fresh(ctx, t, 'arg%d' % i)))
        return this, args
    return f
IDENT = [0]
def queued(ctx, x):
    """what is queued describes the request it waits for"""
    F = lambda n: zi(ctx.get_field(x, n)); f = F('fut'); return z3.And(f >= 0, F('sent') <= F_SENT(f), F('pushedFrom') == F_FROM(f), F('payloadSize') == F_SIZE(f), F('lastEntryTerm') == F_TERM(f))
def install_stream(prog, lib, reg):
    install_repl(prog, lib, reg); T = parse(PR); em = lib.extra_methods
    def front(L, ctx, o, e):
        x = L.fresh(ctx, T, ctx.uniq('pending')); ctx.assume(queued(ctx, x)); return ctx.cell('front', T, x)
    em[('std::queue', 'front')] = front; em[('std::queue', 'pop')] = lambda L, ctx, o, e: None
    em[('std::queue', 'size')] = lambda L, ctx, o, e: nonneg(ctx, 'queued')
    def emplace(L, ctx, o, e):
        a = [val(x) for x in ctx.bind_args(e)]
        x = Struct(T, dict(zip(('fut', 'sent', 'pushedFrom', 'payloadSize', 'lastEntryTerm'), a))); ctx.check(queued(ctx, x), 'what is queued describes the request it waits for', 'pre'); return None
    em[('std::queue', 'emplace')] = emplace
    reg.mod_ctor['ConditionVariableNotifier::ConditionVariableNotifier'] = lambda ctx, o, args, e: o.set(stub('ConditionVariableNotifier'))
    reg.mod.pop(RT + '::streamUpdates')
def nonneg(ctx, n): x = ctx.fint(n, 'long'); ctx.assume(x >= 0); return x
def beats(prog, lib, reg):
    install_repl(prog, lib, reg)
    def hb(ctx, o, args, e):
        ctx.check(ieq(val(args[0]), snapterm(ctx)), 'for the term led', 'pre'); ctx.check(lib.pack(ctx, val(args[1]), SRV) == mepk(ctx), 'by this node', 'pre'); f = nonneg(ctx, 'request'); t = stamp(ctx); ctx.assume(F_SENT(f) == t); return f
    reg.mod[TK + '::heartbeat'] = hb
# ---------------------------------------------------------------- what is sent
def install_send(prog, lib, reg):
    install_repl(prog, lib, reg); reg.mod.pop(RT + '::sendPayload')
    reg.mod[Q + 'RaftJournal::getCommitIndex'] = lambda ctx, o, args, e: ctx.ghost.__setitem__('ci', (ctx.fint('commit', 'long'), bool(ctx.ghost.get('built')))) or ctx.ghost['ci'][0]
    def build(ctx, o, args, e):
        ctx.ghost['built'] = True; ok = ctx.fbool('built'); v = lib.fresh(ctx, args[2].ty, 'entries'); lt = ctx.fint('entryterm', 'long'); ctx.ghost['payload'] = (val(args[0]), v, lt)
        if ctx.branch(ok): args[2].set(v); args[3].set(lt)
        return ok
    reg.mod[RT + '::buildPayload'] = build
    def append(ctx, o, args, e):
        a = [val(x) for x in args]; s = ctx.ghost['scope']; nx = s.argv(1); first, v, lt = ctx.ghost.get('payload', (None, None, None))
        f = nonneg(ctx, 'request'); t = stamp(ctx); ctx.assume(z3.And(F_SENT(f) == t, F_FROM(f) == zi(a[2]) + 1, F_SIZE(f) == zi(a[5].len()), F_TERM(f) == zi(lt) if lt is not None else True)); ctx.ghost['future'] = f
        ctx.check(And(ieq(a[0], snapterm(ctx)), lib.pack(ctx, a[1], SRV) == mepk(ctx)), 'sent for the term led, by this node', 'pre'); ctx.check(And(ieq(a[2], isub(nx, 1)), ieq(a[3], TERM(zi(nx) - 1))), 'naming the entry before the first one and its term', 'pre')
        ctx.check(ile(a[3], snapterm(ctx)), 'never after an entry of a newer term', 'pre')
        ci = ctx.ghost.get('ci'); ctx.check(And(ci is not None and not ci[1], ieq(a[4], ci[0]) if ci else False), 'naming the commit index known before the entries were read', 'pre'); ctx.check(And(ieq(first, nx), ieq(a[5].len(), v.len())) if v is not None else False, 'with the entries from the one asked for', 'pre')
        return f
    reg.mod[TK + '::appendEntries'] = append
def sent(s):
    ctx = s.ctx; f = ctx.ghost.get('future')
    if f is None: return [('nothing was sent', Not(s.ret))]
    A = lambda i: s.args[i].get()
    return [('sent', s.ret), ('the request is handed on', ieq(A(3), f)), ('with a time before it was sent', zi(A(4)) <= F_SENT(f)), ('its size', ieq(A(5), F_SIZE(f))), ('its first entry', ieq(s.argv(1), F_FROM(f))), ('and the term of its last entry', ieq(A(6), F_TERM(f)))]
# ---------------------------------------------------------------- who counts
def mine_at(ctx, s):
    L = ctx.lib; a, n = L.vec_arr(ctx, s.args[0].get(s.pre)); me = L.pack(ctx, s.args[1].get(s.pre), SRV); key = ('mine', me.get_id())
    if key not in ctx.memo:
        P = z3.Function('POS', L.sort(SRV), IS)(me); p, inn = z3.Int(ctx.uniq('?pos')), z3.Bool(ctx.uniq('?in')); ctx.assume(p == P); ctx.assume(inn == z3.And(0 <= p, p < zi(n), z3.Select(a, p) == me)); ctx.memo[key] = (p, inn, me)
    p, inn, _ = ctx.memo[key]; return a, n, me, p, inn
def skips(ctx, s, vec, k):
    """the first k nodes, in order, without this node"""
    a, n, me, p, inn = mine_at(ctx, s); b, m = ctx.lib.vec_arr(ctx, vec); gone = z3.And(inn, p < zi(k)); i = z3.Int(ctx.uniq('?wi'))
    return z3.And(zi(m) == zi(k) - z3.If(gone, 1, 0), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zi(m)), z3.Select(b, i) == z3.If(z3.And(inn, i >= p), z3.Select(a, i + 1), z3.Select(a, i))), patterns=[z3.Select(b, i)]))
def without_me(s):
    s.ctx.branch(mine_at(s.ctx, s)[4]); return [('this node was a member, once', mine_at(s.ctx, s)[4]), ('all others, in order, and nothing else', skips(s.ctx, s, s.ret, s.argv(0).len()))]
def without_inv(lc):
    ctx = lc.ctx; L = ctx.lib; s = ctx.ghost['scope']; n = s.args[0].get(s.pre).len(); out = []
    for c in counters(lc):
        if not lc.modified(c.l): continue
        out.append(('%s within' % c.l, lambda c=c: And(ile(0, c.get()), ile(c.get(), n))))
        for l in lc.locals():
            if isinstance(l.get(), Vec) and lc.modified(l): out.append(('%s: all but this node, %s' % (l, c.l), lambda l=l, c=c: skips(ctx, s, l.get(), c.get())))
        for d in lc.ints():
            if lc.modified(d) and repr(d) != repr(c.l):
                def cnt(d=d, c=c): a, n, me, p, inn = mine_at(ctx, s); return zi(d.get()) == z3.If(z3.And(inn, p < zi(c.get())), 1, 0)
                out.append(('%s counts this node by %s' % (d, c.l), cnt))
    return out
def install_conf(prog, lib, reg):
    install_repl(prog, lib, reg); VT = parse('std::vector<%s>' % SRV); X = z3.Function('WITHOUT.data', lib.sort(VT), lib.sort(SRV), z3.ArraySort(IS, lib.sort(SRV))); N = z3.Function('WITHOUT.size', lib.sort(VT), lib.sort(SRV), IS)
    def members(ctx, o, args, e): m = lib.fresh(ctx, parse(Q + 'RaftMembership'), 'membership'); ctx.ghost['membership'] = m; return m
    reg.mod[Q + 'RaftJournal::getMembership'] = members
    def others(ctx, o, args, e):
        ctx.check(And(vsame(ctx, val(args[0]), ctx.get_field(ctx.ghost['membership'], 'nodes')), lib.pack(ctx, val(args[1]), SRV) == mepk(ctx)), 'the full members other than this node', 'pre'); v = lib.fresh(ctx, VT, 'others'); ctx.ghost['others'] = v; return v
    reg.mod[Q + 'all_servers_except_myself'] = reg.mod['all_servers_except_myself'] = others
    def targets(kind):
        def f(ctx, o, args, e):
            if kind == 'targets' and 'replicator' in ctx.ghost: ctx.check(Not(zb(gf(ctx.ghost['replicator'], 'snapshot').null)), 'replication needs the term it is for', 'pre')
            ctx.ghost['conf'] = ctx.ghost.get('conf', []) + [(kind, val(args[0]))]
        return f
    reg.mod[CT + '::updateTargets'] = targets('commit'); reg.mod[RL + '::updateTargets'] = targets('lease'); reg.mod[Q + 'RaftReplicator::setTargets'] = targets('targets')
def vsame(ctx, a, b):
    x, n = ctx.lib.vec_arr(ctx, a); y, m = ctx.lib.vec_arr(ctx, b); i = z3.Int(ctx.uniq('?vs')); return z3.And(zi(n) == zi(m), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zi(n)), z3.Select(x, i) == z3.Select(y, i)), patterns=[z3.Select(x, i)]))
def csetup(self, ctx, fn):
    L = ctx.lib; d = {n: ref(ctx, RREFS[n]) for n in ('journal', 'state', 'lease', 'commitTracker', 'trimmer', 'shardDirectory', 'config', 'contactDetails')}
    ctx.ghost['events'] = []; me = ctx.cell('this', parse(Q + 'RaftReplicator'), Struct(parse(Q + 'RaftReplicator'), d, origin='this')); ctx.ghost['replicator'] = me; return me, self.mkargs(ctx, fn)
def configured(s):
    ctx = s.ctx
    if not ctx.ghost.get('conf'): return [('left alone only while nothing is replicated', gf(s.thislv, 'snapshot').null)]
    c = dict(ctx.ghost.get('conf', [])); o = ctx.ghost.get('others')
    if o is None or set(c) != {'commit', 'lease', 'targets'}: return [('commitment, lease and replication are set up', False)]
    ob = ctx.get_field(ctx.ghost['membership'], 'observers'); t, n = ctx.lib.vec_arr(ctx, c['targets']); a, m = ctx.lib.vec_arr(ctx, o); b, k = ctx.lib.vec_arr(ctx, ob); i = z3.Int('?cf')
    return [('only full members count for commitment', vsame(ctx, c['commit'], o)), ('and for the lease', vsame(ctx, c['lease'], o)), ('full members and observers are replicated to', z3.And(zi(n) == zi(m) + zi(k), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zi(n)), z3.Select(t, i) == z3.If(i < zi(m), z3.Select(a, i), z3.Select(b, i - zi(m)))), patterns=[z3.Select(t, i)])))]
def conf_inv(lc):
    ctx = lc.ctx; out = []
    o = ctx.ghost.get('others'); ob = ctx.get_field(ctx.ghost['membership'], 'observers')
    for c in counters(lc):
        if not lc.modified(c.l): continue
        for l in lc.locals():
            if not isinstance(l.get(), Vec) or not lc.modified(l): continue
            def grown(l=l, c=c):
                t, n = ctx.lib.vec_arr(ctx, l.get()); a, m = ctx.lib.vec_arr(ctx, o); b, k = ctx.lib.vec_arr(ctx, ob); i = z3.Int(ctx.uniq('?cf'))
                return z3.And(zi(n) == zi(m) + zi(c.get()), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zi(n)), z3.Select(t, i) == z3.If(i < zi(m), z3.Select(a, i), z3.Select(b, i - zi(m)))), patterns=[z3.Select(t, i)]))
            out += [('%s: the members and the first %s observers' % (l, c.l), grown), ('within', lambda c=c: And(ile(0, c.get()), ile(c.get(), ob.len())))]
    return out
REPLU = [spec(RT + '::main', lambda s: [('replication has ended', Not(gf(s.thislv, 'running')))], setup=rsetup(), throws=fatal_only, name='replicate')]
STREAMU = [spec(RT + '::monitorAckReception', lambda s: [('streaming has ended', Not(gf(s.thislv, 'streamingUpdates')))], setup=rsetup(), name='monitorAckReception'), spec(RT + '::streamUpdates', lambda s: [], setup=rsetup(), name='streamUpdates')]
BEATU = [spec(RT + '::sendHeartbeats', lambda s: [], setup=rsetup(HBR), name='sendHeartbeats')]
SENDU = [spec(RT + '::sendPayload', sent, setup=rsetup(), name='sendPayload')]
CONFU = [spec(Q + 'RaftReplicator::reconfigure', configured, invs=conf_inv, setup=csetup, throws=fatal_only, name='reconfigure')]
WHOU = [spec('all_servers_except_myself', without_me, distinct, invs=without_inv, throws=fatal_only, name='othersThanMyself')]
# ---------------------------------------------------------------- building what is sent
ENTRY, ETERM = z3.Function('JOURNAL.entry', IS, SS), z3.Function('ENTRY.term', SS, IS)
IT = Q + 'RaftJournal::Iterator'
def install_build(prog, lib, reg):
    install_repl(prog, lib, reg)
    def it(ctx, o, args, e):
        cellg(ctx, 'itpos', 'long', val(args[0])); return stub('RaftJournal::Iterator')
    reg.mod[Q + 'RaftJournal::getIterator'] = it
    reg.mod[IT + '::valid'] = lambda ctx, o, args, e: ctx.fbool('valid')
    reg.mod[IT + '::next'] = lambda ctx, o, args, e: ctx.ghost['itpos'].set(iadd(ctx.ghost['itpos'].get(), 1))
    def cur(ctx, o, args, e): args[0].set(Str([ENTRY(zi(ctx.ghost['itpos'].get()))]))
    reg.mod[IT + '::current'] = cur
    def ft(ctx, o, args, e): return ETERM(ctx.lib.as_str(ctx, val(args[0])).term())
    reg.mod[Q + 'RaftEntry::fetchTerm'] = ft
def filled(ctx, s, k):
    v, n = ctx.lib.vec_arr(ctx, s.args[2].get()); i = z3.Int(ctx.uniq('?bi')); f = zi(s.args[0].get(s.pre))
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zi(k)), z3.And(z3.Select(v, i) == ENTRY(f + i), ETERM(ENTRY(f + i)) <= zi(snapterm(ctx)))), patterns=[z3.Select(v, i)])
def build_inv(lc):
    ctx = lc.ctx; s = ctx.ghost['scope']; f = s.args[0].get(s.pre); out = []
    for c in lc.ints():
        if not lc.modified(c): continue
        out += [('%s: filled so far' % c, lambda c=c: filled(ctx, s, isub(c.get(), f))), ('%s from the first' % c, lambda c=c: ile(f, c.get())), ('the iterator is at %s' % c, lambda c=c: ieq(ctx.ghost['itpos'].get(), c.get())), ('%s ends with the entries' % c, lambda c=c: ile(isub(c.get(), f), s.args[2].get().len()))]
        for d in lc.ints():
            if lc.modified(d) and repr(d) != repr(c): out.append(('%s is the term before %s' % (d, c), lambda c=c, d=d: z3.Implies(zi(c.get()) > zi(f), zi(d.get()) == ETERM(ENTRY(zi(c.get()) - 1)))))
    out.append(('size kept', lambda: ieq(s.args[2].get().len(), s.args[2].get(lc.entry).len())))
    return out
def built(s):
    ctx = s.ctx; n = s.args[2].get().len(); f = s.argv(0)
    if not ctx.branch(s.ret): return [('nothing to say', True)]
    return [('no more than allowed', ile(n, s.argv(1))), ('the entries from the first one on, none of a newer term', filled(ctx, s, n)), ('the term of the last one', Implies(ilt(0, n), ieq(s.args[3].get(), ETERM(ENTRY(zi(iadd(f, isub(n, 1))))))))]
BUILDU = [spec(RT + '::buildPayload', built, lambda s: [ile(0, s.argv(1)), ile(0, s.argv(0)), ilt(s.argv(0), LIM)], invs=build_inv, setup=rsetup(), name='buildPayload')]
