"""contracts of elections and of the director: who runs, who is asked, who leads and for how long (C07)"""
from .quorumspec import *
DI, EL, ST, SNAP = Q + 'RaftDirector', Q + 'RaftElection', Q + 'RaftState', Q + 'RaftStateSnapshot'
def stub(n, **f): return Struct(parse(Q + n), dict(f), origin=n)
def ref(ctx, n, **f): return Ptr(ctx.cell(n, parse(Q + n), stub(n, **f)))
def ev(ctx, *x): ctx.ghost['events'] = ctx.ghost.get('events', []) + [x]
def evs(s, kind=None): return [e for e in s.ctx.ghost.get('events', []) if kind is None or e[0] == kind]
def fresh_snapshot(ctx, name='snapshot'):
    return ctx.cell(ctx.uniq(name), parse(SNAP), ctx.lib.fresh(ctx, parse(SNAP), ctx.uniq(name)))
def enumof(lib, e, n): return int(lib.prog.enums[Q + e]['vals'][n])
def install_elect(prog, lib, reg):
    install(prog, lib, reg)
    def snap(ctx, o, args, e):
        c = fresh_snapshot(ctx); ev(ctx, 'snapshot', c); ctx.ghost['snap'] = ctx.ghost.get('snap') or c; ctx.ghost['moved'] = True; return Ptr(c)
    reg.mod[ST + '::getSnapshot'] = snap
    def current(ctx, o, args, e):
        b = ctx.fbool('current'); ev(ctx, 'current', b); return b
    reg.mod[ST + '::isSnapshotCurrent'] = current
    reg.mod[ST + '::getMyself'] = lambda ctx, o, args, e: myself(ctx)
    reg.mod[ST + '::getNodes'] = lambda ctx, o, args, e: nodes(ctx)
    def obs(ctx, o, args, e):
        b = ctx.fbool('observed'); ev(ctx, 'observed', val(args[0]), b, srv_is_empty(ctx, val(args[1]))); return b
    reg.mod[ST + '::observed'] = obs
    def t1(kind):
        def f(ctx, o, args, e):
            b = ctx.fbool(kind); ev(ctx, kind, val(args[0]), b); return b
        return f
    for k in ('becomeCandidate', 'dropOut', 'ascend'): reg.mod[ST + '::' + k] = t1(k)
    reg.mod[ST + '::wait_until'] = lambda ctx, o, args, e: ev(ctx, 'wait', val(args[0]))
    reg.mod[DI + '::checkBasicSanity'] = lambda ctx, o, args, e: ctx.fbool('sane')
    reg.mod[Q + 'RaftHeartbeatTracker::getLastHeartbeat'] = lambda ctx, o, args, e: ctx.fint('lastHeartbeat', 'long')
    reg.mod[Q + 'RaftJournal::getLogSize'] = lambda ctx, o, args, e: ctx.ghost['logSize']
    def fetch(ctx, o, args, e):
        i = val(args[0]); t = args[1]; ok = ctx.fbool('fetched')
        if ctx.branch(ok): t.set(TERM(zi(i)))
        else: t.set(ctx.fint('garbage', 'long'))
        return mkstatus(ctx, ok)
    reg.mod[Q + 'RaftJournal::fetch'] = fetch
    def election(kind):
        def f(ctx, o, args, e):
            r = ctx.fint(kind, 'int'); ctx.assume(z3.Or(*[r == enumof(lib, 'ElectionOutcome', n) for n in ('kNotElected', 'kElected', 'kVetoed')]))
            ev(ctx, kind, val(args[0]), r); return r
        return f
    reg.mod[EL + '::perform'] = election('perform'); reg.mod[EL + '::performPreVote'] = election('prevote')
TERM = z3.Function('TERM', IS, IS)
def mkstatus(ctx, ok): return ctx.lib.status(z3.If(zb(ok), 0, 1))
def myself(ctx):
    if 'me' not in ctx.ghost: ctx.ghost['me'] = ctx.lib.fresh(ctx, SRV, 'myself')
    return ctx.ghost['me']
def nodes(ctx):
    if 'nodes' not in ctx.ghost: ctx.ghost['nodes'] = ctx.lib.fresh(ctx, parse('std::vector<%s>' % SRV), 'nodes')
    return ctx.ghost['nodes']
DREFS = {'journal': 'RaftJournal', 'stateMachine': 'StateMachine', 'state': 'RaftState', 'heartbeatTracker': 'RaftHeartbeatTracker', 'lease': 'RaftLease', 'commitTracker': 'RaftCommitTracker', 'writeTracker': 'RaftWriteTracker', 'shardDirectory': 'ShardDirectory', 'config': 'RaftConfig', 'replicator': 'RaftReplicator', 'contactDetails': 'RaftContactDetails', 'publisher': 'Publisher'}
def dsetup(self, ctx, fn):
    this = ctx.cell('this', parse(DI), Struct(parse(DI), dict({n: ref(ctx, t) for n, t in DREFS.items()}, lastHeartbeatBeforeVeto=z3.Int('vetoed')), origin='this'))
    ctx.ghost['logSize'] = z3.Int('logSize'); ctx.ghost['events'] = []; args = []
    for i, p in enumerate(fn['params']):
        t = strip_ref(parse(p['t']))
        if 'shared_ptr' in str(t): c = fresh_snapshot(ctx, 'given'); ctx.ghost['given'] = c; args.append(ctx.cell('arg%d' % i, t, Ptr(c)))
        else: args.append(ctx.cell('arg%d' % i, t, ctx.lib.fresh(ctx, t, 'arg%d' % i)))
    return this, args
def ran(s):
    ctx = s.ctx; L = s.lib; E = lambda n: enumof(L, 'ElectionOutcome', n); out = []; v = evs(s)
    sn = [e for e in v if e[0] == 'snapshot']; pv = [e for e in v if e[0] == 'prevote']; pf = [e for e in v if e[0] == 'perform']
    if sn: t1 = iadd(ctx.get_field(sn[0][1].get(), 'term'), 1)
    for e in pv + pf:
        q = e[1]; f = lambda n: ctx.get_field(q, n)
        out += [('the vote asked for is for the next term', ieq(f('term'), t1)), ('it names the last entry held', ieq(f('lastIndex'), isub(ctx.ghost['logSize'], 1))), ('and the term of that entry', ieq(f('lastTerm'), TERM(zi(ctx.ghost['logSize']) - 1)))]
    out += [('at most one election', len(pf) <= 1 and len(pv) <= 1)]
    names = [e[0] for e in v]
    if ctx.branch(s.argv(0)): out += [('no candidacy before the others were asked', all('prevote' in names[:i] for i, n in enumerate(names) if n in ('observed', 'becomeCandidate', 'perform')))]
    if pv and ('observed' in names or 'becomeCandidate' in names or pf): out += [('a candidacy follows a successful round of questions', ieq(pv[0][2], E('kElected'))), ('and an unchanged state', And(*[e[1] for e in v if e[0] == 'current']) if 'current' in names else False)]
    for e in v:
        if e[0] == 'observed': out += [('only the next term is entered', And(ieq(e[1], t1), e[3]))]
        if e[0] in ('becomeCandidate', 'dropOut'): out += [('only in the next term', ieq(e[1], t1))]
    if pf:
        i = names.index('perform'); ob = [e for e in v[:i] if e[0] == 'observed']; be = [e for e in v[:i] if e[0] == 'becomeCandidate']
        out += [('an election is held as a candidate of the next term', And(len(ob) == 1 and len(be) == 1, *([ob[0][2], be[0][2]] if ob and be else []))), ('losing it ends the candidacy', Iff(Not(ieq(pf[0][2], E('kElected'))), 'dropOut' in names[i:]))]
    else: out += [('no candidacy is left behind', Implies(And(*[e[2] for e in v if e[0] == 'becomeCandidate']), 'becomeCandidate' not in names))]
    return out
RUNU = [spec(DI + '::runForLeader', ran, setup=dsetup, name='runForLeader')]
# ---------------------------------------------------------------- leading, as long as the lease lasts
def cellg(ctx, n, t, v): ctx.ghost[n] = ctx.cell('ghost.' + n, parse(t), v); return ctx.ghost[n]
def install_lead(prog, lib, reg):
    install_elect(prog, lib, reg); g = lambda ctx, n: ctx.ghost[n]
    reg.mod[Q + 'StateMachine::getRequestCounter'] = lambda ctx, o, args, e: ctx.cell('counter', parse(Q + 'RequestCounter'), stub('RequestCounter'))
    reg.mod[Q + 'RequestCounter::setReportingStatus'] = lambda ctx, o, args, e: None
    def act(ctx, o, args, e):
        ctx.check(Not(g(ctx, 'active').get()), 'replication starts once', 'pre'); ctx.check(val(args[0]).lv is ctx.ghost['given'] or val(args[0]) == Ptr(ctx.ghost['given']), 'for the term led', 'pre'); g(ctx, 'active').set(True)
    reg.mod[Q + 'RaftReplicator::activate'] = act
    def deact(ctx, o, args, e): g(ctx, 'active').set(False)
    reg.mod[Q + 'RaftReplicator::deactivate'] = deact
    def dl(ctx, o, args, e):
        d = ctx.fint('deadline', 'long'); g(ctx, 'deadline').set(d); return d
    reg.mod[RL + '::getDeadline'] = dl
    def current(ctx, o, args, e):
        b = ctx.fbool('current'); g(ctx, 'current').set(b); return b
    reg.mod[ST + '::isSnapshotCurrent'] = current
    def wait(ctx, o, args, e):
        d = g(ctx, 'deadline').get(); ctx.check(ile(val(args[0]), d), 'sleeps no longer than the lease lasts', 'pre'); ctx.check(And(g(ctx, 'current').get(), ile(ctx.ghost['now'], d)), 'leads on only while the lease lasts', 'pre'); g(ctx, 'deadline').set(-LIM)
    reg.mod[ST + '::wait_until'] = wait
    def obs(ctx, o, args, e):
        ctx.check(And(ieq(val(args[0]), iadd(ctx.get_field(ctx.ghost['given'].get(), 'term'), 1)), srv_is_empty(ctx, val(args[1]))), 'stepping down enters the next term', 'pre'); g(ctx, 'stepped').set(True); return ctx.fbool('observed')
    reg.mod[ST + '::observed'] = obs
    def setg(n):
        def f(ctx, o, args, e): g(ctx, n).set(True)
        return f
    reg.mod[Q + 'RaftWriteTracker::flushQueues'] = setg('flushed'); reg.mod[Q + 'Publisher::purgeListeners'] = setg('purged')
    reg.mod[Q + 'Formatter::err'] = lambda ctx, o, args, e: ctx.lib.fresh(ctx, parse(Q + 'RedisEncodedResponse'), 'err')
FLAGS = ('active', 'current', 'stepped', 'flushed', 'purged')
def lsetup(self, ctx, fn):
    r = dsetup(self, ctx, fn)
    for n in FLAGS: cellg(ctx, n, 'bool', False)
    cellg(ctx, 'deadline', 'long', -LIM); return r
def led_inv(lc):
    g = lc.ctx.ghost; return [('replication runs', lambda: g['active'].get()), ('the node has not stepped down', lambda: Not(g['stepped'].get()))]
def lead_pre(s): ctx = s.ctx; ld = ctx.get_field(ctx.ghost['given'].get(), 'leader'); return []
def led(s):
    g = s.ctx.ghost; return [('leading ends when the state moves on or the lease expires', Or(Not(g['current'].get()), g['stepped'].get())), ('pending requests are refused when the lease expired', Implies(g['stepped'].get(), And(g['flushed'].get(), g['purged'].get()))), ('replication has stopped', Not(g['active'].get()))]
def fatal_only(s, ty): return [('only a fatal error escapes', ty == 'quarkdb::FatalException')]
LEADU = [spec(DI + '::leaderLoop', led, invs=led_inv, setup=lsetup, throws=fatal_only, name='leaderLoop')]
# ---------------------------------------------------------------- asking for votes
TK = Q + 'RaftTalker'; REGY = VR
def among_nodes(ctx, k):
    arr, n = ctx.lib.vec_arr(ctx, nodes(ctx)); POS = z3.Function('POS', ctx.lib.sort(SRV), IS); return z3.And(0 <= POS(k), POS(k) < zi(n), z3.Select(arr, POS(k)) == k)
def mepk(ctx): return ctx.lib.pack(ctx, myself(ctx), SRV)
def FUTSRV(ctx): return z3.Function('FUTURE.server', IS, ctx.lib.sort(SRV))
def electorate(ctx, dom):
    k = z3.Const(ctx.uniq('?ek'), ctx.lib.sort(SRV)); return z3.ForAll([k], z3.Select(dom, k) == z3.And(among_nodes(ctx, k), k != mepk(ctx)), patterns=[z3.Select(dom, k)])
def install_vote(prog, lib, reg):
    install_elect(prog, lib, reg); lib.heap_types = [TK]; lib._heapf[TK] = [('srv', SRV)]
    reg.mod.pop(EL + '::perform'); reg.mod.pop(EL + '::performPreVote')
    reg.mod_ctor[TK + '::RaftTalker'] = lambda ctx, o, args, e: o.set(Struct(parse(TK), {'srv': val(args[0])}, origin='talker'))
    def request(ctx, o, args, e):
        s = ctx.ghost['scope']; q = val(args[0]); f = lambda n: ctx.get_field(q, n); w = s.args[0].get(s.pre); pre = val(args[1]) if len(args) > 1 else False
        ctx.check(And(ieq(f('term'), ctx.get_field(w, 'term')), ieq(f('lastIndex'), ctx.get_field(w, 'lastIndex')), ieq(f('lastTerm'), ctx.get_field(w, 'lastTerm'))), 'the vote asked for is the one given', 'pre')
        ctx.check(ctx.lib.pack(ctx, f('candidate'), SRV) == mepk(ctx), 'for this node', 'pre'); ctx.check(Iff(pre, ctx.ghost['pre']), 'as what it is: question or vote', 'pre')
        u = o.uid; srv = z3.Select(ctx.heap[(TK, 'srv')].get(), u); ctx.check(z3.And(among_nodes(ctx, srv), srv != mepk(ctx)), 'only other full members are asked', 'pre')
        n = ctx.fint('sent', 'long'); ctx.assume(n >= zi(ctx.ghost['now'])); ctx.ghost['now'] = n; fr = ctx.ghost['firstreq']; fr.set(z3.If(zi(fr.get()) < n, zi(fr.get()), n)); x = z3.Int(ctx.uniq('future')); ctx.assume(FUTSRV(ctx)(x) == srv); return x
    lib.extra_methods[(TK, 'requestVote')] = request_at = lambda L, ctx, o, e: request(ctx, o, ctx.bind_args(e), e)
    reg.mod[TK + '::requestVote'] = request
    def rctor(ctx, o, args, e):
        s = ctx.ghost['scope']; ctx.check(And(ieq(val(args[0]), ctx.get_field(s.args[0].get(s.pre), 'term')), Iff(val(args[1]), ctx.ghost['pre'])), 'votes are counted for the term asked', 'pre')
        o.set(stub('RaftVoteRegistry')); ctx.ghost['voters'].set(ctx.lib.default(ctx, parse('std::map<%s,bool>' % SRV)))
    reg.mod_ctor[VR + '::RaftVoteRegistry'] = rctor
    def register(ctx, o, args, e):
        srv = ctx.lib.pack(ctx, val(args[0]), SRV); fut = val(args[1]); v = ctx.ghost['voters']
        ctx.check(FUTSRV(ctx)(zi(fut)) == srv, 'the answer counted for a node is its own', 'pre'); ctx.check(z3.Not(z3.Select(v.get().dom, srv)), 'each node votes once', 'pre')
        m = v.get(); v.set(Map(m.kt, m.vt, z3.Store(m.dom, srv, z3.BoolVal(True)), m.val, iadd(m.n, 1)))
    reg.mod[VR + '::registerVote'] = register
    def outcome(ctx, o, args, e):
        ctx.check(electorate(ctx, ctx.ghost['voters'].get().dom), 'the votes of all other full members are counted, and no others', 'pre')
        r = ctx.fint('outcome', 'int'); ctx.assume(z3.Or(*[r == enumof(lib, 'ElectionOutcome', n) for n in ('kNotElected', 'kElected', 'kVetoed')])); ev(ctx, 'outcome', r); return r
    reg.mod[VR + '::determineOutcome'] = outcome
    reg.mod[VR + '::describeOutcome'] = lambda ctx, o, args, e: Str([ctx.fstr('described')])
    def obs(ctx, o, args, e): ctx.check(ile(val(args[2]), ctx.ghost['firstreq'].get()), 'nodes are deemed in contact from before they were asked', 'pre'); ev(ctx, 'terms')
    reg.mod[VR + '::observeTermsAndLeases'] = obs
    reg.mod[Q + 'RaftContactDetails::getRaftTimeouts'] = lambda ctx, o, args, e: ctx.cell('timeouts', parse(Q + 'RaftTimeouts'), stub('RaftTimeouts'))
    reg.mod[Q + 'RaftTimeouts::getHeartbeatInterval'] = lambda ctx, o, args, e: ctx.fint('interval', 'long')
    reg.mod[Q + 'RaftTimeouts::getLow'] = lambda ctx, o, args, e: ctx.fint('low', 'long')
def psetup(pre):
    def f(self, ctx, fn):
        ctx.ghost['events'] = []; ctx.ghost['pre'] = pre; ctx.ghost['now'] = NOW0; cellg(ctx, 'firstreq', 'long', LIM); cellg(ctx, 'voters', 'std::map<%s,bool>' % SRV, ctx.lib.default(ctx, parse('std::map<%s,bool>' % SRV))); args = []
        for i, p in enumerate(fn['params']):
            t = strip_ref(parse(p['t'])); n = str(t).split('::')[-1]
            args.append(ctx.cell('arg%d' % i, t, stub(n) if n in ('RaftState', 'RaftLease', 'RaftContactDetails') else ctx.lib.fresh(ctx, t, 'arg%d' % i)))
        return None, args
    return f
def members_distinct(s):
    ctx = s.ctx; arr, n = ctx.lib.vec_arr(ctx, nodes(ctx)); j = z3.Int('?dj'); POS = z3.Function('POS', ctx.lib.sort(SRV), IS)
    return [z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(n)), POS(z3.Select(arr, j)) == j), patterns=[z3.Select(arr, j)]), ilt(n, 1 << 30)]
def asked_inv(lc):
    ctx = lc.ctx; out = []; K = ctx.lib.sort(SRV); k = lambda: z3.Const(ctx.uniq('?ak'), K); POS = z3.Function('POS', K, IS); voters = ctx.ghost['voters']
    for l in lc.locals():
        v = l.get()
        if not isinstance(v, Map): continue
        for c in counters(lc):
            if lc.modified(c.l) and lc.modified(l):
                def upto(c=c, l=l): x = k(); return z3.ForAll([x], z3.Select(l.get().dom, x) == z3.And(among_nodes(ctx, x), POS(x) < zi(c.get()), x != mepk(ctx)), patterns=[z3.Select(l.get().dom, x)])
                out += [('%s: the other members among the first %s' % (l, c.l), upto), ('%s within' % c.l, lambda c=c: And(ile(0, c.get()), ile(c.get(), nodes(ctx).len())))]
        def own(l=l): x = k(); m = l.get(); return z3.ForAll([x], z3.Implies(z3.Select(m.dom, x), FUTSRV(ctx)(z3.Select(m.val, x)) == x), patterns=[z3.Select(m.val, x)])
        out.append(('%s: answers belong to their nodes' % l, own))
    for c in lc.ints(): out.append(('asked after %s' % c, lambda c=c: ile(c.get(), ctx.ghost['firstreq'].get())))
    for c in mapcounters(lc):
        v = c.l.get()
        if isinstance(v, Iter) and v.kind == 'map' and lc.modified(c.l):
            def counted(c=c):
                x = k(); en = c.l.get().extra[1]; inv = z3.Array(str(en) + '.inv', K, IS); dom = c.l.get().clv.get().dom
                return z3.ForAll([x], z3.Select(voters.get().dom, x) == z3.And(z3.Select(dom, x), z3.Select(inv, x) < zi(c.get())), patterns=[z3.Select(voters.get().dom, x)])
            def within(c=c): return And(ile(0, c.get()), ile(c.get(), c.l.get().clv.get().n))
            out += [('the first %s are counted' % c.l, counted), ('%s within the map' % c.l, within)]
    return out
def performed(pre):
    def post(s):
        ctx = s.ctx; L = s.lib; E = lambda n: enumof(L, 'ElectionOutcome', n); v = evs(s); oc = [e for e in v if e[0] == 'outcome']; w = s.args[0].get(s.pre); asc = [e for e in v if e[0] == 'ascend']
        if pre: return [('the outcome is that of the votes', And(len(oc) == 1, ieq(s.ret, oc[0][1])) if oc else False), ('nothing is entered', not asc)]
        out = [('elected only by the votes, and then leader', Implies(ieq(s.ret, E('kElected')), And(*[ieq(e[1], E('kElected')) for e in oc] + [e[2] for e in asc]) if oc and asc else False)), ('leads at most one term', len(asc) <= 1)]
        out += [('leads only if elected', Implies(True, ieq(oc[0][1], E('kElected'))) if oc else False) for e in asc] + [('leads the term asked for', ieq(e[1], ctx.get_field(w, 'term'))) for e in asc]
        sn = [e for e in v if e[0] == 'snapshot']
        if oc: out += [('only a candidate of that term asks', And(ieq(ctx.get_field(sn[0][1].get(), 'term'), ctx.get_field(w, 'term')), srv_is_empty(ctx, ctx.get_field(sn[0][1].get(), 'leader')), ieq(ctx.get_field(sn[0][1].get(), 'status'), enumof(L, 'RaftStatus', 'CANDIDATE'))) if sn else False), ('a veto is passed on', Implies(ieq(oc[0][1], E('kVetoed')), ieq(s.ret, E('kVetoed'))))]
        return out
    return post
PERFU = [spec(EL + '::perform', performed(False), members_distinct, invs=asked_inv, setup=psetup(False), throws=fatal_only, name='perform'), spec(EL + '::performPreVote', performed(True), members_distinct, invs=asked_inv, setup=psetup(True), throws=fatal_only, name='performPreVote')]
# ---------------------------------------------------------------- the answer of one node
def install_await(prog, lib, reg):
    install_votes(prog, lib, reg); em = lib.extra_methods
    def note(kind): return lambda ctx, o, args, e: ctx.ghost.__setitem__('reg', ctx.ghost['reg'] + [(kind, val(args[0]), val(args[1]) if len(args) > 1 else None)])
    reg.mod[VR + '::registerNetworkError'] = note('net'); reg.mod[VR + '::registerParseError'] = note('parse'); reg.mod[VR + '::registerVote'] = note('vote')
    def wait(L, ctx, o, e):
        ctx.check(ieq(ctx.ev(e['args'][0]), ctx.ghost['scope'].argv(2)), 'waits until the deadline', 'pre'); r = ctx.fint('ready', 'int'); ctx.ghost['ready'] = ieq(r, 0); ctx.assume(z3.And(r >= 0, r <= 2)); return r
    def get(L, ctx, o, e):
        ctx.check(ctx.ghost.get('ready', False), 'no answer is awaited forever', 'pre'); nul = ctx.fbool('null'); ctx.ghost['null'] = nul; return Ptr(ctx.cell('reply', parse('redisReply'), stub('reply')), nul)
    for c in ('std::future', 'std::__basic_future', 'std::_Base_future', 'std::__basic_future_base'): em[(c, 'wait_until')] = wait; em[(c, 'get')] = get
    def voteresp(ctx, o, args, e):
        ok = ctx.fbool('parsed'); t = parse(Q + 'RaftVoteResponse'); v = lib.fresh(ctx, t, 'response'); ctx.ghost['parsed'] = (ok, v)
        if ctx.branch(ok): args[1].set(v)
        return ok
    reg.mod[Q + 'RaftParser::voteResponse'] = voteresp; reg.mod['qclient::describeRedisReply'] = lambda ctx, o, args, e: Str([ctx.fstr('described')])
def awaited(s):
    ctx = s.ctx; r = ctx.ghost['reg']; out = [('each node counts once', len(r) == 1)]
    if len(r) != 1: return out
    kind, srv, v = r[0]; ready = ctx.ghost.get('ready', False); nul = ctx.ghost.get('null', True); ok, resp = ctx.ghost.get('parsed', (False, None))
    out += [('as that node', ctx.lib.pack(ctx, srv, SRV) == ctx.lib.pack(ctx, s.argv(0), SRV)), ('as a vote exactly if an answer that parses came in time', Iff(kind == 'vote', And(ready, Not(nul), ok))), ('as not understood exactly if the answer does not parse', Iff(kind == 'parse', And(ready, Not(nul), Not(ok))))]
    if kind == 'vote' and resp is not None: out += [('the vote given', And(ieq(ctx.get_field(v, 'vote'), ctx.get_field(resp, 'vote')), ieq(ctx.get_field(v, 'term'), ctx.get_field(resp, 'term'))))]
    return out
def awsetup(self, ctx, fn): this, args = setup()(self, ctx, fn); ctx.ghost['reg'] = []; return this, args
AWAITU = [spec(VR + '::registerVote', awaited, setup=awsetup, nparams=3, name='awaitVote')]
