"""contracts of the requests of other nodes and of administrators (C08)"""
from .gatespec import *
CMDNAMES = ('RAFT_HEARTBEAT', 'RAFT_APPEND_ENTRIES', 'RAFT_REQUEST_PRE_VOTE', 'RAFT_REQUEST_VOTE')
OPS = {'addObserver': 'RAFT_ADD_OBSERVER', 'removeMember': 'RAFT_REMOVE_MEMBER', 'promoteObserver': 'RAFT_PROMOTE_OBSERVER', 'demoteToObserver': 'RAFT_DEMOTE_TO_OBSERVER'}
def install_admin(prog, lib, reg):
    install_service(prog, lib, reg); link = lambda ctx: ctx.fint('link', 'int')
    def reply(kind): return lambda ctx, o, args, e: (ev(ctx, 'reply', kind, val(args[0]) if args else None), link(ctx))[1]
    for n in ('raw', 'err', 'errArgs', 'ok', 'null', 'integer', 'string', 'fromStatus', 'vector', 'statusVector', 'status'): reg.mod[CONN + '::' + n] = reply(n)
    reg.mod[CONN + '::moved'] = lambda ctx, o, args, e: (ev(ctx, 'reply', 'moved', val(args[1])), link(ctx))[1]
    for n in ('raftEntries', 'raftEntry', 'journalScan', 'fromStatus'): reg.mod[Q + 'Formatter::' + n] = lambda ctx, o, args, e, n=n: response(ctx, n)
    def parsed(name, ty):
        def f(ctx, o, args, e):
            b = ctx.fbool('parsed')
            if ctx.branch(b): x = ctx.lib.fresh(ctx, ty, ctx.uniq('parsed')); args[-1].set(x); ev(ctx, 'parsed', name, x)
            return b
        return f
    for n, t in (('heartbeat', 'RaftHeartbeatRequest'), ('appendEntries', 'RaftAppendEntriesRequest'), ('voteRequest', 'RaftVoteRequest')): reg.mod[Q + 'RaftParser::' + n] = parsed(n, parse(Q + t))
    reg.mod[Q + 'ParseUtils::parseInt64'] = parsed('int', parse('long')); reg.mod[Q + 'parseServer'] = reg.mod['parseServer'] = parsed('server', SRV)
    def policy(ctx, o, args, e):
        b = ctx.fbool('parsed')
        if ctx.branch(b): args[1].set(ctx.fint('policy', 'int'))
        return b
    reg.mod[Q + 'parseFsyncPolicy'] = policy
    reg.mod[Q + 'parseScanCommand'] = lambda ctx, o, args, e: lib.fresh(ctx, parse(Q + 'ScanCommandArguments'), ctx.uniq('scanargs'))
    def rpc(n, t): return lambda ctx, o, args, e: (ev(ctx, 'rpc', n, val(args[0]), val(args[1]) if len(args) > 1 else False), ctx.check(not ctx.locks, 'no lock is held', 'pre'), ctx.lib.fresh(ctx, parse(Q + t), ctx.uniq('answer')))[2]
    reg.mod[RD + '::heartbeat'] = rpc('heartbeat', 'RaftHeartbeatResponse'); reg.mod[RD + '::appendEntries'] = rpc('appendEntries', 'RaftAppendEntriesResponse'); reg.mod[RD + '::requestVote'] = rpc('requestVote', 'RaftVoteResponse')
    vecstr = parse('std::vector<std::basic_string<char>>')
    for n in ('RaftHeartbeatResponse', 'RaftAppendEntriesResponse', 'RaftVoteResponse', 'RaftInfo'): reg.mod[Q + n + '::toVector'] = lambda ctx, o, args, e: ctx.lib.fresh(ctx, vecstr, ctx.uniq('lines'))
    reg.mod[RD + '::dispatchInfo'] = lambda ctx, o, args, e: (ev(ctx, 'reply', 'info', None), link(ctx))[1]
    reg.mod[RD + '::dispatchPubsub'] = lambda ctx, o, args, e: (ev(ctx, 'reply', 'pubsub', None), link(ctx))[1]
    reg.mod[RD + '::service'] = lambda ctx, o, args, e: (ev(ctx, 'reply', 'service', val(args[1])), ctx.check(not ctx.locks, 'no lock is held', 'pre'), link(ctx))[2]
    reg.mod[RD + '::fetch'] = lambda ctx, o, args, e: ctx.fbool('fetched')
    reg.mod[JR + '::fetch_last'] = lambda ctx, o, args, e: ev(ctx, 'fetch_last', zi(val(args[0])))
    reg.mod[JR + '::setFsyncPolicy'] = lambda ctx, o, args, e: ev(ctx, 'policy')
    reg.mod[JR + '::getClusterID'] = lambda ctx, o, args, e: Str([z3.String('clusterID')])
    reg.mod[JR + '::scanContents'] = lambda ctx, o, args, e: (args[4].set(ctx.fint('cursor', 'long')), mkstatus(ctx, ctx.fbool('scanned')))[1]
    reg.mod[JR + '::manualCompaction'] = lambda ctx, o, args, e: mkstatus(ctx, ctx.fbool('compacted'))
    def op(n):
        def f(ctx, o, args, e): b = ctx.fbool('changed'); ctx.check(held(ctx, 'raftCommand'), 'no write takes the position of the entry', 'pre'); ev(ctx, 'member', n, zi(val(args[0])), srv(ctx, val(args[1])), b); args[2].set(Str([ctx.fstr('why')])); return b
        return f
    for n in OPS: reg.mod[JR + '::' + n] = op(n)
    def size(ctx, o, args, e): return ctx.ghost['size'].get()
    reg.mod[JR + '::getLogSize'] = size
    reg.mod[Q + 'RaftReplicator::reconfigure'] = lambda ctx, o, args, e: ev(ctx, 'reconfigure')
    reg.mod[Q + 'RaftReplicator::getStatus'] = lambda ctx, o, args, e: Struct(parse(RS), {'replicas': lib.fresh(ctx, parse('std::vector<%s>' % RP), 'replicas')})
    reg.mod[JR + '::getMembership'] = lambda ctx, o, args, e: Struct(parse(Q + 'RaftMembership'), dict(lib.fresh(ctx, parse(Q + 'RaftMembership'), ctx.uniq('membership')).f, nodes=nodes(ctx), observers=observers(ctx)))
    known = z3.Function('KNOWN', lib.sort(SRV), z3.BoolSort()); lib.known = known
    reg.mod[RS + '::contains'] = lambda ctx, o, args, e: known(srv(ctx, val(args[0])))
    def getrs(ctx, o, args, e):
        x = srv(ctx, val(args[0])); ctx.check(known(x), 'only known replicas are asked for (an unknown one ends the process)', 'pre'); v = lib.fresh(ctx, parse(RP), ctx.uniq('replica')); ctx.assume(srv(ctx, F(ctx, v, 'target')) == x); return v
    reg.mod[RS + '::getReplicaStatus'] = getrs
    def utd(ctx, o, args, e): b = ctx.fbool('uptodate'); ev(ctx, 'uptodate', srv(ctx, F(ctx, o.get(), 'target')), zi(val(args[0])), b); return b
    reg.mod[RP + '::upToDate'] = utd
    def acc(ctx, o, args, e): b = ctx.fbool('acceptable'); ctx.check(held(ctx, 'raftCommand'), 'the membership stays as it was checked', 'pre'); ctx.check(srv(ctx, val(args[0])) != mepk(ctx), 'not for the leader itself', 'pre'); ev(ctx, 'acceptable', srv(ctx, val(args[0])), b); return b
    reg.mod[RD + '::checkIfNodeRemovalAcceptable'] = acc
    reg.mod[HT + '::getTimeouts'] = lambda ctx, o, args, e: ctx.cell('timeouts', parse(Q + 'RaftTimeouts'), stub('RaftTimeouts'))
    reg.mod[Q + 'RaftTimeouts::toString'] = lambda ctx, o, args, e: Str([z3.String('timeouts')])
    def txctor(ctx, o, args, e):
        ctx.check(lib.eq(ctx, val(args[0]), ctx.ghost['q0']), 'the request itself is passed on', 'pre') if args else None; o.set(lib.fresh(ctx, parse(TX_), ctx.uniq('tx')))
    reg.mod_ctor[TX_ + '::Transaction'] = txctor; FG = CONN + '::FlushGuard'; reg.mod_ctor[FG + '::FlushGuard'] = lambda ctx, o, args, e: o.set(Struct(parse(FG), {}, origin='guard')); reg.mod[FG + '::~FlushGuard'] = lambda ctx, o, args, e: None
def dsetup(self, ctx, fn):
    this, args = ssetup(self, ctx, fn); q = ctx.lib.fresh(ctx, parse(Q + 'RedisRequest'), 'req'); ctx.ghost['q0'] = q; args[1].set(q); return this, args
def dpre(s):
    ctx = s.ctx; q = s.args[1].get(); C = reqs.cmds(s.lib.prog); c, k = zi(F(ctx, q, 'command')), zi(F(ctx, q, 'commandType')); mine = [C[n] for n in C if n.startswith('RAFT_')] + [C['ACTIVATE_STALE_READS']]
    return [ilt(0, F(ctx, q, 'contents').len()), ilt(F(ctx, q, 'contents').len(), 1 << 31), z3.Implies(z3.And(*[c != x for x in mine]), z3.Or(k == 1, k == 2, k == int(s.lib.prog.enums[Q + 'CommandType']['vals']['PUBSUB'])))]
def d_post(s):
    ctx = s.ctx; q = s.args[1].get(s.pre); C = reqs.cmds(s.lib.prog); c, k = zi(F(ctx, q, 'command')), zi(F(ctx, q, 'commandType')); pub = zb(k == int(s.lib.prog.enums[Q + 'CommandType']['vals']['PUBSUB'])); is_ = lambda *ns: z3.And(z3.Not(pub), z3.Or(*[c == C[n] for n in ns]))
    rp = evs(s, 'reply'); rpc_, mem, rec, ob, coup, acc, utd, sn = (evs(s, n) for n in ('rpc', 'member', 'reconfigure', 'observed', 'coup', 'acceptable', 'uptodate', 'snapshot')); cn = ctx.ghost['conn']; au, au0 = FieldLV(cn, 'raftAuthorization').get(), FieldLV(cn, 'raftAuthorization').get(s.pre); sr, sr0 = FieldLV(cn, 'raftStaleReads').get(), FieldLV(cn, 'raftStaleReads').get(s.pre)
    cont = F(ctx, q, 'contents'); L = cont.len(); arg = lambda i: S(s.lib.elem_get(ctx, cont, i)).term(); out = [('exactly one answer', len(rp) == 1)]
    if len(rp) != 1: return out
    kind, what = rp[0][1], rp[0][2]
    shake = z3.And(zi(L) == 4, arg(2) == z3.String('clusterID'), arg(3) == z3.String('timeouts'))
    out += [('only a handshake changes who is trusted', z3.Implies(z3.Not(is_('RAFT_HANDSHAKE')), zb(Iff(au, au0)))), ('trusted exactly after naming this cluster and its timeouts', z3.Implies(is_('RAFT_HANDSHAKE'), zb(Iff(au, shake)))), ('and told so', z3.Implies(is_('RAFT_HANDSHAKE'), zb(Iff(au, kind == 'ok')))), ('old data is served only after asking for it', zb(Iff(sr, z3.Or(zb(sr0), is_('ACTIVATE_STALE_READS'))))),
        ('subscriptions and client requests are passed on', z3.And(z3.Implies(pub, zb(kind == 'pubsub')), zb(Iff(kind == 'service', And(z3.Not(pub), z3.And(*[c != C[n] for n in C if n.startswith('RAFT_') or n == 'ACTIVATE_STALE_READS'])))))),
        ('terms are entered only on request', z3.Implies(z3.Not(is_('RAFT_OBSERVE_TERM')), zb(len(ob) == 0))), ('elections are started only on request', z3.Implies(z3.Not(is_('RAFT_ATTEMPT_COUP')), zb(len(coup) == 0))), ('the members are changed only on request', z3.Implies(z3.Not(is_(*OPS.values())), zb(not mem and not rec)))]
    if rpc_:
        x = rpc_[0]; pa = evs(s, 'parsed'); T = {'heartbeat': ('RAFT_HEARTBEAT',), 'appendEntries': ('RAFT_APPEND_ENTRIES',), 'requestVote': ('RAFT_REQUEST_VOTE', 'RAFT_REQUEST_PRE_VOTE')}[x[1]]
        out += [('only trusted nodes take part', au0), ('once, for its own kind of request', And(len(rpc_) == 1, is_(*T))), ('exactly what was sent', And(len(pa) == 1, pa and s.lib.eq(ctx, x[2], pa[0][2]))), ('answered with the outcome', kind == 'vector')]
        if x[1] == 'requestVote': out += [('a question is not a vote', zb(Iff(x[3], is_('RAFT_REQUEST_PRE_VOTE'))))]
    else: out += [('trusted nodes are answered', z3.Implies(z3.And(is_(*CMDNAMES), zb(au0)), zb(kind == 'err')))]
    for x in ob: out += [('no term below zero, and no leader', And(ile(0, x[1]), srv_is_empty(ctx, x[2])))]
    if coup: y = sn[0][1].get() if sn else None; ct = evs(s, 'contains'); out += [('a coup needs a leader to depose', And(y is not None, Not(srv_is_empty(ctx, F(ctx, y, 'leader'))), srv(ctx, F(ctx, y, 'leader')) != mepk(ctx))), ('and a full member', And(len(ct) == 1, ct and And(ct[0][2] == mepk(ctx), ct[0][3])))]
    out += [('at most one change of the members', len(mem) <= 1)]
    for x in mem:
        y = sn[0][1].get() if len(sn) == 1 else None; n = x[1]; out += [('only the leader changes the members', And(y is not None, ieq(F(ctx, y, 'status'), st(s, 'LEADER')))), ('in the term it leads', ieq(x[2], F(ctx, y, 'term')) if y is not None else False), ('never itself', x[3] != mepk(ctx)), ('the change asked for', is_(OPS[n])), ('of the node named', And(len(evs(s, 'parsed')) == 1, x[3] == srv(ctx, evs(s, 'parsed')[0][2]))),
            ('carried out exactly if accepted', And(Iff(x[4], kind == 'ok'), Iff(x[4], len(rec) == 1)))]
        if n in ('removeMember', 'demoteToObserver'): out += [('only if a majority stays up to date', And(len(acc) == 1, acc and And(acc[0][1] == x[3], acc[0][2])))]
        if n == 'promoteObserver': out += [('only an observer that is up to date', And(len(utd) == 1, utd and And(utd[0][1] == x[3], utd[0][2] == zi(G(s, 'size')), utd[0][3])))]
    if not mem: out += [('nothing changed: nothing confirmed', And(not rec, z3.Implies(is_(*OPS.values()), zb(kind in ('err', 'errArgs')))))]
    return out
DISU = [spec(RD + '::dispatch', d_post, dpre, setup=dsetup, sig_has='RedisRequest', name='dispatch')]
