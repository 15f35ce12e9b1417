"""contracts of the requests nodes send each other, and of the way of a write through the journal (C08)"""
from .replspec import *
RD, WT, BW, RE, JR, HT = Q + 'RaftDispatcher', Q + 'RaftWriteTracker', Q + 'RaftBlockedWrites', Q + 'RaftEntry', Q + 'RaftJournal', Q + 'RaftHeartbeatTracker'
RESP = Q + 'RedisEncodedResponse'
def F(ctx, v, *ns):
    for n in ns: v = ctx.get_field(v, n)
    return v
def G(s, n): return s.ctx.ghost[n].get()
def held(ctx, n): return any(n in str(l) for l in ctx.locks)
# ---------------------------------------------------------------- ghost journal
def J(s): return s.ctx.ghost['J'].get().val
def entry_term(ctx, x): return zi(F(ctx, ctx.lib.unpack(ctx, x, parse(RE)), 'term'))
def new_journal(ctx):
    L = ctx.lib; es = L.sort(parse(RE)); j0 = z3.Const('J0', z3.ArraySort(IS, es)); m = L.fresh(ctx, parse('std::map<long,%s>' % RE), 'J')
    cellg(ctx, 'J', 'std::map<long,%s>' % RE, Map(m.kt, m.vt, m.dom, j0, m.n)); ctx.ghost['J0'] = j0
    for n in ('size', 'commit'): cellg(ctx, n, 'long', z3.Int(n + '0')); ctx.ghost[n + '0'] = z3.Int(n + '0')
    ctx.ghost['start'] = z3.Int('start'); ctx.ghost['applied'] = z3.Int('applied0')
    ctx.assume(z3.And(z3.Int('start') >= 0, z3.Int('start') < z3.Int('size0'), z3.Int('commit0') >= z3.Int('start'), z3.Int('commit0') < z3.Int('size0'), z3.Int('size0') < LIM, z3.Int('applied0') >= 0, z3.Int('applied0') <= z3.Int('commit0')))
    k = z3.Int('?jt')
def setJ(ctx, a): m = ctx.ghost['J'].get(); ctx.ghost['J'].set(Map(m.kt, m.vt, m.dom, a, m.n))
def vec_of(ctx, v): arr, n = ctx.lib.vec_arr(ctx, raw(v)); return arr, zi(n)
def install_rpc(prog, lib, reg):
    install_repl(prog, lib, reg); g = lambda ctx, n: ctx.ghost[n]
    def snap(ctx, o, args, e):
        c = fresh_snapshot(ctx); v = c.get(); t = zi(F(ctx, v, 'term')); st = zi(F(ctx, v, 'status')); ctx.assume(z3.And(t >= 0, t < LIM)); L = enumof(lib, 'RaftStatus', 'LEADER')
        for e_ in evs_(ctx, 'observed'): ctx.assume(t >= zi(e_[1]))
        for e_ in evs_(ctx, 'snapshot'): ctx.assume(t >= zi(F(ctx, e_[1].get(), 'term')))
        ctx.assume(z3.Implies(st == L, lib.pack(ctx, F(ctx, v, 'leader'), SRV) == mepk(ctx))); ctx.assume(z3.Implies(st == L, z3.Not(zb(srv_is_empty(ctx, F(ctx, v, 'leader'))))))
        ev(ctx, 'snapshot', c); return Ptr(c)
    reg.mod[ST + '::getSnapshot'] = snap
    def obs(ctx, o, args, e): ev(ctx, 'observed', val(args[0]), val(args[1])); return ctx.fbool('observed')
    reg.mod[ST + '::observed'] = obs
    def grant(ctx, o, args, e):
        b = ctx.fbool('granted'); ev(ctx, 'grant', val(args[0]), val(args[1]), b); return b
    reg.mod[ST + '::grantVote'] = grant
    reg.mod[HT + '::heartbeat'] = lambda ctx, o, args, e: ev(ctx, 'contact', val(args[0]))
    reg.mod[HT + '::triggerTimeout'] = lambda ctx, o, args, e: ev(ctx, 'coup')
    reg.mod[JR + '::getLogSize'] = lambda ctx, o, args, e: g(ctx, 'size').get()
    reg.mod[JR + '::getLogStart'] = lambda ctx, o, args, e: g(ctx, 'start')
    reg.mod[JR + '::getCommitIndex'] = lambda ctx, o, args, e: g(ctx, 'commit').get()
    reg.mod[Q + 'StateMachine::getLastApplied'] = lambda ctx, o, args, e: g(ctx, 'applied')
    def fetch(ctx, o, args, e):
        i = zi(val(args[0])); ok = ctx.fbool('fetched'); ctx.assume(z3.Implies(z3.Or(i < g(ctx, 'start'), i >= zi(g(ctx, 'size').get())), z3.Not(ok)))
        if ctx.branch(ok):
            if 'RaftEntry' in str(args[1].ty): args[1].set(lib.unpack(ctx, z3.Select(g(ctx, 'J').get().val, i), parse(RE)))
            else: args[1].set(TERM(i))
        return mkstatus(ctx, ok)
    reg.mod[JR + '::fetch'] = fetch
    def match(ctx, o, args, e):
        i, t = zi(val(args[0])), zi(val(args[1])); b = ctx.fbool('matches'); x = z3.Select(g(ctx, 'J').get().val, i); ctx.assume(b == z3.And(g(ctx, 'start') <= i, i < zi(g(ctx, 'size').get()), entry_term(ctx, x) == t)); ctx.ghost['matched'] = b; return b
    reg.mod[JR + '::matchEntries'] = match
    def compare(ctx, o, args, e):
        s0 = zi(val(args[0])); arr, n = vec_of(ctx, val(args[1])); r = ctx.fint('divergence', 'long'); j = g(ctx, 'J').get().val; k = z3.Int('?ce'); sz = zi(g(ctx, 'size').get())
        ctx.assume(z3.And(r >= s0, r <= s0 + n, z3.Or(r <= sz, r == s0))); ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= s0, k < r), z3.Select(j, k) == z3.Select(arr, k - s0)), patterns=[z3.Select(j, k)]))
        ctx.assume(z3.Or(r == s0 + n, r >= sz, z3.Select(j, r) != z3.Select(arr, r - s0))); return r
    reg.mod[JR + '::compareEntries'] = compare
    def remove(ctx, o, args, e):
        i = zi(val(args[0])); sz = zi(g(ctx, 'size').get()); ctx.check(z3.And(i > zi(g(ctx, 'commit').get()), i <= sz), 'no committed entry is removed', 'pre'); ctx.check(z3.Or(i == sz, i > g(ctx, 'applied')), 'no applied entry is removed', 'pre'); ctx.check(held(ctx, 'raftCommand'), 'one change of the journal at a time', 'pre')
        g(ctx, 'size').set(z3.If(i < sz, i, sz)); return mkstatus(ctx, True)
    reg.mod[JR + '::removeEntries'] = remove
    def append(ctx, o, args, e):
        i = zi(val(args[0])); sz = zi(g(ctx, 'size').get()); ok = ctx.fbool('appended'); ctx.check(held(ctx, 'raftCommand'), 'one change of the journal at a time', 'pre'); ctx.check(i == sz, 'entries are added at the end', 'pre')
        if ctx.branch(ok):
            j = g(ctx, 'J').get().val; j2 = z3.Const(ctx.uniq('J'), j.sort()); k = z3.Int('?ja'); ctx.assume(z3.ForAll([k], z3.Implies(k != i, z3.Select(j2, k) == z3.Select(j, k)), patterns=[z3.Select(j2, k)])); ctx.assume(z3.Select(j2, i) == lib.pack(ctx, val(args[1]), parse(RE)))
            setJ(ctx, j2); g(ctx, 'size').set(sz + 1)
        return ok
    reg.mod[JR + '::append'] = append
    def commit(ctx, o, args, e):
        i = zi(val(args[0])); c = zi(g(ctx, 'commit').get()); ctx.check(i < zi(g(ctx, 'size').get()), 'only entries held are committed', 'pre'); g(ctx, 'commit').set(z3.If(i > c, i, c)); return i >= c
    reg.mod[JR + '::setCommitIndex'] = commit
    reg.mod[Q + 'Formatter::moved'] = lambda ctx, o, args, e: response(ctx, 'moved', val(args[1]))
    reg.mod[Q + 'Formatter::err'] = lambda ctx, o, args, e: response(ctx, 'err', val(args[0]))
    reg.mod[WT + '::flushQueues'] = lambda ctx, o, args, e: ev(ctx, 'flush', val(args[0]))
    reg.mod[Q + 'Publisher::purgeListeners'] = lambda ctx, o, args, e: ev(ctx, 'purge', val(args[0]))
    reg.mod[RD + '::warnIfLagging'] = lambda ctx, o, args, e: None
    for n in ('contains', Q + 'contains'): reg.mod[n] = contains_mod
    reg.mod[Q + 'RaftVoteRequest::describe'] = lambda ctx, o, args, e: Str([ctx.fstr('described')])
def contains_mod(ctx, o, args, e):
    arr, n = vec_of(ctx, val(args[0])); x = srv(ctx, val(args[1])); b = ctx.fbool('contained'); k = z3.Int('?cm'); w = ctx.fint('where', 'long')
    ctx.assume(z3.Implies(b, z3.And(w >= 0, w < n, z3.Select(arr, w) == x))); ctx.assume(z3.Implies(z3.Not(b), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(arr, k) != x), patterns=[z3.Select(arr, k)]))); ev(ctx, 'contains', arr, x, b); return b
def evs_(ctx, kind): return [e for e in ctx.ghost.get('events', []) if e[0] == kind]
def response(ctx, kind, *what):
    v = lib_fresh(ctx, RESP, kind); ctx.ghost.setdefault('made', {}); t = S(F(ctx, v, 'val')).term(); ctx.ghost['made'] = dict(ctx.ghost['made'], **{str(t): (kind,) + what}); return v
def lib_fresh(ctx, t, n): return ctx.lib.fresh(ctx, parse(t), ctx.uniq(n))
def made(ctx, v): return ctx.ghost.get('made', {}).get(str(S(F(ctx, v, 'val')).term()))
DR = {'journal': 'RaftJournal', 'stateMachine': 'StateMachine', 'state': 'RaftState', 'heartbeatTracker': 'RaftHeartbeatTracker', 'writeTracker': 'RaftWriteTracker', 'replicator': 'RaftReplicator', 'publisher': 'Publisher'}
def rdsetup(self, ctx, fn):
    ctx.ghost['events'] = []; ctx.ghost['now'] = NOW0; new_journal(ctx)
    this = ctx.cell('this', parse(RD), Struct(parse(RD), dict({n: ref(ctx, t) for n, t in DR.items()}, redisDispatcher=stub('RedisDispatcher'), lastLaggingWarning=z3.Int('warned')), origin='this')); args = []
    for i, p in enumerate(fn['params']):
        t = strip_ref(parse(p['t'])); n = str(t).split('::')[-1]
        if 'shared_ptr' in str(t): args.append(ctx.cell('arg%d' % i, t, Ptr(None, True)))
        elif n in ('Connection',): args.append(ctx.cell('arg%d' % i, t, stub(n)))
        else: args.append(ctx.cell('arg%d' % i, t, ctx.lib.fresh(ctx, t, 'arg%d' % i)))
    return this, args
def srv(ctx, v): return ctx.lib.pack(ctx, v, SRV)
def st(s, n): return enumof(s.lib, 'RaftStatus', n)
# ---------------------------------------------------------------- heartbeat
def hb_post(s):
    ctx = s.ctx; r = s.ret; q = s.argv(0); sn = evs(s, 'snapshot'); ob = evs(s, 'observed'); out = [('the sender is noted once', len(ob) == 1), ('one look at the state afterwards', len(sn) == 1)]
    if len(ob) != 1 or len(sn) != 1: return out
    x = sn[0][1].get(); names = [e[0] for e in evs(s)]; ok = F(ctx, r, 'nodeRecognizedAsLeader')
    out += [('its term and itself as leader', And(ieq(ob[0][1], F(ctx, q, 'term')), srv(ctx, ob[0][2]) == srv(ctx, F(ctx, q, 'leader')))), ('before the look', names.index('observed') < names.index('snapshot')), ('the answer carries the current term', ieq(F(ctx, r, 'term'), F(ctx, x, 'term'))),
        ('recognised exactly if its term is current', Iff(ok, And(Not(ieq(F(ctx, x, 'status'), st(s, 'SHUTDOWN'))), Not(ilt(F(ctx, q, 'term'), F(ctx, x, 'term')))))), ('and then it is the leader', Implies(ok, And(ieq(F(ctx, q, 'term'), F(ctx, x, 'term')), srv(ctx, F(ctx, q, 'leader')) == srv(ctx, F(ctx, x, 'leader'))))),
        ('counts as contact exactly if recognised', Iff(ok, 'contact' in names)), ('the caller sees the same state', val(s.args[1]).lv is sn[0][1])]
    return out
def hb_throws(s, ty):
    ctx = s.ctx; q = s.argv(0); l = srv(ctx, F(ctx, q, 'leader')); sn = evs(s, 'snapshot'); two = False
    if sn: x = sn[0][1].get(); two = And(ieq(F(ctx, x, 'term'), F(ctx, q, 'term')), srv(ctx, F(ctx, x, 'leader')) != l)
    return [('only a fatal error escapes', ty == 'quarkdb::FatalException'), ('and only for a request of this node, or a second leader of a term', Or(l == mepk(ctx), two))]
HBU = [spec(RD + '::heartbeat', hb_post, setup=rdsetup, throws=hb_throws, nparams=2, name='heartbeat')]
# ---------------------------------------------------------------- entries from the leader
def install_ae(prog, lib, reg):
    install_rpc(prog, lib, reg)
    def hb(ctx, o, args, e):
        q = val(args[0]); me = ctx.ghost['scope'].argv(0); ctx.check(And(ieq(F(ctx, q, 'term'), F(ctx, me, 'term')), srv(ctx, F(ctx, q, 'leader')) == srv(ctx, F(ctx, me, 'leader'))), 'checked as what it says', 'pre')
        c = fresh_snapshot(ctx); v = c.get(); args[1].set(Ptr(c)); r = lib_fresh(ctx, HBR, 'hb'); ok = F(ctx, r, 'nodeRecognizedAsLeader'); ctx.ghost['hb'] = (r, c); ev(ctx, 'heartbeat')
        ctx.assume(zb(And(ieq(F(ctx, r, 'term'), F(ctx, v, 'term')), Implies(ok, And(ieq(F(ctx, q, 'term'), F(ctx, v, 'term')), srv(ctx, F(ctx, q, 'leader')) == srv(ctx, F(ctx, v, 'leader'))))))); return r
    reg.mod[RD + '::heartbeat'] = hb
def ae(s): ctx = s.ctx; q = s.args[0].get(s.pre); f = lambda n: F(ctx, q, n); arr, n = vec_of(ctx, f('entries')); return f, arr, n, zi(f('prevIndex'))
def ae_pre(s):
    f, arr, n, p = ae(s); return [n < (1 << 30), p < LIM, p > -LIM, ilt(f('commitIndex'), LIM), ile(-LIM, f('commitIndex'))]
def kept(s, upto):
    j, j0 = J(s), s.ctx.ghost['J0']; k = z3.Int('?kp'); return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(upto)), z3.Select(j, k) == z3.Select(j0, k)), patterns=[z3.Select(j, k)])
def ae_post(s):
    ctx = s.ctx; g = ctx.ghost; f, arr, n, p = ae(s); r = s.ret; ok = zb(F(ctx, r, 'outcome')); sz, c, s0, c0 = zi(G(s, 'size')), zi(G(s, 'commit')), g['size0'], g['commit0']; j, j0 = J(s), g['J0']; k = z3.Int('?ap'); hbr, hbs = g['hb']; rec = zb(F(ctx, hbr, 'nodeRecognizedAsLeader'))
    had = z3.ForAll([k], z3.Implies(z3.And(k > p, k <= p + n), z3.And(k < s0, z3.Select(j0, k) == z3.Select(arr, k - p - 1)))); fl = evs(s, 'flush'); pu = evs(s, 'purge'); com = zi(f('commitIndex'))
    out = [('the answer carries the current term', ieq(F(ctx, r, 'term'), F(ctx, hbs.get(), 'term'))), ('and the number of entries held', ieq(F(ctx, r, 'logSize'), sz)), ('nothing of an unrecognised leader is accepted', z3.Implies(z3.Not(rec), z3.And(z3.Not(ok), sz == s0, c == c0, j == j0))),
        ('accepted: the entry before is the same', z3.Implies(ok, z3.And(g['start'] <= p, p < s0, entry_term(ctx, z3.Select(j0, p)) == zi(f('prevTerm'))))), ('accepted: the entries sent are held', z3.Implies(ok, z3.And(sz >= p + n + 1, z3.ForAll([k], z3.Implies(z3.And(k > p, k <= p + n), z3.Select(j, k) == z3.Select(arr, k - p - 1)), patterns=[z3.Select(j, k)])))),
        ('entries before those sent stay', kept(s, z3.If(p + 1 < s0, p + 1, s0))), ('entries committed before stay', z3.And(kept(s, c0 + 1), sz > c0)), ('nothing is removed if all entries sent were held', z3.Implies(z3.And(ok, had), z3.And(sz == s0, kept(s, s0)))),
        ('nothing committed is given up', c >= c0), ('no entry is committed that is not known to be the leader\'s', c <= z3.If(c0 > z3.If(com < p + n, com, p + n), c0, z3.If(com < p + n, com, p + n))), ('accepted: what the leader committed is committed as far as held', z3.Implies(ok, c >= z3.If(com < p + n, com, p + n))), ('refused: nothing is committed', z3.Implies(z3.Not(ok), c == c0)),
        ('a recognised leader ends pending requests', Iff(rec, len(fl) == 1 and len(pu) == 1))]
    for x in fl + pu: m = made(ctx, x[1]); out += [('they are sent to the leader', And(m is not None and m[0] == 'moved', srv(ctx, m[1]) == srv(ctx, f('leader'))) if m else False)]
    return out
def ae_throws(s, ty):
    ctx = s.ctx; g = ctx.ghost; f, arr, n, p = ae(s); k = z3.Int('?at'); c0, a0, s0, j0 = g['commit0'], g['applied'], g['size0'], g['J0']; top = z3.If(c0 > a0, c0, a0)
    return [('only a fatal error escapes', ty == 'quarkdb::FatalException'), ('and only for entries that contradict committed ones', z3.Exists([k], z3.And(k > p, k <= p + n, k <= top, k < s0, z3.Select(j0, k) != z3.Select(arr, k - p - 1))))]
def ae_inv(lc):
    ctx = lc.ctx; g = ctx.ghost; s = g['scope']; f, arr, n, p = ae(s); out = []
    for c in lc.locals():
        if ctx.lib.kind(c.c.ty if hasattr(c, 'c') else None) == 'int' and lc.modified(c.l) if hasattr(c, 'l') else False: pass
    k = z3.Int('?ai')
    out += [('entries so far are those sent', lambda: z3.ForAll([k], z3.Implies(z3.And(k > p, k < zi(G(s, 'size'))), z3.Select(J(s), k) == z3.Select(arr, k - p - 1)), patterns=[z3.Select(J(s), k)])), ('earlier entries stay', lambda: kept(s, p + 1)), ('committed entries stay', lambda: z3.And(kept(s, g['commit0'] + 1), zi(G(s, 'size')) > g['commit0'])), ('no more than sent', lambda: z3.And(zi(G(s, 'size')) <= p + n + 1, zi(G(s, 'size')) > p))]
    for l in lc.locals():
        v = l.get()
        if isinstance(v, z3.ExprRef) and v.sort() == IS and lc.modified(l): out += [('%s follows the entries' % l, lambda l=l: zi(G(s, 'size')) == p + 1 + zi(l.get()))]
    return out
AEU = [spec(RD + '::appendEntries', ae_post, ae_pre, invs=ae_inv, setup=rdsetup, throws=ae_throws, name='appendEntries')]
# ---------------------------------------------------------------- vote requests
def vq(s): ctx = s.ctx; q = s.argv(0); return lambda n: F(ctx, q, n)
def rv_post(s):
    ctx = s.ctx; g = ctx.ghost; f = vq(s); pre = zb(s.argv(1)); r = s.ret; E = lambda n: enumof(s.lib, 'RaftVote', n); v = F(ctx, r, 'vote'); granted = zb(ieq(v, E('GRANTED'))); veto = zb(ieq(v, E('VETO'))); sn = evs(s, 'snapshot'); ob = evs(s, 'observed'); gr = evs(s, 'grant'); li, lt, t = zi(f('lastIndex')), zi(f('lastTerm')), zi(f('term')); sz, c = g['size0'], g['commit0']
    if not sn: return [('the state was looked at', False)]
    x = sn[-1][1].get(); X = lambda n: F(ctx, x, n); cand = srv(ctx, f('candidate')); vf_ = X('votedFor'); k = z3.Int('?rm'); arr, nn = vec_of(ctx, nodes(ctx)); member = z3.Exists([k], z3.And(k >= 0, k < nn, z3.Select(arr, k) == cand)); led = Not(srv_is_empty(ctx, F(ctx, sn[0][1].get(), 'leader')))
    out = [('the answer carries the current term', ieq(F(ctx, r, 'term'), X('term'))), ('granted only to a journal at least as complete', z3.Implies(granted, z3.Or(lt > TERM(sz - 1), z3.And(lt == TERM(sz - 1), li >= sz - 1)))), ('granted only if no committed entry would be lost', z3.Implies(granted, z3.And(li >= c, z3.Implies(li == c, lt == TERM(c))))),
        ('granted only for a current term', z3.Implies(granted, z3.If(pre, t >= zi(X('term')), t == zi(X('term'))))), ('granted only if nobody else was voted for', Implies(And(granted, ieq(X('term'), t)), Or(srv_is_empty(ctx, vf_), srv(ctx, vf_) == cand))),
        ('a vote is given once and recorded first', Iff(And(granted, Not(pre)), len(gr) == 1 and True if len(gr) != 1 else gr[0][3])), ('asking beforehand leaves no trace', Implies(pre, not ob and not gr and not evs(s, 'contact'))), ('a veto means a committed entry would be lost, or an outsider disturbs a leader', z3.Implies(z3.And(veto, z3.Or(zb(Not(led)), member)), z3.And(li <= c, z3.Or(li < c, lt != TERM(li))))),
        ('a candidate that would overwrite a committed entry is vetoed', z3.Implies(z3.And(li <= c, z3.Or(li < g['start'], li < c)), z3.Not(granted))), ('refused requests are no contact', Implies(And(Not(granted), len(gr) == 0), not evs(s, 'contact')))]
    for e in gr: out += [('the vote recorded is for that candidate and term', And(ieq(e[1], t), srv(ctx, e[2]) == cand))]
    for e in ob: out += [('the term of the request is entered, without a leader', And(ieq(e[1], t), srv_is_empty(ctx, e[2])))]
    out += [('an outsider does not disturb a leader', Implies(And(z3.Not(member), led), And(veto, not ob and not gr)))]
    return out
def rv_pre(s): f = vq(s); return [ilt(f('lastIndex'), LIM), ile(-LIM, f('lastIndex')), ilt(f('term'), LIM)]
def rv_throws(s, ty): ctx = s.ctx; return [('only a fatal error escapes', ty == 'quarkdb::FatalException'), ('and only for a request of this node itself', srv(ctx, vq(s)('candidate')) == mepk(ctx))]
RVU = [spec(RD + '::requestVote', rv_post, rv_pre, setup=rdsetup, throws=rv_throws, name='requestVote')]
