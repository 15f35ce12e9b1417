"""Contracts of RaftJournal and RaftState (shared by several properties)."""
import z3
from cxv.contracts import *
from cxv import rocks, stdfns

FILES = ['raft/RaftState.cc', 'raft/RaftJournal.cc']
SRV = parse('quarkdb::RaftServer')
MEM = parse('quarkdb::RaftMembers')
IS, SS, BS = z3.IntSort(), z3.StringSort(), z3.BoolSort()
LEADER, FOLLOWER, CANDIDATE, SHUTDOWN = 0, 1, 2, 3
ALWAYS, IMPORTANT, ASYNC = 0, 1, 2
TERM_OF = z3.Function('TERM_OF', SS, IS)
K = dict(term='RAFT_CURRENT_TERM', size='RAFT_LOG_SIZE', start='RAFT_LOG_START', cluster='RAFT_CLUSTER_ID', vote='RAFT_VOTED_FOR',
         commit='RAFT_COMMIT_INDEX', members='RAFT_MEMBERS', epoch='RAFT_MEMBERSHIP_EPOCH', pmembers='RAFT_PREVIOUS_MEMBERS',
         pepoch='RAFT_PREVIOUS_MEMBERSHIP_EPOCH', fsync='RAFT_FSYNC_POLICY')
LIMIT = 1 << 60

class Env:
    """uninterpreted functions whose defining contracts are proved or assumed elsewhere"""
    def __init__(self, lib):
        self.lib = lib
        ms = lib.sort(MEM)
        cs = lib.sort(parse('std::vector<quarkdb::PinnedBuffer, std::allocator<quarkdb::PinnedBuffer>>'))
        ss = lib.sort(SRV)
        self.MEMSTR = z3.Function('MEMSTR', ms, SS)
        self.MEMPARSE = z3.Function('MEMPARSE', SS, ms)
        self.MEMOK = z3.Function('MEMOK', SS, BS)
        self.SER = z3.Function('SER', IS, cs, SS)
        self.REQ_OF = z3.Function('REQ_OF', SS, cs)
        self.CMD = z3.Function('CMD', cs, IS)
        self.CTYPE = z3.Function('CTYPE', cs, IS)
        self.SRVOK = z3.Function('SRVOK', SS, BS)
        self.SRVPARSE = z3.Function('SRVPARSE', SS, ss)
        self.CONTAINS = z3.Function('CONTAINS', lib.sort(parse('std::vector<quarkdb::RaftServer, std::allocator<quarkdb::RaftServer>>')), ss, BS)

def srv_str(ctx, v):
    """text of a RaftServer, as RaftServer::toString produces it"""
    h = ctx.get_field(v, 'hostname'); p = ctx.get_field(v, 'port')
    t = (h + Str([':']) + ctx.lib.itos(ctx, p)).term()
    e = seq_(h, Str([]))
    if e is True: return Str([])
    if e is False: return Str([t])
    return Str([z3.If(e, z3.StringVal(''), t)])
def srv_empty(ctx, v): return seq_(ctx.get_field(v, 'hostname'), Str([]))

def install(prog, lib, reg, env):
    lib.abstract_str.add('quarkdb::PinnedBuffer')
    rocks.install(lib)
    reg.invs.append(rocks.batch_invariants)
    L = lib
    lib.extra_ctors['quarkdb::FsyncThread'] = lambda L, ctx, t, e: Opaque(t, 'fsync-thread')
    def mem_tostring(ctx, o, args, e):
        m = o.get(); t = env.MEMSTR(L.pack(ctx, m, MEM))
        L.note(ctx, t, [env.MEMPARSE(t) == L.pack(ctx, m, MEM), env.MEMOK(t)])
        return Str([t])
    reg.mod['quarkdb::RaftMembers::toString'] = mem_tostring
    def mem_ctor(ctx, o, args, e):
        s = L.as_str(ctx, args[0]).term()
        if not ctx.branch(env.MEMOK(s)): raise CppThrow('quarkdb::FatalException')
        o.set(L.unpack(ctx, env.MEMPARSE(s), MEM))
    for f in prog.byq.get('quarkdb::RaftMembers::RaftMembers', []):
        if len(f['params']) == 1 and not f.get('implicit') and 'string_view' in f['params'][0]['t']: reg.mod_ctor[f['sig']] = mem_ctor
    def contents(ctx, r): return ctx.get_field(r, 'contents')
    CT = parse('std::vector<quarkdb::PinnedBuffer, std::allocator<quarkdb::PinnedBuffer>>')
    env.CT = CT
    def serialize(ctx, o, args, e):
        en = o.get(); term = ctx.get_field(en, 'term'); req = FieldLV(o, 'request').get()
        c = L.pack(ctx, contents(ctx, req), CT)
        t = env.SER(zi(term), c)
        L.note(ctx, t, [TERM_OF(t) == zi(term), env.REQ_OF(t) == c])
        return Str([t])
    reg.mod['quarkdb::RaftEntry::serialize'] = serialize
    def deserialize(ctx, o, args, e):
        ent, data = args[0], L.as_str(ctx, args[1]).term()
        c = env.REQ_OF(data)
        tm = TERM_OF(data)
        L.note(ctx, tm, [tm >= -(1 << 63), tm < (1 << 63)])
        FieldLV(ent, 'term').set(tm)
        r = FieldLV(ent, 'request')
        L.note(ctx, c, [L.sort(CT).accessor(0, 1)(c) >= 0])
        FieldLV(r, 'contents').set(L.unpack(ctx, c, CT))
        FieldLV(r, 'command').set(env.CMD(c)); FieldLV(r, 'commandType').set(env.CTYPE(c))
    reg.mod['quarkdb::RaftEntry::deserialize'] = deserialize
    def parsecmd(ctx, o, args, e):
        c = L.pack(ctx, FieldLV(o, 'contents').get(), CT)
        FieldLV(o, 'command').set(env.CMD(c)); FieldLV(o, 'commandType').set(env.CTYPE(c))
    reg.mod['quarkdb::RedisRequest::parseCommand'] = parsecmd
    def parseserver(ctx, o, args, e):
        s = L.as_str(ctx, args[0]).term()
        if not ctx.branch(env.SRVOK(s)): return False
        args[1].set(L.unpack(ctx, env.SRVPARSE(s), SRV)); return True
    reg.mod['quarkdb::parseServer'] = parseserver
    def contains(ctx, o, args, e):
        v = args[0].get(); x = args[1].get()
        return env.CONTAINS(L.pack(ctx, v, parse('std::vector<quarkdb::RaftServer>')), L.pack(ctx, x, SRV))
    for f in prog.byq.get('quarkdb::contains', []): reg.mod[f['sig']] = contains

# ------------------------------------------------------------------ RaftJournal
class JV:
    """journal fields and the stored state, at a snapshot (None: now)"""
    INTS = {'term': 'currentTerm', 'size': 'logSize', 'start': 'logStart', 'commit': 'commitIndex', 'epoch': 'membershipEpoch'}
    def __init__(self, ctx, lv, snap, env): self.ctx, self.lv, self.snap, self.env = ctx, lv, snap, env
    def f(self, n): return FieldLV(self.lv, n).get(self.snap)
    @property
    def term(self): return self.f('currentTerm')
    @property
    def vote(self): return self.f('votedFor')
    @property
    def commit(self): return self.f('commitIndex')
    @property
    def size(self): return self.f('logSize')
    @property
    def start(self): return self.f('logStart')
    @property
    def epoch(self): return self.f('membershipEpoch')
    @property
    def lastterm(self): return self.f('termOfLastEntry')
    def db(self):
        return self.f('db').lv.get(self.snap)
    def lit(self, k): return rocks.lit_get(self.ctx, self.db(), K[k])
    def dom(self, i): return z3.Select(self.db().f['dom'], zi(i))
    def val(self, i): return z3.Select(self.db().f['val'], zi(i))

def be(ctx, x): return Str([ctx.lib.be64(ctx, ctx.lib.to_u64(ctx, x))])

def stored_is(j, k, v):
    p, x = j.lit(k)
    return And(p, seq_(x, v))

def log_ok(j, size=None, start=None):
    """the stored log occupies exactly [start, size) and its terms never decrease"""
    ctx = j.ctx
    n, s = zi(j.size if size is None else size), zi(j.start if start is None else start)
    a, b = z3.Int(ctx.uniq('?a')), z3.Int(ctx.uniq('?b'))
    d, v = j.db().f['dom'], j.db().f['val']
    return [
        ('every index from the log start to the log end holds an entry, and no other index does', z3.ForAll([a], z3.Select(d, a) == z3.And(s <= a, a < n), patterns=[z3.Select(d, a)])),
        ('entry terms never decrease along the log', z3.ForAll([a, b], z3.Implies(z3.And(s <= a, a <= b, b < n), TERM_OF(z3.Select(v, a)) <= TERM_OF(z3.Select(v, b))), patterns=[z3.MultiPattern(z3.Select(v, a), z3.Select(v, b))])),
    ]

def inv(j):
    """representation invariant: [(label, formula, tags)]"""
    ctx = j.ctx
    out = []
    o = lambda l, g, *t: out.append((l, g, set(t)))
    o('term on disk is the current term', stored_is(j, 'term', be(ctx, j.term)), 'term', 'mirror')
    o('vote on disk is the current vote', stored_is(j, 'vote', srv_str(ctx, j.vote)), 'term', 'mirror')
    o('log size on disk is the log size', stored_is(j, 'size', be(ctx, j.size)), 'log', 'mirror')
    o('log start on disk is the log start', stored_is(j, 'start', be(ctx, j.start)), 'log', 'mirror')
    o('commit index on disk is the commit index', stored_is(j, 'commit', be(ctx, j.commit)), 'log', 'mirror')
    o('membership epoch on disk is the membership epoch', stored_is(j, 'epoch', be(ctx, j.epoch)), 'members', 'mirror')
    o('cluster identifier on disk is the cluster identifier', stored_is(j, 'cluster', j.f('clusterID')), 'mirror')
    p, m = j.lit('members')
    o('members on disk are the members', And(p, j.env.MEMOK(m.term()), ctx.lib.eq(ctx, j.f('members'), ctx.lib.unpack(ctx, j.env.MEMPARSE(m.term()), MEM)) if not mem_is(j, m) else True), 'members', 'mirror')
    o('0 <= log start <= commit index < log size', And(ile(0, j.start), ile(j.start, j.commit), ilt(j.commit, j.size)), 'log')
    o('term is not negative', ile(0, j.term), 'term')
    o('membership epoch lies before the log end', And(ile(0, j.epoch), ilt(j.epoch, j.size)), 'members')
    for l, g in log_ok(j): o(l, g, 'log')
    o('the cached last term is the term of the last entry', ieq(TERM_OF(j.val(isub(j.size, 1))), j.lastterm), 'log')
    o('no entry is newer than the current term', ile(j.lastterm, j.term), 'log')
    return out

def mem_is(j, m):
    ms = j.f('members')
    try: t = j.ctx.lib.pack(j.ctx, ms, MEM)
    except Unsupported: return False
    return simp0_eq(t, j.env.MEMPARSE(m.term()))
def simp0_eq(a, b):
    return z3.is_true(z3.simplify(a == b))

class JournalContract(Contract):
    """a method of RaftJournal: the invariant holds before and after"""
    env = None
    want = None
    opts = {'timeout': 10000}
    crash = True
    def setup(self, ctx, f):
        db = rocks.new_db(ctx)
        cls = parse('quarkdb::RaftJournal')
        this = ctx.cell('this', cls, Struct(cls, {'db': Ptr(db, False)}, origin='this'))
        j = JV(ctx, this, None, self.env)
        for n in ('currentTerm', 'commitIndex', 'logSize', 'logStart', 'membershipEpoch'): ctx.assume(z3.And(zi(j.f(n)) >= 0, zi(j.f(n)) < LIMIT))
        s = dict(db.get().f)
        for k in JV.INTS: s['P:' + K[k]] = True; s['V:' + K[k]] = be(ctx, j.f(JV.INTS[k]))
        s['P:' + K['cluster']] = True; s['V:' + K['cluster']] = j.f('clusterID')
        s['P:' + K['vote']] = True; s['V:' + K['vote']] = srv_str(ctx, j.vote)
        ms = z3.String('db.members')
        s['P:' + K['members']] = True; s['V:' + K['members']] = Str([ms])
        db.set(Struct(rocks.DBT, s))
        FieldLV(this, 'members').set(ctx.lib.unpack(ctx, self.env.MEMPARSE(ms), MEM))
        return this, self.mkargs(ctx, f)
    def J(self, s, snap=None): return JV(s.ctx, s.thislv, snap, self.env)
    def requires(self, s):
        return [g for l, g, t in inv(self.J(s, s.pre))] + list(self.pre(s))
    def pre(self, s): return []
    def post(self, s): return []
    def prepare(self, s):
        if self.crash: s.ctx.ghost['on_db_write'] = lambda ctx, db, before, sync, keys: self.durable(s, db, sync, keys)
    def durable(self, s, db, sync, keys):
        """after every single durable write, a crash must leave a recoverable journal"""
        j = JV(s.ctx, s.thislv, None, self.env)
        ctx = s.ctx
        g = []
        vals = {}
        for k in ('size', 'start', 'commit', 'term', 'epoch'):
            p, v = j.lit(k)
            if len(v.parts) == 1 and is_sym(v.parts[0]) and v.parts[0].decl().name() == 'BE64': vals[k] = v.parts[0].arg(0)
            else: ctx.check(False, 'crash point: stored %s is an encoded integer' % K[k], 'crash'); return
        tag = self.want is None or 'crash' in self.want
        if not tag: return
        ctx.check(And(ile(0, vals['start']), ile(vals['start'], vals['commit']), ilt(vals['commit'], vals['size'])), 'crash point: stored 0 <= log start <= commit index < log size', 'crash')
        for l, f in log_ok(j, vals['size'], vals['start']): ctx.check(f, 'crash point: ' + l, 'crash')
        ctx.check(ilt(vals['epoch'], vals['size']), 'crash point: stored membership epoch lies before the stored log end', 'crash')
        ctx.check(ile(TERM_OF(j.val(isub(vals['size'], 1))), vals['term']), 'crash point: no stored entry is newer than the stored term', 'crash')
    def ensures(self, s):
        o, n = self.J(s, s.pre), self.J(s)
        out = inv(n) + list(self.post(s))
        return [(l, g) for l, g, t in out if self.want is None or (t & self.want)]
    def on_throw(self, s, ty):
        return [(l, g) for l, g, t in self.thrown(s) if self.want is None or (t & self.want)]
    def thrown(self, s):
        """an operation that raises has not changed what is stored"""
        o, n = self.J(s, s.pre), self.J(s)
        return [('a failed operation leaves the stored journal as it was', same_db(o, n), {'log', 'term', 'members', 'crash', 'mirror'})]

def same_db(o, n, but=()):
    a, b = o.db(), n.db()
    g = [a.f['dom'] == b.f['dom'] if not a.f['dom'].eq(b.f['dom']) else True, a.f['val'] == b.f['val'] if not a.f['val'].eq(b.f['val']) else True]
    for k in K:
        if k in but: continue
        p, v = o.lit(k); q, w = n.lit(k)
        g.append(Iff(p, q)); g.append(seq_(v, w))
    return And(*g)

def frame(o, n, ctx, changed):
    """every cached field except the named ones is unchanged"""
    g = []
    for f in ('currentTerm', 'commitIndex', 'logSize', 'logStart', 'membershipEpoch', 'members', 'votedFor', 'clusterID', 'fsyncPolicy', 'termOfLastEntry'):
        if f not in changed: g.append(ctx.lib.eq(ctx, o.f(f), n.f(f)))
    return And(*g)
def same_entries(o, n, lo, hi):
    k = z3.Int(o.ctx.uniq('?k'))
    d, e = o.db().f, n.db().f
    return z3.ForAll([k], z3.Implies(z3.And(zi(lo) <= k, k < zi(hi)), z3.And(z3.Select(d['dom'], k) == z3.Select(e['dom'], k), z3.Select(d['val'], k) == z3.Select(e['val'], k))), patterns=[z3.Select(e['val'], k)])
def synced(s, o, key):
    """the last write that carried `key` was synced to disk (unless the operator chose the async policy)"""
    w = [x for x in s.ctx.events if x[0] == 'dbwrite' and key in x[2]]
    return Or(w[-1][1] if w else False, ieq(o.f('fsyncPolicy'), ASYNC))

class SetCurrentTerm(JournalContract):
    fn = 'quarkdb::RaftJournal::setCurrentTerm'
    def pre(self, s): return [ilt(s.arg(0), LIMIT)]
    def post(self, s):
        o, n, c = self.J(s, s.pre), self.J(s), s.ctx
        t, v = s.argv(0), s.argv(1)
        may = Or(ilt(o.term, t), And(ieq(t, o.term), srv_empty(c, o.vote)))
        T = {'term'}
        return [
            ('accepted exactly when the term advances, or the vote of the current term is still open', Iff(s.ret, may), T),
            ('an accepted update installs the given term', Implies(s.ret, ieq(n.term, t)), T),
            ('an accepted update installs the given vote', Implies(s.ret, c.lib.eq(c, n.vote, v)), T),
            ('a refused update changes neither term nor vote', Implies(Not(s.ret), And(ieq(n.term, o.term), c.lib.eq(c, n.vote, o.vote))), T),
            ('the term never goes back', ile(o.term, n.term), T),
            ('a vote cast in a term never changes within the term', Implies(And(ieq(o.term, n.term), Not(srv_empty(c, o.vote))), c.lib.eq(c, o.vote, n.vote)), T),
            ('the new term and vote are synced to disk before the call returns', Implies(s.ret, And(synced(s, o, K['term']), synced(s, o, K['vote']))), {'term', 'crash'}),
            ('nothing but the term and the vote changes', And(frame(o, n, c, ('currentTerm', 'votedFor')), same_db(o, n, ('term', 'vote'))), {'term', 'log', 'members'}),
        ]
    def durable(self, s, db, sync, keys):
        c = s.ctx
        if self.want is None or 'term' in self.want or 'crash' in self.want:
            c.check((K['term'] in keys) == (K['vote'] in keys), 'setCurrentTerm: term and vote reach the disk in one atomic write', 'crash')
        super().durable(s, db, sync, keys)
    def requires(self, s):
        return super().requires(s)

class SetCommitIndex(JournalContract):
    fn = 'quarkdb::RaftJournal::setCommitIndex'
    def post(self, s):
        o, n, c = self.J(s, s.pre), self.J(s), s.ctx
        x = s.argv(0)
        T = {'log'}
        return [('the commit index never goes back', ile(o.commit, n.commit), T),
                ('accepted exactly when not in the past', Iff(s.ret, ile(o.commit, x)), T),
                ('an accepted commit index is installed', Implies(s.ret, ieq(n.commit, x)), T),
                ('a refused commit index changes nothing', Implies(Not(s.ret), ieq(n.commit, o.commit)), T),
                ('only the commit index changes', And(frame(o, n, c, ('commitIndex',)), same_db(o, n, ('commit',))), {'log', 'term', 'members'})]
    def thrown(self, s):
        o, n = self.J(s, s.pre), self.J(s)
        return super().thrown(s) + [('a failed operation leaves the commit index as it was', ieq(o.commit, n.commit), {'log'})]

class Append(JournalContract):
    fn = 'quarkdb::RaftJournal::append'
    ei = 1
    def pre(self, s):
        e = s.args[self.ei]
        c = FieldLV(FieldLV(e, 'request'), 'contents').get()
        return [ilt(0, c.len())]
    def post(self, s):
        o, n, c = self.J(s, s.pre), self.J(s), s.ctx
        ix = s.argv(0); e = s.args[1]; important = s.argv(2)
        tm = FieldLV(e, 'term').get(s.pre)
        cont = FieldLV(FieldLV(e, 'request'), 'contents').get(s.pre)
        ser = self.env.SER(zi(tm), c.lib.pack(c, cont, self.env.CT))
        el = lambda i: c.lib.elem_get(c, cont, i)
        isup = seq_(el(0), Str(['JOURNAL_UPDATE_MEMBERS']))
        upd = And(isup, seq_(el(2), o.f('clusterID')))
        T = {'log'}; M = {'members'}
        ok = And(ieq(ix, o.size), ile(tm, o.term), ile(o.lastterm, tm))
        pm, pe = n.lit('pmembers'), n.lit('pepoch')
        return [('accepted exactly at the log end, with a term between the last entry and the current term', Iff(s.ret, ok), T),
                ('an accepted entry extends the log by one', Implies(s.ret, ieq(n.size, iadd(o.size, 1))), T),
                ('an accepted entry is stored at its index, term and contents intact', Implies(s.ret, And(n.dom(o.size), n.val(o.size) == ser)), T | {'crash'}),
                ('a refused entry changes nothing', Implies(Not(s.ret), And(frame(o, n, c, ()), same_db(o, n))), T | M),
                ('existing entries are untouched', same_entries(o, n, o.start, o.size), T),
                ('commit index, log start, term and vote are untouched', frame(o, n, c, ('logSize', 'termOfLastEntry', 'members', 'membershipEpoch')), T | {'term'}),
                ('an important entry is synced to disk before the call returns', Implies(And(s.ret, Or(important, ieq(o.f('fsyncPolicy'), ALWAYS))), synced(s, o, '<entry>')), T | {'crash'}),
                ('a membership entry is always synced to disk', Implies(And(s.ret, isup), synced(s, o, '<entry>')), M | {'crash'}),
                ('a membership entry of this cluster takes effect at its index', Implies(And(s.ret, upd), And(ieq(n.epoch, o.size), c.lib.eq(c, n.f('members'), c.lib.unpack(c, self.env.MEMPARSE(el(1).term()), MEM)))), M),
                ('a membership entry remembers the members and epoch it replaces', Implies(And(s.ret, upd), And(pm[0], pe[0], seq_(pe[1], be(c, o.epoch)), mem_same(c, self.env, pm[1], o))), M),
                ('any other entry leaves the membership alone', Implies(Not(And(s.ret, upd)), And(ieq(n.epoch, o.epoch), c.lib.eq(c, n.f('members'), o.f('members')))), M)]
def mem_same(c, env, s, o):
    return env.MEMPARSE(s.term()) == c.lib.pack(c, o.f('members'), MEM)

class AppendMarker(JournalContract):
    fn = 'quarkdb::RaftJournal::appendLeadershipMarker'
    def post(self, s):
        o, n, c = self.J(s, s.pre), self.J(s), s.ctx
        ix, tm = s.argv(0), s.argv(1)
        ok = And(ieq(ix, o.size), ile(tm, o.term), ile(o.lastterm, tm))
        T = {'log'}
        return [('accepted exactly at the log end, with a term between the last entry and the current term', Iff(s.ret, ok), T),
                ('an accepted marker extends the log by one entry of the leader term', Implies(s.ret, And(ieq(n.size, iadd(o.size, 1)), TERM_OF(n.val(o.size)) == zi(tm))), T),
                ('a refused marker changes nothing', Implies(Not(s.ret), And(frame(o, n, c, ()), same_db(o, n))), T),
                ('existing entries are untouched', same_entries(o, n, o.start, o.size), T),
                ('the marker is synced to disk', Implies(s.ret, synced(s, o, '<entry>')), T | {'crash'}),
                ('only the log end moves', frame(o, n, c, ('logSize', 'termOfLastEntry')), T | {'term', 'members'})]

class RemoveEntries(JournalContract):
    fn = 'quarkdb::RaftJournal::removeEntries'
    def pre(self, s):
        j = self.J(s, s.pre); c = s.ctx
        x = s.argv(0)
        # protocol fact: a membership epoch is only superseded once committed, so the epoch rolled back to lies below the cut
        p, v = j.lit('pepoch'); q, w = j.lit('pmembers')
        pe = z3.Int('previousEpoch')
        be64 = c.lib.be64(c, pe)
        return [z3.And(pe >= 0, pe < LIMIT), v.term() == be64, Implies(And(ile(x, j.epoch), ilt(j.commit, x)), And(p, q, ilt(pe, x), self.env.MEMOK(w.term())))]
    def setup(self, ctx, f):
        this, args = super().setup(ctx, f)
        db = FieldLV(this, 'db').get().lv
        d = dict(db.get().f)
        d['P:' + K['pepoch']] = z3.Bool('pepoch.present'); d['V:' + K['pepoch']] = be(ctx, z3.Int('previousEpoch')) if False else Str([ctx.lib.be64(ctx, z3.Int('previousEpoch'))])
        db.set(Struct(rocks.DBT, d))
        return this, args
    def post(self, s):
        o, n, c = self.J(s, s.pre), self.J(s), s.ctx
        x = s.argv(0)
        T = {'log'}; M = {'members'}
        pe = o.lit('pepoch')[1]; pm = o.lit('pmembers')[1]
        roll = And(s.ret, ile(x, o.epoch))
        return [('removal happens exactly when the index lies inside the log', Iff(s.ret, ilt(x, o.size)), T),
                ('committed entries are never removed', Implies(s.ret, ilt(o.commit, x)), T),
                ('removal truncates the log at the index', Implies(s.ret, ieq(n.size, x)), T),
                ('entries before the index are untouched', same_entries(o, n, o.start, Ite(s.ret, x, o.size)), T),
                ('nothing is removed otherwise', Implies(Not(s.ret), And(frame(o, n, c, ()), same_db(o, n))), T | M),
                ('commit index, log start, term and vote are untouched', frame(o, n, c, ('logSize', 'termOfLastEntry', 'members', 'membershipEpoch')), T | {'term'}),
                ('truncating a membership entry brings back the membership it replaced', Implies(roll, And(seq_(be(c, n.epoch), pe), c.lib.eq(c, n.f('members'), c.lib.unpack(c, self.env.MEMPARSE(pm.term()), MEM)))), M),
                ('truncation above the membership epoch leaves the membership alone', Implies(Not(roll), And(ieq(n.epoch, o.epoch), c.lib.eq(c, n.f('members'), o.f('members')))), M)]
    def thrown(self, s):
        # the only read after the write may fail, which ends the process; nothing is promised about cached fields then
        o, n = self.J(s, s.pre), self.J(s)
        k = z3.Int(s.ctx.uniq('?k'))
        return [('a failed removal never removes committed entries', same_entries(o, n, o.start, iadd(o.commit, 1)), {'log'})]

class TrimUntil(JournalContract):
    fn = 'quarkdb::RaftJournal::trimUntil'
    def post(self, s):
        o, n, c = self.J(s, s.pre), self.J(s), s.ctx
        x = s.argv(0)
        T = {'log'}
        return [('the log start never goes back', ile(o.start, n.start), T),
                ('trimming never passes the commit index', ile(n.start, o.commit), T),
                ('trimming moves the log start to the requested index', Implies(ilt(o.start, x), ieq(n.start, x)), T),
                ('a request at or before the log start changes nothing', Implies(ile(x, o.start), And(frame(o, n, c, ()), same_db(o, n))), T),
                ('entries from the new start on are untouched', same_entries(o, n, Ite(ilt(o.start, x), x, o.start), o.size), T),
                ('only the log start moves', frame(o, n, c, ('logStart',)), T | {'term', 'members'})]

class MembershipUpdate(JournalContract):
    fn = 'quarkdb::RaftJournal::membershipUpdate'
    def post(self, s):
        o, n, c = self.J(s, s.pre), self.J(s), s.ctx
        tm = s.argv(0); nm = s.args[1].get(s.pre)
        M = {'members'}
        return [('a change is refused while an earlier one is uncommitted', Implies(s.ret, ile(o.epoch, o.commit)), M),
                ('an accepted change installs the new members at the log end', Implies(s.ret, And(ieq(n.epoch, o.size), ieq(n.size, iadd(o.size, 1)), c.lib.eq(c, n.f('members'), nm))), M),
                ('a refused change leaves members, epoch and log alone', Implies(Not(s.ret), And(frame(o, n, c, ()), same_db(o, n))), M),
                ('the change is recorded as an entry of the given term', Implies(s.ret, TERM_OF(n.val(o.size)) == zi(tm)), M),
                ('the change is synced to disk', Implies(s.ret, synced(s, o, '<entry>')), M)]

class MemberOp(JournalContract):
    """addObserver / promoteObserver / removeMember / demoteToObserver"""
    def post(self, s):
        o, n, c = self.J(s, s.pre), self.J(s), s.ctx
        M = {'members'}
        return [('a change is refused while an earlier one is uncommitted', Implies(s.ret, ile(o.epoch, o.commit)), M),
                ('a refused change leaves members, epoch and log alone', Implies(Not(s.ret), And(frame(o, n, c, ()), same_db(o, n))), M),
                ('an accepted change takes effect at the log end', Implies(s.ret, And(ieq(n.epoch, o.size), ieq(n.size, iadd(o.size, 1)))), M)]
def member_ops():
    out = []
    for m in ('addObserver', 'promoteObserver', 'removeMember', 'demoteToObserver'):
        out.append(type(m, (MemberOp,), {'fn': 'quarkdb::RaftJournal::' + m}))
    return out

class MatchEntries(JournalContract):
    fn = 'quarkdb::RaftJournal::matchEntries'
    def post(self, s):
        o, n, c = self.J(s, s.pre), self.J(s), s.ctx
        ix, tm = s.argv(0), s.argv(1)
        T = {'log'}
        return [('an entry matches exactly when present with the given term', Iff(s.ret, And(ile(o.start, ix), ilt(ix, o.size), TERM_OF(o.val(ix)) == zi(tm))), T),
                ('matching changes nothing', And(frame(o, n, c, ()), same_db(o, n)), T)]
    def pre(self, s): return [ile(0, s.argv(0))]

class CompareEntries(JournalContract):
    fn = 'quarkdb::RaftJournal::compareEntries'
    def pre(self, s):
        e = s.argv(1)
        return [ile(0, s.argv(0)), ilt(s.argv(0), LIMIT), ilt(e.len(), LIMIT), ile(self.J(s, s.pre).start, iadd(s.argv(0), e.len())), ile(s.argv(0), self.J(s, s.pre).size)]
    def same(self, s, j, i):
        c = s.ctx; e = s.argv(1); arr, n = c.lib.vec_arr(c, e)
        x = z3.Select(arr, zi(i) - zi(s.argv(0)))
        ES = c.lib.sort(e.et); RS = c.lib.sort(parse('quarkdb::RedisRequest'))
        req = c.lib.unpack(c, RS.accessor(0, 0)(ES.accessor(0, 1)(x)), self.env.CT)
        mine = c.lib.unpack(c, self.env.REQ_OF(j.val(i)), self.env.CT)
        return And(ES.accessor(0, 0)(x) == TERM_OF(j.val(i)), c.lib.eq(c, mine, req))
    def post(self, s):
        o, n, c = self.J(s, s.pre), self.J(s), s.ctx
        st, e = s.argv(0), s.argv(1)
        end = Ite(ile(o.size, iadd(st, e.len())), o.size, iadd(st, e.len()))
        lo = Ite(ile(o.start, st), st, o.start)
        k = z3.Int(c.uniq('?k'))
        c.in_spec += 1
        try:
            r = [('every entry before the reported index is identical', z3.ForAll([k], z3.Implies(z3.And(zi(lo) <= k, k < zi(s.ret)), zb(self.same(s, o, k)))), {'log'}),
                 ('the reported index differs, or everything in both was compared', Or(ieq(s.ret, end), And(ilt(s.ret, end), Not(self.same(s, o, s.ret)))), {'log'}),
                 ('comparison changes nothing', And(frame(o, n, c, ()), same_db(o, n)), {'log'})]
        finally: c.in_spec -= 1
        return r
    def loop_invs(self, lc):
        ctx = lc.ctx
        if ctx.frame()['fn']['q'] != self.fn: return []
        s = ctx.ghost['scope']; out = []
        for l in lc.ints():
            if not lc.modified(l): continue
            def f(l=l):
                k = z3.Int(ctx.uniq('?k')); ctx.in_spec += 1
                try: return z3.ForAll([k], z3.Implies(z3.And(zi(l.get(lc.entry)) <= k, k < zi(l.get())), zb(self.same(s, self.J(s, s.pre), k))))
                finally: ctx.in_spec -= 1
            out.append(('entries before %s are identical' % l, f))
        return out

class FetchEntry(JournalContract):
    fn = 'quarkdb::RaftJournal::fetch'
    sig_has = 'quarkdb::RaftEntry &'
    def pre(self, s): return [ile(0, s.argv(0))]
    def post(self, s):
        o, n, c = self.J(s, s.pre), self.J(s), s.ctx
        ix = s.argv(0)
        code = s.ret._get().f['code'] if isinstance(s.ret, View) else s.ret.f['code']
        e = s.args[1]
        en = e.get()
        got = And(ieq(c.get_field(en, 'term'), TERM_OF(o.val(ix))), c.lib.eq(c, FieldLV(FieldLV(e, 'request'), 'contents').get(), c.lib.unpack(c, self.env.REQ_OF(o.val(ix)), self.env.CT)))
        return [('a fetched entry is the stored entry', Implies(ieq(code, 0), And(o.dom(ix), got)), {'log'}),
                ('a missing entry is reported as not found', Implies(ieq(code, 1), Not(o.dom(ix))), {'log'}),
                ('fetching changes nothing', And(frame(o, n, c, ()), same_db(o, n)), {'log'})]

class Initialize(JournalContract):
    """reopening: the cached fields are exactly what was stored"""
    fn = 'quarkdb::RaftJournal::initialize'
    crash = False
    def setup(self, ctx, f):
        this, args = super().setup(ctx, f)
        # the stored state satisfies the invariant for ghost values; the object's own fields are arbitrary
        self.ghost = this.get()
        g = ctx.cell('stored', this.ty, this.get())
        for n in ('currentTerm', 'commitIndex', 'logSize', 'logStart', 'membershipEpoch', 'members', 'clusterID', 'termOfLastEntry', 'fsyncPolicy'):
            FieldLV(g, n).set(FieldLV(this, n).get())
        vt = FieldLV(this, 'votedFor').get()
        for n in ('hostname', 'port'): FieldLV(FieldLV(g, 'votedFor'), n).set(ctx.get_field(vt, n))
        ctx.ghost['stored'] = g
        cls = parse('quarkdb::RaftJournal')
        obj = ctx.cell('obj', cls, Struct(cls, {'db': FieldLV(this, 'db').get()}, origin='obj'))
        FieldLV(obj, 'votedFor').set(ctx.lib.default(ctx, SRV))   # a journal object is initialised right after construction
        return obj, args
    def requires(self, s):
        j = JV(s.ctx, s.ctx.ghost['stored'], s.pre, self.env); c = s.ctx
        p, f = j.lit('fsync')
        pol = j.f('fsyncPolicy')
        vs = srv_str(c, j.vote).term()
        # the text of a server parses back to that server (RaftServer::toString / parseServer)
        return [g for l, g, t in inv(j)] + [Or(srv_empty(c, j.vote), And(self.env.SRVOK(vs), self.env.SRVPARSE(vs) == c.lib.pack(c, j.vote, SRV))),
               Implies(srv_empty(c, j.vote), ieq(c.get_field(j.vote, 'port'), 0)),
               p, f.term() == z3.If(zi(pol) == ALWAYS, z3.StringVal('always'), z3.If(zi(pol) == IMPORTANT, z3.StringVal('sync-important-updates'), z3.StringVal('async')))]
    def post(self, s):
        c = s.ctx
        o, n = JV(c, c.ghost['stored'], s.pre, self.env), self.J(s)
        out = []
        for f, d, t in (('currentTerm', 'the term', 'term'), ('votedFor', 'the vote', 'term'), ('commitIndex', 'the commit index', 'log'), ('logSize', 'the log size', 'log'), ('logStart', 'the log start', 'log'),
                     ('membershipEpoch', 'the membership epoch', 'members'), ('members', 'the members', 'members'), ('clusterID', 'the cluster identifier', 'mirror'), ('termOfLastEntry', 'the last term', 'log'), ('fsyncPolicy', 'the fsync policy', 'crash')):
            out.append(('reopening recovers %s' % d, c.lib.eq(c, o.f(f), n.f(f)), {t, 'crash'}))
        out.append(('reopening changes nothing on disk', same_db(o, n), {'crash'}))
        return out

class SetFsync(JournalContract):
    fn = 'quarkdb::RaftJournal::setFsyncPolicy'
    def post(self, s):
        o, n, c = self.J(s, s.pre), self.J(s), s.ctx
        p = s.argv(0)
        return [('the policy is installed', ieq(n.f('fsyncPolicy'), p), {'crash'}),
                ('nothing else changes', And(frame(o, n, c, ('fsyncPolicy',)), same_db(o, n, ('fsync',))), {'crash', 'log', 'term', 'members'})]

class SimulateDataLoss: pass

# ------------------------------------------------------------------ RaftState
def mod_journal(prog, lib, reg, env):
    """journal contracts as used by RaftState (proved above)"""
    L = lib
    def io(ctx):
        if not ctx.branch(ctx.fbool('journal.io')): raise CppThrow('quarkdb::FatalException')
    def sct(ctx, o, args, e):
        j = JV(ctx, o, None, env)
        t = args[0]; v = args[1].get() if isinstance(args[1], LV) else args[1]
        if not ctx.branch(Or(ilt(j.term, t), And(ieq(t, j.term), srv_empty(ctx, j.vote)))): return False
        io(ctx)
        FieldLV(o, 'currentTerm').set(t); FieldLV(o, 'votedFor').set(v)
        ctx.events.append(('term-and-vote durable',))
        return True
    reg.mod['quarkdb::RaftJournal::setCurrentTerm'] = sct
    def marker(ctx, o, args, e):
        j = JV(ctx, o, None, env)
        ix, tm = args[0], args[1]
        if not ctx.branch(And(ieq(ix, j.size), ile(tm, j.term), ile(j.lastterm, tm))): return False
        io(ctx)
        FieldLV(o, 'logSize').set(iadd(j.size, 1)); FieldLV(o, 'termOfLastEntry').set(tm)
        ctx.events.append(('marker', ix, tm))
        return True
    reg.mod['quarkdb::RaftJournal::appendLeadershipMarker'] = marker

class StateContract(Contract):
    env = None; want = None
    lock = True
    def setup(self, ctx, f):
        jc = parse('quarkdb::RaftJournal')
        jl = ctx.cell('journal', jc, Struct(jc, {}, origin='journal'))
        cls = parse('quarkdb::RaftState')
        this = ctx.cell('this', cls, Struct(cls, {'journal': Ptr(jl, False)}, origin='this'))
        st = parse('quarkdb::RaftStateSnapshot')
        sn = ctx.cell('snap', st, Struct(st, {}, origin='snap'))
        FieldLV(this, 'currentSnapshot').set(Ptr(sn, False))
        ctx.ghost['journal'] = jl
        return this, self.mkargs(ctx, f)
    def f(self, s, n, old=False): return FieldLV(s.thislv, n).get(s.pre if old else None)
    def j(self, s, old=False): return JV(s.ctx, s.ctx.ghost['journal'], s.pre if old else None, self.env)
    def inv(self, s, old):
        c = s.ctx; g = lambda n: self.f(s, n, old); j = self.j(s, old)
        eq = lambda a, b: c.lib.eq(c, a, b)
        sn = g('currentSnapshot').lv
        sf = lambda n: FieldLV(sn, n).get(s.pre if old else None)
        st = g('status')
        T, R = {'term'}, {'role'}
        return [
            ('the term in memory is the journalled term', ieq(g('term'), j.term), T),
            ('the vote in memory is the journalled vote', eq(g('votedFor'), j.vote), T),
            ('a candidate has voted for itself', Implies(ieq(st, CANDIDATE), eq(g('votedFor'), g('myself'))), T | R),
            ('a leader is the recognised leader and has voted for itself', Implies(ieq(st, LEADER), And(eq(g('leader'), g('myself')), eq(g('votedFor'), g('myself')))), R),
            ('a leader has a leadership marker, nobody else does', And(Implies(ieq(st, LEADER), ile(0, g('leadershipMarker'))), Implies(Not(ieq(st, LEADER)), ieq(g('leadershipMarker'), -1))), R),
            ('once a leader is recognised no further vote can be cast in the term', Implies(Not(srv_empty(c, g('leader'))), Not(srv_empty(c, g('votedFor')))), T | R),
            ('the published snapshot shows term, role, leader, vote and marker of one state', And(ieq(sf('term'), g('term')), ieq(sf('status'), g('status')), eq(sf('leader'), g('leader')), eq(sf('votedFor'), g('votedFor')), ieq(sf('leadershipMarker'), g('leadershipMarker'))), R),
        ]
    def requires(self, s):
        c = s.ctx
        j = self.j(s, True)
        me = self.f(s, 'myself', True)
        bv = c.global_lv({'q': 'quarkdb::RaftState::BLOCKED_VOTE', 't': 'quarkdb::RaftServer', 'g': True, 'n': 'BLOCKED_VOTE', 'id': -1}).get()
        return [g for l, g, t in self.inv(s, True)] + [z3.And(zi(j.size) > 0, zi(j.size) < LIMIT), Not(srv_empty(c, me)), Not(srv_empty(c, bv)), Not(c.lib.eq(c, me, bv))] + list(self.pre(s))
    def pre(self, s): return []
    def prepare(self, s):
        if self.lock and (self.want is None or 'role' in self.want):
            names = {'term', 'status', 'leader', 'votedFor', 'leadershipMarker'}
            def guard(ctx, b, name):
                if name in names and isinstance(b, CellLV) and b.c is s.thislv.c and not ctx.in_spec:
                    ctx.check(any(l.endswith('.update') for l in ctx.locks), 'term, role, leader and vote are only touched under the state lock', 'lock')
            s.ctx.ghost['guard'] = guard
    def step(self, s):
        """transition relation of every public operation"""
        c = s.ctx; o = lambda n: self.f(s, n, True); n_ = lambda n: self.f(s, n)
        eq = lambda a, b: c.lib.eq(c, a, b)
        same = ieq(o('term'), n_('term'))
        T, R = {'term'}, {'role'}
        return [
            ('the term never goes back', ile(o('term'), n_('term')), T | R),
            ('a vote cast in a term never changes within the term', Implies(And(same, Not(srv_empty(c, o('votedFor')))), eq(o('votedFor'), n_('votedFor'))), T),
            ('a recognised leader never changes within a term', Implies(And(same, Not(srv_empty(c, o('leader')))), eq(o('leader'), n_('leader'))), R),
            ('shutdown is final', Implies(ieq(o('status'), SHUTDOWN), ieq(n_('status'), SHUTDOWN)), R),
            ('leadership is only reached from candidacy in the same term', Implies(And(ieq(n_('status'), LEADER), Not(ieq(o('status'), LEADER))), And(ieq(o('status'), CANDIDATE), same, srv_empty(c, o('leader')))), R),
            ('candidacy is only reached from follower in the same term without a vote or leader', Implies(And(ieq(n_('status'), CANDIDATE), Not(ieq(o('status'), CANDIDATE))), And(ieq(o('status'), FOLLOWER), same, srv_empty(c, o('leader')), srv_empty(c, o('votedFor')))), R),
            ('a higher term always means stepping down', Implies(And(Not(same), Not(ieq(o('status'), SHUTDOWN))), ieq(n_('status'), FOLLOWER)), R),
            ('own identity never changes', eq(o('myself'), n_('myself')), R),
        ]
    def post(self, s): return []
    def ensures(self, s):
        out = self.inv(s, False) + self.step(s) + list(self.post(s))
        return [(l, g) for l, g, t in out if self.want is None or t & self.want]
    def on_throw(self, s, ty):
        c = s.ctx
        a = self.f(s, 'currentSnapshot', True).lv; b = self.f(s, 'currentSnapshot').lv
        out = [('nothing is published when the journal cannot be written', a.root() is b.root(), {'term', 'role'})]
        return [(l, g) for l, g, t in out if self.want is None or t & self.want]
    def unchanged(self, s, but=()):
        c = s.ctx
        return And(*[c.lib.eq(c, self.f(s, n, True), self.f(s, n)) for n in ('term', 'status', 'leader', 'votedFor', 'leadershipMarker') if n not in but])
    def nodes_has_me(self, s):
        c = s.ctx; j = s.ctx.ghost['journal']
        nodes = FieldLV(FieldLV(j, 'members'), 'nodes').get(s.pre)
        return self.env.CONTAINS(c.lib.pack(c, nodes, parse('std::vector<quarkdb::RaftServer>')), c.lib.pack(c, self.f(s, 'myself', True), SRV))

class Observed(StateContract):
    fn = 'quarkdb::RaftState::observed'
    def pre(self, s): return [ilt(s.argv(0), LIMIT)]
    def post(self, s):
        c = s.ctx; o = lambda n: self.f(s, n, True); n_ = lambda n: self.f(s, n)
        eq = lambda a, b: c.lib.eq(c, a, b); R = {'role'}; T = {'term'}
        t, l = s.argv(0), s.argv(1)
        down = ieq(o('status'), SHUTDOWN)
        newer = And(Not(down), ilt(o('term'), t)); same = And(Not(down), ieq(t, o('term')), srv_empty(c, o('leader')))
        return [('reports a change exactly for a newer term, or when the leader of the current term was unknown', Iff(s.ret, Or(newer, same)), R),
                ('a newer term is adopted with its leader', Implies(newer, And(ieq(n_('term'), t), eq(n_('leader'), l))), R | T),
                ('a newer term starts without a vote, or with voting blocked when its leader is known', Implies(newer, Iff(srv_empty(c, n_('votedFor')), srv_empty(c, l))), T),
                ('the leader of the current term is recognised when none was', Implies(same, And(eq(n_('leader'), l), ieq(n_('term'), o('term')), ieq(n_('status'), o('status')))), R),
                ('anything else changes nothing', Implies(Not(s.ret), self.unchanged(s)), R | T)]
class GrantVote(StateContract):
    fn = 'quarkdb::RaftState::grantVote'
    def pre(self, s): return [Not(srv_empty(s.ctx, s.argv(1)))]
    def post(self, s):
        c = s.ctx; o = lambda n: self.f(s, n, True); n_ = lambda n: self.f(s, n)
        eq = lambda a, b: c.lib.eq(c, a, b); T = {'term', 'role'}
        t, v = s.argv(0), s.argv(1)
        ok = And(ieq(o('status'), FOLLOWER), ieq(t, o('term')), srv_empty(c, o('leader')), srv_empty(c, o('votedFor')))
        return [('a vote is granted exactly to the first asker of the current term while following nobody', Iff(s.ret, ok), T),
                ('a granted vote is recorded', Implies(s.ret, And(eq(n_('votedFor'), v), self.unchanged(s, ('votedFor',)))), T),
                ('a granted vote is durable before it is reported', Implies(s.ret, ('term-and-vote durable',) in c.events), T),
                ('a refused vote changes nothing', Implies(Not(s.ret), self.unchanged(s)), T)]
class BecomeCandidate(StateContract):
    fn = 'quarkdb::RaftState::becomeCandidate'
    def post(self, s):
        c = s.ctx; o = lambda n: self.f(s, n, True); n_ = lambda n: self.f(s, n)
        eq = lambda a, b: c.lib.eq(c, a, b); T = {'term', 'role'}; R = {'role'}
        t = s.argv(0)
        ok = And(ieq(o('status'), FOLLOWER), ieq(t, o('term')), srv_empty(c, o('leader')), srv_empty(c, o('votedFor')), self.nodes_has_me(s))
        return [('candidacy is declared exactly by a voting follower of the current term without vote or leader', Iff(s.ret, ok), R),
                ('a candidate votes for itself, durably', Implies(s.ret, And(eq(n_('votedFor'), o('myself')), ieq(n_('status'), CANDIDATE), ('term-and-vote durable',) in c.events)), T),
                ('a refused candidacy changes nothing', Implies(Not(s.ret), self.unchanged(s)), T)]
class Ascend(StateContract):
    fn = 'quarkdb::RaftState::ascend'
    def post(self, s):
        c = s.ctx; o = lambda n: self.f(s, n, True); n_ = lambda n: self.f(s, n)
        eq = lambda a, b: c.lib.eq(c, a, b); R = {'role'}
        t = s.argv(0); j = self.j(s, True)
        can = And(ieq(o('status'), CANDIDATE), ieq(t, o('term')), srv_empty(c, o('leader')), self.nodes_has_me(s))
        mk = [e for e in c.events if e[0] == 'marker']
        return [('only a candidate of the current term that is a voting member ascends', Implies(s.ret, can), R),
                ('a new leader recognises itself', Implies(s.ret, And(ieq(n_('status'), LEADER), eq(n_('leader'), o('myself')))), R),
                ('a new leader has appended a leadership marker of its term at the log end', Implies(s.ret, And(len(mk) == 1, And(ieq(mk[0][1], j.size), ieq(mk[0][2], t), ieq(n_('leadershipMarker'), j.size)) if mk else False)), R),
                ('ascending succeeds when nothing forbids it', Implies(And(can, ile(j.lastterm, t)), s.ret), R),
                ('a refused ascent changes nothing', Implies(Not(s.ret), self.unchanged(s)), R)]
class DropOut(StateContract):
    fn = 'quarkdb::RaftState::dropOut'
    def post(self, s):
        c = s.ctx; o = lambda n: self.f(s, n, True); n_ = lambda n: self.f(s, n); R = {'role'}
        return [('only a candidate of the given term drops out', Iff(s.ret, And(ieq(o('status'), CANDIDATE), ieq(s.argv(0), o('term')))), R),
                ('dropping out means following again', Implies(s.ret, And(ieq(n_('status'), FOLLOWER), self.unchanged(s, ('status',)))), R),
                ('a refused drop-out changes nothing', Implies(Not(s.ret), self.unchanged(s)), R)]
class Shutdown(StateContract):
    fn = 'quarkdb::RaftState::shutdown'
    def post(self, s):
        return [('shutdown ends in the shutdown role with term, leader and vote intact', And(ieq(self.f(s, 'status'), SHUTDOWN), self.unchanged(s, ('status', 'leadershipMarker'))), {'role'}),
                ('everybody waiting is woken', any(e[0] == 'notify' for e in s.ctx.events), {'role'})]
class StateCtor(StateContract):
    fn = 'quarkdb::RaftState::RaftState'
    lock = False
    nparams = 2
    def setup(self, ctx, f):
        jc = parse('quarkdb::RaftJournal')
        jl = ctx.cell('journal', jc, Struct(jc, {}, origin='journal'))
        ctx.ghost['journal'] = jl
        cls = parse('quarkdb::RaftState')
        this = ctx.cell('this', cls, Struct(cls, {'leader': ctx.lib.default(ctx, SRV), 'votedFor': ctx.lib.default(ctx, SRV)}))
        return this, [jl, ctx.cell('me', SRV, ctx.lib.fresh(ctx, SRV, 'me'))]
    def requires(self, s): return [Not(srv_empty(s.ctx, s.argv(1)))]
    def ensures(self, s):
        c = s.ctx
        out = self.inv(s, False) + [('a restarted node follows', ieq(self.f(s, 'status'), FOLLOWER), {'role'}), ('a restarted node knows no leader', srv_empty(c, self.f(s, 'leader')), {'role'}),
               ('a restarted node keeps its identity', c.lib.eq(c, self.f(s, 'myself'), s.argv(1)), {'role'})]
        # a recognised leader blocks votes: trivially, none is recognised
        return [(l, g) for l, g, t in out if self.want is None or t & self.want]
    def on_throw(self, s, ty): return []

class Contains(Contract):
    fn = 'quarkdb::contains'
    def ensures(self, s):
        c = s.ctx; v = s.argv(0); x = s.argv(1)
        arr, n = c.lib.vec_arr(c, v); X = c.lib.pack(c, x, v.et)
        k = z3.Int(c.uniq('?k'))
        return [('reports membership exactly', Iff(s.ret, z3.Exists([k], z3.And(k >= 0, k < zi(n), z3.Select(arr, k) == X))))]

# ------------------------------------------------------------------ units
def unit(cls, want, state=False):
    from cxv.runner import Unit
    def mk(prog):
        lib = Lib(prog); reg = Registry()
        lib.abstract_str.add('quarkdb::PinnedBuffer')
        env = Env(lib); install(prog, lib, reg, env)
        if state: mod_journal(prog, lib, reg, env)
        c = cls(); c.env = env; c.want = set(want) if want else None
        if cls is Contains:
            for f in select(prog, c): reg.mod.pop(f['sig'], None)
        return lib, reg, c
    return Unit(mk, cls.__name__)
def units(jwant, swant, jcls, scls):
    return [unit(c, jwant) for c in jcls] + [unit(c, swant, True) for c in scls]
ASSUME = ['terms, indexes and sizes stay below 2^60',
          'each RocksDB call is atomic, returns what was last written under the key, fails with an error status leaving the database unchanged, and a write issued with sync=true is durable when it returns',
          'membership and server texts: toString and the parser are inverse (decided in C06 by harness), RaftEntry::serialize/deserialize are inverse (C05)',
          'the raft protocol only rolls back one uncommitted membership epoch (precondition of removeEntries)',
          'mutual exclusion by std::mutex; interleavings inside one locked region are not explored',
          'log messages and stack traces have no effect on state']
