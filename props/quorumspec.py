"""contracts of quorums: commitment, elections, leader leases (C07)"""
from cxv.spec import *
Q = 'quarkdb::'
CT, MI, RL, LC, VR = Q + 'RaftCommitTracker', Q + 'RaftMatchIndexTracker', Q + 'RaftLease', Q + 'RaftLastContact', Q + 'RaftVoteRegistry'
SRV = parse(Q + 'RaftServer'); IS, BS, SS = z3.IntSort(), z3.BoolSort(), z3.StringSort()
LIM = 1 << 60
def val(x): return x.get() if isinstance(x, LV) else x
def gf(lv, n, snap=None): return FieldLV(lv, n).get(snap)
def quorum(n): return zi(n) / 2 + 1

class Count:
    """spec function: how many i < k satisfy pred(a1[i], .., x..) (by recursion on k; only its unfoldings are used)"""
    def __init__(self, name, pred): self.name, self.pred = name, pred
    def __call__(self, ctx, arrs, k, extra=(), at=None):
        """at(i): the values at position i (default: the elements of the arrays)"""
        ex = [zi(x) if not isinstance(x, (z3.BoolRef, bool)) else zb(x) for x in extra]; K = zi(simp0_(zi(k)))
        f = z3.Function('%s<%s>' % (self.name, ','.join(str(a.sort()) for a in arrs)), *([a.sort() for a in arrs] + [x.sort() for x in ex] + [IS, IS])); t = f(*(arrs + ex + [K]))
        key = ('count', t.get_id())
        if key not in ctx.memo:
            ctx.memo[key] = True; ctx.memo.setdefault('keep', []).append(t); j = simp0_(K - 1)
            if ctx.V.unroll is not None and ctx.ghost.get('$folddepth', 0) < ctx.V.unroll + 1:
                ctx.ghost['$folddepth'] = ctx.ghost.get('$folddepth', 0) + 1
                self(ctx, arrs, j, extra, at); ctx.ghost['$folddepth'] -= 1
            els = at(j) if at else [z3.Select(a, j) for a in arrs]
            ctx.in_spec += 1
            try: p = zb(self.pred(ctx, *(list(els) + ex)))
            finally: ctx.in_spec -= 1
            prev = f(*(arrs + ex + [j])); ctx.assume(z3.Implies(K <= 0, t == 0)); ctx.assume(z3.Implies(K > 0, z3.And(t == prev + z3.If(p, 1, 0), prev >= 0, prev < K)))
        return t
CNTGE = Count('HOLD', lambda ctx, x, v: x >= v)          # how many of the first k are at least v

def lemmas(s):
    """counting in a sorted sequence, by induction on k (base and step discharged here)"""
    ctx = s.ctx; a = z3.Array('?la', IS, IS); t, k, n, v, c = z3.Ints('?lt ?lk ?ln ?lv ?lc'); i, j = z3.Ints('?li ?lj')
    srt = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), z3.Select(a, i) <= z3.Select(a, j)), patterns=[z3.MultiPattern(z3.Select(a, i), z3.Select(a, j))])
    step = lambda x: c + z3.If(z3.Select(a, k) >= x, 1, 0)
    h = z3.And(srt, 0 <= t, t < n, 0 <= k, k < n)
    return [('lemma: at least n-t elements reach element t (step)', z3.Implies(z3.And(h, c >= z3.If(k > t, k - t, 0), v == z3.Select(a, t)), step(v) >= z3.If(k + 1 > t, k + 1 - t, 0))),
            ('lemma: fewer than n-t elements exceed element t (step)', z3.Implies(z3.And(h, c <= z3.If(k > t, k - t - 1, 0), v > z3.Select(a, t)), step(v) <= z3.If(k + 1 > t, k + 1 - t - 1, 0)))]
def sorted_count(s, v):
    """what the lemmas and the contract of std::sort (the multiset stays) give for the count of elements >= v"""
    ctx = s.ctx
    for (arr, na, n, p, q) in ctx.ghost.get('sorts', []):
        N = zi(n); t = z3.Int('?st'); ctx.assume(CNTGE(ctx, [na], N, (v,)) == CNTGE(ctx, [arr], N, (v,)))
        ctx.assume(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < N, v == z3.Select(na, t)), CNTGE(ctx, [na], N, (v,)) >= N - t), patterns=[z3.Select(na, t)]))
        ctx.assume(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < N, v > z3.Select(na, t)), CNTGE(ctx, [na], N, (v,)) <= N - t - 1), patterns=[z3.Select(na, t)]))

# ---------------------------------------------------------------- maps of trackers
def begin(ctx, mlv, snap=None):
    """enumeration of the keys of a map, in the state of the snapshot"""
    c = ctx.cell('$enum', mlv.ty, mlv.get(snap)); return ctx.lib.map_begin(ctx, c).extra[1]
def heap(s, t, f, snap=None): return s.ctx.heap[(t, f)].get(snap)
class Tracked:
    """the values kept by the trackers of the targets, in the order of the map"""
    def __init__(self, t, f): self.t, self.f = t, f
    def __call__(self, s):
        ctx = s.ctx; m = FieldLV(s.thislv, 'targets'); key = ('tracked', id(self), m.get(s.pre).dom.get_id())
        if key not in ctx.memo:
            e = begin(ctx, m, s.pre); v = m.get(s.pre).val; h = named(ctx, heap(s, self.t, self.f, s.pre)); a = z3.Array(ctx.uniq('?held'), IS, IS); i = z3.Int(ctx.uniq('?hi'))
            ctx.assume(z3.ForAll([i], z3.Select(a, i) == z3.Select(h, z3.Select(v, z3.Select(e, i))), patterns=[z3.Select(a, i)])); ctx.assume(z3.ForAll([i], z3.Select(a, i) == z3.Select(h, z3.Select(v, z3.Select(e, i))), patterns=[z3.Select(e, i)]))
            ctx.memo[key] = (a, zi(m.get(s.pre).n))
        return ctx.memo[key]
HELD, HEARD = Tracked(MI, 'matchIndex'), Tracked(LC, 'lastCommunication')
def places(lc):
    """sequences of integers: locals and fields of this"""
    out = [l for l in lc.locals() if isinstance(l.get(), Vec)]; th = lc.this()
    if th is not None and isinstance(th.get(), Struct):
        for n, x in list(th.get().f.items()):
            if isinstance(x, Vec): out.append(FieldLV(th, n))
    return out
def mapcounters(lc):
    out = list(counters(lc))
    for l in lc.locals():
        v = l.get()
        if isinstance(v, Iter) and v.kind == 'map' and v.extra and v.extra[0] == 'enum': out.append(Counter(l, 'iter'))
    return out
def collect_inv(held):
    def gen(lc):
        ctx = lc.ctx; s = ctx.ghost['scope']; a, n = held(s); out = []; L = ctx.lib
        for c in mapcounters(lc):
            if not lc.modified(c.l): continue
            out += [('%s stays within the map' % c.l, lambda c=c: And(ile(0, c.get()), ile(c.get(), n)))]
            for p in places(lc):
                def upto(p=p, c=c):
                    v = p.get(); arr, m = L.vec_arr(ctx, v); i = z3.Int(ctx.uniq('?ci')); return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(c.get())), z3.Select(arr, i) == z3.Select(a, i)), patterns=[z3.Select(arr, i)])
                out += [('%s holds the values of the first %s' % (p, c.l), upto), ('%s is as long as %s' % (p, c.l), lambda p=p, c=c: ieq(p.get().len(), c.get())), ('%s is as long as the map' % p, lambda p=p: ieq(p.get().len(), n))]
            for d in mapcounters(lc):
                if d is not c and lc.modified(d.l): out.append(('%s = %s' % (c.l, d.l), lambda c=c, d=d: ieq(c.get(), d.get())))
        return out
    return gen
def agree(s, a, n):
    """lemma (induction): sequences that agree below n have equal counts"""
    ctx = s.ctx
    for (arr, na, m, p, q) in ctx.ghost.get('sorts', []):
        i = z3.Int('?ag'); same = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(arr, i) == z3.Select(a, i)), patterns=[z3.Select(arr, i)])
        yield arr, zi(m), same
def counted(s, held, v):
    a, n = held(s); ctx = s.ctx
    for arr, m, same in agree(s, a, n): ctx.assume(z3.Implies(z3.And(same, m == n), CNTGE(ctx, [arr], m, (v,)) == CNTGE(ctx, [a], n, (v,))))
    sorted_count(s, v); return CNTGE(ctx, [a], n, (v,))

# ---------------------------------------------------------------- commit tracker
def sane(s, snap=None):
    """class invariant: the quorum is that of the targets and this node"""
    m = gf(s.thislv, 'targets', snap); k = z3.Const(s.ctx.uniq('?nn'), m.dom.sort().domain())
    return [ieq(gf(s.thislv, 'quorumSize', snap), quorum(iadd(m.n, 1))), ile(0, m.n), ile(m.n, 1 << 30), z3.ForAll([k], z3.Implies(z3.Select(m.dom, k), z3.Select(m.val, k) > 0), patterns=[z3.Select(m.val, k)])]
def distinct(s, i=0):
    """the servers given are distinct"""
    ctx = s.ctx; v = s.argv(i); arr, n = ctx.lib.vec_arr(ctx, v); j = z3.Int('?dj'); POS = z3.Function('POS', ctx.lib.sort(SRV), IS)
    return [z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(n)), POS(z3.Select(arr, j)) == j), patterns=[z3.Select(arr, j)]), ilt(n, 1 << 30)]
def among(s, k, n, i=0):
    ctx = s.ctx; arr, _ = ctx.lib.vec_arr(ctx, s.args[i].get(s.pre)); POS = z3.Function('POS', ctx.lib.sort(SRV), IS); return z3.And(0 <= POS(k), POS(k) < zi(n), z3.Select(arr, POS(k)) == k)
def below_top(s, name='registrations', snap=None):
    """trackers in use were created before"""
    ctx = s.ctx; m = gf(s.thislv, name, snap); k = z3.Const(ctx.uniq('?bk'), m.dom.sort().domain()); v = z3.Select(m.val, k)
    return [z3.ForAll([k], z3.Implies(z3.Select(m.dom, k), z3.And(v > 0, v <= ctx.heap['top'].get(snap))), patterns=[z3.Select(m.val, k)])]
def kept_trackers(s, t, fields):
    """trackers already there stay, with what they have recorded"""
    ctx = s.ctx; a, b = gf(s.thislv, 'registrations', s.pre), gf(s.thislv, 'registrations'); k = z3.Const(ctx.uniq('?kk'), a.dom.sort().domain()); u = z3.Int(ctx.uniq('?ku')); top = ctx.heap['top']
    out = [('known servers keep their trackers', z3.ForAll([k], z3.Implies(z3.Select(a.dom, k), z3.And(z3.Select(b.dom, k), z3.Select(b.val, k) == z3.Select(a.val, k))), patterns=[z3.Select(b.val, k)]))]
    for f in fields: out.append(('what is known of them stays: ' + f, z3.ForAll([u], z3.Implies(u <= top.get(s.pre), z3.Select(heap(s, t, f), u) == z3.Select(heap(s, t, f, s.pre), u)))))
    return out + [('trackers are valid', And(*below_top(s))), ('identities grow', ile(top.get(s.pre), top.get()))]
def reset_targets(s, n):
    """targets: the first n servers given, each with its own tracker"""
    ctx = s.ctx; m, r = gf(s.thislv, 'targets'), gf(s.thislv, 'registrations'); k = z3.Const(ctx.uniq('?tk'), m.dom.sort().domain())
    return [('the servers that count are those given', z3.ForAll([k], z3.Select(m.dom, k) == among(s, k, n), patterns=[z3.Select(m.dom, k)])), ('each with its own tracker', z3.ForAll([k], z3.Implies(z3.Select(m.dom, k), z3.And(z3.Select(r.dom, k), z3.Select(m.val, k) == z3.Select(r.val, k))), patterns=[z3.Select(m.val, k)])),
            ('each once', ieq(m.n, n))]
def targets_inv(t, fields):
    def gen(lc):
        ctx = lc.ctx; s = ctx.ghost['scope']; out = []
        for i, (n, x) in enumerate(kept_trackers(s, t, fields)): out.append((n, lambda i=i: kept_trackers(s, t, fields)[i][1]))
        for c in counters(lc):
            if lc.modified(c.l): out += [('%s: %s' % (n, c.l), lambda i=i, c=c: reset_targets(s, c.get())[i][1]) for i, (n, x) in enumerate(reset_targets(s, 0))] + [('%s within' % c.l, lambda c=c: And(ile(0, c.get()), ile(c.get(), s.argv(0).len())))]
        return out
    return gen
def updated_targets(t, fields):
    def post(s):
        n = s.argv(0).len()
        return reset_targets(s, n) + kept_trackers(s, t, fields) + [('the quorum is a majority of the servers given and this node', ieq(gf(s.thislv, 'quorumSize'), quorum(iadd(n, 1))))] + auto(s)
    return post
def auto(s):
    if 'auto' not in s.ctx.ghost: return []
    return [('a node alone commits by itself, and only then', Iff(ieq(s.argv(0).len(), 0), s.ctx.ghost['auto'].get()))]
def handler(t, fields, new):
    def post(s):
        ctx = s.ctx; r = gf(s.thislv, 'registrations'); o = gf(s.thislv, 'registrations', s.pre); k = ctx.lib.pack(ctx, s.argv(0), SRV)
        ret = getattr(s, 'retlv', None)
        if not isinstance(ret, HeapLV): return [('a tracker is returned', False)]
        n = [('the tracker of the server is returned', And(z3.Select(r.dom, k), ret.uid == z3.Select(r.val, k))), ('no other server is affected', z3.ForAll([z3.Const('?hk', k.sort())], z3.Implies(z3.Const('?hk', k.sort()) != k, z3.Select(r.dom, z3.Const('?hk', k.sort())) == z3.Select(o.dom, z3.Const('?hk', k.sort()))))),
             ('a new tracker knows of nothing', z3.Implies(z3.Not(z3.Select(o.dom, k)), And(ret.uid > ctx.heap['top'].get(s.pre), *[z3.Select(heap(s, t, f), ret.uid) == new[f] for f in fields])))]
        return n + kept_trackers(s, t, fields)
    return post
def install(prog, lib, reg):
    lib.heap_types = [MI, LC]
    lib._heapf[MI] = [('matchIndex', parse('long'))]; lib._heapf[LC] = [('lastCommunication', parse('long'))]
    reg.mod[Q + 'AssistedThread::join'] = lambda ctx, o, args, e: ctx.ghost['auto'].set(False) if 'auto' in ctx.ghost else None
    reg.mod[Q + 'AssistedThread::reset'] = lambda ctx, o, args, e: ctx.ghost['auto'].set(True) if 'auto' in ctx.ghost else None
    reg.mod[Q + 'AssistedThread::setName'] = lambda ctx, o, args, e: None
    lib.extra_methods[(Q + 'AssistedThread', 'reset')] = lambda L, ctx, o, e: ctx.ghost['auto'].set(True) if 'auto' in ctx.ghost else None
    reg.mod[Q + 'RaftJournal::getCommitIndex'] = lambda ctx, o, args, e: ctx.ghost['committed'].get()
    def setc(ctx, o, args, e):
        i = val(args[0]); ctx.check(ile(ctx.ghost['committed'].get(), i), 'the commit index never goes back', 'pre'); ctx.ghost['sets'] = ctx.ghost['sets'] + [i]; ctx.ghost['committed'].set(i); return True
    reg.mod[Q + 'RaftJournal::setCommitIndex'] = setc
    reg.mod[CT + '::updateCommitIndex'] = lambda ctx, o, args, e: ctx.ghost.__setitem__('proposed', ctx.ghost.get('proposed', []) + [val(args[0])])
    reg.mod[CT + '::recalculateCommitIndex'] = lambda ctx, o, args, e: ctx.ghost.__setitem__('recalculated', ctx.ghost.get('recalculated', 0) + 1)
    def upd(ctx, o, args, e): ctx.ghost['told'] = ctx.ghost.get('told', []) + [(val(args[0]), gf(ctx.ghost['mi'], 'matchIndex'))]
    reg.mod[CT + '::updated'] = upd
def setup(auto=False):
    def f(self, ctx, fn):
        cls = parse(fn['cls']); L = ctx.lib; f0 = {}
        for n, t in L.rec_fields(cls):
            if n in ('targets', 'registrations', 'matchIndexes', 'quorumSize', 'commitIndex', 'commitIndexLagging', 'leaseDuration', 'mContents', 'mPreVote', 'mTerm'): f0[n] = L.fresh(ctx, t, 'this.' + n)
        this = ctx.cell('this', cls, Struct(cls, f0, origin='this')); ctx.ghost['committed'] = ctx.cell('committed', parse('long'), z3.Int('committed0')); ctx.ghost['sets'] = []
        if auto: ctx.ghost['auto'] = ctx.cell('auto', parse('bool'), z3.Bool('auto0'))
        return this, self.mkargs(ctx, fn)
    return f
def recalculated(s):
    ctx = s.ctx; a, n = HELD(s); p = ctx.ghost.get('proposed', [])
    if ctx.branch(ieq(n, 0)): return [('alone, nothing is done here', len(p) == 0)]
    out = [('one index is put forward', len(p) == 1)]
    if len(p) == 1:
        c = zi(p[0]); q = zi(gf(s.thislv, 'quorumSize', s.pre)); x, y = counted(s, HELD, c), counted(s, HELD, z3.simplify(c + 1))
        out += [('a quorum holds every entry up to the index put forward', x + 1 >= q), ('no later entry is held by a quorum', y + 1 < q)]
    return out + lemmas(s)
def committed(s):
    i = s.argv(0); o = s.ctx.ghost['committed'].get(s.pre); n = s.ctx.ghost['committed'].get()
    return [('an index below the known one changes nothing', Implies(ilt(i, o), ieq(n, o))), ('otherwise it is committed', Implies(ile(o, i), ieq(n, i))), ('and remembered', Implies(ile(o, i), ieq(gf(s.thislv, 'commitIndex'), i)))]
def told(s):
    r = s.ctx.ghost.get('recalculated', 0); old = gf(s.thislv, 'commitIndex', s.pre)
    return [('progress is considered', Or(ile(s.argv(0), old), r == 1)), ('nothing else changes', ieq(gf(s.thislv, 'commitIndex'), old))]
def match_setup(self, ctx, fn):
    this = ctx.cell('this', parse(MI), Struct(parse(MI), {'matchIndex': z3.Int('matchIndex0'), 'tracker': Ptr(ctx.cell('tracker', parse(CT), Struct(parse(CT), {}, origin='tracker')))}, origin='this')); ctx.ghost['mi'] = this
    return this, self.mkargs(ctx, fn)
def matched(s):
    i = s.argv(0); t = s.ctx.ghost.get('told', [])
    return [('the tracker holds the latest index', ieq(gf(s.thislv, 'matchIndex'), i)), ('the commit tracker is told, once, afterwards', And(len(t) == 1, ieq(t[0][0], i), ieq(t[0][1], i)) if t else False)]
COMMITU = [
    spec(CT + '::recalculateCommitIndex', recalculated, sane, invs=collect_inv(HELD), setup=setup(), name='recalculateCommitIndex'),
    spec(CT + '::updateCommitIndex', committed, setup=setup(), name='updateCommitIndex'),
    spec(CT + '::updated', told, setup=setup(), name='updated'),
    spec(MI + '::update', matched, setup=match_setup, name='update'),
    spec(CT + '::getHandlerInternal', handler(MI, ['matchIndex'], {'matchIndex': 0}), below_top, setup=setup(), name='getHandlerInternal'),
    spec(CT + '::updateTargets', updated_targets(MI, ['matchIndex']), lambda s: distinct(s) + below_top(s), invs=targets_inv(MI, ['matchIndex']), setup=setup(True), name='updateTargets'),
]

# ---------------------------------------------------------------- leader leases
def nth(s):
    """the n-th latest contact decides, this node counting as always in contact"""
    ctx = s.ctx; a, n = HEARD(s); k = zi(s.argv(0)); d = zi(gf(s.thislv, 'leaseDuration', s.pre)); q = zi(gf(s.thislv, 'quorumSize', s.pre)); r = zi(s.ret)
    if ctx.branch(n == 0): return [('alone, the lease never ends', r >= NOW0 + d)]
    x = z3.simplify(r - d); lo, hi = counted(s, HEARD, x), counted(s, HEARD, z3.simplify(x + 1))
    return [('enough nodes were heard from at that time or later', Or(lo + 1 >= k, lo >= n)), ('and not later', hi + 1 < k)] + lemmas(s)
NOW0 = z3.Int('entry.now')
def setup_now(self, ctx, f): ctx.ghost['now'] = NOW0; return setup()(self, ctx, f)
def nthpre(s):
    k = zi(s.argv(0)); q = zi(gf(s.thislv, 'quorumSize')); return sane(s) + [Or(k == q, k == q + 1)]
def deadline(s):
    c = s.ctx.ghost.get('nth', []); return [('the lease is that of the quorum', And(len(c) == 1, ieq(c[0][0], iadd(gf(s.thislv, 'quorumSize', s.pre), s.contract_shaky)), ieq(s.ret, c[0][1])) if c else False)]
def heard(s):
    o, n = gf(s.thislv, 'lastCommunication', s.pre), gf(s.thislv, 'lastCommunication'); t = s.argv(0); return [('the latest contact is kept', ieq(n, z3.If(zi(t) > zi(o), zi(t), zi(o))))]
def lastsetup(self, ctx, fn):
    return ctx.cell('this', parse(LC), Struct(parse(LC), {'lastCommunication': z3.Int('lastCommunication')}, origin='this')), self.mkargs(ctx, fn)
def install_lease(prog, lib, reg):
    install(prog, lib, reg)
    def nthlease(ctx, o, args, e):
        r = ctx.fint('nth', 'long'); ctx.ghost['nth'] = ctx.ghost.get('nth', []) + [(val(args[0]), r)]; return r
    reg.mod[RL + '::getNthLease'] = nthlease
def shaky(d):
    def f(s):
        s.contract_shaky = d; return deadline(s)
    return f
LEASEU = [
    spec(RL + '::getNthLease', nth, nthpre, invs=collect_inv(HEARD), setup=setup_now, name='getNthLease'),
    spec(RL + '::getDeadline', shaky(0), setup=setup(), name='getDeadline'), spec(RL + '::getShakyQuorumDeadline', shaky(1), sane, setup=setup(), name='getShakyQuorumDeadline'),
    spec(LC + '::heartbeat', heard, setup=lastsetup, name='heartbeat'), spec(LC + '::get', lambda s: [('the latest contact', ieq(s.ret, gf(s.thislv, 'lastCommunication', s.pre)))], setup=lastsetup, name='lastContact'),
    spec(RL + '::getHandlerInternal', handler(LC, ['lastCommunication'], {'lastCommunication': 0}), below_top, setup=setup(), name='getHandlerInternal'),
    spec(RL + '::updateTargets', updated_targets(LC, ['lastCommunication']), lambda s: distinct(s) + below_top(s), invs=targets_inv(LC, ['lastCommunication']), setup=setup(), name='updateTargets'),
]

# ---------------------------------------------------------------- votes
VOTE = parse(VR + '::SingleVote')
def vf(ctx, x, *path):
    v = ctx.lib.unpack(ctx, x, VOTE)
    for p in path: v = ctx.get_field(v, p)
    return v
GRANTED, REFUSED, VETO = 1, 2, 3
def votes(s):
    """votes in the order of the map, as they were at the start"""
    ctx = s.ctx; m = FieldLV(s.thislv, 'mContents'); key = ('votes', m.get(s.pre).dom.get_id())
    if key not in ctx.memo:
        e = begin(ctx, m, s.pre); v = m.get(s.pre).val; a = z3.Array(ctx.uniq('?votes'), IS, v.range()); i = z3.Int(ctx.uniq('?vi'))
        ctx.assume(z3.ForAll([i], z3.Select(a, i) == z3.Select(v, z3.Select(e, i)), patterns=[z3.Select(a, i)])); ctx.assume(z3.ForAll([i], z3.Select(a, i) == z3.Select(v, z3.Select(e, i)), patterns=[z3.Select(e, i)]))
        ctx.memo[key] = (a, zi(m.get(s.pre).n))
    return ctx.memo[key]
def enumv(s, n): return int(s.lib.prog.enums[Q + 'RaftVote']['vals'][n])
def proper(ctx, x, s, *names): return And(Not(vf(ctx, x, 'netError')), Not(vf(ctx, x, 'parseError')), Or(*[ieq(vf(ctx, x, 'resp', 'vote'), enumv(s, n)) for n in names]))
class VoteCount(Count):
    def of(self, s, k, extra=()):
        a, n = votes(s); return Count(self.name, lambda ctx, x, *ex: self.pred(ctx, s, x, *ex))(s.ctx, [a], k, extra)
POSITIVE = VoteCount('POSITIVE', lambda ctx, s, x, pre: Or(proper(ctx, x, s, 'GRANTED'), And(Not(vf(ctx, x, 'netError')), vf(ctx, x, 'parseError'), pre)))
VETOES = VoteCount('VETOES', lambda ctx, s, x: proper(ctx, x, s, 'VETO'))
GIVEN = VoteCount('GIVEN', lambda ctx, s, x, v: And(Not(vf(ctx, x, 'netError')), Not(vf(ctx, x, 'parseError')), ieq(vf(ctx, x, 'resp', 'vote'), v)))
NETERR = VoteCount('NETERR', lambda ctx, s, x: vf(ctx, x, 'netError')); PARSEERR = VoteCount('PARSEERR', lambda ctx, s, x: vf(ctx, x, 'parseError'))
def prevote(s): return gf(s.thislv, 'mPreVote', s.pre)
def count_inv(*counts):
    """a local counts what a spec function counts; nothing was vetoed so far"""
    def gen(lc):
        ctx = lc.ctx; s = ctx.ghost['scope']; a, n = votes(s); out = []
        for c in mapcounters(lc):
            if not lc.modified(c.l): continue
            out += [('%s stays within the map' % c.l, lambda c=c: And(ile(0, c.get()), ile(c.get(), n)))]
            for name, fn in counts:
                if name == 'VETOES': out.append(('no veto before %s' % c.l, lambda c=c, fn=fn: ieq(fn(s, c.get()), 0)))
                for d in lc.ints():
                    if lc.modified(d) and repr(d) != repr(c.l): out += [('%s = %s' % (d, name), lambda c=c, d=d, fn=fn: ieq(d.get(), fn(s, c.get()))), ('%s = %s + 1' % (d, name), lambda c=c, d=d, fn=fn: ieq(d.get(), iadd(fn(s, c.get()), 1)))]
                    if lc.modified(d) and name == 'VETOES': out.append(('%s = VETOES' % d, lambda c=c, d=d, fn=fn: ieq(d.get(), fn(s, c.get()))))
                for d in lc.locals():
                    if isinstance(d.get(), (bool, z3.BoolRef)) and lc.modified(d): out.append(('%s <=> some of %s' % (d, name), lambda c=c, d=d, fn=fn: Iff(d.get(), fn(s, c.get()) > 0)))
        return out
    return gen
def monotone(s, cnt, k):
    """lemma (induction): a count is positive when some element is counted"""
    a, n = votes(s); i = z3.Int('?mn'); s.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, zb(cnt.pred(s.ctx, s, z3.Select(a, i)))), cnt.of(s, n) >= 1), patterns=[z3.Select(a, i)]))
def sizes(s): return [ile(0, gf(s.thislv, 'mContents').n), ile(gf(s.thislv, 'mContents').n, 1 << 30)]
def outcome(s):
    a, n = votes(s); E = s.lib.prog.enums[Q + 'ElectionOutcome']['vals']; p = POSITIVE.of(s, n, (prevote(s),)); v = VETOES.of(s, n); monotone(s, VETOES, n); r = zi(s.ret)
    return [('a veto decides', Iff(v > 0, r == int(E['kVetoed']))), ('elected exactly with the votes of a majority, its own included', Iff(And(v == 0, p + 1 >= quorum(n + 1)), r == int(E['kElected']))), ('otherwise not elected', Implies(And(v == 0, p + 1 < quorum(n + 1)), r == int(E['kNotElected'])))]
def tally(cnt, arg=None):
    def post(s): a, n = votes(s); return [('the count', ieq(s.ret, cnt.of(s, n, (s.argv(0),) if arg else ())))]
    return post
def registered(kind):
    def post(s):
        ctx = s.ctx; m, o = gf(s.thislv, 'mContents'), gf(s.thislv, 'mContents', s.pre); k = ctx.lib.pack(ctx, s.argv(0), SRV); x = z3.Const('?rk', k.sort()); v = z3.Select(m.val, k)
        out = [('the vote is kept', z3.Select(m.dom, k)), ('one more voter', ieq(m.n, iadd(o.n, 1))), ('no other voter is affected', z3.ForAll([x], z3.Implies(x != k, z3.And(z3.Select(m.dom, x) == z3.Select(o.dom, x), z3.Select(m.val, x) == z3.Select(o.val, x)))))]
        net, par = vf(ctx, v, 'netError'), vf(ctx, v, 'parseError')
        if kind == 'vote': out += [('as given', And(Not(net), Not(par), ieq(vf(ctx, v, 'resp', 'vote'), ctx.get_field(s.argv(1), 'vote')), ieq(vf(ctx, v, 'resp', 'term'), ctx.get_field(s.argv(1), 'term'))))]
        if kind == 'net': out += [('as unreachable', net)]
        if kind == 'parse': out += [('as not understood', And(par, Not(net)))]
        return out
    return post
def fresh_voter(s): ctx = s.ctx; m = gf(s.thislv, 'mContents'); return sizes(s) + [z3.Not(z3.Select(m.dom, ctx.lib.pack(ctx, s.argv(0), SRV)))]
def observed(s):
    return [('nothing to say at the end', True)]
def install_votes(prog, lib, reg):
    install(prog, lib, reg)
    if VOTE.name not in prog.records: raise Unsupported('votes')
    def obs(ctx, o, args, e):
        ctx.ghost['terms'] = ctx.ghost.get('terms', []) + [val(args[0])]; ctx.check(srv_is_empty(ctx, val(args[1])), 'no leader is named', 'pre'); return ctx.fbool('observed')
    reg.mod[Q + 'RaftState::observed'] = obs
    reg.mod[RL + '::getHandler'] = lambda ctx, o, args, e: HeapLV(ctx, TRACKER(ctx, lib, val(args[0])), parse(LC))
    def beat(ctx, o, args, e):
        s = ctx.ghost['scope']; m = gf(s.thislv, 'mContents', s.pre); K = z3.Const(ctx.uniq('?voter'), lib.sort(SRV)); x = z3.Select(m.val, K); u = o.uid if isinstance(o, HeapLV) else None
        if u is None: raise Unsupported('heartbeat of unknown contact')
        k = u.arg(0); x = z3.Select(m.val, k); ctx.check(And(z3.Select(m.dom, k), proper(ctx, x, s, 'GRANTED')), 'only a node that granted its vote counts as heard from', 'pre'); ctx.check(ieq(val(args[0]), s.argv(2)), 'from the moment the votes were requested', 'pre')
    reg.mod[LC + '::heartbeat'] = beat
def TRACKER(ctx, lib, srv): return z3.Function('TRACKER', lib.sort(SRV), IS)(lib.pack(ctx, srv, SRV))
def srv_is_empty(ctx, v): return seq_(ctx.get_field(v, 'hostname'), Str([]))
def vsetup(self, ctx, fn): return setup()(self, ctx, fn)
def obs_setup(self, ctx, fn):
    this, _ = setup()(self, ctx, fn); args = []
    for i, p in enumerate(fn['params']):
        t = strip_ref(parse(p['t'])); args.append(ctx.cell('arg%d' % i, t, ctx.lib.fresh(ctx, t, 'arg%d' % i) if ctx.lib.kind(t) == 'int' else Struct(t, {}, origin='arg%d' % i)))
    return this, args
def obs_inv(lc):
    s = lc.ctx.ghost['scope']; a, n = votes(s); return [('%s stays within the map' % c.l, lambda c=c: And(ile(0, c.get()), ile(c.get(), n))) for c in mapcounters(lc) if lc.modified(c.l)]
VOTEU = [
    spec(VR + '::registerVote', registered('vote'), fresh_voter, setup=vsetup, nparams=2, name='registerVote'), spec(VR + '::registerParseError', registered('parse'), fresh_voter, setup=vsetup, name='registerParseError'),
    spec(VR + '::registerNetworkError', registered('net'), fresh_voter, setup=vsetup, name='registerNetworkError'),
    spec(VR + '::determineOutcome', outcome, sizes, invs=count_inv(('POSITIVE', lambda s, k: POSITIVE.of(s, k, (prevote(s),))), ('VETOES', lambda s, k: VETOES.of(s, k))), setup=vsetup, name='determineOutcome'),
    spec(VR + '::count', tally(GIVEN, True), sizes, invs=count_inv(('GIVEN', lambda s, k: GIVEN.of(s, k, (s.argv(0),)))), setup=vsetup, name='count'),
    spec(VR + '::countNetworkError', tally(NETERR), sizes, invs=count_inv(('NETERR', lambda s, k: NETERR.of(s, k))), setup=vsetup, name='countNetworkError'),
    spec(VR + '::countParseError', tally(PARSEERR), sizes, invs=count_inv(('PARSEERR', lambda s, k: PARSEERR.of(s, k))), setup=vsetup, name='countParseError'),
    spec(VR + '::observeTermsAndLeases', observed, lambda s: sizes(s) + [Not(gf(s.thislv, 'mPreVote'))], invs=obs_inv, setup=obs_setup, name='observeTermsAndLeases'),
]
