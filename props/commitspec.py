"""contracts of the commit path: one atomic write per batch, last applied index in the same write, the batch's requests in order (shared by the application properties)"""
from .smspec import *
from . import reqs
from cxv.engine import CppThrow
APPL = '__last-applied'; CLOCK = '__clock'
DBT = 'rocksdb::DB'; REQ = reqs.REQ
def dbcell(this): return this.get().f['db'].lv
def dbv(s_ctx, c, snap=None): w = c.get(snap); return View_(s_ctx, w.f['dom'], w.f['val'])
def be(ctx, x): return Str([ctx.lib.be64(ctx, ctx.lib.to_u64(ctx, x))])
def sm_cell(ctx, fields=()):
    """a state machine with a database of arbitrary contents, whose last applied index is the stored one"""
    T = parse(Q + 'StateMachine'); c = ctx.cell('sm', T, Struct(T, {}, origin='sm')); give_db(ctx, c); return c
def give_db(ctx, c):
    d = ctx.cell('db', parse(DBT), Struct(parse(DBT), {'dom': z3.Array('db.dom', SS, BS), 'val': z3.Array('db.val', SS, SS), 'writes': 0, 'durable': True}, origin=None))
    c.set(c.get().with_('db', Ptr(d))); return d
def install_commit(prog, lib, reg):
    install(prog, lib, reg)
    M = lib.extra_methods
    def fail(ctx): return not ctx.branch(ctx.fbool('io.ok'))
    def wal(op): return Not(op.f.get('disableWAL', False)) if isinstance(op, Struct) else True
    def took(ctx, o, dom, val, op):
        d = o.get(); o.set(Struct(d.ty, dict(d.f, dom=dom, val=val, writes=iadd(d.f['writes'], 1), durable=And(d.f['durable'], wal(op)))))
    def dbget(L, ctx, o, e):
        a = e['args']; k = L.as_str(ctx, ctx.ev(a[-2])); out = ctx.ev(a[-1]); d = o.get(); v = View_(ctx, d.f['dom'], d.f['val'])
        if not ctx.ghost.get('db_never_fails') and fail(ctx): return L.status(5)
        if ctx.branch(v.has(k)): ctx.deref(out).set(v.at(k)); return L.status(0)
        return L.status(1)
    def dbput(L, ctx, o, e):
        a = e['args']; op = ctx.ev(a[0]); k = L.as_str(ctx, ctx.ev(a[-2])); x = L.as_str(ctx, ctx.ev(a[-1])); d = o.get()
        if isinstance(op, LV): op = op.get()
        if fail(ctx): return L.status(5)
        v = View_(ctx, d.f['dom'], d.f['val']).put(k, x); took(ctx, o, v.dom, v.val, op); return L.status(0)
    def dbwrite(L, ctx, o, e):
        a = e['args']; op = ctx.ev(a[0]); b = ctx.ev(a[1]); w = ctx.deref(b).get()
        if isinstance(op, LV): op = op.get()
        if fail(ctx): return L.status(5)
        took(ctx, o, w.f['dom'], w.f['val'], op); return L.status(0)      # the batch is a view over the contents it was opened on
    M[(DBT, 'Get')] = dbget; M[(DBT, 'Put')] = dbput; M[(DBT, 'Write')] = dbwrite
    M[(WB, 'GetWriteBatch')] = lambda L, ctx, o, e: Ptr(o)
    M[('rocksdb::WriteBatch', 'Count')] = lambda L, ctx, o, e: ctx.fint('batch.count', 'int')
    def wopts(L, ctx, t, e):
        if e.get('copy') or e.get('move'): return NotImplemented
        return Struct(t, {'sync': False, 'disableWAL': False})
    lib.extra_ctors['rocksdb::WriteOptions'] = wopts
    lib.extra_ctors['rocksdb::ReadOptions'] = lambda L, ctx, t, e: Struct(t, {}) if not (e.get('copy') or e.get('move')) else NotImplemented
def smsetup(self, ctx, f):
    this = ctx.cell('this', parse(Q + 'StateMachine'), Struct(parse(Q + 'StateMachine'), {}, origin='this')); give_db(ctx, this); args = []
    for i, p in enumerate(f['params']):
        t = strip_ref(parse(p['t']))
        if t.name == WB: d = dbcell(this).get(); args.append(ctx.cell('wb', t, Struct(t, {'dom': z3.Array('wb.dom', SS, BS), 'val': z3.Array('wb.val', SS, SS), 'in': z3.Array('wb.in', SS, BS)})))
        else: args.append(ctx.cell('arg%d' % i, t, ctx.lib.fresh(ctx, t, 'arg%d' % i)))
    return this, args
def F_(s, n, snap=None): return FieldLV(s.thislv, n).get(snap)
def D_(s, snap=None): return dbv(s.ctx, dbcell(s.thislv), snap)
def DW(s, n, snap=None): return dbcell(s.thislv).get(snap).f[n]
def bounds(s): return [ile(0, F_(s, 'lastApplied')), ilt(F_(s, 'lastApplied'), 1 << 62)] + ([ile(-(1 << 62), s.argv(1)), ilt(s.argv(1), 1 << 62)] if len(s.args) > 1 else [])
def truthful_(s, snap=None): v = D_(s, snap); return And(v.has(Str([APPL])), seq_(v.at(Str([APPL])), be(s.ctx, F_(s, 'lastApplied', snap))))
def untouched(s): return [('the database is untouched', D_(s).same(D_(s, s.pre))), ('nothing was written', ieq(DW(s, 'writes'), 0)), ('the last applied index stays', ieq(F_(s, 'lastApplied'), F_(s, 'lastApplied', s.pre)))]
def commit_ok(s):
    w = s.args[0].get(s.pre); i = s.argv(1); old = F_(s, 'lastApplied', s.pre); v = View_(s.ctx, w.f['dom'], w.f['val'])
    indexed = s.ctx.branch(ilt(0, i)); x = v.put(Str([APPL]), be(s.ctx, i)) if indexed else v
    return [('only the next index is accepted', ieq(i, iadd(old, 1)) if indexed else ieq(old, 0)), ('exactly one atomic write', ieq(DW(s, 'writes'), 1)), ('it carries the whole batch, and the index it was applied at', D_(s).same(x)),
            ('the last applied index follows', ieq(F_(s, 'lastApplied'), i if indexed else old)), ('it is logged unless the log is off', Iff(DW(s, 'durable'), F_(s, 'writeAheadLog', s.pre)))]
def commit_refused(s, ty): return untouched(s)
def commit_pre(s): w = s.args[0].get(); return bounds(s)
COMMIT = [spec(SMQ + 'commitTransaction', commit_ok, commit_pre, name='commitTransaction', setup=smsetup, throws=commit_refused),
    spec(SMQ + 'forceResetLastApplied', lambda s: [('the index is stored', D_(s).same(D_(s, s.pre).put(Str([APPL]), be(s.ctx, s.argv(0))))), ('and in effect', ieq(F_(s, 'lastApplied'), s.argv(0)))], lambda s: [ile(0, s.argv(0)), ilt(s.argv(0), 1 << 62)], name='forceResetLastApplied', setup=smsetup, throws=lambda s, ty: untouched(s)),
    spec(SMQ + 'getLastApplied', lambda s: [('the last applied index', ieq(s.ret, F_(s, 'lastApplied', s.pre)))] + untouched(s), name='getLastApplied', setup=smsetup)]
def stored_pre(s):
    x = z3.Int('stored.applied'); s.ctx.ghost['stored'] = x; v = D_(s)
    s.ctx.assume(z3.And(0 <= x, x < (1 << 62))); s.ctx.assume(z3.Implies(zb(v.has(Str([APPL]))), v.at(Str([APPL])).term() == be(s.ctx, x).term())); dbcell(s.thislv).set(dbcell(s.thislv).get().with_('val', z3.Store(v.val, z3.StringVal(APPL), be(s.ctx, x).term())))
    return []
def retrieved(s):
    v0 = D_(s, s.pre); had = s.ctx.branch(v0.has(Str([APPL])))
    if had: return [('the stored index is taken over', ieq(F_(s, 'lastApplied'), s.ctx.ghost['stored'])), ('the database is untouched', D_(s).same(v0))]
    return [('a fresh database starts at 0', ieq(F_(s, 'lastApplied'), 0)), ('which is stored', D_(s).same(v0.put(Str([APPL]), be(s.ctx, 0))))]
COMMIT.append(spec(SMQ + 'retrieveLastApplied', retrieved, stored_pre, name='retrieveLastApplied', setup=smsetup, throws=lambda s, ty: [('the database is untouched', D_(s).same(D_(s, s.pre)))]))
# ---- staging areas
def install_area(prog, lib, reg):
    install_commit(prog, lib, reg)
    def wb(L, ctx, t, e):
        if e.get('copy') or e.get('move'): return NotImplemented
        d = ctx.ghost['db'].get(); return Struct(t, {'dom': d.f['dom'], 'val': d.f['val'], 'in': z3.K(SS, z3.BoolVal(False))})
    lib.extra_ctors[WB] = wb
    lib.extra_ctors['rocksdb::WriteBatch'] = lambda L, ctx, t, e: Struct(t, {}) if not (e.get('copy') or e.get('move')) else NotImplemented
    def snap(ctx, o, args, e):
        d = ctx.ghost['db'].get(); ctx.ghost['snapshots'] = ctx.ghost.get('snapshots', 0) + 1
        o.set(Struct(parse(SMQ + 'Snapshot'), {'options': Struct(parse('rocksdb::ReadOptions'), {'$snap': Struct(parse(WB), {'dom': d.f['dom'], 'val': d.f['val']})})}))
    reg.mod_ctor[SMQ + 'Snapshot::Snapshot'] = snap
    reg.mod[SMQ + 'Snapshot::~Snapshot'] = lambda ctx, o, args, e: None
    M = lib.extra_methods; get0 = M[(DBT, 'Get')]; wr0 = M[(DBT, 'Write')]
    def dbget(L, ctx, o, e):
        op = ctx.ev(e['args'][0]); op = op.get() if isinstance(op, LV) else op
        w = op.f.get('$snap') if isinstance(op, Struct) else None
        if w is None: return get0(L, ctx, o, e)
        k = L.as_str(ctx, ctx.ev(e['args'][-2])); out = ctx.ev(e['args'][-1]); v = View_(ctx, w.f['dom'], w.f['val'])
        if ctx.branch(v.has(k)): ctx.deref(out).set(v.at(k)); return L.status(0)
        return L.status(1)
    M[(DBT, 'Get')] = dbget
    def dbwrite(L, ctx, o, e):
        if ctx.ghost.get('needlock'): ctx.check(any('writeMtx' in x for x in ctx.locks), 'a batch is written under the write lock @%s' % ctx.where(), 'pre')
        return wr0(L, ctx, o, e)
    M[(DBT, 'Write')] = dbwrite
def areasetup(self, ctx, f):
    smc = sm_cell(ctx); ctx.ghost['db'] = dbcell(smc); ctx.ghost['sm'] = smc
    if f['kind'] == 'ctor':
        this = ctx.cell('this', parse(SA), Struct(parse(SA), {}, origin=None)); args = [smc]
        if len(f['params']) > 1: args.append(ctx.cell('arg1', parse('bool'), z3.Bool('onlyreads')))
        return this, args
    w = Struct(parse(WB), {'dom': z3.Array('wb.dom', SS, BS), 'val': z3.Array('wb.val', SS, SS), 'in': z3.Array('wb.in', SS, BS)})
    ro = z3.Bool('readonly'); sn = ctx.cell('snapshot', parse(SMQ + 'Snapshot'), Struct(parse(SMQ + 'Snapshot'), {'options': Struct(parse('rocksdb::ReadOptions'), {'$snap': w})}, origin='snapshot'))
    this = ctx.cell('this', parse(SA), Struct(parse(SA), {'stateMachine': Ptr(smc), 'writeBatchWithIndex': w, 'bulkLoad': False, 'readOnly': ro, 'snapshot': Ptr(sn)}, origin='this'))
    if f['kind'] == 'dtor' and ctx.branch(Not(ro)): ctx.locks.append(ctx.lib.lock_name(FieldLV(smc, 'writeMtx')))
    return this, [ctx.cell('arg%d' % i, strip_ref(parse(p['t'])), ctx.lib.fresh(ctx, strip_ref(parse(p['t'])), 'arg%d' % i)) for i, p in enumerate(f['params'])]
RO = z3.Bool('readonly')
def bv(s, snap=None): w = FieldLV(s.thislv, 'writeBatchWithIndex').get(snap); return View_(s.ctx, w.f['dom'], w.f['val'])
def gdb(s, snap=None): return dbv(s.ctx, s.ctx.ghost['db'], snap)
def nowrite(s): return [('the database is untouched', gdb(s).same(gdb(s, s.pre))), ('nothing is written', ieq(s.ctx.ghost['db'].get().f['writes'], 0))]
def ronly(s, ty): return nowrite(s) + [('the batch is untouched', bv(s).same(bv(s, s.pre))), ('refused only when read-only', RO)]
def smf(s, n, snap=None): return FieldLV(s.ctx.ghost['sm'], n).get(snap)
def area_commit(s):
    i = s.argv(0); old = smf(s, 'lastApplied', s.pre); v = bv(s, s.pre); indexed = s.ctx.branch(ilt(0, i)); x = v.put(Str([APPL]), be(s.ctx, i)) if indexed else v
    return [('never on a read-only batch', z3.Not(RO)), ('exactly one atomic write', ieq(s.ctx.ghost['db'].get().f['writes'], 1)), ('of the whole batch and its index', gdb(s).same(x)), ('the last applied index follows', ieq(smf(s, 'lastApplied'), i if indexed else old)), ('succeeds', ieq(code_(s), 0))]
def readres(s, w):
    k = S(s.argv(0)); had = s.ctx.branch(w.has(k))
    return [('found exactly when present', ieq(code_(s), 0 if had else 1))] + ([('the newest value', seq_(s.args[1].get(), w.at(k)))] if had and len(s.args) > 1 else []) + [('a read changes nothing', bv(s).same(bv(s, s.pre)))] + nowrite(s)
def nullk(s): return [z3.Or(z3.Bool('readonly'), z3.Not(z3.Bool('readonly'))), ilt(0, S(s.argv(0)).len())]
def noio(s): s.ctx.ghost['db_never_fails'] = True; return []
AREA = [
    spec(SA + '::commit', area_commit, lambda s: [ile(-(1 << 62), s.argv(0)), ilt(s.argv(0), 1 << 62), ile(0, smf(s, 'lastApplied')), ilt(smf(s, 'lastApplied'), 1 << 62)], name='commit', setup=areasetup, throws=lambda s, ty: nowrite(s) + [('the last applied index stays', ieq(smf(s, 'lastApplied'), smf(s, 'lastApplied', s.pre)))]),
    spec(SA + '::put', lambda s: [('the entry is in the batch', bv(s).same(bv(s, s.pre).put(s.argv(0), s.argv(1)))), ('not when read-only', z3.Not(RO))] + nowrite(s), nullk, name='put', setup=areasetup, throws=ronly),
    spec(SA + '::del', lambda s: [('the entry is gone from the batch', bv(s).same(bv(s, s.pre).drop(s.argv(0)))), ('not when read-only', z3.Not(RO))] + nowrite(s), nullk, name='del_', setup=areasetup, throws=ronly),
    spec(SA + '::singleDelete', lambda s: [('the entry is gone from the batch', bv(s).same(bv(s, s.pre).drop(s.argv(0)))), ('not when read-only', z3.Not(RO))] + nowrite(s), nullk, name='singleDelete', setup=areasetup, throws=ronly),
    spec(SA + '::get', lambda s: readres(s, bv(s, s.pre)), noio, name='get', setup=areasetup),
    spec(SA + '::getForUpdate', lambda s: readres(s, bv(s, s.pre)), noio, name='getForUpdate', setup=areasetup, throws=ronly),
    spec(SA + '::exists', lambda s: readres(s, bv(s, s.pre)), noio, name='exists', setup=areasetup),
    spec(SA + '::StagingArea', lambda s: [('the write lock is held exactly by a batch that can write', Iff(True if any('writeMtx' in x for x in s.ctx.locks) else False, Not(s.argv(1)))), ('a read-only batch reads one snapshot', Iff(True if s.ctx.ghost.get('snapshots', 0) == 1 else False, s.argv(1))), ('what it may do', Iff(FieldLV(s.thislv, 'readOnly').get(), s.argv(1)))] + nowrite(s),
        lambda s: [Not(FieldLV(s.args[0], 'bulkLoad').get())], name='StagingArea', setup=areasetup, nparams=2),
    spec(SA + '::~StagingArea', lambda s: [('the write lock is released', not any('writeMtx' in x for x in s.ctx.locks))] + nowrite(s), name='unlocking', setup=areasetup),
]
