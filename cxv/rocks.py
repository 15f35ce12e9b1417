"""Assumed contracts of RocksDB (trusted base).

A database is a ghost object: literal keys map to (present, value) pairs, entry keys
`'E' ++ BE64(i)` to arrays indexed by i. Put/Delete/Write either succeed and take effect
atomically, or return a non-OK status and leave the database unchanged. A WriteBatch is an
overlay that takes effect only at Write."""
import z3
from .tys import *
from .values import *
from .engine import *
from .lib import *
from . import stdfns
from .stdfns import A, meth

DBT = parse('rocksdb::DB')
BT = parse('rocksdb::WriteBatch')
IS = z3.IntSort(); SS = z3.StringSort(); BS = z3.BoolSort()

def new_db(ctx, name='db'):
    s = Struct(DBT, {'$id': name, 'dom': z3.Array(name + '.dom', IS, BS), 'val': z3.Array(name + '.val', IS, SS)})
    return ctx.cell(name, DBT, s)

def lit_get(ctx, s, key):
    """(present, value) of a literal key in database struct s"""
    if 'P:' + key in s.f: return s.f['P:' + key], s.f['V:' + key]
    n = '%s[%s]' % (s.f['$id'], key)
    return z3.Bool(n + '.present'), Str([z3.String(n)])

def classify(L, ctx, k):
    """('lit', text) or ('ent', unsigned index)"""
    k = L.as_str(ctx, k)
    l = k.lit()
    if l is not None: return ('lit', l)
    if len(k.parts) == 2 and k.parts[0] == 'E' and is_sym(k.parts[1]) and z3.is_app(k.parts[1]) and k.parts[1].decl().name() == 'BE64':
        return ('ent', k.parts[1].arg(0))
    raise Unsupported('database key %s' % (k,))

def signed_ix(ctx, u): return u

def value_note(L, ctx, v):
    return v

def db_of(ctx, o):
    v = o.get()
    if isinstance(v, Ptr): return ctx.deref(v)
    return o

def apply_hooks(ctx, db, before, sync, keys):
    h = ctx.ghost.get('on_db_write')
    if h: h(ctx, db, before, sync, keys)
    ctx.events.append(('dbwrite', sync, tuple(keys)))

def opt_sync(ctx, o):
    return o.f.get('sync', False) if isinstance(o, Struct) else False

def fail_or(ctx, what):
    """the operation may fail; returns the status code of this execution"""
    if ctx.ghost.get('db_never_fails'): return 0
    ok = ctx.fbool('io.%s' % what)
    return 0 if ctx.branch(ok) else 5

@meth(['rocksdb::DB', 'rocksdb::TransactionDB'], 'Get')
def _(L, ctx, o, e):
    args = e['args']
    if len(args) == 4: args = [args[0], args[2], args[3]]
    kd, k = classify(L, ctx, ctx.ev(args[1]))
    out = ctx.ev(args[2])
    s = db_of(ctx, o).get()
    if kd == 'lit': p, v = lit_get(ctx, s, k)
    else: p, v = simp(z3.Select(s.f['dom'], k)), Str([z3.Select(s.f['val'], k)])
    if fail_or(ctx, 'Get') != 0: return L.status(5)
    if ctx.branch(p):
        ctx.deref(out).set(v)
        return L.status(0)
    return L.status(1)

def do_put(L, ctx, db, kd, k, v, sync):
    s = db.get()
    before = s
    if kd == 'lit':
        d = dict(s.f); d['P:' + k] = v is not None; d['V:' + k] = v if v is not None else Str([])
        s = Struct(DBT, d)
    else:
        if v is not None: s = s.with_('dom', z3.Store(s.f['dom'], k, True)).with_('val', z3.Store(s.f['val'], k, v.term()))
        else: s = s.with_('dom', z3.Store(s.f['dom'], k, False))
    db.set(s)
    return before

@meth(['rocksdb::DB'], 'Put')
def _(L, ctx, o, e):
    a = e['args']
    if len(a) == 4: a = [a[0], a[2], a[3]]
    sync = opt_sync(ctx, ctx.ev(a[0]))
    kd, k = classify(L, ctx, ctx.ev(a[1])); v = L.as_str(ctx, ctx.ev(a[2]))
    if fail_or(ctx, 'Put') != 0: return L.status(5)
    db = db_of(ctx, o)
    b = do_put(L, ctx, db, kd, k, v, sync)
    apply_hooks(ctx, db, b, sync, [k] if kd == 'lit' else ['<entry>'])
    return L.status(0)
@meth(['rocksdb::DB'], 'Delete', 'SingleDelete')
def _(L, ctx, o, e):
    a = e['args']
    if len(a) == 3: a = [a[0], a[2]]
    sync = opt_sync(ctx, ctx.ev(a[0]))
    kd, k = classify(L, ctx, ctx.ev(a[1]))
    if fail_or(ctx, 'Delete') != 0: return L.status(5)
    db = db_of(ctx, o)
    b = do_put(L, ctx, db, kd, k, None, sync)
    apply_hooks(ctx, db, b, sync, [k] if kd == 'lit' else ['<entry>'])
    return L.status(0)

# ------------------------------------------------------------------ batches
def new_batch():
    return Struct(BT, {'bt': z3.K(IS, z3.BoolVal(False)), 'bd': z3.K(IS, z3.BoolVal(False)), 'bv': z3.K(IS, z3.StringVal(''))})
def batch_op(L, ctx, o, key, v):
    kd, k = classify(L, ctx, key)
    s = o.get()
    if kd == 'lit':
        FieldLV(o, 'P:' + k).set(v is not None)
        FieldLV(o, 'V:' + k).set(v if v is not None else Str([]))
    else:
        FieldLV(o, 'bt').set(z3.Store(s.f['bt'], k, True))
        FieldLV(o, 'bd').set(z3.Store(s.f['bd'], k, v is not None))
        if v is not None: FieldLV(o, 'bv').set(z3.Store(s.f['bv'], k, v.term()))
    return L.status(0)
@meth('rocksdb::WriteBatch', 'Put')
def _(L, ctx, o, e):
    a = e['args'][-2:]
    return batch_op(L, ctx, o, ctx.ev(a[0]), L.as_str(ctx, ctx.ev(a[1])))
@meth('rocksdb::WriteBatch', 'Delete', 'SingleDelete')
def _(L, ctx, o, e):
    return batch_op(L, ctx, o, ctx.ev(e['args'][-1]), None)
@meth('rocksdb::WriteBatch', 'Clear')
def _(L, ctx, o, e): o.set(new_batch())
@meth('rocksdb::WriteBatch', 'Count')
def _(L, ctx, o, e): return ctx.fint('batch.count', 'int')

def stores(t):
    """[(index, value)] in order when t is a chain of stores over a constant array, else None"""
    out = []
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE:
        out.append((t.arg(1), t.arg(2))); t = t.arg(0)
    if z3.is_K(t): return list(reversed(out))
    return None

@meth(['rocksdb::DB'], 'Write')
def _(L, ctx, o, e):
    sync = opt_sync(ctx, ctx.ev(e['args'][0]))
    b = ctx.deref(ctx.ev(e['args'][1])).get()
    if fail_or(ctx, 'Write') != 0: return L.status(5)
    db = db_of(ctx, o)
    s = before = db.get()
    d = dict(s.f)
    keys = []
    for f, v in b.f.items():
        if f.startswith('P:'):
            k = f[2:]; keys.append(k)
            if isinstance(v, bool): d[f], d['V:' + k] = v, b.f['V:' + k]
            else: raise Unsupported('conditional batch entry')
    st = stores(b.f['bt']); sd = stores(b.f['bd']); sv = stores(b.f['bv'])
    if st is not None and sd is not None and sv is not None:
        vals = list(sv)
        for (i, _), (_, put) in zip(st, sd):
            if z3.is_true(put):
                v = vals.pop(0)[1]
                d['dom'] = z3.Store(d['dom'], i, True); d['val'] = z3.Store(d['val'], i, v)
            else: d['dom'] = z3.Store(d['dom'], i, False)
        if st: keys.append('<entry>')
    else:
        keys.append('<entry>')
        nd = z3.Array(ctx.uniq('db.dom'), IS, BS); nv = z3.Array(ctx.uniq('db.val'), IS, SS)
        k = z3.Int(ctx.uniq('k!w'))
        T = z3.Select(b.f['bt'], k)
        ctx.assume(z3.ForAll([k], z3.Select(nd, k) == z3.If(T, z3.Select(b.f['bd'], k), z3.Select(d['dom'], k)), patterns=[z3.Select(nd, k)]))
        ctx.assume(z3.ForAll([k], z3.Select(nv, k) == z3.If(z3.And(T, z3.Select(b.f['bd'], k)), z3.Select(b.f['bv'], k), z3.Select(d['val'], k)), patterns=[z3.Select(nv, k)]))
        d['dom'], d['val'] = nd, nv
    db.set(Struct(DBT, d))
    apply_hooks(ctx, db, before, sync, keys)
    return L.status(0)

def install(L):
    L.extra_ctors['rocksdb::WriteBatch'] = lambda L, ctx, t, e: new_batch() if not (e.get('copy') or e.get('move')) else NotImplemented
    def wopts(L, ctx, t, e):
        if e.get('copy') or e.get('move'): return NotImplemented
        return Struct(t, {'sync': False})
    L.extra_ctors['rocksdb::WriteOptions'] = wopts
    for n in ('rocksdb::ReadOptions', 'rocksdb::Options', 'rocksdb::BlockBasedTableOptions', 'rocksdb::CompactRangeOptions'):
        L.extra_ctors[n] = lambda L, ctx, t, e: Struct(t, {}) if not (e.get('copy') or e.get('move')) else NotImplemented
    L.opaque_types |= {'rocksdb::DB', 'rocksdb::WriteBatch', 'rocksdb::WriteOptions', 'rocksdb::ReadOptions', 'rocksdb::Options'}

def batch_invariants(lc):
    """loop invariant candidates: which entry keys a batch built by a counting loop touches"""
    ctx = lc.ctx
    out = []
    ints = [l for l in lc.ints() if lc.modified(l)]
    for b in lc.locals():
        v = b.get()
        if not (isinstance(v, Struct) and v.ty == BT and lc.modified(b)): continue
        for l in ints:
            en = l.get(lc.entry)
            for up in (True, False):
                def rng(k, l=l, en=en, up=up):
                    return z3.And(zi(en) <= k, k < zi(l.get())) if up else z3.And(zi(l.get()) < k, k <= zi(en))
                def touched(b=b, rng=rng):
                    k = z3.Int(ctx.uniq('?k')); s = b.get(); o = b.get(lc.entry)
                    return z3.ForAll([k], z3.Select(s.f['bt'], k) == z3.Or(z3.Select(o.f['bt'], k), rng(k)), patterns=[z3.Select(s.f['bt'], k)])
                def deleted(b=b, rng=rng):
                    k = z3.Int(ctx.uniq('?k')); s = b.get()
                    return z3.ForAll([k], z3.Implies(rng(k), z3.Not(z3.Select(s.f['bd'], k))), patterns=[z3.Select(s.f['bd'], k)])
                d = 'from entry up to' if up else 'from entry down to'
                out.append(('%s touches exactly the entries %s %s' % (b, d, l), touched))
                out.append(('%s deletes the entries %s %s' % (b, d, l), deleted))
    return out
