"""the state machine's store: an ordered map from storage keys to values as seen through a staging area, descriptors, element counts (shared by the state machine properties)"""
import z3
from cxv.spec import *
from cxv.lib import *
from . import locators as L_
from .locators import val, code
ESCF = z3.Function('ESC', z3.StringSort(), z3.IntSort(), z3.StringSort())
def esc(ctx, k):
    """the escaped form of a key; opaque here: its defining equations matter for the storage keys property only"""
    r = ESCF(S(k).term(), zi(S(k).len())); key = ('esclen', r.get_id())
    if key not in ctx.memo: ctx.memo[key] = r; ctx.assume(z3.And(z3.Length(r) >= zi(S(k).len()), z3.Length(r) <= 2 * zi(S(k).len())))      # at most one extra byte per byte
    return Str([r])
Q = 'quarkdb::'
SMQ = Q + 'StateMachine::'
SS, BS, IS = z3.StringSort(), z3.BoolSort(), z3.IntSort()
CNTF = z3.Function('COUNT', z3.ArraySort(SS, BS), SS, IS)      # how many present storage keys start with a prefix
TYPES = {'string': 'a', 'hash': 'b', 'set': 'c', 'deque': 'd', 'lhash': 'e', 'lease': 'f', 'vhash': 'g'}
MAXN = 1 << 60

def key_eq(a, b):
    """equality of two storage keys; prefixes of two different keys are told apart by the escaping (lemma: escaped text followed by ## is uniquely decodable)"""
    a, b = S(a), S(b)
    pa, pb = split_esc(a), split_esc(b)
    if pa and pb:
        if pa[0] != pb[0]: return seq_(Str([pa[0]]), Str([pb[0]])) if len(pa[0]) == len(pb[0]) else False
        return And(key_eq0(pa[1], pb[1]), key_eq(pa[2], pb[2]))
    return key_eq0(a, b)
def key_eq0(a, b): return seq_(a, b)
def split_esc(s):
    """tag ++ ESC(key) ++ ## ++ rest"""
    p = s.parts
    if len(p) >= 3 and isinstance(p[0], str) and is_sym(p[1]) and z3.is_app(p[1]) and p[1].decl().name() == 'ESC' and isinstance(p[2], str) and p[2].startswith('##'):
        return p[0], Str([p[1].arg(0)]), Str([p[2][2:]] + list(p[3:]))
    return None
def under(k, p):
    """does storage key k start with prefix p (both of the form tag, escaped key, ##, ...)"""
    k, p = S(k), S(p)
    a, b = split_esc(k), split_esc(p)
    if a and b:
        if a[0] != b[0]: return False
        return And(key_eq0(a[1], b[1]), under(a[2], b[2]))
    pp, kk = list(p.parts), list(k.parts)
    while pp and kk:
        x, y = pp[0], kk[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]: return False
            pp[0] = x[n:]; kk[0] = y[n:]
            if not pp[0]: pp.pop(0)
            if not kk[0]: kk.pop(0)
        elif is_sym(x) and is_sym(y) and x.eq(y): pp.pop(0); kk.pop(0)
        else: break
    if not pp: return True
    return z3.PrefixOf(Str(pp).term(), Str(kk).term())

class View_:
    """contents seen through a staging area"""
    def __init__(self, ctx, dom, val): self.ctx, self.dom, self.val = ctx, dom, val
    def has(self, k):
        ctx = self.ctx
        r = vget(self.dom, S(k), ctx)
        for p in ctx.ghost.get('prefixes', ()):
            u = under(k, p)
            if u is not False:
                b = base(self.dom)
                key = ('cntpos', b.get_id(), S(k).term().get_id(), S(p).term().get_id())
                if key not in ctx.memo:
                    ctx.memo[key] = (b, k, p)
                    ctx.assume(z3.Implies(zb(And(u, z3.Select(b, S(k).term()))), CNTF(b, S(p).term()) >= 1)); ctx.assume(CNTF(b, S(p).term()) >= 0)
        for h in ctx.ghost.get('on_has', ()): h(self, k)
        return r
    def at(self, k):
        r = vget(self.val, S(k), self.ctx)
        return r if isinstance(r, Str) else Str([r])
    def put(self, k, v): k = S(k); return View_(self.ctx, z3.Store(self.dom, k.term(), z3.BoolVal(True)), z3.Store(self.val, k.term(), S(v).term()))
    def drop(self, k): return View_(self.ctx, z3.Store(self.dom, S(k).term(), z3.BoolVal(False)), self.val)
    def count(self, p): return cnt(self.ctx, self, S(p))
    def iff(self, c, other):
        """this view if c, else the other"""
        if c is True: return self
        if c is False: return other
        return View_(self.ctx, z3.If(c, self.dom, other.dom), z3.If(c, self.val, other.val))
    def same(self, o):
        """equality, decided key by key over the keys that either side wrote"""
        return And(aeq(self.ctx, self.dom, o.dom), self.vals(o))
    def vals(self, o):
        ks = keys_of(self.val) + keys_of(o.val)
        out = []
        b1, b2 = base(self.val), base(o.val)
        if not b1.eq(b2): out.append(b1 == b2)
        seen = []
        for k in ks:
            if any(k.eq(x) for x in seen): continue
            seen.append(k); K = Str([k])
            out.append(Or(Not(vget(self.dom, K, self.ctx)), value_eq(self.ctx, self.at(K), o.at(K))))
        return And(*out) if out else True
def value_eq(ctx, a, b):
    """descriptors are compared component by component (their serialization is injective)"""
    x, y = decode(ctx, a), decode(ctx, b)
    if x is None or y is None: return seq_(a, b)
    if not isinstance(x[0], int): x, y = y, x
    if not isinstance(x[0], int): return seq_(a, b)
    c = chr(x[0]); n = 3 if c == 'g' else 4 if c in 'df' else 2
    return And(*[ieq(p, q) for p, q in list(zip(x, y))[:n]])
def base(t):
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE: t = t.arg(0)
    return t
def keys_of(t):
    out = []
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE: out.append(t.arg(1)); t = t.arg(0)
    return out
def aeq(ctx, a, b):
    out = []
    b1, b2 = base(a), base(b)
    if not b1.eq(b2): out.append(b1 == b2)
    seen = []
    for k in keys_of(a) + keys_of(b):
        if any(k.eq(x) for x in seen): continue
        seen.append(k); K = Str([k])
        x, y = vget(a, K, ctx), vget(b, K, ctx)
        out.append(seq_(x, y) if isinstance(x, Str) else x == y)
    return And(*out) if out else True
def vget(t, K, ctx=None):
    """read of a written-over array: keys are compared part by part"""
    conds = []
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE:
        e = key_eq(K, Str([t.arg(1)]))
        if is_sym(e): e = simp(e)
        if e is True: conds.append((True, t.arg(2))); t = None; break
        if e is not False:
            if ctx is not None and not ctx.nofork and ctx.entails(zb(e)): conds.append((True, t.arg(2))); t = None; break
            if not (ctx is not None and not ctx.nofork and ctx.entails(z3.Not(zb(e)))): conds.append((e, t.arg(2)))
        t = t.arg(0)
    r = None if t is None else z3.Select(t, K.term())
    if r is None: r = conds.pop()[1]
    for c, v in reversed(conds): r = z3.If(zb(c), v, r)
    if z3.is_bool(r):
        r = simp(r)
        return True if z3.is_true(zb(r)) else False if z3.is_false(zb(r)) else r
    return Str([r])
def cnt(ctx, v, p):
    """elements under a prefix; unfolds over writes"""
    t = v.dom; d = 0
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE:
        K = Str([t.arg(1)]); u = under(K, p)
        if is_sym(u) and ctx.entails(u): u = True
        elif is_sym(u) and ctx.entails(z3.Not(u)): u = False
        if u is not False:
            old = View_(ctx, t.arg(0), v.val).has(K); new = t.arg(2)
            x = isub(z3.If(zb(new), z3.IntVal(1), z3.IntVal(0)), z3.If(zb(old), z3.IntVal(1), z3.IntVal(0)))
            d = iadd(d, x if u is True else z3.If(zb(u), x, z3.IntVal(0)))
        t = t.arg(0)
    b = CNTF(t, p.term()); ctx.lib.note(ctx, b, [b >= 0, b < MAXN])
    return simp(iadd(b, d))

# ---- staging area
SA = Q + 'StagingArea'; WB = 'rocksdb::WriteBatchWithIndex'
def area(s):
    for a in s.args:
        if isinstance(a, LV) and strip_ref(a.ty).name == SA: return a
    raise Unsupported('no staging area')
def view_of(s, snap=None, ro=False):
    """the view of the staging area among the arguments"""
    a = area(s)
    w = FieldLV(a, 'writeBatchWithIndex').get(snap)
    return View_(s.ctx, w.f['dom'], w.f['val'])
def batch_has(s, k, snap=None):
    w = FieldLV(area(s), 'writeBatchWithIndex').get(snap)
    return vget(w.f['in'], S(k), s.ctx)
def new_area(ctx, this, readonly=False, name='sa'):
    w = Struct(parse(WB), {'dom': z3.Array(name + '.dom', SS, BS), 'val': z3.Array(name + '.val', SS, SS), 'in': z3.Array(name + '.in', SS, BS)})
    d = {'writeBatchWithIndex': w, 'bulkLoad': False, 'readOnly': readonly}
    t = parse(SA)
    if readonly:      # a snapshot: the batch stays empty, reads go through the snapshot's options
        sn = ctx.cell(name + '.snapshot', parse(SMQ + 'Snapshot'), Struct(parse(SMQ + 'Snapshot'), {'options': Struct(parse('rocksdb::ReadOptions'), {'$snap': w})}, origin=name + '.snapshot'))
        d['snapshot'] = Ptr(sn)
    c = ctx.cell(name, t, Struct(t, d, origin=name))
    if this is not None:
        c.set(c.get().with_('stateMachine', Ptr(this)))
        if isinstance(this.get(), Struct) and 'db' not in this.get().f:
            this.set(this.get().with_('db', Ptr(ctx.cell('db', parse('rocksdb::DB'), Struct(parse('rocksdb::DB'), {}, origin='db')))))
    return c
def install(prog, lib, reg):
    L_.install_buffer(prog, lib, reg)
    def wodtor(ctx, o, x, e):      # the destructor ends the process when the operation was neither finalized nor cancelled
        if x is None: ctx.check(FieldLV(o, 'finalized').get(), 'every write operation is finalized or cancelled', 'pre')
    reg.mod[SMQ + 'WriteOperation::~WriteOperation'] = wodtor
    M = lib.extra_methods
    def args(ctx, e): return e['args']
    def Get(L, ctx, o, e):
        a = e['args']
        k = L.as_str(ctx, ctx.ev(a[2])); out = ctx.ev(a[3])
        w = o.get(); v = View_(ctx, w.f['dom'], w.f['val'])
        if ctx.branch(v.has(k)):
            d = ctx.deref(out)
            x = v.at(k)
            for h in ctx.ghost.get('on_read', ()): h(v, k, x)
            if isinstance(d.get(), Str) or L.kind(d.ty) == 'str': d.set(x)
            return L.status(0)
        return L.status(1)
    def GetB(L, ctx, o, e):
        a = e['args']; k = L.as_str(ctx, ctx.ev(a[1])); out = ctx.ev(a[2]); w = o.get()
        b = vget(w.f['in'], k, ctx)
        if ctx.branch(b):
            ctx.deref(out).set(View_(ctx, w.f['dom'], w.f['val']).at(k)); return L.status(0)
        return L.status(1)
    def Put(L, ctx, o, e):
        a = e['args']; k = L.as_str(ctx, ctx.ev(a[0])); x = L.as_str(ctx, ctx.ev(a[1])); w = o.get()
        v = View_(ctx, w.f['dom'], w.f['val']).put(k, x)
        o.set(Struct(w.ty, dict(w.f, dom=v.dom, val=v.val, **{'in': z3.Store(w.f['in'], k.term(), z3.BoolVal(True))}))); return L.status(0)
    def Delete(L, ctx, o, e):
        k = L.as_str(ctx, ctx.ev(e['args'][0])); w = o.get()
        v = View_(ctx, w.f['dom'], w.f['val']).drop(k)
        o.set(Struct(w.ty, dict(w.f, dom=v.dom, val=v.val, **{'in': z3.Store(w.f['in'], k.term(), z3.BoolVal(False))}))); return L.status(0)
    def DBGet(L, ctx, o, e):
        a = e['args']; op = ctx.ev(a[0])
        if isinstance(op, LV): op = op.get()
        w = op.f.get('$snap') if isinstance(op, Struct) else None
        ctx.check(w is not None, 'a read within a request goes through its snapshot @%s' % ctx.where(), 'pre')
        if w is None: raise Unsupported('read without a snapshot')
        k = L.as_str(ctx, ctx.ev(a[-2])); out = ctx.ev(a[-1])
        v = View_(ctx, w.f['dom'], w.f['val'])
        if ctx.branch(v.has(k)):
            x = v.at(k)
            for h in ctx.ghost.get('on_read', ()): h(v, k, x)
            ctx.deref(out).set(x); return L.status(0)
        return L.status(1)
    M[('rocksdb::DB', 'Get')] = DBGet
    M[(WB, 'GetFromBatchAndDB')] = Get; M[(WB, 'GetFromBatch')] = GetB; M[(WB, 'Put')] = Put; M[(WB, 'Delete')] = Delete; M[(WB, 'SingleDelete')] = Delete
    # locators: what their contracts (storage keys property) say
    def loc(cls, f, req=None):
        def ctor(ctx, o, args, e):
            a = [val(x) for x in args]
            for lab, g in (req(ctx, a) if req else []): ctx.check(g, '%s: %s @%s' % (cls, lab, ctx.where()), 'pre')
            kb, pre = f(ctx, a)
            d = {'keyBuffer': kb}
            if pre is not None: d['keyPrefixSize'] = pre.len(); ctx.ghost['locprefix'] = dict(ctx.ghost.get('locprefix') or {}, **{repr(pre): pre})
            o.set(Struct(parse(Q + cls), d))
        reg.mod_ctor[Q + cls + '::' + cls] = ctor
        if cls == 'FieldLocator': reg.mod[Q + 'FieldLocator::reset'] = lambda ctx, o, args, e: ctor(ctx, o, args, e)
    def nonempty(*idx): return lambda ctx, a: [('text %d is not empty' % i, ilt(0, S(a[i]).len())) for i in idx if i < len(a)]
    def simple(tag):
        def f(ctx, a): return (Str([tag]) + S(a[0]), None) if a else (Str([z3.String(ctx.uniq('buf'))]), None)
        return f
    for c, t in (('DescriptorLocator', '!'), ('StringLocator', 'a'), ('LeaseLocator', 'f'), ('ConfigurationLocator', '~')):
        loc(c, simple(t))
        def rst(ctx, o, args, e, t=t, c=c): o.set(Struct(parse(Q + c), {'keyBuffer': Str([t]) + S(val(args[0]))}))
        reg.mod[Q + c + '::reset'] = rst
    loc('ExpirationEventLocator', lambda ctx, a: (Str(['@', ctx.lib.be64(ctx, ctx.toint(a[0]))]) + S(a[1]), None))
    def tagc(ctx, c):
        c = ctx.toint(c)
        if isinstance(c, int): return Str([chr(c)])
        for x in 'bcdg':
            if ctx.branch(c == ord(x)): return Str([x])
        raise PathEndErr()
    class PathEndErr(Unsupported):
        def __init__(self): Unsupported.__init__(self, 'locator for a key without fields')
    def fld(ctx, a):
        p = tagc(ctx, a[0]) + esc(ctx, a[1]) + Str(['##'])
        return (p + S(a[2]) if len(a) > 2 else p), p
    loc('FieldLocator', fld)
    def rstf(ctx, o, args, e):
        s = o.get(); known = ctx.ghost.get('locprefix') or {}; pre = list(known.values())[0] if len(known) == 1 and 'keyBuffer' not in s.f else None      # only one prefix was ever in use
        if pre is None: pre = ssub(s.f['keyBuffer'], 0, s.f['keyPrefixSize'])
        o.set(Struct(parse(Q + 'FieldLocator'), {'keyBuffer': pre + S(val(args[0])), 'keyPrefixSize': pre.len()}))
    reg.mod[Q + 'FieldLocator::resetField'] = rstf
    def lh(ctx, a):
        p = Str(['e']) + esc(ctx, a[0]) + Str(['##d'])
        if len(a) > 1: p2 = p + esc(ctx, a[1]) + Str(['##'])
        return (p2 + S(a[2]) if len(a) > 2 else p2 if len(a) > 1 else p), p
    loc('LocalityFieldLocator', lh, nonempty(0, 1))
    loc('LocalityIndexLocator', lambda ctx, a: (lambda p: (p + S(a[1]) if len(a) > 1 else p, p))(Str(['e']) + esc(ctx, a[0]) + Str(['##i'])), nonempty(0, 1))
    # descriptors: what their contracts say
    KD = Q + 'KeyDescriptor'
    def kdctor(ctx, o, args, e):
        if not args: return reg_default(ctx, o)
        v = S(val(args[0])); d = decode(ctx, v)
        if d is None: d = stored(ctx, v)
        if d is None:
            ctx.check(False, 'a descriptor is read that is not known to be well-formed @%s' % ctx.where(), 'pre'); raise Unsupported('descriptor %s' % v)
        o.set(kd_struct(ctx, *d))
    def reg_default(ctx, o): o.set(kd_struct(ctx, 0, 0, HALF, HALF))
    reg.mod_ctor[KD + '::KeyDescriptor'] = kdctor
    def ser(ctx, o, args, e):
        s = o.get(); t = ctx.toint(s.f['keyType'])
        if not isinstance(t, int):
            for x in TYPES.values():
                if ctx.branch(t == ord(x)): t = ord(x); break
        ctx.check(isinstance(t, int) and chr(t) in 'abcdefg', 'only descriptors of a known type are written @%s' % ctx.where(), 'pre')
        if not isinstance(t, int): raise Unsupported('descriptor type')
        c = chr(t)
        if c in 'df': ctx.check(ile(s.f['startIndex'], s.f['endIndex']), 'descriptor: start <= end @%s' % ctx.where(), 'pre')
        return D(ctx, c, s.f['sz'], s.f['startIndex'], s.f['endIndex'])
    reg.mod[KD + '::serialize'] = ser
    # numbers in requests: what their parsers' contracts say
    def pint(ctx, o, args, e):
        x = S(val(args[0])).term(); r = args[1]
        ctx.assume(z3.Implies(INTOK(x), z3.And(INTVAL(x) > -(1 << 63), INTVAL(x) < (1 << 63) - 1, z3.Length(x) >= 1)))
        if ctx.branch(INTOK(x)): r.set(INTVAL(x)); return True
        r.set(ctx.fint('unparsed', 'long')); return False
    reg.mod[Q + 'ParseUtils::parseInt64'] = pint
    def pdbl(ctx, o, args, e):
        x = S(val(args[0])).term()
        if ctx.branch(DBLOK(x)): args[1].set(DBLVAL(x)); return True
        args[1].set(z3.Real(ctx.uniq('unparsed'))); return False
    reg.mod['my_strtod'] = pdbl; reg.mod[Q + 'my_strtod'] = pdbl
    # revisions of versioned hashes
    reg.mod[Q + 'VersionedHashRevisionTracker::forKey'] = lambda ctx, o, args, e: revision(ctx, val(args[0]))
    for f in prog.byq.get(SMQ + 'configGet', []):
        if len(f['params']) == 2:
            def cg(ctx, o, args, e):
                args[1].set(Str([z3.String(ctx.uniq('oldvalue'))])); return ctx.lib.status(ctx.fint('oldstatus', 'int') if False else (0 if ctx.branch(ctx.fbool('had')) else 1))
            reg.mod[f['sig']] = cg
INTOK, INTVAL = z3.Function('INTOK', SS, BS), z3.Function('INTVAL', SS, IS)
DBLOK, DBLVAL = z3.Function('DBLOK', SS, BS), z3.Function('DBLVAL', SS, z3.RealSort())
def revision(ctx, k):
    c = ctx.ghost.get('revision')
    if c is None:
        t = parse(Q + 'VersionedHashRevision')
        c = ctx.cell('revision', t, Struct(t, {'currentRevision': z3.Int('revision.number')}, origin='revision')); ctx.ghost['revision'] = c
    return c
HALF = (1 << 64) // 2 - 1
def kd_struct(ctx, t, n, s, e):
    return Struct(parse(Q + 'KeyDescriptor'), {'keyType': t, 'sz': n, 'startIndex': s, 'endIndex': e, 'serializationBuffer': Opaque(None, 'buf')})
def D(ctx, c, n, s=None, e=None):
    """serialized descriptor"""
    b = lambda x: ctx.lib.be64(ctx, ctx.lib.to_u64(ctx, x))
    p = [c, b(n)]
    if c in 'dfg': p.append(b(s))
    if c in 'df': p.append(b(e))
    return Str(p)
def decode(ctx, v):
    """(type, size, start, end) of a descriptor that is known to be well-formed"""
    if len(v.parts) == 1 and is_sym(v.parts[0]):
        r = ctx.memo.get(('desc', v.parts[0].get_id()))
        if r is not None: return r
        t = v.parts[0]
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and not ctx.ghost.get('$decoding'):
            for k, d, tup in ctx.memo.get('descs', ()):
                if k.eq(t.arg(1)):
                    ctx.ghost['$decoding'] = True
                    try: same = ctx.entails(t == d)
                    finally: ctx.ghost['$decoding'] = False
                    if same: ctx.memo[('desc', t.get_id())] = tup; ctx.memo['keep'].append(t); return tup
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            for i in (1, 2):
                if ctx.entails(t.arg(0) if i == 1 else z3.Not(t.arg(0))): return decode(ctx, Str([t.arg(i)]))
    if len(v.parts) >= 2 and isinstance(v.parts[0], str) and len(v.parts[0]) == 1 and all(is_sym(x) and x.decl().name() == 'BE64' for x in v.parts[1:]):
        a = [ctx.as_signed(v.parts[1].arg(0), 64)] + [x.arg(0) for x in v.parts[2:]]
        return tuple([ord(v.parts[0])] + a + [HALF] * (3 - len(a)))
    return None
def dkey(k): return Str(['!']) + S(k)
def fpfx(ctx, tag, k): return Str([tag]) + esc(ctx, k) + Str(['##'])
def stored(ctx, v):
    """a descriptor read from the store as it was before the call: well-formed by the state invariant"""
    t = v.parts[0] if len(v.parts) == 1 else None; v0 = ctx.ghost.get('v0')
    if v0 is None or not (is_sym(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and t.arg(0).eq(v0.val)): return None
    k = S(Str([t.arg(1)])); p = Str([t.arg(1)]).parts
    k = t.arg(1); isd = z3.PrefixOf(z3.StringVal('!'), k)
    if not ctx.entails(z3.And(isd, z3.Select(v0.dom, k))): return None
    n = ctx.uniq('stored'); T, N, B, E = [z3.Int(n + '.' + x) for x in ('type', 'size', 'start', 'end')]
    for f in (0 <= N, N < MAXN, 0 <= B, B < (1 << 64), 0 <= E, E < (1 << 64), z3.Or(*[T == ord(c) for c in TYPES.values()])): ctx.assume(f)
    ctx.memo[('desc', t.get_id())] = (T, N, B, E); ctx.memo.setdefault('keep', []).append(t)
    return T, N, B, E
class KeyState:
    """what the state invariant says about one key: a well-formed descriptor, and a truthful size"""
    def __init__(self, ctx, v, k, name, tags=''):
        self.ctx, self.k, self.v = ctx, S(k), v
        self.dk = dkey(k); self.has = z3.Select(v.dom, self.dk.term())
        self.t, self.n, self.s, self.e = z3.Int(name + '.type'), z3.Int(name + '.size'), z3.Int(name + '.start'), z3.Int(name + '.end')
        d = z3.Select(v.val, self.dk.term())
        ctx.memo[('desc', d.get_id())] = (self.t, self.n, self.s, self.e); ctx.memo.setdefault('keep', []).append(d); ctx.memo.setdefault('descs', []).append((self.dk.term(), d, (self.t, self.n, self.s, self.e)))
        self.facts = [0 <= self.n, self.n < MAXN, 0 <= self.s, self.s < (1 << 64), 0 <= self.e, self.e < (1 << 64), z3.Or(*[self.t == ord(c) for c in TYPES.values()]), z3.Implies(z3.Or(self.t == ord('d'), self.t == ord('f')), self.s <= self.e)]
        P = ctx.ghost.setdefault('prefixes', [])
        for c in tags:
            if c in 'bcg':
                p = fpfx(ctx, c, k); P.append(p); n = CNTF(v.dom, p.term())
                self.facts += [n >= 0, n < MAXN, n == z3.If(z3.And(self.has, self.t == ord(c)), self.n, z3.IntVal(0))]
                if c != 'g': self.facts.append(z3.Implies(z3.And(self.has, self.t == ord(c)), self.n >= 1))
            if c == 'e':
                for x in 'id':
                    p = Str(['e']) + esc(ctx, k) + Str(['##' + x]); P.append(p); n = CNTF(v.dom, p.term())
                    self.facts += [n >= 0, n < MAXN, n == z3.If(z3.And(self.has, self.t == ord('e')), self.n, z3.IntVal(0))]
                self.facts.append(z3.Implies(z3.And(self.has, self.t == ord('e')), self.n >= 1))
            if c in 'af': self.facts.append(z3.Select(v.dom, (Str([c]) + self.k).term()) == z3.And(self.has, self.t == ord(c)))
            if c == 'd': self.facts.append(z3.Implies(z3.And(self.has, self.t == ord('d')), z3.And(self.n >= 1, self.n == self.e - self.s - 1)))
        for f in self.facts: ctx.assume(f)
    def is_(self, tag): return And(self.has, ieq(self.t, ord(tag)))
    def bad(self, tag): return And(self.has, Not(ieq(self.t, ord(tag))))
def desc(v, k, tag, n, s=None, e=None, keep0=False):
    """the view with the descriptor of a key that has n elements: absent when there are none"""
    d = D(v.ctx, tag, n, s, e)
    w = v.put(dkey(k), d)
    if keep0: return w
    return v.drop(dkey(k)) if v.ctx.branch(ieq(n, 0)) else w
def st(s): return ieq(s.lib.getcode(s) if False else FieldLV(s.retlv, 'code').get() if hasattr(s, 'retlv') else raw(s.ret).f['code'], 0)
def code_(s): return (raw(s.ret) if not isinstance(s.ret, LV) else s.ret.get()).f['code']

class VFold:
    """spec function: the view after a step for every group of `stride` items of a request from position a up to c (defined by recursion on c; only its unfoldings are used)"""
    def __init__(self, name, step, stride=1, stepgoal=False): self.name, self.step, self.stride, self.stepgoal, self.last = name, step, stride, stepgoal, {}
    def __call__(self, ctx, v0, vec, a, c, extra=(), ks=()):
        L = ctx.lib
        if vec is not None: vec = raw(vec); arr, _ = L.vec_arr(ctx, vec)
        else: arr = z3.IntVal(0)
        ex = [zi(x) if not isinstance(x, Str) else x.term() for x in extra]
        argl = [v0.dom, v0.val, arr, zi(a)] + ex; c = simp0_(zi(c))
        fd = z3.Function(self.name + '.dom', *([x.sort() for x in argl] + [IS, z3.ArraySort(SS, BS)])); fv = z3.Function(self.name + '.val', *([x.sort() for x in argl] + [IS, z3.ArraySort(SS, SS)]))
        r = View_(ctx, fd(*(argl + [c])), fv(*(argl + [c])))
        key = ('vfold', r.dom.get_id())
        if key not in ctx.memo:
            ctx.memo[key] = True; ctx.memo.setdefault('keep', []).append(r)
            j = simp0_(c - self.stride)
            if ctx.V.unroll is not None and ctx.ghost.get('$folddepth', 0) < ctx.V.unroll + 1:
                ctx.ghost['$folddepth'] = ctx.ghost.get('$folddepth', 0) + 1
                self(ctx, v0, vec, a, j, extra, ks)
                ctx.ghost['$folddepth'] -= 1
            ctx.in_spec += 1
            try: el = [] if vec is None else [S(L.elem_get(ctx, Vec(vec.et, arr=arr, n=vec.len()), simp0_(j + i))) for i in range(self.stride)]
            finally: ctx.in_spec -= 1
            prev = View_(ctx, fd(*(argl + [j])), fv(*(argl + [j])))
            nx = self.step(ctx, prev, el, j, *extra); self.last[r.dom.get_id()] = nx
            ctx.assume(z3.Implies(c <= zi(a), z3.And(r.dom == v0.dom, r.val == v0.val)))
            ctx.assume(z3.Implies(c > zi(a), z3.And(r.dom == nx.dom, r.val == nx.val)))
            # lemma (induction on c): keys that no step writes keep their state
            for k in ks:
                for t in [k.dk.term()]:
                    if all(key_eq(Str([w]), Str([t])) is False for w in written(nx.dom) + written(nx.val)):
                        ctx.assume(z3.And(z3.Select(r.dom, t) == z3.Select(v0.dom, t), z3.Select(r.val, t) == z3.Select(v0.val, t)))
        return r
class IFold:
    """spec function: a sum over groups of items of a request, of step(view, items)"""
    def __init__(self, name, step, stride=1): self.name, self.step, self.stride = name, step, stride
    def __call__(self, ctx, v0, vec, a, c, extra=(), top=None):
        L = ctx.lib; vec = raw(vec); arr, _ = L.vec_arr(ctx, vec)
        ex = [zi(x) if not isinstance(x, Str) else x.term() for x in extra]
        argl = [v0.dom, v0.val, arr, zi(a)] + ex; c = simp0_(zi(c))
        f = z3.Function(self.name, *([x.sort() for x in argl] + [IS, IS])); r = f(*(argl + [c]))
        key = ('ifold', r.get_id())
        if key not in ctx.memo:
            ctx.memo[key] = True; ctx.memo.setdefault('keep', []).append(r)
            j = simp0_(c - self.stride)
            if ctx.V.unroll is not None and ctx.ghost.get('$folddepth', 0) < ctx.V.unroll + 1:
                ctx.ghost['$folddepth'] = ctx.ghost.get('$folddepth', 0) + 1
                self(ctx, v0, vec, a, j, extra)
                ctx.ghost['$folddepth'] -= 1
            ctx.in_spec += 1
            try: el = [S(L.elem_get(ctx, Vec(vec.et, arr=arr, n=vec.len()), simp0_(j + i))) for i in range(self.stride)]
            finally: ctx.in_spec -= 1
            ctx.assume(z3.Implies(c <= zi(a), r == 0)); ctx.assume(z3.Implies(c > zi(a), r == f(*(argl + [j])) + zi(self.step(ctx, v0, el, *extra))))
            ctx.assume(r >= 0); ctx.assume(z3.Implies(c >= zi(a), r <= c - zi(a)))
        if top is not None:      # lemma (induction): the sum grows with the range
            t = f(*(argl + [simp0_(zi(top))])); ctx.assume(z3.Implies(c <= zi(top), r <= t))
        return r
def written(t):
    out = []
    todo = [t]
    while todo:
        t = todo.pop()
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE: out.append(t.arg(1)); todo.append(t.arg(0))
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE: todo += [t.arg(1), t.arg(2)]
    return out
class NoVec:
    @staticmethod
    def get(snap=None): return None
def loops(fold=None, pfx=None, extra=lambda s: (), sums=None):
    """loop invariants: the view is the fold up to some counter; counters move with the number of elements under the prefix; descriptors untouched by the batch"""
    def gen(lc):
        ctx = lc.ctx; s = ctx.ghost['scope']; out = []; ks = ctx.ghost['keystates']; v0 = ctx.ghost['v0']
        vec, a, b = ctx.ghost.get('range') or (NoVec, ctx.ghost['from'], None)
        if fold is not None:
            for c in counters(lc):
                if not lc.modified(c.l) or c.kind == 'ptr': continue
                def cl(c=c):
                    e0 = c.get(lc.entry); at = c.get() if ieq(e0, a) is True else iadd(a, isub(c.get(), e0))      # counters that start elsewhere count from the start of the range
                    f = fold(ctx, v0, vec.get(), a, at, extra(s), ks); w = view_of(s)
                    if ctx.inv_goal and fold.stepgoal:      # the same, unfolded once and compared key by key
                        nx = fold.last[f.dom.get_id()]
                        if w.dom.eq(v0.dom) and w.val.eq(v0.val): return ile(at, a)
                        return And(ilt(a, at), aeq(ctx, w.dom, nx.dom), aeq(ctx, w.val, nx.val))
                    if not ctx.inv_goal: ctx.ghost.setdefault('pairs', []).append((w.dom, w.val, at)); ctx.ghost['pairs'].append((f.dom, f.val, at))
                    return z3.And(w.dom == f.dom, w.val == f.val)
                out.append(('the view is the fold over the items before %s' % c, cl))
                if fold.stride > 1: out.append(('%s advances in groups of %d' % (c, fold.stride), lambda c=c: (zi(c.get()) - zi(c.get(lc.entry))) % fold.stride == 0))
        if pfx is not None:
            for p in pfx(s):
                for x in intplaces(lc):
                    if not lc.modified(x): continue
                    d = lambda x=x: isub(x.get(), x.get(lc.entry)); n = lambda p=p: isub(cnt(ctx, view_of(s), S(p)), cnt(ctx, view_of(s, lc.entry), S(p)))
                    out.append(('%s grows with the number of elements' % x, lambda d=d, n=n: ieq(d(), n())))
                    out.append(('%s grows as the number of elements shrinks' % x, lambda d=d, n=n: ieq(d(), isub(0, n()))))
                    out.append(('%s: bounds' % x, lambda x=x: And(ile(-MAXN, x.get()), ile(x.get(), 2 * MAXN))))
                out.append(('the number of elements is bounded', lambda p=p: And(ile(0, cnt(ctx, view_of(s), S(p))), ile(cnt(ctx, view_of(s), S(p)), iadd(MAXN, 1 << 31)))))
        for n, (F, ex, zero) in sums(s).items() if sums else ():
            for c in counters(lc):
                if not lc.modified(c.l) or c.kind == 'ptr': continue
                g = lambda c=c, F=F, ex=ex, d=0: F(ctx, v0, vec.get(), a, iadd(c.get(), d), ex, b)
                out.append(('%s: sum up to %s is bounded by the next' % (n, c), lambda g=g, F=F: ile(g(), g(d=F.stride))))
                if zero: out.append(('%s: nothing before %s' % (n, c), lambda g=g: ieq(g(), 0))); out.append(('%s: nothing at %s' % (n, c), lambda g=g, F=F, c=c: Or(ilt(b, iadd(c.get(), F.stride)), ieq(g(d=F.stride), 0))))
                for x in intplaces(lc):
                    if lc.modified(x) and not zero: out.append(('%s: %s is the sum up to %s' % (n, x, c), lambda g=g, x=x: ieq(isub(x.get(), x.get(lc.entry)), g())))
        cs = [c for c in counters(lc) if c.kind != 'ptr' and lc.modified(c.l)]
        for i, c in enumerate(cs):
            for d in cs[i + 1:]: out.append(('%s and %s advance together' % (c, d), lambda c=c, d=d: ieq(isub(c.get(), c.get(lc.entry)), isub(d.get(), d.get(lc.entry)))))
        for k in ks: out.append(('the batch keeps the descriptor entry', lambda k=k: batch_has(s, k.dk) == batch_has(s, k.dk, lc.entry) if is_sym(batch_has(s, k.dk)) else True))
        return out
    return gen
