"""C18: transactions and request filters"""
from cxv.runner import Harness
from cxv.spec import *
from . import reqs
from .reqs import CMD, KIND, READ, WRITE, REQ
ID = 'C18'
FILES = ['redis/Transaction.cc', 'redis/LeaseFilter.cc', 'redis/InternalFilter.cc']
T_ = 'quarkdb::Transaction::'
def be8(ctx, x): return Str([ctx.lib.be64(ctx, ctx.lib.to_u64(ctx, x))]) if is_sym(x) or True else None
PARTS = Fold('PARTS', lambda ctx, x: be8(ctx, S(x).len()) + S(x))
def reqtext(ctx, r):
    c = ctx.get_field(r, 'contents')
    return be8(ctx, c.len()) + PARTS(ctx, c, c.len())
REQTEXT = z3.Function
def encreq(ctx, r): return Str([z3.Function('REQTEXT', ctx.lib.sort(REQ), z3.StringSort())(ctx.lib.pack(ctx, r, REQ))])
SERS = Fold('SERS', encreq)
def install(prog, lib, reg):
    reqs.install(prog, lib, reg)
    def ser(ctx, o, args, e):
        b = FieldLV(args[0], 'buf')
        b.set(b.get() + encreq(ctx, args[1].get()))
    for q in ('serializeRequestToString', 'quarkdb::serializeRequestToString'): reg.mod[q] = ser
    reg.mod[T_ + 'serialize'] = lambda ctx, o, args, e: sertext(ctx, FieldLV(o, 'requests').get())
def sertext(ctx, rs): return be8(ctx, rs.len()) + SERS(ctx, rs, rs.len())
def rs(s, snap=None): return FieldLV(s.thislv, 'requests').get(snap)
def hw(s, snap=None): return FieldLV(s.thislv, 'hasWrites').get(snap)
def ph(s, snap=None): return FieldLV(s.thislv, 'phantom').get(snap)
def kind(s, r): return s.ctx.get_field(r, 'commandType')
def okkind(s, r): return Or(ieq(kind(s, r), READ), ieq(kind(s, r), WRITE))
def pushed(s, req):
    L = s.lib; o, n = rs(s, s.pre), rs(s)
    return [('one request more', ieq(n.len(), iadd(o.len(), 1))), ('the new request is last', s.eq(L.elem_get(s.ctx, n, o.len()), req)), ('earlier requests unchanged', agree(s, o, n, o.len())),
            ('read-write as soon as one request is a write', Iff(hw(s), Or(hw(s, s.pre), ieq(kind(s, req), WRITE)))), ('kind of batch unchanged', Iff(ph(s), ph(s, s.pre)))]
def Iff(a, b): return And(Implies(a, b), Implies(b, a))
def agree(s, a, b, n):
    L = s.lib; i = z3.Int(s.ctx.uniq('?ag'))
    aa, _ = L.vec_arr(s.ctx, a); bb, _ = L.vec_arr(s.ctx, b)
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(n)), z3.Select(aa, i) == z3.Select(bb, i)), patterns=[z3.Select(bb, i)])
def allkinds(s, v, hwv, n):
    """classification of the first n requests"""
    L = s.lib; arr, _ = L.vec_arr(s.ctx, v); arr = named(s.ctx, arr)
    i = z3.Int(s.ctx.uniq('?ak'))
    def kd(k):
        s.ctx.in_spec += 1
        try: return zi(s.ctx.get_field(L.elem_get(s.ctx, Vec(v.et, arr=arr, n=v.len()), k), 'commandType'))
        finally: s.ctx.in_spec -= 1
    a = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(n)), z3.And(z3.Or(kd(i) == READ, kd(i) == WRITE), z3.Implies(kd(i) == WRITE, zb(hwv)))), patterns=[z3.Select(arr, i)])
    return a
def desinv(lc):
    ctx = lc.ctx; s = ctx.ghost['scope']; out = []
    for c in counters(lc):
        if c.kind != 'int' or not lc.modified(c.l): continue
        out.append(('the first %s requests read or write' % c, lambda c=c: allkinds(s, rs(s), hw(s), c.get())))
    out.append(('number of requests', lambda: ieq(rs(s).len(), rs(s, lc.entry).len())))
    for c in counters(lc):
        if c.kind == 'int' and not lc.modified(c.l):
            out.append(('the first %s requests read or write' % c, lambda c=c: allkinds(s, rs(s), hw(s), c.get())))
    for c in counters(lc):
        if not lc.modified(c.l): continue
        for d in counters(lc):
            if d is c or not lc.modified(d.l) or repr(d.l) == repr(c.l): continue
            out.append(('%s - %s is constant' % (c, d), lambda c=c, d=d: ieq(isub(c.get(), d.get()), isub(c.get(lc.entry), d.get(lc.entry)))))
            out.append(('%s = %s' % (c, d), lambda c=c, d=d: ieq(c.get(), d.get())))
    return out
def desens(s):
    a = allkinds(s, rs(s), hw(s), rs(s).len()) if s.ctx.branch(s.ret) else True
    return [('on success every request is a read or a write, and the batch is read-write if one writes', a), ('a refused payload leaves nothing', Implies(Not(s.ret), ieq(rs(s).len(), 0)))]
def payload_(prog, lib, reg):
    def des(ctx, o, args, e):
        """the payload is parsed as its own contract says: refused leaving nothing, or classified requests"""
        p = lib.as_str(ctx, args[0]); ok = ctx.fresh_bool('payload.ok') if hasattr(ctx, 'fresh_bool') else z3.Bool(ctx.uniq('payload.ok')); ctx.ghost.setdefault('payload', []).append((p, ok))
        if not ctx.branch(ok): FieldLV(o, 'requests').set(Vec(REQ, items=[])); FieldLV(o, 'hasWrites').set(False); FieldLV(o, 'phantom').set(False); return False
        v = lib.fresh(ctx, parse('std::vector<quarkdb::RedisRequest>'), 'parsed'); w = z3.Bool(ctx.uniq('parsed.writes')); FieldLV(o, 'requests').set(v); FieldLV(o, 'hasWrites').set(w)
        ctx.ghost['payload'][-1] += (v, w); return True
    lib.extra_methods[('quarkdb::Transaction', 'deserialize')] = lambda L, ctx, o, e: des(ctx, o, [ctx.ev(e['args'][0])], e)
def desreq(s):
    L = s.lib; ctx = s.ctx; q = s.argv(0); c = ctx.get_field(q, 'contents'); cmd = ctx.get_field(q, 'command'); pl = ctx.ghost.get('payload', []); rw = ieq(cmd, C('TX_READWRITE', s))
    tag = lambda t: seq_(L.elem_get(ctx, c, 2), Str([t])); shape = And(ieq(c.len(), 3), Or(rw, ieq(cmd, C('TX_READONLY', s))))
    if not ctx.branch(shape): return [('refused: not a transaction request', Not(s.ret)), ('nothing is left', ieq(rs(s).len(), 0))]
    if not ctx.branch(Or(tag('phantom'), tag('real'))): return [('refused: neither real nor background', Not(s.ret)), ('nothing is left', ieq(rs(s).len(), 0))]
    if len(pl) != 1: return [('the payload is read once', False)]
    out = [('the payload is the second argument', seq_(pl[0][0], L.elem_get(ctx, c, 1)))]
    if len(pl[0]) < 3: return out + [('refused: malformed payload', Not(s.ret)), ('nothing is left', ieq(rs(s).len(), 0))]
    if not ctx.branch(Iff(pl[0][3], rw)): return out + [('refused: the command lies about the writes', Not(s.ret)), ('nothing is left', And(ieq(rs(s).len(), 0), Not(hw(s))))]
    return out + [('accepted', s.ret), ('the requests are those of the payload', s.eq(rs(s), pl[0][2])), ('classified as the payload is', Iff(hw(s), pl[0][3])), ('a background batch exactly if it says so', Iff(ph(s), tag('phantom')))]
def treq(s): return s.ret._get() if isinstance(s.ret, View) else s.ret
def toreq(s):
    L = s.lib; c = s.ctx.get_field(treq(s), 'contents'); v = rs(s, s.pre)
    single = s.ctx.branch(And(ph(s, s.pre), ieq(v.len(), 1)))
    if single: return [('a background batch of one is the request itself', s.eq(treq(s), L.elem_get(s.ctx, v, 0)))]
    return [('three arguments', ieq(c.len(), 3)), ('the command tells whether the transaction writes', seq_(L.elem_get(s.ctx, c, 0), Str(['TX_READWRITE']) if s.ctx.branch(hw(s, s.pre)) else Str(['TX_READONLY']))),
            ('the payload is the serialized transaction', seq_(L.elem_get(s.ctx, c, 1), sertext(s.ctx, v))), ('the last argument tells the kind', seq_(L.elem_get(s.ctx, c, 2), Str(['phantom']) if s.ctx.branch(ph(s, s.pre)) else Str(['real'])))]
C = lambda n, s: int(s.lib.prog.enums['quarkdb::RedisCommand']['vals'][n])
def lease_names(s, r):
    """command of the timestamped form"""
    c = s.ctx.get_field(r, 'command')
    return [(ieq(c, C(n, s)), 'TIMESTAMPED_' + n) for n in ('LEASE_GET', 'LEASE_ACQUIRE', 'LEASE_RELEASE')]
def is_lease(s, r): return Or(*[c for c, _ in lease_names(s, r)])
def transformed(s):
    """LeaseFilter::transform(request, timestamp)"""
    L = s.lib; o = s.argv(0); n = raw(s.argpost(0)); oc, nc = s.ctx.get_field(o, 'contents'), s.ctx.get_field(n, 'contents')
    out = [('only lease requests are rewritten', is_lease(s, o)), ('one argument is added', ieq(nc.len(), iadd(oc.len(), 1))), ('the last argument is the timestamp', seq_(L.elem_get(s.ctx, nc, oc.len()), be8(s.ctx, s.argv(1))))]
    for c, nm in lease_names(s, o): out.append(('%s takes the place of the command' % nm, Implies(c, seq_(L.elem_get(s.ctx, nc, 0), Str([nm])))))
    for c, nm in lease_names(s, o): out.append(('the request is then a %s' % nm, Implies(c, ieq(s.ctx.get_field(n, 'command'), C(nm, s)))))
    i = z3.Int(s.ctx.uniq('?lf')); aa, _ = L.vec_arr(s.ctx, oc); bb, _ = L.vec_arr(s.ctx, nc)
    out.append(('the other arguments stay', z3.ForAll([i], z3.Implies(z3.And(i >= 1, i < zi(oc.len())), z3.Select(aa, i) == z3.Select(bb, i)))))
    return out
INTERNAL = ('TIMESTAMPED_LEASE_GET', 'TIMESTAMPED_LEASE_ACQUIRE', 'TIMESTAMPED_LEASE_RELEASE')
def filtered(s):
    o, n = s.argv(0), raw(s.argpost(0))
    c, c2 = s.ctx.get_field(o, 'command'), s.ctx.get_field(n, 'command')
    bad = Or(*[ieq(c, C(x, s)) for x in INTERNAL])
    return [('internal commands become invalid', Implies(bad, And(ieq(c2, 0), ieq(s.ctx.get_field(n, 'commandType'), 0)))), ('every other request passes unchanged', Implies(Not(bad), s.eq(o, n)))]
def wfreq(s, r):
    """the command of a request is that of its first argument"""
    return True
UNITS_ = [
    spec('serializeRequestToString', lambda s: [('the request is written as the count and each length-prefixed argument', seq_(FieldLV(s.args[0], 'buf').get(), FieldLV(s.args[0], 'buf').get(s.pre) + reqtext(s.ctx, s.argv(1))))], invs=accumulate(lambda s, k: PARTS(s.ctx, s.ctx.get_field(s.argv(1), 'contents'), k))),
    spec(T_ + 'serialize', lambda s: [('the text is the count and each request in order', seq_(s.ret, sertext(s.ctx, rs(s, s.pre)))), ('nothing changes', s.eq(rs(s), rs(s, s.pre)))], invs=accumulate(lambda s, k: SERS(s.ctx, rs(s, s.pre), k))),
    spec(T_ + 'push_back', lambda s: pushed(s, s.argv(0)) + [('only reads and writes are accepted', okkind(s, s.argv(0)))], requires=lambda s: [ile(rs(s).len(), (1 << 31) - 2)], throws=lambda s, ty: [('refused only for requests that neither read nor write', Not(okkind(s, s.argv(0))))]),
    spec(T_ + 'Transaction', lambda s: [('one request', ieq(rs(s).len(), 1)), ('it is the given one', s.eq(s.lib.elem_get(s.ctx, rs(s), 0), s.argv(0))), ('read-write exactly if it writes', Iff(hw(s), ieq(kind(s, s.argv(0)), WRITE))), ('a background batch', ph(s))], sig_has='RedisRequest &&', throws=lambda s, ty: [('refused only for requests that neither read nor write', Not(okkind(s, s.argv(0))))]),
    spec(T_ + 'containsWrites', lambda s: [('the stored classification', Iff(s.ret, hw(s, s.pre)))]),
    spec(T_ + 'clear', lambda s: [('nothing is left', And(ieq(rs(s).len(), 0), Not(hw(s)), Not(ph(s))))]),
    spec(T_ + 'getFusedCommand', lambda s: [('the command tells whether the transaction writes', seq_(s.ret, Str(['TX_READWRITE']) if s.ctx.branch(hw(s, s.pre)) else Str(['TX_READONLY'])))]),
    spec(T_ + 'expectedResponses', lambda s: [('one reply per request of a background batch, one for a real transaction', Ite_(s, ph(s, s.pre), ieq(s.ret, rs(s, s.pre).len()), ieq(s.ret, 1)))]),
    spec(T_ + 'toRedisRequest', toreq),
    spec(T_ + 'deserialize', desens, sig_has='PinnedBuffer', invs=desinv, throws=lambda s, ty: [], requires=lambda s: [ieq(rs(s).len(), 0), Not(hw(s)), ile(S(s.argv(0)).len(), 1 << 33)]),
    spec(T_ + 'deserialize', desreq, sig_has='RedisRequest', throws=lambda s, ty: [], requires=lambda s: [ieq(rs(s).len(), 0), Not(hw(s)), Not(ph(s))], name='Transaction::deserialize(request)'),
    spec('quarkdb::LeaseFilter::transform', transformed, sig_has='RedisRequest &', throws=lambda s, ty: [('refused only for other commands', Not(is_lease(s, s.argv(0))))], requires=lambda s: [ile(1, s.ctx.get_field(s.argv(0), 'contents').len())]),
    spec('quarkdb::InternalFilter::process', filtered),
]
def Ite_(s, c, a, b): return And(Implies(c, a), Implies(Not(c), b))
DESREQ = UNITS_[10:11]
def install_payload(prog, lib, reg): install(prog, lib, reg); payload_(prog, lib, reg)
UNITS = units_of([u for u in UNITS_ if u not in DESREQ], install) + units_of(DESREQ, install_payload)
HARNESS = Harness('c18.cc', time=8)
TRUSTED = ['the command table (name to command and kind), checked exhaustively by the harness']
ASSUME = ['big-endian conversion of the C library', 'containers hold fewer than 2^63 elements']
