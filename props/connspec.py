"""contracts of connections: one reply per request, in order (C31)"""
from cxv.spec import *
from . import reqs
from .reqs import REQ, READ, WRITE
Q = 'quarkdb::'
PQ, CO, MH, TXT, RESP = Q + 'PendingQueue', Q + 'Connection', Q + 'MultiHandler', Q + 'Transaction', Q + 'RedisEncodedResponse'
PRQ = PQ + '::PendingRequest'
SS, IS, BS = z3.StringSort(), z3.IntSort(), z3.BoolSort()
STRT = parse('std::basic_string<char>')
def rep(t): return Struct(parse(RESP), {'val': t if isinstance(t, Str) else Str([t])})
def val(x): x = x.get() if isinstance(x, LV) else x; return x
def gf(s, lv, n, snap=None): return FieldLV(lv, n).get(snap)
class IdxFold:
    """spec function: concatenation of enc(a[i], i) for i < k (by recursion on k; only its unfoldings are used)"""
    def __init__(self, name, enc): self.name, self.enc = name, enc
    def __call__(self, ctx, vec, k, extra=()):
        L = ctx.lib; arr, _ = L.vec_arr(ctx, raw(vec)); ex = [x.term() if isinstance(x, Str) else zi(x) for x in extra]
        f = z3.Function(self.name, *([arr.sort()] + [x.sort() for x in ex] + [IS, SS])); K = simp0_(zi(k)); t = f(*([arr] + ex + [K])); key = ('ifold', t.get_id())
        if key not in ctx.memo:
            ctx.memo[key] = True; ctx.memo.setdefault('keep', []).append(t); j = simp0_(K - 1)
            if ctx.V.unroll is not None and ctx.ghost.get('$folddepth', 0) < ctx.V.unroll + 1:
                ctx.ghost['$folddepth'] = ctx.ghost.get('$folddepth', 0) + 1
                self(ctx, vec, j, extra); ctx.ghost['$folddepth'] -= 1
            ctx.in_spec += 1
            try: e = self.enc(ctx, L.elem_get(ctx, Vec(raw(vec).et, arr=arr, n=raw(vec).len()), j), j, *extra)
            finally: ctx.in_spec -= 1
            ctx.assume(z3.Implies(K <= 0, t == z3.StringVal(''))); ctx.assume(z3.Implies(K > 0, t == z3.Concat(f(*([arr] + ex + [j])), e)))
        return Str([t])
ANSWER = z3.Function('ANSWER', IS, SS)
MULT = z3.Function('MULTIPLY', SS, IS, SS)
def rawof(ctx, pr): return S(ctx.get_field(ctx.get_field(pr, 'rawResp'), 'val')).term()
def expected(ctx, tx): return zi(Ite(ctx.get_field(tx, 'phantom'), ctx.get_field(tx, 'requests').len(), 1)) if True else None
def Ite(c, a, b): return z3.If(zb(c), zi(a), zi(b))
SERVED = IdxFold('SERVED', lambda ctx, pr, j: z3.If(z3.Length(rawof(ctx, pr)) == 0, ANSWER(j), rawof(ctx, pr)))
FLUSHED = IdxFold('FLUSHED', lambda ctx, pr, j, m: z3.If(z3.Length(rawof(ctx, pr)) == 0, MULT(m.term(), expected(ctx, ctx.get_field(pr, 'tx'))), rawof(ctx, pr)))
def at(ctx, vec, i):
    ctx.in_spec += 1
    try: return ctx.lib.elem_get(ctx, vec, i)
    finally: ctx.in_spec -= 1
def all_(ctx, vec, f, n=None, pat=True):
    """for all positions i below the length"""
    L = ctx.lib; vec = raw(vec); arr, m = L.vec_arr(ctx, vec); i = z3.Int(ctx.uniq('?al')); b = f(i, at(ctx, Vec(vec.et, arr=arr, n=vec.len()), i)); b = zb(b)
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(vec.len() if n is None else n)), b), patterns=[z3.Select(arr, i)]) if z3.is_const(arr) or True else None
def ordered(ctx, vec, last):
    """indexes in the queue: those of writes increase, none exceeds the last"""
    L = ctx.lib; vec = raw(vec); arr, _ = L.vec_arr(ctx, vec); i, j = z3.Int(ctx.uniq('?oi')), z3.Int(ctx.uniq('?oj'))
    v = Vec(vec.et, arr=arr, n=vec.len()); a, b = zi(ctx.get_field(at(ctx, v, i), 'index')), zi(ctx.get_field(at(ctx, v, j), 'index')); n = zi(vec.len())
    return [z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n, a > 0, b > 0), a < b), patterns=[z3.MultiPattern(z3.Select(arr, i), z3.Select(arr, j))]),
            z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, a > 0), a <= zi(last)), patterns=[z3.Select(arr, i)]),
            z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, z3.Length(rawof(ctx, at(ctx, v, i))) > 0), a <= 0), patterns=[z3.Select(arr, i)])]
def queue(s, snap=None): return FieldLV(s.ctx.ghost['pq'], 'pending').get(snap)
def last(s, snap=None): return FieldLV(s.ctx.ghost['pq'], 'lastIndex').get(snap)
def out(s, snap=None): return S(s.ctx.ghost['out'].get(snap))
def popped(s): return isub(queue(s, s.pre).len(), queue(s).len())
def suffix(s):
    """the queue is what remains of the one before"""
    ctx = s.ctx; L = ctx.lib; a, n = L.vec_arr(ctx, queue(s)); b, m = L.vec_arr(ctx, queue(s, s.pre)); i = z3.Int(ctx.uniq('?sx')); d = zi(m) - zi(n)
    if z3.is_const(a): return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(n)), z3.Select(a, i) == z3.Select(b, i + d)), patterns=[z3.Select(a, i)])
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(n)), z3.Select(a, i) == z3.Select(b, i + d)))
def hasconn(s): return Not(FieldLV(s.ctx.ghost['pq'], 'conn').get(s.pre).isnull()) if hasattr(Ptr, 'isnull') else Not(FieldLV(s.ctx.ghost['pq'], 'conn').get(s.pre).null)
def install_pq(prog, lib, reg):
    reqs.install(prog, lib, reg)
    def send(ctx, o, args, e):
        if len(args) != 1: raise Unsupported('send overload')
        g = ctx.ghost['out']; g.set(S(g.get()) + S(lib.as_str(ctx, args[0]))); return ctx.fint('sent', 'long')
    reg.mod[Q + 'BufferedWriter::send'] = send
    reg.mod[Q + 'BufferedWriter::flush'] = lambda ctx, o, args, e: None
    reg.mod[CO + '::flush'] = lambda ctx, o, args, e: None
    reg.mod[Q + 'Formatter::multiply'] = lambda ctx, o, args, e: rep(Str([MULT(S(ctx.get_field(val(args[0]), 'val')).term(), zi(val(args[1])))]))
    reg.mod[TXT + '::toPrintableString'] = lambda ctx, o, args, e: Str([ctx.fstr('printed')])
    reg.mod[Q + 'RedisRequest::toPrintableString'] = lambda ctx, o, args, e: Str([ctx.fstr('printed')])
    def disp(ctx, o, args, e):
        s = ctx.ghost['scope']; tx = args[0]; i = val(args[1]) if len(args) > 1 else 0; mode = ctx.ghost.get('mode')
        if mode == 'serve':
            p = popped(s); q = at(ctx, queue(s, s.pre), p); ctx.check(And(ile(0, p), ilt(p, queue(s, s.pre).len())), 'only queued requests are run', 'pre')
            ctx.check(lib.eq(ctx, val(tx), ctx.get_field(q, 'tx')), 'the request run is the first in the queue', 'pre'); ctx.check(ieq(i, ctx.get_field(q, 'index')), 'with its own journal index', 'pre')
            ctx.check(ile(i, s.argv(1)), 'nothing is run before it is committed', 'pre'); a = ANSWER(zi(p))
        else:
            ctx.check(lib.eq(ctx, val(tx), s.argv(1)), 'the request run is the one given', 'pre'); ctx.check(ieq(i, 0), 'reads carry no index', 'pre'); ctx.check(ieq(queue(s).len(), 0), 'nothing queued is overtaken', 'pre')
            a = ANSWER(z3.IntVal(0)); ctx.ghost['ran'] = ctx.ghost.get('ran', 0) + 1
        if isinstance(tx, LV): tx.set(lib.fresh(ctx, parse(TXT), ctx.uniq('afterrun')))
        return rep(Str([a]))
    reg.mod[Q + 'RedisDispatcher::dispatch'] = disp
def pq_setup(mode):
    def setup(self, ctx, f):
        conn = ctx.cell('conn', parse(CO), Struct(parse(CO), {}, origin='conn')); ctx.ghost['mode'] = mode
        pend = [p for p in ctx.lib.rec_fields(parse(PQ)) if p[0] == 'pending'][0][1]
        q = ctx.lib.fresh(ctx, pend, 'pending')
        this = ctx.cell('this', parse(PQ), Struct(parse(PQ), {'conn': Ptr(conn, z3.Bool('detached'), ty=parse(CO + ' *')), 'pending': q, 'lastIndex': ctx.fint('lastIndex', 'long')}, origin='this'))
        ctx.ghost['pq'] = this; ctx.ghost['out'] = ctx.cell('out', STRT, Str([z3.String('out0')])); args = []
        for i, p in enumerate(f['params']):
            t = parse(p['t'])
            if t.kind == 'ptr': c = ctx.cell('disp', t.sub, Struct(t.sub, {}, origin='disp')); args.append(ctx.cell('arg%d' % i, t, Ptr(c, False, ty=t)))
            else: t = strip_ref(t); args.append(ctx.cell('arg%d' % i, t, ctx.lib.fresh(ctx, t, 'arg%d' % i)))
        return this, args
    return setup
WHERE = z3.Int('where')
def pq_inv(s): return ordered(s.ctx, queue(s), last(s)) + [ile(-1, last(s)), ilt(last(s), 1 << 62)]
def servepre(s):
    """the entry just committed is the first write in the queue that was not answered, and belongs to this queue"""
    ctx = s.ctx; q = queue(s); c = s.argv(1); n = zi(q.len())
    return pq_inv(s) + [ilt(0, c), WHERE >= 0, WHERE < n, ieq(ctx.get_field(at(ctx, q, WHERE), 'index'), c), all_(ctx, q, lambda i, x: Implies(i < WHERE, ile(ctx.get_field(x, 'index'), 0)))]
def bools(lc): return [l for l in lc.locals() if isinstance(l.get(), (bool, z3.BoolRef)) and lc.modified(l)]
def serveinv(fold):
    def gen(lc):
        ctx = lc.ctx; s = ctx.ghost['scope']; outc = []
        outc += [('the queue is what remains', lambda: suffix(s)), ('the queue only shrinks', lambda: And(ile(0, popped(s)), ile(0, queue(s).len()))), ('last index', lambda: ieq(last(s), last(s, s.pre))),
                 ('each request answered in order', lambda: Implies(hasconn(s), seq_(out(s), out(s, s.pre) + fold(s, popped(s))))), ('nothing is sent to a closed connection', lambda: Implies(Not(hasconn(s)), seq_(out(s), out(s, s.pre)))),
                 ('answered only what is committed', lambda: all_(ctx, queue(s, s.pre), lambda i, x: ile(ctx.get_field(x, 'index'), s.argv(1)), popped(s)))]
        def hint(f):
            def g():
                p = popped(s); q0 = queue(s, s.pre); c = s.argv(1); x = zi(ctx.get_field(at(ctx, q0, p), 'index')); n0 = zi(q0.len())
                # instances of the precondition at the next position
                ctx.assume(z3.Implies(z3.And(zi(p) > WHERE, zi(p) < n0, x > 0), x > zi(c))); ctx.assume(z3.Implies(z3.And(zi(p) >= 0, zi(p) < WHERE), x <= 0)); ctx.assume(z3.Implies(z3.And(zi(p) >= 0, zi(p) < n0, z3.Length(rawof(ctx, at(ctx, q0, p))) > 0), x <= 0))
                return f()
            return g
        outc.append(('the first is the next', hint(lambda: Implies(ilt(0, queue(s).len()), ieq(ctx.get_field(at(ctx, queue(s), 0), 'index'), ctx.get_field(at(ctx, queue(s, s.pre), popped(s)), 'index'))))))
        for b in bools(lc): outc.append(('%s once the committed write was reached' % b, hint(lambda b=b: zb(b.get()) == (WHERE < zi(popped(s))))))
        return outc
    return gen
def served(s):
    ctx = s.ctx; p = popped(s); q0 = queue(s, s.pre); fin = ctx.branch(ieq(queue(s).len(), 0))
    o = [('what follows stays queued', suffix(s)), ('the committed write is answered', WHERE < zi(p)), ('the order of the queue is kept', And(*ordered(ctx, queue(s), last(s)))),
         ('only committed requests were answered', all_(ctx, q0, lambda i, x: ile(ctx.get_field(x, 'index'), s.argv(1)), p))]
    if fin: o.append(('nothing left', ieq(s.ret, -1)))
    else: o += [('the next one waits for its own commit', And(ieq(s.ret, ctx.get_field(at(ctx, q0, p), 'index')), ilt(s.argv(1), s.ret)))]
    return o + [('each answer is sent in order', Implies(hasconn(s), seq_(out(s), out(s, s.pre) + SERVED(ctx, q0, p)))), ('nothing is sent to a closed connection', Implies(Not(hasconn(s)), seq_(out(s), out(s, s.pre))))]
def flushed(s):
    ctx = s.ctx; q0 = queue(s, s.pre); m = S(ctx.get_field(s.argv(0), 'val'))
    return [('nothing is left', ieq(queue(s).len(), 0)), ('later writes may use any index', ieq(last(s), -1)), ('each request gets its answer or the given one, in order', Implies(hasconn(s), seq_(out(s), out(s, s.pre) + FLUSHED(ctx, q0, q0.len(), (m,))))),
            ('nothing is sent to a closed connection', Implies(Not(hasconn(s)), seq_(out(s), out(s, s.pre))))]
def flushinv(lc):
    ctx = lc.ctx; s = ctx.ghost['scope']
    return [('the queue is what remains', lambda: suffix(s)), ('the queue only shrinks', lambda: And(ile(0, popped(s)), ile(0, queue(s).len()))),
            ('each request answered in order', lambda: Implies(hasconn(s), seq_(out(s), out(s, s.pre) + FLUSHED(ctx, queue(s, s.pre), popped(s), (S(ctx.get_field(s.args[0].get(s.pre), 'val')),))))), ('nothing is sent to a closed connection', lambda: Implies(Not(hasconn(s)), seq_(out(s), out(s, s.pre))))]
def sameq(s): return s.eq(queue(s), queue(s, s.pre))
def kept(s):
    """earlier elements of the queue unchanged"""
    L = s.lib; a, _ = L.vec_arr(s.ctx, queue(s)); b, n = L.vec_arr(s.ctx, queue(s, s.pre)); i = z3.Int(s.ctx.uniq('?kp'))
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(n)), z3.Select(a, i) == z3.Select(b, i)))
def newest(s): return at(s.ctx, queue(s), queue(s, s.pre).len())
def queued(s): return [('queued last', ieq(queue(s).len(), iadd(queue(s, s.pre).len(), 1))), ('behind all others, which stay', kept(s)), ('nothing is sent yet', seq_(out(s), out(s, s.pre)))]
def resp(s, i=0): return S(s.ctx.get_field(s.args[i].get(s.pre), 'val'))
def appended(s, text=None):
    text = resp(s) if text is None else text
    if s.ctx.branch(ieq(queue(s, s.pre).len(), 0)): return [('sent at once', seq_(out(s), out(s, s.pre) + text)), ('nothing is queued', sameq(s))]
    return queued(s) + [('the queued text', seq_(Str([rawof(s.ctx, newest(s))]), text)), ('it waits for nothing itself', ile(s.ctx.get_field(newest(s), 'index'), 0)), ('the queue stays in order', And(*ordered(s.ctx, queue(s), last(s))))]
def untouched(s): return [('nothing is sent', seq_(out(s), out(s, s.pre))), ('the queue stays', sameq(s))]
def detached(s, ty=None): return untouched(s) + [('only for a closed connection', Not(hasconn(s)))]
def added(s):
    tx, i = s.args[1].get(s.pre), s.argv(2)
    if s.ctx.branch(And(ieq(queue(s, s.pre).len(), 0), ilt(i, 0))): return [('run once', s.ctx.ghost.get('ran', 0) == 1), ('answered at once', seq_(out(s), out(s, s.pre) + Str([ANSWER(z3.IntVal(0))]))), ('nothing is queued', sameq(s))]
    return queued(s) + [('not run yet', s.ctx.ghost.get('ran', 0) == 0), ('the queued request is the one given', s.eq(s.ctx.get_field(newest(s), 'tx'), tx)), ('with its index', ieq(s.ctx.get_field(newest(s), 'index'), i)), ('it has no prepared answer', ieq(Str([rawof(s.ctx, newest(s))]).len(), 0)),
            ('the queue stays in order', And(*ordered(s.ctx, queue(s), last(s))))]
def addpre(s): return pq_inv(s) + [Implies(ilt(s.argv(2), 0), Not(s.ctx.get_field(s.argv(1), 'hasWrites'))), ilt(s.argv(2), 1 << 62), Not(ieq(s.argv(2), 0))]
def addthrow(s, ty=None): return untouched(s) + [('only for a closed connection or an index out of order', Or(Not(hasconn(s)), And(ilt(0, s.argv(2)), ile(s.argv(2), last(s, s.pre)))))]
def nonempty(s): return pq_inv(s) + [ilt(0, resp(s).len())] if False else pq_inv(s) + [ilt(0, S(s.ctx.get_field(s.argv(0), 'val')).len())]
def ifattached(s):
    if not s.ctx.branch(hasconn(s)): return [('not attached', Not(s.ret))] + untouched(s)
    return [('attached', s.ret)] + appended(s)
PQU = [
    spec(PQ + '::dispatchPending', served, servepre, invs=serveinv(lambda s, k: SERVED(s.ctx, queue(s, s.pre), k)), setup=pq_setup('serve'), name='dispatchPending', throws=lambda s, ty: [('never fails', False)]),
    spec(PQ + '::flushPending', flushed, lambda s: pq_inv(s), invs=flushinv, setup=pq_setup('flush'), name='flushPending'),
    spec(PQ + '::appendResponseNoLock', appended, nonempty, setup=pq_setup('append'), name='appendResponseNoLock', throws=detached),
    spec(PQ + '::appendResponse', appended, nonempty, setup=pq_setup('append'), name='appendResponse', throws=detached),
    spec(PQ + '::appendIfAttachedNoLock', ifattached, nonempty, setup=pq_setup('append'), name='appendIfAttachedNoLock'),
    spec(PQ + '::appendIfAttached', ifattached, nonempty, setup=pq_setup('append'), name='appendIfAttached'),
    spec(PQ + '::addPendingTransaction', added, addpre, setup=pq_setup('add'), name='addPendingTransaction', throws=addthrow),
]
# ---------------------------------------------------------------- MULTI blocks and the request loop
def mh(s): return s.ctx.ghost['mh']
def mf(s, n, snap=None): return FieldLV(mh(s), n).get(snap)
def tf(s, n, snap=None): return FieldLV(FieldLV(mh(s), 'transaction'), n).get(snap)
def phantom(s, snap=None): return And(mf(s, 'activated', snap), tf(s, 'phantom', snap))
FILT = lambda L: z3.Function('FILTERED', L.sort(REQ), L.sort(REQ))
KINDS = ('ok', 'err', 'errArgs', 'pong', 'string', 'status', 'null', 'integer', 'vector', 'statusVector', 'scan', 'noauth', 'fromStatus', 'raw', 'moved')
def facts(ctx, lib, q):
    """the command table: what is no command of the store neither reads nor writes"""
    C = reqs.cmds(lib.prog); c, k = zi(ctx.get_field(q, 'command')), zi(ctx.get_field(q, 'commandType'))
    ctx.assume(z3.Implies(z3.Or(*[c == C[n] for n in ('MULTI', 'EXEC', 'DISCARD', 'INVALID')]), z3.And(k != READ, k != WRITE)))
    ctx.assume(z3.Implies(c != C['INVALID'], zi(ctx.get_field(q, 'contents').len()) >= 1))
def install_mh(prog, lib, reg):
    reqs.install(prog, lib, reg)
    def answer(kind):
        def fn(ctx, o, args, e):
            ctx.ghost['events'] = ctx.ghost['events'] + [(kind, [val(a) for a in args])]; loop = ctx.ghost.get('loop')
            if loop: loop_one(ctx, lib)
            return ctx.fint('sent', 'long')
        return fn
    for n in KINDS: reg.mod[CO + '::' + n] = answer(n)
    def disp(ctx, o, args, e):
        x = args[1]; tx = strip_ref(x.ty).name == TXT; v = val(x); ctx.ghost['events'] = ctx.ghost['events'] + [('tx' if tx else 'request', [v])]
        if ctx.ghost.get('loop'): (loop_tx if tx else loop_req)(ctx, lib, v)
        x.set(lib.fresh(ctx, parse(TXT) if tx else REQ, ctx.uniq('afterdispatch')))
        return ctx.fint('sent', 'long')
    reg.mod[Q + 'Dispatcher::dispatch'] = disp
    # the request loop
    def fetch(ctx, o, args, e):
        st = ctx.fint('fetched.status', 'long'); g = ctx.ghost['fetched']; k = g.get(); ctx.assume(ilt(k, 1 << 30))
        if ctx.branch(ilt(0, st)):
            R = lib.sort(REQ); q = lib.unpack(ctx, z3.Select(ctx.ghost['F'], zi(k)), REQ); facts(ctx, lib, q); args[0].set(lib.fresh(ctx, REQ, ctx.uniq('unfiltered'))); g.set(iadd(k, 1)); ctx.ghost['raw'] = True
        else: args[0].set(lib.fresh(ctx, REQ, ctx.uniq('partial'))); ctx.ghost['raw'] = False
        return st
    reg.mod[Q + 'RedisParser::fetch'] = fetch
    def purge(ctx, o, args, e):
        st = ctx.fint('purge.status', 'long'); ctx.assume(st <= 0); return st
    reg.mod[Q + 'RedisParser::purge'] = purge
    def filt(ctx, o, args, e):
        if ctx.ghost.get('raw'): args[0].set(lib.unpack(ctx, z3.Select(ctx.ghost['F'], zi(isub(ctx.ghost['fetched'].get(), 1))), REQ))
        ctx.ghost['raw'] = False
    reg.mod[Q + 'InternalFilter::process'] = filt
    reg.mod[Q + 'InFlightTracker::isAcceptingRequests'] = lambda ctx, o, args, e: ctx.fbool('accepting')
    reg.mod[CO + '::flush'] = lambda ctx, o, args, e: None
def loop_one(ctx, lib):
    a, f = ctx.ghost['answered'], ctx.ghost['fetched']
    ctx.check(ieq(iadd(a.get(), 1), f.get()), 'a reply is given to the latest request, when all earlier ones have theirs', 'pre'); a.set(iadd(a.get(), 1))
def loop_req(ctx, lib, q):
    a, f = ctx.ghost['answered'], ctx.ghost['fetched']
    ctx.check(ieq(iadd(a.get(), 1), f.get()), 'a request is run when all earlier ones were', 'pre'); ctx.check(lib.pack(ctx, q, REQ) == z3.Select(ctx.ghost['F'], zi(isub(f.get(), 1))), 'the request run is the latest, after filtering', 'pre'); a.set(iadd(a.get(), 1))
def loop_tx(ctx, lib, t):
    a, f = ctx.ghost['answered'], ctx.ghost['fetched']; v = ctx.get_field(t, 'requests'); ctx.check(ilt(0, v.len()), 'no empty batch is run', 'pre')
    if ctx.branch(ctx.get_field(t, 'phantom')):
        ctx.check(inorder(ctx, lib, v, a.get()), 'the batch holds the requests not answered yet, in order', 'pre'); ctx.check(ile(iadd(a.get(), v.len()), f.get()), 'and no others', 'pre'); a.set(iadd(a.get(), v.len()))
    else: loop_one(ctx, lib)
def inorder(ctx, lib, v, a):
    arr, n = lib.vec_arr(ctx, v); i = z3.Int(ctx.uniq('?io'))
    if isinstance(n, int) and n == 0: return True
    F = ctx.ghost['F']; return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(n)), z3.Select(arr, i) == z3.Select(F, zi(a) + i)), patterns=[z3.Select(arr, i)])
def mh_struct(ctx):
    return Struct(parse(MH), {'activated': z3.Bool('activated'), 'transaction': ctx.lib.fresh(ctx, parse(TXT), 'batch')})
def args_(ctx, f):
    args = []
    for i, p in enumerate(f['params']):
        t = parse(p['t'])
        if t.kind == 'ptr': c = ctx.cell('obj%d' % i, t.sub, Struct(t.sub, {}, origin='obj%d' % i)); args.append(ctx.cell('arg%d' % i, t, Ptr(c, False, ty=t)))
        else:
            t = strip_ref(t); k = ctx.lib.kind(t)
            args.append(ctx.cell('arg%d' % i, t, Struct(t, {}, origin='arg%d' % i) if t.name.endswith('InFlightTracker') else ctx.lib.fresh(ctx, t, 'arg%d' % i)))
    return args
def mh_setup(self, ctx, f):
    this = ctx.cell('this', parse(MH), mh_struct(ctx)); ctx.ghost['mh'] = this; ctx.ghost['events'] = []
    return this, args_(ctx, f)
def mh_ok(s, snap=None):
    """class invariant: an inactive block is empty; a batch of writes in the background is never left empty"""
    return [Implies(Not(mf(s, 'activated', snap)), And(ieq(tf(s, 'requests', snap).len(), 0), Not(tf(s, 'hasWrites', snap)), Not(tf(s, 'phantom', snap)))), Implies(phantom(s, snap), ilt(0, tf(s, 'requests', snap).len())), Implies(ieq(tf(s, 'requests', snap).len(), 0), Not(tf(s, 'hasWrites', snap)))]
def mh_inv(s): return [mh_ok(s)[0], mh_ok(s)[2]] + [ilt(tf(s, 'requests').len(), (1 << 31) - 2)]
def mh_kept(s): return [('the block stays as it is', And(s.eq(mf(s, 'activated'), mf(s, 'activated', s.pre)), s.eq(FieldLV(mh(s), 'transaction').get(), FieldLV(mh(s), 'transaction').get(s.pre))))]
def closed(s): return [('the block is over', And(Not(mf(s, 'activated')), ieq(tf(s, 'requests').len(), 0), Not(tf(s, 'hasWrites')), Not(tf(s, 'phantom'))))]
def ev(s): return s.ctx.ghost['events']
def onereply(s, *kinds): return [('exactly one reply', len(ev(s)) == 1), ('of the right kind', len(ev(s)) == 1 and ev(s)[0][0] in kinds)]
def mh_process(s):
    ctx = s.ctx; q = s.args[2].get(s.pre); C = reqs.cmds(s.lib.prog); cmd, kd = ctx.get_field(q, 'command'), ctx.get_field(q, 'commandType'); act = mf(s, 'activated', s.pre); v = tf(s, 'requests', s.pre)
    if ctx.branch(ieq(cmd, C['DISCARD'])): return onereply(s, 'ok') + closed(s)
    if ctx.branch(ieq(cmd, C['MULTI'])):
        if ctx.branch(Not(ieq(ctx.get_field(q, 'contents').len(), 1))): return onereply(s, 'errArgs') + mh_kept(s)
        if ctx.branch(act): return onereply(s, 'err') + mh_kept(s)
        return onereply(s, 'ok') + [('a block is open, and empty', And(mf(s, 'activated'), ieq(tf(s, 'requests').len(), 0), Not(tf(s, 'phantom')), Not(tf(s, 'hasWrites'))))]
    if ctx.branch(ieq(cmd, C['EXEC'])):
        if ctx.branch(ieq(v.len(), 0)): return onereply(s, 'vector') + [('an empty list', len(ev(s)) == 1 and ieq(ev(s)[0][1][0].len(), 0))] + closed(s)
        return onereply(s, 'tx') + [('everything queued runs as one batch', len(ev(s)) == 1 and s.eq(ev(s)[0][1][0], FieldLV(mh(s), 'transaction').get(s.pre)))] + closed(s)
    if ctx.branch(And(Not(ieq(kd, READ)), Not(ieq(kd, WRITE)))): return onereply(s, 'err') + mh_kept(s)
    L = s.lib; n = tf(s, 'requests'); a, _ = L.vec_arr(ctx, n); b, m = L.vec_arr(ctx, v); i = z3.Int(ctx.uniq('?mp'))
    out = [('queued last', And(ieq(n.len(), iadd(v.len(), 1)), s.eq(at(ctx, n, v.len()), q))), ('behind all others, which stay', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(m)), z3.Select(a, i) == z3.Select(b, i)))),
           ('the block stays open', And(mf(s, 'activated'), s.eq(tf(s, 'phantom'), tf(s, 'phantom', s.pre)))), ('the block knows whether it writes', And(Implies(tf(s, 'hasWrites'), Or(tf(s, 'hasWrites', s.pre), ieq(kd, WRITE))), Implies(Or(tf(s, 'hasWrites', s.pre), ieq(kd, WRITE)), tf(s, 'hasWrites'))))]
    if ctx.branch(tf(s, 'phantom', s.pre)): return out + [('no reply before it runs', len(ev(s)) == 0)]
    return out + onereply(s, 'status') + [('the reply says so', len(ev(s)) == 1 and seq_(S(ev(s)[0][1][0]), Str(['QUEUED'])))]
def mh_pre(s):
    q = s.argv(2); facts(s.ctx, s.lib, q); C = reqs.cmds(s.lib.prog); cmd = s.ctx.get_field(q, 'command')
    return mh_inv(s) + [Or(mf(s, 'activated'), ieq(cmd, C['MULTI'])), Implies(ieq(cmd, C['EXEC']), mh_ok(s)[1]), Implies(ieq(cmd, C['DISCARD']), True), ile(1, s.ctx.get_field(q, 'contents').len())]
def mh_final(s):
    if s.ctx.branch(And(phantom(s, s.pre), ilt(0, tf(s, 'requests', s.pre).len()))):
        return onereply(s, 'tx') + [('everything batched runs', len(ev(s)) == 1 and s.eq(ev(s)[0][1][0], FieldLV(mh(s), 'transaction').get(s.pre)))] + closed(s)
    return [('nothing runs', len(ev(s)) == 0)] + mh_kept(s)
def execfacts(s):
    """the command table: EXEC names the end of a block"""
    C = reqs.cmds(s.lib.prog); s.ctx.assume(reqs.CMD(z3.StringVal('EXEC')) == C['EXEC']); return []
MHU = [
    spec(MH + '::process', mh_process, mh_pre, setup=mh_setup, name='process'),
    spec(MH + '::finalizePhantomTransaction', mh_final, lambda s: mh_inv(s) + execfacts(s), setup=mh_setup, name='finalizePhantomTransaction'),
    spec(MH + '::activatePhantom', lambda s: [('a batch in the background is open', And(mf(s, 'activated'), tf(s, 'phantom'))), ('its requests stay', s.eq(tf(s, 'requests'), tf(s, 'requests', s.pre)))], lambda s: mh_inv(s) + [Or(Not(mf(s, 'activated')), tf(s, 'phantom'))], setup=mh_setup, name='activatePhantom'),
]
def pr_setup(self, ctx, f):
    L = ctx.lib; ctx.ghost['F'] = z3.Array('F', IS, L.sort(REQ)); ctx.ghost['events'] = []; ctx.ghost['loop'] = True
    it = parse('long'); ctx.ghost['fetched'] = ctx.cell('fetched', it, z3.Int('fetched0')); ctx.ghost['answered'] = ctx.cell('answered', it, z3.Int('answered0'))
    this = ctx.cell('this', parse(CO), Struct(parse(CO), {'multiHandler': mh_struct(ctx), 'monitor': z3.Bool('monitor'), 'currentRequest': L.fresh(ctx, REQ, 'current'), 'authorization': z3.Bool('authorization')}, origin='this')); ctx.ghost['mh'] = FieldLV(this, 'multiHandler')
    return this, args_(ctx, f)
def owed(s, snap=None):
    """requests received but not answered are exactly those batched in the background"""
    g = s.ctx.ghost; a, fe = g['answered'].get(snap), g['fetched'].get(snap); v = tf(s, 'requests', snap); ph = phantom(s, snap)
    return [Implies(ph, ieq(iadd(a, v.len()), fe)), Implies(Not(ph), ieq(a, fe)), Implies(ph, inorder(s.ctx, s.lib, v, a))]
def pr_pre(s): return mh_ok(s) + owed(s) + execfacts(s) + [ile(0, s.ctx.ghost['answered'].get()), ile(tf(s, 'requests').len(), s.ctx.ghost['fetched'].get()), ile(s.ctx.ghost['fetched'].get(), 1 << 30)]
def pr_inv(lc):
    ctx = lc.ctx; s = ctx.ghost['scope']
    out = [('the block is well-formed %d' % i, lambda i=i: mh_ok(s)[i]) for i in range(3)] + [('only batched requests are owed a reply %d' % i, lambda i=i: owed(s)[i]) for i in range(3)]
    out.append(('a block holds received requests', lambda: And(ile(tf(s, 'requests').len(), ctx.ghost['fetched'].get()), ile(ctx.ghost['fetched'].get(), 1 << 30))))
    out.append(('requests arrive one by one', lambda: And(ile(s.ctx.ghost['answered'].get(s.pre), ctx.ghost['answered'].get()), ile(ctx.ghost['fetched'].get(s.pre), ctx.ghost['fetched'].get()))))
    return out
def pr_post(s):
    g = s.ctx.ghost; done = ieq(g['answered'].get(), g['fetched'].get()); o = [('the block is well-formed', And(*mh_ok(s))), ('only batched requests are owed a reply', And(*owed(s)))]
    return o + [('before waiting for more, every request received has its reply', Implies(And(ile(0, s.ret), Not(monitor(s))), done))]
def monitor(s): return FieldLV(s.thislv, 'monitor').get(s.pre)
PRU = [spec(CO + '::processRequests', pr_post, pr_pre, invs=pr_inv, setup=pr_setup, name='processRequests')]
