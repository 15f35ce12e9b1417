"""contracts of leases and the replicated clock (C14)"""
from .commitspec import *
from cxv.spec import *
from cxv.engine import CppThrow
EC = 'quarkdb::ExpirationEventCache'; AB, AI = z3.ArraySort(SS, BS), z3.ArraySort(SS, IS)
FRONT = z3.Function('FRONT', AB, AI, SS); EMPTY = z3.Function('NOENTRIES', AB, BS)
CK = Str([CLOCK])
class Cache:
    """the deadlines the state machine keeps in memory: which leases, and until when"""
    def __init__(self, has, at): self.h, self.at = has, at
    def has(self, k): return vget(self.h, S(k))
    def end(self, k): return z3.Select(self.at, S(k).term())
def cache_of(lv, snap=None): f = FieldLV(lv, 'mExpirationCache').get(snap).f; return Cache(f['in'], f['at'])
def newcache(ctx, name='cache'): return Struct(parse(EC), {'in': z3.Const(name + '.in', AB), 'at': z3.Const(name + '.at', AI)})
def evk(ctx, t, k): return Str(['@', ctx.lib.be64(ctx, ctx.lib.to_u64(ctx, t))]) + S(k)
def names(ctx): return ctx.ghost.setdefault('names', [])
def inv0(ctx, v, c, k, ck):
    """the state invariant at one key: it is a lease exactly if the cache has it; then its value and its event are stored, and it ends after the clock"""
    k = S(k); key = ('inv0', k.term().get_id())
    if key in ctx.memo: return
    ctx.memo[key] = k; has = z3.Select(c.h, k.term()); end = z3.Select(c.at, k.term()); sel = lambda x: z3.Select(v.dom, S(x).term())
    ctx.assume(z3.And(end >= 0, end < (1 << 64), zi(k.len()) < (1 << 40)))
    ctx.assume(z3.Implies(has, z3.And(sel(dkey(k)), end > zi(ck)))); ctx.assume(sel(Str(['f']) + k) == has)
    ctx.assume(sel(evk(ctx, end, k)) == has)
def front(ctx, h, at):
    f = Str([FRONT(h, at)]); e = EMPTY(h); key = ('front', f.term().get_id())
    if key not in ctx.memo:
        ctx.memo[key] = f; fe = z3.Select(at, f.term())
        ctx.assume(z3.Implies(z3.Not(e), z3.Select(h, f.term())))
        for n in names(ctx): ctx.assume(z3.Implies(z3.Select(h, S(n).term()), z3.And(z3.Not(e), fe <= z3.Select(at, S(n).term()))))
        g = ctx.ghost.get('inv0')
        if g: inv0(ctx, *(g[:2] + (f,) + g[2:]))
        for fn in ctx.ghost.get('on_front', ()): fn(f)
    return f
def install_lease(prog, lib, reg):
    install_commit(prog, lib, reg); lib.ghost_recs.add(EC)
    M = lib.extra_methods
    def dbget(L, ctx, o, e):
        a = e['args']; op = ctx.ev(a[0]); op = op.get() if isinstance(op, LV) else op
        w = op.f.get('$snap') if isinstance(op, Struct) else None
        if w is None: raise Unsupported('read without a snapshot')
        k = L.as_str(ctx, ctx.ev(a[-2])); out = ctx.ev(a[-1]); v = View_(ctx, w.f['dom'], w.f['val'])
        if ctx.branch(v.has(k)): ctx.deref(out).set(v.at(k)); return L.status(0)
        return L.status(1)
    M[(DBT, 'Get')] = dbget
    def entry(ctx, o): f = o.get().f; return f['in'], f['at']
    def put(ctx, o, h, at): o.set(Struct(parse(EC), {'in': h, 'at': at}))
    def insert(ctx, o, args, e):
        h, at = entry(ctx, o); t = args[0].get() if isinstance(args[0], LV) else args[0]; k = S(val(args[1]))
        ctx.check(Not(vget(h, k, ctx)), 'a lease has one deadline only @%s' % ctx.where(), 'pre')
        put(ctx, o, z3.Store(h, k.term(), z3.BoolVal(True)), z3.Store(at, k.term(), zi(t)))
    def remove(ctx, o, args, e):
        h, at = entry(ctx, o); t = args[0].get() if isinstance(args[0], LV) else args[0]; k = S(val(args[1]))
        ctx.check(And(vget(h, k, ctx), ieq(z3.Select(at, k.term()), t)), 'a deadline that is removed is known @%s' % ctx.where(), 'pre')
        put(ctx, o, z3.Store(h, k.term(), z3.BoolVal(False)), at)
    def isempty(ctx, o, args, e): h, at = entry(ctx, o); front(ctx, h, at); return EMPTY(h)
    def need(ctx, h): ctx.check(Not(EMPTY(h)), 'there is a first deadline @%s' % ctx.where(), 'pre')
    def fdl(ctx, o, args, e): h, at = entry(ctx, o); need(ctx, h); return z3.Select(at, front(ctx, h, at).term())
    def fle(ctx, o, args, e): h, at = entry(ctx, o); need(ctx, h); return front(ctx, h, at)
    for n, f in (('insert', insert), ('remove', remove), ('empty', isempty), ('getFrontDeadline', fdl), ('getFrontLease', fle), ('clear', lambda ctx, o, args, e: put(ctx, o, z3.K(SS, z3.BoolVal(False)), entry(ctx, o)[1]))): reg.mod[EC + '::' + n] = f
    def clockget(ctx, o, args, e):      # overloads share the name: the one on a staging area is executed, see GETCLOCK
        raise Unsupported('getClock overload')
def modular_clock(prog, lib, reg):
    """callees of the lease functions, by their contracts"""
    install_lease(prog, lib, reg)
    def maybe(ctx, o, args, e):
        a = args[0]; x = args[1].get() if isinstance(args[1], LV) else args[1]; v = sview(ctx, a); c = cache_of(o); ck = clock_at(ctx, v)
        if ctx.branch(ilt(ck, x)):
            w, d = advanced(ctx, v, c, x, ck); setsview(a, w); FieldLV(o, 'mExpirationCache').set(Struct(parse(EC), {'in': d.h, 'at': d.at})); return x
        return ck
    reg.mod[SMQ + 'maybeAdvanceClock'] = maybe
def modular_advance(prog, lib, reg):
    install_lease(prog, lib, reg)
    for f in prog.byq.get(SMQ + 'advanceClock', []):
        if 'StagingArea' in f['sig']:
            def adv(ctx, o, args, e):
                a = args[0]; x = args[1].get() if isinstance(args[1], LV) else args[1]; v = sview(ctx, a); c = cache_of(o); ck = clock_at(ctx, v)
                ctx.check(ile(ck, x), 'the clock never goes back @%s' % ctx.where(), 'pre')
                w, d = advanced(ctx, v, c, x, ck); setsview(a, w); FieldLV(o, 'mExpirationCache').set(Struct(parse(EC), {'in': d.h, 'at': d.at}))
            reg.mod[f['sig']] = adv
def modular_release(prog, lib, reg):
    install_lease(prog, lib, reg)
    def rel(ctx, o, args, e):
        a, k = args[0], S(val(args[1])); t = args[2].get() if isinstance(args[2], LV) else args[2]; v = sview(ctx, a); fc = FieldLV(o, 'mExpirationCache'); c = cache_of(o)
        ctx.check(ieq(t, 0), 'releasing while the clock advances does not advance the clock again', 'pre')
        ctx.check(And(c.has(k), v.has(dkey(k)), v.has(Str(['f']) + k), v.has(evk(ctx, c.end(k), k))), 'what expires is a lease, with its value and its event', 'pre')
        setsview(a, v.drop(dkey(k)).drop(Str(['f']) + k).drop(evk(ctx, c.end(k), k))); fc.set(Struct(parse(EC), {'in': z3.Store(c.h, k.term(), z3.BoolVal(False)), 'at': c.at}))
        return ctx.lib.status(0)
    for f in prog.byq.get(SMQ + 'lease_release', []):
        if 'StagingArea' in f['sig']: reg.mod[f['sig']] = rel
def sview(ctx, lv): w = FieldLV(lv, 'writeBatchWithIndex').get(); return View_(ctx, w.f['dom'], w.f['val'])
def setsview(lv, v):
    f = FieldLV(lv, 'writeBatchWithIndex'); w = f.get(); f.set(Struct(w.ty, dict(w.f, dom=v.dom, val=v.val)))
def clock_at(ctx, v):
    """the clock stored in a view"""
    x = v.at(CK); t = x.parts[0]
    if len(x.parts) == 1 and is_sym(t) and z3.is_app(t) and t.decl().name() == 'BE64': return t.arg(0)
    if 'clock0' in ctx.ghost and ctx.entails(x.term() == be(ctx, ctx.ghost['clock0']).term()): return ctx.ghost['clock0']
    raise Unsupported('clock')
def advanced(ctx, v, c, t, ck):
    """contents and deadlines after the clock advanced to t: exactly the leases that ended are gone"""
    t = zi(t); so = [v.dom.sort(), v.val.sort(), AB, AI, IS]; a = (v.dom, v.val, c.h, c.at, t)
    d = z3.Function('ADVANCED.dom', *(so + [AD_]))(*a); h = z3.Function('ADVANCED.in', *(so + [AB]))(*a); key = ('adv', d.get_id())
    if key not in ctx.memo:
        ctx.memo[key] = (d, h); sel = lambda m, x: z3.Select(m, S(x).term())
        for n in names(ctx):
            k = S(n); gone = z3.And(zb(c.has(k)), c.end(k) <= t); g = lambda x: ctx.assume(sel(d, x) == z3.And(zb(v.has(x)), z3.Not(gone)))
            g(dkey(k)); g(Str(['f']) + k); g(evk(ctx, c.end(k), k)); ctx.assume(z3.Select(h, k.term()) == z3.And(zb(c.has(k)), z3.Not(gone)))
    w = View_(ctx, d, v.val).put(CK, be(ctx, t))
    return w, Cache(h, c.at)
AD_ = z3.ArraySort(SS, BS)
def lsetup(nk=()):
    def setup(self, ctx, f):
        this = ctx.cell('this', parse(Q + 'StateMachine'), Struct(parse(Q + 'StateMachine'), {'mExpirationCache': newcache(ctx)}, origin='this')); args = []
        for i, p in enumerate(f['params']):
            t = strip_ref(parse(p['t']))
            if t.name == SA: args.append(new_area(ctx, this))
            else: args.append(ctx.cell('arg%d' % i, t, ctx.lib.fresh(ctx, t, 'arg%d' % i)))
        return this, args
    return setup
def lpre(keys=(), extra=None):
    def requires(s):
        ctx = s.ctx; v = view_of(s); c = cache_of(s.thislv); ck = z3.Int('clock'); ctx.assume(z3.And(ck >= 0, ck < (1 << 63)))
        a = area(s); f = FieldLV(a, 'writeBatchWithIndex'); w = f.get()
        f.set(Struct(w.ty, dict(w.f, dom=z3.Store(v.dom, z3.StringVal(CLOCK), z3.BoolVal(True)), val=z3.Store(v.val, z3.StringVal(CLOCK), be(ctx, ck).term()))))
        v1 = view_of(s); ctx.ghost['v0'], ctx.ghost['c0'], ctx.ghost['clock0'] = v1, c, ck; ctx.ghost['inv0'] = (View_(ctx, v.dom, v.val), c, ck); ks = ctx.ghost['keystates'] = []
        for i in keys:
            k = S(s.argv(i)); names(ctx).append(k); inv0(ctx, View_(ctx, v.dom, v.val), c, k, ck); st_ = KeyState(ctx, View_(ctx, v.dom, v.val), k, 'key', 'f'); ks.append(st_)
            ctx.assume(z3.Select(c.h, k.term()) == z3.And(st_.has, st_.t == ord('f'))); ctx.assume(z3.Implies(z3.Select(c.h, k.term()), z3.Select(c.at, k.term()) == st_.e))
        for x in s.args:
            if isinstance(x.get(), Str): ctx.assume(ile(S(x.get()).len(), 1 << 40))
        return [ile(0, x.get()) for x in s.args if isinstance(x.get(), z3.ArithRef)] + [ilt(x.get(), 1 << 62) for x in s.args if isinstance(x.get(), z3.ArithRef)] + (extra(s) if extra else [])
    return requires
def after(s, i):
    """the state once the clock was advanced by argument i, if that is ahead"""
    ctx = s.ctx; v, c, ck = ctx.ghost['v0'], ctx.ghost['c0'], ctx.ghost['clock0']; x = s.argv(i)
    if ctx.branch(ilt(ck, x)): w, d = advanced(ctx, v, c, x, ck); return w, d, x
    return v, c, ck
def samecache(s, d):
    c = cache_of(s.thislv); return And(aeq(s.ctx, c.h, d.h), *[Or(Not(c.has(k)), ieq(z3.Select(c.at, S(k).term()), d.end(k))) for k in names(s.ctx)])
def live(s, t, ks):
    """is the key a lease, or of another type, once the clock is at t"""
    lease = And(ks.is_('f'), ilt(t, ks.e)); return lease, ks.bad('f')
def same_state(s, w, d): return [('the contents', w.same(view_of(s))), ('the deadlines in memory', samecache(s, d))]
def infos(s, i, v, ren, dl):
    x = s.args[i].get(); f = raw(x).f if not isinstance(x, Struct) else x.f
    return [('holder', seq_(S(f['value']), S(v))), ('renewal', ieq(f['lastRenewal'], ren)), ('deadline', ieq(f['deadline'], dl))]
def acquire_(s):
    ctx = s.ctx; ks = ctx.ghost['keystates'][0]; w, d, now = after(s, 3); k = A(s, 1); fk = Str(['f']) + k; st_ = {n: i for i, n in enumerate(('acquired', 'renewed', 'other', 'type'))}
    E = ctx.ghost['enum']; r = lambda n: ieq(s.ret if not isinstance(s.ret, View) else s.ret.val, E[n]); lease, bad = live(s, now, ks)
    if ctx.branch(bad): return [('a key of another type is refused', r('kKeyTypeMismatch'))] + same_state(s, w, d)
    lease = ctx.branch(lease)
    if lease and ctx.branch(Not(seq_(ctx.ghost['v0'].at(fk), A(s, 2)))): return [('a lease held by another holder is refused', r('kFailedDueToOtherOwner'))] + infos(s, 5, ctx.ghost['v0'].at(fk), ks.s, ks.e) + same_state(s, w, d)
    end = iadd(now, s.argv(4)); x = w
    if lease: x = x.drop(evk(ctx, ks.e, k))
    x = x.put(evk(ctx, end, k), '1').put(fk, A(s, 2)).put(dkey(k), D(ctx, 'f', A(s, 2).len(), now, end))
    return [('acquired by a new holder, renewed by its own', r('kRenewed' if lease else 'kAcquired'))] + infos(s, 5, A(s, 2), now, end) + [('the contents', x.same(view_of(s))),
        ('the deadline in memory', samecache(s, Cache(z3.Store(d.h, k.term(), z3.BoolVal(True)), z3.Store(d.at, k.term(), zi(end)))))]
def release_(s):
    ctx = s.ctx; ks = ctx.ghost['keystates'][0]; v, c, ck = ctx.ghost['v0'], ctx.ghost['c0'], ctx.ghost['clock0']
    w, d, now = after(s, 2) if ctx.branch(Not(ieq(s.argv(2), 0))) else (v, c, ck); k = A(s, 1); lease, bad = live(s, now, ks)
    if ctx.branch(bad): return [('a key of another type is refused', status(s, WRONG))] + same_state(s, w, d)
    if not ctx.branch(lease): return [('no lease is found', status(s, 1))] + same_state(s, w.drop(dkey(k)), d)
    return [('succeeds', status(s, 0))] + same_state(s, w.drop(dkey(k)).drop(Str(['f']) + k).drop(evk(ctx, ks.e, k)), Cache(z3.Store(d.h, k.term(), z3.BoolVal(False)), d.at))
def get_lease(s):
    ctx = s.ctx; ks = ctx.ghost['keystates'][0]; w, d, now = after(s, 2); k = A(s, 1); lease, bad = live(s, now, ks); r = same_state(s, w, d)
    if ctx.branch(bad): return r + [('a key of another type is refused', status(s, WRONG))]
    if not ctx.branch(lease): return r + [('an ended lease is not found', status(s, 1))]
    return r + [('succeeds', status(s, 0))] + infos(s, 3, ctx.ghost['v0'].at(Str(['f']) + k), ks.s, ks.e)
def maybe_(s):
    w, d, now = after(s, 1)
    return [('the later of the two', ieq(s.ret.val if isinstance(s.ret, View) else s.ret, now))] + same_state(s, w, d)
def clk_(s): return [('the stored clock', ieq(s.args[1].get(), s.ctx.ghost['clock0'])), ('a read changes nothing', s.ctx.ghost['v0'].same(view_of(s)))]
# ---- the clock advances
def adv_pre(s):
    ctx = s.ctx; r = Str([z3.String('?lease')]); o = Str([z3.String('?other')]); x = z3.Int('?time'); names(ctx).append(r); out = lpre()(s); v, c, ck = ctx.ghost['inv0']; inv0(ctx, v, c, r, ck)
    ctx.ghost['wit'] = (r, x, o); ctx.assume(z3.And(x >= 0, x < (1 << 64), zi(o.len()) >= 1, *[z3.Not(z3.PrefixOf(z3.StringVal(p), o.term())) for p in '!@f'])); ctx.assume(o.term() != z3.StringVal(CLOCK))
    ctx.ghost['on_front'] = [lambda f: None]
    return out
def rel_inv(s, v, c, k):
    """what the loop keeps for every key k"""
    ctx = s.ctx; v0, c0, ck = ctx.ghost['inv0']; k = S(k); sel = lambda m, x: z3.Select(m, S(x).term()); g = lambda m, x: zb(vget(m, S(x), ctx))
    was, now = sel(c0.h, k), g(c.h, k); still = z3.Or(z3.Not(was), now); t = zi(s.argv(1))
    return [('deadlines only go', z3.Implies(now, was)), ('what goes has ended', z3.Implies(z3.And(was, z3.Not(now)), sel(c0.at, k) <= t)),
        ('its descriptor goes', g(v.dom, dkey(k)) == z3.And(sel(v0.dom, dkey(k)), still)), ('its value goes', g(v.dom, Str(['f']) + k) == z3.And(sel(v0.dom, Str(['f']) + k), still)),
        ('its event goes', g(v.dom, evk(ctx, sel(c0.at, k), k)) == z3.And(sel(v0.dom, evk(ctx, sel(c0.at, k), k)), still))]
def advinv(lc):
    ctx = lc.ctx; s = ctx.ghost['scope']; v0, c0, ck = ctx.ghost['inv0']; r, x, o = ctx.ghost['wit']; out = []
    def cur(): return view_of(s), cache_of(s.thislv)
    def each(i):
        v, c = cur()
        if ctx.inv_goal: return rel_inv(s, v, c, r)[i][1]
        f = Str([FRONT(c.h, c.at)])      # the invariant holds for every key: taken for the witness and the first deadline
        inv0(ctx, v0, c0, f, ck); front(ctx, c.h, c.at)
        return z3.And(*[rel_inv(s, v, c, k)[i][1] for k in (r, f)])
    v, c = cur(); n = [a for a, _ in rel_inv(s, v, c, r)]
    for i, a in enumerate(n): out.append(('for every key: ' + a, lambda i=i: each(i)))
    out.append(('deadlines do not change', lambda: cur()[1].at == c0.at)); out.append(('values do not change', lambda: cur()[0].val == ctx.ghost['v0'].val))
    out.append(('other keys stay', lambda: z3.And(zb(vget(cur()[0].dom, o, ctx)) == z3.Select(v0.dom, o.term()), zb(vget(cur()[0].dom, CK, ctx)))))
    out.append(('events that are not a deadline stay', lambda: z3.Or(x == z3.Select(c0.at, r.term()), zb(vget(cur()[0].dom, evk(ctx, x, r), ctx)) == z3.Select(v0.dom, evk(ctx, x, r).term()))))
    return out
def adv_post(s):
    ctx = s.ctx; v0, c0, ck = ctx.ghost['inv0']; r, x, o = ctx.ghost['wit']; t = s.argv(1); v, c = view_of(s), cache_of(s.thislv); w0 = ctx.ghost['v0']
    gone = ctx.branch(z3.And(z3.Select(c0.h, r.term()), z3.Select(c0.at, r.term()) <= zi(t))); ks = [dkey(r), Str(['f']) + r, evk(ctx, z3.Select(c0.at, r.term()), r)]
    out = [('the clock never goes back', ile(ck, t)), ('the clock is the new one', And(v.has(CK), seq_(v.at(CK), be(ctx, t))))]
    out += [('an ended lease is gone: %s' % n if gone else 'nothing else changes: %s' % n, Not(v.has(k)) if gone else Iff(v.has(k), w0.has(k))) for n, k in zip(('descriptor', 'holder', 'event'), ks)]
    out += [('memory follows', Iff(c.has(r), And(z3.Select(c0.h, r.term()), not gone))), ('other keys stay', Iff(v.has(o), w0.has(o))), ('their values too', And(seq_(v.at(o), w0.at(o)), seq_(v.at(ks[0]), w0.at(ks[0])), seq_(v.at(ks[1]), w0.at(ks[1])))),
        ('other events stay', Or(ieq(x, z3.Select(c0.at, r.term())), Iff(v.has(evk(ctx, x, r)), w0.has(evk(ctx, x, r)))))]
    return out
def adv_throw(s, ty): return [('refused only when it would go back', ilt(s.argv(1), s.ctx.ghost['clock0'])), ('nothing changes', s.ctx.ghost['v0'].same(view_of(s)))]
def enums(s):
    s.ctx.ghost['enum'] = s.ctx.prog.enums['quarkdb::LeaseAcquisitionStatus']['vals'] if hasattr(s.ctx, 'prog') else s.ctx.V.prog.enums['quarkdb::LeaseAcquisitionStatus']['vals']; return [ilt(0, A(s, 2).len()), ilt(0, s.argv(4))]
LEASES = [spec(SMQ + 'lease_acquire', acquire_, lpre((1,), enums), nparams=6, name='lease_acquire', setup=lsetup(), sig_has='StagingArea'),
    spec(SMQ + 'lease_release', release_, lpre((1,)), nparams=3, name='lease_release', setup=lsetup(), sig_has='StagingArea'),
    spec(SMQ + 'lease_get', get_lease, lpre((1,)), nparams=4, name='lease_get', setup=lsetup(), sig_has='StagingArea')]
MAYBE = [spec(SMQ + 'maybeAdvanceClock', maybe_, lpre(), name='maybeAdvanceClock', setup=lsetup())]
ADVANCE = [spec(SMQ + 'advanceClock', adv_post, adv_pre, nparams=2, name='advanceClock', setup=lsetup(), sig_has='StagingArea', invs=advinv, throws=adv_throw)]
GETCLOCK = [spec(SMQ + 'getClock', clk_, lpre(), nparams=2, name='getClock', setup=lsetup(), sig_has='StagingArea')]
# ---- the deadlines in memory: an ordered map with repeated keys, and the set of its names
MM = 'std::multimap'; PT = parse('std::pair<unsigned long, std::basic_string<char>>')
def install_cache(prog, lib, reg):
    M = lib.extra_methods; P = lib.sort(PT)
    def listing(ctx, o):
        """the entries in order: a listing of the contents"""
        f = o.get().f; h, at = f['in'], f['at']; arr = z3.Function('LISTED', AB, AI, z3.ArraySort(IS, P))(h, at); n = z3.Function('ENTRIES', AB, IS)(h); key = ('listing', arr.get_id())
        if key not in ctx.memo:
            V_ = Vec(PT, arr=arr, n=n); c = ctx.cell(ctx.uniq('listing'), parse('std::vector<std::pair<unsigned long, std::basic_string<char>>>'), V_); ctx.memo[key] = c
            el = lambda x: lib.elem_get(ctx, V_, x)
            fi, se = lambda x: zi(ctx.get_field(x, 'first')), lambda x: S(ctx.get_field(x, 'second')).term()
            ctx.assume(n >= 0)
            seen = []
            def at_(i):
                """what the listing says at one position: an entry, in order"""
                ctx.in_spec += 1
                try:
                    a = el(i); ctx.assume(z3.Implies(z3.And(zi(i) >= 0, zi(i) < n), z3.And(z3.Select(h, se(a)), z3.Select(at, se(a)) == fi(a))))
                    for q in names(ctx):
                        p = POS(h, at, S(q).term()); b = el(p); ctx.assume(z3.Implies(z3.And(zi(i) >= 0, zi(i) < p, p < n), fi(a) <= fi(b)))
                    for j in seen: b = el(j); ctx.assume(z3.Implies(z3.And(zi(j) >= 0, zi(j) < zi(i), zi(i) < n), fi(b) <= fi(a)))
                    seen.append(i)
                finally: ctx.in_spec -= 1
            ctx.memo[('at_', c.c.name)] = at_; at_(0)
            for q in names(ctx):
                p = POS(h, at, S(q).term()); ctx.in_spec += 1
                try: x = el(p)
                finally: ctx.in_spec -= 1
                ctx.assume(z3.Implies(z3.Select(h, S(q).term()), z3.And(p >= 0, p < n, se(x) == S(q).term(), fi(x) == z3.Select(at, S(q).term()))))
        return ctx.memo[key]
    lib.mm_listing = listing
    def it(ctx, o, p): return Iter(listing(ctx, o), p, 'vec')
    def emplace(L, ctx, o, e):
        f = o.get().f; t = ctx.ev(e['args'][0]); t = t.get() if isinstance(t, LV) else t; k = L.as_str(ctx, ctx.ev(e['args'][1]))
        ctx.check(Not(vget(f['in'], k, ctx)), 'a name is entered once @%s' % ctx.where(), 'pre')
        o.set(Struct(o.get().ty, {'in': z3.Store(f['in'], k.term(), z3.BoolVal(True)), 'at': z3.Store(f['at'], k.term(), zi(t)), 'n': iadd(f['n'], 1)})); return None
    def find(L, ctx, o, e):
        t = ctx.ev(e['args'][0]); t = zi(t.get() if isinstance(t, LV) else t); c = listing(ctx, o); v = c.get(); p = z3.Int(ctx.uniq('found')); ctx.in_spec += 1
        try: x = lib.elem_get(ctx, v, p)
        finally: ctx.in_spec -= 1
        ctx.assume(z3.And(p >= 0, p <= v.n)); ctx.assume(z3.Implies(p < v.n, zi(ctx.get_field(x, 'first')) == t)); f = o.get().f
        for q in names(ctx): ctx.assume(z3.Implies(z3.And(z3.Select(f['in'], S(q).term()), z3.Select(f['at'], S(q).term()) == t), POS(f['in'], f['at'], S(q).term()) >= p))
        ctx.memo[('at_', c.c.name)](p); return Iter(c, p, 'vec')
    def erase(L, ctx, o, e):
        i = ctx.ev(e['args'][0]); i = i.get() if isinstance(i, LV) else i; v = i.clv.get(); f = o.get().f
        ctx.check(And(ile(0, i.pos), ilt(i.pos, v.n)), 'an entry is erased that is there @%s' % ctx.where(), 'safety')
        k = S(ctx.get_field(lib.elem_get(ctx, v, i.pos), 'second'))
        o.set(Struct(o.get().ty, dict(f, **{'in': z3.Store(f['in'], k.term(), z3.BoolVal(False)), 'n': isub(f['n'], 1)}))); return Iter(i.clv, z3.Int(ctx.uniq('next')), 'vec')
    M[(MM, 'emplace')] = emplace; M[(MM, 'insert')] = emplace; M[(MM, 'find')] = find; M[(MM, 'erase')] = erase
    for a in ('begin', 'cbegin'): M[(MM, a)] = lambda L, ctx, o, e: it(ctx, o, 0)
    for a in ('end', 'cend'): M[(MM, a)] = lambda L, ctx, o, e: it(ctx, o, listing(ctx, o).get().n)
    M[(MM, 'empty')] = lambda L, ctx, o, e: ieq(listing(ctx, o).get().n, 0)
    M[(MM, 'size')] = lambda L, ctx, o, e: o.get().f['n']
    M[(MM, 'clear')] = lambda L, ctx, o, e: o.set(Struct(o.get().ty, {'in': z3.K(SS, z3.BoolVal(False)), 'at': o.get().f['at'], 'n': 0}))
POS = z3.Function('POS', AB, AI, SS, IS)
def csetup(self, ctx, f):
    h = z3.Const('entries.in', AB); n = z3.Int('entries.n')
    mm = Struct(parse('std::multimap<unsigned long, std::string>'), {'in': h, 'at': z3.Const('entries.at', AI), 'n': n}); d = z3.Const('stored.dom', AB)
    st = ctx.lib.fresh(ctx, parse('std::set<std::basic_string<char>>'), 'stored')
    names(ctx).append(Str([z3.String('?name')]))
    if f['kind'] == 'ctor': this = ctx.cell('this', parse(EC), Struct(parse(EC), {}, origin=None)); return this, []
    st = Map(st.kt, st.vt, h, st.val, n); ctx.assume(n >= 0)
    for x in [z3.String('?name')]: ctx.assume(z3.Implies(z3.Select(h, x), n >= 1))
    args = [ctx.cell('arg%d' % i, strip_ref(parse(p['t'])), ctx.lib.fresh(ctx, strip_ref(parse(p['t'])), 'arg%d' % i)) for i, p in enumerate(f['params'])]
    for a in args:
        if isinstance(a.get(), Str): names(ctx).append(S(a.get()))
    return ctx.cell('this', parse(EC), Struct(parse(EC), {'mContents': mm, 'mStoredLeases': st}, origin='this')), args
def ec(s, snap=None): return FieldLV(s.thislv, 'mContents').get(snap).f
def cpre(need=None):
    def f(s): return [ile(0, s.argv(0)), ilt(s.argv(0), 1 << 64)] * (1 if s.args else 0) + (need(s) if need else [])
    return f
def centry(s, h, at=None):
    e = ec(s); st = FieldLV(s.thislv, 'mStoredLeases').get()
    return [('the entries', e['in'] == h), ('their deadlines', e['at'] == (at if at is not None else ec(s, s.pre)['at'])), ('the set of names agrees', st.dom == e['in']), ('the sizes agree', ieq(st.n, e['n']))]
def csame(s): return centry(s, ec(s, s.pre)['in'])
def first_(s, name=None, dl=None):
    e = ec(s, s.pre); q = z3.String('?name'); c = s.ctx
    x = (S(s.ret.val if isinstance(s.ret, View) else s.ret).term()) if name else None
    if name: return [('the first is an entry', z3.Select(e['in'], x)), ('none ends before it', z3.Implies(z3.Select(e['in'], q), z3.Select(e['at'], x) <= z3.Select(e['at'], q)))]
    r = zi(s.ret.val if isinstance(s.ret, View) else s.ret); v = c.lib.mm_listing(c, FieldLV(s.thislv, 'mContents')).get(); f = S(c.get_field(c.lib.elem_get(c, v, 0), 'second')).term()
    return [('the deadline of an entry', z3.And(z3.Select(e['in'], f), z3.Select(e['at'], f) == r)), ('none ends before it', z3.Implies(z3.Select(e['in'], q), r <= z3.Select(e['at'], q)))]
def nonempty_(s): return [ilt(0, s.ctx.lib.mm_listing(s.ctx, FieldLV(s.thislv, 'mContents')).get().n)]
def known(s): return [And(z3.Select(ec(s)['in'], S(s.argv(1)).term()), ieq(z3.Select(ec(s)['at'], S(s.argv(1)).term()), s.argv(0)))]
def removed_(s): k = S(s.argv(1)).term(); return centry(s, z3.Store(ec(s, s.pre)['in'], k, z3.BoolVal(False)))
def popped(s):
    c = s.ctx; v = [x for k, x in c.memo.items() if isinstance(k, tuple) and k[0] == 'listing'][0].get(); f = S(c.get_field(c.lib.elem_get(c, v, 0), 'second')).term(); q = z3.String('?name'); e = ec(s, s.pre)
    return centry(s, z3.Store(e['in'], f, z3.BoolVal(False))) + [('none ends before it', z3.Implies(z3.Select(e['in'], q), z3.Select(e['at'], f) <= z3.Select(e['at'], q)))]
def rminv(lc):
    ctx = lc.ctx; s = ctx.ghost['scope']; out = []; e = ec(s, lc.entry); k = S(s.argv(1)).term(); p = POS(e['in'], e['at'], k)
    for l in lc.locals():
        if isinstance(l.get(), Iter) and lc.modified(l):
            out.append(('%s only moves on' % l, lambda l=l: ile(l.get(lc.entry).pos, l.get().pos)))
            out.append(('the entries stay', lambda: And(ec(s)['in'] == e['in'], ec(s)['at'] == e['at'], ieq(ec(s)['n'], e['n'])))); out.append(('the names stay', lambda: And(FieldLV(s.thislv, 'mStoredLeases').get().dom == FieldLV(s.thislv, 'mStoredLeases').get(lc.entry).dom, ieq(FieldLV(s.thislv, 'mStoredLeases').get().n, e['n']))))
            out.append(('%s has not passed the entry' % l, lambda l=l: (ctx.memo[('at_', l.get().clv.c.name)](l.get().pos) if not ctx.inv_goal else None, ile(l.get().pos, p))[1])); out.append(('%s: bounds' % l, lambda l=l: And(ile(0, l.get().pos), ile(l.get().pos, l.get().clv.get().n))))
    return out
CACHE = [spec(EC + '::insert', lambda s: centry(s, z3.Store(ec(s, s.pre)['in'], S(s.argv(1)).term(), z3.BoolVal(True)), z3.Store(ec(s, s.pre)['at'], S(s.argv(1)).term(), zi(s.argv(0)))), cpre(lambda s: [z3.Not(z3.Select(ec(s)['in'], S(s.argv(1)).term()))]), name='insert', setup=csetup),
    spec(EC + '::remove', removed_, cpre(known), name='remove', setup=csetup, invs=rminv),
    spec(EC + '::empty', lambda s: [('no entry', z3.Implies(zb(s.ret.val if isinstance(s.ret, View) else s.ret), z3.Not(z3.Select(ec(s)['in'], z3.String('?name'))))), ('exactly then', Iff(s.ret.val if isinstance(s.ret, View) else s.ret, ieq(s.ctx.lib.mm_listing(s.ctx, FieldLV(s.thislv, 'mContents')).get().n, 0)))] + csame(s), name='empty', setup=csetup),
    spec(EC + '::getFrontDeadline', lambda s: first_(s) + csame(s), nonempty_, name='getFrontDeadline', setup=csetup),
    spec(EC + '::getFrontLease', lambda s: first_(s, True) + csame(s), nonempty_, name='getFrontLease', setup=csetup),
    spec(EC + '::size', lambda s: [('the number of entries', ieq(s.ret.val if isinstance(s.ret, View) else s.ret, ec(s)['n']))] + csame(s), name='size', setup=csetup),
    spec(EC + '::clear', lambda s: centry(s, z3.K(SS, z3.BoolVal(False))), name='clear', setup=csetup)]
