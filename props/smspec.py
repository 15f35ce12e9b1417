"""contracts of the state machine's functions: what each does to the store (shared by the data type properties)"""
from .store import *
from cxv.spec import *
from cxv.contracts import Scope
def start_args(ctx, this, f, readonly=False):
    """staging area first; pairs of iterators become a range of one sequence"""
    args = []; ps = f['params']; i = 0
    sa = new_area(ctx, this, readonly)
    while i < len(ps):
        pt = parse(ps[i]['t']); t = strip_ref(pt)
        if t.name == SA: args.append(sa)
        elif i + 1 < len(ps) and 'iterator' in str(t):
            et = parse('quarkdb::PinnedBuffer')
            vt = parse('std::vector<quarkdb::PinnedBuffer>')
            vec = ctx.cell('request', vt, ctx.lib.fresh(ctx, vt, 'request'))
            a, b = z3.Int('from'), z3.Int('to')
            for x in (a >= 0, a <= b, b <= zi(vec.get().len()), zi(vec.get().len()) < (1 << 31)): ctx.assume(x)
            ctx.ghost['range'] = (vec, a, b)
            args.append(ctx.cell('start', t, Iter(vec, a, 'vec'))); args.append(ctx.cell('end', t, Iter(vec, b, 'vec'))); i += 1
        else: args.append(ctx.cell('arg%d' % i, t, ctx.lib.fresh(ctx, t, 'arg%d' % i)))
        i += 1
    return args
def A(s, i): return S(s.argv(i))
def OUT(s, i): return s.args[i].get()
class Key:
    """state of one key before the call"""
def sm(fn, post, tags='', keys=(1,), nparams=None, inv=None, req=None, name=None, variant=None, readonly=False, sig='StagingArea', texts=True, throws=None, timeout=None):
    """contract of StateMachine::fn: keys = positions of arguments that name keys; post(s, v0, v, *keystates) -> obligations"""
    def setup(self, ctx, f):
        this = ctx.cell('this', parse(Q + 'StateMachine'), Struct(parse(Q + 'StateMachine'), {}, origin='this'))
        return this, start_args(ctx, this, f, readonly)
    def requires(s):
        v = view_of(s); s.ctx.ghost['keystates'] = ks = [KeyState(s.ctx, v, s.argv(i), 'key%d' % j, tags) for j, i in enumerate(keys)]
        out = [ile(S(raw(a.get())).len(), 1 << 40) for a in s.args if isinstance(a.get(), Str)]
        s.ctx.ghost['v0'] = v
        return out + (req(s, v, *ks) if req else [])
    def ensures(s):
        ks = s.ctx.ghost['keystates']
        return post(s, s.ctx.ghost['v0'], view_of(s), *ks)
    c = spec(SMQ + fn, ensures, requires, invs=inv, nparams=nparams, sig_has=sig, name=name or fn, throws=throws, setup=setup)
    if variant: c.variant = variant
    return c
WRONG = 4
def status(s, c): return ieq(code_(s), c)
def field(s, tag, k, f): return fpfx(s.ctx, tag, S(k)) + S(f)
def unchanged(v0, v): return ('nothing changes', v0.same(v))
def wrongtype(s, ks, tag, v0, v):
    return [('a key of another type is refused', status(s, WRONG)), unchanged(v0, v)]
def hset_(tag, nx=False, k=1, f=2, x=3, out=4):
    def post(s, v0, v, ks):
        if s.ctx.branch(ks.bad(tag)): return wrongtype(s, ks, tag, v0, v)
        fk = field(s, tag, A(s, k), A(s, f)); had = v0.has(fk)
        w = v0.put(fk, A(s, x))
        if nx and s.ctx.branch(had): w = v0
        w = desc(w, A(s, k), tag, w.count(fpfx(s.ctx, tag, A(s, k))))
        return [('succeeds', status(s, 0)), ('tells whether the field is new', OUT(s, out) == Not(had) if is_sym(had) else Iff(OUT(s, out), Not(had))), ('the field is set, the size counts the fields, nothing else changes', w.same(v))]
    return post
def Iff(a, b): return And(Implies(a, b), Implies(b, a))
def boolis(x, c): return Iff(x, c)
def rng(s): return s.ctx.ghost['range']
def folded(s, F, v0, extra=()):
    vec, a, b = rng(s); return F(s.ctx, v0, vec.get(s.pre), a, b, extra, s.ctx.ghost['keystates'])
def pf(s, tag, i=1): return fpfx(s.ctx, tag, A(s, i))
FDEL = {t: VFold('DELETE' + t, lambda ctx, v, el, j, p, t=t: v.drop(S(p) + el[0])) for t in 'bcg'}
def setstep(ctx, v, el, j, p):
    k = S(p) + el[0]; h = z3.Select(v.dom, k.term()); w = v.put(k, Str(['1']))
    return View_(ctx, w.dom, z3.If(h, v.val, w.val))
FADD = VFold('ADD', setstep)
FSET = VFold('SET', lambda ctx, v, el, j, p: v.put(S(p) + el[0], el[1]), 2)
def truthful(s, w, tag, k=1, s_=None): return desc(w, A(s, k), tag, w.count(pf(s, tag, k)))
def removal(tag):
    def post(s, v0, v, ks):
        if s.ctx.branch(ks.bad(tag)): return wrongtype(s, ks, tag, v0, v)
        p = pf(s, tag); w = folded(s, FDEL[tag], v0, (p,)); n0, n1 = v0.count(p), w.count(p)
        w = desc(w, A(s, 1), tag, n1)
        return [('succeeds', status(s, 0)), ('counts the removed elements', ieq(OUT(s, 4), isub(n0, n1))), ('exactly the named elements go, the size counts the rest', w.same(v))]
    return post
def sadd_(s, v0, v, ks):
    if s.ctx.branch(ks.bad('c')): return wrongtype(s, ks, 'c', v0, v)
    p = pf(s, 'c'); w = folded(s, FADD, v0, (p,)); n0, n1 = v0.count(p), w.count(p)
    return [('succeeds', status(s, 0)), ('counts the new elements', ieq(OUT(s, 4), isub(n1, n0))), ('exactly the named elements are added, the size counts all', desc(w, A(s, 1), 'c', n1).same(v))]
def hmset_(s, v0, v, ks):
    if s.ctx.branch(ks.bad('b')): return wrongtype(s, ks, 'b', v0, v)
    p = pf(s, 'b'); w = folded(s, FSET, v0, (p,))
    return [('succeeds', status(s, 0)), ('exactly the named fields are set, the size counts all', desc(w, A(s, 1), 'b', w.count(p)).same(v))]
def lookup(tag, f=2, out=3):
    def post(s, v0, v, ks):
        r = [('a read changes nothing', v0.same(v))]
        if s.ctx.branch(ks.bad(tag)): return r + [('a key of another type is refused', status(s, WRONG))]
        fk = field(s, tag, A(s, 1), A(s, f)); has = s.ctx.branch(v0.has(fk))
        r.append(('found exactly if present', status(s, 0 if has else 1)))
        if has and out: r.append(('the stored value', seq_(OUT(s, out), v0.at(fk))))
        return r
    return post
def length(tag):
    def post(s, v0, v, ks):
        r = [('a read changes nothing', v0.same(v))]
        if s.ctx.branch(ks.bad(tag)): return r + [('a key of another type is refused', status(s, WRONG))]
        return r + [('succeeds', status(s, 0)), ('the number of elements', ieq(OUT(s, 2), v0.count(pf(s, tag)) if tag in 'bcg' else v0.count(Str(['e']) + esc(s.ctx, A(s, 1)) + Str(['##i'])) if tag == 'e' else z3.If(zb(ks.has), ks.n, z3.IntVal(0))))]
    return post
def both(fn, post, *a, **k):
    """reads go through a staging area or a snapshot"""
    return [sm(fn, post, *a, variant='in a batch', name=fn, **k), sm(fn, post, *a, readonly=True, variant='on a snapshot', name=fn + 'R', **k)]
# ---- strings, generic
def set_(s, v0, v, ks):
    if s.ctx.branch(ks.bad('a')): return wrongtype(s, ks, 'a', v0, v)
    w = v0.put(Str(['a']) + A(s, 1), A(s, 2))
    return [('succeeds', status(s, 0)), ('the key holds exactly the given value', desc(w, A(s, 1), 'a', A(s, 2).len(), keep0=True).same(v))]
def get_(s, v0, v, ks):
    r = [('a read changes nothing', v0.same(v))]
    if s.ctx.branch(ks.bad('a')): return r + [('a key of another type is refused', status(s, WRONG))]
    k = Str(['a']) + A(s, 1); has = s.ctx.branch(v0.has(k))
    return r + [('found exactly if present', status(s, 0 if has else 1))] + ([('the stored value', seq_(OUT(s, 2), v0.at(k)))] if has else [])
FEX = IFold('EXISTING', lambda ctx, v, el: z3.If(z3.Select(v.dom, dkey(el[0]).term()), z3.IntVal(1), z3.IntVal(0)))
def exists_(s, v0, v):
    vec, a, b = rng(s)
    return [('a read changes nothing', v0.same(v)), ('succeeds', status(s, 0)), ('counts the keys that exist', ieq(OUT(s, 3), FEX(s.ctx, v0, vec.get(s.pre), a, b)))]
NAMES = {'a': 'string', 'b': 'hash', 'c': 'set', 'd': 'deque', 'e': 'locality hash', 'f': 'lease', 'g': 'versioned hash'}
def type_(s, v0, v, ks):
    r = [('a read changes nothing', v0.same(v))]
    if not s.ctx.branch(ks.has): return r + [('no key, no type', seq_(OUT(s, 2), 'none'))]
    for c, n in NAMES.items():
        if s.ctx.branch(ks.t == ord(c)): return r + [('the type of the key', seq_(OUT(s, 2), n))]
    return [('the type of the key is known', False)]
# ---- hashes: counters
def hincrby_(s, v0, v, ks):
    c = s.ctx; inc = A(s, 3).term(); refused = [('refused', status(s, WRONG)), unchanged(v0, v)]
    if not c.branch(INTOK(inc)): return refused
    if c.branch(ks.bad('b')): return wrongtype(s, ks, 'b', v0, v)
    fk = field(s, 'b', A(s, 1), A(s, 2)); old = 0
    if c.branch(v0.has(fk)):
        x = v0.at(fk).term()
        if not c.branch(INTOK(x)): return refused
        old = INTVAL(x)
    n = iadd(old, INTVAL(inc))
    if not c.branch(And(ile(-(1 << 63), n), ile(n, (1 << 63) - 1))): return refused
    w = v0.put(fk, c.lib.itos(c, n))
    return [('succeeds', status(s, 0)), ('the sum', ieq(OUT(s, 4), n)), ('the field holds the sum, the size counts the fields', truthful(s, w, 'b').same(v))]
def hincrbyfloat_(s, v0, v, ks):
    c = s.ctx; inc = A(s, 3).term(); refused = [('refused', status(s, WRONG)), unchanged(v0, v)]
    if not c.branch(DBLOK(inc)): return refused
    if c.branch(ks.bad('b')): return wrongtype(s, ks, 'b', v0, v)
    fk = field(s, 'b', A(s, 1), A(s, 2)); n = DBLVAL(inc)
    if c.branch(v0.has(fk)):
        x = v0.at(fk).term()
        if not c.branch(DBLOK(x)): return refused
        n = DBLVAL(x) + n
    w = v0.put(fk, Str([z3.Function('DTEXT', z3.RealSort(), SS)(n)]))
    return [('succeeds', status(s, 0)), ('the sum', OUT(s, 4) == n), ('the field holds the sum, the size counts the fields', truthful(s, w, 'b').same(v))]
# ---- sets: move
def smove_(s, v0, v, k1, k2):
    c = s.ctx
    for k in (k1, k2):
        if c.branch(k.bad('c')): return wrongtype(s, k, 'c', v0, v)
    a, b = field(s, 'c', A(s, 1), A(s, 3)), field(s, 'c', A(s, 2), A(s, 3)); ha = c.branch(v0.has(a))
    r = [('succeeds', status(s, 0)), ('tells whether the element was there', ieq(OUT(s, 4), 1 if ha else 0))]
    if not ha or c.branch(seq_(A(s, 1), A(s, 2))): return r + [unchanged(v0, v)]
    w = v0.drop(a)
    if not c.branch(v0.has(b)): w = w.put(b, '1')
    w1 = desc(w, A(s, 1), 'c', w.count(pf(s, 'c', 1))); w2 = desc(w1, A(s, 2), 'c', w1.count(pf(s, 'c', 2)))
    return r + [('the element moves, both sizes count', w2.same(v))]
nobar = lambda *ix: (lambda s, v, *ks: [Not(z3.SuffixOf(z3.StringVal('|'), A(s, i).term())) for i in ix])
# ---- locality hashes: an index from field to hint, and the data below the hint
def lidx(ctx, k, f): return Str(['e']) + esc(ctx, k) + Str(['##i']) + S(f)
def ldat(ctx, k, h, f): return Str(['e']) + esc(ctx, k) + Str(['##d']) + esc(ctx, h) + Str(['##']) + S(f)
def lparse(K):
    """('i', field) or ('d', hint, field)"""
    a = split_esc(S(K))
    if not a or a[0] != 'e' or not a[2].parts or not isinstance(a[2].parts[0], str): return None
    if a[2].parts[0][0] == 'i': return ('i', a[1], Str([a[2].parts[0][1:]] + list(a[2].parts[1:])))
    b = split_esc(a[2])
    return ('d', a[1], b[1], b[2]) if b and b[0] == 'd' else None
def instep(ctx, w, k, h, f):
    """the invariant at one hint and field: the data is there exactly if the index points to it"""
    i, d = lidx(ctx, k, f), ldat(ctx, k, h, f)
    return Iff(w.has(d), And(w.has(i), seq_(w.at(i), h)))
def lh_hook(view, K):
    ctx = view.ctx; p = lparse(K)
    if p is None: return
    b, vb = base(view.dom), base(view.val); v0 = ctx.ghost['v0']
    if not (b.eq(v0.dom) and vb.eq(v0.val)) and not any(b.eq(x) and vb.eq(y) for x, y, _ in ctx.ghost.get('pairs', ())) and not (b.decl().name().startswith('LH') and b.decl().name()[:-4] == vb.decl().name()[:-4] and all(x.eq(y) for x, y in zip(b.children(), vb.children()))): return
    key = ('lhinv', b.get_id(), S(K).term().get_id())
    if key in ctx.memo: return
    ctx.memo[key] = (b, K)
    sel = lambda x: z3.Select(b, S(x).term()); k = p[1]
    if p[0] == 'i':
        x = Str([z3.Select(vb, S(K).term())])
        ctx.assume(z3.Implies(sel(K), zb(And(sel(ldat(ctx, k, x, p[2])), ilt(0, x.len()), ilt(0, p[2].len()), ilt(0, k.len())))))
        if ('lhinv', b.get_id(), ldat(ctx, k, x, p[2]).term().get_id()) not in ctx.memo: View_(ctx, b, vb).has(ldat(ctx, k, x, p[2]))
    else:
        i = lidx(ctx, k, p[3]); ctx.assume(sel(K) == zb(And(sel(i), seq_(Str([z3.Select(vb, i.term())]), p[2])))); View_(ctx, b, vb).has(i)
def lhstep(ctx, v, el, j, k):
    f, h, x = el; i = lidx(ctx, k, f); v.has(i)
    return v.drop(ldat(ctx, k, v.at(i), f)).put(ldat(ctx, k, h, f), x).put(i, h)
def lhdrop(ctx, v, el, j, k):
    f = el[0]; i = lidx(ctx, k, f); v.has(i)
    return v.drop(ldat(ctx, k, v.at(i), f)).drop(i)
FLH = VFold('LHSET', lhstep, 3, stepgoal=True); FLHD = VFold('LHDEL', lhdrop, stepgoal=True)
FBAD = IFold('EMPTIES', lambda ctx, v, el: z3.If(z3.Or(z3.Length(el[0].term()) == 0, z3.Length(el[1].term()) == 0), z3.IntVal(1), z3.IntVal(0)), 3)
def li(s): return Str(['e']) + esc(s.ctx, A(s, 1)) + Str(['##i'])
def ld(s): return Str(['e']) + esc(s.ctx, A(s, 1)) + Str(['##d'])
def lhreq(s, v, *ks): s.ctx.ghost['on_has'] = [lh_hook]; return [ile(v.count(p), MAXN >> 1) for p in s.ctx.ghost['prefixes']]
def lhlemma(s, step, v0, n):
    """a step keeps index and data in step, and their numbers equal"""
    c = s.ctx; k = A(s, 1); el = [Str([z3.String('?item%d' % i)]) for i in range(n)]; h, f = Str([z3.String('?hint')]), Str([z3.String('?field')])
    for x in el[:2]: c.assume(ilt(0, x.len()))
    c.assume(ilt(0, k.len()))
    instep(c, v0, k, h, f); w = step(c, v0, el, 0, k)
    return [('lemma: index and data stay in step', instep(c, w, k, h, f)), ('lemma: there are as many data entries as index entries', ieq(isub(w.count(ld(s)), v0.count(ld(s))), isub(w.count(li(s)), v0.count(li(s)))))]
def lhinv(base_, empties=False):
    def gen(lc):
        out = list(base_(lc)); s = lc.ctx.ghost['scope']; vec, a, b = rng(s)
        if empties:
            for c in counters(lc):
                if lc.modified(c.l) and c.kind != 'ptr': out.append(('no items without a key before %s' % c, lambda c=c: Or(ilt(0, A(s, 1).len()), ile(c.get(), a))))
        return out
    return gen
def lhset_(s, v0, v, ks):
    c = s.ctx
    if c.branch(Or(ieq(A(s, 1).len(), 0), ieq(A(s, 2).len(), 0), ieq(A(s, 3).len(), 0))): return [('empty names are refused', status(s, WRONG)), unchanged(v0, v)]
    if c.branch(ks.bad('e')): return wrongtype(s, ks, 'e', v0, v)
    i = lidx(c, A(s, 1), A(s, 2)); had = v0.has(i); w = lhstep(c, v0, [A(s, 2), A(s, 3), A(s, 4)], 0, A(s, 1))
    w2 = desc(w, A(s, 1), 'e', w.count(li(s)))
    return [('succeeds', status(s, 0)), ('tells whether the field is new', Iff(OUT(s, 5), Not(had))), ('the field has the value and the hint, the size counts the fields', w2.same(v))] + lhlemma(s, lhstep, v0, 3)
def lhmset_(s, v0, v, ks):
    c = s.ctx; vec, a, b = rng(s); refused = [('empty names are refused', status(s, WRONG)), unchanged(v0, v)]
    if c.branch(And(ieq(A(s, 1).len(), 0), ilt(a, b))) or c.branch(ilt(0, FBAD(c, v0, vec.get(s.pre), a, b))): return refused
    if c.branch(ks.bad('e')): return wrongtype(s, ks, 'e', v0, v)
    w = folded(s, FLH, v0, (A(s, 1),))
    return [('succeeds', status(s, 0)), ('the fields have the values and the hints, the size counts the fields', desc(w, A(s, 1), 'e', w.count(li(s))).same(v))]
def lhdel_(s, v0, v, ks):
    c = s.ctx
    if c.branch(ks.bad('e')): return wrongtype(s, ks, 'e', v0, v)
    w = folded(s, FLHD, v0, (A(s, 1),)); n0, n1 = v0.count(li(s)), w.count(li(s))
    return [('succeeds', status(s, 0)), ('counts the removed fields', ieq(OUT(s, 4), isub(n0, n1))), ('exactly the named fields go, index and data, the size counts the rest', desc(w, A(s, 1), 'e', n1).same(v))] + lhlemma(s, lhdrop, v0, 1)
def lhlocdel_(s, v0, v, ks):
    c = s.ctx
    if c.branch(ks.bad('e')): return wrongtype(s, ks, 'e', v0, v)
    d = ldat(c, A(s, 1), A(s, 3), A(s, 2)); i = lidx(c, A(s, 1), A(s, 2))
    if c.branch(Or(ieq(A(s, 1).len(), 0), ieq(A(s, 2).len(), 0), ieq(A(s, 3).len(), 0))) or not c.branch(v0.has(d)): return [('succeeds', status(s, 0)), ('removes nothing', ieq(OUT(s, 4), 0)), unchanged(v0, v)]
    v0.has(i); w = v0.drop(d).drop(i)
    return [('succeeds', status(s, 0)), ('removes one', ieq(OUT(s, 4), 1)), ('the field goes, index and data, the size counts the rest', desc(w, A(s, 1), 'e', w.count(li(s))).same(v))]
def lhget_(s, v0, v, ks):
    c = s.ctx; r = [('a read changes nothing', v0.same(v))]
    if c.branch(ks.bad('e')): return r + [('a key of another type is refused', status(s, WRONG))]
    i = lidx(c, A(s, 1), A(s, 2)); has = c.branch(v0.has(i))
    r.append(('found exactly if present, whatever the hint', status(s, 0 if has else 1)))
    return r + ([('the stored value, whatever the hint', seq_(OUT(s, 4), v0.at(ldat(c, A(s, 1), v0.at(i), A(s, 2)))))] if has else [])
# ---- deques: items at the positions strictly between start and end
def dpos(ctx, p, x): return S(p) + Str([ctx.lib.be64(ctx, ctx.lib.to_u64(ctx, x))])
def dparse(K):
    a = split_esc(S(K))
    if a and a[0] == 'd' and len(a[2].parts) == 1 and is_sym(a[2].parts[0]) and a[2].parts[0].decl().name() == 'BE64': return a[1], a[2].parts[0].arg(0)
def deq_hook(view, K):
    ctx = view.ctx; p = dparse(K)
    if p is None: return
    b = base(view.dom); v0 = ctx.ghost['v0']; ks = ctx.ghost['keystates'][0]; lo = None
    if b.eq(v0.dom): lo = ks.s + 1
    elif ctx.ghost.get('trim'):
        for x, y, c in ctx.ghost.get('pairs', ()):
            if b.eq(x): lo = c
        if lo is None and b.decl().name() == 'TRIM.dom': lo = b.arg(b.num_args() - 1)
    if lo is None: return
    key = ('deqinv', b.get_id(), S(K).term().get_id())
    if key in ctx.memo: return
    ctx.memo[key] = (b, K); ctx.assume(z3.Implies(p[0].term() == ks.k.term(), z3.Select(b, S(K).term()) == zb(And(ks.is_('d'), ile(lo, p[1]), ilt(p[1], ks.e)))))
PUSHR = VFold('PUSHBACK', lambda ctx, v, el, j, p, off: v.put(dpos(ctx, p, simp0_(zi(off) + zi(j))), el[0]))
PUSHL = VFold('PUSHFRONT', lambda ctx, v, el, j, p, off: v.put(dpos(ctx, p, simp0_(zi(off) - zi(j))), el[0]))
TRIM = VFold('TRIM', lambda ctx, v, el, j, p: v.drop(dpos(ctx, p, j)))
FAR = 1 << 61
def dq(s): return s.ctx.ghost['keystates'][0]
def dreq(trim=False):
    def f(s, v, ks):
        s.ctx.ghost['on_has'] = [deq_hook]; s.ctx.ghost['trim'] = trim
        if trim: s.ctx.ghost['from'] = zi(ks.s) + 1
        return [Implies(ks.is_('d'), And(ile(FAR, ks.s), ile(ks.e, 7 * FAR)))]      # positions start in the middle of the range
    return f
def dends(s):
    ks = dq(s); h = ks.is_('d')
    return z3.If(zb(h), ks.s, z3.IntVal(HALF)), z3.If(zb(h), ks.e, z3.IntVal(HALF)), z3.If(zb(h), ks.n, z3.IntVal(0))
def push_(front):
    def post(s, v0, v, ks):
        c = s.ctx
        if c.branch(ks.bad('d')): return wrongtype(s, ks, 'd', v0, v)
        vec, a, b = rng(s); m = b - a; has = c.branch(ks.has); S_, E_, n = (ks.s, ks.e, ks.n) if has else (HALF, HALF, 0)
        p = pf(s, 'd'); w = folded(s, PUSHL if front else PUSHR, v0, (p, poff(s, front)))
        ns, ne = (S_ - m, E_) if front else (S_, E_ + m)
        if not has: ns, ne = (HALF - m, HALF + 1) if front else (HALF - 1, HALF + m)
        return [('succeeds', status(s, 0)), ('the new length', ieq(OUT(s, 4), iadd(n, m))), ('the items are added in order at the end, nothing else changes', desc(w, A(s, 1), 'd', iadd(n, m), ns, ne).same(v))]
    return post
def poff(s, front):
    vec, a, b = rng(s); S_, E_, n = dends(s)
    return simp0_(S_ + a) if front else simp0_(E_ - a)
def pop_(front):
    def post(s, v0, v, ks):
        c = s.ctx
        if c.branch(ks.bad('d')): return wrongtype(s, ks, 'd', v0, v)
        if not c.branch(ks.has): return [('nothing to pop', status(s, 1)), ('no item', seq_(OUT(s, 2), '')), unchanged(v0, v)]
        k = dpos(c, pf(s, 'd'), ks.s + 1 if front else ks.e - 1); v0.has(k); w = v0.drop(k); n = ks.n - 1
        q = z3.Int('?position'); wq = dpos(c, pf(s, 'd'), q); v0.has(wq); w2 = desc(w, A(s, 1), 'd', n, ks.s + 1 if front else ks.s, ks.e if front else ks.e - 1)
        return [('succeeds', status(s, 0)), ('the item at the end', seq_(OUT(s, 2), v0.at(k))), ('exactly that item goes', w2.same(v)),
                ('lemma: the items are at the positions between the ends', Implies(And(ile(0, q), ilt(q, 1 << 64)), Iff(w.has(wq), And(ilt(ks.s + 1 if front else ks.s, q), ilt(q, ks.e if front else ks.e - 1)))))]
    return post
def trim_(s, v0, v, ks):
    c = s.ctx; x = A(s, 2).term()
    if not c.branch(And(INTOK(x), ile(0, INTVAL(x)))): return [('a bad length is refused', status(s, WRONG)), unchanged(v0, v)]
    if c.branch(ks.bad('d')): return wrongtype(s, ks, 'd', v0, v)
    m = INTVAL(x)
    if not c.branch(And(ks.has, ilt(m, ks.n))): return [('succeeds', status(s, 0)), ('nothing to remove', ieq(OUT(s, 3), 0)), unchanged(v0, v)]
    r = ks.n - m; w = TRIM(c, v0, None, ks.s + 1, ks.s + 1 + r, (pf(s, 'd'),), s.ctx.ghost['keystates'])
    return [('succeeds', status(s, 0)), ('the number of removed items', ieq(OUT(s, 3), r)), ('the first items go, the rest stays', desc(w, A(s, 1), 'd', m, ks.s + r, ks.e).same(v))]
# ---- versioned hashes: one version per batch that changes something
def vreq(s, v, ks):
    r = revision(s.ctx, A(s, 1)).get().f['currentRevision']
    return bnd(s, v) + [Implies(batch_has(s, ks.dk), ks.has), r >= 0, z3.Or(r == 0, zb(And(batch_has(s, ks.dk), ks.is_('g'), ieq(r, ks.s)))), ks.s < MAXN]
def vver(s, ks): return z3.If(zb(ks.has), ks.s, z3.IntVal(0))
def tracked(s): return FieldLV(s.ctx.ghost['revision'], 'currentRevision').get()
def vhset_(s, v0, v, ks):
    c = s.ctx
    if c.branch(ks.bad('g')): return wrongtype(s, ks, 'g', v0, v)
    w = v0.put(field(s, 'g', A(s, 1), A(s, 2)), A(s, 3)); n = w.count(pf(s, 'g'))
    same_ = c.branch(And(ks.has, batch_has(s, ks.dk, s.pre))); ver = vver(s, ks) + (0 if same_ else 1)
    return [('succeeds', status(s, 0)), ('the version grows once per batch', ieq(OUT(s, 4), ver)), ('the field is set, the size counts the fields', desc(w, A(s, 1), 'g', n, ver, keep0=True).same(v)),
            ('the revision of this batch has that version', ieq(tracked(s), ver)), ('the batch has the new version', batch_has(s, ks.dk))]
def vhdel_(s, v0, v, ks):
    c = s.ctx
    if c.branch(ks.bad('g')): return wrongtype(s, ks, 'g', v0, v)
    w = folded(s, FDEL['g'], v0, (pf(s, 'g'),)); n0, n1 = v0.count(pf(s, 'g')), w.count(pf(s, 'g')); r0 = FieldLV(s.ctx.ghost['revision'], 'currentRevision').get(s.pre)
    if c.branch(ieq(n0, n1)): return [('succeeds', status(s, 0)), ('the version stays', ieq(OUT(s, 4), vver(s, ks))), ('nothing is stored', And(v.has(ks.dk) == v0.has(ks.dk), value_eq(c, v.at(ks.dk), v0.at(ks.dk)))), ('the fields', w.same(v)), ('the revision stays', ieq(tracked(s), r0))]
    same_ = c.branch(And(ks.has, batch_has(s, ks.dk, s.pre))); ver = vver(s, ks) + (0 if same_ else 1)
    return [('succeeds', status(s, 0)), ('the version grows once per batch', ieq(OUT(s, 4), ver)), ('exactly the named fields go, the size counts the rest', desc(w, A(s, 1), 'g', n1, ver, keep0=True).same(v)),
            ('the revision of this batch has that version', ieq(tracked(s), ver)), ('the batch has the new version', batch_has(s, ks.dk))]
# ---- configuration
def cset_(s, v0, v): return [('succeeds', status(s, 0)), ('the entry is set, nothing else changes', v0.put(Str(['~']) + A(s, 1), A(s, 2)).same(v))]
def cget_(s, v0, v):
    k = Str(['~']) + A(s, 1); has = s.ctx.branch(v0.has(k))
    return [('a read changes nothing', v0.same(v)), ('found exactly if present', status(s, 0 if has else 1))] + ([('the stored value', seq_(OUT(s, 2), v0.at(k)))] if has else [])
bnd = lambda s, v, *ks: [ile(v.count(p), MAXN >> 1) for p in s.ctx.ghost['prefixes']]
div = lambda n: (lambda s: [(s.ctx.ghost['range'][2] - s.ctx.ghost['range'][1]) % n == 0])
GENERIC = both('exists', exists_, keys=(), inv=loops(sums=lambda s: {'existing': (FEX, (), False)})) + both('getType', type_, 'abcdefg')
STRINGS = [sm('set', set_, 'a')] + both('get', get_, 'a')
HASHES = [sm('hset', hset_('b'), 'b'), sm('hsetnx', hset_('b', True), 'b'), sm('hmset', hmset_, 'b', inv=loops(FSET, lambda s: [pf(s, 'b')], lambda s: (pf(s, 'b'),)), req=lambda s, v, ks: bnd(s, v) + div(2)(s)),
    sm('hdel', removal('b'), 'b', inv=loops(FDEL['b'], lambda s: [pf(s, 'b')], lambda s: (pf(s, 'b'),)), req=bnd), sm('hincrby', hincrby_, 'b'), sm('hincrbyfloat', hincrbyfloat_, 'b')] + both('hget', lookup('b'), 'b') + both('hexists', lookup('b', out=None), 'b') + both('hlen', length('b'), 'b')
SETS = [sm('srem', removal('c'), 'c', inv=loops(FDEL['c'], lambda s: [pf(s, 'c')], lambda s: (pf(s, 'c'),)), req=bnd), sm('sadd', sadd_, 'c', inv=loops(FADD, lambda s: [pf(s, 'c')], lambda s: (pf(s, 'c'),)), req=bnd),
    sm('smove', smove_, 'c', keys=(1, 2), req=nobar(1, 2))] + both('sismember', lookup('c', out=None), 'c') + both('scard', length('c'), 'c')
LHASHES = [sm('lhset', lhset_, 'e', req=lhreq), sm('lhmset', lhmset_, 'e', req=lambda s, v, ks: lhreq(s, v) + div(3)(s), inv=lhinv(loops(FLH, lambda s: [li(s)], lambda s: (A(s, 1),), lambda s: {'empty names': (FBAD, (), True)}), True)),
    sm('lhdel', lhdel_, 'e', req=lhreq, inv=loops(FLHD, lambda s: [li(s)], lambda s: (A(s, 1),))), sm('lhlocdel', lhlocdel_, 'e', req=lhreq)] + both('lhget', lhget_, 'e', req=lhreq) + both('lhlen', length('e'), 'e')
DEQUES = [sm('dequePushBack', push_(False), 'd', req=dreq(), inv=loops(PUSHR, None, lambda s: (pf(s, 'd'), poff(s, False)))), sm('dequePushFront', push_(True), 'd', req=dreq(), inv=loops(PUSHL, None, lambda s: (pf(s, 'd'), poff(s, True)))),
    sm('dequePopBack', pop_(False), 'd', req=dreq()), sm('dequePopFront', pop_(True), 'd', req=dreq()), sm('dequeTrimFront', trim_, 'd', req=dreq(True), inv=loops(TRIM, None, lambda s: (pf(s, 'd'),)))] + both('dequeLen', length('d'), 'd')
VHASHES = [sm('vhset', vhset_, 'g', req=vreq), sm('vhdel', vhdel_, 'g', req=vreq, inv=loops(FDEL['g'], lambda s: [pf(s, 'g')], lambda s: (pf(s, 'g'),)))] + both('vhlen', length('g'), 'g')
CONFIG = [sm('configSet', cset_, keys=())] + both('configGet', cget_, keys=())
UNITS_ = GENERIC + STRINGS + HASHES + SETS + LHASHES + DEQUES + VHASHES + CONFIG
UNITS = units_of(UNITS_, install)

SMSRC = ['StateMachine.cc','Dispatcher.cc','Connection.cc','Link.cc','RedisParser.cc','BufferedReader.cc','BufferedWriter.cc','pubsub/Publisher.cc','redis/MultiHandler.cc','storage/ExpirationEventIterator.cc','auth/AuthenticationDispatcher.cc','redis/CommandMonitor.cc']
SMFILES = ['StateMachine.cc', 'RedisRequest.cc', 'storage/VersionedHashRevisionTracker.cc']
