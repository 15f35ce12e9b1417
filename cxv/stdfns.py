"""Assumed contracts of individual library functions (part of the trusted base)."""
import z3
from .tys import *
from .values import *
from .engine import *
from .lib import *

FREE, METHOD, FREEOP = {}, {}, {}

def free(*names):
    def d(f):
        for n in names: FREE[n] = f
        return f
    return d
def meth(classes, *names):
    if isinstance(classes, str): classes = [classes]
    def d(f):
        for c in classes:
            for n in names: METHOD[(c, n)] = f
        return f
    return d
def op(*names):
    def d(f):
        for n in names: FREEOP[n] = f
        return f
    return d

STR = ['std::basic_string', 'std::basic_string_view', 'rocksdb::Slice', 'rocksdb::PinnableSlice']
SEQC = ['std::vector', 'std::deque', 'std::queue', 'std::list', 'std::array', 'std::initializer_list', 'std::__cxx11::list']
MAPC = ['std::map', 'std::unordered_map']
SETC = ['std::set', 'std::unordered_set']
ITER = ['__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::__detail::_Node_iterator', 'std::_Deque_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::__detail::_Node_iterator_base', 'std::__detail::_Node_const_iterator']

def A(ctx, e, i): return ctx.ev(e['args'][i])

# ---------------------------------------------------------------- strings
@meth(STR, 'size', 'length')
def _(L, ctx, o, e): return L.as_str(ctx, o).len()
@meth(STR, 'empty')
def _(L, ctx, o, e):
    return seq_(L.as_str(ctx, o), Str([]))
@meth(STR, 'data', 'c_str', 'data_')
def _(L, ctx, o, e): return Ptr(o, False, 0, ty=parse('char *'))
@meth(STR, 'clear')
def _(L, ctx, o, e): o.set(Str([]))
@meth(STR, 'operator[]')
def _(L, ctx, o, e):
    i = A(ctx, e, 0)
    s = L.as_str(ctx, o)
    cls = parse(e['mcls']).name
    n = s.len()
    # std::string permits reading the terminator at size()
    g = And(ile(0, i), ile(i, n) if cls == 'std::basic_string' else ilt(i, n))
    if g is not True: ctx.check(g, 'memory safety: string index within bounds @%s' % ctx.where(), 'safety')
    if cls == 'std::basic_string':
        if isinstance(n, int) and isinstance(i, int):
            if i == n: return 0
        elif not ctx.entails(ilt(i, n)):
            if ctx.branch(ieq(i, n)): return 0
    return ElemLV(o, i)
@meth(STR, 'at')
def _(L, ctx, o, e):
    i = A(ctx, e, 0); s = L.as_str(ctx, o)
    if not ctx.branch(And(ile(0, i), ilt(i, s.len()))): raise CppThrow('std::out_of_range')
    return ElemLV(o, i)
@meth(STR, 'back')
def _(L, ctx, o, e):
    s = L.as_str(ctx, o); L.bounds(ctx, s, 0, 'back()')
    return ElemLV(o, isub(s.len(), 1))
@meth(STR, 'front')
def _(L, ctx, o, e):
    s = L.as_str(ctx, o); L.bounds(ctx, s, 0, 'front()')
    return ElemLV(o, 0)
@meth(STR, 'append', 'operator+=')
def _(L, ctx, o, e):
    if len(e['args']) == 2:
        a, n = A(ctx, e, 0), A(ctx, e, 1)
        if isinstance(a, Ptr): x = L.ptr_range(ctx, a, n, 'append')
        elif isinstance(a, Iter): x = iter_range(L, ctx, a, n)
        elif isinstance(a, int) and not isinstance(a, bool) and a <= 64 and isinstance(ctx.toint(n), (int, z3.ArithRef)):
            c = ctx.toint(n); x = Str([])
            for _ in range(a): x = x + schr(byte_of(c))
        else: raise Unsupported('append(n, c)')
    else: x = to_str(L, ctx, A(ctx, e, 0))
    o.set(L.as_str(ctx, o) + x)
    return o
def to_str(L, ctx, v):
    if isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool):
        return schr(byte_of(v))
    return L.as_str(ctx, v)
@meth(STR, 'push_back')
def _(L, ctx, o, e):
    o.set(L.as_str(ctx, o) + to_str(L, ctx, A(ctx, e, 0)))
@meth(STR, 'pop_back')
def _(L, ctx, o, e):
    s = L.as_str(ctx, o); L.bounds(ctx, s, 0, 'pop_back'); o.set(ssub(s, 0, isub(s.len(), 1)))
@meth(STR, 'assign', 'operator=')
def _(L, ctx, o, e):
    if len(e['args']) == 2: o.set(L.ptr_range(ctx, A(ctx, e, 0), A(ctx, e, 1), 'assign'))
    else: o.set(to_str(L, ctx, A(ctx, e, 0)))
    return o
@meth(STR, 'resize')
def _(L, ctx, o, e):
    n = A(ctx, e, 0); s = L.as_str(ctx, o)
    l = s.len()
    if isinstance(n, int) and isinstance(l, int):
        o.set(ssub(s, 0, n) if n <= l else Str([s, '\0' * (n - l)])); return
    if simp(zi(n) == zi(l)) is True: return
    if l == 0 or s.lit() == '':
        x = z3.String(ctx.uniq('resized')); ctx.assume(z3.Length(x) == zi(n)); o.set(Str([x])); return
    if ctx.branch(ile(n, l)): o.set(ssub(s, 0, n))
    else:
        x = z3.String(ctx.uniq('pad')); ctx.assume(z3.Length(x) == zi(isub(n, l))); o.set(Str([s, x]))
@meth(STR, 'reserve', 'shrink_to_fit')
def _(L, ctx, o, e):
    for a in e['args']: ctx.ev(a)
@meth(STR, 'substr')
def _(L, ctx, o, e):
    s = L.as_str(ctx, o); p = A(ctx, e, 0) if e['args'] else 0
    if not ctx.branch(ile(p, s.len())): raise CppThrow('std::out_of_range')
    n = A(ctx, e, 1) if len(e['args']) > 1 else M64 - 1
    rest = isub(s.len(), p)
    if isinstance(n, int) and n == M64 - 1: return ssub(s, p, simp(zi(rest)) if is_sym(rest) else rest)
    if ctx.entails(ile(n, rest)): return ssub(s, p, n)
    return ssub(s, p, Ite(ile(n, rest), n, rest))
@meth(STR, 'remove_prefix')
def _(L, ctx, o, e):
    s = L.as_str(ctx, o); n = A(ctx, e, 0)
    ctx.check(ile(n, s.len()), 'memory safety: remove_prefix within bounds @%s' % ctx.where(), 'safety')
    o.set(ssub(s, n, simp(zi(isub(s.len(), n)))))
@meth(STR, 'remove_suffix')
def _(L, ctx, o, e):
    s = L.as_str(ctx, o); n = A(ctx, e, 0)
    ctx.check(ile(n, s.len()), 'memory safety: remove_suffix within bounds @%s' % ctx.where(), 'safety')
    o.set(ssub(s, 0, simp(zi(isub(s.len(), n)))))
@meth(STR, 'find')
def _(L, ctx, o, e):
    s = L.as_str(ctx, o); p = to_str(L, ctx, A(ctx, e, 0)); f = A(ctx, e, 1) if len(e['args']) > 1 else 0
    if len(e['args']) > 2: raise Unsupported('find with length')
    if s.lit() is not None and p.lit() is not None and isinstance(f, int):
        i = s.lit().find(p.lit(), f); return i if i >= 0 else M64 - 1
    i = z3.IndexOf(s.term(), p.term(), zi(f))
    if not ctx.nofork:
        r = ctx.fint('find', 'unsigned long')
        ctx.assume(zi(r) == z3.If(i < 0, z3.IntVal(M64 - 1), i))
        return r
    return z3.If(i < 0, z3.IntVal(M64 - 1), i)
@meth(STR, 'compare')
def _(L, ctx, o, e):
    if len(e['args']) > 1: raise Unsupported('compare with positions')
    a = L.as_str(ctx, o); b = to_str(L, ctx, A(ctx, e, 0))
    return z3.If(zb(seq_(a, b)), z3.IntVal(0), z3.If(a.term() < b.term(), z3.IntVal(-1), z3.IntVal(1)))
@meth(STR, 'starts_with')
def _(L, ctx, o, e):
    return z3.PrefixOf(to_str(L, ctx, A(ctx, e, 0)).term(), L.as_str(ctx, o).term())
@meth(STR, 'begin', 'cbegin')
def _(L, ctx, o, e): return Iter(o, 0, 'str')
@meth(STR, 'end', 'cend')
def _(L, ctx, o, e): return Iter(o, L.as_str(ctx, o).len(), 'str')
@meth(STR, 'erase')
def _(L, ctx, o, e):
    s = L.as_str(ctx, o)
    a = A(ctx, e, 0) if e['args'] else 0
    if isinstance(a, Iter):
        if len(e['args']) == 2:
            b = A(ctx, e, 1); n = isub(b.pos, a.pos)
        else: n = 1
        p = a.pos
    else:
        p = a; n = A(ctx, e, 1) if len(e['args']) > 1 else isub(s.len(), p)
        if isinstance(n, int) and n == M64 - 1: n = isub(s.len(), p)
        rest = isub(s.len(), p)
        if not ctx.entails(ile(n, rest)): n = Ite(ile(n, rest), n, rest)
    q = iadd(p, n)
    o.set(Str([ssub(s, 0, p), ssub(s, q, simp(zi(isub(s.len(), q))))]))
    return Iter(o, p, 'str')
@meth(STR, 'insert')
def _(L, ctx, o, e):
    s = L.as_str(ctx, o); p = A(ctx, e, 0)
    if isinstance(p, Iter):
        x = to_str(L, ctx, A(ctx, e, 1)); p = p.pos
    elif len(e['args']) == 2: x = to_str(L, ctx, A(ctx, e, 1))
    else: raise Unsupported('insert')
    o.set(Str([ssub(s, 0, p), x, ssub(s, p, simp(zi(isub(s.len(), p))))]))
    return o
@meth(STR, 'ToString', 'ToStringView', 'operator conversion', 'str')
def _(L, ctx, o, e): return L.as_str(ctx, o)
@meth(STR, 'capacity')
def _(L, ctx, o, e): return ctx.fint('capacity', 'unsigned long')
@meth(STR, 'swap')
def _(L, ctx, o, e):
    l = ctx.lv(e['args'][0]); a, b = o.get(), l.get(); o.set(b); l.set(a)
def iter_range(L, ctx, a, b):
    return ssub(L.as_str(ctx, a.clv), a.pos, isub(b.pos, a.pos))

# ---------------------------------------------------------------- sequences
@meth(SEQC, 'size')
def _(L, ctx, o, e): return o.get().len()
@meth(SEQC, 'empty')
def _(L, ctx, o, e): return ieq(o.get().len(), 0)
@meth(SEQC, 'clear')
def _(L, ctx, o, e): o.set(Vec(o.get().et, items=[]))
@meth(SEQC, 'reserve', 'shrink_to_fit')
def _(L, ctx, o, e):
    for a in e['args']: ctx.ev(a)
@meth(SEQC, 'operator[]')
def _(L, ctx, o, e):
    i = A(ctx, e, 0)
    L.bounds(ctx, o.get(), i, 'operator[]')
    return ElemLV(o, i)
@meth(SEQC, 'at')
def _(L, ctx, o, e):
    i = A(ctx, e, 0)
    if not ctx.branch(And(ile(0, i), ilt(i, o.get().len()))): raise CppThrow('std::out_of_range')
    return ElemLV(o, i)
@meth(SEQC, 'back')
def _(L, ctx, o, e):
    v = o.get(); L.bounds(ctx, v, isub(v.len(), 1), 'back()'); return ElemLV(o, simp(isub(v.len(), 1)))
@meth(SEQC, 'front')
def _(L, ctx, o, e):
    L.bounds(ctx, o.get(), 0, 'front()'); return ElemLV(o, 0)
@meth(SEQC, 'data')
def _(L, ctx, o, e): return Ptr(o, False, 0, ty=Ty('ptr', sub=o.get().et))
def vpush(L, ctx, v, x):
    if v.items is not None and len(v.items) < 64: return Vec(v.et, items=v.items + [x])
    arr, n = L.vec_arr(ctx, v)
    return Vec(v.et, arr=z3.Store(arr, zi(n), L.pack(ctx, x, v.et)), n=iadd(n, 1))
@meth(SEQC, 'push_back')
@meth(['std::queue'], 'push')
def _(L, ctx, o, e):
    x = A(ctx, e, 0)
    if L.kind(o.get().et) == 'str': x = L.as_str(ctx, x)
    o.set(vpush(L, ctx, o.get(), x))
@meth(SEQC, 'emplace_back')
@meth(['std::queue'], 'emplace')
def _(L, ctx, o, e):
    v = o.get()
    args = [ctx.lv(a) if a.get('lv') else ctx.ev(a) for a in e['args']]
    x = L.construct_from(ctx, v.et, args)
    o.set(vpush(L, ctx, o.get(), x))
    return ElemLV(o, isub(o.get().len(), 1))
@meth(SEQC, 'push_front')
def _(L, ctx, o, e):
    v = o.get()
    if v.items is None: o.set(vinsert(L, ctx, v, 0, A(ctx, e, 0)))
    else: o.set(Vec(v.et, items=[A(ctx, e, 0)] + v.items))
@meth(SEQC, 'pop_back')
def _(L, ctx, o, e):
    v = o.get(); L.bounds(ctx, v, isub(v.len(), 1), 'pop_back')
    o.set(Vec(v.et, items=v.items[:-1]) if v.items is not None else Vec(v.et, arr=v.arr, n=isub(v.n, 1)))
@meth(SEQC, 'pop_front')
@meth(['std::queue'], 'pop')
def _(L, ctx, o, e):
    v = o.get(); L.bounds(ctx, v, 0, 'pop_front')
    if v.items is not None: o.set(Vec(v.et, items=v.items[1:])); return
    i = z3.Int(ctx.uniq('i!pf'))
    o.set(Vec(v.et, arr=z3.Lambda([i], z3.Select(v.arr, i + 1)), n=isub(v.n, 1)))
@meth(SEQC, 'resize')
def _(L, ctx, o, e):
    v = o.get(); n = A(ctx, e, 0)
    if isinstance(n, int) and v.items is not None and n <= 64:
        d = [L.default(ctx, v.et) for _ in range(max(0, n - len(v.items)))]
        o.set(Vec(v.et, items=v.items[:n] + d)); return
    arr, l = L.vec_arr(ctx, v)
    ctx.check(ile(n, 1 << 60), 'no resize to a negative or excessive length', 'safety')
    if ctx.entails(ile(n, l)): o.set(Vec(v.et, arr=arr, n=n)); return
    d = L.pack(ctx, L.default(ctx, v.et), v.et)
    i = z3.Int(ctx.uniq('i!rs'))
    na = z3.Array(ctx.uniq('resized'), z3.IntSort(), arr.range())
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(n)), z3.Select(na, i) == z3.If(i < zi(l), z3.Select(arr, i), d)), patterns=[z3.Select(na, i)]))
    o.set(Vec(v.et, arr=na, n=n))
@meth(SEQC, 'begin', 'cbegin')
def _(L, ctx, o, e): return Iter(o, 0, 'vec')
@meth(SEQC, 'end', 'cend')
def _(L, ctx, o, e): return Iter(o, o.get().len(), 'vec')
@meth(SEQC, 'operator=', 'assign')
def _(L, ctx, o, e):
    if len(e['args']) == 2: raise Unsupported('vector assign(n,x)')
    v = A(ctx, e, 0)
    o.set(v if not isinstance(v, Vec) or v.et == o.get().et else Vec(o.get().et, v.items, v.arr, v.n)); return o
def vremove(L, ctx, v, p):
    """v without element p"""
    if v.items is not None and isinstance(p, int): return Vec(v.et, items=v.items[:p] + v.items[p+1:])
    arr, n = L.vec_arr(ctx, v)
    na = z3.Array(ctx.uniq('erased'), z3.IntSort(), arr.range())
    i = z3.Int(ctx.uniq('i!er'))
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(n) - 1), z3.Select(na, i) == z3.If(i < zi(p), z3.Select(arr, i), z3.Select(arr, i + 1))), patterns=[z3.Select(na, i)]))
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(n)), z3.And(z3.Implies(i < zi(p), z3.Select(arr, i) == z3.Select(na, i)), z3.Implies(i > zi(p), z3.Select(arr, i) == z3.Select(na, i - 1)))), patterns=[z3.Select(arr, i)]))
    return Vec(v.et, arr=na, n=isub(n, 1))
def vinsert(L, ctx, v, p, x):
    arr, n = L.vec_arr(ctx, v)
    na = z3.Array(ctx.uniq('inserted'), z3.IntSort(), arr.range())
    i = z3.Int(ctx.uniq('i!in'))
    X = L.pack(ctx, x, v.et)
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= zi(n)), z3.Select(na, i) == z3.If(i < zi(p), z3.Select(arr, i), z3.If(i == zi(p), X, z3.Select(arr, i - 1)))), patterns=[z3.Select(na, i)]))
    return Vec(v.et, arr=na, n=iadd(n, 1))
@meth(SEQC, 'erase')
def _(L, ctx, o, e):
    it = A(ctx, e, 0)
    if len(e['args']) != 1: raise Unsupported('range erase')
    L.bounds(ctx, o.get(), it.pos, 'erase')
    o.set(vremove(L, ctx, o.get(), it.pos))
    return Iter(o, it.pos, 'vec')
@meth(SEQC, 'swap')
def _(L, ctx, o, e):
    l = ctx.lv(e['args'][0]); a, b = o.get(), l.get(); o.set(b); l.set(a)

# ---------------------------------------------------------------- iterators
@meth(ITER, 'operator*')
def _(L, ctx, o, e): return L.iter_deref(ctx, o.get())
@meth(ITER, 'operator->')
def _(L, ctx, o, e): return Ptr(L.iter_deref(ctx, o.get()))
def iadv(L, ctx, it, n):
    if it.kind == 'map' and it.extra[0] != 'enum': raise Unsupported('advance of keyed iterator')
    return Iter(it.clv, iadd(it.pos, n), it.kind, it.end, it.extra)
@meth(ITER, 'operator++')
def _(L, ctx, o, e):
    old = o.get(); o.set(iadv(L, ctx, old, 1))
    return o if not e['args'] else old
@meth(ITER, 'operator--')
def _(L, ctx, o, e):
    old = o.get(); o.set(iadv(L, ctx, old, -1))
    return o if not e['args'] else old
@meth(ITER, 'operator+')
def _(L, ctx, o, e): return iadv(L, ctx, o.get(), A(ctx, e, 0))
@meth(ITER, 'operator-')
def _(L, ctx, o, e):
    x = A(ctx, e, 0)
    if isinstance(x, Iter): return isub(o.get().pos, x.pos)
    return iadv(L, ctx, o.get(), -x if isinstance(x, int) else -zi(x))
@meth(ITER, 'operator+=')
def _(L, ctx, o, e): o.set(iadv(L, ctx, o.get(), A(ctx, e, 0))); return o
@meth(ITER, 'operator==')
def _(L, ctx, o, e): return L.iter_eq(ctx, o.get(), A(ctx, e, 0))
@meth(ITER, 'operator!=')
def _(L, ctx, o, e): return Not(L.iter_eq(ctx, o.get(), A(ctx, e, 0)))
@meth(ITER, 'operator=')
def _(L, ctx, o, e): o.set(A(ctx, e, 0)); return o

# ---------------------------------------------------------------- maps and sets
def key(L, ctx, m, v):
    if L.kind(m.kt) == 'str': v = L.as_str(ctx, v)
    return L.pack(ctx, v, m.kt)
def mput(L, ctx, m, k, vterm):
    has = z3.Select(m.dom, k)
    n = simp(z3.If(has, zi(m.n), zi(m.n) + 1))
    return Map(m.kt, m.vt, z3.Store(m.dom, k, True), z3.Store(m.val, k, vterm) if vterm is not None else m.val, n)
def mdel(L, ctx, m, k):
    has = z3.Select(m.dom, k)
    return Map(m.kt, m.vt, z3.Store(m.dom, k, False), m.val, simp(z3.If(has, zi(m.n) - 1, zi(m.n))))
def touch(L, ctx, m, k):
    """cardinality facts for the key: an element implies size >= 1"""
    ctx.assume(z3.Implies(z3.Select(m.dom, k), zi(m.n) >= 1)) if not ctx.nofork else None
@meth(MAPC + SETC, 'size')
def _(L, ctx, o, e): return o.get().n
@meth(MAPC + SETC, 'empty')
def _(L, ctx, o, e):
    m = o.get()
    if not ctx.nofork:
        k = z3.Const(ctx.uniq('k!e'), m.dom.sort().domain())
        ctx.assume(z3.Implies(zi(m.n) == 0, z3.ForAll([k], z3.Not(z3.Select(m.dom, k)))))
    return ieq(m.n, 0)
@meth(MAPC + SETC, 'clear')
def _(L, ctx, o, e):
    m = o.get(); o.set(Map(m.kt, m.vt, z3.K(m.dom.sort().domain(), z3.BoolVal(False)), m.val, 0))
@meth(MAPC + SETC, 'count')
def _(L, ctx, o, e):
    m = o.get(); k = key(L, ctx, m, A(ctx, e, 0)); touch(L, ctx, m, k)
    return z3.If(z3.Select(m.dom, k), z3.IntVal(1), z3.IntVal(0))
@meth(MAPC + SETC, 'find')
def _(L, ctx, o, e):
    m = o.get(); k = key(L, ctx, m, A(ctx, e, 0)); touch(L, ctx, m, k)
    return Iter(o, None, 'map', end=simp(z3.Not(z3.Select(m.dom, k))), extra=('key', k))
@meth(MAPC + SETC, 'end', 'cend')
def _(L, ctx, o, e): return Iter(o, None, 'map', end=True, extra=('end',))
@meth(MAPC + SETC, 'begin', 'cbegin')
def _(L, ctx, o, e): return L.map_begin(ctx, o)
@meth(MAPC, 'operator[]')
def _(L, ctx, o, e):
    m = o.get(); k = key(L, ctx, m, A(ctx, e, 0)); touch(L, ctx, m, k)
    if not ctx.branch(z3.Select(m.dom, k)):
        d = L.default(ctx, m.vt)
        o.set(mput(L, ctx, m, k, L.pack(ctx, d, m.vt)))
    return ElemLV(o, k)
@meth(MAPC, 'at')
def _(L, ctx, o, e):
    m = o.get(); k = key(L, ctx, m, A(ctx, e, 0)); touch(L, ctx, m, k)
    if not ctx.branch(z3.Select(m.dom, k)): raise CppThrow('std::out_of_range')
    return ElemLV(o, k)
@meth(MAPC, 'emplace', 'insert', 'try_emplace')
def _(L, ctx, o, e):
    args = [ctx.ev(a) for a in e['args']]
    m = o.get()
    if len(args) == 1:
        kv, vv = args[0].f['first'], args[0].f['second']
    else: kv, vv = args[0], args[1]
    k = key(L, ctx, m, kv); touch(L, ctx, m, k)
    had = ctx.branch(z3.Select(m.dom, k))
    if not had:
        if L.kind(m.vt) == 'str': vv = L.as_str(ctx, vv)
        o.set(mput(L, ctx, m, k, L.pack(ctx, vv, m.vt)))
    return Struct(Ty('n', 'std::pair', (parse('int'), parse('bool'))), {'first': Iter(o, None, 'map', end=False, extra=('key', k)), 'second': not had})
@meth(SETC, 'emplace', 'insert')
def _(L, ctx, o, e):
    m = o.get(); k = key(L, ctx, m, A(ctx, e, 0)); touch(L, ctx, m, k)
    had = z3.Select(m.dom, k)
    o.set(mput(L, ctx, m, k, None))
    return Struct(Ty('n', 'std::pair', (parse('int'), parse('bool'))), {'first': Iter(o, None, 'map', end=False, extra=('key', k)), 'second': simp(z3.Not(had))})
@meth(MAPC + SETC, 'erase')
def _(L, ctx, o, e):
    a = A(ctx, e, 0); m = o.get()
    if isinstance(a, Iter):
        ctx.check(L.iter_valid(ctx, a), 'no erase of end() @%s' % ctx.where(), 'safety')
        k = L.iter_key(ctx, a)
        o.set(mdel(L, ctx, m, k)); return Iter(o, None, 'map', end=ctx.fbool('erase.end'), extra=('key', z3.Const(ctx.uniq('next'), m.dom.sort().domain())))
    k = key(L, ctx, m, a); touch(L, ctx, m, k)
    o.set(mdel(L, ctx, m, k))
    return z3.If(z3.Select(m.dom, k), z3.IntVal(1), z3.IntVal(0))
@meth(MAPC + SETC, 'operator=')
def _(L, ctx, o, e): o.set(A(ctx, e, 0)); return o

# ---------------------------------------------------------------- smart pointers, atomics
@meth(['std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::__uniq_ptr_impl'], 'get', 'operator->', 'release', 'operator conversion')
def _(L, ctx, o, e):
    v = o.get()
    if e.get('n') == 'release': o.set(Ptr(None, True))
    return v
@meth(['std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access'], 'operator*')
def _(L, ctx, o, e): return ctx.deref(o.get())
@meth(['std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr'], 'operator bool')
def _(L, ctx, o, e): return Not(o.get().null)
@meth(['std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr'], 'reset')
def _(L, ctx, o, e):
    v = A(ctx, e, 0) if e['args'] else Ptr(None, True)
    o.set(v)
@meth(['std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr'], 'operator=')
def _(L, ctx, o, e):
    v = A(ctx, e, 0); o.set(v if isinstance(v, Ptr) else Ptr(None, True)); return o
@meth(['std::atomic', 'std::__atomic_base'], 'load', 'operator conversion', 'operator bool', 'operator long', 'operator unsigned long', 'operator int')
def _(L, ctx, o, e): return o.get()
@meth(['std::atomic', 'std::__atomic_base'], 'store', 'operator=')
def _(L, ctx, o, e):
    v = A(ctx, e, 0); o.set(v); return v
@meth(['std::atomic', 'std::__atomic_base'], 'operator++', 'operator--', 'fetch_add', 'fetch_sub', 'operator+=', 'operator-=')
def _(L, ctx, o, e):
    t = e['t'] if e['t'] in INTS else 'long'
    n = e.get('op') or e['n'].replace('operator', '')
    old = o.get()
    if n in ('++', '--'): d = 1
    else: d = A(ctx, e, 0)
    new = ctx.arith('+' if n in ('++', '+=', 'fetch_add') else '-', old, d, t)
    o.set(new)
    if n in ('++', '--'): return old if e['args'] else new
    return old if n.startswith('fetch') else new
@meth(['std::atomic', 'std::__atomic_base'], 'exchange')
def _(L, ctx, o, e):
    v = A(ctx, e, 0); old = o.get(); o.set(v); return old
@free('std::atomic_load')
def _(L, ctx, e): return ctx.deref(A(ctx, e, 0)).get()
@free('std::atomic_store')
def _(L, ctx, e):
    p = A(ctx, e, 0); v = A(ctx, e, 1); ctx.deref(p).set(v)
@free('std::make_shared', 'std::make_unique')
def _(L, ctx, e):
    t = strip_ref(parse(e['t'])).args[0]
    args = [ctx.lv(a) if a.get('lv') else ctx.ev(a) for a in e['args']]
    return Ptr(ctx.cell('shared', t, L.construct_from(ctx, t, args)), False)

# ---------------------------------------------------------------- locks, condition variables, threads
LOCKC = ['std::scoped_lock', 'std::lock_guard', 'std::unique_lock', 'std::shared_lock']
@meth(LOCKC, 'unlock')
def _(L, ctx, o, e):
    v = o.get()
    for m in v.f['m']:
        if m in ctx.locks: ctx.locks.remove(m)
    o.set(v.with_('held', False))
@meth(LOCKC, 'lock')
def _(L, ctx, o, e):
    v = o.get(); ctx.locks += v.f['m']; o.set(v.with_('held', True))
@meth(['std::mutex', 'std::shared_mutex', 'std::recursive_mutex'], 'lock', 'lock_shared')
def _(L, ctx, o, e): ctx.locks.append(L.lock_name(o))
@meth(['std::mutex', 'std::shared_mutex', 'std::recursive_mutex'], 'unlock', 'unlock_shared')
def _(L, ctx, o, e):
    n = L.lock_name(o)
    if n in ctx.locks: ctx.locks.remove(n)
@meth(['std::condition_variable', 'std::condition_variable_any'], 'notify_all', 'notify_one')
def _(L, ctx, o, e): ctx.events.append(('notify', str(o)))
@meth(['std::condition_variable', 'std::condition_variable_any'], 'wait', 'wait_for', 'wait_until')
def _(L, ctx, o, e):
    h = ctx.ghost.get('on_wait')
    if h: h(ctx, o)
    if e['t'] == 'bool': return ctx.fbool('wait')
    x = z3.Int(ctx.uniq('cv_status')); ctx.assume(z3.Or(x == 0, x == 1))
    return x

# ---------------------------------------------------------------- chrono
def ratio(t):
    t = strip_ref(t)
    if t.name == 'std::chrono::time_point': t = t.args[1]
    if t.name != 'std::chrono::duration': return None
    if len(t.args) < 2: return (1, 1)
    r = t.args[1]
    return (int(str(r.args[0])), int(str(r.args[1])) if len(r.args) > 1 else 1)
def conv(L, ctx, v, f, t, trunc=True):
    if f == t: return v
    num = f[0] * t[1]; den = f[1] * t[0]
    import math
    g = math.gcd(num, den); num //= g; den //= g
    x = v * num if isinstance(v, int) else zi(v) * num if num != 1 else v
    if den != 1:
        if isinstance(x, int): x = abs(x) // den * (1 if x >= 0 else -1)
        else: x = z3.If(x >= 0, x / den, -((-x) / den))
    return x
@free('std::chrono::duration_cast', 'std::chrono::time_point_cast')
def _(L, ctx, e):
    a = e['args'][0]
    return conv(L, ctx, ctx.ev(a), ratio(parse(a['t'])), ratio(parse(e['t'])))
@free('std::chrono::steady_clock::now')
def _(L, ctx, e):
    x = ctx.fint('now')
    ctx.assume(x >= 0); ctx.assume(x < (1 << 60))
    p = ctx.ghost.get('now')
    if p is not None: ctx.assume(x >= p)
    ctx.ghost['now'] = x
    return x
@free('std::chrono::system_clock::now', 'std::chrono::_V2::steady_clock::now')
def _(L, ctx, e):
    x = ctx.fint('sysnow'); ctx.assume(x >= 0); return x
FREE['std::chrono::_V2::steady_clock::now'] = FREE['std::chrono::steady_clock::now']
FREE['std::chrono::_V2::system_clock::now'] = FREE['std::chrono::system_clock::now']
@meth(['std::chrono::duration'], 'count')
def _(L, ctx, o, e): return o.get()
@meth(['std::chrono::time_point'], 'time_since_epoch')
def _(L, ctx, o, e): return o.get()
@meth(['std::chrono::duration', 'std::chrono::time_point'], 'operator=')
def _(L, ctx, o, e): o.set(A(ctx, e, 0)); return o
@meth(['std::chrono::duration', 'std::chrono::time_point'], 'operator+=', 'operator-=')
def _(L, ctx, o, e):
    a = e['args'][0]; v = conv(L, ctx, ctx.ev(a), ratio(parse(a['t'])), ratio(parse(e['mcls'])))
    o.set(iadd(o.get(), v) if e['op'] == '+=' else isub(o.get(), v)); return o
@free('std::chrono::duration::zero', 'std::chrono::time_point::min')
def _(L, ctx, e): return 0
def is_chrono(t):
    t = strip_ref(parse(t)); return t.kind == 'n' and t.name in ('std::chrono::duration', 'std::chrono::time_point')
def chrono_op(L, ctx, e):
    o = e['op']
    a, b = e['args']
    va, vb = ctx.ev(a), ctx.ev(b)
    ra = ratio(parse(a['t'])) if is_chrono(a['t']) else None
    rb = ratio(parse(b['t'])) if is_chrono(b['t']) else None
    if o in ('*', '/'):
        if o == '*': return zi(va) * zi(vb) if is_sym(va) or is_sym(vb) else va * vb
        return ctx.arith('/', va, vb, 'long')
    if o == '%': return ctx.arith('%', va, vb, 'long')
    if o in ('+', '-'):
        rr = ratio(parse(e['t']))
        x, y = conv(L, ctx, va, ra, rr), conv(L, ctx, vb, rb, rr)
        return iadd(x, y) if o == '+' else isub(x, y)
    # comparison in the finest unit
    common = ra if ra[1] * rb[0] >= rb[1] * ra[0] else rb
    x, y = conv(L, ctx, va, ra, common), conv(L, ctx, vb, rb, common)
    return {'<': ilt(x, y), '>': ilt(y, x), '<=': ile(x, y), '>=': ile(y, x), '==': ieq(x, y), '!=': Not(ieq(x, y))}[o]
# user defined literals
# ---------------------------------------------------------------- free operators
def is_stream(L, t):
    t = strip_ref(parse(t)); return t.kind == 'n' and (t.name in STREAMS or 'ostream' in t.name)
def put(L, ctx, ol, s):
    v = ol.get()
    if isinstance(v, Struct) and 'buf' in v.f: ol.set(v.with_('buf', v.f['buf'] + s))
    elif isinstance(v, Opaque): pass
    else: raise Unsupported('stream %r' % (v,))
def show(L, ctx, a):
    """text of `os << a` for the argument expression a"""
    t = strip_ref(parse(a['t']))
    if t.kind == 'fn' or a['k'] == 'fref' or (a['k'] == 'cast' and a['ck'] == 'FunctionToPointerDecay'):
        n = a['e']['n'] if a['k'] == 'cast' and 'n' in a['e'] else a.get('n', '')
        if n == 'endl': return Str(['\n'])
        if n in ('flush', 'dec'): return Str([])
        raise Unsupported('stream manipulator %s' % n)
    v = ctx.ev(a)
    kd = L.kind(t)
    if kd in ('str', 'cstr') : return L.as_str(ctx, v)
    if t.kind == 'arr': return L.as_str(ctx, v)
    if t.kind == 'n' and t.name in ('char', 'unsigned char', 'signed char'): return to_str(L, ctx, v)
    if kd == 'bool':
        return Str(['1' if v is True else '0']) if isinstance(v, bool) else Str([z3.If(v, z3.StringVal('1'), z3.StringVal('0'))])
    if kd == 'int': return L.itos(ctx, v)
    raise Unsupported('stream output of %s' % t)
@op('<<')
def _(L, ctx, e):
    ol = ctx.lv(e['args'][0]); put(L, ctx, ol, show(L, ctx, e['args'][1])); return ol
for c in STREAMS:
    def _f(L, ctx, o, e):
        put(L, ctx, o, show(L, ctx, e['args'][0])); return o
    METHOD[(c, 'operator<<')] = _f
@meth(list(STREAMS), 'str')
def _(L, ctx, o, e):
    if e['args']:
        o.set(o.get().with_('buf', L.as_str(ctx, A(ctx, e, 0)))); return
    return o.get().f['buf']
@meth(list(STREAMS), 'flush')
def _(L, ctx, o, e): return o
@meth(list(STREAMS), 'write')
def _(L, ctx, o, e):
    p, n = A(ctx, e, 0), A(ctx, e, 1)
    put(L, ctx, o, L.ptr_range(ctx, p, n, 'write')); return o
@meth(list(STREAMS), 'clear')
def _(L, ctx, o, e): return None
@op('+')
def _(L, ctx, e):
    if is_chrono(e['t']): return chrono_op(L, ctx, e)
    a, b = A(ctx, e, 0), A(ctx, e, 1)
    if isinstance(a, Iter): return iadv(L, ctx, a, b)
    return to_str(L, ctx, a) + to_str(L, ctx, b)
@op('-')
def _(L, ctx, e):
    if is_chrono(e['args'][0]['t']): return chrono_op(L, ctx, e)
    a, b = A(ctx, e, 0), A(ctx, e, 1)
    if isinstance(a, Iter) and isinstance(b, Iter): return isub(a.pos, b.pos)
    raise Unsupported('operator-')
@op('*', '/', '%')
def _(L, ctx, e): return chrono_op(L, ctx, e)
def cmp_eq(L, ctx, e):
    if is_chrono(e['args'][0]['t']): return chrono_op(L, ctx, dict(e, op='=='))
    a, b = A(ctx, e, 0), A(ctx, e, 1)
    if isinstance(a, Opaque) or isinstance(b, Opaque): raise Unsupported('comparison of opaque objects')
    ta = L.kind(parse(e['args'][0]['t']))
    if isinstance(a, Str) or isinstance(b, Str): return seq_(L.as_str(ctx, a), L.as_str(ctx, b))
    return L.eq(ctx, a, b)
@op('==')
def _(L, ctx, e): return cmp_eq(L, ctx, e)
@op('!=')
def _(L, ctx, e): return Not(cmp_eq(L, ctx, e))
def cmp_lt(L, ctx, e, o):
    if is_chrono(e['args'][0]['t']): return chrono_op(L, ctx, dict(e, op=o))
    a, b = A(ctx, e, 0), A(ctx, e, 1)
    if isinstance(a, Iter): return {'<': ilt(a.pos, b.pos), '>': ilt(b.pos, a.pos), '<=': ile(a.pos, b.pos), '>=': ile(b.pos, a.pos)}[o]
    if isinstance(a, (Str, Ptr)) and isinstance(b, (Str, Ptr)):
        a, b = L.as_str(ctx, a), L.as_str(ctx, b)
        return {'<': a.term() < b.term(), '>': b.term() < a.term(), '<=': a.term() <= b.term(), '>=': b.term() <= a.term()}[o]
    raise Unsupported('operator %s' % o)
for _o in ('<', '>', '<=', '>='):
    FREEOP[_o] = (lambda o: lambda L, ctx, e: cmp_lt(L, ctx, e, o))(_o)

# ---------------------------------------------------------------- free functions
@free('std::min')
def _(L, ctx, e):
    a, b = A(ctx, e, 0), A(ctx, e, 1); return Ite(ile(a, b), a, b) if not isinstance(a, int) or not isinstance(b, int) else min(a, b)
@free('std::max')
def _(L, ctx, e):
    a, b = A(ctx, e, 0), A(ctx, e, 1); return Ite(ile(b, a), a, b) if not isinstance(a, int) or not isinstance(b, int) else max(a, b)
@free('std::move', 'std::forward', 'std::as_const', 'std::addressof')
def _(L, ctx, e): return ctx.lv(e['args'][0]) if e['args'][0].get('lv') else ctx.ev(e['args'][0])
@free('std::swap')
def _(L, ctx, e):
    a, b = ctx.lv(e['args'][0]), ctx.lv(e['args'][1]); x, y = a.get(), b.get(); a.set(y); b.set(x)
@free('std::to_string')
def _(L, ctx, e):
    x = A(ctx, e, 0)
    if isinstance(x, z3.ArithRef) and x.is_real(): return Str([z3.Function('DTEXT', z3.RealSort(), z3.StringSort())(x)])
    return L.itos(ctx, x)
def builtin_overflow(op):
    def h(L, ctx, e):
        a, b, o = A(ctx, e, 0), A(ctx, e, 1), ctx.deref(A(ctx, e, 2))
        x = iadd(a, b) if op == 'add' else isub(a, b) if op == 'sub' else zi(a) * zi(b)
        bits, sg = INTS[L.unwrap(strip_ref(o.ty)).name]
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg else (0, (1 << bits) - 1)
        if ctx.branch(Not(And(ile(lo, x), ile(x, hi)))): o.set(ctx.wrap(x, (bits, sg))); return True
        o.set(x); return False
    return h
for _o in ('add', 'sub', 'mul'): FREE['__builtin_%s_overflow' % _o] = builtin_overflow(_o)
@free('htobe64', 'be64toh', '__bswap_64', '__builtin_bswap64', '__uint64_identity_bswap')
def _(L, ctx, e):
    x = A(ctx, e, 0)
    if isinstance(x, int): return int.from_bytes((x % M64).to_bytes(8, 'little'), 'big')
    return L.bswap(ctx, x)
@free('memcpy', '__builtin_memcpy', 'memmove', 'std::memcpy')
def _(L, ctx, e):
    d, s, n = A(ctx, e, 0), A(ctx, e, 1), A(ctx, e, 2)
    b = L.ptr_range(ctx, s, n, 'memcpy source')
    L.set_range(ctx, d, b, n, 'memcpy')
    return d
@free('__builtin_expect')
def _(L, ctx, e): return A(ctx, e, 0)
@free('strlen')
def _(L, ctx, e): return L.as_str(ctx, A(ctx, e, 0)).len()
@free('tolower', 'std::tolower')
def _(L, ctx, e):
    x = A(ctx, e, 0)
    if isinstance(x, int): return x + 32 if 65 <= x <= 90 else x
    return z3.If(z3.And(x >= 65, x <= 90), x + 32, x)
@free('isspace', 'std::isspace')
def _(L, ctx, e):
    x = A(ctx, e, 0)
    return Ite(Or(ieq(x, 32), And(ile(9, x), ile(x, 13))), 1, 0)
@free('isdigit')
def _(L, ctx, e):
    x = A(ctx, e, 0)
    return Ite(And(ile(48, x), ile(x, 57)), 1, 0)
@free('std::make_pair', 'std::make_tuple')
def _(L, ctx, e):
    t = parse(e['t']); vs = [ctx.ev(a) for a in e['args']]
    vs = [L.as_str(ctx, v) if L.kind(a) == 'str' else v for v, a in zip(vs, t.args)]
    return Struct(t, dict(zip(L.pair_names(t), vs)))
@free('std::find')
def _(L, ctx, e):
    a, b, x = A(ctx, e, 0), A(ctx, e, 1), A(ctx, e, 2)
    v = a.clv.get()
    if v.items is not None:
        for i in range(len(v.items)):
            if ctx.branch(L.eq(ctx, v.items[i], x)): return Iter(a.clv, i, 'vec')
        return Iter(a.clv, len(v.items), 'vec')
    r = ctx.fint('find', 'unsigned long')
    X = L.pack(ctx, x, v.et); i = z3.Int(ctx.uniq('i!f'))
    ctx.assume(z3.And(r <= zi(v.n), z3.Implies(r < zi(v.n), z3.Select(v.arr, r) == X)))
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < r), z3.Select(v.arr, i) != X), patterns=[z3.Select(v.arr, i)]))
    return Iter(a.clv, r, 'vec')
@free('std::sort', 'std::stable_sort')
def _(L, ctx, e):
    a, b = A(ctx, e, 0), A(ctx, e, 1)
    v = a.clv.get()
    if len(e['args']) != 2: raise Unsupported('sort with comparator')
    if not (a.pos == 0 and simp(zi(b.pos) == zi(v.len())) is True): raise Unsupported('partial sort')
    if L.kind(v.et) != 'int': raise Unsupported('sort of non-integers')
    arr, n = L.vec_arr(ctx, v)
    nm = ctx.uniq('sorted')
    na = z3.Array(nm, z3.IntSort(), arr.range())
    p = z3.Array(nm + '.perm', z3.IntSort(), z3.IntSort()); q = z3.Array(nm + '.inv', z3.IntSort(), z3.IntSort())
    i, j = z3.Ints(nm + '!i ' + nm + '!j'); n_ = zi(n)
    rng = lambda x: z3.And(x >= 0, x < n_)
    ctx.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(z3.Select(p, i)), z3.Select(q, z3.Select(p, i)) == i, z3.Select(na, i) == z3.Select(arr, z3.Select(p, i)))), patterns=[z3.Select(na, i)]))
    ctx.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(z3.Select(q, i)), z3.Select(p, z3.Select(q, i)) == i, z3.Select(arr, i) == z3.Select(na, z3.Select(q, i)))), patterns=[z3.Select(arr, i)]))
    ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n_), z3.Select(na, i) <= z3.Select(na, j)), patterns=[z3.MultiPattern(z3.Select(na, i), z3.Select(na, j))]))
    ctx.ghost.setdefault('sorts', []).append((arr, na, n, p, q))
    a.clv.set(Vec(v.et, arr=na, n=n))
@free('std::this_thread::sleep_for', 'std::this_thread::yield', 'pthread_setname_np')
def _(L, ctx, e):
    for a in e['args']: ctx.ev(a)
    return 0 if e['t'] == 'int' else None
@free('std::get')
def _(L, ctx, e): raise Unsupported('std::get')
@free('rocksdb::Status::OK')
def _(L, ctx, e): return L.status(0)
@free('rocksdb::Status::NotFound')
def _(L, ctx, e): return L.status(1)
@free('rocksdb::Status::InvalidArgument')
def _(L, ctx, e): return L.status(4)
@free('rocksdb::Status::MergeInProgress', 'rocksdb::Status::Corruption', 'rocksdb::Status::IOError', 'rocksdb::Status::Incomplete')
def _(L, ctx, e): return L.status(5)
@meth('rocksdb::Status', 'ok')
def _(L, ctx, o, e): return ieq(o.get().f['code'], 0)
@meth('rocksdb::Status', 'IsNotFound')
def _(L, ctx, o, e): return ieq(o.get().f['code'], 1)
@meth('rocksdb::Status', 'IsInvalidArgument')
def _(L, ctx, o, e): return ieq(o.get().f['code'], 4)
@meth('rocksdb::Status', 'ToString')
def _(L, ctx, o, e): return ctx.fstr('status')
@meth('rocksdb::Status', 'operator=')
def _(L, ctx, o, e): o.set(A(ctx, e, 0)); return o
@meth('rocksdb::Status', 'operator==', 'operator!=')
def _(L, ctx, o, e):
    r = ieq(o.get().f['code'], A(ctx, e, 0).f['code'])
    return r if e['op'] == '==' else Not(r)

# ---------------------------------------------------------------- fallbacks
def generic(cls, n):
    return None
def generic_op(cls, o):
    if o == '=':
        def f(L, ctx, ol, e):
            v = ctx.ev(e['args'][0])
            ol.set(v); return ol
        return f
    return None

# ---------------------------------------------------------------- constructors
def construct_vals(L, ctx, t, args):
    kd = L.kind(t)
    if kd == 'str':
        if not args: return Str([])
        if len(args) == 1: return L.as_str(ctx, args[0])
        if len(args) == 2 and isinstance(args[0], Ptr): return L.ptr_range(ctx, args[0], args[1], 'string(ptr, len)')
        if len(args) == 2 and isinstance(args[0], Iter): return iter_range(L, ctx, args[0], args[1])
        if len(args) == 2 and isinstance(args[0], int) and isinstance(args[1], int): return Str([chr(args[1] & 255) * args[0]])
        if len(args) == 3 and isinstance(args[0], Str): return ssub(args[0], args[1], args[2])
        raise Unsupported('string constructor')
    if kd == 'vec':
        if not args: return L.default(ctx, t)
        if len(args) == 1 and isinstance(args[0], Vec):
            a = args[0]; return Vec(L.elem_of(t), a.items, a.arr, a.n)
        if len(args) == 2 and isinstance(args[0], Iter) and isinstance(args[1], Iter):
            v = args[0].clv.get()
            if args[0].pos == 0 and simp(zi(args[1].pos) == zi(v.len())) is True and isinstance(v, Vec):
                return Vec(L.elem_of(t), v.items, v.arr, v.n)
            if isinstance(v, Vec) and v.items is not None and isinstance(args[0].pos, int) and isinstance(args[1].pos, int):
                return Vec(L.elem_of(t), items=v.items[args[0].pos:args[1].pos])
        if len(args) == 1 and isinstance(args[0], (int, z3.ArithRef)):
            c = ctx.cell('v', t, L.default(ctx, t))
            METHOD[('std::vector', 'resize')](L, ctx, c, {'args': [{'k': 'pyval', 'v': args[0], 't': 'unsigned long'}]})
            return c.get()
        raise Unsupported('sequence constructor')
    if kd in ('map', 'set'):
        if not args: return L.default(ctx, t)
        if len(args) == 1 and isinstance(args[0], Map): return args[0]
        if isinstance(args[0], Vec) and args[0].items is not None:
            m = L.default(ctx, t)
            for x in args[0].items:
                if kd == 'map':
                    k = key(L, ctx, m, x.f['first'])
                    had = z3.Select(m.dom, k)
                    m2 = mput(L, ctx, m, k, L.pack(ctx, x.f['second'], m.vt))
                    m = m2
                else: m = mput(L, ctx, m, key(L, ctx, m, x), None)
            return m
        raise Unsupported('map constructor')
    if kd == 'pair':
        if not args: return L.default(ctx, t)
        if len(args) == 1 and isinstance(args[0], Struct): return Struct(t, dict(args[0].f))
        vs = [L.as_str(ctx, v) if L.kind(a) == 'str' else v for v, a in zip(args, t.args)]
        return Struct(t, dict(zip(L.pair_names(t), vs)))
    if kd == 'ptr':
        if not args: return Ptr(None, True)
        if isinstance(args[0], Ptr): return args[0]
        raise Unsupported('pointer constructor')
    if kd in ('int', 'bool', 'enum', 'real'):
        return args[0] if args else L.default(ctx, t)
    if kd == 'stream':
        if not args: return L.default(ctx, t)
        return Struct(t, {'buf': L.as_str(ctx, args[0])}) if isinstance(args[0], (Str, Ptr)) else L.default(ctx, t)
    if kd == 'status':
        return args[0] if args else L.status(0)
    return None

def construct(L, ctx, t, e):
    t = strip_ref(t)
    if t.kind != 'n':
        return NotImplemented
    n = t.name
    if n in LOCKS:
        ms = []
        held = True
        for a in e['args']:
            at = strip_ref(parse(a['t']))
            if at.kind == 'n' and at.name in MUTEXES: ms.append(L.lock_name(ctx.lv(a)))
            elif 'defer' in str(at): held = False
            elif at.kind == 'n' and at.name in LOCKS: return ctx.ev(a)
            else: ms.append(str(at))
        if held: ctx.locks += ms
        h = ctx.ghost.get('on_lock')
        if h and held: h(ctx, ms)
        return Struct(t, {'m': ms, 'held': held})
    if n in ('std::atomic', 'std::__atomic_base'):
        return ctx.ev(e['args'][0]) if e['args'] else L.uninit(ctx, t, 'atomic')
    if n in ('std::chrono::duration', 'std::chrono::time_point'):
        if not e['args']: return 0
        a = e['args'][0]
        if is_chrono(a['t']): return conv(L, ctx, ctx.ev(a), ratio(parse(a['t'])), ratio(t))
        return ctx.ev(a)
    kd = L.kind(t)
    if kd in ('str', 'vec', 'map', 'set', 'pair', 'ptr', 'stream', 'status', 'int', 'bool', 'enum', 'real'):
        args = e['args']
        # drop allocator / comparator arguments
        keep = []
        for a in args:
            at = strip_ref(parse(a['t']))
            if at.kind == 'n' and (at.name in ('std::allocator', 'std::less', 'std::hash', 'std::equal_to', 'std::default_delete') or at.name.startswith('std::_Ios_Openmode')): continue
            keep.append(a)
        if kd == 'ptr' and len(keep) == 1 and e['fn'].startswith('std::'):
            return ctx.ev(keep[0])
        if kd == 'str' and n == 'std::basic_string' and len(keep) == 2 and parse(keep[0]['t']).kind == 'n' and parse(keep[0]['t']).name in INTS:
            cnt, ch = ctx.ev(keep[0]), ctx.ev(keep[1])
            if isinstance(cnt, int) and isinstance(ch, int): return Str([chr(ch & 255) * cnt])
            if isinstance(ch, int):
                x = z3.String(ctx.uniq('fill')); ctx.assume(z3.Length(x) == zi(cnt)); return Str([x])
            raise Unsupported('string(n, c)')
        if kd == 'str' and len(keep) == 2 and L.kind(parse(keep[0]['t'])) == 'str':
            raise Unsupported('string(str, pos)')
        return construct_vals(L, ctx, t, [ctx.ev(a) for a in keep])
    if n.startswith('std::') or n.startswith('__gnu_cxx') or n.startswith('rocksdb::'):
        if e.get('copy') or e.get('move'): return ctx.ev(e['args'][0])
        if n in ITER or n.startswith('__gnu_cxx::__normal_iterator') or 'iterator' in n:
            return ctx.ev(e['args'][0]) if e['args'] else Iter(None, 0, 'vec')
        for a in e['args']:
            try: ctx.ev(a)
            except Unsupported: pass
        return Opaque(t, ctx.uniq(n))
    return NotImplemented
