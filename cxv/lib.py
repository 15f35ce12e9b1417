"""Models (assumed contracts) of the C++ standard library and of RocksDB, as used by the
functions under contract. Everything here is part of the trusted base and is listed in
DESIGN.md ("library contracts")."""
import sys
import z3
from .tys import *
from .values import *
from .engine import *

def simp0_(x): return z3.simplify(x) if is_sym(x) else x
LE64 = z3.Function('LE64', z3.IntSort(), z3.StringSort())
LE32 = z3.Function('LE32', z3.IntSort(), z3.StringSort())
INVBE = z3.Function('INVBE', z3.StringSort(), z3.IntSort())
INVLE = z3.Function('INVLE', z3.StringSort(), z3.IntSort())
INVLE32 = z3.Function('INVLE32', z3.StringSort(), z3.IntSort())
BSWAP = z3.Function('BSWAP64', z3.IntSort(), z3.IntSort())
LOWER = z3.Function('TOLOWER', z3.IntSort(), z3.IntSort())
FIXED_LEN['LE64'] = 8
FIXED_LEN['LE32'] = 4

SEQS = {'std::vector', 'std::deque', 'std::queue', 'std::list', 'std::array', 'std::initializer_list', 'std::__cxx11::list'}
ORDERED = {'std::map', 'std::set'}
MAPS = {'std::map', 'std::unordered_map'}
SETS = {'std::set', 'std::unordered_set'}
PTRS = {'std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::weak_ptr'}
STREAMS = {'std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_istringstream', 'std::basic_ostream', 'std::basic_iostream'}
LOCKS = {'std::scoped_lock', 'std::lock_guard', 'std::unique_lock', 'std::shared_lock'}
MUTEXES = {'std::mutex', 'std::shared_mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::shared_timed_mutex'}
PAIRS = {'std::pair', 'std::tuple'}
M64 = 1 << 64
VMAX = 1 << 63     # max_size() of any standard container of at least one byte per element is below 2^63

def base(t): return parse(t).name if isinstance(t, str) else t.name

def sname(s):
    return str(s).replace(' ', '_')

class Lib:
    def __init__(self, prog):
        self.prog = prog
        self._sorts = {}
        self.heap_types = []; self._heapf = {}
        self._dts = {}
        self.const_globals = set()
        self.str_types = set(STRINGS) | {'quarkdb::PinnedBuffer'} if False else set(STRINGS)
        self.opaque_types = set()
        self.ghost_recs = set()      # classes represented by ghost fields only
        self.abstract_str = set()   # classes whose contents are abstracted to a byte string (their own contract is proved elsewhere)
        self.extra_methods = {}   # (class base name, method) -> handler
        self.extra_free = {}
        self.extra_ctors = {}
        self.guards = None
        self.db_key_mode = 'string'
        self.elem_ranges = {}
    # ------------------------------------------------------------ axioms
    def axioms(self, V):
        return list(getattr(V, 'axioms', []))
    # ------------------------------------------------------------ type classification
    def kind(self, t):
        if isinstance(t, str): t = parse(t)
        t = strip_ref(t)
        if t.kind == 'ptr': return 'cstr' if t.sub.kind == 'n' and t.sub.name in ('char', 'unsigned char') else 'ptr'
        if t.kind == 'arr':
            return 'str' if t.sub.kind == 'n' and t.sub.name in ('char', 'unsigned char') else 'vec'
        if t.kind == 'fn': return 'fn'
        n = t.name
        if n == 'bool': return 'bool'
        if n in INTS: return 'int'
        if n in ('double', 'float', 'long double'): return 'real'
        if n in self.str_types or n in self.abstract_str: return 'str'
        if n in SEQS: return 'vec'
        if n in MAPS: return 'map'
        if n in SETS: return 'set'
        if n in PTRS: return 'ptr'
        if n in ('std::atomic', 'std::__atomic_base'): return self.kind(t.args[0])
        if n in ('std::chrono::duration', 'std::chrono::time_point'): return 'int'
        if n in ('std::future', 'std::promise'): return 'int'
        if n in STREAMS: return 'stream'
        if n in PAIRS: return 'pair'
        if str(t) in self.prog.enums: return 'enum'
        if n == 'rocksdb::Status': return 'status'
        if str(t) in self.prog.records and str(t) not in self.opaque_types: return 'rec'
        return 'opaque'
    def unwrap(self, t):
        t = strip_ref(t)
        while t.kind == 'n' and t.name in ('std::atomic', 'std::__atomic_base'): t = t.args[0]
        return t
    def elem_of(self, t):
        t = strip_ref(t)
        return t.sub if t.kind == 'arr' else t.args[0]
    def rec_fields(self, t):
        r = self.prog.records[str(t)]
        out = []
        for b in r['bases']:
            if b in self.prog.records: out += self.rec_fields(parse(b))
        return out + [(f['n'], parse(f['t'])) for f in r['fields']]
    # ------------------------------------------------------------ registered heap classes
    def heap_fields(self, t):
        k = str(t)
        if k not in self._heapf:
            out = []
            for n, ft in self.rec_fields(t):
                if ft.kind in ('ref', 'rref') or self.kind(self.unwrap(ft)) in ('opaque', 'fn'): continue
                try: self.sort(ft); out.append((n, ft))
                except Unsupported: pass
            self._heapf[k] = out
        return self._heapf[k]
    def heap_target(self, p):
        if p.uid is None or p.ty is None: return None
        t = strip_ref(p.ty); sub = t.sub if t.kind == 'ptr' else t.args[0] if t.args else None
        return strip_ref(sub) if sub is not None and str(strip_ref(sub)) in self.heap_types else None
    # ------------------------------------------------------------ sorts
    def sort(self, t):
        t = self.unwrap(t)
        k = str(t)
        if k in self._sorts: return self._sorts[k]
        kd = self.kind(t)
        if kd == 'bool': s = z3.BoolSort()
        elif kd in ('int', 'enum', 'opaque', 'ptr', 'fn', 'status'): s = z3.IntSort()
        elif kd == 'real': s = z3.RealSort()
        elif kd in ('str', 'cstr', 'stream'): s = z3.StringSort()
        elif kd == 'vec':
            es = self.sort(self.elem_of(t))
            d = z3.Datatype('Vec<%s>' % es)
            d.declare('mk_%s' % sname(es), ('arr_%s' % sname(es), z3.ArraySort(z3.IntSort(), es)), ('len_%s' % sname(es), z3.IntSort()))
            key = ('vec', str(es))
            if key not in self._dts: self._dts[key] = d.create()
            s = self._dts[key]
        elif kd in ('map', 'set'):
            ks = self.sort(t.args[0]); vs = self.sort(t.args[1]) if kd == 'map' else z3.BoolSort()
            key = ('map', str(ks), str(vs))
            if key not in self._dts:
                nm = 'Map<%s;%s>' % (ks, vs)
                d = z3.Datatype(nm)
                d.declare('mk_' + nm, ('dom_' + nm, z3.ArraySort(ks, z3.BoolSort())), ('val_' + nm, z3.ArraySort(ks, vs)), ('n_' + nm, z3.IntSort()))
                self._dts[key] = d.create()
            s = self._dts[key]
        elif kd == 'pair':
            key = ('pair', k)
            if key not in self._dts:
                d = z3.Datatype(k)
                d.declare('mk_' + k, *[('%s_%d' % (k, i), self.sort(a)) for i, a in enumerate(t.args)])
                self._dts[key] = d.create()
            s = self._dts[key]
        elif kd == 'rec':
            fs = self.rec_fields(t)
            d = z3.Datatype(k)
            d.declare('mk_' + k, *[('%s.%s' % (k, n), self.sort(ft)) for n, ft in fs])
            s = d.create()
        else: raise Unsupported('sort of %s' % k)
        self._sorts[k] = s
        return s
    def pack(self, ctx, v, t):
        t = self.unwrap(t)
        kd = self.kind(t)
        if kd == 'bool': return zb(v)
        if kd in ('int', 'enum'): return zi(ctx.toint(v))
        if kd == 'real': return v
        if kd == 'str': return S(v).term()
        if kd == 'vec':
            s = self.sort(t)
            if isinstance(v, Vec):
                arr, n = self.vec_arr(ctx, v, self.elem_of(t))
                return s.constructor(0)(arr, zi(n))
        if kd in ('map', 'set') and isinstance(v, Map):
            return self.sort(t).constructor(0)(v.dom, v.val, zi(v.n))
        if kd == 'pair':
            return self.sort(t).constructor(0)(*[self.pack(ctx, v.f[n], a) for n, a in zip(self.pair_names(t), t.args)])
        if kd == 'rec' and isinstance(v, Struct):
            return self.sort(t).constructor(0)(*[self.pack(ctx, ctx.get_field(v, n), ft) for n, ft in self.rec_fields(t)])
        if kd == 'ptr' and isinstance(v, Ptr):
            if v.uid is not None: return zi(v.uid)
            if v.null is True: return z3.IntVal(0)
        raise Unsupported('pack %s as %s' % (v, t))
    def pair_names(self, t):
        return ['first', 'second'] if t.name == 'std::pair' else ['_%d' % i for i in range(len(t.args))]
    def unpack(self, ctx, x, t):
        t = self.unwrap(t)
        kd = self.kind(t)
        if kd == 'bool': return conc(x)
        if kd in ('int', 'enum', 'real'): return conc(x)
        if kd == 'str': return Str([x])
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and kd not in ('bool', 'int', 'enum', 'real', 'str'):
            pass
        if kd == 'vec':
            s = self.sort(t)
            n = simp(s.accessor(0, 1)(x))
            if is_sym(n) and not z3.is_int_value(n) and not has_bound(n): self.note(ctx, n, [n >= 0, n < VMAX])
            return Vec(self.elem_of(t), arr=simp(s.accessor(0, 0)(x)), n=n)
        if kd in ('map', 'set'):
            s = self.sort(t)
            return Map(t.args[0], t.args[1] if kd == 'map' else None, simp(s.accessor(0, 0)(x)), simp(s.accessor(0, 1)(x)), simp(s.accessor(0, 2)(x)))
        if kd == 'pair':
            s = self.sort(t)
            return Struct(t, {n: self.unpack(ctx, simp0(s.accessor(0, i)(x)), a) for i, (n, a) in enumerate(zip(self.pair_names(t), t.args))})
        if kd == 'rec':
            s = self.sort(t)
            return Struct(t, {n: self.unpack(ctx, simp0(s.accessor(0, i)(x)), ft) for i, (n, ft) in enumerate(self.rec_fields(t))})
        if kd == 'ptr': return Ptr(None, simp(x == 0), uid=x, ty=t)
        return Opaque(t, str(x))
    # ------------------------------------------------------------ type invariants of packed terms (vector length >= 0, integer ranges)
    def wf(self, ctx, x, t, depth=0):
        """facts that hold of every value of the type (machine ranges, non-negative sizes)"""
        t = self.unwrap(t)
        kd = self.kind(t)
        out = []
        if kd == 'int' and t.kind == 'n' and t.name in INTS and t.name != 'bool':
            w, s = INTS[t.name]
            out.append(And(x >= (-(1 << (w-1)) if s else 0), x < (1 << (w-1 if s else w))))
        elif kd == 'str': out.append(z3.Length(x) < VMAX)
        elif kd == 'vec':
            n = self.sort(t).accessor(0, 1)(x); out.append(z3.And(n >= 0, n < VMAX))
        elif kd in ('map', 'set'):
            out.append(self.sort(t).accessor(0, 2)(x) >= 0)
        elif kd == 'rec' and depth < 3:
            s = self.sort(t)
            for i, (n, ft) in enumerate(self.rec_fields(t)): out += self.wf(ctx, s.accessor(0, i)(x), ft, depth + 1)
        elif kd == 'pair' and depth < 3:
            s = self.sort(t)
            for i, ft in enumerate(t.args): out += self.wf(ctx, s.accessor(0, i)(x), ft, depth + 1)
        return out
    # ------------------------------------------------------------ fresh / default
    def fresh(self, ctx, ty, name):
        if isinstance(ty, str): ty = parse(ty)
        if ty.kind in ('ref', 'rref'):
            return Ptr(ctx.cell(name, strip_ref(ty), self.fresh(ctx, strip_ref(ty), name)))
        t = self.unwrap(ty)
        kd = self.kind(t)
        if kd == 'bool': return z3.Bool(name)
        if kd == 'int':
            x = z3.Int(name)
            n = t.name if t.name in INTS else 'long'
            ctx.range(x, INTS[n])
            return x
        if kd == 'enum':
            x = z3.Int(name); en = self.prog.enums[str(t)]
            vals = sorted({int(v) for v in en['vals'].values()})
            if vals: ctx.assume(z3.Or([x == v for v in vals]))
            return x
        if kd == 'real': return z3.Real(name)
        if kd == 'str':
            if t.kind == 'arr':
                x = z3.String(name); ctx.assume(z3.Length(x) == int(t.name)); return Str([x])
            return Str([z3.String(name)])
        if kd == 'cstr':
            return Ptr(ctx.cell(name + '.buf', parse('char[]'), Str([z3.String(name + '.buf')])), False, 0, ty=t)
        if kd == 'vec':
            et = self.elem_of(t)
            if t.kind == 'arr': n = int(t.name)
            elif t.name == 'std::array': n = int(str(t.args[1]).rstrip('UL'))
            else:
                n = z3.Int(name + '.size'); ctx.assume(z3.And(n >= 0, n < VMAX))
            return Vec(et, arr=z3.Array(name + '.data', z3.IntSort(), self.sort(et)), n=n)
        if kd in ('map', 'set'):
            kt = t.args[0]; vt = t.args[1] if kd == 'map' else None
            ks = self.sort(kt)
            n = z3.Int(name + '.size')
            m = Map(kt, vt, z3.Array(name + '.dom', ks, z3.BoolSort()), z3.Array(name + '.val', ks, self.sort(vt) if vt else z3.BoolSort()), n)
            ctx.assume(self.map_wf(ctx, m))
            return m
        if kd == 'pair':
            return Struct(t, {n: self.fresh(ctx, a, '%s.%s' % (name, n)) for n, a in zip(self.pair_names(t), t.args)})
        if kd == 'rec':
            return Struct(t, {}, origin=name)
        if kd == 'status':
            return self.status(z3.Int(name))
        if kd == 'stream': return Struct(t, {'buf': Str([z3.String(name)])})
        if kd == 'ptr':
            sub = t.sub if t.kind == 'ptr' else t.args[0]
            if t.kind == 'n' or self.kind(sub) == 'rec':
                null = z3.Bool(name + '.null')
                try: v = self.fresh(ctx, sub, name + '.obj')
                except Unsupported: return Ptr(None, null, uid=z3.Int(name), ty=t)
                return Ptr(ctx.cell(name + '.obj', sub, v), null, uid=z3.Int(name), ty=t)
            if self.kind(sub) in ('int', 'bool', 'str', 'vec', 'enum'):
                return Ptr(ctx.cell(name + '.obj', sub, self.fresh(ctx, sub, name + '.obj')), z3.Bool(name + '.null'), uid=z3.Int(name), ty=t)
            return Ptr(None, z3.Bool(name + '.null'), uid=z3.Int(name), ty=t)
        return Opaque(t, name)
    def map_wf(self, ctx, m):
        ks = m.dom.sort().domain()
        k = z3.Const(ctx.uniq('k!wf'), ks)
        return [m.n >= 0, z3.ForAll([k], z3.Implies(z3.Select(m.dom, k), m.n >= 1), patterns=[z3.Select(m.dom, k)])]
    def default(self, ctx, ty):
        t = self.unwrap(strip_ref(ty) if not isinstance(ty, str) else parse(ty))
        kd = self.kind(t)
        if kd == 'bool': return False
        if kd in ('int', 'enum'): return 0
        if kd == 'real': return z3.RealVal(0)
        if kd == 'str':
            if t.kind == 'arr': return Str(['\0' * int(t.name)])
            return Str([])
        if kd == 'cstr': return Ptr(None, True)
        if kd == 'vec':
            if t.kind == 'arr' or t.name == 'std::array':
                n = int(t.name) if t.kind == 'arr' else int(str(t.args[1]).rstrip('UL'))
                return Vec(self.elem_of(t), items=[self.default(ctx, self.elem_of(t)) for _ in range(n)])
            return Vec(t.args[0], items=[])
        if kd in ('map', 'set'):
            kt = t.args[0]; vt = t.args[1] if kd == 'map' else None
            ks = self.sort(kt); vs = self.sort(vt) if vt else z3.BoolSort()
            return Map(kt, vt, z3.K(ks, z3.BoolVal(False)), z3.Array('empty.%s' % vs, ks, vs), 0)
        if kd == 'pair': return Struct(t, {n: self.default(ctx, a) for n, a in zip(self.pair_names(t), t.args)})
        if kd == 'stream': return Struct(t, {'buf': Str([])})
        if kd == 'ptr': return Ptr(None, True)
        if kd == 'status': return self.status(0)
        if kd == 'rec': return self.default_record(ctx, t)
        return Opaque(t, 'default')
    def default_record(self, ctx, t):
        """aggregate / implicit default constructor: in-class initialisers, class-type members default-constructed, scalars left uninitialised"""
        # user-provided default constructor?
        q = t.name.split('::')[-1]
        for f in self.prog.methods_of(str(t)):
            if f['kind'] == 'ctor' and not f['params'] and not f.get('implicit'):
                obj = ctx.cell('obj:' + q, t, Struct(t, {}, origin=ctx.uniq('$uninit')))
                ctx.invoke(f, obj, [])
                return obj.get()
        r = self.prog.records[str(t)]
        d = {}
        for b in r['bases']:
            if b in self.prog.records:
                d.update(self.default_record(ctx, parse(b)).f)
        for f in r['fields']:
            ft = parse(f['t'])
            if 'init' in f: 
                ctx.frames.append({'vars': {}, 'this': None, 'fn': None, 'scopes': []})
                try:
                    v = ctx.init_value(ft, f['init'], f['n'])
                finally: ctx.frames.pop()
                d[f['n']] = v.get() if isinstance(v, LV) and not is_ref(ft) else v
            else: d[f['n']] = self.uninit(ctx, ft, f['n'])
        return Struct(t, d)
    def uninit(self, ctx, ty, name):
        t = self.unwrap(ty)
        kd = self.kind(t)
        if kd in ('bool', 'int', 'real', 'enum') and not (t.kind == 'n' and t.name in ('std::chrono::duration', 'std::chrono::time_point')):
            if kd == 'enum':
                x = z3.Int(ctx.uniq('uninit.' + name)); return x
            return self.fresh(ctx, t, ctx.uniq('uninit.' + name))
        if t.kind == 'arr' or (t.kind == 'n' and t.name == 'std::array'): return self.fresh(ctx, t, ctx.uniq('uninit.' + name))
        if t.kind == 'ptr': return Ptr(None, z3.Bool(ctx.uniq('uninit.null')), uid=z3.Int(ctx.uniq('uninit.ptr')), ty=t)
        return self.default(ctx, t)
    def havoc_like(self, ctx, v, ty, name):
        if isinstance(v, Struct) and isinstance(v.f.get('m'), list) and 'held' in v.f: return v     # a lock: held as before (checked at the end of each round)
        if ty is None:
            if isinstance(v, Str): return ctx.fstr(name)
            if isinstance(v, (bool, z3.BoolRef)): return ctx.fbool(name)
            if isinstance(v, (int, z3.ArithRef)): return z3.Int(ctx.uniq(name))
            if isinstance(v, z3.ArrayRef): return z3.Const(ctx.uniq(name), v.sort())
            raise Unsupported('havoc of untyped %r' % (v,))
        if isinstance(v, Ptr):
            if v.lv is not None and (self.kind(ty) == 'cstr' or isinstance(v.off, z3.ExprRef) or v.off != 0):
                return Ptr(v.lv, v.null, z3.Int(ctx.uniq(name + '.off')), v.uid, v.ty)
            raise Unsupported('havoc of pointer')
        if isinstance(v, Iter):
            return Iter(v.clv, z3.Int(ctx.uniq(name + '.pos')), v.kind, v.end, v.extra)
        if isinstance(v, Struct) and v.ty is not None and (self.kind(v.ty) not in ('rec', 'pair', 'status') or v.ty.name in self.ghost_recs):
            return Struct(v.ty, {k: self.havoc_like(ctx, x, None, name + '.' + k) for k, x in v.f.items()})
        return self.fresh(ctx, ty, ctx.uniq(name))
    def field_ty(self, ctx, t, name):
        t = strip_ref(t)
        if t.kind == 'n' and t.name == 'std::pair': return t.args[0] if name == 'first' else t.args[1]
        if t.kind == 'n' and t.name == 'std::tuple': return t.args[int(name[1:])]
        return None
    # ------------------------------------------------------------ status
    def status(self, code): return Struct(parse('rocksdb::Status'), {'code': code})
    # ------------------------------------------------------------ elements
    def elem_ty(self, ctx, v, t):
        if isinstance(v, Str): return parse('char')
        if isinstance(v, Vec): return v.et
        if isinstance(v, Map): return v.vt
        return None
    def is_bytes_lv(self, ctx, l): return isinstance(l.get(), Str)
    def is_buf(self, ctx, p):
        if p.lv is None: return False
        if p.ty is not None:
            try: return self.kind(p.ty) == 'cstr' and isinstance(p.lv.get(), Str)
            except Unsupported: return False
        return False
    def schar(self, ctx, c):
        if isinstance(c, int): return c - 256 if c >= 128 else c
        return c
    def elem_get(self, ctx, v, i):
        if isinstance(v, Str):
            # index at size() is the terminating NUL of std::string; bounds are checked where the index is formed
            c = sat(v, i)
            if isinstance(c, int): return c - 256 if c >= 128 else c
            ctx.assume(z3.And(c >= 0, c <= 255)) if not ctx.nofork else None
            return z3.If(c >= 128, c - 256, c)
        if isinstance(v, Vec):
            if v.items is not None:
                i = simp(i) if is_sym(i) else i
                if isinstance(i, int):
                    if 0 <= i < len(v.items): return v.items[i]
                    raise PathEnd()
                arr, n = self.vec_arr(ctx, v)
                return self.unpack(ctx, z3.Select(arr, zi(i)), v.et)
            x = simp0(z3.Select(v.arr, zi(i)))
            key = ('wf', x.get_id())
            if key not in ctx.memo and not ctx.in_spec:
                ctx.memo[key] = True; ctx.memo.setdefault('keep', []).append(x)
                if not has_bound(x):
                    for w in self.wf(ctx, x, v.et): ctx.assume(w)
            return self.unpack(ctx, x, v.et)
        if isinstance(v, Map):
            k = i if isinstance(i, z3.ExprRef) else self.pack(ctx, i, v.kt)
            x = simp0(z3.Select(v.val, k))
            if v.vt is not None and not has_bound(x):
                for w in self.wf(ctx, x, v.vt): ctx.assume(w)
            return self.unpack(ctx, x, v.vt)
        raise Unsupported('element of %r' % (v,))
    def elem_set(self, ctx, v, i, x):
        if isinstance(v, Str):
            x = ctx.toint(x)
            code = byte_of(x)
            return self.splice(ctx, v, i, 1, schr(code))
        if isinstance(v, Vec):
            i = simp(i) if is_sym(i) else i
            if v.items is not None and isinstance(i, int):
                if not 0 <= i < len(v.items): raise PathEnd()
                it = list(v.items); it[i] = x
                return Vec(v.et, items=it)
            arr, n = self.vec_arr(ctx, v)
            return Vec(v.et, arr=z3.Store(arr, zi(i), self.pack(ctx, x, v.et)), n=n)
        if isinstance(v, Map):
            k = i if isinstance(i, z3.ExprRef) else self.pack(ctx, i, v.kt)
            return Map(v.kt, v.vt, v.dom, z3.Store(v.val, k, self.pack(ctx, x, v.vt)), v.n)
        raise Unsupported('element write on %r' % (v,))
    def splice(self, ctx, s, off, n, new):
        """s with [off,off+n) replaced by new (same length)"""
        s = S(s)
        l = s.len()
        a = ssub(s, 0, off)
        rest = iadd(off, n)
        b = ssub(s, rest, simp(zi(isub(l, rest))))
        return Str([a, new, b])
    def vec_arr(self, ctx, v, et=None):
        if v.items is None: return v.arr, v.n
        et = v.et or et
        es = self.sort(et)
        a = z3.K(z3.IntSort(), self.dflt_term(es)) if False else z3.Array('emptyvec.%s' % es, z3.IntSort(), es)
        for i, x in enumerate(v.items): a = z3.Store(a, i, self.pack(ctx, x, et))
        return a, len(v.items)
    # ------------------------------------------------------------ equality
    def eq(self, ctx, a, b, ty=None):
        if isinstance(a, Str) or isinstance(b, Str): return seq_(S(a), S(b))
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)): return Iff(a, b)
        if isinstance(a, (int, z3.ArithRef)) and isinstance(b, (int, z3.ArithRef)): return ieq(a, b)
        if isinstance(a, Struct) and isinstance(b, Struct):
            names = list(self.pair_names(a.ty)) if a.ty.name in PAIRS else [n for n, _ in self.rec_fields(a.ty)] if self.kind(a.ty) == 'rec' else list(a.f)
            return And(*[self.eq(ctx, ctx.get_field(a, n), ctx.get_field(b, n)) for n in names])
        if isinstance(a, Vec) and isinstance(b, Vec):
            if a.items is not None and b.items is not None:
                if len(a.items) != len(b.items): return False
                return And(*[self.eq(ctx, x, y) for x, y in zip(a.items, b.items)])
            if a.items is not None or b.items is not None:
                c, s = (a, b) if a.items is not None else (b, a)
                return And(ieq(s.n, len(c.items)), *[self.eq(ctx, self.elem_get(ctx, s, i), x) for i, x in enumerate(c.items)])
            if a.arr.eq(b.arr): return ieq(a.n, b.n)
            i = z3.Int(ctx.uniq('i!eq'))
            return And(ieq(a.n, b.n), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(a.n)), z3.Select(a.arr, i) == z3.Select(b.arr, i))))
        if isinstance(a, Map) and isinstance(b, Map):
            k = z3.Const(ctx.uniq('k!eq'), a.dom.sort().domain())
            e = [a.dom == b.dom]
            if a.vt is not None:
                e.append(z3.ForAll([k], z3.Implies(z3.Select(a.dom, k), z3.Select(a.val, k) == z3.Select(b.val, k))))
            return And(*e)
        if isinstance(a, Ptr) and isinstance(b, Ptr): return ctx.ptr_eq(a, b)
        if isinstance(a, Iter) and isinstance(b, Iter): return self.iter_eq(ctx, a, b)
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a == b
        raise Unsupported('equality of %r and %r' % (a, b))
    # ------------------------------------------------------------ logging
    def log_root(self, e):
        while e is not None and e.get('k') == 'opcall' and e.get('op') == '<<': e = e['args'][0]
        return e is not None and e.get('k') == 'ref' and e.get('q') in ('std::cerr', 'std::cout', 'std::clog')
    def is_log_expr(self, e):
        return e.get('k') == 'opcall' and e.get('op') == '<<' and self.log_root(e) and not has_assign(e)
    def is_log_block(self, s):
        if not s['s']: return False
        seen = False
        for x in s['s']:
            if x is None: return False
            if x['k'] == 'nop': continue
            if x['k'] == 'expr' and self.is_log_expr(x['e']): seen = True; continue
            if x['k'] == 'decl' and all(v.get('init') and v['init'].get('k') == 'ctor' and v['init']['args'] and v['init']['args'][0].get('q', '').endswith('logMutex') for v in x['v']): continue
            return False
        return seen
    def logs_itself(self, ctx, s):
        # a function called while the message of a log block is built, which (transitively, as far as bodies are loaded) logs
        V = ctx.V
        if not hasattr(V, '_logs'): V._logs = {}
        def calls(n):
            if isinstance(n, dict):
                if n.get('k') in ('call', 'mcall', 'opcall') and 'fn' in n and 'pt' in n: yield sig(n['fn'], n['pt'], n.get('cm'))
                for v in n.values(): yield from calls(v)
            elif isinstance(n, list):
                for v in n: yield from calls(v)
        def has_log(n):
            if isinstance(n, dict):
                if n.get('k') == 'block' and self.is_log_block(n): return any('logMutex' in str(x.get('v')) for x in n['s'] if x)
                return any(has_log(v) for v in n.values())
            return isinstance(n, list) and any(has_log(v) for v in n)
        def logs(g):
            if g in V._logs: return V._logs[g]
            V._logs[g] = False; f = ctx.prog.fns.get(g)
            b = f.get('body') if f else None
            V._logs[g] = r = b is not None and (has_log(b) or any(logs(h) for h in calls(b)))
            return r
        if not any('logMutex' in str(x.get('v')) for x in s['s'] if x): return None
        for g in calls(s):
            if logs(g): return g.split('(')[0].split('::')[-1]
        return None
    # ------------------------------------------------------------ locks
    def lock_name(self, lv): return str(lv)
    def scope_enter(self, ctx, l): pass
    def scope_exit(self, ctx, l):
        v = l.c.v if isinstance(l, CellLV) else None
        if isinstance(v, Struct) and v.ty is not None and v.ty.kind == 'n' and ctx.V.registry.mod:
            n = str(v.ty.name); d = ctx.V.registry.mod.get('%s::~%s' % (n, n.split('::')[-1]))
            x = sys.exc_info()[1]
            if d is not None and (x is None or type(x).__name__ in ('_Return', '_Break', '_Continue', '_Goto', 'CppThrow')): d(ctx, l, x if type(x).__name__ == 'CppThrow' else None, None)
        if isinstance(v, Struct) and v.ty is not None and v.ty.kind == 'n' and v.ty.name in LOCKS:
            for m in v.f['m']:
                if m in ctx.locks and v.f.get('held', True) is True: ctx.locks.remove(m)
    def on_access(self, ctx, b, name):
        g = ctx.ghost.get('guard')
        if g is not None: g(ctx, b, name)
    # ------------------------------------------------------------ pointers into buffers
    def ptr_index(self, ctx, p, i):
        i = iadd(p.off, i)
        v = p.lv.get()
        self.bounds(ctx, v, i)
        return ElemLV(p.lv, i)
    def bounds(self, ctx, v, i, what='index'):
        if isinstance(v, (Str, Vec)):
            n = v.len()
            g = And(ile(0, i), ilt(i, n))
            if g is not True: ctx.check(g, 'memory safety: %s within bounds @%s' % (what, ctx.where()), 'safety')
    def iter_deref(self, ctx, it):
        if it.kind == 'vec' or it.kind == 'str':
            v = it.clv.get()
            self.bounds(ctx, v, it.pos, 'iterator')
            return ElemLV(it.clv, it.pos)
        if it.kind == 'map':
            m = it.clv.get()
            ctx.check(self.iter_valid(ctx, it), 'no dereference of end() @%s' % ctx.where(), 'safety')
            k = self.iter_key(ctx, it)
            kv = self.unpack(ctx, k, m.kt)
            if m.vt is None: return ctx.cell('elem', m.kt, kv)
            return MapEntryLV(ctx, it.clv, k, kv)
        raise Unsupported('iterator deref')
    def iter_key(self, ctx, it):
        if it.extra[0] == 'key': return it.extra[1]
        return z3.Select(it.extra[1], zi(it.pos))
    def iter_valid(self, ctx, it):
        if it.extra[0] == 'key': return Not(it.end)
        return And(ile(0, it.pos), ilt(it.pos, it.extra[2]))
    def iter_eq(self, ctx, a, b):
        if a.kind in ('vec', 'str'): return ieq(a.pos, b.pos)
        # maps: comparison with end() only, or key equality
        if b.extra[0] == 'end': a, b = b, a
        if a.extra[0] == 'end':
            if b.extra[0] == 'end': return True
            if b.extra[0] == 'key': return b.end
            return ieq(b.pos, b.extra[2])
        if a.extra[0] == 'key' and b.extra[0] == 'key':
            return Or(And(a.end, b.end), And(Not(a.end), Not(b.end), a.extra[1] == b.extra[1]))
        if a.extra[0] == 'enum' and b.extra[0] == 'enum' and a.extra[1].eq(b.extra[1]): return ieq(a.pos, b.pos)
        raise Unsupported('map iterator comparison')
    def map_begin(self, ctx, clv):
        m = clv.get()
        # begin() of the same map state yields the same enumeration
        key = ('enum', m.dom.get_id())
        if key in ctx.memo: enum = ctx.memo[key]
        else:
            ks = m.dom.sort().domain()
            nm = ctx.uniq('enum')
            enum = z3.Array(nm, z3.IntSort(), ks); inv = z3.Array(nm + '.inv', ks, z3.IntSort())
            i = z3.Int(nm + '!i'); k = z3.Const(nm + '!k', ks)
            n = zi(m.n)
            ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(m.dom, z3.Select(enum, i)), z3.Select(inv, z3.Select(enum, i)) == i)), patterns=[z3.Select(enum, i)]))
            ctx.assume(z3.ForAll([k], z3.Implies(z3.Select(m.dom, k), z3.And(z3.Select(inv, k) >= 0, z3.Select(inv, k) < n, z3.Select(enum, z3.Select(inv, k)) == k)), patterns=[z3.Select(m.dom, k)]))
            if ks == z3.IntSort():
                j = z3.Int(nm + '!j')
                ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Select(enum, i) < z3.Select(enum, j)), patterns=[z3.MultiPattern(z3.Select(enum, i), z3.Select(enum, j))]))
            ctx.memo[key] = enum
            ctx.memo.setdefault('keep', []).append(m.dom)
        return Iter(clv, 0, 'map', extra=('enum', enum, m.n))
    # ------------------------------------------------------------ integers <-> bytes
    def to_u64(self, ctx, x):
        if isinstance(x, int): return x % M64
        u = ctx.as_unsigned(x)
        if u is not None: return u
        if ctx.entails(x >= 0): return x
        return z3.If(x < 0, x + M64, x)
    def be64(self, ctx, u):
        u = zi(u)
        t = BE64(u)
        self.note(ctx, t, [INVBE(t) == u, z3.Length(t) == 8])
        return t
    def be64_dec(self, ctx, b):
        """the number an eight-byte big-endian text stands for"""
        b = S(b)
        if len(b.parts) == 1 and is_sym(b.parts[0]) and z3.is_app(b.parts[0]) and b.parts[0].decl().name() == 'BE64': return b.parts[0].arg(0)
        v = INVBE(b.term()); self.note(ctx, v, [v >= 0, v < M64]); return v
    def note(self, ctx, t, facts):
        key = ('note', t.get_id())
        if key in ctx.memo: return
        ctx.memo[key] = True; ctx.memo.setdefault('keep', []).append(t)
        for f in facts: ctx.assume(f)
    def int_bytes(self, ctx, x, ty):
        """object representation (little endian) of an integer lvalue"""
        t = self.unwrap(ty)
        w, s = INTS[t.name]
        if isinstance(x, z3.ExprRef) and z3.is_app(x) and x.decl().name() == 'BSWAP64': return Str([self.be64(ctx, x.arg(0))])
        if w == 8:
            c = ctx.toint(x)
            return schr(byte_of(c))
        if w == 64:
            x = self.to_u64(ctx, x) if s else x
            c = simp0_(zi(x))
            if z3.is_int_value(c): return Str([self.be64(ctx, int.from_bytes((c.as_long() % M64).to_bytes(8, 'little'), 'big'))])      # the same bytes, written the other way round
            t = LE64(zi(x)); self.note(ctx, t, [INVLE(t) == zi(x), z3.Length(t) == 8]); return Str([t])
        if w == 32:
            if s: x = z3.If(zi(x) < 0, zi(x) + (1 << 32), zi(x))
            t = LE32(zi(x)); self.note(ctx, t, [INVLE32(t) == zi(x), z3.Length(t) == 4]); return Str([t])
        raise Unsupported('bytes of %s' % ty)
    def bytes_int(self, ctx, b, ty):
        t = self.unwrap(ty); w, s = INTS[t.name]
        if len(b.parts) == 1 and is_sym(b.parts[0]) and z3.is_app(b.parts[0]):
            p = b.parts[0]; n = p.decl().name()
            if n == 'BE64' and w == 64: return BSWAP(p.arg(0))
            if n == 'LE64' and w == 64 or n == 'LE32' and w == 32: return ctx.as_signed(p.arg(0), w) if s else p.arg(0)
        if w == 64:
            x = INVLE(b.term()); self.note(ctx, x, [x >= 0, x < M64])
            return ctx.as_signed(x, 64) if s else x
        if w == 32:
            x = INVLE32(b.term()); self.note(ctx, x, [x >= 0, x < (1 << 32)])
            return ctx.as_signed(x, 32) if s else x
        if w == 8:
            return sat(b, 0)
        raise Unsupported('integer from bytes %s' % ty)
    def bswap(self, ctx, x):
        if is_sym(x) and z3.is_app(x):
            if x.decl().name() == 'BSWAP64': return x.arg(0)
            if x.decl().name() == 'INVLE':
                v = INVBE(x.arg(0)); self.note(ctx, v, [v >= 0, v < M64]); return v
            u = ctx.as_unsigned(x)
            if u is not None and u.get_id() != x.get_id(): return self.bswap(ctx, u)
        u = self.to_u64(ctx, x)
        return BSWAP(zi(u))
    # ------------------------------------------------------------ strings
    def itos(self, ctx, x):
        x = ctx.toint(x)
        if isinstance(x, int): return Str([str(x)])
        x = simp0(x)
        f = z3.Function('DEC', z3.IntSort(), z3.StringSort())
        t = f(x)
        inv = z3.Function('INVDEC', z3.StringSort(), z3.IntSort())
        small = [z3.Implies(x == c, t == z3.StringVal(str(c))) for c in range(10)] if 'If(' in str(x) else []
        self.note(ctx, t, [inv(t) == x, z3.Length(t) >= 1, z3.Length(t) <= 20] + small)
        return Str([t])
    def as_str(self, ctx, v):
        """contents of a std::string / string_view / Slice / const char* value"""
        if isinstance(v, LV): v = v.get()
        if isinstance(v, Str): return v
        if isinstance(v, Ptr):
            if v.lv is None: raise Unsupported('C string from opaque pointer')
            s = v.lv.get()
            if not isinstance(s, Str): raise Unsupported('C string from %r' % (s,))
            if isinstance(v.lv.ty, Ty) and v.lv.ty.kind == 'arr' and s.lit() is not None:
                l = s.lit()[v.off:] if isinstance(v.off, int) else None
                if l is not None:
                    return Str([l.split('\0')[0]])
            if v.off == 0 and s.lit() is not None: return Str([s.lit().split('\0')[0]])
            r = ssub(s, v.off, isub(s.len(), v.off)) if v.off != 0 else s
            # strlen semantics: stops at the first NUL
            t = r.term()
            i = z3.IndexOf(t, z3.StringVal('\0'), 0)
            if ctx.entails(i == -1): return r
            return Str([z3.If(i < 0, t, z3.SubString(t, 0, i))])
        if isinstance(v, Struct) and 'buf' in v.f: return v.f['buf']
        raise Unsupported('string expected, got %r' % (v,))
    def ptr_range(self, ctx, p, n, what):
        if isinstance(p, Str): return ssub(p, 0, n)
        if isinstance(p, Iter): p = Ptr(p.clv, False, p.pos)
        if p.lv is None: 
            if isinstance(n, int) and n == 0: return Str([])
            if p.null is True:
                ctx.check(ieq(n, 0), 'memory safety: %s reads from null @%s' % (what, ctx.where()), 'safety')
                return Str([])
            raise Unsupported('range of opaque pointer')
        v = p.lv.get()
        if not isinstance(v, Str):
            t = self.unwrap(p.lv.ty)
            if t.kind == 'n' and t.name in INTS:
                if not (isinstance(n, int) and n * 8 == INTS[t.name][0]): raise Unsupported('partial object representation')
                return self.int_bytes(ctx, v, t)
            raise Unsupported('byte range of %r' % (v,))
        g = And(ile(0, p.off), ile(0, n), ile(iadd(p.off, n), v.len()))
        if g is not True: ctx.check(g, 'memory safety: %s stays within the buffer @%s' % (what, ctx.where()), 'safety')
        return ssub(v, p.off, n)
    def set_range(self, ctx, p, new, n, what):
        if isinstance(p, Iter): p = Ptr(p.clv, False, p.pos)
        if p.lv is None: raise Unsupported('write through opaque pointer')
        v = p.lv.get()
        if not isinstance(v, Str):
            t = self.unwrap(p.lv.ty)
            if t.kind == 'n' and t.name in INTS:
                if not (isinstance(n, int) and n * 8 == INTS[t.name][0]): raise Unsupported('partial object representation')
                p.lv.set(self.bytes_int(ctx, new, t)); return
            raise Unsupported('byte write to %r' % (v,))
        g = And(ile(0, p.off), ile(0, n), ile(iadd(p.off, n), v.len()))
        if g is not True: ctx.check(g, 'memory safety: %s writes within the buffer @%s' % (what, ctx.where()), 'safety')
        p.lv.set(self.splice(ctx, v, p.off, n, new))
    # ------------------------------------------------------------ float
    def float_cast(self, ctx, ck, v, e):
        if ck == 'IntegralToFloating': return z3.ToReal(zi(ctx.toint(v))) if is_sym(v) else z3.RealVal(int(v))
        if ck == 'FloatingCast': return v
        if ck == 'FloatingToBoolean': return v != 0
        raise Unsupported(ck)
    def float_op(self, ctx, op, a, b):
        def r(x): return z3.ToReal(zi(x)) if not (isinstance(x, z3.ArithRef) and x.is_real()) else x
        a, b = r(a), r(b)
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '<': lambda: a < b, '>': lambda: a > b,
                '<=': lambda: a <= b, '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b}[op]()
    def global_value(self, ctx, q, e): return None
    def discard(self, ctx, e):
        if e.get('lv') : ctx.lv(e)
        else: ctx.ev(e)
    def char_array(self, ctx, ty, v):
        n = int(ty.name) if ty.name else None
        l = v.lit()
        if n is not None and l is not None: return Str([l + '\0' * (n - len(l))])
        return v
    def new_array(self, ctx, t, n, e):
        if t.kind == 'n' and t.name in ('char', 'unsigned char'):
            x = z3.String(ctx.uniq('new[]'))
            ctx.assume(z3.Length(x) == zi(n))
            return Ptr(ctx.cell('heap', parse('char[]'), Str([x])), False, 0, uid=z3.Int(ctx.uniq('heap.id')), ty=parse('char *'))
        v = Vec(t, arr=z3.Array(ctx.uniq('new[]'), z3.IntSort(), self.sort(t)), n=n)
        return Ptr(ctx.cell('heap', parse('char[]'), v), False, 0, ty=Ty('ptr', sub=t))
    def delete(self, ctx, p):
        h = ctx.ghost.get('on_delete')
        if h: h(ctx, p)
    # ------------------------------------------------------------ initialisers
    def init_list(self, ctx, t, e):
        t = strip_ref(t)
        kd = self.kind(t)
        if kd == 'vec':
            et = self.elem_of(t)
            items = [self.val(ctx.init_value(et, a, 'elem')) for a in e['args']]
            if t.kind == 'arr' and t.name and len(items) < int(t.name):
                items += [self.default(ctx, et) for _ in range(int(t.name) - len(items))]
            if t.kind == 'n' and t.name == 'std::array' and len(items) == 1 and isinstance(items[0], Vec): return items[0]
            return Vec(et, items=items)
        if kd == 'str' and t.kind == 'arr':
            items = [ctx.ev(a) for a in e['args']]
            if len(items) == 1 and isinstance(items[0], Str): return self.char_array(ctx, t, items[0])
            s = Str([])
            for x in items: s = s + (x if isinstance(x, Str) else schr(x & 255 if isinstance(x, int) else x))
            return s if not t.name else self.pad(s, int(t.name))
        if kd == 'rec':
            names = [n for n, _ in self.rec_fields(t)]
            d = {}
            r = self.prog.records[str(t)]
            for (n, ft), a in zip(self.rec_fields(t), e['args']):
                if a is None: continue
                v = ctx.init_value(ft, a, n)
                d[n] = Ptr(v) if is_ref(ft) else self.val(v)
            for f in r['fields']:
                if f['n'] not in d:
                    ft = parse(f['t'])
                    d[f['n']] = self.val(ctx.init_value(ft, f['init'], f['n'])) if 'init' in f else self.default(ctx, ft)
            return Struct(t, d)
        if len(e['args']) == 1: return ctx.ev(e['args'][0])
        if not e['args']: return self.default(ctx, t)
        raise Unsupported('initialiser list for %s' % t)
    def pad(self, s, n):
        l = s.len()
        return Str([s, '\0' * (n - l)]) if isinstance(l, int) and l < n else s
    def val(self, v): return v.get() if isinstance(v, LV) else v
    def bind_structured(self, ctx, l, bs):
        v = l.get()
        names = self.pair_names(v.ty) if v.ty.name in PAIRS else [n for n, _ in self.rec_fields(v.ty)]
        for b, n in zip(bs, names): ctx.frame()['vars'][b['id']] = FieldLV(l, n)
    # ------------------------------------------------------------ loops over containers
    def range_for(self, ctx, s, r):
        v = r.get()
        vs = s['v']
        ty = parse(vs['t'])
        frame = ctx.frame()
        def bind(elem_lv):
            if is_ref(ty): frame['vars'][vs['id']] = elem_lv
            else: frame['vars'][vs['id']] = ctx.cell(vs['n'], ty, elem_lv.get())
            if 'bindings' in vs: self.bind_structured(ctx, frame['vars'][vs['id']], vs['bindings'])
        if isinstance(v, Vec) and v.items is not None:
            for i in range(len(v.items)):
                bind(ElemLV(r, i))
                if not ctx.loop_body(s['body']): return
            return
        if isinstance(v, Struct) and not isinstance(v, Vec):
            raise Unsupported('range-for over %s' % v.ty)
        if isinstance(v, Map):
            it = self.map_begin(ctx, r)
            pos = ctx.cell('$pos', parse('unsigned long'), 0)
            frame['vars'][('$pos', id(s))] = pos
            n = v.n
            cond = lambda: ilt(pos.get(), n)
            def body_inc(): pos.set(iadd(pos.get(), 1))
            inner = {'k': 'pyblock', 'f': None, 'l': s['l']}
            def pre():
                k = z3.Select(it.extra[1], zi(pos.get()))
                kv = self.unpack(ctx, k, v.kt)
                bind(ctx.cell('elem', v.kt, kv) if v.vt is None else MapEntryLV(ctx, r, k, kv))
            ctx.loop(s, cond, {'k': 'seqbody', 'pre': pre, 'body': s['body'], 'l': s['l']}, body_inc)
            return
        pos = ctx.cell('$pos', parse('unsigned long'), 0)
        frame['vars'][('$pos', id(s))] = pos
        cond = lambda: ilt(pos.get(), r.get().len())
        ctx.ghost[('rfor', id(s))] = (pos, r)
        def pre(): bind(ElemLV(r, pos.get()))
        ctx.loop(s, cond, {'k': 'seqbody', 'pre': pre, 'body': s['body'], 'l': s['l']}, lambda: pos.set(iadd(pos.get(), 1)))
    # ------------------------------------------------------------ dispatch
    def free_fn(self, ctx, e):
        q = e['fn']
        h = self.extra_free.get(q)
        if h: return lambda e: h(self, ctx, e)
        from . import stdfns
        h = stdfns.FREE.get(q)
        if h: return lambda e: h(self, ctx, e)
        return None
    def method(self, ctx, obj, e):
        from . import stdfns
        cls = parse(e.get('mcls', '?')).name if e.get('mcls') else '?'
        h = self.extra_methods.get((cls, e['n']))
        if h: return lambda obj, e: h(self, ctx, obj, e)
        if cls in self.abstract_str: cls = 'std::basic_string'
        h = self.extra_methods.get((cls, e['n']))
        if h: return lambda obj, e: h(self, ctx, obj, e)
        h = stdfns.METHOD.get((cls, e['n'])) or (stdfns.METHOD.get((cls, 'operator conversion')) if e['n'].startswith('operator ') and e['n'] not in ('operator bool',) else None)
        if h is None and cls.startswith('std::') or cls.startswith('rocksdb::') and h is None:
            h = stdfns.generic(cls, e['n'])
        if h: return lambda obj, e: h(self, ctx, obj, e)
        return None
    def operator(self, ctx, e):
        from . import stdfns
        q = e['fn']
        h = self.extra_free.get(q)
        if h: return lambda e: h(self, ctx, e)
        if e.get('m'):
            cls = parse(e['mcls']).name
            if cls in self.abstract_str: cls = 'std::basic_string'
            h = stdfns.METHOD.get((cls, 'operator' + e['op']))
            if h is None and (cls.startswith('std::') or cls.startswith('__gnu_cxx') or cls.startswith('rocksdb::')): h = stdfns.generic_op(cls, e['op'])
            if h: return lambda e: h(self, ctx, ctx.lv(e['args'][0]), dict(e, args=e['args'][1:]))
            return None
        if q.startswith('std::') or q.startswith('__gnu_cxx') or q.startswith('rocksdb::') or (self.abstract_str and not e.get('m') and any(strip_ref(parse(p)).name in self.abstract_str for p in e.get('pt', []) if strip_ref(parse(p)).kind == 'n')):
            h = stdfns.FREEOP.get(e['op'])
            if h: return lambda e: h(self, ctx, e)
        return None
    def construct(self, ctx, t, e):
        from . import stdfns
        h = self.extra_ctors.get(t.name)
        if h:
            r = h(self, ctx, t, e)
            if r is not NotImplemented: return r
        return stdfns.construct(self, ctx, t, e)
    # find a constructor by argument values (make_shared / emplace_back)
    def construct_from(self, ctx, t, args, argtys=None):
        from . import stdfns
        t = self.unwrap(t)
        kd = self.kind(t)
        args = [a.get() if isinstance(a, LV) else a for a in args]
        if kd != 'rec':
            return stdfns.construct_vals(self, ctx, t, args)
        if len(args) == 1 and isinstance(args[0], Struct) and str(args[0].ty) == str(t): return args[0]
        best = None
        for f in self.prog.methods_of(str(t)):
            if f['kind'] != 'ctor' or f.get('copy') or f.get('move'): continue
            req = [p for p in f['params'] if 'init' not in p]
            if not (len(req) <= len(args) <= len(f['params'])): continue
            if all(self.compatible(a, parse(p['t'])) for a, p in zip(args, f['params'])): best = f; break
        if best is None:
            if not args: return self.default(ctx, t)
            raise Unsupported('no constructor of %s for %d args' % (t, len(args)))
        obj = ctx.cell('obj:%s' % t.name.split('::')[-1], t, Struct(t, {}, origin=ctx.uniq('$uninit')))
        s = best['sig']
        c = ctx.V.registry.modular_ctor(ctx, s, best['q'])
        if c is not None: c(ctx, obj, args, None); return obj.get()
        ctx.invoke(best, obj, [self.coerce(ctx, a, parse(p['t'])) for a, p in zip(args, best['params'])])
        return obj.get()
    def coerce(self, ctx, a, pt):
        if self.kind(pt) == 'str' and isinstance(a, Ptr): a = self.as_str(ctx, a)
        if is_ref(pt): return ctx.cell('tmp', strip_ref(pt), a)
        return a
    def compatible(self, a, pt):
        kd = self.kind(strip_ref(pt))
        if kd == 'str': return isinstance(a, Str) or (isinstance(a, Ptr) and isinstance(a.lv.get() if a.lv else None, Str))
        if kd in ('int', 'enum', 'bool', 'real'): return isinstance(a, (int, z3.ArithRef, z3.BoolRef, bool))
        if kd == 'rec': return isinstance(a, Struct) and str(a.ty) == str(self.unwrap(pt))
        if kd == 'vec': return isinstance(a, Vec)
        if kd in ('map', 'set'): return isinstance(a, Map)
        if kd in ('ptr', 'cstr'): return isinstance(a, Ptr)
        return not isinstance(a, (Str, int, bool, Vec, Map))

class MapEntryLV(LV):
    """pair<const K, V> inside a map"""
    __slots__ = ('ctx', 'm', 'k', 'kv')
    def __init__(self, ctx, m, k, kv): self.ctx, self.m, self.k, self.kv = ctx, m, k, kv
    @property
    def ty(self):
        v = self.m.get()
        return Ty('n', 'std::pair', (v.kt, v.vt))
    def get(self, snap=None):
        m = self.m.get(snap)
        return Struct(self.ty, {'first': self.kv, 'second': self.ctx.lib.elem_get(self.ctx, m, self.k)})
    def _set(self, v, path):
        self.m._set(self.ctx.lib.elem_set(self.ctx, self.m.get(), self.k, v.f['second']), path)
    def set(self, v): self._set(v, self.path())
    def root(self): return self.m.root()
    def path(self):
        p = self.m.path()
        return p if p and p[-1] == '*' else p + ('*',)
    def __repr__(self): return '%s[..]' % self.m

def simp0(x):
    return z3.simplify(x) if is_sym(x) else x

def has_bound(x, seen=None):
    """does the term contain a de Bruijn variable or a quantified placeholder constant"""
    st = [x]; seen = set()
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_var(t): return True
        if z3.is_app(t):
            if t.num_args() == 0 and t.decl().name().startswith('?'): return True
            st.extend(t.children())
    return False

def has_assign(n):
    if isinstance(n, dict):
        k = n.get('k')
        if k == 'casg' or k == 'bin' and n.get('op') == '=' or k == 'un' and n.get('op') in ('++', '--'): return True
        return any(has_assign(v) for v in n.values())
    if isinstance(n, list): return any(has_assign(v) for v in n)
    return False
