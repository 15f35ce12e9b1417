"""Contracts: what a function requires and ensures, how it is used at call sites, and the driver that
verifies one function body against its contract."""
import time, traceback
import z3
from .tys import *
from .values import *
from .engine import *
from .lib import Lib, has_bound
from . import stdfns

class View:
    """read access to the fields of an object in a given state: v.term, v['leader.hostname']"""
    def __init__(self, ctx, lv, snap=None):
        self.__dict__['_c'], self.__dict__['_l'], self.__dict__['_s'] = ctx, lv, snap
    def __getattr__(self, n):
        return view(self._c, FieldLV(self._l, n), self._s)
    def _get(self): return self._l.get(self._s)
    def _lv(self): return self._l

def view(ctx, lv, snap):
    v = lv.get(snap)
    if isinstance(v, Struct) and ctx.lib.kind(v.ty) == 'rec': return View(ctx, lv, snap)
    if isinstance(v, Ptr) and v.lv is not None and isinstance(v.lv.get(snap), Struct): return View(ctx, v.lv, snap)
    return v

def raw(x): return x._get() if isinstance(x, View) else x

class Scope:
    """state seen by a contract"""
    def __init__(self, ctx, this, args, pre):
        self.ctx, self.thislv, self.args, self.pre = ctx, this, args, pre
        self.post = None
        self.ret = None
        self.lib = ctx.lib
    def arg(self, i, snap=None):
        a = self.args[i]
        return view(self.ctx, a, self.pre if snap is None else snap) if isinstance(a, LV) else a
    def argv(self, i): return raw(self.arg(i))
    def argpost(self, i):
        a = self.args[i]
        return view(self.ctx, a, None) if isinstance(a, LV) else a
    @property
    def old(self): return View(self.ctx, self.thislv, self.pre)
    @property
    def new(self): return View(self.ctx, self.thislv, None)
    def eq(self, a, b): return self.lib.eq(self.ctx, raw(a), raw(b))

class Contract:
    """side-file contract of the function(s) named `fn` (qualified name; all overloads with matching arity)"""
    fn = None
    nparams = None
    sig_has = None            # substring that the signature must contain
    modular = False           # used instead of the body at call sites
    frame_fields = None       # fields of *this that may change when used modularly
    loop_invs = None
    opts = {}
    def setup(self, ctx, f):
        this = None
        if f['kind'] in ('method', 'ctor', 'conv', 'dtor') and not f.get('static'):
            cls = parse(f['cls'])
            this = ctx.cell('this', cls, Struct(cls, {}, origin='this' if f['kind'] != 'ctor' else None))
        return this, self.mkargs(ctx, f)
    def mkargs(self, ctx, f):
        args = []
        for i, p in enumerate(f['params']):
            pt = parse(p['t'])
            nm = 'arg%d' % i
            args.append(ctx.cell(nm, strip_ref(pt), ctx.lib.fresh(ctx, strip_ref(pt), nm)))
        return args
    def requires(self, s): return []
    def ensures(self, s): return []
    def on_throw(self, s, ty): return []      # obligations on the exceptional exit
    def may_throw(self, ty): return True
    def apply(self, ctx, f, obj, args, e): raise NotImplementedError

class Registry:
    def __init__(self):
        self.contracts = []
        self.mod = {}          # qualified name -> callable(ctx, obj, args, e)
        self.mod_ctor = {}
        self.invs = []         # extra candidate generators: f(lc) -> [(name, thunk)]
        self.current = None
        self.used = set()
    def modular(self, ctx, s, q, obj, args):
        h = self.mod.get(s) or self.mod.get(q)
        if h is None: return None
        if self.current is not None and (q == self.current['q'] and s == self.current['sig']) and q not in getattr(self, 'recursive', ()): return None      # a recursive call: by its contract (partial correctness)
        self.used.add(q)
        return h
    def modular_ctor(self, ctx, s, q):
        h = self.mod_ctor.get(s) or self.mod_ctor.get(q)
        if h is None: return None
        if self.current is not None and s == self.current['sig']: return None
        self.used.add(q)
        return h
    def loop_invariants(self, lc):
        out = generic_invariants(lc)
        try: out += cond_invariants(lc)
        except (KeyError, AttributeError, Unsupported): pass
        for g in self.invs:
            try: out += g(lc)
            except (KeyError, AttributeError, Unsupported): pass
        return out
    def loop_assumes(self, lc): return []

class Counter:
    """an integer local, or the position of an iterator / element pointer local"""
    def __init__(self, l, kind): self.l, self.kind = l, kind
    def get(self, snap=None):
        v = self.l.get(snap)
        return v if self.kind == 'int' else v.pos if self.kind == 'iter' else v.off
    def __str__(self): return str(self.l)
    @property
    def ty(self): return self.l.ty
    def seq(self):
        v = self.l.get()
        return v.clv if self.kind == 'iter' else v.lv

def counters(lc):
    out = [Counter(l, 'int') for l in lc.ints()]
    for l in lc.locals():
        v = l.get()
        if isinstance(v, Iter) and v.kind in ('vec', 'str') and v.clv is not None: out.append(Counter(l, 'iter'))
        elif isinstance(v, Ptr) and v.lv is not None and isinstance(v.lv.get(), (Str, Vec)): out.append(Counter(l, 'ptr'))
    return out

def cond_pairs(e, out):
    """comparisons in the loop condition: (operator, left expression, right expression)"""
    if e is None: return out
    if e['k'] == 'bin' and e['op'] in ('&&', '||'): cond_pairs(e['a'], out); cond_pairs(e['b'], out)
    elif e['k'] == 'bin' and e['op'] in ('<', '<=', '>', '>=', '!='): out.append((e['op'], e['a'], e['b']))
    elif e['k'] == 'opcall' and e['op'] in ('<', '<=', '>', '>=', '!=') and len(e['args']) == 2: out.append((e['op'], e['args'][0], e['args'][1]))
    elif e['k'] in ('paren', 'cast', 'cleanup') and isinstance(e.get('e'), dict): cond_pairs(e['e'], out)
    return out

def cond_invariants(lc):
    ctx = lc.ctx; out = []
    def pos(v):
        if isinstance(v, Iter) and v.kind in ('vec', 'str'): return v.pos
        if isinstance(v, Ptr): return v.off
        if isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool): return v
        raise Unsupported('no position')
    rf = ctx.ghost.get(('rfor', id(lc.s)))
    if rf is not None: out.append(('range loop position within the range', lambda: ile(rf[0].get(), rf[1].get().len())))
    for n, (op, a, b) in enumerate(cond_pairs(lc.s.get('c'), [])):
        def side(x): return lambda: pos(ctx.pure(lambda: ctx.ev(x)))
        sa, sb = side(a), side(b)
        out.append(('loop condition %d: left <= right' % n, lambda sa=sa, sb=sb: ile(sa(), sb())))
        out.append(('loop condition %d: right <= left' % n, lambda sa=sa, sb=sb: ile(sb(), sa())))
        if op in ('<=', '>='):
            out.append(('loop condition %d: left <= right + 1' % n, lambda sa=sa, sb=sb: ile(sa(), iadd(sb(), 1))))
            out.append(('loop condition %d: right <= left + 1' % n, lambda sa=sa, sb=sb: ile(sb(), iadd(sa(), 1))))
    return out

def generic_invariants(lc):
    """candidate clauses that do not depend on the names or the order of local variables"""
    ctx, L = lc.ctx, lc.ctx.lib
    out = []
    cs = counters(lc)
    mods = [c for c in cs if lc.modified(c.l)]
    fixed = [c for c in cs if not lc.modified(c.l)]
    seqs = []
    for l in lc.locals():
        v = l.get()
        if isinstance(v, (Vec, Str)) : seqs.append((str(l), l))
    th = lc.this()
    if th is not None and isinstance(th.get(), Struct):
        for n, v in list(th.get().f.items()):
            if isinstance(v, (Vec, Str)): seqs.append(('this.' + n, FieldLV(th, n)))
    known = [repr(l) for _, l in seqs]
    for c in cs:
        if c.kind != 'int' and repr(c.seq()) not in known: seqs.append((str(c.seq()), c.seq())); known.append(repr(c.seq()))
    for l in mods:
        n = str(l)
        en = l.get(lc.entry)
        out.append(('%s >= its entry value' % n, lambda l=l, en=en: ile(en, l.get())))
        out.append(('%s <= its entry value' % n, lambda l=l, en=en: ile(l.get(), en)))
        out.append(('%s >= 0' % n, lambda l=l: ile(0, l.get())))
        for sn, s in seqs:
            if l.kind != 'int' and repr(l.seq()) != repr(s): continue
            out.append(('%s <= size of %s' % (n, sn), lambda l=l, s=s: ile(l.get(), s.get().len())))
            out.append(('size of %s changes with %s' % (sn, n), lambda l=l, s=s, en=en: ieq(isub(s.get().len(), s.get(lc.entry).len()), isub(l.get(), en))))
        for m in fixed:
            if l.kind != m.kind and not (l.kind == 'int' and m.kind == 'int'): continue
            out.append(('%s <= max(%s, entry)' % (n, m), lambda l=l, m=m, en=en: Or(ile(l.get(), m.get()), ile(l.get(), en))))
            out.append(('%s >= min(%s, entry)' % (n, m), lambda l=l, m=m, en=en: Or(ile(m.get(), l.get()), ile(en, l.get()))))
        # linear scan for an element
        for sn, s in seqs:
            v = s.get()
            if not isinstance(v, Vec): continue
            if l.kind != 'int' and repr(l.seq()) != repr(s): continue
            for x in lc.locals():
                xv = x.get()
                try:
                    if x.ty is None or isinstance(xv, (Iter, Ptr)) or L.sort(x.ty) != L.sort(v.et) or lc.modified(x): continue
                except Unsupported: continue
                def scan(l=l, s=s, x=x, en=en):
                    vv = s.get(); arr, _ = L.vec_arr(ctx, vv)
                    k = z3.Int(ctx.uniq('?k'))
                    return z3.ForAll([k], z3.Implies(z3.And(zi(en) <= k, k < zi(l.get())), z3.Select(arr, k) != L.pack(ctx, x.get(), vv.et)))
                out.append(('%s not among the first %s elements of %s' % (x, n, sn), scan))
    for sn, s in seqs:
        out.append(('%s unchanged' % sn, lambda s=s: L.eq(ctx, s.get(), s.get(lc.entry))))
    return out

# ------------------------------------------------------------------ driver
class Result:
    def __init__(self, name): self.name = name; self.status = None; self.reason = ''; self.obls = {}; self.stats = {}; self.time = 0.0; self.bounded = False; self.fails = []; self.info = {}
    def ok(self): return self.status == 'proved'

def select(prog, c):
    r = [f for f in prog.byq.get(c.fn, [])]
    if c.nparams is not None: r = [f for f in r if len(f['params']) == c.nparams]
    if c.sig_has: r = [f for f in r if c.sig_has in f['sig']]
    r = [f for f in r if not f.get('implicit')]
    return r

def contradictory(facts):
    import subprocess
    sv = z3.Solver()
    for a in facts: sv.add(a)
    try: r = subprocess.run(['z3-new', '-smt2', '-in', '-T:1'], input=sv.to_smt2(), capture_output=True, text=True, timeout=3)
    except Exception: return False
    return r.stdout.startswith('unsat')

def verify(prog, lib, reg, c, f, unroll=None, opts=None):
    """verify the body of f against contract c"""
    res = Result('%s%s' % (f['q'].replace('quarkdb::', ''), ' [%s]' % c.variant if getattr(c, 'variant', None) else ''))
    o = dict(c.opts); o.update(opts or {})
    V = Verifier(prog, lib, c, reg, o)
    V.unroll = unroll
    reg.current = f
    reg.used = set()
    if hasattr(c, 'on_start'): c.on_start(V)
    saved_invs = reg.invs
    if c.loop_invs: reg.invs = reg.invs + [c.loop_invs]
    short = f['n'] if f['kind'] != 'ctor' else 'constructor'
    def entry(ctx):
        this, args = c.setup(ctx, f)
        s = Scope(ctx, this, args, None)
        s.f = f
        s.pre = ctx.snapshot()
        for r in c.requires(s):
            ctx.assume(r)
        if hasattr(c, 'prepare'): c.prepare(s)
        s.pre = ctx.snapshot()
        ctx.ghost['scope'] = s
        try:
            s.ret = ctx.invoke(f, this, list(args))
            if isinstance(s.ret, LV): s.retlv = s.ret; s.ret = view(ctx, s.ret, None)
        except CppThrow as x:
            V.thrown += 1
            for lab, g in c.on_throw(s, x.ty): ctx.check(g, '%s: %s' % (short, lab), 'exceptional')
            raise PathEnd()
        # vacuity guard: is the path condition contradictory once the quantified facts are counted?
        k = 'dead' if res.info.get('live', 0) + res.info.get('dead', 0) < 8 and contradictory(list(ctx.axioms) + list(ctx.pc)) else 'live'
        res.info[k] = res.info.get(k, 0) + 1
        if k == 'live': res.info.setdefault('live_ret', set()).add(str(s.ret) if s.ret is True or s.ret is False else 'other')
        for lab, g in c.ensures(s): ctx.check(g, '%s: %s' % (short, lab), 'ensures')
    t = time.time()
    try:
        V.run(entry)
        fails = [(o.label, fl) for o in V.obls.values() for fl in o.fails]
        refuted = [x for x in fails if x[1]['result'] == 'invalid']
        if refuted: res.status = 'refuted'; res.fails = refuted
        elif fails: res.status = 'unknown'; res.fails = fails; res.reason = 'solver gave no answer'
        elif (V.normal == 0 or not res.info.get('live')) and not getattr(c, 'never_returns', False): res.status = 'vacuous'; res.reason = 'no execution reaches a normal exit under the precondition'
        elif not V.obls: res.status = 'vacuous'; res.reason = 'no obligation generated'
        else: res.status = 'bounded' if V.bounded else 'proved'
    except Unsupported as x: res.status = 'unsupported'; res.reason = str(x)
    except Budget as x: res.status = 'budget'; res.reason = str(x)
    except z3.Z3Exception as x:
        res.status = 'unsupported'; res.reason = 'z3: ' + str(x)[:200]
        if o.get('debug'): traceback.print_exc()
    except RecursionError as x: res.status = 'unsupported'; res.reason = 'recursion'
    except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as x:
        res.status = 'unsupported'; res.reason = '%s: %s @ %s' % (type(x).__name__, x, traceback.format_exc().strip().split('\n')[-3:][0].strip() if True else '')
        if o.get('debug'): traceback.print_exc()
    finally:
        reg.invs = saved_invs
        reg.current = None
    if res.status in ('unsupported', 'budget') and any(fl['result'] == 'invalid' and not fl['loop'] for ob in V.obls.values() for fl in ob.fails):
        res.info['partial_refuted'] = True
    res.info['live_ret'] = sorted(res.info.get('live_ret', ()))
    res.time = time.time() - t
    res.obls = V.obls
    res.bounded = V.bounded
    res.stats = V.solver.stats
    res.info.update({'paths': V.paths, 'normal': V.normal, 'thrown': V.thrown, 'inlined': sorted(V.inlined - {f['sig']}), 'modular': sorted(reg.used), 'loops_cut': len(V.loops_cut), 'lines': [f['line'], f['endline']], 'file': f['file']})
    return res
