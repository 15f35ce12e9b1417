"""Forward symbolic execution / VC generation over the typed AST of the real code.

Each path of a function is executed in direct style; `branch` decides by a
prefix of decisions and alternatives are explored by re-execution. Loops are cut
at an inductive invariant (Houdini over candidate clauses), or unrolled up to a
stated bound when `unroll` is set (then the result is labelled bounded)."""
import time, z3
from .abstraction import Abs
from .tys import *
from .values import *

class CppThrow(Exception):
    def __init__(self, ty): self.ty = ty
class PathEnd(Exception): pass
class Unsupported(Exception): pass
class Restart(Exception): pass
class _Return(Exception):
    def __init__(self, v): self.v = v
class _Break(Exception): pass
class _Continue(Exception): pass
class _Goto(Exception): pass
class NeedFork(Exception): pass
class Budget(Exception): pass

# ------------------------------------------------------------------ program
class Program:
    def __init__(self):
        self.fns = {}       # signature -> function
        self.byq = {}       # qualified name -> [function]
        self.records = {}
        self.enums = {}
        self.globals_ = {}  # (qualified name) -> node
        self.files = set()
        self.impls = {}
    def add(self, d, tu):
        off = tu * 1000000
        def fix(n):
            if isinstance(n, dict):
                if 'id' in n and isinstance(n['id'], int): n['id'] += off
                for v in n.values(): fix(v)
            elif isinstance(n, list):
                for v in n: fix(v)
        if off: fix(d)
        for f in d['functions']:
            self.files.add(f['file'])
            s = sig(f['q'], [p['t'] for p in f['params']], f.get('const'))
            f['sig'] = s
            if s not in self.fns:
                self.fns[s] = f
                self.byq.setdefault(f['q'], []).append(f)
        for k, r in d['records'].items(): self.records.setdefault(k, r)
        for k, r in d['enums'].items(): self.enums.setdefault(k, r)
        for g in d['globals']:
            o = self.globals_.get(g['q'])
            if o is None or ('init' in g and 'init' not in o): self.globals_[g['q']] = g
    def find(self, q, nparams=None, const=None):
        r = self.byq.get(q, [])
        if nparams is not None: r = [f for f in r if len(f['params']) == nparams]
        return r
    def methods_of(self, cls):
        return [f for f in self.fns.values() if f.get('cls') == cls]
    def bases(self, cls):
        r = self.records.get(cls)
        out = []
        if r:
            for b in r['bases']:
                out.append(b); out += self.bases(b)
        return out

def sig(q, pts, const):
    return "%s(%s)%s" % (q, ", ".join(pts), " const" if const else "")

# ------------------------------------------------------------------ lvalues
class Cell:
    __slots__ = ('name', 'ty', 'v', 'seq')
    def __init__(self, name, ty, v, seq): self.name, self.ty, self.v, self.seq = name, ty, v, seq
    def __repr__(self): return 'Cell(%s)' % self.name

class LV:
    def deref(self, name): return FieldLV(self, name)

class CellLV(LV):
    __slots__ = ('c', 'ctx')
    def __init__(self, ctx, c): self.ctx, self.c = ctx, c
    @property
    def ty(self): return self.c.ty
    def get(self, snap=None):
        if snap is not None: return snap.get(self.c, self.c.v)
        return self.c.v
    def set(self, v):
        self.ctx.log_write(self.c, ())
        self.c.v = v
    def _set(self, v, path):
        self.ctx.log_write(self.c, path)
        self.c.v = v
    def root(self): return self.c
    def path(self): return ()
    def __repr__(self): return self.c.name

class FieldLV(LV):
    __slots__ = ('b', 'name', 'ctx')
    def __init__(self, b, name): self.b, self.name, self.ctx = b, name, b.ctx
    @property
    def ty(self): return self.ctx.field_ty(self.b.ty, self.name)
    def get(self, snap=None):
        s = self.b.get(snap)
        return self.ctx.get_field(s, self.name, self.b, snap)
    def set(self, v): self._set(v, self.path())
    def _set(self, v, path):
        s = self.b.get()
        if not isinstance(s, Struct): raise Unsupported('field write on %r' % (s,))
        self.b._set(s.with_(self.name, v), path)
    def root(self): return self.b.root()
    def path(self):
        p = self.b.path()
        return p if p and p[-1] == '*' else p + (self.name,)
    def __repr__(self): return '%s.%s' % (self.b, self.name)

class ElemLV(LV):
    """element of a Vec/Map/array/string at a (symbolic) index or key"""
    __slots__ = ('b', 'i', 'ctx')
    def __init__(self, b, i): self.b, self.i, self.ctx = b, i, b.ctx
    @property
    def ty(self): return self.ctx.lib.elem_ty(self.ctx, self.b.get(), self.b.ty)
    def get(self, snap=None): return self.ctx.lib.elem_get(self.ctx, self.b.get(snap), self.i)
    def set(self, v): self._set(v, self.path())
    def _set(self, v, path): self.b._set(self.ctx.lib.elem_set(self.ctx, self.b.get(), self.i, v), path)
    def root(self): return self.b.root()
    def path(self):
        p = self.b.path()
        return p if p and p[-1] == '*' else p + ('*',)
    def __repr__(self): return '%s[%s]' % (self.b, self.i)

class HeapLV(LV):
    """object of a registered class on the heap: each of its fields is kept in an array indexed by the identity of the object"""
    __slots__ = ('ctx', 'uid', 'ty')
    def __init__(self, ctx, uid, ty): self.ctx, self.uid, self.ty = ctx, zi(uid), ty
    def get(self, snap=None):
        c = self.ctx; L = c.lib; f = {}
        for n, ft in L.heap_fields(self.ty): f[n] = L.unpack(c, simp(z3.Select(c.heap[(str(self.ty), n)].get(snap), self.uid)), ft)
        return Struct(self.ty, f, origin='heap')
    def set(self, v): self._set(v, ())
    def _set(self, v, path):
        c = self.ctx; L = c.lib
        for n, ft in L.heap_fields(self.ty):
            if path and path[0] != n or n not in v.f: continue
            h = c.heap[(str(self.ty), n)]; h.set(z3.Store(h.get(), self.uid, L.pack(c, v.f[n], ft)))
    def root(self):
        h = [x for (t, n), x in self.ctx.heap.items() if t == str(self.ty)]; return h[0].c if h else self.ctx.heap['top'].c
    def path(self): return ()
    def __repr__(self): return 'heap(%s)' % self.uid

def has_quant(x):
    st = [x]; seen = set()
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): return True
        st.extend(t.children())
    return False

# ------------------------------------------------------------------ results
class Obl:
    __slots__ = ('label', 'kind', 'n', 'proved', 'fails', 'time', 'backend')
    def __init__(self, label, kind): self.label, self.kind, self.n, self.proved, self.fails, self.time, self.backend = label, kind, 0, 0, [], 0.0, {}

class ArithFacts:
    """the arithmetic content of the facts of a path (weaker than the facts; see abstraction.py)"""
    def __init__(self): self.abs = Abs(); self.s = z3.SolverFor('QF_LIA') if False else z3.Solver(); self.pending = []
    def add(self, x): self.pending.append(x)
    def refutes(self, x, timeout):
        for p in self.pending: self.s.add(self.abs(p))
        self.pending = []
        g = self.abs(x)
        for d in self.abs.take(): self.s.add(d)
        self.s.set('timeout', timeout)
        self.s.push(); self.s.add(g)
        try: r = self.s.check()
        except z3.Z3Exception: r = z3.unknown
        self.s.pop()
        return r == z3.unsat

class Solver:
    """obligation solver: z3 first, cvc5 as second opinion on unknown"""
    def __init__(self, timeout=8000, alt_timeout=12): self.timeout, self.alt = timeout, alt_timeout; self.cache = {}; self.quant = {}; self.stats = {'z3': [0, 0.0], 'cvc5': [0, 0.0], 'simplifier': [0, 0.0]}
    def valid(self, pc, axioms, goal, absx=None, candidate=False):
        """returns ('valid'|'invalid'|'unknown', model or None, backend)"""
        if goal is True:
            self.stats['simplifier'][0] += 1
            return 'valid', None, 'simplifier'
        # the same question returns after a loop invariant candidate was dropped
        key = (tuple(a.get_id() for a in pc), tuple(a.get_id() for a in axioms), zb(goal).get_id(), candidate)
        if key in self.cache: return self.cache[key][0]
        r = self.solve(pc, axioms, goal, absx, candidate)
        self.cache[key] = (r, list(pc), list(axioms), zb(goal))
        return r
    def solve(self, pc, axioms, goal, absx, candidate):
        t = time.time()
        goals = goal if isinstance(goal, list) else [goal]
        s = z3.Solver(); s.set('timeout', min(2500, self.timeout) if candidate else self.timeout)
        for a in axioms: s.add(a)
        for p in pc: s.add(p)
        s.add(z3.Not(zb(goal)))
        if absx is not None and absx.refutes(z3.Not(zb(goal)), 1500):
            self.stats['z3'][0] += 1; self.stats['z3'][1] += time.time() - t
            return 'valid', None, 'z3'
        if self.by_matching(list(axioms) + list(pc), zb(goal), 500):
            self.stats['z3'][0] += 1; self.stats['z3'][1] += time.time() - t
            return 'valid', None, 'z3'
        try: r = s.check()
        except z3.Z3Exception: r = z3.unknown
        dt = time.time() - t
        self.stats['z3'][1] += dt
        if r == z3.unsat:
            self.stats['z3'][0] += 1
            return 'valid', None, 'z3'
        if r == z3.sat:
            return 'invalid', s.model(), 'z3'
        r2 = self.cvc5(s, 3 if candidate else self.alt)
        if r2 == 'unsat':
            self.stats['cvc5'][0] += 1
            return 'valid', None, 'cvc5'
        if r2 == 'sat': return 'invalid', None, 'cvc5'
        return 'unknown', None, 'z3+cvc5'
    def by_matching(self, facts, goal, limit):
        """quantified facts used by matching their patterns only: quick where it works"""
        def quantified(x, d):
            k = (x.get_id(), d)
            if k not in self.quant: self.quant[k] = (z3.is_quantifier(x) or d > 0 and z3.is_bool(x) and any(quantified(c, d - 1) for c in x.children()), x)
            return self.quant[k][0]
        if not any(quantified(x, 3) for x in facts + [goal]): return False
        s = z3.SimpleSolver(); s.set('timeout', limit); s.set('smt.mbqi', False)
        for x in facts: s.add(x)
        s.add(z3.Not(goal))
        try: return s.check() == z3.unsat
        except z3.Z3Exception: return False
    def cvc5(self, s, limit):
        import subprocess, tempfile, os
        t = time.time()
        try:
            txt = "(set-logic ALL)\n" + s.to_smt2()
            r = subprocess.run(['cvc5', '--lang=smt2', '--strings-exp', '--tlimit=%d' % (limit * 1000)], input=txt, capture_output=True, text=True, timeout=limit + 5)
            out = r.stdout.strip().split('\n')[0] if r.stdout.strip() else ''
        except Exception:
            out = ''
        self.stats['cvc5'][1] += time.time() - t
        return out

# ------------------------------------------------------------------ verifier of one function
class Verifier:
    """explores all paths of one contract"""
    def __init__(self, prog, lib, contract, registry, opts=None):
        self.prog, self.lib, self.contract, self.registry = prog, lib, contract, registry
        self.opts = opts or {}
        self.solver = Solver(self.opts.get('timeout', 8000), self.opts.get('alt_timeout', 12))
        self.obls = {}
        self.dropped = set()
        self.loop_mods = {}
        self.quick_unknown = 0
        self.bounded = False
        self.loops_cut = set(); self.cut_always = set()
        self.paths = 0; self.normal = 0; self.thrown = 0; self.cut = 0
        self.inlined = set(); self.modular = set(); self.assumed = set(); self.covered = set()
        self.fn_lines = set()
        self.deadline = time.time() + self.opts.get('budget', 120)
        self.max_paths = self.opts.get('max_paths', 4000)
        self.unroll = self.opts.get('unroll')
    def run(self, entry):
        while True:
            self.obls = {}
            self.paths = self.normal = self.thrown = self.cut = 0
            try:
                self.explore(entry)
                return
            except Restart:
                if time.time() > self.deadline: raise Budget('time budget')
                continue
    def explore(self, entry):
        work = [[]]
        while work:
            pre = work.pop()
            if self.paths > self.max_paths: raise Budget('path budget (%d)' % self.max_paths)
            if time.time() > self.deadline: raise Budget('time budget')
            c = Ctx(self, pre)
            try:
                entry(c)
                self.normal += 1
            except PathEnd:
                self.cut += 1
            self.paths += 1
            work.extend(c.alts)
            if self.opts.get('stop_on_fail') and any(o.fails for o in self.obls.values()): return

class Ctx:
    def __init__(self, V, prefix):
        self.V, self.prog, self.lib = V, V.prog, V.lib
        self.prefix, self.cursor, self.decisions, self.alts = prefix, 0, [], []
        self.pc = []
        self.feas = z3.Solver(); self.feas.set('timeout', 400)
        self.arith_facts = ArithFacts()
        self.counter = {}
        self.cellseq = 0
        self.cells = []
        self.frames = []
        self.writes = None      # stack of write logs
        self.wlogs = []
        self.nofork = 0
        self.mute = 0
        self.locks = []
        self.memo = {}
        self.trace = []
        self.events = []        # ghost event trace (library models append)
        self.ghost = {}
        self.axioms = list(V.lib.axioms(V))
        for a in self.axioms: self.feas.add(a)
        self.inloop = 0
        self.depth = 0
        self.gcells = {}
        self.in_spec = 0
        self.inv_goal = False
        self.heap = {}
        if V.lib.heap_types:
            self.heap['top'] = self.cell('heap.top', None, z3.Int('heap.top')); self.pc.append(self.heap['top'].get() >= 0); self.feas.add(self.heap['top'].get() >= 0)
            for t in V.lib.heap_types:
                for n, ft in V.lib.heap_fields(parse(t)): self.heap[(t, n)] = self.cell('heap.%s.%s' % (t, n), None, z3.Array('heap.%s.%s' % (t, n), z3.IntSort(), V.lib.sort(ft)))
        self.label_prefix = ''
        self.checked_entry = False
    # ---- naming
    def uniq(self, base):
        # symbols: always carry a '#n' suffix, so that they never coincide with the lazily named fields of arguments and objects
        n = self.counter.get(base, 0); self.counter[base] = n + 1
        return '%s#%d' % (base, n)
    def cellname(self, base):
        n = self.counter.get(('cell', base), 0); self.counter[('cell', base)] = n + 1
        return base if n == 0 else '%s!%d' % (base, n)
    def cell(self, name, ty, v):
        self.cellseq += 1
        c = Cell(self.cellname(name), ty, v, self.cellseq)
        self.cells.append(c)
        return CellLV(self, c)
    def snapshot(self): return {c: c.v for c in self.cells}
    def log_write(self, c, path):
        for (marker, key, log) in self.wlogs:
            if c.seq <= marker: log.add((c.name, path))
    # ---- logic
    def assume(self, x):
        if isinstance(x, (list, tuple)):
            for y in x: self.assume(y)
            return
        x = simp(x) if not isinstance(x, bool) else x
        if x is True: return
        if x is False:
            self.pc.append(z3.BoolVal(False)); self.feas.add(z3.BoolVal(False)); raise PathEnd()
        self.pc.append(x)
        if not has_quant(x): self.feas.add(x); self.arith_facts.add(x)
    def feasible(self, x):
        if self.arith_facts.refutes(x, 400): return False
        u = self.V.quick_unknown
        self.feas.set('timeout', 400 if u < 8 else 120 if u < 40 else 40)
        self.feas.push(); self.feas.add(x)
        try: r = self.feas.check()
        except z3.Z3Exception: r = z3.unknown      # resource limit of the quick solver: keep the branch
        if r == z3.unknown: self.V.quick_unknown += 1
        self.feas.pop()
        return r != z3.unsat
    def entails(self, x):
        """cheap entailment used to keep terms small (never to discharge obligations)"""
        x = simp(x)
        if isinstance(x, bool): return x
        key = (len(self.pc), x.get_id())
        if key in self.memo: return self.memo[key]
        r = not self.feasible(z3.Not(x))
        self.memo[key] = r
        self.memo.setdefault('keep', []).append(x)
        return r
    def branch(self, cond):
        cond = simp(cond)
        if isinstance(cond, int) and not isinstance(cond, bool): cond = cond != 0
        if isinstance(cond, bool): return cond
        if isinstance(cond, z3.ArithRef): cond = simp(cond != 0)
        if isinstance(cond, bool): return cond
        if self.nofork: raise NeedFork()
        if self.cursor < len(self.prefix):
            d = self.prefix[self.cursor]; self.cursor += 1
        else:
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond)) if t else True
            if t and f:
                self.alts.append(self.decisions + [False]); d = True
            else: d = t
            self.cursor += 1
            self.checked_entry = True
        self.decisions.append(d)
        self.assume(cond if d else z3.Not(cond))
        return d
    @property
    def replaying(self): return self.cursor < len(self.prefix)
    def pure(self, thunk):
        """value of an expression without forking, effects or obligations (for building candidate clauses only)"""
        snap = self.snapshot(); nc = len(self.cells); cnt = dict(self.counter)
        logs = [set(l[2]) for l in self.wlogs]; locks = list(self.locks); ev = list(self.events)
        self.nofork += 1; self.mute += 1
        try: return thunk()
        except (NeedFork, CppThrow, PathEnd): raise Unsupported('not pure')
        finally:
            self.nofork -= 1; self.mute -= 1
            for c, v in snap.items(): c.v = v
            for l, o in zip(self.wlogs, logs): l[2].clear(); l[2].update(o)
            self.locks = locks; self.events = ev
    def check(self, goal, label, kind='ensures'):
        """proof obligation"""
        if self.mute: return True
        if isinstance(goal, (list, tuple)): goal = And(*goal)
        goal = simp(goal)
        o = self.V.obls.get(label)
        if o is None: o = self.V.obls[label] = Obl(label, kind)
        if self.replaying:
            if goal is not True: self.assume(goal) if goal is not False else None
            return True
        o.n += 1
        t = time.time()
        r, m, be = self.V.solver.valid(self.pc, self.axioms, goal, self.arith_facts)
        o.time += time.time() - t
        if r == 'valid':
            o.proved += 1
            o.backend[be] = o.backend.get(be, 0) + 1
            return True
        if r == 'unknown' and self.V.opts.get('debug'): print('UNKNOWN', label)
        o.fails.append({'result': r, 'model': self.model_str(m) if m is not None else None, 'goal': str(goal)[:600], 'loop': bool(self.V.loops_cut and self.inloop_seen), 'trace': self.trace[-60:], 'values': self.model_vals(m) if m is not None else {}, 'pc': [str(p)[:200] for p in self.pc[-12:]] if self.V.opts.get('debug') else None})
        if goal is False: raise PathEnd()
        self.assume(goal)
        return False
    @property
    def inloop_seen(self): return self.ghost.get('$loopcut', False)
    def model_str(self, m):
        out = []
        for d in m.decls():
            if d.arity() == 0:
                out.append('%s = %s' % (d.name(), str(m[d])[:160]))
        return sorted(out)[:80]
    def model_vals(self, m):
        r = {'ints': set(), 'strs': set()}
        for d in m.decls():
            if d.arity() != 0: continue
            v = m[d]
            try:
                if isinstance(v, z3.IntNumRef): r['ints'].add(v.as_long())
                elif z3.is_string_value(v): r['strs'].add(zunlit(v))
            except Exception: pass
        return {'ints': sorted(r['ints'])[:40], 'strs': sorted(r['strs'])[:40]}
    # ---- fresh values
    def fint(self, name, ty='long'):
        name = self.uniq(name)
        x = z3.Int(name)
        w = INTS.get(ty)
        if w: self.range(x, w)
        return x
    def range(self, x, w):
        width, signed = w
        if signed: self.assume(z3.And(x >= -(1 << (width-1)), x < (1 << (width-1))))
        else: self.assume(z3.And(x >= 0, x < (1 << width)))
    def fbool(self, name): return z3.Bool(self.uniq(name))
    def fstr(self, name): return Str([z3.String(self.uniq(name))])
    def fresh(self, ty, name, uniq=True):
        if isinstance(ty, str): ty = parse(ty)
        if uniq: name = self.uniq(name)
        return self.lib.fresh(self, ty, name)
    # ---- fields
    def field_ty(self, sty, name):
        sty = strip_ref(sty)
        f = self.lib.field_ty(self, sty, name)
        if f is not None: return f
        r = self.prog.records.get(str(sty))
        if r:
            for fl in r['fields']:
                if fl['n'] == name: return parse(fl['t'])
            for b in r['bases']:
                t = self.field_ty(parse(b), name)
                if t is not None: return t
        return None
    def get_field(self, s, name, blv=None, snap=None):
        if isinstance(s, Struct):
            if name in s.f: return s.f[name]
            if s.origin is not None and s.origin.startswith('$uninit'):
                key = ('field', s.origin, name)
                if key not in self.memo: self.memo[key] = self.lib.uninit(self, self.field_ty(s.ty, name), name)
                return self.memo[key]
            if s.origin is not None:
                ft = self.field_ty(s.ty, name)
                if ft is None: raise Unsupported('no field %s in %s' % (name, s.ty))
                key = ('field', s.origin, name)
                if key not in self.memo:
                    self.memo[key] = self.lib.fresh(self, ft, '%s.%s' % (s.origin, name))
                return self.memo[key]
            raise Unsupported('uninitialised field %s of %s' % (name, s.ty))
        raise Unsupported('field %s of %r' % (name, s))
    def materialize(self, s):
        r = self.prog.records.get(str(s.ty))
        d = dict(s.f)
        if r:
            for fl in r['fields']:
                if fl['n'] not in d: d[fl['n']] = self.get_field(s, fl['n'])
        return Struct(s.ty, d, s.origin)
    def lvalue_of(self, v, ty=None, name='tmp'):
        if isinstance(v, LV): return v
        return self.cell(name, ty, v)
    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        """rvalue"""
        if e.get('lv'):
            return self.lv(e).get()
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expression %s %s at line %s' % (k, e.get('c'), e.get('l')))
        r = m(e)
        if isinstance(r, LV): r = r.get()
        return r
    def lv(self, e):
        k = e['k']
        m = getattr(self, 'l_' + k, None)
        if m is not None:
            r = m(e)
            return r if isinstance(r, LV) else self.cell('tmp', parse(e['t']), r)
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('lvalue %s %s at line %s' % (k, e.get('c'), e.get('l')))
        r = m(e)
        if isinstance(r, LV): return r
        return self.cell('tmp', parse(e['t']), r)
    def frame(self): return self.frames[-1]
    def e_int(self, e):
        v = int(e['v'])
        if e['t'] == 'bool': return v != 0
        return v
    def e_bool(self, e): return bool(e['v'])
    def e_float(self, e): return z3.RealVal(e['v'])
    def e_str(self, e): return Str([e['v']])
    def l_str(self, e): return self.cell('lit', parse(e['t']), Str([e['v']]))
    def e_null(self, e): return Ptr(None, True)
    def e_this(self, e):
        return Ptr(self.frame()['this'])
    def l_ref(self, e):
        fr = self.frame()
        if e['id'] in fr['vars']:
            return fr['vars'][e['id']]
        if e.get('g'):
            return self.global_lv(e)
        raise Unsupported('unbound variable %s' % e['n'])
    e_ref = l_ref
    l_binding = l_ref
    e_binding = l_ref
    def global_lv(self, e):
        q = e['q']
        if q in self.gcells: return self.gcells[q]
        m = self.lib.global_value(self, q, e)
        g = self.prog.globals_.get(q)
        if m is not None:
            r = self.cell('g:' + q, parse(e['t']), m)
        elif g and 'init' in g and (g.get('const') or self.V.opts.get('init_globals', True) and g['t'].startswith('const') or q in self.lib.const_globals):
            self.frames.append({'vars': {}, 'this': None, 'fn': None, 'scopes': []})
            try: v = self.init_value(parse(g['t']), g['init'], 'g:' + q)
            finally: self.frames.pop()
            r = v if isinstance(v, LV) else self.cell('g:' + q, parse(g['t']), v)
        else:
            r = self.cell('g:' + q, parse(e['t']), self.fresh(strip_ref(parse(e['t'])), 'g:' + q))
        self.gcells[q] = r
        return r
    def e_fref(self, e): return FnRef(e)
    l_fref = None
    def base_lv(self, b, arrow):
        if arrow:
            p = self.ev(b)
            return self.deref(p, b.get('l'))
        return self.lv(b)
    def deref(self, p, line=None):
        if isinstance(p, Iter): return self.lib.iter_deref(self, p)
        if not isinstance(p, Ptr): raise Unsupported('deref of %r' % (p,))
        if p.null is not False:
            self.check(Not(p.null), 'no null dereference @%s' % self.where(line), 'safety')
        if p.lv is None:
            if p.null is True: raise PathEnd()
            h = self.lib.heap_target(p)
            if h is not None: return HeapLV(self, p.uid, h)
            raise Unsupported('deref of opaque pointer')
        if p.off != 0 or self.lib.is_buf(self, p):
            return ElemLV(p.lv, p.off)
        return p.lv
    def where(self, line=None):
        f = self.frame()['fn']
        return '%s' % (f['n'] if f else '?')
    def l_mem(self, e):
        b = self.base_lv(e['b'], e['arrow'])
        ft = self.field_ty(b.ty, e['n']) if b.ty is not None else None
        if b.ty is None:
            v = b.get()
            if isinstance(v, Struct): ft = self.field_ty(v.ty, e['n'])
        if ft is not None and is_ref(ft):
            v = FieldLV(b, e['n']).get()
            if isinstance(v, Ptr): return self.deref(v)
            if isinstance(v, LV): return v
            raise Unsupported('reference field %s' % e['n'])
        self.lib.on_access(self, b, e['n'])
        return FieldLV(b, e['n'])
    def e_mem(self, e): return self.l_mem(e).get()
    # ---- casts
    def e_cast(self, e):
        ck = e['ck']
        if ck == 'LValueToRValue': return self.lv(e['e']).get()
        if ck in ('ArrayToPointerDecay',):
            return Ptr(self.lv(e['e']), False, 0, ty=parse(e['t']))
        if ck == 'FunctionToPointerDecay': return self.ev(e['e'])
        if ck in ('IntegralCast',):
            return self.int_cast(self.ev(e['e']), e['e']['t'], e['t'])
        if ck == 'IntegralToBoolean':
            v = self.ev(e['e'])
            return Not(ieq(v, 0))
        if ck == 'PointerToBoolean':
            v = self.ev(e['e'])
            if isinstance(v, Ptr): return Not(v.null)
            return True
        if ck == 'NullToPointer': return Ptr(None, True)
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'BitCast', 'Dynamic', 'NullToMemberPointer'):
            return self.ev(e['e'])
        if ck == 'ToVoid': self.ev(e['e']); return None
        if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'FloatingToBoolean'):
            return self.lib.float_cast(self, ck, self.ev(e['e']), e)
        if ck == 'LValueBitCast' : return self.ev(e['e'])
        raise Unsupported('cast %s' % ck)
    def l_cast(self, e):
        ck = e['ck']
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'LValueBitCast'):
            return self.lv(e['e'])
        v = self.e_cast(e)
        return v if isinstance(v, LV) else self.cell('tmp', parse(e['t']), v)
    def int_cast(self, v, ft, tt):
        if tt == 'bool': return Not(ieq(v, 0))
        if isinstance(v, (bool, z3.BoolRef)) : return zi(v) if is_sym(v) else int(v)
        wi = INTS.get(tt) or self.enum_width(tt); wf = INTS.get(ft) or self.enum_width(ft)
        if wi is None: return v
        return self.wrap(v, wi, wf)
    def enum_width(self, t):
        en = self.prog.enums.get(t)
        return INTS.get(en['under']) if en else None
    def as_signed(self, u, w):
        """the signed reading of the unsigned value u of w bits; remembered, so that reading it back gives u"""
        r = z3.If(u >= (1 << (w-1)), u - (1 << w), u)
        for x in (r, simp(r)):
            if is_sym(x): self.memo[('uns', x.get_id())] = u; self.memo.setdefault('keep', []).append(x)
        return r
    def as_unsigned(self, x): return self.memo.get(('uns', x.get_id())) if is_sym(x) else None
    def wrap(self, v, wi, wf=None):
        w, s = wi
        lo, hi = (-(1 << (w-1)), (1 << (w-1)) - 1) if s else (0, (1 << w) - 1)
        if isinstance(v, int):
            r = v & ((1 << w) - 1)
            if s and r >= (1 << (w-1)): r -= 1 << w
            return r
        if not is_sym(v): return v
        if z3.is_app(v) and v.decl().name() in ('BSWAP64',): return v
        if wf is not None:
            fw, fs = wf
            flo, fhi = (-(1 << (fw-1)), (1 << (fw-1)) - 1) if fs else (0, (1 << fw) - 1)
            if lo <= flo and fhi <= hi: return v
            if self.entails(z3.And(v >= lo, v <= hi)): return v
            if fw == w:   # same width: only the sign interpretation changes
                if s: return self.as_signed(v, w)
                u = self.as_unsigned(v)
                if u is not None: return u
                return z3.If(v < 0, v + (1 << w), v)
        elif self.entails(z3.And(v >= lo, v <= hi)): return v
        if s:
            return ((v + (1 << (w-1))) % (1 << w)) - (1 << (w-1))
        return v % (1 << w)
    # ---- operators
    def arith(self, op, a, b, t, ta=None):
        if op == ',': return b
        if isinstance(a, Ptr) or isinstance(b, Ptr): return self.ptr_arith(op, a, b)
        if isinstance(a, Iter) or isinstance(b, Iter): return self.iter_arith(op, a, b)
        if isinstance(a, z3.ArithRef) and a.is_real() or isinstance(b, z3.ArithRef) and b.is_real() or isinstance(a, float) or isinstance(b, float):
            return self.lib.float_op(self, op, a, b)
        if isinstance(a, Struct) or isinstance(b, Struct): raise Unsupported('arith %s on struct' % op)
        if op in ('==', '!='):
            if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)): r = Iff(a, b)
            else: r = ieq(self.toint(a), self.toint(b))
            return r if op == '==' else Not(r)
        if op in ('&&', '||'): raise Unsupported('logical op in arith')
        a, b = self.toint(a), self.toint(b)
        if op == '<': return ilt(a, b)
        if op == '>': return ilt(b, a)
        if op == '<=': return ile(a, b)
        if op == '>=': return ile(b, a)
        w = INTS.get(t) or self.enum_width(t)
        if op == '+': r = iadd(a, b)
        elif op == '-': r = isub(a, b)
        elif op == '*': r = a * b if isinstance(a, int) and isinstance(b, int) else zi(a) * zi(b)
        elif op in ('/', '%'):
            self.check(Not(ieq(b, 0)), 'no division by zero @%s' % self.where(), 'safety')
            if isinstance(a, int) and isinstance(b, int):
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0): q = -q
                r = q if op == '/' else a - q * b
            else:
                A, B = zi(a), zi(b)
                if self.entails(z3.And(A >= 0, B > 0)): r = A / B if op == '/' else A % B
                elif isinstance(b, int) and b > 0:
                    q = z3.If(A >= 0, A / B, -((-A) / B)); r = q if op == '/' else A - q * B
                else: raise Unsupported('signed division')
        elif op in ('&', '|', '^', '<<', '>>'): r = self.bitop(op, a, b, w)
        else: raise Unsupported('operator %s' % op)
        if w and op in ('+', '-', '*', '<<'):
            if not w[1] or self.V.opts.get('overflow') == 'wrap': r = self.wrap(r, w)
            elif self.V.opts.get('overflow') == 'check' and is_sym(r):
                self.check(And(r >= -(1 << (w[0]-1)), r < (1 << (w[0]-1))), 'no signed overflow (%s) @%s' % (op, self.where()), 'safety')
        return simp(r) if isinstance(r, z3.ExprRef) and not is_sym(a) and not is_sym(b) else r
    def toint(self, a):
        if isinstance(a, bool): return int(a)
        if isinstance(a, z3.BoolRef): return zi(a)
        if isinstance(a, (int, z3.ArithRef)): return a
        raise Unsupported('integer expected, got %r' % (a,))
    def bitop(self, op, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return {'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b if b >= 0 else 0, '>>': a >> b if b >= 0 else 0}[op]
        if op == '<<' and isinstance(b, int): return zi(a) * (1 << b)
        if op == '>>' and isinstance(b, int): return zi(a) / (1 << b)
        if op == '&':
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int) and b >= 0 and (b & (b+1)) == 0: return zi(a) % (b + 1)
        width = w[0] if w else 64
        A, B = z3.Int2BV(zi(a), width), z3.Int2BV(zi(b), width)
        r = {'&': A & B, '|': A | B, '^': A ^ B, '<<': A << B, '>>': z3.LShR(A, B)}[op]
        return z3.BV2Int(r, is_signed=bool(w and w[1]))
    def iter_arith(self, op, a, b):
        if isinstance(a, Iter) and isinstance(b, Iter):
            if op in ('==', '!='):
                r = self.lib.iter_eq(self, a, b)
                return r if op == '==' else Not(r)
            if op == '-': return isub(a.pos, b.pos)
            if op in ('<', '>', '<=', '>='): return {'<': ilt(a.pos, b.pos), '>': ilt(b.pos, a.pos), '<=': ile(a.pos, b.pos), '>=': ile(b.pos, a.pos)}[op]
        if op in ('+', '-') and isinstance(a, Iter) and a.kind != 'map':
            return Iter(a.clv, iadd(a.pos, b) if op == '+' else isub(a.pos, b), a.kind, a.end, a.extra)
        raise Unsupported('iterator arithmetic ' + op)
    def ptr_arith(self, op, a, b):
        if op in ('==', '!='):
            if isinstance(a, Ptr) and isinstance(b, Ptr): r = self.ptr_eq(a, b)
            else: raise Unsupported('pointer compare')
            return r if op == '==' else Not(r)
        if op == '+':
            if isinstance(b, Ptr): a, b = b, a
            return Ptr(a.lv, a.null, iadd(a.off, b), a.uid, a.ty)
        if op == '-':
            if isinstance(b, Ptr): return isub(a.off, b.off)
            return Ptr(a.lv, a.null, isub(a.off, b), a.uid, a.ty)
        if op in ('<', '>', '<=', '>='):
            return {'<': ilt(a.off, b.off), '>': ilt(b.off, a.off), '<=': ile(a.off, b.off), '>=': ile(b.off, a.off)}[op]
        raise Unsupported('pointer op ' + op)
    def ptr_eq(self, a, b):
        if a.null is True: return b.null
        if b.null is True: return a.null
        if a.uid is not None and b.uid is not None: return ieq(a.uid, b.uid)
        if a.lv is not None and b.lv is not None:
            if a.lv is b.lv or (a.lv.root() is b.lv.root() and a.lv.path() == b.lv.path() and '*' not in a.lv.path()):
                return And(Not(a.null), Not(b.null), ieq(a.off, b.off)) if (a.null is not False or b.null is not False) else ieq(a.off, b.off)
            if a.lv.root() is not b.lv.root(): return And(a.null, b.null)
        raise Unsupported('pointer comparison')
    def truth(self, v):
        if isinstance(v, (bool, z3.BoolRef)): return v
        if isinstance(v, (int, z3.ArithRef)): return Not(ieq(v, 0))
        if isinstance(v, Ptr): return Not(v.null)
        raise Unsupported('truth of %r' % (v,))
    def e_bin(self, e):
        op = e['op']
        if op == '=':
            return self.l_bin(e)
        if op == '&&':
            if not self.branch(self.truth(self.ev(e['a']))): return False
            return self.truth(self.ev(e['b']))
        if op == '||':
            if self.branch(self.truth(self.ev(e['a']))): return True
            return self.truth(self.ev(e['b']))
        if op == ',':
            self.ev(e['a']); return self.ev(e['b'])
        return self.arith(op, self.ev(e['a']), self.ev(e['b']), e['t'])
    def l_bin(self, e):
        if e['op'] == '=':
            v = self.ev(e['b'])
            l = self.lv(e['a'])
            l.set(v)
            return l
        if e['op'] == ',':
            self.ev(e['a']); return self.lv(e['b'])
        return self.cell('tmp', parse(e['t']), self.e_bin(e))
    def l_casg(self, e):
        b = self.ev(e['b'])
        l = self.lv(e['a'])
        a = l.get()
        op = e['op'][:-1]
        if isinstance(a, Ptr): l.set(self.ptr_arith(op, a, b)); return l
        a2 = self.int_cast(a, e['a']['t'], e['ct']) if e['ct'] in INTS else a
        r = self.arith(op, a2, b, e['crt'])
        if e['crt'] != e['a']['t'] and e['a']['t'] in INTS: r = self.int_cast(r, e['crt'], e['a']['t'])
        l.set(r)
        return l
    e_casg = l_casg
    def l_un(self, e):
        op = e['op']
        if op == '*':
            p = self.ev(e['e'])
            return self.deref(p, e['l'])
        if op in ('++', '--'):
            l = self.lv(e['e'])
            v = l.get()
            if isinstance(v, Ptr): l.set(self.ptr_arith('+' if op == '++' else '-', v, 1))
            else: l.set(self.arith('+' if op == '++' else '-', v, 1, e['t']))
            return l
        return self.cell('tmp', parse(e['t']), self.e_un(e))
    def e_un(self, e):
        op = e['op']
        if op == '!': return Not(self.truth(self.ev(e['e'])))
        if op == '-':
            v = self.toint(self.ev(e['e']))
            r = -v
            w = INTS.get(e['t'])
            return self.wrap(r, w) if w and not w[1] else r
        if op == '+': return self.ev(e['e'])
        if op == '~':
            v = self.toint(self.ev(e['e'])); w = INTS.get(e['t'])
            return self.wrap(-zi(v) - 1 if is_sym(v) else ~v, w)
        if op == '&':
            if e['e']['k'] in ('fref', 'memfn'): return FnRef(e['e'])
            l = self.lv(e['e'])
            if isinstance(l, ElemLV) and self.lib.is_bytes_lv(self, l.b): return Ptr(l.b, False, l.i)
            if isinstance(l, HeapLV): return Ptr(None, False, uid=l.uid, ty=Ty('ptr', sub=l.ty))
            return Ptr(l)
        if op in ('++', '--'):
            l = self.lv(e['e']); old = l.get()
            self.l_un_apply(l, op, e['t'])
            return old if e['post'] else l.get()
        if op == '*': return self.l_un(e).get()
        raise Unsupported('unary ' + op)
    def l_un_apply(self, l, op, t):
        v = l.get()
        if isinstance(v, Ptr): l.set(self.ptr_arith('+' if op == '++' else '-', v, 1))
        else: l.set(self.arith('+' if op == '++' else '-', v, 1, t))
    def e_cond(self, e):
        return self.ev(e['a']) if self.branch(self.truth(self.ev(e['c']))) else self.ev(e['b'])
    def l_cond(self, e):
        return self.lv(e['a']) if self.branch(self.truth(self.ev(e['c']))) else self.lv(e['b'])
    def l_idx(self, e):
        a, i = self.ev(e['a']), self.ev(e['b'])
        if isinstance(a, Ptr):
            if a.lv is None: raise Unsupported('index on opaque pointer')
            return self.lib.ptr_index(self, a, i)
        raise Unsupported('subscript on %r' % (a,))
    def e_idx(self, e): return self.l_idx(e).get()
    def e_zero(self, e): return self.lib.default(self, parse(e['t']))
    def e_ilist(self, e):
        t = parse(e['t'])
        return self.lib.init_list(self, t, e)
    def e_stdilist(self, e):
        return self.ev(e['e'])
    l_stdilist = e_stdilist
    def e_throw(self, e):
        raise CppThrow(e.get('tt', '?'))
    def e_new(self, e):
        t = parse(e['at'])
        if 'size' in e:
            n = self.ev(e['size'])
            return self.lib.new_array(self, t, n, e)
        v = self.init_value(t, e['init'], 'new') if 'init' in e else self.lib.default(self, t)
        if isinstance(v, LV): v = v.get()
        if str(t) in self.lib.heap_types:
            u = z3.Int(self.uniq('new')); top = self.heap['top']; self.assume(z3.And(u > 0, u > top.get())); top.set(u)
            HeapLV(self, u, t).set(v)
            return Ptr(None, False, uid=u, ty=Ty('ptr', sub=t))
        return Ptr(self.cell('new:%s' % e['l'], t, v))
    def e_delete(self, e):
        p = self.ev(e['e'])
        return self.lib.delete(self, p)
    def e_lambda(self, e):
        env = {}
        this = None
        for c in e['caps']:
            if c.get('this'): this = self.frame()['this']; continue
            l = self.frame()['vars'].get(c['id'])
            if l is None: raise Unsupported('lambda capture')
            env[c['id']] = l if c.get('ref') else self.cell('cap', l.ty, l.get())
        return Lambda(e, env, this)
    # ---- calls
    def bind_args(self, e, args=None):
        out = []
        pts = e.get('pt', [])
        for i, a in enumerate(args if args is not None else e['args']):
            pt = parse(pts[i]) if i < len(pts) else None
            if pt is not None and is_ref(pt):
                if a.get('lv'): out.append(self.lv(a))
                else: out.append(self.cell('tmp', strip_ref(pt), self.ev(a)))
            else: out.append(self.ev(a))
        return out
    def e_call(self, e):
        if 'callee' in e:
            f = self.ev(e['callee'])
            return self.call_value(f, [self.ev(a) for a in e['args']])
        h = self.lib.free_fn(self, e)
        if h is not None: return h(e)
        return self.dispatch(e, None, self.bind_args(e))
    l_call = e_call
    def e_pmcall(self, e): raise Unsupported('pointer-to-member call')
    def call_value(self, f, args):
        if isinstance(f, Lambda): return self.call_lambda(f, args)
        if isinstance(f, FnRef):
            s = sig(f.node['fn'], f.node['pt'], f.node.get('cm'))
            fn = self.prog.fns.get(s)
            if fn is None: raise Unsupported('call to %s' % s)
            return self.invoke(fn, None, args)
        raise Unsupported('call of %r' % (f,))
    def call_lambda(self, f, args):
        vars_ = dict(f.env)
        for p, a in zip(f.node['params'], args):
            pt = parse(p['t'])
            if is_ref(pt): vars_[p['id']] = a if isinstance(a, LV) else self.cell(p['n'], strip_ref(pt), a)
            else: vars_[p['id']] = self.cell(p['n'], pt, a.get() if isinstance(a, LV) else a)
        self.frames.append({'vars': vars_, 'this': f.this, 'fn': self.frame()['fn'], 'scopes': []})
        try:
            self.st(f.node['body']); r = None
        except _Return as x: r = x.v
        finally: self.frames.pop()
        if isinstance(r, LV) and not is_ref(parse(f.node['ret'])): r = r.get()
        return r
    def e_mcall(self, e):
        obj = self.base_lv(e['obj'], e['arrow'])
        h = self.lib.method(self, obj, e)
        if h is not None: return h(obj, e)
        return self.dispatch(e, obj, self.bind_args(e))
    l_mcall = e_mcall
    def e_opcall(self, e):
        h = self.lib.operator(self, e)
        if h is not None: return h(e)
        if e.get('m'):
            obj = self.lv(e['args'][0])
            if e['op'] == '=' and self.trivial_assign(e, obj):
                v = self.ev(e['args'][1]); obj.set(v); return obj
            return self.dispatch(e, obj, self.bind_args(e, e['args'][1:]))
        return self.dispatch(e, None, self.bind_args(e))
    l_opcall = e_opcall
    def trivial_assign(self, e, obj):
        s = sig(e['fn'], e['pt'], e.get('cm'))
        f = self.prog.fns.get(s)
        return f is None or f.get('implicit')
    def dispatch(self, e, obj, args):
        s = sig(e['fn'], e['pt'], e.get('cm'))
        f = self.prog.fns.get(s)
        if e.get('virt') and obj is not None and not e.get('qualified'):
            v = obj.get()
            if isinstance(v, Struct):
                f2 = self.find_override(v.ty, e)
                if f2 is not None: f = f2
        c = self.V.registry.modular(self, s, e['fn'], obj, args)
        if c is not None: return c(self, obj, args, e)
        if f is None: raise Unsupported('no body or model for %s' % s)
        return self.invoke(f, obj, args)
    def find_override(self, ty, e):
        for cls in [str(ty)] + self.prog.bases(str(ty)):
            s = sig(cls + '::' + e['n'], e['pt'], e.get('cm'))
            if s in self.prog.fns: return self.prog.fns[s]
        return None
    def invoke(self, f, obj, args, ctor_ty=None):
        if self.depth > 40: raise Unsupported('call depth (recursion) at %s' % f['q'])
        vars_ = {}
        for p, a in zip(f['params'], args):
            pt = parse(p['t'])
            if is_ref(pt): vars_[p['id']] = a if isinstance(a, LV) else self.cell('%s.%s' % (f['n'], p['n']), strip_ref(pt), a)
            else: vars_[p['id']] = self.cell('%s.%s' % (f['n'], p['n']), pt, a.get() if isinstance(a, LV) else a)
        for p in f['params'][len(args):]:
            if 'init' not in p: raise Unsupported('missing argument')
            vars_[p['id']] = self.cell('%s.%s' % (f['n'], p['n']), parse(p['t']), self.ev(p['init']))
        self.frames.append({'vars': vars_, 'this': obj, 'fn': f, 'scopes': []})
        self.depth += 1
        self.V.inlined.add(f['sig'])
        nlocks = len(self.locks)
        try:
            if f['kind'] == 'ctor': self.ctor_inits(f, obj)
            self.st(f['body']); r = None
        except _Return as x: r = x.v
        finally:
            self.frames.pop(); self.depth -= 1
        if isinstance(r, LV) and not is_ref(parse(f['ret'])): r = r.get()
        return r
    def ctor_inits(self, f, obj):
        for i in f['inits']:
            if 'field' in i:
                ft = self.field_ty(parse(f['cls']), i['field'])
                if i['e'] is None: continue
                if is_ref(ft):
                    FieldLV(obj, i['field']).set(Ptr(self.lv(i['e'])))
                else:
                    v = self.init_value(ft, i['e'], i['field'])
                    FieldLV(obj, i['field']).set(v.get() if isinstance(v, LV) else v)
            elif 'base' in i:
                # base constructor writes into the same flat struct
                b = i['e']
                if b and b['k'] == 'ctor': self.construct_into(obj, b)
            elif i.get('deleg'):
                self.construct_into(obj, i['e'])
    def construct_into(self, obj, e):
        s = sig(e['fn'], e['pt'], e.get('cm'))
        f = self.prog.fns.get(s)
        if f is None:
            return
        self.invoke(f, obj, self.bind_args(e))
    def e_ctor(self, e):
        t = parse(e['t'])
        h = self.lib.construct(self, t, e)
        if h is not NotImplemented: return h
        s = sig(e['fn'], e['pt'], e.get('cm'))
        c = self.V.registry.modular_ctor(self, s, e['fn'])
        f = self.prog.fns.get(s)
        if (e.get('copy') or e.get('move')) and (f is None or f.get('implicit') or e.get('implicit')):
            return self.ev(e['args'][0])
        if f is None and e.get('implicit') and e.get('dflt'):
            return self.lib.default(self, t)
        if f is None and c is None: raise Unsupported('constructor %s' % s)
        obj = self.cell('obj:%s' % t.name.split('::')[-1], t, Struct(t, {}, origin=self.uniq('$uninit')))
        args = self.bind_args(e)
        if c is not None: c(self, obj, args, e); return obj.get()
        self.invoke(f, obj, args)
        return obj.get()
    def init_value(self, ty, e, name):
        """value used to initialise an object of type ty"""
        if e is None: return self.lib.default(self, ty)
        if is_ref(ty):
            if e.get('lv'): return self.lv(e)
            return self.cell('ref:' + name, strip_ref(ty), self.ev(e))
        v = self.ev(e)
        if ty.kind == 'arr' and isinstance(v, Str): return self.lib.char_array(self, ty, v)
        return v
    # ------------------------------------------------------------------ statements
    def st(self, s):
        if s is None: return
        k = s['k']
        if 'l' in s and k != 'block':
            fn = self.frame()['fn']
            if fn: self.trace.append('%s:%s' % (fn['n'], s['l']))
        m = getattr(self, 's_' + k, None)
        if m is None: raise Unsupported('statement %s %s' % (k, s.get('c')))
        return m(s)
    def s_nop(self, s): pass
    def s_block(self, s):
        if self.lib.is_log_block(s):
            n = self.lib.logs_itself(self, s)
            if n: self.check(z3.BoolVal(False), 'no log message is written while building another one (%s): the log is locked meanwhile' % n, 'safety')
            return
        sc = []
        self.frame()['scopes'].append(sc)
        try:
            i, ss = 0, s['s']
            while i < len(ss):
                try: self.st(ss[i]); i += 1
                except _Goto as g:
                    # forward jumps to a label of an enclosing block
                    t = [j for j in range(i + 1, len(ss)) if ss[j]['k'] == 'label' and ss[j]['n'] == g.args[0]]
                    if not t: raise
                    i = t[0]
        finally:
            self.frame()['scopes'].pop()
            for l in reversed(sc): self.lib.scope_exit(self, l)
    def s_goto(self, s): raise _Goto(s['n'])
    def s_label(self, s): self.st(s['s'])
    def s_expr(self, s):
        e = s['e']
        if self.lib.is_log_expr(e): return
        if e.get('lv'): self.lv(e)
        else: self.ev(e)
    def s_decl(self, s):
        for v in s['v']:
            ty = parse(v['t'])
            if v.get('static'):
                pass
            if is_ref(ty):
                r = self.init_value(ty, v['init'], v['n'])
                self.frame()['vars'][v['id']] = r if isinstance(r, LV) else self.cell(v['n'], strip_ref(ty), r)
            else:
                if 'init' in v: val = self.init_value(ty, v['init'], v['n'])
                else: val = self.lib.uninit(self, ty, v['n'])
                if isinstance(val, LV): val = val.get()
                l = self.cell(v['n'], ty, val)
                self.frame()['vars'][v['id']] = l
                if self.frame()['scopes']: self.frame()['scopes'][-1].append(l)
                self.lib.scope_enter(self, l)
            if 'bindings' in v:
                l = self.frame()['vars'][v['id']]
                self.lib.bind_structured(self, l, v['bindings'])
    def s_if(self, s):
        if 'init' in s: self.st(s['init'])
        if 'cv' in s: self.st(s['cv'])
        c = self.truth(self.ev(s['c']))
        if self.branch(c): self.st(s['a'])
        else: self.st(s['b'])
    def s_return(self, s):
        e = s['e']
        if e is None: raise _Return(None)
        if e.get('lv') : raise _Return(self.lv(e))
        raise _Return(self.ev(e))
    def s_seqbody(self, s):
        s['pre'](); self.st(s['body'])
    def e_pyval(self, e): return e['v']
    def s_break(self, s): raise _Break()
    def s_continue(self, s): raise _Continue()
    def s_try(self, s):
        try:
            self.st(s['body'])
        except CppThrow as x:
            for h in s['h']:
                if h['t'] == '...' or strip_ref(parse(h['t'])) == strip_ref(parse(x.ty)) or 'std::exception' in h['t']:
                    if 'v' in h: self.frame()['vars'][h['v']['id']] = self.cell('exc', strip_ref(parse(h['t'])), Opaque(parse(h['t']), 'exc'))
                    self.st(h['body'])
                    return
            raise
    def s_switch(self, s):
        if 'init' in s: self.st(s['init'])
        v = self.ev(s['c'])
        v = self.toint(v)
        items = s['body']['s'] if s['body']['k'] == 'block' else [s['body']]
        # flatten labels
        flat = []
        def fl(x):
            while x is not None and x['k'] in ('case', 'default'):
                flat.append(('case', int(x['v'])) if x['k'] == 'case' else ('default', None)); x = x['s']
            if x is None: return
            if has(x):
                # labels within a block that is entered only here: its statements, in order
                if x['k'] != 'block' or any(has(y) and y['k'] not in ('case', 'default') for y in x['s']): raise Unsupported('case label inside a statement')
                for y in x['s']: fl(y)
            else: flat.append(('s', x))
        def has(x):
            if isinstance(x, list): return any(has(y) for y in x)
            if not isinstance(x, dict) or x.get('k') == 'switch': return False
            return x.get('k') in ('case', 'default') or any(has(y) for y in x.values() if isinstance(y, (dict, list)))
        for x in items: fl(x)
        cases = [f[1] for f in flat if f[0] == 'case']
        start = None
        # group consecutive labels
        i = 0
        groups = []
        while i < len(flat):
            if flat[i][0] in ('case', 'default'):
                j = i; g = []; d = False
                while j < len(flat) and flat[j][0] in ('case', 'default'):
                    if flat[j][0] == 'case': g.append(flat[j][1])
                    else: d = True
                    j += 1
                groups.append((g, d, j)); i = j
            else: i += 1
        dflt = None
        for g, d, j in groups:
            if d: dflt = j
            if g and not d:
                if self.branch(Or(*[ieq(v, x) for x in g])): start = j; break
        if start is None:
            dg = [g for g, d, j in groups if d]
            start = dflt
        if start is None: return
        sc = []
        self.frame()['scopes'].append(sc)
        try:
            for f in flat[start:]:
                if f[0] == 's': self.st(f[1])
        except _Break: pass
        finally:
            self.frame()['scopes'].pop()
            for l in reversed(sc): self.lib.scope_exit(self, l)
    # ---- loops
    def s_for(self, s):
        sc = []
        self.frame()['scopes'].append(sc)
        try:
            if s['init'] is not None: self.st(s['init'])
            self.loop(s, lambda: True if s['c'] is None else self.truth(self.ev(s['c'])), s['body'], (lambda: self.lib.discard(self, s['inc'])) if s['inc'] is not None else None)
        finally:
            self.frame()['scopes'].pop()
    def s_while(self, s):
        def cond():
            if 'cv' in s: self.st(s['cv'])
            return self.truth(self.ev(s['c']))
        self.loop(s, cond, s['body'], None)
    def s_do(self, s):
        first = [True]
        def cond():
            if first[0]: first[0] = False; return True
            return self.truth(self.ev(s['c']))
        self.loop(s, cond, s['body'], None)
    def s_rfor(self, s):
        r = self.lv(s['range']) if s['range'].get('lv') else self.cell('range', parse(s['range']['t']), self.ev(s['range']))
        self.lib.range_for(self, s, r)
    def peek(self, cond):
        """evaluate without forking; None when it would fork"""
        snap = self.snapshot(); nc = len(self.cells); cnt = dict(self.counter); npc = len(self.pc)
        logs = [set(l[2]) for l in self.wlogs]
        self.nofork += 1
        try: r = simp(cond())
        except NeedFork: r = None
        finally:
            self.nofork -= 1
        if not isinstance(r, bool):
            for c, v in snap.items(): c.v = v
            del self.cells[nc:]
            self.counter = cnt
            for l, o in zip(self.wlogs, logs): l[2].clear(); l[2].update(o)
            return None
        return r
    def loop(self, s, cond, body, inc):
        n = 0; last = None; nc0 = len(self.cells)
        while id(s) not in self.V.cut_always:
            c = self.peek(cond)
            if c is None: break
            if not c: return
            n += 1
            sig_ = [(x.name, repr(x.v)) for x in self.cells[:nc0] if isinstance(x.v, (int, Iter, Ptr)) and not isinstance(x.v, z3.ExprRef)]
            if n > 70 or sig_ == last: self.V.cut_always.add(id(s)); raise Restart()      # no progress towards a concrete end: cut by an invariant
            last = sig_
            if not self.loop_body(body): return
            if inc: inc()
        if self.V.unroll is not None:
            k = 0
            while True:
                if not self.branch(cond()): return
                k += 1
                if k > self.V.unroll:
                    self.V.bounded = True
                    raise PathEnd()
                if not self.loop_body(body): return
                if inc: inc()
        self.inductive(s, cond, body, inc)
    def loop_body(self, body):
        """False when the loop was left by break"""
        try: self.st(body)
        except _Break: return False
        except _Continue: pass
        return True
    def inductive(self, s, cond, body, inc, extra_mods=(), hidden=None):
        key = (self.frame()['fn']['sig'] if self.frame()['fn'] else '?', self.loop_id(s))
        V = self.V
        V.loops_cut.add(key)
        self.ghost['$loopcut'] = True
        mods = V.loop_mods.setdefault(key, set())
        lc = LoopCtx(self, s, key, hidden)
        lc.entry = self.snapshot()
        lc.mods = mods
        cands = [(n, f) for (n, f) in V.registry.loop_invariants(lc) if (key, n) not in V.dropped]
        def check_all(stage):
            drop = False
            for n, f in cands:
                self.inv_goal = True
                try: g = f()
                except (Unsupported, KeyError, AttributeError) as ex:
                    g = False
                    if V.opts.get('debug'): print('  candidate not expressible', n, repr(ex)[:200])
                finally: self.inv_goal = False
                if isinstance(g, (list, tuple)): g = And(*g)
                g = simp(g)
                if g is True: continue
                if self.replaying:
                    self.assume(g) if g is not False else None
                    continue
                t = time.time()
                r, m, be = V.solver.valid(self.pc, self.axioms, g, self.arith_facts, candidate=True)
                if r != 'valid':
                    V.dropped.add((key, n)); drop = True
                    if V.opts.get('debug'): print('  drop invariant', n, 'at', stage, r)
                    continue
                o = V.obls.setdefault('loop invariant %s' % n, Obl('loop invariant %s' % n, 'invariant'))
                o.n += 1; o.proved += 1; o.time += time.time() - t; o.backend[be] = o.backend.get(be, 0) + 1
            if drop: raise Restart()
        check_all('entry')
        # havoc
        marker = self.cellseq
        for c in list(self.cells):
            for (nm, path) in sorted(m for m in mods if m[0] == c.name):
                self.havoc(c, path)
        lc.head = self.snapshot()
        for n, f in cands:
            self.assume(f())
        for x in V.registry.loop_assumes(lc): self.assume(x)
        log = set(); locks0 = sorted(map(str, self.locks))
        self.wlogs.append((marker, key, log))
        try:
            go = self.branch(cond())
            if go:
                broke = False
                try:
                    if not self.loop_body(body): broke = True
                    elif inc: inc()
                finally:
                    new = log - mods
                    new = {(c, p) for (c, p) in new if not any((c, p[:i]) in mods for i in range(len(p)))}
                    if new:
                        mods |= new
                        V.dropped = {d for d in V.dropped if d[0] != key}      # candidates refused too early get another chance
                        if V.opts.get('debug'): print('  loop mods', new)
                        raise Restart()
                if broke: return
                if sorted(map(str, self.locks)) != locks0: raise Unsupported('locks held differ at the end of a round of a loop')
                check_all('preserved')
                raise PathEnd()
        finally:
            self.wlogs.pop()
        new = log - mods
        if new:
            mods |= new
            V.dropped = {d for d in V.dropped if d[0] != key}
            raise Restart()
    def loop_id(self, s):
        i = getattr(self.prog, '_loopids', None)
        if i is None: i = self.prog._loopids = {}
        return i.setdefault(id(s), len(i))
    def havoc(self, c, path):
        l = CellLV(self, c)
        for p in path:
            if p == '*': break
            l = FieldLV(l, p)
        ty = l.ty
        l.set(self.lib.havoc_like(self, l.get(), ty, 'havoc_' + str(l)))

class LoopCtx:
    """what a loop invariant may talk about"""
    def __init__(self, ctx, s, key, hidden): self.ctx, self.s, self.key, self.hidden = ctx, s, key, hidden or {}
    def fn(self): return self.ctx.frame()['fn']
    def var(self, name):
        for i, l in self.ctx.frame()['vars'].items():
            if isinstance(l, CellLV) and l.c.name.split('!')[0].split('.')[-1] == name: r = l
            else: continue
            return r
        raise KeyError(name)
    def locals(self):
        out = []
        for i, l in self.ctx.frame()['vars'].items():
            if isinstance(l, CellLV): out.append(l)
        return out
    def ints(self):
        return [l for l in self.locals() if isinstance(l.get(), (int, z3.ArithRef)) and not isinstance(l.get(), bool) and not (isinstance(l.get(), z3.ArithRef) and l.get().is_real())]
    def strs(self): return [l for l in self.locals() if isinstance(l.get(), Str)]
    def vecs(self): return [l for l in self.locals() if isinstance(l.get(), Vec)]
    def at_entry(self, l): return l.get(self.entry)
    def this(self): return self.ctx.frame()['this']
    def modified(self, l):
        r = l.root()
        return any(m[0] == r.name for m in self.mods)
