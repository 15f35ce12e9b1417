"""contracts of the request parser: the same requests however the bytes arrive (C16)"""
from cxv.spec import *
from . import reqs
from .reqs import REQ
Q = 'quarkdb::'; PA, BR = Q + 'RedisParser', Q + 'BufferedReader'
STRT = parse('std::basic_string<char>')
def rng(ctx, n, lo, hi): v = ctx.fint(n, 'long'); ctx.assume(And(ile(lo, v), ile(v, hi))); return v
SS, IS, BS = z3.StringSort(), z3.IntSort(), z3.BoolSort(); MAX = (1 << 31) - 3
NUM, USED = z3.Function('STRTOL', SS, IS), z3.Function('STRTOL.used', SS, IS)
def val(x): return x.get() if isinstance(x, LV) else x
def ev(ctx, *x): ctx.ghost['events'] = ctx.ghost.get('events', []) + [x]
def evs(s, k): return [x for x in s.ctx.ghost.get('events', []) if x[0] == k]
def cellg(ctx, n, t, v): ctx.ghost[n] = ctx.cell('ghost.' + n, parse(t), v)
def g(ctx, n, snap=None): return ctx.ghost[n].get(snap)
def me(ctx, n, snap=None): return FieldLV(ctx.ghost['parser'], n).get(snap)
def strtol(prog, lib, reg):
    """strtol: the value of a text and how much of it was read, as functions of the text"""
    def f(ctx, o, args, e):
        p = val(args[0]); ctx.check(ieq(args[2], 10), 'numbers are decimal', 'pre')
        if not isinstance(p, Ptr) or p.lv is None: raise Unsupported('strtol of an unknown text')
        b = S(p.lv.get()); d = ssub(b, p.off, isub(b.len(), p.off)); t = d.term(); v, u = NUM(t), USED(t); ctx.assume(And(ile(0, u), ile(u, d.len()), -(1 << 63) <= v, v < (1 << 63)))
        ctx.assume(ieq(v, 0) if False else z3.Implies(u == 0, v == 0)); ev(ctx, 'number', d, v, u)
        q = val(args[1])
        if isinstance(q, Ptr) and q.lv is not None: q.lv.set(Ptr(p.lv, False, iadd(p.off, u)))
        return v
    for n in ('strtol', 'std::strtol', 'strtoll', 'std::strtoll'): reg.mod[n] = f
def psetup(self, ctx, fn):
    L = ctx.lib; this = ctx.cell('this', parse(PA), L.fresh(ctx, parse(PA), 'this')); ctx.ghost['parser'] = this; ctx.ghost['events'] = []
    base = L.fresh(ctx, STRT, 'before'); ctx.ghost['base'] = base; cellg(ctx, 'eaten', 'std::basic_string<char>', base + S(FieldLV(this, 'current_integer').get())); cellg(ctx, 'nl', 'int', 0)
    return this, self.mkargs(ctx, fn)
def reader(prog, lib, reg):
    """the reader: all or nothing, bytes in the order of the stream"""
    def f(ctx, o, args, e):
        n = args[0]; ctx.check(And(ile(1, n), ile(n, (1 << 31) - 1)), 'a sensible number of bytes is asked for', 'pre')
        rc = rng(ctx, 'read', -(1 << 31), (1 << 31) - 1)
        if ctx.branch(ieq(rc, n)):
            c = lib.fresh(ctx, STRT, 'chunk'); ctx.assume(ieq(c.len(), n)); args[1].set(c); cell = ctx.ghost['eaten']; cell.set(S(cell.get()) + c); ctx.assume(ile(S(cell.get()).len(), 1 << 60)); cell = ctx.ghost['nl']; cell.set(z3.If(c.term() == z3.StringVal('\n'), zi(cell.get()) + 1, zi(cell.get()))); ev(ctx, 'read', rc); return rc
        ctx.assume(ile(rc, 0)); ev(ctx, 'none', rc); return rc
    reg.mod[BR + '::consume'] = f
def install_line(prog, lib, reg): reqs.install(prog, lib, reg); strtol(prog, lib, reg); reader(prog, lib, reg)
def rl_pre(s): return [ile(S(g(s.ctx, 'eaten')).len(), 1 << 60), Or(ieq(s.argv(0), ord('*')), ieq(s.argv(0), ord('$')))]
def unwrap(ctx, d):
    """lemmas about the sizes in a text: unsigned subtractions that provably do not wrap"""
    todo, seen = [d.term()], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id()); todo += t.children()
        if z3.is_app_of(t, z3.Z3_OP_MOD) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() == 1 << 64:
            a = z3.simplify(t.arg(0)); big = any(z3.is_int_value(x) and x.as_long() >= 1 << 63 for x in ([a] + a.children())); c = z3.simplify(a - (1 << 64)) if big else a
            ctx.check(t == c, 'sizes of a line do not wrap', 'lemma')
def rl_post(s):
    ctx = s.ctx; e0, e1 = S(g(ctx, 'eaten', s.pre)), S(g(ctx, 'eaten')); ci = S(me(ctx, 'current_integer')); r0, r1 = raw(s.argpre(1)) if hasattr(s, 'argpre') else None, raw(s.argpost(1))
    if not ctx.branch(ile(1, s.ret)):
        return [('nothing read is forgotten', Implies(ieq(s.ret, 0), seq_(e1, ctx.ghost['base'] + ci))), ('the line goes on', Implies(ieq(s.ret, 0), ieq(g(ctx, 'nl'), 0))), ('no answer without bytes only if there are none', Implies(ieq(s.ret, 0), bool(evs(s, 'none')) and ieq(evs(s, 'none')[-1][1], 0) if evs(s, 'none') else False)),
            ('the size is left alone until known', Implies(ieq(s.ret, 0), ieq(r1, s.old_size)) if False else True)]
    n = evs(s, 'number')
    if len(n) != 1: return [('the number is read once', False)]
    d, v, u = n[0][1:]; unwrap(ctx, d); p = s.lib.chr_of(s.argv(0)) if hasattr(s.lib, 'chr_of') else None
    from cxv.lib import schr, byte_of
    ln = ssub(e1, S(ctx.ghost['base']).len(), isub(e1.len(), S(ctx.ghost['base']).len())); N = ln.len()
    return [('the line follows what was there', seq_(ssub(e1, 0, S(ctx.ghost['base']).len()), ctx.ghost['base'])), ('the line is as long as the number, its prefix and its end', ieq(N, iadd(d.len(), 3))), ('the line begins with its prefix', seq_(ssub(ln, 0, 1), schr(byte_of(s.argv(0))))), ('the number is the rest of the line', seq_(ssub(ln, 1, d.len()), d)), ('the line ends as lines do', seq_(ssub(ln, isub(N, 2), 2), Str(['\r\n']))), ('up to the first newline', ieq(g(ctx, 'nl'), 1)), ('the number is exactly what the line says', And(ieq(u, d.len()), ile(1, d.len()), ieq(r1, v))), ('sizes are never negative nor beyond reach', And(ile(0, r1), ile(r1, MAX))), ('the next line starts afresh', ieq(ci.len(), 0))]
def rl_inv(lc):
    ctx = lc.ctx; out = [('lines are finite', lambda: ile(S(g(ctx, 'eaten')).len(), 1 << 60)), ('what was read of the line is remembered', lambda: seq_(S(g(ctx, 'eaten')), ctx.ghost['base'] + S(me(ctx, 'current_integer'))))]
    for t in texts(lc):
        if not lc.modified(t) or 'current_integer' in repr(t) or 'ghost' in repr(t): continue
        def last(t=t):
            x, ci = S(t.get()), S(me(ctx, 'current_integer'))
            return And(ile(x.len(), 1), Implies(ieq(x.len(), 1), And(ile(1, ci.len()), seq_(ssub(ci, isub(ci.len(), 1), 1), x))), ieq(g(ctx, 'nl'), Ite(seq_(x, Str(['\n'])), 1, 0)))
        out.append(('%s is the last byte' % t, last))
    return out
def Ite(c, a, b): return z3.If(zb(c), zi(a), zi(b))
LINEU = [spec(PA + '::readInteger', rl_post, rl_pre, invs=rl_inv, setup=psetup, name='readInteger')]
# ---------------------------------------------------------------- requests
AI, AS = z3.ArraySort(IS, IS), z3.ArraySort(IS, SS)
def fsetup(self, ctx, fn):
    L = ctx.lib; this = ctx.cell('this', parse(PA), L.fresh(ctx, parse(PA), 'this')); ctx.ghost['parser'] = this; ctx.ghost['events'] = []; args = self.mkargs(ctx, fn); ctx.ghost['req'] = args[0]
    vi, vs = parse('std::vector<long>'), parse('std::vector<std::basic_string<char>>')
    cellg(ctx, 'sizes', 'std::vector<long>', L.fresh(ctx, vi, 'sizes')); cellg(ctx, 'bodies', 'std::vector<std::basic_string<char>>', L.fresh(ctx, vs, 'bodies')); cellg(ctx, 'announced', 'long', rng(ctx, 'announced', 0, MAX)); cellg(ctx, 'line', 'std::basic_string<char>', L.fresh(ctx, STRT, 'line'))
    cellg(ctx, 'zero', 'bool', ctx.fbool('zero')); return this, args
def contents(ctx, snap=None): return FieldLV(ctx.ghost['req'], 'contents').get(snap)
def nsizes(ctx, snap=None): return g(ctx, 'sizes', snap).len()
def nbodies(ctx, snap=None): return g(ctx, 'bodies', snap).len()
def elems(ctx, upto, snap=None):
    """each element is what the stream held after its size"""
    L = ctx.lib; a, _ = L.vec_arr(ctx, contents(ctx, snap)); z, _ = L.vec_arr(ctx, g(ctx, 'sizes', snap)); b, _ = L.vec_arr(ctx, g(ctx, 'bodies', snap)); a, z, b = named(ctx, a), named(ctx, z), named(ctx, b); i = z3.Int(ctx.uniq('?el')); x = z3.Select(a, i)
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(upto)), z3.And(z3.Select(b, i) == z3.Concat(x, z3.StringVal('\r\n')), z3.Length(x) == z3.Select(z, i), z3.Select(z, i) >= 0, z3.Select(z, i) <= MAX)), patterns=[z3.Select(a, i), z3.Select(b, i), z3.Select(z, i)])
def nozero(ctx, snap=None):
    L = ctx.lib; z, n = L.vec_arr(ctx, g(ctx, 'sizes', snap)); z = named(ctx, z); i = z3.Int(ctx.uniq('?nz'))
    return Iff(me(ctx, 'encounteredZeroSize', snap), g(ctx, 'zero', snap))
def Iff(a, b): return And(Implies(a, b), Implies(b, a))
def state(ctx, snap=None, inside=False):
    """where the parser stands, in terms of what it has read since the request began"""
    rs, ce, es = me(ctx, 'request_size', snap), me(ctx, 'current_element', snap), me(ctx, 'element_size', snap); n, m = nsizes(ctx, snap), nbodies(ctx, snap); L = ctx.lib; z, _ = L.vec_arr(ctx, g(ctx, 'sizes', snap))
    openr = z3.Not(zb(ieq(rs, 0)))
    return [('sizes are sensible', And(ile(0, rs), ile(rs, MAX))), ('the number of elements is the one announced', z3.Implies(openr, zb(ieq(rs, g(ctx, 'announced', snap))))), ('elements read so far', z3.Implies(openr, zb(And(ile(0, ce), ile(iadd(ce, 0 if inside else 1), rs), ieq(m, ce), ile(ce, contents(ctx, snap).len()), ile(contents(ctx, snap).len(), rs))))),
        ('a size is known exactly between its line and its element', z3.Implies(openr, z3.If(zb(ieq(es, -1)), zb(ieq(n, ce)), zb(And(ieq(n, iadd(ce, 1)), ieq(es, z3.Select(z, zi(ce))), ile(0, es), ile(es, MAX), ieq(S(g(ctx, 'line', snap)).len(), 0)))))),
        ('elements are what the stream held', z3.Implies(openr, elems(ctx, ce, snap))), ('the line read so far', seq_(S(me(ctx, 'current_integer', snap)), S(g(ctx, 'line', snap)))), ('empty elements are noticed', nozero(ctx, snap))]
def install_fetch(prog, lib, reg):
    reqs.install(prog, lib, reg)
    def line(ctx, o, args, e):
        """contract of readInteger"""
        this = ctx.ghost['parser']; p = args[0]; ce = ctx.ghost['sizes']; first = ieq(p, ord('*')); ctx.check(Or(first, ieq(p, ord('$'))), 'a line announces a request or an element', 'pre')
        ctx.check(Iff(first, ieq(me(ctx, 'request_size'), 0)), 'a request is announced exactly when none is open', 'pre'); ctx.check(Implies(Not(first), ieq(nsizes(ctx), nbodies(ctx))), 'a size is read exactly when an element is due', 'pre'); ctx.check(seq_(S(me(ctx, 'current_integer')), S(g(ctx, 'line'))), 'a line begun is continued', 'pre')
        k = rng(ctx, 'line', -2, 1)
        if ctx.branch(ieq(k, 1)):
            v = rng(ctx, 'size', 0, MAX); FieldLV(this, 'current_integer').set(Str([])); ctx.ghost['line'].set(Str([]))
            if ctx.branch(first): ctx.ghost['announced'].set(v); ctx.ghost['sizes'].set(Vec(parse('long'), items=[])); ctx.ghost['bodies'].set(Vec(parse('std::basic_string<char>'), items=[]))
            else:
                s = ctx.ghost['sizes'].get(); a, n = lib.vec_arr(ctx, s); b = z3.Const(ctx.uniq('sizes'), a.sort()); i = z3.Int(ctx.uniq('?sz')); ctx.assume(z3.Select(b, zi(n)) == v); ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(n)), z3.Select(b, i) == z3.Select(a, i)), patterns=[z3.Select(b, i)])); ctx.ghost['sizes'].set(Vec(s.et, arr=b, n=iadd(n, 1))); ctx.ghost['zero'].set(z3.Or(zb(ctx.ghost['zero'].get()), v == 0))
            args[1].set(v); return 1
        if ctx.branch(ieq(k, 0)):
            t = lib.fresh(ctx, STRT, 'partial'); FieldLV(this, 'current_integer').set(t); ctx.ghost['line'].set(t); ev(ctx, 'slow'); return 0
        ctx.assume(ile(k, -1)); ev(ctx, 'bad'); return k
    reg.mod[PA + '::readInteger'] = line
    def body(ctx, o, args, e):
        n = args[0]; z, m = lib.vec_arr(ctx, g(ctx, 'sizes')); ctx.check(And(ieq(nsizes(ctx), iadd(nbodies(ctx), 1))), 'an element is read only after its size', 'pre'); ctx.check(ieq(n, iadd(z3.Select(z, zi(isub(m, 1))), 2)), 'exactly the bytes announced and the line end are read', 'pre')
        rc = rng(ctx, 'read', -(1 << 31), (1 << 31) - 1)
        if ctx.branch(ieq(rc, n)):
            c = lib.fresh(ctx, STRT, 'chunk'); ctx.assume(ieq(c.len(), n)); args[1].set(c); s = ctx.ghost['bodies'].get(); a, k = lib.vec_arr(ctx, s); b = z3.Const(ctx.uniq('bodies'), a.sort()); i = z3.Int(ctx.uniq('?bd')); ctx.assume(z3.Select(b, zi(k)) == c.term()); ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(k)), z3.Select(b, i) == z3.Select(a, i)), patterns=[z3.Select(b, i)])); ctx.ghost['bodies'].set(Vec(s.et, arr=b, n=iadd(k, 1))); ev(ctx, 'body', c, n); return rc
        ctx.assume(ile(rc, 0)); ev(ctx, 'slow' if ctx.branch(ieq(rc, 0)) else 'bad'); return rc
    reg.mod[BR + '::consume'] = body
    reg.mod[REQ + '::parseCommand' if isinstance(REQ, str) else Q + 'RedisRequest::parseCommand'] = lambda ctx, o, args, e: ev(ctx, 'command')
def f_pre(s): return [zb(x) for n, x in state(s.ctx)] + [Implies(ieq(me(s.ctx, 'request_size'), 0), True)]
def f_post(s):
    ctx = s.ctx; au = s.argv(1)
    if ctx.branch(ieq(s.ret, 0)): return [('stopped only for lack of bytes', bool(evs(s, 'slow')) and not evs(s, 'bad'))] + [('later it goes on where it stopped: ' + n, x) for n, x in state(ctx)]
    if ctx.branch(ile(1, s.ret)):
        n = contents(ctx).len(); return [('as many elements as announced', And(ieq(n, g(ctx, 'announced')), ile(1, n), ieq(nbodies(ctx), n), ieq(nsizes(ctx), n))), ('each element is what the stream held after its size', elems(ctx, n)), ('the next request starts afresh', And(ieq(me(ctx, 'request_size'), 0), ieq(S(me(ctx, 'current_integer')).len(), 0))), ('the command is looked up once the request is complete', len(evs(s, 'command')) == 1), ('no empty elements', Not(g(ctx, 'zero')))]
    big = Or(*([ile(5, g(ctx, 'announced'))] )); z, m = ctx.lib.vec_arr(ctx, g(ctx, 'sizes')); bd = evs(s, 'body'); torn = Or(*[Not(seq_(ssub(c, isub(n, 2), 2), Str(['\r\n']))) for _, c, n in bd]) if bd else False
    return [('refused only if malformed, empty, too large for a stranger, or broken off', Or(bool(evs(s, 'bad')), g(ctx, 'zero'), ieq(g(ctx, 'announced'), 0), And(Not(au), Or(big, ile(1048576, z3.Select(z, zi(isub(m, 1)))))), torn))]
def f_inv(lc):
    ctx = lc.ctx; out = []
    for n, _ in state(ctx, None, True): out.append((n, lambda n=n: dict(state(ctx, None, True))[n]))
    out += [('a request is open', lambda: ile(1, me(ctx, 'request_size'))), ('when all is read, no line is begun', lambda: Implies(ieq(me(ctx, 'current_element'), me(ctx, 'request_size')), And(ieq(S(g(ctx, 'line')).len(), 0), ieq(me(ctx, 'element_size'), -1))))]
    return out
FETCHU = [spec(PA + '::fetch', f_post, f_pre, invs=f_inv, setup=fsetup, name='fetch')]
