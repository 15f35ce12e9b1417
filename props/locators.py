"""storage keys: SmartBuffer as a byte string of known length, and the effects of the locators (shared by the storage and state machine properties)"""
from cxv.spec import *
SB = 'quarkdb::SmartBuffer'
ESC = SFold('ESC', lambda c: [(c == 35, ['|#']), (c != 35, [z3.StrFromCode(c)])])
def esc(ctx, s): return ESC(ctx, S(s), S(s).len())
def sb_fresh(ctx, n):
    x = z3.String(ctx.uniq('buf')); ctx.assume(z3.Length(x) == zi(n)); return Str([x])
def install_buffer(prog, lib, reg):
    lib.abstract_str.add(SB)
    M = lib.extra_methods
    def arg(ctx, e, i=0): return ctx.ev(e['args'][i])
    def resize(L, ctx, o, e): o.set(sb_fresh(ctx, arg(ctx, e)))
    def shrink(L, ctx, o, e):
        n = arg(ctx, e); v = S(o.get())
        ctx.check(And(ile(0, n), ile(n, v.len())), 'buffer: shrink to at most its size @%s' % ctx.where(), 'pre')
        o.set(ssub(v, 0, n))
    def expand(L, ctx, o, e):
        n = arg(ctx, e); v = S(o.get())
        ctx.check(ile(v.len(), n), 'buffer: expand to at least its size @%s' % ctx.where(), 'pre')
        o.set(v + sb_fresh(ctx, simp(isub(n, v.len()))))
    M[(SB, 'resize')] = resize; M[(SB, 'shrink')] = shrink; M[(SB, 'expand')] = expand
    M[(SB, 'toView')] = lambda L, ctx, o, e: S(o.get())
    M[(SB, 'toString')] = lambda L, ctx, o, e: S(o.get())
    def ctor(L, ctx, t, e):
        a = [x for x in e.get('args', []) if x is not None]
        if not a: return sb_fresh(ctx, 512)
        return NotImplemented
    lib.extra_ctors[SB] = ctor
def install(prog, lib, reg):
    install_buffer(prog, lib, reg)
    def append(ctx, o, args, e):
        kb, ti, st = args[0], val(args[1]), S(val(args[2]))
        v = S(kb.get()); x = esc(ctx, st) + Str(['##']); n = x.len(); end = simp(iadd(ti, n))
        ctx.check(And(ile(0, ti), ile(iadd(iadd(ti, iadd(st.len(), scount(ctx, st, 0, 35))), 2), v.len())), 'appendEscapedString: the escaped text fits @%s' % ctx.where(), 'pre')
        ctx.assume(ile(iadd(ti, n), v.len()))     # proved: the escaped text has size() + number of hashes characters
        ctx.assume(ieq(esc(ctx, st).len(), iadd(st.len(), scount(ctx, st, 0, 35))))
        kb.set(Str([ssub(v, 0, ti), x, ssub(v, end, simp(isub(v.len(), end)))]))
        return end
    reg.mod['quarkdb::appendEscapedString'] = append
    reg.mod['quarkdb::StringUtils::countOccurences'] = lambda ctx, o, args, e: scount(ctx, S(val(args[0])), 0, code(ctx, val(args[1])))
def val(a): return a.get() if isinstance(a, LV) else a
def code(ctx, c):
    c = ctx.toint(c)
    return byte_of(c)
