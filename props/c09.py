"""C09: storage keys"""
from cxv.runner import Harness
from cxv.spec import *
from . import locators as L_
from .locators import ESC, esc, val, code
ID = 'C09'
FILES = ['storage/KeyDescriptorBuilder.cc']
Q = 'quarkdb::'
def install(prog, lib, reg): L_.install(prog, lib, reg)
def kb(s, snap=None): return S(FieldLV(s.thislv, 'keyBuffer').get(snap))
def fld(s, n, snap=None): return FieldLV(s.thislv, n).get(snap)
def a0(s): return S(s.argv(0))
def ch(s, i): return s.ctx.toint(s.argv(i))
def small(*idx): return lambda s: [ile(S(s.argv(i)).len(), 1 << 40) for i in idx]
def tag(c): return lambda s: [('the storage key is the type tag and the key', seq_(kb(s), Str([c]) + a0(s)))]
KT = {'kHash': 'b', 'kSet': 'c', 'kDeque': 'd', 'kVersionedHash': 'g'}
def tagged(s, i):
    return schr(code(s.ctx, s.argv(i)))
def pfx(s, i): return tagged(s, i) + esc(s.ctx, s.argv(i + 1)) + Str(['##'])
def okty(s, i): return Or(*[ieq(s.argv(i), ord(c)) for c in KT.values()])
def keyset(s): return [('the storage key is type, escaped key and separator', seq_(kb(s), pfx(s, 0))), ('the prefix is the whole of it', ieq(fld(s, 'keyPrefixSize'), kb(s).len()))]
def onlyfields(s, ty): return [('refused only for types without fields', Not(okty(s, 0)))]
def wf(s, snap=None): return And(ile(fld(s, 'keyPrefixSize', snap), kb(s, snap).len()), ile(0, fld(s, 'keyPrefixSize', snap)))
def lpfx(s, i, t): return Str(['e']) + esc(s.ctx, s.argv(i)) + Str(['##' + t])
def escinv(lc):
    """the buffer holds, up to the write position, its old beginning and the escaped text so far; enough room is left"""
    ctx = lc.ctx; s = ctx.ghost['scope']; out = []
    B = s.args[0]; T0 = S(B.get(s.pre)); st = S(s.argv(2)); t0 = s.argv(1)
    for i in counters(lc):
        if i.kind != 'int' or not lc.modified(i.l): continue
        for t in counters(lc):
            if t.kind != 'int' or not lc.modified(t.l) or repr(t.l) == repr(i.l): continue
            E = lambda i=i: ESC(ctx, st, i.get())
            out.append(('room for the rest: %s after %s characters' % (t, i), lambda i=i, t=t: And(ile(i.get(), st.len()), ieq(iadd(t.get(), iadd(isub(st.len(), i.get()), scount(ctx, st, i.get(), 35))), iadd(t0, iadd(st.len(), scount(ctx, st, 0, 35)))))))
            out.append(('%s stands after %s escaped characters' % (t, i), lambda i=i, t=t, E=E: ieq(t.get(), iadd(t0, E().len()))))
            out.append(('old beginning and %s escaped characters up to %s' % (i, t), lambda i=i, t=t, E=E: seq_(ssub(S(B.get()), 0, t.get()), ssub(T0, 0, t0) + E())))
            out.append(('the rest from %s on is untouched' % t, lambda i=i, t=t: seq_(ssub(S(B.get()), t.get(), simp(isub(T0.len(), t.get()))), ssub(T0, t.get(), simp(isub(T0.len(), t.get()))))))
    out.append(('buffer size', lambda: ieq(S(B.get()).len(), T0.len())))
    return out
def escens(s):
    B, T0, st, t0 = S(s.args[0].get()), S(s.args[0].get(s.pre)), a2(s), s.argv(1)
    e = esc(s.ctx, st)
    return [('returns the end of what was written', ieq(s.ret, iadd(t0, iadd(e.len(), 2)))), ('the escaped text and the separator are written', seq_(ssub(B, 0, s.ret), ssub(T0, 0, t0) + e + Str(['##']))), ('what follows is untouched', And(ieq(B.len(), T0.len()), seq_(ssub(B, s.ret, simp(isub(T0.len(), s.ret))), ssub(T0, s.ret, simp(isub(T0.len(), s.ret)))))),
            ('the escaped text is as long as the text and its hashes', ieq(e.len(), iadd(st.len(), scount(s.ctx, st, 0, 35))))]
def a2(s): return S(s.argv(2))
def cntinv(lc):
    ctx = lc.ctx; s = ctx.ghost['scope']; out = []
    for i in counters(lc):
        for r in counters(lc):
            if r.kind != 'int' or not lc.modified(r.l) or repr(r.l) == repr(i.l): continue
            out.append(('%s + those from %s on = all' % (r, i), lambda i=i, r=r: ieq(iadd(r.get(), scount(ctx, a0(s), i.get(), ch(s, 1))), scount(ctx, a0(s), 0, ch(s, 1)))))
    return out
def parseinv(lc):
    ctx = lc.ctx; s = ctx.ghost['scope']; out = []
    key = s.args[1]
    for i in counters(lc):
        if i.kind != 'int' or not lc.modified(i.l): continue
        out.append(('the first %s bytes are the escaped form of the key so far' % i, lambda i=i: seq_(ssub(a0(s), 0, i.get()), esc(ctx, S(key.get())))))
        out.append(('the key ends with the character before %s unless that is a hash' % i, lambda i=i: Or(ile(i.get(), 0), ieq(sat(a0(s), isub(i.get(), 1)), 35), And(ilt(0, S(key.get()).len()), ieq(sat(S(key.get()), isub(S(key.get()).len(), 1)), sat(a0(s), isub(i.get(), 1)))))))
        out.append(('the key is not longer than the %s bytes read' % i, lambda i=i: ile(S(key.get()).len(), i.get())))
    return out
def parsens(s):
    k = S(s.args[1].get()); d = a0(s)
    return [('a boundary lies within the text', ile(s.ret, d.len())), ('the text up to the boundary is the escaped key and the separator', Or(ieq(s.ret, 0), seq_(ssub(d, 0, s.ret), esc(s.ctx, k) + Str(['##']))))]
UNITS_ = [
    spec(Q + 'extractPrefix', parsens, invs=parseinv, throws=lambda s, ty: [], requires=small(0)),
    spec(Q + 'LocalityFieldLocator::getPrefix', lambda s: [('everything before the field', seq_(s.ret, ssub(kb(s, s.pre), 0, fld(s, 'keyPrefixSize', s.pre)) if s.ctx.branch(ieq(fld(s, 'localityPrefixSize', s.pre), 0)) else ssub(kb(s, s.pre), 0, fld(s, 'localityPrefixSize', s.pre))))], requires=lambda s: [wf(s), ile(fld(s, 'localityPrefixSize'), kb(s).len())]),
    spec(Q + 'StringUtils::countOccurences', lambda s: [('the number of equal characters', ieq(s.ret, scount(s.ctx, a0(s), 0, ch(s, 1))))], invs=cntinv, nparams=2, requires=lambda s: [ile(0, ch(s, 1)), ile(a0(s).len(), 1 << 40)]),
    spec(Q + 'appendEscapedString', escens, invs=escinv, requires=lambda s: [ile(0, s.argv(1)), ile(S(s.argv(0)).len(), 1 << 40), ile(a2(s).len(), 1 << 39), ile(iadd(iadd(s.argv(1), iadd(a2(s).len(), scount(s.ctx, a2(s), 0, 35))), 2), S(s.argv(0)).len())]),
    spec(Q + 'DescriptorLocator::reset', tag('!'), requires=small(0)), spec(Q + 'StringLocator::reset', tag('a'), requires=small(0)), spec(Q + 'LeaseLocator::reset', tag('f'), requires=small(0)), spec(Q + 'ConfigurationLocator::reset', tag('~'), requires=small(0)),
    spec(Q + 'ExpirationEventLocator::reset', lambda s: [('the storage key is tag, deadline in sortable form and key', seq_(kb(s), Str(['@', s.lib.be64(s.ctx, s.argv(0))]) + S(s.argv(1))))], requires=small(1)),
    spec(Q + 'FieldLocator::resetKey', keyset, throws=onlyfields, requires=small(1)),
    spec(Q + 'FieldLocator::resetField', lambda s: [('the field follows the prefix', seq_(kb(s), ssub(kb(s, s.pre), 0, fld(s, 'keyPrefixSize', s.pre)) + a0(s))), ('same prefix', ieq(fld(s, 'keyPrefixSize'), fld(s, 'keyPrefixSize', s.pre)))], requires=lambda s: small(0)(s) + [wf(s), ile(kb(s).len(), 1 << 50)]),
    spec(Q + 'FieldLocator::FieldLocator', keyset, nparams=2, throws=onlyfields, requires=small(1), name='FieldLocator2'),
    spec(Q + 'FieldLocator::FieldLocator', lambda s: [('type, escaped key, separator, field', seq_(kb(s), pfx(s, 0) + a2(s))), ('the prefix ends at the field', ieq(fld(s, 'keyPrefixSize'), pfx(s, 0).len()))], nparams=3, throws=onlyfields, requires=small(1, 2), name='FieldLocator3'),
    spec(Q + 'FieldLocator::getPrefix', lambda s: [('everything before the field', seq_(s.ret, ssub(kb(s, s.pre), 0, fld(s, 'keyPrefixSize', s.pre))))], requires=lambda s: [wf(s)]),
    spec(Q + 'LocalityFieldLocator::LocalityFieldLocator', lambda s: [('type, escaped key, data mark, escaped hint, field', seq_(kb(s), lpfx(s, 0, 'd') + esc(s.ctx, s.argv(1)) + Str(['##']) + a2(s)))], nparams=3, throws=lambda s, ty: [('refused only without key or hint', Or(ieq(a0(s).len(), 0), ieq(S(s.argv(1)).len(), 0)))], requires=small(0, 1, 2), name='LocalityField3'),
    spec(Q + 'LocalityFieldLocator::LocalityFieldLocator', lambda s: [('type, escaped key, data mark, escaped hint', seq_(kb(s), lpfx(s, 0, 'd') + esc(s.ctx, s.argv(1)) + Str(['##'])))], nparams=2, throws=lambda s, ty: [('refused only without key or hint', Or(ieq(a0(s).len(), 0), ieq(S(s.argv(1)).len(), 0)))], requires=small(0, 1), name='LocalityField2'),
    spec(Q + 'LocalityFieldLocator::LocalityFieldLocator', lambda s: [('type, escaped key, data mark', seq_(ssub(kb(s), 0, fld(s, 'keyPrefixSize')), lpfx(s, 0, 'd'))), ('no hint', ieq(fld(s, 'localityPrefixSize'), 0))], nparams=1, throws=lambda s, ty: [('refused only without key', ieq(a0(s).len(), 0))], requires=small(0), name='LocalityField1'),
    spec(Q + 'LocalityIndexLocator::LocalityIndexLocator', lambda s: [('type, escaped key, index mark, field', seq_(kb(s), lpfx(s, 0, 'i') + S(s.argv(1))))], nparams=2, throws=lambda s, ty: [('refused only without key or field', Or(ieq(a0(s).len(), 0), ieq(S(s.argv(1)).len(), 0)))], requires=small(0, 1), name='LocalityIndex2'),
    spec(Q + 'LocalityIndexLocator::LocalityIndexLocator', lambda s: [('type, escaped key, index mark', seq_(kb(s), lpfx(s, 0, 'i')))], nparams=1, throws=lambda s, ty: [('refused only without key', ieq(a0(s).len(), 0))], requires=small(0), name='LocalityIndex1'),
]
UNITS = units_of(UNITS_, install)
HARNESS = Harness('c09.cc', time=8)
TRUSTED = []
ASSUME = ['big-endian conversion of the C library', 'keys and fields are shorter than 2^40 bytes']
