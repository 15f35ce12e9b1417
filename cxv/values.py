"""Symbolic values. Scalars are python ints/bools or z3 terms; everything is immutable."""
import z3
from .tys import Ty, parse, INTS, STRINGS, strip_ref

z3.set_param('model.compact', True)

def is_sym(x): return isinstance(x, z3.ExprRef)

def zi(x):
    if isinstance(x, bool): return z3.IntVal(1 if x else 0)
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, z3.BoolRef): return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x

def zb(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.BoolVal(x != 0)
    return x

def conc(x):
    """concretise a simplified z3 term when it is a literal"""
    if isinstance(x, z3.BoolRef):
        if z3.is_true(x): return True
        if z3.is_false(x): return False
        return x
    if isinstance(x, z3.IntNumRef): return x.as_long()
    return x

def simp(x):
    if not is_sym(x): return x
    return conc(z3.simplify(x))

def And(*a):
    a = [x for x in a]
    out = []
    for x in a:
        if isinstance(x, (list, tuple)): x = And(*x)
        if x is True: continue
        if x is False: return False
        out.append(x)
    if not out: return True
    if len(out) == 1: return out[0]
    return z3.And(*out)

def Or(*a):
    out = []
    for x in a:
        if x is False: continue
        if x is True: return True
        out.append(x)
    if not out: return False
    if len(out) == 1: return out[0]
    return z3.Or(*out)

def Not(x):
    if isinstance(x, bool): return not x
    return z3.Not(x)

def Implies(a, b):
    if a is False or b is True: return True
    if a is True: return b
    if b is False: return Not(a)
    return z3.Implies(a, zb(b))

def Iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool): return a == b
    return zb(a) == zb(b)

def Ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if isinstance(a, Str) or isinstance(b, Str):
        return Str([z3.If(c, a.term(), b.term())])
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        return z3.If(c, zb(a), zb(b))
    return z3.If(c, zi(a), zi(b))

def ieq(a, b):
    if isinstance(a, int) and isinstance(b, int): return int(a) == int(b)
    return zi(a) == zi(b)

def ile(a, b):
    if isinstance(a, int) and isinstance(b, int): return a <= b
    return zi(a) <= zi(b)

def ilt(a, b):
    if isinstance(a, int) and isinstance(b, int): return a < b
    return zi(a) < zi(b)

def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(b, int) and b == 0: return a
    if isinstance(a, int) and a == 0: return b
    return zi(a) + zi(b)

def isub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    if isinstance(b, int) and b == 0: return a
    return zi(a) - zi(b)

# ---------------------------------------------------------------- strings
def zlit(s):
    o = []
    for c in s:
        n = ord(c)
        if 32 <= n < 127 and c != '\\': o.append(c)
        else: o.append('\\u{%x}' % n)
    return z3.StringVal(''.join(o))

BE64 = z3.Function('BE64', z3.IntSort(), z3.StringSort())   # 8-byte big-endian image of a 64-bit pattern (unsigned value)
FIXED_LEN = {'BE64': 8}

def part_len(p):
    if isinstance(p, str): return len(p)
    if z3.is_app(p):
        n = p.decl().name()
        if n in FIXED_LEN: return FIXED_LEN[n]
        if p.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
            pass
    return z3.Length(p)

class Str:
    __slots__ = ('parts', '_t')
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Str):
                for q in p.parts: Str._push(out, q)
            else: Str._push(out, p)
        self.parts = out
        self._t = None
    @staticmethod
    def _push(out, p):
        if isinstance(p, str):
            if p == '': return
            if out and isinstance(out[-1], str): out[-1] += p
            else: out.append(p)
        else:
            if z3.is_string_value(p):
                return Str._push(out, zunlit(p))
            if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                for c in p.children(): Str._push(out, c)
                return
            out.append(p)
    def term(self):
        if self._t is None:
            ts = [zlit(p) if isinstance(p, str) else p for p in self.parts]
            self._t = z3.StringVal('') if not ts else ts[0] if len(ts) == 1 else z3.Concat(*ts)
        return self._t
    def lit(self):
        if not self.parts: return ''
        if len(self.parts) == 1 and isinstance(self.parts[0], str): return self.parts[0]
        return None
    def len(self):
        n = 0
        for p in self.parts: n = iadd(n, part_len(p))
        return n
    def __add__(self, o): return Str([self, o if isinstance(o, Str) else Str([o])])
    def split_at(self, k):
        """split at concrete offset k along known part lengths; None when not syntactic"""
        a, i = [], 0
        parts = list(self.parts)
        while k > 0:
            if i >= len(parts): return None
            l = part_len(parts[i])
            if not isinstance(l, int): return None
            if l <= k:
                a.append(parts[i]); k -= l; i += 1
            else:
                if not isinstance(parts[i], str): return None
                a.append(parts[i][:k]); parts[i] = parts[i][k:]; k = 0
        return Str(a), Str(parts[i:])
    def __repr__(self): return 'Str(%s)' % ' ++ '.join(repr(p) if isinstance(p, str) else str(p) for p in self.parts)

def zunlit(p):
    s = p.as_string()
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)

def S(x):
    if isinstance(x, Str): return x
    return Str([x])

def seq_(a, b):
    a, b = S(a), S(b)
    la, lb = a.lit(), b.lit()
    if la is not None and lb is not None: return la == lb
    # strip common prefix/suffix syntactically
    pa, pb = list(a.parts), list(b.parts)
    while pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]: return False
            pa[0] = x[n:]; pb[0] = y[n:]
            if not pa[0]: pa.pop(0)
            if not pb[0]: pb.pop(0)
        elif is_sym(x) and is_sym(y) and x.eq(y): pa.pop(0); pb.pop(0)
        else: break
    while pa and pb:
        x, y = pa[-1], pb[-1]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[-n:] != y[-n:]: return False
            pa[-1] = x[:-n]; pb[-1] = y[:-n]
            if not pa[-1]: pa.pop()
            if not pb[-1]: pb.pop()
        elif is_sym(x) and is_sym(y) and x.eq(y): pa.pop(); pb.pop()
        else: break
    if not pa and not pb: return True
    # fixed-length heads
    if pa and pb and is_sym(pa[0]) and is_sym(pb[0]):
        x, y = pa[0], pb[0]
        if x.decl().name() == 'BE64' and y.decl().name() == 'BE64':
            # BE64 is injective (proved separately for the implementation)
            rest = seq_(Str(pa[1:]), Str(pb[1:]))
            return And(ieq(x.arg(0), y.arg(0)), rest)
    A, B = Str(pa), Str(pb)
    if (A.lit() == '' or B.lit() == ''):
        o = B if A.lit() == '' else A
        n = o.len()
        if isinstance(n, int): return n == 0
        if any(isinstance(part_len(p), int) and part_len(p) > 0 for p in o.parts): return False
        return o.term() == z3.StringVal('')
    return A.term() == B.term()

def slen(s): return S(s).len()

def ssub(s, off, n):
    """substring [off, off+n), caller guarantees bounds"""
    s = S(s)
    if isinstance(off, int):
        r = s.split_at(off)
        if r is not None:
            rest = r[1]
            if isinstance(n, int):
                q = rest.split_at(n)
                if q is not None: return q[0]
            else:
                rl = rest.len()
                if is_sym(rl) and simp(zi(rl) == zi(n)) is True: return rest
                if isinstance(rl, int) and rl == 0: return Str([])
                # drop trailing parts with matching known suffix
                acc = 0; parts = []
                for p in rest.parts:
                    if simp(zi(acc) == zi(n)) is True: return Str(parts)
                    parts.append(p); acc = iadd(acc, part_len(p))
                if simp(zi(acc) == zi(n)) is True: return Str(parts)
            return Str([z3.SubString(rest.term(), zi(0), zi(n))])
    # symbolic offset that matches an accumulated prefix
    acc = 0
    if is_sym(off):
        for i, p in enumerate(s.parts):
            acc = iadd(acc, part_len(p))
            if is_sym(acc) and simp(zi(acc) == off) is True:
                return ssub(Str(s.parts[i+1:]), 0, n)
    return Str([z3.SubString(s.term(), zi(off), zi(n))])

def sat(s, i):
    """byte at i as unsigned code 0..255 (caller guarantees bounds)"""
    s = S(s)
    if isinstance(i, int):
        r = s.split_at(i)
        if r is not None and r[1].parts:
            h = r[1].parts[0]
            if isinstance(h, str): return ord(h[0])
            return z3.StrToCode(z3.SubString(h, 0, 1)) if isinstance(part_len(h), int) and part_len(h) > 0 else z3.StrToCode(z3.SubString(r[1].term(), 0, 1))
    return z3.StrToCode(z3.SubString(s.term(), zi(i), zi(1)))

def byte_of(c):
    """code 0..255 of a (signed) char value"""
    if isinstance(c, int): return c & 255
    # undo the conversion of a byte code x in 0..255 to a signed char: If(x >= 128, x - 256, x)
    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE:
        x = c.arg(2); g = c.arg(0)
        if z3.is_app(x) and x.decl().name() == 'str.to_code' and g.decl().kind() == z3.Z3_OP_GE and g.arg(0).get_id() == x.get_id() and z3.is_int_value(g.arg(1)) and g.arg(1).as_long() == 128: return x
    return z3.If(c < 0, c + 256, c)
def schr(code):
    if isinstance(code, int): return Str([chr(code & 255)])
    if z3.is_app(code) and code.decl().name() == 'str.to_code':
        u = code.arg(0)
        if z3.is_app(u) and (u.decl().kind() == z3.Z3_OP_SEQ_AT or u.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and z3.is_int_value(u.arg(2)) and u.arg(2).as_long() == 1): return Str([u])
    return Str([z3.StrFromCode(code)])

# ---------------------------------------------------------------- composites
class Struct:
    __slots__ = ('ty', 'f', 'origin')
    def __init__(self, ty, f, origin=None):
        self.ty, self.f, self.origin = ty, f, origin
    def with_(self, name, v):
        d = dict(self.f); d[name] = v
        return Struct(self.ty, d, self.origin)
    def __repr__(self): return 'Struct(%s,%r)' % (self.ty, self.f)

class Vec:
    """sequence of elements of type et: concrete list or (array, length)"""
    __slots__ = ('et', 'items', 'arr', 'n')
    def __init__(self, et, items=None, arr=None, n=None):
        self.et, self.items, self.arr, self.n = et, items, arr, n
    def len(self): return len(self.items) if self.items is not None else self.n
    def __repr__(self): return 'Vec(%s,%s)' % (self.et, self.items if self.items is not None else (self.arr, self.n))

class Map:
    """finite map / set with unique keys: dom: Array K Bool, val: Array K V, n: cardinality"""
    __slots__ = ('kt', 'vt', 'dom', 'val', 'n')
    def __init__(self, kt, vt, dom, val, n): self.kt, self.vt, self.dom, self.val, self.n = kt, vt, dom, val, n
    def __repr__(self): return 'Map(%s,%s)' % (self.dom, self.val)

class Ptr:
    """pointer: target lvalue (or None), null flag, element offset"""
    __slots__ = ('lv', 'null', 'off', 'uid', 'ty')
    def __init__(self, lv, null=False, off=0, uid=None, ty=None): self.lv, self.null, self.off, self.uid, self.ty = lv, null, off, uid, ty
    def __repr__(self): return 'Ptr(%s,null=%s,off=%s)' % (self.lv, self.null, self.off)

class Opaque:
    __slots__ = ('ty', 'name')
    def __init__(self, ty, name): self.ty, self.name = ty, name
    def __repr__(self): return 'Opaque(%s)' % self.name

class Lambda:
    __slots__ = ('node', 'env', 'this')
    def __init__(self, node, env, this): self.node, self.env, self.this = node, env, this

class FnRef:
    __slots__ = ('node',)
    def __init__(self, node): self.node = node

class Iter:
    """iterator into a container lvalue: position index (Vec) or key (Map)"""
    __slots__ = ('clv', 'pos', 'end', 'kind', 'extra')
    def __init__(self, clv, pos, kind, end=False, extra=None): self.clv, self.pos, self.kind, self.end, self.extra = clv, pos, kind, end, extra

class IntBytes:
    """64/32/16-bit integer with known byte image (little-endian memory order)"""
    pass
