"""C++ type strings (clang canonical spelling) -> small trees."""
import functools

class Ty:
    __slots__ = ("name", "args", "kind", "sub", "const")
    # kind: 'n' named, 'ptr', 'ref', 'rref', 'arr', 'fn'
    def __init__(self, kind, name=None, args=(), sub=None, const=False):
        self.kind, self.name, self.args, self.sub, self.const = kind, name, args, sub, const
    def __str__(self):
        if self.kind == 'n':
            return self.name + ("<" + ", ".join(map(str, self.args)) + ">" if self.args else "")
        if self.kind == 'ptr': return str(self.sub) + " *"
        if self.kind == 'ref': return str(self.sub) + " &"
        if self.kind == 'rref': return str(self.sub) + " &&"
        if self.kind == 'arr': return "%s[%s]" % (self.sub, self.name)
        return self.name
    __repr__ = __str__
    def __eq__(self, o): return isinstance(o, Ty) and str(self) == str(o)
    def __hash__(self): return hash(str(self))

INTS = {  # name -> (width, signed)
    'bool': (1, False), 'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
    'short': (16, True), 'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False),
    'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
    'char16_t': (16, False), 'char32_t': (32, False), 'wchar_t': (32, True), 'std::byte': (8, False),
}

def split_args(s):
    out, d, cur = [], 0, ''
    for i, c in enumerate(s):
        if c in '<([': d += 1
        if c in '>)]' and not (c == '>' and i and s[i-1] == '-'): d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out

@functools.lru_cache(None)
def parse(s):
    s = s.strip()
    if '(*' in s or '::*' in s or '(lambda' in s: return Ty('fn', s)
    if s.endswith('&&'): return Ty('rref', sub=parse(s[:-2]))
    if s.endswith('&'): return Ty('ref', sub=parse(s[:-1]))
    if s.endswith('*const'): return parse(s[:-5])
    if s.endswith('* const'): return parse(s[:-6])
    if s.endswith('*'): return Ty('ptr', sub=parse(s[:-1]))
    if s.endswith(')'):
        return Ty('fn', s)
    if s.endswith(']'):
        i = s.rfind('[')
        return Ty('arr', s[i+1:-1], sub=parse(s[:i]))
    const = False
    ch = True
    while ch:
        ch = False
        for q in ('const ', 'volatile '):
            if s.startswith(q): s = s[len(q):].strip(); const = True; ch = True
        for q in (' const', ' volatile'):
            if s.endswith(q): s = s[:-len(q)].strip(); const = True; ch = True
    if s.endswith('>'):
        # find matching '<' of the last template argument list
        d = 0
        for i in range(len(s)-1, -1, -1):
            if s[i] == '>': d += 1
            elif s[i] == '<':
                d -= 1
                if d == 0: break
        return Ty('n', s[:i], tuple(parse(a) for a in split_args(s[i+1:-1])), const=const)
    return Ty('n', s, const=const)

def strip_ref(t):
    while t.kind in ('ref', 'rref'): t = t.sub
    return t

def is_ref(t): return t.kind in ('ref', 'rref')

STRINGS = {'std::basic_string', 'std::basic_string_view', 'rocksdb::Slice', 'rocksdb::PinnableSlice'}
