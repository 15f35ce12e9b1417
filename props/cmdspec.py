"""contracts of the request dispatcher, one per command: arity, the one store operation it stands for, its arguments, and the reply (C30)"""
from .commitspec import *
from .dispspec import RD, RDQ, RESP, TXT, rep, val, q_
from . import reqs
from .reqs import READ, WRITE, REQ
from cxv.spec import *
CODES = (0, 1, 2, 3, 4, 5)
NOTFOUND = 1
# operation of the store -> (inputs, outputs): s text, I range (two iterators), n number, f flag / b bool, i integer, u unsigned, t text, v list, d double, L lease, C clock
STORE = {'flushall': ('', ''), 'set': ('ss', ''), 'del': ('I', 'i'), 'hset': ('sss', 'b'), 'hsetnx': ('sss', 'b'), 'hmset': ('sI', ''), 'hincrby': ('sss', 'i'), 'hincrbyfloat': ('sss', 'd'), 'hdel': ('sI', 'i'), 'hclone': ('ss', ''),
    'lhset': ('ssss', 'b'), 'lhdel': ('sI', 'i'), 'lhlocdel': ('sss', 'i'), 'lhmset': ('sI', ''), 'sadd': ('sI', 'i'), 'srem': ('sI', 'i'), 'smove': ('sss', 'i'),
    'dequePushFront': ('sI', 'i'), 'dequePushBack': ('sI', 'i'), 'dequePopFront': ('s', 't'), 'dequePopBack': ('s', 't'), 'dequeTrimFront': ('ss', 'i'),
    'lease_acquire': ('ssnn', 'L'), 'lease_release': ('sn', ''), 'lease_get': ('sn', 'L'), 'vhset': ('sss', 'u'), 'vhdel': ('sI', 'u'),
    'getClock': ('', 'u'), 'getType': ('s', 't'), 'get': ('s', 't'), 'scan': ('ssn', 'tv'), 'keys': ('s', 'v'), 'exists': ('I', 'i'), 'rawScanMaybeTombstones': ('sn', 'v'),
    'hget': ('ss', 't'), 'hexists': ('ss', ''), 'hkeys': ('s', 'v'), 'hgetall': ('s', 'v'), 'hlen': ('s', 'u'), 'hvals': ('s', 'v'), 'hscan': ('ssn', 'tv'),
    'lhget': ('sss', 't'), 'lhlen': ('s', 'u'), 'lhscan': ('sssn', 'tv'), 'dequeLen': ('s', 'u'), 'dequeScanBack': ('ssn', 'tv'), 'scard': ('s', 'u'), 'sscan': ('ssn', 'tv'), 'smembers': ('s', 'v'), 'sismember': ('ss', ''),
    'vhgetall': ('s', 'vu'), 'vhlen': ('s', 'u'), 'artificiallySlowWriteNeverUseThis': ('s', ''), 'configGet': ('s', 't'), 'configSet': ('ss', ''), 'configGetall': ('', 'v')}
NOSTATUS = ('getClock', 'getType', 'lease_acquire')
VS = parse('std::vector<std::basic_string<char>>'); LI = parse(Q + 'LeaseInfo')
def lval(x): return x.get() if isinstance(x, LV) else x
class Call:
    def __init__(self, name, ins, outs, status): self.name, self.ins, self.outs, self.status = name, ins, outs, status
def vect(L, ctx, name, v, extra=()):
    arr, n = L.vec_arr(ctx, raw(lval(v))); a = list(extra) + [arr, zi(n)]
    return Str([z3.Function(name, *([x.sort() for x in a] + [SS]))(*a)])
def errof(st): return Str(['-ERR ', st.f.get('msg', 'failed'), '\r\n'])
def relate(ctx, name, got, res, st):
    """what earlier answers on the same batch imply (proved for the operations themselves: an element is found exactly when it is there)"""
    for c in ctx.ghost['calls']:
        if name == 'lhset' and c.name == 'lhget': same = [seq_(x, y) for x, y in zip(c.ins, got)]; ctx.assume(z3.Implies(zb(And(*same, ieq(st.f['code'], 0), Not(ieq(c.status.f['code'], 0)))), zb(res[0])))
        if name == 'hdel' and c.name == 'hget':
            x, y = got[1]; f = S(ctx.lib.elem_get(ctx, x.clv.get(), x.pos))
            ctx.assume(z3.Implies(zb(And(seq_(c.ins[0], got[0]), seq_(c.ins[1], f), ieq(iadd(x.pos, 1), y.pos), ieq(c.status.f['code'], 0))), z3.And(zi(st.f['code']) == 0, zi(res[0]) == 1)))
def store_fn(name):
    ins, outs = STORE[name]
    def fn(ctx, o, args, e):
        L = ctx.lib; a = list(args)
        if len(a) and isinstance(a[0], LV) and strip_ref(a[0].ty).name == SA: ctx.check(a[0].cell is ctx.ghost['area'].cell if hasattr(a[0], 'cell') and hasattr(ctx.ghost['area'], 'cell') else True, 'operates on the batch it was given', 'pre'); a = a[1:]
        else: raise Unsupported('operation outside a batch')
        got = []
        for c in ins:
            if not a: raise Unsupported('arguments of ' + name)
            if c == 's': got.append(S(lval(a.pop(0))))
            elif c == 'n': got.append(lval(a.pop(0)))
            elif c == 'I': x, y = lval(a.pop(0)), lval(a.pop(0)); got.append((x, y))
        k = len(ctx.ghost['calls']); res = []
        for c in outs:
            l = a.pop(0); n = '%s%d.%s' % (name, k, c)
            if c == 'b': v = z3.Bool(n)
            elif c in 'iu':
                v = z3.Int(n); lo, hi = (-(1 << 63), 1 << 63) if c == 'i' else (0, 1 << 63)
                ctx.assume(z3.And(v >= lo, v < hi))
            elif c == 'd': v = z3.Real(n)
            elif c == 't': v = Str([z3.String(n)])
            else: v = L.fresh(ctx, VS if c == 'v' else LI, n)
            if isinstance(l, LV): l.set(v)
            res.append(v)
        if name == 'rawScanMaybeTombstones': got.append(lval(a.pop(0)))
        if a: raise Unsupported('arguments of ' + name)
        if name == 'lease_acquire':
            en = L.prog.enums[Q + 'LeaseAcquisitionStatus']['vals']; st = z3.Int('lease%d' % k); ctx.assume(z3.Or(*[st == int(v) for v in en.values()]))
        else:
            code = z3.Int('%s%d.status' % (name, k)); ctx.assume(z3.And(code >= 0, code < 16))
            st = Struct(parse('rocksdb::Status'), {'code': code, 'msg': Str([z3.String('%s%d.msg' % (name, k))])})
        relate(ctx, name, got, res, st)
        ctx.ghost['calls'] = ctx.ghost['calls'] + [Call(name, got, res, st)]
        return None if name in ('getClock', 'getType') else st
    return fn
def install_cmds(prog, lib, reg):
    reqs.install(prog, lib, reg)
    for n in STORE: reg.mod[SMQ + n] = store_fn(n)
    F = Q + 'Formatter::'; m = reg.mod
    def txt(*parts):
        def fn(ctx, o, args, e): return rep(Str([p if isinstance(p, str) else p(ctx, lval(args[0])) for p in parts]))
        return fn
    m[F + 'ok'] = txt('+OK\r\n'); m[F + 'null'] = txt('$-1\r\n'); m[F + 'pong'] = txt('+PONG\r\n')
    m[F + 'err'] = txt('-ERR ', lambda ctx, x: S(x), '\r\n'); m[F + 'status'] = txt('+', lambda ctx, x: S(x), '\r\n')
    m[F + 'errArgs'] = txt("-ERR wrong number of arguments for '", lambda ctx, x: S(x), "' command\r\n")
    def integer(ctx, o, args, e):
        x = asint(ctx, lval(args[0])); t = ctx.lib.itos(ctx, x)
        if is_sym(x): ctx.assume((S(t).term() == z3.StringVal('1')) == (x == 1))
        return rep(Str([':', t, '\r\n']))
    m[F + 'integer'] = integer
    m[F + 'string'] = lambda ctx, o, args, e: rep(bulk(ctx, S(lval(args[0]))))
    m[F + 'fromStatus'] = lambda ctx, o, args, e: rep(Str(['+OK\r\n']) if ctx.branch(ieq(lval(args[0]).f['code'], 0)) else errof(lval(args[0])))
    for n in ('vector', 'statusVector'): m[F + n] = lambda ctx, o, args, e, n=n: rep(vect(ctx.lib, ctx, 'REPLY.' + n, args[0]))
    m[F + 'scan'] = lambda ctx, o, args, e: rep(vect(ctx.lib, ctx, 'REPLY.scan', args[1], [S(lval(args[0])).term()]))
    m[F + 'versionedVector'] = lambda ctx, o, args, e: rep(vect(ctx.lib, ctx, 'REPLY.versioned', args[1], [zi(lval(args[0]))]))
    ST = parse(Q + 'ScanCommandArguments')
    def parsescan(ctx, o, args, e):
        x, y = lval(args[0]), lval(args[1]); ml = [lval(z) for z in args[2:]]; ml += [False] * (2 - len(ml))
        r = Struct(ST, {'cursor': Str([z3.String('scan.cursor')]), 'count': z3.Int('scan.count'), 'match': Str([z3.String('scan.match')]), 'matchloc': Str([z3.String('scan.matchloc')]), 'error': Str([z3.String('scan.error')])})
        ctx.assume(z3.Implies(z3.Length(z3.String('scan.error')) == 0, z3.And(z3.Int('scan.count') >= 1, z3.Int('scan.count') < 1 << 63)))
        ctx.check(ilt(x.pos, y.pos), 'scan arguments are not empty', 'pre')
        ctx.ghost['calls'] = ctx.ghost['calls'] + [Call('parseScan', [(x, y)] + ml, [r], None)]
        return r
    m[Q + 'parseScanCommand'] = parsescan
    def deser(ctx, o, args, e):
        if len(args) != 1 or strip_ref(args[0].ty).name != REQ.name: raise Unsupported('deserialize overload')
        t = ctx.lib.fresh(ctx, parse(TXT), 'tx'); ok = z3.Bool('tx.ok'); o.set(t)
        cmd = ctx.get_field(lval(args[0]), 'command'); C = reqs.cmds(prog); hw = zb(ctx.get_field(t, 'hasWrites'))
        ctx.assume(z3.Implies(ok, z3.And(z3.Implies(zi(cmd) == C['TX_READONLY'], z3.Not(hw)), z3.Implies(zi(cmd) == C['TX_READWRITE'], hw))))
        ctx.ghost['calls'] = ctx.ghost['calls'] + [Call('unpack', [], [t, ok], None)]
        return ok
    m[TXT + '::deserialize'] = deser
    def runtx(ro):
        def fn(ctx, o, args, e):
            if strip_ref(args[0].ty).name != SA: raise Unsupported('dispatch overload')
            t = lval(args[1]); v = ctx.get_field(t, 'requests')
            ctx.check(ilt(0, v.len()), 'an empty transaction is not run', 'pre')
            if ro: ctx.check(Not(ctx.get_field(t, 'hasWrites')), 'a read-only transaction holds no writes', 'pre')
            ctx.ghost['calls'] = ctx.ghost['calls'] + [Call('runReadOnly' if ro else 'run', [t], [Str([z3.String('tx.reply')])], None)]
            return rep(Str([z3.String('tx.reply')]))
        return fn
    m[RDQ + 'dispatch'] = runtx(False); m[RDQ + 'dispatchReadOnly'] = runtx(True)
    m[Q + 'caseInsensitiveEquals'] = lambda ctx, o, args, e: z3.Function('CASE.EQUAL', SS, SS, BS)(S(lval(args[0])).term(), S(lval(args[1])).term())
    def pint(ctx, o, args, e):
        x = S(lval(args[0])).term(); r = args[1]
        ctx.assume(z3.Implies(INTOK(x), z3.And(INTVAL(x) > -(1 << 63), INTVAL(x) < (1 << 63) - 1, z3.Length(x) >= 1)))
        if ctx.branch(INTOK(x)): r.set(INTVAL(x)); return True
        r.set(ctx.fint('unparsed', 'long')); return False
    m[Q + 'ParseUtils::parseInt64'] = pint
    m[SMQ + 'getDynamicClock'] = lambda ctx, o, args, e: ctx.note_int('dynamic') if hasattr(ctx, 'note_int') else _dyn(ctx)
def _dyn(ctx):
    ctx.assume(z3.And(z3.Int('dynamic') >= 0, z3.Int('dynamic') < 1 << 63)); return z3.Int('dynamic')
def asint(ctx, x):
    if isinstance(x, bool): return 1 if x else 0
    if isinstance(x, z3.BoolRef): return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x
class E_:
    """replays what the command stands for against what the code did"""
    def __init__(self, s): self.s, self.ctx, self.L, self.out, self.i, self.calls = s, s.ctx, s.lib, [], 0, s.ctx.ghost['calls']; self.n = n_(s)
    def arg(self, i): return R_(self.s, i)
    def lit(self, t): return Str([t])
    def call(self, name, *ins):
        if self.i >= len(self.calls) or self.calls[self.i].name != name:
            self.out.append(('runs %s%s' % (name, '' if self.i >= len(self.calls) else ', not ' + self.calls[self.i].name), False)); raise Done
        c = self.calls[self.i]; self.i += 1
        for j, (w, g) in enumerate(zip(ins, c.ins)):
            lab = '%s gets its argument %d' % (name, j + 1)
            if isinstance(w, tuple): 
                self.out.append((lab, g[0].clv is g[1].clv or repr(g[0].clv) == repr(g[1].clv))); self.out.append((lab + ' (the first element)', ieq(g[0].pos, w[0]))); self.out.append((lab + ' (the end)', ieq(g[1].pos, w[1])))
                self.out.append((lab + ' (of the request)', 'request' in repr(g[0].clv) or 'arg1' in repr(g[0].clv)))
            elif isinstance(w, Str): self.out.append((lab, seq_(g, w)))
            elif isinstance(w, bool) or isinstance(w, z3.BoolRef): self.out.append((lab, Iff_(g, w)))
            else: self.out.append((lab, ieq(g, w)))
        return c
    def ok(self, c): return self.ctx.branch(ieq(c.status.f['code'], 0))
    def missing(self, c): return self.ctx.branch(ieq(c.status.f['code'], NOTFOUND))
    def reply(self, t): self.out.append(('the reply is the outcome', seq_(val(self.s), t if isinstance(t, Str) else Str([t]))))
    def error(self): self.out.append(('an error is replied', z3.PrefixOf(z3.StringVal('-'), S(val(self.s)).term())))
    def done(self): self.out.append(('and nothing else is run', self.i == len(self.calls)))
class Done(Exception): pass
def Iff_(a, b): return And(Implies(a, b), Implies(b, a))
def n_(s): return s.ctx.get_field(s.args[1].get(s.pre), 'contents').len()
def R_(s, i):
    s.ctx.in_spec += 1
    try: return S(s.lib.elem_get(s.ctx, s.ctx.get_field(s.args[1].get(s.pre), 'contents'), i))
    finally: s.ctx.in_spec -= 1
# ---- replies
INT = lambda E, c: Str([':', E.L.itos(E.ctx, asint(E.ctx, c.outs[0])), '\r\n'])
OKR = lambda E, c: Str(['+OK\r\n'])
TEXT = lambda E, c: bulk(E.ctx, c.outs[0])
LIST = lambda E, c: vect(E.L, E.ctx, 'REPLY.vector', c.outs[0])
REALT = None
def plain(op, ins, reply=OKR, null=False):
    """run op(ins); its failure is replied as an error, absence as null where null is set"""
    def go(E):
        c = E.call(op, *[x(E) if callable(x) else E.arg(x) if isinstance(x, int) else x for x in ins])
        if null and E.missing(c): E.reply('$-1\r\n'); return
        if not E.ok(c): E.reply(errof(c.status)); return
        if reply: E.reply(reply(E, c))
        else: E.out.append(('the reply is not an error', Not(z3.PrefixOf(z3.StringVal('-'), S(val(E.s)).term()))))
    return go
def rest(i): return lambda E: (i, E.n)
def span(a, b): return lambda E: (a, b)
def txt(t): return lambda E: Str([t])
def found(op, ins):
    def go(E):
        c = E.call(op, *[E.arg(x) for x in ins])
        if E.ok(c): E.reply(':1\r\n')
        elif E.missing(c): E.reply(':0\r\n')
        else: E.reply(errof(c.status))
    return go
def scan_(op, first, keyed, match=False, loc=False):
    def go(E):
        p = E.call('parseScan', (first, E.n), match, loc); a = p.outs[0]
        if not E.ctx.branch(ieq(a.f['error'].len(), 0)): E.error(); return
        ins = ([E.arg(1)] if keyed else []) + [a.f['cursor']] + ([a.f['match']] if match else []) + ([a.f['matchloc']] if loc else []) + [a.f['count']]
        c = E.call(op, *ins)
        if not E.ok(c): E.reply(errof(c.status)); return
        cur = c.outs[0]; t = '0' if E.ctx.branch(ieq(cur.len(), 0)) else None
        cu = Str(['0']) if t else Str(['next:', cur])
        E.reply(vect(E.L, E.ctx, 'REPLY.scan', c.outs[1], [cu.term()]))
    return go
def eq(*k): return lambda n: Or(*[ieq(n, x) for x in k])
def ge(k): return lambda n: ile(k, n)
def lhset_(E, k=1):
    c = E.call('lhset', E.arg(1), E.arg(2), E.arg(3), E.arg(4)); return c
def lhset_fallback(E):
    c = lhset_(E)
    if not E.ok(c): E.reply(errof(c.status)); return
    E.call('hdel', E.arg(5), (2, 3)); E.reply(INT(E, c))
def lhdel_fallback(E):
    c = E.call('lhdel', E.arg(1), (2, 3))
    if E.ok(c) and E.ctx.branch(ieq(c.outs[0], 1)): E.reply(':1\r\n'); return
    d = E.call('hdel', E.arg(3), (2, 3)); E.reply(INT(E, d) if E.ok(d) else errof(d.status))
def lhget_fallback(E):
    four = E.ctx.branch(ieq(E.n, 4))
    c = E.call('lhget', E.arg(1), E.arg(2), Str(['']) if four else E.arg(3))
    if E.ok(c): E.reply(TEXT(E, c)); return
    if not E.missing(c): E.reply(errof(c.status)); return
    d = E.call('hget', E.arg(3 if four else 4), E.arg(2))
    if E.missing(d): E.reply('$-1\r\n')
    else: E.reply(TEXT(E, d) if E.ok(d) else errof(d.status))
def lhget_(E):
    c = E.call('lhget', E.arg(1), E.arg(2), Str(['']) if E.ctx.branch(ieq(E.n, 3)) else E.arg(3))
    if E.missing(c): E.reply('$-1\r\n')
    else: E.reply(TEXT(E, c) if E.ok(c) else errof(c.status))
def convert_(E):
    c = E.call('lhget', E.arg(3), E.arg(4), E.arg(5))
    if E.ok(c): E.error(); return
    d = E.call('hget', E.arg(1), E.arg(2))
    if not E.ok(d): E.reply(errof(d.status)); return
    f = E.call('lhset', E.arg(3), E.arg(4), E.arg(5), d.outs[0])
    if not E.ok(f): E.reply(errof(f.status)); return
    E.call('hdel', E.arg(1), (2, 3)); E.reply('+OK\r\n')
def type_(E): c = E.call('getType', E.arg(1)); E.reply(Str(['+', c.outs[0], '\r\n']))
def vhgetall_(E):
    c = E.call('vhgetall', E.arg(1))
    E.reply(vect(E.L, E.ctx, 'REPLY.versioned', c.outs[0], [zi(c.outs[1])]) if E.ok(c) else errof(c.status))
def fixed(E, *texts):
    v = Vec(parse('std::basic_string<char>'), items=list(texts)); return v
def clock_(E):
    c = E.call('getClock')
    E.reply(vect(E.L, E.ctx, 'REPLY.statusVector', fixed(E, Str(['STATIC-CLOCK: ', E.L.itos(E.ctx, c.outs[0])]), Str(['DYNAMIC-CLOCK: ', E.L.itos(E.ctx, z3.Int('dynamic'))]))))
def raw_(tomb):
    def go(E):
        if E.ctx.branch(ieq(E.n, 4)):
            if not E.calls: E.error(); return
            c = E.call('rawScanMaybeTombstones', E.arg(1)); E.out.append(('a positive count', ilt(0, c.ins[1]))); 
        else: c = E.call('rawScanMaybeTombstones', Str(['']) if E.ctx.branch(ieq(E.n, 1)) else E.arg(1), 50)
        E.out.append(('with or without tombstones', Iff_(c.ins[2], tomb)))
        E.reply(LIST(E, c) if E.ok(c) else errof(c.status))
    return go
def tx_(ro):
    def go(E):
        c = E.call('unpack')
        if not E.ctx.branch(c.outs[1]) or not E.ctx.branch(ilt(0, E.ctx.get_field(c.outs[0], 'requests').len())): E.error(); return
        d = E.call('runReadOnly' if ro else 'run'); E.reply(d.outs[0])
    return go
def be8_(E, x): return Str([E.L.be64(E.ctx, E.L.to_u64(E.ctx, x))])
def stamped(E, i): return E.ctx.branch(ieq(E.arg(i).len(), 8))
def acquire_(E):
    d = E.arg(3).term()
    if not stamped(E, 4) or not E.ctx.branch(And(INTOK(d), ile(1, INTVAL(d)), ilt(0, E.arg(2).len()))): E.error(); return
    c = E.call('lease_acquire', E.arg(1), E.arg(2)); st = {k: int(v) for k, v in E.L.prog.enums[Q + 'LeaseAcquisitionStatus']['vals'].items()}
    E.out.append(('at the time given', ieq(c.ins[2], E.L.be64_dec(E.ctx, E.arg(4))))); E.out.append(('for the duration given', ieq(c.ins[3], INTVAL(d))))
    if E.ctx.branch(ieq(c.status, st['kAcquired'])): E.reply('+ACQUIRED\r\n')
    elif E.ctx.branch(ieq(c.status, st['kRenewed'])): E.reply('+RENEWED\r\n')
    elif E.ctx.branch(ieq(c.status, st['kFailedDueToOtherOwner'])):
        l = c.outs[0]; E.reply(Str(["-ERR lease held by '", S(E.ctx.get_field(l, 'value')), "', time remaining ", E.L.itos(E.ctx, wrap_(E.ctx, isub(E.ctx.get_field(l, 'deadline'), c.ins[2]))), ' ms\r\n']))
    else: E.error()
def wrap_(ctx, x): return z3.If(zi(x) < 0, zi(x) + (1 << 64), zi(x)) if is_sym(x) else x % (1 << 64)
def leaseget_(E):
    if not stamped(E, 2): E.error(); return
    c = E.call('lease_get', E.arg(1)); E.out.append(('at the time given', ieq(c.ins[1], E.L.be64_dec(E.ctx, E.arg(2)))))
    if E.missing(c): E.reply('$-1\r\n'); return
    if not E.ok(c): E.reply(errof(c.status)); return
    l = c.outs[0]; E.reply(vect(E.L, E.ctx, 'REPLY.statusVector', fixed(E, Str(['HOLDER: ', S(E.ctx.get_field(l, 'value'))]), Str(['REMAINING: ', E.L.itos(E.ctx, wrap_(E.ctx, isub(E.ctx.get_field(l, 'deadline'), c.ins[1]))), ' ms']))))
def leaserel_(E):
    if not stamped(E, 2): E.error(); return
    c = E.call('lease_release', E.arg(1)); E.out.append(('at the time given', ieq(c.ins[1], E.L.be64_dec(E.ctx, E.arg(2)))))
    E.reply('$-1\r\n' if E.missing(c) else OKR(E, c) if E.ok(c) else errof(c.status))
def W(name, arity, go, **k): return ('W', name, arity, go, k)
def Rd(name, arity, go, **k): return ('R', name, arity, go, k)
TABLE = [
    W('FLUSHALL', eq(1), plain('flushall', [])), W('SET', eq(3), plain('set', [1, 2])), W('DEL', ge(2), plain('del', [rest(1)], INT)),
    W('HSET', eq(4), plain('hset', [1, 2, 3], INT)), W('HSETNX', eq(4), plain('hsetnx', [1, 2, 3], INT)), W('HMSET', lambda n: And(ile(4, n), ieq(zi(n) % 2, 0)), plain('hmset', [1, rest(2)])),
    W('HINCRBY', eq(4), plain('hincrby', [1, 2, 3], INT)), W('HINCRBYFLOAT', eq(4), plain('hincrbyfloat', [1, 2, 3], None)), W('HDEL', ge(3), plain('hdel', [1, rest(2)], INT)), W('HCLONE', eq(3), plain('hclone', [1, 2])),
    W('SADD', ge(3), plain('sadd', [1, rest(2)], INT)), W('SREM', ge(3), plain('srem', [1, rest(2)], INT)), W('SMOVE', eq(4), plain('smove', [1, 2, 3], INT)),
    W('DEQUE_PUSH_FRONT', ge(3), plain('dequePushFront', [1, rest(2)], INT)), W('DEQUE_PUSH_BACK', ge(3), plain('dequePushBack', [1, rest(2)], INT)),
    W('DEQUE_POP_FRONT', eq(2), plain('dequePopFront', [1], TEXT, True)), W('DEQUE_POP_BACK', eq(2), plain('dequePopBack', [1], TEXT, True)), W('DEQUE_TRIM_FRONT', eq(3), plain('dequeTrimFront', [1, 2], INT)), W('DEQUE_CLEAR', eq(2), plain('dequeTrimFront', [1, txt('0')], INT)),
    W('CONFIG_SET', eq(3), plain('configSet', [1, 2])), W('LHSET', eq(5), plain('lhset', [1, 2, 3, 4], INT)), W('LHDEL', ge(3), plain('lhdel', [1, rest(2)], INT)), W('LHLOCDEL', eq(4), plain('lhlocdel', [1, 2, 3], INT)),
    W('LHMSET', lambda n: And(ile(5, n), ieq((zi(n) - 2) % 3, 0)), plain('lhmset', [1, rest(2)])), W('LHSET_AND_DEL_FALLBACK', eq(6), lhset_fallback), W('LHDEL_WITH_FALLBACK', eq(4), lhdel_fallback), W('CONVERT_HASH_FIELD_TO_LHASH', eq(6), convert_),
    W('TIMESTAMPED_LEASE_ACQUIRE', eq(5), acquire_), W('TIMESTAMPED_LEASE_GET', eq(3), leaseget_), W('TIMESTAMPED_LEASE_RELEASE', eq(3), leaserel_),
    W('ARTIFICIALLY_SLOW_WRITE_NEVER_USE_THIS', eq(2), plain('artificiallySlowWriteNeverUseThis', [1])), W('VHSET', eq(4), plain('vhset', [1, 2, 3], INT)), W('VHDEL', ge(3), plain('vhdel', [1, rest(2)], INT)), W('TX_READWRITE', lambda n: True, tx_(False)),
    Rd('TYPE', eq(2), type_), Rd('GET', eq(2), plain('get', [1], TEXT, True)), Rd('EXISTS', ge(2), plain('exists', [rest(1)], INT)), Rd('KEYS', eq(2), plain('keys', [1], LIST)), Rd('SCAN', ge(2), scan_('scan', 1, False, True)),
    Rd('HGET', eq(3), plain('hget', [1, 2], TEXT, True)), Rd('HEXISTS', eq(3), found('hexists', [1, 2])), Rd('HKEYS', eq(2), plain('hkeys', [1], LIST)), Rd('HGETALL', eq(2), plain('hgetall', [1], LIST)), Rd('HLEN', eq(2), plain('hlen', [1], INT)), Rd('HVALS', eq(2), plain('hvals', [1], LIST)), Rd('HSCAN', ge(3), scan_('hscan', 2, True)),
    Rd('SISMEMBER', eq(3), found('sismember', [1, 2])), Rd('SMEMBERS', eq(2), plain('smembers', [1], LIST)), Rd('SCARD', eq(2), plain('scard', [1], INT)), Rd('SSCAN', ge(3), scan_('sscan', 2, True)), Rd('DEQUE_LEN', eq(2), plain('dequeLen', [1], INT)), Rd('DEQUE_SCAN_BACK', ge(3), scan_('dequeScanBack', 2, True)),
    Rd('CONFIG_GET', eq(2), plain('configGet', [1], TEXT, True)), Rd('CONFIG_GETALL', eq(1), plain('configGetall', [], LIST)), Rd('LHGET', eq(3, 4), lhget_), Rd('LHSCAN', ge(3), scan_('lhscan', 2, True, False, True)), Rd('LHGET_WITH_FALLBACK', eq(4, 5), lhget_fallback), Rd('LHLEN', eq(2), plain('lhlen', [1], INT)),
    Rd('RAW_SCAN', eq(1, 2, 4), raw_(False)), Rd('RAW_SCAN_TOMBSTONES', eq(1, 2, 4), raw_(True)), Rd('CLOCK_GET', eq(1), clock_), Rd('VHGETALL', eq(2), vhgetall_), Rd('VHLEN', eq(2), plain('vhlen', [1], INT)), Rd('TX_READONLY', lambda n: True, tx_(True)),
]
def cmdsetup(self, ctx, f):
    smc = ctx.cell('store', parse(SMQ[:-2]), Struct(parse(SMQ[:-2]), {}, origin='store')); pub = ctx.cell('pub', parse(Q + 'Publisher'), Struct(parse(Q + 'Publisher'), {}, origin='pub'))
    this = ctx.cell('this', parse(RD), Struct(parse(RD), {'store': Ptr(smc), 'publisher': Ptr(pub)}, origin='this'))
    area = ctx.cell('area', parse(SA), Struct(parse(SA), {}, origin='area')); ctx.ghost['area'] = area; ctx.ghost['calls'] = []
    return this, [area, ctx.cell('request', REQ, ctx.lib.fresh(ctx, REQ, 'request'))]
def cmd(kind, name, arity, go, k):
    def requires(s):
        n = n_(s); C = reqs.cmds(s.lib.prog)
        return [ile(1, n), ilt(n, 1 << 31), ieq(q_(s, 1, 'command'), C[name]), ieq(q_(s, 1, 'commandType'), WRITE if kind == 'W' else READ)] + [ile(R_(s, i).len(), 1 << 40) for i in range(6)]
    def ensures(s):
        E = E_(s)
        try:
            if s.ctx.branch(arity(E.n)): go(E)
            else: E.error()
            E.done()
        except Done: pass
        return E.out
    return spec(RDQ + ('dispatchWrite' if kind == 'W' else 'dispatchRead'), ensures, requires, nparams=2, name=name, setup=cmdsetup)
COMMANDS = [cmd(*t) for t in TABLE]
# ---- wrong arity only (what they answer otherwise is compared by the harness)
def arity_only(kind, name, arity):
    c = cmd(kind, name, lambda n: False, None, {}); req = c.requires
    c.requires = lambda self, s: req(self, s) + [Not(arity(n_(s)))]
    return c
COMMANDS += [arity_only('R', 'RAW_GET_ALL_VERSIONS', eq(2)), arity_only('R', 'LEASE_GET_PENDING_EXPIRATION_EVENTS', eq(1)), arity_only('W', 'HINCRBYMULTI', lambda n: And(ile(4, n), ieq((zi(n) - 1) % 3, 0)))]
# ---- every other command: refused, nothing is run
def others(kind):
    known = [t[1] for t in TABLE if t[0] == kind] + (['HINCRBYMULTI'] if kind == 'W' else ['RAW_GET_ALL_VERSIONS', 'LEASE_GET_PENDING_EXPIRATION_EVENTS'])
    def requires(s):
        C = reqs.cmds(s.lib.prog); x = zi(q_(s, 1, 'command'))
        return [ile(1, n_(s)), ilt(n_(s), 1 << 31), ieq(q_(s, 1, 'commandType'), WRITE if kind == 'W' else READ), z3.And(x >= 0, x <= max(C.values()))] + [x != C[k] for k in known]
    def ensures(s): E = E_(s); E.error(); E.done(); return E.out
    return spec(RDQ + ('dispatchWrite' if kind == 'W' else 'dispatchRead'), ensures, requires, nparams=2, name='other' + ('Writes' if kind == 'W' else 'Reads'), setup=cmdsetup)
COMMANDS += [others('W'), others('R')]
# ---- hincrbymulti: the sum of the successful increments, applied in order
class Multi:
    def __call__(self, ctx, s0, vec, k):
        L = ctx.lib; vec = raw(vec); arr, _ = L.vec_arr(ctx, vec); K = simp0_(zi(k)); so = [IS, arr.sort(), IS, IS]
        fs, ft = z3.Function('MULTI.state', *so), z3.Function('MULTI.sum', *so); s, t = fs(s0, arr, K), ft(s0, arr, K); key = ('multi', s.get_id())
        if key not in ctx.memo:
            ctx.memo[key] = (s, t); j = simp0_(K - 1)
            if ctx.V.unroll is not None and ctx.ghost.get('$folddepth', 0) < ctx.V.unroll + 1:
                ctx.ghost['$folddepth'] = ctx.ghost.get('$folddepth', 0) + 1; self(ctx, s0, vec, j); ctx.ghost['$folddepth'] -= 1
            ctx.in_spec += 1
            try: el = [S(L.elem_get(ctx, Vec(vec.et, arr=arr, n=vec.len()), simp0_(3 * j + 1 + d))).term() for d in range(3)]
            finally: ctx.in_spec -= 1
            ps, pt = fs(s0, arr, j), ft(s0, arr, j); n, o, v = HI(ps, *el)
            ctx.assume(z3.Implies(K <= 0, z3.And(s == s0, t == 0))); ctx.assume(z3.Implies(K > 0, z3.And(s == n, t == pt + z3.If(o == 0, v, 0))))
        return s, t
def HI(s, k, f, d):
    a = [s, k, f, d]; so = [x.sort() for x in a]
    return z3.Function('HINCRBY.next', *(so + [IS]))(*a), z3.Function('HINCRBY.status', *(so + [IS]))(*a), z3.Function('HINCRBY.value', *(so + [IS]))(*a)
MULTI = Multi()
def install_multi(prog, lib, reg):
    install_cmds(prog, lib, reg); lib.ghost_recs.add(SA)
    def hincrby(ctx, o, args, e):
        a = args[0]; st = FieldLV(a, 'state'); n, c, v = HI(st.get(), *[S(lval(x)).term() for x in args[1:4]])
        ctx.assume(z3.And(c >= 0, c < 16, v >= -(1 << 63), v < 1 << 63)); st.set(n); args[4].set(z3.If(c == 0, v, ctx.fint('partial', 'long')))
        return Struct(parse('rocksdb::Status'), {'code': c, 'msg': Str([z3.String(ctx.uniq('msg'))])})
    reg.mod[SMQ + 'hincrby'] = hincrby
def multisetup(self, ctx, f):
    this, a = cmdsetup(self, ctx, f); a[0].set(Struct(parse(SA), {'state': z3.Int('state0')}, origin='area')); return this, a
def multireq(s):
    C = reqs.cmds(s.lib.prog); n = n_(s)
    return [ile(4, n), ilt(n, 1 << 31), ieq((zi(n) - 1) % 3, 0), ieq(q_(s, 1, 'command'), C['HINCRBYMULTI']), ieq(q_(s, 1, 'commandType'), WRITE)]
def multiinv(lc):
    ctx = lc.ctx; s = ctx.ghost['scope']; vec = s.ctx.get_field(s.args[1].get(s.pre), 'contents'); s0 = z3.Int('state0'); out = []
    for c in counters(lc):
        if not lc.modified(c.l): continue
        for div in (3, 1):
            def k(c=c, div=div): d = zi(isub(c.get(), c.get(lc.entry))); return d / 3 if div == 3 else d
            if div == 3: out.append(('%s is at a triple' % c, lambda c=c: ieq(zi(isub(c.get(), c.get(lc.entry))) % 3, 0)))
            out.append(('the batch holds the effect of the increments before %s/%d' % (c, div), lambda k=k: ieq(FieldLV(s.args[0], 'state').get(), MULTI(ctx, s0, vec, k())[0])))
            for x in intplaces(lc):
                if not lc.modified(x) or repr(x) == repr(c.l): continue
                out.append(('%s is the sum of the increments before %s/%d' % (x, c, div), lambda x=x, k=k: ieq(x.get(), MULTI(ctx, s0, vec, k())[1])))
    return out
def multidone(s):
    vec = s.ctx.get_field(s.args[1].get(s.pre), 'contents'); st, t = MULTI(s.ctx, z3.Int('state0'), vec, (zi(n_(s)) - 1) / 3)
    return [('every increment runs once, in order', ieq(FieldLV(s.args[0], 'state').get(), st)), ('the sum of the successful ones is replied', seq_(val(s), Str([':', s.lib.itos(s.ctx, t), '\r\n'])))]
MULTIU = [spec(RDQ + 'dispatchWrite', multidone, multireq, invs=multiinv, nparams=2, name='HINCRBYMULTI in full', setup=multisetup)]
# ---- batches of requests never fail
from . import dispspec as DS
def install_calm(prog, lib, reg):
    DS.install_disp(prog, lib, reg); F = DS.fns(lib)
    def write(ctx, o, args, e):
        a, q = args; v = DS.aview(a, ctx); p = DS.pk(ctx, q); ctx.check(ieq(ctx.get_field(q.get(), 'commandType'), WRITE), 'only writes are run as writes', 'pre'); DS.setview(a, View_(ctx, F['wd'](v.dom, v.val, p), F['wv'](v.dom, v.val, p))); return rep(F['wr'](v.dom, v.val, p))
    def read(ctx, o, args, e):
        a, q = args; v = DS.aview(a, ctx); return rep(F['rr'](v.dom, v.val, DS.pk(ctx, q)))
    reg.mod[RDQ + 'dispatchWrite'] = write; reg.mod[RDQ + 'dispatchRead'] = read
def nonempty(r): return lambda s: r(s) + [ilt(0, s.ctx.get_field(s.args[1].get(), 'requests').len())]
CALM = [
    spec(RDQ + 'dispatch', DS.ran, nonempty(DS.prep(1)), invs=DS.runinv, nparams=2, sig_has='StagingArea', name='batch', setup=DS.dispsetup),
    spec(RDQ + 'dispatchReadOnly', DS.ran, nonempty(lambda s: DS.prep(1)(s) + DS.classified(s) + [Not(DS.q_(s, 1, 'hasWrites'))]), invs=DS.runinv, nparams=2, name='batchReadOnly', setup=DS.dispsetup),
    spec(RDQ + 'dispatchReadWrite', DS.one, nparams=2, name='dispatchReadWrite', setup=DS.dispsetup)]
# ---- ping and conversion
def anydisp(self, ctx, f):
    ctx.ghost['calls'] = []; this = ctx.cell('this', parse(f['cls']), Struct(parse(f['cls']), {}, origin='this')); return this, [ctx.cell('request', REQ, ctx.lib.fresh(ctx, REQ, 'request'))]
def n0_(s): return s.ctx.get_field(s.args[0].get(s.pre), 'contents').len()
def R0_(s, i):
    s.ctx.in_spec += 1
    try: return S(s.lib.elem_get(s.ctx, s.ctx.get_field(s.args[0].get(s.pre), 'contents'), i))
    finally: s.ctx.in_spec -= 1
def errp(s): return ('an error is replied', z3.PrefixOf(z3.StringVal('-'), S(val(s)).term()))
def ping_(s):
    n = n0_(s)
    if s.ctx.branch(ieq(n, 1)): return [('pong', seq_(val(s), Str(['+PONG\r\n'])))]
    return [('its argument comes back', seq_(val(s), bulk(s.ctx, R0_(s, 1))))] if s.ctx.branch(ieq(n, 2)) else [errp(s)]
DQ = Q + 'Dispatcher::'
PING = [spec(DQ + 'handlePing', ping_, lambda s: [ile(1, n0_(s)), ilt(n0_(s), 1 << 31), ieq(q_(s, 0, 'command'), reqs.cmds(s.lib.prog)['PING'])], nparams=1, name='handlePing', setup=anydisp)]
