"""C17: replies"""
from cxv.runner import Harness
from cxv.spec import *
ID = 'C17'
FILES = ['Formatter.cc', 'redis/ArrayResponseBuilder.cc', 'redis/Transaction.cc']
BULKS = Fold('BULKS', lambda ctx, x: bulk(ctx, x))
LINES = Fold('LINES', lambda ctx, x: simple_line(ctx, x))
PAIRS_ = Fold('PAIRS', lambda ctx, p: bulk(ctx, ctx.get_field(p, 'first')) + bulk(ctx, ctx.get_field(p, 'second')))
def head(s, mark, n): return Str([mark, s.lib.itos(s.ctx, n), NL])
def val(s): return s.ret.val if isinstance(s.ret, View) else s.ctx.get_field(s.ret, 'val')
def is_(lab, text): return lambda s: [(lab, seq_(val(s), text(s)))]
def B(s, i): return bulk(s.ctx, s.argv(i))
def I(s, x): return Str([':', s.lib.itos(s.ctx, x), NL])
F = 'quarkdb::Formatter::'
def contents(s, i): return s.ctx.get_field(s.argv(i), 'contents')
def seqacc(i, fold): return accumulate(lambda s, k: fold(s.ctx, s.argv(i), k))
ACCS = [
    spec(F + 'err', is_('an error line with exactly the message', lambda s: Str(['-ERR ', s.argv(0), NL]))),
    spec(F + 'noauth', is_('a NOAUTH error line with exactly the message', lambda s: Str(['-NOAUTH ', s.argv(0), NL]))),
    spec(F + 'errArgs', is_('the wrong-arguments error names the command', lambda s: Str(["-ERR wrong number of arguments for '", s.argv(0), "' command\r\n"]))),
    spec(F + 'pong', is_('PONG', lambda s: Str(['+PONG\r\n']))),
    spec(F + 'ok', is_('OK', lambda s: Str(['+OK\r\n']))),
    spec(F + 'null', is_('null bulk', lambda s: Str(['$-1\r\n']))),
    spec(F + 'string', is_('a bulk string: length in bytes, then exactly the bytes', lambda s: B(s, 0)), nparams=1),
    spec(F + 'status', is_('a status line', lambda s: simple_line(s.ctx, s.argv(0))), nparams=1),
    spec(F + 'integer', is_('an integer reply with the number', lambda s: I(s, s.argv(0))), nparams=1),
    spec(F + 'vector', is_('array header with the element count, then each element once, in order', lambda s: head(s, '*', s.argv(0).len()) + BULKS(s.ctx, s.argv(0), s.argv(0).len())), invs=seqacc(0, BULKS)),
    spec(F + 'statusVector', is_('array header with the element count, then each line once, in order', lambda s: head(s, '*', s.argv(0).len()) + LINES(s.ctx, s.argv(0), s.argv(0).len())), nparams=1, invs=seqacc(0, LINES)),
    spec(F + 'scan', is_('cursor, then array of the elements', lambda s: Str(['*2\r\n', B(s, 0)]) + head(s, '*', s.argv(1).len()) + BULKS(s.ctx, s.argv(1), s.argv(1).len())), invs=seqacc(1, BULKS)),
    spec(F + 'versionedVector', is_('version number, then array of the elements', lambda s: Str(['*2\r\n', I(s, s.argv(0))]) + head(s, '*', s.argv(1).len()) + BULKS(s.ctx, s.argv(1), s.argv(1).len())), invs=seqacc(1, BULKS)),
    spec(F + 'vhashRevision', is_('revision number, then array of alternating fields and values', lambda s: Str(['*2\r\n', I(s, s.argv(0))]) + head(s, '*', s.argv(1).len() * 2) + PAIRS_(s.ctx, s.argv(1), s.argv(1).len())), requires=lambda s: [ile(s.argv(1).len(), (1 << 62))], invs=seqacc(1, PAIRS_)),
    spec(F + 'simpleRedisRequest', lambda s: [('array header with the argument count, then each argument once, in order', seq_(val(s), samelemma(s) or head(s, '*', contents(s, 0).len()) + BULKS(s.ctx, contents(s, 0), contents(s, 0).len())))],
         invs=gens(prefix_of(lambda s, i: S(s.lib.elem_get(s.ctx, contents(s, 0), i))))),
    spec(F + 'message', is_('message push', lambda s: Str([Ite_str(s, ">4\r\n$6\r\npubsub\r\n", "*3\r\n"), "$7\r\nmessage\r\n", B(s, 1), B(s, 2)]))),
    spec(F + 'pmessage', is_('pattern message push', lambda s: Str([Ite_str(s, ">5\r\n$6\r\npubsub\r\n", "*4\r\n"), "$8\r\npmessage\r\n", B(s, 1), B(s, 2), B(s, 3)]))),
]
def Ite_str(s, a, b):
    c = s.argv(0)
    return Str([a if c is True else b if c is False else z3.If(c, zlit(a), zlit(b))])
for w in ('subscribe', 'psubscribe', 'unsubscribe', 'punsubscribe'):
    ACCS.append(spec(F + w, is_('the %s confirmation carries channel and count' % w, lambda s, w=w: Str([Ite_str(s, ">4\r\n$6\r\npubsub\r\n", "*3\r\n"), '$%d\r\n%s\r\n' % (len(w), w), B(s, 1), I(s, s.argv(2))])), requires=lambda s: [ile(s.argv(2), (1 << 31) - 1)]))
def moved(s):
    from .journal import srv_str
    return Str(['-MOVED ', s.lib.itos(s.ctx, s.argv(0)), ' ', srv_str(s.ctx, s.argv(1)), NL])
ACCS.append(spec(F + 'moved', is_('redirection names the shard and the node', moved)))
def srvlv(s): return s.argv(1)
REP = Fold('REPEAT', lambda ctx, u, x: S(x))
def rep(s, k):
    f = z3.Function('REPEAT', z3.StringSort(), z3.IntSort(), z3.StringSort())
    x = s.ctx.get_field(s.argv(0), 'val').term(); K = zi(k)
    t = f(x, simp0_(K))
    s.lib.note(s.ctx, t, [z3.Implies(K <= 0, t == z3.StringVal('')), z3.Implies(K > 0, t == z3.Concat(f(x, simp0_(K - 1)), x))])
    return Str([t])
ACCS.append(spec(F + 'multiply', is_('the reply repeated exactly factor times', lambda s: rep(s, s.argv(1))), invs=accumulate(rep), throws=lambda s, ty: [('refused only for factor 0', ieq(s.argv(1), 0))]))
# ArrayResponseBuilder: text so far = header + what was pushed; misuse is refused
A_ = 'quarkdb::ArrayResponseBuilder::'
def buf(s, snap): return FieldLV(FieldLV(s.thislv, 'ss'), 'buf').get(snap)
def rem(s, snap): return FieldLV(s.thislv, 'itemsRemaining').get(snap)
ACCS += [
    spec(A_ + 'ArrayResponseBuilder', lambda s: [('the header announces the size unless phantom', seq_(buf(s, None), hdr(s))), ('every announced item is still missing', ieq(rem(s, None), s.argv(0)))], nparams=2, throws=lambda s, ty: [('refused only for size 0', ieq(s.argv(0), 0))]),
    spec(A_ + 'push_back', lambda s: [('exactly the item is added', seq_(buf(s, None), buf(s, s.pre) + s.ctx.get_field(s.argv(0), 'val'))), ('one item fewer is missing', ieq(iadd(rem(s, None), 1), rem(s, s.pre)))], throws=lambda s, ty: [('refused only when complete', ieq(rem(s, s.pre), 0))]),
    spec(A_ + 'buildResponse', lambda s: [('only a complete array is handed out', ieq(rem(s, s.pre), 0)), ('the reply is the text built so far', seq_(val(s), buf(s, s.pre)))], throws=lambda s, ty: [('refused only when items are missing', Not(ieq(rem(s, s.pre), 0)))]),
]
def hdr(s):
    c = s.argv(1); h = head(s, '*', s.argv(0)).term()
    return Str([z3.If(zb(c), z3.StringVal(''), h)])
# nested: one section per header
def section(ctx, h, d): return Str(['*2\r\n', simple_line(ctx, h), '*', ctx.lib.itos(ctx, d.len()), NL, LINES(ctx, d, d.len())])
SECTIONS = Fold('SECTIONS', section)
def inner(s, k):
    c = s.ctx
    for i in c.ghost.get('$outer', []): pass
    raise Unsupported('no outer counter')
def nested(lc):
    """inner loop: the text grew by the first k lines of the section that the outer counter points to"""
    ctx = lc.ctx; s = ctx.ghost['scope']; out = []
    cs = counters(lc)
    for c in cs:
        if not lc.modified(c.l): continue
        for t in texts(lc):
            if not lc.modified(t): continue
            for o in cs:
                if lc.modified(o.l) or o.kind != 'int': continue
                def cl(c=c, t=t, o=o):
                    row = s.lib.elem_get(ctx, s.argv(1), o.get())
                    return seq_(t.get(), t.get(lc.entry) + LINES(ctx, row, c.get()))
                out.append(('%s = its entry text + first %s lines of section %s' % (t, c, o), cl))
    return out
ACCS.append(spec(F + 'vectorsWithHeaders', is_('one section per header: the header and exactly its lines', lambda s: head(s, '*', s.argv(0).len()) + SECTIONS(s.ctx, [s.argv(0), s.argv(1)], s.argv(0).len())),
    invs=gens(accumulate(lambda s, k: SECTIONS(s.ctx, [s.argv(0), s.argv(1)], k)), nested), throws=lambda s, ty: [('refused only for lists of different length', Not(ieq(s.argv(0).len(), s.argv(1).len())))]))
def samelemma(s):
    for v in s.ctx.ghost.get('vectors', []): s.ctx.assume(BULKS.same(s.ctx, v, contents(s, 0), contents(s, 0).len()))
RES = parse('quarkdb::RedisEncodedResponse')
REQ = parse('quarkdb::RedisRequest')
ENT = parse('quarkdb::RaftEntry')
def reply(t): return Struct(RES, {'val': S(t)})
def arr_text(ctx, v): return Str(['*', ctx.lib.itos(ctx, v.len()), NL, BULKS(ctx, v, v.len())])
def req_text(ctx, req): return arr_text(ctx, ctx.get_field(req, 'contents'))
def rreq(ctx, req):
    """text of a request whose transaction payloads are expanded (defined by the contract of redisRequest)"""
    return Str([z3.Function('RREQ', ctx.lib.sort(REQ), z3.StringSort())(ctx.lib.pack(ctx, req, REQ))])
def entry_text(ctx, en, raw_, idx):
    """text of a journal entry"""
    it = lambda lab, x: bulk(ctx, Str([lab, ctx.lib.itos(ctx, x)]))
    rq = ctx.get_field(en, 'request')
    body = req_text(ctx, rq) if ctx.branch(raw_) else rreq(ctx, rq)
    term = it('TERM: ', ctx.get_field(en, 'term'))
    return Str(['*2\r\n', term, body]) if ctx.branch(ieq(idx, -1)) else Str(['*3\r\n', it('INDEX: ', idx), term, body])
def rent(ctx, en, raw_, idx):
    L = ctx.lib
    f = z3.Function('RENTRY', L.sort(ENT), z3.BoolSort(), z3.IntSort(), z3.StringSort())
    return Str([f(L.pack(ctx, en, ENT), zb(raw_), zi(idx))])
ENTRIES = Fold('ENTRIES', lambda ctx, en, r: rent(ctx, en, r != 0, -1))
INDEXED = Fold('INDEXED', lambda ctx, ei: rent(ctx, ctx.get_field(ei, 'entry'), False, ctx.get_field(ei, 'index')))
REQS = Fold('REQS', lambda ctx, r: req_text(ctx, r))
TXV = parse('std::vector<quarkdb::RedisRequest, std::allocator<quarkdb::RedisRequest>>')
def txreqs(ctx, payload): return ctx.lib.unpack(ctx, z3.Function('TXREQS', z3.StringSort(), ctx.lib.sort(TXV))(S(payload).term()), TXV)
def install(prog, lib, reg):
    def vector(ctx, o, args, e):
        v = args[0].get()
        ctx.ghost.setdefault('vectors', []).append(v)
        return reply(arr_text(ctx, v))
    reg.mod['quarkdb::Formatter::vector'] = vector
    reg.mod['quarkdb::Formatter::simpleRedisRequest'] = lambda ctx, o, args, e: reply(req_text(ctx, args[0].get()))
    reg.mod['quarkdb::Formatter::redisRequest'] = lambda ctx, o, args, e: reply(rreq(ctx, args[0].get()))
    reg.mod['quarkdb::Formatter::raftEntry'] = lambda ctx, o, args, e: reply(rent(ctx, args[0].get(), val_(args[1]), val_(args[2]) if len(args) > 2 else -1))
    def deser(ctx, o, args, e):
        t = txreqs(ctx, lib.as_str(ctx, args[0]))
        FieldLV(o, 'requests').set(t)
        return True
    for f in prog.byq.get('quarkdb::Transaction::deserialize', []):
        if 'PinnedBuffer' in f['sig']: reg.mod[f['sig']] = deser
    def deserq(ctx, o, args, e):
        q = val_(args[0])
        if not ctx.branch(txok(ctx, q)): return False
        return deser(ctx, o, [lib.elem_get(ctx, ctx.get_field(q, 'contents'), 1)], e)
    for f in prog.byq.get('quarkdb::Transaction::deserialize', []):
        if 'PinnedBuffer' not in f['sig']: reg.mod[f['sig']] = deserq
    lib.extra_methods[('quarkdb::Transaction', 'deserialize')] = lambda L, ctx, o, e: (deser if 'PinnedBuffer' in e['pt'][0] else deserq)(ctx, o, [ctx.ev(e['args'][0])], e)
def txok(ctx, q):
    """the request is a well-formed transaction (a function of the request; the contract of Transaction::deserialize is C18)"""
    n = ctx.get_field(q, 'contents').len(); en = ctx.lib.prog.enums['quarkdb::RedisCommand']['vals']; c = ctx.get_field(q, 'command')
    return And(z3.Function('TXOK', ctx.lib.sort(REQ), z3.BoolSort())(ctx.lib.pack(ctx, q, REQ)), ieq(n, 3), Or(ieq(c, int(en['TX_READONLY'])), ieq(c, int(en['TX_READWRITE']))))
def val_(a): return a.get() if isinstance(a, LV) else a
def cmd(s, req): return s.ctx.get_field(req, 'command')
def is_tx(s): 
    en = s.lib.prog.enums['quarkdb::RedisCommand']['vals']
    c = cmd(s, s.argv(0))
    return Or(ieq(c, int(en['TX_READONLY'])), ieq(c, int(en['TX_READWRITE'])))
def rr(s):
    q = contents(s, 0)
    n = q.len()
    p0, p1 = s.lib.elem_get(s.ctx, q, 0), s.lib.elem_get(s.ctx, q, 1)
    tx = txreqs(s.ctx, p1)
    text = Str(['*', s.lib.itos(s.ctx, iadd(tx.len(), 1)), NL, bulk(s.ctx, p0), REQS(s.ctx, tx, tx.len())])
    if not s.ctx.branch(txok(s.ctx, s.argv(0))): return [('an ordinary or malformed request is one array of its arguments', seq_(val(s), req_text(s.ctx, s.argv(0))))]
    return [('a transaction is an array of its name and each of its requests, in order', seq_(val(s), text))]
def txacc(s, k):
    q = contents(s, 0)
    return REQS(s.ctx, txreqs(s.ctx, s.lib.elem_get(s.ctx, q, 1)), k)
ACCS += [
    spec(F + 'redisRequest', rr, requires=lambda s: [ile(txreqs(s.ctx, s.lib.elem_get(s.ctx, contents(s, 0), 1)).len(), 1 << 60)], invs=accumulate(txacc)),
    spec(F + 'raftEntry', is_('a journal entry shows index, term and request', lambda s: entry_text(s.ctx, s.argv(0), s.argv(1), s.argv(2)))),
    spec(F + 'raftEntries', is_('array of all entries, in order', lambda s: head(s, '*', s.argv(0).len()) + ENTRIES(s.ctx, s.argv(0), s.argv(0).len(), extra=(Ite(s.argv(1), 1, 0),))), invs=accumulate(lambda s, k: ENTRIES(s.ctx, s.argv(0), k, extra=(Ite(s.argv(1), 1, 0),)))),
    spec(F + 'journalScan', is_('cursor (0 at the end), then the entries with their indexes', lambda s: Str(['*2\r\n', bulk(s.ctx, Str(['0']) if s.ctx.branch(ieq(s.argv(0), 0)) else Str(['next:', s.lib.itos(s.ctx, s.argv(0))]))]) + head(s, '*', s.argv(1).len()) + INDEXED(s.ctx, s.argv(1), s.argv(1).len())), invs=accumulate(lambda s, k: INDEXED(s.ctx, s.argv(1), k))),
    spec(F + 'stats', is_('the four counters under their names', lambda s: Str(['*4\r\n'] + [simple_line(s.ctx, Str([n, s.lib.itos(s.ctx, s.ctx.get_field(s.argv(0), f))])) for n, f in (('TOTAL-READS ', 'reads'), ('TOTAL-WRITES ', 'writes'), ('TOTAL-TXREAD ', 'txread'), ('TOTAL-TXREADWRITE ', 'txreadwrite'))]))),
    spec(F + 'fromStatus', lambda s: [('success is OK, failure is an error line', Ite_s(ieq(s.ctx.get_field(s.argv(0), 'code'), 0), seq_(val(s), Str(['+OK\r\n'])), z3.PrefixOf(z3.StringVal('-ERR '), val(s).term())))]),
]
def Ite_s(c, a, b): return And(Implies(c, a), Implies(Not(c), b))
UNITS = units_of(ACCS, install)
HARNESS = Harness('c17.cc', time=8)
TRUSTED = ['contract of Transaction::deserialize as an uninterpreted parse of the payload (its own contract is C18)']
ASSUME = ['decimal formatting of integers by the standard library is injective', 'containers hold fewer than 2^63 elements', 'subscription counts stay below 2^31']
