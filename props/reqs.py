"""requests: contents, and command / kind as functions of the first argument (the command table is checked by the harness of C18)"""
from cxv.spec import *
REQ = parse('quarkdb::RedisRequest')
CMD = z3.Function('CMD', z3.StringSort(), z3.IntSort())
KIND = z3.Function('KIND', z3.StringSort(), z3.IntSort())
READ, WRITE = 1, 2
def install(prog, lib, reg):
    en = prog.enums['quarkdb::RedisCommand']['vals']; ek = prog.enums['quarkdb::CommandType']['vals']
    lib.table = [(n, int(en[n.upper()]), k) for n, k in (('timestamped_lease_get', WRITE), ('timestamped_lease_acquire', WRITE), ('timestamped_lease_release', WRITE), ('tx_readonly', READ), ('tx_readwrite', WRITE))]
    def parsecmd(ctx, o, args, e):
        c = FieldLV(o, 'contents').get()
        if ctx.branch(ieq(c.len(), 0)): FieldLV(o, 'command').set(0); FieldLV(o, 'commandType').set(0); return
        x = S(lib.elem_get(ctx, c, 0)); t = x.term()
        for n, v, k in lib.table: ctx.assume(z3.And(CMD(z3.StringVal(n.upper())) == v, KIND(z3.StringVal(n.upper())) == k))
        lib.note(ctx, CMD(t), [CMD(t) >= 0, CMD(t) < 256, KIND(t) >= 0, KIND(t) < 16])
        FieldLV(o, 'command').set(CMD(t)); FieldLV(o, 'commandType').set(KIND(t))
    reg.mod['quarkdb::RedisRequest::parseCommand'] = parsecmd
def cmds(prog): return {n: int(v) for n, v in prog.enums['quarkdb::RedisCommand']['vals'].items()}
def contents(s, lv_or_val): 
    v = lv_or_val.get() if isinstance(lv_or_val, LV) else lv_or_val
    return s.ctx.get_field(v, 'contents')
