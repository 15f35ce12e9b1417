// requests of any form through the real dispatcher: malformed ones get an error and change nothing, the others what the model says; nothing brings the server down
#include "sm.hh"
static Str enc(const std::vector<Req> &m) { Str s = be64(m.size()); for(auto &r : m) { s += be64(r.size()); for(auto &x : r) s += be64(x.size()) + x; } return s; }
static Str junk() { switch(H::pick(0, 4)) { case 0: return ""; case 1: return be64(H::pick(0, 3)); case 2: { Str s; for(int i = H::pick(0, 30); i > 0; i--) s.push_back((char)H::pick(0, 255)); return s; } default: return H::one<Str>({"count", "0", "next:", "-1", "phantom", "real", "k", "JOURNAL_X"}); } }
// an error reply, once, and no effect
static void refused(Box &b, const Req &r, const Str &why, int kind = 0) {
  H::step(why + ": " + show(r)); b.sig = b.sig * 1000003 + H::hash(show(r)); Str out; bool wr = Box::isWrite(r); LogIndex ix = wr && b.journaled ? b.m.applied + 1 : 0;
  try { RedisRequest q = Box::mk(r); if(kind == 0) out = b.disp->dispatch(q, ix).val; else { Transaction t; t.push_back(std::move(q)); t.setPhantom(kind == 2); out = b.disp->dispatch(t, ix).val; } } catch(const std::exception &e) { H::fail(Str("the request brings the server down: ") + Str(e.what()).substr(0, 300)); }
  if(ix) { b.m.applied = ix; b.past.push_back(b.m); }
  size_t p = 0; Val v; if(!parseVal(out, p, v) || p != out.size()) H::fail("the reply is " + H::show(out)); if(kind == 1) { if(v.t != '*' || v.a.size() != 1) H::fail("the reply is " + H::show(out)); Val w = v.a[0]; v = w; }
  if(v.t != '-') H::fail("not refused, the reply is " + v.show()); b.raw("after the refusal");
}
static void arity(Box &b, Gen &g) {
  auto &sh = H::one(Gen::shapes()); if(sh.first == "keys") return; Req r = g.make(sh);
  switch(H::pick(0, 3)) { case 0: if(r.size() > 1) r.pop_back(); break; case 1: r.push_back(junk()); break; case 2: r.resize(1); break; default: while(H::chance(2, 3)) r.push_back(g.F()); }
  for(auto &c : r[0]) { if(c == '_' && H::chance(1, 6)) c = '-'; else if(H::chance(1, 6)) c = toupper(c); }
  b.send({r}, H::pick(0, 2)); b.raw("after the request");
}
static void scanArgs(Box &b, Gen &g) {
  static const std::vector<std::pair<Str, int>> C = {{"scan", 1}, {"hscan", 2}, {"sscan", 2}, {"deque_scan_back", 2}, {"lhscan", 2}}; auto &c = H::one(C); Req r = {c.first}; if(c.second == 2) r.push_back("nosuchkey");
  bool good = true; Str cur = H::one<Str>({"0", "0", "next:", "next:a", "1", "", "next", "-1", "00"}); r.push_back(cur); if(cur != "0" && cur.compare(0, 5, "next:")) good = false; if(c.first == "deque_scan_back" && cur != "0") cur = r.back() = "0", good = true;
  for(int i = H::pick(0, 3); i > 0; i--) {
    switch(H::pick(0, 4)) {
      case 0: { Str n = H::one<Str>({"1", "7", "0", "-1", "x", "", "00", "99999999999999999999"}); r.push_back(H::one<Str>({"count", "COUNT", "Count"})); r.push_back(n); if(n != "1" && n != "7") good = false; break; }
      case 1: r.push_back(H::one<Str>({"match", "MATCH"})); r.push_back("*"); if(c.first != "scan") good = false; break;
      case 2: r.push_back(H::one<Str>({"matchloc", "MatchLoc"})); r.push_back("*"); if(c.first != "lhscan") good = false; break;
      case 3: if(H::chance(1, 3)) { r.push_back("count"); good = false; i = 1; } break;
      default: if(H::chance(1, 3)) { r.push_back(H::one<Str>({"", "cnt", "counts", "coun"})); r.push_back("1"); good = false; }
    }
  }
  if(!good) { refused(b, r, "malformed scan"); return; }
  H::step("well-formed scan: " + show(r)); Str out; try { RedisRequest q = Box::mk(r); out = b.disp->dispatch(q, 0).val; } catch(const std::exception &e) { H::fail(Str("the request brings the server down: ") + Str(e.what()).substr(0, 300)); }
  size_t p = 0; Val v; bool ok = parseVal(out, p, v) && p == out.size(); if(ok && c.first == "lhscan" && cur != "0" && v.t == '-') return; if(!ok || v.t != '*' || v.a.size() != 2 || v.a[0].t != '$' || v.a[1].t != '*') H::fail("the reply is " + H::show(out)); if(v.a[0].s != "0" && v.a[0].s.compare(0, 5, "next:")) H::fail("the next cursor is " + H::show(v.a[0].s));
  (void) g;
}
static void txs(Box &b, Gen &g) {
  std::vector<Req> m; bool w = false; for(int i = H::pick(0, 3); i > 0; i--) { m.push_back(g.next()); w |= Box::isWrite(m.back()); }
  switch(H::pick(0, 7)) {
    case 0: refused(b, {"tx_readwrite", enc({}), H::one<Str>({"real", "phantom"})}, "an empty transaction"); break;
    case 1: refused(b, {"tx_readonly", enc({}), H::one<Str>({"real", "phantom"})}, "an empty transaction"); break;
    case 2: m.push_back(g.next()); w |= Box::isWrite(m.back()); refused(b, {w ? "tx_readonly" : "tx_readwrite", enc(m), H::one<Str>({"real", "phantom"})}, "a transaction of the other kind"); break;
    case 3: m.push_back({H::one<Str>({"ping", "raft_info", "nonsense", "exec", "JOURNAL_X"})}); refused(b, {w ? "tx_readwrite" : "tx_readonly", enc(m), "real"}, "a transaction with a request that is neither read nor write"); break;
    case 4: { Str s = enc(m); if(s.size() > 8) s.resize(H::pick(8, s.size() - 1)); if(m.empty()) s = junk(); refused(b, {H::one<Str>({"tx_readwrite", "tx_readonly"}), m.empty() || H::chance(1, 2) ? s.substr(0, 7) : s, "real"}, "a malformed transaction"); break; }
    case 5: { Req r = {H::one<Str>({"tx_readwrite", "tx_readonly"})}; for(int i = H::pick(0, 4); i > 0; i--) r.push_back(junk()); if(r.size() == 3 && (r[2] == "real" || r[2] == "phantom") && r[1].size() >= 8) r.pop_back(); refused(b, r, "a malformed transaction"); break; }
    default: {
      // requests that only the server itself may turn into what is stored
      Req l = H::one<Req>({{"lease_acquire", "k", "me", "10"}, {"lease_get", "k"}, {"lease_release", "k"}}); int kind = H::pick(0, 2);
      if(H::chance(1, 2)) refused(b, l, "a lease request without time", kind);
      else { Req x = H::one<Req>({{"timestamped_lease_acquire", "k", "me", "10", "short"}, {"timestamped_lease_get", "k", "far too long"}, {"timestamped_lease_release", "k", ""}}); refused(b, x, "a lease request with a malformed time", kind); }
    }
  }
}
int main() {
  while(H::more()) {
    Box b(H::chance(1, 2)); Gen g; g.keys = {"k", "a#", "q"}; 
    for(int i = 0; i < 25; i++) {
      switch(H::pick(0, 5)) {
        case 0: history(b, g, 3, 1, true, 0); break;
        case 1: case 2: arity(b, g); break;
        case 3: scanArgs(b, g); break;
        case 4: txs(b, g); break;
        default: { Req r = {H::one<Str>({"nonsense", "", "quarkdb_info", "raft_heartbeat", "exec", "multi", "auth", "get ", "gett", "se", "TIMESTAMPED", "convert_int_to_string", "subscribe"})}; for(int k = H::pick(0, 3); k > 0; k--) r.push_back(junk()); refused(b, r, "no command of the store"); }
      }
      H::tick(b.sig * 31 + i);
    }
    { H::step("ping"); Req r = {"ping"}; Str x = junk(); int n = H::pick(0, 2); for(int i = 0; i < n; i++) r.push_back(x); RedisRequest q = Box::mk(r); Str o = b.disp->dispatch(q, 0).val; H::equal(o, n == 0 ? Str("+PONG\r\n") : n == 1 ? "$" + std::to_string(x.size()) + "\r\n" + x + "\r\n" : o, "reply to ping"); if(n == 2 && o[0] != '-') H::fail("ping with two arguments is not refused"); }
  }
  H::finish();
}
