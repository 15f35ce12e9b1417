#include "h.hh"
#include "redis/Transaction.hh"
#include "redis/LeaseFilter.hh"
#include "redis/InternalFilter.hh"
#include "RedisRequest.hh"
#include "utils/Macros.hh"
using namespace quarkdb;
typedef std::vector<std::string> Req;
static const std::vector<std::string> READS = {"get", "EXISTS", "hget", "hgetall", "smembers", "lhget", "deque_len", "vhgetall", "config_get", "tx_readonly", "multiop_read", "CLOCK-GET"};
static const std::vector<std::string> WRITES = {"set", "DEL", "hset", "hmset", "sadd", "lhset", "deque_push_front", "LEASE_GET", "lease-acquire", "Lease_Release", "flushall", "vhset", "tx_readwrite", "multiop_readwrite", "timestamped_lease_get"};
static const std::vector<std::string> OTHERS = {"ping", "raft_heartbeat", "exec", "multi", "nonsense", "", "quarkdb_info", "subscribe", "auth", "recovery_get"};
static std::string bytes() {
  switch(H::pick(0, 5)) { case 0: return ""; case 1: { std::string s; for(int i = H::pick(0, 30); i > 0; i--) s.push_back((char)H::pick(0, 255)); return s; } case 2: return std::string(H::pick(20, 700), (char)H::pick(0, 255)); case 3: return std::string("\0\0\0\0\0\0\0\1", 8); }
  return H::astr({"key", "real", "phantom", "TX_READONLY", "a b", "\r\n"});
}
static std::string be(uint64_t n) { std::string s; for(int i = 7; i >= 0; i--) s.push_back((char)(n >> (8 * i))); return s; }
static bool writes(const std::string &c) { return std::find(WRITES.begin(), WRITES.end(), c) != WRITES.end(); }
static Req anyreq(int wr) { Req r = {H::one(wr ? WRITES : READS)}; for(int i = H::pick(0, H::chance(1, 20) ? 40 : 4); i > 0; i--) r.push_back(bytes()); return r; }
static RedisRequest mk(const Req &r) { RedisRequest q; for(auto &x : r) { if(H::chance(1, 2)) q.push_back(x); else q.emplace_back(std::string(x)); } return q; }
static Req un(const RedisRequest &q) { Req r; for(size_t i = 0; i < q.size(); i++) r.push_back(std::string(q[i])); return r; }
static std::string sh(const Req &r) { std::string o = "["; for(auto &x : r) o += H::show(x) + " "; return o + "]"; }
static std::string enc(const std::vector<Req> &m) { std::string s = be(m.size()); for(auto &r : m) { s += be(r.size()); for(auto &x : r) s += be(x.size()) + x; } return s; }
static void same(const Transaction &t, const std::vector<Req> &m, const std::string &what) {
  H::equal(t.size(), m.size(), what + ": number of requests"); bool w = false;
  for(size_t i = 0; i < m.size(); i++) { if(un(t[i]) != m[i]) H::fail(what + ": request " + std::to_string(i) + " is " + sh(un(t[i])) + ", expected " + sh(m[i])); w |= writes(m[i][0]); H::check((t[i].getCommandType() == CommandType::WRITE) == writes(m[i][0]), what + ": kind of request " + std::to_string(i)); }
  H::equal(t.containsWrites(), w, what + ": read-write classification"); H::equal(t.empty(), m.empty(), what + ": empty()");
}
static void roundtrip() {
  H::clear(); Transaction t; std::vector<Req> m; bool ph = H::chance(1, 2); int wr = H::pick(0, 2);
  for(int i = H::pick(0, H::chance(1, 15) ? 60 : 5); i > 0; i--) { m.push_back(anyreq(wr == 2 ? H::pick(0, 1) : (wr && i == 1))); t.push_back(mk(m.back())); H::step("push " + sh(m.back())); }
  t.setPhantom(ph); H::step(ph ? "phantom" : "real");
  bool w = false; for(auto &r : m) w |= writes(r[0]);
  same(t, m, "batch"); H::equal(t.isPhantom(), ph, "kind of batch"); H::equal(t.expectedResponses(), ph ? (int64_t)m.size() : 1, "expected replies"); H::equal(t.getFusedCommand(), std::string(w ? "TX_READWRITE" : "TX_READONLY"), "command of the batch");
  std::string s = t.serialize(); if(s != enc(m)) H::fail("serialized text is " + H::show(s) + ", expected " + H::show(enc(m)));
  { Transaction u; PinnedBuffer b(s); H::check(u.deserialize(b), "own payload refused"); same(u, m, "read back"); H::check(u == t, "read back differs"); }
  RedisRequest q = t.toRedisRequest();
  if(ph && m.size() == 1) { if(un(q) != m[0]) H::fail("background batch of one became " + sh(un(q))); H::check(q.getCommand() == t[0].getCommand(), "background batch of one lost its command"); }
  else {
    Req want = {w ? "TX_READWRITE" : "TX_READONLY", enc(m), ph ? "phantom" : "real"}; if(un(q) != want) H::fail("as request " + sh(un(q)) + ", expected " + sh(want));
    H::check(q.getCommand() == (w ? RedisCommand::TX_READWRITE : RedisCommand::TX_READONLY), "command of the request");
    Transaction u; u.fromRedisRequest(q); same(u, m, "from request"); H::equal(u.isPhantom(), ph, "kind from request");
    if(m.size()) { Transaction v; H::check(v.deserialize(q), "own request refused"); same(v, m, "deserialized request"); H::equal(v.isPhantom(), ph, "kind of deserialized request"); }
    // a request whose command, kind or length is off is refused
    Req bad = want; int how = H::pick(0, 4);
    switch(how) { case 0: bad[0] = H::one(OTHERS); break; case 1: bad[2] = H::one<std::string>({"", "Real", "phantomx", "r", "PHANTOM"}); break; case 2: bad.pop_back(); break; case 3: bad.push_back("real"); break; case 4: bad[0] = w ? "TX_READONLY" : "TX_READWRITE"; break; }
    Transaction x; bool ok = false; H::step("altered request " + sh(bad)); try { RedisRequest b = mk(bad); ok = x.deserialize(b); } catch(FatalException &) { ok = false; } H::check(!ok, "altered request accepted");
  }
  for(const Req &r : m) if(H::chance(1, 8)) { Transaction one(mk(r)); same(one, {r}, "batch of one"); H::check(one.isPhantom(), "batch of one is a background batch"); }
  t.clear(); same(t, {}, "after clear"); H::check(!t.isPhantom(), "kind after clear");
  H::tick(H::hash(s) + ph);
}
static void refuse() {   // only reads and writes may enter
  H::clear(); Transaction t; Req r = {H::one(OTHERS), bytes()}; H::step("push " + sh(r)); bool th = false;
  try { t.push_back(mk(r)); } catch(FatalException &) { th = true; } H::check(th, "request that is neither read nor write entered a batch"); H::tick(H::hash(sh(r)));
}
static void malformed() {   // arbitrary payloads: accepted only when they are exactly an encoding (prefix), refused otherwise, never read past the end
  H::clear(); std::vector<Req> m; for(int i = H::pick(0, 3); i > 0; i--) m.push_back(anyreq(H::pick(0, 1)));
  std::string s = enc(m);
  switch(H::pick(0, 4)) {
    case 0: s = s.substr(0, H::pick(0, s.size())); break;
    case 1: { size_t p = H::pick(0, s.size() - 1); s[p] = (char)H::pick(0, 255); break; }
    case 2: { size_t p = H::pick(0, s.size() / 8) * 8; std::string n = be((uint64_t)H::anint({-1, 0, 1, 2, 255, INT64_MAX, INT64_MIN, (int64_t)1 << 32, (int64_t)1 << 61})); s = s.substr(0, p) + n + (p + 8 < s.size() ? s.substr(p + 8) : ""); break; }
    case 3: s = bytes(); break;
    case 4: break;
  }
  H::step("payload " + H::show(s));
  // independent reading
  bool ok = true, oddkind = false; std::vector<Req> want; size_t p = 0;
  auto rd = [&](int64_t &n) { if(s.size() - p < 8) return false; uint64_t v = 0; for(int i = 0; i < 8; i++) v = v << 8 | (unsigned char)s[p + i]; p += 8; n = (int64_t)v; return true; };
  int64_t n; ok = rd(n); if(ok && (n < 0 || (uint64_t)n > (s.size() - 8) / 8)) ok = false;
  for(int64_t i = 0; ok && i < n; i++) { int64_t k; Req r; if(!rd(k)) { ok = false; break; } for(int64_t j = 0; j < k; j++) { int64_t l; if(!rd(l) || l < 0 || (uint64_t)l > s.size() - p) { ok = false; break; } r.push_back(s.substr(p, l)); p += l; } if(ok) { want.push_back(r); std::string c = r.empty() ? "" : r[0]; for(char &x : c) x = x == '-' ? '_' : tolower(x); bool known = false; for(auto &v : {READS, WRITES}) for(auto x : v) { for(char &y : x) y = y == '-' ? '_' : tolower(y); if(x == c) known = true; } if(!known) oddkind = true; } if(ok && oddkind) break; }
  std::unique_ptr<char[]> heap(new char[s.size()]); memcpy(heap.get(), s.data(), s.size());   // exact-size block: reading past the end is seen
  Transaction t; int res; try { std::string copy(heap.get(), s.size()); PinnedBuffer b(std::string_view(heap.get(), s.size())); res = t.deserialize(b); } catch(FatalException &) { res = 2; }
  if(ok && !oddkind) { if(res != 1) H::fail("well-formed payload refused"); H::equal(t.size(), want.size(), "requests read"); for(size_t i = 0; i < want.size(); i++) if(un(t[i]) != want[i]) H::fail("request " + std::to_string(i) + " read as " + sh(un(t[i])) + ", expected " + sh(want[i])); }
  else if(!ok && !oddkind) { if(res == 1) H::fail("malformed payload accepted"); if(res == 0) { H::check(t.empty() && !t.containsWrites(), "refused payload left something behind"); } }
  H::tick(H::hash(s));
}
static void filters() {
  H::clear(); std::string keep; uint64_t ts = (uint64_t)H::anint({0, 1, 255, 256, -1, INT64_MAX, INT64_MIN, 1234567890123}); 
  static const std::vector<std::string> L = {"lease_get", "LEASE-GET", "lease_acquire", "LeasE_Acquire", "lease_release", "LEASE_RELEASE"}, I = {"timestamped_lease_get", "TIMESTAMPED-LEASE-ACQUIRE", "Timestamped_Lease_Release"};
  Transaction t; std::vector<Req> m, want;
  for(int i = H::pick(0, 5); i > 0; i--) { Req r = anyreq(H::pick(0, 1)); if(H::chance(1, 2)) r[0] = H::one(L); std::string c = r[0]; for(char &x : c) x = x == '-' ? '_' : toupper(x); m.push_back(r); if(c.rfind("LEASE_", 0) == 0) { r[0] = "TIMESTAMPED_" + c; r.push_back(be(ts)); } want.push_back(r); }
  for(auto &r : m) { t.push_back(mk(r)); H::step("push " + sh(r)); } bool w = t.containsWrites(); bool ph = H::chance(1, 2); t.setPhantom(ph);
  LeaseFilter::transform(t, ts); H::equal(t.size(), want.size(), "requests after timestamping"); H::equal(t.containsWrites(), w, "classification after timestamping"); H::equal(t.isPhantom(), ph, "kind after timestamping");
  for(size_t i = 0; i < want.size(); i++) { if(un(t[i]) != want[i]) H::fail("after timestamping request " + std::to_string(i) + " is " + sh(un(t[i])) + ", expected " + sh(want[i])); RedisRequest f = mk(want[i]); H::check(f.getCommand() == t[i].getCommand() && f.getCommandType() == t[i].getCommandType(), "command of request " + std::to_string(i) + " after timestamping"); }
  // client requests
  Req r = anyreq(H::pick(0, 1)); bool bad = H::chance(1, 3); if(bad) r[0] = H::one(I); else if(r[0].size() > 5 && tolower(r[0][0]) == 't' && tolower(r[0][1]) == 'i') bad = true;
  H::step("client " + sh(r)); RedisRequest q = mk(r), o = mk(r); InternalFilter::process(q);
  if(bad) H::check(q.getCommand() == RedisCommand::INVALID && q.getCommandType() == CommandType::INVALID, "internal command let through"); else H::check(q.getCommand() == o.getCommand() && q.getCommandType() == o.getCommandType() && q == o, "client request changed by the filter");
  // lone requests
  Req a = {H::one(OTHERS), "x"}; bool th = false; RedisRequest aq = mk(a); try { LeaseFilter::transform(aq, ts); } catch(FatalException &) { th = true; } H::check(th && un(aq) == a, "request that is no lease request was timestamped");
  H::tick(H::hash(sh(r)) ^ t.size());
}
int main() {
  // every kind of combination at least once with two requests
  while(H::more()) { switch(H::pick(0, 9)) { case 0: refuse(); break; case 1: case 2: case 3: malformed(); break; case 4: case 5: filters(); break; default: roundtrip(); } }
  H::finish();
}
