#include "h.hh"
#include "Formatter.hh"
#include "redis/ArrayResponseBuilder.hh"
#include "redis/Transaction.hh"
#include "RedisRequest.hh"
#include "raft/RaftCommon.hh"
#include "utils/Statistics.hh"
using namespace quarkdb;
// independent strict reader of the reply grammar
struct V { char k = 0; std::string s; int64_t n = 0; std::vector<V> a; };
static std::string show(const V &v) { std::string o(1, v.k); if(v.k == '*' || v.k == '>') { o += "("; for(auto &x : v.a) o += show(x) + " "; return o + ")"; } if(v.k == ':') return o + std::to_string(v.n); return o + H::show(v.s); }
static bool line(const std::string &t, size_t &p, std::string &out) { size_t e = t.find("\r\n", p); if(e == std::string::npos) return false; out = t.substr(p, e - p); p = e + 2; return true; }
static bool num(const std::string &s, int64_t &n) { if(s.empty()) return false; size_t i = s[0] == '-'; if(i == s.size()) return false; unsigned __int128 v = 0; if(s[i] == '0' && s.size() > i + 1) return false; for(; i < s.size(); i++) { if(s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); if(v > ((unsigned __int128)1 << 64)) return false; } n = s[0] == '-' ? -(int64_t)v : (int64_t)v; return true; }
static bool read(const std::string &t, size_t &p, V &v) {
  if(p >= t.size()) return false; v.k = t[p++]; std::string l; if(!line(t, p, l)) return false;
  switch(v.k) {
    case '+': case '-': v.s = l; return true;
    case ':': return num(l, v.n);
    case '$': { int64_t n; if(!num(l, n)) return false; if(n == -1) { v.k = '0'; return true; } if(n < 0 || (size_t)n > t.size() || p + n + 2 > t.size()) return false; v.s = t.substr(p, n); p += n; if(t.compare(p, 2, "\r\n")) return false; p += 2; return true; }
    case '*': case '>': { int64_t n; if(!num(l, n) || n < 0 || n > (int64_t)t.size()) return false; for(int64_t i = 0; i < n; i++) { V x; if(!read(t, p, x)) return false; v.a.push_back(x); } return true; }
    default: return false;
  }
}
static bool operator==(const V &a, const V &b) { return a.k == b.k && a.s == b.s && a.n == b.n && a.a == b.a; }
static V st(const std::string &s) { V v; v.k = '+'; v.s = s; return v; }
static V er(const std::string &s) { V v; v.k = '-'; v.s = s; return v; }
static V bk(const std::string &s) { V v; v.k = '$'; v.s = s; return v; }
static V in(int64_t n) { V v; v.k = ':'; v.n = n; return v; }
static V ar(std::vector<V> a, char k = '*') { V v; v.k = k; v.a = a; return v; }
static V nil() { V v; v.k = '0'; return v; }
static V strs(const std::vector<std::string> &x, bool status = false) { std::vector<V> a; for(auto &s : x) a.push_back(status ? st(s) : bk(s)); return ar(a); }
static void expect(const RedisEncodedResponse &r, const V &want, const std::string &what) {
  H::step(what + " -> " + H::show(r.val)); size_t p = 0; V got;
  if(!read(r.val, p, got)) H::fail(what + ": the reply is not well-formed");
  if(p != r.val.size()) H::fail(what + ": bytes after the end of the reply");
  if(!(got == want)) H::fail(what + ": the reply reads as " + show(got) + ", expected " + show(want));
  H::tick(H::hash(r.val)); H::clear();
}
static std::string any() {   // binary-safe payloads
  switch(H::pick(0, 6)) { case 0: return ""; case 1: return "\r\n"; case 2: { std::string s; for(int i = H::pick(0, 40); i > 0; i--) s.push_back((char)H::pick(0, 255)); return s; } case 3: return std::string(H::pick(8, 1200), 'x'); case 4: return "$3\r\nabc\r\n"; case 5: return std::string("a\0b", 3) + std::to_string(H::pick(0, 99)); }
  return H::astr({"abc", "-ERR", "*1", "key", "0", "next:5"});
}
static std::string plain() { std::string s = any(), o; for(char c : s) if(c != '\r' && c != '\n') o.push_back(c); return o; }
static int64_t n64() { return H::anint({0, 1, -1, 9, 10, -10, 99, 100, 1000, 12345678, INT32_MAX, (int64_t)INT32_MAX + 1, INT32_MIN, INT64_MAX, INT64_MIN, INT64_MAX - 1}); }
template<class F> static std::vector<std::string> many(F f) { std::vector<std::string> v; for(int i = H::chance(1, 30) ? H::pick(100, 1100) : H::pick(0, 12); i > 0; i--) v.push_back(f()); return v; }
static RedisRequest req() { std::vector<std::string> v = {H::one<std::string>({"set", "GET", "hset", "nonsense", "RAFT_HEARTBEAT", "del"})}; for(int i = H::pick(0, 4); i > 0; i--) v.push_back(any()); RedisRequest r; for(auto &s : v) r.push_back(s); return r; }
static std::vector<std::vector<std::string>> lasttx;   // requests of the transaction made last
static V vreq(const RedisRequest &r, bool raw) {
  if(!raw && (r.getCommand() == RedisCommand::TX_READONLY || r.getCommand() == RedisCommand::TX_READWRITE)) {
    std::vector<V> a = {bk(std::string(r[0]))}; for(auto &q : lasttx) a.push_back(strs(q)); return ar(a);
  }
  std::vector<V> a; for(size_t i = 0; i < r.size(); i++) a.push_back(bk(std::string(r[i]))); return ar(a);
}
static RedisRequest anyreq(std::string &keep) {
  if(H::chance(1, 2)) return req();
  Transaction t; lasttx.clear(); for(int i = H::pick(1, 4); i > 0; i--) { std::vector<std::string> q = {H::one<std::string>({"SET", "HGET"}), any(), any()}; lasttx.push_back(q); RedisRequest r; for(auto &x : q) r.push_back(x); t.push_back(std::move(r)); }
  (void)keep; t.setPhantom(H::chance(1, 2)); return t.toRedisRequest();
}
static V msg(bool push, std::vector<V> a) { if(!push) return ar(a); a.insert(a.begin(), bk("pubsub")); return ar(a, '>'); }
static void one() {
  std::string s = any(), q = plain(), u = any(), w = any(); int64_t n = n64(); bool b = H::chance(1, 2); std::string keep;
  switch(H::pick(0, 30)) {
    case 0: expect(Formatter::err(q), er("ERR " + q), "err"); break;
    case 1: expect(Formatter::errArgs(q), er("ERR wrong number of arguments for '" + q + "' command"), "errArgs"); break;
    case 2: expect(Formatter::pong(), st("PONG"), "pong"); expect(Formatter::ok(), st("OK"), "ok"); expect(Formatter::null(), nil(), "null"); break;
    case 3: expect(Formatter::string(s), bk(s), "string"); break;
    case 4: expect(Formatter::status(q), st(q), "status"); break;
    case 5: expect(Formatter::integer(n), in(n), "integer"); break;
    case 6: { auto v = many(any); expect(Formatter::vector(v), strs(v), "vector"); break; }
    case 7: { auto v = many(plain); expect(Formatter::statusVector(v), strs(v, true), "statusVector"); break; }
    case 8: { auto v = many(any); expect(Formatter::scan(s, v), ar({bk(s), strs(v)}), "scan"); break; }
    case 9: { auto v = many(any); expect(Formatter::versionedVector((uint64_t)n, v), ar({in(n), strs(v)}), "versionedVector"); break; }
    case 10: { auto v = many(any); std::vector<std::pair<std::string_view, std::string_view>> p; std::vector<std::string> flat; if(v.size() % 2) v.pop_back(); for(size_t i = 0; i + 1 < v.size(); i += 2) { p.emplace_back(v[i], v[i + 1]); } if(n < 0) n = -(n + 1); expect(Formatter::vhashRevision(n, p), ar({in(n), strs(v)}), "vhashRevision"); break; }
    case 11: { int c = H::pick(0, 100000); expect(Formatter::subscribe(b, s, c), msg(b, {bk("subscribe"), bk(s), in(c)}), "subscribe"); expect(Formatter::psubscribe(b, s, c), msg(b, {bk("psubscribe"), bk(s), in(c)}), "psubscribe");
      expect(Formatter::unsubscribe(b, s, c), msg(b, {bk("unsubscribe"), bk(s), in(c)}), "unsubscribe"); expect(Formatter::punsubscribe(b, s, c), msg(b, {bk("punsubscribe"), bk(s), in(c)}), "punsubscribe"); break; }
    case 12: expect(Formatter::message(b, s, u), msg(b, {bk("message"), bk(s), bk(u)}), "message"); break;
    case 13: expect(Formatter::pmessage(b, s, u, w), msg(b, {bk("pmessage"), bk(s), bk(u), bk(w)}), "pmessage"); break;
    case 14: { RaftServer srv("host" + std::to_string(H::pick(0, 99)), H::pick(1, 65535)); expect(Formatter::moved(n, srv), er("MOVED " + std::to_string(n) + " " + srv.hostname + ":" + std::to_string(srv.port)), "moved"); break; }
    case 15: expect(Formatter::noauth(q), er("NOAUTH " + q), "noauth"); break;
    case 16: { auto r = anyreq(keep); expect(Formatter::simpleRedisRequest(r), vreq(r, true), "simpleRedisRequest"); break; }
    case 17: { auto r = anyreq(keep); expect(Formatter::redisRequest(r), vreq(r, false), "redisRequest"); break; }
    case 18: { RaftEntry e; e.term = n; e.request = anyreq(keep); LogIndex i = H::pick(-1, 30); std::vector<V> a; if(i != -1) a.push_back(bk("INDEX: " + std::to_string(i))); a.push_back(bk("TERM: " + std::to_string(n))); a.push_back(vreq(e.request, b)); expect(Formatter::raftEntry(e, b, i), ar(a), "raftEntry"); break; }
    case 19: { std::vector<RaftEntry> es(H::pick(0, 6)); std::vector<V> a; for(auto &e : es) { e.term = H::pick(0, 5); e.request = anyreq(keep); a.push_back(ar({bk("TERM: " + std::to_string(e.term)), vreq(e.request, b)})); } expect(Formatter::raftEntries(es, b), ar(a), "raftEntries"); break; }
    case 20: { std::vector<RaftEntryWithIndex> es; std::vector<V> a; for(int i = H::pick(0, 6); i > 0; i--) { RaftEntry e; e.term = H::pick(0, 5); e.request = anyreq(keep); LogIndex x = H::pick(0, 9000); es.emplace_back(e, x); a.push_back(ar({bk("INDEX: " + std::to_string(x)), bk("TERM: " + std::to_string(e.term)), vreq(e.request, false)})); } LogIndex cur = H::chance(1, 3) ? 0 : H::pick(1, 99999); expect(Formatter::journalScan(cur, es), ar({bk(cur == 0 ? "0" : "next:" + std::to_string(cur)), ar(a)}), "journalScan"); break; }
    case 21: { size_t f = H::pick(1, 9); auto v = many(any); auto r = Formatter::vector(v); auto m = Formatter::multiply(r, f); std::string all; for(size_t i = 0; i < f; i++) all += r.val; if(m.val != all) H::fail("multiply by " + std::to_string(f) + " of " + H::show(r.val) + " gave " + H::show(m.val)); H::tick(H::hash(m.val)); break; }
    case 22: { auto h = many(plain); std::vector<std::vector<std::string>> d; std::vector<V> a; for(auto &x : h) { d.push_back({}); for(int i = H::pick(0, 3); i > 0; i--) d.back().push_back(plain()); a.push_back(ar({st(x), strs(d.back(), true)})); } expect(Formatter::vectorsWithHeaders(h, d), ar(a), "vectorsWithHeaders"); break; }
    case 23: { Statistics s; s.reads = H::pick(0, 1000); s.writes = H::pick(0, 1000); s.txread = H::pick(0, 1000); s.txreadwrite = H::pick(0, 1000); expect(Formatter::stats(s), strs({"TOTAL-READS " + std::to_string(s.reads), "TOTAL-WRITES " + std::to_string(s.writes), "TOTAL-TXREAD " + std::to_string(s.txread), "TOTAL-TXREADWRITE " + std::to_string(s.txreadwrite)}, true), "stats"); break; }
    case 24: { expect(Formatter::fromStatus(rocksdb::Status::OK()), st("OK"), "fromStatus"); auto e = rocksdb::Status::InvalidArgument(q); expect(Formatter::fromStatus(e), er("ERR " + e.ToString()), "fromStatus"); auto f = rocksdb::Status::NotFound(q); expect(Formatter::fromStatus(f), er("ERR " + f.ToString()), "fromStatus"); break; }
    case 25: case 26: { size_t k = H::pick(1, 8); bool ph = H::chance(1, 4); ArrayResponseBuilder a(k, ph); std::vector<V> want; std::string flat; for(size_t i = 0; i < k; i++) {
        if(H::chance(1, 6)) { bool thrown = false; try { a.buildResponse(); } catch(const FatalException &) { thrown = true; } if(!thrown) H::fail("an array of " + std::to_string(k) + " was handed out with " + std::to_string(i) + " elements"); }
        std::string x = any(); RedisEncodedResponse e = H::chance(1, 2) ? Formatter::string(x) : Formatter::vector({x}); flat += e.val; want.push_back(e.val[0] == '$' ? bk(x) : strs({x})); a.push_back(e); }
      if(ph) { if(a.buildResponse().val != flat) H::fail("a phantom array is not the concatenation of its items"); } else expect(a.buildResponse(), ar(want), "ArrayResponseBuilder");
      bool thrown = false; try { a.push_back(Formatter::ok()); } catch(const FatalException &) { thrown = true; } if(!thrown) H::fail("an array accepted more items than announced"); break; }
    case 27: { std::vector<HealthIndicator> v; int worst = 0; std::vector<std::string> out; for(int i = H::pick(0, 5); i > 0; i--) { int h = H::pick(0, 2); worst = std::max(worst, h); std::string d = plain(), m = plain(); v.emplace_back((HealthStatus)h, d, m); out.push_back(std::string(h == 0 ? "GREEN  " : h == 1 ? "YELLOW " : "RED    ") + ">> " + d + " " + m); }
      std::string node = H::chance(1, 2) ? "" : "n:1", ver = plain(); std::vector<std::string> all = {std::string("NODE-HEALTH ") + (worst == 0 ? "GREEN" : worst == 1 ? "YELLOW" : "RED")}; if(!node.empty()) all.push_back("NODE " + node); all.push_back("VERSION " + ver); all.push_back("----------"); all.insert(all.end(), out.begin(), out.end());
      expect(Formatter::nodeHealth(NodeHealth(ver, node, v)), strs(all, true), "nodeHealth"); break; }
    default: { std::ostringstream ss; Formatter::string(ss, s); Formatter::integer(ss, n); Formatter::status(ss, q); auto v = many(plain); Formatter::statusVector(ss, v); RedisEncodedResponse r(ss.str()); r.val = "*4\r\n" + r.val; expect(r, ar({bk(s), in(n), st(q), strs(v, true)}), "composed"); break; }
  }
}
int main() { while(H::more()) for(int i = 0; i < 50; i++) one(); H::finish(); }
