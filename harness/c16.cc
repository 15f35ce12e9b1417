// the request parser over the real reader and link: any stream, cut anywhere, gives what an independent reading of the whole stream gives
#include "h.hh"
#include "RedisParser.hh"
#include "RedisRequest.hh"
#include "Link.hh"
#include "utils/Macros.hh"
#include <climits>
using namespace quarkdb;
typedef std::vector<std::string> Req;
static std::string sh(const Req &r) { std::string o = "["; for(auto &x : r) o += (x.size() > 60 ? "(" + std::to_string(x.size()) + " bytes)" : H::show(x)) + " "; return o + "]"; }
struct Reading { std::vector<Req> reqs; bool refused = false; };
// the whole stream at once
static Reading read(const std::string &s, bool auth) {
  Reading R; size_t p = 0;
  auto number = [&](char prefix, long &v) -> int {   // 1 read, 0 incomplete, -1 malformed
    size_t e = s.find('\n', p); if(e == std::string::npos) return 0;
    std::string l = s.substr(p, e + 1 - p); p = e + 1;
    if(l[0] != prefix || l.size() < 3 || l[l.size() - 2] != '\r') return -1;
    l = l.substr(1, l.size() - 3); if(l.empty()) return -1;
    char *q; errno = 0; v = strtol(l.c_str(), &q, 10); if(q == l.c_str() || q != l.c_str() + l.size() || v < 0 || v > INT_MAX - 2) return -1;
    return 1;
  };
  while(true) {
    long n; int k = number('*', n); if(k <= 0) { R.refused = k < 0; return R; }
    if(n == 0 || (!auth && n >= 5)) { R.refused = true; return R; }
    Req r; bool zero = false;
    for(long i = 0; i < n; i++) {
      long b; k = number('$', b); if(k <= 0) { R.refused = k < 0; return R; }
      zero |= b == 0; if(!auth && b >= 1048576) { R.refused = true; return R; }
      if(s.size() - p < (size_t)b + 2) return R;
      if(s[p + b] != '\r' || s[p + b + 1] != '\n') { R.refused = true; return R; }
      r.push_back(s.substr(p, b)); p += b + 2;
    }
    if(zero) { R.refused = true; return R; }
    R.reqs.push_back(r);
  }
}
static std::string bulk(const std::string &x) { return "$" + std::to_string(x.size()) + "\r\n" + x + "\r\n"; }
static std::string enc(const Req &r) { std::string s = "*" + std::to_string(r.size()) + "\r\n"; for(auto &x : r) s += bulk(x); return s; }
static std::string bytes(size_t big) {
  switch(H::pick(0, 6)) {
    case 0: return H::one<std::string>({"set", "GET", "a", "\r\n", "$3\r\n", "*1\r\n", "\n", std::string("\0\0", 2)});
    case 1: { std::string s; for(int i = H::pick(1, 40); i > 0; i--) s.push_back((char)H::pick(0, 255)); return s; }
    case 2: if(big) { std::string s(H::pick(1, big), 'x'); for(int i = 0; i < 20; i++) s[H::pick(0, s.size() - 1)] = (char)H::pick(0, 255); return s; }
    [[fallthrough]];
    default: return std::string(H::pick(1, 12), (char)H::pick('a', 'z'));
  }
}
static std::vector<size_t> cuts(size_t n) {   // sizes of the pieces in which the bytes arrive
  std::vector<size_t> c; int how = H::pick(0, 5); size_t left = n;
  if(n > 20000 && how == 0) how = 1;
  while(left) { size_t k; switch(how) { case 0: k = 1; break; case 1: k = H::pick(1, 32768); break; case 2: k = n; break; case 3: k = H::pick(1, 9); if(n > 50000) k *= 997; break; case 4: k = H::pick(32760, 32776); break; default: k = H::chance(1, 3) ? H::pick(1, 3) : H::pick(1, std::max<size_t>(1, n / 4)); if(n > 50000 && k < 100) k += H::pick(1, 2000); } k = std::min(k, left); c.push_back(k); left -= k; }
  return c;
}
static void run(const std::string &s, bool auth, const Reading &want, const std::string &what) {
  Link link; RedisParser p(&link); std::vector<RedisRequest> got; std::vector<Req> now; RedisRequest req; size_t at = 0; bool refused = false; std::string trail;
  for(size_t k : cuts(s.size())) {
    link.Send(s.substr(at, k)); at += k; trail += std::to_string(k) + " ";
    while(true) {
      int rc = p.fetch(req, auth); if(rc == 0) break;
      if(rc < 0) { refused = true; break; }
      Req r; for(size_t i = 0; i < req.size(); i++) r.push_back(std::string(req[i])); now.push_back(r); got.push_back(req);
      // requests that arrive whole are answered without waiting for later bytes
    }
    if(refused) break;
    Reading sofar = s.size() < 3000 ? read(s.substr(0, at), auth) : Reading();
    if(s.size() < 3000 && sofar.reqs.size() != now.size()) { H::step("pieces " + trail); H::fail(what + ": after " + std::to_string(at) + " bytes " + std::to_string(now.size()) + " requests were understood, expected " + std::to_string(sofar.reqs.size())); }
  }
  H::step("pieces " + trail.substr(0, 400));
  H::equal(now.size(), want.reqs.size(), what + ": number of requests"); H::equal(refused, want.refused, what + ": refused");
  for(size_t i = 0; i < now.size(); i++) {
    if(now[i] != want.reqs[i]) H::fail(what + ": request " + std::to_string(i) + " is " + sh(now[i]) + ", expected " + sh(want.reqs[i]));
    Req r; for(size_t j = 0; j < got[i].size(); j++) r.push_back(std::string(got[i][j])); if(r != now[i]) H::fail(what + ": request " + std::to_string(i) + " changed while later bytes were read: " + sh(r) + ", was " + sh(now[i]));
  }
}
static void wellformed() {
  H::clear(); std::vector<Req> m; size_t big = H::chance(1, 4) ? (H::chance(1, 3) ? 140000 : 33000) : 0; std::string s; std::vector<size_t> ends;
  bool auth = H::chance(3, 4);
  for(int i = H::pick(1, big ? 5 : 8); i > 0; i--) { Req r; for(int j = H::pick(1, auth ? (H::chance(1, 20) ? 300 : 7) : 4); j > 0; j--) r.push_back(bytes(big)); m.push_back(r); s += enc(r); }
  if(big && H::chance(1, 2)) {   // make an element, a size line or a line end straddle the end of a buffer
    size_t target = 32768 * H::pick(1, 3) + H::pick(-8, 8), pre = enc({"p", ""}).size() + 5; if(target > pre) { Req r = {"p", std::string(target - pre - 10 + H::pick(0, 20), 'z')}; m.insert(m.begin(), r); s = enc(r) + s; }
  }
  H::step("requests:"); for(auto &r : m) H::step(sh(r));
  Reading want = read(s, auth); if(want.reqs != m || want.refused) H::fail("oracle and encoder differ");
  for(int i = 0; i < 3; i++) run(s, auth, want, "well-formed"); H::tick(H::hash(s) + auth);
}
static void altered() {
  H::clear(); std::string s; bool auth = H::chance(1, 2);
  for(int i = H::pick(1, 4); i > 0; i--) { Req r; for(int j = H::pick(1, auth ? 6 : 5); j > 0; j--) r.push_back(H::chance(1, 25) ? "" : bytes(0)); s += enc(r); }
  static const std::vector<std::string> lines = {"*0\r\n", "$0\r\n\r\n", "*-1\r\n", "$-1\r\n", "*\r\n", "$\r\n", "*99999999999\r\n", "$99999999999999999999\r\n", "*3x\r\n", "$2147483647\r\n", "$2147483646\r\n", "*2147483647\r\n", "*1\n", "$1\n", "\r\n", "\n", "*1\r\n$3\r\nabcd\r\n", "*1\r\n$3\r\nab\r\n", "$1048576\r\n", "$1048575\r\n", "*5\r\n", "*4\r\n", std::string("*1\0\r\n", 5), "*1\r\n$4\r\nping\r\n", "*4294967297\r\n", "$4294967299\r\nabc\r\n", "*2147483645\r\n$1\r\na\r\n"};
  for(int i = H::pick(1, 2); i > 0; i--) switch(H::pick(0, 3)) {
    case 0: s.insert(H::chance(1, 2) ? H::pick(0, s.size()) : (H::chance(1, 2) ? s.size() : 0), H::one(lines)); break;
    case 1: if(s.size()) s[H::pick(0, s.size() - 1)] = (char)(H::chance(1, 2) ? H::pick(0, 255) : H::one<int>({'0', '9', '\r', '\n', '$', '*', '-'})); break;
    case 2: if(s.size()) s.erase(H::pick(0, s.size() - 1), H::pick(1, 3)); break;
    case 3: s = s.substr(0, H::pick(0, s.size())); break;
  }
  H::step("stream " + H::show(s) + (auth ? "" : " of a stranger")); Reading want = read(s, auth);
  for(int i = 0; i < 3; i++) run(s, auth, want, "altered"); H::tick(H::hash(s) + auth, !want.reqs.empty() || want.refused);
}
int main() {
  while(H::more()) { switch(H::pick(0, 3)) { case 0: wellformed(); break; default: altered(); } }
  H::finish();
}
