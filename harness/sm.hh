// the state machine behind the real dispatcher, driven with requests and compared with a reference model: replies, raw contents, index, clock
#pragma once
#include "h.hh"
#include "StateMachine.hh"
#include "Dispatcher.hh"
#include "Formatter.hh"
#include "RedisRequest.hh"
#include "Utils.hh"
#include "pubsub/Publisher.hh"
#include "redis/Transaction.hh"
#include "redis/LeaseFilter.hh"
#include "storage/StagingArea.hh"
#include <csignal>
#include <deque>
#include <algorithm>
using namespace quarkdb;
using Str = std::string; using Req = std::vector<Str>;

inline Str show(const Req &r) { Str o; for(auto &x : r) o += (o.empty() ? "" : " ") + H::show(x); return o; }
inline Str be64(uint64_t v) { Str s(8, '\0'); for(int i = 7; i >= 0; i--) { s[i] = (char)(v & 0xff); v >>= 8; } return s; }
inline uint64_t rd64(std::string_view s, size_t o = 0) { uint64_t v = 0; for(int i = 0; i < 8; i++) v = v << 8 | (unsigned char)s[o + i]; return v; }
inline Str esc(const Str &k) { Str o; for(char c : k) { if(c == '#') o += '|'; o += c; } return o; }

// ---- replies
struct Val {
  char t = '?'; Str s; std::vector<Val> a; int64_t i = 0; int group = 0;      // group > 0: an array whose groups of that many items may come in any order
  static Val num(int64_t n) { Val v; v.t = ':'; v.i = n; return v; }
  static Val str(const Str &x) { Val v; v.t = '$'; v.s = x; return v; }
  static Val stat(const Str &x) { Val v; v.t = '+'; v.s = x; return v; }
  static Val ok() { return stat("OK"); }
  static Val nil() { Val v; v.t = 'n'; return v; }
  static Val err(const Str &part = "") { Val v; v.t = '-'; v.s = part; return v; }
  static Val wrong() { return err("WRONGTYPE"); }
  static Val arr(const std::vector<Str> &x, int g = 0) { Val v; v.t = '*'; v.group = g; for(auto &y : x) v.a.push_back(str(y)); return v; }
  static Val any() { Val v; v.t = '?'; return v; }
  Str show() const {
    if(t == ':') return ":" + std::to_string(i); if(t == 'n') return "nil"; if(t == '$' || t == '+' || t == '-') return t + H::show(s); if(t == '?') return "anything";
    Str o = "["; for(auto &x : a) o += x.show() + " "; return o + "]";
  }
};
inline bool parseVal(std::string_view b, size_t &p, Val &v) {
  if(p >= b.size()) return false; size_t e = b.find("\r\n", p); if(e == std::string_view::npos) return false;
  char t = b[p]; Str l(b.substr(p + 1, e - p - 1)); p = e + 2;
  auto integer = [&](int64_t &n) { if(l.empty()) return false; char *q; n = strtoll(l.c_str(), &q, 10); return *q == 0; };
  if(t == '+' || t == '-') { v.t = t; v.s = l; return true; }
  if(t == ':') { v.t = t; return integer(v.i); }
  if(t == '$') { int64_t n; if(!integer(n)) return false; if(n == -1) { v.t = 'n'; return true; } if(n < 0 || p + n + 2 > b.size() || b.substr(p + n, 2) != "\r\n") return false; v.t = '$'; v.s = Str(b.substr(p, n)); p += n + 2; return true; }
  if(t == '*') { int64_t n; if(!integer(n) || n < 0) return false; v.t = '*'; for(int64_t i = 0; i < n; i++) { Val x; if(!parseVal(b, p, x)) return false; v.a.push_back(x); } return true; }
  return false;
}
inline bool same(const Val &w, const Val &g) {      // wanted, got
  if(w.t == '?') return true; if(w.t != g.t) return false;
  if(w.t == ':') return w.i == g.i; if(w.t == 'n') return true; if(w.t == '-') return g.s.find(w.s) != Str::npos; if(w.t == '$' || w.t == '+') return w.s == g.s;
  if(w.a.size() != g.a.size()) return false;
  if(w.group > 0) { auto key = [&](const Val &x) { std::vector<Str> k; for(size_t i = 0; i + w.group <= x.a.size(); i += w.group) { Str o; for(int j = 0; j < w.group; j++) o += x.a[i + j].show(); k.push_back(o); } std::sort(k.begin(), k.end()); return k; }; return key(w) == key(g); }
  for(size_t i = 0; i < w.a.size(); i++) if(!same(w.a[i], g.a[i])) return false; return true;
}

// ---- reference model
struct Ent { char t = 0; std::map<Str, Str> f; std::map<Str, std::pair<Str, Str>> lh; std::deque<Str> d; Str s; uint64_t a = 0, b = 0; };   // a, b: renewal and deadline of a lease; a: version
struct Ref {
  std::map<Str, Ent> kv; std::map<Str, Str> conf; uint64_t clock = 0; int64_t applied = 0; std::set<Str> touched;
  static bool integer(const Str &s, int64_t &v) { size_t i = 0; if(i < s.size() && s[i] == '-') i++; if(i == s.size() || s.size() > 20) return false; for(size_t j = i; j < s.size(); j++) if(!isdigit((unsigned char)s[j])) return false; errno = 0; v = strtoll(s.c_str(), nullptr, 10); return errno == 0 && v != INT64_MIN && v != INT64_MAX; }
  Ent *at(const Str &k) { auto i = kv.find(k); return i == kv.end() ? nullptr : &i->second; }
  bool bad(const Str &k, char t) { Ent *e = at(k); return e && e->t != t; }
  Ent &get(const Str &k, char t) { Ent &e = kv[k]; e.t = t; return e; }
  void drop(const Str &k) { kv.erase(k); touched.erase(k); }
  void advance(uint64_t ts) { if(ts <= clock) return; for(auto i = kv.begin(); i != kv.end();) { if(i->second.t == 'f' && i->second.b <= ts) i = kv.erase(i); else ++i; } clock = ts; }
  Val lhset(const Str &k, const Str &f, const Str &h, const Str &v, bool *created = nullptr) { if(k.empty() || f.empty() || h.empty()) return Val::err(); if(bad(k, 'e')) return Val::wrong(); Ent &e = get(k, 'e'); bool c = !e.lh.count(f); e.lh[f] = {h, v}; if(created) *created = c; return Val::num(c); }
  Val lhdel(const Str &k, const Req &fs) { if(bad(k, 'e')) return Val::wrong(); Ent *e = at(k); int n = 0; if(e) { for(auto &f : fs) n += e->lh.erase(f); if(e->lh.empty()) drop(k); } return Val::num(n); }
  Val hdel(const Str &k, const Req &fs, char t = 'b') { if(bad(k, t)) return Val::wrong(); Ent *e = at(k); int n = 0; if(e) { for(auto &f : fs) n += e->f.erase(f); if(e->f.empty()) drop(k); } return Val::num(n); }
  Val hget(const Str &k, const Str &f) { if(bad(k, 'b')) return Val::wrong(); Ent *e = at(k); if(!e || !e->f.count(f)) return Val::nil(); return Val::str(e->f[f]); }
  Val lhget(const Str &k, const Str &f) { if(bad(k, 'e')) return Val::wrong(); Ent *e = at(k); if(!e || !e->lh.count(f)) return Val::nil(); return Val::str(e->lh[f].second); }
  Val hincr(const Str &k, const Str &f, const Str &by) {
    int64_t d, cur = 0, r; if(!integer(by, d)) return Val::err(); if(bad(k, 'b')) return Val::wrong(); Ent *e = at(k);
    if(e && e->f.count(f) && !integer(e->f[f], cur)) return Val::err(); if(__builtin_add_overflow(cur, d, &r)) return Val::err();
    get(k, 'b').f[f] = std::to_string(r); return Val::num(r);
  }
  static Str low(Str s) { for(auto &c : s) { c = tolower((unsigned char)c); if(c == '-') c = '_'; } return s; }
  Val push(const Req &r, bool front) { if(bad(r[1], 'd')) return Val::wrong(); Ent &e = get(r[1], 'd'); for(size_t i = 2; i < r.size(); i++) { if(front) e.d.push_front(r[i]); else e.d.push_back(r[i]); } return Val::num(e.d.size()); }
  Val pop(const Str &k, bool front) { if(bad(k, 'd')) return Val::wrong(); Ent *e = at(k); if(!e) return Val::nil(); Str x; if(front) { x = e->d.front(); e->d.pop_front(); } else { x = e->d.back(); e->d.pop_back(); } if(e->d.empty()) drop(k); return Val::str(x); }
  Val trim(const Str &k, const Str &ns) { int64_t n; if(!integer(ns, n) || n < 0) return Val::err(); if(bad(k, 'd')) return Val::wrong(); Ent *e = at(k); int c = 0; if(e) { while((int64_t)e->d.size() > n) { e->d.pop_front(); c++; } if(e->d.empty()) drop(k); } return Val::num(c); }
  Val acquire(const Str &k, const Str &v, const Str &dur, uint64_t ts) {
    int64_t d; if(!integer(dur, d) || d < 1 || v.empty()) return Val::err(); advance(ts); uint64_t now = clock;
    if(bad(k, 'f')) return Val::wrong(); Ent *e = at(k); if(e && e->s != v) return Val::err("lease held by '" + e->s + "'"); bool ren = e != nullptr;
    Ent &x = get(k, 'f'); x.s = v; x.a = now; x.b = now + d; return Val::stat(ren ? "RENEWED" : "ACQUIRED");
  }
  Val leaseget(const Str &k, uint64_t ts) {
    advance(ts); Ent *e = at(k); if(!e) return Val::nil(); if(e->t != 'f') return Val::wrong();
    Val v; v.t = '*'; v.a = {Val::stat("HOLDER: " + e->s), ts == clock ? Val::stat("REMAINING: " + std::to_string(e->b - ts) + " ms") : Val::any()}; return v;
  }
  Val release(const Str &k, uint64_t ts) { advance(ts); if(bad(k, 'f')) return Val::wrong(); if(!at(k)) return Val::nil(); drop(k); return Val::ok(); }
  // the reply the system has to give, and its effect
  Val run(const Req &r) {
    Str c = low(r[0]); size_t n = r.size(); static const Val E = Val::err();
    auto pairs = [&](const Ent *e) { Req o; if(e) for(auto &p : e->f) { o.push_back(p.first); o.push_back(p.second); } return o; };
    if(c == "get") { if(n != 2) return E; if(bad(r[1], 'a')) return Val::wrong(); Ent *e = at(r[1]); return e ? Val::str(e->s) : Val::nil(); }
    if(c == "set") { if(n != 3) return E; if(bad(r[1], 'a')) return Val::wrong(); get(r[1], 'a').s = r[2]; return Val::ok(); }
    if(c == "del") { if(n < 2) return E; int k = 0; for(size_t i = 1; i < n; i++) if(at(r[i])) { k++; drop(r[i]); } return Val::num(k); }
    if(c == "exists") { if(n < 2) return E; int k = 0; for(size_t i = 1; i < n; i++) k += at(r[i]) != nullptr; return Val::num(k); }
    if(c == "type") { if(n != 2) return E; Ent *e = at(r[1]); static std::map<char, Str> T = {{'a', "string"}, {'b', "hash"}, {'c', "set"}, {'d', "deque"}, {'e', "locality hash"}, {'f', "lease"}, {'g', "versioned hash"}}; return Val::stat(e ? T[e->t] : "none"); }
    if(c == "flushall") { if(n != 1) return E; kv.clear(); touched.clear(); return Val::ok(); }
    if(c == "hget") { if(n != 3) return E; return hget(r[1], r[2]); }
    if(c == "hexists") { if(n != 3) return E; Val v = hget(r[1], r[2]); return v.t == '-' ? v : Val::num(v.t == '$'); }
    if(c == "hkeys" || c == "hvals" || c == "hgetall") { if(n != 2) return E; if(bad(r[1], 'b')) return Val::wrong(); Req o; if(Ent *e = at(r[1])) for(auto &p : e->f) { if(c != "hvals") o.push_back(p.first); if(c != "hkeys") o.push_back(p.second); } return Val::arr(o, c == "hgetall" ? 2 : 1); }
    if(c == "hlen") { if(n != 2) return E; if(bad(r[1], 'b')) return Val::wrong(); Ent *e = at(r[1]); return Val::num(e ? e->f.size() : 0); }
    if(c == "hset") { if(n != 4) return E; if(bad(r[1], 'b')) return Val::wrong(); return Val::num(get(r[1], 'b').f.insert_or_assign(r[2], r[3]).second); }
    if(c == "hsetnx") { if(n != 4) return E; if(bad(r[1], 'b')) return Val::wrong(); return Val::num(get(r[1], 'b').f.insert({r[2], r[3]}).second); }
    if(c == "hmset") { if(n <= 3 || n % 2) return E; if(bad(r[1], 'b')) return Val::wrong(); for(size_t i = 2; i < n; i += 2) get(r[1], 'b').f[r[i]] = r[i + 1]; return Val::ok(); }
    if(c == "hincrby") { if(n != 4) return E; return hincr(r[1], r[2], r[3]); }
    if(c == "hincrbymulti") { if(n < 4 || (n - 1) % 3) return E; int64_t t = 0; for(size_t i = 1; i < n; i += 3) { Val v = hincr(r[i], r[i + 1], r[i + 2]); if(v.t == ':') t += v.i; } return Val::num(t); }
    if(c == "hincrbyfloat") {
      if(n != 4) return E; auto num = [](const Str &s, double &d) { char *q; if(s.empty()) { d = 0; return true; } d = strtod(s.c_str(), &q); return q == s.c_str() + s.size(); };
      double d, cur = 0; if(!num(r[3], d)) return E; if(bad(r[1], 'b')) return Val::wrong(); Ent *e = at(r[1]); if(e && e->f.count(r[2]) && !num(e->f[r[2]], cur)) return E; Str x = std::to_string(cur + d); get(r[1], 'b').f[r[2]] = x; return Val::str(x);
    }
    if(c == "hdel") { if(n < 3) return E; return hdel(r[1], Req(r.begin() + 2, r.end())); }
    if(c == "hclone") { if(n != 3) return E; if(bad(r[2], 'b')) return Val::wrong(); if(at(r[2])) return E; Ent *e = at(r[1]); if(!e) return Val::ok(); if(e->t != 'b') return Val::wrong(); Ent copy = *e; kv[r[2]] = copy; return Val::ok(); }
    if(c == "sadd") { if(n < 3) return E; if(bad(r[1], 'c')) return Val::wrong(); int k = 0; for(size_t i = 2; i < n; i++) k += get(r[1], 'c').f.insert({r[i], "1"}).second; return Val::num(k); }
    if(c == "srem") { if(n < 3) return E; return hdel(r[1], Req(r.begin() + 2, r.end()), 'c'); }
    if(c == "sismember") { if(n != 3) return E; if(bad(r[1], 'c')) return Val::wrong(); Ent *e = at(r[1]); return Val::num(e && e->f.count(r[2])); }
    if(c == "smembers") { if(n != 2) return E; if(bad(r[1], 'c')) return Val::wrong(); Req o; if(Ent *e = at(r[1])) for(auto &p : e->f) o.push_back(p.first); return Val::arr(o, 1); }
    if(c == "scard") { if(n != 2) return E; if(bad(r[1], 'c')) return Val::wrong(); Ent *e = at(r[1]); return Val::num(e ? e->f.size() : 0); }
    if(c == "smove") { if(n != 4) return E; if(bad(r[1], 'c') || bad(r[2], 'c')) return Val::wrong(); Ent *e = at(r[1]); if(!e || !e->f.count(r[3])) return Val::num(0); e->f.erase(r[3]); if(e->f.empty()) drop(r[1]); get(r[2], 'c').f[r[3]] = "1"; return Val::num(1); }
    if(c == "deque_push_front" || c == "deque_push_back") { if(n < 3) return E; return push(r, c == "deque_push_front"); }
    if(c == "deque_pop_front" || c == "deque_pop_back") { if(n != 2) return E; return pop(r[1], c == "deque_pop_front"); }
    if(c == "deque_trim_front") { if(n != 3) return E; return trim(r[1], r[2]); }
    if(c == "deque_clear") { if(n != 2) return E; return trim(r[1], "0"); }
    if(c == "deque_len") { if(n != 2) return E; if(bad(r[1], 'd')) return Val::wrong(); Ent *e = at(r[1]); return Val::num(e ? e->d.size() : 0); }
    if(c == "config_set") { if(n != 3) return E; conf[r[1]] = r[2]; return Val::ok(); }
    if(c == "config_get") { if(n != 2) return E; auto i = conf.find(r[1]); return i == conf.end() ? Val::nil() : Val::str(i->second); }
    if(c == "config_getall") { if(n != 1) return E; Req o; for(auto &p : conf) { o.push_back(p.first); o.push_back(p.second); } return Val::arr(o, 2); }
    if(c == "lhset") { if(n != 5) return E; return lhset(r[1], r[2], r[3], r[4]); }
    if(c == "lhmset") { if(n <= 4 || (n - 2) % 3) return E; if(r[1].empty()) return E; for(size_t i = 2; i < n; i += 3) if(r[i].empty() || r[i + 1].empty()) return bad(r[1], 'e') ? Val::err() : E; if(bad(r[1], 'e')) return Val::wrong(); for(size_t i = 2; i < n; i += 3) lhset(r[1], r[i], r[i + 1], r[i + 2]); return Val::ok(); }
    if(c == "lhget") { if(n != 3 && n != 4) return E; return lhget(r[1], r[2]); }
    if(c == "lhlen") { if(n != 2) return E; if(bad(r[1], 'e')) return Val::wrong(); Ent *e = at(r[1]); return Val::num(e ? e->lh.size() : 0); }
    if(c == "lhdel") { if(n < 3) return E; return lhdel(r[1], Req(r.begin() + 2, r.end())); }
    if(c == "lhlocdel") { if(n != 4) return E; if(bad(r[1], 'e')) return Val::wrong(); Ent *e = at(r[1]); if(!e || !e->lh.count(r[2]) || e->lh[r[2]].first != r[3]) return Val::num(0); return lhdel(r[1], {r[2]}); }
    if(c == "lhget_with_fallback") { if(n != 4 && n != 5) return E; Val v = lhget(r[1], r[2]); if(v.t != 'n') return v; return hget(r[n - 1], r[2]); }
    if(c == "lhdel_with_fallback") { if(n != 4) return E; Val v = lhdel(r[1], {r[2]}); if(v.t == ':' && v.i == 1) return v; return hdel(r[3], {r[2]}); }
    if(c == "lhset_and_del_fallback") { if(n != 6) return E; Val v = lhset(r[1], r[2], r[3], r[4]); if(v.t == ':') hdel(r[5], {r[2]}); return v; }
    if(c == "convert_hash_field_to_lhash") {
      if(n != 6) return E; Val v = lhget(r[3], r[4]); if(v.t == '$') return E; v = hget(r[1], r[2]); if(v.t == 'n') return E; if(v.t == '-') return v; Str val = v.s; v = lhset(r[3], r[4], r[5], val); if(v.t == '-') return v; hdel(r[1], {r[2]}); return Val::ok();
    }
    if(c == "vhset") { if(n != 4) return E; if(bad(r[1], 'g')) return Val::wrong(); Ent &e = get(r[1], 'g'); e.f[r[2]] = r[3]; if(touched.insert(r[1]).second) e.a++; return Val::num(e.a); }
    if(c == "vhdel") { if(n < 3) return E; if(bad(r[1], 'g')) return Val::wrong(); Ent *e = at(r[1]); if(!e) return Val::num(0); int k = 0; for(size_t i = 2; i < n; i++) k += e->f.erase(r[i]); if(k && touched.insert(r[1]).second) e->a++; return Val::num(e->a); }
    if(c == "vhlen") { if(n != 2) return E; if(bad(r[1], 'g')) return Val::wrong(); Ent *e = at(r[1]); return Val::num(e ? e->f.size() : 0); }
    if(c == "vhgetall") { if(n != 2) return E; if(bad(r[1], 'g')) return Val::wrong(); Ent *e = at(r[1]); Val v; v.t = '*'; v.a = {Val::num(e ? e->a : 0), Val::arr(pairs(e), 2)}; return v; }
    if(c == "timestamped_lease_acquire") { if(n != 5 || r[4].size() != 8) return E; return acquire(r[1], r[2], r[3], rd64(r[4])); }
    if(c == "timestamped_lease_get") { if(n != 3 || r[2].size() != 8) return E; return leaseget(r[1], rd64(r[2])); }
    if(c == "timestamped_lease_release") { if(n != 3 || r[2].size() != 8) return E; return release(r[1], rd64(r[2])); }
    if(c == "clock_get") { if(n != 1) return E; Val v; v.t = '*'; v.a = {Val::stat("STATIC-CLOCK: " + std::to_string(clock)), Val::any()}; return v; }
    if(c == "lease_get_pending_expiration_events") { if(n != 1) return E; Val v; v.t = '*'; v.group = 0; v.a = {Val::str("STATIC-CLOCK: " + std::to_string(clock)), Val::any()}; std::vector<std::pair<uint64_t, Str>> q; for(auto &p : kv) if(p.second.t == 'f') q.push_back({p.second.b, p.first}); std::sort(q.begin(), q.end()); for(auto &p : q) v.a.push_back(Val::str(std::to_string(p.first) + ": " + p.second)); return v; }
    if(c == "keys" && n == 2 && r[1] == "*") { Req o; for(auto &p : kv) o.push_back(p.first); return Val::arr(o, 1); }
    H::fail("the model does not know the request " + ::show(r)); return Val();
  }
  // what must be on disk: key -> value; values of set members and expiration events carry no meaning; positions of deque items are relative
  std::map<Str, Str> raw() const {
    std::map<Str, Str> o;
    for(auto &p : kv) {
      const Str &k = p.first; const Ent &e = p.second; Str d(1, e.t); Str fp = Str(1, e.t) + esc(k) + "##";
      if(e.t == 'a') { d += be64(e.s.size()); o["a" + k] = e.s; }
      else if(e.t == 'b' || e.t == 'c' || e.t == 'g') { d += be64(e.f.size()); if(e.t == 'g') d += be64(e.a); for(auto &f : e.f) o[fp + f.first] = e.t == 'c' ? Str() : f.second; }
      else if(e.t == 'd') { d += be64(e.d.size()); uint64_t i = 0; for(auto &x : e.d) o[fp + be64(++i)] = x; }
      else if(e.t == 'e') { d += be64(e.lh.size()); for(auto &f : e.lh) { o[fp + "d" + esc(f.second.first) + "##" + f.first] = f.second.second; o[fp + "i" + f.first] = f.second.first; } }
      else if(e.t == 'f') { d += be64(e.s.size()) + be64(e.a) + be64(e.b); o["f" + k] = e.s; o["@" + be64(e.b) + k] = ""; }
      o["!" + k] = d;
    }
    for(auto &p : conf) o["~" + p.first] = p.second;
    o["__clock"] = be64(clock); o["__last-applied"] = be64(applied);
    return o;
  }
};

// ---- the real thing
inline std::map<Str, Str> rawDump(StateMachine &sm) { std::map<Str, Str> o; auto it = sm.getRawIterator(); for(it->SeekToFirst(); it->Valid(); it->Next()) o[it->key().ToString()] = it->value().ToString(); return o; }
// empty when the raw contents are what the model says
inline Str rawDiff(StateMachine &sm, const Ref &m) {
  std::map<Str, Str> got = rawDump(sm), want = m.raw(), norm;
  for(auto &p : got) {
    Str k = p.first, v = p.second; if(k.empty()) return "an empty key is stored";
    if(k[0] == '_' && k != "__clock" && k != "__last-applied") continue;
    if(k[0] == 'c' || k[0] == '@') v.clear();
    norm[k] = v;
  }
  // deques: rename the stored positions by the start recorded with the key
  for(auto &p : m.kv) if(p.second.t == 'd') {
    auto d = norm.find("!" + p.first); if(d == norm.end() || d->second.size() != 25) return "the record of the deque " + H::show(p.first) + " is missing or malformed";
    uint64_t st = rd64(d->second, 9), en = rd64(d->second, 17); if(en - st - 1 != p.second.d.size()) return "the deque " + H::show(p.first) + " records the range (" + std::to_string(st) + ", " + std::to_string(en) + ") but has " + std::to_string(p.second.d.size()) + " items";
    d->second.resize(9); std::map<Str, Str> moved; Str pre = "d" + esc(p.first) + "##";
    for(auto i = norm.lower_bound(pre); i != norm.end() && i->first.compare(0, pre.size(), pre) == 0;) { if(i->first.size() == pre.size() + 8) moved[pre + be64(rd64(i->first, pre.size()) - st)] = i->second; else moved[i->first] = i->second; i = norm.erase(i); }
    norm.insert(moved.begin(), moved.end());
  }
  for(auto &p : want) { auto i = norm.find(p.first); if(i == norm.end()) return "storage lacks " + H::show(p.first); if(i->second != p.second) return "storage has " + H::show(p.first) + " = " + H::show(i->second) + ", expected " + H::show(p.second); }
  for(auto &p : norm) if(!want.count(p.first)) return "storage has the stray entry " + H::show(p.first) + " = " + H::show(p.second);
  return "";
}
inline void dying(int s) { const char *w = s == SIGSEGV ? "segmentation fault" : "the process is terminated"; printf("FAIL a request brings the server down: %s\nsteps of the failing case:\n", w); auto &l = H::st().log; for(size_t i = l.size() > 40 ? l.size() - 40 : 0; i < l.size(); i++) printf("  %s\n", l[i].c_str()); printf("CASES %llu %llu\n", (unsigned long long)H::st().cases, (unsigned long long)H::st().seen.size()); fflush(stdout); _exit(1); }
struct Box {
  Str dir; std::unique_ptr<StateMachine> sm; Publisher pub; std::unique_ptr<RedisDispatcher> disp; Ref m; bool journaled = false; std::vector<Ref> past; static inline int counter = 0; uint64_t sig = 0;
  Box(bool j) : journaled(j) { signal(SIGSEGV, dying); signal(SIGABRT, dying); H::clear(); dir = H::scratch("sm" + std::to_string(++counter)); open(); past.push_back(m); }
  ~Box() { disp.reset(); sm.reset(); H::rmdir_in_scratch("sm" + std::to_string(counter)); }
  void open() { disp.reset(); sm.reset(); try { sm.reset(new StateMachine(dir)); } catch(const std::exception &e) { H::fail(Str("the state machine cannot be opened: ") + e.what()); } disp.reset(new RedisDispatcher(*sm, pub)); }
  void reopen() { H::step("close and reopen"); open(); raw("after reopening"); if(sm->getLastApplied() != m.applied) H::fail("after reopening, the last applied index is " + std::to_string(sm->getLastApplied()) + ", expected " + std::to_string(m.applied)); }
  void raw(const Str &when) { Str d = rawDiff(*sm, m); if(!d.empty()) H::fail(when + ": " + d); }
  static RedisRequest mk(const Req &r) { RedisRequest q; for(auto &x : r) q.push_back(x); q.parseCommand(); return q; }
  static bool isWrite(const Req &r) { return mk(r).getCommandType() == CommandType::WRITE; }
  // requests of one transaction (kind: 0 single request, 1 real transaction, 2 phantom transaction, 3 fused request as it is replicated)
  void send(const std::vector<Req> &rs, int kind) {
    bool w = false; Str d; for(auto &r : rs) { w |= isWrite(r); d += (d.empty() ? "" : " ; ") + show(r); sig = sig * 1000003 + H::hash(d); }
    H::step((kind == 0 ? "" : kind == 1 ? "transaction: " : kind == 2 ? "pipelined: " : "replicated transaction: ") + d);
    LogIndex ix = w && journaled ? m.applied + 1 : 0; m.touched.clear(); Str out; std::vector<Val> want;
    for(auto &r : rs) want.push_back(m.run(r)); if(ix) m.applied = ix;
    try {
      if(kind == 0) { RedisRequest q = mk(rs[0]); out = disp->dispatch(q, ix).val; }
      else { Transaction tx; for(auto &r : rs) { RedisRequest q = mk(r); tx.push_back(std::move(q)); } tx.setPhantom(kind == 2); if(kind == 3) { RedisRequest q = tx.toRedisRequest(); q.parseCommand(); out = disp->dispatch(q, ix).val; } else out = disp->dispatch(tx, ix).val; }
    } catch(const std::exception &e) { H::fail(Str("the request brings the server down: ") + Str(e.what()).substr(0, 300)); }
    size_t p = 0; std::vector<Val> got;
    if(kind == 1 || kind == 3) { Val v; if(!parseVal(out, p, v) || p != out.size() || v.t != '*' || v.a.size() != rs.size()) H::fail("the reply to a transaction of " + std::to_string(rs.size()) + " requests is " + H::show(out)); got = v.a; }
    else { for(size_t i = 0; i < rs.size(); i++) { Val v; if(!parseVal(out, p, v)) H::fail("reply " + std::to_string(i + 1) + " of " + std::to_string(rs.size()) + " is missing or malformed: " + H::show(out)); got.push_back(v); } if(p != out.size()) H::fail("more than one reply per request: " + H::show(out)); }
    for(size_t i = 0; i < rs.size(); i++) if(!same(want[i], got[i])) H::fail("reply to " + show(rs[i]) + " is " + got[i].show() + ", expected " + want[i].show());
    if(w) past.push_back(m); if(journaled && sm->getLastApplied() != m.applied) H::fail("the last applied index is " + std::to_string(sm->getLastApplied()) + ", expected " + std::to_string(m.applied));
  }
};

// ---- requests
struct Gen {
  std::vector<Str> keys = {"k", "a", "a#", "#", "a##b", "b", Str("x\0y", 3)}, fields = {"f", "g", "#", "a#", Str("z\0", 2), "ff", "d", "i"}, vals = {"v", "w", "", "1", "-5", "007x", "a\r\nb", Str("\0", 1), "1.5"}, hints = {"h", "hh", "#", "h#", "g"}, ints = {"1", "-1", "5", "0", "9223372036854775806", "-9223372036854775806", "x", "", "9223372036854775807", "3"};
  std::set<Str> only; uint64_t now = 1000; bool empties = true;
  Str K() { if(empties && H::chance(1, 40)) return ""; return H::astr(keys); } Str F() { if(empties && H::chance(1, 25)) return ""; return H::astr(fields); } Str V() { return H::astr(vals); } Str Hn() { if(empties && H::chance(1, 40)) return ""; return H::astr(hints); } Str N() { return H::one(ints); }
  Str TS() { if(H::chance(1, 3)) now += H::one<int64_t>({1, 1, 5, 10, 100}); return be64(H::chance(1, 8) ? now - 3 : now); } Str dur() { return H::one<Str>({"1", "5", "5", "10", "100", "0", "-1", "x", ""}); }
  std::vector<Str> some(int g, std::function<Str(int)> f) { Req o; for(int i = H::pick(1, 3); i > 0; i--) for(int j = 0; j < g; j++) o.push_back(f(j)); return o; }
  Req cat(Req a, const Req &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
  static const std::vector<std::pair<Str, Str>> &shapes() {      // k key, f field, v value, h hint, n integer, t timestamp, d duration; + repeats the last group
    static std::vector<std::pair<Str, Str>> s = {{"get", "k"}, {"set", "kv"}, {"del", "+k"}, {"exists", "+k"}, {"type", "k"}, {"hget", "kf"}, {"hexists", "kf"}, {"hkeys", "k"}, {"hvals", "k"}, {"hgetall", "k"}, {"hlen", "k"}, {"hset", "kfv"}, {"hsetnx", "kfv"}, {"hmset", "k+fv"}, {"hincrby", "kfn"}, {"hincrbymulti", "+kfs"}, {"hincrbyfloat", "kfr"}, {"hdel", "k+f"}, {"hclone", "kk"},
      {"sadd", "k+f"}, {"srem", "k+f"}, {"sismember", "kf"}, {"smembers", "k"}, {"scard", "k"}, {"smove", "kkf"}, {"deque_push_front", "k+v"}, {"deque_push_back", "k+v"}, {"deque_pop_front", "k"}, {"deque_pop_back", "k"}, {"deque_trim_front", "km"}, {"deque_clear", "k"}, {"deque_len", "k"},
      {"config_set", "cv"}, {"config_get", "c"}, {"config_getall", ""}, {"lhset", "kfhv"}, {"lhmset", "k+fhv"}, {"lhget", "kf"}, {"lhget", "kfh"}, {"lhlen", "k"}, {"lhdel", "k+f"}, {"lhlocdel", "kfh"}, {"lhget_with_fallback", "kfk"}, {"lhget_with_fallback", "kfhk"}, {"lhdel_with_fallback", "kfk"}, {"lhset_and_del_fallback", "kfhvk"}, {"convert_hash_field_to_lhash", "kfkfh"},
      {"vhset", "kfv"}, {"vhdel", "k+f"}, {"vhlen", "k"}, {"vhgetall", "k"}, {"timestamped_lease_acquire", "kodt"}, {"timestamped_lease_get", "kt"}, {"timestamped_lease_release", "kt"}, {"clock_get", ""}, {"lease_get_pending_expiration_events", ""}, {"keys", "*"}};
    return s;
  }
  Req make(const std::pair<Str, Str> &sh) {
    Req r = {sh.first}; const Str &p = sh.second;
    auto item = [&](char c) -> Str { switch(c) { case 'k': return K(); case 'f': return F(); case 'v': return V(); case 'h': return Hn(); case 'n': return N(); case 's': return H::one<Str>({"1", "-1", "20", "x"}); case 'm': return H::one<Str>({"0", "1", "2", "3", "9", "-1", "x"}); case 'r': return H::one<Str>({"1.5", "-2.25", "3", "x", "0.125"}); case 't': return TS(); case 'd': return dur(); case 'o': return H::one<Str>({"me", "you", "a'b", ""}); case 'c': return H::one<Str>({"cfg.a", "cfg", "", "#"}); default: return "*"; } };
    for(size_t i = 0; i < p.size(); i++) { if(p[i] == '+') { Str g = p.substr(i + 1); for(int k = H::pick(1, 3); k > 0; k--) for(char c : g) r.push_back(item(c)); break; } r.push_back(item(p[i])); }
    return r;
  }
  Req any() { for(;;) { auto &s = H::one(shapes()); if(!only.empty() && !only.count(s.first)) continue; if(s.first == "flushall") continue; return make(s); } }
  Req next() {
    if(H::chance(1, 150) && (only.empty() || only.count("flushall"))) return {"flushall"};
    Req r = any(); return r;
  }
};
// a random history against the model; wellformed requests unless `bad`
inline void history(Box &b, Gen &g, int len, int rawEvery = 1, bool txs = true, int reopenOneIn = 60) {
  for(int i = 0; i < len; i++) {
    if(reopenOneIn && H::chance(1, reopenOneIn)) { b.reopen(); continue; }
    if(txs && H::chance(1, 4)) { std::vector<Req> v; for(int k = H::pick(1, 5); k > 0; k--) v.push_back(g.next()); int kind = H::pick(1, 3); if(kind == 3 && v.size() < 2) kind = 1; b.send(v, kind); }
    else b.send({g.next()}, 0);
    if(i % rawEvery == 0) b.raw("after the request");
  }
  H::tick(b.sig);
}
