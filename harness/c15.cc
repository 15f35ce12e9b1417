#include "sm.hh"
// redis glob patterns
static bool glob(const Str &p, size_t i, const Str &s, size_t j) {
  for(; i < p.size(); i++) {
    char c = p[i];
    if(c == '*') { for(size_t k = j; k <= s.size(); k++) if(glob(p, i + 1, s, k)) return true; return false; }
    if(j >= s.size()) return false;
    if(c == '?') { j++; continue; }
    if(c == '[') { size_t k = i + 1; bool neg = k < p.size() && p[k] == '^', hit = false; if(neg) k++;
      for(; k < p.size() && p[k] != ']'; k++) { if(p[k] == '\\' && k + 1 < p.size()) { k++; hit |= p[k] == s[j]; } else if(k + 2 < p.size() && p[k + 1] == '-') { char a = p[k], b = p[k + 2]; if(a > b) std::swap(a, b); hit |= a <= s[j] && s[j] <= b; k += 2; } else hit |= p[k] == s[j]; }
      if(hit == neg) return false; j++; i = k; continue; }
    if(c == '\\' && i + 1 < p.size()) c = p[++i];
    if(s[j] != c) return false; j++;
  }
  return j == s.size();
}
static Str cmd; static Box *B; static Gen *G;
static Val ask(const Req &r) {
  RedisRequest q = Box::mk(r); Str out; try { out = B->disp->dispatch(q, 0).val; } catch(const std::exception &e) { H::fail("the request " + show(r) + " brings the server down: " + Str(e.what()).substr(0, 300)); }
  Val v; size_t p = 0; if(!parseVal(out, p, v) || p != out.size()) H::fail("malformed reply to " + show(r) + ": " + H::show(out)); return v;
}
// items of the model in order; each item is a group of strings
static std::vector<Req> items(const Str &c, const Str &k, const Str &pat) {
  std::vector<Req> o; auto hit = [&](const Str &s) { return pat.empty() || pat == "*" || glob(pat, 0, s, 0); };
  if(c == "scan" || c == "keys") { for(auto &p : B->m.kv) if(hit(p.first)) o.push_back({p.first}); return o; }
  Ent *e = B->m.at(k); if(!e) return o;
  if(c == "hscan") for(auto &p : e->f) o.push_back({p.first, p.second});
  if(c == "sscan") for(auto &p : e->f) o.push_back({p.first});
  if(c == "lhscan") { std::map<Str, Req> s; for(auto &p : e->lh) if(hit(p.second.first)) s[esc(p.second.first) + "##" + p.first] = {p.second.first, p.first, p.second.second}; for(auto &p : s) o.push_back(p.second); }
  if(c == "deque_scan_back") for(auto &x : e->d) o.push_back({x});
  return o;
}
static Str sig(const Req &r) { Str s; for(auto &x : r) s += H::show(x) + " "; return s; }
struct Walk { std::vector<Req> got; std::vector<size_t> pages; };
static Walk walk(const Str &c, const Str &k, const Str &pat, const Str &count, std::function<void()> between) {
  Walk w; Str cur = "0"; size_t g = c == "hscan" ? 2 : c == "lhscan" ? 3 : 1; int guard = 0;
  for(;;) {
    Req r = {c}; if(c != "scan") r.push_back(k); r.push_back(cur);
    bool countFirst = H::chance(1, 2); auto addc = [&] { if(!count.empty()) { r.push_back(H::chance(1, 2) ? "COUNT" : "count"); r.push_back(count); } };
    if(countFirst) addc();
    if(!pat.empty()) { r.push_back(c == "scan" ? "MATCH" : "MATCHLOC"); r.push_back(pat); }
    if(!countFirst) addc();
    H::step(show(r)); Val v = ask(r);
    if(v.t != '*' || v.a.size() != 2 || v.a[1].t != '*' || (v.a[0].t != '$' && v.a[0].t != '+')) H::fail("reply to " + show(r) + " is not a page: " + v.show());
    H::check(v.a[1].a.size() % g == 0, "a page of " + show(r) + " ends within an item"); w.pages.push_back(v.a[1].a.size() / g);
    std::vector<Req> page; for(size_t i = 0; i < v.a[1].a.size(); i += g) { Req it; for(size_t j = 0; j < g; j++) it.push_back(v.a[1].a[i + j].s); page.push_back(it); }
    if(c == "deque_scan_back") w.got.insert(w.got.begin(), page.begin(), page.end()); else w.got.insert(w.got.end(), page.begin(), page.end());
    size_t lim = count.empty() ? 100 : strtoull(count.c_str(), nullptr, 10); H::check(page.size() <= lim, "a page of " + show(r) + " holds " + std::to_string(page.size()) + " items");
    Str next = v.a[0].s; if(next == "0") return w; H::check(next.compare(0, 5, "next:") == 0, "unusable cursor " + H::show(next)); H::check(next != cur, "the enumeration does not advance: the cursor stays " + H::show(next)); cur = next; H::check(++guard < 5000, "the enumeration does not end");
    if(between) between();
  }
}
static void exact(const Str &what, const std::vector<Req> &got, const std::vector<Req> &want) {
  for(size_t i = 0; i < std::max(got.size(), want.size()); i++) { if(i >= got.size()) H::fail(what + " misses " + sig(want[i])); if(i >= want.size()) H::fail(what + " returns the extra item " + sig(got[i])); if(got[i] != want[i]) H::fail(what + ": item " + std::to_string(i) + " is " + sig(got[i]) + ", expected " + sig(want[i])); }
}
int main() {
  while(H::more()) {
    Box b(H::chance(1, 2)); Gen g; B = &b; G = &g; bool many = H::chance(1, 3);
    std::vector<Str> alpha = {"a", "b", "#", "?", "*", "[", "\\", "\xff", Str("\0", 1), "A", "^", "-", "]"};
    auto word = [&](int m) { Str s; for(int n = H::pick(1, m); n > 0; n--) s += H::one(alpha); return s; };
    auto safe = [&](int m) { Str s = word(m); return s; };
    g.keys.clear(); for(int i = 0; i < (many ? 24 : 6); i++) g.keys.push_back(safe(3)); g.keys.push_back("a"); g.keys.push_back("a#"); g.keys.push_back("a##d");
    g.fields.clear(); for(int i = 0; i < (many ? 30 : 8); i++) g.fields.push_back(word(3)); g.hints.clear(); for(int i = 0; i < 5; i++) g.hints.push_back(word(2));
    g.empties = H::chance(1, 3);
    g.only = {"set","del","hset","hmset","hdel","sadd","srem","deque_push_front","deque_push_back","deque_pop_front","deque_pop_back","deque_trim_front","lhset","lhmset","lhdel","config_set","vhset","vhdel"};
    auto pattern = [&]() -> Str { if(H::chance(1, 4)) return ""; if(H::chance(1, 4)) return "*"; Str p; if(H::chance(1, 2)) { Str q = H::one(H::chance(1, 2) ? g.keys : g.hints); for(char x : q) { if(x == '[' || (strchr("?*\\]", x) && H::chance(1, 2))) p += '\\'; p += x; } } if(H::chance(1, 3) && p.size() > 1) p.pop_back(); for(int i = H::pick(0, 2); i > 0; i--) p += H::one<Str>({"*", "?", "a", "[ab#]", "[^a]", "[a-c]", "\\*", "\\a", "#"}); return p; };
    auto count = []() -> Str { return H::one<Str>({"", "1", "1", "2", "3", "7", "100", "9223372036854775806", "4611686018427387904", "6148914691236517206"}); };
    int rounds = 12;
    for(int round = 0; round < rounds && H::more(); round++) {
      H::clear(); history(b, g, many ? 60 : 15, 1000000, true, 200);
      for(auto &k : g.keys) {
        Ent *e = b.m.at(k); char t = e ? e->t : 'b'; Str c = t == 'b' ? "hscan" : t == 'c' ? "sscan" : t == 'e' ? "lhscan" : t == 'd' ? "deque_scan_back" : "hscan"; if(e && (t == 'a' || t == 'g')) { Val v = ask({"hscan", k, "0"}); H::check(v.t == '-' && v.s.find("WRONGTYPE") != Str::npos, "hscan of another type is answered " + v.show()); continue; }
        Str pat = c == "lhscan" ? (H::chance(1, 2) ? Str() : H::chance(1, 2) ? H::one(g.hints) : pattern()) : Str();
        Walk w = walk(c, k, pat, count(), nullptr); exact(c + " of " + H::show(k) + (pat.empty() ? "" : " with " + H::show(pat)), w.got, items(c, k, pat));
        if(t == 'b') { std::vector<Req> all; Val v = ask({"hgetall", k}); for(size_t i = 0; i + 1 < v.a.size(); i += 2) all.push_back({v.a[i].s, v.a[i + 1].s}); exact("hgetall of " + H::show(k), all, items("hscan", k, "")); }
        H::tick(H::hash(c + k + pat) + b.sig);
      }
      for(int i = 0; i < 4; i++) {
        Str pat = pattern(); Walk w = walk("scan", "", pat, count(), nullptr); auto want = items("scan", "", pat); exact("scan with " + H::show(pat), w.got, want);
        Val v = ask({"keys", pat}); if(!pat.empty()) { std::vector<Req> o; for(auto &x : v.a) o.push_back({x.s}); H::check(v.t == '*', "keys is answered " + v.show()); exact("keys with " + H::show(pat), o, want); }
        H::tick(H::hash(pat) + b.sig);
      }
      // pages interleaved with changes: what stays throughout is seen exactly once, and nothing is seen that was never there
      for(int i = 0; i < 3; i++) {
        Str k = H::one(g.keys); Ent *e = b.m.at(k); char t = e ? e->t : 0; Str c = H::chance(1, 3) ? "scan" : t == 'b' ? "hscan" : t == 'c' ? "sscan" : t == 'e' ? "lhscan" : "scan"; std::set<Str> ever, always;
        auto look = [&](bool first) { std::set<Str> now; for(auto &x : items(c, k, "")) now.insert(sig(x)); ever.insert(now.begin(), now.end()); if(first) always = now; else for(auto q = always.begin(); q != always.end();) if(!now.count(*q)) q = always.erase(q); else ++q; };
        look(true); Gen h = g; if(c == "hscan") { h.only = {"hset", "hdel", "hset"}; h.keys = {k}; } if(c == "sscan") { h.only = {"sadd", "srem"}; h.keys = {k}; } if(c == "lhscan") { h.only = {"lhset", "lhdel"}; h.keys = {k}; }
        Walk w = walk(c, k, "", H::one<Str>({"1", "2", "3"}), [&] { if(H::chance(1, 2)) { b.send({h.next()}, 0); look(false); } });
        std::map<Str, int> seen; for(auto &x : w.got) seen[sig(x)]++;
        for(auto &x : always) H::check(seen[x] == 1, c + " of " + H::show(k) + " in pages, with changes in between, returns the untouched item " + x + std::to_string(seen[x]) + " times"); for(auto &x : w.got) H::check(ever.count(sig(x)), c + " returns an item that was never there: " + sig(x));
        std::map<Str, int> names; for(auto &x : w.got) H::check(++names[c == "lhscan" ? sig({x[0], x[1]}) : x[0]] == 1, c + " returns the item " + sig(x) + " twice"); H::tick(H::hash(c + k) + b.sig);
      }
    }
    b.raw("at the end");
  }
  H::finish();
}
