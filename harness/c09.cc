#include "h.hh"
#include "utils/Macros.hh"
#include "storage/KeyLocators.hh"
#include "storage/ReverseLocator.hh"
#include "utils/SmartBuffer.hh"
using namespace quarkdb;
typedef std::string S;
static S be(uint64_t n) { S s; for(int i = 7; i >= 0; i--) s.push_back((char)(n >> (8 * i))); return s; }
static S esc(const S &k) { S o; for(char c : k) { if(c == '#') o += "|#"; else o.push_back(c); } return o; }
static S v(std::string_view x) { return S(x); }
static void eq(const S &a, const S &b, const S &w) { if(a != b) H::fail(w + ": got " + H::show(a) + ", expected " + H::show(b)); }
static bool ambiguous(const S &k, const S &f) { return !k.empty() && k.back() == '|' && !f.empty() && f[0] == '#'; }
static void back0(const S &enc, const S &k, const S &f, KeyType t) {   // read in a block of exactly its size
  std::unique_ptr<char[]> m(new char[enc.size()]); memcpy(m.get(), enc.data(), enc.size());
  ReverseLocator r(std::string_view(m.get(), enc.size())); S w = "key " + H::show(k) + " field " + H::show(f) + " read back from " + H::show(enc);
  bool bad = r.getKeyType() != t || v(r.getOriginalKey()) != k || (t != KeyType::kString && (v(r.getField()) != f || v(r.getRawPrefixUntilBoundary()) != enc.substr(0, enc.size() - f.size())));
  if(bad && t != KeyType::kString && ambiguous(k, f)) { H::known("bar-then-hash", "a key ending in | with a field starting with # is stored like another key and field"); return; }
  H::check(r.getKeyType() == t, w + ": type"); eq(v(r.getOriginalKey()), k, w + ": key");
  if(t != KeyType::kString) { eq(v(r.getField()), f, w + ": field"); eq(v(r.getRawPrefixUntilBoundary()), enc.substr(0, enc.size() - f.size()), w + ": prefix"); }
}
static void back(const S &enc, const S &k, const S &f, KeyType t) {
  try { back0(enc, k, f, t); } catch(FatalException &) { if(!ambiguous(k, f)) H::fail("its own storage key is refused: " + H::show(enc)); }
}
static void one(const S &k, const S &f, const S &h) {
  H::clear(); H::step("key " + H::show(k) + " field " + H::show(f) + " hint " + H::show(h));
  { DescriptorLocator d(k); eq(v(d.toView()), "!" + k, "descriptor"); eq(d.toString(), "!" + k, "descriptor"); DescriptorLocator e; e.reset(f); e.reset(k); eq(v(e.toView()), "!" + k, "descriptor reused"); }
  { StringLocator d(k); eq(v(d.toView()), "a" + k, "string"); back("a" + k, k, "", KeyType::kString); d.reset(f); eq(v(d.toView()), "a" + f, "string reused"); }
  { LeaseLocator d(k); eq(v(d.toView()), "f" + k, "lease"); d.reset(f); d.reset(k); eq(v(d.toView()), "f" + k, "lease reused"); }
  { ConfigurationLocator d(k); eq(v(d.toView()), "~" + k, "configuration"); }
  for(auto t : {KeyType::kHash, KeyType::kSet, KeyType::kDeque, KeyType::kVersionedHash}) {
    S p = S(1, char(t)) + esc(k) + "##"; FieldLocator l(t, k); eq(v(l.getPrefix()), p, "prefix"); eq(v(l.toView()), p, "whole prefix"); H::check(l.getPrefixSize() == p.size(), "prefix size");
    for(const S &x : {f, h, f + h, S(), f}) { l.resetField(x); eq(v(l.toView()), p + x, "with field"); eq(v(l.getPrefix()), p, "prefix after field"); }
    FieldLocator m(t, k, f); eq(v(m.toView()), p + f, "three-part"); back(p + f, k, f, t); m.resetKey(t, h); m.resetField(k); eq(v(m.toView()), S(1, char(t)) + esc(h) + "##" + k, "reused for another key");
    EscapedPrefixExtractor x; S enc = esc(k) + "##" + f; std::unique_ptr<char[]> b(new char[enc.size()]); memcpy(b.get(), enc.data(), enc.size()); H::check(x.parse(std::string_view(b.get(), enc.size())), "own prefix refused: " + H::show(enc));
    if(!ambiguous(k, f)) { eq(v(x.getOriginalPrefix()), k, "original prefix"); eq(v(x.getRawPrefix()), esc(k), "raw prefix"); eq(v(x.getRawSuffix()), f, "suffix"); H::check(x.getBoundary() == esc(k).size() + 2, "boundary"); }
  }
  try { ReverseLocator r("f" + k); (void)r; } catch(FatalException &) {}
  if(!k.empty()) {
    S pd = "e" + esc(k) + "##d", pi = "e" + esc(k) + "##i";
    { LocalityFieldLocator l(k); eq(v(l.getPrefix()), pd, "locality key prefix"); back(pd, k, "d", KeyType::kLocalityHash); }
    if(!h.empty()) {
      S ph = pd + esc(h) + "##"; LocalityFieldLocator l(k, h); eq(v(l.getPrefix()), ph, "hint prefix"); eq(v(l.toView()), ph, "hint"); l.resetField(f); eq(v(l.toView()), ph + f, "hint, field"); eq(v(l.getPrefix()), ph, "hint prefix after field");
      LocalityFieldLocator m(k, h, f); eq(v(m.toView()), ph + f, "key, hint, field"); back(ph + f, k, ph.substr(pd.size() - 1) + f, KeyType::kLocalityHash); ReverseLocator rd(m.toView()); H::check(!rd.isLocalityIndex(), "data taken for index");
      m.resetHint(k); m.resetField(h); eq(v(m.toView()), pd + esc(k) + "##" + h, "another hint");
      EscapedPrefixExtractor x; S tail = esc(h) + "##" + f; H::check(x.parse(tail), "own hint refused");
      if(v(x.getOriginalPrefix()) != h || v(x.getRawSuffix()) != f) { if(ambiguous(h, f)) H::known("bar-then-hash", "a hint ending in | with a field starting with # is stored like another hint and field"); else H::fail("hint and field read back as " + H::show(x.getOriginalPrefix()) + " " + H::show(x.getRawSuffix())); }
    }
    { LocalityIndexLocator l(k); eq(v(l.toView()), pi, "index prefix"); if(!f.empty()) { LocalityIndexLocator i(k, f); eq(v(i.toView()), pi + f, "index"); back(pi + f, k, "i" + f, KeyType::kLocalityHash); ReverseLocator rd(i.toView()); H::check(rd.isLocalityIndex(), "index not recognised"); i.resetField(k); eq(v(i.toView()), pi + k, "index, other field"); } }
  }
  H::tick(H::hash(k + "\1" + f + "\2" + h));
}
static void words(int n, const S &al, std::vector<S> &out) { std::vector<S> cur = {""}; out.push_back(""); for(int i = 0; i < n; i++) { std::vector<S> nx; for(auto &w : cur) for(char c : al) nx.push_back(w + c); cur = nx; out.insert(out.end(), nx.begin(), nx.end()); } }
static S word() {
  switch(H::pick(0, 6)) {
    case 0: { S s; for(int i = H::pick(0, 12); i > 0; i--) s.push_back(H::one<char>({'#', '|', 'a', '\0', '\xff', '!'})); return s; }
    case 1: return S(H::pick(500, 520), H::one<char>({'x', '#', '|'}));
    case 2: { S s; for(int i = H::pick(0, 600); i > 0; i--) s.push_back((char)H::pick(0, 255)); return s; }
    case 3: return S(H::pick(240, 260), '#');
    case 4: return S(H::pick(1, 3000), H::one<char>({'y', '#'}));
    default: return H::astr({"", "key", "#", "##", "|", "|#", "a|", "#a", "a##b", "||##"});
  }
}
static void malformed() {   // anything at all: refused or read within bounds, and what is read is what was written
  H::clear(); S s; if(H::chance(1, 2)) { s.push_back(H::one<char>({'a', 'b', 'c', 'd', 'e', 'f', 'g', '!', 'z', '\0'})); for(int i = H::pick(0, 9); i > 0; i--) s.push_back(H::one<char>({'#', '|', 'a', '\0'})); } else { s = "b" + esc(word()) + "##" + word(); s = s.substr(0, H::pick(0, s.size())); }
  H::step("raw key " + H::show(s)); std::unique_ptr<char[]> m(new char[s.size()]); memcpy(m.get(), s.data(), s.size());
  try {
    ReverseLocator r(std::string_view(m.get(), s.size())); if(r.getKeyType() != KeyType::kParseError) {
      S k = v(r.getOriginalKey()); if(r.getKeyType() == KeyType::kString) eq(s, "a" + k, "string key read from " + H::show(s));
      else if(S raw = v(r.getRawPrefixUntilBoundary()); [&] { for(size_t i = 1; i + 2 < raw.size(); i++) if(raw[i] == '#' && raw[i - 1] != '|') return false; return true; }()) eq(S(1, char(r.getKeyType())) + esc(k) + "##" + v(r.getField()), s, "key and field read from " + H::show(s));
    }
  } catch(FatalException &) {}
  H::tick(H::hash(s));
}
static void buffers() {   // any order of resizing keeps the contents and stays within its memory
  H::clear(); SmartBuffer<16> b; S m(16, 'q'); memcpy(b.data(), m.data(), 16);
  for(int i = H::pick(1, 30); i > 0; i--) {
    int op = H::pick(0, 2); size_t n = H::one<size_t>({0, 1, 15, 16, 17, 31, 32, 33, 64, 100, m.size(), m.size() + 1});
    if(op == 0) { b.resize(n); m = S(n, (char)H::pick(0, 255)); memcpy(b.data(), m.data(), n); H::step("resize " + std::to_string(n)); }
    if(op == 1) { n = std::min(n, m.size()); b.shrink(n); m.resize(n); H::step("shrink " + std::to_string(n)); }
    if(op == 2) { n = std::max(n, m.size()); size_t o = m.size(); b.expand(n); H::check(b.size() == n, "size"); eq(S(b.data(), o), m, "contents kept"); m.resize(n, 'e'); memcpy(b.data() + o, m.data() + o, n - o); H::step("expand " + std::to_string(n)); }
    H::check(b.size() == m.size(), "size"); eq(b.toString(), m, "contents"); eq(v(b.toView()), m, "contents"); for(size_t j = 0; j < m.size(); j++) H::check(b[j] == m[j], "element");
  }
  H::tick(m.size());
}
int main() {
  std::vector<S> ks, fs, hs; words(H::thorough() ? 6 : 4, "#|x", ks); words(H::thorough() ? 3 : 2, "#|x", fs);
  std::map<S, std::pair<S, S>> seen;
  for(auto &k : ks) for(auto &f : fs) {
    one(k, f, fs[H::pick(0, fs.size() - 1)]); FieldLocator l(KeyType::kHash, k, f);
    auto it = seen.emplace(v(l.toView()), std::make_pair(k, f));
    if(!it.second) { auto &o = it.first->second; H::step("and key " + H::show(o.first) + " field " + H::show(o.second)); if(ambiguous(k, f) || ambiguous(o.first, o.second)) H::known("bar-then-hash", "a key ending in | with a field starting with # is stored like another key and field"); else H::fail("two different elements share the storage key " + H::show(l.toView())); }
  }
  std::vector<uint64_t> ts = {0, 1, 255, 256, 65535, 65536, (1ull << 32) - 1, 1ull << 32, (1ull << 63) - 1, 1ull << 63, UINT64_MAX}; for(int i = 0; i < 200; i++) ts.push_back(H::rnd() >> H::pick(0, 63));
  for(auto a : ts) for(int j = 0; j < 20; j++) { uint64_t b = H::one(ts); S k = word(), q = word(); ExpirationEventLocator x(a, k), y(b, q); eq(v(x.toView()), "@" + be(a) + k, "expiration event"); if(a != b) H::check((v(x.toView()) < v(y.toView())) == (a < b), "order of expiration events"); x.reset(b, k); eq(v(x.toView()), "@" + be(b) + k, "event reused"); H::tick(a ^ b); }
  while(H::more()) { switch(H::pick(0, 4)) { case 0: case 1: one(word(), word(), word()); break; case 2: case 3: malformed(); break; default: buffers(); } }
  H::finish();
}
