#include "h.hh"
#include <sstream>
#include <map>
#include <any>
#include <regex>
#include <shared_mutex>
#include <queue>
#include <list>
#include <unordered_map>
#include <deque>
#include <functional>
#include <thread>
#include <condition_variable>
#include <rocksdb/db.h>
#include "StateMachine.hh"
#define private public
#include "Dispatcher.hh"
#undef private
#include "sm.hh"
// one transaction through a batch of our own: what would be published must turn the fields before it into the fields after it
static const char VH = 'g';
static bool reborn(const Str &k, const std::vector<Req> &rs) { for(auto &r : rs) { if(r[0] == "flushall") return true; if(r[0] == "del") for(size_t i = 1; i < r.size(); i++) if(r[i] == k) return true; } return false; }
static void revisions(Box &b, Gen &g) {
  std::vector<Req> rs; for(int k = H::pick(1, 6); k > 0; k--) rs.push_back(g.next()); Str d; for(auto &r : rs) d += show(r) + " ; "; H::step("transaction whose revisions are checked: " + d);
  Ref was = b.m; bool w = false; for(auto &r : rs) w |= Box::isWrite(r); if(!w) return; LogIndex ix = b.journaled ? b.m.applied + 1 : 0; b.m.touched.clear(); std::vector<Val> want; for(auto &r : rs) want.push_back(b.m.run(r)); if(ix) b.m.applied = ix;
  std::map<Str, Str> revs;
  { StagingArea st(*b.sm); Transaction tx; { std::vector<std::unique_ptr<RedisRequest>> gone; for(auto &r : rs) tx.push_back(Box::mk(r)); } Str out; try { out = b.disp->dispatch(st, tx).val; } catch(const std::exception &e) { H::fail(Str("the transaction brings the server down: ") + e.what()); }
    tx.clear(); auto &tr = st.getRevisionTracker(); for(auto it = tr.begin(); it != tr.end(); ++it) revs[it->first] = it->second.serialize(); if(tr.empty() != revs.empty()) H::fail("the revision tracker disagrees with itself"); st.commit(ix); }
  b.raw("after the transaction"); std::set<Str> keys; for(auto &p : was.kv) keys.insert(p.first); for(auto &p : b.m.kv) keys.insert(p.first); for(auto &p : revs) keys.insert(p.first);
  for(auto &k : keys) {
    Ent *o = was.at(k), *n = b.m.at(k); bool vo = o && o->t == VH, vn = n && n->t == VH; bool has = revs.count(k);
    if(!vn) { if(has) H::fail("a revision would be published for " + H::show(k) + ", which is not a versioned hash"); continue; }
    uint64_t v0 = vo ? o->a : 0; bool changed = !vo || n->a != v0 || o->f != n->f || reborn(k, rs); if(has != changed) H::fail(Str(has ? "a revision would be published for " : "no revision would be published for ") + H::show(k) + " which the transaction " + (changed ? "changed" : "did not change"));
    if(!has) continue; Val v; size_t p = 0; if(!parseVal(revs[k], p, v) || p != revs[k].size() || v.t != '*' || v.a.size() != 2 || v.a[1].a.size() % 2) H::fail("malformed revision of " + H::show(k) + ": " + H::show(revs[k]));
    if((uint64_t)v.a[0].i != n->a) H::fail("the revision of " + H::show(k) + " says " + std::to_string(v.a[0].i) + ", the version is " + std::to_string(n->a));
    std::map<Str, Str> f; if(vo && !reborn(k, rs)) f = o->f; for(size_t i = 0; i + 1 < v.a[1].a.size(); i += 2) { if(v.a[1].a[i + 1].s.empty()) f.erase(v.a[1].a[i].s); else f[v.a[1].a[i].s] = v.a[1].a[i + 1].s; }
    std::map<Str, Str> g2; for(auto &q : n->f) if(!q.second.empty()) g2.insert(q); std::map<Str, Str> f2; for(auto &q : f) if(!q.second.empty()) f2.insert(q); if(f2 != g2) H::fail("the revision of " + H::show(k) + " does not lead from the fields before the transaction to those after it: " + H::show(revs[k]));
  }
}
int main() {
  while(H::more()) {
    Box b(H::chance(1,2)); Gen g; bool v = H::chance(1,2); g.keys = v ? Req{"k", "a#"} : Req{"k", "#"}; if(H::chance(1,2)) g.fields = {"f", "#", "ff"};
    if(v) g.only = {"vhset","vhdel","vhlen","vhgetall","del","type"}; else g.only = {"deque_push_front","deque_push_back","deque_pop_front","deque_pop_back","deque_trim_front","deque_clear","deque_len","del"};
    if(v) for(int i = 0; i < 20; i++) { history(b, g, 4, 5); revisions(b, g); }
    history(b, g, v ? 60 : 200, 5); b.raw("at the end"); b.reopen();
  }
  H::finish();
}
