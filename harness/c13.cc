#include "sm.hh"
#include <filesystem>
#include <thread>
#include <atomic>
namespace fs = std::filesystem;
static Str rawOf(const Str &dir, const Ref &m, LogIndex &ap) { StateMachine s(dir); ap = s.getLastApplied(); return ap != m.applied ? "" : rawDiff(s, m); }
static fs::path newestLog(const Str &dir) { fs::path n; for(auto &e : fs::directory_iterator(dir)) if(e.path().extension() == ".log" && (n.empty() || n.filename() < e.path().filename())) n = e.path(); return n; }
static Str setupLog; static uint64_t setupLen = 0;      // log of the creation of the state machine: what comes before the first batch is kept
// what a crash leaves: the files as they are on disk, the newest log cut anywhere
static void crash(Box &b, bool cut) {
  Str to = H::scratch("crash"); H::rmdir_in_scratch("crash"); fs::copy(b.dir, to, fs::copy_options::recursive);
  fs::path newest = newestLog(to);
  uint64_t len = 0, all = 0; if(!newest.empty()) { all = fs::file_size(newest); uint64_t lo = newest.filename() == setupLog ? setupLen : 0; len = cut ? (H::chance(1, 2) ? H::pick(lo, all) : all - H::pick(0, std::min<uint64_t>(all - lo, 40))) : all; fs::resize_file(newest, len); }
  Str what = "after a crash that keeps " + std::to_string(len) + " of the last " + std::to_string(all) + " bytes of the log";
  try {
    StateMachine s(to); LogIndex ap = s.getLastApplied(); const Ref *r = nullptr; for(auto &p : b.past) if(p.applied == ap) r = &p;
    if(!r) H::fail(what + ", the last applied index is " + std::to_string(ap) + ", which no committed batch had");
    if(!cut && ap != b.m.applied) H::fail(what + ", the last applied index went back from " + std::to_string(b.m.applied) + " to " + std::to_string(ap));
    Str d = rawDiff(s, *r); if(!d.empty()) H::fail(what + ", the contents are not those at the last applied index " + std::to_string(ap) + ": " + d);
  } catch(const std::exception &e) { H::fail(what + ", the state machine does not open: " + Str(e.what()).substr(0, 300)); }
  H::rmdir_in_scratch("crash");
}
static void refused(Box &b, const Req &r, LogIndex ix, bool mustThrow) {
  H::step("at index " + std::to_string(ix) + ": " + show(r)); bool thrown = false; LogIndex was = b.sm->getLastApplied();
  try { RedisRequest q = Box::mk(r); if(H::chance(1, 2) || q.getCommandType() == CommandType::INVALID || q.getCommandType() == CommandType::CONTROL) b.disp->dispatch(q, ix); else { Transaction t; t.push_back(std::move(q)); t.setPhantom(H::chance(1, 2)); b.disp->dispatch(t, ix); if(!Box::isWrite(r)) thrown = true; } } catch(const std::exception &) { thrown = true; }
  if(mustThrow && !thrown) H::fail("not refused, although the last applied index is " + std::to_string(was));
  if(b.sm->getLastApplied() != was) H::fail("refused, but the last applied index became " + std::to_string(b.sm->getLastApplied())); b.raw("after the refusal");
}
static void atomicity(Box &b) {
  H::step("concurrent readers while transactions set three keys to one value"); std::atomic<bool> stop{false}; std::atomic<int> bad{0}; std::vector<std::thread> ts; StateMachine &sm = *b.sm; RedisDispatcher &d = *b.disp;
  std::vector<Req> init; for(auto k : {"p1", "p2", "p3"}) init.push_back({"set", k, "1000"}); b.send(init, 1);
  for(int t = 0; t < 3; t++) ts.emplace_back([&, t]() { int last = 0; while(!stop) { Transaction tx; for(auto k : {"p1", "p2", "p3"}) tx.push_back(Box::mk({"get", k})); tx.setPhantom(t == 1); Str out = d.dispatch(tx, 0).val; size_t p = 0; std::vector<Val> v; Val x;
    if(t == 1) for(int i = 0; i < 3; i++) { if(!parseVal(out, p, x)) { bad = 1; break; } v.push_back(x); } else { if(!parseVal(out, p, x)) bad = 1; v = x.a; }
    if(v.size() != 3 || v[0].s != v[1].s || v[1].s != v[2].s) { bad = 2; continue; } int n = atoi(v[0].s.c_str()); if(n < last) bad = 3; last = n; } });
  for(int i = 1001; i < 1060; i++) { std::vector<Req> w; for(auto k : {"p1", "p2", "p3"}) w.push_back({"set", k, std::to_string(i)}); b.send(w, H::pick(1, 3)); }
  stop = true; for(auto &t : ts) t.join(); (void) sm;
  if(bad) H::fail(bad == 3 ? "a reader saw an older transaction after a newer one" : "a reader saw part of a transaction");
}
int main() {
  int round = 0;
  while(H::more()) {
    Box b(true); { fs::path n = newestLog(b.dir); setupLog = n.filename(); setupLen = fs::file_size(n); } Gen g; if(H::chance(1, 3)) g.keys = {"k", "a#"}; if(round++ % 6 == 1) atomicity(b);
    for(int i = 0; i < 6; i++) {
      history(b, g, 12, 6, true, 0);
      switch(H::pick(0, 6)) {
        case 0: refused(b, {"set", "k", "x"}, b.m.applied + H::pick(2, 5), true); break;
        case 1: if(b.m.applied > 0) refused(b, {"hset", "h9", "f", "x"}, H::pick(0, b.m.applied), true); break;
        case 2: refused(b, H::one<Req>({{"get", "k"}, {"ping"}, {"hgetall", "k"}, {"nonexistent", "x"}, {"raft_info"}}), b.m.applied + 1, true); break;
        case 3: { H::step("a journal entry without requests"); RedisRequest q = Box::mk({H::one<Str>({"JOURNAL_LEADERSHIP_MARKER", "JOURNAL_UPDATE_MEMBERS"}), "x", "y"}); b.m.applied++; b.disp->dispatch(q, b.m.applied); b.past.push_back(b.m); if(b.sm->getLastApplied() != b.m.applied) H::fail("the last applied index is " + std::to_string(b.sm->getLastApplied()) + ", expected " + std::to_string(b.m.applied)); b.raw("after it"); break; }
        case 4: crash(b, false); break;
        default: crash(b, true); crash(b, true);
      }
      H::tick(b.sig * 31 + i);
    }
    Str cp = H::scratch("cp"); H::rmdir_in_scratch("cp"); H::step("checkpoint"); if(!b.sm->checkpoint(cp).ok()) H::fail("checkpoint refused");
    { LogIndex ap = 0; try { Str d = rawOf(cp, b.m, ap); if(ap != b.m.applied) H::fail("the checkpoint holds index " + std::to_string(ap) + ", not " + std::to_string(b.m.applied)); if(!d.empty()) H::fail("the checkpoint differs: " + d); } catch(const std::exception &e) { H::fail(Str("the checkpoint does not open: ") + e.what()); } }
    H::rmdir_in_scratch("cp"); b.reopen();
  }
  H::finish();
}
