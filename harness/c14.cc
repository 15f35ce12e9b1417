#include "h.hh"
#include <sstream>
#include <map>
#include <any>
#include <regex>
#include <shared_mutex>
#include <queue>
#include <list>
#include <unordered_map>
#include <deque>
#include <functional>
#include <thread>
#include <condition_variable>
#include <rocksdb/db.h>
#include "utils/AssistedThread.hh"
#define private public
#include "StateMachine.hh"
#include "Dispatcher.hh"
#undef private
#include "sm.hh"
#include "storage/ExpirationEventCache.hh"
#include "redis/LeaseFilter.hh"
// what the state machine keeps in memory must mirror the leases
static void cacheDiff(Box &b, const Str &when) {
  std::vector<std::pair<uint64_t, Str>> want, got; for(auto &p : b.m.kv) if(p.second.t == 'f') want.push_back({p.second.b, p.first}); for(auto &p : b.sm->mExpirationCache.mContents) got.push_back({p.first, p.second});
  std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); if(want != got || b.sm->mExpirationCache.mStoredLeases.size() != want.size()) { Str d; for(auto &p : got) d += " " + std::to_string(p.first) + ":" + H::show(p.second); H::fail(when + ": the deadlines in memory do not mirror the leases:" + d); }
  for(auto &p : want) if(p.first <= b.m.clock) H::fail(when + ": an ended lease is still held");
  ClockValue c; b.sm->getClock(c); if(c != b.m.clock) H::fail(when + ": the clock is " + std::to_string(c) + ", expected " + std::to_string(b.m.clock));
}
// the clock on its own
static void clock(Box &b, Gen &g) {
  if(H::chance(1, 3) && b.m.clock > 0) { uint64_t t = b.m.clock - H::pick(1, std::min<int64_t>(b.m.clock, 20)); H::step("set the clock back to " + std::to_string(t)); bool ok = false; try { b.sm->advanceClock(t, b.journaled ? b.m.applied + 1 : 0); ok = true; } catch(const std::exception &) {} if(ok) H::fail("the clock was set back"); }
  else { uint64_t t = b.m.clock + H::one<int64_t>({0, 1, 4, 5, 10, 50}); H::step("advance the clock to " + std::to_string(t)); LogIndex ix = b.journaled ? b.m.applied + 1 : 0; if(ix) b.m.applied = ix; b.m.advance(t); b.m.clock = t; g.now = std::max(g.now, t); try { b.sm->advanceClock(t, ix); } catch(const std::exception &e) { H::fail(Str("advancing the clock fails: ") + e.what()); } }
  b.raw("after moving the clock"); cacheDiff(b, "after moving the clock");
}
// the ordered cache on its own, against a set
static void cacheAlone() {
  ExpirationEventCache c; std::set<std::pair<uint64_t, Str>> m; H::step("deadlines in memory on their own");
  for(int i = 0; i < 200; i++) {
    Str n(1, (char)('a' + H::pick(0, 9))); if(H::chance(1, 10)) n = Str("\0x", 2); auto at = m.end(); for(auto j = m.begin(); j != m.end(); ++j) if(j->second == n) at = j;
    if(at == m.end()) { uint64_t t = H::pick(1, 6); if(H::chance(1, 9)) t = ~0ull; H::step("insert " + std::to_string(t) + " " + H::show(n)); c.insert(t, n); m.insert({t, n}); }
    else if(H::chance(1, 2)) { H::step("remove " + std::to_string(at->first) + " " + H::show(n)); try { c.remove(at->first, n); } catch(const std::exception &e) { H::fail(Str("removing a known deadline fails: ") + e.what()); } m.erase(at); }
    else if(H::chance(1, 3)) { H::step("pop the first"); Str f = c.getFrontLease(); uint64_t t = c.getFrontDeadline(); if(!m.count({t, f})) H::fail("the first deadline is not an entry"); c.pop_front(); m.erase({t, f}); }
    if(c.size() != m.size() || c.empty() != m.empty()) H::fail("wrong number of deadlines"); if(!m.empty()) { if(c.getFrontDeadline() != m.begin()->first) H::fail("the first deadline is not the earliest"); if(!m.count({c.getFrontDeadline(), c.getFrontLease()})) H::fail("the first deadline is not that of its lease"); }
  }
  H::tick(H::rnd());
}
static void filter() {
  for(Str n : {"lease_get", "lease_acquire", "lease_release", "LEASE-ACQUIRE"}) { Req r = {n, H::one<Str>({"k", "#"})}; int k = H::pick(0, 3); for(int i = 0; i < k; i++) r.push_back(H::one<Str>({"me", "5", ""})); RedisRequest q = Box::mk(r); uint64_t t = H::rnd(); H::step("timestamp " + show(r)); LeaseFilter::transform(q, t);
    if(q.size() != r.size() + 1 || q[q.size() - 1] != be64(t)) H::fail("the timestamp is not the last argument"); for(size_t i = 1; i < r.size(); i++) if(q[i] != r[i]) H::fail("an argument changed"); if(q.getCommandType() != CommandType::WRITE) H::fail("a timestamped lease request is not a write"); }
}
// many leases that end together
static void crowd() {
  Box b(H::chance(1, 2)); int n = H::pick(70, 300); H::step(std::to_string(n) + " leases, then all end at once"); uint64_t t = b.m.clock + 1;
  for(int i = 0; i < n; i++) b.send({{"timestamped_lease_acquire", "k" + std::to_string(i), "me", std::to_string(5 + i % 3), be64(t)}}, 0);
  b.send({{"timestamped_lease_get", "k0", be64(t + 100)}}, 0); b.raw("after all leases ended"); cacheDiff(b, "after all leases ended"); H::clear();
}
int main() {
  crowd();
  while(H::more()) {
    Box b(H::chance(1,2)); Gen g; g.keys = H::chance(1,2) ? Req{"k", "a#"} : Req{"k", "#", "", Str("\0x", 2), "kk", "j"}; g.only = {"timestamped_lease_acquire","timestamped_lease_get","timestamped_lease_release","lease_get_pending_expiration_events","clock_get","del","type","exists","get"}; if(H::chance(1,2)) { g.only.insert("set"); g.only.insert("flushall"); }
    for(int i = 0; i < 25; i++) { history(b, g, 6, 2); cacheDiff(b, "after the history"); if(H::chance(1,2)) clock(b, g); }
    b.reopen(); cacheDiff(b, "after reopening"); H::clear(); cacheAlone(); filter();
  }
  H::finish();
}
