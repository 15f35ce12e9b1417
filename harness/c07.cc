#include "h.hh"
#include <sstream>
#include <map>
#include <any>
#include <regex>
#include <shared_mutex>
#include <queue>
#include <list>
#include <unordered_map>
#include <deque>
#include <functional>
#include <thread>
#include <future>
#include <atomic>
#include <condition_variable>
#include <rocksdb/db.h>
#include <qclient/QClient.hh>
#include "utils/AssistedThread.hh"
#define private public
#include "raft/RaftReplicator.hh"
#include "raft/RaftVoteRegistry.hh"
#include "raft/RaftLease.hh"
#include "raft/RaftCommitTracker.hh"
#include "raft/RaftTrimmer.hh"
#include "raft/RaftDirector.hh"
#undef private
#include "raft/RaftUtils.hh"
#include "raft/RaftConfig.hh"
#include "raft/RaftContactDetails.hh"
#include "StateMachine.hh"
#include "jm.hh"
using Clock = std::chrono::steady_clock; using ms = std::chrono::milliseconds;
static Srv cluster(int n) { Srv v; for(int i = 0; i < n; i++) v.push_back(RaftServer("node" + std::to_string(i), 7000 + i)); return v; }
static redisReply *own(redisReply *r) { static std::mutex m; static std::deque<std::unique_ptr<redisReply>> keep; std::lock_guard<std::mutex> g(m); keep.emplace_back(r); return r; }
static redisReply *str(const std::string &s, int type = REDIS_REPLY_STRING) { auto r = own(new redisReply()); r->type = type; r->str = strdup(s.c_str()); r->len = s.size(); return r; }
static qclient::redisReplyPtr arr(const std::vector<std::string> &v) { auto r = own(new redisReply()); r->type = REDIS_REPLY_ARRAY; r->elements = v.size(); r->element = (redisReply **)calloc(v.size() + 1, sizeof(redisReply *)); for(size_t i = 0; i < v.size(); i++) r->element[i] = str(v[i]); return qclient::redisReplyPtr(r, [](redisReply *) {}); }
static qclient::redisReplyPtr raw(redisReply *r) { return qclient::redisReplyPtr(own(r), [](redisReply *) {}); }
static qclient::redisReplyPtr odd() {      // replies that are not what was asked for
  auto r = new redisReply(); switch(H::pick(0, 4)) { case 0: r->type = REDIS_REPLY_INTEGER; r->integer = 3; break; case 1: r->type = REDIS_REPLY_NIL; break; case 2: delete r; return arr({"x"}); case 3: delete r; r = str("ERR unknown command", REDIS_REPLY_ERROR); return qclient::redisReplyPtr(r, [](redisReply *) {}); default: delete r; return arr({"1", "maybe", "?"}); } return raw(r);
}
static std::future<qclient::redisReplyPtr> now(qclient::redisReplyPtr p) { std::promise<qclient::redisReplyPtr> q; q.set_value(p); return q.get_future(); }
static std::future<qclient::redisReplyPtr> never() { static std::mutex m; static std::deque<std::promise<qclient::redisReplyPtr>> keep; std::lock_guard<std::mutex> g(m); keep.emplace_back(); return keep.back().get_future(); }
static const char *RN[] = {"granted", "refused", "veto", "unreachable", "not understood", "no answer in time"};
// how many of the others (a vote each) elect
static ElectionOutcome reference(const std::vector<int> &v, bool pre) { size_t pos = 1; for(int x : v) { if(x == 2) return ElectionOutcome::kVetoed; if(x == 0 || (x == 4 && pre)) pos++; } return 2 * pos > v.size() + 1 ? ElectionOutcome::kElected : ElectionOutcome::kNotElected; }
static void registry() {
  int n = H::pick(1, 9); bool pre = H::chance(1, 2); RaftVoteRegistry r(H::pick(1, 100), pre); std::vector<int> v; Srv c = cluster(n); H::clear(); std::string d;
  for(int i = 1; i < n; i++) { int k = H::one<int>({0, 0, 0, 1, 1, 2, 3, 4}); if(k == 2 && H::chance(2, 3)) k = 0; v.push_back(k); d += std::string(" ") + RN[k]; if(k < 3) r.registerVote(c[i], RaftVoteResponse(7, k == 0 ? RaftVote::GRANTED : k == 1 ? RaftVote::REFUSED : RaftVote::VETO)); else if(k == 3) r.registerNetworkError(c[i]); else r.registerParseError(c[i]); }
  H::step(std::string(pre ? "questions to " : "votes of ") + std::to_string(n - 1) + " others:" + d); H::tick(H::hash(d) * 2 + pre);
  if(r.determineOutcome() != reference(v, pre)) H::fail("the outcome is " + std::to_string((int)r.determineOutcome()) + ", expected " + std::to_string((int)reference(v, pre)));
  auto cnt = [&](int k) { return (size_t)std::count(v.begin(), v.end(), k); }; if(r.count(RaftVote::GRANTED) != cnt(0) || r.count(RaftVote::REFUSED) != cnt(1) || r.count(RaftVote::VETO) != cnt(2) || r.countNetworkError() != cnt(3) || r.countParseError() != cnt(4)) H::fail("the votes are miscounted");
}
// the lease ends a fixed time after the last moment at which a majority was in contact
static void lease() {
  int n = H::pick(1, 8); Srv c = cluster(9), t(c.begin() + 1, c.begin() + n); auto dur = ms(H::pick(1, 1000)); RaftLease l(Srv{}, dur); std::map<RaftServer, int64_t> at; auto base = Clock::now(); H::clear(); auto T = [&](int64_t x) { return x == 0 ? Clock::time_point() : base + ms(x); };
  l.updateTargets(t); H::step("a leader and " + std::to_string(t.size()) + " others");
  for(int i = 0; i < 25; i++) {
    int k = H::pick(0, 5); if(k == 0) { t.clear(); for(int j = 1; j < 9; j++) if(H::chance(1, 2)) t.push_back(c[j]); std::shuffle(t.begin(), t.end(), H::gen()); H::step("others are now " + S(t)); l.updateTargets(t); }
    else if(k < 4 && t.size()) { auto s = H::chance(1, 8) ? H::one(c) : H::one(t); int64_t x = H::pick(1, 500); H::step("contact with " + S(s) + " at " + std::to_string(x)); at[s] = std::max(at[s], x); l.getHandler(s).heartbeat(T(x)); }
    std::vector<int64_t> h; for(auto &s : t) h.push_back(at[s]); std::sort(h.rbegin(), h.rend()); size_t q = (t.size() + 1) / 2 + 1;
    if(t.empty()) { if(l.getDeadline() < Clock::now()) H::fail("a leader alone has no lease"); } else if(l.getDeadline() != T(h[q - 2]) + dur) H::fail("the lease is not that of the " + std::to_string(q - 1) + "th latest contact of " + std::to_string(t.size()) + " others");
    size_t s = std::min(q - 1, t.size() ? t.size() - 1 : 0); if(!t.empty() && l.getShakyQuorumDeadline() != T(h[s]) + dur) H::fail("the lease with one node less is wrong");
    H::tick(H::rnd());
  }
}
static int counter = 0;
// entries count as committed when a majority holds them
static void tracker() {
  int n = H::pick(2, 8); Srv c = cluster(9), t(c.begin() + 1, c.begin() + n); std::string name = "t" + std::to_string(++counter); H::clear();
  { Srv all = t; all.insert(all.begin(), c[0]); RaftJournal j(H::scratch(name), "cl", all, 0, FsyncPolicy::kAsync); for(int i = 1; i < 40; i++) j.append(i, RaftEntry(0, "set", "k", std::to_string(i))); RaftCommitTracker ct(j); std::map<RaftServer, LogIndex> m; LogIndex com = 0; ct.updateTargets(t); H::step("others: " + S(t));
    for(int i = 0; i < 40; i++) {
      int k = H::pick(0, 9); if(k == 0) { t.clear(); for(int x = 1; x < 9; x++) if(H::chance(1, 2)) t.push_back(c[x]); if(t.empty()) t.push_back(c[1]); std::shuffle(t.begin(), t.end(), H::gen()); H::step("others are now " + S(t)); ct.updateTargets(t); }
      auto s = H::chance(1, 8) ? H::one(c) : H::one(t); LogIndex x = std::min<LogIndex>(39, std::max<LogIndex>(m[s], com) + H::pick(0, 3)); H::step(S(s) + " holds entries up to " + std::to_string(x)); bool more = x > m[s] && x > com; m[s] = x; ct.getHandler(s).update(x);
      std::vector<LogIndex> h; for(auto &y : t) h.push_back(m[y]); std::sort(h.rbegin(), h.rend()); size_t q = (t.size() + 1) / 2 + 1; LogIndex top = std::max(com, h[q - 2]), g = j.getCommitIndex(); if(more) com = top;
      if(g > top) H::fail("entry " + std::to_string(g) + " is committed though no majority holds it (only up to " + std::to_string(top) + ")"); if(g < com) H::fail("entries up to " + std::to_string(com) + " are held by a majority, but only " + std::to_string(g) + " is committed"); com = g; H::tick(H::rnd());
    } }
  H::rmdir_in_scratch(name);
}
static RaftTimeouts timeouts(ms(20), ms(30), ms(6));
// an election over the (simulated) network
static void election() {
  int n = H::pick(1, 7); Srv c = cluster(n); std::string name = "e" + std::to_string(++counter); H::clear(); H::step("cluster of " + std::to_string(n));
  { RaftJournal j(H::scratch(name), "cl", c, 0, FsyncPolicy::kAsync); RaftState st(j, c[0]); RaftContactDetails cd("cl", timeouts, ""); RaftLease lease(Srv(c.begin() + 1, c.end()), ms(1000)); RaftTerm term = H::pick(1, 9);
    for(int i = 1; i < (int)term; i++) if(H::chance(1, 2)) { LogIndex z = j.getLogSize(); j.setCurrentTerm(i, RaftServer()); j.append(z, RaftEntry(i, "set", "a", "b")); } st.observed(term, {}); bool pre = H::chance(1, 3); std::vector<int> v(n, 0); std::mutex mx; std::map<int, int> asked; std::string bad; RaftTerm lt = 0; j.fetch(j.getLogSize() - 1, lt); int64_t li = j.getLogSize() - 1; std::map<int, Clock::time_point> when;
    for(int i = 1; i < n; i++) { v[i] = H::one<int>({0, 0, 0, 0, 1, 1, 2, 3, 4, 5}); H::step(S(c[i]) + ": " + RN[v[i]]); }
    qclient::QClient::net() = [&](const std::string &host, int port, std::vector<std::string> q) -> std::future<qclient::redisReplyPtr> {
      std::lock_guard<std::mutex> g(mx); int i = -1; for(int k = 1; k < n; k++) if(c[k].hostname == host && c[k].port == port) i = k; if(i < 0) { bad = "asked " + host; return now(nullptr); } asked[i]++; when[i] = Clock::now();
      if(q.size() != 5 || q[0] != (pre ? "RAFT_REQUEST_PRE_VOTE" : "RAFT_REQUEST_VOTE") || q[1] != std::to_string(term) || q[2] != c[0].toString() || q[3] != std::to_string(li) || q[4] != std::to_string(lt)) { bad = "sent"; for(auto &x : q) bad += " " + x; }
      switch(v[i]) { case 0: return now(arr({std::to_string(term), "granted"})); case 1: return now(arr({std::to_string(term), "refused"})); case 2: return now(arr({std::to_string(term), "veto"})); case 3: return now(nullptr); case 4: return now(odd()); default: return never(); } };
    RaftVoteRequest req; req.term = term; req.lastIndex = li; req.lastTerm = lt; ElectionOutcome o; if(pre) o = RaftElection::performPreVote(req, st, cd); else { if(!st.becomeCandidate(term)) H::fail("not a candidate"); o = RaftElection::perform(req, st, lease, cd); }
    qclient::QClient::net() = nullptr; std::vector<int> w; for(int i = 1; i < n; i++) w.push_back(v[i] == 5 ? 3 : v[i]);
    if(!bad.empty()) H::fail("the vote request is wrong: " + bad); for(int i = 1; i < n; i++) if(asked[i] != 1) H::fail(S(c[i]) + " was asked " + std::to_string(asked[i]) + " times"); auto ref = reference(w, pre);
    if(o != ref) H::fail("the outcome of the round is " + std::to_string((int)o) + ", expected " + std::to_string((int)ref)); auto s = st.getSnapshot(); bool lead = s->status == RaftStatus::LEADER; if(lead != (!pre && ref == ElectionOutcome::kElected)) H::fail(lead ? "leads without the votes of a majority" : "does not lead though elected");
    if(!pre) for(int i = 1; i < n; i++) { auto t = lease.getHandler(c[i]).get(); if((t != Clock::time_point()) != (v[i] == 0)) H::fail("contact with " + S(c[i]) + " is recorded wrongly"); if(t > when[i]) H::fail("contact with " + S(c[i]) + " is recorded later than it was asked"); }
    H::tick(H::hash(std::to_string(n)) ^ H::rnd()); }
  H::rmdir_in_scratch(name);
}
// replication to simulated nodes: what is committed is held by a majority, and is of the leader's term or precedes such an entry
struct Follower { std::vector<RaftTerm> log; bool up = true; LogIndex cap = 1000000; bool veto = false; std::atomic<uint64_t> acks{0}; };
static StateMachine *sm = nullptr;
static void replication() {
  int n = H::pick(2, 6), obs = H::pick(0, 2); Srv c = cluster(n + obs), full(c.begin(), c.begin() + n), ob(c.begin() + n, c.end()); std::string name = "r" + std::to_string(++counter); H::clear(); H::step("cluster of " + std::to_string(n) + " and " + std::to_string(obs) + " observers");
  { RaftJournal j(H::scratch(name), "cl", full, 0, FsyncPolicy::kAsync); RaftState st(j, c[0]); RaftContactDetails cd("cl", timeouts, ""); RaftLease lease(Srv(full.begin() + 1, full.end()), ms(100000)); RaftCommitTracker ct(j); RaftConfig conf(*sm); RaftTrimmer tr(j, conf, *sm); static char dummy[4096];
    RaftTerm t = 0; bool many = H::chance(1, 4); for(int i = many ? H::pick(2000, 4000) : H::pick(0, 6); i > 0; i--) { if(!many || i % 997 == 0) t += H::pick(0, 1); if(t > j.getCurrentTerm()) j.setCurrentTerm(t, RaftServer()); j.append(j.getLogSize(), RaftEntry(t, "set", "a", "b")); } LogIndex old = j.getLogSize(); RaftTerm term = t + H::pick(1, 3);
    for(auto &o : ob) { std::string err; j.setCurrentTerm(j.getCurrentTerm(), RaftServer()); if(!j.addObserver(j.getCurrentTerm(), o, err)) H::fail("observer: " + err); j.setCommitIndex(j.getLogSize() - 1); } if(obs) { j.setCommitIndex(j.getLogSize() - 1); } LogIndex before = j.getCommitIndex(); old = j.getLogSize();
    std::vector<RaftTerm> mine; auto mirror = [&]() { for(LogIndex i = mine.size(); i < j.getLogSize(); i++) { RaftTerm x = -1; j.fetch(i, x); mine.push_back(x); } }; mirror(); std::vector<Follower> f(n + obs); std::mutex mx;
    st.observed(term, {}); st.becomeCandidate(term); st.ascend(term); mirror();
    for(int i = 1; i < n + obs; i++) { int len = H::pick(1, old); f[i].log.assign(mine.begin(), mine.begin() + len); if(H::chance(1, 3)) for(int k = H::pick(1, 3); k > 0; k--) f[i].log.push_back(f[i].log.back()); f[i].up = H::chance(3, 4); if(H::chance(1, 2)) f[i].cap = many ? old : H::pick(1, old + 2); H::step(S(c[i]) + (f[i].up ? " up" : " down") + " with " + std::to_string(f[i].log.size()) + " entries, takes up to " + std::to_string(f[i].cap)); }
    H::step("leader of term " + std::to_string(term) + " with " + std::to_string(j.getLogSize()) + " entries, the first " + std::to_string(old) + " of older terms, committed " + std::to_string(before)); std::string bad; std::map<int, Clock::time_point> last;
    auto answer = [&](const std::string &host, int port, std::vector<std::string> q) -> qclient::redisReplyPtr {
      std::lock_guard<std::mutex> g(mx); int i = -1; for(int k = 1; k < n + obs; k++) if(c[k].hostname == host && c[k].port == port) i = k; if(i < 0 || q.empty()) { bad = "sent to " + host; return nullptr; } Follower &w = f[i]; if(!w.up) return nullptr; last[i] = Clock::now();
      if(q[0] == "RAFT_HEARTBEAT") return arr({std::to_string(term), "1", ""}); if(q[0] != "RAFT_APPEND_ENTRIES") { bad = "sent " + q[0]; return nullptr; }
      RedisRequest rr; for(auto &x : q) rr.push_back(x); RaftAppendEntriesRequest a; if(!RaftParser::appendEntries(std::move(rr), a)) { bad = "unreadable entries"; return nullptr; } if(a.term != term || !(a.leader == c[0])) bad = "entries of another term";
      auto rep = [&](bool ok) { w.acks++; return arr({std::to_string(term), std::to_string(w.log.size()), ok ? "1" : "0", ok ? "" : "no"}); };
      if(a.prevIndex >= (LogIndex)w.log.size() || a.prevIndex < 0 || w.log[a.prevIndex] != a.prevTerm) return rep(false);
      for(size_t k = 0; k < a.entries.size(); k++) { size_t at = a.prevIndex + 1 + k; if((LogIndex)at >= w.cap) return nullptr; if(at < w.log.size() && w.log[at] != a.entries[k].term) w.log.resize(at); if(at >= w.log.size()) w.log.push_back(a.entries[k].term); } if(a.commitIndex > j.getCommitIndex()) bad = "names a commit index that is not known"; return rep(true); };
    qclient::QClient::net() = [&](const std::string &h, int p, std::vector<std::string> q) { return now(answer(h, p, std::move(q))); };
    RaftReplicator rep(j, st, lease, ct, tr, *(ShardDirectory *)dummy, conf, cd); auto snap = st.getSnapshot(); rep.activate(snap);
    auto oracle = [&](const char *w) {
      LogIndex g = j.getCommitIndex(); std::lock_guard<std::mutex> l(mx); mirror(); if(!bad.empty()) H::fail(bad); if(g <= before) return; int held = 1; for(int i = 1; i < n; i++) { bool h = (LogIndex)f[i].log.size() > g; for(LogIndex k = 0; h && k <= g; k++) h = f[i].log[k] == mine[k]; held += h; }
      if(mine[g] != term) H::fail(std::string(w) + ": entry " + std::to_string(g) + " of term " + std::to_string(mine[g]) + " is committed in term " + std::to_string(term) + " with no entry of this term after it"); if(2 * held <= n) H::fail(std::string(w) + ": entry " + std::to_string(g) + " is committed, but only " + std::to_string(held) + " of " + std::to_string(n) + " full members hold it");
      for(int i = 1; i < n; i++) if(lease.getHandler(c[i]).get() > (last.count(i) ? last[i] : Clock::time_point()) ) H::fail(std::string(w) + ": contact with " + S(c[i]) + " is recorded later than its last answer"); };
    for(int r = 0; r < 6; r++) {
      for(int k = 0; k < 6; k++) { usleep(1500); oracle("while replicating"); }
      { std::lock_guard<std::mutex> l(mx); int i = H::pick(1, n + obs - 1); int k = H::pick(0, 3); if(k == 0) f[i].up = !f[i].up; else if(k == 1) f[i].cap += H::pick(0, 4); else if(k == 2) f[i].cap = 1000000; } if(H::chance(1, 2)) { for(int k = H::pick(1, 12); k > 0; k--) { std::lock_guard<std::mutex> l(mx); j.append(j.getLogSize(), RaftEntry(term, "set", "k", "v")); } }
    }
    // with everybody up everything becomes committed
    { std::lock_guard<std::mutex> l(mx); for(int i = 1; i < n + obs; i++) { f[i].up = true; f[i].cap = 1000000; } } auto t0 = Clock::now(); while(j.getCommitIndex() != j.getLogSize() - 1) { usleep(1000); oracle("while catching up"); if(Clock::now() - t0 > std::chrono::seconds(6)) H::fail("with all members up, entry " + std::to_string(j.getCommitIndex() + 1) + " is not committed after 6 s"); } oracle("in the end");
    rep.deactivate(); qclient::QClient::net() = nullptr; H::tick(H::rnd()); }
  H::rmdir_in_scratch(name);
}
// a request is built while the journal shrinks; replies of unexpected types
static void odds() {
  Srv c = cluster(3); std::string name = "o" + std::to_string(++counter); H::clear(); H::step("a leader that lost its term, its last entries removed meanwhile");
  { RaftJournal j(H::scratch(name), "cl", c, 0, FsyncPolicy::kAsync); RaftState st(j, c[0]); RaftContactDetails cd("cl", timeouts, ""); RaftLease lease(Srv(c.begin() + 1, c.end()), ms(1000)); RaftCommitTracker ct(j); RaftConfig conf(*sm); RaftTrimmer tr(j, conf, *sm); static char dummy[4096]; for(int i = 1; i < 6; i++) j.append(i, RaftEntry(0, "set", "a", "b"));
    auto snap = st.getSnapshot(); st.observed(3, {}); RaftReplicaTracker t(c[1], snap, j, st, lease, ct, tr, *(ShardDirectory *)dummy, conf, cd); std::vector<std::string> e; RaftTerm lt = 0; for(LogIndex i = 1; i < 10; i++) for(int64_t l : {0, 1, 3, 100}) { int64_t want = std::min<int64_t>(l, 6 - i); bool ok = false; try { ok = t.buildPayload(i, l, e, lt); } catch(const std::exception &x) { H::fail("building the entries from " + std::to_string(i) + " on fails: " + x.what()); } if(want >= 0 && (!ok || (int64_t)e.size() != want || (want && lt != 0))) H::fail("the entries from " + std::to_string(i) + " on are wrong"); for(int64_t k = 0; ok && k < want; k++) { RaftSerializedEntry x; j.fetch(i + k, x); if(x != e[k]) H::fail("another entry is sent"); } } H::tick(H::rnd()); }
  H::rmdir_in_scratch(name);
}
static void oddReplies() {
  Srv c = cluster(3); std::string name = "q" + std::to_string(++counter); H::clear(); H::step("replies of unexpected types while replicating");
  { RaftJournal j(H::scratch(name), "cl", c, 0, FsyncPolicy::kAsync); RaftState st(j, c[0]); RaftContactDetails cd("cl", timeouts, ""); RaftLease lease(Srv(c.begin() + 1, c.end()), ms(1000)); RaftCommitTracker ct(j); RaftConfig conf(*sm); RaftTrimmer tr(j, conf, *sm); static char dummy[4096]; st.observed(1, {}); st.becomeCandidate(1); st.ascend(1); std::mutex mx;
    qclient::QClient::net() = [&](const std::string &, int, std::vector<std::string>) { std::lock_guard<std::mutex> g(mx); return now(odd()); }; RaftReplicator rep(j, st, lease, ct, tr, *(ShardDirectory *)dummy, conf, cd); auto snap = st.getSnapshot(); rep.activate(snap); usleep(60000); if(j.getCommitIndex() != 0) H::fail("committed without acknowledgements"); for(int i : {1, 2}) if(lease.getHandler(c[i]).get() != Clock::time_point()) H::fail("contact without an answer"); rep.deactivate(); qclient::QClient::net() = nullptr; H::tick(H::rnd()); }
  H::rmdir_in_scratch(name);
}
int main() {
  sm = new StateMachine(H::scratch("sm"), false, false); odds(); oddReplies();
  while(H::more()) { for(int i = 0; i < 60; i++) { registry(); lease(); } for(int i = 0; i < 2; i++) tracker(); election(); election(); replication(); }
  H::finish();
}
