#include "h.hh"
#include <sstream>
#include <map>
#include <any>
#include <regex>
#include <shared_mutex>
#include <queue>
#include <list>
#include <unordered_map>
#include <deque>
#include <functional>
#include <thread>
#include <future>
#include <atomic>
#include <condition_variable>
#include <sys/socket.h>
#include <fcntl.h>
#include <signal.h>
#include <rocksdb/db.h>
#include <qclient/QClient.hh>
#include "utils/AssistedThread.hh"
#include "Connection.hh"
#include "Link.hh"
#include "BufferedWriter.hh"
#include "utils/InFlightTracker.hh"
#define private public
#include "raft/RaftReplicator.hh"
#include "raft/RaftLease.hh"
#include "raft/RaftCommitTracker.hh"
#include "raft/RaftTrimmer.hh"
#undef private
#include "raft/RaftDispatcher.hh"
#include "raft/RaftWriteTracker.hh"
#include "raft/RaftTimeouts.hh"
#include "raft/RaftUtils.hh"
#include "raft/RaftConfig.hh"
#include "raft/RaftContactDetails.hh"
#include "pubsub/Publisher.hh"
#include "StateMachine.hh"
#include "jm.hh"
using Clock = std::chrono::steady_clock; using ms = std::chrono::milliseconds; using Str = std::string;
static Srv cluster(int n) { Srv v; for(int i = 0; i < n; i++) v.push_back(RaftServer("node" + std::to_string(i), 7000 + i)); return v; }
static redisReply *own(redisReply *r) { static std::mutex m; static std::deque<std::unique_ptr<redisReply>> keep; std::lock_guard<std::mutex> g(m); keep.emplace_back(r); return r; }
static redisReply *str(const Str &s) { auto r = own(new redisReply()); r->type = REDIS_REPLY_STRING; r->str = strdup(s.c_str()); r->len = s.size(); return r; }
static qclient::redisReplyPtr arr(const std::vector<Str> &v) { auto r = own(new redisReply()); r->type = REDIS_REPLY_ARRAY; r->elements = v.size(); r->element = (redisReply **)calloc(v.size() + 1, sizeof(redisReply *)); for(size_t i = 0; i < v.size(); i++) r->element[i] = str(v[i]); return qclient::redisReplyPtr(r, [](redisReply *) {}); }
static std::future<qclient::redisReplyPtr> now(qclient::redisReplyPtr p) { std::promise<qclient::redisReplyPtr> q; q.set_value(p); return q.get_future(); }
static RaftTimeouts timeouts(ms(200), ms(300), ms(6)); static int counter = 0; static char dummy[4096];
struct Node {
  Str name; Srv c; RaftJournal j; StateMachine sm; RaftState st; RaftHeartbeatTracker ht; Publisher pub; RaftContactDetails cd; RaftLease lease; RaftCommitTracker ct; RaftConfig conf; RaftTrimmer tr; std::unique_ptr<RaftWriteTracker> wt; RaftReplicator rep; RaftDispatcher d;
  Node(const Srv &cl) : name("n" + std::to_string(++counter)), c(cl), j(H::scratch(name + "j"), "cl", cl, 0, FsyncPolicy::kAsync), sm(H::scratch(name + "s"), false, false), st(j, cl[0]), ht(timeouts), cd("cl", timeouts, ""), lease(Srv(cl.begin() + 1, cl.end()), ms(100000)), ct(j), conf(sm), tr(j, conf, sm), wt(new RaftWriteTracker(j, sm, pub)), rep(j, st, lease, ct, tr, *(ShardDirectory *)dummy, conf, cd), d(j, sm, st, ht, *wt, rep, pub) {}
  ~Node() { rep.deactivate(); st.shutdown(); wt.reset(); }
  bool settled(LogIndex i) { auto t0 = Clock::now(); while(sm.getLastApplied() < i) { if(Clock::now() - t0 > std::chrono::seconds(8)) return false; usleep(50); } return true; }
};
static void drop(const Str &n) { H::rmdir_in_scratch(n + "j"); H::rmdir_in_scratch(n + "s"); }
struct E2 { RaftTerm t; Str k, v; bool operator==(const E2 &o) const { return t == o.t && k == o.k && v == o.v; } };
static RaftEntry real(const E2 &e) { return e.k.empty() ? RaftEntry(e.t, "JOURNAL_LEADERSHIP_MARKER", e.v, "node1:7001") : RaftEntry(e.t, "set", e.k, e.v); }
static Str shown(const std::vector<E2> &l, size_t from = 0) { Str o; for(size_t i = from; i < l.size(); i++) o += " " + std::to_string(l[i].t) + ":" + l[i].k + "=" + l[i].v; return o; }
static std::map<Str, Str> replay(const std::vector<E2> &l, LogIndex upto) { std::map<Str, Str> m; for(LogIndex i = 1; i <= upto; i++) if(!l[i].k.empty()) m[l[i].k] = l[i].v; return m; }
static E2 rndEntry(RaftTerm t) { static int n = 0; return {t, Str(1, 'a' + H::pick(0, 3)), std::to_string(++n)}; }
static void checkLog(Node &n, const std::vector<E2> &log, LogIndex commit, const char *when) {
  if(n.j.getLogSize() != (LogIndex)log.size()) H::fail(Str(when) + ": the journal has " + std::to_string(n.j.getLogSize()) + " entries, expected " + std::to_string(log.size())); if(n.j.getCommitIndex() != commit) H::fail(Str(when) + ": committed up to " + std::to_string(n.j.getCommitIndex()) + ", expected " + std::to_string(commit));
  for(size_t i = 1; i < log.size(); i++) { RaftEntry e; if(!n.j.fetch(i, e).ok()) H::fail(Str(when) + ": entry " + std::to_string(i) + " is missing"); if(!(e == real(log[i]))) H::fail(Str(when) + ": entry " + std::to_string(i) + " is not the one expected"); }
  if(!n.settled(commit)) H::fail(Str(when) + ": entries up to " + std::to_string(commit) + " are committed, but only " + std::to_string(n.sm.getLastApplied()) + " are carried out"); if(n.sm.getLastApplied() != commit) H::fail(Str(when) + ": entry " + std::to_string(n.sm.getLastApplied()) + " was carried out though only " + std::to_string(commit) + " is committed");
  auto m = replay(log, commit); for(char k = 'a'; k <= 'd'; k++) { Str v; bool ok = n.sm.get(Str(1, k), v).ok(); auto it = m.find(Str(1, k)); if(ok != (it != m.end()) || (ok && v != it->second)) H::fail(Str(when) + ": key " + Str(1, k) + " is " + (ok ? v : Str("missing")) + ", expected " + (it == m.end() ? Str("missing") : it->second)); }
}
// a follower and requests of other nodes
static void follower() {
  int n = H::pick(3, 5); Srv c = cluster(n + 1); RaftServer outsider = c[n]; c.pop_back(); H::clear(); H::step("a follower in a cluster of " + std::to_string(n)); Str name;
  { Node w(c); name = w.name; std::vector<E2> log{{0, "", ""}}; RaftTerm term = 0; int leader = -1; LogIndex commit = 0; Str voted; bool blocked = false; std::vector<E2> truth{{0, "", ""}}; RaftTerm top = 0;
    for(int step = 0; step < 25; step++) {
      int k = H::pick(0, 9);
      if(k < 6) {      // entries from a leader
        RaftTerm T; int L; if(leader >= 0 && H::chance(3, 4)) { T = term; L = leader; if(H::chance(1, 10)) T = H::pick(0, term); if(T < term) L = H::pick(1, n - 1); } else { T = std::max(term, top) + H::pick(leader >= 0 || blocked ? 1 : 0, 2); L = H::pick(1, n - 1); if(T == 0) T = 1; if(T == term && leader >= 0) L = leader; }
        // the log of the leader: agrees with what is committed
        if(T < term) {} else if(T != top) { size_t keep = H::pick(commit + 1, truth.size() < log.size() && H::chance(1, 2) ? std::max<size_t>(truth.size(), commit + 1) : (size_t)log.size()); std::vector<E2> base = log; if(keep > base.size()) keep = base.size(); truth.assign(base.begin(), base.begin() + keep); for(int i = H::pick(0, 3); i > 0; i--) truth.push_back(rndEntry(H::pick(std::min(truth.back().t, T), T))); top = T; }
        else if(H::chance(1, 2)) for(int i = H::pick(1, 3); i > 0; i--) truth.push_back(rndEntry(T));
        RaftAppendEntriesRequest q; q.term = T; q.leader = c[L]; q.prevIndex = H::chance(1, 8) ? H::pick(-1, truth.size() + 2) : H::pick(std::max<int64_t>(0, (int64_t)std::min(log.size(), truth.size()) - 4), std::min(log.size(), truth.size()) - 1); q.prevTerm = q.prevIndex >= 0 && q.prevIndex < (LogIndex)truth.size() ? truth[q.prevIndex].t : H::pick(0, T); if(H::chance(1, 15)) q.prevTerm++;
        size_t cnt = q.prevIndex >= 0 && q.prevIndex + 1 < (LogIndex)truth.size() ? H::pick(0, std::min<int64_t>(4, truth.size() - 1 - q.prevIndex)) : 0; for(size_t i = 0; i < cnt; i++) q.entries.push_back(real(truth[q.prevIndex + 1 + i])); q.commitIndex = H::pick(0, truth.size() - 1); if(T < term) { q.commitIndex = H::pick(0, 50); }
        LogIndex p = q.prevIndex, ci = q.commitIndex; RaftTerm pt = q.prevTerm; bool match = p >= 0 && p < (LogIndex)log.size() && log[p].t == pt; if(T >= term && match && p < (LogIndex)truth.size() && p > 0 && !(log[p] == truth[p])) continue;      // a log that never was
        if(T >= term && match) { bool clash = false; for(size_t i = 0; i < cnt; i++) if(p + 1 + (LogIndex)i < (LogIndex)log.size() && !(log[p + 1 + i] == truth[p + 1 + i])) { clash = p + 1 + (LogIndex)i <= commit; break; } bool prefix = true; for(LogIndex i = 1; i <= std::min<LogIndex>(p, ci); i++) if(!(log[i] == truth[i])) prefix = false; if(clash || !prefix) continue; }
        H::step("entries of term " + std::to_string(T) + " from " + S(c[L]) + " after " + std::to_string(p) + " (term " + std::to_string(pt) + "):" + shown(std::vector<E2>(truth.begin() + (cnt ? p + 1 : 0), truth.begin() + (cnt ? p + 1 + cnt : 0))) + ", committed " + std::to_string(ci));
        RaftAppendEntriesResponse r; try { r = w.d.appendEntries(std::move(q)); } catch(const std::exception &x) { H::fail("the node ends: " + Str(x.what()).substr(0, 200)); }
        bool want = false; if(T > term) { term = T; leader = L; voted = ""; blocked = true; } if(T == term && leader < 0) { leader = L; blocked = true; }
        if(T >= term && match) { want = true; for(size_t i = 0; i < cnt; i++) { size_t at = p + 1 + i; if(at < log.size() && !(log[at] == truth[at])) log.resize(at); if(at >= log.size()) log.push_back(truth[at]); } commit = std::max(commit, std::min<LogIndex>(ci, p + cnt)); }
        if(r.outcome != want) H::fail(want ? "entries of the leader are refused: " + r.err : Str("entries are accepted that do not fit")); if(r.term != term) H::fail("the answer names term " + std::to_string(r.term)); if(r.logSize != (LogIndex)log.size()) H::fail("the answer names " + std::to_string(r.logSize) + " entries, expected " + std::to_string(log.size()));
      } else if(k < 9) {
        RaftVoteRequest q; q.term = H::pick(std::max<int64_t>(0, term - 1), term + 2); int who = H::pick(1, n); q.candidate = who == n ? outsider : c[who]; q.lastIndex = H::pick(std::max<int64_t>(0, (int64_t)log.size() - 3), log.size() + 1); q.lastTerm = H::pick(0, 3) ? log[std::min<size_t>(q.lastIndex, log.size() - 1)].t + H::pick(0, 1) : H::pick(0, term); bool pre = H::chance(1, 3);
        H::step(Str(pre ? "would-be " : "") + "vote for " + S(q.candidate) + " in term " + std::to_string(q.term) + " with last entry " + std::to_string(q.lastIndex) + " of term " + std::to_string(q.lastTerm)); RaftVoteResponse r = w.d.requestVote(q, pre);
        bool out = who == n && leader >= 0; if(!out && !pre && q.term > term) { term = q.term; leader = -1; voted = ""; blocked = false; } bool better = q.lastTerm > log.back().t || (q.lastTerm == log.back().t && q.lastIndex >= (LogIndex)log.size() - 1); bool lost = q.lastIndex < commit || (q.lastIndex == commit && q.lastTerm != log[commit].t); Str cand = S(q.candidate);
        bool free = pre ? q.term > term || (q.term == term && (voted == cand || (!blocked && voted.empty())) ) : q.term == term && leader < 0 && !blocked && (voted.empty() || voted == cand); bool may = !out && better && !lost && free; bool got = r.vote == RaftVote::GRANTED;
        if(got && !may) H::fail(Str("the vote is granted though ") + (out ? "the candidate is no member and there is a leader" : !better ? "the journal is more complete than that of the candidate" : lost ? "a committed entry would be lost" : "the term is old, or the vote was given to another")); if(!got && may && !pre && voted.empty()) H::fail("the vote is refused for no reason"); if(r.term != term) H::fail("the answer names term " + std::to_string(r.term) + ", expected " + std::to_string(term));
        if(got && !pre) { voted = cand; if(!(w.j.getVotedFor() == q.candidate)) H::fail("the vote is not recorded"); } if(r.vote == RaftVote::VETO && !out && !lost) H::fail("vetoed without a committed entry being lost");
      } else {
        RaftTerm T = H::pick(std::max<int64_t>(0, term - 1), term + 1); int L = H::pick(1, n - 1); if(T == term) { if(leader < 0) { if(blocked) continue; } else L = leader; } if(T == 0) continue; H::step("heartbeat of term " + std::to_string(T) + " from " + S(c[L])); RaftHeartbeatRequest q{T, c[L]}; RaftHeartbeatResponse r; try { r = w.d.heartbeat(q); } catch(const std::exception &x) { H::fail("the node ends: " + Str(x.what()).substr(0, 200)); }
        if(T > term) { term = T; leader = L; voted = ""; blocked = true; } else if(T == term && leader < 0) { leader = L; blocked = true; } if(r.nodeRecognizedAsLeader != (T == term)) H::fail(T == term ? "the leader is not recognised" : "a leader of an old term is recognised"); if(r.term != term) H::fail("the answer names term " + std::to_string(r.term));
      }
      if(w.j.getCurrentTerm() != term) H::fail("the journal is in term " + std::to_string(w.j.getCurrentTerm()) + ", expected " + std::to_string(term)); checkLog(w, log, commit, "afterwards"); H::tick(H::rnd());
    } }
  drop(name);
}
// clients of a node that gains and loses leadership
struct Client {
  int fd; Link *link; Connection *conn; InFlightTracker tr; struct Wait { Str what, want; LogIndex ix; }; std::deque<Wait> wait; Str out; int id;
  Client(int i) : id(i) { int s[2]; if(socketpair(AF_UNIX, SOCK_STREAM, 0, s)) abort(); fd = s[1]; fcntl(fd, F_SETFL, O_NONBLOCK); link = new Link(s[0]); conn = new Connection(link); conn->authorization = true; }
  ~Client() { delete conn; delete link; ::close(fd); }
  void send(Dispatcher &d, const std::vector<Str> &q) { Str b = "*" + std::to_string(q.size()) + "\r\n"; for(auto &x : q) b += "$" + std::to_string(x.size()) + "\r\n" + x + "\r\n"; if(::send(fd, b.data(), b.size(), 0) != (ssize_t)b.size()) abort(); conn->processRequests(&d, tr); conn->flush(); }
  void drain() { conn->flush(); char z[8192]; for(;;) { ssize_t n = recv(fd, z, sizeof z, 0); if(n <= 0) break; out.append(z, n); } }
  bool next(Str &r) { drain(); size_t e = out.find("\r\n"); if(e == Str::npos) return false; if(out[0] == '$' && out[1] != '-') { size_t len = strtoul(out.c_str() + 1, nullptr, 10); if(out.size() < e + 4 + len) return false; r = "$" + out.substr(e + 2, len); out.erase(0, e + 4 + len); } else { r = out.substr(0, e); out.erase(0, e + 2); } return true; }
};
static Str bulk(const std::map<Str, Str> &m, const Str &k) { auto it = m.find(k); return it == m.end() ? "$-1" : "$" + it->second; }
static void clients() {
  Srv c = cluster(3); H::clear(); H::step("clients of a node of three"); Str name;
  { Node w(c); name = w.name; std::vector<E2> log{{0, "", ""}}; RaftTerm term = 0; int role = 0; LogIndex commit = 0; std::vector<std::unique_ptr<Client>> cl; for(int i = H::pick(1, 3); i > 0; i--) cl.emplace_back(new Client(i)); std::map<int, bool> stale; int lead = -1;
    auto due = [&](const Str &when) { for(auto &x : cl) { Str r; while(!x->wait.empty() && x->wait.front().ix <= commit) { auto t0 = Clock::now(); while(!x->next(r)) { if(Clock::now() - t0 > std::chrono::seconds(6)) H::fail(when + ": client " + std::to_string(x->id) + " gets no answer to " + x->wait.front().what); usleep(50); } if(r != x->wait.front().want) H::fail(when + ": client " + std::to_string(x->id) + " is answered " + H::show(r) + " to " + x->wait.front().what + ", expected " + H::show(x->wait.front().want)); x->wait.pop_front(); } if(x->next(r)) H::fail(when + ": client " + std::to_string(x->id) + " is answered " + H::show(r) + (x->wait.empty() ? " though it asked nothing" : " to " + x->wait.front().what + " before that is committed")); } };
    for(int step = 0; step < 30; step++) {
      int k = H::pick(0, 11); Client &x = *H::one<std::unique_ptr<Client>>(cl);
      if(k < 7) {
        Str key(1, 'a' + H::pick(0, 3)); int what = H::pick(0, 8); bool wr = what < 4; static int val = 0; std::vector<Str> q = what == 8 ? std::vector<Str>{"ACTIVATE_STALE_READS"} : wr ? std::vector<Str>{"SET", key, "w" + std::to_string(++val)} : std::vector<Str>{"GET", key}; Str s; for(auto &y : q) s += " " + y; H::step("client " + std::to_string(x.id) + ":" + s);
        Str want; LogIndex ix = 0; if(what == 8 && !x.wait.empty()) continue; if(what == 8) { stale[x.id] = true; want = "+OK"; } else if(role != 2) { want = lead < 0 ? "-ERR unavailable" : !wr && stale[x.id] ? bulk(replay(log, commit), key) : "-MOVED 0 " + S(c[lead]); } else if(wr) { log.push_back({term, key, q[2]}); log.back().k = key; ix = log.size() - 1; want = "+OK"; } else { ix = x.wait.empty() ? 0 : x.wait.back().ix; want = bulk(replay(log, ix ? ix : commit), key); }
        x.wait.push_back({s, want, ix}); x.send(w.d, q); due("after the request");
        if(wr && role == 2) { RaftEntry e; if(!w.j.fetch(ix, e).ok() || e.term != term || e.request.size() != 3 || Str(e.request[0]) != "SET" || Str(e.request[2]) != q[2]) H::fail("the write is not entry " + std::to_string(ix) + " of term " + std::to_string(term)); }
      } else if(k < 9) { if(role == 2 && commit < (LogIndex)log.size() - 1) { commit = H::pick(commit + 1, log.size() - 1); H::step("entry " + std::to_string(commit) + " is committed"); w.j.setCommitIndex(commit); if(!w.settled(commit)) H::fail("a committed entry is not carried out"); due("after the commit"); } }
      else if(k == 9 && role == 2) {      // another leader takes over; entries not committed are lost
        term++; lead = H::pick(1, 2); role = 0; size_t keep = H::pick(commit + 1, log.size()); bool cut = keep < log.size(); H::step("leader of term " + std::to_string(term) + " is " + S(c[lead]) + ", entries from " + std::to_string(keep) + " on are replaced"); LogIndex p = keep - 1; RaftAppendEntriesRequest q; q.term = term; q.leader = c[lead]; q.prevIndex = p; q.prevTerm = log[p].t; q.commitIndex = commit; if(cut) { log.resize(keep); E2 m{term, "", std::to_string(term)}; log.push_back(m); q.entries.push_back(RaftEntry(term, "set", "a", "z" + std::to_string(term))); log.back() = {term, "a", "z" + std::to_string(term)}; }
        for(auto &y : cl) for(auto &z : y->wait) { z.want = "-MOVED 0 " + S(c[lead]); z.ix = 0; } auto r = w.d.appendEntries(std::move(q)); if(!r.outcome) H::fail("the entries of the new leader are refused: " + r.err); due("after losing the leadership");
      } else if(k >= 9 && role == 0) {
        term++; H::step("becomes leader of term " + std::to_string(term)); if(!w.st.observed(term, {})) H::fail("the term is not entered"); if(!w.st.becomeCandidate(term)) H::fail("not a candidate"); if(!w.st.ascend(term)) H::fail("not a leader"); log.push_back({term, "", ""}); role = 2; lead = 0; LogIndex mark = log.size() - 1;
        // nothing is served before everything committed earlier was carried out
        Str key(1, 'a' + H::pick(0, 3)); bool wr = H::chance(1, 3); std::vector<Str> q = wr ? std::vector<Str>{"SET", key, "n" + std::to_string(term)} : std::vector<Str>{"GET", key}; H::step("client " + std::to_string(x.id) + " asks at once: " + q[0] + " " + key); std::atomic<bool> done{false}; std::thread th([&]() { x.send(w.d, q); done = true; }); usleep(3000); Str r; LogIndex g = w.j.getLogSize();
        bool early = !wr && x.next(r); if(early || g != (LogIndex)log.size()) { w.j.setCommitIndex(mark); th.join(); H::fail(early ? "a new leader answers " + H::show(r) + " before it knows what was committed" : Str("a new leader takes writes before it knows what was committed")); }
        commit = mark; if(wr) log.push_back({term, key, q[2]}); x.wait.push_back({q[0] + " " + key, wr ? "+OK" : bulk(replay(log, mark), key), wr ? (LogIndex)log.size() - 1 : 0}); w.j.setCommitIndex(mark); auto t0 = Clock::now(); while(!done) { if(Clock::now() - t0 > std::chrono::seconds(8)) H::fail("a new leader never serves requests"); usleep(100); } th.join(); due("after taking the leadership");
      }
      H::tick(H::rnd());
    }
    // what is still pending is answered when the node goes down
    cl.clear(); }
  drop(name);
}
// writes while the term changes: each is answered, nobody waits for ever
static void races() {
  Srv c = cluster(3); H::clear(); H::step("writes while the leadership is lost and regained"); Str name;
  { Node w(c); name = w.name; std::atomic<bool> stop{false}; std::atomic<int64_t> served{0}; w.st.observed(1, {}); w.st.becomeCandidate(1); w.st.ascend(1); std::atomic<RaftTerm> term{1};
    std::thread com([&]() { while(!stop) { w.j.setCommitIndex(w.j.getLogSize() - 1); usleep(30); } });
    std::vector<std::thread> ws; for(int i = 0; i < 3; i++) ws.emplace_back([&, i]() { Client x(i); Str r; int sent = 0, got = 0; while(!stop) { x.send(w.d, {"SET", "k" + std::to_string(i), std::to_string(sent)}); sent++; served++; while(x.next(r)) got++; } });
    auto t0 = Clock::now(); int64_t last = -1; auto moved = Clock::now(); while(Clock::now() - t0 < ms(1200)) { RaftTerm t = ++term; w.st.observed(t, {}); w.st.becomeCandidate(t); w.st.ascend(t); usleep(H::pick(50, 800)); if(served != last) { last = served; moved = Clock::now(); } }
    for(int i = 0; i < 60 && served == last; i++) usleep(100000); if(served == last) { H::fail("a write whose term ended meanwhile is never answered: every later request of the node waits for it"); } stop = true; for(auto &t : ws) t.join(); com.join(); H::tick(H::rnd()); }
  drop(name);
}
// administration: who is trusted, and changes of the members
static void admin() {
  int n = H::pick(2, 5), ob = H::pick(0, 2); Srv all = cluster(n + ob + 1), full(all.begin(), all.begin() + n); H::clear(); H::step("a leader of " + std::to_string(n) + " members and " + std::to_string(ob) + " observers"); Str name;
  { Node w(full); name = w.name; RaftTerm term = 1; std::vector<std::atomic<bool>> up(all.size()); for(auto &u : up) u = H::chance(2, 3); w.st.observed(1, {}); w.st.becomeCandidate(1); w.st.ascend(1); w.j.setCommitIndex(w.j.getLogSize() - 1); for(int i = 0; i < ob; i++) { Str err; if(!w.j.addObserver(1, all[n + i], err)) H::fail(err); w.j.setCommitIndex(w.j.getLogSize() - 1); }
    std::atomic<bool> cut{false}; qclient::QClient::net() = [&](const Str &h, int p, std::vector<Str> q) { int i = -1; for(size_t k = 0; k < all.size(); k++) if(all[k].hostname == h && all[k].port == p) i = k; if(i < 0 || !up[i] || q.empty()) return now(nullptr); if(q[0] == "RAFT_HEARTBEAT") return now(arr({"1", "1", ""})); if(q[0] != "RAFT_APPEND_ENTRIES") return now(nullptr); RedisRequest rr; for(auto &x : q) rr.push_back(x); RaftAppendEntriesRequest a; if(!RaftParser::appendEntries(std::move(rr), a)) return now(nullptr); return now(arr({"1", std::to_string(a.prevIndex + 1 + a.entries.size()), "1", ""})); };
    bool active = H::chance(3, 4); auto snap = w.st.getSnapshot(); if(active) { w.rep.activate(snap); usleep(60000); } H::step(active ? "replicating" : "not replicating yet"); for(size_t i = 1; i < all.size(); i++) H::step(S(all[i]) + (up[i] ? " is up" : " is down")); Client x(1); Str r; auto ask = [&](std::vector<Str> q) { Str s; for(auto &y : q) s += " " + y; H::step("asked:" + s); try { x.send(w.d, q); } catch(const std::exception &e) { H::fail("the node ends: " + Str(e.what()).substr(0, 200)); } if(!x.next(r)) H::fail("no answer to" + s); return r; };
    for(int i = 0; i < 4; i++) {      // not trusted
      bool tr = H::chance(1, 2), badid = H::chance(1, 3), badto = H::chance(1, 3); if(tr) { Str a = ask({"RAFT_HANDSHAKE", "1.0", badid ? "other" : "cl", badto ? "1:2:3" : timeouts.toString()}); if((a == "+OK") != (!badid && !badto)) H::fail("a handshake " + Str(badid || badto ? "with another cluster is accepted" : "is refused")); } else ask({"RAFT_HANDSHAKE", "1.0"}); bool trust = tr && !badid && !badto; LogIndex z = w.j.getLogSize();
      Str a = ask({"RAFT_REQUEST_VOTE", "0", all[1].toString(), "0", "0"}); if((a[0] == '*') != trust) H::fail(trust ? "a trusted node is refused: " + a : Str("a vote is given to somebody who is not trusted")); while(x.next(r)); if(w.j.getCurrentTerm() != term || z > w.j.getLogSize()) H::fail("a refused request changes the state"); H::tick(H::rnd());
    }
    for(int i = 0; i < 4; i++) {
      auto m = w.j.getMembership(); w.j.setCommitIndex(w.j.getLogSize() - 1); auto s = H::one(all); Str op = H::one<Str>({"RAFT_ADD_OBSERVER", "RAFT_REMOVE_MEMBER", "RAFT_PROMOTE_OBSERVER", "RAFT_DEMOTE_TO_OBSERVER"}); int at = -1; for(size_t k = 0; k < all.size(); k++) if(all[k] == s) at = k; if(op == "RAFT_PROMOTE_OBSERVER" || op == "RAFT_ADD_OBSERVER" || H::chance(1, 3)) up[0] = true; Str a = ask({op, s.toString()}); auto m2 = w.j.getMembership(); bool done = a == "+OK"; bool node = contains(m.nodes, s), obs = contains(m.observers, s);
      int left = 0, good = 0; for(auto &y : m.nodes) if(!(y == s)) { left++; for(size_t k = 0; k < all.size(); k++) if(all[k] == y && (k == 0 || (active && up[k]))) good++; } bool quorum = 2 * good > left;
      if(done && s == all[0]) H::fail("the leader changed its own membership"); if(done && (op == "RAFT_REMOVE_MEMBER" || op == "RAFT_DEMOTE_TO_OBSERVER") && !quorum) H::fail(op + " leaves " + std::to_string(left) + " members, of which only " + std::to_string(good) + " are up to date"); if(done && op == "RAFT_PROMOTE_OBSERVER" && (!active || !up[at])) H::fail("an observer that is down is made a full member");
      if(done != !(m == m2)) H::fail(done ? "confirmed, but the members stay" : "refused, but the members changed"); bool legal = op == "RAFT_ADD_OBSERVER" ? !node && !obs : op == "RAFT_REMOVE_MEMBER" ? node || obs : op == "RAFT_PROMOTE_OBSERVER" ? obs : node; if(done && !legal) H::fail("a senseless change is accepted"); if(active && done) usleep(30000); H::tick(H::rnd());
    }
    w.rep.deactivate(); qclient::QClient::net() = nullptr; }
  drop(name);
}
int main() {
  signal(SIGPIPE, SIG_IGN); int i = 0;
  while(H::more()) { follower(); clients(); if(i % 2 == 0) admin(); if(i++ % 6 == 1) races(); }
  H::finish();
}
