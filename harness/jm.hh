// journal and state against a reference model; with crash images that keep only what was synced to disk
#pragma once
#include "h.hh"
#include "raft/RaftJournal.hh"
#include "raft/RaftState.hh"
#include "raft/RaftMembers.hh"
#include "Utils.hh"
#include <dlfcn.h>
#include <fcntl.h>
#include <mutex>
#include <thread>
#include <atomic>
#include <sys/syscall.h>
using namespace quarkdb;

// ---- what has reached the disk: sizes of files at their last sync
namespace Disk {
inline std::mutex m; inline std::map<std::string, size_t> synced; inline std::atomic<uint64_t> syncs{0};
inline void note(int fd) {
  char p[4096], l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, p, sizeof p - 1); struct stat s;
  if(n > 0 && fstat(fd, &s) == 0) { std::lock_guard<std::mutex> g(m); synced[std::string(p, n)] = s.st_size; }
  syncs++;
}
// copy of the directory as a power loss would leave it: log files keep only their synced prefix
inline std::string listing(const std::string &from) {
  std::map<std::string, std::string> x; DIR *d = opendir(from.c_str());
  while(dirent *e = readdir(d)) { std::string n = e->d_name; struct stat s; if(lstat((from + "/" + n).c_str(), &s)) continue; x[n] = std::to_string(s.st_ino) + " " + std::to_string(s.st_size) + " " + std::to_string(s.st_mtim.tv_sec) + "." + std::to_string(s.st_mtim.tv_nsec); }
  closedir(d); std::string o; for(auto &p : x) if(p.first.substr(0, 3) != "LOG" && p.first != "." && p.first != "..") o += p.first + " " + p.second + "\n"; return o;
}
inline bool copy(const std::string &from, const std::string &to) {
  std::string before = listing(from); uint64_t s0 = syncs; mkdir(to.c_str(), 0755); DIR *d = opendir(from.c_str());
  while(dirent *e = readdir(d)) {
    std::string n = e->d_name; struct stat s; if(n == "." || n == ".." || n == "LOCK" || n.substr(0, 3) == "LOG") continue;
    std::string a = from + "/" + n; if(lstat(a.c_str(), &s) || !S_ISREG(s.st_mode)) continue;
    std::ifstream i(a, std::ios::binary); std::string c((std::istreambuf_iterator<char>(i)), {});
    if(n.size() > 4 && n.substr(n.size() - 4) == ".log") { std::lock_guard<std::mutex> g(m); auto it = synced.find(a); c.resize(std::min(c.size(), it == synced.end() ? (size_t)0 : it->second)); }
    std::ofstream(to + "/" + n, std::ios::binary) << c;
  }
  closedir(d); return syncs == s0 && listing(from) == before;
}
// the copy is taken while the background threads of the database happen to be idle, so that it is the state of one moment
inline bool image(const std::string &from, const std::string &to_in_scratch) {
  for(int i = 0; i < 200; i++) { H::rmdir_in_scratch(to_in_scratch); if(copy(from, H::scratch(to_in_scratch))) return true; usleep(2000); }
  return false;
}
}
extern "C" int fdatasync(int fd) { int r = syscall(SYS_fdatasync, fd); if(r == 0) Disk::note(fd); return r; }
extern "C" int fsync(int fd) { int r = syscall(SYS_fsync, fd); if(r == 0) Disk::note(fd); return r; }

struct MEntry { RaftTerm term; std::vector<std::string> req; bool operator==(const MEntry &o) const { return term == o.term && req == o.req; } };
using Srv = std::vector<RaftServer>;
inline std::string S(const RaftServer &s) { return s.toString(); }
inline std::string S(const Srv &v) { std::string o; for(auto &s : v) o += S(s) + ","; return o; }
struct Model {
  RaftTerm term = 0; RaftServer vote; LogIndex commit = 0, size = 0, start = 0, epoch = 0, pepoch = -1; Srv nodes, obs, pnodes, pobs; std::map<LogIndex, MEntry> log; FsyncPolicy pol; std::string cluster;
  std::string diff(RaftJournal &j, const std::string &tags) const;
};
inline bool has(const std::string &tags, const char *t) { return tags.find(t) != std::string::npos; }
inline std::vector<std::string> reqv(const RedisRequest &r) { std::vector<std::string> v; for(size_t i = 0; i < r.size(); i++) v.emplace_back(std::string(std::string_view(r[i]))); return v; }
// compares every observable of the journal with the model; empty: equal. Only the aspects in `tags`.
inline std::string Model::diff(RaftJournal &j, const std::string &tags) const {
  std::ostringstream o;
#define D(tag, what, a, b) if(has(tags, tag)) { auto x = (a); auto y = (b); if(!(x == y)) { o << what << " is " << x << ", expected " << y << "; "; } }
  D("term", "current term", j.getCurrentTerm(), term) D("term", "vote", S(j.getVotedFor()), S(vote))
  D("log", "commit index", j.getCommitIndex(), commit) D("log", "log size", j.getLogSize(), size) D("log", "log start", j.getLogStart(), start)
  D("members", "membership epoch", j.getEpoch(), epoch) D("members", "nodes", S(j.getMembership().nodes), S(nodes)) D("members", "observers", S(j.getMembership().observers), S(obs)) D("members", "epoch of the membership", j.getMembership().epoch, epoch)
  D("misc", "cluster", j.getClusterID(), cluster)
  D("misc", "fsync policy", (int)j.getFsyncPolicy(), (int)pol)
  if(has(tags, "log")) for(LogIndex i = std::max<LogIndex>(0, start - 2); i <= size + 2; i++) {
    RaftEntry e; rocksdb::Status st = j.fetch(i, e); auto it = log.find(i);
    if(it == log.end()) { if(!st.IsNotFound()) o << "index " << i << " holds an entry but should not; "; }
    else if(!st.ok()) o << "index " << i << " holds no entry; ";
    else if(e.term != it->second.term || reqv(e.request) != it->second.req) o << "entry " << i << " differs: term " << e.term << " expected " << it->second.term << "; ";
  }
  return o.str();
}
inline const std::vector<RaftServer> &servers() { static std::vector<RaftServer> v = {{"srv-a", 1001}, {"srv-b", 1002}, {"srv-c", 1003}, {"srv-d", 65535}, {"srv-a", 1002}, {"s", 1}}; return v; }
inline std::string mstr(const Srv &n, const Srv &o) { return RaftMembers(n, o).toString(); }
inline bool in(const Srv &v, const RaftServer &s) { for(auto &x : v) if(x == s) return true; return false; }
inline bool rm(Srv &v, const RaftServer &s) { for(size_t i = 0; i < v.size(); i++) if(v[i] == s) { v.erase(v.begin() + i); return true; } return false; }

struct Sim {
  std::string tags, dir; RaftJournal *j = nullptr; Model m; std::vector<Model> hist; std::unique_ptr<RaftState> st; bool useState = false; uint64_t sig = 0; static inline int counter = 0; bool synced = false;
  // state model
  RaftStatus role = RaftStatus::FOLLOWER; RaftTerm sterm = 0; RaftServer leader, svote; LogIndex marker = -1; RaftServer me = servers()[0];
  Sim(const std::string &t, bool state) : tags(t), useState(state) {}
  void open() {
    H::clear(); counter++; dir = H::scratch("j" + std::to_string(counter)); sig = 0; synced = false;
    m = Model(); m.start = m.commit = m.epoch = H::one<LogIndex>({0, 0, 1, 7, 255, 65536, 4294967296ll}); m.size = m.start + 1; m.cluster = "cluster-" + std::to_string(H::pick(0, 3));
    m.nodes = {servers()[0]}; for(int i = 1; i < 4; i++) if(H::chance(1, 2)) m.nodes.push_back(servers()[i]);
    if(H::chance(1, 8)) { m.nodes.erase(m.nodes.begin()); if(m.nodes.empty()) m.nodes.push_back(servers()[1]); }
    m.pol = H::one<FsyncPolicy>({FsyncPolicy::kAlways, FsyncPolicy::kSyncImportantUpdates, FsyncPolicy::kSyncImportantUpdates, FsyncPolicy::kAsync});
    m.log[m.start] = {0, {"JOURNAL_UPDATE_MEMBERS", mstr(m.nodes, {}), m.cluster}};
    H::step("new journal: cluster " + m.cluster + ", start " + std::to_string(m.start) + ", nodes " + S(m.nodes) + " fsync policy " + std::to_string((int)m.pol));
    j = new RaftJournal(dir, m.cluster, m.nodes, m.start, m.pol);
    hist = {m};
    if(useState) fresh();
    verify("after creation");
  }
  void fresh() { st.reset(new RaftState(*j, me)); role = RaftStatus::FOLLOWER; sterm = m.term; svote = m.vote; leader = RaftServer(); marker = -1; }
  void close() { st.reset(); delete j; j = nullptr; H::rmdir_in_scratch("j" + std::to_string(counter)); }
  void verify(const std::string &when) {
    std::string d = m.diff(*j, tags); if(!d.empty()) H::fail(when + ": " + d);
    if(useState && has(tags, "role")) {
      auto s = st->getSnapshot(); std::ostringstream o;
      D("role", "term", s->term, sterm) D("role", "role", (int)s->status, (int)role) D("role", "leader", S(s->leader), S(leader)) D("role", "vote", S(s->votedFor), S(svote)) D("role", "leadership marker", s->leadershipMarker, marker)
      if(!o.str().empty()) H::fail(when + ": the published state: " + o.str());
    }
  }
  void changed(bool mustSync) { hist.push_back(m); if(mustSync && m.pol != FsyncPolicy::kAsync) { hist.erase(hist.begin(), hist.end() - 1); synced = true; } }
  void result(const char *tag, const std::string &what, bool got, bool want) { if(got != want && has(tags, tag)) H::fail(what + " returned " + (got ? "true" : "false") + ", expected " + (want ? "true" : "false")); if(got != want) throw 1; }
  void reopen() { H::step("close and reopen the journal"); st.reset(); delete j; j = nullptr; j = new RaftJournal(dir); if(useState) fresh(); verify("after reopening"); }
  void crash() {
    if(!synced || !has(tags, "crash")) return;
    H::step("power loss: only synced bytes survive; reopen the image");
    std::string img = "i" + std::to_string(counter); if(!Disk::image(dir, img)) return;
    { std::unique_ptr<RaftJournal> r;
      try { r.reset(new RaftJournal(H::scratch(img))); } catch(const std::exception &e) { H::fail(std::string("the journal cannot be reopened after a power loss: ") + e.what()); }
      bool ok = false; std::string why; for(auto it = hist.rbegin(); it != hist.rend() && !ok; ++it) { std::string d = it->diff(*r, "term log members misc"); if(why.empty()) why = d; ok = d.empty(); }
      if(!ok) { r.reset(); H::rmdir_in_scratch(img); H::fail("after a power loss the journal is in none of the states acknowledged since the last synced one: " + why); } }
    H::rmdir_in_scratch(img);
  }
  RaftServer anysrv(bool empty = false) { if(empty && H::chance(1, 4)) return RaftServer(); return H::one(servers()); }
  RaftTerm aterm() { return H::chance(1, 2) ? m.term : std::max<RaftTerm>(0, m.term + H::pick(-2, 3)); }
  LogIndex aix(LogIndex c) { return std::max<LogIndex>(0, c + H::pick(-2, 2)); }
  bool doAppend(LogIndex ix, const MEntry &e, bool imp, bool marker_) {
    RaftTerm last = m.log.rbegin()->second.term; bool ok = ix == m.size && e.term <= m.term && e.term >= last;
    bool upd = !marker_ && e.req[0] == "JOURNAL_UPDATE_MEMBERS"; bool mine = upd && e.req[2] == m.cluster;
    RaftEntry re; re.term = e.term; for(auto &s : e.req) re.request.emplace_back(std::string(s));
    std::ostringstream o; o << (marker_ ? "append leadership marker" : "append") << " at " << ix << " term " << e.term << " [" << H::show(e.req[0]) << " x" << e.req.size() << "]" << (imp ? " important" : ""); H::step(o.str());
    bool got = marker_ ? j->appendLeadershipMarker(ix, e.term, me) : j->append(ix, re, imp);
    result("log", "append", got, ok);
    if(ok) {
      m.log[ix] = e; m.size++;
      if(mine) { m.pepoch = m.epoch; m.pnodes = m.nodes; m.pobs = m.obs; m.epoch = ix; RaftMembers x(e.req[1]); m.nodes = x.nodes; m.obs = x.observers; }
      changed(imp || upd || marker_ || m.pol == FsyncPolicy::kAlways);
    }
    return ok;
  }
  MEntry randentry(bool membership) {
    MEntry e; e.term = H::chance(2, 3) ? m.term : aterm();
    if(membership) {
      Srv n, o; for(auto &s : servers()) { if(H::chance(1, 2)) n.push_back(s); else if(H::chance(1, 3)) o.push_back(s); } if(n.empty()) n.push_back(me);
      e.req = {"JOURNAL_UPDATE_MEMBERS", mstr(n, o), H::chance(4, 5) ? m.cluster : std::string("other-cluster")}; return e;
    }
    static const std::vector<std::string> w = {"SET", "", "k", std::string("a\0b\r\n", 5), "GET", std::string(300, 'x'), "JOURNAL_UPDATE_MEMBERS2", "\xff\xfe"};
    int n = H::pick(1, 4); for(int i = 0; i < n; i++) e.req.push_back(H::astr(w)); if(e.req[0] == "JOURNAL_UPDATE_MEMBERS") e.req[0] = "SET";
    return e;
  }
  template<class F> bool threw(F f) { try { f(); return false; } catch(const FatalException &) { return true; } }
  void op(int which) {
    std::ostringstream o; sig = sig * 31 + which;
    switch(which) {
    case 0: { // term and vote
      RaftTerm t = aterm(); RaftServer v = anysrv(true); bool ok = t > m.term || (t == m.term && m.vote.empty());
      if(useState) return;   // the state owns term and vote then
      o << "set term " << t << " vote " << S(v); H::step(o.str()); uint64_t s0 = Disk::syncs; bool got = j->setCurrentTerm(t, v);
      result("term", "setting term and vote", got, ok); if(ok) { m.term = t; m.vote = v; changed(true); if(has(tags, "term") && m.pol != FsyncPolicy::kAsync && Disk::syncs == s0) H::fail("term and vote were acknowledged without reaching the disk"); } break; }
    case 1: { LogIndex x = H::chance(1, 2) ? H::pick(m.commit, m.size - 1) : aix(H::chance(1, 2) ? m.commit : m.size); o << "set commit index " << x; H::step(o.str()); bool got = false;
      if(threw([&] { got = j->setCommitIndex(x); })) { if(x < m.size && has(tags, "log")) H::fail("committing an existing entry failed"); verify("after a refused commit"); break; }
      if(x >= m.size) { if(has(tags, "log")) H::fail("an entry that does not exist was committed"); throw 1; }
      result("log", "setting the commit index", got, x >= m.commit); if(x > m.commit) { m.commit = x; changed(false); } break; }
    case 2: doAppend(H::chance(5, 6) ? m.size : aix(m.size), randentry(false), H::chance(1, 3), false); break;
    case 3: if(m.epoch > m.commit) return; doAppend(m.size, randentry(true), H::chance(1, 2), false); break;
    case 4: if(useState) return; { RaftTerm t = H::chance(3, 4) ? m.term : aterm(); LogIndex ix = H::chance(4, 5) ? m.size : aix(m.size); doAppend(ix, {t, {"JOURNAL_LEADERSHIP_MARKER", std::to_string(t), S(me)}}, true, true); } break;
    case 5: { LogIndex x = aix(H::chance(1, 2) ? m.size : m.commit + 1); o << "remove entries from " << x; H::step(o.str()); bool got = false;
      if(x <= m.commit || x >= m.size) {
        bool t = threw([&] { got = j->removeEntries(x); });
        if(x < m.size && !t) { if(has(tags, "log")) H::fail("committed entries were removed"); throw 1; }
        if(x >= m.size && (t || got)) { if(has(tags, "log")) H::fail("entries past the end were removed"); throw 1; }
        break;
      }
      if(threw([&] { got = j->removeEntries(x); })) { if(has(tags, "log")) H::fail("removing uncommitted entries failed"); throw 1; }
      result("log", "removing entries", got, true);
      m.log.erase(m.log.lower_bound(x), m.log.end()); m.size = x; if(x <= m.epoch) { m.epoch = m.pepoch; m.nodes = m.pnodes; m.obs = m.pobs; } changed(m.pol == FsyncPolicy::kAlways); break; }
    case 6: { LogIndex x = aix(H::chance(1, 2) ? m.start + H::pick(0, 4) : m.commit); o << "trim until " << x; H::step(o.str()); bool t = threw([&] { j->trimUntil(x); });
      bool bad = x > m.start && x > m.commit; if(bad != t) { if(has(tags, "log")) H::fail(t ? "a legal trim failed" : "uncommitted entries were trimmed"); throw 1; }
      if(!t && x > m.start) { m.log.erase(m.log.begin(), m.log.lower_bound(x)); m.start = x; changed(m.pol == FsyncPolicy::kAlways); } break; }
    case 7: { // member operations
      RaftServer s = anysrv(); int k = H::pick(0, 3); Srv n = m.nodes, ob = m.obs; bool legal = true; static const char *nm[] = {"add observer ", "promote ", "remove ", "demote "}; H::step(nm[k] + S(s)); std::string err; bool got = false;
      if(k == 0) { legal = !in(n, s) && !in(ob, s); ob.push_back(s); } else if(k == 1) { legal = rm(ob, s); n.push_back(s); } else if(k == 2) { legal = rm(ob, s) || rm(n, s); } else { legal = rm(n, s); ob.push_back(s); }
      RaftTerm last = m.log.rbegin()->second.term; bool ok = legal && m.commit >= m.epoch && m.term >= last; if(n.empty()) return;
      if(k == 0) got = j->addObserver(m.term, s, err); else if(k == 1) got = j->promoteObserver(m.term, s, err); else if(k == 2) got = j->removeMember(m.term, s, err); else got = j->demoteToObserver(m.term, s, err);
      result("members", "the membership change", got, ok);
      if(ok) { m.log[m.size] = {m.term, {"JOURNAL_UPDATE_MEMBERS", mstr(n, ob), m.cluster}}; m.pepoch = m.epoch; m.pnodes = m.nodes; m.pobs = m.obs; m.epoch = m.size++; m.nodes = n; m.obs = ob; changed(true); } break; }
    case 8: { LogIndex x = aix(H::pick(m.start, m.size)); auto it = m.log.find(x); RaftTerm t = it != m.log.end() && H::chance(3, 4) ? it->second.term : aterm(); o << "match entry " << x << " term " << t; H::step(o.str());
      result("log", "matching an entry", j->matchEntries(x, t), it != m.log.end() && it->second.term == t); break; }
    case 9: { LogIndex s0 = H::pick(m.start, m.size); std::vector<RaftEntry> v; LogIndex want = s0; bool diff = false; int n = H::pick(0, 5);
      for(int i = 0; i < n; i++) { auto it = m.log.find(s0 + i); MEntry e = it != m.log.end() && H::chance(4, 5) ? it->second : randentry(false); if(it != m.log.end() && H::chance(1, 8)) e.term++;
        if(it != m.log.end() && !diff) { if(e == it->second) want++; else diff = true; } RaftEntry re; re.term = e.term; for(auto &q : e.req) re.request.emplace_back(std::string(q)); v.push_back(re); }
      o << "compare " << n << " entries from " << s0; H::step(o.str()); LogIndex got = j->compareEntries(s0, v); if(got != want) { if(has(tags, "log")) H::fail("comparison stopped at " + std::to_string(got) + ", expected " + std::to_string(want)); throw 1; } break; }
    case 10: { m.pol = H::one<FsyncPolicy>({FsyncPolicy::kAlways, FsyncPolicy::kSyncImportantUpdates, FsyncPolicy::kAsync}); o << "fsync policy " << (int)m.pol; H::step(o.str()); j->setFsyncPolicy(m.pol); changed(false); break; }
    case 11: reopen(); break;
    case 12: crash(); break;
    // ---- state
    case 13: { RaftTerm t = std::max<RaftTerm>(0, sterm + H::pick(-1, 2)); RaftServer l = H::chance(1, 2) ? RaftServer() : anysrv(); if(l == me) l = servers()[1]; o << "observed term " << t << " leader " << S(l); H::step(o.str());
      bool want = false; if(role != RaftStatus::SHUTDOWN) { if(t > sterm) { role = RaftStatus::FOLLOWER; marker = -1; svote = l.empty() ? RaftServer() : RaftState::BLOCKED_VOTE; sterm = t; leader = l; want = true; m.term = t; m.vote = svote; }
        else if(t == sterm && leader.empty()) { leader = l; want = true; if(!l.empty() && svote.empty()) { svote = RaftState::BLOCKED_VOTE; m.vote = svote; } } }
      bool ch = m.term != hist.back().term || S(m.vote) != S(hist.back().vote); result("role", "observing a term", st->observed(t, l), want); if(ch) changed(true); break; }
    case 14: { RaftTerm t = std::max<RaftTerm>(0, sterm + (H::chance(3, 4) ? 0 : H::pick(-1, 1))); RaftServer v = anysrv(); o << "vote request term " << t << " for " << S(v); H::step(o.str());
      bool want = role == RaftStatus::FOLLOWER && t == sterm && leader.empty() && svote.empty(); bool got = st->grantVote(t, v); if(got != want && (has(tags, "term") || has(tags, "role"))) H::fail(got ? "a vote was granted that must be refused" : "a vote was refused that must be granted"); if(got != want) throw 1;
      if(want) { svote = v; m.vote = v; changed(true); } break; }
    case 15: { RaftTerm t = std::max<RaftTerm>(0, sterm + (H::chance(4, 5) ? 0 : H::pick(-1, 1))); o << "become candidate for term " << t; H::step(o.str()); bool want = role == RaftStatus::FOLLOWER && t == sterm && leader.empty() && svote.empty() && in(m.nodes, me); result("role", "becoming a candidate", st->becomeCandidate(t), want); if(want) { svote = me; role = RaftStatus::CANDIDATE; m.vote = me; changed(true); } break; }
    case 16: { RaftTerm t = std::max<RaftTerm>(0, sterm + (H::chance(5, 6) ? 0 : H::pick(-1, 1))); o << "ascend for term " << t; H::step(o.str()); RaftTerm last = m.log.rbegin()->second.term; bool want = role == RaftStatus::CANDIDATE && t == sterm && leader.empty() && in(m.nodes, me) && t <= m.term && t >= last; result("role", "ascending", st->ascend(t), want);
      if(want) { m.log[m.size] = {t, {"JOURNAL_LEADERSHIP_MARKER", std::to_string(t), S(me)}}; leader = me; marker = m.size++; role = RaftStatus::LEADER; changed(true); } break; }
    case 17: { RaftTerm t = std::max<RaftTerm>(0, sterm + (H::chance(3, 4) ? 0 : H::pick(-1, 1))); o << "drop out of term " << t; H::step(o.str()); bool want = role == RaftStatus::CANDIDATE && t == sterm; result("role", "dropping out", st->dropOut(t), want); if(want) role = RaftStatus::FOLLOWER; break; }
    case 18: if(!H::chance(1, 6)) return; H::step("shut down"); st->shutdown(); if(role != RaftStatus::SHUTDOWN) marker = -1; role = RaftStatus::SHUTDOWN; break;
    case 19: if(!H::chance(1, 2)) return; { H::step("wipe and re-create in place"); if(useState) return; m = Model(); m.start = m.commit = m.epoch = H::one<LogIndex>({0, 3, 300}); m.size = m.start + 1; m.cluster = "renewed"; m.nodes = {servers()[1], servers()[2]}; m.pol = FsyncPolicy::kSyncImportantUpdates; m.log[m.start] = {0, {"JOURNAL_UPDATE_MEMBERS", mstr(m.nodes, {}), m.cluster}}; st.reset(); delete j; j = nullptr; RaftJournal::ObliterateAndReinitializeJournal(dir, m.cluster, m.nodes, m.start, m.pol); j = new RaftJournal(dir); hist = {m}; synced = false; break; }
    case 20: { std::vector<RaftEntry> v; int n = H::pick(0, 6); j->fetch_last(n, v); size_t want = std::min<LogIndex>(n, m.size); H::step("fetch the last " + std::to_string(n)); if(m.start > 0 && (LogIndex)want > m.size - m.start) return; bool ok = v.size() == want; for(size_t i = 0; ok && i < v.size(); i++) { auto it = m.log.find(m.size - want + i); ok = it != m.log.end() && v[i].term == it->second.term && reqv(v[i].request) == it->second.req; } if(!ok && has(tags, "log")) H::fail("the last entries are not the last entries"); break; }
    case 21: { LogIndex from = aix(H::pick(m.start, m.size)); bool must = H::chance(1, 2); std::ostringstream q; q << "iterate from " << from << (must ? " exactly" : ""); H::step(q.str()); auto it = j->getIterator(from, must); auto e = must ? m.log.find(from) : m.log.lower_bound(from);
      for(;; e++) { bool v = it.valid(); if(v != (e != m.log.end())) { if(has(tags, "log")) H::fail("iteration ended at the wrong entry"); throw 1; } if(!v) break; RaftSerializedEntry d; it.current(d); RaftEntry x; RaftEntry::deserialize(x, d); if(it.getCurrentIndex() != e->first || x.term != e->second.term || reqv(x.request) != e->second.req) { if(has(tags, "log")) H::fail("iteration shows a wrong entry at " + std::to_string(it.getCurrentIndex())); throw 1; } it.next(); } break; }
    case 22: { LogIndex from = aix(H::pick(m.start, m.size)); size_t cnt = H::pick(1, 4); H::step("scan the contents from " + std::to_string(from)); std::vector<RaftEntryWithIndex> out; LogIndex next = -1, cur = from; std::vector<LogIndex> got; for(int g = 0; g < 200; g++) { j->scanContents(cur, cnt, "", out, next); if(out.size() > cnt) H::fail("more entries than asked for"); for(auto &x : out) got.push_back(x.index); if(next == 0) break; cur = next; } std::vector<LogIndex> want; for(auto e = m.log.lower_bound(from); e != m.log.end(); e++) want.push_back(e->first); if(got != want && has(tags, "log")) H::fail("scanning page by page does not show every entry once"); break; }
    }
    verify("after the last step");
  }
  // ---- one random history
  void history(const std::vector<int> &weights, int len) {
    open(); std::vector<int> bag; for(size_t i = 0; i < weights.size(); i++) for(int k = 0; k < weights[i]; k++) bag.push_back(i);
    try { for(int i = 0; i < len && H::more(); i++) op(H::one(bag)); } catch(int) {} catch(const std::exception &e) { H::fail(std::string("unexpected failure: ") + e.what()); }
    H::tick(sig); if(H::st().samples < 3) { std::string s; for(size_t i = 0; i < H::st().log.size() && i < 8; i++) s += H::st().log[i] + " / "; H::sample(s); }
    close();
  }
};
