#include "jm.hh"
int main() {
  std::vector<int> w = {0, 1, 2, 1, 0, 1, 1, 2, 0, 0, 0, 1, 0, 8, 6, 8, 8, 3, 1};
  // readers must only ever see one coherent, monotone state while the roles change
  auto race = [&] {
    Sim s("role", true); s.open(); std::atomic<bool> stop{false}; std::string bad; std::mutex bm; std::atomic<int> leaders{0};
    auto reader = [&] {
      RaftStateSnapshotPtr last = s.st->getSnapshot();
      while(!stop) {
        auto n = s.st->getSnapshot(); std::ostringstream o;
        if(n->term < last->term) o << "term went back from " << last->term << " to " << n->term;
        if(n->status == RaftStatus::LEADER && (!(n->leader == s.me) || !(n->votedFor == s.me) || n->leadershipMarker < 0)) o << "incoherent leader";
        if(n->status != RaftStatus::LEADER && n->leadershipMarker != -1) o << "marker without leadership";
        if(n->status == RaftStatus::CANDIDATE && !(n->votedFor == s.me)) o << "candidate that did not vote for itself";
        if(n->term == last->term && !last->leader.empty() && !(last->leader == n->leader)) o << "leader changed within term " << n->term;
        if(n->term == last->term && !last->votedFor.empty() && !(last->votedFor == n->votedFor)) o << "vote changed within term " << n->term;
        if(!o.str().empty()) { std::lock_guard<std::mutex> g(bm); bad = o.str(); }
        last = n;
      }
    };
    std::vector<std::thread> t; t.emplace_back(reader); t.emplace_back(reader);
    auto actor = [&](int k) {
      std::mt19937 g(H::seed() * 100 + k);
      for(int i = 0; i < 150; i++) { RaftTerm term = s.st->getSnapshot()->term; switch(g() % 6) { case 0: s.st->observed(term + 1, {}); break; case 1: s.st->becomeCandidate(term); break; case 2: if(s.st->ascend(term)) leaders++; break; case 3: s.st->grantVote(term, servers()[1 + g() % 3]); break; case 4: s.st->observed(term, servers()[1 + g() % 3]); break; case 5: s.st->dropOut(term); break; } }
    };
    std::vector<std::thread> a; for(int k = 0; k < 3; k++) a.emplace_back(actor, k); for(auto &x : a) x.join(); stop = true; for(auto &x : t) x.join();
    H::step("3 threads drive the roles, 2 threads read the published state"); if(!bad.empty()) H::fail("published state: " + bad); auto n = s.st->getSnapshot();
    if(n->term != s.j->getCurrentTerm() || !(n->votedFor == s.j->getVotedFor())) H::fail("published term or vote is not the journalled one"); H::tick(100 + leaders); s.close();
  };
  for(int i = 0; i < 3; i++) race();
  while(H::more()) { Sim b("role", true); b.history(w, 45); if(H::chance(1, 10)) race(); }
  H::finish();
}
