#include "jm.hh"
int main() {
  std::vector<int> plain = {8, 2, 3, 1, 1, 1, 0, 0, 0, 0, 1, 3, 3}, state = {0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 1, 3, 3, 6, 8, 4, 2, 2, 1};
  // concurrent vote requests of one term: at most one asker gets the vote
  auto race = [&] {
    Sim s("term role crash", true); s.open(); std::atomic<int> granted{0}; std::vector<std::thread> t; std::atomic<bool> go{false}; RaftTerm term = s.sterm; std::vector<RaftServer> who(6);
    for(int i = 0; i < 6; i++) t.emplace_back([&, i] { while(!go); RaftServer v("srv-race", 2000 + i); if(s.st->grantVote(term, v)) { granted++; who[i] = v; } });
    go = true; for(auto &x : t) x.join(); H::step("6 concurrent vote requests for the same term from different servers");
    if(granted != 1) H::fail("one term, " + std::to_string(granted.load()) + " votes granted");
    auto sn = s.st->getSnapshot(); int winner = -1; for(int i = 0; i < 6; i++) if(!who[i].empty()) winner = i; if(!(sn->votedFor == who[winner]) || !(s.j->getVotedFor() == who[winner])) H::fail("the recorded vote is not the granted one");
    H::tick(7); s.close();
  };
  // concurrent term updates straight on the journal
  auto jrace = [&] {
    Sim s("term", false); s.open(); std::atomic<int> ok{0}; std::vector<std::thread> t; std::atomic<bool> go{false};
    for(int i = 0; i < 6; i++) t.emplace_back([&, i] { while(!go); if(s.j->setCurrentTerm(5, RaftServer("srv-race", 2000 + i))) ok++; });
    go = true; for(auto &x : t) x.join(); H::step("6 concurrent updates to term 5 with different votes"); if(ok != 1) H::fail("one term, " + std::to_string(ok.load()) + " different votes accepted"); H::tick(8); s.close();
  };
  for(int i = 0; i < 4; i++) { race(); jrace(); }
  while(H::more()) { Sim a("term crash", false); a.history(plain, 40); Sim b("term crash", true); b.history(state, 40); if(H::chance(1, 4)) { race(); jrace(); } }
  H::finish();
}
