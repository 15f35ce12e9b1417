#include "jm.hh"
int main() {
  std::vector<int> w = {3, 6, 10, 2, 2, 5, 4, 1, 3, 4, 1, 1, 0, 0, 0, 0, 0, 0, 0, 1, 2, 2, 2};
  // concurrent appends at the same index: exactly one wins and the log stays contiguous
  auto race = [&] {
    Sim s("log", false); s.open(); LogIndex ix = s.m.size; std::atomic<int> ok{0}; std::vector<std::thread> t; std::atomic<bool> go{false}; s.j->setCurrentTerm(3, {});
    for(int i = 0; i < 6; i++) t.emplace_back([&, i] { while(!go); RaftEntry e(1, "SET", "k" + std::to_string(i), "v"); if(s.j->append(ix, e)) ok++; });
    go = true; for(auto &x : t) x.join(); H::step("6 concurrent appends at index " + std::to_string(ix)); RaftEntry e;
    if(ok != 1 || s.j->getLogSize() != ix + 1 || !s.j->fetch(ix, e).ok() || s.j->fetch(ix + 1, e).ok()) H::fail("one index, " + std::to_string(ok.load()) + " appends accepted"); H::tick(1); s.close();
  };
  for(int i = 0; i < 3; i++) race();
  while(H::more()) { Sim b("log", false); b.history(w, 45); if(H::chance(1, 10)) race(); }
  H::finish();
}
