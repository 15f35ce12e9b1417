#include "jm.hh"
// text forms, set operations and the quorum of a membership
static void texts() {
  Srv n, o; for(auto &s : servers()) { if(H::chance(1, 2)) n.push_back(s); else if(H::chance(1, 2)) o.push_back(s); } if(n.empty()) n.push_back(RaftServer("host-" + std::to_string(H::pick(0, 99)), H::pick(1, 65535)));
  std::swap(n[0], n[H::rnd() % n.size()]); RaftMembers m(n, o), back(m.toString()); H::clear(); H::step("members " + m.toString());
  if(!(back == m)) H::fail("members do not survive their text form: " + back.toString());
  RaftServer s = H::one(servers()), p; std::string err; if(!parseServer(s.toString(), p) || !(p == s)) H::fail("server " + S(s) + " does not survive its text form"); std::vector<RaftServer> ps; if(!parseServers(serializeNodes(n), ps) || !(ps == n)) H::fail("a list of servers does not survive its text form");
  RaftMembers x = m; Srv en = n, eo = o; int k = H::pick(0, 3); bool want, got; H::step(std::string(k == 0 ? "add " : k == 1 ? "promote " : k == 2 ? "remove " : "demote ") + S(s));
  if(k == 0) { want = !in(n, s) && !in(o, s); if(want) eo.push_back(s); got = x.addObserver(s, err); } else if(k == 1) { want = rm(eo, s); if(want) en.push_back(s); got = x.promoteObserver(s, err); }
  else if(k == 2) { want = rm(eo, s) || rm(en, s); got = x.removeMember(s, err); } else { want = rm(en, s); if(want) eo.push_back(s); got = x.demoteToObserver(s, err); }
  if(got != want) H::fail("the change was " + std::string(got ? "accepted" : "refused")); if(!(x.nodes == en) || !(x.observers == eo)) H::fail("members became " + x.toString());
  RaftMembership ms{n, o, 3}; if(ms.contains(s) != (in(n, s) || in(o, s))) H::fail("containment of " + S(s)); H::tick(H::hash(m.toString()) * 4 + k);
}
int main() {
  for(int i = 0; i < 3000; i++) texts();
  std::vector<int> w = {2, 6, 2, 4, 1, 4, 2, 10, 0, 0, 1, 2, 0};
  while(H::more()) { Sim b("members", false); b.history(w, 45); }
  H::finish();
}
