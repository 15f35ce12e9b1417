#include "jm.hh"
int main() {
  std::vector<int> w = {4, 4, 10, 3, 3, 4, 3, 3, 0, 0, 2, 2, 10, 0, 0, 0, 0, 0, 0, 1}, v = {0, 2, 4, 1, 0, 1, 1, 1, 0, 0, 2, 2, 8, 5, 5, 5, 5, 1};
  while(H::more()) { Sim b("crash term log members misc", false); b.history(w, 35); if(H::chance(1, 3)) { Sim c("crash term log members misc", true); c.history(v, 35); } }
  H::finish();
}
