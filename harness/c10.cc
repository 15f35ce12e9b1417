#include "sm.hh"
// random histories: after every request each key has the type, and the recorded size, of the elements it holds
int main() {
  const std::vector<std::set<Str>> groups = {{"hset","hsetnx","hmset","hincrby","hincrbymulti","hincrbyfloat","hdel","hclone","hlen","hgetall"}, {"sadd","srem","smove","scard","smembers"}, {"smove","sadd","hset"}, {"lhset","lhmset","lhdel","lhlocdel","lhlen","lhset_and_del_fallback","lhdel_with_fallback","convert_hash_field_to_lhash"}, {"deque_push_front","deque_push_back","deque_pop_front","deque_pop_back","deque_trim_front","deque_clear","deque_len"}, {"vhset","vhdel","vhlen"}, {"set","get"}};
  while(H::more()) {
    Box b(H::chance(1,2)); Gen g; if(H::chance(1,3)) g.keys = {"k", "a#"};
    if(H::chance(1,2)) { g.only = groups[H::pick(0, groups.size() - 1)]; g.only.insert("del"); g.only.insert("type"); g.keys = {"k", "#"}; g.fields = {"f", "g", "#"}; }
    history(b, g, g.only.empty() ? 150 : 60, 3); b.raw("at the end"); b.reopen();
  }
  H::finish();
}
