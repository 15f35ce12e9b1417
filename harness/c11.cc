#include "sm.hh"
int main() {
  while(H::more()) {
    Box b(H::chance(1,2)); Gen g; if(H::chance(1,2)) g.keys = {"k", "a#", "a"}; if(H::chance(1,3)) g.fields = {"f", "#"};
    g.only = {"get","set","del","exists","hget","hexists","hkeys","hvals","hgetall","hlen","hset","hsetnx","hmset","hincrby","hincrbymulti","hincrbyfloat","hdel","hclone","sadd","srem","sismember","smembers","scard","smove","config_set","config_get","config_getall","lhset","lhmset","lhget","lhlen","lhdel","lhlocdel","lhget_with_fallback","lhdel_with_fallback","lhset_and_del_fallback","convert_hash_field_to_lhash"};
    history(b, g, 200, 10); b.raw("at the end"); b.reopen();
  }
  H::finish();
}
