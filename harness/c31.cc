// real connections over socket pairs, requests cut at random bytes, in front of the real dispatcher; commits, lost leadership and closed connections at random moments; one reply each, in order, as the model says
#include <sys/socket.h>
#include <fcntl.h>
#include "sm.hh"
#include "Connection.hh"
#include "Link.hh"
#include "utils/InFlightTracker.hh"
struct Slot { Req r; std::vector<Req> block; bool exec = false, done = false, dropped = false; Val want; };
struct Client;
struct Front : public Dispatcher {      // stands where the replication layer stands
  Box &b; LogIndex next; Client *cur = nullptr;
  std::map<LogIndex, std::shared_ptr<PendingQueue>> blocked;
  Front(Box &bb) : b(bb), next(bb.m.applied + 1) {}
  LinkStatus dispatch(Connection *c, RedisRequest &q) override;
  LinkStatus dispatch(Connection *c, Transaction &t) override;
  void notifyDisconnect(Connection *) override {}
};
struct Client {
  int id, fd; Link *link; Connection *conn; std::shared_ptr<PendingQueue> queue; Front &f; std::deque<Slot> slots; size_t handed = 0, checked = 0; Str in, out; bool multi = false, multiDirty = false; std::vector<Req> block; InFlightTracker tracker;
  struct Pend { std::vector<size_t> slots; LogIndex ix; Val text; bool isText; }; std::deque<Pend> pend;
  Client(int i, Front &ff) : id(i), f(ff) { int s[2]; if(socketpair(AF_UNIX, SOCK_STREAM, 0, s)) abort(); fd = s[1]; fcntl(fd, F_SETFL, O_NONBLOCK); int z = 1 << 20; setsockopt(s[0], SOL_SOCKET, SO_SNDBUF, &z, sizeof z); link = new Link(s[0]); conn = new Connection(link); conn->authorization = true; queue = conn->getQueue(); if(H::chance(1, 2)) conn->setResponseBuffering(false); }
  ~Client() { shut(); close(fd); }
  void shut() { if(!conn) return; delete conn; conn = nullptr; link->Close(); delete link; }
  Str me() const { return "client " + std::to_string(id) + ": "; }
  // what the request means, before it is sent
  void plan(const Req &r) {
    Str c = Ref::low(r[0]); auto add = [&](Val v) { Slot s; s.r = r; s.done = true; s.want = v; slots.push_back(s); };
    if(c == "multi") { if(r.size() != 1) return add(Val::err()); if(multi) return add(Val::err("nested")); multi = true; block.clear(); return add(Val::ok()); }
    if(c == "discard") { if(!multi) return add(Val::err("DISCARD without MULTI")); multi = false; return add(Val::ok()); }
    if(c == "exec") { if(!multi) return add(Val::err()); multi = false; if(block.empty()) { Val v; v.t = '*'; return add(v); } Slot s; s.r = r; s.exec = true; s.block = block; slots.push_back(s); return; }
    if(multi) { RedisRequest q = Box::mk(r); if(q.getCommandType() != CommandType::READ && q.getCommandType() != CommandType::WRITE) return add(Val::err("Only reads and writes")); block.push_back(r); return add(Val::stat("QUEUED")); }
    Slot s; s.r = r; slots.push_back(s);
  }
  void run(Pend &p) {
    f.b.m.touched.clear(); for(size_t i : p.slots) { Slot &s = slots[i]; if(s.exec) { s.want = Val(); s.want.t = '*'; for(auto &r : s.block) s.want.a.push_back(f.b.m.run(r)); } else { s.want = Box::isWrite(s.r) || Box::mk(s.r).getCommandType() == CommandType::READ ? f.b.m.run(s.r) : Ref::low(s.r[0]) == "ping" ? Val::stat("PONG") : Val::err(); } s.done = true; }
    if(p.ix > 0) { f.b.m.applied = p.ix; f.b.past.push_back(f.b.m); }
  }
  size_t nextSlot() { while(handed < slots.size() && slots[handed].done) handed++; return handed; }
  void arrived(std::vector<Req> rs, bool phantom, LogIndex ix) {
    if(rs.size() == 1 && Ref::low(rs[0][0]) == "exec") return;      // refused either way
    Pend p; p.ix = ix; p.isText = false; H::step(me() + (phantom ? "handed on: " : "block handed on: ") + std::to_string(rs.size()) + " request(s), first " + show(rs[0]) + " index " + std::to_string(ix));
    auto take = [&]() -> Slot & { size_t i = nextSlot(); if(i >= slots.size()) H::fail(me() + "a request was handed on that was never sent, or twice"); handed = i + 1; p.slots.push_back(i); return slots[i]; };
    if(phantom) { for(auto &r : rs) { Slot &s = take(); if(s.exec || s.r != r) H::fail(me() + "requests handed on out of order: " + show(r) + " while " + show(s.r) + " is next"); } }
    else { Slot &s = take(); if(!s.exec || s.block != rs) H::fail(me() + "a block of other requests was handed on than the one sent"); }
    auto k = Box::mk(rs[0]).getCommandType(); if(ix <= 0 && (pend.empty() || (k != CommandType::READ && k != CommandType::WRITE))) run(p); else pend.push_back(p);
  }
  void commit(LogIndex ix) { while(!pend.empty() && pend.front().ix <= ix) { run(pend.front()); pend.pop_front(); } }
  void flushed() { for(auto &p : pend) for(size_t i : p.slots) { slots[i].want = Val::err("unavailable"); slots[i].done = true; } pend.clear(); }
  void feed(const Str &bytes) {
    size_t o = 0; while(o < bytes.size()) { ssize_t n = ::send(fd, bytes.data() + o, bytes.size() - o, 0); if(n > 0) o += n; if(o < bytes.size() || n <= 0) process(); }
    process();
  }
  void process() {
    f.cur = this; LinkStatus st = 0; try { st = conn->processRequests(&f, tracker); } catch(const std::exception &e) { H::fail(me() + "a request brings the server down: " + Str(e.what()).substr(0, 300)); }
    if(st != 1) H::fail(me() + "the connection is given up with status " + std::to_string(st)); f.cur = nullptr; drain();
  }
  void drain() { char z[65536]; for(;;) { ssize_t n = recv(fd, z, sizeof z, 0); if(n <= 0) break; out.append(z, n); } }
  // everything answered so far must have been sent, in order, and nothing else; `sent`: requests whose bytes were all handed over
  void check(const Str &when) {
    drain(); size_t p = 0;
    while(p < out.size()) { size_t q = p; Val v; if(!parseVal(out, q, v)) H::fail(me() + when + ": not a reply: " + H::show(out.substr(p))); if(checked >= slots.size()) H::fail(me() + when + ": more replies than requests: " + v.show()); Slot &s = slots[checked]; if(!s.done) H::fail(me() + when + ": reply " + v.show() + " to " + show(s.r) + " before it was carried out"); if(!same(s.want, v)) H::fail(me() + when + ": reply to " + show(s.r) + " is " + v.show() + ", expected " + s.want.show()); checked++; p = q; }
    out.clear(); if(conn && checked < owedUpTo()) H::fail(me() + when + ": no reply to " + show(slots[checked].r) + ", expected " + slots[checked].want.show());
  }
  size_t known = 0; size_t owedUpTo() { size_t i = checked; while(i < known && slots[i].done) i++; return i; }
};
LinkStatus Front::dispatch(Connection *c, RedisRequest &q) {
  if(q.getCommandType() != CommandType::READ && q.getCommandType() != CommandType::WRITE) { Req r; for(size_t i = 0; i < q.size(); i++) r.push_back(Str(q[i])); cur->arrived({r}, true, -1); return c->raw(b.disp->dispatch(q, 0)); }
  Transaction t; t.push_back(std::move(q)); t.setPhantom(true); return dispatch(c, t);
}
LinkStatus Front::dispatch(Connection *c, Transaction &t) {
  bool w = false; std::vector<Req> rs; for(size_t i = 0; i < t.size(); i++) { Req r; for(size_t j = 0; j < t[i].size(); j++) r.push_back(Str(t[i][j])); w |= Box::isWrite(r); rs.push_back(r); }
  if(rs.empty()) H::fail("an empty batch was handed on"); if(w != t.containsWrites()) H::fail("a batch handed on does not know whether it writes");
  LogIndex ix = w ? next++ : -1; cur->arrived(rs, t.isPhantom(), ix); if(w) blocked[ix] = cur->queue; return c->addPendingTransaction(b.disp.get(), std::move(t), ix);
}
static Str wire(const Req &r) { Str s = "*" + std::to_string(r.size()) + "\r\n"; for(auto &x : r) s += "$" + std::to_string(x.size()) + "\r\n" + x + "\r\n"; return s; }
int main() {
  std::cout.setstate(std::ios_base::failbit); std::cerr.setstate(std::ios_base::failbit);
  while(H::more()) {
    Box b(true); Gen g; g.empties = false; g.vals = {"v", "w", "1", "a\r\nb", Str("\0", 1), Str(40000, 'x'), Str(3000, 'y')}; g.only = {"get", "set", "del", "exists", "hset", "hget", "hlen", "sadd", "scard", "srem", "deque_push_back", "deque_pop_front", "vhset", "vhgetall", "hincrby"};
    Connection::setPhantomBatchLimit(H::pick(1, 4)); Front f(b); std::vector<std::unique_ptr<Client>> all; std::vector<std::unique_ptr<Client>> gone; int ids = 0; std::map<LogIndex, Client *> owner; for(int i = H::pick(1, 2); i > 0; i--) all.emplace_back(new Client(++ids, f));
    auto who = [&](const std::shared_ptr<PendingQueue> &q) -> Client * { for(auto &c : all) if(c->queue == q) return c.get(); for(auto &c : gone) if(c->queue == q) return c.get(); return nullptr; };
    auto commitOne = [&]() {
      if(f.blocked.empty()) return; auto it = f.blocked.begin(); LogIndex ix = it->first; auto q = it->second; f.blocked.erase(it); Client *c = who(q); H::step("commit " + std::to_string(ix)); c->commit(ix); LogIndex nb = -2;
      try { nb = q->dispatchPending(b.disp.get(), ix); } catch(const std::exception &e) { H::fail(Str("a commit brings the server down: ") + Str(e.what()).substr(0, 300)); }
      LogIndex wn = c->pend.empty() ? -1 : c->pend.front().ix; if(nb != wn) H::fail("after commit " + std::to_string(ix) + " the connection waits for " + std::to_string(nb) + ", expected " + std::to_string(wn)); c->check("after commit " + std::to_string(ix)); if(b.sm->getLastApplied() != ix) H::fail("index applied");
    };
    std::map<Client *, Str> rest;
    for(int step = 0; step < 40; step++) {
      switch(H::pick(0, 9)) {
        case 0: case 1: commitOne(); break;
        case 2: if(H::chance(1, 4)) { H::step("leadership lost"); RedisEncodedResponse e = Formatter::err("unavailable"); std::set<PendingQueue *> done; for(auto &p : f.blocked) if(done.insert(p.second.get()).second) { p.second->flushPending(e); } for(auto &p : f.blocked) who(p.second)->flushed(); f.blocked.clear(); f.next = b.m.applied + 1; for(auto &c : all) c->check("after leadership was lost"); } break;
        case 3: if(H::chance(1, 3)) { size_t i = H::pick(0, all.size() - 1); H::step(all[i]->me() + "closes"); rest.erase(all[i].get()); all[i]->shut(); gone.push_back(std::move(all[i])); all[i].reset(new Client(++ids, f)); } break;
        case 4: { auto &c = *all[H::pick(0, all.size() - 1)]; if(c.pend.empty() || !H::chance(1, 2)) break; break; }
        default: {
          auto &c = *all[H::pick(0, all.size() - 1)]; Str bytes = rest[&c]; size_t whole = c.slots.size(); std::vector<size_t> ends;
          for(int k = H::pick(1, 5); k > 0; k--) {
            Req r; switch(H::pick(0, 11)) { case 0: r = {"MULTI"}; break; case 1: r = {"exec"}; break; case 2: if(H::chance(1, 2)) r = {"discard"}; else r = {"multi", "x"}; break; case 3: r = {H::one<Str>({"ping", "nosuchcommand", "ping"})}; break; default: do r = g.next(); while(r[0] == "flushall" || std::count(r.begin(), r.end(), Str())); }
            H::step(c.me() + "sends " + show(r).substr(0, 200)); c.plan(r); bytes += wire(r); b.sig = b.sig * 1000003 + H::hash(show(r));
          }
          (void) whole; (void) ends;
          size_t cut = H::chance(1, 2) ? bytes.size() : H::pick(0, bytes.size()); Str now = bytes.substr(0, cut); rest[&c] = bytes.substr(cut); size_t o = 0; while(o < now.size()) { size_t n = H::chance(1, 3) ? now.size() - o : H::pick(1, now.size() - o); c.feed(now.substr(o, n)); o += n; }
          // requests whose bytes are all there
          size_t missing = 0; { size_t left = rest[&c].size(), i = c.slots.size(); while(left > 0 && i > 0) { size_t n = wire(c.slots[i - 1].r).size(); missing++; i--; left = left > n ? left - n : 0; } }
          c.known = c.slots.size() - missing; c.check("after sending"); H::tick(b.sig + step);
        }
      }
    }
    for(auto &c : all) if(!rest[c.get()].empty()) { c->feed(rest[c.get()]); c->known = c->slots.size(); c->check("at the end"); }
    while(!f.blocked.empty()) commitOne(); for(auto &c : all) { c->known = c->slots.size(); c->check("at the end"); if(c->checked != c->slots.size()) H::fail(c->me() + "requests left without a reply"); }
    b.raw("at the end");
  }
  H::finish();
}
