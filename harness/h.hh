// common part of the replay harnesses: seeded choices, time limit, hints from the verifier's counterexamples, verdicts
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>

namespace H {
inline const char *env(const char *n, const char *d) { const char *v = getenv(n); return v ? v : d; }
inline uint64_t seed() { static uint64_t s = strtoull(env("VERIF_SEED", "1"), nullptr, 10); return s; }
inline std::mt19937_64 &gen() { static std::mt19937_64 g(seed() * 0x9e3779b97f4a7c15ull + 12345); return g; }
inline uint64_t rnd() { return gen()(); }
inline int64_t pick(int64_t lo, int64_t hi) { return lo + (int64_t)(rnd() % (uint64_t)(hi - lo + 1)); }   // inclusive
inline bool chance(int num, int den) { return (int64_t)(rnd() % den) < num; }
template<class T> const T &one(const std::vector<T> &v) { return v[rnd() % v.size()]; }
inline bool thorough() { return std::string(env("VERIF_TIER", "quick")) == "thorough"; }

struct State {
  uint64_t cases = 0; std::unordered_set<uint64_t> seen; int samples = 0;
  std::chrono::steady_clock::time_point start = std::chrono::steady_clock::now();
  std::vector<int64_t> ints; std::vector<std::string> strs; std::set<std::string> known, reported; std::vector<std::string> log;
  State() {
    std::ifstream f(env("CXV_HINTS", "/dev/null")); std::string l;
    while(std::getline(f, l)) {
      if(l.size() < 2) continue;
      if(l[0] == 'i') ints.push_back((int64_t)strtoll(l.c_str() + 2, nullptr, 10));
      else { std::string s, h = l.substr(2); for(size_t i = 0; i + 1 < h.size(); i += 2) s.push_back((char)strtol(h.substr(i, 2).c_str(), nullptr, 16)); strs.push_back(s); }
    }
    std::istringstream k(env("CXV_KNOWN", "")); std::string w; while(k >> w) known.insert(w);
  }
};
inline State &st() { static State s; return s; }
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - st().start).count(); }
inline bool more(double fraction = 1.0) { return elapsed() < atof(env("CXV_TIME", "10")) * fraction; }
inline std::string show(std::string_view s) {
  std::string o = "\""; char b[8];
  for(unsigned char c : s) { if(c >= 32 && c < 127 && c != '"' && c != '\\') o.push_back(c); else { snprintf(b, sizeof b, "\\x%02x", c); o += b; } if(o.size() > 400) { o += "..."; break; } }
  return o + "\"";
}
inline void tick(uint64_t key, bool nontrivial = true) { auto &s = st(); s.cases++; if(nontrivial && s.seen.size() < 2000000) s.seen.insert(key); }
inline uint64_t hash(std::string_view s) { return std::hash<std::string_view>()(s); }
inline void sample(const std::string &s) { if(st().samples++ < 5) { std::string t; for(char c : s) t.push_back(c == '\n' ? ' ' : c); printf("SAMPLE %s\n", t.substr(0, 600).c_str()); } }
// steps of the current case, printed when it fails
inline void clear() { st().log.clear(); }
inline void step(const std::string &s) { st().log.push_back(s); }
inline void finish() { printf("CASES %llu %llu\n", (unsigned long long)st().cases, (unsigned long long)st().seen.size()); fflush(stdout); _exit(0); }
[[noreturn]] inline void fail(const std::string &what) {
  printf("FAIL %s\n", what.c_str());
  if(!st().log.empty()) { printf("steps of the failing case:\n"); for(auto &l : st().log) printf("  %s\n", l.c_str()); }
  printf("CASES %llu %llu\n", (unsigned long long)st().cases, (unsigned long long)st().seen.size());
  fflush(stdout); _exit(1);
}
inline void check(bool c, const std::string &what) { if(!c) fail(what); }
// a failure that a listed finding explains: reported once as known, otherwise a failure
inline void known(const std::string &id, const std::string &what) {
  if(!st().known.count(id)) fail(what);
  if(st().reported.insert(id).second) printf("KNOWN %s %s\n", id.c_str(), what.c_str());
}
inline std::string scratch(const std::string &n) { return std::string(env("CXV_SCRATCH", "/tmp")) + "/" + n; }
inline void rmdir_in_scratch(const std::string &n) {   // only ever below the scratch directory
  std::string d = scratch(n);
  std::function<void(const std::string &)> rec = [&](const std::string &p) {
    DIR *dd = opendir(p.c_str()); if(!dd) { unlink(p.c_str()); return; }
    while(dirent *e = readdir(dd)) { std::string x = e->d_name; if(x != "." && x != "..") { struct stat s; std::string q = p + "/" + x; if(lstat(q.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) rec(q); else unlink(q.c_str()); } }
    closedir(dd); rmdir(p.c_str());
  };
  rec(d);
}
// values that are worth trying in place of v
inline int64_t anint(std::vector<int64_t> base) { auto &s = st().ints; if(!s.empty() && chance(1, 3)) return one(s) + pick(-1, 1); return one(base); }
inline std::string astr(const std::vector<std::string> &base) { auto &s = st().strs; if(!s.empty() && chance(1, 3)) return one(s); return one(base); }
template<class A, class B> void equal(const A &a, const B &b, const std::string &what) { if(!(a == b)) { std::ostringstream o; o << what << ": got " << a << ", expected " << b; fail(o.str()); } }
}
