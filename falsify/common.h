// Shared skeleton of the falsifiers: random + dictionary cases against an independent oracle,
// run on the real headers under ASan/UBSan.  A failing case prints its complete history.
#pragma once
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <utility>
#include <vector>
extern "C" void __sanitizer_set_death_callback(void (*)(void));

namespace fz {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  uint64_t below(uint64_t n) { return n ? (next() >> 11) % n : 0; }
  long range(long a, long b) { return a + (long) below((uint64_t) (b - a + 1)); }
  bool chance(int num, int den) { return (int) below(den) < num; }
};
inline std::vector<long> &Lits() { static std::vector<long> l; return l; }
inline std::string &Log() { static std::string l; return l; }
inline bool &InCase() { static bool b = false; return b; }
inline bool &Reported() { static bool b = false; return b; }
inline std::string &Mode() { static std::string m; return m; }
inline uint64_t &Seed() { static uint64_t s = 1; return s; }
inline uint64_t &CaseNo() { static uint64_t s = 0; return s; }
inline uint64_t &Checks() { static uint64_t s = 0; return s; }

inline void (*&AtEnd())() { static void (*f)() = nullptr; return f; }   // removes scratch files
inline void Dump(const char *why) {
  if (Reported()) return;
  Reported() = true;
  std::fprintf(stdout, "\nFALSIFIED %s\nmode=%s seed=%llu case=%llu\nhistory:\n%s", why, Mode().c_str(),
               (unsigned long long) Seed(), (unsigned long long) CaseNo(), Log().c_str());
  std::fprintf(stdout, "END\n");
  std::fflush(stdout);
  if (AtEnd()) AtEnd()();
}
inline void Fail(const std::string &why) { Dump(why.c_str()); std::_Exit(1); }
inline void Note(const std::string &s) { Log() += "  " + s + "\n"; }
#define REQUIRE_P(cond, msg) do { ++fz::Checks(); if (!(cond)) { std::ostringstream o_; o_ << msg; fz::Fail(o_.str()); } } while (0)
#define NOTE(msg) do { std::ostringstream o_; o_ << msg; fz::Note(o_.str()); } while (0)

// a size: mostly small, sometimes from the dictionary of literals found in the code
inline size_t Size(Rng &r, size_t lo, size_t typical, size_t cap) {
  int k = (int) r.below(10);
  size_t v;
  if (k < 8 || Lits().empty()) v = lo + r.below(typical - lo + 1);
  else if (k == 8) v = (size_t) std::labs(Lits()[r.below(Lits().size())] + r.range(-1, 1));
  else v = lo + r.below(cap - lo + 1);
  if (v < lo) v = lo;
  if (v > cap) v = lo + v % (cap - lo + 1);
  return v;
}
inline long Value(Rng &r, long lo, long hi) {
  if (!Lits().empty() && r.chance(1, 8)) {
    long v = Lits()[r.below(Lits().size())] + r.range(-1, 1);
    if (v >= lo && v <= hi) return v;
  }
  return r.range(lo, hi);
}
inline void OnDeath() { if (InCase()) Dump("memory or arithmetic error (see sanitizer report above)"); }
inline void OnExit() { if (InCase()) { Dump("the library ended the process"); std::_Exit(1); } }
inline void OnSig(int s) {
  if (s == SIGALRM) Dump("the operation does not terminate (20 s)");
  else Dump(s == SIGABRT ? "aborted (uncaught exception or failed assertion)" : "crashed");
  std::_Exit(1);
}
typedef void (*CaseFn)(Rng &);

inline int Main(int argc, char **argv, const std::map<std::string, CaseFn> &modes) {
  std::cout.rdbuf(nullptr);   // the code under test prints diagnostics
  double secs = 5;
  long only = -1, maxcases = 1000000000;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--mode") Mode() = argv[++i];
    else if (a == "--seed") Seed() = std::strtoull(argv[++i], nullptr, 10);
    else if (a == "--secs") secs = std::atof(argv[++i]);
    else if (a == "--case") only = std::atol(argv[++i]);
    else if (a == "--max") maxcases = std::atol(argv[++i]);
    else if (a == "--lits") {
      std::stringstream ss(argv[++i]);
      std::string t;
      while (std::getline(ss, t, ',')) if (!t.empty()) Lits().push_back(std::atol(t.c_str()));
    }
  }
  auto it = modes.find(Mode());
  if (it == modes.end()) { std::fprintf(stderr, "unknown mode %s\n", Mode().c_str()); return 3; }
  __sanitizer_set_death_callback(OnDeath);
  std::atexit(OnExit);
  std::signal(SIGABRT, OnSig);
  std::signal(SIGALRM, OnSig);
  auto t0 = std::chrono::steady_clock::now();
  uint64_t n = 0;
  std::set<size_t> seen;
  std::vector<std::string> samples;
  for (uint64_t k = only >= 0 ? (uint64_t) only : 0; (long) n < maxcases; ++k) {
    if ((k & 15) == 0 || only >= 0) {
      double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      if (el > secs) break;
    }
    CaseNo() = k;
    Log().clear();
    Rng r(Seed() * 1000003ull + k * 7919ull + 17);
    alarm(20);
    InCase() = true;
    try {
      it->second(r);
    } catch (const std::exception &ex) {
      Fail(std::string("unexpected exception: ") + ex.what());
    } catch (...) {
      Fail("unexpected exception");
    }
    InCase() = false;
    alarm(0);
    if (!Log().empty() && seen.size() < 2000000) {
      if (seen.insert(std::hash<std::string>()(Log())).second && samples.size() < 2 && Log().size() < 600) samples.push_back(Log());
    }
    ++n;
    if (only >= 0) break;
  }
  for (auto &x : samples) std::printf("SAMPLE\n%sENDSAMPLE\n", x.c_str());
  std::printf("OK cases=%llu checks=%llu distinct=%llu\n", (unsigned long long) n, (unsigned long long) Checks(), (unsigned long long) seen.size());
  return 0;
}
}  // namespace fz
