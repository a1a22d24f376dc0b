// Property-based testing engine: choice-sequence generation (Hypothesis style),
// forked workers with fixed case counts, crash/hang isolation, shrinking, replay.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <functional>
#include <limits>
#include <algorithm>
#include <stdexcept>

namespace eng {

struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };
struct Discard {};           // case outside the domain (counted, never a verdict)

inline uint64_t mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31);
}

// Every random decision of a case is one bounded integer drawn here.
// In replay mode the recorded integers are used (missing ones are 0), so a case
// is a pure function of its choice sequence and shrinking works on the sequence.
struct Src {
  std::vector<uint64_t> rec;      // what was drawn
  std::vector<uint64_t> in;       // what to replay
  bool replay = false;
  size_t pos = 0;
  uint64_t st = 0;
  explicit Src(uint64_t seed) : st(seed) {}
  explicit Src(const std::vector<uint64_t>& v) : in(v), replay(true) {}
  uint64_t next() { st += 0x9E3779B97F4A7C15ull; return mix(st); }
  uint64_t draw(uint64_t hi) {     // uniform on 0..hi
    uint64_t v;
    if (replay) { v = pos < in.size() ? in[pos] : 0; if (v > hi) v = hi; }
    else v = hi == UINT64_MAX ? next() : next() % (hi + 1);
    pos++; rec.push_back(v);
    if (mirror && mirror[0] + 1 < mirror_cap) { mirror[mirror[0] + 1] = v; mirror[0]++; }
    return v;
  }
  static uint64_t* mirror;        // shared page that survives a crash of the case
  static size_t mirror_cap;
  // inclusive integer range; shrinks towards lo
  long range(long lo, long hi) { if (hi <= lo) return lo; return lo + (long)draw((uint64_t)(hi - lo)); }
  bool chance(int pct) { return (int)draw(99) >= 100 - pct; }  // shrinks to false
  size_t pick(size_t n) { return (size_t)draw(n - 1); }
  template <class T> const T& oneof(const std::vector<T>& v) { return v[pick(v.size())]; }
  // weighted index; shrinks to 0
  int weighted(std::initializer_list<int> w) {
    int tot = 0; for (int x : w) tot += x;
    int r = (int)draw(tot - 1), i = 0;
    for (int x : w) { if (r < x) return i; r -= x; i++; }
    return 0;
  }
  // signed value on a coarse grid in [-1,1]*mag; shrinks to 0 then small positive
  double val(double mag = 1.0, int steps = 64) {
    long v = (long)draw(2 * steps); // 0, +1,-1,+2,-2...
    long k = (v + 1) / 2; return mag * ((v & 1) ? k : -k) / steps;
  }
  double nz(double mag = 1.0, int steps = 64) {   // non-zero
    long v = (long)draw(2 * steps - 1); long k = v / 2 + 1;
    return mag * ((v & 1) ? -k : k) / steps;
  }
  double pos_in(double lo, double hi, int steps = 64) { return lo + (hi - lo) * (double)draw(steps) / steps; }
  double logpos(double lo10, double hi10, int steps = 64) { return std::pow(10.0, pos_in(lo10, hi10, steps)); }
  std::vector<long> perm(long n) {  // shrinks to identity
    std::vector<long> p(n); for (long i = 0; i < n; i++) p[i] = i;
    for (long i = 0; i + 1 < n; i++) { long j = i + (long)draw((uint64_t)(n - 1 - i)); std::swap(p[i], p[j]); }
    return p;
  }
};

struct Ctx {
  Src s;
  bool thorough = false;
  bool collecting = true;
  std::map<std::string, uint64_t> labels;
  bool nontriv = false; uint64_t nthash = 0;
  std::ostringstream note;       // human readable case
  bool want_note = false;
  std::string known;             // KNOWN-FINDING text raised in this case
  uint64_t subevals = 0;
  Ctx(const Src& src) : s(src) { note.precision(17); }
  void label(const std::string& l) { labels[l]++; }
  void label(const std::string& l, bool c) { if (c) labels[l]++; }
  void nontrivial(uint64_t h) { nontriv = true; nthash ^= mix(h + 0x1234567); }
  [[noreturn]] void fail(const std::string& m) { throw Fail(m); }
  void check(bool c, const std::string& m) { if (!c) throw Fail(m); }
};

template <class... A> std::string fmt(const char* f, A... a) {
  char b[4096]; snprintf(b, sizeof b, f, a...); return b;
}
inline std::string fmt(const char* f) { return f; }

struct Hash {
  uint64_t h = 0xcbf29ce484222325ull;
  void add(uint64_t x) { h = mix(h ^ x); }
  void addd(double d) { uint64_t u; memcpy(&u, &d, 8); add(u); }
};

struct Prop {
  const char* id;
  const char* rule;                 // how cases are made, what is non-trivial
  long quick, thorough;             // number of cases
  std::function<void(Ctx&)> run;
  std::vector<std::string> assumptions;
  std::function<void(Ctx&)> fixed = nullptr;   // deterministic regression cases run first (may be null)
  int cpu_limit = 60;               // seconds of CPU one case may take before it counts as a hang
  long min_nontrivial_pct = 20;     // generator health
  bool hang_is_violation = true;
};

// is this finding listed in known_findings.txt ("finding: property=<id> <key> ...")?
bool listed(const std::string& prop, const std::string& key);
int engine_main(int argc, char** argv, const Prop& p);

}  // namespace eng
