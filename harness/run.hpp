// Case runner shared by the monitors: every monitor registers scenarios, each of
// which executes one randomly generated case and reports what it observed.
#pragma once
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>

#include "spec.hpp"

namespace H {
struct Violation { std::string key, msg; };

struct Ctx {
  uint64_t seed = 1; long id = 0; bool thorough = false; bool verbose = false;
  std::string scen;
  std::map<std::string, double> cnt;     // what the monitor observed
  std::vector<Violation> viol;
  bool nontrivial = false; uint64_t sig = 0; std::string sample;
  Rng rng() const { return Rng(mix(seed, uint64_t(id) * 2654435761ull + 17)); }
  void add(const char* k, double v = 1) { cnt[k] += v; }
  void mx(const char* k, double v) { std::string n = std::string("max_") + k; auto it = cnt.find(n); if (it == cnt.end() || it->second < v) cnt[n] = v; }
  // the case distinguishes itself by `h`; only non-trivial cases are counted
  void mark(uint64_t h) { nontrivial = true; sig = mix(sig, h); }
  void fail(const std::string& key, const char* f, ...) {
    if (viol.size() > 4) return;
    char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    viol.push_back({key, b});
  }
  bool failed() const { return !viol.empty(); }
};
typedef void (*CaseFn)(Ctx&);
struct Scenario { const char* name; CaseFn fn; int quick; int thorough; };
// each monitor defines these
extern const char* kProperty;
extern const std::vector<Scenario> kScenarios;
extern const char* kRule;

inline std::string fmt(const char* f, ...) { char b[4000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
}  // namespace H
