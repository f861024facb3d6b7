#include <signal.h>
#include <sys/time.h>
#include <unistd.h>
#include <cstring>
#include <iostream>
#include <chrono>
#include "run.hpp"
using namespace H;

static char g_prog[256]; static int g_fd = -1;
static void put(const char* tag, const char* s) { char b[600]; int n = snprintf(b, sizeof b, "%s %s\n", tag, s); if (write(g_fd, b, n) < 0) {} }
static void on_prof(int) { put("HANG", g_prog); _exit(77); }
static void on_crash(int sg) { char b[300]; snprintf(b, sizeof b, "%s signal=%d", g_prog, sg); put("CRASH", b); signal(sg, SIG_DFL); raise(sg); }
static std::string esc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += char(c); } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += char(c); } return o; }

int main(int argc, char** argv) {
  uint64_t seed = 1; long start = 0, step = 1, one = -1; double tlimit = 1e9, cpu = 20; bool thorough = false, verbose = false; double scale = 1;
  std::string out = "/dev/stdout", only;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--seed") seed = std::stoull(nx()); else if (a == "--start") start = std::stol(nx()); else if (a == "--step") step = std::stol(nx());
    else if (a == "--case") one = std::stol(nx()); else if (a == "--scenario") only = nx(); else if (a == "--time") tlimit = std::stod(nx()); else if (a == "--cpu") cpu = std::stod(nx());
    else if (a == "--thorough") thorough = true; else if (a == "--out") out = nx(); else if (a == "--verbose") verbose = true; else if (a == "--scale") scale = std::stod(nx());
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  FILE* f = out == "/dev/stdout" ? stdout : fopen(out.c_str(), "w"); if (!f) return 2;
  g_fd = fileno(f);
  signal(SIGPROF, on_prof);
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define NO_CRASH_HANDLER
#endif
#endif
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(NO_CRASH_HANDLER)
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, on_crash);
#endif
  auto t0 = std::chrono::steady_clock::now();
  std::map<std::string, double> tot; std::map<std::string, long> nscen; long evals = 0, nontriv = 0, nviol = 0; bool timeup = false;
  std::vector<uint64_t> sigs;
  for (auto& sc : kScenarios) {
    if (!only.empty() && only != sc.name) continue;
    long n = long((thorough ? sc.thorough : sc.quick) * scale + 0.5);
    // every shard takes its stride, interleaved over scenarios
    for (long id = one >= 0 ? one : start; one >= 0 ? id == one : id < n; id += one >= 0 ? 1 : step) {
      double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      if (el > tlimit) { timeup = true; break; }
      Ctx c; c.seed = mix(seed, std::hash<std::string>()(sc.name)); c.id = id; c.thorough = thorough; c.verbose = verbose; c.scen = sc.name;
      snprintf(g_prog, sizeof g_prog, "%s %ld", sc.name, id);
      struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = long(cpu); tv.it_value.tv_usec = 0; setitimer(ITIMER_PROF, &tv, nullptr);
      try { sc.fn(c); }
      catch (std::exception& e) { c.fail("uncaught", "exception escaped: %.300s", e.what()); }
      catch (...) { c.fail("uncaught", "unknown exception escaped"); }
      ++evals; nscen[sc.name]++;
      for (auto& kv : c.cnt) { double& d = tot[kv.first]; if (kv.first.rfind("max_", 0) == 0) d = std::max(d, kv.second); else d += kv.second; }
      if (c.nontrivial) { ++nontriv; sigs.push_back(c.sig); }
      if (!c.sample.empty() && (nscen[sc.name] <= 1 || one >= 0)) { fprintf(f, "SAMPLE {\"case\":\"%s %ld\",\"what\":\"%s\"}\n", sc.name, id, esc(c.sample).c_str()); }
      for (auto& v : c.viol) { ++nviol; fprintf(f, "VIOL {\"scenario\":\"%s\",\"id\":%ld,\"key\":\"%s\",\"msg\":\"%s\"}\n", sc.name, id, esc(v.key).c_str(), esc(v.msg).c_str()); fflush(f); }
      if (nviol > 30) break;
    }
    if (nviol > 30 || timeup) break;
  }
  struct itimerval tv; memset(&tv, 0, sizeof tv); setitimer(ITIMER_PROF, &tv, nullptr);
  for (auto s : sigs) fprintf(f, "SIG %llx\n", (unsigned long long)s);
  fprintf(f, "END {\"evaluations\":%ld,\"nontrivial\":%ld,\"timeup\":%d,\"rule\":\"%s\",\"counters\":{", evals, nontriv, int(timeup), esc(kRule).c_str());
  bool first = true; for (auto& kv : tot) { fprintf(f, "%s\"%s\":%.6g", first ? "" : ",", kv.first.c_str(), std::isfinite(kv.second) ? kv.second : 1e300); first = false; }
  fprintf(f, "},\"scenarios\":{"); first = true; for (auto& kv : nscen) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", kv.first.c_str(), kv.second); first = false; }
  fprintf(f, "}}\n"); fflush(f);
  // results are out: skip static destruction problems
  _exit(nviol ? 1 : 0);
}
