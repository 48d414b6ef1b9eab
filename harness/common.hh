// Native contract harness: evaluates the contracts of a property on the real code (headers of /repo) for
// concrete inputs.  Every case is determined by (seed, test, index), so that it can be replayed alone.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <unistd.h>
#include <sys/wait.h>
#include <time.h>
#include <cmath>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <chrono>
#include <limits>
#include <cstring>
#include <algorithm>

namespace vh {
  struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x) {}
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    int in(int lo, int hi) { return lo + static_cast<int>(next() % static_cast<uint64_t>(hi - lo + 1)); }
    bool chance(int percent) { return in(0, 99) < percent; }
    template<class T> const T &pick(const std::vector<T> &v) { return v.at(next() % v.size()); }
  };
  struct Skip {};                        // the generated input is outside the domain of the contract
  struct Failure { std::string msg; };
  struct Test { std::string prop, name; int weight; std::function<void(Rng &, long)> fn; };
  inline std::vector<Test> &tests() { static std::vector<Test> t; return t; }
  inline std::map<std::string, double> &isolated() { static std::map<std::string, double> m; return m; }   // test -> seconds per case; longer cases are skipped
  struct Iso { Iso(const char *n, double s) { isolated()[n] = s; } };
#define VISOLATE(prop, name, secs) static vh::Iso vi_##prop##_##name(#name, secs);
  struct Reg { Reg(const char *p, const char *n, int w, std::function<void(Rng &, long)> f) { tests().push_back({p, n, w, std::move(f)}); } };
  // weight: relative share of the time budget
#define VTEST(prop, name, weight) static void vt_##prop##_##name(vh::Rng &rng, long index); \
  static vh::Reg vr_##prop##_##name(#prop, #name, weight, vt_##prop##_##name); \
  static void vt_##prop##_##name([[maybe_unused]] vh::Rng &rng, [[maybe_unused]] long index)

  // description of the input of the running case
  inline std::string &input() { static std::string s; return s; }
  inline char *crashbuf() { static char b[65536]; return b; }
  inline void note(const std::string &s) { input() += s; input() += "\n"; std::strncpy(crashbuf(), input().c_str(), 65535); }
  [[noreturn]] inline void fail(const std::string &m) { throw Failure{m}; }
#define VCHECK(cond, msg) do { if (!(cond)) { std::ostringstream vo_; vo_ << msg; vh::fail(std::string("violated: ") + #cond + " :: " + vo_.str()); } } while (0)
  inline char *curname() { static char b[256]; return b; }
  inline long &curindex() { static long i = 0; return i; }
  inline bool &limited() { static bool b = false; return b; }
  inline void onsig(int sig) {
    static char buf[70000];
    const char *what = sig == SIGALRM ? "the call did not return within 60 s" : sig == SIGABRT ? "abort (assertion or uncaught exception)" : sig == SIGSEGV ? "segmentation fault" : sig == SIGFPE ? "arithmetic exception" : "crash";
    int n = snprintf(buf, sizeof buf, "\nFAIL test=%s index=%ld\nMESSAGE %s\nINPUT\n%s\nEND\n", curname(), curindex(), what, crashbuf());
    fflush(stdout);
    ssize_t r = write(1, buf, n); (void) r;
    _exit(1);
  }
  inline uint64_t hash(const std::string &s) { uint64_t h = 1469598103934665603ULL; for (char c: s) { h ^= static_cast<unsigned char>(c); h *= 1099511628211ULL; } return h; }

  inline int run(int argc, char **argv) {
    uint64_t seed = 1; double budget = 5; std::string only, prop; long idx = -1; long maxcases = 1000000000; 
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      auto nxt = [&] { return std::string(argv[++i]); };
      if (a == "--seed") seed = std::stoull(nxt());
      else if (a == "--budget") budget = std::stod(nxt());
      else if (a == "--test") only = nxt();
      else if (a == "--prop") prop = nxt();
      else if (a == "--index") idx = std::stol(nxt());
      else if (a == "--max") maxcases = std::stol(nxt());
    }
    for (int s: {SIGABRT, SIGSEGV, SIGFPE, SIGALRM, SIGBUS}) signal(s, onsig);
    int totalw = 0;
    for (auto &t: tests()) if ((prop.empty() || t.prop == prop) && (only.empty() || t.name == only)) totalw += t.weight;
    int rc = 0;
    for (auto &t: tests()) {
      if (!((prop.empty() || t.prop == prop) && (only.empty() || t.name == only))) continue;
      auto start = std::chrono::steady_clock::now();
      double share = budget * t.weight / totalw;
      long n = 0, skipped = 0; bool failed = false;
      for (long i = (idx >= 0 ? idx : 0); idx >= 0 ? i == idx : i < maxcases; i++) {
        if (idx < 0 && (i & 7) == 0 && i >= 200 && std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > share) break;
        if (idx < 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > 3 * share + 2) break;
        Rng rng(hash(t.name) ^ (seed * 0x9e3779b97f4a7c15ULL) ^ (static_cast<uint64_t>(i) * 0xd1342543de82ef95ULL));
        rng.next();
        input().clear(); crashbuf()[0] = 0;
        std::snprintf(curname(), 255, "%s", t.name.c_str()); curindex() = i;
        alarm(60);
        auto iso = isolated().find(t.name); pid_t child = -1;
        if (iso != isolated().end() && idx < 0) {
          std::cout.flush(); fflush(stdout); child = fork();
          if (child > 0) {
            alarm(0); int st = 0; auto t0 = std::chrono::steady_clock::now(); bool killed = false; timespec nap{0, 50000};
            while (waitpid(child, &st, WNOHANG) == 0) {
              if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > iso->second) { kill(child, SIGKILL); waitpid(child, &st, 0); killed = true; break; }
              nanosleep(&nap, nullptr); if (nap.tv_nsec < 2000000) nap.tv_nsec += nap.tv_nsec / 4;
            }
            if (killed || (WIFEXITED(st) && WEXITSTATUS(st) == 3)) skipped++; else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) n++; else { failed = true; rc = 1; break; }
            continue;
          }
        }
        try { t.fn(rng, i); n++; if (child == 0) _exit(0); }
        catch (const Skip &) { skipped++; if (child == 0) _exit(3); }
        catch (const Failure &f) {
          std::cout << "\nFAIL test=" << t.name << " index=" << i << "\nMESSAGE " << f.msg << "\nINPUT\n" << input() << "END" << std::endl;
          failed = true; rc = 1;
        } catch (const std::exception &e) {
          std::cout << "\nFAIL test=" << t.name << " index=" << i << "\nMESSAGE uncaught exception: " << e.what() << "\nINPUT\n" << input() << "END" << std::endl;
          failed = true; rc = 1;
        }
        alarm(0);
        if (child == 0) { std::cout.flush(); _exit(1); }
        if (failed) break;
      }
      std::cout << "TEST " << t.prop << " " << t.name << " cases=" << n << " skipped=" << skipped << (failed ? " FAILED" : " ok") << std::endl;
    }
    return rc;
  }
  template<class T> std::string str(const std::vector<T> &v) { std::ostringstream o; o << "["; for (size_t i = 0; i < v.size(); i++) o << (i ? ", " : "") << v[i]; o << "]"; return o.str(); }
}
#define VMAIN int main(int argc, char **argv) { return vh::run(argc, argv); }
