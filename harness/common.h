// Case runner shared by all harnesses. A harness registers suites; a suite is
// a numbered list of cases, each fully determined by (seed, suite, number).
#pragma once
#include <signal.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  // uniform in [0, n)
  uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
  // uniform in [lo, hi]
  uint64_t in(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
  bool chance(int percent) { return below(100) < (uint64_t)percent; }
};

inline uint64_t mix(uint64_t h, uint64_t x) {
  Rng r(h ^ (x * 0x9e3779b97f4a7c15ull));
  return r.next();
}
inline uint64_t hashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

// Own stream to standard output; the code under test logs to std::cout, which main() silences.
inline std::ostream& vout() {
  static std::ostream o(std::cout.rdbuf());
  return o;
}
// Texts of failures that are recorded as known findings, separated by '\x1e'.
inline const std::vector<std::string>& knownTexts() {
  static std::vector<std::string> v = [] {
    std::vector<std::string> r;
    const char* e = getenv("VH_KNOWN");
    std::string cur;
    for (const char* p = e ? e : ""; *p; ++p) {
      if (*p == '\x1e') r.push_back(cur), cur.clear();
      else cur += *p;
    }
    if (!cur.empty()) r.push_back(cur);
    return r;
  }();
  return v;
}
// Removes the known ones from the problems of a case and reports each once.
inline void dropKnown(std::vector<std::string>& problems) {
  static std::set<std::string> seen;
  std::vector<std::string> rest;
  for (auto& p : problems) {
    const std::string* hit = nullptr;
    for (const auto& k : knownTexts())
      if (p.find(k) != std::string::npos) hit = &k;
    if (!hit) rest.push_back(p);
    else if (seen.insert(*hit).second) vout() << "KNOWN " << *hit << "\n" << std::flush;
  }
  problems = rest;
}
struct Case {
  uint64_t number;
  Rng rng;
  bool verbose;
  std::ostringstream out;   // description, only filled when verbose
  std::vector<std::string> problems;
  bool trivial = false;
  uint64_t h = 1;
  Case(uint64_t n, uint64_t seed, bool v) : number(n), rng(seed), verbose(v) {}
  template <typename T>
  Case& log(const T& t) {
    if (verbose) {
      std::ostringstream o;
      o << t;
      out << o.str();
      if (echo) {
        vout() << o.str() << std::flush;
      }
    }
    return *this;
  }
  bool echo = false;
  void key(uint64_t x) { h = mix(h, x); }
  void fail(const std::string& what) { problems.push_back(what); }
  void check(bool ok, const std::string& what) {
    if (!ok) fail(what);
  }
};

struct Suite {
  std::string name;
  std::string rule;
  bool exhaustive;
  uint64_t quick, thorough;
  std::function<void(Case&)> run;
};

inline std::vector<Suite>& suites() {
  static std::vector<Suite> s;
  return s;
}
inline int addSuite(Suite s) {
  suites().push_back(std::move(s));
  return 0;
}

inline std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r + "\"";
}

inline std::string& statusText() {
  static std::string s;
  return s;
}
inline int& statusFd() {
  static int fd = -1;
  return fd;
}

inline void onSignal(int sig) {
  char b[64];
  int n = snprintf(b, sizeof b, "\nSIGNAL %d in ", sig);
  (void)!write(1, b, n);
  (void)!write(1, statusText().data(), statusText().size());
  (void)!write(1, "\n", 1);
  _exit(3);
}

inline void runOne(const Suite& s, Case& c) {
  try {
    s.run(c);
  } catch (const std::exception& e) {
    c.fail(std::string("unexpected exception: ") + e.what());
  } catch (...) {
    c.fail("unexpected exception of unknown type");
  }
}

inline uint64_t caseSeed(uint64_t seed, const std::string& suite, uint64_t k) {
  return mix(mix(seed + 17, hashStr(suite)), k);
}

inline int main(int argc, char** argv) {
  vout();
  std::cout.rdbuf(nullptr);
  uint64_t seed = 1, slice = 0, slices = 1;
  bool thorough = false;
  std::string outFile, onlySuite;
  long long onlyCase = -1;
  unsigned caseTimeout = 60;
  double scale = 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--thorough") thorough = true;
    else if (a == "--slice") slice = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--slices") slices = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--out") outFile = val();
    else if (a == "--suite") onlySuite = val();
    else if (a == "--case") onlyCase = strtoll(val().c_str(), nullptr, 10);
    else if (a == "--scale") scale = strtod(val().c_str(), nullptr);
    else if (a == "--case-timeout") caseTimeout = strtoul(val().c_str(), nullptr, 10);
  }
  signal(SIGALRM, onSignal);
#ifndef __SANITIZE_ADDRESS__
  signal(SIGSEGV, onSignal);
  signal(SIGFPE, onSignal);
  signal(SIGBUS, onSignal);
#endif
  signal(SIGABRT, onSignal);
  if (onlyCase >= 0) {
    for (const auto& s : suites()) {
      if (s.name != onlySuite) continue;
      Case c(onlyCase, caseSeed(seed, s.name, onlyCase), true);
      c.echo = true;
      statusText() = "suite=" + s.name + " case=" + std::to_string(onlyCase);
      alarm(caseTimeout);
      runOne(s, c);
      alarm(0);
      for (const auto& p : c.problems) vout() << "FAIL: " << p << "\n";
      vout() << (c.problems.empty() ? "case holds\n" : "case FAILS\n");
      return c.problems.empty() ? 0 : 1;
    }
    vout() << "no such suite\n";
    return 2;
  }
  int failures = 0;
  std::ostringstream js;
  js << "[";
  bool first = true;
  for (const auto& s : suites()) {
    if (!onlySuite.empty() && s.name != onlySuite) continue;
    uint64_t n = thorough ? s.thorough : s.quick;
    if (!s.exhaustive) n = (uint64_t)(n * scale);
    uint64_t evals = 0;
    std::unordered_set<uint64_t> distinct;
    std::string sample;
    for (uint64_t k = slice; k < n; k += slices) {
      statusText() = "suite=" + s.name + " case=" + std::to_string(k);
      Case c(k, caseSeed(seed, s.name, k), false);
      alarm(caseTimeout);
      runOne(s, c);
      alarm(0);
      dropKnown(c.problems);
      ++evals;
      if (!c.trivial) distinct.insert(c.h);
      bool wantSample = sample.empty() && !c.trivial && k > n / 3;
      if (!c.problems.empty() || wantSample) {
        Case v(k, caseSeed(seed, s.name, k), true);
        alarm(caseTimeout);
        runOne(s, v);
        alarm(0);
        std::string d = v.out.str();
        if (wantSample) sample = "case " + std::to_string(k) + ": " + d.substr(0, 600);
        if (!c.problems.empty()) {
          vout() << "FAIL suite=" << s.name << " case=" << k << " seed=" << seed << "\n"
                    << (d.size() > 6000 ? d.substr(0, 6000) + "...\n" : d) << "\n";
          for (const auto& p : c.problems) vout() << "  problem: " << p << "\n";
          vout() << std::flush;
          if (++failures >= 3) goto done;
        }
      }
    }
    if (!first) js << ",";
    first = false;
    js << "{\"suite\":" << jstr(s.name) << ",\"rule\":" << jstr(s.rule)
       << ",\"exhaustive\":" << (s.exhaustive ? "true" : "false") << ",\"evaluations\":" << evals
       << ",\"distinct\":" << distinct.size() << ",\"sample\":" << jstr(sample) << "}";
  }
done:
  js << "]";
  if (!outFile.empty()) {
    std::ofstream f(outFile);
    f << js.str();
  }
  vout() << "DONE failures=" << failures << std::endl;
  return failures ? 1 : 0;
}

}  // namespace vh

#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
// SUITE(name, exhaustive, quickCases, thoroughCases, rule) { body using c }
#define SUITE(NAME, EXH, QUICK, THOROUGH, RULE)                            \
  static void VH_CAT(suite_, NAME)(vh::Case & c);                          \
  static int VH_CAT(reg_, NAME) = vh::addSuite(                            \
      {#NAME, RULE, EXH, QUICK, THOROUGH, VH_CAT(suite_, NAME)});          \
  static void VH_CAT(suite_, NAME)(vh::Case & c)
