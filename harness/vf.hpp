// Case registry, PRNG, checker, statistics and watchdog shared by all drivers.
#pragma once
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iomanip>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <vector>
#include <cpl_error.h>
#include <cpl_conv.h>
#ifdef VF_ASAN
#include <sanitizer/common_interface_defs.h>
#endif

namespace vf {

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t hashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) {h ^= c; h *= 1099511628211ULL;}
  return mix(h);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {s += 0x9e3779b97f4a7c15ULL; return mix(s);}
  double u() {return double(next() >> 11) * (1.0 / 9007199254740992.0);}
  double u(double a, double b) {return a + (b - a) * u();}
  // inclusive
  int i(int a, int b) {return a + int(next() % uint64_t(b - a + 1));}
  bool p(double pr) {return u() < pr;}
  double logu(double a, double b) {return std::exp(u(std::log(a), std::log(b)));}
  template <class T> const T& pick(const std::vector<T>& v) {return v[next() % v.size()];}
  double pick(std::initializer_list<double> l) {return *(l.begin() + next() % l.size());}
  std::string pick(std::initializer_list<const char*> l) {return *(l.begin() + next() % l.size());}
  template <class T> void shuffle(std::vector<T>& v) {
    for (size_t k = v.size(); k > 1; --k) {std::swap(v[k - 1], v[next() % k]);}
  }
};

struct Fail {};   // thrown to leave a case after a violation

struct Violation {std::string scen; long idx; std::string key, msg;};

struct Stats {
  uint64_t cases {0};        // cases executed
  uint64_t checks {0};       // monitor decisions taken
  std::map<std::string, uint64_t> counters;   // observed events by kind
  std::unordered_set<uint64_t> sigs;
  std::vector<std::string> samples;
  std::vector<Violation> viol;
  std::map<std::string, uint64_t> scen_cases, scen_checks;
};

inline std::string fmt(double d) {
  char b[64]; snprintf(b, sizeof b, "%.17g", d); return b;
}
template <class... A> std::string cat(A&&... a) {
  std::ostringstream o; o << std::setprecision(17); (o << ... << a); return o.str();
}

struct Case {
  Rng rng;
  std::string scen;
  long idx;
  bool thorough;
  bool verbose;
  Stats& st;
  uint64_t sighash;
  bool trivial {true};
  std::string desc;      // description of the case input (for messages, samples)
  int nviol {0};

  Case(uint64_t seed, const std::string& sc, long i, bool th, bool vb, Stats& s) :
    rng(mix(mix(seed ^ hashStr(sc)) + uint64_t(i) * 0x9e3779b97f4a7c15ULL)),
    scen(sc), idx(i), thorough(th), verbose(vb), st(s), sighash(hashStr(sc)) {}

  // add something observed/used to the case's signature
  void sig(uint64_t v) {sighash = mix(sighash ^ v); trivial = false;}
  void sig(double v) {
    float f = float(v); uint32_t b; memcpy(&b, &f, 4); sig(uint64_t(b));
  }
  void sig(int v) {sig(uint64_t(int64_t(v)));}
  void sig(const std::string& s) {sig(hashStr(s));}
  void count(const std::string& k, uint64_t n = 1) {st.counters[k] += n;}

  void report(const std::string& key, const std::string& msg) {
    std::string m = msg;
    if (!desc.empty()) {m += " | case: " + (desc.size() > 1500 ? desc.substr(0, 1500) + "..." : desc);}
    st.viol.push_back({scen, idx, key, m});
    if (verbose) {fprintf(stderr, "VIOL %s:%ld [%s] %s\n", scen.c_str(), idx, key.c_str(), m.c_str());}
    if (++nviol > 5) {throw Fail{};}
  }
  // stop the case on violation
  [[noreturn]] void fail(const std::string& key, const std::string& msg) {
    report(key, msg);
    throw Fail{};
  }
  template <class... A> bool check(bool ok, const std::string& key, A&&... a) {
    ++st.checks;
    if (!ok) {report(key, cat(std::forward<A>(a)...));}
    return ok;
  }
  template <class... A> void require(bool ok, const std::string& key, A&&... a) {
    ++st.checks;
    if (!ok) {fail(key, cat(std::forward<A>(a)...));}
  }
  template <class... A> bool near(double got, double want, double tol, const std::string& key, A&&... a) {
    ++st.checks;
    bool ok = std::fabs(got - want) <= tol;   // false on NaN
    if (!ok) {report(key, cat("got ", got, " want ", want, " (tol ", tol, ") ", std::forward<A>(a)...));}
    return ok;
  }
  // Runs f(0). GEOS loses whole pieces for roughly one input in 10^4, at isolated
  // floating point values; so when f(0) raises violations f is repeated on inputs
  // perturbed by f's argument (relative), and the violations only stand when some
  // perturbed run raises one too, or when this happens more often than that.
  template <class F> void robust(F f) {
    size_t v0 = st.viol.size();
    int n0 = nviol;
    Rng r0 = rng;
    bool left = false;
    auto g = [&] (double e) {
      try {f(e);} catch (const std::exception& x) {
        report(std::string("exception:") + typeid(x).name(), std::string("unexpected exception: ") + x.what());
      }
    };
    try {g(0.0);} catch (const Fail&) {left = true;}
    if (st.viol.size() == v0) {if (left) {throw Fail{};} return;}
    std::vector<Violation> keep(st.viol.begin() + v0, st.viol.end());
    Rng r1 = rng;
    bool again = false;
    for (double e : {1e-7, -1e-7, 3.3e-7}) {
      st.viol.resize(v0); nviol = n0; rng = r0;
      try {g(e);} catch (const Fail&) {}
      if (st.viol.size() > v0) {again = true; break;}
    }
    st.viol.resize(v0); nviol = n0; rng = r1;
    if (!again && st.counters["numeric_glitch"] < 3 + 0.003 * st.cases) {
      ++st.counters["numeric_glitch"];
      return;
    }
    for (auto& v : keep) {st.viol.push_back(v); ++nviol;}
    throw Fail{};
  }
  // Runs checks f whose failures are put down to the trusted library when `excused`
  // says that the code's result is exactly that library's; counted, and only rarely.
  template <class F> void excusing(bool excused, const char* what, F f) {
    size_t v0 = st.viol.size();
    int n0 = nviol;
    try {f();} catch (const Fail&) {}
    if (st.viol.size() == v0) {return;}
    if (excused && st.counters[what] < 3 + 0.002 * st.cases) {
      ++st.counters[what];
      st.viol.resize(v0); nviol = n0;
      return;
    }
    if (nviol > 5) {throw Fail{};}
  }
  // f must throw a std::exception
  template <class F, class... A> bool throws(F&& f, const std::string& key, const A&... a) {
    const std::string msg = cat(a...);
    ++st.checks;
    try {f();} catch (const std::exception&) {return true;}
    report(key, "no exception: " + msg);
    return false;
  }
};

struct Scenario {std::string name; long nq, nt; std::function<void(Case&)> f;};
inline std::vector<Scenario>& registry() {static std::vector<Scenario> r; return r;}
struct Reg {Reg(const char* n, long nq, long nt, std::function<void(Case&)> f) {registry().push_back({n, nq, nt, f});}};

#define SCENARIO(NAME, NQ, NT) \
  static void scen_##NAME(vf::Case& c); \
  static vf::Reg reg_##NAME(#NAME, NQ, NT, scen_##NAME); \
  static void scen_##NAME(vf::Case& c)

struct Status {char scen[96]; long idx; long done;};
inline Status*& status() {static Status* s = nullptr; return s;}

inline std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {o += '\\'; o += char(ch);}
    else if (ch < 0x20 || ch >= 0x7f) {char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b;}
    else {o += char(ch);}
  }
  return o + "\"";
}

inline void onAlarm(int) {
  static const char m[] = "VF-HANG\n";
  if (write(2, m, sizeof m - 1) < 0) {}
  _exit(97);
}
inline void setBudget(long sec) {
  struct itimerval it {};
  it.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &it, nullptr);
}
inline void quietCPL(CPLErr, CPLErrorNum, const char*) {}

inline void runOne(const Scenario& s, long idx, uint64_t seed, bool th, bool vb, Stats& st, long budget) {
  Case c(seed, s.name, idx, th, vb, st);
  uint64_t ch0 = st.checks;
  if (status()) {
    strncpy(status()->scen, s.name.c_str(), sizeof(status()->scen) - 1);
    status()->idx = idx;
  }
  setBudget(budget);
  try {
    s.f(c);
  } catch (const Fail&) {
  } catch (const std::exception& e) {
    try {c.report(std::string("exception:") + typeid(e).name(), std::string("unexpected exception: ") + e.what());} catch (const Fail&) {}
  } catch (...) {
    try {c.report("exception:unknown", "unexpected non-std exception");} catch (const Fail&) {}
  }
  setBudget(0);
  ++st.cases;
  ++st.scen_cases[s.name];
  st.scen_checks[s.name] += st.checks - ch0;
  if (!c.trivial) {st.sigs.insert(c.sighash);}
  if (st.scen_cases[s.name] <= 2 && !c.desc.empty()) {
    st.samples.push_back(s.name + ":" + std::to_string(idx) + " " + c.desc.substr(0, 400));
  }
  if (status()) {status()->done++;}
}

inline bool dump(const Stats& st, const std::string& out) {
  if (out.empty()) {return true;}
  {
    std::ofstream o(out);
    o << "{\"cases\":" << st.cases << ",\"checks\":" << st.checks << ",\"counters\":{";
    bool f = true;
    for (auto& kv : st.counters) {o << (f ? "" : ",") << jstr(kv.first) << ":" << kv.second; f = false;}
    o << "},\"scen\":{"; f = true;
    for (auto& kv : st.scen_cases) {o << (f ? "" : ",") << jstr(kv.first) << ":[" << kv.second << "," << st.scen_checks.at(kv.first) << "]"; f = false;}
    o << "},\"samples\":["; f = true;
    for (auto& s : st.samples) {o << (f ? "" : ",") << jstr(s); f = false;}
    o << "],\"viol\":["; f = true;
    for (auto& v : st.viol) {
      o << (f ? "" : ",") << "{\"scen\":" << jstr(v.scen) << ",\"idx\":" << v.idx << ",\"key\":" << jstr(v.key) << ",\"msg\":" << jstr(v.msg) << "}"; f = false;
    }
    o << "],\"sigs\":["; f = true;
    for (auto s : st.sigs) {o << (f ? "" : ",") << "\"" << std::hex << s << std::dec << "\""; f = false;}
    o << "]}\n";
    o.close();
    if (!o) {return false;}
  }
  return true;
}
struct Dying {const Stats* st; std::string out;};
inline Dying& dying() {static Dying d {nullptr, ""}; return d;}
inline void onDeath() {
  if (dying().st) {const Stats* s = dying().st; dying().st = nullptr; dump(*s, dying().out);}
}

inline int driverMain(int argc, char** argv) {
  bool th = false, vb = false;
  uint64_t seed = 1;
  long k = 0, n = 1, budget = 20;
  double scale = 1.0;
  std::string only, out, stat, from;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] {return std::string(i + 1 < argc ? argv[++i] : "");};
    if (a == "--tier") {th = val() == "thorough";}
    else if (a == "--seed") {seed = strtoull(val().c_str(), nullptr, 10);}
    else if (a == "--shard") {std::string v = val(); k = atol(v.c_str()); n = atol(v.c_str() + v.find('/') + 1);}
    else if (a == "--only") {only = val();}
    else if (a == "--from") {from = val();}   // skip everything up to and including scen:idx
    else if (a == "--out") {out = val();}
    else if (a == "--status") {stat = val();}
    else if (a == "--budget") {budget = atol(val().c_str());}
    else if (a == "--scale") {scale = atof(val().c_str());}
    else if (a == "-v") {vb = true;}
    else if (a == "--list") {
      for (auto& s : registry()) {printf("%s %ld %ld\n", s.name.c_str(), s.nq, s.nt);}
      return 0;
    } else {fprintf(stderr, "bad argument %s\n", a.c_str()); return 3;}
  }
  CPLSetErrorHandler(quietCPL);
  signal(SIGPROF, onAlarm);
  if (!stat.empty()) {
    int fd = open(stat.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Status)) != 0) {perror("status"); return 3;}
    status() = static_cast<Status*>(mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  }
  static Stats st;
  dying().st = &st; dying().out = out;
#ifdef VF_ASAN
  __sanitizer_set_death_callback(onDeath);
#endif
  bool skipping = !from.empty();
  std::string fs = skipping ? from.substr(0, from.rfind(':')) : "";
  long fi = skipping ? atol(from.c_str() + from.rfind(':') + 1) : 0;
  for (auto& s : registry()) {
    if (!only.empty()) {
      if (only.substr(0, only.rfind(':')) != s.name) {continue;}
      std::string ix = only.substr(only.rfind(':') + 1);
      if (ix != "*") {runOne(s, atol(ix.c_str()), seed, th, vb, st, budget); continue;}
    }
    if (skipping && s.name != fs) {continue;}
    long N = th ? s.nt : s.nq;
    N = std::max(1L, long(N * scale));
    for (long i = 0; i < N; ++i) {
      if (i % n != k) {continue;}
      if (skipping && i <= fi) {continue;}
      runOne(s, i, seed, th, vb, st, budget);
      if (st.viol.size() > 60) {break;}
    }
    skipping = false;
  }
  if (!dump(st, out)) {return 3;}
  // _exit: nothing of interest in static destructors of third-party libraries
  fflush(nullptr);
  _exit(0);
}
}  // namespace vf

#define VF_MAIN int main(int argc, char** argv) {return vf::driverMain(argc, argv);}
