// Choice-sequence property-based testing core used by every harness in /verif.
//
// A property is a function of a Src.  Everything random it does goes through Src::draw, which records
// the drawn integers; a failing case is therefore a vector of integers.  Shrinking edits that vector
// (delete blocks, zero, halve, decrement), replay feeds it back.  No other randomness is used.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <algorithm>
#include <cassert>
#include <chrono>
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#ifdef PBT_MPI
#include <mpi.h>
#endif

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

inline uint64_t SplitMix(uint64_t &x) {
  uint64_t z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t HashStr(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

// ------------------------------------------------------------------ crash record (shared mmap)
struct CrashRec {
  char magic[8];
  char prop[64];
  uint64_t running;      // 1 while a case runs
  uint64_t hang;         // set by the CPU watchdog
  uint64_t n;
  uint64_t choices[1 << 16];
};
inline CrashRec *&crash_rec() { static CrashRec *p = nullptr; return p; }

class Src {
 public:
  explicit Src(uint64_t seed) : rng_(seed) {}
  explicit Src(std::vector<uint64_t> replay) : replay_(std::move(replay)), is_replay_(true) {}

  // uniform in [0, bound); bound==0 means the full 64-bit range
  uint64_t draw(uint64_t bound = 0) {
    uint64_t v;
    if (is_replay_) {
      v = pos_ < replay_.size() ? replay_[pos_] : 0;
      if (bound && v >= bound) v %= bound;
    } else {
      v = SplitMix(rng_);
      if (bound) v = static_cast<uint64_t>((static_cast<unsigned __int128>(v) * bound) >> 64);
    }
    ++pos_;
    rec_.push_back(v);
    if (CrashRec *c = crash_rec()) {
      if (c->n < (sizeof(c->choices) / sizeof(uint64_t))) c->choices[c->n++] = v;
    }
    return v;
  }
  // inclusive range, shrinks to lo
  int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo) + 1)); }
  size_t urange(size_t lo, size_t hi) { return static_cast<size_t>(range((int64_t) lo, (int64_t) hi)); }
  bool boolean() { return draw(2) == 1; }
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }  // shrinks to false
  template<class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
  size_t freq(std::initializer_list<unsigned> w) {
    unsigned tot = 0; for (unsigned x : w) tot += x;
    uint64_t r = draw(tot); size_t i = 0;
    for (unsigned x : w) { if (r < x) return i; r -= x; ++i; }
    return 0;
  }
  double unit() { return static_cast<double>(draw(1ull << 53)) / static_cast<double>(1ull << 53); }  // [0,1)
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  // magnitude 10^[e_lo,e_hi], positive
  double logreal(double e_lo, double e_hi) { return std::pow(10.0, real(e_lo, e_hi)); }
  // a "nice mix" finite signed double: small integers, dyadics, uniform, wide magnitude
  double mixed(double e_lo = -6, double e_hi = 6) {
    switch (freq({4, 2, 4, 3})) {
      case 0: return static_cast<double>(sgn(draw(9)));
      case 1: return static_cast<double>(sgn(draw(257))) / 16.0;
      case 2: return real(-1, 1);
      default: { double m = logreal(e_lo, e_hi); return boolean() ? -m : m; }
    }
  }
  std::complex<double> cmixed(double e_lo = -3, double e_hi = 3) { double a = mixed(e_lo, e_hi), b = mixed(e_lo, e_hi); return {a, b}; }

  // bookkeeping
  void label(const std::string &l) { labels_.insert(l); }
  void nontrivial(bool b = true) { if (b) nontrivial_ = true; }
  template<class... A> void note(const A &...a) {
    if (desc_.size() > 4000) return;
    std::ostringstream o; o << std::setprecision(17); (void) std::initializer_list<int>{((o << a), 0)...};
    desc_ += o.str();
  }
  // deferred failure, for code between MPI collectives
  template<class... A> void fail_later(const A &...a) {
    if (!deferred_.empty()) return;
    std::ostringstream o; o << std::setprecision(17); (void) std::initializer_list<int>{((o << a), 0)...};
    deferred_ = o.str(); if (deferred_.empty()) deferred_ = "failure";
  }
  const std::string &deferred() const { return deferred_; }

  std::vector<uint64_t> rec_;
  std::set<std::string> labels_;
  bool nontrivial_ = false;
  std::string desc_;
 private:
  static int64_t sgn(uint64_t z) { return (z & 1) ? -static_cast<int64_t>((z + 1) >> 1) : static_cast<int64_t>(z >> 1); }
  std::vector<uint64_t> replay_;
  bool is_replay_ = false;
  uint64_t rng_ = 0;
  size_t pos_ = 0;
  std::string deferred_;
};

template<class... A> [[noreturn]] inline void Fail(const A &...a) {
  std::ostringstream o; o << std::setprecision(17); (void) std::initializer_list<int>{((o << a), 0)...};
  throw Failure{o.str()};
}
#define PBT_ASSERT(cond, ...) do { if (!(cond)) ::pbt::Fail(#cond, " | ", __VA_ARGS__); } while (0)
#define PBT_LATER(s, cond, ...) do { if (!(cond)) (s).fail_later(#cond, " | ", __VA_ARGS__); } while (0)

inline bool close(double a, double b, double rel, double abs_ = 0) {
  if (a == b) return true;
  if (!std::isfinite(a) || !std::isfinite(b)) return false;
  return std::abs(a - b) <= abs_ + rel * std::max(std::abs(a), std::abs(b));
}
inline bool close(std::complex<double> a, std::complex<double> b, double rel, double abs_ = 0) {
  return std::abs(a - b) <= abs_ + rel * std::max(std::abs(a), std::abs(b));
}
inline std::string show(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
template<class T> std::string show(const std::vector<T> &v) {
  std::ostringstream o; o << std::setprecision(17) << "[";
  for (size_t i = 0; i < v.size(); ++i) { if (i) o << ","; o << v[i]; }
  o << "]"; return o.str();
}

struct Prop {
  std::string name;
  std::function<void(Src &)> fn;
  size_t quick, thorough;   // case counts
  std::string rule;
};
inline std::vector<Prop> &props() { static std::vector<Prop> v; return v; }
struct Reg { Reg(const char *n, std::function<void(Src &)> f, size_t q, size_t t, const char *rule) { props().push_back({n, std::move(f), q, t, rule}); } };
// quick / thorough: number of generated cases; rule: what makes a case non-trivial
#define PBT_PROP(name, quick, thorough, rule) \
  static void name(::pbt::Src &s); \
  static ::pbt::Reg reg_##name(#name, name, quick, thorough, rule); \
  static void name(::pbt::Src &s)

inline int my_rank() {
#ifdef PBT_MPI
  int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); return r;
#else
  return 0;
#endif
}

struct Outcome { bool failed = false, discarded = false; std::string msg; };

inline void cpu_watchdog(int secs) {
  itimerval t{}; t.it_value.tv_sec = secs; setitimer(ITIMER_PROF, &t, nullptr);
}
inline void on_prof(int) { if (crash_rec()) crash_rec()->hang = 1; _exit(71); }

inline int &watchdog_secs() { static int w = 30; return w; }

inline Outcome RunOne(const Prop &p, Src &s) {
  Outcome o;
  if (CrashRec *c = crash_rec()) {
    std::snprintf(c->prop, sizeof(c->prop), "%s", p.name.c_str());
    c->n = 0; c->hang = 0; c->running = 1;
  }
  cpu_watchdog(watchdog_secs());
  try { p.fn(s); }
  catch (const Failure &f) { o.failed = true; o.msg = f.msg; }
  catch (const Discard &) { o.discarded = true; }
  catch (const std::exception &e) { o.failed = true; o.msg = std::string("unexpected exception: ") + e.what(); }
  catch (...) { o.failed = true; o.msg = "unexpected non-standard exception"; }
  if (!o.failed && !s.deferred().empty()) { o.failed = true; o.msg = s.deferred(); }
#ifdef PBT_MPI
  int f = o.failed ? 1 : 0, g = 0;
  MPI_Allreduce(&f, &g, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  if (g && !o.failed) { o.failed = true; o.msg = "failed on another rank"; }
  if (g) {  // bring a message to rank 0
    int me = my_rank(), owner = (f ? me : 1 << 30), who;
    MPI_Allreduce(&owner, &who, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
    int len = (int) o.msg.size(); MPI_Bcast(&len, 1, MPI_INT, who, MPI_COMM_WORLD);
    std::string m = o.msg; m.resize(len); MPI_Bcast(m.data(), len, MPI_CHAR, who, MPI_COMM_WORLD);
    o.msg = "rank " + std::to_string(who) + ": " + m;
    o.discarded = false;
  }
#endif
  cpu_watchdog(0);
  if (CrashRec *c = crash_rec()) c->running = 0;
  return o;
}

inline std::vector<uint64_t> Shrink(const Prop &p, std::vector<uint64_t> best, std::string &msg, std::string &desc, double budget_s) {
  auto t0 = std::chrono::steady_clock::now();
  size_t tries = 0;
  auto over = [&]() {
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    int stop = (tries > 6000 || el > budget_s);
#ifdef PBT_MPI
    MPI_Bcast(&stop, 1, MPI_INT, 0, MPI_COMM_WORLD);
#endif
    return stop != 0;
  };
  auto attempt = [&](const std::vector<uint64_t> &c) {
    ++tries;
    Src s(c);
    Outcome o = RunOne(p, s);
    if (!o.failed) return false;
    // accept only if not larger (shortlex)
    if (s.rec_.size() > best.size()) return false;
    if (s.rec_.size() == best.size() && !(s.rec_ < best)) return false;
    best = s.rec_; msg = o.msg; desc = s.desc_;
    return true;
  };
  bool progress = true;
  while (progress && !over()) {
    progress = false;
    for (size_t blk : {64u, 16u, 8u, 4u, 3u, 2u, 1u}) {
      for (size_t i = best.size(); i-- > 0 && !over();) {
        if (i + blk > best.size()) continue;
        auto c = best; c.erase(c.begin() + i, c.begin() + i + blk);
        if (attempt(c)) { progress = true; if (i > best.size()) i = best.size(); }
      }
    }
    for (size_t i = 0; i < best.size() && !over(); ++i) {
      if (best[i] == 0) continue;
      auto c = best; c[i] = 0;
      if (attempt(c)) { progress = true; continue; }
      for (int k = 0; k < 70 && i < best.size() && best[i] > 0; ++k) {
        auto d = best; d[i] = best[i] / 2; if (attempt(d)) { progress = true; continue; }
        d = best; d[i] = best[i] - 1; if (attempt(d)) { progress = true; continue; }
        break;
      }
    }
  }
  return best;
}

inline std::string JsonEsc(const std::string &in) {
  std::string o;
  for (unsigned char c : in) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += (char) c;
  }
  return o;
}

inline void OpenCrash(const char *path) {
  int fd = ::open(path, O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (fd < 0 || ftruncate(fd, sizeof(CrashRec)) != 0) return;
  void *p = mmap(nullptr, sizeof(CrashRec), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  ::close(fd);
  if (p == MAP_FAILED) return;
  crash_rec() = static_cast<CrashRec *>(p);
  std::memcpy(crash_rec()->magic, "PBTCRASH", 8);
}

inline int Main(int argc, char **argv) {
  uint64_t seed = 1; std::string tier = "quick", out, crash, replay, only; double mult = 1.0, budget = 1e9, shrink_s = 60;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--seed") seed = std::stoull(nx());
    else if (a == "--tier") tier = nx();
    else if (a == "--out") out = nx();
    else if (a == "--crash") crash = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--prop") only = nx();
    else if (a == "--mult") mult = std::stod(nx());
    else if (a == "--budget") budget = std::stod(nx());
    else if (a == "--shrink") shrink_s = std::stod(nx());
    else if (a == "--watchdog") watchdog_secs() = std::stoi(nx());
  }
#ifdef PBT_MPI
  { int init = 0; MPI_Initialized(&init); if (!init) MPI_Init(nullptr, nullptr); }
#endif
  int rank = my_rank();
  std::signal(SIGPROF, on_prof);
  if (!crash.empty() && rank == 0) OpenCrash(crash.c_str());
  int rc = 0;
  std::ostringstream js;
  auto t0 = std::chrono::steady_clock::now();
  if (!replay.empty()) {  // file: "<prop>\n<n> c0 c1 ...\n"
    std::ifstream f(replay); std::string pn; f >> pn; size_t n = 0; f >> n;
    std::vector<uint64_t> c(n); for (auto &x : c) f >> x;
    bool found = false;
    for (auto &p : props()) if (p.name == pn) {
      found = true; Src s(c); Outcome o = RunOne(p, s);
      if (rank == 0) {
        std::cout << "replay prop=" << pn << " -> " << (o.failed ? "FAIL" : "pass") << "\n  case: " << s.desc_ << "\n";
        if (o.failed) std::cout << "  message: " << o.msg << "\n";
        if (!out.empty()) { std::ofstream of(out); of << "{\"failed\":" << (o.failed ? "true" : "false") << ",\"msg\":\"" << JsonEsc(o.msg) << "\",\"desc\":\"" << JsonEsc(s.desc_) << "\"}"; }
      }
      rc = o.failed ? 1 : 0;
    }
    if (!found) rc = 2;
  } else {
    js << "{\"props\":["; bool firstp = true; std::string failjson;
    struct St { size_t want = 0, done = 0, disc = 0, nontriv = 0, next = 0; std::unordered_set<uint64_t> distinct; std::map<std::string, size_t> labels; std::vector<std::string> samples; double slow = 0; };
    std::map<std::string, St> sts; constexpr size_t kRounds = 8; bool out_of_time = false; int skip = 0;
    for (auto &p : props()) sts[p.name].want = (size_t) std::ceil((tier == "thorough" ? p.thorough : p.quick) * mult);
    // every property gets an eighth of its cases per round, so that a slow machine shortens all of them alike
    for (size_t round = 0; round < kRounds && !rc && !out_of_time; ++round) for (auto &p : props()) {
      if (!only.empty() && p.name != only) continue;
      if (rc || out_of_time) break;
      St &t = sts[p.name]; uint64_t base = seed * 0x9E3779B97F4A7C15ull ^ HashStr(p.name); size_t end = (t.want * (round + 1) + kRounds - 1) / kRounds;
      for (size_t &i = t.next; i < end; ++i) {
        if (skip-- <= 0) {   // rank 0 says how many cases to run before asking again: one when cases are slow
          static auto last = t0; auto now = std::chrono::steady_clock::now(); int word = std::chrono::duration<double>(now - last).count() > 0.2 ? 0 : 15; last = now;
          if (std::chrono::duration<double>(now - t0).count() > budget) word = -1;
#ifdef PBT_MPI
          MPI_Bcast(&word, 1, MPI_INT, 0, MPI_COMM_WORLD);
#endif
          if (word < 0) { out_of_time = true; break; }
          skip = word;
        }
        uint64_t st = base + i * 0xD1B54A32D192ED03ull; uint64_t cs = SplitMix(st);
        Src s(cs);
        auto c0 = std::chrono::steady_clock::now();
        Outcome o = RunOne(p, s);
        t.slow = std::max(t.slow, std::chrono::duration<double>(std::chrono::steady_clock::now() - c0).count());
        if (o.failed) {
          std::string msg = o.msg, desc = s.desc_;
          auto best = Shrink(p, s.rec_, msg, desc, shrink_s);
          std::ostringstream fj; fj << "{\"prop\":\"" << p.name << "\",\"msg\":\"" << JsonEsc(msg) << "\",\"desc\":\"" << JsonEsc(desc) << "\",\"choices\":[";
          for (size_t k = 0; k < best.size(); ++k) fj << (k ? "," : "") << best[k];
          fj << "],\"unshrunk_msg\":\"" << JsonEsc(o.msg) << "\"}";
          failjson = fj.str(); rc = 1; ++t.done; break;
        }
        ++t.done;
        if (o.discarded) { ++t.disc; continue; }
        for (auto &l : s.labels_) ++t.labels[l];
        if (s.nontrivial_) {
          uint64_t h = 1469598103934665603ull; for (uint64_t v : s.rec_) { h ^= v; h *= 1099511628211ull; h ^= h >> 29; }
          if (t.distinct.insert(h).second) ++t.nontriv;
          if (t.samples.size() < 3 && !s.desc_.empty()) t.samples.push_back(s.desc_.substr(0, 700));
        }
      }
    }
    for (auto &p : props()) {
      if (!only.empty() && p.name != only) continue;
      St &t = sts[p.name];
      js << (firstp ? "" : ",") << "{\"name\":\"" << p.name << "\",\"rule\":\"" << JsonEsc(p.rule) << "\",\"cases\":" << t.done << ",\"wanted\":" << t.want << ",\"discarded\":" << t.disc
         << ",\"distinct_nontrivial\":" << t.nontriv << ",\"slowest_case_s\":" << t.slow << ",\"truncated\":" << (t.done < t.want ? "true" : "false") << ",\"labels\":{";
      bool f1 = true; for (auto &l : t.labels) { js << (f1 ? "" : ",") << "\"" << JsonEsc(l.first) << "\":" << l.second; f1 = false; }
      js << "},\"samples\":["; for (size_t k = 0; k < t.samples.size(); ++k) js << (k ? "," : "") << "\"" << JsonEsc(t.samples[k]) << "\"";
      js << "]}"; firstp = false;
    }
    js << "],\"failure\":" << (failjson.empty() ? "null" : failjson)
       << ",\"wall\":" << std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() << "}";
    if (rank == 0) { if (!out.empty()) { std::ofstream of(out); of << js.str(); } else std::cout << js.str() << "\n"; }
  }
#ifdef PBT_MPI
  MPI_Barrier(MPI_COMM_WORLD); MPI_Finalize();
#endif
  return rc;
}

// scratch directory for cases that touch the filesystem (created by check.py, removed by it)
inline std::string ScratchDir() { const char *e = std::getenv("PBT_SCRATCH"); return e ? e : "/tmp"; }

}  // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char **argv) { return pbt::Main(argc, argv); }
#endif
#endif
