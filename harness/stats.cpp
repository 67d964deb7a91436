// C15 Monte Carlo statistics: serial definitions and the MPI reductions.
#include "pbt.hpp"
#include <complex>
#include <filesystem>
#include <fstream>
#include "qlten/qlten.h"
#include "qlpeps/vmc_basic/monte_carlo_tools/statistics.h"
#include "qlpeps/vmc_basic/statistics_tensor.h"
#include "tn.hpp"
using namespace qlpeps; using pbt::Src; using cd = std::complex<double>; using cl = std::complex<long double>;
namespace {
template<class T> T val(Src &s, double sc, double off) { double a = s.unit() * 2 - 1, b = s.unit() * 2 - 1; if constexpr (std::is_same_v<T, cd>) return cd(a * sc + off, b * sc); else return T(a * sc + off); }
template<class T> std::vector<T> series(Src &s, size_t n) {
  double sc = s.chance(1, 6) ? 0.0 : s.logreal(-6, 6), off = s.chance(1, 2) ? 0.0 : s.logreal(-3, 6) * (s.boolean() ? 1 : -1); std::vector<T> v; T prev{}; int kind = (int) s.urange(0, 3);
  for (size_t i = 0; i < n; ++i) { T x = val<T>(s, sc, off); if (kind == 1 && i) x = prev * 0.8 + x * 0.2; if (kind == 2 && i && s.chance(1, 2)) x = prev; v.push_back(x); prev = x; }
  return v;
}
template<class T> struct Ref { cl mean; long double var, big; };
template<class T> Ref<T> rstat(const std::vector<T> &v) { Ref<T> r{0, 0, 0}; for (auto &x : v) { cl y = cl(cd(x)); r.mean += y; r.big = std::max(r.big, std::abs(y)); } if (!v.empty()) r.mean /= (long double) v.size(); for (auto &x : v) r.var += std::norm(cl(cd(x)) - r.mean); if (!v.empty()) r.var /= (long double) v.size(); return r; }
template<class T> bool meanok(const T &m, const Ref<T> &r, size_t n) { return std::abs(cl(cd(m)) - r.mean) <= 4e-16L * (n + 4) * r.big; }
// tolerance of a variance computed about a rounded mean
template<class T> bool varok(double v, const Ref<T> &r, size_t n) { long double d = 4e-16L * (n + 4) * r.big; return !(v < 0) && std::abs(v - r.var) <= 1e-13L * (n + 4) * r.var + 4 * d * std::sqrt(r.var) + 4 * d * d; }
template<class T> bool errok(double e, const Ref<T> &r, size_t n) { return std::isfinite(e) && e >= 0 && varok<T>(e * e * (n - 1), r, n); }
#define PICKT(F) do { if (s.boolean()) F<double>(s); else F<cd>(s); } while (0)

#ifndef PBT_MPI
template<class T> void serial(Src &s) {
  size_t n = s.freq({1, 8}) == 0 ? s.urange(0, 1) : s.urange(2, 40); auto v = series<T>(s, n); auto r = rstat(v); auto v0 = v;
  PBT_ASSERT(meanok(Mean(v), r, n), "Mean " + pbt::show(std::abs(cd(Mean(v)))));
  if (n) { PBT_ASSERT(varok<T>(Variance(v), r, n), "Variance " + pbt::show(Variance(v)) + " expected " + pbt::show((double) r.var)); PBT_ASSERT(varok<T>(Variance(v, Mean(v)), r, n), "Variance with given mean");
    T c = val<T>(s, 3, 1); long double e = 0; for (auto &x : v) e += std::norm(cl(cd(x)) - cl(cd(c))); e /= n; PBT_ASSERT(std::abs(Variance(v, c) - e) <= 1e-12L * e + 1e-30L, "second moment about a given centre"); }
  if (n == 1) PBT_ASSERT(std::isinf(StandardError(v, Mean(v))), "error of one sample must be infinite");
  if (n > 1) PBT_ASSERT(errok<T>(StandardError(v, Mean(v)), r, n), "StandardError " + pbt::show(StandardError(v, Mean(v))));
  PBT_ASSERT(v == v0, "input changed"); if (n > 1) s.nontrivial();
  // list averages
  size_t ns = s.urange(0, 5), w = s.urange(0, 4); std::vector<std::vector<T>> tab(ns); for (auto &x : tab) x = series<T>(s, w); auto ave = AveListOfData(tab); PBT_ASSERT(ave.size() == (ns ? w : 0), "AveListOfData length");
  for (size_t i = 0; i < ave.size(); ++i) { std::vector<T> col; for (auto &x : tab) col.push_back(x[i]); PBT_ASSERT(meanok(ave[i], rstat(col), ns), "AveListOfData entry"); }
  // inflation factor against its definition
  double g = IPSInflationFactor(v); PBT_ASSERT(g >= 1.0 && std::isfinite(g), "inflation factor below one");
  if (n < 3) PBT_ASSERT(g == 1.0, "short series inflation");
  else {
    std::vector<long double> x; long double mu = 0; for (auto &q : v) { x.push_back(std::real(cd(q))); mu += x.back(); } mu /= n; for (auto &q : x) q -= mu;
    auto G = [&](size_t k) { long double a = 0; for (size_t t = 0; t + k < n; ++t) a += x[t] * x[t + k]; return a / n; };
    long double g0 = G(0), noise = 1e-14L * n * r.big * r.big; bool clear = g0 > 1e6L * noise; long double sum = 0;
    if (clear) { for (size_t k = 1; k <= std::min<size_t>(20, n - 2); ++k) { long double q = G(k) + G(k + 1); if (std::abs(q) < 1e-9L * g0 + noise) { clear = false; break; } if (q < 0) break; sum += G(k) / g0; } }
    if (clear) { long double e = std::max(1.0L, 1 + 2 * sum); PBT_ASSERT(std::abs(g - e) < 1e-5L * e, "inflation " + pbt::show(g) + " expected " + pbt::show((double) e));
      double m2 = (double) mu; PBT_ASSERT(std::abs(IPSInflationFactor(v, m2) - e) < 1e-5L * e, "inflation with given mean"); }
  }
}
PBT_PROP(serial_definitions, 4000, 300000, "at least two samples") { PICKT(serial); }
PBT_PROP(dumped_series, 500, 20000, "at least two values") {
  static int k = 0; std::string f = pbt::ScratchDir() + "/v" + std::to_string(k++); auto v = series<double>(s, s.urange(0, 12)); DumpVecData(f, v);
  std::ifstream i(f); std::vector<double> w; std::string t; while (i >> t) w.push_back(std::stod(t)); i.close(); std::filesystem::remove(f);
  PBT_ASSERT(w.size() == v.size(), "number of values"); for (size_t q = 0; q < v.size(); ++q) PBT_ASSERT(std::abs(w[q] - v[q]) <= 1.1e-5 * std::abs(v[q]), "value " + std::to_string(q));
  bool threw = false; try { DumpVecData(pbt::ScratchDir() + "/no/such/dir/x", v); } catch (const std::exception &) { threw = true; } PBT_ASSERT(threw, "unwritable target reported success"); if (v.size() > 1) s.nontrivial();
}
template<class T> void tensor_mean(Src &s) {
  using Q = qlten::special_qn::U1QN; using Ten = qlten::QLTensor<T, Q>; std::mt19937_64 g(s.draw(1ull << 40)); auto a = tn::QGen<Q>::bond(g, 3, qlten::IN), b = tn::QGen<Q>::bond(g, 3, qlten::OUT);
  size_t n = s.urange(1, 5), len = s.urange(1, 9); std::vector<Ten> ts; for (size_t i = 0; i < n; ++i) { Ten t({a, b}); tn::fill(t, Q(0), g, 0); ts.push_back(t); } std::vector<Ten *> p; for (auto &t : ts) p.push_back(&t);
  Ten m = Mean(p, len); PBT_ASSERT(m.GetShape() == ts[0].GetShape(), "shape"); for (size_t o = 0; o < m.d_.size(); ++o) { cd e = 0; for (auto &t : ts) e += cd(t.d_[o]); e /= (double) len; PBT_ASSERT(std::abs(cd(m.d_[o]) - e) < 1e-13, "tensor mean element"); } if (n > 1) s.nontrivial();
}
PBT_PROP(tensor_means, 300, 10000, "at least two tensors") { PICKT(tensor_mean); }
#else
template<class T> void mpi(Src &s) {
  int me, np; MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &np); std::string bad; auto chk = [&](bool ok, const std::string &m) { if (!ok && bad.empty()) bad = m; };
  MPI_Comm comm = MPI_COMM_WORLD; bool rev = s.boolean(); if (rev) MPI_Comm_split(MPI_COMM_WORLD, 0, np - me, &comm); int cr; MPI_Comm_rank(comm, &cr);
  s.nontrivial();
  {  // binned error
    size_t n = s.freq({1, 6}) == 0 ? s.urange(0, 3) : s.urange(4, 60); std::vector<std::vector<T>> all; for (int i = 0; i < np; ++i) all.push_back(series<T>(s, n)); auto mine = all[cr];
    auto [m, e] = MeanAndBinnedErrorSqrtNUniformBin(mine, comm); 
    std::vector<T> bins; size_t b = 1; while ((b + 1) * (b + 1) <= n) ++b; if (n) for (auto &x : all) for (size_t i = 0; i + b <= n; i += b) { T q(0); for (size_t k = 0; k < b; ++k) q += x[i + k]; bins.push_back(q / (double) b); }
    if (cr == 0) { auto r = rstat(bins); for (auto &x : all) for (auto &y : x) r.big = std::max<long double>(r.big, std::abs(y)); chk(meanok(m, r, bins.size() + b), "binned mean " + pbt::show(std::abs(m)) + " expected " + pbt::show((double) std::abs(r.mean)));
      if (bins.empty()) chk(e == 0, "error of no bins"); else if (bins.size() == 1) chk(std::isinf(e), "error of a single bin must be infinite"); else chk(errok<T>(e, r, bins.size() + 0), "binned error " + pbt::show(e) + " expected " + pbt::show((double) std::sqrt(r.var / (bins.size() - 1)))); }
    else chk(m == T(0) && e == 0, "non-master ranks must return zeros");
  }
  {  // one number per rank
    auto all = series<T>(s, (size_t) np); auto [m, e] = GatherStatisticSingleData(all[cr], comm); auto r = rstat(all);
    if (np == 1) chk(m == all[0] && std::isinf(e), "single rank"); else if (cr == 0) { chk(meanok(m, r, np), "gathered mean"); chk(errok<T>(e, r, np), "gathered error " + pbt::show(e) + " expected " + pbt::show((double) std::sqrt(r.var / (np - 1)))); }
  }
  {  // a list per rank
    size_t w = s.urange(0, 5); std::vector<std::vector<T>> all; for (int i = 0; i < np; ++i) all.push_back(series<T>(s, w)); std::vector<T> avg(3, T(7)); std::vector<double> err(2, 5.0); GatherStatisticListOfData(all[cr], comm, avg, err);
    if (w == 0) chk(avg.empty() && err.empty(), "empty list"); else if (np == 1) chk(avg == all[0], "single rank list");
    else if (cr == 0) { chk(avg.size() == w && err.size() == w, "list sizes"); for (size_t i = 0; i < w && bad.empty(); ++i) { std::vector<T> col; for (auto &x : all) col.push_back(x[i]); auto r = rstat(col); chk(meanok(avg[i], r, np), "list mean"); chk(errok<T>(err[i], r, np), "list error " + pbt::show(err[i])); } }
  }
  {  // tensor mean over ranks
    using Q = qlten::special_qn::U1QN; using Ten = qlten::QLTensor<T, Q>; std::mt19937_64 g(s.draw(1ull << 40)); auto a = tn::QGen<Q>::bond(g, 3, qlten::IN), b = tn::QGen<Q>::bond(g, 3, qlten::OUT);
    std::vector<Ten> ts; for (int i = 0; i < np; ++i) { Ten t({a, b}); tn::fill(t, Q(0), g, 0); ts.push_back(t); } Ten m = MPIMeanTensor(ts[cr], comm);
    if (cr == 0) { chk(m.GetShape() == ts[0].GetShape(), "tensor mean shape"); for (size_t o = 0; o < m.d_.size() && bad.empty(); ++o) { cd e = 0; for (auto &t : ts) e += cd(t.d_[o]); e /= (double) np; chk(std::abs(cd(m.d_[o]) - e) < 1e-13, "tensor mean element"); } } else chk(m.IsDefault(), "non-master tensor mean");
  }
  if (rev) MPI_Comm_free(&comm);
  PBT_ASSERT(bad.empty(), bad);
}
PBT_PROP(mpi_reductions, 400, 10000, "always (rank count is fixed per job)") { PICKT(mpi); }
#endif
}  // namespace
