// C07: aligned mean / relative radius of repeated amplitude evaluations.
#include "pbt.hpp"
#include "qlpeps/algorithm/vmc_update/psi_consistency.h"
using namespace qlpeps;
using pbt::Src;
using cd = std::complex<double>;
using cl = std::complex<long double>;
namespace {
template<class T> T mk(cd z);
template<> double mk<double>(cd z) { return z.real(); }
template<> cd mk<cd>(cd z) { return z; }
template<class T> cl up(T v);
template<> cl up<double>(double v) { return {(long double) v, 0}; }
template<> cl up<cd>(cd v) { return {(long double) v.real(), (long double) v.imag()}; }
struct Ref { cl mean; long double rel; };
template<class T> Ref refsum(const std::vector<T> &v, size_t r, bool &tie) {
  cl ref = up(v[r]), m = 0; std::vector<cl> a; long double n = std::abs(ref);
  for (auto &x : v) { cl z = up(x); long double ov = (z * std::conj(ref)).real(); if (std::abs(ov) <= 1e-13L * std::abs(z) * n && std::abs(z) > 0) tie = true; if (ov < 0) z = -z; a.push_back(z); m += z; }
  m /= (long double) v.size(); long double d = 0; for (auto &z : a) d = std::max(d, std::abs(z - m));
  return {m, d / std::abs(m)};
}
template<class T> void check(Src &s) {
  size_t n = s.urange(1, s.chance(1, 12) ? 80 : 10); double scale = s.boolean() ? 1.0 : s.logreal(-9, 12);
  cd base = {s.mixed(-1, 1), s.mixed(-1, 1)}; if (std::abs(base) < 1e-3) base = 1.0;
  double noise = s.pick<double>({0.0, 1e-12, 1e-6, 1e-3, 0.1, 1.0});
  std::vector<T> v; bool flipped = false;
  int kind = (int) s.draw(3);
  for (size_t i = 0; i < n; ++i) {
    cd z = kind == 2 ? cd(s.mixed(-2, 2), s.mixed(-2, 2)) : base * (1.0 + noise * cd(s.real(-1, 1), s.real(-1, 1)));
    if (s.boolean()) { z = -z; flipped = true; }
    T w = mk<T>(z * scale); v.push_back(w);
  }
  s.note(pbt::show(v));
  double mx = 0; for (auto &x : v) mx = std::max(mx, (double) std::abs(x));
  auto got = ComputePsiConsistencySummaryAligned(v);
  PBT_ASSERT(got.psi_rel_err >= 0, "negative spread");
  if (mx < 1e-11) { s.label("tiny"); return; }   // below the documented reference scale nothing is promised
  // any element of (numerically) maximal magnitude may serve as reference
  bool ok = false, tie = false; std::string seen; long double nearzero = 1e300;
  for (size_t r = 0; r < n; ++r) if ((double) std::abs(v[r]) >= mx * (1 - 1e-13)) {
    Ref w = refsum(v, r, tie);
    nearzero = std::min(nearzero, std::abs(w.mean));
    long double tolm = 1e-13L * mx; if (std::abs(w.mean) < 1e-9L * mx || std::abs(w.mean) < 1e-12L) { tie = true; }
    bool m_ok = std::abs(up(got.psi_mean) - w.mean) <= tolm;
    bool r_ok = fabsl((long double) got.psi_rel_err - w.rel) <= 1e-9L * w.rel + 1e-13L * mx / std::abs(w.mean);
    if (m_ok && r_ok) ok = true;
    std::ostringstream o; o << " ref#" << r << " mean=" << (cd) cd((double) w.mean.real(), (double) w.mean.imag()) << " rel=" << (double) w.rel; seen += o.str();
  }
  if (tie) { s.label("orthogonal-tie"); return; }
  PBT_ASSERT(ok, "mean=", got.psi_mean, " rel=", got.psi_rel_err, " but definition gives", seen);
  if (n == 1) PBT_ASSERT(got.psi_rel_err == 0 && got.psi_mean == v[0], "single value");
  s.nontrivial(n >= 2 && flipped);
  // metamorphic: flipping individual signs, permuting, rescaling
  double a0 = std::abs(got.psi_mean), e0 = got.psi_rel_err;
  auto same = [&](const std::vector<T> &u, double f, const char *what) {
    auto g = ComputePsiConsistencySummaryAligned(u);
    PBT_ASSERT(std::abs((double) std::abs(g.psi_mean) - f * a0) <= 1e-12 * f * mx && std::abs(g.psi_rel_err - e0) <= 1e-9 * e0 + 1e-12 * mx / a0, what, ": |mean| ", std::abs(g.psi_mean), " vs ", f * a0, ", rel ", g.psi_rel_err, " vs ", e0);
  };
  size_t nmax = 0; for (auto &x : v) if ((double) std::abs(x) >= mx * (1 - 1e-13)) ++nmax;
  if (std::is_same_v<T, double> || nmax == 1) {  // with several maximal complex values the reference may legitimately change
    auto u = v; for (auto &x : u) if (s.boolean()) x = -x; same(u, 1, "sign flips");
    u = v; for (size_t i = n; i > 1; --i) std::swap(u[i - 1], u[s.draw(i)]); same(u, 1, "permutation");
    double f = std::ldexp(1.0, (int) s.range(-3, 6)); u = v; for (auto &x : u) x = x * f; if (a0 * f > 1e-11) same(u, f, "rescaling");
  }
}
template<class T> void fmt(Src &s) {
  size_t n = s.urange(0, 14), m = s.urange(0, 16); std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(mk<T>(s.cmixed(-8, 8)));
  s.note(pbt::show(v), " max=", m);
  std::string t = FormatPsiListTruncated(v, m);
  PBT_ASSERT(t.size() >= 2 && t.front() == '[' && t.back() == ']', "brackets: ", t);
  std::string body = t.substr(1, t.size() - 2); bool trunc = n > m;
  size_t dots = body.find("...");
  PBT_ASSERT((dots != std::string::npos) == trunc, "ellipsis iff truncated: ", t);
  if (trunc) PBT_ASSERT(body.find("n=" + std::to_string(n)) != std::string::npos, "total count missing: ", t);
  // parse numbers before the ellipsis
  std::string nums = body.substr(0, dots == std::string::npos ? body.size() : dots); std::vector<double> got; const char *p = nums.c_str();
  while (*p) { char *e; if (isdigit((unsigned char) *p) || ((*p == '-' || *p == '+') && isdigit((unsigned char) p[1]))) { got.push_back(std::strtod(p, &e)); p = e; } else ++p; }
  size_t per = std::is_same_v<T, double> ? 1 : 2;
  PBT_ASSERT(got.size() == per * std::min(n, m), "shows ", got.size() / per, " of ", std::min(n, m), " values: ", t);
  for (size_t i = 0; i < std::min(n, m); ++i) { cd z = v[i]; if constexpr (std::is_same_v<T, double>) z = v[i];
    PBT_ASSERT(pbt::close(got[per * i], z.real(), 1e-6, 1e-300), "value ", i, " shown as ", got[per * i]);
    if (per == 2) PBT_ASSERT(pbt::close(got[per * i + 1], z.imag(), 1e-6, 1e-300), "imag ", i); }
  s.nontrivial(n > 1);
}
}
PBT_PROP(summary_real, 60000, 3000000, "1..10 repeated amplitudes with generated spread, sign branches and scale; non-trivial if >=2 values and some sign flipped") { check<double>(s); }
PBT_PROP(summary_complex, 60000, 3000000, "same, complex amplitudes") { check<cd>(s); }
PBT_PROP(summary_empty, 60, 60, "the empty list") { s.nontrivial(); PsiConsistencyWarningParams wp; ConfigurationRescueParams rp; RuntimeParams rt; PBT_ASSERT(wp.enabled && !wp.master_only && wp.threshold == 1e-3 && wp.max_warnings == 50 && wp.max_print_elems == 8 && rt.psi_consistency.enabled && rt.psi_consistency.threshold == 1e-3, "warning defaults"); PBT_ASSERT(rp.enabled && rp.amplitude_min_threshold == std::numeric_limits<double>::min() && rp.amplitude_max_threshold == std::numeric_limits<double>::max(), "rescue defaults");
  auto a = ComputePsiConsistencySummaryAligned(std::vector<double>()); auto b = ComputePsiConsistencySummaryAligned(std::vector<cd>()); PBT_ASSERT(a.psi_mean == 0 && a.psi_rel_err == 0 && b.psi_mean == cd(0) && b.psi_rel_err == 0, "empty list"); 
  auto z = ComputePsiConsistencySummaryAligned(std::vector<double>(s.urange(1, 6), 0.0)); PBT_ASSERT(z.psi_mean == 0 && z.psi_rel_err == 0, "all-zero list must be finite and consistent"); }
PBT_PROP(format_real, 15000, 200000, "value lists and limits; non-trivial if more than one value") { fmt<double>(s); }
PBT_PROP(format_complex, 15000, 200000, "same, complex") { fmt<cd>(s); }
