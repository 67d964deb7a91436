// C17 arithmetic of tensor-product states, C18 their files and messages, C19 conversions and superposition.
#include "pbt.hpp"
#include <filesystem>
#include <fstream>
#include <optional>
#include "qlten/qlten.h"
#include "tn.hpp"
#include "qlpeps/two_dim_tn/tps/tps.h"
#include "qlpeps/two_dim_tn/tps/split_index_tps.h"
#include "qlpeps/two_dim_tn/tensor_network_2d/tensor_network_2d.h"
#include "qlpeps/api/conversions.h"
using namespace qlpeps;
using pbt::Src; using tn::cd;
namespace fs = std::filesystem;
namespace {
#ifndef BT
#define BT 0
#endif
#if BT % 2 == 0
using E = double;
#else
using E = std::complex<double>;
#endif
#if BT / 2 == 0
using Q = qlten::special_qn::TrivialRepQN;
#elif BT / 2 == 1
using Q = qlten::special_qn::U1QN;
#else
using Q = qlten::special_qn::fZ2QN;
#endif
using QG = tn::QGen<Q>;
using T = QLTensor<E, Q>; using IX = Index<Q>; using SI = SplitIndexTPS<E, Q>; using TP = TPS<E, Q>; using TN = TensorNetwork2D<E, Q>;
constexpr bool FERM = T::IsFermionic(); constexpr bool CPLX = qlten::is_cplx<E>::value;
cd C(const E &x) { return cd(x); }
E mk(cd z) { return tn::mkelem<E>(z.real(), z.imag()); }

struct Lat { size_t R, Cc, d; BoundaryCondition bc; std::vector<std::vector<std::vector<IX>>> ix; std::vector<std::vector<size_t>> hd, vd; bool ph() const { return bc == BoundaryCondition::Periodic; } };
Lat lat(Src &s, size_t maxR, size_t maxC, size_t dmax, size_t dphys_max, bool uniform_chance = true) {
  Lat L; L.R = s.urange(1, maxR); L.Cc = s.urange(1, maxC); L.d = s.urange(1, dphys_max); L.bc = s.chance(2, 5) ? BoundaryCondition::Periodic : BoundaryCondition::Open;
  std::mt19937_64 g(s.draw(1u << 30)); bool uni = uniform_chance && s.boolean(); IX u = QG::bond(g, dmax, OUT);
  auto inv = [](const IX &i) { return qlten::InverseIndex(i); };
  std::vector<std::vector<IX>> h(L.R, std::vector<IX>(L.Cc)), v = h; L.hd.assign(L.R, std::vector<size_t>(L.Cc, 0)); L.vd = L.hd;
  for (size_t r = 0; r < L.R; ++r) for (size_t c = 0; c < L.Cc; ++c) {
    bool he = c + 1 < L.Cc || L.ph(), ve = r + 1 < L.R || L.ph();
    h[r][c] = he ? (uni ? u : QG::bond(g, dmax, OUT)) : QG::one(OUT); v[r][c] = ve ? (uni ? u : QG::bond(g, dmax, OUT)) : QG::one(OUT);
    L.hd[r][c] = he ? h[r][c].dim() : 0; L.vd[r][c] = ve ? v[r][c].dim() : 0;
  }
  if (uni && s.chance(1, 3)) {  // one bond off
    size_t r = s.urange(0, L.R - 1), c = s.urange(0, L.Cc - 1); bool hz = s.boolean(); IX w = QG::bond(g, dmax + 1, OUT);
    if (hz && L.hd[r][c]) { h[r][c] = w; L.hd[r][c] = w.dim(); } else if (!hz && L.vd[r][c]) { v[r][c] = w; L.vd[r][c] = w.dim(); }
  }
  L.ix.assign(L.R, std::vector<std::vector<IX>>(L.Cc));
  for (size_t r = 0; r < L.R; ++r) for (size_t c = 0; c < L.Cc; ++c) {
    IX l = c ? inv(h[r][c - 1]) : L.ph() ? inv(h[r][L.Cc - 1]) : QG::one(IN), up = r ? inv(v[r - 1][c]) : L.ph() ? inv(v[L.R - 1][c]) : QG::one(IN);
    L.ix[r][c] = {l, v[r][c], h[r][c], up};
  }
  s.note(std::to_string(L.R) + "x" + std::to_string(L.Cc) + (L.ph() ? " PBC" : " OBC") + " d=" + std::to_string(L.d) + (uni ? " uniform" : ""));
  return L;
}
// random site tensor of component i (charge depends on i so that symmetry sectors differ)
T rten(const Lat &L, size_t r, size_t c, size_t i, std::mt19937_64 &g, int mode) {
  auto ix = L.ix[r][c];
  if constexpr (FERM) { ix.push_back(IX({QNSector<Q>(QG::charge((int) i), 1)}, IN)); T t(ix); tn::fill<E, Q>(t, QG::charge(0), g, mode); return t; }
  else { T t(ix); tn::fill<E, Q>(t, QG::charge((int) (i % 2)), g, mode); return t; }
}
using Slot = std::optional<std::vector<cd>>;
struct M { size_t R = 0, Cc = 0, d = 0; BoundaryCondition bc = BoundaryCondition::Open; std::vector<Slot> t; Slot &at(size_t r, size_t c, size_t i) { return t[(r * Cc + c) * d + i]; } const Slot &at(size_t r, size_t c, size_t i) const { return t[(r * Cc + c) * d + i]; }
  double mx() const { double m = 0; for (auto &x : t) if (x) for (auto &y : *x) m = std::max(m, std::abs(y)); return m; } };
Slot slot(const T &t) { if (t.IsDefault()) return std::nullopt; return std::vector<cd>(t.d_.begin(), t.d_.end()); }
M model(const SI &x) { M m; m.R = x.rows(); m.Cc = x.cols(); m.d = x.PhysicalDim(); m.bc = x.GetBoundaryCondition(); for (size_t r = 0; r < m.R; ++r) for (size_t c = 0; c < m.Cc; ++c) for (size_t i = 0; i < m.d; ++i) m.t.push_back(slot(x({r, c})[i])); return m; }
SI rstate(Src &s, const Lat &L, int mode, bool holes) {
  std::mt19937_64 g(s.draw(1u << 30)); SI x(L.R, L.Cc, L.d, L.bc); bool h = holes && s.chance(1, 3);
  for (size_t r = 0; r < L.R; ++r) for (size_t c = 0; c < L.Cc; ++c) for (size_t i = 0; i < L.d; ++i) if (!(h && g() % 4 == 0)) x({r, c})[i] = rten(L, r, c, i, g, mode);
  return x;
}
std::string diff(const SI &x, const M &m, double tol) {
  if (x.rows() != m.R || x.cols() != m.Cc) return "shape " + std::to_string(x.rows()) + "x" + std::to_string(x.cols());
  if (x.GetBoundaryCondition() != m.bc) return "boundary condition";
  for (size_t r = 0; r < m.R; ++r) for (size_t c = 0; c < m.Cc; ++c) {
    auto w = " at (" + std::to_string(r) + "," + std::to_string(c) + ")";
    if (x({r, c}).size() != m.d) return "physical dimension " + std::to_string(x({r, c}).size()) + w;
    for (size_t i = 0; i < m.d; ++i) {
      const T &t = x({r, c})[i]; const Slot &q = m.at(r, c, i);
      if (t.IsDefault() != !q) return std::string(q ? "tensor lost" : "tensor appeared") + w;
      if (!q) continue;
      if (t.d_.size() != q->size()) return "tensor size" + w;
      for (size_t k = 0; k < q->size(); ++k) { cd a = C(t.d_[k]), b = (*q)[k]; if (!(std::abs(a - b) <= tol * std::abs(b) + tol * 1e-3 * (tol > 0 ? 1 : 0) ) && !(a == b)) return "component " + std::to_string(i) + w + " element " + std::to_string(k) + " = " + pbt::show(a.real()) + "+" + pbt::show(a.imag()) + "i expected " + pbt::show(b.real()) + "+" + pbt::show(b.imag()) + "i"; }
    }
  }
  return "";
}
bool same_legs(const SI &x, const SI &y) { for (size_t r = 0; r < x.rows(); ++r) for (size_t c = 0; c < x.cols(); ++c) for (size_t i = 0; i < x.PhysicalDim(); ++i) { const T &a = x({r, c})[i], &b = y({r, c})[i]; if (a.IsDefault() != b.IsDefault()) return false; if (!a.IsDefault() && !(a.GetIndexes() == b.GetIndexes())) return false; } return true; }
M comb(const M &a, const M &b, cd fa, cd fb) { M m = a; for (size_t k = 0; k < m.t.size(); ++k) { const Slot &x = a.t[k], &y = b.t[k]; if (x && y) { for (size_t i = 0; i < x->size(); ++i) (*m.t[k])[i] = fa * (*x)[i] + fb * (*y)[i]; } else if (x) { for (auto &z : *m.t[k]) z *= fa; } else if (y) { m.t[k] = y; for (auto &z : *m.t[k]) z *= fb; } } return m; }
template<class F> M mapm(const M &a, F f) { M m = a; for (auto &x : m.t) if (x) for (auto &z : *x) z = f(z); return m; }
double nsq(const M &a) { double q = 0; for (auto &x : a.t) if (x) for (auto &z : *x) q += std::norm(z); return q; }

#if defined(PART_C17)
PBT_PROP(state_algebra, 600, 30000, "at least three operations on a lattice with at least two sites") {
  Lat L = lat(s, 3, 3, 2, 3); std::vector<SI> x; std::vector<M> m; int mode = (int) s.pick(std::vector<int>{0, 0, 1, 3});
  for (int k = 0; k < 3; ++k) { x.push_back(rstate(s, L, mode, true)); m.push_back(model(x.back())); }
  size_t n = s.urange(1, 9), done = 0;
  auto chk = [&](const char *op) { for (size_t k = 0; k < x.size(); ++k) { auto e = diff(x[k], m[k], 1e-11); PBT_ASSERT(e.empty(), std::string("after ") + op + ", state " + std::to_string(k) + ": " + e); } };
  auto rsc = [&]() { double a = s.freq({6, 1}) ? 0.0 : s.real(-2, 2), b = s.real(-2, 2); return CPLX ? cd(a, b) : cd(a); };
  for (size_t k = 0; k < n; ++k) {
    size_t a = s.urange(0, 2), b = s.urange(0, 2), o = s.urange(0, 2); const char *op = "?"; double ma = m[a].mx();
    switch (s.freq({3, 3, 3, 3, 3, 3, 2, 2, 1, 1, 2, 2, 2, 2, 2, 2, 2})) {
      case 0: { op = "+"; M e = comb(m[a], m[b], 1, 1); x[o] = x[a] + x[b]; m[o] = e; break; }
      case 1: { op = "-"; M e = comb(m[a], m[b], 1, -1); x[o] = x[a] - x[b]; m[o] = e; break; }
      case 2: { op = "+="; if (a == b) break; M e = comb(m[a], m[b], 1, 1); auto &ret = (x[a] += x[b]); PBT_ASSERT(&ret == &x[a], "+= result"); m[a] = e; break; }
      case 3: { op = "-="; M e = comb(m[a], m[b], 1, -1); auto &ret = (x[a] -= x[b]); PBT_ASSERT(&ret == &x[a], "-= result"); m[a] = e; break; }
      case 4: { op = "* scalar"; cd f = rsc(); int w = (int) s.urange(0, 2); M e = mapm(m[a], [&](cd z) { return z * f; }); if (w == 0) x[o] = x[a] * mk(f); else if (w == 1) x[o] = mk(f) * x[a]; else { o = a; x[a] *= mk(f); } m[o] = e; break; }
      case 5: { op = "unary -"; M e = mapm(m[a], [](cd z) { return -z; }); x[o] = -x[a]; m[o] = e; break; }
      case 6: { op = "copy"; if (a == o) break; if (s.boolean()) x[o] = x[a]; else { SI t(x[a]); x[o] = std::move(t); } m[o] = m[a]; break; }
      case 7: { op = "move"; if (a == o) break; SI t(std::move(x[a])); auto e = diff(t, m[a], 1e-11); PBT_ASSERT(e.empty(), "moved-to state: " + e); x[o] = std::move(t); m[o] = m[a]; x[a] = x[o]; break; }
      case 8: { op = "real * state"; if constexpr (CPLX) { double f = s.real(-2, 2); M e = mapm(m[a], [&](cd z) { return z * f; }); x[o] = f * x[a]; m[o] = e; } break; }
      case 9: { op = "inner product / norm"; cd e = 0; double mag = 0; for (size_t q = 0; q < m[a].t.size(); ++q) if (m[a].t[q] && m[b].t[q]) for (size_t i = 0; i < m[a].t[q]->size(); ++i) { cd z = std::conj((*m[a].t[q])[i]) * (*m[b].t[q])[i]; e += z; mag += std::abs(z); }
        cd v = C(x[a] * x[b]); PBT_ASSERT(std::abs(v - e) <= 1e-11 * mag, "inner product " + pbt::show(v.real()) + "," + pbt::show(v.imag()) + " expected " + pbt::show(e.real()) + "," + pbt::show(e.imag()));
        double nn = x[a].NormSquare(), ne = nsq(m[a]); PBT_ASSERT(std::abs(nn - ne) <= 1e-11 * ne, "NormSquare " + pbt::show(nn) + " expected " + pbt::show(ne)); break; }
      case 10: { op = "NormalizeSite"; size_t r = s.urange(0, L.R - 1), c = s.urange(0, L.Cc - 1); bool all = s.chance(1, 3); M e = m[a]; double want = 0; bool ok = true;
        for (size_t rr = 0; rr < L.R; ++rr) for (size_t cc = 0; cc < L.Cc; ++cc) { if (!all && (rr != r || cc != c)) continue; double q = 0; for (size_t i = 0; i < L.d; ++i) if (e.at(rr, cc, i)) for (auto &z : *e.at(rr, cc, i)) q += std::norm(z); if (!(q > 1e-40)) { ok = false; break; } want = std::sqrt(q); for (size_t i = 0; i < L.d; ++i) if (e.at(rr, cc, i)) for (auto &z : *e.at(rr, cc, i)) z /= want; }
        if (!ok) break; if (all) x[a].NormalizeAllSite(); else { double g = x[a].NormalizeSite({r, c}); PBT_ASSERT(std::abs(g - want) <= 1e-11 * want, "NormalizeSite returned " + pbt::show(g) + " expected " + pbt::show(want)); } m[a] = e; break; }
      case 11: { op = "ScaleMaxAbs"; size_t r = s.urange(0, L.R - 1), c = s.urange(0, L.Cc - 1); bool all = s.chance(1, 3); double aim = s.logreal(-2, 2); M e = m[a]; double fac = 0; bool ok = true;
        for (size_t rr = 0; rr < L.R; ++rr) for (size_t cc = 0; cc < L.Cc; ++cc) { if (!all && (rr != r || cc != c)) continue; double q = 0; for (size_t i = 0; i < L.d; ++i) if (e.at(rr, cc, i)) for (auto &z : *e.at(rr, cc, i)) q = std::max(q, std::abs(z)); if (!(q > 1e-20)) { ok = false; break; } fac = q / aim; for (size_t i = 0; i < L.d; ++i) if (e.at(rr, cc, i)) for (auto &z : *e.at(rr, cc, i)) z /= fac; }
        if (!ok) break; if (all) x[a].ScaleMaxAbsForAllSite(aim); else { double g = x[a].ScaleMaxAbsForSite({r, c}, aim); PBT_ASSERT(std::abs(g - fac) <= 1e-11 * fac, "ScaleMaxAbsForSite returned " + pbt::show(g) + " expected " + pbt::show(fac)); } m[a] = e; break; }
      case 12: { op = "ElementWiseSquare"; if (ma > 1e6) break; M e = mapm(m[a], [](cd z) { return z * z; }); int w = (int) s.urange(0, 2); if (w == 0) x[o] = x[a].ElementWiseSquare(); else if (w == 1) x[o] = ElementWiseSquare(x[a]); else { o = a; x[a].ElementWiseSquareInPlace(); } m[o] = e; break; }
      case 13: { op = "ElementWiseSquaredNorm"; if (ma > 1e6) break; M e = mapm(m[a], [](cd z) { return cd(std::norm(z)); }); int w = (int) s.urange(0, 2); if (w == 0) x[o] = x[a].ElementWiseSquaredNorm(); else if (w == 1) x[o] = ElementWiseSquaredNorm(x[a]); else { o = a; x[a].ElementWiseSquaredNormInPlace(); } m[o] = e;
        if (s.boolean()) { op = "ElementWiseSqrt"; M e2 = mapm(m[o], [](cd z) { return std::sqrt(z); }); int w2 = (int) s.urange(0, 2); size_t o2 = o; if (w2 == 0) { o2 = s.urange(0, 2); x[o2] = x[o].ElementWiseSqrt(); } else if (w2 == 1) { o2 = s.urange(0, 2); x[o2] = ElementWiseSqrt(x[o]); } else x[o].ElementWiseSqrtInPlace(); m[o2] = e2; } break; }
      case 14: { op = "ElementWiseInverse"; double eps = s.freq({1, 3}) ? s.logreal(-3, 0) : 1e-12; bool clear = true; for (auto &q : m[a].t) if (q) for (auto &z : *q) { double v = std::abs(z); if (v != 0 && v < 1e-9) clear = false; if (std::abs(v - eps) < 1e-9 * eps) clear = false; } if (!clear) break;
        M e = mapm(m[a], [&](cd z) { return std::abs(z) <= eps ? cd(0) : 1.0 / z; }); int w = (int) s.urange(0, 2); if (w == 0) x[o] = x[a].ElementWiseInverse(eps); else if (w == 1) x[o] = ElementWiseInverse(x[a], eps); else { o = a; x[a].ElementWiseInverseInPlace(eps); } m[o] = e; break; }
      case 15: { op = "ElementWiseClipTo"; double cl = s.logreal(-2, 1); M e = mapm(m[a], [&](cd z) { double v = std::abs(z); return v > cl ? z * (cl / v) : z; }); if (s.boolean()) x[o] = ElementWiseClipTo(x[a], cl); else { o = a; x[a].ElementWiseClipTo(cl); } m[o] = e; break; }
      default: { op = "ClipByGlobalNorm"; double nn = std::sqrt(nsq(m[a])), cl = s.logreal(-1.5, 1.5); if (std::abs(nn - cl) < 1e-9 * cl) break; M e = nn > cl ? mapm(m[a], [&](cd z) { return z * (cl / nn); }) : m[a]; if (s.boolean()) x[o] = ClipByGlobalNorm(x[a], cl); else { o = a; x[a].ClipByGlobalNorm(cl); } m[o] = e; break; }
    }
    s.note(op); ++done; chk(op);
    for (auto &y : m) if (y.mx() > 1e60) return;
    // re-anchor the model so that rounding does not accumulate over the history
    for (size_t q = 0; q < 3; ++q) m[q] = model(x[q]);
  }
  if (done >= 3 && L.R * L.Cc >= 2) s.nontrivial();
}
PBT_PROP(bond_dimension_queries, 400, 20000, "the lattice has at least two inner bonds") {
  Lat L = lat(s, 4, 4, 2, 2); SI x = rstate(s, L, 0, false); std::vector<size_t> all; size_t mx = 1;
  for (size_t r = 0; r < L.R; ++r) for (size_t c = 0; c < L.Cc; ++c) { if (L.vd[r][c]) all.push_back(L.vd[r][c]); if (L.hd[r][c]) all.push_back(L.hd[r][c]); }
  for (auto v : all) mx = std::max(mx, v);
  auto got = x.GetAllInnerBondDimensions(); auto g2 = got, a2 = all; std::sort(g2.begin(), g2.end()); std::sort(a2.begin(), a2.end());
  PBT_ASSERT(g2 == a2, "inner bond dimensions");
  PBT_ASSERT(x.GetMaxBondDimension() == mx, "max bond dimension " + std::to_string(x.GetMaxBondDimension()) + " expected " + std::to_string(mx));
  bool even = true; for (auto v : all) even = even && v == all[0];
  PBT_ASSERT(x.IsBondDimensionEven() == even, std::string("IsBondDimensionEven is ") + (even ? "false for equal" : "true for unequal") + " bond dimensions");
  if (!all.empty()) { PBT_ASSERT(x.GetMinBondDimension() == a2.front(), "min bond dimension"); PBT_ASSERT((x.GetMinMaxBondDimension() == std::pair<size_t, size_t>(a2.front(), a2.back())), "min/max bond dimension"); }
  PBT_ASSERT(x.PhysicalDim() == L.d, "physical dimension");
  TP t(L.R, L.Cc, L.bc); std::mt19937_64 g(s.draw(1u << 20)); for (size_t r = 0; r < L.R; ++r) for (size_t c = 0; c < L.Cc; ++c) { auto ix = L.ix[r][c]; ix.push_back(QG::one(OUT)); T q(ix); tn::fill<E, Q>(q, QG::charge(0), g, 0); t({r, c}) = q; }
  PBT_ASSERT(t.GetMaxBondDimension() == mx, "TPS max bond dimension");
  PBT_ASSERT(t.IsBondDimensionUniform() == even, std::string("TPS IsBondDimensionUniform is ") + (even ? "false for equal" : "true for unequal") + " bond dimensions");
  if (all.size() >= 2) s.nontrivial();
}
#endif

#if defined(PART_C18)
struct Scratch { fs::path p; Scratch() { static int n = 0; p = fs::path(pbt::ScratchDir()) / ("st" + std::to_string(n++)); fs::remove_all(p); fs::create_directories(p); } ~Scratch() { std::error_code e; fs::remove_all(p, e); } std::string path() const { return p.string(); } };
TP rtps(Src &s, const Lat &L, int mode, const IX &phys) {
  std::mt19937_64 g(s.draw(1u << 30)); TP t(L.R, L.Cc, L.bc);
  for (size_t r = 0; r < L.R; ++r) for (size_t c = 0; c < L.Cc; ++c) { auto ix = L.ix[r][c]; ix.push_back(phys); T q(ix); tn::fill<E, Q>(q, QG::charge(0), g, mode); t({r, c}) = q; }
  return t;
}
IX rphys(Src &s, size_t d) { if constexpr (!QG::sym) return IX({QNSector<Q>(Q(), d)}, OUT); else { std::vector<QNSector<Q>> v; size_t a = s.urange(1, d); v.emplace_back(QG::charge(0), a); if (a < d) v.emplace_back(QG::charge(1), d - a); return IX(v, OUT); } }
#ifndef PBT_MPI
PBT_PROP(state_files, 250, 10000, "a state with at least two sites was written and read back, or a damaged directory was presented") {
  Scratch sd; Lat L = lat(s, 3, 3, 2, 3); SI x = rstate(s, L, (int) s.pick(std::vector<int>{0, 3}), false); M m = model(x); SI keep = x;
  std::string p = sd.path() + "/" + s.pick(std::vector<std::string>{"a", "a/b/c", "with space"});
  if (s.chance(1, 3)) {  // something older is already there, of another shape
    Lat L2 = lat(s, 3, 3, 2, 3); SI y = rstate(s, L2, 0, false); y.Dump(p); s.note("older dump present");
  }
  bool rel = s.chance(1, 3), nt = L.R * L.Cc >= 2;
  int fault = (int) s.freq({5, 2, 2, 1, 1, 1, 1, 1});
  auto ten = [&](size_t r, size_t c, size_t i) { return p + "/tps_ten" + std::to_string(r) + "_" + std::to_string(c) + "_" + std::to_string(i) + "." + kQLTenFileSuffix; };
  size_t fr = s.urange(0, L.R - 1), fc = s.urange(0, L.Cc - 1), fi = s.urange(0, L.d - 1);
  if (fault == 1) {  // a tensor file cannot be written
    std::string f = GenSplitIndexTPSTenName(p, fr, fc, fi); fs::remove_all(f); fs::create_directories(f); s.note("blocked tensor file"); bool threw = false;
    try { x.Dump(p, rel); } catch (const std::exception &) { threw = true; }
    PBT_ASSERT(threw, "Dump reported success although tensor file " + f.substr(f.rfind('/')) + " could not be written");
    if (nt) s.nontrivial(); return;
  }
  if (fault == 3) { fs::remove_all(p + "/tps_meta.txt"); fs::create_directories(p + "/tps_meta.txt"); s.note("blocked metadata"); bool threw = false; try { x.Dump(p, false); } catch (const std::exception &) { threw = true; } PBT_ASSERT(threw, "Dump reported success although the metadata could not be written"); return; }
  x.Dump(p, rel);
  if (!rel) { auto e = diff(x, m, 0); PBT_ASSERT(e.empty(), "Dump changed the state: " + e); }
  SI y; if (s.boolean()) { Lat L3 = lat(s, 2, 2, 2, 2); y = rstate(s, L3, 0, false); s.note("load over another state"); }
  if (fault == 2) { fs::remove(GenSplitIndexTPSTenName(p, fr, fc, fi)); s.note("missing tensor file"); PBT_ASSERT(!y.Load(p), "Load succeeded although a tensor file is missing"); if (nt) s.nontrivial(); return; }
  if (fault == 4) { fs::remove(p + "/tps_meta.txt"); s.note("no metadata"); PBT_ASSERT(!y.Load(p), "Load succeeded without metadata"); return; }
  if (fault == 5) { s.note("old format"); fs::remove(p + "/tps_meta.txt"); { std::ofstream o(p + "/phys_dim"); o << L.d; } SI z(L.R, L.Cc, L.bc); PBT_ASSERT(z.Load(p), "old-format load failed"); auto e = diff(z, m, 0); PBT_ASSERT(e.empty(), "old-format load: " + e); PBT_ASSERT(same_legs(z, keep), "old-format load changed legs"); if (nt) s.nontrivial(); return; }
  if (fault == 6) { s.note("metadata without boundary field"); { std::ofstream o(p + "/tps_meta.txt"); o << L.R << " " << L.Cc << " " << L.d; } M e2 = m; e2.bc = BoundaryCondition::Open; PBT_ASSERT(y.Load(p), "load of metadata without boundary field failed"); auto e = diff(y, e2, 0); PBT_ASSERT(e.empty(), "load of metadata without boundary field: " + e); if (nt) s.nontrivial(); return; }
  if (fault == 7) { PBT_ASSERT(!y.Load(sd.path() + "/nowhere"), "Load of a missing directory succeeded"); return; }
  PBT_ASSERT(y.Load(p), "Load failed"); auto e = diff(y, m, 0); PBT_ASSERT(e.empty(), "after Load: " + e); PBT_ASSERT(same_legs(y, keep), "Load changed legs");
  if (rel && s.boolean()) { PBT_ASSERT(x.Load(p), "reload into the released state failed"); auto e3 = diff(x, m, 0); PBT_ASSERT(e3.empty(), "reloaded into the released state: " + e3); }
  if (nt) s.nontrivial();
}
PBT_PROP(tps_files, 200, 8000, "a state with at least two sites was written and read back, or a write failed") {
  Scratch sd; Lat L = lat(s, 3, 3, 2, 3); TP x = rtps(s, L, 0, rphys(s, L.d)); TP keep = x; std::string p = sd.path() + "/t"; bool nt = L.R * L.Cc >= 2;
  size_t fr = s.urange(0, L.R - 1), fc = s.urange(0, L.Cc - 1); int fault = (int) s.freq({4, 1, 1});
  if (fault == 1) { fs::create_directories(GenTPSTenName(p, fr, fc)); bool threw = false; try { x.Dump(p, false); } catch (const std::exception &) { threw = true; } PBT_ASSERT(threw, "TPS::Dump reported success although a tensor file could not be written"); if (nt) s.nontrivial(); return; }
  x.Dump(p, s.boolean()); TP y(s.urange(1, 3), s.urange(1, 3), s.boolean() ? BoundaryCondition::Periodic : BoundaryCondition::Open);
  if (fault == 2) { fs::remove(GenTPSTenName(p, fr, fc)); PBT_ASSERT(!y.Load(p), "TPS::Load succeeded although a tensor file is missing"); return; }
  PBT_ASSERT(y.Load(p), "TPS::Load failed"); PBT_ASSERT(y.rows() == L.R && y.cols() == L.Cc && y.GetBoundaryCondition() == L.bc, "TPS shape or boundary condition after Load");
  for (size_t r = 0; r < L.R; ++r) for (size_t c = 0; c < L.Cc; ++c) PBT_ASSERT(y({r, c}).d_ == keep({r, c}).d_ && y({r, c}).GetIndexes() == keep({r, c}).GetIndexes(), "TPS tensor after Load");
  if (nt) s.nontrivial();
}
#else
PBT_PROP(state_messages, 150, 4000, "a state with at least two sites travelled between two ranks") {
  int me, np; MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &np); std::string bad;
  size_t n = s.urange(1, 3); bool nt = false;
  for (size_t k = 0; k < n; ++k) {
    Lat L = lat(s, 3, 3, 2, 3); SI ref = rstate(s, L, (int) s.pick(std::vector<int>{0, 3}), true); M m = model(ref); Lat L2 = lat(s, 2, 2, 2, 2); SI other = rstate(s, L2, 0, false);
    int root = (int) s.urange(0, np - 1); bool fresh = s.boolean();
    if (s.boolean()) {
      s.note("bcast"); SI v = me == root ? ref : fresh ? SI() : other; qlpeps::MPI_Bcast(v, MPI_COMM_WORLD, root); auto e = diff(v, m, 0); if (!e.empty()) bad = "after MPI_Bcast on rank " + std::to_string(me) + ": " + e; else if (!same_legs(v, ref)) bad = "MPI_Bcast changed legs";
    } else {
      int dst = (int) s.urange(0, np - 1); if (dst == root) dst = (root + 1) % np; int tag = (int) s.urange(0, 9); bool any = s.boolean(); s.note("send");
      if (me == root) { qlpeps::MPI_Send(ref, dst, MPI_COMM_WORLD, tag); auto e = diff(ref, m, 0); if (!e.empty()) bad = "MPI_Send changed the state: " + e; }
      if (me == dst) { SI v = fresh ? SI() : other; MPI_Status st = qlpeps::MPI_Recv(v, any ? MPI_ANY_SOURCE : root, MPI_COMM_WORLD, tag); if (st.MPI_SOURCE != root) bad = "status names rank " + std::to_string(st.MPI_SOURCE); auto e = diff(v, m, 0); if (!e.empty()) bad = "received state: " + e; else if (!same_legs(v, ref)) bad = "received legs differ"; }
    }
    if (L.R * L.Cc >= 2) nt = true;
    ::MPI_Barrier(MPI_COMM_WORLD);  // a wildcard receive must not see the next round's sender
  }
  if (np >= 3 && s.chance(1, 4)) {  // concurrent senders, same tag, wildcard receiver: states must not mix
    int dst = (int) s.urange(0, np - 1); std::vector<SI> st(np); std::vector<M> ms(np); for (int q = 0; q < np; ++q) { Lat L = lat(s, 3, 3, 2, 3); st[q] = rstate(s, L, 0, true); ms[q] = model(st[q]); } s.note("concurrent senders");
    if (me != dst) qlpeps::MPI_Send(st[me], dst, MPI_COMM_WORLD, 5);
    else { std::vector<int> got(np, 0); for (int q = 0; q + 1 < np; ++q) { SI v; MPI_Status sta = qlpeps::MPI_Recv(v, MPI_ANY_SOURCE, MPI_COMM_WORLD, 5); int from = sta.MPI_SOURCE; if (from < 0 || from >= np || from == dst || got[from]++) { bad = "concurrent senders: unexpected source " + std::to_string(from); break; } auto e = diff(v, ms[from], 0); if (!e.empty()) bad = "concurrent senders: state of rank " + std::to_string(from) + ": " + e; } }
    ::MPI_Barrier(MPI_COMM_WORLD);
  }
  PBT_ASSERT(bad.empty(), bad); if (nt) s.nontrivial();
}
#endif
#endif

#if defined(PART_C19)
IX rphys(Src &s, size_t d) { if constexpr (!QG::sym) return IX({QNSector<Q>(Q(), d)}, OUT); else { std::vector<QNSector<Q>> v; size_t a = s.urange(1, d); v.emplace_back(QG::charge(0), a); if (a < d) v.emplace_back(QG::charge(1), d - a); return IX(v, OUT); } }
TP rtps(Src &s, const Lat &L, int mode, const IX &phys) {
  std::mt19937_64 g(s.draw(1u << 30)); TP t(L.R, L.Cc, L.bc);
  for (size_t r = 0; r < L.R; ++r) for (size_t c = 0; c < L.Cc; ++c) { auto ix = L.ix[r][c]; ix.push_back(phys); T q(ix); tn::fill<E, Q>(q, QG::charge(0), g, mode); t({r, c}) = q; }
  return t;
}
// slice of the last leg as plain numbers
std::vector<cd> slice(const T &t, size_t i) { size_t d = t.GetShape()[4]; std::vector<cd> o; for (size_t k = i; k < t.d_.size(); k += d) o.push_back(C(t.d_[k])); return o; }
PBT_PROP(split_group_project, 300, 15000, "at least two sites and physical dimension at least two") {
  Lat L = lat(s, 3, 3, 2, 3); IX ph = rphys(s, L.d); size_t d = L.d; TP t = rtps(s, L, 0, ph); TP keep = t;
  SI x = s.boolean() ? SI::FromTPS(t) : s.boolean() ? ToSplitIndexTPS<E, Q>(t) : SplitPhyIndex<E, Q>(t);
  PBT_ASSERT(x.rows() == L.R && x.cols() == L.Cc && x.GetBoundaryCondition() == L.bc, "shape or boundary condition of the split state");
  for (size_t r = 0; r < L.R; ++r) for (size_t c = 0; c < L.Cc; ++c) {
    PBT_ASSERT(t({r, c}).d_ == keep({r, c}).d_, "conversion changed its input");
    PBT_ASSERT(x({r, c}).size() == d, "physical dimension");
    for (size_t i = 0; i < d; ++i) { auto want = slice(t({r, c}), i); const T &g = x({r, c})[i]; for (int k = 0; k < 4; ++k) PBT_ASSERT(g.GetIndex(k) == t({r, c}).GetIndex(k), "virtual leg changed"); PBT_ASSERT(g.d_.size() == want.size(), "slice size"); for (size_t k = 0; k < want.size(); ++k) PBT_ASSERT(C(g.d_[k]) == want[k], "component " + std::to_string(i) + " of site (" + std::to_string(r) + "," + std::to_string(c) + ") is not the slice of the grouped tensor"); }
  }
  { TP back = x.GroupIndices(ph); PBT_ASSERT(back.GetBoundaryCondition() == L.bc, "boundary condition lost by GroupIndices");
    for (size_t r = 0; r < L.R; ++r) for (size_t c = 0; c < L.Cc; ++c) { const T &a = back({r, c}), &b = t({r, c}); PBT_ASSERT(a.GetShape() == b.GetShape(), "GroupIndices shape"); for (size_t k = 0; k < b.d_.size(); ++k) PBT_ASSERT(a.d_[k] == b.d_[k], "GroupIndices is not the inverse of FromTPS"); } }
  // projection on configurations, with single site updates
  Configuration cf(L.R, L.Cc); for (size_t r = 0; r < L.R; ++r) for (size_t c = 0; c < L.Cc; ++c) cf({r, c}) = s.urange(0, d - 1);
  bool support = true; for (size_t r = 0; r < L.R; ++r) for (size_t c = 0; c < L.Cc; ++c) if (x({r, c})[cf({r, c})].GetActualDataSize() == 0) support = false;
  auto same = [&](const TN &n) { for (size_t r = 0; r < L.R; ++r) for (size_t c = 0; c < L.Cc; ++c) if (!(n({r, c}).d_ == x({r, c})[cf({r, c})].d_)) return false; return true; };
  if (support) {
    TN n = s.boolean() ? x.Project(cf) : TN(x, cf); PBT_ASSERT(n.rows() == L.R && n.cols() == L.Cc && n.GetBoundaryCondition() == L.bc, "network shape or boundary condition"); PBT_ASSERT(same(n), "projected network");
    TN n2(L.R, L.Cc); n2 = n; PBT_ASSERT(n2.GetBoundaryCondition() == L.bc, "boundary condition lost by assignment");
    size_t k = s.urange(0, 4); for (size_t q = 0; q < k; ++q) { size_t r = s.urange(0, L.R - 1), c = s.urange(0, L.Cc - 1), v = s.urange(0, d - 1); if (x({r, c})[v].GetActualDataSize() == 0) continue; cf({r, c}) = v; n.UpdateSiteTensor({r, c}, v, x); PBT_ASSERT(same(n), "network after UpdateSiteTensor"); }
    // errors
    size_t r = s.urange(0, L.R - 1), c = s.urange(0, L.Cc - 1); int w = (int) s.urange(0, 3); Configuration bad = cf; SI y = x; int got = 0;
    if (w == 1) bad({r, c}) = d + s.urange(0, 3); if (w == 2) y({r, c}).clear(); if (w == 3) y({r, c})[cf({r, c})] = T();
    if (w) { try { TN z(y, bad); } catch (const std::out_of_range &) { got = 1; } catch (const std::invalid_argument &) { got = 2; } catch (const std::runtime_error &) { got = 3; }
      PBT_ASSERT(got == (w == 1 ? 1 : 2), std::string(w == 1 ? "state outside the physical dimension" : w == 2 ? "site without tensors" : "default tensor") + (got ? " reported with the wrong exception" : " accepted silently")); }
  } else { bool threw = false; try { TN z(x, cf); } catch (const std::runtime_error &) { threw = true; } PBT_ASSERT(threw, "configuration outside the support accepted silently"); }
  if (L.R * L.Cc >= 2 && d >= 2) s.nontrivial();
}
#if BT < 4
cd amp(const TP &t, const std::vector<size_t> &cfg, bool av) {
  size_t R = t.rows(), K = t.cols(); std::vector<std::vector<tn::Arr>> n(R, std::vector<tn::Arr>(K));
  for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < K; ++c) { const T &q = t({r, c}); for (int i = 0; i < 4; ++i) n[r][c].d[i] = q.GetShape()[i]; n[r][c].v = slice(q, cfg[r * K + c]); if (av) for (auto &z : n[r][c].v) z = std::abs(z); }
  return t.GetBoundaryCondition() == BoundaryCondition::Periodic ? tn::exact_pbc(n) : tn::exact_obc(n);
}
PBT_PROP(superposition, 300, 10000, "at least two states were superposed on a lattice with at least two sites") {
  size_t ns = s.urange(1, 3); Lat L0 = lat(s, 3, 3, 2, 2); if (L0.R * L0.Cc > 6) { ns = std::min<size_t>(ns, 2); } if (L0.ph() && L0.R * L0.Cc > 4) return;
  IX ph = rphys(s, L0.d); std::vector<TP> ts; std::vector<E> co;
  for (size_t k = 0; k < ns; ++k) {
    std::mt19937_64 g(s.draw(1u << 30)); Lat L = L0; auto inv = [](const IX &i) { return qlten::InverseIndex(i); };   // same lattice, own bonds
    std::vector<std::vector<IX>> h(L.R, std::vector<IX>(L.Cc)), v = h; size_t dm = (L.ph() || L.R * L.Cc > 6) ? 1 : 2;
    for (size_t r = 0; r < L.R; ++r) for (size_t c = 0; c < L.Cc; ++c) { h[r][c] = (c + 1 < L.Cc || L.ph()) ? QG::bond(g, dm, OUT) : QG::one(OUT); v[r][c] = (r + 1 < L.R || L.ph()) ? QG::bond(g, dm, OUT) : QG::one(OUT); }
    for (size_t r = 0; r < L.R; ++r) for (size_t c = 0; c < L.Cc; ++c) L.ix[r][c] = {c ? inv(h[r][c - 1]) : L.ph() ? inv(h[r][L.Cc - 1]) : QG::one(IN), v[r][c], h[r][c], r ? inv(v[r - 1][c]) : L.ph() ? inv(v[L.R - 1][c]) : QG::one(IN)};
    ts.push_back(rtps(s, L, (int) s.pick(std::vector<int>{0, 1}), ph));
    double a = s.real(-2, 2), b = s.real(-2, 2); int w = (int) s.freq({6, 1, 1}); co.push_back(w == 1 ? E(0) : w == 2 ? E(-1) : mk(CPLX ? cd(a, b) : cd(a)));
  }
  int form = (int) s.urange(0, 2); if (ns != 2 && form != 2) form = 2; bool coef = form == 1 || (form == 2 && s.boolean()); s.note("form " + std::to_string(form) + (coef ? " with coefficients" : "") + " of " + std::to_string(ns));
  TP w = form == 0 ? WaveFunctionSum(ts[0], ts[1]) : form == 1 ? WaveFunctionSum(co[0], ts[0], co[1], ts[1]) : coef ? WaveFunctionSum(ts, co) : WaveFunctionSum(ts);
  PBT_ASSERT(w.rows() == L0.R && w.cols() == L0.Cc && w.GetBoundaryCondition() == L0.bc, "shape or boundary condition of the sum");
  size_t N = L0.R * L0.Cc, tot = 1; for (size_t k = 0; k < N; ++k) tot *= L0.d; size_t trials = std::min<size_t>(tot, 6); std::mt19937_64 g(s.draw(1u << 20));
  for (size_t q = 0; q < trials; ++q) {
    size_t code = tot <= 6 ? q : g() % tot; std::vector<size_t> cfg(N); for (size_t k = 0; k < N; ++k) { cfg[k] = code % L0.d; code /= L0.d; }
    cd want = 0; double mag = 0; for (size_t k = 0; k < ns; ++k) { cd f = coef ? C(co[k]) : cd(1); want += f * amp(ts[k], cfg, false); mag += std::abs(f) * std::abs(amp(ts[k], cfg, true)); }
    cd got = amp(w, cfg, false);
    PBT_ASSERT(std::abs(got - want) <= 1e-10 * mag + 1e-13, "amplitude " + pbt::show(got.real()) + "+" + pbt::show(got.imag()) + "i expected " + pbt::show(want.real()) + "+" + pbt::show(want.imag()) + "i");
  }
  if (ns >= 2 && N >= 2) s.nontrivial();
}
#endif
#endif
}  // namespace
