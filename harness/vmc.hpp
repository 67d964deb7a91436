// Small random wave functions with all amplitudes tabulated exactly, shared by the Monte Carlo and solver harnesses.
#pragma once
#include "pbt.hpp"
#include "qlten/qlten.h"
#include "tn.hpp"
#include "qlpeps/two_dim_tn/tps/split_index_tps.h"
#include "qlpeps/two_dim_tn/tensor_network_2d/tensor_network_2d.h"
#include "qlpeps/vmc_basic/wave_function_component.h"
#include "qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor.h"
namespace vmc {
using namespace qlpeps; using tn::cd; using pbt::Src;
#ifndef BT
#define BT 0
#endif
#if BT % 2 == 0
using E = double;
#else
using E = std::complex<double>;
#endif
using Q = qlten::special_qn::TrivialRepQN; using QG = tn::QGen<Q>;
using T = QLTensor<E, Q>; using IX = Index<Q>; using SI = SplitIndexTPS<E, Q>; using TN = TensorNetwork2D<E, Q>; 
#ifdef PBC
using Comp = TPSWaveFunctionComponent<E, Q, NoDress, TRGContractor>;
#else
using Comp = TPSWaveFunctionComponent<E, Q>;
#endif

constexpr bool CPLX = qlten::is_cplx<E>::value;
inline cd C(const E &x) { return cd(x); }
inline E mk(cd z) { return tn::mkelem<E>(z.real(), z.imag()); }
inline std::string show(cd z) { return CPLX ? "(" + pbt::show(z.real()) + "," + pbt::show(z.imag()) + ")" : pbt::show(z.real()); }

struct State {
  size_t R, Cc, d; bool pbc; SI x; std::vector<std::vector<std::vector<tn::Arr>>> a; mutable std::vector<cd> tab; mutable std::vector<char> have;
  size_t N() const { return R * Cc; }
  size_t dim() const { size_t n = 1; for (size_t i = 0; i < N(); ++i) n *= d; return n; }
  std::vector<size_t> cfg(size_t k) const { std::vector<size_t> v(N()); for (size_t i = N(); i-- > 0;) { v[i] = k % d; k /= d; } return v; }
  size_t idx(const std::vector<size_t> &v) const { size_t k = 0; for (size_t x_ : v) k = k * d + x_; return k; }
  size_t idx(const Configuration &c) const { size_t k = 0; for (size_t r = 0; r < R; ++r) for (size_t q = 0; q < Cc; ++q) k = k * d + c({r, q}); return k; }
  Configuration conf(size_t k) const { auto v = cfg(k); Configuration c(R, Cc); for (size_t r = 0; r < R; ++r) for (size_t q = 0; q < Cc; ++q) c({r, q}) = v[r * Cc + q]; return c; }
  std::vector<std::vector<tn::Arr>> net(const std::vector<size_t> &v) const { std::vector<std::vector<tn::Arr>> n(R); for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < Cc; ++c) n[r].push_back(a[r][c][v[r * Cc + c]]); return n; }
  cd psi(size_t k) const { if (tab.empty()) { tab.assign(dim(), 0.0); have.assign(dim(), 0); } if (!have[k]) { auto n = net(cfg(k)); tab[k] = pbc ? tn::exact_pbc(n) : tn::exact_obc(n); have[k] = 1; } return tab[k]; }
  cd psi(const std::vector<size_t> &v) const { return psi(idx(v)); }
  double mag(size_t k) const { auto n = net(cfg(k)); return std::abs(pbc ? tn::exact_pbc(n, true) : tn::exact_obc(n, true)); }
};
// mode as in tn::relem. Bond dimensions vary from bond to bond.
inline State make_state(std::mt19937_64 &g, size_t R, size_t Cc, size_t d, size_t dmax, int mode, bool pbc = false, double spread = 0, bool uniform = false) {
  State S; S.R = R; S.Cc = Cc; S.d = d; S.pbc = pbc; S.x = SI(R, Cc, d, pbc ? BoundaryCondition::Periodic : BoundaryCondition::Open);
  std::vector<std::vector<IX>> h(R, std::vector<IX>(Cc)), v = h; IX u = QG::bond(g, dmax, OUT);
  for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < Cc; ++c) { bool he = c + 1 < Cc || pbc, ve = r + 1 < R || pbc; h[r][c] = he ? (uniform ? u : QG::bond(g, dmax, OUT)) : QG::one(OUT); v[r][c] = ve ? (uniform ? u : QG::bond(g, dmax, OUT)) : QG::one(OUT); }
  S.a.assign(R, std::vector<std::vector<tn::Arr>>(Cc)); std::uniform_real_distribution<double> ud(-1, 1);
  for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < Cc; ++c) for (size_t i = 0; i < d; ++i) {
    IX l = c ? qlten::InverseIndex(h[r][c - 1]) : pbc ? qlten::InverseIndex(h[r][Cc - 1]) : QG::one(IN), up = r ? qlten::InverseIndex(v[r - 1][c]) : pbc ? qlten::InverseIndex(v[R - 1][c]) : QG::one(IN);
    T t({l, v[r][c], h[r][c], up}); tn::fill<E, Q>(t, Q(), g, mode); double f = std::pow(10.0, spread * ud(g)); for (auto &z : t.d_) z *= f;
    S.x({r, c})[i] = t; S.a[r][c].push_back(tn::arr(t));
  }
  return S;
}
#ifdef PBC
inline TRGTruncateParams<double> exact_trunc(size_t cap = 4096) { return TRGTruncateParams<double>::SVD(1, cap, 0.0); }
#else
inline BMPSTruncateParams<double> exact_trunc(size_t cap = 256) { return BMPSTruncateParams<double>::SVD(1, cap, 0.0); }
#endif
// Is x consistent with the projection of S on config c?
inline std::string tn_diff(const State &S, const Comp &w) {
  for (size_t r = 0; r < S.R; ++r) for (size_t c = 0; c < S.Cc; ++c) { const T &t = w.tn({r, c}), &e = S.x({r, c})[w.config({r, c})]; if (t.IsDefault() || t.d_ != e.d_ || !(t.GetIndexes() == e.GetIndexes())) return "site (" + std::to_string(r) + "," + std::to_string(c) + ")"; }
  return "";
}
// upper tail of chi-square in units of a standard normal (Wilson-Hilferty)
inline double chi2_z(double x, double k) { if (k <= 0) return 0; double h = 2.0 / (9 * k); return (std::cbrt(x / k) - (1 - h)) / std::sqrt(h); }
}  // namespace vmc
