// Random fermionic wave functions: graded tensors with a one-dimensional parity leg, exact amplitudes in the ordered Fock
// basis (all parity legs kept, sites contracted in row-major order), and many-body Hamiltonians as explicit operator strings.
#pragma once
#include "pbt.hpp"
#include "qlten/qlten.h"
#include "tn.hpp"
#include "qlpeps/two_dim_tn/tps/split_index_tps.h"
#include "qlpeps/two_dim_tn/tensor_network_2d/tensor_network_2d.h"
#include "qlpeps/vmc_basic/wave_function_component.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/square_spinless_fermion.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/square_hubbard_model.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/square_tJ_model.h"
#include <map>
#include <functional>
namespace ferm {
using namespace qlpeps; using tn::cd; using pbt::Src;
#ifndef BT
#define BT 0
#endif
#if BT % 2 == 0
using E = double;
#else
using E = std::complex<double>;
#endif
using Q = qlten::special_qn::fZ2QN; using QG = tn::QGen<Q>;
using T = QLTensor<E, Q>; using IX = Index<Q>; using SI = SplitIndexTPS<E, Q>; using TN = TensorNetwork2D<E, Q>; using Comp = TPSWaveFunctionComponent<E, Q>;
using V = std::vector<size_t>; using CV = std::vector<cd>;
constexpr bool CPLX = qlten::is_cplx<E>::value;
inline cd C(const E &x) { return cd(x); }
inline E mk(cd z) { return tn::mkelem<E>(z.real(), z.imag()); }
inline std::string show(cd z) { return CPLX ? "(" + pbt::show(z.real()) + "," + pbt::show(z.imag()) + ")" : pbt::show(z.real()); }
// local basis -> (n_up, n_down)
struct Local { std::vector<std::pair<int, int>> occ; int par(size_t i) const { return (occ[i].first + occ[i].second) % 2; } };
inline Local spinless() { return {{{1, 0}, {0, 0}}}; }
inline Local tj() { return {{{1, 0}, {0, 1}, {0, 0}}}; }
inline Local hubbard() { return {{{1, 1}, {1, 0}, {0, 1}, {0, 0}}}; }
struct State {
  size_t R, Cc, d; static constexpr bool pbc = false; Local loc; SI x; mutable std::map<size_t, cd> tab;
  size_t N() const { return R * Cc; }
  size_t dim() const { size_t n = 1; for (size_t i = 0; i < N(); ++i) n *= d; return n; }
  V cfg(size_t k) const { V v(N()); for (size_t i = N(); i-- > 0;) { v[i] = k % d; k /= d; } return v; }
  size_t idx(const V &v) const { size_t k = 0; for (size_t q : v) k = k * d + q; return k; }
  size_t idx(const Configuration &c) const { size_t k = 0; for (size_t r = 0; r < R; ++r) for (size_t q = 0; q < Cc; ++q) k = k * d + c({r, q}); return k; }
  Configuration conf(size_t k) const { auto v = cfg(k); Configuration c(R, Cc); for (size_t r = 0; r < R; ++r) for (size_t q = 0; q < Cc; ++q) c({r, q}) = v[r * Cc + q]; return c; }
  bool even(size_t k) const { int p = 0; for (size_t q : cfg(k)) p ^= loc.par(q); return !p; }
  const T &site(size_t i, size_t q) const { return x({i / Cc, i % Cc})[q]; }
  // amplitude of the ordered product of local states; site `rep` (if given) holds *t instead of its own tensor
  cd amp(const V &v, size_t rep = size_t(-1), const T *t = nullptr) const {
    T acc; std::vector<int> lab; bool first = true; // labels: 1000+i down leg of i, 2000+i right leg, 3000+i parity leg, 4000.. boundary
    for (size_t i = 0; i < N(); ++i) {
      const T &b = i == rep ? *t : site(i, v[i]); size_t r = i / Cc, c = i % Cc; std::vector<int> lb = {c ? 2000 + int(i) - 1 : 4000 + 4 * int(i), r + 1 < R ? 1000 + int(i) : 4001 + 4 * int(i), c + 1 < Cc ? 2000 + int(i) : 4002 + 4 * int(i), r ? 1000 + int(i) - int(Cc) : 4003 + 4 * int(i), 3000 + int(i)};
      if (first) { acc = b; lab = lb; first = false; continue; }
      std::vector<size_t> ca, cb; std::vector<int> nl; for (size_t p = 0; p < lab.size(); ++p) { bool hit = false; for (size_t q = 0; q < lb.size(); ++q) if (lab[p] == lb[q] && lab[p] < 3000) { ca.push_back(p); cb.push_back(q); hit = true; } if (!hit) nl.push_back(lab[p]); }
      for (size_t q = 0; q < lb.size(); ++q) { bool hit = false; for (size_t z : cb) if (z == q) hit = true; if (!hit) nl.push_back(lb[q]); }
      T o; Contract(&acc, ca, &b, cb, &o); acc = o; lab = nl;
    }
    std::vector<size_t> ax; for (size_t i = 0; i < N(); ++i) for (size_t p = 0; p < lab.size(); ++p) if (lab[p] == 3000 + int(i)) ax.push_back(p); for (size_t p = 0; p < lab.size(); ++p) if (lab[p] >= 4000) ax.push_back(p);
    acc.Transpose(ax); return acc.d_.empty() ? cd(0) : C(acc.d_.at(0));
  }
  cd psi(size_t k) const { if (!even(k)) return 0; auto it = tab.find(k); if (it != tab.end()) return it->second; return tab[k] = amp(cfg(k)); }
  cd psi(const V &v) const { return psi(idx(v)); }
  double mag(size_t k) const { if (!even(k)) return 0; V v = cfg(k); std::vector<std::vector<tn::Arr>> n(R); for (size_t i = 0; i < N(); ++i) { tn::Arr a; const T &t = site(i, v[i]); for (int q = 0; q < 4; ++q) a.d[q] = t.GetShape()[q]; a.v.assign(t.d_.begin(), t.d_.end()); n[i / Cc].push_back(a); } return std::abs(tn::exact_obc(n, true)); }
  // conj(d psi / d T) for every element of every active tensor, zero where the symmetry forbids an entry
  std::vector<CV> deriv(size_t k) const {
    V v = cfg(k); std::vector<CV> o;
    for (size_t i = 0; i < N(); ++i) { T e = site(i, v[i]); CV q(e.d_.size(), 0.0); e.each([&](size_t u, const qlten::CoorsT &) { T f = e; for (auto &z : f.d_) z = E(0); f.d_[u] = E(1); q[u] = std::conj(amp(v, i, &f)); }); o.push_back(q); }
    return o;
  }
};
inline T site_tensor(std::mt19937_64 &g, const IX &l, const IX &dn, const IX &r, const IX &up, int par, int mode) { T t({l, dn, r, up, IX({QNSector<Q>(Q(par), 1)}, IN)}); tn::fill<E, Q>(t, Q(0), g, mode); return t; }
inline State make_state(std::mt19937_64 &g, size_t R, size_t Cc, const Local &loc, size_t dmax, int mode, double spread = 0, bool full = false) {
  State S; S.R = R; S.Cc = Cc; S.loc = loc; S.d = loc.occ.size(); S.x = SI(R, Cc, S.d);
  auto bond = [&]() { size_t a = 1 + g() % dmax, b = 1 + g() % dmax; if (g() % 5 == 0 && !full) b = 0; std::vector<QNSector<Q>> v; v.emplace_back(Q(0), a); if (b) v.emplace_back(Q(1), b); return IX(v, OUT); };
  std::vector<std::vector<IX>> h(R, std::vector<IX>(Cc)), v = h; for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < Cc; ++c) { h[r][c] = c + 1 < Cc ? bond() : QG::one(OUT); v[r][c] = r + 1 < R ? bond() : QG::one(OUT); }
  std::uniform_real_distribution<double> ud(-1, 1);
  for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < Cc; ++c) for (size_t i = 0; i < S.d; ++i) {
    IX l = c ? qlten::InverseIndex(h[r][c - 1]) : QG::one(IN), up = r ? qlten::InverseIndex(v[r - 1][c]) : QG::one(IN); T t = site_tensor(g, l, v[r][c], h[r][c], up, loc.par(i), mode);
    double f = std::pow(10.0, spread * ud(g)); for (auto &z : t.d_) z *= f; S.x({r, c})[i] = t;
  }
  return S;
}
// ---- operator strings. Mode of (site, spin) = 2*site + spin; |n> = product over modes in increasing order of c^dag, applied to the vacuum.
struct Op { size_t mode; bool cr; };
struct Term { double f; std::vector<Op> ops; size_t i, j; };   // f * ops[0] ops[1] ... ; belongs to the pair (i, j) (i == j: on-site)
struct Ref {
  const State &S; size_t k; V v; cd p; double worst = 0; std::vector<char> n0; std::function<double(const V &)> dress;   // optional ratio of a classical factor
  Ref(const State &s, size_t k_) : S(s), k(k_), v(s.cfg(k_)), p(s.psi(k_)) { n0.assign(2 * v.size(), 0); for (size_t i = 0; i < v.size(); ++i) { n0[2 * i] = S.loc.occ[v[i]].first; n0[2 * i + 1] = S.loc.occ[v[i]].second; } }
  cd term(const Term &t) {
    auto n = n0; double sg = 1; for (size_t q = t.ops.size(); q-- > 0;) { auto &o = t.ops[q]; if (bool(n[o.mode]) == o.cr) return 0; for (size_t m = 0; m < o.mode; ++m) if (n[m]) sg = -sg; n[o.mode] = o.cr; }
    V w(v.size()); for (size_t i = 0; i < v.size(); ++i) { bool ok = false; for (size_t q = 0; q < S.d; ++q) if (S.loc.occ[q] == std::make_pair(int(n[2 * i]), int(n[2 * i + 1]))) { w[i] = q; ok = true; } if (!ok) return 0; }
    size_t q = S.idx(w); if (q != k) worst = std::max(worst, S.mag(q)); return t.f * sg * (q == k ? cd(1) : std::conj(S.psi(q) / p) * (dress ? dress(w) : 1.0));
  }
  cd sum(const std::vector<Term> &ts) { cd e = 0; for (auto &t : ts) e += term(t); return e; }
  cd pair(const std::vector<Term> &ts, size_t i, size_t j) { cd e = 0; for (auto &t : ts) if ((t.i == i && t.j == j) || (t.i == j && t.j == i)) e += term(t); return e; }
  double tol(size_t terms) const { return 1e-9 * (1 + (worst + S.mag(k)) / std::abs(p)) * (1 + terms); }
};
inline size_t md(size_t site, int spin) { return 2 * site + spin; }
enum Model { SPINLESS, TJNN, TJNNN, TJV, HUBBARD };
inline const char *mname[] = {"spinless fermion", "t-J", "t-J NNN", "t-J-V", "Hubbard"};
struct Ham { Model m; std::vector<Term> ts; double t = 1, t2 = 0, J = 0, Vv = 0, mu = 0, U = 0, pin = 0; size_t pa = 0, pb = 0; bool rev = false; bool pinned = false; };
inline Local local(Model m) { return m == SPINLESS ? spinless() : m == HUBBARD ? hubbard() : tj(); }
inline std::vector<Term> singlet(size_t i, size_t j, double f, bool dag) {   // Delta^dag = (c+_iu c+_jd - c+_id c+_ju)/sqrt 2, and its adjoint
  double s = f / std::sqrt(2.0); if (dag) return {{s, {{md(i, 0), true}, {md(j, 1), true}}, i, j}, {-s, {{md(i, 1), true}, {md(j, 0), true}}, i, j}};
  return {{s, {{md(j, 1), false}, {md(i, 0), false}}, i, j}, {-s, {{md(j, 0), false}, {md(i, 1), false}}, i, j}};
}
inline Ham make_ham(Src &s, Model m, size_t R, size_t Cc) {
  Ham H; H.m = m; auto J = [&] { return s.pick(std::vector<double>{1.0, -1.0, 0.37, 2.5, 0.0}); }; auto id = [&](size_t r, size_t c) { return r * Cc + c; };
  H.t = J(); if (m == SPINLESS) { H.t2 = s.boolean() ? J() : 0.0; H.Vv = J(); } if (m == TJNN || m == TJNNN || m == TJV) { H.J = J(); H.mu = J(); } if (m == TJNNN || m == TJV) H.t2 = J(); if (m == TJV) H.Vv = J(); if (m == HUBBARD) { H.U = J(); H.mu = J(); }
  auto hop = [&](size_t i, size_t j, double t) { for (int sp = 0; sp < (m == SPINLESS ? 1 : 2); ++sp) { H.ts.push_back({-t, {{md(i, sp), true}, {md(j, sp), false}}, i, j}); H.ts.push_back({-t, {{md(j, sp), true}, {md(i, sp), false}}, i, j}); } };
  auto dens = [&](size_t i, int a, size_t j, int b, double f) { H.ts.push_back({f, {{md(i, a), true}, {md(i, a), false}, {md(j, b), true}, {md(j, b), false}}, i, j}); };
  auto nn = [&](size_t i, size_t j) {
    hop(i, j, H.t); if (m == SPINLESS) { dens(i, 0, j, 0, H.Vv); return; } if (m == HUBBARD) return;
    for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) dens(i, a, j, b, H.J * (a == b ? 0.25 : -0.25) - 0.25 * H.J + H.Vv);
    H.ts.push_back({0.5 * H.J, {{md(i, 0), true}, {md(i, 1), false}, {md(j, 1), true}, {md(j, 0), false}}, i, j}); H.ts.push_back({0.5 * H.J, {{md(i, 1), true}, {md(i, 0), false}, {md(j, 0), true}, {md(j, 1), false}}, i, j});
  };
  for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < Cc; ++c) {
    if (c + 1 < Cc) nn(id(r, c), id(r, c + 1)); if (r + 1 < R) nn(id(r, c), id(r + 1, c));
    if (r + 1 < R && c + 1 < Cc && H.t2 != 0) { hop(id(r, c), id(r + 1, c + 1), H.t2); hop(id(r + 1, c), id(r, c + 1), H.t2); }
    size_t i = id(r, c); if (m != SPINLESS) for (int sp = 0; sp < 2; ++sp) H.ts.push_back({-H.mu, {{md(i, sp), true}, {md(i, sp), false}}, i, i}); if (m == HUBBARD) H.ts.push_back({H.U, {{md(i, 0), true}, {md(i, 0), false}, {md(i, 1), true}, {md(i, 1), false}}, i, i});
  }
  if (m != SPINLESS && m != HUBBARD && s.chance(1, 2)) {
    bool hz = s.boolean(); size_t r = s.urange(0, R - 1 - !hz), c = s.urange(0, Cc - 1 - hz); H.pa = id(r, c); H.pb = hz ? H.pa + 1 : H.pa + Cc; H.pin = s.pick(std::vector<double>{0.6, -1.2}); H.pinned = true; H.rev = s.boolean();
    for (bool dg : {true, false}) for (auto &t : singlet(H.pa, H.pb, H.pin, dg)) H.ts.push_back(t);
  }
  s.note(std::string(mname[m]) + " " + std::to_string(R) + "x" + std::to_string(Cc) + " t=" + pbt::show(H.t) + " t2=" + pbt::show(H.t2) + " J=" + pbt::show(H.J) + " V=" + pbt::show(H.Vv) + " mu=" + pbt::show(H.mu) + " U=" + pbt::show(H.U) + (H.pinned ? " pinned bond " + std::to_string(H.pa) + "-" + std::to_string(H.pb) + " " + pbt::show(H.pin) : "")); s.label(mname[m]);
  return H;
}
template<class F> void with(const Ham &H, size_t Cc, F f) {
  auto pin = [&](auto &sv) { if (H.pinned) { SiteIdx a{H.pa / Cc, H.pa % Cc}, b{H.pb / Cc, H.pb % Cc}; if (H.rev) std::swap(a, b); sv.SetSingletPairPinningField(a, b, H.pin); } f(sv); };
  switch (H.m) {
    case SPINLESS: if (H.t2 == 0) { SquareSpinlessFermion sv(H.t, H.Vv); f(sv); } else { SquareSpinlessFermion sv(H.t, H.t2, H.Vv); f(sv); } break;
    case TJNN: { SquaretJNNModel sv(H.t, H.J, H.mu); pin(sv); } break;
    case TJNNN: { SquaretJNNNModel sv(H.t, H.t2, H.J, H.mu); pin(sv); } break;
    case TJV: { SquaretJVModel sv(H.t, H.t2, H.J, H.Vv, H.mu); pin(sv); } break;
    case HUBBARD: { SquareHubbardModel sv(H.t, H.U, H.mu); f(sv); } break;
  }
}
inline BMPSTruncateParams<double> exact_trunc(size_t cap = 512) { return BMPSTruncateParams<double>::SVD(1, cap, 0.0); }
inline std::string tn_diff(const State &S, const Comp &w) { for (size_t i = 0; i < S.N(); ++i) { const T &t = w.tn({i / S.Cc, i % S.Cc}), &e = S.site(i, w.config({i / S.Cc, i % S.Cc})); if (t.IsDefault() || t.d_ != e.d_ || !(t.GetIndexes() == e.GetIndexes())) return "site " + std::to_string(i); } return ""; }
}  // namespace ferm
