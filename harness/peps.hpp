// Gamma-lambda states (SquareLatticePEPS): random states, dense vectors in the ordered basis, local environments and
// many-body operators as explicit matrices with fermionic reordering signs.
#pragma once
#include "pbt.hpp"
#include "qlten/qlten.h"
#include "tn.hpp"
#include "qlpeps/two_dim_tn/peps/peps.h"
#include "qlpeps/two_dim_tn/tps/split_index_tps.h"
#include "qlpeps/api/conversions.h"
#include "qlpeps/algorithm/simple_update/simple_update_model_all.h"
namespace pe {
using namespace qlpeps; using tn::cd; using pbt::Src;
#ifndef BT
#define BT 0
#endif
#if BT % 2 == 0
using E = double;
#else
using E = std::complex<double>;
#endif
#if BT / 2 == 0
using Q = qlten::special_qn::TrivialRepQN;
#elif BT / 2 == 1
using Q = qlten::special_qn::U1QN;
#else
using Q = qlten::special_qn::fZ2QN;
#endif
using QG = tn::QGen<Q>; using T = QLTensor<E, Q>; using DT = QLTensor<double, Q>; using IX = Index<Q>; using P = SquareLatticePEPS<E, Q>; using V = std::vector<size_t>; using CV = std::vector<cd>;
constexpr bool CPLX = qlten::is_cplx<E>::value, FERM = Q::IsFermionic(), SYM = QG::sym;
inline cd C(const E &x) { return cd(x); }
inline E mk(cd z) { return tn::mkelem<E>(z.real(), z.imag()); }
inline std::string show(cd z) { return CPLX ? "(" + pbt::show(z.real()) + "," + pbt::show(z.imag()) + ")" : pbt::show(z.real()); }
struct Quiet { std::streambuf *b, *e; Quiet() : b(std::cout.rdbuf(nullptr)), e(std::cerr.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(b); std::cerr.rdbuf(e); std::cout.clear(); std::cerr.clear(); } };
// ---- local space
struct Loc { size_t d; std::vector<int> ch; IX phys; };   // charge of each local state
inline Loc make_loc(size_t d) {
  Loc l; l.d = d;
  if constexpr (!SYM) { l.ch.assign(d, 0); l.phys = IX({QNSector<Q>(Q(), d)}, OUT); }
  else if constexpr (!FERM) { l.ch = d == 2 ? std::vector<int>{1, -1} : std::vector<int>{1, 0, -1}; std::vector<QNSector<Q>> s; for (int q : l.ch) s.emplace_back(QG::charge(q), 1); l.phys = IX(s, OUT); }
  else { l.ch = d == 2 ? std::vector<int>{1, 0} : std::vector<int>{1, 1, 0}; l.phys = IX({QNSector<Q>(QG::charge(1), d - 1), QNSector<Q>(QG::charge(0), 1)}, IN); }
  return l;
}
// ---- operators on n sites: m[out * D + in]
struct Mat { size_t n, D; CV m; cd &at(size_t o, size_t i) { return m[o * D + i]; } cd at(size_t o, size_t i) const { return m[o * D + i]; } };
inline size_t ipow(size_t b, size_t e) { size_t r = 1; while (e--) r *= b; return r; }
inline V digits(size_t k, size_t n, size_t d) { V v(n); for (size_t i = n; i-- > 0;) { v[i] = k % d; k /= d; } return v; }
inline Mat zero(const Loc &l, size_t n) { Mat a{n, ipow(l.d, n), {}}; a.m.assign(a.D * a.D, 0.0); return a; }
inline bool conserves(const Loc &l, size_t n, size_t o, size_t i) { if (!SYM) return true; int a = 0, b = 0; for (size_t q : digits(o, n, l.d)) a += l.ch[q]; for (size_t q : digits(i, n, l.d)) b += l.ch[q]; return FERM ? ((a - b) % 2 == 0) : a == b; }
inline Mat random_herm(std::mt19937_64 &g, const Loc &l, size_t n, bool diag, double f = 1) {
  std::uniform_real_distribution<double> u(-1, 1); Mat a = zero(l, n);
  for (size_t o = 0; o < a.D; ++o) for (size_t i = 0; i <= o; ++i) { if (!conserves(l, n, o, i) || (diag && o != i)) continue; cd z(f * u(g), CPLX && o != i ? f * u(g) : 0.0); a.at(o, i) = z; a.at(i, o) = std::conj(z); }
  return a;
}
inline Mat random_any(std::mt19937_64 &g, const Loc &l, size_t n) { std::uniform_real_distribution<double> u(-1, 1); Mat a = zero(l, n); for (size_t o = 0; o < a.D; ++o) for (size_t i = 0; i < a.D; ++i) if (conserves(l, n, o, i)) a.at(o, i) = cd(u(g), CPLX ? u(g) : 0.0); return a; }
inline Mat mul(const Mat &a, const Mat &b) { Mat c = a; c.m.assign(a.m.size(), 0.0); for (size_t i = 0; i < a.D; ++i) for (size_t k = 0; k < a.D; ++k) if (a.at(i, k) != 0.0) for (size_t j = 0; j < a.D; ++j) c.at(i, j) += a.at(i, k) * b.at(k, j); return c; }
inline double nrm(const Mat &a) { double s = 0; for (auto z : a.m) s += std::norm(z); return std::sqrt(s); }
inline Mat expm(const Mat &h, double f) { Mat a = h; for (auto &z : a.m) z *= f; int k = 0; double n = nrm(a); while (n > 0.25) { n /= 2; ++k; } for (auto &z : a.m) z *= std::pow(0.5, k); Mat r = a, t = a; for (size_t i = 0; i < r.D; ++i) r.at(i, i) += 1.0; for (int q = 2; q < 20; ++q) { t = mul(t, a); for (auto &z : t.m) z /= q; for (size_t i = 0; i < t.m.size(); ++i) r.m[i] += t.m[i]; } while (k--) r = mul(r, r); return r; }
// Hamiltonian tensor in the documented leg order (PEPS side, outer side) per site
inline T ham_tensor(const Loc &l, const Mat &a) {
  size_t n = a.n; IX in = qlten::InverseIndex(l.phys); std::vector<IX> ix;
  if constexpr (!FERM) for (size_t k = 0; k < n; ++k) { ix.push_back(in); ix.push_back(l.phys); }
  else { for (size_t k = 0; k < n; ++k) ix.push_back(l.phys); for (size_t k = 0; k < n; ++k) ix.push_back(in); }
  T t(ix); t.div_ = Q(); qlten::CoorsT c(2 * n);
  for (size_t o = 0; o < a.D; ++o) for (size_t i = 0; i < a.D; ++i) { if (a.at(o, i) == 0.0) continue; V vo = digits(o, n, l.d), vi = digits(i, n, l.d); for (size_t k = 0; k < n; ++k) if (!FERM) { c[2 * k] = vi[k]; c[2 * k + 1] = vo[k]; } else { c[k] = vo[k]; c[2 * n - 1 - k] = vi[k]; } t(c) = mk(a.at(o, i)); }
  if constexpr (FERM) { std::vector<size_t> ax; for (size_t k = 0; k < n; ++k) { ax.push_back(2 * n - 1 - k); ax.push_back(k); } t.Transpose(ax); }
  return t;
}
inline T gate_tensor(const Loc &l, const Mat &a) { size_t n = a.n; std::vector<IX> ix(n, qlten::InverseIndex(l.phys)); ix.insert(ix.end(), n, l.phys); T t(ix); t.div_ = Q(); qlten::CoorsT c; for (size_t o = 0; o < a.D; ++o) for (size_t i = 0; i < a.D; ++i) if (a.at(o, i) != 0.0) { c = digits(i, n, l.d); for (size_t q : digits(o, n, l.d)) c.push_back(q); t(c) = mk(a.at(o, i)); } return t; }
// operator on the listed sites (in that order) of a state in the ordered product basis
inline CV apply(const CV &psi, size_t N, const Loc &l, const V &sites, const Mat &a) {
  CV out(psi.size(), 0.0); size_t n = sites.size();
  auto sign = [&](const V &v) { if (!FERM) return 1.0; V seq = sites; for (size_t i = 0; i < N; ++i) { bool in = false; for (size_t q : sites) in |= q == i; if (!in) seq.push_back(i); } int s = 0; for (size_t x = 0; x < N; ++x) if (l.ch[v[seq[x]]] & 1) for (size_t y = x + 1; y < N; ++y) if (seq[y] < seq[x] && (l.ch[v[seq[y]]] & 1)) s ^= 1; return s ? -1.0 : 1.0; };
  for (size_t k = 0; k < psi.size(); ++k) { if (psi[k] == 0.0) continue; V v = digits(k, N, l.d); size_t in = 0; for (size_t q : sites) in = in * l.d + v[q]; double si = sign(v);
    for (size_t o = 0; o < a.D; ++o) { cd x = a.at(o, in); if (x == 0.0) continue; V vo = digits(o, n, l.d), w = v; for (size_t q = 0; q < n; ++q) w[sites[q]] = vo[q]; size_t kk = 0; for (size_t q : w) kk = kk * l.d + q; out[kk] += x * si * sign(w) * psi[k]; } }
  return out;
}
inline double nrm(const CV &v) { double s = 0; for (auto z : v) s += std::norm(z); return std::sqrt(s); }
inline cd dot(const CV &a, const CV &b) { cd s = 0; for (size_t i = 0; i < a.size(); ++i) s += std::conj(a[i]) * b[i]; return s; }
inline double dist(const CV &a, const CV &b) { if (a.size() != b.size()) return 1e300; double s = 0; for (size_t i = 0; i < a.size(); ++i) s += std::norm(a[i] - b[i]); return std::sqrt(s); }
// ---- networks
enum Leg { W, S, Ea, No };   // west, south, east, north = legs 0..3 of Gamma
template<class X> T absorb(const T &t, size_t leg, const X &lam, size_t ll) { T o, y = lam; Contract(&t, {leg}, &y, {ll}, &o); std::vector<size_t> ax; size_t r = t.Rank(); for (size_t i = 0; i < r; ++i) ax.push_back(i < leg ? i : i == leg ? r - 1 : i - 1); o.Transpose(ax); return o; }
inline const DT &lam(const P &p, size_t r, size_t c, int leg) { return leg == W ? p.GetLambdaHorizWest(r, c) : leg == Ea ? p.GetLambdaHorizEast(r, c) : leg == S ? p.GetLambdaVertSouth(r, c) : p.GetLambdaVertNorth(r, c); }
inline T eat(const P &p, size_t r, size_t c, unsigned mask) { T t = p.Gamma({r, c}); for (int k = 0; k < 4; ++k) if (mask >> k & 1) t = absorb(t, k, lam(p, r, c, k), k == W || k == No ? 1 : 0); return t; }
// contract rank-5 site tensors (legs W, S, E, N, physical) of an open or periodic lattice; physical legs in site order
inline CV contract(const std::vector<T> &ts, size_t R, size_t Cc, bool pbc, bool sign = true) {
  T acc; std::vector<int> lab;
  for (size_t i = 0; i < R * Cc; ++i) {
    size_t r = i / Cc, c = i % Cc; auto hz = [&](size_t rr, size_t cc) { return 1000 + int(rr * Cc + cc); }; auto vt = [&](size_t rr, size_t cc) { return 2000 + int(rr * Cc + cc); }; int op = 4000 + 4 * int(i);   // hz/vt: bond to the west / north of that site
    std::vector<int> lb = {c || pbc ? hz(r, c) : op, r + 1 < R || pbc ? vt((r + 1) % R, c) : op + 1, c + 1 < Cc || pbc ? hz(r, (c + 1) % Cc) : op + 2, r || pbc ? vt(r, c) : op + 3, 3000 + int(i)};
    if (i == 0) { acc = ts[0]; lab = lb; continue; }
    std::vector<size_t> ca, cb; std::vector<int> nl; for (size_t p = 0; p < lab.size(); ++p) { bool hit = false; for (size_t q = 0; q < 5; ++q) if (lab[p] == lb[q]) { ca.push_back(p); cb.push_back(q); hit = true; } if (!hit) nl.push_back(lab[p]); }
    for (size_t q = 0; q < 5; ++q) { bool hit = false; for (size_t z : cb) hit |= z == q; if (!hit) nl.push_back(lb[q]); }
    T o; Contract(&acc, ca, &ts[i], cb, &o); acc = o; lab = nl;
  }
  (void) sign; std::vector<size_t> ax; for (size_t i = 0; i < R * Cc; ++i) for (size_t p = 0; p < lab.size(); ++p) if (lab[p] == 3000 + int(i)) ax.push_back(p); for (size_t p = 0; p < lab.size(); ++p) if (lab[p] >= 4000) ax.push_back(p);
  acc.Transpose(ax); return CV(acc.d_.begin(), acc.d_.end());
}
inline bool is_pbc(const P &p) { return p.GetBoundaryCondition() == BoundaryCondition::Periodic; }
inline CV dense(const P &p) {
  std::vector<T> ts; size_t R = p.Rows(), Cc = p.Cols(); for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < Cc; ++c) ts.push_back(eat(p, r, c, 1u << W | 1u << No | (!is_pbc(p) && c + 1 == Cc ? 1u << Ea : 0) | (!is_pbc(p) && r + 1 == R ? 1u << S : 0)));
  return contract(ts, R, Cc, is_pbc(p));
}
inline CV dense(const TPS<E, Q> &t) { std::vector<T> ts; for (size_t r = 0; r < t.rows(); ++r) for (size_t c = 0; c < t.cols(); ++c) ts.push_back(t({r, c})); return contract(ts, t.rows(), t.cols(), t.GetBoundaryCondition() == BoundaryCondition::Periodic); }
// ---- chains of two or three neighbouring sites: site 0 - 1 (- 2); leg of each site towards the next one
struct Path { std::vector<SiteIdx> s; std::vector<int> leg; V ids; };
inline int opp(int l) { return l == W ? Ea : l == Ea ? W : l == S ? No : S; }
// local environment: all surrounding lambdas absorbed; legs = physical legs of the path, then all outer legs site by site
inline T local_theta(const P &p, const Path &q) {
  T acc = eat(p, q.s[0][0], q.s[0][1], 15); std::vector<int> lab = {0, 1, 2, 3, 100}; for (size_t k = 1; k < q.s.size(); ++k) {
    unsigned m = 15u & ~(1u << opp(q.leg[k - 1])); T b = eat(p, q.s[k][0], q.s[k][1], m); int want = int(k - 1) * 10 + q.leg[k - 1]; size_t a = 0; while (lab[a] != want) ++a; size_t bl = opp(q.leg[k - 1]);
    T o; Contract(&acc, {a}, &b, {bl}, &o); acc = o; std::vector<int> nl; for (size_t i = 0; i < lab.size(); ++i) if (i != a) nl.push_back(lab[i]); for (size_t i = 0; i < 5; ++i) if (i != bl) nl.push_back(i == 4 ? 100 + int(k) : int(k) * 10 + int(i)); lab = nl;
  }
  std::vector<size_t> ax; for (size_t k = 0; k < q.s.size(); ++k) for (size_t i = 0; i < lab.size(); ++i) if (lab[i] == 100 + int(k)) ax.push_back(i); for (size_t i = 0; i < lab.size(); ++i) if (lab[i] < 100) ax.push_back(i);
  acc.Transpose(ax); return acc;
}
inline CV local_apply(const Mat &a, const CV &th) { size_t m = th.size() / a.D; CV o(th.size(), 0.0); for (size_t x = 0; x < a.D; ++x) for (size_t y = 0; y < a.D; ++y) { cd z = a.at(x, y); if (z == 0.0) continue; for (size_t k = 0; k < m; ++k) o[x * m + k] += z * th[y * m + k]; } return o; }
inline CV vec(const T &t) { return CV(t.d_.begin(), t.d_.end()); }
// ---- random states
template<class QQ> Index<QQ> random_bond(std::mt19937_64 &g, size_t dmax, bool open, bool tot) {
  using G = tn::QGen<QQ>; using J = Index<QQ>;
  if constexpr (!G::sym) { return open ? G::one(OUT) : G::bond(g, dmax, OUT); }
  else { if (open) return tot ? J({QNSector<QQ>(G::charge(FERM ? int(g() % 2) : int(g() % 3) - 1), 1)}, OUT) : G::one(OUT);
    if constexpr (QQ::IsFermionic()) { size_t a = 1 + g() % dmax, b = g() % 6 ? 1 + g() % dmax : 0; std::vector<QNSector<QQ>> v; v.emplace_back(G::charge(0), a); if (b) v.emplace_back(G::charge(1), b); return J(v, OUT); } else return G::bond(g, dmax, OUT); }
}
inline P random_peps(std::mt19937_64 &g, const Loc &l, size_t R, size_t Cc, bool pbc, size_t dmax, int mode, bool charged) {
  P p(l.phys, R, Cc, pbc ? BoundaryCondition::Periodic : BoundaryCondition::Open); std::uniform_real_distribution<double> u(0.2, 1.0);
  auto bond = [&](bool open, bool tot) { return random_bond<Q>(g, dmax, open, tot); };
  auto diag = [&](const IX &b) { DT t({qlten::InverseIndex(b), b}); t.div_ = Q(); for (size_t i = 0; i < b.dim(); ++i) t({i, i}) = b.dim() == 1 ? 1.0 : u(g); return t; };
  std::vector<std::vector<IX>> h(R, std::vector<IX>(Cc + 1)), v(R + 1, std::vector<IX>(Cc));
  for (size_t r = 0; r < R; ++r) for (size_t c = 0; c <= Cc; ++c) { if (pbc && c == Cc) h[r][c] = h[r][0]; else { h[r][c] = bond(!pbc && (c == 0 || c == Cc), charged && c == Cc && r + 1 == R); p.lambda_horiz({r, c}) = diag(h[r][c]); } }
  for (size_t c = 0; c < Cc; ++c) for (size_t r = 0; r <= R; ++r) { if (pbc && r == R) v[r][c] = v[0][c]; else { v[r][c] = bond(!pbc && (r == 0 || r == R), false); p.lambda_vert({r, c}) = diag(v[r][c]); } }
  for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < Cc; ++c) { T t({qlten::InverseIndex(h[r][c]), v[r + 1][c], h[r][c + 1], qlten::InverseIndex(v[r][c]), l.phys}); tn::fill<E, Q>(t, Q(), g, mode); p.Gamma({r, c}) = t; }
  return p;
}
inline std::string peps_diff(const P &a, const P &b, const std::set<size_t> &gskip = {}, const std::set<const DT *> &lskip = {}) {
  auto eq = [](auto &x, auto &y) { return x.IsDefault() == y.IsDefault() && x.GetIndexes() == y.GetIndexes() && x.d_ == y.d_; }; if (a.Rows() != b.Rows() || a.Cols() != b.Cols() || a.GetBoundaryCondition() != b.GetBoundaryCondition()) return "shape";
  for (size_t r = 0; r < a.Rows(); ++r) for (size_t c = 0; c < a.Cols(); ++c) if (!gskip.count(r * a.Cols() + c) && !eq(a.Gamma({r, c}), b.Gamma({r, c}))) return "Gamma " + std::to_string(r) + "," + std::to_string(c);
  for (size_t r = 0; r < a.lambda_vert.rows(); ++r) for (size_t c = 0; c < a.lambda_vert.cols(); ++c) if (!lskip.count(&b.lambda_vert({r, c})) && !eq(a.lambda_vert({r, c}), b.lambda_vert({r, c}))) return "lambda_vert " + std::to_string(r) + "," + std::to_string(c);
  for (size_t r = 0; r < a.lambda_horiz.rows(); ++r) for (size_t c = 0; c < a.lambda_horiz.cols(); ++c) if (!lskip.count(&b.lambda_horiz({r, c})) && !eq(a.lambda_horiz({r, c}), b.lambda_horiz({r, c}))) return "lambda_horiz " + std::to_string(r) + "," + std::to_string(c);
  return "";
}
}  // namespace pe
