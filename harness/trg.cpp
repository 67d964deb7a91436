// C21: TRG contraction of periodic networks.
#include "vmc.hpp"
#include "qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor.h"
namespace {
using namespace qlpeps; using tn::cd; using pbt::Src;
#if BT % 2 == 0
using E = double;
#else
using E = std::complex<double>;
#endif
#if BT / 2 == 0
using Q = qlten::special_qn::TrivialRepQN;
#else
using Q = qlten::special_qn::U1QN;
#endif
using QG = tn::QGen<Q>; using T = QLTensor<E, Q>; using IX = Index<Q>; using TN = TensorNetwork2D<E, Q>; using TRG = TRGContractor<E, Q>; using TP = TRG::TruncateParams;
constexpr bool CPLX = qlten::is_cplx<E>::value;
std::string show(cd z) { return CPLX ? "(" + pbt::show(z.real()) + "," + pbt::show(z.imag()) + ")" : pbt::show(z.real()); }
struct Net { size_t n; std::vector<std::vector<IX>> h, v; };
Net geom(std::mt19937_64 &g, size_t n) {
  Net N{n, std::vector<std::vector<IX>>(n, std::vector<IX>(n)), {}}; N.v = N.h;
  // budget of bonds with more than one state, so that the untruncated flow stays small
  for (size_t r = 0; r < n; ++r) for (size_t c = 0; c < n; ++c) for (int k = 0; k < 2; ++k) { bool big = n <= 3 ? true : n == 4 ? g() % 3 != 0 : n == 6 ? g() % 8 == 0 : g() % 12 == 0; (k ? N.v : N.h)[r][c] = big ? QG::bond(g, n <= 2 ? 3 : 2, OUT) : QG::one(OUT); }
  return N;
}
T site(const Net &N, size_t r, size_t c, std::mt19937_64 &g, int mode) {
  size_t n = N.n; T t({qlten::InverseIndex(N.h[r][(c + n - 1) % n]), N.v[r][c], N.h[r][c], qlten::InverseIndex(N.v[(r + n - 1) % n][c])}); tn::fill<E, Q>(t, QG::charge(0), g, mode);
  double q = 0; for (auto &z : t.d_) q += std::norm(cd(z)); if (q > 0) { double f = std::sqrt(double(t.d_.size()) / q); for (auto &z : t.d_) z *= f; } return t;
}
struct Model { std::vector<std::vector<T>> t; size_t n; cd z() const { return val(false); } double mag() const { double f = 1; for (auto &r : t) for (auto &x : r) { double q = 0; for (auto &y : x.d_) q += std::norm(cd(y)); f *= std::sqrt(q); } return std::abs(val(true)) + 1e-4 * f; }
  cd val(bool a) const { std::vector<std::vector<tn::Arr>> m(n); for (size_t r = 0; r < n; ++r) for (size_t c = 0; c < n; ++c) m[r].push_back(tn::arr(t[r][c])); return tn::exact_pbc(m, a); } };
TN net(const Model &m) { TN x(m.n, m.n, BoundaryCondition::Periodic); for (size_t r = 0; r < m.n; ++r) for (size_t c = 0; c < m.n; ++c) x({r, c}) = m.t[r][c]; return x; }
size_t pick_n(Src &s) { return s.pick(std::vector<size_t>{1, 2, 2, 3, 3, 4, 4, 4, 6, 8}); }
bool small(const Net &N) { for (auto *m : {&N.h, &N.v}) for (size_t k = 0; k < N.n; ++k) { double a = 1, b = 1; for (size_t j = 0; j < N.n; ++j) { a *= (*m)[k][j].dim(); b *= (*m)[j][k].dim(); } if (std::max(a, b) > 300) return false; } return true; }

PBT_PROP(trg_history, 150, 8000, "a lattice of at least 2x2 with at least two operations after the first trace") {
  size_t n = pick_n(s); std::mt19937_64 g(s.draw(1u << 30)); int mode = (int) s.pick(std::vector<int>{0, 1, 0}); Net N = geom(g, n); for (int k = 0; k < 20 && !small(N); ++k) N = geom(g, n); if (!small(N)) return;
  s.note("n=" + std::to_string(n) + " mode " + std::to_string(mode)); s.label("n=" + std::to_string(n));
  Model m; m.n = n; m.t.resize(n); for (size_t r = 0; r < n; ++r) for (size_t c = 0; c < n; ++c) m.t[r].push_back(site(N, r, c, g, mode));
  TRG trg = s.boolean() ? TRG(n, n) : TRG(n, n, TP::SVD(1, 5000, 0.0)); trg.SetTruncateParams(TP::SVD(1, 5000, 0.0)); TN x = net(m); trg.Init(x);
  const double tol = 1e-9;
  auto same = [&](cd v, const Model &mm, const std::string &op) { cd e = mm.z(); PBT_ASSERT(std::abs(v - e) <= tol * mm.mag(), op + " gives " + show(v) + ", the network is worth " + show(e)); };
  same(trg.Trace(x), m, "first Trace"); size_t ops = s.urange(1, 6), done = 0;
  auto repl = [&](Model &mm) { std::vector<std::pair<SiteIdx, T>> v; size_t k = s.freq({1, 4, 4, 2}); size_t r0 = g() % n, c0 = g() % n; for (size_t i = 0; i < k; ++i) { size_t r = r0, c = c0; if (i) { if (s.boolean()) { r = (r0 + (i == 1)) % n; c = (c0 + (i == 2)) % n; } else { r = g() % n; c = g() % n; } } T t = site(N, r, c, g, mode); bool dup = false; for (auto &p : v) dup |= p.first == SiteIdx{r, c}; if (dup) continue; v.push_back({SiteIdx{r, c}, t}); mm.t[r][c] = t; } return v; };
  for (size_t i = 0; i < ops; ++i) {
    switch (s.freq({2, 4, 4, 3, 2, 3, 1, 1})) {
      case 0: same(trg.Trace(x), m, "repeated Trace"); break;
      case 1: { Model q = m; auto v = repl(q); same(trg.EvaluateReplacement(v), q, "EvaluateReplacement of " + std::to_string(v.size()) + " site(s)"); same(trg.Trace(x), m, "Trace after EvaluateReplacement"); break; }
      case 2: { Model q = m; auto v = repl(q); auto t = trg.BeginTrialWithReplacement(v); same(t.amplitude, q, "trial"); same(trg.Trace(x), m, "Trace while a trial is pending"); if (s.boolean()) { trg.CommitTrial(std::move(t)); m = q; x = net(m); } same(trg.Trace(x), m, "Trace after the trial"); break; }
      case 3: { Model a = m, b = m; auto va = repl(a), vb = repl(b); auto ta = trg.BeginTrialWithReplacement(va); auto tb = trg.BeginTrialWithReplacement(vb); same(ta.amplitude, a, "first of two trials"); same(tb.amplitude, b, "second of two trials"); if (s.boolean()) { trg.CommitTrial(std::move(ta)); m = a; } else { trg.CommitTrial(std::move(tb)); m = b; } x = net(m); same(trg.Trace(x), m, "Trace after committing one of two trials"); break; }
      case 4: { Model q = m; repl(q); m = q; x = net(m); trg.ClearCache(); same(trg.Trace(x), m, "Trace after ClearCache"); break; }
      case 5: { if (n == 1) break; TN H = trg.PunchAllHoles(x); PBT_ASSERT(H.rows() == n && H.cols() == n, "hole lattice"); double mag = m.mag();
        for (size_t r = 0; r < n; ++r) for (size_t c = 0; c < n; ++c) {
          const T &h = H({r, c}), &t = m.t[r][c]; PBT_ASSERT(h.GetShape() == t.GetShape(), "hole shape"); for (size_t k = 0; k < 4; ++k) PBT_ASSERT(h.GetIndex(k) == qlten::InverseIndex(t.GetIndex(k)), "hole legs");
          cd v = 0; for (size_t k = 0; k < t.d_.size(); ++k) v += cd(h.d_[k]) * cd(t.d_[k]); double slack = n <= 3 ? tol : 1e-6;
          PBT_ASSERT(std::abs(v - m.z()) <= slack * mag * (n <= 3 ? 1 : 10), "hole closed with its own tensor at (" + std::to_string(r) + "," + std::to_string(c) + ") gives " + show(v) + " instead of " + show(m.z()));
          if (n <= 3) { Model q = m; q.t[r][c] = site(N, r, c, g, mode); cd w = 0; for (size_t k = 0; k < t.d_.size(); ++k) w += cd(h.d_[k]) * cd(q.t[r][c].d_[k]); same(w, q, "hole closed with another tensor"); }
        }
        break; }
      case 6: { TRG cp = trg; Model q = m; auto v = repl(q); auto t = cp.BeginTrialWithReplacement(v); cp.CommitTrial(std::move(t)); same(cp.Trace(net(q)), q, "Trace of a copy"); same(trg.Trace(x), m, "Trace of the original after its copy changed"); break; }
      default: { Model q = m; repl(q); m = q; x = net(m); trg.Init(x); same(trg.Trace(x), m, "Trace after Init"); break; }
    }
    ++done;
  }
  if (n >= 2 && done >= 2) s.nontrivial();
}
// Networks whose true rank is small although their legs are not: a tight cap loses nothing.
PBT_PROP(trg_cap, 60, 3000, "a cap below the untruncated dimension") {
  size_t n = s.pick(std::vector<size_t>{2, 3, 4, 4, 6, 8}), D = s.urange(2, 3); std::mt19937_64 g(s.draw(1u << 30));
  // rank-one bonds: every site tensor is a product of four leg vectors
  Model m; m.n = n; m.t.resize(n); IX bo = IX({QNSector<Q>(QG::charge(0), D)}, OUT), bi = qlten::InverseIndex(bo); std::vector<std::vector<E>> w(4); cd z = 1; std::vector<std::vector<std::array<std::vector<E>, 4>>> vec(n, std::vector<std::array<std::vector<E>, 4>>(n)); double mag = 1;
  for (size_t r = 0; r < n; ++r) for (size_t c = 0; c < n; ++c) { T t({bi, bo, bo, bi}); for (int k = 0; k < 4; ++k) for (size_t i = 0; i < D; ++i) vec[r][c][k].push_back(tn::relem<E>(g, 1)); t.div_ = QG::charge(0); for (size_t a = 0; a < D; ++a) for (size_t b = 0; b < D; ++b) for (size_t e = 0; e < D; ++e) for (size_t f = 0; f < D; ++f) t.d_[((a * D + b) * D + e) * D + f] = vec[r][c][0][a] * vec[r][c][1][b] * vec[r][c][2][e] * vec[r][c][3][f]; t.fix_div(); m.t[r].push_back(t); }
  for (size_t r = 0; r < n; ++r) for (size_t c = 0; c < n; ++c) { cd a = 0, b = 0; double A = 0, B = 0; for (size_t i = 0; i < D; ++i) { cd p = cd(vec[r][c][2][i]) * cd(vec[r][(c + 1) % n][0][i]), q = cd(vec[r][c][1][i]) * cd(vec[(r + 1) % n][c][3][i]); a += p; b += q; A += std::abs(p); B += std::abs(q); } z *= a * b; mag *= A * B; }
  size_t cap = s.urange(1, 3); TRG trg(n, n, TP(1, cap, 0.0)); TN x = net(m); trg.Init(x); cd v = trg.Trace(x); PBT_ASSERT(std::abs(v - z) <= 1e-9 * mag, "rank-one network under cap " + std::to_string(cap) + ": " + show(v) + " expected " + show(z));
  s.note("n=" + std::to_string(n) + " D=" + std::to_string(D) + " cap " + std::to_string(cap)); if (n >= 4) s.nontrivial();
}
PBT_PROP(trg_misuse, 60, 600, "always") {
  s.nontrivial(); std::mt19937_64 g(s.draw(1u << 30)); auto mkn = [&](size_t R, size_t Cc, BoundaryCondition bc) { TN x(R, Cc, bc); IX o = QG::one(OUT), i = QG::one(IN); for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < Cc; ++c) { T t({i, o, o, i}); tn::fill<E, Q>(t, QG::charge(0), g, 0); x({r, c}) = t; } return x; };
  auto thr = [&](auto f) { try { f(); } catch (const std::exception &) { return true; } return false; };
  size_t R = s.urange(1, 13), Cc = s.chance(3, 4) ? R : s.urange(1, 13); BoundaryCondition bc = s.chance(1, 4) ? BoundaryCondition::Open : BoundaryCondition::Periodic; TN x = mkn(R, Cc, bc);
  auto p2 = [](size_t k) { return k && !(k & (k - 1)); }; bool ok = bc == BoundaryCondition::Periodic && R == Cc && (p2(R) || (R % 3 == 0 && p2(R / 3)));
  s.note(std::to_string(R) + "x" + std::to_string(Cc)); TRG t(R, Cc); PBT_ASSERT(thr([&] { t.GetTruncateParams(); }), "parameters read before being set"); PBT_ASSERT(thr([&] { t.Trace(x); }), "Trace before Init accepted");
  bool bad = thr([&] { t.Init(x); }); PBT_ASSERT(bad == !ok, bad ? "supported size refused" : "unsupported network accepted"); if (!ok) return;
  PBT_ASSERT(thr([&] { t.Trace(x); }), "Trace without truncation parameters accepted"); t.SetTruncateParams(TP(1, 4, 0.0)); PBT_ASSERT(t.GetTruncateParams().D_max == 4, "parameters");
  std::vector<std::pair<SiteIdx, T>> v{{SiteIdx{0, 0}, x({0, 0})}}; PBT_ASSERT(thr([&] { t.BeginTrialWithReplacement(v); }) && thr([&] { t.EvaluateReplacement(v); }) && thr([&] { t.CommitTrial(TRG::Trial{}); }), "trial before Trace accepted");
  cd z = t.Trace(x), e = 1; for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < R; ++c) e *= cd(x({r, c}).d_[0]); PBT_ASSERT(std::abs(z - e) <= 1e-9 * std::abs(e), "product of numbers");
  PBT_ASSERT(thr([&] { t.Trace(mkn(R, R, BoundaryCondition::Open)); }), "open network traced");
}
}
