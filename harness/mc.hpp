// Scripted Monte Carlo moves and exact derivatives, shared by the engine, evaluator, measurer and optimiser-executor harnesses.
#pragma once
#ifdef FERMI   // number of local states: 2 spinless fermions, 3 t-J, 4 Hubbard
#include "ferm.hpp"
namespace vmc { using namespace ferm; }
#else
#include "spinham.hpp"
#endif
#ifdef PBC
#include "qlpeps/algorithm/vmc_update/model_solvers/heisenberg_square_pbc.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/square_spin_onehalf_j1j2_xxz_pbc.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_pbc.h"
#endif
#include "qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h"
#include "qlpeps/algorithm/vmc_update/exact_summation_energy_evaluator.h"
#include "qlpeps/algorithm/vmc_update/exact_summation_measurer.h"
#include <csignal>
#include <set>
namespace mc {
using namespace vmc;
#ifdef FERMI
using ferm::Ham; using ferm::Ref; constexpr bool SIGNED = false;   // the sign of a fermionic amplitude is not promised
inline cd rel(cd z) { return std::abs(z); }
#else
using spinham::Ham; using spinham::Ref; constexpr bool SIGNED = true;
inline cd rel(cd z) { return z; }
#endif
using V = std::vector<size_t>; using CV = std::vector<cd>;
struct Quiet { std::streambuf *b, *e; Quiet() : b(std::cout.rdbuf(nullptr)), e(std::cerr.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(b); std::cerr.rdbuf(e); std::cout.clear(); std::cerr.clear(); } };
// stdout dropped, stderr kept: the amplitude-consistency warnings of this rank
struct Capture { std::ostringstream o; std::streambuf *b, *e; Capture() : b(std::cout.rdbuf(nullptr)), e(std::cerr.rdbuf(o.rdbuf())) {} void stop() { if (!b) return; std::cout.rdbuf(b); std::cerr.rdbuf(e); std::cout.clear(); std::cerr.clear(); b = nullptr; } ~Capture() { stop(); }
  size_t warnings() const { size_t n = 0; std::string t = o.str(); for (size_t i = 0; (i = t.find("rel_err=", i)) != std::string::npos; ++i) ++n; return n; } };
template<class P> void draw_warn(pbt::Src &s, P &p) { p.enabled = !s.chance(1, 4); p.master_only = s.boolean(); p.threshold = s.pick(std::vector<double>{-1.0, 1e9, 1e-3, -1.0}); p.max_warnings = s.pick(std::vector<size_t>{1, 3, 50, 0, 7}); p.max_print_elems = s.urange(0, 9); }
// number of warnings after n samples: exact where the threshold leaves no doubt, -1 where it depends on rounding
template<class P> long want_warn(const P &p, int rank, size_t n) { if (!p.enabled || (p.master_only && rank) || p.threshold > 1e6) return 0; return p.threshold < 0 ? (long) std::min(n, p.max_warnings) : -1; }
// A chain that visits prescribed configurations and reports prescribed acceptance rates.
struct Script { std::vector<Configuration> seq; size_t calls = 0, rank = 0; long raise_at = -1; int sig = 0; static double rate(size_t rank, size_t call, int j) { return 0.3 + 0.05 * double((call * 7 + rank * 3 + j * 5) % 11); } const Configuration &at(size_t call) const { return seq[call % seq.size()]; } };
struct Upd {
  std::shared_ptr<Script> sc;
  template<class S_, class W> void operator()(const S_ &x, W &w, std::vector<double> &acc) { if (sc->raise_at == (long) sc->calls) ::raise(sc->sig); bool same = true; for (size_t r = 0; r < x.rows(); ++r) for (size_t c = 0; c < x.cols(); ++c) same = same && w.config({r, c}) == sc->at(sc->calls)({r, c}); if (!same) w = W(x, sc->at(sc->calls), w.trun_para); acc = {Script::rate(sc->rank, sc->calls, 0), Script::rate(sc->rank, sc->calls, 1)}; sc->calls++; }
};
#ifdef FERMI
inline void scale(State &S, double f) { for (size_t i = 0; i < S.N(); ++i) for (size_t c = 0; c < S.d; ++c) for (auto &z : S.x({i / S.Cc, i % S.Cc})[c].d_) z *= f; S.tab.clear(); }
inline void zero_comp(State &S, size_t site, size_t comp) { for (auto &z : S.x({site / S.Cc, site % S.Cc})[comp].d_) z = E(0); S.tab.clear(); }
inline std::vector<CV> deriv(const State &S, size_t k) { return S.deriv(k); }
inline void refresh(State &S) { S.tab.clear(); }
inline bool allowed(const State &S, size_t k) { return S.even(k); }
#else
inline void scale(State &S, double f) { for (size_t r = 0; r < S.R; ++r) for (size_t c = 0; c < S.Cc; ++c) for (size_t i = 0; i < S.d; ++i) { auto &t = S.x({r, c})[i]; for (auto &z : t.d_) z *= f; S.a[r][c][i] = tn::arr(t); } S.tab.clear(); S.have.clear(); }
inline void zero_comp(State &S, size_t site, size_t comp) { size_t r = site / S.Cc, c = site % S.Cc; auto &t = S.x({r, c})[comp]; for (auto &z : t.d_) z = E(0); S.a[r][c][comp] = tn::arr(t); S.tab.clear(); S.have.clear(); }
// conj(d psi / d T_u) per site, in storage order of the site tensor
inline std::vector<CV> deriv(const State &S, size_t k) {
  V v = S.cfg(k); auto n = S.net(v); std::vector<CV> o;
  for (size_t r = 0; r < S.R; ++r) for (size_t c = 0; c < S.Cc; ++c) { auto keep = n[r][c]; T e = S.x({r, c})[v[r * S.Cc + c]]; CV q(e.d_.size()); for (size_t u = 0; u < q.size(); ++u) { for (auto &z : e.d_) z = E(0); e.d_[u] = E(1); n[r][c] = tn::arr(e); q[u] = std::conj(S.pbc ? tn::exact_pbc(n) : tn::exact_obc(n)); } n[r][c] = keep; o.push_back(q); }
  return o;
}
inline void refresh(State &S) { for (size_t r = 0; r < S.R; ++r) for (size_t c = 0; c < S.Cc; ++c) for (size_t i = 0; i < S.d; ++i) S.a[r][c][i] = tn::arr(S.x({r, c})[i]); S.tab.clear(); S.have.clear(); }
inline bool allowed(const State &, size_t) { return true; }
#endif
// gradient-shaped accumulator: [site][component][element]
struct Grad {
  std::vector<std::vector<CV>> g; Grad() = default;
  explicit Grad(const State &S) { g.resize(S.N()); for (size_t i = 0; i < S.N(); ++i) for (size_t c = 0; c < S.d; ++c) g[i].push_back(CV(S.x({i / S.Cc, i % S.Cc})[c].d_.size(), 0.0)); }
  void add(const V &cfg, const std::vector<CV> &d, cd f) { for (size_t i = 0; i < g.size(); ++i) for (size_t u = 0; u < d[i].size(); ++u) g[i][cfg[i]][u] += f * d[i][u]; }
  double maxabs() const { double m = 0; for (auto &a : g) for (auto &b : a) for (auto &z : b) m = std::max(m, std::abs(z)); return m; }
  double norm() const { double m = 0; for (auto &a : g) for (auto &b : a) for (auto &z : b) m += std::norm(z); return std::sqrt(m); }
  // "" if x equals this within tol; components never visited may be absent
  std::string diff(const State &S, const SI &x, double tol, bool need_shape = true) const {
    if (x.rows() != S.R || x.cols() != S.Cc) return "lattice size";
    for (size_t i = 0; i < g.size(); ++i) { auto &xs = x({i / S.Cc, i % S.Cc}); if (xs.size() != S.d) return "number of components at site " + std::to_string(i);
      for (size_t c = 0; c < S.d; ++c) { double mx = 0; for (auto &z : g[i][c]) mx = std::max(mx, std::abs(z)); if (xs[c].IsDefault() || xs[c].d_.size() != g[i][c].size()) { if (mx > tol) return "component " + std::to_string(c) + " of site " + std::to_string(i) + " is missing"; if (!xs[c].IsDefault() && need_shape) return "shape of site " + std::to_string(i); continue; }
        for (size_t u = 0; u < g[i][c].size(); ++u) if (!(std::abs(C(xs[c].d_[u]) - g[i][c][u]) <= tol)) return "site " + std::to_string(i) + " component " + std::to_string(c) + " element " + std::to_string(u) + ": " + show(C(xs[c].d_[u])) + " expected " + show(g[i][c][u]); } }
    return "";
  }
};
inline std::string state_diff(const State &S, const SI &x, double rel) {
  for (size_t i = 0; i < S.N(); ++i) for (size_t c = 0; c < S.d; ++c) { auto &t = x({i / S.Cc, i % S.Cc})[c]; auto &e = S.x({i / S.Cc, i % S.Cc})[c]; if (t.IsDefault() || t.d_.size() != e.d_.size()) return "shape of site " + std::to_string(i); for (size_t u = 0; u < e.d_.size(); ++u) if (!(std::abs(C(t.d_[u]) - C(e.d_[u])) <= rel * std::abs(C(e.d_[u])))) return "site " + std::to_string(i) + " component " + std::to_string(c) + ": " + show(C(t.d_[u])) + " expected " + show(C(e.d_[u])); }
  return "";
}
#ifdef FERMI
template<class X, class Y> using Con = BMPSContractor<X, Y>;
struct Mod { Ham H; size_t terms = 0, Cc = 0; std::string name() const { return mname[H.m]; } };
inline Mod make_mod(Src &s, size_t R, size_t Cc) { Mod m; m.Cc = Cc; m.H = make_ham(s, FERMI == 2 ? SPINLESS : FERMI == 4 ? HUBBARD : (Model) s.range(TJNN, TJV), R, Cc); m.terms = m.H.ts.size() + R * Cc; return m; }
template<class F> void with_mod(const Mod &m, F f) { ferm::with(m.H, m.Cc, f); }
#elif defined(PBC)
template<class X, class Y> using Con = TRGContractor<X, Y>;
struct Mod { int m = 0; double jz = 1, jxy = 1, jz2 = 0, jxy2 = 0; size_t terms = 32; std::string name() const { return m == 0 ? "HeisenbergPBC" : m == 1 ? "J1J2XXZ-PBC" : "TFIsing-PBC"; } };
inline Mod make_mod(Src &s, size_t, size_t) { Mod h; h.m = (int) s.draw(3); auto J = [&] { return s.pick(std::vector<double>{1.0, -1.0, 0.37, 2.5}); }; h.jz = J(); h.jxy = J(); h.jz2 = J(); h.jxy2 = J(); s.note(h.name()); s.label(h.name()); return h; }
template<class F> void with_mod(const Mod &h, F f) { if (h.m == 0) { HeisenbergSquarePBC sv(h.jz, h.jxy); f(sv); } else if (h.m == 1) { SquareSpinOneHalfJ1J2XXZModelPBC sv(h.jz, h.jxy, h.jz2, h.jxy2, 0.0); f(sv); } else { TransverseFieldIsingSquarePBC sv(h.jz); f(sv); } }
#else
template<class X, class Y> using Con = BMPSContractor<X, Y>;
struct Mod { Ham H; size_t terms = 0; std::string name() const { return spinham::mname[H.m]; } };
inline Mod make_mod(Src &s, size_t R, size_t Cc) { Mod m; m.H = spinham::make_ham(s, (spinham::Model) s.freq({3, 3, 2, 2, 2}), R, Cc); m.terms = m.H.b.size() + R * Cc; return m; }
template<class F> void with_mod(const Mod &m, F f) { spinham::with(m.H, f); }
#endif
// exact local energy (open lattices: dense Hamiltonian; torus: a fresh solver on a fresh sample, itself judged by C23); worst = largest magnitude involved / |psi|
inline cd eloc(const State &S, size_t k, const Mod &m, double &worst) {
#ifdef PBC
  Comp w(S.x, S.conf(k), exact_trunc()); cd e; with_mod(m, [&](auto &sv) { e = C(sv.template CalEnergy<E, Q>(&S.x, &w)); }); double mg = 0; for (size_t q = 0; q < S.dim(); ++q) mg = std::max(mg, S.mag(q)); worst = std::max(worst, mg / std::abs(S.psi(k))); return e;
#elif defined(FERMI)
  Ref r(S, k); cd e = r.sum(m.H.ts); worst = std::max(worst, (r.worst + S.mag(k)) / std::abs(r.p)); return e;
#else
  Ref r(S, k); cd e = r.energy(m.H); worst = std::max(worst, (r.worst + S.mag(k)) / std::abs(r.p)); return e;
#endif
}
inline State random_state(Src &s, std::mt19937_64 &g, size_t R, size_t Cc, int sc) {
#ifdef PBC
  State S = make_state(g, R, Cc, 2, 2, s.pick(std::vector<int>{0, 1, 0}), true);
#elif defined(FERMI)
  State S = make_state(g, R, Cc, FERMI == 2 ? spinless() : FERMI == 4 ? hubbard() : tj(), 1, s.pick(std::vector<int>{0, 1, 0}), s.pick(std::vector<double>{0.0, 0.3}));
#else
  State S = make_state(g, R, Cc, 2, 2, s.pick(std::vector<int>{0, 1, 0}), false, s.pick(std::vector<double>{0.0, 0.3}));
#endif
  if (sc) scale(S, std::pow(10.0, sc)); return S;
}
inline std::vector<size_t> resolved(const State &S, double cut = 1e-2) { std::vector<size_t> v; for (size_t k = 0; k < S.dim(); ++k) { double m = S.mag(k); if (m > 0 && std::abs(S.psi(k)) > cut * m) v.push_back(k); } return v; }
inline void lattice(Src &s, size_t &R, size_t &Cc) {
#ifdef PBC
  R = Cc = 2;
#elif defined(FERMI)
  R = s.urange(2, FERMI == 2 ? 3 : 2); Cc = s.urange(2, R == 3 || FERMI == 4 ? 2 : 3);
#else
  R = s.urange(2, 3); Cc = s.urange(2, R == 3 ? 2 : 3);
#endif
}
struct World { MPI_Comm c = MPI_COMM_WORLD; int rk = 0, np = 1; bool own = false; World(Src &s) { int ini = 0; MPI_Initialized(&ini); if (s.boolean()) { int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); MPI_Comm_split(MPI_COMM_WORLD, 0, -r, &c); own = true; } MPI_Comm_rank(c, &rk); MPI_Comm_size(c, &np); } ~World() { if (own) MPI_Comm_free(&c); } };
}  // namespace mc
