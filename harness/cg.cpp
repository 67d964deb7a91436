// C16 conjugate-gradient solver, serial and distributed, against dense algebra; with fault injection in the product.
#include "pbt.hpp"
#include <complex>
#include "qlten/qlten.h"
#include "qlpeps/utility/conjugate_gradient_solver.h"
using pbt::Src; using cd = std::complex<double>;
namespace la {
template<class T> struct Vec {
  std::vector<T> d; Vec() = default; explicit Vec(size_t n) : d(n, T(0)) {}
  double NormSquare() const { double s = 0; for (auto &x : d) s += std::norm(x); return s; }
  Vec &operator+=(const Vec &o) { for (size_t i = 0; i < d.size(); ++i) d[i] += o.d[i]; return *this; }
  bool operator==(const Vec &o) const { return d == o.d; }
};
template<class T> T cj(T x) { if constexpr (std::is_same_v<T, cd>) return std::conj(x); else return x; }
template<class T> T operator*(const Vec<T> &a, const Vec<T> &b) { T s(0); for (size_t i = 0; i < a.d.size(); ++i) s += cj(a.d[i]) * b.d[i]; return s; }
template<class T> Vec<T> operator+(Vec<T> a, const Vec<T> &b) { a += b; return a; }
template<class T> Vec<T> operator-(Vec<T> a, const Vec<T> &b) { for (size_t i = 0; i < a.d.size(); ++i) a.d[i] -= b.d[i]; return a; }
template<class T> Vec<T> operator*(double c, Vec<T> a) { for (auto &x : a.d) x *= c; return a; }
inline Vec<cd> operator*(cd c, Vec<cd> a) { for (auto &x : a.d) x *= c; return a; }
template<class T> struct Mat {
  size_t n = 0; std::vector<T> a; mutable size_t count = 0; size_t fault = ~size_t(0); double fval = 0;
  Vec<T> mul(const Vec<T> &v) const { Vec<T> r(n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) r.d[i] += a[i * n + j] * v.d[j]; return r; }
  Vec<T> operator*(const Vec<T> &v) const { Vec<T> r = mul(v); if (count++ >= fault) r.d[0] = fval; return r; }
};
template<class T> MPI_Datatype ty() { return std::is_same_v<T, cd> ? MPI_C_DOUBLE_COMPLEX : MPI_DOUBLE; }
template<class T> void MPI_Bcast(Vec<T> &v, const MPI_Comm &c) { int n = (int) v.d.size(); ::MPI_Bcast(&n, 1, MPI_INT, 0, c); v.d.resize(n); ::MPI_Bcast(v.d.data(), n, ty<T>(), 0, c); }
template<class T> void MPI_Send(const Vec<T> &v, int to, const MPI_Comm &c, int tag) { ::MPI_Send(v.d.data(), (int) v.d.size(), ty<T>(), to, tag, c); }
template<class T> MPI_Status MPI_Recv(Vec<T> &v, int from, const MPI_Comm &c, int tag) { MPI_Status st; ::MPI_Probe(from, tag, c, &st); int n; MPI_Get_count(&st, ty<T>(), &n); v.d.resize(n); MPI_Status s2; ::MPI_Recv(v.d.data(), n, ty<T>(), st.MPI_SOURCE, tag, c, &s2); return s2; }
}  // namespace la
using namespace la; using namespace qlpeps;
namespace {
template<class T> T rnd(Src &s) { double a = 2 * s.unit() - 1, b = 2 * s.unit() - 1; if constexpr (std::is_same_v<T, cd>) return cd(a, b); else return a; }
struct Quiet { std::streambuf *b; Quiet() : b(std::cout.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(b); std::cout.clear(); } };
// A = U diag(e) U^dagger with U a product of reflections
template<class T> Mat<T> herm(Src &s, const std::vector<double> &e) {
  size_t n = e.size(); Mat<T> m; m.n = n; m.a.assign(n * n, T(0)); for (size_t i = 0; i < n; ++i) m.a[i * n + i] = e[i];
  for (int k = 0; k < 2; ++k) {
    Vec<T> w(n); for (auto &x : w.d) x = rnd<T>(s); double nn = w.NormSquare(); if (nn < 1e-3) continue;
    auto refl = [&](std::vector<T> &a, bool left) { for (size_t c = 0; c < n; ++c) { T q(0); for (size_t i = 0; i < n; ++i) q += left ? cj(w.d[i]) * a[i * n + c] : a[c * n + i] * w.d[i]; q *= 2 / nn; for (size_t i = 0; i < n; ++i) if (left) a[i * n + c] -= w.d[i] * q; else a[c * n + i] -= q * cj(w.d[i]); } };
    refl(m.a, true); refl(m.a, false);
  }
  for (size_t i = 0; i < n; ++i) { m.a[i * n + i] = std::real(m.a[i * n + i]); for (size_t j = 0; j < i; ++j) m.a[i * n + j] = cj(m.a[j * n + i]); }
  return m;
}
template<class T> void solve(Src &s) {
#ifdef PBT_MPI
  int me, np; MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &np); MPI_Comm comm = MPI_COMM_WORLD;
#else
  int me = 0, np = 1;
#endif
  size_t n = s.urange(1, 8); int kind = s.freq({6, 2, 1}); double scale = s.chance(1, 2) ? 1.0 : s.logreal(-8, 8), cond = s.logreal(0, 3);
  size_t distinct = s.urange(1, n); std::vector<double> lv, e; for (size_t i = 0; i < distinct; ++i) lv.push_back(scale * (distinct == 1 ? 1.0 : std::pow(cond, -(double) i / (double) (distinct - 1)))); for (size_t i = 0; i < n; ++i) e.push_back(lv[i % distinct]);
  if (kind == 1) { size_t k = s.urange(0, n - 1); e[k] = -e[k]; } if (kind == 2) for (auto &x : e) x = -x;
  Mat<T> A = herm<T>(s, e); double an = scale;
  Vec<T> b(n), x0(n); double bs = s.chance(1, 2) ? 1.0 : s.logreal(-6, 6); for (auto &x : b.d) x = rnd<T>(s) * bs; if (s.chance(1, 12)) b = Vec<T>(n);
  int x0k = s.freq({3, 2, 1}); if (x0k == 1) for (auto &x : x0.d) x = rnd<T>(s) * bs / scale; 
  if (x0k == 2) { for (auto &x : x0.d) x = rnd<T>(s); b = A.mul(x0); }  // start at the solution
  ConjugateGradientParams p; p.max_iter = s.freq({5, 1}) == 0 ? 100 : s.urange(0, n); p.relative_tolerance = s.chance(1, 8) ? 0.0 : s.logreal(-9, -2); p.absolute_tolerance = s.chance(2, 3) ? 0.0 : s.logreal(-10, -1);
  p.residual_recompute_interval = (int) s.pick(std::vector<size_t>{0, 1, 2, 3, 20, 50}); if (s.chance(1, 6)) p.orthogonality_threshold = s.logreal(-3, 1);
  size_t fault = s.chance(1, 6) ? s.urange(0, n + 2) : ~size_t(0); double fval = s.pick(std::vector<double>{NAN, INFINITY, -INFINITY, 1e300});
  s.label(kind == 0 ? "positive" : kind == 1 ? "indefinite" : "negative"); if (fault != ~size_t(0)) s.label("fault");
  Mat<T> M = A; M.fault = fault; M.fval = fval; std::string bad; auto chk = [&](bool ok, const std::string &m) { if (!ok && bad.empty()) bad = m; };
  Vec<T> b1 = b, x1 = x0; CGResult<Vec<T>> r;
  {
    Quiet q;
#ifdef PBT_MPI
    // split the operator over the ranks: random shares that add up
    int frank = (int) s.urange(0, np - 1); std::vector<std::vector<T>> part(np, std::vector<T>(n * n, T(0))); for (size_t i = 0; i < n * n; ++i) { T rest = A.a[i]; for (int k = 1; k < np; ++k) { T sh = A.a[i] * (s.unit() - 0.3); part[k][i] = sh; rest -= sh; } part[0][i] = rest; }
    M.a = part[me]; if (me != frank) M.fault = ~size_t(0);
    r = ConjugateGradientSolver(M, b1, x1, p, comm);
#else
    r = ConjugateGradientSolver(M, b1, x1, p);
#endif
  }
  if (me == 0) {
    Vec<T> x = r.x; chk(x.d.size() == n, "size of solution");
    if (bad.empty()) {
      Vec<T> rv = b - A.mul(x); double tr = std::sqrt(rv.NormSquare()), bn = std::sqrt(b.NormSquare()), xn = std::sqrt(x.NormSquare()), r0 = std::sqrt((b - A.mul(x0)).NormSquare());
      double drift = 1e-12 * (bn + an * (xn + std::sqrt(x0.NormSquare())) + r0) * (fault != ~size_t(0) ? 1 : 1) * (kind == 0 ? 1 : 1e6); double tol = std::max(p.relative_tolerance * bn, p.absolute_tolerance);
      chk(r.iterations <= p.max_iter, "more iterations than allowed"); chk(r.converged() == (r.reason == CGTerminationReason::kConverged), "converged flag");
      if (fault == 0 && fval != 1e300) chk(!r.converged() && x == x0, "first product broken: must hand back the start, unconverged");
      else if (!(fault < ~size_t(0) && fval == 1e300)) {  // with a finite corrupt product the recurrence cannot know
        chk(std::isfinite(xn) && std::isfinite(r.residual_norm), "non-finite result"); 
        chk(std::abs(r.residual_norm - tr) <= drift, "reported residual " + pbt::show(r.residual_norm) + " true " + pbt::show(tr) + " allowance " + pbt::show(drift));
        if (r.converged()) chk(tr <= tol + drift, "claims convergence at residual " + pbt::show(tr) + " tolerance " + pbt::show(tol));
        else chk(tr <= r0 + drift, "returned iterate is worse than the start: " + pbt::show(tr) + " > " + pbt::show(r0));
      }
      if (r0 + 1e-13 * (bn + an * std::sqrt(x0.NormSquare())) <= tol * (1 - 1e-9) && fault != 0) chk(r.converged() && r.iterations == 0 && x == x0, "start already solves the system");
      if (fault == ~size_t(0) && kind == 0 && r0 > tol * (1 + 1e-9) + 1e-14 * (bn + an * std::sqrt(x0.NormSquare()))) {
        // restarts are disabled at the default threshold; exact-arithmetic bound with slack for rounding
        bool defthr = p.orthogonality_threshold == ConjugateGradientParams().orthogonality_threshold; bool reach = tol > 1e-10 * (bn + an * std::sqrt(x0.NormSquare()) + r0);
        size_t lim = cond < 20 ? distinct + 1 : 2 * distinct + 3; if (reach && defthr && p.max_iter > lim) { chk(r.converged(), std::string("positive definite system not solved: ") + to_string(r.reason)); chk(r.iterations <= lim, "took " + std::to_string(r.iterations) + " iterations for " + std::to_string(distinct) + " distinct eigenvalues"); s.nontrivial(); }
        else if (reach && p.max_iter == 100 && cond < 5 && p.orthogonality_threshold > 0.3) chk(r.converged(), std::string("well conditioned system not solved: ") + to_string(r.reason));
        if (!r.converged() && reach) chk(r.reason == CGTerminationReason::kMaxIterations, std::string("reason ") + to_string(r.reason));
        if (r.reason == CGTerminationReason::kMaxIterations) chk(r.iterations == p.max_iter, "iteration count");
      }
      if (kind == 2 && fault == ~size_t(0) && r0 > tol * (1 + 1e-9) + 1e-10 * (bn + an * std::sqrt(x0.NormSquare())) && p.max_iter > 0) chk(r.reason == CGTerminationReason::kIndefiniteMatrix && x == x0, "negative definite operator not reported");
    }
  } else chk(r.x == x0 && !r.converged(), "worker ranks must return the placeholder");
  chk(b1 == b && x1 == x0, "inputs changed");
#ifdef PBT_MPI
  int v = me, w = -1; MPI_Status st; ::MPI_Sendrecv(&v, 1, MPI_INT, (me + 1) % np, 0, &w, 1, MPI_INT, MPI_ANY_SOURCE, 0, comm, &st); chk(w == (me + np - 1) % np, "stray message left behind"); MPI_Barrier(comm);
#endif
  PBT_ASSERT(bad.empty(), bad);
}
}  // namespace
PBT_PROP(cg_solve, 6000, 400000, "positive definite system solved within the distinct-eigenvalue bound") { if (s.boolean()) solve<double>(s); else solve<cd>(s); }
