// C24 first-order optimisers, C25 natural gradients (SR, MinSR), C26 spike recovery, C27 L-BFGS, C28 step selection, logs and checkpoints.
// The real Optimizer runs against a recorded evaluator; the recording is then replayed by an independent dense model.
#include "pbt.hpp"
#include <deque>
#include <filesystem>
#include <fstream>
#include <set>
#include "qlten/qlten.h"
#include "tn.hpp"
#include "qlpeps/optimizer/optimizer.h"
using namespace qlpeps;
using pbt::Src; using tn::cd;
namespace fs = std::filesystem;
namespace {
#ifndef BT
#define BT 0
#endif
#if BT % 2 == 0
using E = double;
#else
using E = std::complex<double>;
#endif
#if BT / 2 == 0
using Q = qlten::special_qn::TrivialRepQN;
#else
using Q = qlten::special_qn::U1QN;
#endif
using QG = tn::QGen<Q>; using T = QLTensor<E, Q>; using IX = Index<Q>; using SI = SplitIndexTPS<E, Q>; using Opt = Optimizer<E, Q>;
constexpr bool CPLX = qlten::is_cplx<E>::value;
using V = std::vector<cd>;
E mk(cd z) { return tn::mkelem<E>(z.real(), z.imag()); }
struct Quiet { std::streambuf *b, *e; Quiet() : b(std::cout.rdbuf(nullptr)), e(std::cerr.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(b); std::cerr.rdbuf(e); std::cout.clear(); std::cerr.clear(); } };
double nrm(const V &a) { double s = 0; for (auto &x : a) s += std::norm(x); return std::sqrt(s); }
cd dot(const V &a, const V &b) { cd s = 0; for (size_t i = 0; i < a.size(); ++i) s += std::conj(a[i]) * b[i]; return s; }
double rdot(const V &a, const V &b) { return dot(a, b).real(); }
V axpy(V a, cd c, const V &b) { for (size_t i = 0; i < a.size(); ++i) a[i] += c * b[i]; return a; }
double mx(const V &a) { double m = 0; for (auto &x : a) m = std::max(m, std::abs(x)); return m; }
struct Space {  // the independent parameters of a state: all symmetry-allowed elements
  SI t; std::vector<std::array<size_t, 4>> sl;
  SI make(const V &v) const { SI x = t; for (size_t k = 0; k < sl.size(); ++k) { auto [r, c, i, o] = sl[k]; x({r, c})[i].d_[o] = mk(v[k]); } return x; }
  V vec(const SI &x) const { V v; for (auto &[r, c, i, o] : sl) v.push_back(cd(x({r, c})[i].d_[o])); return v; }
};
Space space(Src &s) {
  size_t R = s.urange(1, 2), Cc = s.urange(1, 2), d = s.urange(1, 2); std::mt19937_64 g(s.draw(1u << 20)); Space S; S.t = SI(R, Cc, d);
  std::vector<std::vector<IX>> h(R, std::vector<IX>(Cc)), v = h;
  for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < Cc; ++c) { h[r][c] = c + 1 < Cc ? QG::bond(g, 2, OUT) : QG::one(OUT); v[r][c] = r + 1 < R ? QG::bond(g, 2, OUT) : QG::one(OUT); }
  for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < Cc; ++c) for (size_t i = 0; i < d; ++i) {
    T t({c ? qlten::InverseIndex(h[r][c - 1]) : QG::one(IN), v[r][c], h[r][c], r ? qlten::InverseIndex(v[r - 1][c]) : QG::one(IN)});
    tn::fill<E, Q>(t, QG::charge((int) (i % 2)), g, 0); t.each([&](size_t o, const qlten::CoorsT &) { S.sl.push_back({r, c, i, o}); }); S.t({r, c})[i] = t;
  }
  s.note(std::to_string(R) + "x" + std::to_string(Cc) + "x" + std::to_string(d) + " n=" + std::to_string(S.sl.size())); return S;
}
V rvec(std::mt19937_64 &g, size_t n, double sc = 1) { std::uniform_real_distribution<double> u(-1, 1); V v(n); for (auto &x : v) { double a = u(g), b = u(g); x = sc * (CPLX ? cd(a, b) : cd(a)); } return v; }
// Orthonormal set of k vectors of length n, orthogonal to `avoid`
std::vector<V> orth(std::mt19937_64 &g, size_t n, size_t k, std::vector<V> avoid) {
  std::vector<V> o; for (auto &a : avoid) { double q = nrm(a); for (auto &x : a) x /= q; }
  for (int tries = 0; o.size() < k && tries < 50; ++tries) { V v = rvec(g, n); double n0 = nrm(v); for (int p = 0; p < 2; ++p) { for (auto &a : avoid) v = axpy(v, -dot(a, v), a); for (auto &a : o) v = axpy(v, -dot(a, v), a); } double q = nrm(v); if (q < 0.1 * n0) continue; for (auto &x : v) x /= q; o.push_back(v); }
  return o;
}
// O*_i = mean + sum_k U_ik sigma_k V_k with U orthonormal and orthogonal to (1,...,1)
struct Samples { std::vector<V> U, W; std::vector<double> sg; V mean; V e; size_t ns = 0; std::vector<V> O; };
Samples samples(std::mt19937_64 &g, size_t n, size_t ns, double gap) {
  Samples m; m.ns = ns; m.mean = rvec(g, n, 2); m.U = orth(g, ns, std::min(ns - 1, n), {V(ns, 1.0)}); m.W = orth(g, n, m.U.size(), {}); size_t K = std::min(m.U.size(), m.W.size()); m.U.resize(K); m.W.resize(K);
  std::uniform_real_distribution<double> u(0, 1); for (size_t k = 0; k < K; ++k) m.sg.push_back((k % 3 == 2 ? gap : 1.0) * (0.5 + u(g)) * std::sqrt((double) ns));
  m.e = rvec(g, ns, 3); for (size_t i = 0; i < ns; ++i) { V o = m.mean; for (size_t k = 0; k < K; ++k) o = axpy(o, m.U[k][i] * m.sg[k], m.W[k]); m.O.push_back(o); }
  return m;
}
struct Ev { V st; cd e; V g; double err; bool eonly; Samples sm; std::vector<double> acc; };
enum Alg { SGD, ADAGRAD, ADAM, LBFGS, SR, MINSR }; const char *an[] = {"SGD", "AdaGrad", "Adam", "L-BFGS", "SR", "MinSR"};
struct P {
  Alg a = SGD; size_t iters = 5; double etol = 0, gtol = 0; size_t patience = 1000; double lr = 0.1; int sched = 0; std::optional<double> cv, cn;
  double mom = 0, wd = 0; bool nest = false; double eps = 1e-8, acc0 = 0, b1 = 0.9, b2 = 0.999; double shift = 0.01; bool norm = false; double rp = 1e-10, ap = 0; bool soft = true; MinSRSolverMode mode = MinSRSolverMode::kAuto; LBFGSParams lb;
  InitialStepSelectorParams is; PeriodicStepSelectorParams ps; SpikeRecoveryParams sp; size_t ck = 0; std::string dir, jsonl, csv; long cbstop = -1; bool eonly = false; size_t ns = 4;
  bool natural() const { return a == SR || a == MINSR; } bool first() const { return a <= ADAM; }
};
std::unique_ptr<LearningRateScheduler> mksched(const P &p) {
  switch (p.sched) { case 1: return std::make_unique<ConstantLR>(p.lr * 2); case 2: return std::make_unique<ExponentialDecayLR>(p.lr, 0.7, 2); case 3: return std::make_unique<StepLR>(p.lr, 2, 0.5); case 4: return std::make_unique<CosineAnnealingLR>(p.lr, 6, p.lr * 0.1); case 5: return std::make_unique<WarmupLR>(p.lr, 3, p.lr * 0.1); case 6: return std::make_unique<PlateauLR>(p.lr, 0.5, 2, 0.05); default: return nullptr; }
}
OptimizerParams params(const P &p) {
  OptimizerParams::BaseParams b(p.iters, p.etol, p.gtol, p.patience, p.lr, mksched(p)); b.clip_value = p.cv; b.clip_norm = p.cn; b.initial_step_selector = p.is; b.periodic_step_selector = p.ps; b.jsonl_log_path = p.jsonl;
  AlgorithmParams al = SGDParams(p.mom, p.nest, p.wd);
  if (p.a == ADAGRAD) al = AdaGradParams(p.eps, p.acc0); if (p.a == ADAM) al = AdamParams(p.b1, p.b2, p.eps, p.wd); if (p.a == LBFGS) al = p.lb; if (p.a == MINSR) al = MinSRParams(p.rp, p.ap, p.soft, p.mode);
  if (p.a == SR) { StochasticReconfigurationParams q; q.diag_shift = p.shift; q.normalize_update = p.norm; q.cg_params.max_iter = 200; q.cg_params.relative_tolerance = 1e-11; q.cg_params.residual_recompute_interval = 20; al = q; }
  CheckpointParams c; c.every_n_steps = p.ck; c.base_path = p.dir; SpikeRecoveryParams sp = p.sp; sp.log_trigger_csv_path = p.csv; return OptimizerParams(b, al, c, sp);
}
struct CbIt { size_t it; double e, err, gn; size_t at = 0; };
struct Run { std::vector<Ev> log; std::optional<Opt::OptimizationResult> res; std::string thrown; std::vector<CbIt> it; std::vector<std::pair<V, double>> low; };
int me = 0, np = 1;
void who() {
#ifdef PBT_MPI
  MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &np);
#endif
}
struct Livelock : std::logic_error { Livelock() : std::logic_error("the optimizer asked for more than 400 evaluations") {} };
// the callable handed to the optimizer: f(call, state) -> energy, gradient, error (already deterministic and equal on every rank)
using Fn = std::function<std::tuple<cd, V, double>(size_t, const V &)>;
Run run(Opt &opt, const P &p, const Space &S, const V &x0, const Fn &f, const std::function<Samples(size_t)> &sf, uint64_t accseed = 0) {
  Run R; std::vector<SI> Os; SI Om; std::vector<E> es; size_t calls = 0;
  auto share = [&](const SI &st) { V v = me == 0 ? S.vec(st) : V(S.sl.size());  // the evaluator owns distribution of the state
#ifdef PBT_MPI
    ::MPI_Bcast(v.data(), (int) (2 * v.size()), MPI_DOUBLE, 0, MPI_COMM_WORLD);
#endif
    return v; };
  auto ev = [&](const SI &st) -> std::tuple<E, SI, double> {
    if (calls >= 400) throw Livelock(); V v = share(st); auto [e, g, err] = f(calls, v); Ev r{v, e, g, err, false, {}, {}};
    if (p.natural()) {
      r.sm = sf(calls); Os.clear(); es.clear(); size_t nl = p.ns; cd em = 0; for (auto &x : r.sm.e) em += x / (double) r.sm.ns;
      for (size_t i = 0; i < nl; ++i) { Os.push_back(S.make(r.sm.O[me * nl + i])); es.push_back(mk(r.sm.e[me * nl + i])); } Om = me == 0 ? S.make(r.sm.mean) : SI(S.t.rows(), S.t.cols(), S.t.PhysicalDim());
    }
    if (accseed) { std::mt19937_64 g2(accseed + calls); for (int i = 0; i < 2; ++i) r.acc.push_back((double) (g2() % 1000) / 1000); opt.SetCurrentAcceptRates(r.acc); }
    ++calls; R.log.push_back(r); return {mk(e), me == 0 ? S.make(g) : SI(S.t.rows(), S.t.cols(), S.t.PhysicalDim()), me == 0 ? err : 0.0};
  };
  auto eo = [&](const SI &st) -> std::pair<double, double> { if (calls >= 400) throw Livelock(); V v = share(st); auto [e, g, err] = f(calls, v); ++calls; R.log.push_back(Ev{v, e, {}, err, true, {}, {}}); return {e.real(), me == 0 ? err : 0.0}; };
  Opt::OptimizationCallback cb; cb.on_iteration = [&](size_t i, double e, double er, double gn) { R.it.push_back({i, e, er, gn, R.log.size()}); }; cb.on_lowest_state_found = [&](const SI &x, double e) { R.low.push_back({S.vec(x), e}); };
  if (p.cbstop >= 0) cb.should_stop = [&](size_t i, double, double) { return (long) i == p.cbstop; };
  std::function<std::pair<double, double>(const SI &)> eof; if (p.eonly) eof = eo;
  Quiet q; try { R.res = opt.IterativeOptimize(S.make(x0), ev, cb, p.natural() ? &Os : nullptr, p.natural() ? &Om : nullptr, p.natural() ? &es : nullptr, eof); }
  catch (const Livelock &e) { R.thrown = "livelock"; } catch (const std::invalid_argument &e) { R.thrown = "invalid_argument"; } catch (const std::runtime_error &e) { R.thrown = "runtime_error"; }
  return R;
}
struct Ema { double a, m = 0, v = 0; bool init = false; explicit Ema(size_t w) : a(2.0 / ((double) w + 1)) {} void up(double x) { if (!init) { m = x; init = true; return; } double d = x - m; m += a * d; v = (1 - a) * (v + a * d * d); } double sd() const { return std::sqrt(v); } };
struct Fail { std::string m; }; struct Ambiguous {}; struct Expect { std::string t; };
struct Hist { struct Pr { V s, y; double rho; }; std::deque<Pr> h; V ax, ag; bool has = false; };
std::string str(const V &a) { std::string o = "["; for (size_t i = 0; i < std::min<size_t>(a.size(), 6); ++i) o += pbt::show(a[i].real()) + (CPLX ? "+" + pbt::show(a[i].imag()) + "i " : " "); return o + "]"; }
struct Stat { size_t resample = 0, rollback = 0, forced = 0, clip = 0, sel = 0, halved = 0, moved = 0, hist = 0, ckpt = 0, sched = 0, stop = 0; };
struct Model {
  const P &p; const Space &S; const Run &R; size_t pos = 0; V cur; V slack; Stat st; size_t n;
  V vel, m1, m2, acc; size_t ts = 0; Hist H; std::map<size_t, V> after; std::optional<size_t> pend; std::vector<double> ngn; std::vector<bool> trig; std::vector<size_t> accepted; bool wolfe = false;
  std::vector<SpikeEventRecord> evs;
  Model(const P &p_, const Space &s_, const Run &r_, const V &x0) : p(p_), S(s_), R(r_), cur(x0), slack(x0.size(), 0), n(x0.size()) {}
  void same(const V &got, const V &want, const V &sl, const std::string &w) { double t = 1e-10 * (1 + mx(want)); for (size_t k = 0; k < n; ++k) if (!(std::abs(got[k] - want[k]) <= sl[k].real() + t)) throw Fail{w + ": element " + std::to_string(k) + " is " + pbt::show(got[k].real()) + "," + pbt::show(got[k].imag()) + " but should be " + pbt::show(want[k].real()) + "," + pbt::show(want[k].imag()) + " +- " + pbt::show(sl[k].real() + t)}; }
  const Ev &take(bool eonly, const V &x, const V &sl, const std::string &w) {
    if (pos >= R.log.size()) throw Fail{w + ": the optimizer made no further evaluation (after " + std::to_string(pos) + ")"};
    const Ev &e = R.log[pos]; if (e.eonly != eonly) throw Fail{w + ": wrong evaluator used"}; same(e.st, x, sl, w + " (evaluation " + std::to_string(pos) + ")"); ++pos; return e;
  }
  static double inv_slack(double v, double eps) { return v > eps ? eps / (v * (v + eps)) : 0; }
  // parameter-space step of every algorithm; returns new state and slack
  V vzero() const { return V(n, 0.0); }
  V sgd(const V &x, const V &g, double lr, V &v) const { V y = x; if (p.wd > 0) for (auto &q : y) q *= 1 - lr * p.wd; if (p.mom > 0) { if (v.empty()) v = vzero(); for (size_t k = 0; k < n; ++k) v[k] = p.mom * v[k] + g[k]; V d = v; if (p.nest) for (size_t k = 0; k < n; ++k) d[k] = p.mom * v[k] + g[k]; return axpy(y, -lr, d); } return axpy(y, -lr, g); }
  V natural(const Ev &e, V &sl) const {
    const Samples &m = e.sm; double N = (double) m.ns; V d = vzero(); sl.assign(n, 0);
    if (p.a == SR) { V rest = e.g; double lmin = p.shift; for (size_t k = 0; k < m.W.size(); ++k) { cd c = dot(m.W[k], e.g); rest = axpy(rest, -c, m.W[k]); d = axpy(d, c / (m.sg[k] * m.sg[k] / N + p.shift), m.W[k]); } d = axpy(d, 1.0 / p.shift, rest); for (auto &x : sl) x = 1e-8 * (nrm(e.g) / lmin + mx(e.st)); return d; }
    double lmax = 0; for (double q : m.sg) lmax = std::max(lmax, q * q / N); double c = p.rp * lmax + p.ap, big = 0; V eps(m.ns); cd em = e.e;
    for (size_t i = 0; i < m.ns; ++i) eps[i] = std::conj(m.e[i] - em) / N;
    for (size_t k = 0; k < m.sg.size(); ++k) { double l = m.sg[k] * m.sg[k] / N, f; if (p.soft) f = std::pow(l, 5) / (std::pow(l, 6) + std::pow(c, 6)); else { if (std::abs(l - c) < 1e-6 * l) throw Ambiguous{}; f = l > c ? 1 / l : 0; } cd q = 0; for (size_t i = 0; i < m.ns; ++i) q += m.U[k][i] * eps[i]; d = axpy(d, m.sg[k] * f * q, m.W[k]); big = std::max(big, m.sg[k] * f * nrm(eps)); }
    for (auto &x : sl) x = 1e-8 * (big + 1); return d;
  }
  V lbdir(const V &g, double wob = 0) const {  // - H g with H the BFGS matrix built from the pairs, in the real representation
    size_t N = 2 * n; auto re = [&](const V &a) { std::vector<double> r(N); for (size_t k = 0; k < n; ++k) { r[2 * k] = a[k].real(); r[2 * k + 1] = a[k].imag(); } return r; };
    V dir(n); if (H.h.empty()) for (size_t k = 0; k < n; ++k) dir[k] = -g[k];
    else {
      double sy = rdot(H.h.back().s, H.h.back().y), yy = rdot(H.h.back().y, H.h.back().y), gam = 1; if (yy > std::numeric_limits<double>::epsilon() && sy > p.lb.min_curvature) gam = sy / yy;
      std::vector<std::vector<double>> M(N, std::vector<double>(N, 0)); for (size_t i = 0; i < N; ++i) M[i][i] = gam;
      for (auto &pr : H.h) { auto s = re(pr.s), y = re(pr.y); double r = pr.rho * (1 + wob * (double) n * pr.rho * nrm(pr.s) * nrm(pr.y)); wob = -wob; std::vector<double> My(N, 0); double yMy = 0; for (size_t i = 0; i < N; ++i) { for (size_t j = 0; j < N; ++j) My[i] += M[i][j] * y[j]; } for (size_t i = 0; i < N; ++i) yMy += y[i] * My[i];
        for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) M[i][j] += (r * r * yMy + r) * s[i] * s[j] - r * (s[i] * My[j] + My[i] * s[j]); }
      auto q = re(g); for (size_t k = 0; k < n; ++k) { double a = 0, b = 0; for (size_t j = 0; j < N; ++j) { a -= M[2 * k][j] * q[j]; b -= M[2 * k + 1][j] * q[j]; } dir[k] = cd(a, b); }
    }
    if (p.lb.max_direction_norm > 0) { double q = nrm(dir); if (q > p.lb.max_direction_norm) for (auto &x : dir) x *= p.lb.max_direction_norm / q; }
    return dir;
  }
  void addpair(const V &x, const V &g) {
    if (!H.has) return; V s = axpy(x, -1, H.ax), y = axpy(g, -1, H.ag); double c = rdot(s, y); double amb = 1e-10 * (nrm(s) * nrm(y) + 1e-300); if (std::abs(c - p.lb.min_curvature) < amb) throw Ambiguous{};
    if (c <= p.lb.min_curvature && p.lb.use_damping) { double yy = rdot(y, y); if (yy > std::numeric_limits<double>::epsilon()) { y = axpy(y, (p.lb.min_curvature - c + 1e-15) / yy, s); c = rdot(s, y); if (std::abs(c - p.lb.min_curvature) < amb) throw Ambiguous{}; } }
    if (c <= p.lb.min_curvature) return; if (c < 1e-6 * nrm(s) * nrm(y)) throw Ambiguous{}; H.h.push_back({s, y, 1 / c}); while (H.h.size() > p.lb.history_size) H.h.pop_front(); ++st.hist;
  }
  bool over(double v, double t) const { if (std::abs(v - t) <= 1e-6 * std::abs(t)) throw Ambiguous{}; return v > t; }
  void go() {
    const auto &sp = p.sp; Ema ee(sp.ema_window), er(sp.ema_window), eg(sp.ema_window), en(sp.ema_window); auto sch = mksched(p); double plr = p.lr, pbest = 1e308; size_t pcnt = 0;
    std::vector<cd> tE; std::vector<double> tErr, tG, tL; double low = 1e308 * 1.7, prevE = 0; V lowst = cur; size_t noimp = 0, total = 0; bool conv = false, done = false, hasprev = false; V prevst; Hist Hprev; double sel = p.lr; std::vector<CbIt> its; std::vector<std::pair<V, double>> lows;
    bool anysel = p.is.enabled || p.ps.enabled;
    if (anysel) { if (!(p.a == SGD || p.natural()) || p.sched) throw Expect{"invalid_argument"}; if (p.is.enabled && p.is.max_line_search_steps == 0) throw Expect{"invalid_argument"}; if (p.ps.enabled && (p.ps.every_n_steps == 0 || p.ps.phase_switch_ratio < 0 || p.ps.phase_switch_ratio > 1)) throw Expect{"invalid_argument"}; if (p.lr <= 0) throw Expect{"invalid_argument"}; }
    for (size_t it = 0; it < p.iters && !done; ++it) {
      size_t att = 0; Hist H0 = H, Hb = H;
      for (bool acc_ = false; !acc_;) {
        const Ev &e = take(false, cur, slack, "state at iteration " + std::to_string(it)); cur = e.st; slack = vzero(); if (pend) { after[*pend] = cur; pend.reset(); } double gn = nrm(e.g), Er = e.e.real();
        if (p.a == LBFGS) { H = Hb; addpair(cur, e.g); }
        auto note = [&](SpikeSignal s, SpikeAction a, double v, double t) { evs.push_back({it, att, s, a, v, t}); if (a == SpikeAction::kResample) ++st.resample; else if (a == SpikeAction::kRollback) ++st.rollback; else ++st.forced; };
        auto decide = [&] { return att < sp.redo_mc_max_retries ? SpikeAction::kResample : sp.enable_rollback && hasprev ? SpikeAction::kRollback : SpikeAction::kAcceptWithWarning; };
        auto act = [&](SpikeAction a) { if (a == SpikeAction::kResample) { ++att; Hb = H0; return true; } if (a == SpikeAction::kRollback) { if (hasprev) { cur = prevst; Hb = Hprev; hasprev = false; } att = 0; return true; } return false; };
        if (sp.enable_auto_recover && it > 0) {
          SpikeSignal s = SpikeSignal::kNone; double v = 0, t = 0; if (er.init && er.m > 0 && over(e.err, sp.factor_err * er.m)) { s = SpikeSignal::kS1_ErrorbarSpike; v = e.err; t = sp.factor_err * er.m; } else if (eg.init && eg.m > 0 && over(gn, sp.factor_grad * eg.m)) { s = SpikeSignal::kS2_GradientNormSpike; v = gn; t = sp.factor_grad * eg.m; }
          if (s != SpikeSignal::kNone) { auto a = decide(); note(s, a, v, t); if (act(a)) continue; }
        }
        double lr = p.lr, eff; if (anysel) lr = sel; else if (p.sched == 6) { if (std::abs(Er - (pbest - 0.05)) < 1e-9) throw Ambiguous{}; if (Er < pbest - 0.05) { pbest = Er; pcnt = 0; } else if (++pcnt >= 2) { plr *= 0.5; pcnt = 0; pbest = Er; ++st.sched; } lr = plr; } else if (sch) { lr = sch->GetLearningRate(it, Er); if (lr != p.lr) ++st.sched; } eff = lr;
        V g = e.g; if (p.first()) { if (p.cv && *p.cv > 0) for (auto &x : g) if (std::abs(x) > *p.cv) { x *= *p.cv / std::abs(x); ++st.clip; } if (p.cn && *p.cn > 0) { double q = nrm(g); if (q > *p.cn) { for (auto &x : g) x *= *p.cn / q; ++st.clip; } } }
        bool ti = p.is.enabled && it == 0, tp = p.ps.enabled && it > 0 && it % p.ps.every_n_steps == 0, tr = ti || tp; V nd, nsl; double nn = 0; if (p.natural()) { nd = natural(e, nsl); nn = nrm(nd); if (p.a == SR && p.norm && nn < 1e-6 * (1 + mx(cur))) throw Ambiguous{}; }
        auto natstep = [&](double eta, V &sl) { double q = eta; if (p.a == SR && p.norm && nn > 0) q /= nn; sl = nsl; for (auto &x : sl) x *= std::abs(q) * (p.norm ? 3.0 : 1.0); return axpy(cur, -q, nd); };
        if (tr) {
          ++st.sel; if ((ti ? !p.is.enable_in_deterministic : !p.ps.enable_in_deterministic) && e.err <= 0) throw Expect{"invalid_argument"};
          std::vector<double> eta, ce, cr; if (ti) for (size_t i = 1; i <= p.is.max_line_search_steps; ++i) eta.push_back(sel * (double) i); else eta = {sel, sel * 0.5};
          for (double q : eta) { V sl = vzero(), tv = vel, x = p.a == SGD ? sgd(cur, g, q, tv) : natstep(q, sl); const Ev &c = take(p.eonly, x, sl, "trial step " + pbt::show(q) + " at iteration " + std::to_string(it)); ce.push_back(c.e.real()); cr.push_back(c.err); if (!std::isfinite(ce.back()) || !std::isfinite(cr.back())) throw Expect{"runtime_error"}; }
          double pick = eta[0]; if (ti) { size_t b = 0; for (size_t i = 1; i < eta.size(); ++i) if (ce[i] < ce[b]) b = i; pick = eta[b]; } else { bool early = (double) it < p.ps.phase_switch_ratio * (double) p.iters; if (early ? ce[1] < ce[0] : ce[0] - ce[1] > std::max(cr[0], cr[1])) { pick = eta[1]; ++st.halved; } }
          if (pick != eta[0]) ++st.moved; sel = pick; lr = eff = sel;
        }
        V up, usl = vzero();
        switch (p.a) {
          case SGD: up = sgd(cur, g, lr, vel); break;
          case ADAGRAD: { if (acc.empty()) acc.assign(n, p.acc0); up = cur; for (size_t k = 0; k < n; ++k) { acc[k] += std::norm(g[k]); double v = std::sqrt(acc[k].real()); if (v > p.eps * (1 + 1e-9)) { up[k] -= lr * g[k] / v; usl[k] = std::abs(lr * g[k]) * inv_slack(v, p.eps); } else usl[k] = std::abs(lr * g[k]) / std::max(v, 1e-300) * 1.001; if (v <= p.eps * (1 + 1e-9) && std::abs(g[k]) == 0) usl[k] = 0; } break; }
          case ADAM: { if (m1.empty()) m1 = m2 = vzero(); ++ts; up = cur; if (p.wd > 0) for (auto &x : up) x *= 1 - lr * p.wd; for (size_t k = 0; k < n; ++k) { m1[k] = p.b1 * m1[k] + (1 - p.b1) * g[k]; m2[k] = p.b2 * m2[k] + (1 - p.b2) * std::norm(g[k]); cd mh = m1[k] / (1 - std::pow(p.b1, (double) ts)); double v = std::sqrt(m2[k].real() / (1 - std::pow(p.b2, (double) ts))); if (v > p.eps * (1 + 1e-9)) { up[k] -= lr * mh / v; usl[k] = std::abs(lr * mh) * inv_slack(v, p.eps); } else usl[k] = v > 0 ? std::abs(lr * mh) / v * 1.001 : 0; } break; }
          case SR: case MINSR: { up = natstep(lr, usl); break; }
          case LBFGS: { V d = lbdir(e.g); double slope = rdot(e.g, d); if (slope >= 0) { H = Hist{}; d = axpy(vzero(), -1, e.g); } if (std::abs(slope) < 1e-7 * nrm(e.g) * nrm(d)) { if (slope != 0) throw Ambiguous{}; } eff = std::max(0.0, lr); up = axpy(cur, eff, d); double wob = H.h.empty() ? 0 : 30 * nrm(axpy(d, -1, lbdir(e.g, 1e-15))); if (wob > 1e-2 * nrm(d)) throw Ambiguous{}; for (auto &x : usl) x = eff * (1e-7 * nrm(d) + wob); break; }
        }
        if (p.natural() && sp.enable_auto_recover && it > 0) {
          if (p.a == SR && gn == 0) throw Ambiguous{};  // the solver may need no iteration at all
          SpikeSignal s = SpikeSignal::kNone; if (en.init && en.m > 0 && over(nn, sp.factor_ngrad * en.m)) s = SpikeSignal::kS3_NaturalGradientAnomaly; if (p.a == SR && sp.sr_min_iters_suspicious > 500) s = SpikeSignal::kS3_NaturalGradientAnomaly;
          if (s != SpikeSignal::kNone) { auto a = decide(); note(s, a, nn, sp.factor_ngrad * en.m); if (act(a)) continue; }
        }
        if (sp.enable_rollback && it > 0 && ee.init) { double d = Er - ee.m; if (d > 0 && ee.sd() > 0 && over(d, sp.sigma_k * ee.sd())) { auto a = hasprev ? SpikeAction::kRollback : SpikeAction::kAcceptWithWarning; note(SpikeSignal::kS4_EMAEnergySpikeUpward, a, Er, ee.m + sp.sigma_k * ee.sd()); if (act(a)) continue; } }
        acc_ = true; ee.up(Er); er.up(e.err); eg.up(gn); if (p.natural()) en.up(nn); tE.push_back(e.e); tL.push_back(eff); tErr.push_back(e.err); tG.push_back(gn); ngn.push_back(nn); trig.push_back(tr); accepted.push_back(&e - R.log.data()); total = it + 1;
        if (Er < low) { low = Er; lowst = cur; noimp = 0; lows.push_back({cur, Er}); } else ++noimp;
        if (it > 0) { if (std::abs(gn - p.gtol) < 1e-9 * (gn + 1e-30)) throw Ambiguous{}; if (gn < p.gtol || std::abs(Er - prevE) < p.etol || noimp >= p.patience) { conv = done = true; ++st.stop; break; } }
        prevE = Er; if (sp.enable_rollback) { prevst = cur; Hprev = H; hasprev = true; } H.ax = cur; H.ag = e.g; H.has = p.a == LBFGS; cur = up; slack = usl; pend = it; its.push_back({it, Er, e.err, gn});
        if (p.cbstop == (long) it) { done = true; break; } if (p.ck && it > 0 && it % p.ck == 0) { ckpts.push_back({it, total}); ++st.ckpt; }
      }
    }
    if (R.thrown.size()) throw Fail{"unexpected " + R.thrown}; if (pos != R.log.size()) throw Fail{std::to_string(R.log.size() - pos) + " evaluations too many"};
    const auto &r = *R.res; V fin = S.vec(r.optimized_state); same(fin, cur, slack, "final state"); if (pend) after[*pend] = fin; same(S.vec(r.lowest_state), lowst, vzero(), "lowest state");
    auto eq = [&](bool c, const char *w) { if (!c) throw Fail{std::string("result: ") + w}; };
    eq(r.total_iterations == total, "total_iterations"); eq(r.converged == conv, "converged"); eq(r.energy_trajectory.size() == tE.size() && r.energy_error_trajectory.size() == tE.size() && r.gradient_norms.size() == tE.size() && r.learning_rate_trajectory.size() == tE.size(), "trajectory lengths");
    for (size_t i = 0; i < tE.size(); ++i) { eq(cd(r.energy_trajectory[i]) == tE[i], "energy trajectory"); eq(r.energy_error_trajectory[i] == tErr[i], "energy error trajectory"); eq(std::abs(r.gradient_norms[i] - tG[i]) <= 1e-9 * (tG[i] + 1e-30), "gradient norm trajectory"); eq(std::abs(r.learning_rate_trajectory[i] - tL[i]) <= 1e-12 * std::abs(tL[i]), ("learning rate at iteration " + std::to_string(i) + " is " + pbt::show(r.learning_rate_trajectory[i]) + ", not " + pbt::show(tL[i])).c_str()); }
    if (!tE.empty()) { eq(r.final_energy == tE.back().real(), "final_energy"); eq(r.min_energy == low, "min_energy"); }
    eq(r.spike_stats.total_resamples == st.resample && r.spike_stats.total_rollbacks == st.rollback && r.spike_stats.total_forced_accepts == st.forced, "spike counts"); eq(r.spike_stats.event_log.size() == evs.size(), "spike event count");
    for (size_t i = 0; i < evs.size(); ++i) { const auto &a = r.spike_stats.event_log[i]; const auto &b = evs[i]; eq(a.step == b.step && a.attempt == b.attempt && a.signal == b.signal && a.action == b.action && std::abs(a.value - b.value) <= 1e-6 * std::abs(b.value) + 1e-8 && std::abs(a.threshold - b.threshold) <= 1e-6 * std::abs(b.threshold) + 1e-8, ("spike event " + std::to_string(i)).c_str()); }
    eq(R.it.size() == its.size(), "number of on_iteration calls"); for (size_t i = 0; i < its.size(); ++i) eq(R.it[i].it == its[i].it && R.it[i].e == its[i].e && R.it[i].err == its[i].err && std::abs(R.it[i].gn - its[i].gn) <= 1e-9 * (1e-30 + its[i].gn), "on_iteration arguments");
    eq(R.low.size() == lows.size(), "number of on_lowest_state_found calls"); for (size_t i = 0; i < lows.size(); ++i) { eq(R.low[i].second == lows[i].second, "lowest energy reported"); same(R.low[i].first, lows[i].first, vzero(), "lowest state reported"); }
    TE = tE; TErr = tErr; TG = tG; TL = tL;
  }
  std::vector<std::pair<size_t, size_t>> ckpts; std::vector<cd> TE; std::vector<double> TErr, TG, TL;
  // every evaluation that is not a selector trial is finite (the trials are those off the accepted chain: here, all but the first of each iteration)
  bool finite_main() const { return R.log.empty() || (std::isfinite(R.log[0].e.real()) && std::isfinite(R.log[0].err) && R.thrown == "runtime_error" && (!std::isfinite(R.log.back().e.real()) || !std::isfinite(R.log.back().err)) && [&] { for (size_t i = 0; i + 1 < R.log.size(); ++i) if (!std::isfinite(R.log[i].e.real()) || !std::isfinite(R.log[i].err)) return false; return true; }()); }
  // runs the replay; "" = agrees. amb = the recording hit a value too close to a threshold to be judged
  std::string check(bool &amb) { amb = false; try { go(); } catch (const Fail &f) { return f.m; } catch (const Ambiguous &) { amb = true; return R.thrown == "livelock" ? "livelock" : ""; } catch (const Expect &x) { if (R.thrown != x.t) return "expected " + x.t + ", got " + (R.thrown.empty() ? "a result" : R.thrown); } return ""; }
};
std::string desc(const P &p) { return std::string(an[p.a]) + " iters=" + std::to_string(p.iters) + " lr=" + pbt::show(p.lr) + " sched=" + std::to_string(p.sched) + " etol=" + pbt::show(p.etol) + " gtol=" + pbt::show(p.gtol) + " patience=" + std::to_string(p.patience) + (p.mom > 0 ? " momentum=" + pbt::show(p.mom) : "") + (p.nest ? " nesterov" : "") + (p.wd > 0 ? " wd=" + pbt::show(p.wd) : "") + (p.cv ? " clip_value=" + pbt::show(*p.cv) : "") + (p.cn ? " clip_norm=" + pbt::show(*p.cn) : "") + (p.cbstop >= 0 ? " stop at " + std::to_string(p.cbstop) : ""); }
// energy landscapes: 0 scripted numbers, 1 convex quadratic, 2 quadratic with one flat or negative direction
Fn landscape(Src &s, size_t n, int kind, double spikes, bool cplxE) {
  uint64_t sd = s.draw(1u << 30); std::mt19937_64 g(sd); V t = rvec(g, n); std::vector<double> a(n); std::uniform_real_distribution<double> u(0, 1); for (auto &x : a) x = 0.2 + 3 * u(g); if (kind == 2) a[sd % n] *= (sd & 64) ? -1.0 : 0.0; double e0 = s.pick(std::vector<double>{0.1, 0.0, 1.0}); bool zerog = s.chance(1, 12);
  return [=](size_t c, const V &x) -> std::tuple<cd, V, double> {
    std::mt19937_64 h(sd * 1000003 + c); std::uniform_real_distribution<double> w(0, 1); double sp1 = w(h) < spikes ? std::pow(10.0, 1 + 3 * w(h)) : 1, sp2 = w(h) < spikes ? std::pow(10.0, 1 + 3 * w(h)) : 1, spe = w(h) < spikes ? 50 * w(h) : 0;
    if (kind == 0) { V gr = rvec(h, n, 1.0); if (zerog && c % 3 == 2) for (auto &q : gr) q = 0; for (auto &q : gr) q *= sp2; return {cd(-0.3 * (double) c + w(h) + spe, cplxE && CPLX ? w(h) : 0.0), gr, e0 * (0.5 + w(h)) * sp1}; }
    double e = 0; V gr(n); for (size_t k = 0; k < n; ++k) { e += 0.5 * a[k] * std::norm(x[k] - t[k]); gr[k] = a[k] * (x[k] - t[k]); } return {e, gr, e0};
  };
}
void verdict(Src &s, const std::string &bad) {
  std::string b = bad;
#ifdef PBT_MPI
  int len = (int) b.size(); ::MPI_Bcast(&len, 1, MPI_INT, 0, MPI_COMM_WORLD); b.resize(len); ::MPI_Bcast(b.data(), len, MPI_CHAR, 0, MPI_COMM_WORLD);
#endif
  PBT_ASSERT(b.empty(), b); (void) s;
}
void common(Src &s, P &p) {
  p.iters = s.freq({1, 20}) ? s.urange(1, 12) : 0; p.lr = s.pick(std::vector<double>{0.1, 0.01, 0.5, 1.0}); p.sp.enable_auto_recover = false;
  if (s.chance(1, 5)) p.etol = s.pick(std::vector<double>{0.02, 0.2}); if (s.chance(1, 5)) p.gtol = s.pick(std::vector<double>{0.3, 1.0}); if (s.chance(1, 4)) p.patience = s.urange(1, 3); if (s.chance(1, 8)) p.cbstop = (long) s.urange(0, 6);
}
void first_order(Src &s, P &p) {
  p.a = (Alg) s.freq({3, 2, 3}); p.sched = (int) s.freq({4, 1, 1, 1, 1, 1, 2});
  if (p.a == SGD) { p.mom = s.pick(std::vector<double>{0.0, 0.9, 0.5}); p.nest = s.boolean(); p.wd = s.pick(std::vector<double>{0.0, 0.1}); } if (p.a == ADAGRAD) { p.eps = s.pick(std::vector<double>{1e-8, 1e-3, 0.0}); p.acc0 = s.pick(std::vector<double>{0.0, 0.1}); } if (p.a == ADAM) { p.b1 = s.pick(std::vector<double>{0.9, 0.5, 0.0}); p.b2 = s.pick(std::vector<double>{0.999, 0.9, 0.5}); p.eps = s.pick(std::vector<double>{1e-8, 1e-3}); p.wd = s.pick(std::vector<double>{0.0, 0.1}); }
  if (s.chance(1, 3)) p.cv = s.pick(std::vector<double>{0.3, 0.8, 0.0, -1.0}); if (s.chance(1, 3)) p.cn = s.pick(std::vector<double>{0.5, 2.0, 0.0});
}
#if !defined(ONLY) || ONLY == 24
PBT_PROP(first_order_trajectory, 150, 20000, "two or more accepted updates judged") {
  who(); Space S = space(s); if (S.sl.empty()) return; size_t n = S.sl.size(); P p; common(s, p); first_order(s, p); s.note(desc(p)); s.label(an[p.a]); int reps = p.sched == 6 ? 1 : (int) s.urange(1, 2); Opt opt(params(p), MPI_COMM_WORLD, me, np); std::string bad;
  for (int r = 0; r < reps; ++r) { Fn f = landscape(s, n, (int) s.freq({3, 2, 1}), 0.1, true); std::mt19937_64 g(s.draw(1u << 20)); V x0 = rvec(g, n); Run R = run(opt, p, S, x0, f, {}); if (me == 0 && bad.empty()) { Model m(p, S, R, x0); bool amb; bad = m.check(amb); if (!bad.empty()) bad = std::string(an[p.a]) + " run " + std::to_string(r) + ": " + bad; if (!amb && m.TE.size() > 2) { s.nontrivial(); s.label(m.st.clip ? "clipped" : "unclipped"); if (m.st.sched) s.label("schedule moved"); if (m.st.stop) s.label("converged"); } } }
  verdict(s, bad);
}
#endif
void sr_params(Src &s, P &p) { p.a = s.boolean() ? SR : MINSR; p.ns = s.urange(2, 5); p.shift = s.pick(std::vector<double>{0.01, 0.5, 0.1}); p.norm = s.chance(1, 3); p.soft = s.boolean(); p.rp = s.pick(std::vector<double>{1e-10, 1e-4, 0.3}); p.ap = s.pick(std::vector<double>{0.0, 0.2}); p.mode = s.boolean() ? MinSRSolverMode::kAuto : MinSRSolverMode::kReplicated; }
std::function<Samples(size_t)> sampler(Src &s, size_t n, const P &p) { uint64_t sd = s.draw(1u << 30); double gap = s.pick(std::vector<double>{1.0, 0.3, 0.05}); size_t ns = p.ns * (size_t) np; return [=](size_t c) { std::mt19937_64 g(sd * 7919 + c); return samples(g, n, ns, gap); }; }
std::string sdesc(const P &p) { return std::string(p.a == SR ? " shift=" + pbt::show(p.shift) + (p.norm ? " normalized" : "") : " r_pinv=" + pbt::show(p.rp) + " a_pinv=" + pbt::show(p.ap) + (p.soft ? " soft" : " hard")) + " samples/rank=" + std::to_string(p.ns); }
#if !defined(ONLY) || ONLY == 25
PBT_PROP(natural_gradient_trajectory, 100, 10000, "two or more natural-gradient updates judged") {
  who(); Space S = space(s); if (S.sl.empty()) return; size_t n = S.sl.size(); P p; common(s, p); sr_params(s, p); p.iters = std::min<size_t>(p.iters, 5); p.sched = (int) s.freq({3, 1, 1}); if (s.chance(1, 4)) p.cv = 0.01; if (s.chance(1, 4)) p.cn = 0.01; s.note(desc(p) + sdesc(p)); s.label(an[p.a]);
  Opt opt(params(p), MPI_COMM_WORLD, me, np); Fn f = landscape(s, n, (int) s.freq({3, 1}), 0.1, true); auto sf = sampler(s, n, p); std::mt19937_64 g(s.draw(1u << 20)); V x0 = rvec(g, n); Run R = run(opt, p, S, x0, f, sf); std::string bad;
  if (me == 0) { Model m(p, S, R, x0); bool amb; bad = m.check(amb); if (!bad.empty()) bad = std::string(an[p.a]) + ": " + bad; if (!amb && m.TE.size() > 1) s.nontrivial(); }
  verdict(s, bad);
}
PBT_PROP(smatrix_and_tmatrix, 100, 10000, "more than one sample per rank") {
  who(); Space S = space(s); if (S.sl.empty()) return; size_t n = S.sl.size(); P p; p.ns = s.urange(1, 5); size_t ns = p.ns * (size_t) np; std::mt19937_64 g(s.draw(1u << 30)); std::vector<V> O; V mean(n, 0.0); double sc = s.pick(std::vector<double>{1.0, 1e4, 1e-4}), off = s.pick(std::vector<double>{0.0, 1.0, 1e3}); V base = rvec(g, n, off * sc); for (size_t i = 0; i < ns; ++i) { O.push_back(axpy(rvec(g, n, sc), 1.0, base)); mean = axpy(mean, 1.0 / (double) ns, O.back()); }
  std::vector<SI> loc; for (size_t i = 0; i < p.ns; ++i) loc.push_back(S.make(O[me * p.ns + i])); SI M = S.make(mean); s.note("samples/rank=" + std::to_string(p.ns) + " offset=" + pbt::show(off) + " scale=" + pbt::show(sc)); if (p.ns > 1) s.nontrivial(); std::string bad;
  SRSMatrix<E, Q> A(&loc, me == 0 ? &M : nullptr, np, MPI_COMM_WORLD); double sh = s.pick(std::vector<double>{0.0, 0.3}); A.diag_shift = mk(sh); V v = rvec(g, n); V part; { Quiet q; part = S.vec(A * S.make(v)); }
  V sum = part;
#ifdef PBT_MPI
  ::MPI_Allreduce(part.data(), sum.data(), (int) (2 * n), MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
#endif
  V want(n, 0.0); for (size_t i = 0; i < ns; ++i) want = axpy(want, (dot(O[i], v) - dot(mean, v)) / (double) ns, axpy(O[i], -1.0, mean)); want = axpy(want, sh, v);
  double tol = 1e-12 * (1 + off * off) * sc * sc * (double) (n * n) + 1e-12; for (size_t k = 0; k < n; ++k) if (!(std::abs(sum[k] - want[k]) <= tol)) bad = "S v differs: element " + std::to_string(k) + " = " + pbt::show(sum[k].real()) + " expected " + pbt::show(want[k].real());
  MinSRTMatrix<E, Q> Tm; Tm.Construct(loc, MPI_COMM_WORLD); if (Tm.LocalRows() != p.ns || Tm.GlobalSize() != ns) bad = "T matrix shape"; else for (size_t i = 0; i < p.ns; ++i) for (size_t j = 0; j < ns; ++j) { cd w = dot(axpy(O[me * p.ns + i], -1.0, mean), axpy(O[j], -1.0, mean)) / (double) ns; if (!(std::abs(cd(Tm.RowBlockData()[i * ns + j]) - w) <= tol)) bad = "T(" + std::to_string(me * p.ns + i) + "," + std::to_string(j) + ") = " + pbt::show(cd(Tm.RowBlockData()[i * ns + j]).real()) + " expected " + pbt::show(w.real()); }
#ifdef PBT_MPI
  int f = bad.empty() ? np : me, m; ::MPI_Allreduce(&f, &m, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD); if (m < np) { int len = (int) bad.size(); ::MPI_Bcast(&len, 1, MPI_INT, m, MPI_COMM_WORLD); bad.resize(len); ::MPI_Bcast(bad.data(), len, MPI_CHAR, m, MPI_COMM_WORLD); }
#endif
  PBT_ASSERT(bad.empty(), bad);
}
PBT_PROP(pseudo_inverse_cutoff, 100, 10000, "two or more eigenvalues, one kept and one suppressed") {
  size_t n = s.urange(0, 6); std::vector<double> l; double sc = s.logreal(-8, 8); for (size_t i = 0; i < n; ++i) l.push_back(s.pick(std::vector<double>{0.0, 1e-9, -1e-9, 0.02, 0.5, 1.0}) * sc * (1 + s.unit())); std::sort(l.begin(), l.end()); double r = s.pick(std::vector<double>{0.0, 1e-12, 1e-3, 0.3}), a = s.pick(std::vector<double>{0.0, 0.05}) * sc; bool soft = s.boolean(); s.note("n=" + std::to_string(n) + " scale=" + pbt::show(sc) + " r=" + pbt::show(r) + " a=" + pbt::show(a) + (soft ? " soft" : " hard"));
  auto f = minsr_detail::ApplyPseudoInverseCutoff(l, r, a, soft); PBT_ASSERT(f.size() == n, "length"); double mxl = 0; for (double x : l) mxl = std::max(mxl, std::abs(x)); double c = r * mxl + a; bool kept = false, cut = false;
  for (size_t i = 0; i < n; ++i) { double x = l[i]; PBT_ASSERT(std::isfinite(f[i]), "inverse of " + pbt::show(x) + " is not finite"); if (x == 0) { PBT_ASSERT(f[i] == 0, "zero eigenvalue must be dropped"); cut = true; continue; }
    if (soft) { double q = c / std::abs(x), w = 1 / x / (1 + std::pow(q, 6)); if (std::abs(x) > 1e-40 && std::abs(x) < 1e40) PBT_ASSERT(std::abs(f[i] - w) <= 1e-9 * std::abs(w) + 1e-300, "soft inverse of " + pbt::show(x) + " = " + pbt::show(f[i]) + " expected " + pbt::show(w)); (q > 1 ? cut : kept) = true; }
    else { if (std::abs(std::abs(x) - c) < 1e-9 * c) continue; bool k = std::abs(x) > c; PBT_ASSERT(f[i] == (k ? 1 / x : 0.0), "hard inverse of " + pbt::show(x)); (k ? kept : cut) = true; } }
  if (kept && cut) s.nontrivial();
}
#endif
#if !defined(ONLY) || ONLY == 26
PBT_PROP(spike_recovery_history, 200, 20000, "a step was resampled, rolled back or force-accepted") {
  who(); Space S = space(s); if (S.sl.empty()) return; size_t n = S.sl.size(); P p; common(s, p); p.iters = s.urange(2, 14); if (s.chance(1, 3)) { sr_params(s, p); p.iters = std::min<size_t>(p.iters, 6); } else if (s.chance(1, 4)) p.a = LBFGS; else { first_order(s, p); if (p.sched == 6) p.sched = 0; }
  p.sp.enable_auto_recover = s.chance(3, 4); p.sp.enable_rollback = s.chance(1, 2); if (p.sp.enable_rollback && p.first()) { p.a = SGD; p.mom = 0; } p.sp.redo_mc_max_retries = s.urange(0, 3); p.sp.factor_err = s.pick(std::vector<double>{100.0, 5.0, 2.0}); p.sp.factor_grad = s.pick(std::vector<double>{1e10, 5.0, 2.0}); p.sp.factor_ngrad = s.pick(std::vector<double>{10.0, 2.0, 1.2}); p.sp.sr_min_iters_suspicious = s.chance(1, 6) ? 1000 : 0; p.sp.ema_window = s.pick(std::vector<size_t>{50, 3, 1, 400}); p.sp.sigma_k = s.pick(std::vector<double>{10.0, 3.0, 1.0, 0.3});
  std::string csv = pbt::ScratchDir() + "/spikes_" + std::to_string(26) + ".csv"; if (me == 0) fs::remove(csv); if (s.chance(1, 3)) p.csv = csv; s.note(desc(p) + " retries=" + std::to_string(p.sp.redo_mc_max_retries) + (p.sp.enable_auto_recover ? " auto" : "") + (p.sp.enable_rollback ? " rollback" : "") + " ferr=" + pbt::show(p.sp.factor_err) + " fgrad=" + pbt::show(p.sp.factor_grad) + " fng=" + pbt::show(p.sp.factor_ngrad) + " window=" + std::to_string(p.sp.ema_window) + " sigma_k=" + pbt::show(p.sp.sigma_k)); s.label(an[p.a]);
  Opt opt(params(p), MPI_COMM_WORLD, me, np); std::string bad; int reps = (int) s.urange(1, 2);
  for (int r = 0; r < reps; ++r) {
    bool quad = s.chance(1, 4); Fn f0 = landscape(s, n, quad ? 1 : 0, 0.25, true); size_t hold = s.chance(1, 3) ? s.urange(2, 5) : 0; Fn f = hold && !quad ? Fn([=](size_t c, const V &x) { auto t = f0(c / hold, x); return t; }) : f0; auto sf = sampler(s, n, p); std::mt19937_64 g(s.draw(1u << 20)); V x0 = rvec(g, n); Run R = run(opt, p, S, x0, f, sf);
    if (me == 0 && bad.empty()) { Model m(p, S, R, x0); bool amb; bad = m.check(amb); if (!bad.empty()) bad = std::string(an[p.a]) + " run " + std::to_string(r) + ": " + bad; if (!amb && m.evs.size()) { s.nontrivial(); if (m.st.resample) s.label("resample"); if (m.st.rollback) s.label("rollback"); if (m.st.forced) s.label("forced"); }
      if (bad.empty() && !amb && !p.csv.empty() && R.thrown.empty() && m.evs.size()) { std::ifstream in(p.csv); std::string l; std::getline(in, l); size_t k = 0; if (l != "step,attempt,signal,action,value,threshold") bad = "spike CSV header"; while (std::getline(in, l) && bad.empty()) { if (k >= m.evs.size()) { bad = "spike CSV has extra rows"; break; } auto &e = m.evs[k++]; std::string want = std::to_string(e.step) + "," + std::to_string(e.attempt) + "," + SignalName(e.signal) + "," + ActionName(e.action) + ","; if (l.rfind(want, 0) != 0) bad = "spike CSV row " + std::to_string(k) + " is " + l; } if (bad.empty() && k != m.evs.size()) bad = "spike CSV rows missing"; } }
    if (!R.thrown.empty()) break;
  }
  verdict(s, bad);
}
#endif
#if !defined(ONLY) || ONLY == 27
PBT_PROP(lbfgs_fixed_step_trajectory, 120, 10000, "a history pair was used") {
  who(); Space S = space(s); if (S.sl.empty()) return; size_t n = S.sl.size(); P p; common(s, p); p.a = LBFGS; p.sched = (int) s.freq({3, 1, 1}); p.lb = LBFGSParams(s.urange(1, 4)); p.lb.use_damping = s.boolean(); p.lb.min_curvature = s.pick(std::vector<double>{1e-12, 0.3}); p.lb.max_direction_norm = s.pick(std::vector<double>{1e3, 0.5, 0.0}); s.note(desc(p) + " history=" + std::to_string(p.lb.history_size) + (p.lb.use_damping ? " damping" : "") + " cmin=" + pbt::show(p.lb.min_curvature) + " cap=" + pbt::show(p.lb.max_direction_norm));
  Opt opt(params(p), MPI_COMM_WORLD, me, np); std::string bad; int reps = (int) s.urange(1, 2);
  for (int r = 0; r < reps; ++r) { Fn f = landscape(s, n, (int) s.freq({2, 3, 2}), 0, true); std::mt19937_64 g(s.draw(1u << 20)); V x0 = rvec(g, n); Run R = run(opt, p, S, x0, f, {}); if (me == 0 && bad.empty()) { Model m(p, S, R, x0); bool amb; bad = m.check(amb); if (!bad.empty()) bad = "L-BFGS run " + std::to_string(r) + ": " + bad; if (!amb && m.st.hist) s.nontrivial(); s.label(amb ? "ambiguous" : "judged"); } }
  verdict(s, bad);
}
// smooth landscapes with a lower bound; the accepted step must satisfy the strong Wolfe conditions measured here
PBT_PROP(lbfgs_strong_wolfe, 120, 10000, "two or more line searches judged") {
  who(); Space S = space(s); if (S.sl.empty()) return; size_t n = S.sl.size(); P p; common(s, p); p.cbstop = -1; p.a = LBFGS; p.iters = s.urange(1, 8); p.lr = s.pick(std::vector<double>{1.0, 0.05, 1e-3}); p.lb = LBFGSParams(s.urange(1, 5)); auto &q = p.lb; q.step_mode = LBFGSStepMode::kStrongWolfe; q.max_eval = s.pick(std::vector<size_t>{60, 20, 3, 1}); q.wolfe_c1 = s.pick(std::vector<double>{1e-4, 0.1}); q.wolfe_c2 = s.pick(std::vector<double>{0.9, 0.3}); q.min_step = s.pick(std::vector<double>{1e-8, 1e-2}); q.max_step = s.pick(std::vector<double>{1.0, 10.0, 0.1}); q.tolerance_grad = s.pick(std::vector<double>{1e-5, 0.0, 0.5}); q.allow_fallback_to_fixed_step = s.boolean(); q.max_direction_norm = s.pick(std::vector<double>{1e3, 0.5}); bool quad = s.boolean(), badp = s.chance(1, 15); if (badp) { switch (s.draw(4)) { case 0: q.wolfe_c1 = 0; break; case 1: q.wolfe_c2 = q.wolfe_c1; break; case 2: q.max_eval = 0; break; default: q.wolfe_c2 = 1; } }
  s.note(desc(p) + " eval<=" + std::to_string(q.max_eval) + " c1=" + pbt::show(q.wolfe_c1) + " c2=" + pbt::show(q.wolfe_c2) + " min=" + pbt::show(q.min_step) + " max=" + pbt::show(q.max_step) + (q.allow_fallback_to_fixed_step ? " fallback" : "") + (quad ? " quadratic" : " wavy"));
  uint64_t sd = s.draw(1u << 30); std::mt19937_64 g(sd); V t = rvec(g, n); std::vector<double> a(n), w(n); std::uniform_real_distribution<double> u(0, 1); for (auto &x : a) x = 0.2 + 3 * u(g); for (auto &x : w) x = 2 * u(g);
  Fn f = [=](size_t, const V &x) -> std::tuple<cd, V, double> { double e = 0; V gr(n); for (size_t k = 0; k < n; ++k) { cd z = x[k] - t[k]; e += 0.5 * a[k] * std::norm(z); gr[k] = a[k] * z; if (!quad) { e += w[k] * (std::sin(3 * z.real()) + std::sin(2 * z.imag())); gr[k] += cd(3 * w[k] * std::cos(3 * z.real()), CPLX ? 2 * w[k] * std::cos(2 * z.imag()) : 0.0); } } return {e, gr, 0.0}; };
  V x0 = rvec(g, n); Opt opt(params(p), MPI_COMM_WORLD, me, np); Run R = run(opt, p, S, x0, f, {}); std::string bad;
  if (me == 0) {
    if (badp) { if (R.thrown != "invalid_argument") bad = "invalid line-search parameters were accepted"; }
    else if (R.thrown == "livelock" || R.thrown == "invalid_argument") bad = "unexpected " + R.thrown;
    else if (R.thrown == "runtime_error" && q.allow_fallback_to_fixed_step) bad = "threw although the fixed-step fallback is allowed";
    else {  // iteration i owns the evaluations between two on_iteration calls: the current point, then the trials of its line search
      Model m(p, S, R, x0); size_t searches = 0; V cur = x0; size_t done = R.it.size(), start = 0;
      try {
        for (size_t it = 0; start < R.log.size(); ++it) {
          bool open = it >= done; size_t end = open ? R.log.size() : R.it[it].at; const Ev &e = R.log[start]; m.same(e.st, cur, V(n, 1e-8 * (1 + mx(cur))), "state at iteration " + std::to_string(it)); cur = e.st; m.addpair(cur, e.g); V d = m.lbdir(e.g); double slope = rdot(e.g, d), phi0 = e.e.real();
          if (nrm(e.g) == 0) throw Ambiguous{}; if (-slope < 1e-7 * nrm(e.g) * nrm(d) || -slope < 1e-9) throw Ambiguous{}; if (end - start - 1 > q.max_eval) throw Fail{"more than max_eval trials"};
          double bestphi = 1e300, bestd = 0; auto thr = std::max(-q.wolfe_c2 * slope, q.tolerance_grad);
          for (size_t k = start + 1; k < end; ++k) { const Ev &x = R.log[k]; V dx = axpy(x.st, -1, cur); double al = rdot(d, dx) / rdot(d, d); if (nrm(axpy(dx, -al, d)) > 1e-7 * (nrm(dx) + mx(cur))) throw Fail{"trial off the search line"}; if (al < 0 || al > q.max_step * (1 + 1e-9) + 1e-9) throw Fail{"trial step " + pbt::show(al) + " outside [0, max_step]"}; double ph = x.e.real(); if (ph <= phi0 + q.wolfe_c1 * al * slope - 1e-9 * (1 + std::abs(phi0)) && ph < bestphi) { bestphi = ph; bestd = rdot(x.g, d); } }
          auto failed = [&] { if (bestphi < 1e299 && std::abs(bestd) < thr * (1 - 1e-6) - 1e-9) throw Fail{"iteration " + std::to_string(it) + ": the lowest trial satisfied the strong Wolfe conditions but the search was declared failed"};
            double curv = 0; for (size_t k = 0; k < n; ++k) curv += a[k] * std::norm(d[k]); if (quad && q.max_eval >= 60 && q.max_step >= 10 && q.wolfe_c2 > 0.5 && rdot(d, d) > 1e-8 && -slope / curv < 9) throw Fail{"iteration " + std::to_string(it) + ": the line search failed on a convex parabola whose minimum lies inside the step range"}; };
          if (R.thrown == "runtime_error") { if (open) { failed(); break; } }
          double used = R.it.size() > it || R.res ? (R.res ? R.res->learning_rate_trajectory.at(it) : -1) : -1; if (used < 0) { // thrown later: recover the step from the next starting point
            V dx = axpy(R.log[end].st, -1, cur); used = rdot(d, dx) / rdot(d, d); }
          V nx = axpy(cur, used, d); auto fx = f(0, nx); double phi = std::get<0>(fx).real(), dphi = rdot(std::get<1>(fx), d);
          bool armijo = phi <= phi0 + q.wolfe_c1 * used * slope + 1e-8 * (1 + std::abs(phi0)), curvc = std::abs(dphi) <= thr * (1 + 1e-6) + 1e-8; double fb = std::max(q.min_step, p.lr * q.fallback_fixed_step_scale); bool isfb = q.allow_fallback_to_fixed_step && std::abs(used - fb) <= 1e-6 * fb;
          if (!(armijo && curvc)) { if (!isfb) throw Fail{"iteration " + std::to_string(it) + " accepted step " + pbt::show(used) + " with phi(0)=" + pbt::show(phi0) + " phi'(0)=" + pbt::show(slope) + " phi=" + pbt::show(phi) + " phi'=" + pbt::show(dphi)}; failed(); s.label("fallback"); }
          else if (!isfb && used > q.max_step * (1 + 1e-9)) throw Fail{"step " + pbt::show(used) + " above max_step"}; else ++searches;
          if (open) { if (!R.res->converged) throw Fail{"stopped without reporting convergence"}; m.same(S.vec(R.res->optimized_state), cur, V(n, 1e-8 * (1 + mx(cur))), "final state"); break; }
          m.H.ax = cur; m.H.ag = e.g; m.H.has = true; cur = nx; start = end; if (R.res && it + 1 == done && end == R.log.size()) m.same(S.vec(R.res->optimized_state), nx, V(n, 1e-8 * (1 + mx(nx))), "final state");
        }
        if (searches > 1) s.nontrivial();
      } catch (const Fail &x) { bad = "strong Wolfe: " + x.m; } catch (const Ambiguous &) { s.label("ambiguous"); }
    }
  }
  verdict(s, bad);
}
#endif
#if !defined(ONLY) || ONLY == 28
// minimal reader for one flat JSON object whose values are numbers, booleans or arrays of numbers
bool json_line(const std::string &l, std::map<std::string, std::vector<double>> &o) {
  size_t i = 0; auto ws = [&] { while (i < l.size() && l[i] == ' ') ++i; }; auto num = [&](double &v) { ws(); if (l.compare(i, 4, "true") == 0) { v = 1; i += 4; return true; } if (l.compare(i, 5, "false") == 0) { v = 0; i += 5; return true; } if (i >= l.size() || !(isdigit(l[i]) || l[i] == '-')) return false; char *e; v = std::strtod(l.c_str() + i, &e); size_t k = (size_t) (e - l.c_str()); if (k == i) return false; i = k; return std::isfinite(v); };
  ws(); if (i >= l.size() || l[i++] != '{') return false;
  for (;;) { ws(); if (i >= l.size() || l[i++] != '"') return false; size_t q = l.find('"', i); if (q == std::string::npos) return false; std::string k = l.substr(i, q - i); i = q + 1; ws(); if (i >= l.size() || l[i++] != ':') return false; ws(); std::vector<double> v; if (o.count(k)) return false;
    if (i < l.size() && l[i] == '[') { ++i; ws(); if (l[i] == ']') ++i; else for (;;) { double x; if (!num(x)) return false; v.push_back(x); ws(); if (l[i] == ',') { ++i; continue; } if (l[i] == ']') { ++i; break; } return false; } } else { double x; if (!num(x)) return false; v.push_back(x); }
    o[k] = v; ws(); if (i >= l.size()) return false; if (l[i] == ',') { ++i; continue; } if (l[i] == '}') { ++i; ws(); return i == l.size(); } return false; }
}
std::string csv_check(const std::string &file, const Model &m, size_t rows) {
  std::ifstream in(file); std::string l; if (!in || !std::getline(in, l)) return "missing " + file; if (l != "iteration,energy,energy_error") return "header of " + file; size_t k = 0;
  while (std::getline(in, l)) { if (k >= rows) return file + " has too many rows"; size_t a = l.find(','), b = l.find(',', a + 1); if (a == std::string::npos || b == std::string::npos) return file + " row " + l; if (std::stoul(l.substr(0, a)) != k || std::stod(l.substr(a + 1, b - a - 1)) != m.TE[k].real() || std::abs(std::stod(l.substr(b + 1)) - m.TErr[k]) > 1e-14 * std::abs(m.TErr[k])) return file + " row " + l; ++k; }
  return k == rows ? "" : file + " has " + std::to_string(k) + " rows, not " + std::to_string(rows);
}
PBT_PROP(selectors_logs_checkpoints, 120, 12000, "a selector changed the step, or a checkpoint was written") {
  who(); Space S = space(s); if (S.sl.empty()) return; size_t n = S.sl.size(); P p; common(s, p); p.iters = s.urange(1, 12); if (s.chance(1, 3)) sr_params(s, p), p.iters = std::min<size_t>(p.iters, 6); else { first_order(s, p); p.sched = 0; if (s.chance(3, 4)) { p.a = SGD; } }
  bool sel = s.chance(2, 3); if (sel) { p.is.enabled = s.boolean(); p.is.max_line_search_steps = s.chance(1, 15) ? 0 : s.chance(1, 3) ? s.urange(5, 12) : s.urange(1, 4); p.is.enable_in_deterministic = s.boolean(); p.ps.enabled = s.boolean(); p.ps.every_n_steps = s.chance(1, 20) ? 0 : s.urange(1, 4); p.ps.phase_switch_ratio = s.pick(std::vector<double>{0.3, 0.0, 1.0, 0.5, 1.0, 0.0, -0.1, 1.1}); p.ps.enable_in_deterministic = s.boolean(); p.eonly = s.boolean(); if (s.chance(1, 20)) p.sched = 1; if (s.chance(1, 20)) p.lr = s.boolean() ? 0.0 : -0.1; }
  if (s.chance(1, 4)) { p.sp.enable_auto_recover = true; p.sp.redo_mc_max_retries = s.urange(0, 2); p.sp.factor_err = 2; p.sp.factor_ngrad = 1e9; p.sp.factor_grad = 1e10; p.sp.sr_min_iters_suspicious = 0; }
  fs::path root = fs::path(pbt::ScratchDir()) / "optim28"; if (me == 0) { fs::remove_all(root); fs::create_directories(root); }
  bool ck = s.chance(1, 2), js = s.chance(2, 3); if (ck) { p.ck = s.urange(1, 4); p.dir = (root / "ck" / "pt").string(); } if (js) p.jsonl = (root / (s.boolean() ? "deep/log.jsonl" : "log.jsonl")).string(); uint64_t as = s.boolean() ? s.draw(1u << 20) + 1 : 0; double nanp = s.chance(1, 12) ? 0.1 : 0;
  s.note(desc(p) + (p.is.enabled ? " initial<=" + std::to_string(p.is.max_line_search_steps) + (p.is.enable_in_deterministic ? "det" : "") : "") + (p.ps.enabled ? " periodic/" + std::to_string(p.ps.every_n_steps) + (p.ps.enable_in_deterministic ? "det" : "") + " ratio=" + pbt::show(p.ps.phase_switch_ratio) : "") + (p.eonly ? " energy-only" : "") + (ck ? " checkpoint/" + std::to_string(p.ck) : "") + (js ? " jsonl" : "")); s.label(an[p.a]);
  Opt opt(params(p), MPI_COMM_WORLD, me, np); std::string bad; int reps = (int) s.urange(1, 2); size_t lines = 0;
  for (int r = 0; r < reps; ++r) {
    Fn f0 = landscape(s, n, (int) s.freq({3, 1, 1}), 0.1, true); bool tie = s.chance(1, 5); uint64_t ns = s.draw(1u << 20); Fn f = [=](size_t c, const V &x) { auto t = f0(tie ? c / 2 : c, x); std::mt19937_64 h(ns + c); if (nanp > 0 && c > 0 && (double) (h() % 1000) / 1000 < nanp) { if (h() & 1) std::get<0>(t) = std::nan(""); else std::get<2>(t) = INFINITY; } return t; };
    auto sf = sampler(s, n, p); std::mt19937_64 g(s.draw(1u << 20)); V x0 = rvec(g, n); Run R = run(opt, p, S, x0, f, sf, as); bool judge = false;
    if (me == 0 && bad.empty()) {
      Model m(p, S, R, x0); bool amb; if (nanp > 0) { bool nonf = false; for (auto &e : R.log) nonf |= !std::isfinite(e.e.real()) || !std::isfinite(e.err); if (nonf && !m.finite_main()) amb = true; else bad = m.check(amb); } else bad = m.check(amb);
      if (!bad.empty()) bad = std::string(an[p.a]) + " run " + std::to_string(r) + ": " + bad;
      judge = !amb && bad.empty() && R.thrown.empty(); if (judge) { if (m.st.moved || m.st.ckpt) s.nontrivial(); if (m.st.halved) s.label("halved"); if (m.st.moved) s.label("step moved"); if (m.st.ckpt) s.label("checkpoint"); }
      if (judge && js) { std::ifstream in(p.jsonl); std::string l; size_t k = 0; while (std::getline(in, l) && bad.empty()) { if (k++ < lines) continue; size_t i = k - 1 - lines; std::map<std::string, std::vector<double>> o; if (i >= m.TE.size()) { bad = "extra JSONL line"; break; } if (!json_line(l, o)) { bad = "not a JSON object: " + l; break; }
          auto num = [&](const char *key, double want, double rel) { if (!o.count(key) || o[key].size() != 1) { bad = std::string("JSONL lacks ") + key; return; } if (std::abs(o[key][0] - want) > rel * std::abs(want) + 1e-300) bad = std::string("JSONL ") + key + " of iteration " + std::to_string(i) + " is " + pbt::show(o[key][0]) + ", not " + pbt::show(want); };
          num("iter", (double) i, 0); num("energy", m.TE[i].real(), 1e-15); num("energy_error", m.TErr[i], 1e-5); num("grad_norm", m.TG[i], 1e-5); num("lr", m.TL[i], 1e-5); num("selector_triggered", m.trig[i] ? 1 : 0, 0); num("selected_eta", m.trig[i] ? m.TL[i] : 0, 1e-5); if (p.natural()) { double w = m.ngn[i], x = o["sr_ngrad_norm"].empty() ? -1 : o["sr_ngrad_norm"][0]; if (std::abs(x - w) > 1e-5 * (1 + w)) bad = "JSONL sr_ngrad_norm is " + pbt::show(x) + ", not " + pbt::show(w); }
          if (as && !(sel && !p.eonly)) { auto &w = R.log[m.accepted[i]].acc; auto &x = o["accept_rates"]; if (x.size() != w.size()) bad = "JSONL accept_rates count"; else for (size_t q = 0; q < w.size(); ++q) if (std::abs(x[q] - w[q]) > 1e-3) bad = "JSONL accept_rates"; }
          if (bad.size()) break; }
        if (bad.empty() && k != lines + m.TE.size()) bad = "JSONL has " + std::to_string(k) + " lines, not " + std::to_string(lines + m.TE.size()); lines = k; }
      if (judge && ck && bad.empty()) { std::set<std::string> want; for (auto &[st, tot] : m.ckpts) { std::string d = p.dir + "/step_" + std::to_string(st); want.insert("step_" + std::to_string(st)); SI y(S.t.rows(), S.t.cols(), S.t.PhysicalDim()); bool ok; { Quiet q; ok = y.Load(d); } if (!ok) { bad = "checkpoint " + d + " does not load"; break; } if (y.rows() != S.t.rows() || y.cols() != S.t.cols() || y.PhysicalDim() != S.t.PhysicalDim()) { bad = "checkpoint shape"; break; } V v = S.vec(y); for (size_t k = 0; k < n; ++k) if (v[k] != m.after[st][k]) bad = "checkpoint of step " + std::to_string(st) + " is not the state that step produced"; bad = bad.size() ? bad : csv_check(d + "/trajectory_snapshot.csv", m, tot); if (bad.size()) break;
            std::ifstream in(d + "/checkpoint_meta.txt"); std::string k1, k2, k3; double a, b, c; if (!(in >> k1 >> a >> k2 >> b >> k3 >> c) || k1 != "step" || k2 != "energy" || k3 != "error" || a != (double) st || b != m.TE[st].real() || c != m.TErr[st]) { bad = "checkpoint metadata of step " + std::to_string(st); break; } }
        if (bad.empty() && !m.ckpts.empty()) bad = csv_check(p.dir + "/energy_trajectory.csv", m, m.ckpts.back().second); if (bad.empty() && fs::exists(p.dir)) for (auto &x : fs::directory_iterator(p.dir)) if (x.path().filename() != "energy_trajectory.csv" && !want.count(x.path().filename().string())) bad = "unexpected checkpoint " + x.path().string(); if (me == 0) fs::remove_all(p.dir); }
    }
#ifdef PBT_MPI
    int j = judge; ::MPI_Bcast(&j, 1, MPI_INT, 0, MPI_COMM_WORLD); judge = j;
#endif
    if (!judge || !R.thrown.empty()) break;
  }
  if (me == 0) fs::remove_all(root); verdict(s, bad);
}
#endif
}  // namespace
