// C32: whole optimisation runs (VMCPEPSOptimizer) and the one-call interface (VmcOptimize, MonteCarloMeasure).
// The executor is compared with the composition of its separately judged parts (engine C30, evaluator C30, optimiser C24-C28) and with what its files read back as.
#include "mc.hpp"
#include "qlpeps/algorithm/vmc_update/vmc_peps_optimizer.h"
#include "qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer.h"
#include "qlpeps/api/vmc_api.h"
#include <filesystem>
#include <fstream>
#include <unistd.h>
using namespace mc; namespace fs = std::filesystem;
namespace {
std::string why;
#define CHK(c, m) do { if (why.empty() && !(c)) why = (m); } while (0)
void settle(const World &w) { int b = !why.empty(), any = 0; MPI_Allreduce(&b, &any, 1, MPI_INT, MPI_MAX, w.c); std::string m = why; why.clear(); PBT_ASSERT(!any, m.empty() ? std::string("another rank reported a violation") : m); }
struct Dir { std::string p; const World &w; std::string old; explicit Dir(const World &w_) : w(w_) { char b[4096]; old = getcwd(b, sizeof b); p = pbt::ScratchDir() + "/vmc"; MPI_Barrier(w.c); if (w.rk == 0) { fs::remove_all(p); fs::create_directories(p); } MPI_Barrier(w.c); if (chdir(p.c_str())) {} } ~Dir() { if (chdir(old.c_str())) {} MPI_Barrier(w.c); if (w.rk == 0) fs::remove_all(p); MPI_Barrier(w.c); MPISignalGuard::Reset(); std::signal(SIGINT, SIG_DFL); std::signal(SIGTERM, SIG_DFL); } };
std::vector<std::string> lines(const std::string &f) { std::ifstream i(f); std::vector<std::string> v; std::string l; while (std::getline(i, l)) v.push_back(l); return v; }
std::vector<double> row(const std::string &l) { std::vector<double> v; std::stringstream q(l); std::string x; while (std::getline(q, x, ',')) v.push_back(std::strtod(x.c_str(), nullptr)); return v; }
struct Plan { std::vector<std::vector<size_t>> seq; std::vector<size_t> init; };
Plan plan(Src &s, int np, const std::vector<size_t> &ok) { Plan p; for (int r = 0; r < np; ++r) { std::vector<size_t> q; size_t n = s.urange(2, 5); for (size_t i = 0; i < n; ++i) q.push_back(ok[s.draw(ok.size())]); p.seq.push_back(q); p.init.push_back(ok[s.draw(ok.size())]); } return p; }
std::shared_ptr<Script> script(const State &S, const Plan &p, int rk) { auto sc = std::make_shared<Script>(); sc->rank = rk; for (size_t k : p.seq[rk]) sc->seq.push_back(S.conf(k)); return sc; }
// usable with one contractor only, so that the one-call interface instantiates one backend
struct Up1 { std::shared_ptr<Script> sc; void operator()(const SI &x, Comp &w, std::vector<double> &acc) { Upd u{sc}; u(x, w, acc); } };
using Opt = Optimizer<E, Q>; using Eng = MonteCarloEngine<E, Q, Up1, Con>;
using CB = typename Opt::OptimizationCallback;
double big(const SI &x) { double m = 0; for (size_t r = 0; r < x.rows(); ++r) for (size_t c = 0; c < x.cols(); ++c) for (auto &t : x({r, c})) for (auto &z : t.d_) m = std::max(m, std::abs(C(z))); return m; }
std::string sdiff(const SI &a, const SI &b, double rel, double f = 1) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return "lattice size"; double t = rel * big(b) * f;
  for (size_t r = 0; r < a.rows(); ++r) for (size_t c = 0; c < a.cols(); ++c) { if (a({r, c}).size() != b({r, c}).size()) return "components"; for (size_t i = 0; i < a({r, c}).size(); ++i) { auto &x = a({r, c})[i].d_; auto &y = b({r, c})[i].d_; if (x.size() != y.size()) return "shape"; for (size_t u = 0; u < x.size(); ++u) if (!(std::abs(C(x[u]) - f * C(y[u])) <= t)) return "site (" + std::to_string(r) + "," + std::to_string(c) + ") component " + std::to_string(i) + ": " + show(C(x[u])) + " expected " + show(f * C(y[u])); } }
  return "";
}
bool same(double a, double b, double rel) { return (std::isinf(a) && std::isinf(b)) || (std::isnan(a) && std::isnan(b)) || std::abs(a - b) <= rel * (1 + std::abs(b)); }
// the amplitude of a configuration, by full contraction
cd amp(const State &S0, const SI &x, size_t k, double *mag = nullptr) { State S = S0; S.x = x; refresh(S); if (mag) *mag = S.mag(k); return S.psi(k); }

struct Ev { size_t it; double e, err, gn; };
PBT_PROP(optimisation_run, 24, 2000, "at least two iterations with different energies") {
  World w(s); Dir dir(w); size_t R, Cc; lattice(s, R, Cc); std::mt19937_64 g(s.draw(1u << 30)); State S = random_state(s, g, R, Cc, (int) s.pick(std::vector<int>{0, 0, -6, 6})); Mod m = make_mod(s, R, Cc); std::vector<size_t> ok = resolved(S, 0.1); if (ok.size() < 2) return; Plan p = plan(s, w.np, ok);
  size_t total = s.urange(1, 6 * w.np), wu = s.urange(0, 2), sb = s.urange(1, 2), iters = s.urange(1, 4); bool warmed = s.boolean(); std::string cdump = s.boolean() ? "conf/deep" : "", base = s.pick(std::vector<std::string>{"tps", "deep/er/x_", ""}), jl = s.pick(std::vector<std::string>{"", "", "mylog/a.jsonl"});
  OptimizerParams op; auto &bp = op.base_params; bp.max_iterations = iters; bp.energy_tolerance = 0; bp.gradient_tolerance = 0; bp.plateau_patience = 100; bp.learning_rate = s.pick(std::vector<double>{1e-3, 1e-2}); bp.jsonl_log_path = jl; int al = (int) s.freq({3, 2, 2, 1, 1, 1}); const char *an[] = {"SGD", "SR", "MinSR", "AdaGrad", "Adam", "L-BFGS"}; s.note(an[al]); s.label(an[al]);
  if (al == 0) op.algorithm_params = SGDParams(s.boolean() ? 0.5 : 0.0, false); if (al == 1) { ConjugateGradientParams cg; cg.max_iter = 40; cg.relative_tolerance = 1e-12; StochasticReconfigurationParams sp; sp.cg_params = cg; sp.diag_shift = 0.1; sp.normalize_update = s.boolean(); op.algorithm_params = sp; } if (al == 2) op.algorithm_params = MinSRParams(); if (al == 3) op.algorithm_params = AdaGradParams(1e-3, 0.1); if (al == 4) op.algorithm_params = AdamParams(0.9, 0.99, 1e-3); if (al == 5) op.algorithm_params = LBFGSParams();
  if (al < 3 && s.chance(1, 3)) { bp.initial_step_selector.enabled = true; bp.initial_step_selector.max_line_search_steps = s.urange(1, 3); bp.initial_step_selector.enable_in_deterministic = true; s.label("selector"); }
  if (al < 3 && s.chance(1, 4)) { bp.periodic_step_selector.enabled = true; bp.periodic_step_selector.every_n_steps = 1; bp.periodic_step_selector.enable_in_deterministic = true; }
  size_t nn = (total + w.np - 1) / w.np, bn = 1; while ((bn + 1) * (bn + 1) <= nn) ++bn; bool noerr = (nn / bn) * w.np < 2; if (noerr && (bp.initial_step_selector.enabled || bp.periodic_step_selector.enabled)) return;
  if (s.chance(1, 4)) { op.checkpoint_params.every_n_steps = s.urange(1, 2); op.checkpoint_params.base_path = "ckpt"; } bool custom = s.chance(1, 4), cbs = s.boolean(), load = s.chance(1, 4), wrap = !custom && !cbs && !load && s.boolean(); size_t stop = cbs && s.chance(1, 3) ? s.draw(iters) : 99; if (custom) s.label("custom evaluator"); if (wrap) s.label("one call");
  if (custom && (al == 1 || al == 2)) { custom = false; }
  s.note(std::to_string(total) + " samples on " + std::to_string(w.np) + " ranks, " + std::to_string(iters) + " iterations");
  VMCPEPSOptimizerParams vp(op, MonteCarloParams(total, wu, sb, S.conf(p.init[w.rk]), warmed, cdump), PEPSParams(exact_trunc()), "never"); vp.tps_dump_base_name = base; vp.runtime_params.psi_consistency.enabled = s.boolean(); CHK(VMCPEPSOptimizerParams(op, vp.mc_params, vp.peps_params).tps_dump_base_name == "tps", "default dump name");
  std::string tp = dir.p + "/start"; if (load) { if (w.rk == 0) { Quiet q; SI y = S.x; y.Dump(tp); } MPI_Barrier(w.c); }
  with_mod(m, [&](auto &sv) {
    using M = std::decay_t<decltype(sv)>; using VO = VMCPEPSOptimizer<E, Q, Up1, M, Con>;
    // reference: the parts, put together as documented
    auto sa = script(S, p, w.rk), sb2 = script(S, p, w.rk); OptimizerParams rp = op; rp.base_params.jsonl_log_path.clear(); rp.checkpoint_params = CheckpointParams(); std::vector<Ev> re; std::vector<std::vector<double>> acc; std::vector<double> lastacc; std::vector<std::pair<double, SI>> rl; CB rc; rc.on_iteration = [&](size_t i, double e, double er, double gn) { re.push_back({i, e, er, gn}); acc.push_back(lastacc); }; rc.on_lowest_state_found = [&](const SI &x, double e) { rl.push_back({e, x}); }; if (stop != 99) rc.should_stop = [&](size_t i, double, double) { return i == stop; };
    size_t cust_calls = 0; auto cust = [&](const SI &x) -> std::tuple<E, SI, double> { ++cust_calls; SI y = w.rk == 0 ? x : S.x; if (w.np > 1) qlpeps::MPI_Bcast(y, w.c, 0); SI gr = y; double e = std::sin(double(cust_calls)); return {mk(cd(e)), gr, 0.25}; };
    typename Opt::OptimizationResult res; size_t ref_calls; std::vector<size_t> cur(w.np);
    {
      Quiet q; Eng en(S.x, vp.mc_params, vp.peps_params, w.c, Up1{sa}); en.WarmUp(); Opt o(rp, w.c, w.rk, w.np); bool sr = al == 1 || al == 2; MCEnergyGradEvaluator<E, Q, Up1, M, Con> ev(en, sv, w.c, sr, PsiConsistencyWarningParams()); std::vector<SI> Os; SI Om; std::vector<E> Es;
      auto full = [&](const SI &x) -> std::tuple<E, SI, double> { if (custom) return cust(x); auto r = ev.Evaluate(x); lastacc = r.accept_rates_avg; if (sr) { Os = r.Ostar_samples; if (r.Ostar_mean) Om = *r.Ostar_mean; } Es = r.energy_samples; return {r.energy, r.gradient, r.energy_error}; }; std::function<std::pair<double, double>(const SI &)> eo; if (!custom) eo = [&](const SI &x) { auto r = ev.EvaluateEnergyOnly(x); lastacc = r.accept_rates_avg; return std::pair<double, double>(std::real(C(r.energy)), r.energy_error); };
      res = o.IterativeOptimize(en.State(), full, rc, sr ? &Os : nullptr, sr ? &Om : nullptr, sr ? &Es : nullptr, eo);
    }
    ref_calls = sa->calls; size_t k = ref_calls ? p.seq[w.rk][(ref_calls - 1) % p.seq[w.rk].size()] : p.init[w.rk]; size_t ref_cust = cust_calls; cust_calls = 0;
    // the real run
    VmcOptimizeResult<E, Q> out; std::vector<Ev> ge; std::vector<std::pair<double, SI>> gl; double cure = 0; SI alt;
    if (wrap) { Quiet q; out = VmcOptimize<E, Q, Up1, M>(vp, S.x, w.c, sv, Up1{sb2}); alt = out.state; if (!out.energy_trajectory.empty()) cure = std::real(C(out.energy_trajectory.back())); else cure = std::numeric_limits<double>::max(); }
    else { Quiet q; std::unique_ptr<VO> x = load ? VO::CreateByLoadingTPS(vp, tp, w.c, sv, Up1{sb2}) : std::make_unique<VO>(vp, S.x, w.c, sv, Up1{sb2}); if (custom) x->SetEnergyEvaluator(cust); if (cbs) { CB cb; cb.on_iteration = [&](size_t i, double e, double er, double gn) { ge.push_back({i, e, er, gn}); auto &ck = op.checkpoint_params; if (w.rk == 0 && ck.IsEnabled() && i > 0 && i % ck.every_n_steps == 0) { auto L = lines("energy/energy_trajectory.csv"); auto last = L.size() == i + 2 ? row(L.back()) : std::vector<double>(); CHK(last.size() == 4 && last[0] == double(i) && last[1] == e && same(last[2], er, 0) && last[3] == gn, "at the checkpoint of iteration " + std::to_string(i) + " energy_trajectory.csv has " + std::to_string(L.size()) + " lines"); } }; cb.on_lowest_state_found = [&](const SI &y, double e) { gl.push_back({e, y}); }; cb.should_stop = rc.should_stop; x->SetOptimizationCallback(cb); }
      x->Execute(); out.state = x->GetState(); alt = x->GetOptimizedState(); out.lowest_state = x->GetLowestState(); out.min_energy = x->GetMinEnergy(); out.energy_trajectory = x->GetEnergyTrajectory(); out.energy_error_trajectory = x->GetEnergyErrorTrajectory(); out.gradient_norms = x->GetGradientNorms(); cure = x->GetCurrentEnergy(); }
    std::string at = m.name() + " " + an[al] + ": "; CHK(sb2->calls == ref_calls, at + std::to_string(sb2->calls) + " sweeps run, expected " + std::to_string(ref_calls)); CHK(cust_calls == ref_cust, at + "custom evaluator called " + std::to_string(cust_calls) + " times, expected " + std::to_string(ref_cust)); const double rel = 1e-7;
    // states on every rank
    SI fin = w.rk == 0 ? res.optimized_state : S.x, low = w.rk == 0 && !rl.empty() ? rl.back().second : S.x; if (w.np > 1) { qlpeps::MPI_Bcast(fin, w.c, 0); qlpeps::MPI_Bcast(low, w.c, 0); } double mg = 0; double a = std::abs(amp(S, fin, k, &mg)), mx = 0; int clean = a > 1e-3 * mg, allc = 0; MPI_Allreduce(&a, &mx, 1, MPI_DOUBLE, MPI_MAX, w.c); MPI_Allreduce(&clean, &allc, 1, MPI_INT, MPI_MIN, w.c); double f = std::pow(1 / mx, 1.0 / (R * Cc)); if (!allc) return;
    auto d = sdiff(out.state, fin, rel, f); CHK(d.empty(), at + "final state (rank " + std::to_string(w.rk) + "), " + d); d = sdiff(alt, out.state, 0); CHK(d.empty(), "GetOptimizedState differs from GetState"); d = sdiff(out.lowest_state, low, rel); CHK(d.empty(), at + "lowest-energy state (rank " + std::to_string(w.rk) + "), " + d);
    // configuration
    if (!cdump.empty()) { Configuration c(R, Cc); bool l = false; { Quiet q; l = c.Load(cdump, w.rk); } CHK(l && S.idx(c) == k, at + "dumped configuration of this rank is not the final one"); }
    auto want = [&](const std::string &path, bool yes) { CHK(fs::exists(path) == yes, at + path + (yes ? " was not written" : " was written")); };
    MPI_Barrier(w.c);
    if (cbs) { CHK(ge.size() == re.size(), at + "the user's on_iteration was called " + std::to_string(ge.size()) + " times in " + std::to_string(re.size()) + " iterations"); CHK(gl.size() == rl.size(), at + "the user's on_lowest_state_found was called " + std::to_string(gl.size()) + " times, expected " + std::to_string(rl.size())); for (size_t i = 0; i < re.size() && why.empty(); ++i) CHK(ge[i].it == re[i].it && same(ge[i].e, re[i].e, rel) && same(ge[i].err, re[i].err, rel) && same(ge[i].gn, re[i].gn, rel), at + "arguments of on_iteration"); for (size_t i = 0; i < rl.size() && why.empty(); ++i) CHK(same(gl[i].first, rl[i].first, rel) && (w.rk || sdiff(gl[i].second, rl[i].second, rel).empty()), at + "arguments of on_lowest_state_found"); }
    if (w.rk) return; std::set<double> es; for (auto &x : re) es.insert(x.e); if (es.size() > 1) s.nontrivial();
    CHK(out.energy_trajectory.size() == re.size() && out.energy_error_trajectory.size() == re.size() && out.gradient_norms.size() == re.size(), at + "trajectory has " + std::to_string(out.energy_trajectory.size()) + " entries, " + std::to_string(re.size()) + " iterations ran"); if (!why.empty()) return;
    auto L = lines("energy/energy_trajectory.csv"); CHK(L.size() == re.size() + 1 && L[0] == "iteration,energy,energy_error,gradient_norm", at + "energy_trajectory.csv has " + std::to_string(L.size()) + " lines"); if (!why.empty()) return; double mn = std::numeric_limits<double>::max();
    for (size_t i = 0; i < re.size(); ++i) { double e = std::real(C(out.energy_trajectory[i])), er = out.energy_error_trajectory[i], gn = out.gradient_norms[i]; CHK(same(e, re[i].e, rel) && same(er, re[i].err, rel) && same(gn, re[i].gn, rel), at + "trajectory entry " + std::to_string(i) + ": " + pbt::show(e) + ", " + pbt::show(er) + ", " + pbt::show(gn) + " expected " + pbt::show(re[i].e) + ", " + pbt::show(re[i].err) + ", " + pbt::show(re[i].gn)); auto q = row(L[i + 1]); CHK(q.size() == 4 && q[0] == i && q[1] == e && same(q[2], er, 0) && q[3] == gn, at + "energy_trajectory.csv row " + std::to_string(i) + ": " + L[i + 1]); mn = std::min(mn, e); }
    CHK(out.min_energy == mn, at + "lowest energy " + pbt::show(out.min_energy) + ", the trajectory's minimum is " + pbt::show(mn)); CHK(re.empty() || cure == std::real(C(out.energy_trajectory.back())), "current energy");
    // files
    std::string log = !jl.empty() ? jl : base.empty() ? "" : "energy/optimization_log.jsonl"; if (!log.empty()) { auto J = lines(log); CHK(J.size() == re.size(), at + log + " has " + std::to_string(J.size()) + " records"); for (size_t i = 0; i < J.size() && why.empty(); ++i) { auto z = J[i].find("\"energy\":"); CHK(z != std::string::npos && same(std::strtod(J[i].c_str() + z + 9, nullptr), std::real(C(out.energy_trajectory[i])), 1e-6), at + "log record " + J[i]); z = J[i].find("\"accept_rates\":["); CHK(z != std::string::npos, at + "no acceptance rates in " + J[i]); if (z == std::string::npos) break; size_t z2 = J[i].find(']', z); auto ra = row(J[i].substr(z + 16, z2 - z - 16)); bool rok = ra.size() == acc[i].size(); for (size_t q = 0; rok && q < ra.size(); ++q) rok = std::abs(ra[q] - acc[i][q]) <= 1e-3 * std::abs(acc[i][q]) + 1e-4; CHK(rok, at + "acceptance rates of iteration " + std::to_string(i) + " logged as " + J[i].substr(z, z2 - z + 1) + ", expected " + [&] { std::string o; for (double q : acc[i]) o += pbt::show(q) + " "; return o; }()); } } if (log != "energy/optimization_log.jsonl") want("energy/optimization_log.jsonl", false); want("never", false);
    if (!base.empty()) for (int q = 0; q < 2; ++q) { SI y(R, Cc); bool l = false; { Quiet z; l = y.Load(base + (q ? "lowest" : "final")); } CHK(l, at + base + (q ? "lowest" : "final") + " cannot be loaded"); if (l) { auto dd = sdiff(y, q ? out.lowest_state : out.state, 0); CHK(dd.empty(), at + "dumped " + (q ? "lowest" : "final") + " state, " + dd); } } else { want("final", false); want("lowest", false); want("tpsfinal", false); }
    std::set<std::string> top; for (auto &x : fs::directory_iterator(".")) top.insert(x.path().filename()); for (auto &x : top) CHK(x == "energy" || x == "start" || (x == "conf" && !cdump.empty()) || (x == "mylog" && !jl.empty()) || (x == "ckpt" && op.checkpoint_params.every_n_steps) || (base == "tps" && (x == "tpsfinal" || x == "tpslowest")) || (base[0] == 'd' && x == "deep"), at + "unexpected output " + x);
  });
  settle(w);
}

// a state that stopped being finite is never handed out as a result
PBT_PROP(non_finite_state, 12, 300, "one element of the update was not finite") {
  World w(s); Dir dir(w); size_t R, Cc; lattice(s, R, Cc); std::mt19937_64 g(s.draw(1u << 30)); State S = random_state(s, g, R, Cc, 0); Mod m = make_mod(s, R, Cc); auto ok = resolved(S); if (ok.empty()) return; Plan p = plan(s, w.np, ok); auto sc = script(S, p, 0); OptimizerParams op; size_t iters = s.urange(1, 3); op.base_params.max_iterations = iters; op.base_params.energy_tolerance = 0; op.base_params.gradient_tolerance = 0; op.base_params.learning_rate = 1e-3; op.algorithm_params = SGDParams(); VMCPEPSOptimizerParams vp(op, MonteCarloParams(2, 0, 1, S.conf(p.init[0]), true), PEPSParams(exact_trunc()), "never"); vp.tps_dump_base_name = "out";
  size_t r = s.draw(R), c = s.draw(Cc), i = s.draw(S.d), u = 0; auto &t0 = S.x({r, c})[i]; std::vector<size_t> nz; for (size_t q = 0; q < t0.d_.size(); ++q) if (std::abs(C(t0.d_[q])) > 0) nz.push_back(q); if (nz.empty()) return; u = nz[s.draw(nz.size())]; double bad = (s.boolean() ? -1 : 1) * std::numeric_limits<double>::infinity(); size_t when = iters - 1, n = 0; s.note(pbt::show(bad) + " at (" + std::to_string(r) + "," + std::to_string(c) + ") component " + std::to_string(i)); bool fine = s.chance(1, 4);
  if (w.rk == 0) with_mod(m, [&](auto &sv) {
    using M = std::decay_t<decltype(sv)>; bool th = false; { Quiet q; VMCPEPSOptimizer<E, Q, Up1, M, Con> x(vp, S.x, MPI_COMM_SELF, sv, Up1{sc}); x.SetEnergyEvaluator([&](const SI &y) -> std::tuple<E, SI, double> { SI gr = y; if (!fine && n == when) gr({r, c})[i].d_[u] = E(bad); ++n; return {mk(cd(-1.0 - double(n))), gr, 0.1}; }); try { x.Execute(); } catch (const std::exception &) { th = true; } if (!th && !fine) { bool finite = true; for (size_t a = 0; a < R; ++a) for (size_t b = 0; b < Cc; ++b) for (auto &t : x.GetState()({a, b})) for (auto &z : t.d_) finite &= std::isfinite(std::abs(C(z))); CHK(finite, "a non-finite state was returned without complaint"); } } if (fine) CHK(!th, "a finite state was refused"); if (th) CHK(!fs::exists("outfinal/tps_meta.txt") && !fs::exists("outfinal/tps_ten0_0_0_0.qlten"), "a non-finite state was dumped"); });
  if (!fine) s.nontrivial(); settle(w);
}

PBT_PROP(measure_one_call, 12, 800, "at least two distinct configurations measured") {
  World w(s); Dir dir(w); size_t R, Cc; lattice(s, R, Cc); std::mt19937_64 g(s.draw(1u << 30)); State S = random_state(s, g, R, Cc, 0); Mod m = make_mod(s, R, Cc); std::vector<size_t> ok = resolved(S); if (ok.empty()) return; Plan p = plan(s, w.np, ok); size_t total = s.urange(1, 6 * w.np); auto a = script(S, p, w.rk), b = script(S, p, w.rk); std::set<size_t> seen; for (auto &q : p.seq) seen.insert(q.begin(), q.end()); if (seen.size() > 1) s.nontrivial(); MCMeasurementParams mp(MonteCarloParams(total, s.urange(0, 2), s.urange(1, 2), S.conf(p.init[w.rk]), s.boolean()), PEPSParams(exact_trunc()), "one"); s.note(std::to_string(total));
  with_mod(m, [&](auto &sv) {
    using M = std::decay_t<decltype(sv)>; std::unique_ptr<MCPEPSMeasurer<E, Q, Up1, M, Con>> me; std::pair<E, double> en; MonteCarloMeasureResult<E, Q> r; { Quiet q; me = std::make_unique<MCPEPSMeasurer<E, Q, Up1, M, Con>>(S.x, mp, w.c, sv, Up1{a}); me->Execute(); en = me->OutputEnergy(); mp.measurement_data_dump_path = "two"; r = MonteCarloMeasure<E, Q, Up1, M>(S.x, mp, w.c, sv, Up1{b}); }
    CHK(r.dump_path == "two", "dump path"); CHK(a->calls == b->calls, "number of sweeps"); if (w.rk) return; CHK(C(r.energy.first) == C(en.first) && same(r.energy.second, en.second, 0), m.name() + ": energy " + show(C(r.energy.first)) + " from one call, " + show(C(en.first)) + " from the measurer"); auto &q = me->ObservableRegistry(); CHK(q.size() == r.registry.size(), "number of observables"); for (auto &[k, v] : q) { auto it = r.registry.find(k); CHK(it != r.registry.end() && it->second.first.size() == v.first.size() && it->second.second.size() == v.second.size(), "observable " + k); if (why.empty()) for (size_t i = 0; i < v.first.size(); ++i) CHK(C(it->second.first[i]) == C(v.first[i]), "observable " + k + " value"); } CHK(fs::is_directory("two/stats"), "nothing dumped by the one-call measurement");
  });
  settle(w);
}

PBT_PROP(one_call_contracts, 16, 300, "boundary condition and parameters disagree") {
  World w(s); Dir dir(w); std::mt19937_64 g(s.draw(1u << 30)); State S = random_state(s, g, 2, 2, 0); auto ok = resolved(S); if (ok.empty()) return; Mod m = make_mod(s, 2, 2); Plan p = plan(s, w.np, ok); bool pbc = s.boolean(), trg = s.boolean(); int kind = (int) s.draw(4); s.note(std::string(pbc ? "periodic" : "open") + (trg ? ", TRG " : ", BMPS ") + std::to_string(kind));
#ifdef PBC
  constexpr bool con = true;
#else
  constexpr bool con = false;
#endif
  SI x(2, 2, S.d, pbc ? BoundaryCondition::Periodic : BoundaryCondition::Open); for (size_t r = 0; r < 2; ++r) for (size_t c = 0; c < 2; ++c) x({r, c}) = S.x({r, c}); PEPSParams pp = trg ? PEPSParams(TRGTruncateParams<double>::SVD(1, 64, 0.0)) : PEPSParams(BMPSTruncateParams<double>::SVD(1, 64, 0.0)); bool good = pbc == con && trg == con; if (pbc != trg) s.nontrivial();
  auto sc = script(S, p, w.rk); OptimizerParams op; op.base_params.max_iterations = 1; op.algorithm_params = SGDParams(); MonteCarloParams mp(kind == 3 ? 0 : 2 * w.np, 0, 1, S.conf(p.init[w.rk]), true);
  with_mod(m, [&](auto &sv) {
    using M = std::decay_t<decltype(sv)>; bool th = false, rt = false; try { Quiet q; if (kind == 0) (void) MonteCarloMeasure<E, Q, Up1, M>(x, MCMeasurementParams(mp, pp, "o"), w.c, sv, Up1{sc}); else if (kind == 2) { VMCPEPSOptimizerParams vp(op, mp, pp); (void) VMCPEPSOptimizer<E, Q, Up1, M, Con>::CreateByLoadingTPS(vp, dir.p + "/nowhere", w.c, sv, Up1{sc}); } else (void) VmcOptimize<E, Q, Up1, M>(VMCPEPSOptimizerParams(op, mp, pp), x, w.c, sv, Up1{sc}); } catch (const std::invalid_argument &) { th = true; } catch (const std::runtime_error &) { rt = true; }
    if (kind == 2) CHK(rt, "a missing state was loaded"); else { CHK(th == (!good || kind == 3), th ? "a valid call was refused" : kind == 3 ? "an optimisation without samples was accepted" : "a mismatch between the state's boundary condition, the updater and the truncation parameters was accepted"); if (kind == 3) s.nontrivial(); }
  });
  settle(w);
}
}  // namespace
