// C38: run and truncation parameter records, their factories and defaults, the configuration loaded from disk, and backend agreement.
#include "pbt.hpp"
#include <filesystem>
#include <fstream>
#include <optional>
#include "qlten/qlten.h"
#include "qlpeps/qlpeps.h"
#include "qlpeps/api/vmc_api.h"
using namespace qlpeps;
using pbt::Src;
namespace fs = std::filesystem;

namespace {
size_t any(Src &s) { switch (s.freq({3, 2, 1, 1})) { case 0: return s.urange(0, 5); case 1: return s.urange(0, 1000000); case 2: return std::numeric_limits<size_t>::max(); default: return ((size_t) s.draw(1u << 31) << 32) + s.draw(1u << 31); } }
double num(Src &s) { switch (s.freq({4, 1, 1})) { case 0: return s.logreal(-18, 6) * (s.chance(1, 6) ? -1 : 1); case 1: return 0; default: return s.real(0, 1); } }
using Grid = std::vector<std::vector<size_t>>;
Grid grid(Src &s) { size_t r = s.urange(1, 6), c = s.urange(1, 6); Grid g(r, std::vector<size_t>(c)); for (auto &x : g) for (auto &y : x) y = s.urange(0, s.chance(1, 8) ? 4000000000u : 5); return g; }
bool same(const Configuration &c, const Grid &g) { if (c.rows() != g.size()) return false; if (g.empty()) return true; if (c.cols() != g[0].size()) return false; for (size_t i = 0; i < g.size(); ++i) for (size_t j = 0; j < g[0].size(); ++j) if (c({i, j}) != g[i][j]) return false; return true; }
std::string word(Src &s) { static const char *w[] = {"", "./", "out", "a/b", "run 1", "/abs/x", "tps"}; return w[s.draw(7)]; }
using B = BMPSTruncateParams<double>; using T = TRGTruncateParams<double>;
bool eq(const B &a, const B &b) { return a.D_min == b.D_min && a.D_max == b.D_max && a.trunc_err == b.trunc_err && a.compress_scheme == b.compress_scheme && a.convergence_tol == b.convergence_tol && a.iter_max == b.iter_max; }
bool eq(const T &a, const T &b) { return a.D_min == b.D_min && a.D_max == b.D_max && a.trunc_err == b.trunc_err && a.inv_relative_eps == b.inv_relative_eps; }
struct Ex { size_t dmin = 1, dmax = std::numeric_limits<size_t>::max(); double err = 0; CompressMPSScheme sch = CompressMPSScheme::SVD_COMPRESS; std::optional<double> tol; std::optional<size_t> it; };
template <class P> bool is(const P &p, const Ex &e) { return p.D_min == e.dmin && p.D_max == e.dmax && (double) p.trunc_err == e.err && p.compress_scheme == e.sch && p.convergence_tol.has_value() == e.tol.has_value() && (!e.tol || (double) *p.convergence_tol == *e.tol) && p.iter_max == e.it; }
B bmps(Src &s, Ex &e) { e = {any(s), any(s), num(s), CompressMPSScheme::SVD_COMPRESS, {}, {}}; double tol = num(s); size_t it = any(s); switch (s.draw(6)) { case 0: e = {}; return B(); case 1: return B::SVD(e.dmin, e.dmax, e.err); case 2: e.sch = CompressMPSScheme::VARIATION2Site; e.tol = tol; e.it = it; return B::Variational2Site(e.dmin, e.dmax, e.err, tol, it); case 3: e.sch = CompressMPSScheme::VARIATION1Site; e.tol = tol; e.it = it; return B::Variational1Site(e.dmin, e.dmax, e.err, tol, it);
  case 4: e.sch = s.boolean() ? CompressMPSScheme::SVD_COMPRESS : CompressMPSScheme::VARIATION2Site; return B(e.dmin, e.dmax, e.err, e.sch); default: e.sch = s.pick(std::vector<CompressMPSScheme>{CompressMPSScheme::SVD_COMPRESS, CompressMPSScheme::VARIATION2Site, CompressMPSScheme::VARIATION1Site}); if (s.boolean()) e.tol = tol; if (s.boolean()) e.it = it; return B(e.dmin, e.dmax, e.err, e.sch, e.tol, e.it); } }
struct Et { size_t dmin = 1, dmax = std::numeric_limits<size_t>::max(); double err = 0, eps = 1e-12; };
bool is(const T &p, const Et &e) { return p.D_min == e.dmin && p.D_max == e.dmax && p.trunc_err == e.err && p.inv_relative_eps == e.eps; }
T trg(Src &s, Et &e) { e = {any(s), any(s), num(s), 1e-12}; double eps = num(s); switch (s.draw(5)) { case 0: e = {}; return T(); case 1: return T::SVD(e.dmin, e.dmax, e.err); case 2: e.eps = eps; return T::SVDWithRegularization(e.dmin, e.dmax, e.err, eps); case 3: e.eps = eps; return T(e.dmin, e.dmax, e.err, eps); default: return T(e.dmin, e.dmax, e.err); } }
struct Em { size_t n, w, b; Grid g; bool warm; std::string dump; };
bool is(const MonteCarloParams &p, const Em &e) { return p.total_samples == e.n && p.num_warmup_sweeps == e.w && p.sweeps_between_samples == e.b && same(p.initial_config, e.g) && p.is_warmed_up == e.warm && p.config_dump_path == e.dump; }
MonteCarloParams mcp(Src &s, Em &e) { e = {any(s), any(s), any(s), grid(s), s.boolean(), ""}; Configuration c(e.g); if (s.boolean()) { e.dump = word(s); return MonteCarloParams(e.n, e.w, e.b, c, e.warm, e.dump); } return MonteCarloParams(e.n, e.w, e.b, c, e.warm); }
bool runtime_default(const RuntimeParams &r, double th) { return r.psi_consistency.enabled && !r.psi_consistency.master_only && r.psi_consistency.threshold == th && r.psi_consistency.max_warnings == 50 && r.psi_consistency.max_print_elems == 8 && r.config_rescue.enabled && r.config_rescue.amplitude_min_threshold == std::numeric_limits<double>::min() && r.config_rescue.amplitude_max_threshold == std::numeric_limits<double>::max(); }
template <class F> bool refuses(F f) { try { f(); } catch (const std::runtime_error &) { return true; } return false; }
template <class F> bool invalid(F f) { try { f(); } catch (const std::invalid_argument &) { return true; } return false; }
}

PBT_PROP(backend_records, 20000, 400000, "history of up to six assignments of boundary-MPS or TRG parameters to one PEPS parameter record and copies of it; non-trivial if the backend changed") {
  Ex e; Et t; bool pbc = s.boolean(); PEPSParams p = pbc ? PEPSParams(trg(s, t)) : PEPSParams(bmps(s, e)); struct Old { PEPSParams p; bool pbc; Ex e; Et t; }; std::vector<Old> old; size_t n = s.urange(0, 6); bool ch = false;
  for (size_t k = 0; k <= n; ++k) {
    PBT_ASSERT(p.IsPBC() == pbc && p.IsOBC() == !pbc, "which backend is set");
    if (pbc) { PBT_ASSERT(is(p.GetTRGParams(), t), "TRG parameters"); PBT_ASSERT(refuses([&] { (void) p.GetBMPSParams(); }), "boundary-MPS parameters handed out for a periodic record"); }
    else { PBT_ASSERT(is(p.GetBMPSParams(), e), "boundary-MPS parameters"); PBT_ASSERT(refuses([&] { (void) p.GetTRGParams(); }), "TRG parameters handed out for an open record"); }
    for (auto bc : {BoundaryCondition::Open, BoundaryCondition::Periodic}) { bool want = (bc == BoundaryCondition::Periodic) != pbc; PBT_ASSERT(invalid([&] { CrossCheckBackendOrThrow_(bc, p, "api"); }) == want, "agreement of lattice and backend"); }
    for (auto &o : old) PBT_ASSERT(o.p.IsPBC() == o.pbc && (o.pbc ? is(o.p.GetTRGParams(), o.t) : is(o.p.GetBMPSParams(), o.e)), "an earlier copy changed");
    if (k == n) break; if (s.boolean()) old.push_back({p, pbc, e, t}); bool q = s.boolean(); if (q != pbc) ch = true; pbc = q;
    if (s.chance(1, 4) && !old.empty()) { auto &o = old[s.draw(old.size())]; p = o.p; pbc = o.pbc; e = o.e; t = o.t; } else if (q) p.SetTRGParams(trg(s, t)); else p.SetBMPSParams(bmps(s, e));
  }
  if (ch) s.nontrivial(); s.note("backend history");
}

PBT_PROP(run_records, 20000, 400000, "one measurement and one optimisation record from generated parts; always non-trivial") {
  s.nontrivial(); Em m; MonteCarloParams mc = mcp(s, m); PBT_ASSERT(is(mc, m), "Monte Carlo record"); PBT_ASSERT(mc.num_samples() == m.n, "old name for the number of samples"); Ex e; Et t; bool pbc = s.boolean(); PEPSParams p = pbc ? PEPSParams(trg(s, t)) : PEPSParams(bmps(s, e)); s.note(std::to_string(m.n) + (pbc ? " samples, periodic" : " samples, open"));
  auto part = [&](const auto &r, const char *n) { PBT_ASSERT(is(r.mc_params, m) && is(r.GetMCParams(), m), n, ": Monte Carlo part"); PBT_ASSERT(r.GetPEPSParams().IsPBC() == pbc, n, ": backend"); if (pbc) { PBT_ASSERT(is(r.GetTRGTruncatePara(), t), n, ": TRG part"); PBT_ASSERT(refuses([&] { (void) r.GetTruncatePara(); }), n, ": boundary-MPS parameters of a periodic run"); } else { PBT_ASSERT(is(r.GetTruncatePara(), e), n, ": boundary-MPS part"); PBT_ASSERT(refuses([&] { (void) r.GetTRGTruncatePara(); }), n, ": TRG parameters of an open run"); } };
  std::string d = word(s); bool given = s.boolean(); MCMeasurementParams a = given ? MCMeasurementParams(mc, p, d) : MCMeasurementParams(mc, p); part(a, "measurement"); PBT_ASSERT(a.measurement_data_dump_path == (given ? d : "./"), "measurement dump path"); PBT_ASSERT(runtime_default(a.runtime_params, 1e-4), "measurement warning defaults"); PBT_ASSERT(!a.particle_number_distribution.enabled && a.particle_number_distribution.particles_per_state.empty(), "particle numbers off by default");
  OptimizerParams op; size_t it = any(s); double lr = num(s); op.base_params.max_iterations = it; op.base_params.learning_rate = lr; double mom = s.unit(); op.algorithm_params = SGDParams(mom); VMCPEPSOptimizerParams o = given ? VMCPEPSOptimizerParams(op, mc, p, d) : VMCPEPSOptimizerParams(op, mc, p); part(o, "optimisation"); PBT_ASSERT(o.tps_dump_path == (given ? d : "./") && o.tps_dump_base_name == "tps", "optimisation dump names"); PBT_ASSERT(runtime_default(o.runtime_params, 1e-3), "optimisation warning defaults"); PBT_ASSERT(o.GetOptimizerParams().base_params.max_iterations == it && o.GetOptimizerParams().base_params.learning_rate == lr && o.GetOptimizerParams().template GetAlgorithmParams<SGDParams>().momentum == mom, "optimiser part");
  auto a2 = a; auto o2 = o; a.mc_params.initial_config({0, 0}) += 1; a.mc_params.total_samples += 1; o.mc_params.initial_config({0, 0}) += 1; mc.initial_config({0, 0}) += 1; PBT_ASSERT(is(a2.mc_params, m) && is(o2.mc_params, m), "copies of a run record are not independent");
}

PBT_PROP(from_disk, 2000, 30000, "a sampling record whose start configuration is read from disk, with optional damage to the files; non-trivial if the lattice has two sites or more and nothing is damaged") {
  Grid g = grid(s); std::string d = pbt::ScratchDir() + "/rp"; fs::remove_all(d); fs::create_directories(d); size_t n = any(s), w = any(s), b = any(s); bool ours = s.boolean();
  if (ours) { Configuration c(g); c.Dump(d, 0); } else { std::ofstream o(d + "/configuration0"); for (auto &r : g) { for (size_t j = 0; j < r.size(); ++j) o << r[j] << (j + 1 < r.size() ? " " : "\n"); } std::ofstream(d + "/configuration0.shape") << g.size() << " " << g[0].size() << "\n"; }
  if (s.boolean()) { Grid h(g); for (auto &r : h) for (auto &x : r) ++x; Configuration(h).Dump(d, 1); }
  int dmg = (int) s.freq({6, 1, 1, 1, 1}); if (dmg == 1) fs::remove(d + "/configuration0"); if (dmg == 2) { std::ofstream o(d + "/configuration0"); for (size_t i = 0; i + 1 < g.size() * g[0].size(); ++i) o << g[i / g[0].size()][i % g[0].size()] << " "; } if (dmg == 3) { std::ofstream o(d + "/configuration0"); o << "x\n"; } if (dmg == 4) fs::remove(d + "/configuration0.shape");
  s.note(std::to_string(g.size()) + "x" + std::to_string(g[0].size()) + " damage " + std::to_string(dmg)); if (!dmg && g.size() * g[0].size() > 1) s.nontrivial(); bool threw = false; std::optional<MonteCarloParams> p; bool warm = s.boolean(); std::string dump = word(s); int form = (int) s.draw(3);
  try { if (form == 0) p.emplace(n, w, b, d); else if (form == 1) p.emplace(n, w, b, d, warm); else p.emplace(n, w, b, d, warm, dump); } catch (const std::runtime_error &) { threw = true; }
  fs::remove_all(d);
  if (dmg == 0) PBT_ASSERT(!threw, "a saved configuration was refused"); if (dmg >= 1 && dmg <= 3) PBT_ASSERT(threw, "a missing or damaged configuration was accepted");
  if (!threw) PBT_ASSERT(is(*p, Em{n, w, b, g, form == 0 ? true : warm, form == 2 ? dump : ""}), "record loaded from disk");
}

PBT_PROP(truncation_records, 20000, 400000, "one boundary-MPS, TRG, simple-update and loop-update record from generated numbers; always non-trivial") {
  s.nontrivial(); Ex e; B b = bmps(s, e); PBT_ASSERT(is(b, e), "boundary-MPS record"); B b2 = b; b.D_max += 1; PBT_ASSERT(is(b2, e), "boundary-MPS copy"); Et t; T r = trg(s, t); PBT_ASSERT(is(r, t), "TRG record"); { double mx = s.chance(1, 6) ? 0 : s.logreal(-300, 6); PBT_ASSERT(r.ComputeEffectiveInvEps(mx) == std::max(r.inv_relative_eps * mx, std::numeric_limits<double>::min()), "effective inversion floor ", pbt::show(r.inv_relative_eps), " ", pbt::show(mx), " ", pbt::show(r.ComputeEffectiveInvEps(mx))); } s.note("truncation records");
  { using F = BMPSTruncateParams<std::complex<double>>; F f = F::SVD(e.dmin, e.dmax, e.err); Ex x{e.dmin, e.dmax, e.err}; PBT_ASSERT(is(f, x), "complex boundary-MPS record"); }
  size_t dmin = any(s), dmax = any(s); double err = num(s), inv = num(s); SimpleUpdateTruncatePara q(dmin, dmax, err), q2(dmin, dmax, err, inv); PBT_ASSERT(q.D_min == dmin && q.D_max == dmax && q.trunc_err == err && q.inv_tol == err, "simple update truncation"); PBT_ASSERT(q2.D_min == dmin && q2.D_max == dmax && q2.trunc_err == err && q2.inv_tol == inv, "simple update truncation with its own inversion tolerance");
  size_t st = any(s), pat = any(s), ms = any(s); double tau = num(s), ea = num(s), er = num(s), lr = num(s); auto stop = [&](const auto &a) { return a && a->energy_abs_tol == ea && a->energy_rel_tol == er && a->lambda_rel_tol == lr && a->patience == pat && a->min_steps == ms; };
  for (int k = 0; k < 3; ++k) { SimpleUpdatePara u = k == 0 ? SimpleUpdatePara(st, tau, dmin, dmax, err) : k == 1 ? SimpleUpdatePara(st, tau, dmin, dmax, err, SimpleUpdatePara::AdvancedStopConfig{ea, er, lr, pat, ms}) : SimpleUpdatePara::Advanced(st, tau, dmin, dmax, err, ea, er, lr, pat, ms); PBT_ASSERT(u.steps == st && u.tau == tau && u.Dmin == dmin && u.Dmax == dmax && u.Trunc_err == err, "simple update numbers"); PBT_ASSERT(k == 0 ? !u.advanced_stop : stop(u.advanced_stop), "simple update stop rule"); PBT_ASSERT(!u.step_observer && !u.emit_machine_readable_metrics, "simple update observers off by default"); }
  double ae = num(s), ad = num(s); size_t ai = any(s); int form = (int) s.draw(4); ArnoldiParams ap = form == 0 ? ArnoldiParams() : form == 1 ? ArnoldiParams(ae) : form == 2 ? ArnoldiParams(ae, ai) : ArnoldiParams(ae, ai, ad); auto arn = [&](const ArnoldiParams &x) { return x.error == (form == 0 ? 1e-7 : ae) && x.max_iterations == (form < 2 ? 200 : ai) && x.degeneracy_tol == (form < 3 ? 1e-14 : ad); }; PBT_ASSERT(arn(ap), "Arnoldi record");
  ConjugateGradientParams cg; PBT_ASSERT(cg.max_iter == 100 && cg.relative_tolerance == 1e-4 && cg.absolute_tolerance == 0 && cg.residual_recompute_interval == 20 && cg.orthogonality_threshold == 0.5, "conjugate gradient defaults"); cg.max_iter = any(s); cg.relative_tolerance = num(s); cg.absolute_tolerance = num(s); double ft = num(s); size_t fi = any(s); FullEnvironmentTruncateParams fe(dmin, dmax, err, ft, fi, cg); auto fet = [&](const FullEnvironmentTruncateParams &x) { return x.Dmin == dmin && x.Dmax == dmax && x.trunc_err == err && x.tolerance == ft && x.max_iter == fi && x.cg_params.max_iter == cg.max_iter && x.cg_params.relative_tolerance == cg.relative_tolerance && x.cg_params.absolute_tolerance == cg.absolute_tolerance; }; PBT_ASSERT(fet(fe), "environment truncation record");
  LoopUpdateTruncatePara lp(ap, inv, fe); auto loop = [&](const LoopUpdateTruncatePara &x) { return arn(x.arnoldi_params) && x.inv_tol == inv && fet(x.fet_params) && x.power_method_max_iter == 100 && x.power_method_tolerance == 1e-15 && x.power_method_burn_in == 5 && x.hermiticity_correction_tol == 1e-4 && x.hermiticity_warning_tol == 1e-8 && x.env_lambda_inv_tol == 1e-200; }; PBT_ASSERT(loop(lp), "loop truncation record");
  bool gt = s.boolean(); auto ty = s.boolean() ? LoopGateType::kFirstOrder : LoopGateType::kExponential; auto wt = gt ? ty : LoopGateType::kFirstOrder; for (int k = 0; k < 3; ++k) { LoopUpdatePara::AdvancedStopConfig c{ea, er, lr, pat, ms}; LoopUpdatePara u = k == 0 ? (gt ? LoopUpdatePara(lp, st, tau, ty) : LoopUpdatePara(lp, st, tau)) : k == 1 ? (gt ? LoopUpdatePara(lp, st, tau, c, ty) : LoopUpdatePara(lp, st, tau, c)) : (gt ? LoopUpdatePara::Advanced(lp, st, tau, ea, er, lr, pat, ms, ty) : LoopUpdatePara::Advanced(lp, st, tau, ea, er, lr, pat, ms)); PBT_ASSERT(loop(u.truncate_para) && u.steps == st && u.tau == tau && u.gate_type == wt, "loop update record"); PBT_ASSERT(k == 0 ? !u.advanced_stop : stop(u.advanced_stop), "loop update stop rule"); PBT_ASSERT(!u.step_observer && !u.emit_machine_readable_metrics, "loop update observers off by default"); }
}
