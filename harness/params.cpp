// C09: optimizer parameter builder, factories and copies; directory helpers (C10).
#include "pbt.hpp"
#include "qlpeps/optimizer/optimizer_params.h"
using namespace qlpeps;
using pbt::Src;
using Sched = std::unique_ptr<LearningRateScheduler>;
namespace {
struct MBase { size_t max_it = 1000; double etol = 1e-10, gtol = 1e-30; size_t pat = 20; double lr = 0.01; std::shared_ptr<LearningRateScheduler> sch; std::optional<double> cv, cn; InitialStepSelectorParams is; PeriodicStepSelectorParams ps; std::string log; };
Sched gsched(Src &s) { switch (s.draw(6)) { case 0: return nullptr; case 1: return std::make_unique<ConstantLR>(s.real(0, 1)); case 2: return std::make_unique<PlateauLR>(s.real(0.1, 1), 0.5, s.urange(1, 3), 0.0);
  case 3: return std::make_unique<StepLR>(s.real(0.1, 1), s.urange(1, 5), 0.5); case 4: return std::make_unique<WarmupLR>(s.real(0.1, 1), s.urange(1, 5)); default: return std::make_unique<ExponentialDecayLR>(s.real(0.1, 1), 0.5, s.urange(1, 5)); } }
double gd(Src &s) { return s.chance(1, 6) ? 0.0 : s.logreal(-30, 2); }
void same_sched(const LearningRateScheduler *a, const LearningRateScheduler *b, const char *w) {
  PBT_ASSERT((a == nullptr) == (b == nullptr), w, ": scheduler presence");
  if (a) { PBT_ASSERT(a->Name() == b->Name() && a->Describe() == b->Describe(), w, ": scheduler ", a->Name(), " ", a->Describe(), " expected ", b->Name(), " ", b->Describe());
    auto x = a->Clone(), y = b->Clone(); double e[] = {1, 1, 0.5, 0.5, 0.5, -1, -1, -1, -1}; for (size_t t = 0; t < 9; ++t) PBT_ASSERT(x->GetLearningRate(t, e[t]) == y->GetLearningRate(t, e[t]), w, ": scheduler behaves differently"); }
}
void same_base(const OptimizerParams::BaseParams &b, const MBase &m, const char *w) {
  PBT_ASSERT(b.max_iterations == m.max_it, w, ": max_iterations ", b.max_iterations, " expected ", m.max_it);
  PBT_ASSERT(b.energy_tolerance == m.etol, w, ": energy_tolerance ", b.energy_tolerance, " expected ", m.etol);
  PBT_ASSERT(b.gradient_tolerance == m.gtol, w, ": gradient_tolerance ", b.gradient_tolerance, " expected ", m.gtol);
  PBT_ASSERT(b.plateau_patience == m.pat, w, ": plateau_patience ", b.plateau_patience, " expected ", m.pat);
  PBT_ASSERT(b.learning_rate == m.lr, w, ": learning_rate ", b.learning_rate, " expected ", m.lr);
  PBT_ASSERT(b.clip_value == m.cv && b.clip_norm == m.cn, w, ": clipping");
  PBT_ASSERT(b.initial_step_selector.enabled == m.is.enabled && b.initial_step_selector.max_line_search_steps == m.is.max_line_search_steps && b.initial_step_selector.enable_in_deterministic == m.is.enable_in_deterministic, w, ": initial selector");
  PBT_ASSERT(b.periodic_step_selector.enabled == m.ps.enabled && b.periodic_step_selector.every_n_steps == m.ps.every_n_steps && b.periodic_step_selector.phase_switch_ratio == m.ps.phase_switch_ratio && b.periodic_step_selector.enable_in_deterministic == m.ps.enable_in_deterministic, w, ": periodic selector");
  PBT_ASSERT(b.jsonl_log_path == m.log, w, ": log path");
  same_sched(b.lr_scheduler.get(), m.sch.get(), w);
}
std::string algo_str(const AlgorithmParams &a) {
  std::ostringstream o; o << std::setprecision(17) << a.index() << ":";
  if (auto *p = std::get_if<SGDParams>(&a)) o << "SGD " << p->momentum << " " << p->nesterov << " " << p->weight_decay;
  if (auto *p = std::get_if<AdamParams>(&a)) o << "Adam " << p->beta1 << " " << p->beta2 << " " << p->epsilon << " " << p->weight_decay;
  if (auto *p = std::get_if<AdaGradParams>(&a)) o << "AdaGrad " << p->epsilon << " " << p->initial_accumulator_value;
  if (auto *p = std::get_if<MinSRParams>(&a)) o << "MinSR " << p->r_pinv << " " << p->a_pinv << " " << p->soft_cutoff << " " << (int) p->solver_mode;
  if (auto *p = std::get_if<StochasticReconfigurationParams>(&a)) o << "SR " << p->cg_params.max_iter << " " << p->cg_params.relative_tolerance << " " << p->cg_params.absolute_tolerance << " " << p->cg_params.residual_recompute_interval << " " << p->cg_params.orthogonality_threshold << " " << p->diag_shift << " " << p->normalize_update << " " << p->adaptive_diagonal_shift;
  if (auto *p = std::get_if<LBFGSParams>(&a)) o << "LBFGS " << p->history_size << " " << p->tolerance_grad << " " << p->tolerance_change << " " << p->max_eval << " " << (int) p->step_mode << " " << p->wolfe_c1 << " " << p->wolfe_c2 << " " << p->min_step << " " << p->max_step << " " << p->min_curvature << " " << p->use_damping << " " << p->max_direction_norm << " " << p->allow_fallback_to_fixed_step << " " << p->fallback_fixed_step_scale;
  return o.str();
}
// expected strings are built from the drawn values, not from the structs
std::string S(std::initializer_list<double> v, const char *h) { std::ostringstream o; o << std::setprecision(17) << h; for (double x : v) o << " " << x; return o.str(); }
struct GA { AlgorithmParams a; std::string want; bool first; };
StochasticReconfigurationParams gsr(Src &s, std::string &want) { StochasticReconfigurationParams p; p.cg_params.max_iter = s.urange(1, 500); p.cg_params.relative_tolerance = gd(s); p.cg_params.absolute_tolerance = gd(s); p.cg_params.residual_recompute_interval = (int) s.range(0, 30); p.cg_params.orthogonality_threshold = s.unit(); p.diag_shift = gd(s); p.normalize_update = s.boolean(); p.adaptive_diagonal_shift = gd(s);
  want = S({(double) p.cg_params.max_iter, p.cg_params.relative_tolerance, p.cg_params.absolute_tolerance, (double) p.cg_params.residual_recompute_interval, p.cg_params.orthogonality_threshold, p.diag_shift, (double) p.normalize_update, p.adaptive_diagonal_shift}, "2:SR"); return p; }
LBFGSParams glb(Src &s, std::string &want) { size_t h = s.urange(1, 30), me = s.urange(1, 40); double d[9]; for (auto &x : d) x = gd(s); bool damp = s.boolean(), fb = s.boolean(); auto mode = s.boolean() ? LBFGSStepMode::kStrongWolfe : LBFGSStepMode::kFixed;
  LBFGSParams p(h, d[0], d[1], me, mode, d[2], d[3], d[4], d[5], d[6], damp, d[7], fb, d[8]);
  want = S({(double) h, d[0], d[1], (double) me, (double) (int) mode, d[2], d[3], d[4], d[5], d[6], (double) damp, d[7], (double) fb, d[8]}, "3:LBFGS"); return p; }
void same_spike(const SpikeRecoveryParams &a, const SpikeRecoveryParams &b) {
  PBT_ASSERT(a.enable_auto_recover == b.enable_auto_recover && a.redo_mc_max_retries == b.redo_mc_max_retries && a.factor_err == b.factor_err && a.factor_grad == b.factor_grad && a.factor_ngrad == b.factor_ngrad && a.sr_min_iters_suspicious == b.sr_min_iters_suspicious && a.enable_rollback == b.enable_rollback && a.ema_window == b.ema_window && a.sigma_k == b.sigma_k && a.log_trigger_csv_path == b.log_trigger_csv_path, "spike parameters not preserved");
}
SpikeRecoveryParams documented_spike() { SpikeRecoveryParams p; p.enable_auto_recover = true; p.redo_mc_max_retries = 2; p.factor_err = 100; p.factor_grad = 1e10; p.factor_ngrad = 10; p.sr_min_iters_suspicious = 1; p.enable_rollback = false; p.ema_window = 50; p.sigma_k = 10; p.log_trigger_csv_path = ""; return p; }
}

PBT_PROP(builder_history, 60000, 2000000, "1..14 builder calls in random order interleaved with builds; non-trivial if a build succeeded after at least three distinct setters") {
  OptimizerParamsBuilder b; bool has_base = false; MBase m; std::optional<std::string> algo; bool first = false; std::optional<CheckpointParams> ck; std::optional<SpikeRecoveryParams> sp;
  size_t n = s.urange(1, 14); std::set<int> used; std::vector<std::pair<OptimizerParams, MBase>> built;
  for (size_t k = 0; k < n; ++k) {
    int op = (int) s.draw(15); used.insert(op);
    auto needs_base = [&](auto &&f, auto &&apply) { bool threw = false; try { f(); } catch (const std::invalid_argument &) { threw = true; } PBT_ASSERT(threw == !has_base, "op ", op, threw ? " threw" : " accepted", " with base parameters ", has_base ? "set" : "unset"); if (has_base) apply(); };
    switch (op) {
      case 0: { size_t v = s.urange(0, 5000); PBT_ASSERT(&b.SetMaxIterations(v) == &b, "chaining"); has_base = true; m.max_it = v; s.note("maxit=", v, " "); break; }
      case 1: { double v = gd(s); b.SetEnergyTolerance(v); has_base = true; m.etol = v; s.note("etol=", v, " "); break; }
      case 2: { double v = s.logreal(-6, 1); auto sc = gsched(s); if (sc) m.sch = sc->Clone(); b.SetLearningRate(v, std::move(sc)); has_base = true; m.lr = v; s.note("lr=", v, " "); break; }
      case 3: { size_t v = s.urange(0, 100); b.SetPlateauPatience(v); has_base = true; m.pat = v; s.note("patience=", v, " "); break; }
      case 4: { double v = s.logreal(-3, 3); needs_base([&] { b.SetClipValue(v); }, [&] { m.cv = v; }); s.note("clipv "); break; }
      case 5: { double v = s.logreal(-3, 3); needs_base([&] { b.SetClipNorm(v); }, [&] { m.cn = v; }); s.note("clipn "); break; }
      case 6: { bool e = s.boolean(), d = s.boolean(); size_t v = s.urange(1, 50); double r = s.unit(); if (s.boolean()) needs_base([&] { b.SetPeriodicStepSelector(e, v, r, d); }, [&] { m.ps = {e, v, r, d}; }); else needs_base([&] { b.SetPeriodicStepSelector(e); }, [&] { m.ps = {e, 10, 0.3, false}; }); s.note("periodic "); break; }
      case 7: { bool e = s.boolean(), d = s.boolean(); size_t v = s.urange(1, 9); if (s.boolean()) needs_base([&] { b.SetInitialStepSelector(e, v, d); }, [&] { m.is = {e, v, d}; }); else needs_base([&] { b.SetInitialStepSelector(e); }, [&] { m.is = {e, 3, false}; }); s.note("initial "); break; }
      case 8: { double mo = s.unit(); bool ne = s.boolean(); if (s.boolean()) { b.WithSGD(mo, ne); algo = S({mo, (double) ne, 0.0}, "0:SGD"); } else { b.WithSGD(); algo = S({0, 0, 0}, "0:SGD"); } first = true; s.note("sgd "); break; }
      case 9: { double a = s.unit(), c = s.unit(), e = gd(s), w = gd(s); if (s.boolean()) { b.WithAdam(a, c, e, w); algo = S({a, c, e, w}, "1:Adam"); } else { b.WithAdam(); algo = S({0.9, 0.999, 1e-8, 0}, "1:Adam"); } first = true; s.note("adam "); break; }
      case 10: { double e = gd(s), i = gd(s); if (s.boolean()) { b.WithAdaGrad(e, i); algo = S({e, i}, "4:AdaGrad"); } else { b.WithAdaGrad(); algo = S({1e-8, 0}, "4:AdaGrad"); } first = true; s.note("adagrad "); break; }
      case 11: { std::string w; switch (s.draw(3)) { case 0: b.WithStochasticReconfiguration(gsr(s, w)); break; case 1: b.WithLBFGS(glb(s, w)); break;
          default: { double r = gd(s), a = gd(s); bool so = s.boolean(); auto mode = static_cast<MinSRSolverMode>(s.draw(3)); if (s.boolean()) { b.WithMinSR(MinSRParams(r, a, so, mode)); w = S({r, a, (double) so, (double) (int) mode}, "5:MinSR"); } else { b.WithMinSR(); w = S({1e-12, 0, 1, 0}, "5:MinSR"); } } }
        algo = w; first = false; s.note("2nd-order "); break; }
      case 12: { size_t v = s.urange(0, 20); std::string p = s.boolean() ? "" : "dir" + std::to_string(s.draw(5)); b.SetCheckpoint(v, p); ck = CheckpointParams{v, p}; s.note("ckpt "); break; }
      case 13: { if (s.chance(1, 3)) { b.DisableSpikeRecovery(); sp = documented_spike(); sp->enable_auto_recover = false; sp->enable_rollback = false; s.note("nospike "); } else { SpikeRecoveryParams p; p.enable_auto_recover = s.boolean(); p.redo_mc_max_retries = s.draw(9); p.factor_err = gd(s); p.factor_grad = gd(s); p.factor_ngrad = gd(s); p.sr_min_iters_suspicious = s.draw(9); p.enable_rollback = s.boolean(); p.ema_window = s.urange(1, 99); p.sigma_k = gd(s); p.log_trigger_csv_path = s.boolean() ? "x.csv" : ""; b.SetSpikeRecovery(p); sp = p; s.note("spike "); } break; }
      default: break;
    }
    if (op == 14 || k + 1 == n) {
      bool threw = false; std::optional<OptimizerParams> r; try { r.emplace(static_cast<const OptimizerParamsBuilder &>(b).Build()); } catch (const std::invalid_argument &) { threw = true; }
      PBT_ASSERT(threw == !(has_base && algo), "build ", threw ? "rejected" : "accepted", " base=", has_base, " algo=", algo.has_value());
      if (threw) { s.label("rejected"); continue; }
      s.note("BUILD "); same_base(r->base_params, m, "built");
      PBT_ASSERT(algo_str(r->algorithm_params) == *algo, algo_str(r->algorithm_params), " expected ", *algo);
      PBT_ASSERT(r->IsFirstOrder() == first, "first-order classification");
      CheckpointParams c = ck ? *ck : CheckpointParams{}; PBT_ASSERT(r->checkpoint_params.every_n_steps == c.every_n_steps && r->checkpoint_params.base_path == c.base_path, "checkpoint");
      PBT_ASSERT(r->checkpoint_params.IsEnabled() == (c.every_n_steps > 0 && !c.base_path.empty()), "checkpoint enabled");
      same_spike(r->spike_recovery_params, sp ? *sp : documented_spike());
      // what one product does with its scheduler must not reach the builder or other products
      MBase snap = m; if (m.sch) snap.sch = std::shared_ptr<LearningRateScheduler>(m.sch->Clone());
      OptimizerParams copy = *r; OptimizerParams asg; asg = *r; asg.base_params = r->base_params; { auto &self = asg.base_params; self = asg.base_params; }
      same_base(copy.base_params, m, "copied"); same_base(asg.base_params, m, "assigned"); PBT_ASSERT(algo_str(copy.algorithm_params) == *algo, "copy of algorithm");
      if (r->base_params.lr_scheduler) { for (int q = 0; q < 7; ++q) r->base_params.lr_scheduler->GetLearningRate(q, 1.0); s.label("scheduler-stepped");
        PBT_ASSERT(copy.base_params.lr_scheduler.get() != r->base_params.lr_scheduler.get(), "scheduler shared between copies"); }
      same_base(copy.base_params, m, "copied, after stepping the original"); same_base(asg.base_params, m, "assigned, after stepping the original");
      same_base(b.Build().base_params, m, "rebuilt");
      built.emplace_back(copy, snap); s.nontrivial(used.size() >= 4);
    }
  }
  for (auto &p : built) same_base(p.first.base_params, p.second, "earlier product");
}

PBT_PROP(factories, 40000, 1000000, "one factory with generated arguments (or its defaults); non-trivial if arguments are explicit") {
  MBase m; m.max_it = s.urange(0, 3000); bool adv = s.boolean(), expl = s.chance(3, 4); size_t which = s.draw(6);
  m.etol = adv ? gd(s) : 0.0; m.gtol = adv ? gd(s) : 0.0; m.pat = adv ? s.urange(0, 99) : m.max_it; double lr = s.logreal(-6, 0); double a = gd(s), c = gd(s); size_t h = s.urange(1, 30); Sched sc = gsched(s), sc2 = sc ? sc->Clone() : nullptr;
  std::string w; bool first = false; std::optional<OptimizerParams> r; s.note("factory ", which, adv ? " advanced" : " simple", expl ? "" : " defaults"); s.nontrivial(expl);
  using F = OptimizerFactory; auto shared = [&]() { m.sch = std::shared_ptr<LearningRateScheduler>(std::move(sc2)); };
  switch (which) {
    case 0: { auto p = gsr(s, w); if (!adv) { r.emplace(expl ? F::CreateStochasticReconfiguration(m.max_it, p, lr) : F::CreateStochasticReconfiguration(m.max_it, p)); } else { if (expl) { r.emplace(F::CreateStochasticReconfigurationAdvanced(m.max_it, m.etol, m.gtol, m.pat, p, lr, std::move(sc))); shared(); } else r.emplace(F::CreateStochasticReconfigurationAdvanced(m.max_it, m.etol, m.gtol, m.pat, p)); } m.lr = expl ? lr : 0.1; break; }
    case 1: { double dr = s.real(0.1, 1); size_t ds = s.urange(1, 200); if (!adv) r.emplace(expl ? F::CreateSGDWithDecay(m.max_it, lr, dr, ds) : F::CreateSGDWithDecay(m.max_it)); else r.emplace(expl ? F::CreateSGDWithDecayAdvanced(m.max_it, m.etol, m.gtol, m.pat, lr, dr, ds) : F::CreateSGDWithDecayAdvanced(m.max_it, m.etol, m.gtol, m.pat));
      m.lr = expl ? lr : 0.01; m.sch = std::make_shared<ExponentialDecayLR>(m.lr, expl ? dr : 0.95, expl ? ds : 100); w = S({0, 0, 0}, "0:SGD"); first = true; break; }
    case 2: { if (!adv) r.emplace(expl ? F::CreateAdam(m.max_it, lr, a, c) : F::CreateAdam(m.max_it)); else { if (expl) { r.emplace(F::CreateAdamAdvanced(m.max_it, m.etol, m.gtol, m.pat, lr, a, c, std::move(sc))); shared(); } else r.emplace(F::CreateAdamAdvanced(m.max_it, m.etol, m.gtol, m.pat)); } m.lr = expl ? lr : 1e-3; w = expl ? S({a, c, 1e-8, 0}, "1:Adam") : S({0.9, 0.999, 1e-8, 0}, "1:Adam"); first = true; break; }
    case 3: { if (!adv) r.emplace(expl ? F::CreateAdaGrad(m.max_it, lr, a, c) : F::CreateAdaGrad(m.max_it)); else r.emplace(expl ? F::CreateAdaGradAdvanced(m.max_it, m.etol, m.gtol, m.pat, lr, a, c) : F::CreateAdaGradAdvanced(m.max_it, m.etol, m.gtol, m.pat)); m.lr = expl ? lr : 0.01; w = expl ? S({a, c}, "4:AdaGrad") : S({1e-8, 0}, "4:AdaGrad"); first = true; break; }
    case 4: { if (!adv) r.emplace(expl ? F::CreateLBFGS(m.max_it, lr, h) : F::CreateLBFGS(m.max_it)); else { if (expl) { r.emplace(F::CreateLBFGSAdvanced(m.max_it, m.etol, m.gtol, m.pat, lr, h, std::move(sc))); shared(); } else r.emplace(F::CreateLBFGSAdvanced(m.max_it, m.etol, m.gtol, m.pat)); }
      m.lr = expl ? lr : 1.0; w = S({(double) (expl ? h : 10), 1e-5, 1e-9, 20, 0, 1e-4, 0.9, 1e-8, 1.0, 1e-12, 1, 1e3, 0, 0.2}, "3:LBFGS"); break; }
    default: { adv = true; m.etol = a; m.gtol = c; m.pat = h; auto p = glb(s, w); r.emplace(F::CreateLBFGSAdvanced(m.max_it, a, c, h, lr, p, std::move(sc))); shared(); m.lr = lr; }
  }
  same_base(r->base_params, m, "factory"); PBT_ASSERT(algo_str(r->algorithm_params) == w, algo_str(r->algorithm_params), " expected ", w);
  PBT_ASSERT(r->IsFirstOrder() == first, "first-order classification"); same_spike(r->spike_recovery_params, documented_spike()); PBT_ASSERT(!r->checkpoint_params.IsEnabled(), "checkpointing on by default");
}

PBT_PROP(struct_defaults, 20000, 400000, "one parameter record with the first k arguments given and the rest left at their defaults; non-trivial if at least one was given") {
  auto eq = [&](const AlgorithmParams &a, const std::string &w) { PBT_ASSERT(algo_str(a) == w, algo_str(a), " expected ", w); };
  size_t which = s.draw(10), k = 0;
  switch (which) {
    case 0: { k = s.draw(4); double m = s.unit(), w = gd(s); bool n = s.boolean(); std::optional<SGDParams> p; if (k == 0) p.emplace(); if (k == 1) p.emplace(m); if (k == 2) p.emplace(m, n); if (k == 3) p.emplace(m, n, w); eq(*p, S({k > 0 ? m : 0, k > 1 && n ? 1.0 : 0.0, k > 2 ? w : 0}, "0:SGD")); break; }
    case 1: { k = s.draw(5); double b1 = s.unit(), b2 = s.unit(), e = gd(s), w = gd(s); std::optional<AdamParams> p; if (k == 0) p.emplace(); if (k == 1) p.emplace(b1); if (k == 2) p.emplace(b1, b2); if (k == 3) p.emplace(b1, b2, e); if (k == 4) p.emplace(b1, b2, e, w); eq(*p, S({k > 0 ? b1 : 0.9, k > 1 ? b2 : 0.999, k > 2 ? e : 1e-8, k > 3 ? w : 0}, "1:Adam")); break; }
    case 2: { StochasticReconfigurationParams p; double c = gd(s); k = s.draw(3); if (k == 1) p.diag_shift = c; if (k == 2) p = StochasticReconfigurationParams{.cg_params = {.max_iter = 7}, .diag_shift = c}; eq(p, S({k == 2 ? 7.0 : 100.0, 1e-4, 0, 20, 0.5, k ? c : 0.001, 0, 0}, "2:SR")); break; }
    case 3: { k = s.draw(15); double v[14] = {(double) s.urange(1, 30), gd(s), gd(s), (double) s.urange(1, 40), (double) s.draw(2), gd(s), gd(s), gd(s), gd(s), gd(s), (double) s.draw(2), gd(s), (double) s.draw(2), gd(s)}; auto md = v[4] ? LBFGSStepMode::kStrongWolfe : LBFGSStepMode::kFixed; std::optional<LBFGSParams> p;
      switch (k) { case 0: p.emplace(); break; case 1: p.emplace(v[0]); break; case 2: p.emplace(v[0], v[1]); break; case 3: p.emplace(v[0], v[1], v[2]); break; case 4: p.emplace(v[0], v[1], v[2], v[3]); break; case 5: p.emplace(v[0], v[1], v[2], v[3], md); break; case 6: p.emplace(v[0], v[1], v[2], v[3], md, v[5]); break;
        case 7: p.emplace(v[0], v[1], v[2], v[3], md, v[5], v[6]); break; case 8: p.emplace(v[0], v[1], v[2], v[3], md, v[5], v[6], v[7]); break; case 9: p.emplace(v[0], v[1], v[2], v[3], md, v[5], v[6], v[7], v[8]); break; case 10: p.emplace(v[0], v[1], v[2], v[3], md, v[5], v[6], v[7], v[8], v[9]); break;
        case 11: p.emplace(v[0], v[1], v[2], v[3], md, v[5], v[6], v[7], v[8], v[9], v[10]); break; case 12: p.emplace(v[0], v[1], v[2], v[3], md, v[5], v[6], v[7], v[8], v[9], v[10], v[11]); break; case 13: p.emplace(v[0], v[1], v[2], v[3], md, v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12]); break;
        default: p.emplace(v[0], v[1], v[2], v[3], md, v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13]); }
      double d[14] = {10, 1e-5, 1e-9, 20, 0, 1e-4, 0.9, 1e-8, 1.0, 1e-12, 1, 1e3, 0, 0.2}; for (size_t q = 0; q < k; ++q) d[q] = v[q]; eq(*p, S({d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8], d[9], d[10], d[11], d[12], d[13]}, "3:LBFGS")); break; }
    case 4: { double e = gd(s), i = gd(s); k = 2; eq(AdaGradParams(e, i), S({e, i}, "4:AdaGrad")); break; }
    case 5: { k = s.draw(5); double r = gd(s), a = gd(s); bool so = s.boolean(); auto md = static_cast<MinSRSolverMode>(s.draw(3)); std::optional<MinSRParams> p; if (k == 0) p.emplace(); if (k == 1) p.emplace(r); if (k == 2) p.emplace(r, a); if (k == 3) p.emplace(r, a, so); if (k == 4) p.emplace(r, a, so, md);
      eq(*p, S({k > 0 ? r : 1e-12, k > 1 ? a : 0, k > 2 ? (double) so : 1.0, k > 3 ? (double) (int) md : (double) (int) MinSRSolverMode::kAuto}, "5:MinSR")); break; }
    case 6: { InitialStepSelectorParams i; PeriodicStepSelectorParams p; PBT_ASSERT(!i.enabled && i.max_line_search_steps == 3 && !i.enable_in_deterministic, "initial selector defaults"); PBT_ASSERT(!p.enabled && p.every_n_steps == 10 && p.phase_switch_ratio == 0.3 && !p.enable_in_deterministic, "periodic selector defaults"); break; }
    case 7: { same_spike(SpikeRecoveryParams{}, documented_spike()); CheckpointParams c; PBT_ASSERT(c.every_n_steps == 0 && c.base_path.empty() && !c.IsEnabled(), "checkpoints off by default"); IterationRecord r; PBT_ASSERT(r.iteration == 0 && r.energy == 0 && r.energy_error == 0 && r.gradient_norm == 0 && r.learning_rate == 0 && r.accept_rates.empty() && r.sr_iterations == 0 && r.sr_natural_grad_norm == 0 && r.sr_residual_norm == 0 && r.eval_time == 0 && r.selector_time == 0 && r.update_time == 0 && !r.selector_triggered && r.selected_eta == 0, "a fresh iteration record is blank"); break; }
    case 8: { MBase m; m.max_it = s.urange(0, 99); m.etol = gd(s); m.gtol = gd(s); m.pat = s.urange(0, 9); m.lr = gd(s); k = 1 + s.draw(2); Sched sc = k == 2 ? gsched(s) : nullptr; if (sc) m.sch = std::shared_ptr<LearningRateScheduler>(sc->Clone()); auto b = k == 2 ? OptimizerParams::BaseParams(m.max_it, m.etol, m.gtol, m.pat, m.lr, std::move(sc)) : OptimizerParams::BaseParams(m.max_it, m.etol, m.gtol, m.pat, m.lr); same_base(b, m, "constructed");
      // all optional fields set, then copied, assigned and moved
      m.cv = gd(s); m.cn = gd(s); m.is = {s.boolean(), s.urange(1, 9), s.boolean()}; m.ps = {s.boolean(), s.urange(1, 9), s.unit(), s.boolean()}; m.log = "x" + std::to_string(s.draw(9)); b.clip_value = m.cv; b.clip_norm = m.cn; b.initial_step_selector = m.is; b.periodic_step_selector = m.ps; b.jsonl_log_path = m.log;
      OptimizerParams::BaseParams c(b), d(1, 1, 1, 1, 1, std::make_unique<ConstantLR>(3)); d = b; same_base(b, m, "filled"); same_base(c, m, "copy"); same_base(d, m, "assignment"); auto e(std::move(c)); OptimizerParams::BaseParams f(2, 2, 2, 2, 2); f = std::move(d); same_base(e, m, "moved"); same_base(f, m, "move-assigned"); same_base(b, m, "the original");
      CheckpointParams ck{s.draw(4), s.boolean() ? "p" : ""}; SpikeRecoveryParams sp = documented_spike(); sp.ema_window = 7; sp.enable_rollback = true; AlgorithmParams al = AdamParams(0.1, 0.2, 0.3, 0.4); OptimizerParams o(b, al, ck, sp); same_base(o.base_params, m, "full parameters"); eq(o.algorithm_params, S({0.1, 0.2, 0.3, 0.4}, "1:Adam")); PBT_ASSERT(o.checkpoint_params.every_n_steps == ck.every_n_steps && o.checkpoint_params.base_path == ck.base_path, "checkpoint"); same_spike(o.spike_recovery_params, sp); PBT_ASSERT(o.checkpoint_params.IsEnabled() == (ck.every_n_steps > 0 && !ck.base_path.empty()), "checkpoint enabled");
      OptimizerParams o2(b, al); PBT_ASSERT(!o2.checkpoint_params.IsEnabled(), "checkpoint default"); same_spike(o2.spike_recovery_params, documented_spike()); same_base(o2.base_params, m, "parameters"); break; }
    default: { std::string w; auto sr = gsr(s, w); OptimizerParams o(OptimizerParams::BaseParams(1, 0, 0, 1, 1), sr); k = 1; PBT_ASSERT(o.IsAlgorithm<StochasticReconfigurationParams>() && !o.IsAlgorithm<SGDParams>() && !o.IsAlgorithm<AdamParams>() && !o.IsAlgorithm<AdaGradParams>() && !o.IsAlgorithm<LBFGSParams>() && !o.IsAlgorithm<MinSRParams>(), "algorithm query"); eq(o.GetAlgorithmParams<StochasticReconfigurationParams>(), w); bool threw = false; try { (void) o.GetAlgorithmParams<SGDParams>(); } catch (const std::bad_variant_access &) { threw = true; } PBT_ASSERT(threw, "asking for another algorithm's parameters must not succeed"); }
  }
  s.note("record ", which, ", ", k, " arguments given"); s.nontrivial(k > 0);
}
