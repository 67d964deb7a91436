// C29 exact summation (energy, gradient, observables, enumeration), C30 sampling engine and Monte Carlo energy/gradient evaluation.
#include "mc.hpp"
#include <filesystem>
using namespace mc;
#ifndef ONLY
#define ONLY 0
#endif
namespace {
std::string why;
#define CHK(c, m) do { if (why.empty() && !(c)) why = (m); } while (0)
// every rank draws the same choices; a failure on any rank fails the case everywhere
void settle(const World &w) { int b = !why.empty(), any = 0; MPI_Allreduce(&b, &any, 1, MPI_INT, MPI_MAX, w.c); std::string m = why; why.clear(); PBT_ASSERT(!any, m.empty() ? std::string("another rank reported a violation") : m); }

#if ONLY == 0 || ONLY == 29
PBT_PROP(exact_sum_energy_gradient, 30, 3000, "at least two configurations with different local energies") {
  World w(s); size_t R, Cc; lattice(s, R, Cc); std::mt19937_64 g(s.draw(1u << 30)); int sc = (int) s.pick(std::vector<int>{0, 0, 0, -8, 8}); State S = random_state(s, g, R, Cc, sc); Mod m = make_mod(s, R, Cc);
  bool full = s.boolean(); std::vector<size_t> ks, ok = resolved(S, full ? 1e-4 : 1e-2);
  if (full && ok.size() == S.dim()) { ks = ok; } else { if (ok.empty()) return; size_t n = s.urange(1, std::min<size_t>(ok.size(), 14)); std::shuffle(ok.begin(), ok.end(), g); ks.assign(ok.begin(), ok.begin() + n); }
  s.note(std::to_string(ks.size()) + " configurations, scale 1e" + std::to_string(sc)); s.label(ks.size() < (size_t) w.np ? "fewer configurations than ranks" : "");
  double W = 0, worst = 0; cd SE = 0; Grad O(S), EO(S); double osum = 0; std::set<std::pair<double, double>> es;
  std::vector<cd> e; for (size_t k : ks) { cd x = eloc(S, k, m, worst); double p = std::norm(S.psi(k)); W += p; SE += p * x; auto d = deriv(S, k); V v = S.cfg(k); O.add(v, d, S.psi(k)); EO.add(v, d, S.psi(k) * std::conj(x)); double mx = 0; for (auto &a : d) for (auto &z : a) mx = std::max(mx, std::abs(z)); osum += std::abs(S.psi(k)) * mx * (1 + std::abs(x)); e.push_back(x); es.insert({x.real(), x.imag()}); }
  cd Em = SE / W; if (es.size() > 1) s.nontrivial(); double tol = 1e-8 * (1 + worst) * m.terms; Grad G = EO; for (size_t i = 0; i < G.g.size(); ++i) for (size_t c = 0; c < S.d; ++c) for (size_t u = 0; u < G.g[i][c].size(); ++u) G.g[i][c][u] = (EO.g[i][c][u] - std::conj(Em) * O.g[i][c][u]) / W;
  std::vector<Configuration> cf; for (size_t k : ks) cf.push_back(S.conf(k)); State junk = random_state(s, g, R, Cc, 0); bool empty_junk = s.boolean(); SI jk = empty_junk ? SI() : junk.x; int reps = (int) s.urange(1, 2);
  with_mod(m, [&](auto &sv) {
    using M = std::decay_t<decltype(sv)>;
    for (int i = 0; i < reps; ++i) {
      auto [en, gr, er] = [&] { Quiet q; return ExactSumEnergyEvaluatorMPI<M, E, Q, Con>(w.rk == 0 ? S.x : jk, cf, exact_trunc(), sv, R, Cc, w.c, w.rk, w.np); }();
      if (w.rk == 0) { CHK(std::abs(C(en) - Em) <= tol * (1 + std::abs(Em)), m.name() + ": exact summation gives energy " + show(C(en)) + ", the weighted mean is " + show(Em)); CHK(er == 0, "error of an exact summation"); auto dd = G.diff(S, gr, tol * (osum / W) * (1 + std::abs(Em))); CHK(dd.empty(), m.name() + ": exact-summation gradient, " + dd); }
    }
  });
  settle(w);
}
PBT_PROP(exact_sum_observables, 30, 3000, "at least two configurations with different local energies") {
  World w(s); size_t R, Cc; lattice(s, R, Cc); std::mt19937_64 g(s.draw(1u << 30)); int sc = (int) s.pick(std::vector<int>{0, 0, -8, 8}); State S = random_state(s, g, R, Cc, sc); Mod m = make_mod(s, R, Cc);
  std::vector<size_t> ok = resolved(S); if (ok.size() < 1) return; size_t n = s.urange(1, std::min<size_t>(ok.size(), 14)); std::shuffle(ok.begin(), ok.end(), g); ok.resize(n); s.note(std::to_string(n) + " configurations");
  std::map<std::string, CV> want; double W = 0, worst = 0; std::set<double> es; std::vector<Configuration> cf; std::map<std::string, double> big;
  for (size_t k : ok) { cd x = eloc(S, k, m, worst); es.insert(x.real()); double p = std::norm(S.psi(k)); W += p; cf.push_back(S.conf(k)); Comp c(S.x, cf.back(), exact_trunc()); with_mod(m, [&](auto &sv) { for (auto &[key, val] : sv.template EvaluateObservables<E, Q>(&S.x, &c)) { auto &o = want[key]; o.resize(val.size()); for (size_t i = 0; i < val.size(); ++i) { o[i] += p * C(val[i]); big[key] = std::max(big[key], std::abs(C(val[i]))); } } }); }
  if (es.size() > 1) s.nontrivial(); State junk = random_state(s, g, R, Cc, 0); 
  with_mod(m, [&](auto &sv) {
    using M = std::decay_t<decltype(sv)>; auto o = [&] { Quiet q; return ExactSumMeasurerMPI<M, E, Q, Con>(w.rk == 0 ? S.x : junk.x, cf, exact_trunc(), sv, R, Cc, w.c, w.rk, w.np); }();
    if (w.rk) return; CHK(o.size() == want.size(), "number of observables"); CHK(std::abs(C(o["energy"].empty() ? E(0) : o["energy"][0]) * W - want["energy"][0]) <= 1e-8 * W * (1 + worst) * (1 + big["energy"]), "exact energy");
    for (auto &[key, val] : want) { CHK(o.count(key) && o[key].size() == val.size(), "observable " + key + " missing or wrong length"); if (!why.empty()) return; for (size_t i = 0; i < val.size(); ++i) CHK(std::abs(C(o[key][i]) - val[i] / W) <= 1e-8 * (1 + worst) * (1 + big[key]), m.name() + ": exact mean of " + key + "[" + std::to_string(i) + "] is " + show(C(o[key][i])) + ", expected " + show(val[i] / W)); }
  });
  settle(w);
}
PBT_PROP(enumerate, 40, 2000, "at least three configurations") {
  World w(s); size_t R = s.urange(1, 4), Cc = s.urange(1, 4); while (R * Cc > 8) (R > Cc ? R : Cc)--; size_t d = s.urange(1, 4), N = R * Cc; std::vector<size_t> cnt(d, 0); for (size_t i = 0; i < N; ++i) cnt[s.draw(d)]++; s.note(std::to_string(R) + "x" + std::to_string(Cc) + " d=" + std::to_string(d));
  auto a = GenerateAllPermutationConfigs(cnt, Cc, R); double want = std::tgamma(N + 1.0); for (size_t c : cnt) want /= std::tgamma(c + 1.0); std::set<V> seen; if (a.size() > 2) s.nontrivial();
  for (auto &c : a) { CHK(c.rows() == R && c.cols() == Cc, "enumerated lattice is not Ly x Lx"); if (!why.empty()) break; V v, n(d, 0); for (size_t r = 0; r < R; ++r) for (size_t q = 0; q < Cc; ++q) { v.push_back(c({r, q})); CHK(v.back() < d, "unknown state"); if (!why.empty()) break; n[v.back()]++; } CHK(n == cnt, "enumerated configuration with the wrong occupation"); CHK(seen.insert(v).second, "configuration listed twice"); }
  CHK(a.size() == (size_t) std::llround(want), "enumerated " + std::to_string(a.size()) + " configurations of " + std::to_string(want)); auto b = GenerateAllBinaryConfigs(Cc, R); std::set<V> sb; for (auto &c : b) { CHK(c.rows() == R && c.cols() == Cc, "binary lattice"); V v; for (size_t r = 0; r < R; ++r) for (size_t q = 0; q < Cc; ++q) { v.push_back(c({r, q})); CHK(v.back() < 2, "binary value"); } CHK(sb.insert(v).second, "binary configuration listed twice"); } CHK(b.size() == size_t(1) << N, "number of binary configurations " + std::to_string(b.size()));
  V flat(N); for (auto &x : flat) x = s.draw(5); auto c = Vec2Config(flat, Cc, R); CHK(c.rows() == R && c.cols() == Cc, "Vec2Config size"); for (size_t i = 0; i < N; ++i) CHK(c({i / Cc, i % Cc}) == flat[i], "Vec2Config is not row-major");
  for (auto [x, y] : {std::pair<size_t, size_t>{64, 1}, {1, 64}, {size_t(1) << 40, size_t(1) << 40}, {8, 9}}) { bool th = false; try { (void) GenerateAllBinaryConfigs(x, y); } catch (const std::invalid_argument &) { th = true; } CHK(th, "oversized enumeration accepted"); }
  settle(w);
}
#endif

#if ONLY == 0 || ONLY == 30
using Eng = MonteCarloEngine<E, Q, Upd, Con>;
struct Plan { std::vector<std::vector<size_t>> seq; std::vector<size_t> init; };
// per-rank scripts and initial configurations among the given ones
Plan plan(Src &s, int np, const std::vector<size_t> &ok) { Plan p; for (int r = 0; r < np; ++r) { std::vector<size_t> q; size_t n = s.urange(1, 5); for (size_t i = 0; i < n; ++i) q.push_back(ok[s.draw(ok.size())]); p.seq.push_back(q); p.init.push_back(ok[s.draw(ok.size())]); } return p; }
std::shared_ptr<Script> script(const State &S, const Plan &p, int rk) { auto sc = std::make_shared<Script>(); sc->rank = rk; for (size_t k : p.seq[rk]) sc->seq.push_back(S.conf(k)); return sc; }

PBT_PROP(engine_history, 40, 3000, "at least one sweep moved the chain and the state was renormalised") {
  World w(s); size_t R, Cc; lattice(s, R, Cc); std::mt19937_64 g(s.draw(1u << 30)); int sc_ = (int) s.pick(std::vector<int>{0, 0, -9, 9}); State S = random_state(s, g, R, Cc, sc_); size_t N = R * Cc;
  bool rescue = s.boolean(); size_t zs = s.draw(N), zc = s.draw(2); int kind = rescue ? (int) s.draw(2) : -1; if (kind == 0) zero_comp(S, zs, zc);
  std::vector<size_t> ok = resolved(S), bad; if (ok.size() < 2) return; Plan p = plan(s, w.np, ok); ConfigurationRescueParams rp; std::vector<bool> valid(w.np, true);
  if (kind == 0) { for (size_t k = 0; k < S.dim(); ++k) if (allowed(S, k) && S.cfg(k)[zs] == zc) bad.push_back(k); size_t keep = s.draw(w.np); for (int r = 0; r < w.np; ++r) if (r != (int) keep && s.boolean()) { p.init[r] = bad[s.draw(bad.size())]; valid[r] = false; } }
  if (kind == 1) { std::vector<double> am; for (size_t k : p.init) am.push_back(std::abs(S.psi(k))); std::sort(am.begin(), am.end()); size_t cut = s.draw(w.np); double lo = cut ? am[cut - 1] : 0, hi = am[cut]; if (cut && hi < lo * 1.01) return; bool upper = s.boolean(); if (cut) { double t = std::sqrt(lo * hi); if (upper) rp.amplitude_max_threshold = t; else rp.amplitude_min_threshold = t; for (int r = 0; r < w.np; ++r) valid[r] = upper ? std::abs(S.psi(p.init[r])) < t : std::abs(S.psi(p.init[r])) > t; } }
  bool any = false; for (int r = 0; r < w.np; ++r) any = any || !valid[r]; s.label(any ? (kind ? "threshold rescue" : "zero-amplitude rescue") : "all valid");
  size_t total = s.urange(1, 13), wu = s.urange(0, 3), sb = s.urange(1, 3); std::vector<bool> warmed(w.np); for (int r = 0; r < w.np; ++r) warmed[r] = s.boolean(); std::vector<bool> given = warmed;
  size_t src = 0; while (!valid[src]) ++src; std::vector<size_t> cur = p.init; for (int r = 0; r < w.np; ++r) if (!valid[r]) { cur[r] = p.init[src]; warmed[r] = false; }
  auto sc = script(S, p, w.rk); MonteCarloParams mp(total, wu, sb, S.conf(p.init[w.rk]), given[w.rk]); std::unique_ptr<Eng> en; { Quiet q; en = std::make_unique<Eng>(S.x, mp, PEPSParams(exact_trunc()), w.c, Upd{sc}, rp); }
  std::vector<size_t> calls(w.np, 0); auto normalise = [&] { double m = 0; for (size_t k : cur) m = std::max(m, std::abs(S.psi(k))); scale(S, std::pow(1 / m, 1.0 / N)); };
  auto judge = [&](const std::string &at) {
    CHK(sc->calls == calls[w.rk], at + ": " + std::to_string(sc->calls) + " sweeps run, expected " + std::to_string(calls[w.rk])); if (!why.empty()) return;
    CHK(S.idx(en->WavefuncComp().config) == cur[w.rk], at + ": the walker is at configuration " + std::to_string(S.idx(en->WavefuncComp().config)) + ", expected " + std::to_string(cur[w.rk])); auto d = state_diff(S, en->State(), 1e-10); CHK(d.empty(), at + ": state, " + d); if (!why.empty()) return;
    auto td = tn_diff(S, en->WavefuncComp()); (void) td; CHK(std::abs(rel(C(en->WavefuncComp().amplitude)) - rel(S.psi(cur[w.rk]))) <= 1e-8 * S.mag(cur[w.rk]), at + ": amplitude " + show(C(en->WavefuncComp().amplitude)) + " expected " + show(S.psi(cur[w.rk])));
  };
  normalise(); CHK(en->SamplesPerRank() * w.np >= total && (en->SamplesPerRank() - 1) * w.np < total, "samples per rank " + std::to_string(en->SamplesPerRank()) + " for " + std::to_string(total) + " on " + std::to_string(w.np)); CHK(en->TotalSamples() == total && en->Rank() == w.rk && en->MpiSize() == w.np && en->Lx() == Cc && en->Ly() == R, "engine accessors"); judge("after construction");
  int ops = (int) s.urange(1, 6); bool moved = false;
  for (int i = 0; i < ops; ++i) {
    int op = (int) s.freq({3, 2, 2, 1, 1, 1}); std::string at = "operation " + std::to_string(i) + " (" + std::to_string(op) + ")"; s.note("op" + std::to_string(op)); size_t n = s.urange(0, 3);
    auto step = [&](size_t cnt, int r) { calls[r] += cnt; if (cnt) { cur[r] = p.seq[r][(calls[r] - 1) % p.seq[r].size()]; moved = true; } };
    if (op == 0) { if (kind == 1) continue; { Quiet q; CHK(en->WarmUp() == 0, "warm-up status"); } for (int r = 0; r < w.np; ++r) { if (!warmed[r]) step(wu, r); warmed[r] = true; } normalise(); }
    if (op == 1) { auto a = en->StepSweep(n); for (int r = 0; r < w.np; ++r) step(n, r); if (n) CHK(a.size() == 2 && a[0] == Script::rate(w.rk, sc->calls - 1, 0) && a[1] == Script::rate(w.rk, sc->calls - 1, 1), at + ": acceptance rates"); else CHK(a.empty(), "rates of no sweep"); }
    if (op == 2) { auto a = en->StepSweep(); for (int r = 0; r < w.np; ++r) step(sb, r); CHK(a.size() == 2 && a[0] == Script::rate(w.rk, sc->calls - 1, 0), at + ": acceptance rates"); }
    if (op == 3) { Quiet q; en->NormalizeStateOrder1(); normalise(); }
    if (op == 4) { double f = s.pick(std::vector<double>{2.0, 0.3, 1e5}); scale(S, f); en->AssignState(S.x); en->RefreshWavefunctionComponent(); }
    if (op == 5) { Quiet q; if (kind == 1) continue; en->EnsureConfigurationValidity(); }
    judge(at); { int b = !why.empty(), a = 0; MPI_Allreduce(&b, &a, 1, MPI_INT, MPI_MAX, w.c); if (a) break; }
  }
  if (moved) s.nontrivial(); settle(w);
}

template<class T_> T_ bcast0(T_ x, const World &w) { MPI_Bcast(&x, sizeof(x), MPI_BYTE, 0, w.c); return x; }
PBT_PROP(mc_evaluate, 36, 3000, "at least two distinct local energies sampled") {
  World w(s); size_t R, Cc; lattice(s, R, Cc); std::mt19937_64 g(s.draw(1u << 30)); State S0 = random_state(s, g, R, Cc, 0); Mod m = make_mod(s, R, Cc); bool sr = s.boolean(); int evals = (int) s.urange(1, 3);
  std::vector<State> st; for (int i = 0; i < evals; ++i) if (i && s.chance(1, 3)) { st.push_back(st.back()); size_t q = s.draw(R * Cc), c = s.draw(st.back().d); auto &x = st.back().x({q / Cc, q % Cc})[c]; if (!x.IsDefault()) x = E(-1) * x; refresh(st.back()); } // same norms, other state
    else st.push_back(random_state(s, g, R, Cc, (int) s.pick(std::vector<int>{0, 0, -7, 7})));
  // configurations resolved in every state used
  std::vector<size_t> ok = resolved(S0); for (auto &x : st) { auto o = resolved(x); std::vector<size_t> n; std::set_intersection(ok.begin(), ok.end(), o.begin(), o.end(), std::back_inserter(n)); ok = n; } if (ok.empty()) return;
  Plan p = plan(s, w.np, ok); size_t total = s.urange(1, (s.chance(1, 4) ? 14 : 5) * w.np), wu = s.urange(0, 2), sb = s.urange(1, 2); auto sc = script(S0, p, w.rk); bool warmed = s.boolean(); s.note(std::to_string(total) + " samples on " + std::to_string(w.np) + " ranks, " + std::to_string(evals) + " evaluations" + (sr ? " with O*" : ""));
  std::unique_ptr<Eng> en; { Quiet q; en = std::make_unique<Eng>(S0.x, MonteCarloParams(total, wu, sb, S0.conf(p.init[w.rk]), warmed), PEPSParams(exact_trunc()), w.c, Upd{sc}); }
  size_t n = (total + w.np - 1) / w.np, base = 0; State junk = random_state(s, g, R, Cc, 0); bool warm = s.boolean(); if (warm) { Quiet q; en->WarmUp(); base = warmed ? 0 : wu; }
  PsiConsistencyWarningParams pw; draw_warn(s, pw); size_t warned = 0, asked = 0; std::set<double> es;
  with_mod(m, [&](auto &sv) {
    MCEnergyGradEvaluator<E, Q, Upd, std::decay_t<decltype(sv)>, Con> ev(*en, sv, w.c, sr, pw); if (s.boolean()) ev.ReserveBuffers(R, Cc, s.urange(0, 20));
    for (int i = 0; i < evals; ++i) {
      State &S = st[i]; bool eonly = s.chance(1, 3), own = s.chance(1, 4); if (own && w.rk == 0) en->AssignState(S.x); std::string at = m.name() + " evaluation " + std::to_string(i) + (eonly ? " (energy only)" : "") + ": ";
      // exact values of all samples of all ranks
      double worst = 0, osc = 0; std::vector<std::vector<cd>> el(w.np); cd sum = 0; Grad O(S), EO(S); std::vector<Grad> mine; std::vector<cd> bins; size_t b = 1; while ((b + 1) * (b + 1) <= n) ++b; double big = 0;
      std::map<size_t, std::pair<cd, std::vector<CV>>> memo;
      for (int r = 0; r < w.np; ++r) for (size_t j = 0; j < n; ++j) {
        size_t call = base + (j + 1) * sb - 1, k = p.seq[r][call % p.seq[r].size()]; auto it = memo.find(k); if (it == memo.end()) it = memo.emplace(k, std::make_pair(eloc(S, k, m, worst), deriv(S, k))).first; cd e = it->second.first; el[r].push_back(e); sum += e; big = std::max(big, std::abs(e)); es.insert(e.real()); V v = S.cfg(k); cd f = std::conj(1.0 / S.psi(k));
        O.add(v, it->second.second, f); EO.add(v, it->second.second, f * std::conj(e)); for (auto &a : it->second.second) for (auto &z : a) osc = std::max(osc, std::abs(z * f)); if (r == w.rk) { mine.push_back(Grad(S)); mine.back().add(v, it->second.second, f); } }
      for (int r = 0; r < w.np; ++r) for (size_t j = 0; j + b <= n; j += b) { cd q = 0; for (size_t u = 0; u < b; ++u) q += el[r][j + u]; bins.push_back(q / (double) b); }
      cd bm = 0; for (auto &x : bins) bm += x; bm /= (double) bins.size(); double tol = 1e-8 * (1 + worst) * m.terms, et = tol * (1 + big); double err = 0; cd mean = 0; for (auto &x : bins) err += std::norm(x - bm); err = std::sqrt(err / bins.size() / (bins.size() - 1.0)); double NT = double(n * w.np); (void) mean;
      const SI &arg = w.rk == 0 ? (own ? en->State() : S.x) : junk.x; E energy; double error; std::vector<double> acc;
      if (eonly) { Quiet q; auto r = ev.EvaluateEnergyOnly(arg); energy = r.energy; error = r.energy_error; acc = r.accept_rates_avg; }
      else {
        auto r = [&] { Capture q; auto x = ev.Evaluate(arg); q.stop(); warned += q.warnings(); asked += n; return x; }(); energy = r.energy; error = r.energy_error; acc = r.accept_rates_avg; CHK(r.energy_samples.size() == n, at + std::to_string(r.energy_samples.size()) + " energy samples on this rank, expected " + std::to_string(n)); for (size_t j = 0; j < n && why.empty(); ++j) CHK(std::abs(C(r.energy_samples[j]) - el[w.rk][j]) <= et, at + "energy sample " + std::to_string(j) + " is " + show(C(r.energy_samples[j])) + " but the local energy is " + show(el[w.rk][j]));
        // the gradient uses the energy the evaluation itself reports (trailing samples outside the last bin)
        Grad G = EO, M = O; for (size_t q = 0; q < G.g.size(); ++q) for (size_t c = 0; c < S.d; ++c) for (size_t u = 0; u < G.g[q][c].size(); ++u) { G.g[q][c][u] = (EO.g[q][c][u] - std::conj(C(energy)) * O.g[q][c][u]) / NT; M.g[q][c][u] = O.g[q][c][u] / NT; }
        double gt = tol * osc * (1 + big); if (w.rk == 0) { auto d = G.diff(S, r.gradient, gt); CHK(d.empty(), at + "gradient, " + d); CHK(std::abs(r.gradient_norm - G.norm()) <= gt * 30 + 1e-7 * G.norm(), at + "gradient norm " + pbt::show(r.gradient_norm) + " of a gradient with norm " + pbt::show(G.norm())); }
        CHK(r.Ostar_mean.has_value() == sr, at + "O* mean present without request"); CHK(r.Ostar_samples.size() == (sr ? n : 0), at + std::to_string(r.Ostar_samples.size()) + " O* samples");
        if (sr && why.empty()) { if (w.rk == 0) { auto d = M.diff(S, *r.Ostar_mean, tol * osc); CHK(d.empty(), at + "mean O*, " + d); } for (size_t j = 0; j < n; ++j) { auto d = mine[j].diff(S, r.Ostar_samples[j], tol * osc); CHK(d.empty(), at + "O* sample " + std::to_string(j) + ", " + d); } }
      }
      CHK(std::abs(C(energy) - bm) <= et, at + "energy " + show(C(energy)) + ", the (binned) sample mean is " + show(bm)); E e0 = bcast0(energy, w); CHK(C(e0) == C(energy), at + "ranks disagree about the energy");
      if (w.rk) CHK(error == 0, at + "error on a non-master rank"); else if (bins.size() == 1) CHK(std::isinf(error), at + "error of a single bin " + pbt::show(error)); else CHK(std::abs(error - err) <= et + 1e-6 * err, at + "energy error " + pbt::show(error) + ", the binned standard error is " + pbt::show(err));
      base += n * sb; CHK(sc->calls == base, at + std::to_string(sc->calls) + " sweeps, expected " + std::to_string(base)); std::vector<double> wa(2, 0.0); for (size_t j = 0; j < n; ++j) for (int q = 0; q < 2; ++q) wa[q] += Script::rate(w.rk, base - n * sb + (j + 1) * sb - 1, q) / n; CHK(acc.size() == 2 && std::abs(acc[0] - wa[0]) < 1e-9 && std::abs(acc[1] - wa[1]) < 1e-9, at + "mean acceptance rates");
      auto d = state_diff(S, en->State(), 0.0); CHK(d.empty(), at + "the engine's state after the evaluation, " + d); { int bb = !why.empty(), a = 0; MPI_Allreduce(&bb, &a, 1, MPI_INT, MPI_MAX, w.c); if (a) break; }
    }
  });
  long ww = want_warn(pw, w.rk, asked); CHK(ww < 0 ? warned <= std::min(asked, pw.max_warnings) : warned == (size_t) ww, std::to_string(warned) + " amplitude warnings from this rank, expected " + std::to_string(ww) + " of at most " + std::to_string(pw.max_warnings) + " for " + std::to_string(asked) + " samples");
  if (es.size() > 1) s.nontrivial(); settle(w);
}

#ifndef FERMI
PBT_PROP(engine_contracts, 30, 800, "mismatch presented") {
  World w(s); std::mt19937_64 g(s.draw(1u << 30)); bool pbc = s.boolean(), trg = s.boolean(); size_t R = s.urange(1, 6), Cc = s.boolean() ? R : s.urange(1, 6); SI x(R, Cc, 2, pbc ? BoundaryCondition::Periodic : BoundaryCondition::Open);
#ifdef PBC
  constexpr bool con = true;
#else
  constexpr bool con = false;
#endif
  if (pbc == con && trg == con && !con) return; size_t q = R; while (q % 2 == 0) q /= 2; if (con && pbc && trg && R == Cc && (q == 1 || q == 3)) return; s.note(std::to_string(R) + "x" + std::to_string(Cc) + (pbc ? " periodic" : " open") + (trg ? " TRG parameters" : " BMPS parameters")); s.nontrivial();
  for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < Cc; ++c) for (int i = 0; i < 2; ++i) { T t({QG::one(IN), QG::one(OUT), QG::one(OUT), QG::one(IN)}); tn::fill<E, Q>(t, Q(), g, 0); x({r, c})[i] = t; }
  auto sc = std::make_shared<Script>(); Configuration cf(R, Cc); for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < Cc; ++c) cf({r, c}) = 0; bool th = false; PEPSParams pp = trg ? PEPSParams(TRGTruncateParams<double>::SVD(1, 8, 0.0)) : PEPSParams(BMPSTruncateParams<double>::SVD(1, 8, 0.0));
  try { Quiet qq; Eng en(x, MonteCarloParams(4, 0, 1, cf, true), pp, w.c, Upd{sc}); } catch (const std::invalid_argument &) { th = true; } CHK(th, "a mismatch of boundary condition, lattice, contractor and truncation parameters was accepted"); settle(w);
}
#endif
PBT_PROP(engine_directories, 12, 300, "nested directory") {
  World w(s); std::mt19937_64 g(1); size_t R = 2, Cc = 2; State S = random_state(s, g, R, Cc, 0); auto ok = resolved(S); auto sc = std::make_shared<Script>(); std::string base = pbt::ScratchDir() + "/eng" + std::to_string(s.draw(1000)); MPI_Barrier(w.c); if (w.rk == 0) std::filesystem::remove_all(base); MPI_Barrier(w.c);
  std::unique_ptr<Eng> en; { Quiet q; en = std::make_unique<Eng>(S.x, MonteCarloParams(4, 0, 1, S.conf(ok[0]), true), PEPSParams(exact_trunc()), w.c, Upd{sc}); } int depth = (int) s.urange(0, 3); std::string dir = base; for (int i = 0; i < depth; ++i) dir += "/d" + std::to_string(i); if (depth) s.nontrivial(); s.note(std::to_string(depth));
  for (int i = 0; i < 2; ++i) { { Quiet q; en->EnsureDirectoryExists(dir + "/file"); } CHK(std::filesystem::is_directory(dir), "parent directory missing"); CHK(!std::filesystem::exists(dir + "/file"), "the file itself was created"); } { Quiet q; en->EnsureDirectoryExists(""); en->EnsureDirectoryExists("plain"); } CHK(!std::filesystem::exists("plain"), "created an entry for a bare file name"); MPI_Barrier(w.c); if (w.rk == 0) std::filesystem::remove_all(base); MPI_Barrier(w.c); settle(w);
}
#endif
}  // namespace
