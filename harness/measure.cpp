// C31: Monte Carlo measurement runs: statistics, files, emergency stop, replica test, helper functions.
#include "mc.hpp"
#include "qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer.h"
#include <filesystem>
#include <fstream>
#include <unistd.h>
using namespace mc; namespace fs = std::filesystem;
namespace {
std::string why;
#define CHK(c, m) do { if (why.empty() && !(c)) why = (m); } while (0)
void settle(const World &w) { int b = !why.empty(), any = 0; MPI_Allreduce(&b, &any, 1, MPI_INT, MPI_MAX, w.c); std::string m = why; why.clear(); PBT_ASSERT(!any, m.empty() ? std::string("another rank reported a violation") : m); }
struct Dir { std::string p; const World &w; std::string old; Dir(const World &w_, Src &s) : w(w_) { char b[4096]; old = getcwd(b, sizeof b); p = pbt::ScratchDir() + "/meas"; MPI_Barrier(w.c); if (w.rk == 0) { fs::remove_all(p); fs::create_directories(p); } MPI_Barrier(w.c); if (chdir(p.c_str())) {} (void) s; } ~Dir() { if (chdir(old.c_str())) {} MPI_Barrier(w.c); if (w.rk == 0) fs::remove_all(p); MPI_Barrier(w.c); MPISignalGuard::Reset(); std::signal(SIGINT, SIG_DFL); std::signal(SIGTERM, SIG_DFL); } };
std::vector<std::string> lines(const std::string &f) { std::ifstream i(f); std::vector<std::string> v; std::string l; while (std::getline(i, l)) v.push_back(l); return v; }
std::vector<std::string> fields(const std::string &l) { std::vector<std::string> v; std::string x; int dep = 0; for (char c : l) { if (c == '(') ++dep; if (c == ')') --dep; if (c == ',' && !dep) { v.push_back(x); x.clear(); } else x += c; } v.push_back(x); return v; }
cd num(const std::string &x) { if (!x.empty() && x[0] == '(') { size_t k = x.find(','); return cd(std::strtod(x.c_str() + 1, nullptr), std::strtod(x.c_str() + k + 1, nullptr)); } return cd(std::strtod(x.c_str(), nullptr)); }
struct Plan { std::vector<std::vector<size_t>> seq; std::vector<size_t> init; };
Plan plan(Src &s, int np, const std::vector<size_t> &ok) { Plan p; for (int r = 0; r < np; ++r) { std::vector<size_t> q; size_t n = s.urange(1, 5); for (size_t i = 0; i < n; ++i) q.push_back(ok[s.draw(ok.size())]); p.seq.push_back(q); p.init.push_back(ok[s.draw(ok.size())]); } return p; }
std::shared_ptr<Script> script(const State &S, const Plan &p, int rk) { auto sc = std::make_shared<Script>(); sc->rank = rk; for (size_t k : p.seq[rk]) sc->seq.push_back(S.conf(k)); return sc; }

PBT_PROP(warning_budget, 16, 1200, "a warning was due") {
  World w(s); Dir dir(w, s); size_t R, Cc; lattice(s, R, Cc); std::mt19937_64 g(s.draw(1u << 30)); State S = random_state(s, g, R, Cc, 0); Mod m = make_mod(s, R, Cc); std::vector<size_t> ok = resolved(S); if (ok.empty()) return; Plan p = plan(s, w.np, ok); size_t runs = s.urange(2, 3);
  for (size_t i = 0; i < runs; ++i) {
    size_t total = s.urange(1, 6 * w.np), n = (total + w.np - 1) / w.np, warned = 0; auto sc = script(S, p, w.rk); MCMeasurementParams mp(MonteCarloParams(total, 0, 1, S.conf(p.init[w.rk]), true, ""), PEPSParams(exact_trunc()), ""); auto &pw = mp.runtime_params.psi_consistency; draw_warn(s, pw); if (!i) { pw = {}; pw.threshold = -1; } // an earlier run that warns must not use up the budget of a later one
    with_mod(m, [&](auto &sv) { using M = std::decay_t<decltype(sv)>; MCPEPSMeasurer<E, Q, Upd, M, Con> me(S.x, mp, w.c, sv, Upd{sc}); Capture q; me.Execute(); q.stop(); warned = q.warnings(); });
    long ww = want_warn(pw, w.rk, n); if (ww > 0) s.nontrivial(); s.note("run " + std::to_string(i) + ": " + std::to_string(n) + " samples per rank, at most " + std::to_string(pw.max_warnings) + (pw.enabled ? "" : " (off)") + (pw.master_only ? " on the master" : "") + " above " + pbt::show(pw.threshold)); CHK(ww < 0 ? warned <= std::min(n, pw.max_warnings) : warned == (size_t) ww, m.name() + " run " + std::to_string(i) + ": " + std::to_string(warned) + " amplitude warnings from this rank, expected " + std::to_string(ww) + " of at most " + std::to_string(pw.max_warnings) + " for " + std::to_string(n) + " samples");
  }
  settle(w);
}
PBT_PROP(measurement_run, 30, 3000, "at least two distinct configurations measured") {
  World w(s); Dir dir(w, s); size_t R, Cc; lattice(s, R, Cc); std::mt19937_64 g(s.draw(1u << 30)); State S = random_state(s, g, R, Cc, (int) s.pick(std::vector<int>{0, 0, -6, 6})); Mod m = make_mod(s, R, Cc); std::vector<size_t> ok = resolved(S); if (ok.empty()) return; Plan p = plan(s, w.np, ok);
  size_t total = s.urange(1, 8 * w.np), wu = s.urange(0, 2), sb = s.urange(1, 2), n = (total + w.np - 1) / w.np; bool warmed = s.boolean(); size_t skip = warmed ? 0 : wu; auto sc = script(S, p, w.rk); std::string cdump = s.boolean() ? "conf/deep/c" : "", mdump = s.pick(std::vector<std::string>{"out", "a/b", ""});
  MCMeasurementParams mp(MonteCarloParams(total, wu, sb, S.conf(p.init[w.rk]), warmed, cdump), PEPSParams(exact_trunc()), mdump); if (s.boolean()) { mp.particle_number_distribution.enabled = true; for (size_t i = 0; i < S.d + s.draw(2); ++i) mp.particle_number_distribution.particles_per_state.push_back(s.draw(3)); } auto &pps = mp.particle_number_distribution; bool pn = pps.enabled; auto &pw = mp.runtime_params.psi_consistency; draw_warn(s, pw); size_t warned = 0;
  size_t got = n; int srank = -1; if (s.chance(1, 3)) { srank = (int) s.draw(w.np); size_t call = s.draw(skip + n * sb); got = call < skip ? 0 : (call - skip) / sb + 1; sc->sig = s.boolean() ? SIGINT : SIGTERM; if (w.rk == srank) sc->raise_at = (long) call; s.label("signal"); }
  s.note(std::to_string(total) + " samples on " + std::to_string(w.np) + (srank >= 0 ? " stopped after " + std::to_string(got) + " per rank" : "") + (pn ? " with particle numbers" : "")); bool load = s.chance(1, 3); std::string tp = dir.p + "/tps"; if (load) { State X = S; if (w.rk == 0) { Quiet q; SI y = X.x; y.Dump(tp); } MPI_Barrier(w.c); }
  // oracle: fresh solver and sample for every visited configuration
  std::vector<std::map<std::string, CV>> rm(w.np); double worst = 1; std::map<std::string, double> big; std::set<size_t> seen; std::vector<size_t> mine;
  for (int r = 0; r < w.np; ++r) for (size_t j = 0; j < got; ++j) { size_t k = p.seq[r][(skip + (j + 1) * sb - 1) % p.seq[r].size()]; seen.insert(k); if (r == w.rk) mine.push_back(k); (void) eloc(S, k, m, worst); Comp c(S.x, S.conf(k), exact_trunc()); auto addv = [&](const std::string &key, const CV &v) { auto &o = rm[r][key]; o.resize(v.size()); for (size_t i = 0; i < v.size(); ++i) { o[i] += v[i] / (double) got; big[key] = std::max(big[key], std::abs(v[i])); } };
    with_mod(m, [&](auto &sv) { for (auto &[key, val] : sv.template EvaluateObservables<E, Q>(&S.x, &c)) { CV v; for (auto &z : val) v.push_back(C(z)); addv(key, v); } });
    if (pn) { size_t mxp = *std::max_element(pps.particles_per_state.begin(), pps.particles_per_state.end()), tot = 0; for (size_t x : S.cfg(k)) tot += pps.particles_per_state[x]; CV v(S.N() * mxp + 1, 0.0); v[tot] = 1; addv("particle_number_distribution", v); } }
  if (seen.size() > 1) s.nontrivial();
  with_mod(m, [&](auto &sv) {
    using M = std::decay_t<decltype(sv)>; using Me = MCPEPSMeasurer<E, Q, Upd, M, Con>; std::unique_ptr<Me> me; { Quiet q; if (load) me = Me::CreateByLoadingTPS(tp, mp, w.c, sv, Upd{sc}); else me = std::make_unique<Me>(S.x, mp, w.c, sv, Upd{sc}); } 
    { Capture q; CHK(!me->GetEnergyEstimate().has_value(), "an energy estimate before any measurement"); me->Execute(); q.stop(); warned = q.warnings(); }
    CHK(warned <= (want_warn(pw, w.rk, got) ? std::min(got, pw.max_warnings) : 0), m.name() + ": " + std::to_string(warned) + " amplitude warnings from this rank for " + std::to_string(got) + " samples");
    CHK(sc->calls == skip + got * sb, m.name() + ": " + std::to_string(sc->calls) + " sweeps run, expected " + std::to_string(skip + got * sb)); size_t last = sc->calls ? p.seq[w.rk][(sc->calls - 1) % p.seq[w.rk].size()] : p.init[w.rk]; CHK(S.idx(me->GetCurrentConfiguration()) == last, "final configuration"); std::string base = (mdump.empty() ? "." : mdump) + std::string("/");
    if (!cdump.empty()) { Configuration c(R, Cc); bool l = false; { Quiet q; l = c.Load(cdump, w.rk); } CHK(l && S.idx(c) == last, "the dumped configuration of this rank is not the final one"); }
    // psi samples and particle numbers
    if (pn) { auto L = lines(base + "samples/particle_number_rank" + std::to_string(w.rk) + ".csv"); CHK(L.size() == got + 1 && L[0] == "sample_id,particle_number", "particle-number samples file has " + std::to_string(L.size()) + " lines"); for (size_t j = 0; j < got && why.empty(); ++j) { size_t t = 0; for (size_t x : S.cfg(mine[j])) t += pps.particles_per_state[x]; CHK(L[j + 1] == std::to_string(j) + "," + std::to_string(t), "particle number of sample " + std::to_string(j) + ": " + L[j + 1] + " expected " + std::to_string(t)); } }
    auto ee = [&] { Quiet q; return me->GetEnergyEstimate(); }();
    if (w.rk != 0) return;
    std::map<std::string, std::string> md; for (auto &l : lines(base + "metadata.txt")) { size_t k = l.find(' '); md[l.substr(0, k)] = k == std::string::npos ? "" : l.substr(k + 1); }
    auto mdc = [&](const char *k, const std::string &v) { CHK(md.count(k) && md[k] == v, std::string("metadata ") + k + " is '" + md[k] + "', expected " + v); };
    mdc("total_samples_requested", std::to_string(total)); mdc("samples_per_rank", std::to_string(n)); mdc("samples_scheduled_total", std::to_string(n * w.np)); mdc("samples_collected_master", std::to_string(got)); mdc("samples_collected_total", std::to_string(got * w.np)); mdc("mpi_size", std::to_string(w.np)); mdc("warmup_sweeps", std::to_string(wu)); mdc("sweeps_between_samples", std::to_string(sb)); mdc("initial_config_warmed_up", warmed ? "true" : "false"); mdc("lx", std::to_string(Cc)); mdc("ly", std::to_string(R)); mdc("particle_number_distribution_enabled", pn ? "true" : "false"); mdc("boundary_condition", S.pbc ? "Periodic" : "Open"); if (pn) { std::string l; for (size_t x : mp.particle_number_distribution.particles_per_state) l += (l.empty() ? "" : ",") + std::to_string(x); mdc("particle_number_particles_per_state", l); } mdc("peps_bond_dimension", std::to_string(S.x.GetMaxBondDimension())); mdc("registered_observables", std::to_string(sv.DescribeObservables(R, Cc).size() + (pn ? 1 : 0)));
    auto PS = lines(base + "samples/psi.csv"); CHK(PS.size() == got + 1, "psi.csv has " + std::to_string(PS.size()) + " lines for " + std::to_string(got) + " samples"); double nf = 0; for (size_t j = 0; j < got && why.empty(); ++j) { auto f = fields(PS[j + 1]); CHK(f.size() == 4 && f[0] == std::to_string(j), "psi.csv row"); if (!why.empty()) break; cd z(std::strtod(f[1].c_str(), nullptr), std::strtod(f[2].c_str(), nullptr)), e = rel(S.psi(mine[j])); z = rel(z); if (j == 0) nf = std::abs(z) / std::abs(e); else CHK(std::abs(z - nf * e) <= 1e-4 * nf * std::abs(e) + 1e-7 * nf * S.mag(mine[j]), "psi.csv sample " + std::to_string(j) + " is " + show(z) + ", the amplitude is " + show(nf * e)); if (j == 0) CHK(std::abs(z - nf * e) <= 1e-4 * std::abs(z), "psi.csv phase of sample 0"); }
    // statistics
    auto &reg = me->ObservableRegistry(); if (!got) { CHK(reg.empty(), "statistics without samples"); CHK(!ee.has_value(), "energy without samples"); return; }
    CHK(reg.size() == rm[0].size(), std::to_string(reg.size()) + " observables in the statistics, " + std::to_string(rm[0].size()) + " measured"); auto meta = sv.DescribeObservables(R, Cc); std::set<std::string> files; for (auto &f : fs::directory_iterator(base + "stats")) files.insert(f.path().filename());
    for (auto &[key, v0] : rm[0]) {
      auto it = reg.find(key); CHK(it != reg.end() && it->second.first.size() == v0.size(), m.name() + ": statistics of " + key + " missing or wrong length"); if (!why.empty()) return; auto &[mean, err] = it->second; CHK(err.size() == (w.np > 1 ? v0.size() : 0) || w.np == 1, "number of error bars of " + key); double t = 1e-8 * (1 + worst) * (1 + big[key]) * m.terms;
      std::vector<double> errs(v0.size(), 0.0); for (size_t i = 0; i < v0.size(); ++i) { cd mm = 0; for (int r = 0; r < w.np; ++r) mm += rm[r][key][i] / (double) w.np; double e = 0; for (int r = 0; r < w.np; ++r) e += std::norm(rm[r][key][i] - mm); e = w.np > 1 ? std::sqrt(e / w.np / (w.np - 1)) : 0; CHK(std::abs(C(mean[i]) - mm) <= t, m.name() + ": mean of " + key + "[" + std::to_string(i) + "] is " + show(C(mean[i])) + ", the samples average to " + show(mm)); if (w.np > 1) { CHK(std::abs(err[i] - e) <= t + 1e-6 * e, m.name() + ": error of " + key + "[" + std::to_string(i) + "] is " + pbt::show(err[i]) + ", expected " + pbt::show(e)); errs[i] = err[i]; } else if (i < err.size()) errs[i] = err[i]; }
      std::vector<size_t> shape; bool tri = false; std::function<std::string(size_t, size_t)> cg; for (auto &x : meta) if (x.key == key) { shape = x.shape; tri = !x.index_labels.empty() && x.index_labels[0] == "pair_packed_upper_tri"; if (x.coord_generator) cg = x.coord_generator; }
      if (shape.size() == 2) {
        CHK(files.count(key + "_mean.csv") && files.count(key + "_stderr.csv"), "no matrix files for " + key); auto A = lines(base + "stats/" + key + "_mean.csv"), B = lines(base + "stats/" + key + "_stderr.csv"); CHK(A.size() == shape[0] && B.size() == shape[0], "rows in " + key + "_mean.csv");
        for (size_t r = 0; r < shape[0] && why.empty(); ++r) { auto a = fields(A[r]), b = fields(B[r]); CHK(a.size() == shape[1] && b.size() == shape[1], "columns in " + key + "_mean.csv"); for (size_t c = 0; c < shape[1] && why.empty(); ++c) { CHK(num(a[c]) == C(mean[r * shape[1] + c]), key + "_mean.csv (" + std::to_string(r) + "," + std::to_string(c) + ") reads back as " + show(num(a[c])) + " instead of " + show(C(mean[r * shape[1] + c]))); CHK(num(b[c]) == cd(errs[r * shape[1] + c]), key + "_stderr.csv value"); } }
      } else {
        auto A = lines(base + "stats/" + key + ".csv"); CHK(A.size() == v0.size() + 1 && A[0] == "index,mean,stderr", key + ".csv has " + std::to_string(A.size()) + " lines"); for (size_t i = 0; i < v0.size() && why.empty(); ++i) { auto a = fields(A[i + 1]); CHK(a.size() == 3 && a[0] == std::to_string(i), key + ".csv row"); if (why.empty()) { cd z = C(mean[i]); if (key == "particle_number_distribution") z = z.real(); CHK(num(a[1]) == z && num(a[2]) == cd(errs[i]), key + ".csv row " + std::to_string(i) + " reads back as " + a[1] + " +- " + a[2]); } }
      }
      if (tri) CHK(files.count(key + "_index_map.txt"), "no index map for " + key); if (cg) { std::ifstream f(base + "stats/" + key + "_coords.txt"); std::stringstream q; q << f.rdbuf(); CHK(q.str() == cg(R, Cc), "coordinates of " + key); }
    }
    CHK(ee.has_value() && reg.count("energy") && C(ee->energy) == C(reg.at("energy").first[0]), "energy estimate differs from the statistics"); auto oe = [&] { Quiet q; return me->OutputEnergy(); }(); if (why.empty()) { CHK(C(oe.first) == C(ee->energy) && oe.second == ee->stderr, "OutputEnergy differs from GetEnergyEstimate"); CHK(ee->stderr == (w.np > 1 ? reg.at("energy").second[0] : ee->stderr), "energy error"); if (w.np == 1) CHK(ee->stderr == 0 || std::isinf(ee->stderr), "error estimate from one rank"); }
  });
  settle(w);
}

PBT_PROP(replica_test, 20, 1500, "configurations of neighbouring ranks differ") {
  World w(s); Dir dir(w, s); size_t R, Cc; lattice(s, R, Cc); std::mt19937_64 g(s.draw(1u << 30)); State S = random_state(s, g, R, Cc, 0); Mod m = make_mod(s, R, Cc); std::vector<size_t> ok = resolved(S); if (ok.empty()) return; Plan p = plan(s, w.np, ok); size_t total = s.urange(1, 25 * w.np), sb = s.urange(1, 2), n = (total + w.np - 1) / w.np; auto sc = script(S, p, w.rk); s.note(std::to_string(n) + " samples per rank"); s.label(n < 10 ? "fewer than ten samples" : "");
  std::string cdump = s.boolean() ? "c" : ""; with_mod(m, [&](auto &sv) {
    using M = std::decay_t<decltype(sv)>; MCMeasurementParams mp(MonteCarloParams(total, 0, sb, S.conf(p.init[w.rk]), true, cdump), PEPSParams(exact_trunc()), "o"); auto ov = [&](const Configuration &a, const Configuration &b) { return double(S.idx(a)) * 1000 + double(S.idx(b)); };
    { Quiet q; MCPEPSMeasurer<E, Q, Upd, M, Con> me(S.x, mp, w.c, sv, Upd{sc}); me.ReplicaTest(ov); }
    auto L = lines("replica_overlap/replica_overlap" + std::to_string(w.rk)); while (!L.empty() && L.back().empty()) L.pop_back(); int src = (w.rk + w.np - 1) % w.np; CHK(L.size() == n, "replica test recorded " + std::to_string(L.size()) + " overlaps of " + std::to_string(n)); for (size_t j = 0; j < n && why.empty(); ++j) { size_t c = (j + 1) * sb - 1, a = p.seq[w.rk][c % p.seq[w.rk].size()], b = p.seq[src][c % p.seq[src].size()]; if (a != b) s.nontrivial(); double e = a * 1000.0 + b, x = std::strtod(L[j].c_str(), nullptr); CHK(std::abs(x - e) <= 1e-5 * e + 1e-9, "overlap " + std::to_string(j) + " is of configurations " + L[j] + " instead of " + pbt::show(e)); }
    if (!cdump.empty()) { Configuration c(R, Cc); bool l = false; { Quiet q; l = c.Load(cdump, w.rk); } CHK(l && S.idx(c) == p.seq[w.rk][(n * sb - 1) % p.seq[w.rk].size()], "configuration dumped by the replica test"); }
  });
  if (w.np == 1) s.nontrivial(); settle(w);
}

PBT_PROP(measure_helpers, 60, 4000, "at least four samples") {
  World w(s); size_t n = s.urange(1, 60), ns = s.urange(1, 5); std::mt19937_64 g(s.draw(1u << 30)); std::uniform_real_distribution<double> u(-2, 2); auto rnd = [&] { double a = u(g), b = u(g); return mk(cd(a, b)); }; std::vector<E> d(n); for (auto &x : d) x = rnd(); std::vector<std::vector<E>> f(n, std::vector<E>(ns)); for (auto &x : f) for (auto &y : x) y = rnd(); if (n > 3) s.nontrivial(); E mean = rnd(); size_t lag = std::min<size_t>(20, n / 2); s.note(std::to_string(n) + "x" + std::to_string(ns));
  auto a = ComputeAutocorrelation(d, mean); CHK(a.size() == lag, "number of lags"); for (size_t t = 0; t < a.size() && why.empty(); ++t) { cd q = 0; for (size_t j = 0; j + t < n; ++j) q += std::conj(C(d[j])) * C(d[j + t]); q = q / double(n - t) - std::norm(C(mean)); CHK(std::abs(C(a[t]).real() - q.real()) <= 1e-9 && std::abs(std::abs(C(a[t]).imag()) - std::abs(q.imag())) <= 1e-9, "autocorrelation at lag " + std::to_string(t)); }
  auto b = ComputeSiteAveragedAutocorrelation(f); CHK(b.size() == lag, "number of site-averaged lags"); CV mu(ns, 0.0); for (auto &x : f) for (size_t i = 0; i < ns; ++i) mu[i] += C(x[i]) / (double) n; for (size_t t = 0; t < b.size() && why.empty(); ++t) { cd q = 0; for (size_t j = 0; j + t < n; ++j) for (size_t i = 0; i < ns; ++i) q += std::conj(C(f[j][i]) - mu[i]) * (C(f[j + t][i]) - mu[i]); q /= double(n - t) * ns; CHK(std::abs(C(b[t]).real() - q.real()) <= 1e-9 && std::abs(std::abs(C(b[t]).imag()) - std::abs(q.imag())) <= 1e-9, "site-averaged autocorrelation at lag " + std::to_string(t) + ": " + show(C(b[t])) + " expected " + show(q)); }
  cd o = C(SpinConfigurationOverlap(f[0], f[n - 1])), q = 0; for (size_t i = 0; i < ns; ++i) q += std::conj(C(f[0][i])) * C(f[n - 1][i]); CHK(std::abs(o - q) <= 1e-9, "configuration overlap");
  // particle numbers
  size_t R = s.urange(1, 3), Cc = s.urange(1, 3), ds = s.urange(1, 4); ParticleNumberDistributionParams pp; pp.enabled = true; for (size_t i = 0; i < ds; ++i) pp.particles_per_state.push_back(s.draw(4)); Configuration c(R, Cc); size_t tot = 0; bool over = s.chance(1, 4); for (size_t r = 0; r < R; ++r) for (size_t k = 0; k < Cc; ++k) { c({r, k}) = s.draw(ds); tot += pp.particles_per_state[c({r, k})]; } if (over) c({R - 1, Cc - 1}) = ds; bool th = false;
  try { auto x = detail::MakeParticleNumberDistributionSample<E>(c, pp); if (!over) { size_t mx = *std::max_element(pp.particles_per_state.begin(), pp.particles_per_state.end()); CHK(x.particle_number == tot, "particle number " + std::to_string(x.particle_number) + " of a configuration with " + std::to_string(tot)); CHK(x.one_hot_distribution.size() == R * Cc * mx + 1, "number of particle-number bins"); for (size_t i = 0; i < x.one_hot_distribution.size(); ++i) CHK(C(x.one_hot_distribution[i]) == cd(i == tot ? 1.0 : 0.0), "one-hot distribution"); } } catch (const std::invalid_argument &) { th = true; } CHK(th == over, over ? "an unknown local state was counted" : "a valid configuration was refused"); th = false; try { (void) detail::CountConfiguredParticles(c, ParticleNumberDistributionParams{}); } catch (const std::invalid_argument &) { th = true; } CHK(th, "empty particle table accepted");
  settle(w);
}
PBT_PROP(measurer_contracts, 8, 200, "particle table too short") {
  World w(s); Dir dir(w, s); std::mt19937_64 g(s.draw(1u << 30)); State S = random_state(s, g, 2, 2, 0); auto ok = resolved(S); if (ok.empty()) return; auto sc = std::make_shared<Script>(); sc->seq = {S.conf(ok[0])}; Mod m = make_mod(s, 2, 2); size_t k = s.draw(S.d + 2); s.note(std::to_string(k)); if (k < S.d) s.nontrivial();
  with_mod(m, [&](auto &sv) { using M = std::decay_t<decltype(sv)>; using Me = MCPEPSMeasurer<E, Q, Upd, M, Con>; MCMeasurementParams mp(MonteCarloParams(2, 0, 1, S.conf(ok[0]), true), PEPSParams(exact_trunc()), "o"); mp.particle_number_distribution.enabled = true; mp.particle_number_distribution.particles_per_state.assign(k, 1); bool th = false; try { Quiet q; Me me(S.x, mp, w.c, sv, Upd{sc}); } catch (const std::invalid_argument &) { th = true; } CHK(th == (k < S.d), "particle table with " + std::to_string(k) + " entries"); th = false; try { Quiet q; auto x = Me::CreateByLoadingTPS(dir.p + "/nowhere", mp, w.c, sv, Upd{sc}); } catch (const std::runtime_error &) { th = true; } CHK(th, "a missing state was loaded"); });
  settle(w);
}
}  // namespace
