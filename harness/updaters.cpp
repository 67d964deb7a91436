// C20: Monte Carlo sweeps keep the walker's bookkeeping exact and sample |psi|^2.
#ifdef FERMI
#include "ferm.hpp"
namespace vmc { using namespace ferm; inline double chi2_z(double x, double k) { if (k <= 0) return 0; double h = 2.0 / (9 * k); return (std::cbrt(x / k) - (1 - h)) / std::sqrt(h); } }
#define MOD(z) std::abs(z)   // the sign of a fermionic amplitude is a matter of convention
#else
#include "vmc.hpp"
#define MOD(z) (z)
#endif
#include "qlpeps/vmc_basic/configuration_update_strategies/monte_carlo_sweep_updater_all.h"
using namespace vmc;
namespace {
struct Sd3 : MCUpdateSquareTNN3SiteExchange { explicit Sd3(unsigned s) { this->random_engine_.seed(s); } };
#ifdef PBC
#define RUNK(k, seed) switch (k) { case EXCH: run(MCUpdateSquareNNExchangePBC(seed)); break; default: run(MCUpdateSquareNNFullSpaceUpdatePBC(seed)); }
#else
#define RUNK(k, seed) switch (k) { case EXCH: run(MCUpdateSquareNNExchangeOBC(seed)); break; case FULL: run(MCUpdateSquareNNFullSpaceUpdateOBC(seed)); break; case THREE: run(Sd3(seed)); break; default: run(MCUpdateSquareNNHubbardU1U1OBC(seed)); }
#endif
enum Kind { EXCH, FULL, THREE, HUB };
const char *kname[] = {"NNExchange", "NNFullSpace", "TNN3Site", "HubbardU1U1"};
void sweep(Kind k, unsigned seed, const SI &x, Comp &w, std::vector<double> &acc, size_t n = 1) {
  auto run = [&](auto u) { for (size_t i = 0; i < n; ++i) u(x, w, acc); };
  RUNK(k, seed)
}
// conserved label of a configuration under the updater
std::vector<size_t> label(Kind k, const State &S, size_t c) {
  auto v = S.cfg(c); if (k == FULL) return {};
  if (k == HUB) { size_t u = 0, d = 0; for (auto x : v) { u += x == 0 || x == 1; d += x == 0 || x == 2; } return {u, d}; }
  std::vector<size_t> n(S.d, 0); for (auto x : v) n[x]++; return n;
}
struct Setup { Kind k; State S; };
Setup setup_(Src &s, size_t budget, int mode, double spread);
// the sampled distribution does not depend on the overall scale of the wave function
Setup setup(Src &s, size_t budget, int mode, double spread) {
  Setup u = setup_(s, budget, mode, spread); double e = s.pick(std::vector<double>{0, 0, -100, 100}); if (e == 0) return u; double f = std::pow(10.0, e / double(u.S.N()));
  for (size_t r = 0; r < u.S.R; ++r) for (size_t c = 0; c < u.S.Cc; ++c) for (size_t i = 0; i < u.S.d; ++i) { for (auto &z : u.S.x({r, c})[i].d_) z *= f; 
#ifndef FERMI
    for (auto &z : u.S.a[r][c][i].v) z *= f;
#endif
  }
  s.note("scale 1e" + pbt::show(e)); return u;
}
Setup setup_(Src &s, size_t budget, int mode, double spread) {
#ifdef PBC
  { Kind k = (Kind) s.freq({1, 1}); size_t d = s.urange(2, 3), n = s.pick(std::vector<size_t>{2, 2, 2, 3, 4}); if (n == 3 && (k == FULL || d == 3)) { d = 2; if (k == FULL && budget < 512) n = 2; } if (n == 4) { d = 2; if (budget < 1u << 16) n = 2; }
    std::mt19937_64 g(s.draw(1u << 30)); Setup u{k, make_state(g, n, n, d, 2, mode, true, spread)}; s.note(std::string(kname[k]) + " PBC " + std::to_string(n) + " d=" + std::to_string(d) + " mode " + std::to_string(mode) + " spread " + pbt::show(spread)); s.label(std::string(kname[k]) + " PBC"); return u; }
#endif
#ifdef FERMI
  { Kind k = (Kind) s.freq({3, 0, 2, 3}); Local lc = k == HUB ? hubbard() : s.boolean() ? spinless() : tj(); size_t d = lc.occ.size(), R = s.urange(2, 3), Cc = s.urange(2, 3); if (k == THREE) { R = Cc = 3; if (s.boolean()) R = 4; if (s.boolean()) std::swap(R, Cc); lc = spinless(); d = 2; }
    auto dim = [&] { size_t n = 1; for (size_t i = 0; i < R * Cc; ++i) { n *= d; if (n > 1u << 20) break; } return n; }; if (k != THREE) while (dim() > budget) { if (R > 2) --R; else if (Cc > 2) --Cc; else break; }
    std::mt19937_64 g(s.draw(1u << 30)); Setup u{k, make_state(g, R, Cc, lc, R * Cc <= 4 ? 2 : 1, mode, spread, true)}; s.note("fermions " + std::string(kname[k]) + " " + std::to_string(R) + "x" + std::to_string(Cc) + " d=" + std::to_string(d) + " mode " + std::to_string(mode) + " spread " + pbt::show(spread)); s.label(std::string(kname[k]) + " fermions"); return u; }
#endif
#ifndef FERMI
  Kind k = (Kind) s.freq({3, 3, 2, 3}); size_t d = k == HUB ? 4 : s.urange(2, 3), R, Cc;
  if (k == THREE) { d = 2; R = s.urange(3, 4); Cc = s.urange(3, 3); if (s.boolean()) std::swap(R, Cc); } else { R = s.urange(2, 4); Cc = s.urange(2, 4); }
  auto dim = [&] { size_t n = 1; for (size_t i = 0; i < R * Cc; ++i) { n *= d; if (n > 1u << 20) break; } return n; };
  if (k != THREE) while (dim() > budget) { if (R > Cc) --R; else if (Cc > 2) --Cc; else if (R > 2) --R; else break; }
  std::mt19937_64 g(s.draw(1u << 30)); Setup u{k, make_state(g, R, Cc, d, R * Cc <= 4 ? 3 : 2, mode, false, spread)};
  s.note(std::string(kname[k]) + " " + std::to_string(R) + "x" + std::to_string(Cc) + " d=" + std::to_string(d) + " mode " + std::to_string(mode) + " spread " + pbt::show(spread));
  s.label(kname[k]); return u;
#endif
}
// history of sweeps and global moves on one walker
PBT_PROP(walker_bookkeeping, 120, 6000, "at least three sweeps of which one changed the configuration") {
  auto [k, S] = setup(s, 1u << 18, (int) s.pick(std::vector<int>{0, 1, 0}), s.pick(std::vector<double>{0.0, 0.5, 2.0}));
  std::mt19937_64 g(s.draw(1u << 30)); auto start = [&]() { for (int t = 0; t < 200; ++t) { size_t c = g() % S.dim(); if (std::abs(S.psi(c)) > 1e-6 * S.mag(c) && S.mag(c) > 0) return c; } return S.dim(); };
  size_t c0 = start(); if (c0 == S.dim()) return; bool shuffled = false; Comp w(S.x, S.conf(c0), exact_trunc()); size_t n = s.urange(1, 6), changed = 0; std::vector<double> acc;
  auto chk = [&](const std::string &op, double slack) {
    size_t c = S.idx(w.config); auto e = tn_diff(S, w); PBT_ASSERT(e.empty(), "after " + op + " the network disagrees with the configuration at " + e);
    cd v = S.psi(c); double m = S.mag(c); PBT_ASSERT(std::abs(MOD(C(w.amplitude)) - MOD(v)) <= slack * m, "after " + op + " amplitude " + show(C(w.amplitude)) + " but the configuration has " + show(v));
    PBT_ASSERT(C(w.GetAmplitude()) == C(w.amplitude), "GetAmplitude");
    PBT_ASSERT(w.IsZero() == (C(w.amplitude) == cd(0)) && w.IsAmplitudeSquareLegal() == (std::abs(w.amplitude) > std::sqrt(std::numeric_limits<double>::min()) && std::abs(w.amplitude) < std::sqrt(std::numeric_limits<double>::max())), "amplitude legality");
  };
  chk("construction", 1e-9); PBT_ASSERT(S.idx(w.config) == c0, "constructor changed the configuration");
  for (size_t i = 0; i < n; ++i) {
    size_t before = S.idx(w.config); Comp keep = w;
    switch (s.freq({8, 1, 1, 1, 1})) {
      case 0: {
        sweep(k, (unsigned) s.draw(1u << 30), S.x, w, acc); size_t after = S.idx(w.config); changed += after != before;
        chk(std::string(kname[k]) + " sweep", 1e-8);
        PBT_ASSERT(label(k, S, before) == label(k, S, after), std::string(kname[k]) + " sweep broke its conservation law");
        PBT_ASSERT(acc.size() == 1 && acc[0] >= 0 && acc[0] <= 1, "acceptance rate outside [0,1]");
        double bonds = S.pbc ? 2.0 * S.N() : k == THREE ? S.Cc * (S.R - 2) + S.R * (S.Cc - 2) : S.Cc * (S.R - 1) + S.R * (S.Cc - 1); double m = acc[0] * bonds;
        PBT_ASSERT(std::abs(m - std::round(m)) < 1e-9, "acceptance rate is not a fraction of the attempted moves"); if (after != before) PBT_ASSERT(acc[0] > 0, "configuration changed with acceptance 0");
        PBT_ASSERT(std::abs(w.amplitude) > 0, "walker moved to a zero amplitude");
        break; }
      case 1: { size_t c = start(); if (c == S.dim()) break; w.ReplaceGlobalConfig(S.x, S.conf(c)); PBT_ASSERT(S.idx(w.config) == c, "ReplaceGlobalConfig configuration"); chk("ReplaceGlobalConfig", 1e-9); break; }
      case 2: { std::vector<size_t> occ(S.d, 0); for (auto x : S.cfg(before)) occ[x]++; Comp t = w; for (int q = 0; q < 25; ++q) { t.RandomInit(S.x, occ); if (S.idx(t.config) != before) break; } PBT_ASSERT(*std::max_element(occ.begin(), occ.end()) == S.N() || S.idx(t.config) != before, "RandomInit never changes the configuration"); size_t c = S.idx(t.config); std::vector<size_t> o2(S.d, 0); for (auto x : S.cfg(c)) o2[x]++; PBT_ASSERT(occ == o2, "RandomInit occupancy"); if (std::abs(S.psi(c)) > 1e-6 * S.mag(c)) w = t; chk("RandomInit", 1e-9); shuffled = true; break; }
#ifdef PBC
      default: { auto v = S.cfg(before); std::vector<std::pair<SiteIdx, size_t>> ch; std::vector<std::pair<SiteIdx, T>> rp; size_t m = s.urange(1, 3); for (size_t t = 0; t < m; ++t) { size_t p = s.urange(0, S.N() - 1), q = s.urange(0, S.d - 1); SiteIdx st{p / S.Cc, p % S.Cc}; bool dup = false; for (auto &y : ch) dup |= y.first == st; if (dup) continue; v[p] = q; ch.push_back({st, q}); rp.push_back({st, S.x(st)[q]}); }
        auto t = w.BeginTrial(rp, ch); PBT_ASSERT(std::abs(C(t.amplitude) - S.psi(v)) <= 1e-8 * S.mag(S.idx(v)), "trial amplitude " + show(C(t.amplitude)) + " expected " + show(S.psi(v))); chk("BeginTrial", 1e-8); PBT_ASSERT(S.idx(w.config) == before, "BeginTrial changed the configuration");
        bool acc1 = std::abs(S.psi(v)) > 1e-6 * S.mag(S.idx(v)) && s.boolean(); if (acc1) { w.AcceptTrial(std::move(t), S.x); PBT_ASSERT(S.idx(w.config) == S.idx(v), "AcceptTrial configuration"); } else { w.RejectTrial(std::move(t)); PBT_ASSERT(S.idx(w.config) == before, "RejectTrial changed the configuration"); }
        chk(acc1 ? "AcceptTrial" : "RejectTrial", 1e-8); w.EvaluateAmplitude(); chk("EvaluateAmplitude", 1e-8); break; }
    }
#else
      case 3: { size_t r = s.urange(0, S.R - 1), c = s.urange(0, S.Cc - 1), q = s.urange(0, S.d - 1); auto v = S.cfg(before); v[r * S.Cc + c] = q; if (std::abs(S.psi(v)) <= 1e-6 * S.mag(S.idx(v))) break; w.UpdateLocal(S.x, mk(S.psi(v)), std::make_pair(SiteIdx{r, c}, q)); PBT_ASSERT(S.idx(w.config) == S.idx(v), "UpdateLocal configuration"); chk("UpdateLocal", 1e-9); E a = w.EvaluateAmplitude(); PBT_ASSERT(std::abs(C(a) - C(w.amplitude)) == 0, "EvaluateAmplitude result"); chk("EvaluateAmplitude", 1e-9); break; }
      default: { auto v = S.cfg(before); std::vector<std::pair<SiteIdx, size_t>> ch; for (int t = 0; t < 2; ++t) { size_t p = s.urange(0, S.N() - 1), q = s.urange(0, S.d - 1); v[p] = q; ch.push_back({SiteIdx{p / S.Cc, p % S.Cc}, q}); } if (ch[0].first == ch[1].first || std::abs(S.psi(v)) <= 1e-6 * S.mag(S.idx(v))) break; w.UpdateLocal(S.x, mk(S.psi(v)), ch[0], ch[1]); chk("two-site UpdateLocal", 1e-9); w.EvaluateAmplitude(); chk("EvaluateAmplitude", 1e-9); break; }
    }
#endif
    // a copy made before the operation is not disturbed by it
    PBT_ASSERT(S.idx(keep.config) == before && tn_diff(S, keep).empty(), "copied walker disturbed");
    if (s.chance(1, 4)) { keep.EvaluateAmplitude(); PBT_ASSERT(std::abs(MOD(C(keep.amplitude)) - MOD(S.psi(before))) <= 1e-8 * S.mag(before), "copied walker's environments disturbed"); }
  }
  (void) shuffled; if (n >= 3 && changed) s.nontrivial();
}
// Start distributed as |psi|^2 in a sector, sweep, compare the end distribution with |psi|^2.
PBT_PROP(stationary_distribution, 12, 600, "at least five well populated configurations in the sector and at least a tenth of the walkers moved") {
  auto [k, S] = setup(s, 300, (int) s.pick(std::vector<int>{0, 1, 0}), s.pick(std::vector<double>{0.0, 0.3}));
  std::mt19937_64 g(s.draw(1u << 30)); size_t c0 = g() % S.dim(); for (int q = 0; q < 200 && !(std::abs(S.psi(c0)) > 0); ++q) c0 = g() % S.dim(); auto lb = label(k, S, c0); std::vector<size_t> sec; std::vector<double> p; double Z = 0;
  for (size_t c = 0; c < S.dim(); ++c) if (label(k, S, c) == lb) { double q = std::norm(S.psi(c)); if (!(q > 0)) continue; sec.push_back(c); p.push_back(q); Z += q; }
  if (sec.size() < 2) return; for (auto &q : p) q /= Z;
  size_t n = 2500, sw = s.urange(1, 2), moved = 0; std::map<size_t, double> cnt; std::discrete_distribution<size_t> D(p.begin(), p.end()); std::vector<double> acc;
  std::vector<std::vector<size_t>> from(sec.size()); std::vector<size_t> nst(sec.size()); for (size_t i = 0; i < n; ++i) nst[D(g)]++;
  // stratify the starts: expected counts, remainder by the draw above
  for (size_t i = 0; i < sec.size(); ++i) { double e = n * p[i]; nst[i] = (size_t) std::floor(e) + (std::generate_canonical<double, 53>(g) < e - std::floor(e)); }
  size_t tot = 0; Comp w(S.x, S.conf(sec[0]), exact_trunc());
  for (size_t i = 0; i < sec.size(); ++i) for (size_t j = 0; j < nst[i]; ++j) {
    w.ReplaceGlobalConfig(S.x, S.conf(sec[i])); sweep(k, (unsigned) g(), S.x, w, acc, sw); size_t e = S.idx(w.config); cnt[e]++; moved += e != sec[i]; ++tot;
  }
  double chi = 0, pool_e = 0, pool_o = 0; size_t dof = 0, seen = 0;
  for (size_t i = 0; i < sec.size(); ++i) { double e = tot * p[i], o = cnt.count(sec[i]) ? cnt[sec[i]] : 0; seen += (size_t) o; if (e < 8) { pool_e += e; pool_o += o; } else { chi += (o - e) * (o - e) / e; ++dof; } }
  PBT_ASSERT(seen == tot, std::string(kname[k]) + ": a sweep left the sector");
  if (pool_e > 8) { chi += (pool_o - pool_e) * (pool_o - pool_e) / pool_e; ++dof; }
  double z = dof > 1 ? chi2_z(chi, double(dof - 1)) : 0;
  PBT_ASSERT(z < 6.5, std::string(kname[k]) + ": after " + std::to_string(sw) + " sweep(s) from |psi|^2 the distribution differs from |psi|^2: chi2 " + pbt::show(chi) + " for " + std::to_string(dof - 1) + " degrees of freedom");
  if (dof >= 5 && moved * 10 >= tot) s.nontrivial();
}
// From any start every comparable configuration of the sector is reached.
PBT_PROP(reaches_sector, 30, 1500, "a sector with at least three comparable configurations") {
  auto [k, S] = setup(s, 300, 1, 0.0); std::mt19937_64 g(s.draw(1u << 30)); size_t c0 = g() % S.dim(); for (int q = 0; q < 200 && !(std::abs(S.psi(c0)) > 0); ++q) c0 = g() % S.dim(); auto lb = label(k, S, c0); std::set<size_t> want; double mx = 0, Z = 0;
  for (size_t c = 0; c < S.dim(); ++c) if (label(k, S, c) == lb) { double q = std::norm(S.psi(c)); mx = std::max(mx, q); Z += q; }
  for (size_t c = 0; c < S.dim(); ++c) if (label(k, S, c) == lb && std::norm(S.psi(c)) > 0.01 * Z) want.insert(c);
  Comp w(S.x, S.conf(c0), exact_trunc()); std::vector<double> acc; size_t total = want.size(); want.erase(c0); unsigned sd = (unsigned) s.draw(1u << 30);
  auto run = [&](auto u) { for (size_t i = 0; i < 6000 && !want.empty(); ++i) { u(S.x, w, acc); want.erase(S.idx(w.config)); } };
  RUNK(k, sd)
  PBT_ASSERT(want.empty(), std::string(kname[k]) + ": " + std::to_string(want.size()) + " of " + std::to_string(total) + " configurations with at least 1% probability never visited in 6000 sweeps");
  if (total >= 3) s.nontrivial();
}
#ifndef PBC
PBT_PROP(hubbard_enumeration, 40, 200, "always") {
  size_t u = s.urange(0, 3), d = s.urange(0, 3); auto v = EnumerateHubbardTwoSiteConfigsWithU1U1(u, d); std::set<std::pair<size_t, size_t>> got(v.begin(), v.end()), want;
  for (size_t a = 0; a < 4; ++a) for (size_t b = 0; b < 4; ++b) { size_t nu = (a == 0 || a == 1) + (b == 0 || b == 1), nd = (a == 0 || a == 2) + (b == 0 || b == 2); if (nu == u && nd == d) want.insert({a, b}); }
  PBT_ASSERT(got == want && got.size() == v.size(), "two-site Hubbard states for (" + std::to_string(u) + "," + std::to_string(d) + ")"); s.nontrivial();
}
#endif
}
