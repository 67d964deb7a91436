// C33: fermionic models against Fock-space matrix elements.
#include "ferm.hpp"
#include <set>
#include "qlpeps/vmc_basic/configuration_update_strategies/monte_carlo_sweep_updater_all.h"
using namespace ferm;
namespace {
struct Sd3 : MCUpdateSquareTNN3SiteExchange { explicit Sd3(unsigned s) { this->random_engine_.seed(s); } };
struct Setup { State S; Ham H; size_t k; bool ok; };
Setup setup(Src &s, int mm = -1) {
  Model m = mm >= 0 ? (Model) mm : (Model) s.freq({3, 2, 2, 2, 3}); size_t R = s.urange(2, 4), Cc = s.urange(2, 4); size_t cap = m == SPINLESS ? 12 : 9; while (R * Cc > cap) (R > 2 ? R : Cc)--; if (s.chance(1, 6)) { R = 2; Cc = m == SPINLESS ? s.urange(5, 6) : 5; if (s.boolean()) std::swap(R, Cc); }
  int mode = s.pick(std::vector<int>{0, 1, 0}); std::mt19937_64 g(s.draw(1u << 30)); State S = make_state(g, R, Cc, local(m), R * Cc <= 6 ? 2 : 1, mode, s.pick(std::vector<double>{0.0, 0.3, 1.0}));
  Ham H = make_ham(s, m, R, Cc); size_t k = 0; bool ok = false; for (int t = 0; t < 60 && !ok; ++t) { k = g() % S.dim(); ok = S.even(k) && S.mag(k) > 0 && std::abs(S.psi(k)) > 1e-3 * S.mag(k); }
  return {S, H, k, ok};
}
PBT_PROP(fermion_local_energy, 200, 9000, "|psi| resolved and at least one hop contributes") {
  Setup st = setup(s); State &S = st.S; Ham &H = st.H; size_t k = st.k; if (!st.ok) return; std::string mn = mname[H.m];
  Comp w(S.x, S.conf(k), exact_trunc()); int reps = (int) s.urange(1, 3); MCUpdateSquareNNExchangeOBC ex((size_t) s.draw(1000)); Sd3 ex3((unsigned) s.draw(1000));
  PBT_ASSERT(std::abs(std::abs(C(w.amplitude)) - std::abs(S.psi(k))) <= 1e-9 * S.mag(k), "modulus of the amplitude " + show(C(w.amplitude)) + " exact " + show(S.psi(k)));
  with(H, S.Cc, [&](auto &sv) {
    for (int i = 0; i < reps; ++i) {
      if (int mv = (int) s.freq({2, 1, 1})) { std::vector<double> acc; if (mv == 1 || S.R < 3 || S.Cc < 3) ex(S.x, w, acc); else ex3(S.x, w, acc); k = S.idx(w.config); }
      double mg = S.mag(k); if (!(std::abs(S.psi(k)) > 1e-3 * mg)) return; Ref r(S, k); cd e = r.sum(H.ts); double t = r.tol(H.ts.size()); if (r.worst > 0) s.nontrivial();
      bool holes = s.boolean(); TN h(S.R, S.Cc); E en = holes ? sv.template CalEnergyAndHoles<E, Q, true>(&S.x, &w, h) : sv.template CalEnergy<E, Q>(&S.x, &w);
      PBT_ASSERT(std::abs(C(en) - e) <= t * (1 + std::abs(e)), mn + (holes ? " CalEnergyAndHoles" : " CalEnergy") + " local energy " + show(C(en)) + " but the Hamiltonian gives " + show(e) + " for configuration " + std::to_string(k));
      if (holes && s.boolean()) {   // the holes give conj(d log psi / d T), element by element
        auto d = S.deriv(k); double om = 0; for (auto &x : d) for (auto &z : x) om = std::max(om, std::abs(z)); double ht = 1e-9 * (om + mg) / std::abs(r.p) * (1 + om / std::abs(r.p)); s.label("holes");
        for (size_t u = 0; u < S.N(); ++u) { SiteIdx si{u / S.Cc, u % S.Cc}; T g = CalGTenForFermionicTensors<E, Q>(h(si), w.tn(si)); g.ActFermionPOps(); PBT_ASSERT(g.GetShape() == w.tn(si).GetShape(), mn + " hole of site " + std::to_string(u) + " has another shape"); for (size_t z = 0; z < d[u].size(); ++z) PBT_ASSERT(std::abs(C(g.d_[z]) - d[u][z] / std::conj(r.p)) <= ht, mn + " hole of site " + std::to_string(u) + " element " + std::to_string(z) + ": derivative " + show(C(g.d_[z])) + " exact " + show(d[u][z] / std::conj(r.p))); }
      }
      PBT_ASSERT(S.idx(w.config) == k && tn_diff(S, w).empty(), mn + " energy evaluation changed the sample");
      PBT_ASSERT(std::abs(std::abs(C(w.amplitude)) - std::abs(r.p)) <= 1e-9 * mg, mn + " left amplitude " + show(C(w.amplitude)));
      auto ps = sv.template GetLastPsiConsistencySummary<E>(); PBT_ASSERT(ps.psi_rel_err >= 0 && ps.psi_rel_err <= 1e-8 * mg / std::abs(r.p), mn + " psi summary rel err " + pbt::show(ps.psi_rel_err));
    }
  });
}
PBT_PROP(fermion_observables, 160, 8000, "|psi| resolved and at least one hop contributes") {
  Setup st = setup(s); State &S = st.S; Ham &H = st.H; size_t k = st.k; if (!st.ok) return; std::string mn = mname[H.m]; size_t R = S.R, Cc = S.Cc, N = S.N(); Ref r(S, k); bool tjm = H.m != SPINLESS && H.m != HUBBARD, nnn = H.m == SPINLESS || H.m == TJNNN || H.m == TJV, sc = tjm && s.boolean(); auto id = [&](size_t a, size_t b) { return a * Cc + b; };
  std::map<std::string, CV> want; cd e = r.sum(H.ts); want["energy"] = {e}; if (r.worst > 0) s.nontrivial(); s.label(sc ? "pair fields" : "");
  for (size_t i = 0; i < N; ++i) { auto [u, d] = S.loc.occ[r.v[i]]; want["charge"].push_back(u + d); if (H.m != SPINLESS) want["spin_z"].push_back(0.5 * (u - d)); if (H.m == HUBBARD) want["double_occupancy"].push_back(u * d); }
  auto pairf = [&](size_t i, size_t j) { return 0.5 * (std::conj(r.sum(singlet(i, j, 1.0, true))) + r.sum(singlet(i, j, 1.0, false))); };
  for (size_t a = 0; a < R; ++a) for (size_t b = 0; b + 1 < Cc; ++b) { want["bond_energy_h"].push_back(r.pair(H.ts, id(a, b), id(a, b + 1))); if (sc) want["SC_bond_singlet_h"].push_back(pairf(id(a, b), id(a, b + 1))); }
  for (size_t a = 0; a + 1 < R; ++a) for (size_t b = 0; b < Cc; ++b) { want["bond_energy_v"].push_back(r.pair(H.ts, id(a, b), id(a + 1, b))); if (sc) want["SC_bond_singlet_v"].push_back(pairf(id(a, b), id(a + 1, b))); }
  if (nnn) for (size_t a = 0; a + 1 < R; ++a) for (size_t b = 0; b + 1 < Cc; ++b) { want["bond_energy_dr"].push_back(r.pair(H.ts, id(a, b), id(a + 1, b + 1))); want["bond_energy_ur"].push_back(r.pair(H.ts, id(a + 1, b), id(a, b + 1))); }
  double t = r.tol(H.ts.size()), mg = S.mag(k); Comp w(S.x, S.conf(k), exact_trunc()); bool first = s.boolean(); int reps = (int) s.urange(1, 2);
  SquaretJModelMixIn::enable_sc_measurement = sc; struct Off { ~Off() { SquaretJModelMixIn::enable_sc_measurement = false; } } off;
  with(H, Cc, [&](auto &sv) {
    for (int i = 0; i < reps; ++i) {
      if (first) (void) sv.template CalEnergy<E, Q>(&S.x, &w);
      auto o = sv.template EvaluateObservables<E, Q>(&S.x, &w); auto d = sv.DescribeObservables(R, Cc); std::map<std::string, ObservableMeta> dm; for (auto &x : d) { PBT_ASSERT(!dm.count(x.key), mn + " describes " + x.key + " twice"); dm[x.key] = x; }
      for (auto &[key, val] : want) {
        auto it = o.find(key); PBT_ASSERT(it != o.end(), mn + " did not report " + key); PBT_ASSERT(it->second.size() == val.size(), mn + " " + key + " has " + std::to_string(it->second.size()) + " values, expected " + std::to_string(val.size()));
        for (size_t u = 0; u < val.size(); ++u) PBT_ASSERT(std::abs(C(it->second[u]) - val[u]) <= t * (1 + std::abs(val[u])), mn + " " + key + "[" + std::to_string(u) + "] = " + show(C(it->second[u])) + " exact " + show(val[u]) + " (evaluation " + std::to_string(i) + ")");
      }
      for (auto &[key, val] : o) { PBT_ASSERT(want.count(key), mn + " reports an unexpected observable " + key); PBT_ASSERT(dm.count(key), mn + " reports undescribed observable " + key); size_t n = 1; for (size_t x : dm[key].shape) n *= x; PBT_ASSERT(n == val.size() && dm[key].index_labels.size() == dm[key].shape.size(), mn + " " + key + ": values do not fill the described shape"); }
      for (auto &[key, x] : dm) if (key.rfind("SC_", 0) != 0) PBT_ASSERT(o.count(key), mn + " describes " + key + " but does not report it");
      PBT_ASSERT(S.idx(w.config) == k && tn_diff(S, w).empty(), mn + " EvaluateObservables changed the sample");
      auto ps = sv.template EvaluatePsiSummary<E, Q>(&S.x, &w); PBT_ASSERT(std::abs(std::abs(C(ps.psi_mean)) - std::abs(r.p)) <= 1e-8 * mg && ps.psi_rel_err >= 0 && ps.psi_rel_err <= 1e-8 * mg / std::abs(r.p), mn + " psi summary " + show(C(ps.psi_mean)) + " rel err " + pbt::show(ps.psi_rel_err) + " for |psi| " + pbt::show(std::abs(r.p)));
      w.EvaluateAmplitude(); PBT_ASSERT(std::abs(std::abs(C(w.amplitude)) - std::abs(r.p)) <= 1e-9 * mg, mn + " amplitude re-evaluation after measuring");
    }
  });
}

// environments grown from either end in one go or step by step give the same amplitude and the same replacement traces
PBT_PROP(environments_from_either_side, 80, 4000, "a replacement trace away from zero was compared") {
  Setup st = setup(s); State &S = st.S; size_t k = st.k; if (!st.ok) return; Comp w(S.x, S.conf(k), exact_trunc()); auto &c = w.contractor; auto &net = w.tn; double mg = S.mag(k); int reps = (int) s.urange(1, 3);
  for (int i = 0; i < reps; ++i) {
    bool hz = s.boolean(); size_t L = hz ? S.R : S.Cc, N = hz ? S.Cc : S.R, sl = s.urange(0, L - 1), b = s.urange(0, N - 2); SiteIdx a = hz ? SiteIdx{sl, b} : SiteIdx{b, sl}, z = hz ? SiteIdx{sl, b + 1} : SiteIdx{b + 1, sl}; BondOrientation o = hz ? HORIZONTAL : VERTICAL; BTenPOSITION lo = hz ? LEFT : UP, hi = hz ? RIGHT : DOWN;
    std::string at = std::string(hz ? "row " : "column ") + std::to_string(sl) + " bond " + std::to_string(b); size_t q1 = s.urange(0, S.d - 1), q2 = s.urange(0, S.d - 1); V v = S.cfg(k), u = v; size_t ia = a.row() * S.Cc + a.col(), iz = z.row() * S.Cc + z.col(); u[ia] = q1; u[iz] = q2; bool rep = S.even(S.idx(u)); double mu = rep ? S.mag(S.idx(u)) : 0;
    auto go = [&](bool full) -> std::pair<cd, cd> {
      c.GenerateBMPSApproach(net, hz ? UP : LEFT); for (size_t x = 0; x < sl; ++x) c.ShiftBMPSWindow(net, hz ? DOWN : RIGHT);
      if (full) { c.GrowFullBTen(net, lo, sl, N - b, true); c.GrowFullBTen(net, hi, sl, b + 2, true); } else { c.InitBTen(net, lo, sl); c.GrowFullBTen(net, hi, sl, 2, true); for (size_t x = 0; x < b; ++x) c.ShiftBTenWindow(net, hi); }
      cd t = C(c.Trace(net, a, o)), r = rep ? C(c.ReplaceNNSiteTrace(net, a, z, o, S.x(a)[q1], S.x(z)[q2])) : cd(0); return {t, r}; };
    bool order = s.boolean(); auto x = go(order), y = go(!order); double t = 1e-9 * mg, tr = 1e-9 * mu;
    PBT_ASSERT(std::abs(x.first - y.first) <= t && std::abs(std::abs(x.first) - std::abs(C(w.amplitude))) <= t, at + ": amplitude " + show(x.first) + " and " + show(y.first) + " from the two ways of growing, " + show(C(w.amplitude)) + " stored");
    if (rep) { PBT_ASSERT(std::abs(x.second - y.second) <= tr, at + ": replacement trace " + show(x.second) + " and " + show(y.second) + " from the two ways of growing"); PBT_ASSERT(std::abs(std::abs(x.second) - std::abs(S.psi(S.idx(u)))) <= tr, at + ": replacement trace " + show(x.second) + " but the amplitude is " + show(S.psi(S.idx(u)))); if (std::abs(x.second) > 1e-3 * mu && u != v) s.nontrivial(); }
  }
}

// the t-J bond evaluators for wave functions psi(n) exp(sum_{i<j} v_ij n_i n_j), driven over all bonds as the energy solvers do
PBT_PROP(jastrow_dressed_bonds, 80, 4000, "at least one hop between coupled sites") {
  Setup st = setup(s, (Model) s.range(TJNN, TJV)); State &S = st.S; Ham &H = st.H; size_t k = st.k, R = S.R, Cc = S.Cc, N = S.N(); if (!st.ok) return; std::string mn = mname[H.m]; bool pinned = H.pinned; H.pinned = false; std::erase_if(H.ts, [](const Term &t) { return t.ops.size() == 2 && t.ops[0].cr == t.ops[1].cr; });
  JastrowFactor jf(R, Cc); std::vector<std::vector<double>> v(N, std::vector<double>(N, 0.0)); for (size_t i = 0; i < N; ++i) for (size_t j = i + 1; j < N; ++j) { v[i][j] = s.chance(1, 3) ? 0.0 : s.real(-0.8, 0.8); jf.Set(i, j, v[i][j]); }
  JastrowDress dr(jf); dr.density_config = DensityConfig(R, Cc); Ref r(S, k); for (size_t i = 0; i < N; ++i) dr.density_config({i / Cc, i % Cc}) = S.d - 1 == r.v[i] ? 0 : 1;
  auto J = [&](const V &c) { double e = 0; for (size_t i = 0; i < N; ++i) for (size_t j = i + 1; j < N; ++j) if (c[i] != 2 && c[j] != 2) e += v[i][j]; return e; }; double j0 = J(r.v), jm = 0;
  r.dress = [&](const V &c) { double x = std::exp(J(c) - j0); jm = std::max(jm, x); return x; }; Comp w(S.x, S.conf(k), exact_trunc()); with(H, Cc, [&](auto &sv) {
    if constexpr (requires { sv.SetSingletPairPinningField(SiteIdx{0, 0}, SiteIdx{0, 1}, 0.1); }) {
    std::vector<E> ps; auto nn = [&](const SiteIdx a, const SiteIdx b, const BondOrientation o, const E) { std::optional<E> psi; cd e = C(sv.EvaluateBondEnergy(a, b, w.config(a), w.config(b), o, w.tn, w.contractor, S.x(a), S.x(b), psi, dr)), x = r.pair(H.ts, a.row() * Cc + a.col(), b.row() * Cc + b.col()); if (w.config(a) != w.config(b) && v[std::min(a.row() * Cc + a.col(), b.row() * Cc + b.col())][std::max(a.row() * Cc + a.col(), b.row() * Cc + b.col())] != 0) s.nontrivial(); PBT_ASSERT(std::abs(e - x) <= r.tol(8) * (1 + jm), mn + " dressed bond " + std::to_string(a.row()) + "," + std::to_string(a.col()) + (o == HORIZONTAL ? " horizontal " : " vertical ") + show(e) + " exact " + show(x)); };
    auto dg = [&](const SiteIdx a, const SiteIdx b, const DIAGONAL_DIR o, const E, std::optional<E> &psi) { cd e = C(sv.EvaluateNNNEnergy(a, b, w.config(a), w.config(b), o, w.tn, w.contractor, S.x(a), S.x(b), psi, dr)), x = r.pair(H.ts, a.row() * Cc + a.col(), b.row() * Cc + b.col()); PBT_ASSERT(std::abs(e - x) <= r.tol(8) * (1 + jm), mn + " dressed diagonal bond " + std::to_string(a.row()) + "," + std::to_string(a.col()) + " " + show(e) + " exact " + show(x)); };
      BondTraversalMixin::TraverseAllBonds(w.tn, w.contractor, nn, dg, [](size_t, E) {}, ps);
      if (pinned) { sv.SetSingletPairPinningField({0, 0}, {0, 1}, 0.5); std::optional<E> psi; bool th = false; try { (void) sv.EvaluateBondEnergy(SiteIdx{0, 0}, SiteIdx{0, 1}, w.config({0, 0}), w.config({0, 1}), HORIZONTAL, w.tn, w.contractor, S.x({0, 0}), S.x({0, 1}), psi, dr); } catch (const std::runtime_error &) { th = true; } PBT_ASSERT(th, "a pinning field was silently ignored for a dressed wave function"); }
    } });
}

// singlet-pair correlations are either refused or reported with the right value (never silently with a wrong sign)
PBT_PROP(pair_correlations_right_or_refused, 40, 2000, "at least one pair contributes") {
  Setup st = setup(s, (Model) s.range(TJNN, TJV)); State &S = st.S; Ham &H = st.H; if (!st.ok) return; std::string mn = mname[H.m]; size_t R = S.R, Cc = S.Cc, k = st.k;
  if (s.chance(3, 4)) { V v = S.cfg(k); size_t a = s.urange(0, R - 2), b = s.urange(a + 1, R - 1), x = s.urange(0, Cc - 2), y = s.urange(0, Cc - 2); bool up = s.boolean(); v[a * Cc + x] = v[a * Cc + x + 1] = 2; v[b * Cc + y] = up; v[b * Cc + y + 1] = !up; size_t q = S.idx(v); if (S.even(q) && S.mag(q) > 0 && std::abs(S.psi(q)) > 1e-3 * S.mag(q)) k = q; }
  std::vector<std::pair<size_t, size_t>> ref; if (s.boolean()) { ref.push_back({s.urange(0, R - 2), s.urange(0, Cc - 2)}); } Ref r(S, k); CV want;
  for (auto &m : SingletPairCorrelationMixin<SquaretJNNModel>::GenerateSCPairCorrIndexMapping(R, Cc, ref)) { std::vector<Term> ts; for (auto &a : singlet(m[0] * Cc + m[1], m[0] * Cc + m[1] + 1, 1.0, true)) for (auto &b : singlet(m[3] * Cc + m[4], m[3] * Cc + m[4] + 1, 1.0, false)) { Term t = a; t.f *= b.f; for (auto &o : b.ops) t.ops.push_back(o); ts.push_back(t); } want.push_back(r.sum(ts)); if (std::abs(want.back()) > 1e-6) s.nontrivial(); }
  Comp w(S.x, S.conf(k), exact_trunc()); with(H, Cc, [&](auto &sv) { if constexpr (requires { sv.SetEnableSingletPairCorrelation(true); }) {
    sv.SetEnableSingletPairCorrelation(true); sv.SetSelectedRefBonds(ref); ObservableMap<E> o; bool th = false; try { o = sv.template EvaluateObservables<E, Q>(&S.x, &w); } catch (const std::runtime_error &) { th = true; } if (th) return;
    auto it = o.find("SC_singlet_pair_corr"); PBT_ASSERT(it != o.end() && it->second.size() == want.size(), mn + " pair correlations were asked for and neither reported in full nor refused");
    for (size_t u = 0; u < want.size(); ++u) PBT_ASSERT(std::abs(C(it->second[u]) - want[u]) <= r.tol(8) * (1 + std::abs(want[u])), mn + " pair correlation " + std::to_string(u) + " reported as " + show(C(it->second[u])) + " exact " + show(want[u])); } });
}

PBT_PROP(pinning_and_pair_lists, 200, 6000, "a pair list with at least two reference bonds or a refused pinning bond") {
  size_t R = s.urange(1, 6), Cc = s.urange(1, 6); std::vector<std::pair<size_t, size_t>> ref; size_t nr = s.boolean() ? 0 : s.urange(1, 5); std::set<std::pair<size_t, size_t>> seen; for (size_t i = 0; i < nr; ++i) { std::pair<size_t, size_t> b{s.draw(7), s.draw(7)}; if (seen.insert(b).second) ref.push_back(b); } s.note(std::to_string(R) + "x" + std::to_string(Cc) + " " + std::to_string(ref.size()) + " selected bonds");
  // every pair (horizontal reference bond, horizontal bond in a lower row), reference bonds in row-major order, then targets in row-major order
  std::vector<std::array<size_t, 6>> w; for (size_t a = 0; a + 1 < R; ++a) for (size_t b = 0; b + 1 < Cc; ++b) { if (!ref.empty() && !seen.count({a, b})) continue; for (size_t c = a + 1; c < R; ++c) for (size_t d = 0; d + 1 < Cc; ++d) w.push_back({a, b, 0, c, d, 0}); }
  using X = SingletPairCorrelationMixin<SquaretJNNModel>; PBT_ASSERT(X::ComputeNumSCPairs(R, Cc, ref) == w.size(), "number of pairs " + std::to_string(X::ComputeNumSCPairs(R, Cc, ref)) + " expected " + std::to_string(w.size())); PBT_ASSERT(X::GenerateSCPairCorrIndexMapping(R, Cc, ref) == w, "pair list");
  std::stringstream q(X::GenerateSCPairCorrCoordString(R, Cc, ref)); std::string l; std::getline(q, l); for (size_t i = 0; i < w.size(); ++i) { PBT_ASSERT(bool(std::getline(q, l)), "coordinate text too short"); std::stringstream z(l); size_t n, x; z >> n; PBT_ASSERT(n == i, "coordinate line " + l); for (int j = 0; j < 6; ++j) { z >> x; PBT_ASSERT(x == w[i][j], "coordinate line " + l); } } PBT_ASSERT(!std::getline(q, l), "coordinate text too long"); if (w.size() > 1) s.nontrivial();
  auto desc = [&](auto &sv) { sv.SetSelectedRefBonds(ref); PBT_ASSERT(sv.GetSelectedRefBonds() == ref, "selected bonds"); for (auto &m : sv.DescribeObservables(R, Cc)) if (m.key == "SC_singlet_pair_corr") { PBT_ASSERT(m.shape == std::vector<size_t>{w.size()}, "described number of pairs"); PBT_ASSERT(m.coord_generator && m.coord_generator(R, Cc) == X::GenerateSCPairCorrCoordString(R, Cc, ref), "described coordinates"); }
    // pinning field contract
    SiteIdx a{s.draw(5), s.draw(5)}, b{s.draw(5), s.draw(5)}; if (s.boolean()) { b = a; int dir = (int) s.draw(4); if (dir == 0) b.col()++; if (dir == 1) b.row()++; if (dir == 2 && b.col()) b.col()--; if (dir == 3 && b.row()) b.row()--; } double dl = s.pick(std::vector<double>{0.3, -2.0, 0.0, std::nan(""), INFINITY, -INFINITY}); size_t dist = (a.row() > b.row() ? a.row() - b.row() : b.row() - a.row()) + (a.col() > b.col() ? a.col() - b.col() : b.col() - a.col()); bool valid = dist == 1 && std::isfinite(dl), th = false;
    PBT_ASSERT(!sv.HasSingletPairPinningField(), "pinning field by default"); try { sv.SetSingletPairPinningField(a, b, dl); } catch (const std::invalid_argument &) { th = true; } PBT_ASSERT(th == !valid, valid ? "a valid pinning field was refused" : "an invalid pinning field was accepted"); PBT_ASSERT(sv.HasSingletPairPinningField() == valid, "pinning flag"); if (!valid) { s.nontrivial(); return; }
    Configuration c(R, Cc); size_t ne = 0; for (size_t r = 0; r < R; ++r) for (size_t k = 0; k < Cc; ++k) { c({r, k}) = s.draw(3); ne += c({r, k}) != 2; } bool in = std::max(a.row(), b.row()) < R && std::max(a.col(), b.col()) < Cc; th = false; double e = 0; try { e = sv.EvaluateTotalOnsiteEnergy(c); } catch (const std::runtime_error &) { th = true; } PBT_ASSERT(th == !in, in ? "a bond inside the lattice was refused" : "a pinning bond outside the lattice was accepted"); if (in) PBT_ASSERT(std::abs(e + 0.7 * double(ne)) <= 1e-12 * (1 + ne), "on-site energy " + pbt::show(e)); sv.ClearSingletPairPinningField(); PBT_ASSERT(!sv.HasSingletPairPinningField() && std::abs(sv.EvaluateTotalOnsiteEnergy(c) + 0.7 * double(ne)) <= 1e-12 * (1 + ne), "cleared pinning field"); };
  int m = (int) s.draw(3); if (m == 0) { SquaretJNNModel sv(1, 1, 0.7); desc(sv); } else if (m == 1) { SquaretJNNNModel sv(1, 1, 1, 0.7); desc(sv); } else { SquaretJVModel sv(1, 1, 1, 1, 0.7); desc(sv); }
}
}  // namespace
