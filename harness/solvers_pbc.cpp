// C23: periodic spin-model solvers (TRG) against the exact Hamiltonian on the torus.
#define PBC
#include "vmc.hpp"
#include "qlpeps/algorithm/vmc_update/model_solvers/build_in_model_solvers_all.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/heisenberg_square_pbc.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/square_spin_onehalf_j1j2_xxz_pbc.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_pbc.h"
#include "qlpeps/vmc_basic/configuration_update_strategies/monte_carlo_sweep_updater_all.h"
using namespace vmc;
namespace {
using V = std::vector<size_t>;
enum Model { HEI, J1J2, TFI };
const char *mname[] = {"HeisenbergPBC", "J1J2XXZ-PBC", "TFIsing-PBC"};
struct P { Model m; double jz, jxy, jz2, jxy2, pin, hx; };
double sz(size_t c) { return double(c) - 0.5; }
struct Ref {
  const State &S; V v; cd p; double worst = 0; size_t k;
  Ref(const State &s, size_t k_) : S(s), v(s.cfg(k_)), p(s.psi(k_)), k(k_) {}
  cd flip(std::initializer_list<size_t> f) { V w = v; for (size_t x : f) w[x] = 1 - w[x]; size_t q = S.idx(w); worst = std::max(worst, S.mag(q)); return std::conj(S.psi(q) / p); }
  cd bond(size_t i, size_t j, double jz, double jxy) { if (v[i] == v[j]) return 0.25 * jz; return -0.25 * jz + (jxy == 0 ? cd(0) : 0.5 * jxy * flip({i, j})); }
};
// every site is joined to its right, lower and (J2) lower-right and lower-left neighbour, with wrap-around
std::map<std::string, std::vector<cd>> exact(Ref &r, const P &h) {
  std::map<std::string, std::vector<cd>> o; const State &S = r.S; size_t R = S.R, C_ = S.Cc; cd e = 0; bool nnn = h.m == J1J2 && (h.jz2 != 0 || h.jxy2 != 0);
  auto id = [&](size_t a, size_t b) { return (a % R) * C_ + b % C_; };
  for (size_t a = 0; a < R; ++a) for (size_t b = 0; b < C_; ++b) {
    size_t i = id(a, b); o["spin_z"].push_back(sz(r.v[i]));
    if (h.m == TFI) { e -= (r.v[i] == r.v[id(a, b + 1)] ? 1.0 : -1.0) + (r.v[i] == r.v[id(a + 1, b)] ? 1.0 : -1.0); cd x = r.flip({i}); if (h.hx != 0) e -= h.hx * x; o["sigma_x"].push_back(x); continue; }
    cd x = r.bond(i, id(a, b + 1), h.jz, h.jxy), y = r.bond(i, id(a + 1, b), h.jz, h.jxy); o["bond_energy_h"].push_back(x); o["bond_energy_v"].push_back(y); e += x + y;
    if (nnn) { cd u = r.bond(i, id(a + 1, b + 1), h.jz2, h.jxy2), w = r.bond(i, id(a + 1, b + C_ - 1), h.jz2, h.jxy2); o["bond_energy_dr"].push_back(u); o["bond_energy_ur"].push_back(w); e += u + w; }
  }
  if (h.m == J1J2) e -= h.pin * sz(r.v[0]);
  if (h.m == TFI) for (size_t i = 1; i <= C_ / 2; ++i) o["SzSz_row"].push_back(sz(r.v[id(R / 2, C_ / 4)]) * sz(r.v[id(R / 2, C_ / 4 + i)]));
  o["energy"] = {e}; return o;
}
PBT_PROP(torus_energy_holes_observables, 120, 6000, "|psi| resolved and an off-diagonal term contributes") {
  P h{}; h.m = (Model) s.freq({2, 3, 2}); auto J = [&] { return s.pick(std::vector<double>{1.0, -1.0, 0.0, 0.37, 2.5}); }; h.jz = J(); h.jxy = J(); if (h.m == J1J2) { h.jz2 = J(); h.jxy2 = J(); h.pin = s.pick(std::vector<double>{0.0, 0.7, -1.3}); } h.hx = s.pick(std::vector<double>{0.5, 3.1, -0.8, 0.0});
  size_t n = s.pick(std::vector<size_t>{2, 3, 2, 4}); if (n == 4 && h.m == TFI) n = 3; std::mt19937_64 g(s.draw(1u << 30)); State S = make_state(g, n, n, 2, n == 2 ? 3 : 2, s.pick(std::vector<int>{0, 1, 0}), true, s.pick(std::vector<double>{0.0, 0.3}));
  size_t k = 0; for (int t = 0; t < 200; ++t) { k = g() % S.dim(); if (std::abs(S.psi(k)) > 1e-3 * S.mag(k)) break; } std::string mn = mname[h.m];
  s.note(mn + " " + std::to_string(n) + " jz=" + pbt::show(h.jz) + " jxy=" + pbt::show(h.jxy) + " jz2=" + pbt::show(h.jz2) + " jxy2=" + pbt::show(h.jxy2) + " pin=" + pbt::show(h.pin) + " hx=" + pbt::show(h.hx) + " configuration " + std::to_string(k)); s.label(mn + std::to_string(n));
  if (std::abs(S.psi(k)) <= 1e-3 * S.mag(k)) return;
  Comp w(S.x, S.conf(k), exact_trunc()); int reps = (int) s.urange(1, 3); MCUpdateSquareNNExchangePBC ex((size_t) s.draw(1000)); MCUpdateSquareNNFullSpaceUpdatePBC fu((size_t) s.draw(1000));
  auto run = [&](auto &sv) {
    for (int i = 0; i < reps; ++i) {
      if (int mv = (int) s.freq({2, 1, 1})) { std::vector<double> acc; if (mv == 1) ex(S.x, w, acc); else fu(S.x, w, acc); k = S.idx(w.config); s.note("sweep"); }
      if (std::abs(S.psi(k)) <= 1e-3 * S.mag(k)) return;
      Ref r(S, k); auto want = exact(r, h); cd e = want["energy"][0]; if (r.worst > 0) s.nontrivial(); double base = 1 + (r.worst + S.mag(k)) / std::abs(r.p), t = 1e-8 * base * S.N(); bool holes = s.boolean();
      TN hl(n, n); E en = holes ? sv.template CalEnergyAndHoles<E, Q, true>(&S.x, &w, hl) : sv.template CalEnergy<E, Q>(&S.x, &w);
      PBT_ASSERT(std::abs(C(en) - e) <= t * (1 + std::abs(e)), mn + " local energy " + show(C(en)) + " but the Hamiltonian gives " + show(e));
      auto ps = sv.template GetLastPsiConsistencySummary<E>(); PBT_ASSERT(std::abs(C(ps.psi_mean) - r.p) <= 1e-8 * S.mag(k) && ps.psi_rel_err <= 1e-8 * base, mn + " psi summary " + show(C(ps.psi_mean)));
      if (holes) for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < n; ++b) for (size_t q = 0; q < 2; ++q) {
        if (n == 4 && q != r.v[a * n + b]) continue; const T &x = S.x({a, b})[q], &z = hl({a, b}); PBT_ASSERT(z.GetIndexes() == x.GetIndexes(), mn + " hole legs"); cd y = 0; for (size_t u = 0; u < x.d_.size(); ++u) y += std::conj(C(z.d_[u])) * C(x.d_[u]);
        V v = r.v; v[a * n + b] = q; PBT_ASSERT(std::abs(y - S.psi(v)) <= (n == 4 ? 1e-5 : 1e-8) * (S.mag(S.idx(v)) + 1e-3 * S.mag(k)), mn + " hole at (" + std::to_string(a) + "," + std::to_string(b) + ") contracts with component " + std::to_string(q) + " to " + show(y) + " instead of " + show(S.psi(v)));
      }
      auto o = sv.template EvaluateObservables<E, Q>(&S.x, &w); auto d = sv.DescribeObservables(n, n); std::map<std::string, ObservableMeta> dm; for (auto &x : d) { PBT_ASSERT(!dm.count(x.key), mn + " describes " + x.key + " twice"); dm[x.key] = x; }
      for (auto &[key, val] : want) {
        auto it = o.find(key); PBT_ASSERT(it != o.end(), mn + " did not report " + key); PBT_ASSERT(it->second.size() == val.size(), mn + " " + key + " length " + std::to_string(it->second.size())); if (key == "sigma_x" && h.hx == 0) continue;
        for (size_t u = 0; u < val.size(); ++u) PBT_ASSERT(std::abs(C(it->second[u]) - val[u]) <= t * (1 + std::abs(val[u])), mn + " " + key + "[" + std::to_string(u) + "] = " + show(C(it->second[u])) + " exact " + show(val[u]));
      }
      for (auto &[key, val] : o) { PBT_ASSERT(want.count(key), mn + " reports unexpected " + key); PBT_ASSERT(dm.count(key), mn + " reports undescribed " + key); size_t m = 1; for (size_t x : dm[key].shape) m *= x; PBT_ASSERT(m == val.size() && dm[key].shape.size() == dm[key].index_labels.size(), mn + " " + key + " does not fill its described shape"); }
      for (auto &[key, x] : dm) PBT_ASSERT(o.count(key), mn + " describes " + key + " but does not report it");
      PBT_ASSERT(S.idx(w.config) == k && tn_diff(S, w).empty(), mn + " changed the sample");
      auto pm = sv.template EvaluatePsiSummary<E, Q>(&S.x, &w); PBT_ASSERT(std::abs(C(pm.psi_mean) - r.p) <= 1e-8 * S.mag(k) && pm.psi_rel_err <= 1e-8 * base, mn + " measured psi mean " + show(C(pm.psi_mean)) + " expected " + show(r.p));
      w.EvaluateAmplitude(); PBT_ASSERT(std::abs(C(w.amplitude) - r.p) <= 1e-8 * S.mag(k), mn + " amplitude after measuring");
    }
  };
  if (h.m == HEI) { if (s.boolean()) h.jxy = h.jz; if (h.jz == h.jxy) { HeisenbergSquarePBC sv(h.jz); run(sv); } else { HeisenbergSquarePBC sv(h.jz, h.jxy); run(sv); } }
  else if (h.m == J1J2) { SquareSpinOneHalfJ1J2XXZModelPBC sv(h.jz, h.jxy, h.jz2, h.jxy2, h.pin); run(sv); } else { TransverseFieldIsingSquarePBC sv(h.hx); run(sv); }
}
// a periodic solver on an open network must refuse
PBT_PROP(open_network_refused, 6, 60, "always") {
  Model m = (Model) s.urange(0, 2); s.nontrivial(); s.note(mname[m]); struct Fake { TN tn; BoundaryCondition bc; TRGContractor<E, Q> contractor; Configuration config; TRGTruncateParams<double> trun_para; };
  size_t n = s.urange(2, 3); TN t(n, n, BoundaryCondition::Open); Fake f{t, BoundaryCondition::Open, TRGContractor<E, Q>(n, n), Configuration(n, n), exact_trunc()}; SI x(n, n, 2); TN hl(n, n); int thrown = 0;
  auto go = [&](auto &sv) { try { sv.template CalEnergyAndHoles<E, Q, false>(&x, &f, hl); } catch (const std::invalid_argument &) { ++thrown; } try { sv.template EvaluateObservables<E, Q>(&x, &f); } catch (const std::invalid_argument &) { ++thrown; } };
  if (m == HEI) { HeisenbergSquarePBC sv(1); go(sv); } else if (m == J1J2) { SquareSpinOneHalfJ1J2XXZModelPBC sv(0.5); go(sv); } else { TransverseFieldIsingSquarePBC sv(1); go(sv); }
  PBT_ASSERT(thrown == 2, std::string(mname[m]) + " accepted an open network");
}
}  // namespace
