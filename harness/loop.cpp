// C37: loop update - projecting a plaquette gate and running the executor.
#include <cstdlib>
#include <set>
#include <map>
#include <filesystem>
#include <functional>
#include <memory>
#include <sstream>
struct LoopExit { int code; };
#define exit(x) throw LoopExit{int(x)}   // the code under test gives up with exit() when the gauge cannot be fixed: such cases are set aside
#include "peps.hpp"
#include "qlpeps/algorithm/loop_update/loop_update.h"
#undef exit
using namespace pe;
namespace {
using Gates = std::array<T, 4>;
struct Setup { Loc l; size_t R, Cc; bool pbc; std::mt19937_64 g; P p; size_t N() const { return R * Cc; } };
IX mpo_bond(std::mt19937_64 &g, size_t dim) {
  if constexpr (!SYM) return IX({QNSector<Q>(Q(), dim)}, OUT);
  else { std::vector<QNSector<Q>> v; v.emplace_back(QG::charge(0), 1); v.emplace_back(QG::charge(g() % 2 ? 2 : -2), 1); if (dim > 2) v.emplace_back(QG::charge(0), dim - 2); return IX(v, OUT); }
}
// a ring of four matrix-product operators: identity plus eps times something random
Gates random_gates(std::mt19937_64 &g, const Loc &l, double eps, const V &dims, bool identity = false) {
  std::uniform_real_distribution<double> u(-1, 1); IX b[4]; for (int i = 0; i < 4; ++i) b[i] = mpo_bond(g, dims[i]); Gates w;
  for (int i = 0; i < 4; ++i) { w[i] = T({qlten::InverseIndex(b[(i + 3) % 4]), qlten::InverseIndex(l.phys), l.phys, b[i]}); w[i].div_ = Q(); if (!identity) tn::fill<E, Q>(w[i], Q(), g, 0); for (auto &x : w[i].d_) x *= eps; for (size_t k = 0; k < l.d; ++k) w[i]({0, k, k, 0}) += E(1.0); }
  return w;
}
// dense operator on (upper left, upper right, lower right, lower left)
Mat dense_gate(const Loc &l, const Gates &w) {
  Mat m = zero(l, 4); size_t d = l.d; V D; for (auto &t : w) D.push_back(t.GetShape()[0]);
  for (size_t o = 0; o < m.D; ++o) for (size_t i = 0; i < m.D; ++i) { V vo = digits(o, 4, d), vi = digits(i, 4, d); cd s = 0; std::vector<CV> acc(D[0], CV(D[0], 0.0)); for (size_t a = 0; a < D[0]; ++a) acc[a][a] = 1; 
    for (int k = 0; k < 4; ++k) { size_t n = w[k].GetShape()[3]; std::vector<CV> nx(D[0], CV(n, 0.0)); for (size_t a = 0; a < D[0]; ++a) for (size_t x = 0; x < acc[a].size(); ++x) if (acc[a][x] != 0.0) for (size_t y = 0; y < n; ++y) nx[a][y] += acc[a][x] * C(w[k].d_[((x * d + vi[k]) * d + vo[k]) * n + y]); acc = nx; } for (size_t a = 0; a < D[0]; ++a) s += acc[a][a]; m.at(o, i) = s; }
  return m;
}
V loop_ids(const Setup &st, size_t r, size_t c) { size_t r1 = (r + 1) % st.R, c1 = (c + 1) % st.Cc; return {r * st.Cc + c, r * st.Cc + c1, r1 * st.Cc + c1, r1 * st.Cc + c}; }
// plaquette state in its mean-field environment, physical legs first (upper left, upper right, lower right, lower left)
CV plaquette(const P &p, size_t r, size_t c) {
  size_t r1 = (r + 1) % p.Rows(), c1 = (c + 1) % p.Cols(); std::vector<T> t = {eat(p, r, c, 1u << W | 1u << No), eat(p, r, c1, 1u << W | 1u << No | 1u << Ea), eat(p, r1, c, 1u << W | 1u << No | 1u << S), eat(p, r1, c1, 15u)}; CV v = contract(t, 2, 2, false); size_t d = t[0].GetShape()[4], m = v.size() / (d * d * d * d); CV o(v.size());
  for (size_t k = 0; k < d * d * d * d; ++k) { V x = digits(k, 4, d); size_t q = ((x[0] * d + x[1]) * d + x[3]) * d + x[2]; for (size_t i = 0; i < m; ++i) o[q * m + i] = v[k * m + i]; } return o;
}
Setup setup(Src &s, size_t cap = 9) {
  Loc l = make_loc(s.chance(1, 6) ? 3 : 2); bool pbc = s.chance(1, 3); size_t R, Cc; if (pbc) { R = 2; Cc = s.chance(1, 4) && l.d == 2 && cap > 6 ? 4 : 2; if (s.boolean()) std::swap(R, Cc); } else { R = s.urange(2, 3); Cc = s.urange(2, 3); if (l.d == 3) cap = 6; while (R * Cc > cap) (R > Cc ? R : Cc)--; }
  std::mt19937_64 g(s.draw(1u << 30)); P p = random_peps(g, l, R, Cc, pbc, R * Cc > 6 || l.d > 2 ? 1 + s.draw(2) : 2, 0, false); s.note(std::to_string(R) + "x" + std::to_string(Cc) + (pbc ? " periodic" : " open") + " d=" + std::to_string(l.d)); s.label(pbc ? "periodic" : "open"); return {l, R, Cc, pbc, g, p};
}
bool dead(const P &p) { for (auto &g : p.Gamma) if (!(nrm(CV(g.d_.begin(), g.d_.end())) > 1e-100)) return true; return false; }
ConjugateGradientParams cgp(double rel = 1e-10) { ConjugateGradientParams c; c.max_iter = 200; c.relative_tolerance = rel; c.residual_recompute_interval = 20; return c; }
double min_weight(const P &p) { double m = 1; for (auto *L : {&p.lambda_vert, &p.lambda_horiz}) for (auto &x : *L) for (size_t i = 0; i < x.GetShape()[0]; ++i) m = std::min(m, std::abs(double(x({i, i})))); return m; }
PBT_PROP(loop_project, 120, 5000, "an untruncated plaquette gate changed a non-vanishing state") {
  Setup st = setup(s); P &p = st.p; if (dead(p)) return; p.NormalizeAllTensor(); CV psi = dense(p); if (!(nrm(psi) > 1e-6)) return; int ops = (int) s.urange(1, 3), done = 0; double base = nrm(psi);
  for (int k = 0; k < ops; ++k) {
    size_t r = s.urange(0, st.pbc ? st.R - 1 : st.R - 2), c = s.urange(0, st.pbc ? st.Cc - 1 : st.Cc - 2); double eps = s.pick(std::vector<double>{0.3, 0.1, 0.02}); Gates w = random_gates(st.g, st.l, eps, {s.urange(2, 3), 2, 2, s.urange(2, 3)}); Mat G = dense_gate(st.l, w); V ids = loop_ids(st, r, c); double mw = min_weight(p); if (k && mw < 1e-4) { s.label("weights too small"); break; } CV th = plaquette(p, r, c), gt = local_apply(G, th); P before = p;
    LoopUpdateTruncatePara tp(ArnoldiParams(1e-10, 100), 1e-14, FullEnvironmentTruncateParams(1, 200, 0, 1e-12, 0, cgp())); std::pair<double, double> res; try { Quiet q; res = p.LocalSquareLoopProject(w, {r, c}, tp, false); } catch (const LoopExit &) { s.label("gauge not fixed"); return; }
    std::string at = "plaquette " + std::to_string(r) + "," + std::to_string(c) + ": "; cd ov = dot(th, gt) / dot(th, th); PBT_ASSERT(std::abs(res.second - ov.real()) <= (k ? 1e-6 : 1e-8) * (1 + nrm(gt) / nrm(th)), at + "overlap " + pbt::show(res.second) + ", <psi|G|psi>/<psi|psi> in the environment is " + pbt::show(ov.real()));
    std::set<size_t> gs(ids.begin(), ids.end()); size_t r1 = (r + 1) % st.R, c1 = (c + 1) % st.Cc; std::set<const DT *> ch{&lam(p, r, c, Ea), &lam(p, r, c, S), &lam(p, r1, c1, W), &lam(p, r1, c1, No)}; std::string df = peps_diff(before, p, gs, ch); PBT_ASSERT(df.empty(), at + "changed " + df);
    CV want = apply(psi, st.N(), st.l, ids, G), got = dense(p); for (auto &z : got) z *= res.first; double sc = nrm(want) + nrm(psi); s.note(" err " + pbt::show(dist(want, got) / sc)); PBT_ASSERT(dist(want, got) <= (k ? 1e-3 : 1e-5) * sc, at + "state off by " + pbt::show(dist(want, got) / sc)); for (size_t q : gs) { const T &x = p.Gamma({q / st.Cc, q % st.Cc}); PBT_ASSERT(std::abs(nrm(vec(x)) - 1) < 1e-12 && x.GetIndex(4) == st.l.phys, at + "site tensor not normalised"); } for (auto *x : ch) PBT_ASSERT(std::abs(nrm(CV(x->d_.begin(), x->d_.end())) - 1) < 1e-12, at + "weights not normalised");
    psi = dense(p); if (nrm(want) > 1e-3 * base) ++done; if (p.GetMaxBondDim() > 6) break;
  }
  if (done) s.nontrivial();
}

double fid(const CV &a, const CV &b) { return std::norm(dot(a, b)) / (std::pow(nrm(a), 2) * std::pow(nrm(b), 2)); }
// random states are sometimes badly conditioned for the alternating truncation: the typical plaquette of a batch is judged
PBT_PROP(loop_truncate, 12, 500, "at least five plaquettes were truncated") {
  std::vector<double> ratio; int n = 9; for (int k = 0; k < n; ++k) {
    Setup st = setup(s, 6); P &p = st.p; if (dead(p)) continue; p.NormalizeAllTensor(); if (!(nrm(dense(p)) > 1e-6)) continue;
    size_t r = s.urange(0, st.pbc ? st.R - 1 : st.R - 2), c = s.urange(0, st.pbc ? st.Cc - 1 : st.Cc - 2); double eps = s.pick(std::vector<double>{0.1, 0.03, 0.01}); Gates w = random_gates(st.g, st.l, eps, {s.urange(2, 3), 2, 2, s.urange(2, 3)}); Mat G = dense_gate(st.l, w); V ids = loop_ids(st, r, c); CV th = plaquette(p, r, c), gt = local_apply(G, th); P before = p; size_t r1 = (r + 1) % st.R, c1 = (c + 1) % st.Cc; auto bonds = [&] { return std::vector<const DT *>{&lam(p, r, c, Ea), &lam(p, r, c, S), &lam(p, r1, c1, W), &lam(p, r1, c1, No)}; };
    size_t D0 = 1; for (auto *x : bonds()) D0 = std::max(D0, x->GetShape()[0]); size_t dmax = D0 + s.draw(2);
    LoopUpdateTruncatePara tp(ArnoldiParams(1e-10, 100), 1e-10, FullEnvironmentTruncateParams(1, dmax, 1e-12, 1e-12, 30, cgp(1e-8))); std::pair<double, double> res; try { Quiet q; res = p.LocalSquareLoopProject(w, {r, c}, tp, false); } catch (const LoopExit &) { s.label("gauge not fixed"); continue; } catch (const std::runtime_error &) { s.label("CG not converged"); continue; }
    cd ov = dot(th, gt) / dot(th, th); PBT_ASSERT(std::abs(res.second - ov.real()) <= 1e-8 * (1 + nrm(gt) / nrm(th)), "overlap " + pbt::show(res.second) + ", <psi|G|psi>/<psi|psi> in the environment is " + pbt::show(ov.real())); std::set<size_t> gs(ids.begin(), ids.end()); auto bs = bonds(); std::string df = peps_diff(before, p, gs, std::set<const DT *>(bs.begin(), bs.end())); PBT_ASSERT(df.empty(), "changed " + df); for (auto *x : bs) { PBT_ASSERT(x->GetShape()[0] <= dmax && x->GetShape()[0] == x->GetShape()[1], "bond dimension above the cap"); PBT_ASSERT(std::abs(nrm(CV(x->d_.begin(), x->d_.end())) - 1) < 1e-12, "weights not normalised"); } PBT_ASSERT(res.first > 0, "norm " + pbt::show(res.first)); for (size_t q : gs) { const T &x = p.Gamma({q / st.Cc, q % st.Cc}); PBT_ASSERT(std::abs(nrm(vec(x)) - 1) < 1e-12 && x.GetIndex(4) == st.l.phys, "site tensor not normalised"); }
    double f0 = 1 - fid(th, gt), f1 = 1 - fid(plaquette(p, r, c), gt); if (f0 > 1e-8) ratio.push_back(f1 / f0);
  }
  if (ratio.size() < 5) return; std::sort(ratio.begin(), ratio.end()); double md = ratio[ratio.size() / 2]; PBT_ASSERT(md < 0.3, "typical truncation loses " + pbt::show(md) + " of what the gate changed"); s.nontrivial();
}
// gates 1 + h K + O(h^2) for every plaquette
struct Fam { T z[4], x[4], y[4]; };
Fam family(std::mt19937_64 &g, const Loc &l) { Fam f; IX b = mpo_bond(g, 2); for (int i = 0; i < 4; ++i) for (T *t : {&f.z[i], &f.x[i], &f.y[i]}) { *t = T({qlten::InverseIndex(b), qlten::InverseIndex(l.phys), l.phys, b}); t->div_ = Q(); tn::fill<E, Q>(*t, Q(), g, 0); } return f; }
Gates at_h(const Fam &f, const Loc &l, double h) { Gates w; for (int i = 0; i < 4; ++i) { w[i] = f.z[i]; size_t d = l.d; for (size_t a = 0; a < 2; ++a) for (size_t p = 0; p < d; ++p) for (size_t q = 0; q < d; ++q) for (size_t b = 0; b < 2; ++b) { size_t k = ((a * d + p) * d + q) * 2 + b; w[i].d_[k] = a == 0 && b == 0 ? E(p == q ? 1.0 : 0.0) + h * f.z[i].d_[k] : a == 0 ? h * f.x[i].d_[k] : b == 0 ? f.y[i].d_[k] : E(0.0); } } return w; }
LoopUpdateTruncatePara exact_para() { return LoopUpdateTruncatePara(ArnoldiParams(1e-10, 100), 1e-14, FullEnvironmentTruncateParams(1, 200, 0, 1e-12, 0, cgp())); }
using X = LoopUpdateExecutor<E, Q>;
PBT_PROP(loop_sweep, 40, 1500, "more than one plaquette contributes to the sweep") {
  Setup st = setup(s, 6); if (st.N() > 6) return; bool prod = st.pbc || s.boolean(); if (prod) st.p = random_peps(st.g, st.l, st.R, st.Cc, st.pbc, 1, 0, false); P &p = st.p; if (dead(p)) return; p.NormalizeAllTensor(); CV psi = dense(p); double n0 = nrm(psi); if (!(n0 > 1e-6)) return; size_t gr = st.pbc ? st.R : st.R - 1, gc = st.pbc ? st.Cc : st.Cc - 1; bool expo = s.boolean(); double h = 1e-3; DuoMatrix<Gates> w[2] = {DuoMatrix<Gates>(gr, gc), DuoMatrix<Gates>(gr, gc)}; CV k(psi.size(), 0.0); double kn = 0;
  for (size_t r = 0; r < gr; ++r) for (size_t c = 0; c < gc; ++c) { Fam f = family(st.g, st.l); for (int q = 0; q < 2; ++q) w[q]({r, c}) = at_h(f, st.l, q ? h : -h); Mat a = dense_gate(st.l, w[1]({r, c})), b = dense_gate(st.l, w[0]({r, c})); for (size_t i = 0; i < a.m.size(); ++i) a.m[i] = (a.m[i] - b.m[i]) / (2 * h); kn += nrm(a); CV v = apply(psi, st.N(), st.l, loop_ids(st, r, c), a); for (size_t i = 0; i < k.size(); ++i) k[i] += v[i]; }
  CV f[2]; double e0 = 0, en = 0; for (int q = 0; q < 2; ++q) { double tau = q ? h : -h; LoopUpdatePara pa(exact_para(), 1, tau, expo ? LoopGateType::kExponential : LoopGateType::kFirstOrder); std::unique_ptr<X> x; try { Quiet z; x = std::make_unique<X>(pa, w[q], p); x->Execute(); } catch (const LoopExit &) { s.label("gauge not fixed"); return; } auto &m = x->GetStepMetrics().at(0); f[q] = dense(x->GetPEPS()); for (auto &z : f[q]) z *= std::exp(-m.estimated_en * tau); e0 += m.estimated_e0 / 2; en += m.estimated_en / 2; }
  double er = 0, ei = 0; for (size_t i = 0; i < k.size(); ++i) { er += std::norm((f[1][i] - f[0][i]) / (2 * h) - k[i]); ei += std::norm((f[1][i] + f[0][i]) / 2.0 - psi[i]); } double tol = (1e-4 + 5 * h * h * kn * kn) * (1 + kn) * n0; s.note(" err " + pbt::show(std::sqrt(er)) + "/" + pbt::show(tol));
  PBT_ASSERT(std::sqrt(ei) <= tol, "a sweep of gates close to one does not leave the state alone: off by " + pbt::show(std::sqrt(ei))); PBT_ASSERT(std::sqrt(er) <= tol, "a sweep does not apply every plaquette gate once: derivative off by " + pbt::show(std::sqrt(er)) + " of " + pbt::show(nrm(k)) + " (tolerance " + pbt::show(tol) + ")");
  if (prod && !st.pbc) { double want = -(dot(psi, k) / dot(psi, psi)).real(); PBT_ASSERT(std::abs(e0 - want) <= 1e-3 * (1 + kn) * (1 + kn), "estimated energy of a product state " + pbt::show(e0) + ", exact " + pbt::show(want)); s.label("energy"); } if (gr * gc > 1) s.nontrivial();
}
// larger lattices: the energy of a product state collects every plaquette once
PBT_PROP(loop_places, 16, 800, "at least nine plaquettes in the sweep") {
  Loc l = make_loc(2); bool pbc = s.boolean(); size_t R, Cc; if (pbc) { R = 2 * s.urange(1, 3); Cc = 2 * s.urange(1, 3); } else { R = s.urange(2, 6); Cc = s.urange(2, 6); } std::mt19937_64 g(s.draw(1u << 30)); Setup st{l, R, Cc, pbc, g, random_peps(g, l, R, Cc, pbc, 1, 0, false)}; P &p = st.p; if (dead(p)) return; p.NormalizeAllTensor(); s.note(std::to_string(R) + "x" + std::to_string(Cc) + (pbc ? " periodic" : " open"));
  size_t gr = pbc ? R : R - 1, gc = pbc ? Cc : Cc - 1; double h = 1e-3, want = 0, kn = 0; bool expo = s.boolean(); DuoMatrix<Gates> w[2] = {DuoMatrix<Gates>(gr, gc), DuoMatrix<Gates>(gr, gc)}; auto tau = [&](int q) { return q ? h : -h; };
  for (size_t r = 0; r < gr; ++r) for (size_t c = 0; c < gc; ++c) { Fam f = family(st.g, l); CV th = plaquette(p, r, c); for (int q = 0; q < 2; ++q) { w[q]({r, c}) = at_h(f, l, tau(q)); Mat G = dense_gate(l, w[q]({r, c})); double ov = (dot(th, local_apply(G, th)) / dot(th, th)).real(); want += (1 - ov) / tau(q) / 2; for (size_t i = 0; i < G.D; ++i) G.at(i, i) -= 1.0; kn = std::max(kn, nrm(G) / h); } }
  double e0 = 0, en = 0; for (int q = 0; q < 2; ++q) { LoopUpdateTruncatePara tp(ArnoldiParams(1e-10, 100), 1e-10, FullEnvironmentTruncateParams(1, 2, 1e-12, 1e-10, 10, cgp(1e-6))); std::unique_ptr<X> x; try { Quiet z; x = std::make_unique<X>(LoopUpdatePara(tp, 1, tau(q), expo ? LoopGateType::kExponential : LoopGateType::kFirstOrder), w[q], p); x->Execute(); } catch (const LoopExit &) { s.label("gauge not fixed"); return; } catch (const std::runtime_error &) { s.label("CG not converged"); return; } auto &m = x->GetStepMetrics().at(0); e0 += m.estimated_e0 / 2; en += m.estimated_en / 2; }
  double tol = 3e-4 * (1 + kn) * std::sqrt(double(gr * gc)); s.note(" energy " + pbt::show(e0) + ", en " + pbt::show(en) + ", exact " + pbt::show(want) + ", tolerance " + pbt::show(tol)); PBT_ASSERT(std::abs(e0 - want) <= tol, "energy of a product state " + pbt::show(e0) + ", exact " + pbt::show(want)); if (gr * gc >= 9) s.nontrivial();
}
std::vector<std::vector<double>> weights(const P &p) { std::vector<std::vector<double>> o; for (auto *L : {&p.lambda_vert, &p.lambda_horiz}) for (auto &x : *L) { std::vector<double> d; for (size_t i = 0; i < x.GetShape()[0]; ++i) d.push_back(x({i, i})); o.push_back(d); } return o; }
// largest relative change of the weights of one bond; negative when dimensions changed
double drift(const std::vector<std::vector<double>> &a, const std::vector<std::vector<double>> &b) { double dr = 0; for (size_t i = 0; i < b.size(); ++i) { if (b[i].size() != a[i].size()) return -1; double dd = 0, nn = 0; for (size_t j = 0; j < b[i].size(); ++j) { dd += std::pow(b[i][j] - a[i][j], 2); nn += std::pow(a[i][j], 2); } dr = std::max(dr, std::sqrt(dd / nn)); } return dr; }
PBT_PROP(loop_run, 60, 2000, "at least two sweeps ran") {
  Setup st = setup(s, 6); if (st.N() > 6) return; P &p = st.p; if (dead(p)) return; p.NormalizeAllTensor(); if (!(nrm(dense(p)) > 1e-6)) return; size_t gr = st.pbc ? st.R : st.R - 1, gc = st.pbc ? st.Cc : st.Cc - 1; double eps = s.pick(std::vector<double>{0.05, 0.01, 0.0}); DuoMatrix<Gates> w(gr, gc); for (size_t r = 0; r < gr; ++r) for (size_t c = 0; c < gc; ++c) w({r, c}) = random_gates(st.g, st.l, eps, {2, 2, 2, 2});
  double tau = s.pick(std::vector<double>{0.1, 0.0125, 0.01}); size_t dmax = 2 + s.draw(2), steps = s.urange(0, 5); bool expo = s.boolean(), adv = s.boolean(), emit = s.boolean(); LoopUpdatePara::AdvancedStopConfig cfg{s.pick(std::vector<double>{0.0, 1e-2, 1.0, 10.0}), s.pick(std::vector<double>{0.0, 1e-3, 0.5}), s.pick(std::vector<double>{1e-3, 0.05, 0.5, 10.0}), s.urange(1, 3), s.urange(1, 4)}; LoopUpdateTruncatePara tp(ArnoldiParams(1e-10, 100), 1e-10, FullEnvironmentTruncateParams(1, dmax, 1e-12, 1e-10, 10, cgp(1e-6))); auto gt = expo ? LoopGateType::kExponential : LoopGateType::kFirstOrder;
  if (adv && s.chance(1, 2)) {   // tolerances next to the changes a pilot run shows
    steps = s.urange(3, 8); std::vector<double> e; std::vector<std::vector<std::vector<double>>> wt; { Quiet q; std::unique_ptr<X> y; LoopUpdatePara pp(tp, steps, tau, gt); pp.step_observer = [&](const LoopUpdateStepMetrics<double> &m) { e.push_back(m.estimated_e0); wt.push_back(weights(y->GetPEPS())); }; try { y = std::make_unique<X>(pp, w, p); y->Execute(); } catch (const LoopExit &) { return; } catch (const std::runtime_error &) { return; } }
    std::vector<double> de, rl, dr; for (size_t k = 1; k < e.size(); ++k) { double x = drift(wt[k - 1], wt[k]); if (x < 0 || !std::isfinite(e[k]) || !std::isfinite(e[k - 1])) continue; de.push_back(std::abs(e[k] - e[k - 1])); rl.push_back(de.back() / std::max({1.0, std::abs(e[k]), std::abs(e[k - 1])})); dr.push_back(x); }
    if (!de.empty()) { auto near = [&](const std::vector<double> &v) { return s.pick(v) * (1 + s.pick(std::vector<double>{1e-4, -1e-4, 1e-6, -1e-6, 0.02, -0.02})); }; int m = (int) s.draw(3); cfg.energy_abs_tol = m == 0 ? near(de) : 0; cfg.energy_rel_tol = m == 0 ? 0 : m == 1 ? near(rl) : 1e3; cfg.lambda_rel_tol = m == 2 || s.chance(1, 3) ? near(dr) : 1e3; s.label("calibrated"); }
  }
  LoopUpdatePara para = !adv ? LoopUpdatePara(tp, steps, tau, gt) : s.boolean() ? LoopUpdatePara(tp, steps, tau, cfg, gt) : LoopUpdatePara::Advanced(tp, steps, tau, cfg.energy_abs_tol, cfg.energy_rel_tol, cfg.lambda_rel_tol, cfg.patience, cfg.min_steps, gt);
  if (adv && s.chance(1, 6)) { auto bad = cfg; switch (s.draw(5)) { case 0: bad.energy_abs_tol = -1e-3; break; case 1: bad.energy_rel_tol = -1e-3; break; case 2: bad.lambda_rel_tol = -1; break; case 3: bad.patience = 0; break; default: bad.min_steps = 0; } para.advanced_stop = bad; bool threw = false; P after = p; { Quiet q; X x(para, w, p); try { x.Execute(); } catch (const std::invalid_argument &) { threw = true; } after = x.GetPEPS(); } PBT_ASSERT(threw, "invalid stopping parameters accepted"); PBT_ASSERT(peps_diff(p, after).empty(), "rejected run changed the state"); s.label("invalid parameters"); return; }
  std::unique_ptr<X> x; std::vector<LoopUpdateStepMetrics<double>> seen; std::vector<std::vector<std::vector<double>>> lw; std::vector<std::pair<size_t, size_t>> dims; std::vector<P> snap; para.step_observer = [&](const LoopUpdateStepMetrics<double> &m) { seen.push_back(m); lw.push_back(weights(x->GetPEPS())); dims.push_back(x->GetPEPS().GetMinMaxBondDim()); snap.push_back(x->GetPEPS()); }; para.emit_machine_readable_metrics = emit;
  std::stringstream out; auto *ob = std::cout.rdbuf(out.rdbuf()); auto fl = std::cout.flags(); auto pr = std::cout.precision(); bool gave = false; try { x = std::make_unique<X>(para, w, p); x->Execute(); } catch (const LoopExit &) { gave = true; } catch (const std::runtime_error &) { gave = true; } catch (...) { std::cout.rdbuf(ob); throw; } std::cout.rdbuf(ob); std::cout.flags(fl); std::cout.precision(pr); if (gave) { s.label("gave up"); return; }
  auto &sm = x->GetLastRunSummary(); auto &mt = x->GetStepMetrics(); size_t n = mt.size(); PBT_ASSERT(seen.size() == n && sm.executed_steps == n && x->LastRunExecutedSteps() == n && n <= steps, "step counts disagree"); size_t streak = 0, stop = steps; bool conv = false, unsure = false;
  for (size_t k = 0; k < n; ++k) {
    auto &a = mt[k]; auto &b = seen[k]; PBT_ASSERT(a.step_index == k && b.step_index == k && a.tau == tau && b.tau == tau && (a.estimated_e0 == b.estimated_e0 || a.estimated_e0 != a.estimated_e0) && (a.estimated_en == b.estimated_en || a.estimated_en != a.estimated_en) && a.trunc_err == b.trunc_err && a.bond_dim_changed == b.bond_dim_changed && a.elapsed_sec == b.elapsed_sec && a.elapsed_sec >= 0, "callback and record of step " + std::to_string(k) + " differ"); PBT_ASSERT(a.bond_dim_changed == (k > 0 && dims[k] != dims[k - 1]), "bond_dim_changed of step " + std::to_string(k)); PBT_ASSERT(dims[k].second <= dmax, "bond dimension above Dmax"); if (!std::isfinite(a.estimated_e0)) unsure = true;
    bool ok = false; if (adv && k > 0 && !conv) { double dr = drift(lw[k - 1], lw[k]); bool same = dr >= 0; double de = std::abs(mt[k].estimated_e0 - mt[k - 1].estimated_e0), tl = std::max(cfg.energy_abs_tol, cfg.energy_rel_tol * std::max({1.0, std::abs(mt[k].estimated_e0), std::abs(mt[k - 1].estimated_e0)})); ok = same && de <= tl && dr <= cfg.lambda_rel_tol && k + 1 >= cfg.min_steps; if (same && (std::abs(de - tl) < 1e-12 + 1e-14 * std::abs(mt[k].estimated_e0) || std::abs(dr - cfg.lambda_rel_tol) < 1e-12)) unsure = true; }
    streak = ok ? streak + 1 : 0; if (adv && ok && streak >= cfg.patience && !conv) { conv = true; stop = k + 1; }
  }
  if (!unsure) { PBT_ASSERT(n == std::min(stop, steps), "stopped after " + std::to_string(n) + " sweeps, the criterion says " + std::to_string(std::min(stop, steps))); PBT_ASSERT(sm.converged == conv && x->LastRunConverged() == conv && sm.stop_reason == (conv ? X::StopReason::kAdvancedConverged : X::StopReason::kMaxSteps), "stop reason"); }
  if (n && !unsure) { PBT_ASSERT(sm.final_energy && *sm.final_energy == mt.back().estimated_e0 && sm.final_estimated_e0 == sm.final_energy && sm.final_estimated_en && *sm.final_estimated_en == mt.back().estimated_en && x->GetEstimatedEnergy() == mt.back().estimated_e0, "final energies"); PBT_ASSERT(peps_diff(snap.back(), x->GetPEPS()).empty(), "the final state is not the state after the last sweep"); }
  if (!n) PBT_ASSERT(!sm.final_energy && peps_diff(p, x->GetPEPS()).empty(), "a run of no steps changed the state");
  // one plaquette: the sweep is the projection
  if (n && gr * gc == 1 && !unsure) { P q = p; for (size_t k = 0; k < n; ++k) { std::pair<double, double> res; { Quiet z; res = q.LocalSquareLoopProject(w({0, 0}), {0, 0}, tp, false); } double e = expo ? -std::log(res.second) / tau : (1 - res.second) / tau; PBT_ASSERT(std::abs(e - mt[k].estimated_e0) <= 1e-9 * (1 + std::abs(e)), "energy of step " + std::to_string(k) + " is " + pbt::show(mt[k].estimated_e0) + ", the projection gives " + pbt::show(e)); double en = -std::log(res.first) / tau; PBT_ASSERT(std::abs(en - mt[k].estimated_en) <= 1e-9 * (1 + std::abs(en)), "norm-based energy of step " + std::to_string(k)); } s.label("one plaquette"); }
  if (emit) { size_t k = 0; std::string line; while (std::getline(out, line)) { size_t at = line.find("LU_METRIC"); if (at == std::string::npos) continue; PBT_ASSERT(k < n, "more metric lines than steps"); std::map<std::string, std::string> kv; std::stringstream ls(line.substr(at)); std::string t; while (ls >> t) { size_t e = t.find('='); if (e != std::string::npos) kv[t.substr(0, e)] = t.substr(e + 1); } auto num = [&](const char *q) { try { return std::stod(kv[q]); } catch (...) { return 1e300; } }; if (std::isfinite(mt[k].estimated_e0)) PBT_ASSERT(num("step") == double(k) && std::abs(num("tau") - tau) <= 1e-6 * tau && std::abs(num("e0") - mt[k].estimated_e0) <= 1e-9 * (1 + std::abs(mt[k].estimated_e0)) && std::abs(num("en") - mt[k].estimated_en) <= 1e-9 * (1 + std::abs(mt[k].estimated_en)), "metric line disagrees with step " + std::to_string(k) + ": " + line.substr(at)); ++k; } PBT_ASSERT(k == n, "metric lines: " + std::to_string(k) + " for " + std::to_string(n) + " steps"); }
  if (s.chance(1, 4)) { std::string dir = pbt::ScratchDir() + "/lu"; bool ok; P q = p; { Quiet z; P keep = x->GetPEPS(); ok = x->DumpResult(dir, s.boolean()) && q.Load(dir); std::string d = peps_diff(keep, q); PBT_ASSERT(ok && d.empty(), "DumpResult cannot be read back: " + d); } std::filesystem::remove_all(dir); }
  if (n >= 2) s.nontrivial(); if (conv) s.label("converged early");
}
PBT_PROP(loop_reject, 15, 400, "a wrong shape was refused") {
  std::mt19937_64 g(s.draw(1u << 30)); Loc l = make_loc(2); bool pbc = s.boolean(); size_t R = s.urange(2, 5), Cc = s.urange(2, 5); bool odd = pbc && (R % 2 || Cc % 2); P p = random_peps(g, l, R, Cc, pbc, 1, 0, false); size_t gr = pbc ? R : R - 1, gc = pbc ? Cc : Cc - 1; bool wrong = !odd && s.boolean(); if (wrong) switch (s.draw(4)) { case 0: ++gr; break; case 1: ++gc; break; case 2: if (gr > 1) --gr; else ++gr; break; default: if (gc > 1) --gc; else ++gc; } s.note(std::to_string(R) + "x" + std::to_string(Cc) + (pbc ? " periodic" : " open") + " gates " + std::to_string(gr) + "x" + std::to_string(gc));
  DuoMatrix<Gates> w(gr, gc); Gates one = random_gates(g, l, 0.1, {2, 2, 2, 2}); for (size_t r = 0; r < gr; ++r) for (size_t c = 0; c < gc; ++c) w({r, c}) = one; bool threw = false; try { Quiet q; X x(LoopUpdatePara(exact_para(), 1, 0.1), w, p); } catch (const std::invalid_argument &) { threw = true; } PBT_ASSERT(threw == (wrong || odd), threw ? "a correct set of gates was refused" : "wrong shape accepted");
  if (!pbc) { P b = p; bool t2 = false; size_t r = s.urange(0, R - 1), c = s.urange(0, Cc - 1); if (s.boolean()) r = R - 1; else c = Cc - 1; try { Quiet q; p.LocalSquareLoopProject(one, {r, c}, exact_para(), false); } catch (const std::invalid_argument &) { t2 = true; } PBT_ASSERT(t2 && peps_diff(b, p).empty(), "a plaquette across the open boundary was not refused"); } if (threw) s.nontrivial();
}
}  // namespace
