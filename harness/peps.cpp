// C34: Gamma-lambda states. C35: gate projections. C36: simple-update executors.
#include <set>
#include <map>
#include <filesystem>
#include <functional>
#include <memory>
#include <sstream>
#include "peps.hpp"
#ifndef ONLY
#define ONLY 0
#endif
using namespace pe;
namespace {
struct Setup { Loc l; size_t R, Cc; bool pbc; std::mt19937_64 g; P p; size_t N() const { return R * Cc; } };
size_t budget(const Loc &l) { return l.d == 2 ? 9 : 6; }
Setup setup(Src &s, size_t lo = 2, bool allow_pbc = true, size_t dmax = 2) {
  Loc l = make_loc(s.chance(1, 4) ? 3 : 2); bool pbc = allow_pbc && s.chance(1, 3); size_t R = s.urange(lo, 4), Cc = s.urange(lo, 4), cap = s.chance(1, 5) ? budget(l) : 6; while (R * Cc > cap) (R > Cc ? R : Cc)--; if (pbc) { R = std::max<size_t>(R, 2); Cc = std::max<size_t>(Cc, 2); }
  std::mt19937_64 g(s.draw(1u << 30)); int kind = (int) s.draw(3); size_t dm = R * Cc > 6 || l.d > 2 ? std::min<size_t>(dmax, 1 + s.draw(2)) : dmax; P p(l.phys, R, Cc);
  if (kind == 2) { std::vector<std::vector<size_t>> a(R, std::vector<size_t>(Cc)); for (auto &r : a) for (auto &x : r) x = g() % l.d; p = P(l.phys, R, Cc, pbc ? BoundaryCondition::Periodic : BoundaryCondition::Open); Quiet q; p.Initial(a); }
  else p = random_peps(g, l, R, Cc, pbc, dm, s.pick(std::vector<int>{0, 1, 0}), s.boolean());
  s.note(std::to_string(R) + "x" + std::to_string(Cc) + (pbc ? " periodic" : " open") + " d=" + std::to_string(l.d) + (kind == 2 ? " product state" : " random")); s.label(pbc ? "periodic" : "open"); s.label(kind == 2 ? "product state" : "random state");
  return {l, R, Cc, pbc, g, p};
}
double min_weight(const P &p) { double m = 1; for (auto *L : {&p.lambda_horiz, &p.lambda_vert}) for (size_t r = 0; r < L->rows(); ++r) for (size_t c = 0; c < L->cols(); ++c) { const DT &x = (*L)({r, c}); for (size_t i = 0; i < x.GetShape()[0]; ++i) m = std::min(m, std::abs(x({i, i}))); } return m; }
// elements of the largest intermediate of the dense contraction and of the local environment
double cost(const Setup &st, const Path &q) {
  const P &p = st.p; double best = 0, phys = 1, th = 1; auto dim = [&](size_t r, size_t c, int leg) { return double(lam(p, r, c, leg).GetShape()[0]); };
  for (size_t i = 0; i < st.N(); ++i) { phys *= st.l.d; double b = phys; for (size_t j = 0; j < st.N(); ++j) { size_t r = j / st.Cc, c = j % st.Cc; size_t e = r * st.Cc + (c + 1) % st.Cc, so = (r + 1) % st.R * st.Cc + c; if ((j <= i) != (e <= i)) b *= dim(r, c, Ea); if ((j <= i) != (so <= i)) b *= dim(r, c, S); } best = std::max(best, b); }
  for (size_t k = 0; k < q.s.size(); ++k) { th *= st.l.d; for (int g = 0; g < 4; ++g) if (!(k + 1 < q.s.size() && g == q.leg[k]) && !(k && g == opp(q.leg[k - 1]))) th *= dim(q.s[k][0], q.s[k][1], g); }
  return std::max(best, th);
}
enum Op { HOR, VER, UR, UL, LR, LL }; const char *on[] = {"horizontal", "vertical", "upper-right triangle", "upper-left triangle", "lower-right triangle", "lower-left triangle"};
struct Act { Op op; SiteIdx arg; Path path; };
Act choose(Src &s, const Setup &st) {
  Op op = (Op) s.draw(6); size_t R = st.R, Cc = st.Cc; Act a; a.op = op; size_t r, c;
  if (st.pbc) { r = s.urange(0, R - 1); c = s.urange(0, Cc - 1); }
  else if (op == HOR) { r = s.urange(0, R - 1); c = s.urange(0, Cc - 2); } else if (op == VER) { r = s.urange(0, R - 2); c = s.urange(0, Cc - 1); } else if (op == UL || op == LL) { r = s.urange(0, R - 2); c = s.urange(0, Cc - 2); } else { r = s.urange(0, R - 2); c = s.urange(1, Cc - 1); }
  size_t r1 = (r + 1) % R, c1 = (c + 1) % Cc, c0 = (c + Cc - 1) % Cc; a.arg = {r, c};
  switch (op) {
    case HOR: a.path = {{{r, c}, {r, c1}}, {Ea}, {}}; break; case VER: a.path = {{{r, c}, {r1, c}}, {S}, {}}; break;
    case UR: a.path = {{{r, c0}, {r, c}, {r1, c}}, {Ea, S}, {}}; break; case UL: a.path = {{{r, c1}, {r, c}, {r1, c}}, {W, S}, {}}; break;
    case LR: a.path = {{{r, c}, {r1, c}, {r1, c0}}, {S, W}, {}}; break; case LL: a.path = {{{r, c}, {r1, c}, {r1, c1}}, {S, Ea}, {}}; break;
  }
  for (auto &x : a.path.s) a.path.ids.push_back(x[0] * Cc + x[1]); return a;
}
ProjectionRes<E> project(P &p, const Act &a, const T &gate, const SimpleUpdateTruncatePara &tp, const T &ham) {
  switch (a.op) { case HOR: return p.NearestNeighborSiteProject(gate, a.arg, HORIZONTAL, tp, ham); case VER: return p.NearestNeighborSiteProject(gate, a.arg, VERTICAL, tp, ham); case UR: return p.UpperRightTriangleProject(gate, a.arg, tp, ham); case UL: return p.UpperLeftTriangleProject(gate, a.arg, tp, ham); case LR: return p.LowerRightTriangleProject(gate, a.arg, tp, ham); default: return p.LowerLeftTriangleProject(gate, a.arg, tp, ham); }
}
#if ONLY == 0 || ONLY == 34
namespace fs = std::filesystem;
// a state whose bonds may carry either arrow direction: a few untruncated gates on a random or product state
void stir(Src &s, Setup &st) {
  int k = st.R > 1 && st.Cc > 1 ? (int) s.draw(3) : 0; for (int q = 0; q < k; ++q) { Act a = choose(s, st); std::set<size_t> u(a.path.ids.begin(), a.path.ids.end()); if (u.size() != a.path.s.size() || min_weight(st.p) < 1e-3 || cost(st, a.path) > 1e5) break; Mat h = random_herm(st.g, st.l, a.path.s.size(), false); CV th = vec(local_theta(st.p, a.path)); if (!(nrm(th) > 1e-100)) break; T gate; { Quiet z; gate = TaylorExpMatrix<E, Q>(0.3, ham_tensor(st.l, h)); } project(st.p, a, gate, SimpleUpdateTruncatePara(1, 400, 1e-20), T()); s.label("stirred"); }
}
bool broken(const P &p) { for (auto &g : p.Gamma) if (!(nrm(CV(g.d_.begin(), g.d_.end())) > 1e-100)) return true; return false; }
PBT_PROP(product_state, 60, 4000, "both physical states occur in the requested product state") {
  Setup st = setup(s, s.chance(1, 4) ? 1 : 2); if (s.boolean()) stir(s, st); std::vector<std::vector<size_t>> a(st.R, std::vector<size_t>(st.Cc)); size_t k = 0; std::set<size_t> used; for (auto &r : a) for (auto &x : r) { x = s.draw(st.l.d); k = k * st.l.d + x; used.insert(x); }
  if (s.boolean()) { HilbertSpaces<Q> hs(st.R, std::vector<IX>(st.Cc, st.l.phys)); st.p = P(hs, st.pbc ? BoundaryCondition::Periodic : BoundaryCondition::Open); }
  { Quiet q; st.p.Initial(a); } CV v = dense(st.p), w(v.size(), 0.0); PBT_ASSERT(v.size() == ipow(st.l.d, st.N()), "dense vector has an unexpected size");
  if (FERM) { PBT_ASSERT(std::abs(std::abs(v[k]) - 1) < 1e-12, "amplitude of the requested configuration is " + show(v[k])); v[k] = 1; } w[k] = 1; PBT_ASSERT(dist(v, w) < 1e-12, "Initial did not give the requested product state: off by " + pbt::show(dist(v, w)));
  auto mm = st.p.GetMinMaxBondDim(); PBT_ASSERT(mm.first == 1 && mm.second == 1 && st.p.GetMaxBondDim() == 1 && st.p.IsBondDimensionUniform(), "product state with bonds other than 1");
  PBT_ASSERT(st.p.Rows() == st.R && st.p.Cols() == st.Cc && is_pbc(st.p) == st.pbc, "shape"); for (auto &g : st.p.Gamma) PBT_ASSERT(g.GetIndex(4) == st.l.phys, "physical index changed");
  if (used.size() > 1) s.nontrivial();
}
PBT_PROP(conversions, 80, 4000, "a non-vanishing state with a bond dimension above one") {
  Setup st = setup(s); stir(s, st); P p0 = st.p; if (broken(p0)) return; CV v = dense(st.p); double big = 1; for (auto &g : st.p.Gamma) big *= nrm(CV(g.d_.begin(), g.d_.end())); double tol = 1e-10 * nrm(v) + 1e-13 * big / std::max(min_weight(st.p), 1e-6);
  TPS<E, Q> t = s.boolean() ? st.p.ToTPS() : ToTPS<E, Q>(st.p); PBT_ASSERT(peps_diff(p0, st.p).empty(), "ToTPS changed the state"); PBT_ASSERT(t.rows() == st.R && t.cols() == st.Cc && (t.GetBoundaryCondition() == BoundaryCondition::Periodic) == st.pbc, "ToTPS shape");
  double d = dist(dense(t), v); PBT_ASSERT(d <= tol, "ToTPS changed the wave function: off by " + pbt::show(d) + " of " + pbt::show(nrm(v)));
  SplitIndexTPS<E, Q> x = ToSplitIndexTPS<E, Q>(st.p), y = ToSplitIndexTPS<E, Q>(t); for (size_t r = 0; r < st.R; ++r) for (size_t c = 0; c < st.Cc; ++c) { PBT_ASSERT(x({r, c}).size() == st.l.d, "number of components"); for (size_t k = 0; k < st.l.d; ++k) PBT_ASSERT(x({r, c})[k].GetIndexes() == y({r, c})[k].GetIndexes() && x({r, c})[k].d_ == y({r, c})[k].d_, "conversion from PEPS differs from the conversion of its TPS"); }
  for (size_t r = 0; r < st.R; ++r) for (size_t c = 0; c < st.Cc; ++c) for (size_t k = 0; k < st.l.d; ++k) { const T &a = t({r, c}), &b = y({r, c})[k]; PBT_ASSERT(b.d_.size() * st.l.d == a.d_.size(), "component size"); for (size_t i = 0; i < b.d_.size(); ++i) PBT_ASSERT(std::abs(std::abs(b.d_[i]) - std::abs(a.d_[i * st.l.d + k])) == 0, "component " + std::to_string(k) + " is not the slice of the site tensor"); }
  P q = st.p; q.RegularizeIndexDir(); d = dist(dense(q), v); PBT_ASSERT(d <= tol, "RegularizeIndexDir changed the wave function: off by " + pbt::show(d)); for (size_t r = 0; r < st.R; ++r) for (size_t c = 0; c < st.Cc; ++c) { const T &g = q.Gamma({r, c}); for (int k = 0; k < 4; ++k) { const DT &L = lam(q, r, c, k); PBT_ASSERT(L.GetIndex(0).GetDir() == IN && L.GetIndex(1).GetDir() == OUT, "RegularizeIndexDir left a bond pointing the wrong way"); PBT_ASSERT(g.GetIndex(k) == (k == W || k == No ? qlten::InverseIndex(L.GetIndex(1)) : qlten::InverseIndex(L.GetIndex(0))), "RegularizeIndexDir left mismatched legs"); } }
  P n = st.p; double f = n.NormalizeAllTensor(); CV w = dense(n); for (auto &z : w) z *= f; PBT_ASSERT(dist(w, v) <= tol, "NormalizeAllTensor: state times the returned factor differs by " + pbt::show(dist(w, v))); for (auto &g : n.Gamma) PBT_ASSERT(std::abs(nrm(CV(g.d_.begin(), g.d_.end())) - 1) < 1e-12, "site tensor not normalised"); for (auto *L : {&n.lambda_horiz, &n.lambda_vert}) for (auto &g : *L) PBT_ASSERT(std::abs(nrm(CV(g.d_.begin(), g.d_.end())) - 1) < 1e-12, "bond tensor not normalised");
  if (st.p.GetMaxBondDim() > 1 && nrm(v) > 1e-8 * big) s.nontrivial();
}
P fresh(const Setup &st) { return P(st.l.phys, st.R, st.Cc, st.pbc ? BoundaryCondition::Periodic : BoundaryCondition::Open); }
PBT_PROP(state_history, 60, 3000, "at least one dump was read back and one copy was independent") {
  Setup st = setup(s, s.chance(1, 4) ? 1 : 2); if (st.R > 1 && st.Cc > 1) stir(s, st); P &p = st.p; std::map<std::string, P> disk; std::string dir = pbt::ScratchDir() + "/peps"; fs::remove_all(dir); fs::create_directories(dir); int n = (int) s.urange(3, 14); bool loaded = false, indep = false; std::vector<std::pair<P, P>> kept; P model = p;
  for (int k = 0; k < n; ++k) {
    switch (s.draw(8)) {
      case 0: case 1: { std::string nm = s.pick(std::vector<std::string>{"a", "b", "n/c"}), path = dir + "/" + nm + (s.chance(1, 3) ? "/" : ""); bool ok, rel = false; std::set<std::string> pre; for (auto &e : fs::directory_iterator(dir)) pre.insert(e.path().string()); int kind = (int) s.draw(3); { Quiet q; if (kind == 0) ok = static_cast<const P &>(p).Dump(path); else if (kind == 1) ok = p.Dump(path); else { rel = s.boolean(); ok = p.Dump(path, rel); } }
        PBT_ASSERT(ok, "Dump failed"); disk.insert_or_assign(nm, model); for (auto &e : fs::directory_iterator(dir)) PBT_ASSERT(pre.count(e.path().string()) || e.is_directory(), "Dump wrote outside the given folder: " + e.path().filename().string()); if (rel) { p = model; s.label("released"); } s.label(kind == 0 ? "const dump" : "dump"); break; }
      case 2: { if (disk.empty()) break; auto it = disk.begin(); std::advance(it, s.draw(disk.size())); P q = s.boolean() ? fresh(st) : p; bool ok; { Quiet z; ok = q.Load(dir + "/" + it->first); } PBT_ASSERT(ok, "Load failed after a successful Dump to " + it->first); std::string d = peps_diff(it->second, q); PBT_ASSERT(d.empty(), "Load(Dump) differs: " + d); PBT_ASSERT(q == it->second && !(q != it->second), "loaded state compares unequal"); if (s.boolean()) { p = q; model = it->second; } loaded = true; break; }
      case 3: { if (disk.empty()) break; auto it = disk.begin(); std::advance(it, s.draw(disk.size())); std::vector<fs::path> fl; for (auto &e : fs::directory_iterator(dir + "/" + it->first)) if (e.path().extension() == ".qlten") fl.push_back(e.path()); std::sort(fl.begin(), fl.end()); if (fl.empty()) break; fs::remove(fl[s.draw(fl.size())]); P q = fresh(st); bool ok; { Quiet z; ok = q.Load(dir + "/" + it->first); } PBT_ASSERT(!ok, "Load reports success although a tensor file is missing"); fs::remove_all(dir + "/" + it->first); disk.erase(it); s.label("missing file"); break; }
      case 4: { P c = p; PBT_ASSERT(c == p && !(c != p), "copy compares unequal"); int w = (int) s.draw(4); size_t r = s.draw(st.R), cc = s.draw(st.Cc); auto bump = [&](auto &t) { if (t.d_.empty()) return false; size_t i = 0; while (i < t.d_.size() && t.d_[i] == 0.0) ++i; if (i == t.d_.size()) return false; t.d_[i] *= 1.5; return true; }; bool did = w == 0 ? bump(c.Gamma({r, cc})) : w == 1 ? bump(c.GetLambdaHorizEast(r, cc)) : w == 2 ? bump(c.GetLambdaVertSouth(r, cc)) : bump(c.GetLambdaHorizWest(r, cc)); if (did) { PBT_ASSERT(c != p && !(c == p), "states differing in one tensor compare equal"); std::string d = peps_diff(model, p); PBT_ASSERT(d.empty(), "changing a copy changed the original: " + d); indep = true; } break; }
      case 5: { P c = p; std::string d; if (s.boolean()) { P m(std::move(c)); d = peps_diff(model, m); PBT_ASSERT(d.empty() && m == p, "move construction changed the state: " + d); p = std::move(m); } else { P m = s.boolean() ? fresh(st) : P(st.l.phys, st.R + 1, st.Cc, st.pbc ? BoundaryCondition::Open : BoundaryCondition::Periodic); m = std::move(c); d = peps_diff(model, m); PBT_ASSERT(d.empty() && m == p, "move assignment changed the state: " + d); P o(st.l.phys, st.R, st.Cc + 1, st.pbc ? BoundaryCondition::Open : BoundaryCondition::Periodic); PBT_ASSERT(o != p, "states of different shape compare equal"); o = m; d = peps_diff(model, o); PBT_ASSERT(d.empty() && o == p, "copy assignment changed the state: " + d); p = o; } break; }
      case 6: { size_t lo = 1u << 30, hi = 0; std::set<size_t> inner; for (size_t r = 0; r < st.R; ++r) for (size_t c = 0; c < st.Cc; ++c) for (int g = 0; g < 4; ++g) { size_t D = lam(p, r, c, g).GetShape()[0]; lo = std::min(lo, D); hi = std::max(hi, D); bool edge = !st.pbc && ((g == W && c == 0) || (g == Ea && c + 1 == st.Cc) || (g == No && r == 0) || (g == S && r + 1 == st.R)); if (!edge) inner.insert(D); } auto mm = p.GetMinMaxBondDim(); PBT_ASSERT(mm.first == lo && mm.second == hi && p.GetMaxBondDim() == hi, "bond dimensions reported as " + std::to_string(mm.first) + ".." + std::to_string(mm.second) + ", they are " + std::to_string(lo) + ".." + std::to_string(hi)); if (st.R > 1 && st.Cc > 1) PBT_ASSERT(p.IsBondDimensionUniform() == (inner.size() == 1), "uniformity of the bond dimension"); break; }
      case 7: if (st.R > 1 && st.Cc > 1) { stir(s, st); model = p; } break;
    }
    std::string d = peps_diff(model, p); PBT_ASSERT(d.empty(), "state changed: " + d);
  }
  fs::remove_all(dir); if (loaded && indep) s.nontrivial();
}
#endif
#if ONLY == 0 || ONLY == 35
// three sites cut at both bonds one after the other: fewest states, at least dmin and at most dmax, that discard no more than te
struct Cuts { size_t D[2]; double err = 0; bool sure = true; };
Cuts two_cuts(const P &p, const Path &path, const CV &g2, bool fwd, size_t dmin, size_t dmax, double te) {
  T t = local_theta(p, path); t.d_.assign(t.d_.size(), E(0)); for (size_t i = 0; i < g2.size(); ++i) t.d_[i] = mk(g2[i]); t.Transpose({0, 3, 4, 5, 1, 6, 7, 2, 8, 9, 10}); CV v = vec(t); std::vector<size_t> sh(t.GetShape().begin(), t.GetShape().end()); Cuts o; size_t L[2] = {1, 1}; for (size_t i = 0; i < 7; ++i) { if (i < 4) L[0] *= sh[i]; L[1] *= sh[i]; }
  for (int q = 0; q < 2; ++q) { int b = fwd ? q : 1 - q; size_t l = L[b], r = v.size() / l; dla::Mat<cd> M(l, r), U, Vm; std::vector<double> sv; for (size_t i = 0; i < l; ++i) for (size_t j = 0; j < r; ++j) M(i, j) = v[i * r + j]; dla::svd(M, U, sv, Vm); std::vector<size_t> ix(sv.size()); for (size_t i = 0; i < ix.size(); ++i) ix[i] = i; std::sort(ix.begin(), ix.end(), [&](size_t x, size_t y) { return sv[x] > sv[y]; }); std::sort(sv.rbegin(), sv.rend()); double tot = 0; for (double x : sv) tot += x * x; for (double &x : sv) x /= std::sqrt(tot);
    size_t D = 0; double used = 1; while (D < sv.size() && D < dmax && (D < dmin || used > te)) { ++D; double u = 0; for (size_t i = D; i < sv.size(); ++i) u += sv[i] * sv[i]; used = u; if (std::abs(used - te) < 1e-9) o.sure = false; }
    if (sv[D - 1] < 1e-5 || (D < sv.size() && sv[D - 1] - sv[D] < 1e-5)) o.sure = false; o.D[b] = D; o.err = std::max(o.err, used);
    CV w(v.size(), 0.0); for (size_t k = 0; k < D; ++k) for (size_t j = 0; j < r; ++j) { cd c = 0; for (size_t i = 0; i < l; ++i) c += std::conj(U(i, ix[k])) * v[i * r + j]; for (size_t i = 0; i < l; ++i) w[i * r + j] += U(i, ix[k]) * c; } v = w; }
  return o;
}
PBT_PROP(projection_history, 150, 8000, "at least two gates changed a non-vanishing state") {
  Setup st = setup(s); P &p = st.p; CV psi = dense(p); int ops = (int) s.urange(1, 4), real = 0;
  for (int k = 0; k < ops; ++k) {
    Act a = choose(s, st); size_t n = a.path.s.size(); { std::set<size_t> u(a.path.ids.begin(), a.path.ids.end()); if (u.size() != n) continue; }
    bool anyg = !FERM && s.chance(1, 3); double tau = s.pick(std::vector<double>{0.1, 0.4, -0.3, 1e-3}); Mat h = random_herm(st.g, st.l, n, s.chance(1, 4), s.pick(std::vector<double>{1.0, 1.0, 3.0})), G = anyg ? random_any(st.g, st.l, n) : expm(h, -tau); bool he = s.boolean(); Mat hm = random_herm(st.g, st.l, n, false); T gate, ham; { Quiet q; gate = anyg ? gate_tensor(st.l, G) : TaylorExpMatrix<E, Q>(tau, ham_tensor(st.l, h)); } if (he) ham = ham_tensor(st.l, hm);
    bool trunc = k + 1 == ops && s.chance(1, 2); size_t dmax = trunc ? s.urange(1, 3) : 400, dmin = trunc ? s.urange(1, dmax) : 1; double te = trunc ? s.pick(std::vector<double>{0.0, 1e-4, 0.05}) : s.pick(std::vector<double>{1e-20, 1e-24}); SimpleUpdateTruncatePara tp(dmin, dmax, te, 1e-100); if (!trunc && s.boolean()) tp = SimpleUpdateTruncatePara(dmin, dmax, te);
    if (min_weight(p) < 1e-5 || cost(st, a.path) > 3e5) break;   // ill-conditioned gauge: amplitudes no longer determined to working precision
    double mw = min_weight(p); CV th0 = vec(local_theta(p, a.path)), g1 = local_apply(G, th0); double gn = nrm(g1); if (!(gn > 1e-8 * nrm(th0)) || gn < 1e-100) continue; P before = p; auto res = project(p, a, gate, tp, ham);
    std::string at = std::string(on[a.op]) + " at " + std::to_string(a.arg[0]) + "," + std::to_string(a.arg[1]) + (trunc ? " (truncated to " + std::to_string(dmax) + ")" : "") + ": ";
    PBT_ASSERT(std::abs(res.norm - gn) <= 1e-9 * gn, at + "norm " + pbt::show(res.norm) + " but |gate x local state| = " + pbt::show(gn));
    PBT_ASSERT(res.e_loc.has_value() == he, at + "local energy " + (he ? "missing" : "without a Hamiltonian"));
    CV g2 = g1; for (auto &z : g2) z /= gn; if (he) { cd e = dot(g2, local_apply(hm, g2)); PBT_ASSERT(std::abs(C(*res.e_loc) - e) <= 1e-9 * (1 + nrm(hm)), at + "local energy " + show(C(*res.e_loc)) + " but <H> in the local environment is " + show(e)); }
    std::set<const DT *> ch; size_t D = 0; for (size_t q = 0; q + 1 < n; ++q) { const DT &lm = lam(p, a.path.s[q][0], a.path.s[q][1], a.path.leg[q]); ch.insert(&lm); D = std::max(D, lm.GetShape()[0]); PBT_ASSERT(lm.GetShape()[0] <= dmax && lm.GetShape()[0] == lm.GetShape()[1], at + "bond dimension above the cap"); for (size_t i = 0; i < lm.GetShape()[0]; ++i) for (size_t j = 0; j < lm.GetShape()[0]; ++j) { double x = lm({i, j}); PBT_ASSERT(i == j ? (FERM ? x != 0 : x > 0) : x == 0, at + "weights not positive diagonal"); } }
    PBT_ASSERT(D == res.D, at + "reported dimension " + std::to_string(res.D) + " actual " + std::to_string(D));
    std::set<size_t> gs(a.path.ids.begin(), a.path.ids.end()); std::string df = peps_diff(before, p, gs, ch); PBT_ASSERT(df.empty(), at + "changed " + df); for (size_t q : gs) PBT_ASSERT(p.Gamma({q / st.Cc, q % st.Cc}).GetIndex(4) == st.l.phys, at + "physical index changed");
    CV th1 = vec(local_theta(p, a.path)); double e2 = std::pow(dist(th1, g2), 2);
    if (!trunc) {
      PBT_ASSERT(res.trunc_err <= 1e-12 && res.trunc_err >= 0, at + "truncation error " + pbt::show(res.trunc_err)); PBT_ASSERT(e2 <= 1e-18, at + "local state off by " + pbt::show(std::sqrt(e2)));
      CV want = apply(psi, st.N(), st.l, a.path.ids, G), got = dense(p); for (auto &z : got) z *= res.norm; double tol = 1e-8 + 1e-14 / (mw * mw), sc = nrm(want) + nrm(psi) * nrm(G) + 1e-300; PBT_ASSERT(dist(want, got) <= tol * sc, at + "state off by " + pbt::show(dist(want, got) / sc) + " (relative)"); psi = dense(p); if (nrm(want) > 1e-6 * sc) ++real; s.label(on[a.op]);
    } else {
      double er = res.trunc_err; PBT_ASSERT(er >= 0 && er < 1, at + "truncation error " + pbt::show(er));
      if (n == 2) { PBT_ASSERT(std::abs(e2 - er) <= 1e-9 + 1e-7 * er, at + "discarded weight " + pbt::show(e2) + " reported " + pbt::show(er)); double lm = 1; const DT &L = **ch.begin(); for (size_t i = 0; i < D; ++i) lm = std::min(lm, std::abs(L({i, i}))); if (D < dmax) PBT_ASSERT(er <= te + 1e-12, at + "more weight discarded than allowed: " + pbt::show(er) + " > " + pbt::show(te)); if (D > dmin) PBT_ASSERT(er + lm * lm >= te - 1e-12, at + "kept more states than needed"); if (D < dmin) PBT_ASSERT(er <= 1e-12, at + "kept " + std::to_string(D) + " states, fewer than the minimum " + std::to_string(dmin) + ", although weight " + pbt::show(er) + " was discarded"); }
      else {
        PBT_ASSERT(e2 <= 2 * er + 1e-9 && e2 >= er * 0.2 - 1e-9, at + "discarded weight " + pbt::show(e2) + " reported (max of two) " + pbt::show(er));
        size_t d1 = lam(p, a.path.s[0][0], a.path.s[0][1], a.path.leg[0]).GetShape()[0], d2 = lam(p, a.path.s[1][0], a.path.s[1][1], a.path.leg[1]).GetShape()[0]; bool ok = false, sure = true; std::string want;
        if (g2.size() > 20000) sure = false; else for (bool fwd : {true, false}) { Cuts q = two_cuts(before, a.path, g2, fwd, dmin, dmax, te); sure &= q.sure; ok |= q.D[0] == d1 && q.D[1] == d2 && std::abs(q.err - er) <= 1e-8; want += (want.empty() ? "" : " or ") + std::to_string(q.D[0]) + "," + std::to_string(q.D[1]) + " with error " + pbt::show(q.err); }
        if (sure) { PBT_ASSERT(ok, at + "kept " + std::to_string(d1) + "," + std::to_string(d2) + " states with error " + pbt::show(er) + "; limits " + std::to_string(dmin) + ".." + std::to_string(dmax) + ", " + pbt::show(te) + " ask for " + want); s.label("three-site limits"); }
      }
      s.label("truncated"); psi = dense(p);
    }
  }
  if (real >= 2) s.nontrivial();
}
#endif
#if ONLY == 0 || ONLY == 36
// a Hamiltonian as a list of (sites, matrix) terms together with the executor that is to evolve by it
struct Term { V sites; Mat m; };
struct Model { int kind; std::vector<Term> terms; double passes = 1; std::function<std::unique_ptr<SimpleUpdateExecutor<E, Q>>(const SimpleUpdatePara &, const P &)> make; std::string name; };
Mat symm(const Loc &l, const Mat &a) { Mat b = a; size_t d = l.d; auto sg = [&](size_t k) { return FERM && (l.ch[k / d] & 1) && (l.ch[k % d] & 1) ? -1.0 : 1.0; }; auto sw = [&](size_t k) { return (k % d) * d + k / d; }; for (size_t o = 0; o < a.D; ++o) for (size_t i = 0; i < a.D; ++i) b.at(o, i) = 0.5 * (a.at(o, i) + sg(o) * sg(i) * a.at(sw(o), sw(i))); return b; }
// operator on the listed positions of three sites, as a matrix on all three
Mat embed(const Loc &l, const Mat &a, const V &pos) { Mat r = zero(l, 3); for (size_t k = 0; k < r.D; ++k) { CV e(r.D, 0.0); e[k] = 1; CV w = apply(e, 3, l, pos, a); for (size_t o = 0; o < r.D; ++o) r.at(o, k) = w[o]; } return r; }
Mat sum(const Mat &a, const Mat &b) { Mat c = a; for (size_t i = 0; i < c.m.size(); ++i) c.m[i] += b.m[i]; return c; }
Model make_model(Src &s, Setup &st, bool diag, int kind, double f) {
  const Loc &l = st.l; size_t R = st.R, Cc = st.Cc; bool pbc = st.pbc; Model M; M.kind = kind; auto id = [Cc](size_t r, size_t c) { return r * Cc + c; };
  auto rnd = [&](size_t n) { return random_herm(st.g, l, n, diag, f); };
  if (kind <= 1) {   // nearest neighbours: uniform (0) or bond dependent (1); optional on-site terms
    size_t hc = pbc ? Cc : Cc - 1, vr = pbc ? R : R - 1; Mat h0 = rnd(2); int os = (int) s.draw(kind == 0 ? 3 : 2); Mat o0 = rnd(1); auto hz = std::make_shared<TenMatrix<T>>(R, hc), vt = std::make_shared<TenMatrix<T>>(vr, Cc), on = std::make_shared<TenMatrix<T>>(R, Cc); T tn = ham_tensor(l, h0), to = os == 1 ? ham_tensor(l, o0) : T();
    for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < hc; ++c) { Mat h = kind ? rnd(2) : h0; (*hz)({r, c}) = ham_tensor(l, h); M.terms.push_back({{id(r, c), id(r, (c + 1) % Cc)}, h}); }
    for (size_t r = 0; r < vr; ++r) for (size_t c = 0; c < Cc; ++c) { Mat h = kind ? rnd(2) : h0; (*vt)({r, c}) = ham_tensor(l, h); M.terms.push_back({{id(r, c), id((r + 1) % R, c)}, h}); }
    if (os) for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < Cc; ++c) { Mat o = os == 1 ? o0 : rnd(1); (*on)({r, c}) = ham_tensor(l, o); M.terms.push_back({{id(r, c)}, o}); }
    M.name = std::string(kind ? "bond-dependent" : "uniform") + " nearest neighbour" + (os == 0 ? "" : os == 1 ? " with uniform on-site terms" : " with site-dependent on-site terms");
    M.make = [=](const SimpleUpdatePara &p, const P &x) -> std::unique_ptr<SimpleUpdateExecutor<E, Q>> { using X = SquareLatticeNNSimpleUpdateExecutor<E, Q>; if (kind == 0) { if (os == 2) return std::make_unique<X>(p, x, tn, *on); return os ? std::make_unique<X>(p, x, tn, to) : std::make_unique<X>(p, x, tn); } return os ? std::make_unique<X>(p, x, *hz, *vt, to) : std::make_unique<X>(p, x, *hz, *vt); };
  } else if (kind == 2) {   // nearest + next-nearest neighbours, optional on-site terms
    Mat h1 = symm(l, rnd(2)), h2 = symm(l, rnd(2)), o0 = rnd(1); int os = (int) s.draw(3); auto on = std::make_shared<TenMatrix<T>>(R, Cc); T t1 = ham_tensor(l, h1), t2 = ham_tensor(l, h2), to = os == 1 ? ham_tensor(l, o0) : T(); size_t hc = pbc ? Cc : Cc - 1, vr = pbc ? R : R - 1;
    for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < Cc; ++c) { size_t r1 = (r + 1) % R, c1 = (c + 1) % Cc; if (c < hc) M.terms.push_back({{id(r, c), id(r, c1)}, h1}); if (r < vr) M.terms.push_back({{id(r, c), id(r1, c)}, h1}); if (c < hc && r < vr) { M.terms.push_back({{id(r, c), id(r1, c1)}, h2}); M.terms.push_back({{id(r, c1), id(r1, c)}, h2}); } if (os) { Mat o = os == 1 ? o0 : rnd(1); (*on)({r, c}) = ham_tensor(l, o); M.terms.push_back({{id(r, c)}, o}); } }
    M.name = std::string("next-nearest neighbour") + (os == 0 ? "" : os == 1 ? " with uniform on-site terms" : " with site-dependent on-site terms");
    M.make = [=](const SimpleUpdatePara &p, const P &x) -> std::unique_ptr<SimpleUpdateExecutor<E, Q>> { using X = SquareLatticeNNNSimpleUpdateExecutor<E, Q>; if (os == 2) return std::make_unique<X>(p, x, t1, t2, *on); return os ? std::make_unique<X>(p, x, t1, t2, to) : std::make_unique<X>(p, x, t1, t2); };
  } else {   // triangular lattice on the square PEPS: every sweep is two passes over all bonds
    Mat h = symm(l, rnd(2)); Mat tri = sum(sum(embed(l, h, {0, 1}), embed(l, h, {1, 2})), embed(l, h, {0, 2})); T th = ham_tensor(l, h), tt = ham_tensor(l, tri); M.passes = 2; M.name = "triangular lattice";
    for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < Cc; ++c) { if (c + 1 < Cc) M.terms.push_back({{id(r, c), id(r, c + 1)}, h}); if (r + 1 < R) M.terms.push_back({{id(r, c), id(r + 1, c)}, h}); if (c + 1 < Cc && r + 1 < R) M.terms.push_back({{id(r, c + 1), id(r + 1, c)}, h}); }
    M.make = [=](const SimpleUpdatePara &p, const P &x) -> std::unique_ptr<SimpleUpdateExecutor<E, Q>> { return std::make_unique<TriangleNNModelSquarePEPSSimpleUpdateExecutor<E, Q>>(p, x, th, tt); };
  }
  s.label(M.name); s.note(M.name + (diag ? ", diagonal" : "")); return M;
}
CV hpsi(const Model &M, const CV &psi, size_t N, const Loc &l) { CV o(psi.size(), 0.0); for (auto &t : M.terms) { CV w = apply(psi, N, l, t.sites, t.m); for (size_t i = 0; i < o.size(); ++i) o[i] += w[i]; } return o; }
double hnorm(const Model &M) { double x = 0; for (auto &t : M.terms) x += nrm(t.m); return x; }
// small lattices: the evolved state is kept without truncation (runs with truncation start from product states when charges are
// conserved: cutting a random symmetric state sector by sector may leave incompatible sectors, i.e. the zero state)
Setup small(Src &s, int kind, bool diag, bool run = false) {
  Loc l = make_loc(s.chance(1, 5) ? 3 : 2); bool pbc = kind < (run ? 3 : 2) && s.chance(1, 3); size_t R, Cc;
  { R = s.urange(2, 3); Cc = s.urange(2, 3); size_t cap = l.d == 3 || (kind >= 2 && pbc) ? 4 : kind >= 2 && !diag ? 6 : pbc ? 6 : 9; if (kind >= 2 && !pbc && l.d == 2 && s.chance(1, 6)) cap = 9; while (R * Cc > cap) (R > Cc ? R : Cc)--; }
  std::mt19937_64 g(s.draw(1u << 30)); int st = (int) s.draw(3); if ((kind >= 2 && !(SYM && diag && R * Cc <= 6)) || R * Cc > 6 || (SYM && run)) st = std::max(st, 1); P p(l.phys, 1, 1);
  if (st == 2) { std::vector<std::vector<size_t>> a(R, std::vector<size_t>(Cc)); for (auto &r : a) for (auto &x : r) x = g() % l.d; p = P(l.phys, R, Cc, pbc ? BoundaryCondition::Periodic : BoundaryCondition::Open); Quiet q; p.Initial(a); }
  else if (st == 1 && !SYM) p = random_peps(g, l, R, Cc, pbc, 1, 0, false); else if (st == 1) { std::vector<std::vector<size_t>> a(R, std::vector<size_t>(Cc)); for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < Cc; ++c) a[r][c] = (r + c) % l.d; p = P(l.phys, R, Cc, pbc ? BoundaryCondition::Periodic : BoundaryCondition::Open); Quiet q; p.Initial(a); }
  else if (SYM && diag) { bool b = s.boolean(); (void) b; std::vector<std::vector<size_t>> a(R, std::vector<size_t>(Cc)); for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < Cc; ++c) a[r][c] = (r + c) % l.d; p = P(l.phys, R, Cc, pbc ? BoundaryCondition::Periodic : BoundaryCondition::Open); Quiet q; p.Initial(a);
    // charge entangled along a tree of bonds: a random charged state carries several circulations round a loop, and repeated gates let all but one decay below any cut-off
    auto stir = [&](size_t r, size_t c, BondOrientation o) { if (g() % 4 == 0) return; T gate = TaylorExpMatrix<E, Q>(0.4, ham_tensor(l, random_herm(g, l, 2, false))); p.NearestNeighborSiteProject(gate, {r, c}, o, SimpleUpdateTruncatePara(1, 400, 1e-20), T()); };
    for (size_t r = 0; r < R; ++r) for (size_t c = 0; c + 1 < Cc; ++c) stir(r, c, HORIZONTAL); for (size_t r = 0; r + 1 < R; ++r) stir(r, 0, VERTICAL); }
  else p = random_peps(g, l, R, Cc, pbc, 2, 0, s.boolean());
  s.note(std::to_string(R) + "x" + std::to_string(Cc) + (pbc ? " periodic" : " open") + " d=" + std::to_string(l.d) + (st == 2 ? " basis state" : st == 1 ? " product state" : SYM && diag ? " tree" : " random")); s.label(pbc ? "periodic" : "open"); return {l, R, Cc, pbc, g, p};
}
bool dead(const P &p) { for (auto &g : p.Gamma) if (!(nrm(CV(g.d_.begin(), g.d_.end())) > 1e-100)) return true; return false; }
// one sweep with step tau: (dense state times the accumulated norm, e0, en)
struct Shot { CV f; double e0, en; double tr; size_t D; };
bool too_big(const P &p, const Loc &l) { Setup t{l, p.Rows(), p.Cols(), is_pbc(p), std::mt19937_64(), p}; return cost(t, Path{{SiteIdx{0, 0}}, {}, {}}) > 4e6; }
bool sweep(const Model &M, const P &p, const Loc &l, double tau, Shot &o) {
  std::unique_ptr<SimpleUpdateExecutor<E, Q>> x; { Quiet q; x = M.make(SimpleUpdatePara(1, tau, 1, 300, M.kind >= 2 ? 1e-16 : 1e-24), p); x->Execute(); } if (too_big(x->GetPEPS(), l)) return false;
  auto &m = x->GetStepMetrics().at(0); o.e0 = m.estimated_e0; o.en = m.estimated_en; o.tr = m.trunc_err.value_or(0); o.D = x->GetPEPS().GetMaxBondDim(); o.f = dense(x->GetPEPS()); double k = std::exp(-M.passes * tau * o.en); for (auto &z : o.f) z *= k; return true;
}
PBT_PROP(su_generator, 40, 1500, "the Hamiltonian moves the state and at least one bond grew") {
  int kind = (int) s.freq({3, 3, 4, 2}); Setup st = small(s, kind, false); if (dead(st.p)) return; st.p.NormalizeAllTensor(); Model M = make_model(s, st, false, kind, 0.3); CV psi = dense(st.p); double n0 = nrm(psi); if (!(n0 > 1e-6)) return;
  double h = 0.01; Shot a[4]; int k = 0; for (double t : {-2 * h, -h, h, 2 * h}) if (!sweep(M, st.p, st.l, t, a[k++])) return;
  CV d(psi.size()), c(psi.size()); for (size_t i = 0; i < d.size(); ++i) { d[i] = (a[0].f[i] - 8.0 * a[1].f[i] + 8.0 * a[2].f[i] - a[3].f[i]) / (12 * h); c[i] = (-a[0].f[i] + 4.0 * a[1].f[i] + 4.0 * a[2].f[i] - a[3].f[i]) / 6.0; }
  CV w = hpsi(M, psi, st.N(), st.l); double hn = M.passes * hnorm(M), tol = ((kind >= 2 ? 2e-3 : 1e-6) + 1e-4 * std::pow(h * hn, 4)) * (1 + hn) * n0; for (auto &z : w) z *= -M.passes;
  if (kind >= 2) { CV x(d.size()); for (size_t i = 0; i < x.size(); ++i) x[i] = (a[2].f[i] - a[1].f[i]) / (2 * h) - (a[3].f[i] - a[0].f[i]) / (4 * h); tol += 3 * nrm(x); if (tol > 0.05 * (1 + nrm(w))) { s.label("derivative not resolved"); return; } }   // inverse weights amplify the truncation: the spread between the two differences measures it
  PBT_ASSERT(dist(c, psi) <= tol, "a sweep does not tend to the identity as tau goes to zero: off by " + pbt::show(dist(c, psi) / n0)); PBT_ASSERT(dist(d, w) <= tol, "d/dtau of a sweep is not -H psi: off by " + pbt::show(dist(d, w)) + " of " + pbt::show(nrm(w)) + " (tolerance " + pbt::show(tol) + ")");
  if (st.p.GetMaxBondDim() == 1) { double e = (dot(psi, w) / dot(psi, psi)).real() / -M.passes; double e0 = (4 * (a[1].e0 + a[2].e0) - a[0].e0 - a[3].e0) / 6, en = (4 * (a[1].en + a[2].en) - a[0].en - a[3].en) / 6; double te = (1e-6 + std::pow(h * hn, 4)) * (1 + hn); PBT_ASSERT(std::abs(e0 - e) <= te, "estimated energy of a product state tends to " + pbt::show(e0) + " but <H> = " + pbt::show(e)); PBT_ASSERT(std::abs(en - e) <= te, "norm-based energy of a product state tends to " + pbt::show(en) + " but <H> = " + pbt::show(e)); s.label("energy of a product state"); }
  for (auto &x : a) PBT_ASSERT(x.tr >= 0 && x.tr < 1e-10, "truncation error " + pbt::show(x.tr) + " although nothing was discarded");
  if (nrm(w) > 1e-3 * n0 && a[2].D > st.p.GetMaxBondDim()) s.nontrivial();
}
PBT_PROP(su_energy, 40, 1500, "the energy of the product state has contributions of at least two terms") {
  int kind = (int) s.freq({2, 2, 4, 2}); Loc l = make_loc(s.chance(1, 6) ? 3 : 2); bool pbc = kind < 3 && s.boolean(); size_t lo = kind == 2 && pbc ? 3 : 2, R = s.urange(lo, 4), Cc = s.urange(lo, 4), cap = l.d == 3 ? (lo == 3 ? 9 : 6) : 12; while (R * Cc > cap) (R > Cc ? R : Cc)--; std::mt19937_64 g(s.draw(1u << 30)); P p(l.phys, R, Cc, pbc ? BoundaryCondition::Periodic : BoundaryCondition::Open);
  if (!SYM && s.boolean()) p = random_peps(g, l, R, Cc, pbc, 1, 0, false); else { std::vector<std::vector<size_t>> a(R, std::vector<size_t>(Cc)); for (auto &r : a) for (auto &x : r) x = g() % l.d; Quiet q; p.Initial(a); }
  if (dead(p)) return; p.NormalizeAllTensor(); s.note(std::to_string(R) + "x" + std::to_string(Cc) + (pbc ? " periodic" : " open") + " d=" + std::to_string(l.d)); Setup st{l, R, Cc, pbc, g, p}; Model M = make_model(s, st, false, kind, 0.5); CV psi = dense(p); double e = (dot(psi, hpsi(M, psi, st.N(), l)) / dot(psi, psi)).real(), hn = 0; size_t big = 0; for (auto &t : M.terms) { hn = std::max(hn, nrm(t.m)); big += std::abs(dot(psi, apply(psi, st.N(), l, t.sites, t.m))) > 1e-3 * std::norm(nrm(psi)); }
  double h = 1e-4, e0 = 0, en = 0; for (double t : {-h, h}) { std::unique_ptr<SimpleUpdateExecutor<E, Q>> x; { Quiet q; x = M.make(SimpleUpdatePara(1, t, 1, 2, 1e-14), p); x->Execute(); } auto &m = x->GetStepMetrics().at(0); e0 += m.estimated_e0 / 2; en += m.estimated_en / 2; }
  double tol = 1e-4 * (1 + hn) * (1 + hn) * M.terms.size(); PBT_ASSERT(std::abs(e0 - e) <= tol, "energy estimate of a product state " + pbt::show(e0) + " but <H> = " + pbt::show(e)); PBT_ASSERT(std::abs(en - e) <= tol, "norm-based energy of a product state " + pbt::show(en) + " but <H> = " + pbt::show(e)); s.label(pbc ? "periodic" : "open"); if (big > 1) s.nontrivial();
}
// the same state with every entry changed by up to 30 per cent
P jiggle(P p, std::mt19937_64 &g) { std::uniform_real_distribution<double> u(0.7, 1.3); for (auto &t : p.Gamma) for (auto &z : t.d_) z *= u(g); return p; }
struct Plan { std::vector<double> tau; std::vector<size_t> steps; bool eigen; };
// "" if the evolution is right, the complaint otherwise; numeric: the complaint may be rounding noise
std::string evolution(const Setup &st, const Model &M, const P &start, const Plan &pl, bool &numeric, std::vector<std::string> &lab, bool &live) {
  numeric = false; live = false; CV psi = dense(start); if (!(nrm(psi) > 1e-6)) return ""; std::unique_ptr<SimpleUpdateExecutor<E, Q>> x, alt[2]; { Quiet q; x = M.make(SimpleUpdatePara(pl.steps[0], pl.tau[0], 1, 300, 1e-24), start); alt[0] = M.make(SimpleUpdatePara(pl.steps[0], pl.tau[0], 1, 300, 1e-20), start); alt[1] = M.make(SimpleUpdatePara(pl.steps[0], pl.tau[0], 1, 300, 1e-17), start); } double total = 0, noise = 0, logs[2] = {0, 0}, logn = 0; size_t sw = 0;
  for (size_t r = 0; r < pl.tau.size(); ++r) {
    double tau = pl.tau[r]; size_t steps = pl.steps[r]; if (r) { if (tau != pl.tau[r - 1]) { Quiet q; x->ResetStepLenth(tau); for (auto &y : alt) y->ResetStepLenth(tau); lab.push_back("step changed"); } x->update_para.steps = steps; for (auto &y : alt) y->update_para.steps = steps; }
    { Quiet q; x->Execute(); } auto &m = x->GetStepMetrics(); if (m.size() != steps) return "number of step records"; for (auto &q : m) { if (q.tau != tau) return "recorded step length " + pbt::show(q.tau); total += M.passes * tau; logn -= M.passes * q.estimated_en * q.tau; ++sw; if (pl.eigen) { double e = (dot(psi, hpsi(M, psi, st.N(), st.l)) / dot(psi, psi)).real(); if (!(std::abs(q.estimated_e0 - e) <= 1e-8 * (1 + hnorm(M)) && std::abs(q.estimated_en - e) <= 1e-8 * (1 + hnorm(M)))) return "energies of a basis state reported as " + pbt::show(q.estimated_e0) + " / " + pbt::show(q.estimated_en) + ", exact " + pbt::show(e); } }
    if (min_weight(x->GetPEPS()) < 1e-7 || too_big(x->GetPEPS(), st.l)) { lab.push_back("stopped early"); break; }
    CV want = psi, got = dense(x->GetPEPS()); for (size_t k = 0; k < want.size(); ++k) { V v = digits(k, st.N(), st.l.d); double e = 0; for (auto &t : M.terms) { size_t q = 0; for (size_t z : t.sites) q = q * st.l.d + v[z]; e += t.m.at(q, q).real(); } want[k] *= std::exp(-total * e); } for (auto &z : got) z *= std::exp(logn); double mw = min_weight(x->GetPEPS());
    // noise singular values just above the cut-off are inverted later; runs with other cut-offs measure what that costs
    for (int q = 0; q < 2; ++q) { { Quiet z; alt[q]->Execute(); } for (auto &m : alt[q]->GetStepMetrics()) logs[q] -= M.passes * m.estimated_en * m.tau; CV o = dense(alt[q]->GetPEPS()); for (auto &z : o) z *= std::exp(logs[q]); noise = std::max(noise, dist(o, got)); } if (noise > 1e-2 * (nrm(want) + nrm(psi))) { lab.push_back("evolution not resolved"); break; }
    if (!(dist(want, got) <= (1e-7 + 1e-14 / (mw * mw)) * (nrm(want) + nrm(psi)) + 10 * noise)) { numeric = true; return "evolution under commuting terms for " + pbt::show(total) + " off by " + pbt::show(dist(want, got) / nrm(want)); }
    if (sw > 1 && !pl.eigen) live = true;
  }
  return "";
}
PBT_PROP(su_commuting, 40, 2000, "several sweeps or a changed step acted on a state that is not an eigenstate") {
  int kind = (int) s.freq({3, 3, 4, 2}); Setup st = small(s, kind, true); if (dead(st.p)) return; st.p.NormalizeAllTensor(); Model M = make_model(s, st, true, kind, 1.0); CV psi = dense(st.p); if (!(nrm(psi) > 1e-6)) return;
  Plan pl; { size_t nz = 0; for (auto z : psi) nz += std::abs(z) > 1e-12; pl.eigen = nz == 1 && st.p.GetMaxBondDim() == 1; } pl.tau = {s.pick(std::vector<double>{0.1, 0.02, 0.3, -0.1})}; pl.steps = {s.urange(1, 3)}; if (s.boolean()) { double t = s.pick(std::vector<double>{0.05, 0.2, -0.15}); pl.tau.push_back(s.boolean() ? t : pl.tau[0]); size_t n = s.urange(1, 2); pl.steps.push_back(s.boolean() ? n : pl.steps[0]); }
  bool numeric, live; std::vector<std::string> lab; std::string why = evolution(st, M, st.p, pl, numeric, lab, live); for (auto &l : lab) s.label(l); if (live) s.nontrivial();
  // a wrong evolution is wrong for the neighbouring states too, an unlucky small singular value is not
  for (int k = 0; k < 4 && numeric && !why.empty(); ++k) { P q = jiggle(st.p, st.g); q.NormalizeAllTensor(); std::string again = evolution(st, M, q, pl, numeric, lab, live); if (again.empty()) { s.label("rounding noise"); why = ""; } }
  PBT_ASSERT(why.empty(), why);
}
std::vector<std::vector<double>> weights(const P &p) { std::vector<std::vector<double>> o; for (auto *L : {&p.lambda_vert, &p.lambda_horiz}) for (auto &x : *L) { std::vector<double> d; for (size_t i = 0; i < x.GetShape()[0]; ++i) d.push_back(x({i, i})); o.push_back(d); } return o; }
// largest relative change of the weights of one bond; negative when dimensions changed
double drift(const std::vector<std::vector<double>> &a, const std::vector<std::vector<double>> &b) { double dr = 0; for (size_t i = 0; i < b.size(); ++i) { if (b[i].size() != a[i].size()) return -1; double dd = 0, nn = 0; for (size_t j = 0; j < b[i].size(); ++j) { dd += std::pow(b[i][j] - a[i][j], 2); nn += std::pow(a[i][j], 2); } dr = std::max(dr, std::sqrt(dd / nn)); } return dr; }
PBT_PROP(su_run, 120, 2500, "at least three sweeps ran and the bond cap was active or the run stopped early") {
  int kind = (int) s.freq({3, 3, 3, 2}); Setup st = small(s, kind, false, true); if (dead(st.p)) return; st.p.NormalizeAllTensor(); Model M = make_model(s, st, s.chance(1, 4), kind, 0.5); if (!(nrm(dense(st.p)) > 1e-6)) return; size_t dmax = s.urange(1, kind >= 2 ? (st.l.d == 3 || st.pbc ? 2 : 3) : 4), dmin = s.urange(1, dmax), steps = s.freq({1, 8}) ? s.urange(1, 8) : 0; double tau = s.pick(std::vector<double>{0.1, 0.3, 0.01, 0.0125, 0.001}), te = s.pick(std::vector<double>{1e-15, 1e-6, 1e-12}); SimpleUpdatePara para(steps, tau, dmin, dmax, te); bool adv = s.boolean(); SimpleUpdatePara::AdvancedStopConfig cfg{s.pick(std::vector<double>{0.0, 1e-6, 1e-2, 0.2}), s.pick(std::vector<double>{0.0, 1e-3, 0.1}), s.pick(std::vector<double>{1e-3, 0.05, 0.5, 10.0}), s.urange(1, 3), s.urange(1, 5)};
  // tolerances next to the changes a pilot run shows: the rule decides differently for a slightly different reading
  if (adv && s.chance(2, 3)) {
    steps = s.urange(3, 14); tau = s.pick(std::vector<double>{0.1, 0.3, 0.6, 1.0}); para = SimpleUpdatePara(steps, tau, dmin, dmax, te); std::vector<double> e; std::vector<std::vector<std::vector<double>>> w; { Quiet q; std::unique_ptr<SimpleUpdateExecutor<E, Q>> y; auto pp = para; pp.step_observer = [&](const SimpleUpdateStepMetrics<double> &m) { e.push_back(m.estimated_e0); w.push_back(weights(y->GetPEPS())); }; y = M.make(pp, st.p); y->Execute(); }
    std::vector<double> de, rl, dr; for (size_t k = 1; k < e.size(); ++k) { double x = drift(w[k - 1], w[k]); if (x < 0) continue; de.push_back(std::abs(e[k] - e[k - 1])); rl.push_back(de.back() / std::max({1.0, std::abs(e[k]), std::abs(e[k - 1])})); dr.push_back(x); }
    if (!de.empty()) { auto near = [&](const std::vector<double> &v) { return s.pick(v) * (1 + s.pick(std::vector<double>{1e-4, -1e-4, 1e-6, -1e-6, 0.02, -0.02})); }; int m = (int) s.draw(3); cfg.energy_abs_tol = m == 0 ? near(de) : 0; cfg.energy_rel_tol = m == 0 ? 0 : m == 1 ? near(rl) : 1e3; cfg.lambda_rel_tol = m == 2 || s.chance(1, 3) ? near(dr) : 1e3; s.label("calibrated"); }
  }
  if (adv) { if (s.boolean()) para.advanced_stop = cfg; else { auto q = SimpleUpdatePara::Advanced(steps, tau, dmin, dmax, te, cfg.energy_abs_tol, cfg.energy_rel_tol, cfg.lambda_rel_tol, cfg.patience, cfg.min_steps); para = q; } }
  if (adv && s.chance(1, 6)) { auto bad = cfg; switch (s.draw(5)) { case 0: bad.energy_abs_tol = -1e-3; break; case 1: bad.energy_rel_tol = -1e-3; break; case 2: bad.lambda_rel_tol = -1; break; case 3: bad.patience = 0; break; default: bad.min_steps = 0; } para.advanced_stop = bad; bool threw = false; P after = st.p; { Quiet q; auto x = M.make(para, st.p); try { x->Execute(); } catch (const std::invalid_argument &) { threw = true; } after = x->GetPEPS(); } PBT_ASSERT(threw, "invalid stopping parameters accepted"); PBT_ASSERT(peps_diff(st.p, after).empty(), "rejected run changed the state"); s.label("invalid parameters"); return; }
  std::unique_ptr<SimpleUpdateExecutor<E, Q>> x; std::vector<SimpleUpdateStepMetrics<double>> seen; std::vector<std::vector<std::vector<double>>> lw; std::vector<std::pair<size_t, size_t>> dims; std::vector<P> snap; para.step_observer = [&](const SimpleUpdateStepMetrics<double> &m) { seen.push_back(m); lw.push_back(weights(x->GetPEPS())); dims.push_back(x->GetPEPS().GetMinMaxBondDim()); snap.push_back(x->GetPEPS()); }; bool emit = s.boolean(); para.emit_machine_readable_metrics = emit;
  std::stringstream out; auto *ob = std::cout.rdbuf(out.rdbuf()); auto fl = std::cout.flags(); auto pr = std::cout.precision(); try { x = M.make(para, st.p); x->Execute(); } catch (...) { std::cout.rdbuf(ob); throw; } std::cout.rdbuf(ob); std::cout.flags(fl); std::cout.precision(pr);
  auto &sm = x->GetLastRunSummary(); auto &mt = x->GetStepMetrics(); size_t n = mt.size(); using X = SimpleUpdateExecutor<E, Q>; PBT_ASSERT(seen.size() == n && sm.executed_steps == n && x->LastRunExecutedSteps() == n && n <= steps, "step counts disagree: " + std::to_string(n) + " records, " + std::to_string(seen.size()) + " callbacks, " + std::to_string(sm.executed_steps) + " reported");
  size_t streak = 0, stop = steps; bool conv = false, unsure = false;
  for (size_t k = 0; k < n; ++k) {
    auto &a = mt[k]; auto &b = seen[k]; PBT_ASSERT(a.step_index == k && b.step_index == k && a.tau == tau && b.tau == tau && a.estimated_e0 == b.estimated_e0 && a.estimated_en == b.estimated_en && a.trunc_err == b.trunc_err && a.bond_dim_changed == b.bond_dim_changed && a.elapsed_sec == b.elapsed_sec, "callback and record of step " + std::to_string(k) + " differ"); PBT_ASSERT(a.elapsed_sec >= 0 && std::isfinite(a.estimated_e0) && std::isfinite(a.estimated_en), "non-finite metrics");
    PBT_ASSERT(a.bond_dim_changed == (k > 0 && dims[k] != dims[k - 1]), "bond_dim_changed of step " + std::to_string(k)); for (size_t r = 0; r < st.R; ++r) for (size_t c = 0; c < st.Cc; ++c) { if (st.pbc || c + 1 < st.Cc) PBT_ASSERT(lam(snap[k], r, c, Ea).GetShape()[0] <= dmax, "bond dimension above Dmax"); if (st.pbc || r + 1 < st.R) PBT_ASSERT(lam(snap[k], r, c, S).GetShape()[0] <= dmax, "bond dimension above Dmax"); }
    if (kind == 3) PBT_ASSERT(!a.trunc_err.has_value(), "truncation error reported by the triangular executor"); else if (st.R > 1) PBT_ASSERT(a.trunc_err.has_value() && *a.trunc_err >= 0 && *a.trunc_err < 1, "truncation error missing");
    bool ok = false; if (adv && k > 0 && !conv) { double dr = drift(lw[k - 1], lw[k]); bool same = dr >= 0; double de = std::abs(mt[k].estimated_e0 - mt[k - 1].estimated_e0), tl = std::max(cfg.energy_abs_tol, cfg.energy_rel_tol * std::max({1.0, std::abs(mt[k].estimated_e0), std::abs(mt[k - 1].estimated_e0)})); ok = same && de <= tl && dr <= cfg.lambda_rel_tol && k + 1 >= cfg.min_steps; if (same && (std::abs(de - tl) < 1e-12 + 1e-14 * std::abs(mt[k].estimated_e0) || std::abs(dr - cfg.lambda_rel_tol) < 1e-12)) unsure = true; }
    streak = ok ? streak + 1 : 0; if (adv && ok && streak >= cfg.patience && !conv) { conv = true; stop = k + 1; }
  }
  if (!unsure) { PBT_ASSERT(n == std::min(stop, steps), "stopped after " + std::to_string(n) + " sweeps, the criterion says " + std::to_string(std::min(stop, steps))); PBT_ASSERT(sm.converged == conv && x->LastRunConverged() == conv && sm.stop_reason == (conv ? X::StopReason::kAdvancedConverged : X::StopReason::kMaxSteps), "stop reason"); }
  if (n) { PBT_ASSERT(sm.final_energy && *sm.final_energy == mt.back().estimated_e0 && sm.final_estimated_e0 == sm.final_energy && sm.final_estimated_en && *sm.final_estimated_en == mt.back().estimated_en && x->GetEstimatedEnergy() == mt.back().estimated_e0, "final energies"); PBT_ASSERT(peps_diff(snap.back(), x->GetPEPS()).empty(), "the final state is not the state after the last sweep"); }
  else PBT_ASSERT(!sm.final_energy && peps_diff(st.p, x->GetPEPS()).empty(), "a run of no steps changed the state");
  if (emit) { size_t k = 0; std::string line; while (std::getline(out, line)) { size_t at = line.find("SU_METRIC"); if (at == std::string::npos) continue; PBT_ASSERT(k < n, "more metric lines than steps"); std::map<std::string, std::string> kv; std::stringstream ls(line.substr(at)); std::string w; while (ls >> w) { size_t e = w.find('='); if (e != std::string::npos) kv[w.substr(0, e)] = w.substr(e + 1); } auto num = [&](const char *q) { try { return std::stod(kv[q]); } catch (...) { return 1e300; } }; PBT_ASSERT(num("step") == double(k) && std::abs(num("tau") - tau) <= 1e-6 * tau && std::abs(num("e0") - mt[k].estimated_e0) <= 1e-9 * (1 + std::abs(mt[k].estimated_e0)) && std::abs(num("en") - mt[k].estimated_en) <= 1e-9 * (1 + std::abs(mt[k].estimated_en)), "metric line disagrees with step " + std::to_string(k) + " (tau " + pbt::show(tau) + "): " + line.substr(at)); ++k; } PBT_ASSERT(k == n, "metric lines: " + std::to_string(k) + " for " + std::to_string(n) + " steps"); }
  // the same sweeps in separate runs, and a step length set before the run
  if (n && s.boolean()) { Quiet q; std::unique_ptr<X> y; size_t k1 = s.urange(0, n - 1); SimpleUpdatePara a(k1, tau * 3, dmin, dmax, te); y = M.make(a, st.p); y->ResetStepLenth(tau); if (k1) y->Execute(); y->update_para.steps = n - k1; y->Execute(); std::string d = peps_diff(snap.back(), y->GetPEPS()); PBT_ASSERT(d.empty(), "splitting a run in two changed the result: " + d); s.label("split run"); }
  if (s.chance(1, 4)) { std::string dir = pbt::ScratchDir() + "/su"; bool ok; P q = st.p; { Quiet z; P keep = x->GetPEPS(); ok = x->DumpResult(dir, s.boolean()) && q.Load(dir); std::string d = peps_diff(keep, q); PBT_ASSERT(ok && d.empty(), "DumpResult cannot be read back: " + d); } std::filesystem::remove_all(dir); }
  bool cap = false; for (auto &d : dims) cap |= d.second == dmax; if (n >= 3 && (cap || conv)) s.nontrivial(); if (conv) s.label("converged early");
}
PBT_PROP(su_reject, 10, 300, "a wrongly sized Hamiltonian was rejected") {
  Setup st = small(s, 1, true); Mat h = random_herm(st.g, st.l, 2, false); T t = ham_tensor(st.l, h); size_t hc = st.pbc ? st.Cc : st.Cc - 1, vr = st.pbc ? st.R : st.R - 1; size_t a = st.R, b = hc, c = vr, d = st.Cc; (s.boolean() ? (s.boolean() ? a : b) : (s.boolean() ? c : d)) += 1; TenMatrix<T> H(a, b), Vt(c, d); for (size_t i = 0; i < a; ++i) for (size_t j = 0; j < b; ++j) H({i, j}) = t; for (size_t i = 0; i < c; ++i) for (size_t j = 0; j < d; ++j) Vt({i, j}) = t;
  bool threw = false; { Quiet q; try { SquareLatticeNNSimpleUpdateExecutor<E, Q> x(SimpleUpdatePara(1, 0.1, 1, 2, 1e-10), st.p, H, Vt); } catch (const std::invalid_argument &) { threw = true; } } PBT_ASSERT(threw, "bond Hamiltonians of the wrong size accepted"); s.nontrivial();
}
#endif
}  // namespace
