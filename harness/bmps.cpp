// Boundary-MPS contraction of open 2D networks against an exact plain-array contraction.
#include "pbt.hpp"
#include "tn.hpp"
#include "qlpeps/two_dim_tn/tensor_network_2d/tensor_network_2d.h"
#include "qlpeps/two_dim_tn/tensor_network_2d/bmps/bmps_contractor.h"
using namespace qlpeps;
using namespace tn;
using pbt::Src;
namespace {
using Trv = qlten::special_qn::TrivialRepQN;
using U1 = qlten::special_qn::U1QN;
using Grid = std::vector<std::vector<Arr>>;

template<class E, class Q> struct Case {
  using T = QLTensor<E, Q>;
  size_t R, C; int mode;
  std::mt19937_64 g;
  TensorNetwork2D<E, Q> net;
  Grid a;
  double rel;
  std::vector<std::vector<std::array<size_t, 4>>> fx;
  Case(Src &s, size_t rmin, size_t rmax, size_t dmax) : R(rmin <= 2 && s.chance(1, 12) ? s.urange(5, 6) : s.urange(rmin, rmax)), C(R > 4 ? 2 : R == 2 && s.chance(1, 5) ? s.urange(5, 6) : s.urange(rmin, rmax)), mode((int) s.draw(4)), g(s.draw(1u << 30)), net(R, C), rel(1e-9) {
    dmax = s.urange(1, dmax);
    if (QGen<Q>::sym && mode == 2) mode = 0;   // small integers cancel exactly, which empties symmetric blocks
    std::vector<std::vector<Index<Q>>> hb(R, std::vector<Index<Q>>(C + 1)), vb(R + 1, std::vector<Index<Q>>(C));
    std::vector<std::vector<size_t>> hf(R, std::vector<size_t>(C + 1, 0)), vf(R + 1, std::vector<size_t>(C, 0));
    for (size_t r = 0; r < R; ++r) for (size_t c = 0; c <= C; ++c) { hb[r][c] = (c == 0 || c == C) ? QGen<Q>::one(OUT) : QGen<Q>::bond(g, dmax, OUT); hf[r][c] = g() % hb[r][c].dim(); }
    for (size_t r = 0; r <= R; ++r) for (size_t c = 0; c < C; ++c) { vb[r][c] = (r == 0 || r == R) ? QGen<Q>::one(OUT) : QGen<Q>::bond(g, dmax, OUT); vf[r][c] = g() % vb[r][c].dim(); }
    a.assign(R, std::vector<Arr>(C));
    for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < C; ++c) {
      T t({qlten::InverseIndex(hb[r][c]), vb[r + 1][c], hb[r][c + 1], qlten::InverseIndex(vb[r][c])});
      t({hf[r][c], vf[r + 1][c], hf[r][c + 1], vf[r][c]}) = E(1);
      Q d = t.Div(); fill(t, d, g, mode); net({r, c}) = t; a[r][c] = arr(t);
    }
    s.note("net ", R, "x", C, " mode ", mode, " dmax ", dmax);
  }
  T like(const SiteIdx &p, int dq = 0) {   // random tensor with the legs of site p, charge shifted by dq
    T t(net(p).GetIndexes()); Q d = net(p).Div(); Q sh = QGen<Q>::charge(dq); d += sh; fill(t, d, g, mode); return t;
  }
  T oth(const SiteIdx &p) { T t = like(p, 0); return t; }
  cd ref(const std::vector<std::pair<SiteIdx, T>> &rep, double &scale) {
    Grid b = a; for (auto &q : rep) b[q.first[0]][q.first[1]] = arr(q.second);
    scale = std::abs(exact_obc(b, true)); return exact_obc(b);
  }
  void eq(const char *what, E got, const std::vector<std::pair<SiteIdx, T>> &rep = {}) {
    double sc; cd w = ref(rep, sc); double pn = 1; for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < C; ++c) { double n = 0; for (auto &x : a[r][c].v) n += std::norm(x); pn *= std::sqrt(n); }
    PBT_ASSERT(std::abs(cd(got) - w) <= rel * sc + 1e-14 * pn, what, ": contraction gives ", got, " but the network's exact value is ", w, " (scale ", sc, ")");
  }
  void set(const SiteIdx &p, const T &t) { net(p) = t; a[p[0]][p[1]] = arr(t); }
};
template<class E, class Q> BMPSTruncateParams<double> params(Src &s, Case<E, Q> &k) {
  // the variational schemes start from a two-state truncation of the boundary, so they are only exact while boundaries have at most two states
  size_t bd = 1; for (auto &row : k.a) for (auto &t : row) for (size_t d : t.d) bd = std::max(bd, d);
  bool small = !QGen<Q>::sym && (bd == 1 || (bd == 2 && k.R <= 3 && k.C <= 3));
  switch (s.freq({4, 1, 2, 2}) % (small ? 4 : 2)) {
    case 0: return BMPSTruncateParams<double>::SVD(1, 4096, 0.0);
    case 1: return BMPSTruncateParams<double>();
    case 2: s.label("variational-2site"); k.rel = 1e-7; return BMPSTruncateParams<double>::Variational2Site(1, 4096, 0.0, 1e-14, 20);
    default: s.label("variational-1site"); k.rel = 1e-7; return BMPSTruncateParams<double>::Variational1Site(1, 4096, 0.0, 1e-14, 20);
  }
}
// value of sum E.T over all legs, E's legs matching T's in order
template<class E, class Q> E hole_dot(const QLTensor<E, Q> &h, const QLTensor<E, Q> &t) {
  PBT_ASSERT(h.Rank() == 4, "hole rank ", h.Rank());
  E v(0); for (size_t i = 0; i < 4; ++i) PBT_ASSERT(h.GetIndex(i) == qlten::InverseIndex(t.GetIndex(i)), "hole leg ", i, " does not face the removed tensor's leg");
  for (size_t i = 0; i < h.d_.size(); ++i) v += h.d_[i] * t.d_[i];
  return v;
}
template<class E, class Q> using Ctr = BMPSContractor<E, Q>;
template<class E, class Q> void site_checks(Src &s, Case<E, Q> &k, const Ctr<E, Q> &ctr, const SiteIdx &p, BondOrientation o, size_t lowcov, size_t highcov) {
  // caches on both sides: low side covers everything before p, high side covers everything from p + highcov on
  (void) lowcov; auto shift = [&](size_t n) { return o == HORIZONTAL ? SiteIdx{p[0], p[1] + n} : SiteIdx{p[0] + n, p[1]}; };
  size_t room = (o == HORIZONTAL ? k.C - p[1] : k.R - p[0]);
  if (highcov == 1) {
    k.eq("ReplaceOneSiteTrace(original)", ctr.ReplaceOneSiteTrace(k.net, p, k.net(p), o));
    auto t = k.like(p); k.eq("ReplaceOneSiteTrace", ctr.ReplaceOneSiteTrace(k.net, p, t, o), {{p, t}});
    auto h = ctr.PunchHole(k.net, p, o); auto u = k.like(p);
    k.eq("PunchHole . original", hole_dot(h, k.net(p))); k.eq("PunchHole . other", hole_dot(h, u), {{p, u}});
    s.label("hole");
  }
  if (highcov <= 2 && room >= 2) {
    auto q = shift(1);
    k.eq("Trace(site,dir)", ctr.Trace(k.net, p, o)); k.eq("Trace(a,b,dir)", ctr.Trace(k.net, p, q, o));
    int dq = QGen<Q>::sym ? (int) (k.g() % 3) - 1 : 0; auto t = k.like(p, dq), u = k.like(q, -dq);
    k.eq("ReplaceNNSiteTrace", ctr.ReplaceNNSiteTrace(k.net, p, q, o, t, u), {{p, t}, {q, u}});
  }
  if (highcov <= 3 && room >= 3) {
    auto q = shift(1), w = shift(2); int dq = QGen<Q>::sym ? (int) (k.g() % 3) - 1 : 0; auto t = k.like(p, dq), u = k.like(q, -dq), v = k.like(w);
    if (k.g() % 2) { u = k.like(q); v = k.like(w, -dq); }
    k.eq("ReplaceTNNSiteTrace", ctr.ReplaceTNNSiteTrace(k.net, p, o, t, u, v), {{p, t}, {q, u}, {w, v}}); s.label("three-site");
  }
}
template<class E, class Q> void plaq_checks(Src &s, Case<E, Q> &k, const Ctr<E, Q> &ctr, const SiteIdx &p, BondOrientation o, size_t cov) {
  size_t r1 = p[0], c1 = p[1];
  auto pairs = [&](size_t dr, size_t dc, DIAGONAL_DIR d, SiteIdx &l, SiteIdx &r) { if (d == LEFTUP_TO_RIGHTDOWN) { l = {r1, c1}; r = {r1 + dr, c1 + dc}; } else { l = {r1 + dr, c1}; r = {r1, c1 + dc}; } };
  for (DIAGONAL_DIR d : {LEFTUP_TO_RIGHTDOWN, LEFTDOWN_TO_RIGHTUP}) {
    SiteIdx l{0, 0}, r{0, 0};
    int dq = QGen<Q>::sym ? (int) (k.g() % 3) - 1 : 0;
    if (cov <= 2) {
      pairs(1, 1, d, l, r); auto t = k.like(l, dq), u = k.like(r, -dq);
      k.eq("ReplaceNNNSiteTrace(original)", ctr.ReplaceNNNSiteTrace(k.net, p, d, o, k.net(l), k.net(r)));
      k.eq("ReplaceNNNSiteTrace", ctr.ReplaceNNNSiteTrace(k.net, p, d, o, t, u), {{l, t}, {r, u}}); s.label("diagonal");
    }
    if (cov <= 3 && (o == HORIZONTAL ? c1 + 2 < k.C : r1 + 2 < k.R)) {
      if (o == HORIZONTAL) pairs(1, 2, d, l, r); else pairs(2, 1, d, l, r);
      auto t = k.like(l, dq), u = k.like(r, -dq);
      k.eq("ReplaceSqrt5DistTwoSiteTrace", ctr.ReplaceSqrt5DistTwoSiteTrace(k.net, p, d, o, t, u), {{l, t}, {r, u}}); s.label("sqrt5");
    }
  }
}
// ---- environments built on demand, arbitrary order of slices, with site updates in between ----
template<class E, class Q> void on_demand(Src &s) {
  Case<E, Q> k(s, 2, 4, 3); Ctr<E, Q> ctr(k.R, k.C); ctr.SetTruncateParams(params(s, k)); ctr.Init(k.net);
  size_t n = s.urange(2, 7), upd = 0, env = 0; std::optional<size_t> hrow, vcol;   // slices the single-layer caches belong to
  for (size_t i = 0; i < n; ++i) {
    switch (s.freq({4, 3, 3, 2})) {
      case 0: {  // single layer
        bool hz = s.boolean(); size_t sl = s.urange(0, (hz ? k.R : k.C) - 1), L = hz ? k.C : k.R, c = s.urange(0, L - 1), cov = s.urange(1, std::min<size_t>(3, L - c));
        if (hz) ctr.GrowBMPSForRow(k.net, sl); else ctr.GrowBMPSForCol(k.net, sl);
        BTenPOSITION lo = hz ? LEFT : UP, hi = hz ? RIGHT : DOWN;
        size_t extra = s.urange(0, c); // build low side in two stages when extra < c
        if (s.boolean()) { ctr.GrowFullBTen(k.net, lo, sl, L - extra, true); ctr.GrowFullBTen(k.net, lo, sl, L - c, false); } else ctr.GrowFullBTen(k.net, lo, sl, L - c, true);
        ctr.GrowFullBTen(k.net, hi, sl, c + cov, true);
        (hz ? hrow : vcol) = sl;
        site_checks(s, k, ctr, hz ? SiteIdx{sl, c} : SiteIdx{c, sl}, hz ? HORIZONTAL : VERTICAL, c, cov); ++env; break;
      }
      case 1: {  // double layer
        bool hz = s.boolean(); size_t sl = s.urange(0, (hz ? k.R : k.C) - 2), L = hz ? k.C : k.R, c = s.urange(0, L - 2), cov = s.urange(2, std::min<size_t>(3, L - c));
        if (hz) ctr.GrowBMPSForRow(k.net, sl); else ctr.GrowBMPSForCol(k.net, sl);
        BTenPOSITION lo = hz ? LEFT : UP, hi = hz ? RIGHT : DOWN;
        ctr.GrowFullBTen2(k.net, lo, sl, L - c, true); ctr.GrowFullBTen2(k.net, hi, sl, c + cov, true);
        plaq_checks(s, k, ctr, hz ? SiteIdx{sl, c} : SiteIdx{c, sl}, hz ? HORIZONTAL : VERTICAL, cov); ++env; break;
      }
      case 2: {  // local update
        SiteIdx p{s.urange(0, k.R - 1), s.urange(0, k.C - 1)}; k.set(p, k.like(p)); ctr.EraseEnvsAfterUpdate(p); ctr.CheckInvalidateEnvs(p); ++upd;
        if (hrow && *hrow != p[0]) hrow.reset();
        if (vcol && *vcol != p[1]) vcol.reset();
        // what survives must still be usable
        if (hrow && s.boolean()) { ctr.GrowBMPSForRow(k.net, p[0]); ctr.GrowFullBTen(k.net, LEFT, p[0], k.C - p[1], false); ctr.GrowFullBTen(k.net, RIGHT, p[0], p[1] + 1, false); site_checks(s, k, ctr, p, HORIZONTAL, p[1], 1); s.label("resume-after-update"); }
        else if (vcol && s.boolean()) { ctr.GrowBMPSForCol(k.net, p[1]); ctr.GrowFullBTen(k.net, UP, p[1], k.R - p[0], false); ctr.GrowFullBTen(k.net, DOWN, p[1], p[0] + 1, false); site_checks(s, k, ctr, p, VERTICAL, p[0], 1); s.label("resume-after-update"); }
        break;
      }
      default: {  // copies of boundary pairs and of the contractor are values
        Ctr<E, Q> cp(ctr); size_t row = s.urange(0, k.R - 1); auto pr = cp.GetBMPSForRow(k.net, row);
        PBT_ASSERT(pr.first.size() == k.C && pr.second.size() == k.C && pr.first.Direction() == UP && pr.second.Direction() == DOWN, "row boundaries");
        cp.GrowFullBTen(k.net, LEFT, row, k.C, true); cp.GrowFullBTen(k.net, RIGHT, row, 1, true); site_checks(s, k, cp, SiteIdx{row, 0}, HORIZONTAL, 0, 1);
        PBT_ASSERT(cp.DirectionCheck() && ctr.DirectionCheck(), "directions"); break;
      }
    }
  }
  s.nontrivial(env >= 2 && upd >= 1);
}
// ---- sliding windows, as the Monte-Carlo sweeps and energy solvers use them ----
template<class E, class Q> void windows(Src &s) {
  Case<E, Q> k(s, 2, 4, 3); Ctr<E, Q> ctr(k.R, k.C); ctr.SetTruncateParams(params(s, k)); ctr.Init(k.net);
  size_t upd = 0, sweeps = s.urange(1, 2);
  for (size_t w = 0; w < sweeps; ++w) {
    bool hz = s.boolean(), fwd = s.boolean(), bond = s.boolean(), two = s.chance(2, 5), rev = s.chance(3, 10);
    size_t S = hz ? k.R : k.C, L = hz ? k.C : k.R;
    BMPSPOSITION start = hz ? (fwd ? UP : DOWN) : (fwd ? LEFT : RIGHT);
    ctr.GenerateBMPSApproach(k.net, start);
    BTenPOSITION lo = hz ? LEFT : UP, hi = hz ? RIGHT : DOWN; BondOrientation o = hz ? HORIZONTAL : VERTICAL;
    auto at = [&](size_t sl, size_t i) { return hz ? SiteIdx{sl, i} : SiteIdx{i, sl}; };
    for (size_t step = 0; step < S; ++step) {
      size_t sl = fwd ? step : S - 1 - step; size_t span = bond ? 2 : 1;
      if (!rev) { ctr.InitBTen(k.net, lo, sl); ctr.GrowFullBTen(k.net, hi, sl, span, true); } else { ctr.InitBTen(k.net, hi, sl); ctr.GrowFullBTen(k.net, lo, sl, span, true); }
      for (size_t j = 0; j + span <= L; ++j) {
        size_t i = rev ? L - span - j : j;
        site_checks(s, k, ctr, at(sl, i), o, i, span);
        if (s.chance(two ? 0 : 1, 2)) {  // accept an update inside the window
          for (size_t m = 0; m < span; ++m) { auto p = at(sl, i + m); k.set(p, k.like(p)); }
          for (size_t m = 0; m < span; ++m) ctr.EraseEnvsAfterUpdate(at(sl, i + m));
          ++upd; if (s.boolean()) site_checks(s, k, ctr, at(sl, i), o, i, span);
        }
        if (j + span < L) { if (rev) ctr.ShiftBTenWindow(k.net, lo); else ctr.ShiftBTenWindow(k.net, hi); }
      }
      if (two && fwd && sl + 1 < S) {
        if (!rev) { ctr.InitBTen2(k.net, lo, sl); ctr.GrowFullBTen2(k.net, hi, sl, 2, true); } else { ctr.InitBTen2(k.net, hi, sl); ctr.GrowFullBTen2(k.net, lo, sl, 2, true); }
        for (size_t j = 0; j + 2 <= L; ++j) { size_t i = rev ? L - 2 - j : j; plaq_checks(s, k, ctr, at(sl, i), o, 2); if (j + 2 < L) ctr.ShiftBTen2Window(k.net, rev ? lo : hi, sl); }
      }
      if (step + 1 < S) ctr.ShiftBMPSWindow(k.net, Opposite(start));
    }
  }
  s.nontrivial(upd >= 1 || sweeps == 2);
}
// ---- walkers ----
template<class E, class Q> std::vector<E> dense(const BMPS<E, Q> &b) {
  QLTensor<E, Q> acc = b[0];
  for (size_t i = 1; i < b.size(); ++i) { QLTensor<E, Q> t; qlten::Contract(&acc, {acc.Rank() - 1}, &b[i], {0}, &t); acc = t; }
  return std::vector<E>(acc.d_.begin(), acc.d_.end());
}
template<class E, class Q> void walkers(Src &s) {
  Case<E, Q> k(s, 2, 4, 3); Ctr<E, Q> ctr(k.R, k.C); ctr.SetTruncateParams(params(s, k)); ctr.Init(k.net);
  using T = QLTensor<E, Q>;
  size_t r = s.urange(0, k.R - 1);
  auto pr = ctr.GetBMPSForRow(k.net, r); const auto &down = pr.second;
  // a second contractor holding fewer layers, so that the walker has something to absorb
  Ctr<E, Q> base(k.R, k.C); base.SetTruncateParams(ctr.GetTruncateParams()); base.Init(k.net); size_t pre = s.urange(0, r); base.GrowBMPSForRow(k.net, pre);
  size_t before = base.GetBMPS(UP).size();
  auto wk = base.GetWalker(k.net, UP);
  PBT_ASSERT(wk.GetPosition() == UP && wk.GetStackSize() == before, "walker starts at the contractor's layer");
  std::vector<std::pair<SiteIdx, T>> rep; std::vector<std::vector<T>> rows(k.R);
  for (size_t q = pre; q < r; ++q) {
    if (s.chance(2, 5)) { std::vector<T *> mpo; rows[q].reserve(k.C); for (size_t c = 0; c < k.C; ++c) { SiteIdx p{q, c}; rows[q].push_back(k.like(p)); rep.push_back({p, rows[q].back()}); } for (auto &t : rows[q]) mpo.push_back(&t); wk.Evolve(mpo); s.label("custom-layer"); 
      // the counter is documented not to advance on manual layers, so continue manually
      for (size_t q2 = q + 1; q2 < r; ++q2) wk.Evolve(k.net.get_row(q2)); break; }
    wk.EvolveStep();
  }
  std::vector<T> row; std::vector<T *> mpo; auto full = rep; for (size_t c = 0; c < k.C; ++c) { SiteIdx p{r, c}; row.push_back(s.boolean() ? k.like(p) : k.net(p)); full.push_back({p, row.back()}); } for (auto &t : row) mpo.push_back(&t);
  k.eq("ContractRow", wk.ContractRow(mpo, down), full);
  size_t c = s.urange(0, k.C - 1);
  auto with = [&](std::vector<std::pair<SiteIdx, T>> more) { auto f = full; for (auto &m : more) f.push_back(m); return f; };
  wk.InitBTenLeft(mpo, down, c); wk.InitBTenRight(mpo, down, c);
  PBT_ASSERT(wk.GetBTenLeftCol() == c && wk.GetBTenRightCol() == c + 1, "cache edges ", wk.GetBTenLeftCol(), ",", wk.GetBTenRightCol(), " for column ", c);
  size_t moves = s.urange(0, 4);
  for (size_t m = 0; m <= moves; ++m) {
    SiteIdx p{r, c}; auto t = k.like(p); k.eq("TraceWithBTen", wk.TraceWithBTen(t, c, down), with({{p, t}}));
    if (c + 1 < k.C) { SiteIdx q{r, c + 1}; int dq = QGen<Q>::sym ? (int) (k.g() % 3) - 1 : 0; auto u = k.like(p, dq), v = k.like(q, -dq); k.eq("TraceWithTwoSiteBTen", wk.TraceWithTwoSiteBTen(u, v, c, mpo, down), with({{p, u}, {q, v}})); }
    if (c > 0 && (c + 1 == k.C || s.boolean())) { wk.ShiftBTenWindow(mpo, down, LEFT); --c; } else if (c + 1 < k.C) { wk.ShiftBTenWindow(mpo, down, RIGHT); ++c; }
  }
  if (s.boolean()) { wk.ClearBTen(); size_t c2 = s.urange(0, k.C - 1); if (c2 == 0) wk.InitBTenLeft(mpo, down, 0); for (size_t i = 0; i < c2; ++i) wk.GrowBTenLeftStep(mpo, down); wk.InitBTenRight(mpo, down, k.C - 1); for (size_t i = k.C - 1; i > c2; --i) wk.GrowBTenRightStep(mpo, down); SiteIdx p{r, c2}; auto t = k.like(p); k.eq("TraceWithBTen(grown)", wk.TraceWithBTen(t, c2, down), with({{p, t}})); }
  if (s.boolean()) {   // start over for another row content without clearing, and let the two caches overlap
    size_t z = s.urange(0, k.C - 1); SiteIdx pz{r, z}; row[z] = k.like(pz); full.push_back({pz, row[z]}); size_t c2 = s.urange(0, k.C - 1), hi = s.urange(c2, k.C), lo = s.urange(0, c2); if (s.boolean()) { wk.InitBTenLeft(mpo, down, hi); wk.InitBTenRight(mpo, down, lo); } else { wk.InitBTenRight(mpo, down, lo); wk.InitBTenLeft(mpo, down, hi); }
    SiteIdx p{r, c2}; auto t = k.like(p); k.eq("TraceWithBTen(overlapping caches)", wk.TraceWithBTen(t, c2, down), with({{p, t}}));
    if (c2 + 1 < k.C) { SiteIdx q{r, c2 + 1}; auto u = k.like(p), v = k.like(q); k.eq("TraceWithTwoSiteBTen(overlapping caches)", wk.TraceWithTwoSiteBTen(u, v, c2, mpo, down), with({{p, u}, {q, v}})); }
  }
  PBT_ASSERT(base.GetBMPS(UP).size() == before, "walker changed the contractor");
  // in every direction a walker that follows the lattice reproduces the contractor's own boundary
  auto pos = (BMPSPOSITION) s.draw(4); size_t S = (pos == UP || pos == DOWN) ? k.R : k.C, j = s.urange(0, S - 1);
  Ctr<E, Q> a(k.R, k.C); a.SetTruncateParams(ctr.GetTruncateParams()); a.Init(k.net); auto w2 = a.GetWalker(k.net, pos); a.GrowFullBMPS(k.net, pos);
  for (size_t i = 0; i < j; ++i) w2.EvolveStep();
  auto x = dense(w2.GetBMPS()), y = dense(a.GetBMPS(pos)[j]); double nn = 0, dd = 0; PBT_ASSERT(x.size() == y.size(), "boundary size");
  for (size_t i = 0; i < x.size(); ++i) { nn += std::norm(y[i]); dd += std::norm(x[i] - y[i]); }
  PBT_ASSERT(dd <= 1e-12 * nn, "walker in direction ", pos, " after ", j, " layers differs from the contractor's boundary by ", dd, " of ", nn);
  s.nontrivial(r > pre || j > 0);
}
// ---- truncation: never above the cap, exact when the cap is the true rank, better caps are not worse in the exact limit ----
template<class E, class Q> void truncation(Src &s) {
  // direct sum of `kk` product networks: every boundary has rank <= kk
  size_t R = s.urange(2, 4), C = s.urange(2, 5), kk = s.urange(1, 3); std::mt19937_64 g(s.draw(1u << 30)); int mode = (int) s.draw(2);
  using QT = Trv; using T = QLTensor<E, QT>; TensorNetwork2D<E, QT> net(R, C); Grid a(R, std::vector<Arr>(C));
  for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < C; ++c) {
    auto ix = [&](bool edge, qlten::TenIndexDirType d) { return Index<QT>({QNSector<QT>(QT(), edge ? 1 : kk)}, d); };
    T t({ix(c == 0, IN), ix(r + 1 == R, OUT), ix(c + 1 == C, OUT), ix(r == 0, IN)});
    for (size_t i = 0; i < kk; ++i) { E v = relem<E>(g, mode); v += E(0.2); t({c ? i : 0, r + 1 == R ? 0 : i, c + 1 == C ? 0 : i, r ? i : 0}) = v; }
    net({r, c}) = t; a[r][c] = arr(t);
  }
  size_t cap = kk + s.draw(2); int sch = kk <= 2 ? (int) s.draw(3) : 0;
  auto P = sch == 0 ? BMPSTruncateParams<double>::SVD(1, cap, 0.0) : sch == 1 ? BMPSTruncateParams<double>::Variational2Site(1, cap, 0.0, 1e-14, 30) : BMPSTruncateParams<double>::Variational1Site(1, cap, 0.0, 1e-14, 30);
  BMPSContractor<E, QT> ctr(R, C); ctr.SetTruncateParams(P); ctr.Init(net);
  double sc = std::abs(exact_obc(a, true)); cd w = exact_obc(a); double tol = sch ? 1e-6 : 1e-9;
  for (size_t r = 0; r < R; ++r) {
    ctr.GrowBMPSForRow(net, r); ctr.GrowFullBTen(net, LEFT, r, C, true); ctr.GrowFullBTen(net, RIGHT, r, 1, true);
    E v = ctr.ReplaceOneSiteTrace(net, {r, 0}, net({r, 0}), HORIZONTAL);
    PBT_ASSERT(std::abs(cd(v) - w) <= tol * sc, "network of rank ", kk, " with cap ", cap, " scheme ", sch, " row ", r, ": ", v, " vs ", w, " scale ", sc);
  }
  for (size_t c = 0; c < C; ++c) {
    ctr.GrowBMPSForCol(net, c); ctr.GrowFullBTen(net, UP, c, R, true); ctr.GrowFullBTen(net, DOWN, c, 1, true);
    E v = ctr.ReplaceOneSiteTrace(net, {0, c}, net({0, c}), VERTICAL);
    PBT_ASSERT(std::abs(cd(v) - w) <= tol * sc, "network of rank ", kk, " with cap ", cap, " scheme ", sch, " col ", c, ": ", v, " vs ", w);
  }
  for (auto pos : {LEFT, DOWN, RIGHT, UP}) for (auto &b : ctr.GetBMPS(pos)) for (size_t i = 0; i < b.size(); ++i) PBT_ASSERT(b[i].GetShape()[0] <= cap && b[i].GetShape()[2] <= cap, "bond above the cap");
  s.nontrivial(kk >= 2 && R >= 3);
}
template<class E, class Q> void cap_only(Src &s) {   // generic network, real truncation: cap respected, single truncated boundary is the optimal rank-cap approximation error bound
  Case<E, Q> k(s, 3, 4, 3); size_t cap = s.urange(1, 4); Ctr<E, Q> ctr(k.R, k.C), ex(k.R, k.C); ex.SetTruncateParams(BMPSTruncateParams<double>::SVD(1, 4096, 0.0)); ex.Init(k.net);
  int sch = (int) s.draw(3);
  ctr.SetTruncateParams(sch == 0 ? BMPSTruncateParams<double>::SVD(1, cap, 0.0) : sch == 1 ? BMPSTruncateParams<double>::Variational2Site(1, cap, 0.0, 1e-12, 20) : BMPSTruncateParams<double>::Variational1Site(1, cap, 0.0, 1e-12, 20));
  ctr.Init(k.net);
  auto pos = (BMPSPOSITION) s.draw(4); size_t S = (pos == UP || pos == DOWN) ? k.R : k.C;
  for (size_t i = 1; i < (QGen<Q>::sym ? 2 : S); ++i) { ctr.GrowBMPSStep(k.net, pos); }
  size_t mx = 0;
  for (auto &b : ctr.GetBMPS(pos)) for (size_t i = 0; i < b.size(); ++i) { mx = std::max({mx, b[i].GetShape()[0], b[i].GetShape()[2]}); }
  PBT_ASSERT(mx <= cap, "bond dimension ", mx, " above the cap ", cap);
  // first truncated layer of the SVD scheme: error bounded by the discarded weight of the exact boundary's cuts
  ex.GrowFullBMPS(k.net, pos);
  auto y = dense(ex.GetBMPS(pos)[1]), x = dense(ctr.GetBMPS(pos)[1]); double nn = 0, dd = 0; for (size_t i = 0; i < y.size(); ++i) { nn += std::norm(y[i]); dd += std::norm(x[i] - y[i]); }
  if (nn > 0 && k.mode != 2) {
    // discarded weight over all cuts, from dense SVDs of the exact vector
    const auto &b = ex.GetBMPS(pos)[1]; double disc = 0; size_t left = 1, tot = y.size();
    for (size_t i = 0; i + 1 < b.size(); ++i) {
      left *= b[i].GetShape()[1]; dla::Mat<cd> M(left, tot / left), U_, V_; std::vector<double> sv; for (size_t p = 0; p < left; ++p) for (size_t q = 0; q < tot / left; ++q) M(p, q) = cd(y[p * (tot / left) + q]);
      dla::svd(M, U_, sv, V_); for (size_t q = cap; q < sv.size(); ++q) disc += sv[q] * sv[q];
    }
    double f = 1 + 1e-6;
    if (!QGen<Q>::sym || sch == 0) PBT_ASSERT(dd <= f * disc + 1e-10 * nn, "one compressed layer (scheme ", sch, ", cap ", cap, ") is off by ", dd, " although the discarded weight is only ", disc, " of ", nn);
    if (disc > 1e-12 * nn) s.nontrivial(true);
  }
}
#ifndef BT
#define BT 0
#endif
using EE = std::conditional_t<BT % 2, cd, double>; using QQ = std::conditional_t<BT / 2, U1, Trv>;
template<class F> void pickT(Src &, F f) { f(EE(), QQ()); }
}  // namespace
#ifndef PART_TRUNC
PBT_PROP(on_demand_environments, 300, 20000, "two environments and an update in between") { pickT(s, [&](auto e, auto q) { on_demand<decltype(e), decltype(q)>(s); }); }
PBT_PROP(window_sweeps, 120, 8000, "an accepted update inside a window or two sweeps") { pickT(s, [&](auto e, auto q) { windows<decltype(e), decltype(q)>(s); }); }
PBT_PROP(boundary_walkers, 200, 12000, "the walker absorbed at least one layer") { pickT(s, [&](auto e, auto q) { walkers<decltype(e), decltype(q)>(s); }); }
#endif
#ifndef PART_ENV
PBT_PROP(low_rank_truncation, 200, 12000, "rank at least 2 over at least 3 rows") { truncation<EE, Trv>(s); }
PBT_PROP(truncation_cap, 150, 9000, "the cap really discards weight") { pickT(s, [&](auto e, auto q) { cap_only<decltype(e), decltype(q)>(s); }); }
#endif
