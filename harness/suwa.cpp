// C08: Suwa-Todo state update.  Transition probabilities are measured by feeding a stratified 64-bit generator.
#include "pbt.hpp"
#include "qlpeps/vmc_basic/monte_carlo_tools/suwa_todo_update.h"
using namespace qlpeps;
using pbt::Src;
namespace {
struct Strat {  // first call of an update returns the stratum value, later calls pseudo-random values
  using result_type = uint64_t; static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return ~0ull; }
  uint64_t first = 0, st = 12345; int calls = 0;
  uint64_t operator()() { return calls++ == 0 ? first : pbt::SplitMix(st); }
};
std::vector<double> gen_weights(Src &s) {
  size_t n = s.chance(1, 12) ? s.urange(9, 40) : s.urange(1, 8); int kind = (int) s.draw(6); std::vector<double> w(n);
  for (auto &x : w) switch (kind) {
    case 0: x = (double) s.range(0, 4); break;
    case 1: x = s.unit(); break;
    case 2: x = s.logreal(-6, 3); break;
    case 3: x = 1.0; break;
    case 4: x = s.chance(1, 3) ? 0.0 : s.real(0.1, 1); break;
    default: x = s.real(0, 0.2); 
  }
  if (kind == 5) w[s.draw(n)] = s.real(0.5, 5);                 // one dominant state
  double sc = s.freq({4, 1}) == 0 ? 1.0 : std::ldexp(1.0, (int) s.range(-300, 300)); for (auto &x : w) x *= sc;
  bool any = false; for (double x : w) any |= x > 0; if (!any) w[s.draw(n)] = 1.0;
  return w;
}
}
PBT_PROP(balance, 6000, 300000, "weight vectors (ties, zeros, a dominant state, wide scales); all current states; K stratified uniforms each; non-trivial if >=3 positive weights") {
  auto w = gen_weights(s); size_t n = w.size(); s.note(pbt::show(w));
  double S = 0, wmax = 0; size_t pos = 0; for (double x : w) { S += x; wmax = std::max(wmax, x); pos += x > 0; }
  const int K = n <= 8 && s.chance(1, 60) ? 12000 : 400; uint64_t stride = ~0ull / K; uint64_t off = s.draw(stride);
  std::vector<std::vector<double>> P(n, std::vector<double>(n, 0.0)); int maxcalls = 0;
  for (size_t i = 0; i < n; ++i) { if (!(w[i] > 0)) continue;
    for (int k = 0; k < K; ++k) {
      Strat g; g.first = stride * k + off; g.st = (uint64_t) k * 7919 + i;
      size_t j = SuwaTodoStateUpdate(i, w, g); maxcalls = std::max(maxcalls, g.calls);
      PBT_ASSERT(j < n, "state ", j, " out of range from ", i);
      PBT_ASSERT(w[j] > 0, "moved from ", i, " into zero-weight state ", j);
      P[i][j] += 1.0 / K; } }
  // one uniform per update: strata bound the error by 2/K per entry; otherwise a 7 sigma statistical bound
  double tol = maxcalls <= 1 ? 2.5 / K : 7.0 * 0.5 / std::sqrt((double) K);
  for (size_t j = 0; j < n; ++j) { double in = 0; for (size_t i = 0; i < n; ++i) in += w[i] / S * P[i][j];
    PBT_ASSERT(std::abs(in - w[j] / S) <= tol, "balance broken: inflow into ", j, " is ", in, ", weight share ", w[j] / S); }
  // minimal rejection: only a state heavier than all the others together may stay, with probability (2w-S)/w
  for (size_t i = 0; i < n; ++i) if (w[i] > 0) { double stay = std::max(0.0, (2 * w[i] - S) / w[i]);
    double t = maxcalls <= 1 ? 2.5 / K : tol;
    PBT_ASSERT(std::abs(P[i][i] - stay) <= t, "state ", i, " stays with probability ", P[i][i], ", minimal-rejection value ", stay); }
  s.nontrivial(pos >= 3); if (2 * wmax > S) s.label("dominant"); else s.label("rejection-free");
  for (double x : w) if (x == 0) { s.label("zero-weight"); break; }
}
PBT_PROP(extreme_uniforms, 30000, 1000000, "uniform draws at the extreme ends (0, max, near stratum boundaries) and 32-bit generators; non-trivial if n>=2") {
  auto w = gen_weights(s); size_t n = w.size(); s.note(pbt::show(w)); std::vector<size_t> ok; for (size_t i = 0; i < n; ++i) if (w[i] > 0) ok.push_back(i);
  size_t i = ok[s.draw(ok.size())]; s.note(" from ", i);
  for (int k = 0; k < 6; ++k) {
    Strat g; switch (s.draw(4)) { case 0: g.first = 0; break; case 1: g.first = ~0ull; break; case 2: g.first = ~0ull - s.draw(4096); break; default: g.first = s.draw(); }
    size_t j = SuwaTodoStateUpdate(i, w, g);
    PBT_ASSERT(j < n && w[j] > 0, "state ", j, " invalid for uniform ", g.first);
  }
  std::mt19937 r((uint32_t) s.draw(1u << 31)); std::mt19937_64 r2(s.draw());
  auto keep = w;
  for (int k = 0; k < 8; ++k) { size_t j = SuwaTodoStateUpdate(i, w, r); PBT_ASSERT(j < n && w[j] > 0, "mt19937 state ", j); j = SuwaTodoStateUpdate(i, w, r2); PBT_ASSERT(j < n && w[j] > 0, "mt19937_64 state ", j); }
  PBT_ASSERT(keep == w, "caller's weights modified");
  s.nontrivial(n >= 2);
}
PBT_PROP(alias_and_scale, 8000, 300000, "same generator stream: deprecated alias agrees, and multiplying all weights by a power of two changes nothing; non-trivial if n>=2") {
  auto w = gen_weights(s); size_t n = w.size(); std::vector<size_t> ok; for (size_t i = 0; i < n; ++i) if (w[i] > 0) ok.push_back(i); size_t i = ok[s.draw(ok.size())];
  auto w2 = w; double f = std::ldexp(1.0, (int) s.range(-40, 40)); for (auto &x : w2) x *= f; uint64_t seed = s.draw(); s.note(pbt::show(w), " x", f);
  std::mt19937_64 a(seed), b(seed), c(seed);
  for (int k = 0; k < 10; ++k) { size_t p = SuwaTodoStateUpdate(i, w, a), q = SuwaTodoStateUpdate(i, w2, b), r = NonDBMCMCStateUpdate(i, w, c); PBT_ASSERT(p == q, "rescaled weights give another state"); PBT_ASSERT(p == r, "alias differs"); }
  s.nontrivial(n >= 2);
}
