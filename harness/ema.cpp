// C03: exponential moving average tracker and event-name tables.
#include "pbt.hpp"
#include "qlpeps/optimizer/spike_detection.h"
using namespace qlpeps;
using pbt::Src;
using ld = long double;
namespace {
struct Model { ld a; bool init = false; ld m = 0, v = 0, err = 0, mag = 0;
  explicit Model(size_t w) : a(2.0L / ((ld) w + 1)) {}
  // weighted-history definition, evaluated incrementally in long double
  void up(double x) { mag = std::max(mag, fabsl((ld) x)); if (!init) { init = true; m = x; v = err = 0; return; } ld d = (ld) x - m;
    ld del = 100 * 2.3e-16L * mag; err = (1 - a) * err + a * (2 * fabsl(d) * del + del * del) + 1e-15L * a * d * d; ld nm = (1 - a) * m + a * x; v = (1 - a) * v + a * (1 - a) * d * d; m = nm; }
  void reset() { init = false; m = v = err = mag = 0; } };
}
PBT_PROP(ema_history, 40000, 2000000, "histories of update/reset/copy over up to 3 trackers with generated windows; non-trivial if some tracker saw at least 3 distinct values") {
  struct T { EMATracker t; Model m; size_t w; std::vector<double> h; };
  std::vector<T> ts;
  auto win = [&]() -> size_t { return s.freq({3, 1, 1}) == 0 ? s.urange(1, 12) : s.urange(1, 5000); };
  bool dflt = s.chance(1, 8);
  size_t w0 = dflt ? 50 : win();
  ts.push_back({dflt ? EMATracker() : EMATracker(w0), Model(w0), w0, {}});
  PBT_ASSERT(!ts[0].t.IsInitialized(), "fresh tracker claims to be initialised");
  int kind = (int) s.draw(4); double base = s.mixed(-4, 6), scale = kind == 0 ? 0 : s.logreal(-6, 4); double hi = std::abs(base) + scale;
  s.note("w=", w0, " ");
  size_t n = s.urange(1, s.chance(1, 40) ? 700 : 60);
  for (size_t k = 0; k < n; ++k) {
    T &t = ts[s.draw(ts.size())];
    switch (s.freq({12, 1, 1})) {
      case 0: {
        double x = kind == 0 ? base : kind == 1 ? base + scale * s.real(-1, 1) : kind == 2 ? base + scale * (double) s.range(-3, 3) : s.mixed(-6, 6);
        hi = std::max(hi, std::abs(x));
        t.t.Update(x); t.m.up(x); t.h.push_back(x); s.note("u", x, " "); break;
      }
      case 1: t.t.Reset(); t.m.reset(); t.h.clear(); s.note("reset "); s.label("reset"); break;
      default: if (ts.size() < 3) { T c = t; ts.push_back(c); s.note("copy "); s.label("copy"); }
    }
    for (auto &x : ts) {
      PBT_ASSERT(x.t.IsInitialized() == x.m.init, "initialised flag");
      double mag = 1e-300 + (double) x.m.mag;
      PBT_ASSERT(std::abs(x.t.Mean() - (double) x.m.m) <= 3e-14 * mag, "mean ", x.t.Mean(), " expected ", (double) x.m.m);
      PBT_ASSERT(std::abs(x.t.Var() - (double) x.m.v) <= 1e-12 * (double) x.m.v + (double) x.m.err + 1e-300, "variance ", x.t.Var(), " expected ", (double) x.m.v);
      PBT_ASSERT(x.t.Var() >= 0, "negative variance");
      PBT_ASSERT(pbt::close(x.t.Std() * x.t.Std(), x.t.Var(), 1e-12, 1e-300), "std^2 != var");
      if (!x.h.empty()) {
        auto [lo, up] = std::minmax_element(x.h.begin(), x.h.end());
        PBT_ASSERT(x.t.Mean() >= *lo - 1e-12 * mag && x.t.Mean() <= *up + 1e-12 * mag, "mean outside the range of the data");
        if (*lo == *up) PBT_ASSERT(x.t.Mean() == *lo && x.t.Var() == 0, "constant series: mean ", x.t.Mean(), " var ", x.t.Var());
        if (x.h.size() == 1) PBT_ASSERT(x.t.Mean() == x.h[0] && x.t.Var() == 0, "first observation must be taken as is");
        if (std::set<double>(x.h.begin(), x.h.end()).size() >= 3) s.nontrivial();
      }
    }
  }
}
PBT_PROP(ema_affine, 15000, 400000, "metamorphic: tracking a*x+b gives mean a*m+b and variance a^2 v; non-trivial if the series is not constant") {
  size_t w = s.urange(1, 200), n = s.urange(2, 40); double a = s.mixed(-2, 2), b = s.mixed(-2, 2);
  EMATracker p(w), q(w); double hi = 0; bool nc = false; double prev = 0;
  s.note("w=", w, " a=", a, " b=", b);
  for (size_t i = 0; i < n; ++i) { double x = s.mixed(-2, 2); p.Update(x); q.Update(a * x + b); hi = std::max({hi, std::abs(x), std::abs(a * x + b), std::abs(a * x), std::abs(b)}); if (i && x != prev) nc = true; prev = x; }
  PBT_ASSERT(std::abs(q.Mean() - (a * p.Mean() + b)) <= 1e-12 * (hi + std::abs(a) * hi + 1e-300), q.Mean(), " vs ", a * p.Mean() + b);
  PBT_ASSERT(std::abs(q.Var() - a * a * p.Var()) <= 1e-9 * a * a * p.Var() + 1e-12 * (hi * hi + 1e-300), q.Var(), " vs ", a * a * p.Var());
  s.nontrivial(nc);
}
PBT_PROP(names_total, 2000, 2000, "pairs of enumerators; non-trivial if they differ") {
  std::vector<SpikeSignal> sg{SpikeSignal::kNone, SpikeSignal::kS1_ErrorbarSpike, SpikeSignal::kS2_GradientNormSpike, SpikeSignal::kS3_NaturalGradientAnomaly, SpikeSignal::kS4_EMAEnergySpikeUpward};
  std::vector<std::string> sn{"NONE", "S1_ERRORBAR", "S2_GRAD_NORM", "S3_NGRAD_ANOMALY", "S4_ENERGY_SPIKE"};
  std::vector<SpikeAction> ac{SpikeAction::kAccept, SpikeAction::kResample, SpikeAction::kRollback, SpikeAction::kAcceptWithWarning};
  std::vector<std::string> an{"ACCEPT", "RESAMPLE", "ROLLBACK", "ACCEPT_WARN"};
  SpikeStatistics st; PBT_ASSERT(st.total_resamples == 0 && st.total_rollbacks == 0 && st.total_forced_accepts == 0 && st.event_log.empty(), "fresh statistics are blank");
  size_t i = s.draw(5), j = s.draw(5), k = s.draw(4), l = s.draw(4);
  s.note(i, ",", j, ",", k, ",", l); s.nontrivial(i != j || k != l);
  PBT_ASSERT((std::string(SignalName(sg[i])) == SignalName(sg[j])) == (i == j), "signal names collide");
  PBT_ASSERT((std::string(ActionName(ac[k])) == ActionName(ac[l])) == (k == l), "action names collide");
  PBT_ASSERT(SignalName(sg[i]) == sn[i] && ActionName(ac[k]) == an[k], "logged name changed: ", SignalName(sg[i]), " ", ActionName(ac[k]));
}
