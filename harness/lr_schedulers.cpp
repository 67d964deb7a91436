// C01 / C02: learning-rate schedules against long-double reference laws, plateau state machine, cloning.
#include "pbt.hpp"
#include "qlpeps/optimizer/lr_schedulers.h"
#include <memory>
using namespace qlpeps;
using pbt::Src;
using ld = long double;

namespace {
double lr_val(Src &s) {
  switch (s.freq({3, 2, 1})) {
    case 0: return (double) s.range(1, 32) / 32.0;
    case 1: return s.logreal(-8, 2);
    default: return 0.0;
  }
}
size_t iter_val(Src &s, size_t pivot) {  // biased to the neighbourhood of a pivot (step, milestone, horizon)
  switch (s.freq({3, 4, 2, 1})) {
    case 0: return s.urange(0, 40);
    case 1: { int64_t d = s.range(-2, 2); int64_t v = (int64_t) pivot * s.range(1, 3) + d; return v < 0 ? 0 : (size_t) v; }
    case 2: return s.urange(0, 5000);
    default: return s.urange(0, 4000000000ull);
  }
}
size_t horizon(Src &s) { switch (s.freq({8, 7, 1})) { case 0: return s.urange(1, 12); case 1: return s.urange(1, 1000); default: return s.urange(1, 1000000000ull); } }
bool near(double got, ld want, double rel) {
  if (!std::isfinite(got)) return false;
  return fabsl((ld) got - want) <= (ld) rel * fabsl(want) + 1e-300L;
}
std::string field(const std::string &d, const std::string &key) {  // value text of "key=" in a description
  size_t p = 0;
  while ((p = d.find(key + "=", p)) != std::string::npos) {
    if (p == 0 || d[p - 1] == ' ' || d[p - 1] == ',') break;
    ++p;
  }
  if (p == std::string::npos) return "<missing>";
  p += key.size() + 1;
  size_t e = p; int depth = 0;
  while (e < d.size() && (depth || d[e] != ',')) { if (d[e] == '[') ++depth; if (d[e] == ']') --depth; ++e; }
  return d.substr(p, e - p);
}
void same_double(const std::string &d, const char *key, double v) {
  std::string f = field(d, key);
  double got = std::strtod(f.c_str(), nullptr);
  PBT_ASSERT(f != "<missing>" && got == v, "description '", d, "' does not reproduce ", key, "=", v);
}
void same_size(const std::string &d, const char *key, size_t v) {
  std::string f = field(d, key);
  PBT_ASSERT(f == std::to_string(v), "description '", d, "' does not reproduce ", key, "=", v);
}
}  // namespace

#ifdef PART_C01
struct Case { std::unique_ptr<LearningRateScheduler> sch; std::function<ld(size_t)> ref; size_t pivot; double lo, hi; int mono; std::function<void(const std::string &)> desc; double rel = 1e-10; };

static Case make(Src &s) {
  Case c;
  switch (s.draw(6)) {
    case 0: {
      double a = lr_val(s); s.note("Constant(", a, ")"); s.label("constant");
      c.sch = std::make_unique<ConstantLR>(a); c.ref = [=](size_t) { return (ld) a; }; c.pivot = 1; c.lo = c.hi = a; c.mono = 0;
      c.desc = [=](const std::string &d) { same_double(d, "lr", a); };
      break;
    }
    case 1: {
      double a = lr_val(s), g = s.boolean() ? (double) s.range(1, 16) / 16.0 : s.real(0.2, 1.0); size_t n = horizon(s);
      s.note("Exponential(", a, ",", g, ",", n, ")"); s.label("exponential");
      c.sch = std::make_unique<ExponentialDecayLR>(a, g, n); c.ref = [=](size_t t) { return (ld) a * powl((ld) g, (ld) t / (ld) n); };
      c.pivot = n; c.lo = 0; c.hi = a; c.mono = -1;
      c.desc = [=](const std::string &d) { same_double(d, "initial_lr", a); same_double(d, "decay_rate", g); same_size(d, "decay_steps", n); };
      break;
    }
    case 2: {
      double a = lr_val(s), g = s.boolean() ? (double) s.range(1, 16) / 16.0 : s.real(0.1, 1.0); size_t n = horizon(s);
      bool dflt = s.chance(1, 8); if (dflt) g = 0.1;
      s.note("Step(", a, ",", n, ",", g, ")"); s.label("step");
      c.sch = dflt ? std::make_unique<StepLR>(a, n) : std::make_unique<StepLR>(a, n, g);
      c.ref = [=](size_t t) { return (ld) a * powl((ld) g, (ld) (t / n)); };
      c.pivot = n; c.lo = 0; c.hi = a; c.mono = -1;
      c.desc = [=](const std::string &d) { same_double(d, "initial_lr", a); same_double(d, "gamma", g); same_size(d, "step_size", n); };
      break;
    }
    case 3: {
      double hi = lr_val(s), lo = s.boolean() ? 0.0 : hi * s.unit(); size_t n = s.chance(1, 10) ? 0 : horizon(s);
      s.note("Cosine(", hi, ",", n, ",", lo, ")"); s.label("cosine");
      c.sch = lo == 0 && s.boolean() ? std::make_unique<CosineAnnealingLR>(hi, n) : std::make_unique<CosineAnnealingLR>(hi, n, lo);
      c.ref = [=](size_t t) -> ld {
        if (n == 0 || t >= n) return lo;
        return (ld) lo + ((ld) hi - lo) * (1.0L + cosl(acosl(-1.0L) * (ld) t / (ld) n)) / 2;
      };
      c.pivot = n; c.lo = lo; c.hi = hi; c.mono = -1; c.rel = 1e-9;
      c.desc = [=](const std::string &d) { same_double(d, "eta_max", hi); same_double(d, "eta_min", lo); same_size(d, "T_max", n); };
      break;
    }
    case 4: {
      double hi = lr_val(s), lo = s.boolean() ? 0.0 : hi * s.unit(); size_t n = s.chance(1, 10) ? 0 : horizon(s);
      s.note("Warmup(", hi, ",", n, ",", lo, ")"); s.label("warmup");
      c.sch = lo == 0 && s.boolean() ? std::make_unique<WarmupLR>(hi, n) : std::make_unique<WarmupLR>(hi, n, lo);
      c.ref = [=](size_t t) -> ld {
        if (n == 0 || t + 1 >= n) return hi;
        return (ld) lo + ((ld) hi - lo) * ((ld) t + 1) / (ld) n;
      };
      c.pivot = n; c.lo = lo; c.hi = hi; c.mono = 1;
      c.desc = [=](const std::string &d) { same_double(d, "base_lr", hi); same_double(d, "start_lr", lo); same_size(d, "warmup_steps", n); };
      break;
    }
    default: {
      double a = lr_val(s), g = s.boolean() ? (double) s.range(1, 16) / 16.0 : s.real(0.1, 1.0);
      std::vector<size_t> ms(s.urange(0, s.chance(1, 10) ? 70 : 6)); for (auto &m : ms) m = s.chance(1, 30) ? s.urange(0, 3000000000ull) : s.urange(0, s.boolean() ? 20 : 3000);
      s.note("MultiStep(", a, ",", pbt::show(ms), ",", g, ")"); s.label("multistep");
      if (!std::is_sorted(ms.begin(), ms.end())) s.label("unsorted-milestones");
      c.sch = std::make_unique<MultiStepLR>(a, ms, g);
      c.ref = [=](size_t t) { size_t k = 0; for (size_t m : ms) if (m <= t) ++k; ld r = a; for (size_t i = 0; i < k; ++i) r *= g; return r; };
      c.pivot = ms.empty() ? 1 : ms[s.draw(ms.size())]; c.lo = 0; c.hi = a; c.mono = -1;
      auto sorted = ms; std::sort(sorted.begin(), sorted.end());
      c.desc = [=](const std::string &d) {
        same_double(d, "initial_lr", a); same_double(d, "gamma", g);
        std::string f = field(d, "milestones"); std::vector<size_t> got; std::string num;
        for (char ch : f) { if (isdigit((unsigned char) ch)) num += ch; else if (!num.empty()) { got.push_back(std::stoull(num)); num.clear(); } }
        std::sort(got.begin(), got.end());
        PBT_ASSERT(got == sorted, "description '", d, "' does not list the milestones");
      };
    }
  }
  return c;
}

PBT_PROP(schedule_law, 60000, 3000000, "a schedule of one of the six stateless kinds with generated parameters, queried at 1..12 iterations biased to its breakpoints; non-trivial if some query lies at or beyond a breakpoint neighbourhood") {
  Case c = make(s);
  size_t k = s.urange(1, 12);
  std::unique_ptr<LearningRateScheduler> clone;
  for (size_t q = 0; q < k; ++q) {
    size_t t = iter_val(s, c.pivot);
    double energy = s.mixed(-3, 5);
    if (s.chance(1, 6)) c.sch->Step();
    if (s.chance(1, 4)) clone = c.sch->Clone();
    double got = c.sch->GetLearningRate(t, energy);
    s.note(" t=", t);
    ld want = c.ref(t);
    // cosine: cancellation near the bottom is absolute in units of eta_max
    ld slack = c.mono == -1 && c.rel == 1e-9 ? 1e-12L * c.hi : 0;
    PBT_ASSERT(near(got, want, c.rel) || fabsl((ld) got - want) <= slack, "lr at iteration ", t, " is ", got, ", law says ", (double) want);
    PBT_ASSERT(got >= c.lo - 1e-12 * (c.hi + 1e-300) && got <= c.hi * (1 + 1e-12), "lr ", got, " outside [", c.lo, ",", c.hi, "]");
    PBT_ASSERT(c.sch->GetLearningRate(t, s.mixed()) == got, "same iteration asked twice gives different rates");
    if (clone) PBT_ASSERT(clone->GetLearningRate(t, energy) == got, "clone disagrees at iteration ", t);
    size_t t2 = t + s.urange(0, 5);
    double g2 = c.sch->GetLearningRate(t2, energy);
    double tol = 1e-12 * std::max(std::abs(got), std::abs(g2)) + 1e-13 * c.hi;
    if (c.mono < 0) PBT_ASSERT(g2 <= got + tol, "rate grows from iteration ", t, " (", got, ") to ", t2, " (", g2, ")");
    if (c.mono > 0) PBT_ASSERT(g2 >= got - tol, "warm-up rate falls from iteration ", t, " (", got, ") to ", t2, " (", g2, ")");
    if (c.mono == 0) PBT_ASSERT(g2 == got, "constant rate changes");
    if (t + 2 >= c.pivot) s.nontrivial();
  }
  auto cl = c.sch->Clone();
  PBT_ASSERT(cl->Name() == c.sch->Name() && !cl->Name().empty(), "clone changes kind");
  PBT_ASSERT(cl->Describe() == c.sch->Describe(), "clone has another description: ", cl->Describe(), " vs ", c.sch->Describe());
  c.desc(c.sch->Describe());
}
#endif

#ifdef PART_C02
namespace {
struct Model {
  ld lr; double factor; size_t patience; double thr; bool has_best = false; double best = 0; size_t bad = 0;
  ld step(double e, bool &decayed) {
    decayed = false;
    if (!has_best || e < best - thr) { has_best = true; best = e; bad = 0; }
    else if (++bad >= patience) { lr *= factor; bad = 0; best = e; decayed = true; }
    return lr;
  }
};
}
PBT_PROP(plateau_history, 40000, 2000000, "histories of 1..60 energy reports over a tree of schedulers grown by cloning (energies on a dyadic grid so the improvement threshold is hit exactly); non-trivial if a decay happened and a clone was queried after diverging") {
  double lr = lr_val(s), f = (double) s.range(1, 15) / 16.0, thr = s.pick<double>({0.0, 1e-4, 0.25, 0.5, 1.0});
  size_t pat = s.urange(1, s.boolean() ? 3 : 12);
  bool dflt = s.chance(1, 10);
  if (dflt) { f = 0.5; pat = 10; thr = 1e-4; }
  bool lng = s.chance(1, 60); if (lng && !dflt) pat = s.urange(1, 400);   // counters must not wrap or saturate
  s.note("Plateau(", lr, ",", f, ",", pat, ",", thr, "):");
  std::vector<std::unique_ptr<LearningRateScheduler>> sch; std::vector<Model> mod;
  sch.push_back(dflt ? std::make_unique<PlateauLR>(lr) : std::make_unique<PlateauLR>(lr, f, pat, thr));
  mod.push_back({(ld) lr, f, pat, thr});
    size_t n = s.urange(1, lng ? 1200 : 60); bool decays = false, div = false;
  double e = (double) s.range(-8, 8);
  for (size_t k = 0; k < n; ++k) {
    size_t w = s.draw(sch.size());
    if (sch.size() < 4 && s.chance(1, 8)) { sch.push_back(sch[w]->Clone()); mod.push_back(mod[w]); s.note(" clone", w); 
      PBT_ASSERT(sch.back()->Describe() == sch[w]->Describe() && sch.back()->Name() == sch[w]->Name(), "clone described differently"); }
    if (lng && !s.chance(1, 300)) ;                                       // long stall
    else if (s.chance(1, 3)) e = (double) s.range(-64, 64) / 4.0;            // jump
    else e -= (double) s.range(-2, 3) * (thr >= 0.25 ? thr : 0.25);     // drift across the threshold
    if (!lng && s.chance(1, 5)) e = mod[w].best - thr;                           // exactly at the threshold: not an improvement
    bool d; ld want = mod[w].step(e, d);
    if (d) decays = true;
    if (w > 0) div = true;
    if (s.chance(1, 8)) sch[w]->Step();
    double got = sch[w]->GetLearningRate(k, e);
    s.note(" ", w, ":", e);
    PBT_ASSERT(near(got, want, 1e-11), "report ", k, " scheduler ", w, ": rate ", got, ", expected ", (double) want);
    PBT_ASSERT(got <= lr * (1 + 1e-12), "plateau rate rose above its initial value");
    same_double(sch[w]->Describe(), "current_lr", got);
    same_double(sch[w]->Describe(), "factor", f);
    same_double(sch[w]->Describe(), "threshold", thr);
    same_size(sch[w]->Describe(), "patience", pat);
  }
  s.nontrivial(decays);
  if (decays) s.label("decayed"); if (div) s.label("clone-used");
}
#endif
