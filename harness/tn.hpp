// Helpers shared by the tensor-network harnesses: generators for networks and the exact reference contraction.
// The reference contraction works on plain arrays and uses neither repository code nor the stand-in's Contract.
#pragma once
#include <complex>
#include <random>
#include <vector>
#include "qlten/qlten.h"
namespace tn {
using cd = std::complex<double>;
using qlten::QLTensor; using qlten::Index; using qlten::QNSector; using qlten::IN; using qlten::OUT;

template<class E> E mkelem(double a, double b) { if constexpr (qlten::is_cplx<E>::value) return E(a, b); else { (void) b; return E(a); } }
// random element; mode 0 = uniform in [-1,1], 1 = uniform in [0,1], 2 = small integers, 3 = wide magnitudes
template<class E> E relem(std::mt19937_64 &g, int mode) {
  std::uniform_real_distribution<double> u(-1, 1);
  auto one = [&]() { switch (mode) { case 1: return std::abs(u(g)) + 0.05; case 2: { double k = std::floor(u(g) * 3); return k == 0 ? 3.0 : k; } case 3: { double m = std::pow(10.0, 1.5 * u(g)); return u(g) < 0 ? -m : m; } default: return u(g); } };
  double a = one(), b = one(); return mkelem<E>(a, b);
}
template<class E, class Q> void fill(QLTensor<E, Q> &t, const Q &div, std::mt19937_64 &g, int mode) {
  t.div_ = div; std::fill(t.d_.begin(), t.d_.end(), E(0)); t.each([&](size_t o, const qlten::CoorsT &) { t.d_[o] = relem<E>(g, mode); }); t.fix_div();
}
struct Arr { size_t d[4]; std::vector<cd> v; cd at(size_t l, size_t w, size_t r, size_t u) const { return v[((l * d[1] + w) * d[2] + r) * d[3] + u]; } };
template<class E, class Q> Arr arr(const QLTensor<E, Q> &t) { Arr a; for (int i = 0; i < 4; ++i) a.d[i] = t.GetShape()[i]; a.v.assign(t.d_.begin(), t.d_.end()); return a; }
// Exact contraction of an open network; site tensors have legs left, down, right, up.
inline cd exact_obc(const std::vector<std::vector<Arr>> &n, bool absval = false) {
  size_t R = n.size(), C = n[0].size(); std::vector<size_t> vd(C, 1); std::vector<cd> st(1, 1.0); size_t hd = 1;
  for (size_t r = 0; r < R; ++r) {
    hd = 1;
    for (size_t c = 0; c < C; ++c) {
      const Arr &t = n[r][c]; size_t pre = 1, post = 1; for (size_t k = 0; k < c; ++k) pre *= vd[k]; for (size_t k = c + 1; k < C; ++k) post *= vd[k];
      std::vector<cd> ns(pre * t.d[1] * post * t.d[2], 0.0);
      for (size_t p = 0; p < pre; ++p) for (size_t u = 0; u < t.d[3]; ++u) for (size_t q = 0; q < post; ++q) for (size_t l = 0; l < t.d[0]; ++l) {
        cd x = st[((p * vd[c] + u) * post + q) * hd + l]; if (x == 0.0) continue;
        for (size_t w = 0; w < t.d[1]; ++w) for (size_t rr = 0; rr < t.d[2]; ++rr) { cd y = t.at(l, w, rr, u); if (absval) y = std::abs(y); ns[((p * t.d[1] + w) * post + q) * t.d[2] + rr] += x * y; }
      }
      vd[c] = t.d[1]; hd = t.d[2]; st.swap(ns);
    }
  }
  return st.at(0);
}
// Exact contraction on the torus (legs of the last column / row wrap around).
inline cd exact_pbc(const std::vector<std::vector<Arr>> &n, bool absval = false) {
  size_t R = n.size(), C = n[0].size();
  std::vector<size_t> top(C); size_t T = 1; for (size_t c = 0; c < C; ++c) { top[c] = n[0][c].d[3]; T *= top[c]; }
  cd total = 0;
  for (size_t t0 = 0; t0 < T; ++t0) {
    std::vector<size_t> vd = top; std::vector<cd> st(T, 0.0); st[t0] = 1.0;
    for (size_t r = 0; r < R; ++r) {
      size_t H = n[r][0].d[0]; std::vector<cd> acc; std::vector<size_t> nvd = vd;
      for (size_t h0 = 0; h0 < H; ++h0) {
        std::vector<size_t> cv = vd; size_t hd = H; std::vector<cd> s(st.size() * H, 0.0); for (size_t i = 0; i < st.size(); ++i) s[i * H + h0] = st[i];
        for (size_t c = 0; c < C; ++c) {
          const Arr &t = n[r][c]; size_t pre = 1, post = 1; for (size_t k = 0; k < c; ++k) pre *= cv[k]; for (size_t k = c + 1; k < C; ++k) post *= cv[k];
          std::vector<cd> ns(pre * t.d[1] * post * t.d[2], 0.0);
          for (size_t p = 0; p < pre; ++p) for (size_t u = 0; u < t.d[3]; ++u) for (size_t q = 0; q < post; ++q) for (size_t l = 0; l < t.d[0]; ++l) {
            cd x = s[((p * cv[c] + u) * post + q) * hd + l]; if (x == 0.0) continue;
            for (size_t w = 0; w < t.d[1]; ++w) for (size_t rr = 0; rr < t.d[2]; ++rr) { cd y = t.at(l, w, rr, u); if (absval) y = std::abs(y); ns[((p * t.d[1] + w) * post + q) * t.d[2] + rr] += x * y; }
          }
          cv[c] = t.d[1]; hd = t.d[2]; s.swap(ns);
        }
        size_t V = s.size() / hd; if (acc.empty()) acc.assign(V, 0.0); for (size_t i = 0; i < V; ++i) acc[i] += s[i * hd + h0]; nvd = cv;
      }
      st.swap(acc); vd = nvd;
    }
    total += st[t0];
  }
  return total;
}
template<class Q> struct QGen;   // bond index generator per symmetry
template<> struct QGen<qlten::special_qn::TrivialRepQN> {
  using Q = qlten::special_qn::TrivialRepQN;
  static Index<Q> bond(std::mt19937_64 &g, size_t dmax, qlten::TenIndexDirType d) { return Index<Q>({QNSector<Q>(Q(), 1 + g() % dmax)}, d); }
  static Index<Q> one(qlten::TenIndexDirType d) { return Index<Q>({QNSector<Q>(Q(), 1)}, d); }
  static Q charge(int) { return Q(); }
  static constexpr bool sym = false;
};
template<> struct QGen<qlten::special_qn::U1QN> {
  using Q = qlten::special_qn::U1QN;
  static Index<Q> bond(std::mt19937_64 &g, size_t dmax, qlten::TenIndexDirType d) {
    std::vector<QNSector<Q>> v; size_t tot = 0; for (int q : {0, 1, -1}) { if (tot >= dmax + 1) break; if (q != 0 && g() % 3 == 0) continue; size_t k = 1 + (q == 0 ? g() % 2 : 0); v.emplace_back(Q(q), k); tot += k; }
    return Index<Q>(v, d);
  }
  static Index<Q> one(qlten::TenIndexDirType d) { return Index<Q>({QNSector<Q>(Q(0), 1)}, d); }
  static Q charge(int c) { return Q(c); }
  static constexpr bool sym = true;
};
template<class E> double absd(const E &x) { return std::abs(x); }
}  // namespace tn
namespace tn {
template<> struct QGen<qlten::special_qn::fZ2QN> {
  using Q = qlten::special_qn::fZ2QN;
  static Index<Q> bond(std::mt19937_64 &g, size_t dmax, qlten::TenIndexDirType d) {
    size_t a = 1 + g() % dmax, b = g() % 3 ? 1 : 0; std::vector<QNSector<Q>> v; v.emplace_back(Q(0), a); if (b) v.emplace_back(Q(1), b); return Index<Q>(v, d);
  }
  static Index<Q> one(qlten::TenIndexDirType d) { return Index<Q>({QNSector<Q>(Q(0), 1)}, d); }
  static Q charge(int c) { return Q(((c % 2) + 2) % 2); }
  static constexpr bool sym = true;
};
}  // namespace tn
