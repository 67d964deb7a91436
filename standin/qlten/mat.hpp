// Small dense linear algebra for the stand-in (no external library; favours accuracy and compile time over speed).
#ifndef STANDIN_MAT_HPP
#define STANDIN_MAT_HPP
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstddef>
#include <limits>
#include <numeric>
#include <random>
#include <vector>
namespace dla {
template<class E> struct Rl { using t = E; static E cj(const E &x) { return x; } };
template<class R> struct Rl<std::complex<R>> { using t = R; static std::complex<R> cj(const std::complex<R> &x) { return std::conj(x); } };
template<class E> struct Mat {   // column major
  size_t r = 0, c = 0; std::vector<E> v;
  Mat() = default;
  Mat(size_t r_, size_t c_) : r(r_), c(c_), v(r_ * c_, E(0)) {}
  E &operator()(size_t i, size_t j) { return v[j * r + i]; }
  const E &operator()(size_t i, size_t j) const { return v[j * r + i]; }
  E *col(size_t j) { return v.data() + j * r; }
  const E *col(size_t j) const { return v.data() + j * r; }
  size_t rows() const { return r; }
  size_t cols() const { return c; }
  Mat adjoint() const { Mat m(c, r); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m(j, i) = Rl<E>::cj((*this)(i, j)); return m; }
  static Mat eye(size_t n) { Mat m(n, n); for (size_t i = 0; i < n; ++i) m(i, i) = E(1); return m; }
};
template<class E> Mat<E> mul(const Mat<E> &a, const Mat<E> &b) { Mat<E> m(a.r, b.c); for (size_t j = 0; j < b.c; ++j) for (size_t k = 0; k < a.c; ++k) { E x = b(k, j); if (x == E(0)) continue; E *o = m.col(j); const E *p = a.col(k); for (size_t i = 0; i < a.r; ++i) o[i] += p[i] * x; } return m; }
template<class E> E dot(const E *a, const E *b, size_t n) { E s(0); for (size_t i = 0; i < n; ++i) s += Rl<E>::cj(a[i]) * b[i]; return s; }
template<class E> typename Rl<E>::t nrm2(const E *a, size_t n) { typename Rl<E>::t s(0); for (size_t i = 0; i < n; ++i) s += std::norm(a[i]); return s; }
// orthonormal completion: make columns [from, to) of q orthonormal to all columns before them
template<class E> void complete(Mat<E> &q, size_t from, size_t to) {
  std::mt19937_64 g(12345); std::uniform_real_distribution<double> u(-1, 1);
  for (size_t j = from; j < to; ++j) for (int tries = 0; tries < 20; ++tries) {
    for (size_t i = 0; i < q.r; ++i) q(i, j) = E(typename Rl<E>::t(u(g)));
    for (int pass = 0; pass < 3; ++pass) for (size_t k = 0; k < j; ++k) { E d = dot(q.col(k), q.col(j), q.r); for (size_t i = 0; i < q.r; ++i) q(i, j) -= d * q(i, k); }
    auto n = std::sqrt(nrm2(q.col(j), q.r)); if (n > 1e-3) { for (size_t i = 0; i < q.r; ++i) q(i, j) /= n; break; }
  }
}
// A = U diag(S) V^H, thin, S descending
template<class E> void svd(const Mat<E> &A, Mat<E> &U, std::vector<typename Rl<E>::t> &S, Mat<E> &V) {
  using R = typename Rl<E>::t;
  if (A.r < A.c) { Mat<E> u, v; svd(A.adjoint(), u, S, v); U = v; V = u; return; }
  size_t m = A.r, n = A.c; Mat<E> W = A, Z = Mat<E>::eye(n); const R eps = std::numeric_limits<R>::epsilon();
  R big = 0; for (auto &x : W.v) big = std::max<R>(big, std::abs(x)); R scale = big > 0 ? big : R(1); for (auto &x : W.v) x /= scale;
  R tot = nrm2(W.v.data(), W.v.size());
  for (int sweep = 0; sweep < 60; ++sweep) {
    bool rot = false;
    for (size_t p = 0; p + 1 < n; ++p) for (size_t q = p + 1; q < n; ++q) {
      R a = nrm2(W.col(p), m), b = nrm2(W.col(q), m); E g = dot(W.col(p), W.col(q), m); R ag = std::abs(g);
      if (ag <= eps * std::sqrt(a * b) || ag <= eps * eps * tot || ag == R(0)) continue;
      rot = true; R z = (b - a) / (2 * ag), t = (z >= 0 ? R(1) : R(-1)) / (std::abs(z) + std::sqrt(1 + z * z)), cs = 1 / std::sqrt(1 + t * t), sn = cs * t; E ph = g / ag;
      auto app = [&](Mat<E> &M) { E *x = M.col(p), *y = M.col(q); E phc = Rl<E>::cj(ph); for (size_t i = 0; i < M.r; ++i) { E xi = x[i], yi = y[i] * phc; x[i] = cs * xi - sn * yi; y[i] = sn * xi + cs * yi; } };
      app(W); app(Z);
    }
    if (!rot) break;
  }
  std::vector<size_t> o(n); std::iota(o.begin(), o.end(), 0); std::vector<R> s(n); for (size_t j = 0; j < n; ++j) s[j] = std::sqrt(nrm2(W.col(j), m));
  std::stable_sort(o.begin(), o.end(), [&](size_t x, size_t y) { return s[x] > s[y]; });
  U = Mat<E>(m, n); V = Mat<E>(n, n); S.assign(n, R(0)); size_t good = n;
  for (size_t k = 0; k < n; ++k) { size_t j = o[k]; S[k] = s[j] * scale; std::copy(Z.col(j), Z.col(j) + n, V.col(k)); if (s[j] > 0) for (size_t i = 0; i < m; ++i) U(i, k) = W(i, j) / s[j]; if (s[j] <= 50 * eps * s[o[0]] && good == n) good = k; }
  if (good < n) complete(U, good, n);
}
// A = Q R, thin (k = min(m,n) columns), R upper triangular
template<class E> void qr(const Mat<E> &A, Mat<E> &Q, Mat<E> &Rm) {
  using R = typename Rl<E>::t; size_t m = A.r, n = A.c, k = std::min(m, n); Mat<E> W = A; std::vector<std::vector<E>> hv;
  for (size_t j = 0; j < k; ++j) {
    std::vector<E> v(W.col(j) + j, W.col(j) + m); R nn = std::sqrt(nrm2(v.data(), v.size())); if (nn == R(0)) { hv.push_back({}); continue; }
    E ph = std::abs(v[0]) > 0 ? v[0] / R(std::abs(v[0])) : E(1); v[0] += ph * nn; R vn = std::sqrt(nrm2(v.data(), v.size())); for (auto &x : v) x /= vn;
    for (size_t c = j; c < n; ++c) { E d = dot(v.data(), W.col(c) + j, m - j) * R(2); for (size_t i = 0; i < m - j; ++i) W(i + j, c) -= d * v[i]; }
    hv.push_back(v);
  }
  Rm = Mat<E>(k, n); for (size_t i = 0; i < k; ++i) for (size_t j = i; j < n; ++j) Rm(i, j) = W(i, j);
  Q = Mat<E>(m, k); for (size_t i = 0; i < k; ++i) Q(i, i) = E(1);
  for (size_t j = k; j-- > 0;) if (!hv[j].empty()) for (size_t c = 0; c < k; ++c) { E d = dot(hv[j].data(), Q.col(c) + j, m - j) * R(2); for (size_t i = 0; i < m - j; ++i) Q(i + j, c) -= d * hv[j][i]; }
}
// Hermitian eigenproblem, ascending eigenvalues, orthonormal eigenvectors in the columns of V (two-sided Jacobi)
template<class E> bool heev(Mat<E> A, std::vector<typename Rl<E>::t> &w, Mat<E> &V) {
  using R = typename Rl<E>::t; size_t n = A.r; V = Mat<E>::eye(n); const R eps = std::numeric_limits<R>::epsilon(); R tot = std::sqrt(nrm2(A.v.data(), A.v.size())); bool done = false;
  for (int sweep = 0; sweep < 100 && !done; ++sweep) {
    done = true;
    for (size_t p = 0; p + 1 < n; ++p) for (size_t q = p + 1; q < n; ++q) {
      E g = A(p, q); R ag = std::abs(g); if (ag <= eps * R(0.1) * std::sqrt(std::abs(std::real(A(p, p)) * std::real(A(q, q)))) || ag <= eps * eps * tot || ag == R(0)) continue;
      if (ag > eps * R(0.05) * tot) done = false; else if (sweep > 6) continue;
      R a = std::real(A(p, p)), b = std::real(A(q, q)), z = (b - a) / (2 * ag), t = (z >= 0 ? R(1) : R(-1)) / (std::abs(z) + std::sqrt(1 + z * z)), cs = 1 / std::sqrt(1 + t * t), sn = cs * t; E ph = g / ag, phc = Rl<E>::cj(ph);
      auto cols = [&](Mat<E> &M) { E *x = M.col(p), *y = M.col(q); for (size_t i = 0; i < M.r; ++i) { E xi = x[i], yi = y[i] * phc; x[i] = cs * xi - sn * yi; y[i] = sn * xi + cs * yi; } };
      cols(A); for (size_t j = 0; j < n; ++j) { E x = A(p, j), y = A(q, j) * ph; A(p, j) = cs * x - sn * y; A(q, j) = sn * x + cs * y; } cols(V);
      A(p, q) = A(q, p) = E(0);
    }
  }
  w.resize(n); std::vector<size_t> o(n); std::iota(o.begin(), o.end(), 0); for (size_t i = 0; i < n; ++i) w[i] = std::real(A(i, i));
  std::stable_sort(o.begin(), o.end(), [&](size_t x, size_t y) { return w[x] < w[y]; }); Mat<E> V2(n, n); std::vector<R> w2(n); for (size_t k = 0; k < n; ++k) { w2[k] = w[o[k]]; std::copy(V.col(o[k]), V.col(o[k]) + n, V2.col(k)); } w = w2; V = V2; return true;
}
using C = std::complex<double>;
inline bool inverse(Mat<C> A, Mat<C> &B) {
  size_t n = A.r; B = Mat<C>::eye(n);
  for (size_t k = 0; k < n; ++k) { size_t p = k; for (size_t i = k; i < n; ++i) if (std::abs(A(i, k)) > std::abs(A(p, k))) p = i; if (std::abs(A(p, k)) == 0) return false;
    if (p != k) for (size_t j = 0; j < n; ++j) { std::swap(A(p, j), A(k, j)); std::swap(B(p, j), B(k, j)); }
    C d = A(k, k); for (size_t j = 0; j < n; ++j) { A(k, j) /= d; B(k, j) /= d; }
    for (size_t i = 0; i < n; ++i) if (i != k) { C f = A(i, k); if (f == 0.0) continue; for (size_t j = 0; j < n; ++j) { A(i, j) -= f * A(k, j); B(i, j) -= f * B(k, j); } } }
  return true;
}
// general eigenproblem: complex Schur form by shifted QR, then back substitution
inline bool geev(Mat<C> A, std::vector<C> &w, Mat<C> &V) {
  size_t n = A.r; Mat<C> Z = Mat<C>::eye(n);
  for (size_t k = 0; k + 2 < n; ++k) {   // Hessenberg
    std::vector<C> v(A.col(k) + k + 1, A.col(k) + n); double nn = std::sqrt(nrm2(v.data(), v.size())); if (nn == 0) continue; C ph = std::abs(v[0]) > 0 ? v[0] / std::abs(v[0]) : C(1); v[0] += ph * nn; double vn = std::sqrt(nrm2(v.data(), v.size())); for (auto &x : v) x /= vn;
    for (size_t c = 0; c < n; ++c) { C d = 2.0 * dot(v.data(), A.col(c) + k + 1, v.size()); for (size_t i = 0; i < v.size(); ++i) A(k + 1 + i, c) -= d * v[i]; }
    for (auto M : {&A, &Z}) for (size_t r = 0; r < n; ++r) { C d = 0; for (size_t i = 0; i < v.size(); ++i) d += (*M)(r, k + 1 + i) * v[i]; d *= 2.0; for (size_t i = 0; i < v.size(); ++i) (*M)(r, k + 1 + i) -= d * std::conj(v[i]); }
  }
  double tot = std::sqrt(nrm2(A.v.data(), A.v.size())); size_t hi = n, it = 0;
  while (hi > 1) {
    size_t l = hi - 1; while (l > 0) { double s = std::abs(A(l, l)) + std::abs(A(l - 1, l - 1)); if (s == 0) s = tot; if (std::abs(A(l, l - 1)) <= 1e-16 * s) { A(l, l - 1) = 0; break; } --l; }
    if (l == hi - 1) { --hi; it = 0; continue; }
    if (++it > 500) return false;
    C a = A(hi - 2, hi - 2), b = A(hi - 2, hi - 1), c = A(hi - 1, hi - 2), d = A(hi - 1, hi - 1), tr = a + d, de = std::sqrt((a - d) * (a - d) + 4.0 * b * c), l1 = 0.5 * (tr + de), l2 = 0.5 * (tr - de), mu = std::abs(l1 - d) < std::abs(l2 - d) ? l1 : l2;
    if (it % 11 == 10) mu += std::abs(c);
    for (size_t i = 0; i < n; ++i) A(i, i) -= (i >= l && i < hi) ? mu : 0.0;
    std::vector<std::pair<C, C>> G;
    for (size_t k = l; k + 1 < hi; ++k) { C x = A(k, k), y = A(k + 1, k); double r = std::sqrt(std::norm(x) + std::norm(y)); C cs = r > 0 ? x / r : C(1), sn = r > 0 ? y / r : C(0); G.push_back({cs, sn}); for (size_t j = k; j < n; ++j) { C p = A(k, j), q = A(k + 1, j); A(k, j) = std::conj(cs) * p + std::conj(sn) * q; A(k + 1, j) = -sn * p + cs * q; } }
    for (size_t k = l; k + 1 < hi; ++k) { C cs = G[k - l].first, sn = G[k - l].second; auto app = [&](Mat<C> &M, size_t top) { for (size_t i = 0; i < top; ++i) { C p = M(i, k), q = M(i, k + 1); M(i, k) = p * cs + q * sn; M(i, k + 1) = -p * std::conj(sn) + q * std::conj(cs); } }; app(A, std::min(hi, k + 2)); app(Z, n); }
    for (size_t i = l; i < hi; ++i) A(i, i) += mu;
  }
  w.resize(n); V = Mat<C>(n, n);
  for (size_t k = 0; k < n; ++k) {
    w[k] = A(k, k); std::vector<C> x(n, 0.0); x[k] = 1;
    for (size_t i = k; i-- > 0;) { C s = 0; for (size_t j = i + 1; j <= k; ++j) s += A(i, j) * x[j]; C d = A(i, i) - w[k]; if (std::abs(d) < 1e-15 * tot) d = 1e-15 * (tot > 0 ? tot : 1); x[i] = -s / d; }
    double nn = 0; for (size_t i = 0; i < n; ++i) { C s = 0; for (size_t j = 0; j <= k; ++j) s += Z(i, j) * x[j]; V(i, k) = s; nn += std::norm(s); } nn = std::sqrt(nn); for (size_t i = 0; i < n; ++i) V(i, k) /= nn;
  }
  return true;
}
}  // namespace dla
#endif
