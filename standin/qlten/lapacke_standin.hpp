// Stand-in for the four LAPACKE entry points PEPS calls.
#ifndef STANDIN_LAPACKE_HPP
#define STANDIN_LAPACKE_HPP
#include <complex>
#include <vector>
#include "qlten/mat.hpp"
using lapack_int = int;
#ifndef lapack_complex_double
#define lapack_complex_double std::complex<double>
#endif
#define LAPACK_ROW_MAJOR 101
#define LAPACK_COL_MAJOR 102
template<typename E> inline lapack_int standin_heev(int layout, char jobz, char uplo, lapack_int n, E *a, lapack_int lda, double *w) {
  dla::Mat<E> m(n, n), V; std::vector<double> ev;
  auto at = [&](int i, int j) -> E & { return layout == LAPACK_COL_MAJOR ? a[(size_t) j * lda + i] : a[(size_t) i * lda + j]; };
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    bool up = j >= i; bool use = (uplo == 'U' || uplo == 'u') ? up : !up || i == j;
    if (use) m(i, j) = at(i, j); else m(i, j) = dla::Rl<E>::cj(at(j, i));
    if (i == j) m(i, j) = E(std::real(m(i, j)));
  }
  for (auto &x : m.v) if (!std::isfinite(std::abs(x))) return 1;
  if (!dla::heev(m, ev, V)) return 1;
  for (int i = 0; i < n; ++i) w[i] = ev[i];
  if (jobz == 'V' || jobz == 'v') for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) at(i, j) = V(i, j);
  return 0;
}
inline lapack_int LAPACKE_dsyev(int l, char j, char u, lapack_int n, double *a, lapack_int lda, double *w) { return standin_heev<double>(l, j, u, n, a, lda, w); }
inline lapack_int LAPACKE_zheev(int l, char j, char u, lapack_int n, std::complex<double> *a, lapack_int lda, double *w) { return standin_heev<std::complex<double>>(l, j, u, n, a, lda, w); }
inline bool standin_geev(int layout, int n, const dla::Mat<dla::C> &m, std::vector<dla::C> &w, dla::Mat<dla::C> &V, dla::Mat<dla::C> &L) {
  (void) layout; if (!dla::geev(m, w, V)) return false; dla::Mat<dla::C> I; if (!dla::inverse(V, I)) I = dla::Mat<dla::C>::eye(n); L = I.adjoint();
  for (int j = 0; j < n; ++j) { double s = std::sqrt(dla::nrm2(L.col(j), n)); if (s > 0) for (int i = 0; i < n; ++i) L(i, j) /= s; } return true;
}
inline lapack_int LAPACKE_zgeev(int layout, char, char, lapack_int n, std::complex<double> *a, lapack_int lda, std::complex<double> *w, std::complex<double> *vl, lapack_int ldl, std::complex<double> *vr, lapack_int ldr) {
  dla::Mat<dla::C> m(n, n), V, L; std::vector<dla::C> ev; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(i, j) = layout == LAPACK_ROW_MAJOR ? a[i * lda + j] : a[j * lda + i];
  if (!standin_geev(layout, n, m, ev, V, L)) return 1;
  for (int j = 0; j < n; ++j) { w[j] = ev[j]; for (int i = 0; i < n; ++i) { (layout == LAPACK_ROW_MAJOR ? vr[i * ldr + j] : vr[j * ldr + i]) = V(i, j); (layout == LAPACK_ROW_MAJOR ? vl[i * ldl + j] : vl[j * ldl + i]) = L(i, j); } }
  return 0;
}
inline lapack_int LAPACKE_dgeev(int layout, char, char, lapack_int n, double *a, lapack_int lda, double *wr, double *wi, double *vl, lapack_int ldl, double *vr, lapack_int ldr) {
  dla::Mat<dla::C> m(n, n), V, L; std::vector<dla::C> ev; double sc = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { m(i, j) = layout == LAPACK_ROW_MAJOR ? a[i * lda + j] : a[j * lda + i]; sc = std::max(sc, std::abs(m(i, j))); }
  if (!standin_geev(layout, n, m, ev, V, L)) return 1;
  // order: real eigenvalues and conjugate pairs (+,-) next to each other, eigenvectors of real eigenvalues made real
  std::vector<int> ord; std::vector<char> used(n, 0);
  for (int j = 0; j < n; ++j) if (!used[j]) { used[j] = 1; if (std::abs(ev[j].imag()) <= 1e-12 * sc) { ord.push_back(j); continue; } int p = -1; for (int q = 0; q < n; ++q) if (!used[q] && (p < 0 || std::abs(ev[q] - std::conj(ev[j])) < std::abs(ev[p] - std::conj(ev[j])))) p = q; if (p < 0) { ord.push_back(j); continue; } used[p] = 1; if (ev[j].imag() > 0) { ord.push_back(j); ord.push_back(p); } else { ord.push_back(p); ord.push_back(j); } }
  auto put = [&](double *x, int ld, int i, int j, double v) { (layout == LAPACK_ROW_MAJOR ? x[i * ld + j] : x[j * ld + i]) = v; };
  for (int k = 0; k < n; ++k) {
    int j = ord[k]; wr[k] = ev[j].real(); bool real = std::abs(ev[j].imag()) <= 1e-12 * sc; wi[k] = real ? 0 : ev[j].imag();
    if (real) for (auto pr : {std::make_pair(&V, std::make_pair(vr, ldr)), std::make_pair(&L, std::make_pair(vl, ldl))}) { auto &M = *pr.first; int b = 0; for (int i = 0; i < n; ++i) if (std::abs(M(i, j)) > std::abs(M(b, j))) b = i; dla::C ph = std::abs(M(b, j)) > 0 ? M(b, j) / std::abs(M(b, j)) : dla::C(1); for (int i = 0; i < n; ++i) put(pr.second.first, pr.second.second, i, k, (M(i, j) / ph).real()); }
    else if (wi[k] > 0) for (int i = 0; i < n; ++i) { put(vr, ldr, i, k, V(i, j).real()); put(vl, ldl, i, k, L(i, j).real()); }
    else for (int i = 0; i < n; ++i) { put(vr, ldr, i, k, V(i, ord[k - 1]).imag()); put(vl, ldl, i, k, L(i, ord[k - 1]).imag()); }
  }
  return 0;
}
#endif
