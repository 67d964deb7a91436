// Open-boundary spin Hamiltonians as explicit bond lists, with the exact local energy of a tabulated state.
#pragma once
#include "vmc.hpp"
#include "qlpeps/algorithm/vmc_update/model_solvers/build_in_model_solvers_all.h"
namespace spinham {
using namespace vmc;
using V = std::vector<size_t>;
struct Bond { size_t i, j; double jz, jxy; };
enum Model { XXZ, J1J2, TFI, TRI, TRIJ };
inline const char *mname[] = {"XXZ", "J1J2XXZ", "TFIsing", "TriHeisenberg", "TriJ1J2"};
struct Ham { Model m; std::vector<Bond> b; double hx = 0, pin = 0; double jz = 1, jxy = 1, jz2 = 0, jxy2 = 0, j2 = 0; };
inline double sz(size_t c) { return double(c) - 0.5; }
// conj(psi(S')/psi(S)) for S' = S with the listed sites flipped
struct Ref {
  const State &S; size_t k; V v; cd p; double worst = 0;
  Ref(const State &s, size_t k_) : S(s), k(k_), v(s.cfg(k_)), p(s.psi(k_)) {}
  cd flip(std::initializer_list<size_t> f) { V w = v; for (size_t x : f) w[x] = 1 - w[x]; size_t q = S.idx(w); worst = std::max(worst, S.mag(q)); return std::conj(S.psi(q) / p); }
  cd bond(const Bond &b) { if (v[b.i] == v[b.j]) return 0.25 * b.jz; return -0.25 * b.jz + (b.jxy == 0 ? cd(0) : 0.5 * b.jxy * flip({b.i, b.j})); }
  cd energy(const Ham &H) {
    cd e = 0; if (H.m == TFI) { for (auto &b : H.b) e += b.jz * (v[b.i] == v[b.j] ? 1.0 : -1.0); for (size_t i = 0; i < v.size(); ++i) if (H.hx != 0) e -= H.hx * flip({i}); return e; }
    for (auto &b : H.b) e += bond(b); return e - H.pin * sz(v[0]);
  }
};
inline Ham make_ham(Src &s, Model m, size_t R, size_t C_) {
  Ham H; H.m = m; auto id = [&](size_t r, size_t c) { return r * C_ + c; }; auto J = [&] { return s.pick(std::vector<double>{1.0, -1.0, 0.0, 0.37, 2.5}); };
  double p1z = 1, p1x = 1, p2z = 0, p2x = 0;
  if (m == XXZ || m == J1J2) { H.jz = p1z = J(); H.jxy = p1x = J(); H.pin = s.pick(std::vector<double>{0.0, 0.7, -1.3}); }
  if (m == J1J2) { H.jz2 = p2z = J(); H.jxy2 = p2x = J(); }
  if (m == TRIJ) H.j2 = p2z = p2x = s.pick(std::vector<double>{0.0, 0.4, -1.1});
  if (m == TFI) { p1z = -1; p1x = 0; H.hx = s.pick(std::vector<double>{0.5, 3.1, -0.8, 0.0}); }
  for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < C_; ++c) {
    if (c + 1 < C_) H.b.push_back({id(r, c), id(r, c + 1), p1z, p1x}); if (r + 1 < R) H.b.push_back({id(r, c), id(r + 1, c), p1z, p1x});
    if (r + 1 < R && c + 1 < C_) {
      if (m == J1J2) { H.b.push_back({id(r, c), id(r + 1, c + 1), p2z, p2x}); H.b.push_back({id(r + 1, c), id(r, c + 1), p2z, p2x}); }
      if (m == TRI || m == TRIJ) H.b.push_back({id(r + 1, c), id(r, c + 1), 1, 1});
      if (m == TRIJ) H.b.push_back({id(r, c), id(r + 1, c + 1), p2z, p2x});
    }
    if (m == TRIJ) { if (r + 1 < R && c + 2 < C_) H.b.push_back({id(r + 1, c), id(r, c + 2), p2z, p2x}); if (r + 2 < R && c + 1 < C_) H.b.push_back({id(r + 2, c), id(r, c + 1), p2z, p2x}); }
  }
  s.note(std::string(mname[m]) + " " + std::to_string(R) + "x" + std::to_string(C_) + " jz=" + pbt::show(p1z) + " jxy=" + pbt::show(p1x) + " jz2=" + pbt::show(p2z) + " jxy2=" + pbt::show(p2x) + " pin=" + pbt::show(H.pin) + " hx=" + pbt::show(H.hx)); s.label(mname[m]); return H;
}
template<class F> void with(const Ham &H, F f) {
  switch (H.m) {
    case XXZ: { SquareSpinOneHalfXXZModelOBC sv(H.jz, H.jxy, H.pin); f(sv); } break;
    case J1J2: { SquareSpinOneHalfJ1J2XXZModelOBC sv(H.jz, H.jxy, H.jz2, H.jxy2, H.pin); f(sv); } break;
    case TFI: { TransverseFieldIsingSquareOBC sv(H.hx); f(sv); } break;
    case TRI: { SpinOneHalfTriHeisenbergSqrPEPS sv; f(sv); } break;
    case TRIJ: { SpinOneHalfTriJ1J2HeisenbergSqrPEPS sv(H.j2); f(sv); } break;
  }
}
}  // namespace spinham
