// C04 DuoMatrix, C05 TenMatrix persistence, C06 ObservableMatrix: histories against plain models.
#include "pbt.hpp"
#include <cassert>
#include <optional>
#include <filesystem>
#include "qlpeps/two_dim_tn/framework/duomatrix.h"
#include "qlpeps/two_dim_tn/framework/ten_matrix.h"
#include "qlpeps/utility/observable_matrix.h"
using namespace qlpeps;
using pbt::Src;

namespace {
// element that counts live instances and carries a heap payload so that ASan sees stale uses
struct Elem {
  static long &live() { static long n = 0; return n; }
  int *v;
  Elem() : v(new int(-1)) { ++live(); }
  explicit Elem(int x) : v(new int(x)) { ++live(); }
  Elem(const Elem &o) : v(new int(*o.v)) { ++live(); }
  Elem &operator=(const Elem &o) { *v = *o.v; return *this; }
  ~Elem() { delete v; v = nullptr; --live(); }
  bool operator==(const Elem &o) const { return *v == *o.v; }
  bool operator!=(const Elem &o) const { return *v != *o.v; }
};
int pad(int x) { return x < 0 ? 0 : x >= 100000 ? 20000 : x % 5; }   // values from 100000 on are written with a payload larger than any stream buffer
std::ostream &operator<<(std::ostream &os, const Elem &e) { int x = *e.v; os.write("EL", 2); os.write((char *) &x, sizeof x); int n = pad(x); for (int i = 0; i < n; ++i) os.put((char) (i - 3)); return os; }
std::istream &operator>>(std::istream &is, Elem &e) { char m[2]; is.read(m, 2); int x = 0; is.read((char *) &x, sizeof x); int n = pad(x); char c; for (int i = 0; i < n; ++i) is.get(c); if (is) *e.v = x; return is; }

struct Model {
  size_t r = 0, c = 0; std::vector<std::optional<int>> d; bool moved = false;
  Model() = default;
  Model(size_t r_, size_t c_) : r(r_), c(c_), d(r_ * c_) {}
  std::optional<int> &at(size_t i, size_t j) { return d[i * c + j]; }
  size_t count() const { size_t n = 0; for (auto &x : d) n += x.has_value(); return n; }
  bool full() const { return count() == d.size(); }
};

template<class M> struct AsBool { static constexpr bool ok = std::is_same_v<decltype(std::declval<M &>().has_alloc(0, 0)), bool>; };

template<class Mat> void Audit(Mat &m, Model &x, Src &s) {
  if (x.moved) { PBT_ASSERT(m.empty(), "moved-from matrix still owns elements"); return; }
  PBT_ASSERT(m.rows() == x.r && m.cols() == (x.r ? x.c : 0), "shape ", m.rows(), "x", m.cols(), " expected ", x.r, "x", x.c);
  PBT_ASSERT(m.size() == x.r * x.c, "size");
  PBT_ASSERT(m.length(HORIZONTAL) == m.cols() && m.length(VERTICAL) == m.rows(), "length(orientation)");
  PBT_ASSERT(m.empty() == (x.count() == 0), "empty() = ", m.empty(), " with ", x.count(), " elements");
  const Mat &cm = m;
  auto cd = cm.cdata();
  PBT_ASSERT(cd.size() == x.r, "cdata rows");
  for (size_t i = 0; i < x.r; ++i) {
    auto row = cm.get_row(i); auto rs = cm.get_slice(i, HORIZONTAL);
    PBT_ASSERT(row.size() == x.c && rs == row, "row slice ", i);
    for (size_t j = 0; j < x.c; ++j) {
      const Elem *p = cm(i, j);
      PBT_ASSERT((p != nullptr) == x.at(i, j).has_value(), "presence at ", i, ",", j);
      PBT_ASSERT(cd[i][j] == p && row[j] == p, "aliases disagree at ", i, ",", j);
      if (p) { PBT_ASSERT(*p->v == *x.at(i, j), "value at ", i, ",", j, " is ", *p->v, " expected ", *x.at(i, j));
        PBT_ASSERT(&cm({i, j}) == p, "reference and pointer views disagree"); }
      if constexpr (AsBool<Mat>::ok) PBT_ASSERT(m.has_alloc(i, j) == x.at(i, j).has_value(), "has_alloc at ", i, ",", j);
    }
  }
  for (size_t j = 0; j < x.c && x.r; ++j) {
    auto col = cm.get_col(j); auto cs = cm.get_slice(j, VERTICAL);
    PBT_ASSERT(col.size() == x.r && cs == col, "column slice ", j);
    for (size_t i = 0; i < x.r; ++i) PBT_ASSERT(col[i] == cm(i, j), "column element ", i, ",", j);
  }
  if (x.full()) {  // iteration is row major and total
    size_t k = 0; for (const auto &e : cm) { PBT_ASSERT(k < x.d.size() && *e.v == *x.d[k], "const iteration order at ", k); ++k; }
    PBT_ASSERT(k == x.d.size(), "const iteration visits ", k);
    k = 0; for (auto it = cm.cbegin(); it != cm.cend(); it++) { PBT_ASSERT(k < x.d.size() && *(*it).v == *x.d[k], "citer"); ++k; }
    PBT_ASSERT(k == x.d.size(), "const iteration visits ", k);
    k = 0; for (auto &e : m) { PBT_ASSERT(k < x.d.size() && *e.v == *x.d[k], "iteration order at ", k); ++k; }
    PBT_ASSERT(k == x.d.size(), "iteration visits ", k);
    // iterators are equal exactly when they stand on the same element of the same container; post-increment gives the old position
    if (x.d.size() && s.chance(1, 4)) {
      size_t a = s.draw(x.d.size() + 1), b = s.draw(x.d.size() + 1);
      auto go = [](auto it, size_t q) { for (size_t z = 0; z < q; ++z) { if (z % 2) ++it; else it++; } return it; };
      auto ia = go(m.begin(), a), ib = go(m.begin(), b); auto ca = go(cm.begin(), a), cb = go(cm.cbegin(), b);
      PBT_ASSERT((ia == ib) == (a == b) && (ia != ib) == (a != b), "iterators ", a, " and ", b, " of ", x.r, "x", x.c);
      PBT_ASSERT((ca == cb) == (a == b) && (ca != cb) == (a != b), "const iterators ", a, " and ", b, " of ", x.r, "x", x.c);
      PBT_ASSERT((ia == m.end()) == (a == x.d.size()) && (ca == cm.end()) == (a == x.d.size()), "end of iteration");
      if (a < x.d.size()) { auto o = ia++; auto co = ca++; PBT_ASSERT(*(*o).v == *x.d[a] && *(*co).v == *x.d[a], "post-increment must return the position before it");
        PBT_ASSERT((ia == m.end()) == (a + 1 == x.d.size()) && (ca == cm.cend()) == (a + 1 == x.d.size()), "post-increment must advance"); if (a + 1 < x.d.size()) PBT_ASSERT(*(*ia).v == *x.d[a + 1] && *(*ca).v == *x.d[a + 1], "post-increment must advance by one"); }
    }
  }
}

template<class Mat> void History(Src &s) {
  long live0 = Elem::live();
  {
    std::vector<std::unique_ptr<Mat>> ms; std::vector<Model> xs;
    auto fresh = [&]() { if (s.chance(1, 8)) { ms.push_back(std::make_unique<Mat>()); xs.emplace_back(); }
      else { bool big = s.chance(1, 12); size_t r = s.urange(1, big ? 17 : 4), c = s.urange(1, big ? 17 : 4); ms.push_back(std::make_unique<Mat>(r, c)); xs.emplace_back(r, c); s.note("new", r, "x", c, " "); } };
    fresh();
    size_t n = s.urange(1, 40); int next = 1; bool copy = false, dealloc = false, moved = false;
    for (size_t k = 0; k < n; ++k) {
      size_t w = s.draw(ms.size()); Mat &m = *ms[w]; Model &x = xs[w];
      size_t op = s.freq({8, 3, 3, 2, 3, 3, 2, 2, 1, 2, 2, 2, 2});
      bool idx = !x.moved && x.r && x.c; size_t i = idx ? s.draw(x.r) : 0, j = idx ? s.draw(x.c) : 0;
      switch (op) {
        case 0: if (idx) { m({i, j}) = Elem(next); x.at(i, j) = next++; s.note("set", w, "(", i, ",", j, ") "); } break;
        case 1: if (idx) { m.alloc(i, j); x.at(i, j) = -1; s.note("alloc", w, "(", i, ",", j, ") "); } break;
        case 2: if (idx) { m.dealloc(i, j); x.at(i, j).reset(); dealloc = true; s.note("dealloc", w, "(", i, ",", j, ") "); } break;
        case 3: if (idx && !x.at(i, j)) { m(i, j) = new Elem(next); x.at(i, j) = next++; s.note("ptr", w, "(", i, ",", j, ") "); }
          else if (idx) { Elem *old = m(i, j); m(i, j) = nullptr; delete old; x.at(i, j).reset(); } break;
        case 4: if (ms.size() < 4) { ms.push_back(std::make_unique<Mat>(static_cast<const Mat &>(m))); Model c = x; if (c.moved) c = Model(); if (!x.moved) { xs.push_back(c); } else { xs.push_back(Model()); xs.back().moved = true; } copy = true; s.note("copy", w, " "); } break;
        case 5: { size_t o = s.draw(ms.size()); if (o != w) { m = static_cast<const Mat &>(*ms[o]); x = xs[o]; copy = true; s.note("assign", w, "<-", o, " "); } break; }
        case 6: { size_t o = s.draw(ms.size()); if (o != w) { m = std::move(*ms[o]); x = xs[o]; if (!x.moved) { xs[o] = Model(); xs[o].moved = true; } moved = true; s.note("moveassign", w, "<-", o, " "); } break; }
        case 7: if (ms.size() < 4) { ms.push_back(std::make_unique<Mat>(std::move(m))); Model c = x; xs[w] = Model(); xs[w].moved = true; xs.push_back(c); moved = true; s.note("movector", w, " "); } break;
        case 8: m.clear(); for (auto &v : x.d) v.reset(); s.note("clear", w, " "); break;
        case 9: if (!x.moved) { for (auto &v : x.d) if (!v) v = -1; for (size_t a = 0; a < x.r; ++a) for (size_t b = 0; b < x.c; ++b) (void) m({a, b}); s.note("fill", w, " "); } break;
        case 10: if (!x.moved && x.r) { for (auto &v : x.d) v = next; for (auto &e : m) e = Elem(next); ++next; s.note("iterassign", w, " "); } break;
        case 11: { size_t o = s.draw(ms.size()); if (!x.moved && !xs[o].moved) {
            size_t rc = x.r ? x.c : 0, oc = xs[o].r ? xs[o].c : 0;
            bool want = x.r == xs[o].r && rc == oc && x.full() && xs[o].full() && x.d == xs[o].d;
            PBT_ASSERT((*ms[w] == *ms[o]) == want, "equality of ", w, " and ", o, " should be ", want); s.label(want ? "equal" : "unequal"); } break; }
        case 12: if (ms.size() > 1) { ms.erase(ms.begin() + w); xs.erase(xs.begin() + w); s.note("destroy", w, " "); } else fresh(); break;
      }
      long want = live0; for (auto &y : xs) want += (long) y.count();
      PBT_ASSERT(Elem::live() == want, "live elements ", Elem::live(), " expected ", want, " (leak or double free)");
      for (size_t a = 0; a < ms.size(); ++a) Audit(*ms[a], xs[a], s);
    }
    if (copy) s.label("copy"); if (dealloc) s.label("dealloc"); if (moved) s.label("move");
    s.nontrivial(copy || moved);
  }
  PBT_ASSERT(Elem::live() == live0, "elements leaked after destruction: ", Elem::live() - live0);
}
}  // namespace

#ifdef PART_C04
PBT_PROP(duomatrix_history, 6000, 300000, "1..40 operations over up to 4 matrices; non-trivial if a copy or move happened") {
  static_assert(AsBool<DuoMatrix<Elem>>::ok || true);
  PBT_ASSERT(AsBool<DuoMatrix<Elem>>::ok, "the allocation query yields no answer");
  History<DuoMatrix<Elem>>(s);
}
PBT_PROP(tenmatrix_history, 6000, 300000, "same histories over the tensor-matrix class") { History<TenMatrix<Elem>>(s); }
template<class Mat> void Equality(Src &s) {   // same, one element different, one site missing, one row or column more
  size_t r = s.urange(1, 5), c = s.urange(1, 5), r2 = r, c2 = c, kind = s.draw(5);
  if (kind == 1) r2 = r + s.urange(1, 2); if (kind == 2) c2 = c + s.urange(1, 2);
  bool flat = s.boolean(); Mat a(r, c), b(r2, c2); auto v = [&](size_t i, size_t j) { return flat ? 7 : (int) (i * 20 + j); };
  for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) a({i, j}) = Elem(v(i, j)); for (size_t i = 0; i < r2; ++i) for (size_t j = 0; j < c2; ++j) b({i, j}) = Elem(v(i, j));
  size_t i = s.draw(r), j = s.draw(c); if (kind == 3) b({i, j}) = Elem(999); if (kind == 4) b.dealloc(i, j);
  const char *what[] = {"equal", "more rows", "more columns", "one element different", "one site missing"}; s.note(r, "x", c, " against ", r2, "x", c2, ": ", what[kind]); s.nontrivial(kind != 0); s.label(what[kind]);
  PBT_ASSERT((a == b) == (kind == 0) && (b == a) == (kind == 0), "equality of full containers: ", what[kind]);
}
PBT_PROP(equality_pairs, 4000, 100000, "pairs of containers that agree except in one respect; non-trivial if they differ") { if (s.boolean()) Equality<DuoMatrix<Elem>>(s); else Equality<TenMatrix<Elem>>(s); }
PBT_PROP(geometry_enums, 3000, 3000, "positions and orientations; non-trivial always") {
  BMPSPOSITION p = static_cast<BMPSPOSITION>(s.draw(4)); BondOrientation o = static_cast<BondOrientation>(s.draw(2));
  s.note((int) p, ",", (int) o); s.nontrivial();
  PBT_ASSERT(Opposite(Opposite(p)) == p && Opposite(p) != p, "Opposite");
  PBT_ASSERT((Opposite(LEFT) == RIGHT && Opposite(UP) == DOWN && Opposite(RIGHT) == LEFT && Opposite(DOWN) == UP), "Opposite table");
  PBT_ASSERT(Rotate(Rotate(o)) == o && Rotate(o) != o, "Rotate");
  PBT_ASSERT(Orientation(p) == ((p == LEFT || p == RIGHT) ? HORIZONTAL : VERTICAL), "Orientation");
  PBT_ASSERT(Orientation(Opposite(p)) == Orientation(p), "opposite sides share an orientation");
  PBT_ASSERT(MPOIndex(p) < 4 && MPOIndex(LEFT) == 0 && MPOIndex(DOWN) == 1 && MPOIndex(RIGHT) == 2 && MPOIndex(UP) == 3, "leg order left,down,right,up");
}
#endif

#ifdef PART_C05
PBT_PROP(tenmatrix_files, 6000, 200000, "dump/load histories through files in a scratch directory, with missing, truncated and unwritable files; non-trivial if a load followed a dump") {
  namespace fs = std::filesystem;
  std::string dir = pbt::ScratchDir() + "/tm"; fs::remove_all(dir); fs::create_directories(dir);
  long live0 = Elem::live(); bool rt = false;
  {
    size_t r = s.urange(1, 3), c = s.urange(1, 3); TenMatrix<Elem> m(r, c); Model x(r, c);
    std::map<std::string, std::optional<int>> files; // nullopt: corrupt
    size_t n = s.urange(1, 20); int next = 1; s.note(r, "x", c, ": ");
    for (size_t k = 0; k < n; ++k) {
      size_t i = s.draw(r), j = s.draw(c); std::string f = dir + "/f" + std::to_string(s.draw(2));
      switch (s.freq({7, 7, 6, 1, 2, 1})) {
        case 0: { int val = s.chance(1, 5) ? next + 100000 : next; m({i, j}) = Elem(val); x.at(i, j) = val; next += (int) s.range(1, 3); if (val >= 100000) s.label("large-element"); break; }
        case 1: if (x.at(i, j)) {
            bool rel = s.boolean(), cst = s.boolean(); bool ok;
            s.note("dump(", i, ",", j, rel && !cst ? ",release" : "", ") ");
            if (cst) ok = static_cast<const TenMatrix<Elem> &>(m).DumpTen(i, j, f); else if (!rel && s.boolean()) ok = m.DumpTen(i, j, f); else ok = m.DumpTen(i, j, f, rel);
            PBT_ASSERT(ok, "dump failed"); files[f] = x.at(i, j); if (rel && !cst) x.at(i, j).reset(); }
          break;
        case 2: { s.note("load(", i, ",", j, ") "); bool ok = m.LoadTen(i, j, f); auto it = files.find(f); bool want = it != files.end() && it->second.has_value();
          PBT_ASSERT(ok == want, "load returned ", ok, " expected ", want);
          if (ok) { x.at(i, j) = it->second; rt = true; } else { m.dealloc(i, j); x.at(i, j).reset(); s.label("failed-load"); } break; }
        case 3: if (files.count(f)) { auto sz = fs::file_size(f); if (sz) { fs::resize_file(f, s.draw(sz)); files[f] = std::nullopt; s.note("truncate "); s.label("truncated"); } } break;
        case 4: { std::string bad = dir + "/nodir/f"; if (x.at(i, j)) { bool rel = s.boolean(); bool done = s.chance(1, 3) ? static_cast<const TenMatrix<Elem> &>(m).DumpTen(i, j, bad) : m.DumpTen(i, j, bad, rel); PBT_ASSERT(!done, "dump to an unwritable path claims success"); s.label("unwritable");
            std::error_code ec; std::string full = dir + "/full"; if (!fs::exists(full, ec)) fs::create_symlink("/dev/full", full, ec);   // a full disk: the write fails when flushed
            if (fs::exists(full, ec)) { rel = s.boolean(); bool ok = s.boolean() ? static_cast<const TenMatrix<Elem> &>(m).DumpTen(i, j, full) : m.DumpTen(i, j, full, rel); PBT_ASSERT(!ok, "dump onto a full disk claims success"); s.label("disk-full"); } }
          break; }
        case 5: { bool ok = m.LoadTen(i, j, dir + "/absent"); PBT_ASSERT(!ok, "load of a missing file claims success"); m.dealloc(i, j); x.at(i, j).reset(); break; }
      }
      long want = live0 + (long) x.count(); PBT_ASSERT(Elem::live() == want, "live elements ", Elem::live(), " expected ", want);
      Audit(m, x, s);
      for (auto &kv : files) if (kv.second) { TenMatrix<Elem> t(1, 1); PBT_ASSERT(t.LoadTen(0, 0, kv.first) && *t({0, 0}).v == *kv.second, "file content changed behind our back"); }
    }
  }
  PBT_ASSERT(Elem::live() == live0, "leak");
  s.nontrivial(rt);
}
#endif

#ifdef PART_C06
template<class T> T val(Src &s) { return (T) (double) s.range(-50, 50); }
template<> std::complex<double> val<std::complex<double>>(Src &s) { return {(double) s.range(-50, 50), (double) s.range(-50, 50)}; }
template<class T> void ObsHistory(Src &s) {
  size_t r = 0, c = 0; std::vector<T> d; ObservableMatrix<T> m;
  if (s.chance(4, 5)) { size_t top = s.chance(1, 12) ? 40 : 5; r = s.urange(0, top); c = s.urange(0, top); T v = s.boolean() ? val<T>(s) : T(); d.assign(r * c, v); m = ObservableMatrix<T>(r, c, v); }
  size_t n = s.urange(1, 30); bool acc = false, extracted = false; s.note(r, "x", c, " ");
  for (size_t k = 0; k < n && !extracted; ++k) {
    size_t i = s.draw(r + 2), j = s.draw(c + 2); bool in = i < r && j < c; SiteIdx site{i, j}; T v = val<T>(s); bool bysite = s.boolean();
    auto guarded = [&](auto &&f, const char *what) { bool threw = false; try { f(); } catch (const std::out_of_range &) { threw = true; } PBT_ASSERT(threw == !in, what, " at (", i, ",", j, ") in ", r, "x", c, threw ? " threw" : " did not throw"); };
    switch (s.freq({8, 8, 6, 2, 1, 2})) {
      case 0: guarded([&] { if (bysite) m(site) = v; else m(i, j) = v; }, "set"); if (in) d[i * c + j] = v; s.note("set(", i, ",", j, ") "); break;
      case 1: guarded([&] { if (bysite) m.Add(site, v); else m.Add(i, j, v); }, "add"); if (in) { d[i * c + j] += v; acc = true; } s.note("add(", i, ",", j, ") "); break;
      case 2: { const auto &cm = m; T got{}; guarded([&] { got = bysite ? cm(site) : cm(i, j); }, "get"); if (in) PBT_ASSERT(got == d[i * c + j], "value at (", i, ",", j, ")"); break; }
      case 3: { r = s.urange(0, 5); c = s.urange(0, 5); if (s.boolean()) { r = s.urange(1, 5); c = s.urange(2, 5); } bool dv = s.boolean(); if (dv) m.Resize(r, c, v); else m.Resize(r, c); d.assign(r * c, dv ? v : T()); s.note("resize", r, "x", c, " "); s.label("resize"); break; }
      case 4: { auto e = m.Extract(); PBT_ASSERT(e == d, "extracted data"); extracted = true; s.label("extract"); break; }
      case 5: { ObservableMatrix<T> cp = m; if (r && c) cp.Add(0, 0, val<T>(s)); cp = m; PBT_ASSERT(cp.Flatten() == d, "copy"); break; }
    }
    if (!extracted) { PBT_ASSERT(m.rows() == r && m.cols() == c && m.size() == r * c, "shape"); PBT_ASSERT(m.Flatten() == d, "row-major content"); }
  }
  s.nontrivial(acc && r > 1 && c > 1 && r != c);
}
PBT_PROP(observable_double, 40000, 1500000, "histories of set/add/get/resize/extract incl. out-of-range sites; non-trivial if accumulated into a non-square matrix larger than one row and column") { ObsHistory<double>(s); }
PBT_PROP(observable_complex, 20000, 700000, "same, complex values") { ObsHistory<std::complex<double>>(s); }
PBT_PROP(siteidx, 2000, 2000, "site coordinates") { size_t a = s.draw(1000), b = s.draw(1000); SiteIdx x{a, b}; s.note(a, ",", b); s.nontrivial(a != b);
  PBT_ASSERT(x.row() == a && x.col() == b && x[0] == a && x[1] == b, "row/col"); x.row() = b; x.col() = a; PBT_ASSERT((x == SiteIdx{b, a}), "mutation"); }
#endif
