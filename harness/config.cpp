// C13 Configuration (occupancy, files, messages) and C14 Jastrow field.
#include "pbt.hpp"
#include <filesystem>
#include <fstream>
#include <optional>
#include <sstream>
#include "qlten/qlten.h"
#include "qlpeps/two_dim_tn/framework/site_idx.h"
#include "qlpeps/vmc_basic/configuration.h"
#include "qlpeps/vmc_basic/jastrow_factor.h"
using namespace qlpeps;
using pbt::Src;
namespace fs = std::filesystem;

namespace {
using Grid = std::vector<std::vector<size_t>>;
Grid rgrid(Src &s, size_t r, size_t c, size_t dim) { Grid g(r, std::vector<size_t>(c)); for (auto &x : g) for (auto &y : x) y = s.urange(0, dim - 1); return g; }
Grid read(const Configuration &c) { Grid g(c.rows(), std::vector<size_t>(c.cols())); for (size_t i = 0; i < c.rows(); ++i) for (size_t j = 0; j < c.cols(); ++j) g[i][j] = c({i, j}); return g; }
std::string str(const Grid &g) { std::string o = "["; for (auto &r : g) { for (auto x : r) o += std::to_string(x) + " "; o += "/ "; } return o + "]"; }
size_t dim_of(Src &s) { return s.freq({4, 1}) == 0 ? s.urange(1, 5) : s.urange(6, 4000000000u); }
void audit(const Configuration &c, const Grid &g, Src &) {
  PBT_ASSERT(c.rows() == g.size() && c.cols() == g[0].size(), "shape");
  PBT_ASSERT(read(c) == g, "content " + str(read(c)) + " expected " + str(g));
  size_t sum = 0, mx = 0; for (auto &r : g) for (auto x : r) { sum += x; mx = std::max(mx, x); }
  PBT_ASSERT(c.Sum() == sum, "Sum");
  PBT_ASSERT(c.IsValid(), "IsValid false on a complete configuration");
  if (mx < 5000) { std::vector<size_t> occ(mx + 1, 0); for (auto &r : g) for (auto x : r) occ[x]++; PBT_ASSERT(c.CountOccupancy() == occ, "CountOccupancy"); }
}
std::map<size_t, size_t> counts(const Grid &g) { std::map<size_t, size_t> m; for (auto &r : g) for (auto x : r) m[x]++; return m; }
}  // namespace

#ifdef PART_C13
#ifndef PBT_MPI
PBT_PROP(configuration_histories, 3000, 200000, "a randomisation with prescribed occupancies succeeded on at least two sites") {
  size_t R = s.urange(1, 5), C = s.urange(1, 5); bool nt = false;
  std::vector<Configuration> cs; std::vector<Grid> gs;
  { Grid g = rgrid(s, R, C, dim_of(s)); cs.emplace_back(g); gs.push_back(g); audit(cs[0], gs[0], s); }
  size_t n = s.urange(1, 10);
  for (size_t k = 0; k < n; ++k) {
    size_t a = s.urange(0, cs.size() - 1); Configuration &c = cs[a]; Grid &g = gs[a]; size_t r = g.size(), w = g[0].size(), N = r * w;
    switch (s.freq({2, 3, 3, 1, 1, 2, 1, 2, 1})) {
      case 0: { size_t i = s.urange(0, r - 1), j = s.urange(0, w - 1), v = s.urange(0, 6); s.note("set"); if (s.boolean()) c({i, j}) = v; else c(SiteIdx{i, j}) = v; g[i][j] = v; break; }
      case 1: {
        size_t d = s.urange(1, 4); OccupancyNum occ(d, 0); for (size_t q = 0; q < N; ++q) occ[s.urange(0, d - 1)]++;
        int bad = s.freq({3, 1, 1}); if (bad == 1) occ[s.urange(0, d - 1)]++; if (bad == 2) { size_t q = 0; while (!occ[q]) ++q; occ[q]--; }
        s.note("Random(occ)"); bool threw = false;
        try { c.Random(occ); } catch (const std::invalid_argument &) { threw = true; }
        PBT_ASSERT(threw == (bad != 0), bad ? "wrong occupancy total accepted" : "right occupancy total rejected");
        if (threw) { PBT_ASSERT(read(c) == g, "rejected request changed the configuration"); break; }
        g = read(c); auto m = counts(g); for (auto &kv : m) PBT_ASSERT(kv.first < d, "state outside the requested range");
        for (size_t q = 0; q < d; ++q) PBT_ASSERT(m[q] == occ[q], "occupancy of state " + std::to_string(q) + " is " + std::to_string(m[q]) + " not " + std::to_string(occ[q]));
        if (N > 1 && d > 1) nt = true; break;
      }
      case 2: {
        std::map<size_t, size_t> m; size_t left = N; size_t ns = s.urange(1, 4);
        for (size_t q = 0; q < ns; ++q) { size_t st = s.urange(0, 9); size_t take = q + 1 == ns ? left : s.urange(0, left); m[st] += take; left -= take; }
        bool bad = s.chance(1, 4); if (bad) m.begin()->second += s.urange(1, 3);
        s.note("Random(map)"); bool threw = false;
        try { c.Random(m); } catch (const std::invalid_argument &) { threw = true; }
        PBT_ASSERT(threw == bad, bad ? "wrong map total accepted" : "right map total rejected");
        if (threw) { PBT_ASSERT(read(c) == g, "rejected request changed the configuration"); break; }
        g = read(c); auto q = counts(g); for (auto &kv : m) PBT_ASSERT(q[kv.first] == kv.second, "map occupancy not met"); if (N > 1 && m.size() > 1) nt = true; break;
      }
      case 3: { size_t d = s.urange(1, 6); s.note("Random(dim)"); c.Random(d); g = read(c); for (auto &x : g) for (auto y : x) PBT_ASSERT(y < d, "state out of range"); break; }
      case 4: { s.note("copy"); if (cs.size() < 4) { Configuration d(c); Grid gg = g; cs.push_back(d); gs.push_back(gg); } break; }
      case 5: { size_t b = s.urange(0, cs.size() - 1); s.note("assign"); if (b != a) { cs[b] = cs[a]; gs[b] = gs[a]; } break; }
      case 6: { s.note("construct random"); size_t rr = s.urange(1, 4), cc = s.urange(1, 4);
        OccupancyNum occ(3, 0); for (size_t q = 0; q < rr * cc; ++q) occ[s.urange(0, 2)]++;
        if (s.boolean()) { Configuration d(rr, cc, occ); Grid x = read(d); auto m = counts(x); for (size_t q = 0; q < 3; ++q) PBT_ASSERT(m[q] == occ[q], "constructor occupancy"); audit(d, x, s); }
        else if (s.boolean()) { std::map<size_t, size_t> mm; for (size_t q = 0; q < 3; ++q) mm[q * 2] = occ[q]; Configuration d(rr, cc, mm); auto m = counts(read(d)); for (size_t q = 0; q < 3; ++q) PBT_ASSERT(m[q * 2] == occ[q], "map constructor occupancy"); audit(d, read(d), s); }
        else { size_t dm = s.urange(1, 3); Configuration d(rr, cc, dm); PBT_ASSERT(d.rows() == rr && d.cols() == cc, "shape"); audit(d, read(d), s); for (auto &x : read(d)) for (auto y : x) PBT_ASSERT(y < dm, "state range"); }
        break; }
      case 7: {  // text stream round trip, possibly several configurations after each other
        s.note("stream"); std::stringstream ss; size_t b = s.urange(0, cs.size() - 1); ss << c << cs[b];
        Configuration x(r, w), y(gs[b].size(), gs[b][0].size()); PBT_ASSERT(!x.IsValid(), "an unfilled configuration claims to be valid");
        ss >> x >> y; PBT_ASSERT(read(x) == g && read(y) == gs[b], "stream round trip"); PBT_ASSERT(x == c && y == cs[b], "equality after round trip"); break;
      }
      default: { size_t b = s.urange(0, cs.size() - 1); PBT_ASSERT((cs[a] == cs[b]) == (gs[a] == gs[b]), "equality disagrees with content"); break; }
    }
    for (size_t q = 0; q < cs.size(); ++q) audit(cs[q], gs[q], s);
  }
  if (nt) s.nontrivial();
}
PBT_PROP(configuration_randomness, 30, 400, "more than one site and state") {
  // over T draws every site shows every state of non-zero share (failure probability of a correct generator < 1e-20)
  size_t R = s.urange(1, 3), C = s.urange(1, 3), N = R * C; int kind = (int) s.urange(0, 2); size_t d = kind == 0 ? s.urange(1, 4) : s.urange(1, std::min<size_t>(3, N));
  OccupancyNum occ(d, 0); for (size_t q = 0; q < N; ++q) occ[q < d ? q : s.urange(0, d - 1)]++;
  std::map<size_t, size_t> mm; for (size_t q = 0; q < d; ++q) mm[q] = occ[q];
  std::vector<std::set<size_t>> seen(N); Configuration c(R, C);
  for (int t = 0; t < 600; ++t) { if (kind == 0) c.Random(d); else if (kind == 1) c.Random(occ); else c.Random(mm); for (size_t i = 0; i < N; ++i) seen[i].insert(c({i / C, i % C})); }
  for (size_t i = 0; i < N; ++i) PBT_ASSERT(seen[i].size() == d, "site " + std::to_string(i) + " never shows some states (kind " + std::to_string(kind) + ")");
  if (N > 1 && d > 1) s.nontrivial();
}
PBT_PROP(configuration_files, 1500, 60000, "a successful load after several dumps") {
  static int serial = 0; fs::path root = fs::path(pbt::ScratchDir()) / ("cfg" + std::to_string(serial++)); fs::create_directories(root);
  struct Rm { fs::path p; ~Rm() { std::error_code e; fs::remove_all(p, e); } } rm{root};
  enum Dmg { OK, NOSHAPE, CUT, GARB, SHGARB };
  struct File { Grid g; Dmg d; }; std::map<std::pair<int, size_t>, File> files; bool nt = false; int dumps = 0;
  size_t n = s.urange(2, 9);
  auto dir = [&](int k) { return k == 0 ? root.string() : k == 1 ? (root / "a").string() : (root / "b" / "c").string(); };
  auto fname = [&](int k, size_t l) { return dir(k) + "/configuration" + std::to_string(l); };
  for (size_t q = 0; q < n; ++q) {
    int k = (int) s.urange(0, 2); size_t l = s.pick(std::vector<size_t>{0, 1, 10, 100, 123456789});
    if (!files.empty() && s.chance(2, 3)) { auto it = files.begin(); std::advance(it, s.urange(0, files.size() - 1)); k = it->first.first; l = it->first.second; }
    auto it = files.find({k, l});
    switch (s.freq({4, 5, 1, 1, 1, 1, 1})) {
      case 0: { Grid g = rgrid(s, s.urange(1, 4), s.urange(1, 4), dim_of(s)); Configuration c(g); s.note("dump"); c.Dump(dir(k), l); audit(c, g, s); files[{k, l}] = {g, OK}; ++dumps; break; }
      case 1: {
        s.note("load"); size_t r = s.urange(1, 4), w = s.urange(1, 4); if (it != files.end() && s.chance(4, 5)) { r = it->second.g.size(); w = it->second.g[0].size(); }
        Grid g0 = rgrid(s, r, w, 3); Configuration c(g0); bool ok = false;
        try { ok = c.Load(dir(k), l); } catch (...) { PBT_ASSERT(false, "Load threw"); }
        PBT_ASSERT(c.rows() == r && c.cols() == w, "Load changed the shape");
        if (it == files.end()) { PBT_ASSERT(!ok, "loaded a missing file"); PBT_ASSERT(read(c) == g0, "failed load changed the configuration"); break; }
        const File &f = it->second; bool same = f.g.size() == r && f.g[0].size() == w;
        if (f.d == SHGARB) { PBT_ASSERT(!ok, "loaded with unreadable shape file"); PBT_ASSERT(read(c) == g0, "failed load changed the configuration"); }
        else if (f.d == CUT || f.d == GARB) { if (same) PBT_ASSERT(!ok, "loaded damaged data"); }
        else if (same) { PBT_ASSERT(ok, "load of a dumped configuration failed"); PBT_ASSERT(read(c) == f.g, "loaded " + str(read(c)) + " dumped " + str(f.g)); if (dumps > 1) nt = true; }
        else if (f.d == OK) { PBT_ASSERT(!ok, "loaded a file of another shape"); PBT_ASSERT(read(c) == g0, "failed load changed the configuration"); }
        else if (r * w > f.g.size() * f.g[0].size()) PBT_ASSERT(!ok, "loaded a file with too few entries");
        break;
      }
      case 2: if (it != files.end() && it->second.d == OK) { s.note("remove shape"); fs::remove(fname(k, l) + ".shape"); it->second.d = NOSHAPE; } break;
      case 3: if (it != files.end() && it->second.d == OK) {  // drop whole trailing entries
          s.note("truncate"); std::ifstream f(fname(k, l)); std::vector<std::string> tok; std::string t; while (f >> t) tok.push_back(t); f.close(); size_t keep = s.urange(0, tok.size() - 1);
          std::ofstream o(fname(k, l)); for (size_t i = 0; i < keep; ++i) o << tok[i] << " "; it->second.d = CUT; } break;
      case 4: if (it != files.end() && it->second.d == OK) { s.note("garbage"); std::ofstream o(fname(k, l)); o << "not a number"; it->second.d = GARB; } break;
      case 5: if (it != files.end() && it->second.d == OK) { s.note("bad shape"); std::ofstream o(fname(k, l) + ".shape"); o << (s.boolean() ? "x y" : "2"); it->second.d = SHGARB; } break;
      default: {  // unwritable target: a file stands where the directory should be
        s.note("blocked dump"); fs::path b = root / "blocked"; { std::ofstream o(b); o << "f"; } Configuration c(rgrid(s, 2, 2, 2)); bool threw = false;
        try { c.Dump(b.string(), l); } catch (const std::exception &) { threw = true; } PBT_ASSERT(threw, "dump below a regular file reported success"); fs::remove(b); break; }
    }
  }
  if (nt) s.nontrivial();
}
#else
PBT_PROP(configuration_messages, 400, 8000, "at least two ranks and more than one site") {
  int me, np; MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &np);
  size_t R = s.urange(1, 5), C = s.urange(1, 5); std::string bad;
  std::vector<Grid> g; for (int i = 0; i < np; ++i) g.push_back(rgrid(s, R, C, s.boolean() ? 3 : 4000000000u));
  MPI_Comm comm = MPI_COMM_WORLD; bool rev = s.boolean(); if (rev) MPI_Comm_split(MPI_COMM_WORLD, 0, np - me, &comm);
  int cr; MPI_Comm_rank(comm, &cr); auto world = [&](int r) { return rev ? np - 1 - r : r; };
  size_t n = s.urange(1, 5); Configuration c(g[me]);
  for (size_t k = 0; k < n && bad.empty(); ++k) {
    switch (s.urange(0, 2)) {
      case 0: { size_t root = s.urange(0, np - 1); s.note("bcast"); qlpeps::MPI_BCast(c, root, comm); Grid rg = g[world((int) root)]; for (auto &x : g) x = rg; break; }
      case 1: {  // ring exchange
        size_t sh = s.urange(0, np - 1); s.note("sendrecv"); int tag = (int) s.urange(0, 5); Configuration in(R, C); MPI_Status st;
        const Configuration &cc = c; qlpeps::MPI_Sendrecv(cc, (size_t) ((cr + (int) sh) % np), tag, in, (size_t) ((cr - (int) sh + np) % np), tag, comm, &st);
        if (read(c) != g[me]) bad = "Sendrecv changed the sent configuration"; c = in;
        std::vector<Grid> h(np); for (int r = 0; r < np; ++r) h[world((r + (int) sh) % np)] = g[world(r)]; g = h; break; }
      default: {  // one message from a to b
        int a = (int) s.urange(0, np - 1), b = (int) s.urange(0, np - 1); s.note("send"); if (a == b) break; int tag = (int) s.urange(0, 9); MPI_Status st; 
        if (cr == a) qlpeps::MPI_Send(c, (size_t) b, tag, comm); if (cr == b) { int e = qlpeps::MPI_Recv(c, (size_t) a, tag, comm, &st); if (e != MPI_SUCCESS) bad = "Recv error code"; }
        g[world(b)] = g[world(a)]; break; }
    }
    int f = (bad.empty() && read(c) == g[me]) ? 0 : 1, any; MPI_Allreduce(&f, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    if (any) { if (f && bad.empty()) bad = "rank " + std::to_string(me) + " holds " + str(read(c)) + " expected " + str(g[me]); else if (bad.empty()) bad = "another rank is wrong"; }
  }
  if (rev) MPI_Comm_free(&comm);
  PBT_ASSERT(bad.empty(), bad);
  if (np > 1 && R * C > 1) s.nontrivial();
}
#endif
#endif

#ifdef PART_C14
PBT_PROP(jastrow_histories, 3000, 200000, "at least two different pairs set") {
  size_t R = s.urange(1, 4), C = s.urange(1, 4), N = R * C; JastrowFactor j(R, C); PBT_ASSERT(j.NumSites() == N, "NumSites");
  std::map<std::pair<size_t, size_t>, double> m; auto key = [](size_t a, size_t b) { return std::make_pair(std::min(a, b), std::max(a, b)); };
  auto S = [&](size_t i) { return SiteIdx{i / C, i % C}; };
  auto auditj = [&]() {
    const JastrowFactor &cj = j;
    for (size_t a = 0; a < N; ++a) { PBT_ASSERT(j.SiteIdxToLinear(S(a)) == a && j.SiteToIndex(S(a)) == a, "site numbering"); for (size_t b = 0; b < N; ++b) { double e = a == b ? 0.0 : (m.count(key(a, b)) ? m[key(a, b)] : 0.0); PBT_ASSERT(cj(a, b) == e && cj(S(a), S(b)) == e, "v(" + std::to_string(a) + "," + std::to_string(b) + ")"); } }
  };
  auditj(); size_t n = s.urange(1, 8); std::set<std::pair<size_t, size_t>> set;
  for (size_t k = 0; k < n; ++k) {
    if (N >= 2) {
      size_t a = s.urange(0, N - 1), b = s.urange(0, N - 2); if (b >= a) ++b; double v = s.mixed(); if (!std::isfinite(v)) v = 1; set.insert(key(a, b));
      switch (s.urange(0, 5)) {
        case 0: j.Set(a, b, v); m[key(a, b)] = v; break;
        case 1: j.Set(S(a), S(b), v); m[key(a, b)] = v; break;
        case 2: j(a, b) = v; m[key(a, b)] = v; break;
        case 3: j(S(a), S(b)) = v; m[key(a, b)] = v; break;
        case 4: { JastrowFactor q = j; q(a, b) = v + 1; break; }
        default: { size_t calls = 0; j.Fill([&](size_t x, size_t y) { ++calls; if (x >= y) calls += 100000; return v + (double) x - 3.0 * (double) y; }); PBT_ASSERT(calls == N * (N - 1) / 2, "Fill must visit each pair i<j once"); for (size_t x = 0; x < N; ++x) for (size_t y = x + 1; y < N; ++y) m[{x, y}] = v + (double) x - 3.0 * (double) y; }
      }
    }
    auditj();
    Grid g = rgrid(s, R, C, 4); Configuration d(g); 
    for (size_t i = 0; i < N; ++i) { long double e = 0, sc = 0; for (size_t q = 0; q < N; ++q) if (q != i) { long double t = (long double) (m.count(key(i, q)) ? m[key(i, q)] : 0.0) * g[q / C][q % C]; e += t; sc += std::abs(t); } double f = j.JastrowFieldAtSite(d, S(i)); PBT_ASSERT(std::abs(f - (double) e) <= 1e-13 * (double) sc, "field at " + std::to_string(i) + " is " + pbt::show(f) + " expected " + pbt::show((double) e)); }
    PBT_ASSERT(read(d) == g, "density configuration changed");
  }
  if (set.size() > 1) s.nontrivial();
}
#endif
