// C10: directory helpers against std::filesystem inside a scratch directory.
#include "pbt.hpp"
#include "qlpeps/utility/filesystem_utils.h"
using namespace qlpeps;
namespace fs = std::filesystem;
struct Mute { std::streambuf *a = std::cout.rdbuf(nullptr), *b = std::cerr.rdbuf(nullptr); ~Mute() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::cout.clear(); std::cerr.clear(); } };
PBT_PROP(paths_history, 6000, 200000, "histories of ensure/create/exists/remove/touch on a small random path tree incl. trailing slashes, dots, files in the way, dangling links; non-trivial if a nested directory was created") {
  fs::path root = fs::path(pbt::ScratchDir()) / "fsu"; fs::remove_all(root); fs::create_directories(root); bool nested = false;
  std::vector<std::string> names{"a", "b", "c d", "e.f"}; size_t n = s.urange(1, 14);
  for (size_t k = 0; k < n; ++k) {
    std::string p = root.string(); size_t depth = s.urange(1, 4); for (size_t d = 0; d < depth; ++d) { p += "/"; if (s.chance(1, 10)) p += "./"; p += names[s.draw(4)]; } 
    size_t op = s.freq({5, 5, 4, 2, 2, 1});
    if (s.chance(1, 5)) p += "/";
    bool was = false, wasdir = false; { std::error_code ec; was = fs::exists(p, ec) && !ec; wasdir = fs::is_directory(p, ec) && !ec; }
    // can a directory be there afterwards?  walk the prefixes: a non-directory in the way makes it impossible
    bool blocked = false; { fs::path q; for (auto &c : fs::path(p)) { q /= c; std::error_code ec; auto st = fs::symlink_status(q, ec); if (!ec && fs::exists(st) && !fs::is_directory(q, ec)) blocked = true; } }
    Mute mute;
    switch (op) {
      case 0: case 1: { bool r = op == 0 ? EnsureDirectoryExists(p) : CreatePath(p); s.note(op == 0 ? "ensure " : "create ", p.substr(root.string().size()), " -> ", r, "; ");
        std::error_code ec; bool now = fs::is_directory(p, ec);
        PBT_ASSERT(r == now, "returned ", r, " but directory is ", now ? "there" : "absent", ": ", p); PBT_ASSERT(now == !blocked, "directory ", now ? "there" : "absent", " blocked=", blocked); if (!was && now && depth > 1) nested = true; break; }
      case 2: PBT_ASSERT(IsPathExist(p) == was, "existence of ", p); break;
      case 3: { std::error_code ec; if (!was && fs::is_directory(fs::path(p).parent_path(), ec) && p.back() != '/') { std::ofstream(p) << "x"; s.note("touch; "); s.label("file"); } break; }
      case 4: { std::error_code ec; fs::remove_all(p.back() == '/' ? p.substr(0, p.size() - 1) : p, ec); s.note("rm; "); break; }
      default: { std::error_code ec; std::string q = p.back() == '/' ? p.substr(0, p.size() - 1) : p; if (!was && fs::is_directory(fs::path(q).parent_path(), ec)) { fs::create_symlink(root / "nowhere", q, ec); s.label("dangling"); } break; }
    }
    (void) wasdir;
  }
  { Mute mute; std::string longp = root.string() + "/" + std::string(s.urange(256, 300), 'x'), deep = longp + "/a", manyp = root.string(); for (int q = 0; q < 60; ++q) manyp += "/" + std::string(100, 'y');   // names the file system refuses
    for (auto &p : {longp, deep, manyp}) PBT_ASSERT(!IsPathExist(p) && !CreatePath(p) && !EnsureDirectoryExists(p), "a name the file system refuses");
    std::string loop = root.string() + "/loop"; std::error_code ec; fs::remove_all(loop, ec); fs::create_symlink(loop, loop, ec); for (auto &p : {loop, loop + "/a"}) PBT_ASSERT(!IsPathExist(p) && !CreatePath(p) && !EnsureDirectoryExists(p), "a link to itself"); fs::remove(loop, ec);
    // a working directory-relative path and a link to a directory
    std::string tgt = root.string() + "/tgt", lnk = root.string() + "/lnk"; fs::create_directories(tgt); fs::create_symlink(tgt, lnk, ec); PBT_ASSERT(IsPathExist(lnk) && CreatePath(lnk) && EnsureDirectoryExists(lnk + "/sub") && fs::is_directory(tgt + "/sub"), "directory behind a link"); }
  PBT_ASSERT(!IsPathExist("") && !CreatePath("") && !EnsureDirectoryExists(""), "empty path");
  s.nontrivial(nested);
}
