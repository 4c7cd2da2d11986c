// Memory-mapped files, the objects loaded through them, and the change
// detector, over a small tree of real files in the scenario's own directory.
#include <fcntl.h>
#include <sys/stat.h>

#include <filesystem>
#include <fstream>
#include <memory>

#include "AssociatedPhrasesV2.h"
#include "MemoryMappedFile.h"
#include "ParselessLM.h"
#include "PhraseReplacementMap.h"
#include "TimestampedPath.h"
#include "UserPhrasesLM.h"
#include "vf.h"
using namespace McBopomofo;
using vf::J;
using vf::W;
namespace fs = std::filesystem;

static std::string ContentOf(long c) {
  if (c == 0) return "";
  std::string n = std::to_string(c);
  std::string s = "# format org.openvanilla.mcbopomofo.sorted\nk v" + n + " 0\nk-r-w" + n + "-r 0\n";
  if (c == 3) s += "kk" + std::string(9000, 'x') + " y\n";   // several pages
  return s;
}
static long ContentId(const char* p, size_t n) {
  for (long c = 0; c <= 3; ++c) if (ContentOf(c) == std::string(p, n)) return c;
  return 99;
}
static void SetTime(const std::string& p, long mt) {
  struct timespec ts[2] = {{1000000000 + mt, 0}, {1000000000 + mt, 0}};
  utimensat(AT_FDCWD, p.c_str(), ts, AT_SYMLINK_NOFOLLOW);
}

static int Descriptors() {
  int n = 0;
  for (auto& d : fs::directory_iterator("/proc/self/fd")) { (void)d; ++n; }
  return n;
}
static int Mappings(const std::string& root) {
  std::ifstream in("/proc/self/maps");
  std::string l;
  int n = 0;
  while (std::getline(in, l)) n += l.find("/" + root + "/") != std::string::npos;
  return n;
}
// Descriptors of somebody else: they take the numbers that become free, and
// have to stay open.
struct Others {
  std::vector<int> fd;
  dev_t dev; ino_t ino;
  Others() { struct stat b; stat("/dev/null", &b); dev = b.st_dev; ino = b.st_ino; }
  ~Others() { for (int f : fd) if (Ours(f)) ::close(f); }
  bool Ours(int f) { struct stat b; return fstat(f, &b) == 0 && b.st_dev == dev && b.st_ino == ino; }
  void More() { if (fd.size() == 6) { ::close(fd[0]); fd.erase(fd.begin()); } fd.push_back(::open("/dev/null", O_WRONLY)); }
  int Lost() { int n = 0; for (int f : fd) n += !Ours(f); return n; }
};

static void Run(J sc) {
  std::string root = "f" + std::to_string(getpid());
  fs::create_directory(root);
  std::vector<std::string> paths, slots = {"a", "b"};
  for (size_t i = 0; i < sc["paths"].size(); ++i) paths.push_back(sc["paths"].at(i).s());
  auto P = [&](const std::string& n) { return root + "/" + n; };
  std::map<std::string, std::unique_ptr<MemoryMappedFile>> mm;
  for (auto& s : slots) mm[s] = std::make_unique<MemoryMappedFile>();
  std::map<std::string, TimestampedPath> tp;
  for (auto& p : paths) tp.emplace(p, TimestampedPath(P(p)));
  ParselessLM lm;
  UserPhrasesLM up;
  PhraseReplacementMap pr;
  AssociatedPhrasesV2 ap;
  J ops = sc["ops"];
  int base = Descriptors();
  Others others;
  for (size_t i = 0; i < ops.size(); ++i) {
    J e = ops.at(i);
    std::string k = e["k"].s(), p = e["p"].s(), s = e["s"].s();
    W w;
    if (k == "write" || k == "rm" || k == "mkdir" || k == "link") {
      if (fs::is_directory(fs::symlink_status(P(p)))) fs::remove_all(P(p));
      if (k == "write") {
        { std::ofstream o(P("tmp"), std::ios::binary); o << ContentOf(e["c"].i()); }
        SetTime(P("tmp"), e["mt"].i());
        fs::rename(P("tmp"), P(p));
      } else {
        fs::remove(P(p));
        if (k == "mkdir") { fs::create_directory(P(p)); SetTime(P(p), e["mt"].i()); }
        if (k == "link") fs::create_symlink("nowhere", P(p));
      }
    } else if (k == "touch") {
      SetTime(P(p), e["mt"].i());
    } else if (k == "open") {
      w.kv("r", mm[s]->open(P(p).c_str()));
    } else if (k == "close") {
      mm[s]->close();
    } else if (k == "moveto") {       // construct b from a
      std::string d = e["d"].s();
      auto x = std::make_unique<MemoryMappedFile>(std::move(*mm[s]));
      mm[d] = std::move(x);
    } else if (k == "assign") {
      *mm[e["d"].s()] = std::move(*mm[s]);
    } else if (k == "lopen") {
      w.kv("r", lm.open(P(p).c_str())).kv("u", up.open(P(p).c_str())).kv("x", pr.open(P(p).c_str())).kv("a", ap.open(P(p).c_str()));
    } else if (k == "lclose") {
      lm.close(); up.close(); pr.close(); ap.close();
    } else if (k == "check") {
      tp.at(p).checkTimestamp();
    }
    w.k("mm").ob();
    for (auto& x : slots) {
      auto& m = *mm[x];
      w.k(x.c_str()).ob().kv("open", m.data() != nullptr).kv("len", m.length() > 1000000 ? 1000000 : static_cast<int>(m.length()))
          .kv("c", m.data() && m.length() < 1000000 ? ContentId(m.data(), m.length()) : -1L).oe();
    }
    w.oe();
    // which content each loaded object answers from (-1: none)
    long cl = -1, cu = -1, cx = -1, ca = -1;
    for (long c = 1; c <= 3; ++c) {
      std::string n = std::to_string(c);
      for (auto& u : lm.getUnigrams("k")) if (u.value() == "v" + n) cl = c;
      if (up.hasUnigrams("v" + n)) { auto u = up.getUnigrams("v" + n); cu = u.size() == 1 && u[0].value() == "k" ? c : 99; }
      if (pr.valueForKey("k") == "v" + n) cx = c;
      for (auto& x : ap.findPhrases("k", {})) if (x.value == "kw" + n) ca = c;
    }
    w.k("lm").ob().kv("loaded", lm.isLoaded()).kv("aloaded", ap.isLoaded()).kv("l", cl).kv("u", cu).kv("x", cx).kv("a", ca).kv("has", lm.hasUnigrams("k")).kv("rev", !lm.getReadings("v" + std::to_string(cl)).empty()).oe();
    w.k("tp").ob();
    for (auto& x : paths) w.k(x.c_str()).ob().kv("ex", tp.at(x).pathExists()).kv("file", tp.at(x).pathIsFile()).kv("diff", tp.at(x).timestampDifferentFromLastCheck()).oe();
    w.oe();
    int lost = others.Lost(), fds = Descriptors() - base - static_cast<int>(others.fd.size()) + lost;
    w.kv("fds", fds).kv("maps", Mappings(root)).kv("lost", lost);
    vf::Emit(e, w.t);
    if (lost) break;
    others.More();
  }
  fs::remove_all(root);
}
int main(int argc, char** argv) { return vf::Main(argc, argv, Run); }
