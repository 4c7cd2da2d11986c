// LanguageModelLoader over real files in the scenario's own directory: first
// start, restarts, added phrases, and external changes to the user's files.
#include <fcntl.h>
#include <sys/stat.h>

#include <filesystem>
#include <fstream>
#include <memory>

#include "LanguageModelLoader.h"
#include "vf.h"
using namespace McBopomofo;
using vf::J;
using vf::W;
namespace fs = std::filesystem;

struct Strings : LanguageModelLoader::LocalizedStrings {
  std::string userPhraseFileHeader() override { return "# user\n\n"; }
  std::string excludedPhraseFileHeader() override { return "# excluded\n"; }
};
static std::string Slurp(const std::string& p) {
  std::ifstream i(p, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(i), {});
}
static void Spill(const std::string& p, const std::string& s, bool trunc = true) {
  std::ofstream o(p, trunc ? std::ios::binary | std::ios::trunc : std::ios::binary);
  o << s;
}
static void SetTime(const std::string& p, long mt) {
  struct timespec ts[2] = {{1000000000 + mt, 0}, {1000000000 + mt, 0}};
  utimensat(AT_FDCWD, p.c_str(), ts, 0);
}
static std::string Table(J x) {
  std::string s = "# format org.openvanilla.mcbopomofo.sorted\n";
  for (size_t j = 0; j < x.size(); ++j) {
    char b[40];
    snprintf(b, sizeof b, "%g", static_cast<double>(x.at(j)["s"].i()) / 1000.0);
    s += x.at(j)["k"].s() + " " + x.at(j)["v"].s() + " " + b + "\n";
  }
  return s;
}

static bool has(J a, const char* x) {
  for (size_t i = 0; i < a.size(); ++i) if (a.at(i).s() == x) return true;
  return false;
}

static void Run(J sc) {
  std::string root = fs::absolute("l" + std::to_string(getpid())).string();
  std::string home = root + "/" + sc["home"].s(), data = root + "/share/fcitx5/data";
  fs::create_directories(data);
  fs::create_directories(root + "/x");
  for (const char* v : {"XDG_CONFIG_HOME", "XDG_CACHE_HOME", "XDG_STATE_HOME"}) setenv(v, (root + "/x").c_str(), 1);
  setenv("XDG_DATA_HOME", home.c_str(), 1);
  setenv("XDG_DATA_DIRS", (root + "/share").c_str(), 1);
  setenv("FCITX_DATA_HOME", "", 1); unsetenv("FCITX_DATA_HOME");
  unsetenv("FCITX_DATA_DIRS");
  // Tables may not be installed, and something may stand where a directory is needed.
  if (!has(sc["miss"], "m")) Spill(data + "/mcbopomofo-data.txt", Table(sc["lm"]));
  if (!has(sc["miss"], "p")) Spill(data + "/mcbopomofo-data-plain-bpmf.txt", Table(sc["plain"]));
  std::string block = sc["block"].s();
  if (!block.empty()) {
    block = block == "home" ? home : home + "/" + block;
    fs::create_directories(fs::path(block).parent_path());
    Spill(block, "in the way");
  }
  if (sc["dirs"].i() >= 1) fs::create_directories(home);
  if (sc["dirs"].i() >= 2) fs::create_directories(home + "/fcitx5");
  if (sc["dirs"].i() >= 3) fs::create_directories(home + "/fcitx5/mcbopomofo");
  std::map<std::string, std::string> file = {{"u", home + "/fcitx5/mcbopomofo/data.txt"},
                                             {"x", home + "/fcitx5/mcbopomofo/exclude-phrases.txt"},
                                             {"r", home + "/fcitx5/mcbopomofo/phrases-replacement.txt"}};
  std::unique_ptr<LanguageModelLoader> ld;
  J ops = sc["ops"];
  for (size_t i = 0; i < ops.size(); ++i) {
    J e = ops.at(i);
    std::string k = e["k"].s(), f = file[e["f"].s()];
    W w;
    if (k == "free") {
      fs::remove(block);
    } else if (k == "start") {
      ld.reset();
      ld = std::make_unique<LanguageModelLoader>(std::make_unique<Strings>());
    } else if (k == "edit") {
      std::string s;
      J x = e["x"];
      for (size_t j = 0; j < x.size(); ++j) s += x.at(j)["s"].s() + (j + 1 < x.size() || e["term"].b() ? "\n" : "");
      fs::create_directories(fs::path(f).parent_path());
      if (e["how"].s() == "inplace") Spill(f, s);
      else { Spill(root + "/tmp", s); fs::rename(root + "/tmp", f); }
      SetTime(f, e["mt"].i());
    } else if (k == "rm") {
      fs::remove(f);
    } else if (k == "check") {
      ld->reloadUserModelsIfNeeded();
    } else if (k == "add") {
      usleep(12000);   // a clock tick apart from what happened before
      ld->addUserPhrase(e["r"].s(), e["v"].s());
    } else if (k == "mode") {
      ld->loadModelForMode(e["plain"].b() ? InputMode::PlainBopomofo : InputMode::McBopomofo);
    }
    w.k("fs").ob();
    for (auto& [n, p] : file) {
      w.k(n.c_str()).ob();
      std::error_code ec;
      bool ex = fs::exists(p, ec);
      w.kv("ex", ex).k("x").ab();
      std::string s = ex ? Slurp(p) : "", cur;
      bool term = true;
      for (char c : s) { if (c == '\n') { w.v(cur); cur.clear(); } else cur += c; }
      if (!cur.empty()) { w.v(cur); term = false; }
      w.ae().kv("term", term).oe();
    }
    w.oe().kv("up", ld != nullptr);
    w.kv("on", ld && ld->getLM()->phraseReplacementEnabled());
    w.kv("paths", ld && ld->userPhrasesPath() == file["u"] && ld->excludedPhrasesPath() == file["x"] && ld->userDataPath() + "/data.txt" == file["u"]);
    w.k("q").ab();
    for (size_t j = 0; j < sc["keys"].size(); ++j) {
      w.ab();
      if (ld) for (auto& u : ld->getLM()->getUnigrams(sc["keys"].at(j).s())) w.v(u.value());
      w.ae();
    }
    w.ae();
    vf::Emit(e, w.t);
  }
  ld.reset();
  fs::remove_all(root);
}
int main(int argc, char** argv) { return vf::Main(argc, argv, Run, 60); }
