// McBopomofoLM with in-memory data: merging of user, excluded, replaced and
// built-in phrases.
#include <unistd.h>

#include <cmath>
#include <filesystem>
#include <fstream>
#include <memory>

#include "McBopomofoLM.h"
#include "vf.h"
using namespace McBopomofo;
using vf::J;
using vf::W;
static void Score(W& w, double d) {
  long long m = std::llround(d * 1000);
  w.v(m).v(static_cast<int>(std::llround((d - static_cast<double>(m) / 1000.0) * 1e9)));
}
static void Run(J sc) {
  static std::vector<std::unique_ptr<std::string>> keep;
  McBopomofoLM lm;
  std::map<std::string, std::string> macro, conv;
  for (size_t i = 0; i < sc["macro"].size(); ++i) macro[sc["macro"].at(i).at(0).s()] = sc["macro"].at(i).at(1).s();
  for (size_t i = 0; i < sc["conv"].size(); ++i) conv[sc["conv"].at(i).at(0).s()] = sc["conv"].at(i).at(1).s();
  if (sc["hasMacro"].b()) lm.setMacroConverter([&](const std::string& s) { auto i = macro.find(s); return i == macro.end() ? s : i->second; });
  if (sc["hasConv"].b()) lm.setExternalConverter([&](const std::string& s) { auto i = conv.find(s); return i == conv.end() ? s : i->second; });
  std::string root = "lm" + std::to_string(getpid());
  std::filesystem::create_directory(root);
  int files = 0;
  // A new file with the given content, or a name nothing exists under.
  auto put = [&](const std::string& s, bool there) {
    std::string n = root + "/" + std::to_string(files++);
    if (there) std::ofstream(n, std::ios::binary) << s;
    return n;
  };
  auto text = [](const std::string& k, J x) {
    std::string s = k == "lm" || k == "assoc" ? std::string(SORTED_PRAGMA_HEADER) : "";
    for (size_t j = 0; j < x.size(); ++j) {
      J r = x.at(j);
      if (k == "lm") {
        char b[40];
        snprintf(b, sizeof b, "%g", static_cast<double>(r["s"].i()) / 1000.0);
        s += r["k"].s() + " " + r["v"].s() + " " + b + "\n";
      } else if (k == "assoc") s += r["p"].s() + "-" + r["r"].s() + "-" + r["v"].s() + "-" + r["w"].s() + " -" + std::to_string(r["s"].i()) + "\n";
      else if (k == "repl") s += r["v"].s() + "\t" + r["to"].s() + "\n";
      else s += r["v"].s() + " " + r["k"].s() + "\n";
    }
    return s;
  };
  J ops = sc["ops"];
  for (size_t i = 0; i < ops.size(); ++i) {
    J e = ops.at(i);
    std::string k = e["k"].s();
    W w;
    if (k == "lm" || k == "user" || k == "excl" || k == "repl" || k == "assoc") {
      keep.push_back(std::make_unique<std::string>(text(k, e["x"])));
      const std::string& d = *keep.back();
      bool f = e["f"].b(false);
      if (k == "lm" && f) lm.loadLanguageModel(put(d, true).c_str());
      else if (k == "lm") lm.loadLanguageModel(std::make_unique<ParselessPhraseDB>(d.data(), d.size(), true));
      else if (k == "user") lm.loadUserPhrases(d.data(), d.size());
      else if (k == "excl") lm.loadExcludedPhrases(d.data(), d.size());
      else if (k == "assoc" && f) lm.loadAssociatedPhrasesV2(put(d, true).c_str());
      else if (k == "assoc") lm.loadAssociatedPhrasesV2(std::make_unique<ParselessPhraseDB>(d.data(), d.size(), true));
      else if (f) lm.loadPhraseReplacementMap(put(d, true).c_str());
      else lm.loadPhraseReplacementMap(d.data(), d.size());
    } else if (k == "files") {  // both files at once; "none": no name given, "gone": no such file
      std::string u = e["us"].s(), x = e["xs"].s();
      std::string un = put(text("user", e["u"]), u == "file"), xn = put(text("user", e["x"]), x == "file");
      lm.loadUserPhrases(u == "none" ? nullptr : un.c_str(), x == "none" ? nullptr : xn.c_str());
    } else if (k == "gone") {  // a data file that does not exist
      std::string n = put("", false);
      if (e["what"].s() == "lm") lm.loadLanguageModel(n.c_str());
      else if (e["what"].s() == "repl") lm.loadPhraseReplacementMap(n.c_str());
      else lm.loadAssociatedPhrasesV2(n.c_str());
    } else if (k == "null") {  // no name given: nothing changes
      if (e["what"].s() == "lm") lm.loadLanguageModel(static_cast<const char*>(nullptr));
      else if (e["what"].s() == "repl") lm.loadPhraseReplacementMap(static_cast<const char*>(nullptr));
      else lm.loadAssociatedPhrasesV2(static_cast<const char*>(nullptr));
    } else if (k == "cm") w.kv("r", lm.convertMacro(e["v"].s()));
    else if (k == "aq") {
      w.k("r").ab();
      for (auto& x : lm.findAssociatedPhrasesV2(e["p"].s(), {e["r"].s()})) w.ab().v(x.value).v(x.combinedReading()).ae();
      w.ae();
    } else if (k == "ron") lm.setPhraseReplacementEnabled(e["b"].b());
    else if (k == "eon") lm.setExternalConverterEnabled(e["b"].b());
    else if (k == "q") {
      w.kv("has", lm.hasUnigrams(e["key"].s())).k("r").ab();
      for (auto& u : lm.getUnigrams(e["key"].s())) { w.ab().v(u.value()); Score(w, u.score()); w.ae(); }
      w.ae();
    } else if (k == "rd") w.kv("r", lm.getReading(e["v"].s()));
    w.kv("lml", lm.isDataModelLoaded()).kv("asl", lm.isAssociatedPhrasesV2Loaded());
    w.kv("ron", lm.phraseReplacementEnabled()).kv("eon", lm.externalConverterEnabled());
    vf::Emit(e, w.t);
  }
  std::filesystem::remove_all(root);
}
int main(int argc, char** argv) { return vf::Main(argc, argv, Run); }
