// Drives UserOverrideModel through real conversions: choices are made in a
// ReadingGrid, learnt from the walks before and after, and the suggestion is
// asked for at every place.
#include <algorithm>
#include <memory>

#include "UserOverrideModel.h"
#include "gramambular2/reading_grid.h"
#include "vf.h"
using namespace vf;
using Formosa::Gramambular2::LanguageModel;
using Formosa::Gramambular2::ReadingGrid;

static json_object* gLms;

class LM : public LanguageModel {
 public:
  std::map<std::string, std::vector<Unigram>> db;
  std::vector<Unigram> getUnigrams(const std::string& r) override {
    auto i = db.find(r);
    return i == db.end() ? std::vector<Unigram>() : i->second;
  }
  bool hasUnigrams(const std::string& r) override { return db.count(r) != 0; }
};

static void Run(J sc) {
  auto lm = std::make_shared<LM>();
  J m = J(gLms).at(sc["lm"].i() - 1);
  json_object_object_foreach(m.o, key, val) {
    J us(val);
    std::vector<LanguageModel::Unigram> v;
    for (size_t i = 0; i < us.size(); ++i) v.emplace_back(us.at(i)["v"].s(), us.at(i)["s"].d() / 16384);
    lm->db[key] = v;
  }
  ReadingGrid g(lm);
  double hl = 5400.0, base = 1.7e9;
  McBopomofo::UserOverrideModel u(sc["cap"].i(), hl);
  long long now = 0;
  ReadingGrid::WalkResult old;
  J ops = sc["ops"];
  for (size_t i = 0; i < ops.size(); ++i) {
    J op = ops.at(i);
    std::string k = op["k"].s();
    now += op["d"].i(0);
    auto t = [&] { return base + static_cast<double>(now) * hl / 8.0; };
    bool ret = false;
    std::string chr, chv;
    size_t before = 0;
    if (k == "ins") ret = g.insertReading(op["r"].s());
    else if (k == "bs") ret = g.deleteReadingBeforeCursor();
    else if (k == "del") ret = g.deleteReadingAfterCursor();
    else if (k == "cur") g.setCursor(std::min<size_t>(op["c"].i(), g.length()));
    else if (k == "clr") g.clear();
    else if (k == "pick") {  // choose the i-th listed candidate and learn
      auto c = g.candidatesAt(op["c"].i());
      if (!c.empty()) {
        auto& x = c[op["i"].i() % c.size()];
        chr = x.reading;
        chv = x.value;
        auto w0 = g.walk();
        ret = g.overrideCandidate(op["c"].i(), x,
                                  op["ty"].i(1) == 1 ? ReadingGrid::Node::OverrideType::kOverrideValueWithHighScore
                                                     : ReadingGrid::Node::OverrideType::kOverrideValueWithScoreFromTopUnigram);
        auto w1 = g.walk();
        u.observe(w0, w1, op["oc"].i(), t());
      }
    } else if (k == "stale") {  // walks that do not belong together teach nothing
      auto w1 = g.walk();
      before = old.totalReadings;
      if (old.totalReadings != w1.totalReadings) {
        ret = true;
        u.observe(old, w1, op["c"].i(), t());
        u.observe(w1, old, op["c"].i(), t());
      }
    } else if (k != "tick") _exit(98);
    auto walk = g.walk();
    if (k == "keep" || op["keep"].b(false)) old = walk;
    W w;
    w.kv("ret", ret).kv("chr", chr).kv("chv", chv).kv("cur", g.cursor()).kv("before", before);
    w.k("rd").strs(g.readings());
    w.k("walk").ab();
    for (auto& n : walk.nodes) w.ob().kv("r", n->reading()).kv("n", n->spanningLength()).kv("v", n->value()).oe();
    w.ae().k("s").ab();
    for (size_t c = 0; c <= g.length() && g.length() > 0; ++c) {
      auto s = u.suggest(walk, c, t());
      w.ab().v(s.candidate).v(s.forceHighScoreOverride).v(s.empty()).ae();
    }
    w.ae();
    Emit(op, w.t);
  }
}

int main(int argc, char** argv) {
  if (argc < 4) return 2;
  gLms = json_object_from_file(argv[3]);
  if (!gLms) return 2;
  return Main(argc, argv, Run);
}
