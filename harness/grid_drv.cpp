// Drives gramambular2's ReadingGrid.
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>

#include "gramambular2/reading_grid.h"
#include "vf.h"
using namespace vf;
using Formosa::Gramambular2::LanguageModel;
using Formosa::Gramambular2::ReadingGrid;

static json_object* gLms;

class LM : public LanguageModel {
 public:
  std::map<std::string, std::vector<Unigram>> db;
  std::vector<Unigram> getUnigrams(const std::string& r) override {
    auto i = db.find(r);
    return i == db.end() ? std::vector<Unigram>() : i->second;
  }
  bool hasUnigrams(const std::string& r) override { return db.count(r) != 0; }
};

// Scores are whole units of 1/16384, exact in floating point, so that close
// calls between conversions are part of the scenarios.
static const double kUnit = 1.0 / 16384;
static long long Units(double d) { return llround(d / kUnit); }

static std::string Obs(ReadingGrid& g, bool ret, const std::string& chr, const std::string& chv) {
  W w;
  w.kv("chr", chr).kv("chv", chv);
  w.kv("ret", ret).kv("cur", g.cursor());
  w.k("rd").strs(g.readings());
  w.k("cells").ab();
  auto& spans = g.spans();
  for (size_t i = 0; i < spans.size(); ++i)
    for (size_t n = 1; n <= ReadingGrid::kMaximumSpanLength; ++n) {
      auto p = spans[i].nodeOf(n);
      if (!p) continue;
      w.ob().kv("p", i).kv("n", n).kv("r", p->reading()).kv("v", p->value());
      w.kv("sl", p->spanningLength());
      w.kv("ov", p->isOverridden()).kv("s", Units(p->score())).k("u").ab();
      for (auto& u : p->unigrams()) w.ab().v(u.value()).v(Units(u.score())).ae();
      w.ae().oe();
    }
  w.ae();
  w.kv("nspans", spans.size());
  auto walk = g.walk();
  w.k("walk").ab();
  for (auto& n : walk.nodes) w.ob().kv("r", n->reading()).kv("n", n->spanningLength()).kv("v", n->value()).oe();
  w.ae();
  w.k("wv").strs(walk.valuesAsStrings());
  w.k("at").ab();  // findNodeAt for each location: index of node and cursor past it
  for (size_t c = 0; c <= g.length() + 1; ++c) {
    size_t past = 0;
    auto it = walk.findNodeAt(c, &past);
    w.ab().v(it == walk.nodes.cend() ? -1LL : (long long)(it - walk.nodes.cbegin())).v(it == walk.nodes.cend() ? 0 : past).ae();
  }
  w.ae();
  w.k("cand").ab();
  for (size_t c = 0; c <= g.length() + 1; ++c) {
    w.ab();
    for (auto& x : g.candidatesAt(c)) w.ab().v(x.reading).v(x.value).ae();
    w.ae();
  }
  w.ae();
  w.k("fs").ab();  // every phrase findInSpan offers its predicate, per place
  for (size_t c = 0; c <= g.length() && g.length() > 0; ++c) {
    std::vector<ReadingGrid::NodePtr> seen;
    bool none = !g.findInSpan(c, [&](const ReadingGrid::NodePtr& n) { seen.push_back(n); return false; }).has_value();
    bool same = true;
    for (auto& s : seen) {
      auto f = g.findInSpan(c, [&](const ReadingGrid::NodePtr& n) { return n == s; });
      same = same && f.has_value() && *f == s;
    }
    w.ob().kv("ok", none && same).k("ns").ab();
    for (auto& s : seen) w.ab().v(s->reading()).v(s->spanningLength()).ae();
    w.ae().oe();
  }
  w.ae();
  return w.t;
}

static void Run(J sc) {
  auto lm = std::make_shared<LM>();
  J m = J(gLms).at(sc["lm"].i() - 1);
  json_object_object_foreach(m.o, key, val) {
    J us(val);
    std::vector<LanguageModel::Unigram> v;
    for (size_t i = 0; i < us.size(); ++i) v.emplace_back(us.at(i)["v"].s(), us.at(i)["s"].d() * kUnit);
    // The model lists unigrams ranked; hand them over unranked.
    std::reverse(v.begin(), v.end());
    if (v.size() > 2) std::rotate(v.begin(), v.begin() + 1, v.end());
    lm->db[key] = v;
  }
  ReadingGrid g(lm);
  J ops = sc["ops"];
  for (size_t i = 0; i < ops.size(); ++i) {
    J op = ops.at(i);
    std::string k = op["k"].s();
    bool ret = false;
    std::string chr = op["r"].s(), chv = op["v"].s();
    auto type = op["ty"].i(1) == 1 ? ReadingGrid::Node::OverrideType::kOverrideValueWithHighScore
                                   : ReadingGrid::Node::OverrideType::kOverrideValueWithScoreFromTopUnigram;
    if (k == "ins") ret = g.insertReading(op["r"].s());
    else if (k == "bs") ret = g.deleteReadingBeforeCursor();
    else if (k == "del") ret = g.deleteReadingAfterCursor();
    else if (k == "cur") g.setCursor(std::min<size_t>(op["c"].i(), g.length()));
    else if (k == "clr") g.clear();
    else if (k == "ovr") ret = g.overrideCandidate(op["c"].i(), ReadingGrid::Candidate(op["r"].s(), op["v"].s()), type);
    else if (k == "ovv") ret = g.overrideCandidate(op["c"].i(), op["v"].s(), type);
    else if (k == "ovi") {  // choose the i-th listed candidate
      auto c = g.candidatesAt(op["c"].i());
      if (!c.empty()) {
        auto& x = c[op["i"].i() % c.size()];
        chr = x.reading; chv = x.value;
        ret = g.overrideCandidate(op["c"].i(), x, type);
      }
    } else _exit(98);
    Emit(op, Obs(g, ret, chr, chv));
  }
}

int main(int argc, char** argv) {
  if (argc < 4) return 2;
  gLms = json_object_from_file(argv[3]);
  if (!gLms) return 2;
  return Main(argc, argv, Run);
}
