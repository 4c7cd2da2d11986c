// The file formats and tables: sorted dictionaries (ParselessPhraseDB and
// ParselessLM), user-editable key/value files, associated phrases.  Contents
// live in heap blocks of their exact size, so that reads outside are caught.
#include "AssociatedPhrasesV2.h"
#include "KeyValueBlobReader.h"
#include "ParselessLM.h"
#include "ParselessPhraseDB.h"
#include "PhraseReplacementMap.h"
#include "UserPhrasesLM.h"
#include "vf.h"
using namespace McBopomofo;
using vf::J;
using vf::W;

static std::string Bytes(J a) {
  std::string s;
  for (size_t i = 0; i < a.size(); ++i) s += static_cast<char>(a.at(i).i());
  return s;
}
static void PutBytes(W& w, std::string_view s) {
  w.ab();
  for (unsigned char c : s) w.v(static_cast<int>(c));
  w.ae();
}
struct Block {
  char* p; size_t n;
  explicit Block(const std::string& s) : p(static_cast<char*>(malloc(s.empty() ? 1 : s.size()))), n(s.size()) { memcpy(p, s.data(), n); }
  ~Block() { free(p); }
};
static long long Milli(double d) { return static_cast<long long>(d * 1000 + (d < 0 ? -0.5 : 0.5)); }

static void Sorted(J sc) {
  std::string c;
  if (sc["pragma"].b()) c = std::string(SORTED_PRAGMA_HEADER);
  J ls = sc["ls"];
  for (size_t i = 0; i < ls.size(); ++i) {
    c += Bytes(ls.at(i));
    if (i + 1 < ls.size() || sc["term"].b()) c += '\n';
  }
  Block blk(c);
  if (blk.n == 0) return;
  ParselessPhraseDB db(blk.p, blk.n, sc["validate"].b());
  ParselessLM lm;
  lm.open(std::make_unique<ParselessPhraseDB>(blk.p, blk.n, sc["validate"].b()));
  J ops = sc["ops"];
  for (size_t i = 0; i < ops.size(); ++i) {
    J e = ops.at(i);
    std::string k = e["k"].s(), key = Bytes(e["key"]);
    W w;
    if (k == "rows" || k == "rev") {
      w.k("r").ab();
      if (k == "rows") for (auto& r : db.findRows(key)) PutBytes(w, r);
      else for (auto& r : db.reverseFindRows(key)) PutBytes(w, r);
      w.ae();
    } else if (k == "first") {
      const char* p = db.findFirstMatchingLine(key);
      w.kv("r", p ? static_cast<long long>(p - blk.p) - static_cast<long long>(sc["pragma"].b() && sc["validate"].b() ? SORTED_PRAGMA_HEADER.length() : 0) : -1LL);
    } else if (k == "uni") {
      w.kv("has", lm.hasUnigrams(key)).k("r").ab();
      for (auto& u : lm.getUnigrams(key)) { w.ab(); PutBytes(w, u.value()); w.v(Milli(u.score())).ae(); }
      w.ae();
    } else if (k == "read") {
      w.k("r").ab();
      for (auto& u : lm.getReadings(key)) { w.ab(); PutBytes(w, u.reading); w.v(Milli(u.score)).ae(); }
      w.ae();
    }
    vf::Emit(e, w.t);
  }
}

static const char* StateName(KeyValueBlobReader::State s) {
  switch (s) {
    case KeyValueBlobReader::State::ERROR: return "error";
    case KeyValueBlobReader::State::END: return "end";
    case KeyValueBlobReader::State::HAS_PAIR: return "pair";
    default: return "continue";
  }
}
static void Blob(J sc) {
  Block blk(Bytes(sc["bytes"]));
  KeyValueBlobReader rd(blk.p, blk.n);
  UserPhrasesLM up;
  PhraseReplacementMap pr;
  J ops = sc["ops"];
  for (size_t i = 0; i < ops.size(); ++i) {
    J e = ops.at(i);
    std::string k = e["k"].s();
    W w;
    if (k == "next") {
      KeyValueBlobReader::KeyValue kv;
      auto s = rd.Next(e["null"].b() ? nullptr : &kv);
      w.kv("s", StateName(s)).k("key");
      PutBytes(w, kv.key);
      w.k("val");
      PutBytes(w, kv.value);
    } else if (k == "load") {
      w.kv("up", up.load(blk.p, blk.n)).kv("pr", pr.load(blk.p, blk.n));
    } else if (k == "user") {
      std::string q = Bytes(e["key"]);
      w.kv("has", up.hasUnigrams(q)).k("r").ab();
      for (auto& u : up.getUnigrams(q)) { w.ab(); PutBytes(w, u.value()); w.v(Milli(u.score())).ae(); }
      w.ae();
    } else if (k == "repl") {
      w.k("r");
      PutBytes(w, pr.valueForKey(Bytes(e["key"])));
    }
    vf::Emit(e, w.t);
  }
}

static void Assoc(J sc) {
  std::string c = std::string(SORTED_PRAGMA_HEADER) + sc["text"].s();
  Block blk(c);
  AssociatedPhrasesV2 ap;
  ap.open(std::make_unique<ParselessPhraseDB>(blk.p, blk.n, true));
  J ops = sc["ops"];
  for (size_t i = 0; i < ops.size(); ++i) {
    J e = ops.at(i);
    std::string k = e["k"].s();
    W w;
    if (k == "find") {
      std::string v;
      std::vector<std::string> rd;
      for (size_t j = 0; j < e["v"].size(); ++j) v += e["v"].at(j).s();
      for (size_t j = 0; j < e["rd"].size(); ++j) rd.push_back(e["rd"].at(j).s());
      w.k("r").ab();
      for (auto& p : ap.findPhrases(v, rd)) w.ob().kv("v", p.value).k("rd").strs(p.readings).kv("c", p.combinedReading()).oe();
      w.ae();
    } else if (k == "comb") {
      std::vector<std::string> rd;
      for (size_t j = 0; j < e["rd"].size(); ++j) rd.push_back(e["rd"].at(j).s());
      std::string x = AssociatedPhrasesV2::CombineReadings(rd);
      w.kv("c", x).k("s").strs(AssociatedPhrasesV2::SplitReadings(x));
    } else if (k == "split") {
      auto x = AssociatedPhrasesV2::SplitReadings(e["s"].s());
      w.k("s").strs(x).kv("c", AssociatedPhrasesV2::CombineReadings(x));
    }
    vf::Emit(e, w.t);
  }
}

int main(int argc, char** argv) {
  return vf::Main(argc, argv, [](J sc) {
    std::string k = sc["kind"].s();
    if (k == "sorted") Sorted(sc);
    else if (k == "blob") Blob(sc);
    else if (k == "assoc") Assoc(sc);
  });
}
