// Pure text functions: UTF-8 counting and cutting on arbitrary bytes, and the
// numeral converters.
#include "ChineseNumbers.h"
#include "SuzhouNumbers.h"
#include "UTF8Helper.h"
#include "vf.h"
using vf::J;
using vf::W;
static std::string Bytes(J a) {
  std::string s;
  for (size_t i = 0; i < a.size(); ++i) s += static_cast<char>(a.at(i).i());
  return s;
}
static std::string Digits(J a) {
  std::string s;
  for (size_t i = 0; i < a.size(); ++i) s += static_cast<char>('0' + a.at(i).i());
  return s;
}
static void PutBytes(W& w, const std::string& s) {
  w.ab();
  for (unsigned char c : s) w.v(static_cast<int>(c));
  w.ae();
}
static void Run(J sc) {
  J ops = sc["ops"];
  for (size_t i = 0; i < ops.size(); ++i) {
    J e = ops.at(i);
    W w;
    std::string k = e["k"].s();
    if (k == "utf8") {
      std::string b = Bytes(e["b"]);
      w.kv("n", McBopomofo::CodePointCount(b));
      w.k("cut").ab();
      for (size_t j = 0; j <= b.size() + 1; ++j) PutBytes(w, McBopomofo::SubstringToCodePoints(b, j));
      w.ae().k("split").ab();
      auto parts = McBopomofo::Split(b);
      for (auto& p : parts) PutBytes(w, p);
      w.ae().k("at").ab();
      for (size_t j = 0; j < parts.size(); ++j) PutBytes(w, McBopomofo::GetCodePoint(b, j));
      w.ae();
    } else if (k == "zh") {
      w.kv("lower", ChineseNumbers::Generate(Digits(e["i"]), Digits(e["d"]), ChineseNumbers::ChineseNumberCase::LOWERCASE));
      w.kv("upper", ChineseNumbers::Generate(Digits(e["i"]), Digits(e["d"]), ChineseNumbers::ChineseNumberCase::UPPERCASE));
    } else {
      w.kv("vert", SuzhouNumbers::Generate(Digits(e["i"]), Digits(e["d"]), e["unit"].s(), true));
      w.kv("horz", SuzhouNumbers::Generate(Digits(e["i"]), Digits(e["d"]), e["unit"].s(), false));
    }
    vf::Emit(e, w.t);
  }
}
int main(int argc, char** argv) { return vf::Main(argc, argv, Run); }
