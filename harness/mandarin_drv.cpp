// The buffer of the unfinished syllable, the keyboards and the syllable parsers.
#include "Mandarin/Mandarin.h"
#include "vf.h"
using namespace Formosa::Mandarin;
using vf::J;
using vf::W;

static const BopomofoKeyboardLayout* Layout(const std::string& n) {
  if (n == "Standard") return BopomofoKeyboardLayout::StandardLayout();
  if (n == "ETen") return BopomofoKeyboardLayout::ETenLayout();
  if (n == "IBM") return BopomofoKeyboardLayout::IBMLayout();
  if (n == "Hsu") return BopomofoKeyboardLayout::HsuLayout();
  if (n == "ETen26") return BopomofoKeyboardLayout::ETen26Layout();
  return BopomofoKeyboardLayout::HanyuPinyinLayout();
}
static void PutSyllable(W& w, const char* name, BopomofoSyllable s) {
  w.k(name).ab().v(static_cast<int>(s.consonantComponent())).v(static_cast<int>(s.middleVowelComponent() >> 5))
      .v(static_cast<int>(s.vowelComponent() >> 7)).v(static_cast<int>(s.toneMarkerComponent() >> 11)).ae();
}
static void Observe(W& w, const BopomofoReadingBuffer& b) {
  w.kv("text", b.composedString()).kv("empty", b.isEmpty()).kv("tone", b.hasToneMarker()).kv("only", b.hasToneMarkerOnly())
      .kv("std", b.standardLayoutQueryString()).kv("syl", b.syllable().composedString()).kv("lay", b.keyboardLayout()->name());
  PutSyllable(w, "s", b.syllable());
  w.k("valid").ab();
  for (char c = 32; c < 127; ++c) if (b.isValidKey(c)) w.v(std::string(1, c));
  w.ae();
}
static void Run(J sc) {
  BopomofoReadingBuffer b(Layout(sc["lay"].s()));
  J ops = sc["ops"];
  for (size_t i = 0; i < ops.size(); ++i) {
    J e = ops.at(i);
    std::string k = e["k"].s();
    W w;
    if (k == "key") {
      bool r = true;
      for (char c : e["c"].s()) r = b.combineKey(c);
      w.kv("ret", r);
    } else if (k == "bs") b.backspace();
    else if (k == "clear") b.clear();
    else if (k == "layout") b.setKeyboardLayout(Layout(e["to"].s()));
    if (k == "seq") {
      auto* l = Layout(e["lay"].s());
      auto s = l->syllableFromKeySequence(e["ks"].s());
      PutSyllable(w, "s", s);
      w.kv("back", l->keySequenceFromSyllable(s));
    } else if (k == "py") {
      PutSyllable(w, "s", BopomofoSyllable::FromHanyuPinyin(e["p"].s()));
    } else if (k == "comp") {
      J ps = e["ps"];
      std::string t;
      for (size_t j = 0; j < ps.size(); ++j)
        for (size_t x = 0; x < ps.at(j)["b"].size(); ++x) t += static_cast<char>(ps.at(j)["b"].at(x).i());
      auto* heap = new std::string(t);
      heap->shrink_to_fit();
      PutSyllable(w, "s", BopomofoSyllable::FromComposedString(*heap));
      delete heap;
    } else if (k == "print") {
      auto s = BopomofoSyllable::FromComposedString(e["t"].s());
      w.kv("text", s.composedString()).kv("v", s.HanyuPinyinString(true, true)).kv("u", s.HanyuPinyinString(true, false)).kv("n", s.HanyuPinyinString(false, true));
      PutSyllable(w, "s", s);
      PutSyllable(w, "sv", BopomofoSyllable::FromHanyuPinyin(s.HanyuPinyinString(true, true)));
      PutSyllable(w, "su", BopomofoSyllable::FromHanyuPinyin(s.HanyuPinyinString(true, false)));
    } else {
      Observe(w, b);
    }
    vf::Emit(e, w.t);
  }
}
int main(int argc, char** argv) { return vf::Main(argc, argv, Run); }
