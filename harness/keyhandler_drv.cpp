// Drives the real KeyHandler with the real McBopomofoLM, playing the part of
// the engine (McBopomofo.cpp): it holds the current state, forwards keys and
// list selections the way the engine does, and keeps the ledger of committed
// text.  argv[3]: directory with lm<i>.txt, assoc<i>.txt and layouts.
#include <chrono>
#include <ctime>
#include <memory>

#include "InputState.h"
#include "Key.h"
#include "KeyHandler.h"
#include "McBopomofoLM.h"
#include "vf.h"

static int64_t gNow = 1700000000;  // seconds
namespace std::chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  return system_clock::time_point(std::chrono::duration_cast<system_clock::duration>(std::chrono::seconds(gNow)));
}
}  // namespace _V2
}  // namespace std::chrono
namespace fcitx { void startProcess(const std::vector<std::string>&, const std::string&) {} }

using namespace McBopomofo;
namespace S = McBopomofo::InputStates;
using vf::J;
using vf::W;

struct Adder : UserPhraseAdder {
  std::vector<std::pair<std::string, std::string>> added;
  void addUserPhrase(const std::string_view& r, const std::string_view& p) override { added.emplace_back(r, p); }
};
struct Loc : KeyHandler::LocalizedStrings {
  std::string cursorIsBetweenSyllables(const std::string& a, const std::string& b) override { return "between " + a + " and " + b; }
  std::string syllablesRequired(size_t n) override { return "need " + std::to_string(n); }
  std::string syllablesMaximum(size_t n) override { return "max " + std::to_string(n); }
  std::string phraseAlreadyExists() override { return "exists"; }
  std::string pressEnterToAddThePhrase() override { return "add"; }
  std::string markedWithSyllablesAndStatus(const std::string& m, const std::string& r, const std::string& s) override { return m + "|" + r + "|" + s; }
};

static std::string gDir;
using Cands = std::vector<S::ChoosingCandidate::Candidate>;

static void PutCands(W& w, const Cands& cs) {
  w.k("cands").ab();
  for (auto& c : cs) w.ab().v(c.reading).v(c.value).ae();
  w.ae();
}
static void PutText(W& w, const S::NotEmpty* n) {
  size_t i = std::min(n->cursorIndex, n->composingBuffer.size());
  w.kv("h", n->composingBuffer.substr(0, i)).kv("l", n->composingBuffer.substr(i));
  if (n->cursorIndex > n->composingBuffer.size()) w.kv("beyond", n->cursorIndex);
}
static const char* StyleName(ChineseNumberStyle s) {
  return s == ChineseNumberStyle::LOWER ? "LOWER" : s == ChineseNumberStyle::UPPER ? "UPPER" : "SUZHOU";
}
static const char* Type(InputState* s) {
  if (dynamic_cast<S::Inputting*>(s)) return "Inputting";
  if (dynamic_cast<S::ChoosingCandidate*>(s)) return "Choosing";
  if (dynamic_cast<S::Marking*>(s)) return "Marking";
  if (dynamic_cast<S::AssociatedPhrases*>(s)) return "Assoc";
  if (dynamic_cast<S::AssociatedPhrasesPlain*>(s)) return "AssocPlain";
  if (dynamic_cast<S::SelectingDictionary*>(s)) return "SelDict";
  if (dynamic_cast<S::ShowingCharInfo*>(s)) return "CharInfo";
  if (dynamic_cast<S::SelectingFeature*>(s)) return "Feature";
  if (dynamic_cast<S::SelectingDateMacro*>(s)) return "DateMacro";
  if (dynamic_cast<S::ChineseNumber*>(s)) return "CN";
  if (dynamic_cast<S::EnclosingNumber*>(s)) return "EN";
  return "Empty";
}
static void PutState(W& w, InputState* s) {
  std::string t = Type(s);
  w.kv("t", t);
  if (auto* m = dynamic_cast<S::Marking*>(s)) {
    w.kv("h", m->head).kv("m", m->markedText).kv("l", m->tail).kv("rd", m->reading).kv("acc", m->acceptable)
        .kv("b", m->markStartGridCursorIndex).kv("up", m->composingBuffer.substr(0, std::min(m->cursorIndex, m->composingBuffer.size())))
        .kv("tip", m->tooltip).kv("buf", m->composingBuffer);
    return;
  }
  if (auto* n = dynamic_cast<S::NotEmpty*>(s)) PutText(w, n);
  if (auto* x = dynamic_cast<S::Inputting*>(s)) w.kv("tip", x->tooltip);
  if (auto* x = dynamic_cast<S::ChoosingCandidate*>(s)) { w.kv("oc", x->originalCursor); PutCands(w, x->candidates); }
  if (auto* x = dynamic_cast<S::AssociatedPhrases*>(s)) {
    w.kv("pc", x->prefixCursorIndex).kv("pr", x->prefixReading).kv("pv", x->prefixValue).kv("si", x->selectedCandidateIndex).kv("sh", x->useShiftKey);
    PutCands(w, x->candidates);
    w.kv("prev", Type(x->previousState.get()));
  }
  if (auto* x = dynamic_cast<S::AssociatedPhrasesPlain*>(s)) PutCands(w, x->candidates);
  if (auto* x = dynamic_cast<S::SelectingDictionary*>(s)) w.kv("ph", x->selectedPhrase).kv("si", x->selectedCandidateIndex).k("menu").strs(x->menu).kv("prev", Type(x->previousState.get()));
  if (auto* x = dynamic_cast<S::ShowingCharInfo*>(s)) w.kv("ph", x->selectedPhrase).kv("prev", Type(x->previousState.get()));
  if (auto* x = dynamic_cast<S::SelectingFeature*>(s)) { w.k("menu").ab(); for (auto& f : x->features) w.v(f.name); w.ae(); }
  if (auto* x = dynamic_cast<S::SelectingDateMacro*>(s)) w.k("menu").strs(x->menu);
  if (auto* x = dynamic_cast<S::ChineseNumber*>(s)) w.kv("num", x->number).kv("style", StyleName(x->style)).kv("buf", x->composingBuffer());
  if (auto* x = dynamic_cast<S::EnclosingNumber*>(s)) w.kv("num", x->number).kv("buf", x->composingBuffer());
}

struct Sim {
  std::shared_ptr<McBopomofoLM> lm = std::make_shared<McBopomofoLM>();
  std::shared_ptr<Adder> adder = std::make_shared<Adder>();
  std::unique_ptr<KeyHandler> kh;
  std::unique_ptr<InputState> state = std::make_unique<S::Empty>();
  std::string com;
  int err = 0;
  std::vector<std::string> hook;

  void enter(std::unique_ptr<InputState> next) {
    std::unique_ptr<InputState> prev = std::move(state);
    state = std::move(next);
    if (dynamic_cast<S::Empty*>(state.get())) {
      if (auto* n = dynamic_cast<S::NotEmpty*>(prev.get())) com += n->composingBuffer;
    } else if (dynamic_cast<S::EmptyIgnoringPrevious*>(state.get())) {
      state = std::make_unique<S::Empty>();
    } else if (auto* c = dynamic_cast<S::Committing*>(state.get())) {
      com += c->text;
    }
  }
  KeyHandler::StateCallback cb() { return [this](std::unique_ptr<InputState> s) { enter(std::move(s)); }; }
  KeyHandler::ErrorCallback ecb() { return [this] { ++err; }; }

  void config(J c) {
    using L = Formosa::Mandarin::BopomofoKeyboardLayout;
    std::string l = c["layout"].s("Standard");
    kh->setKeyboardLayout(l == "ETen" ? L::ETenLayout() : l == "Hsu" ? L::HsuLayout() : l == "ETen26" ? L::ETen26Layout()
                          : l == "IBM" ? L::IBMLayout() : l == "HanyuPinyin" ? L::HanyuPinyinLayout() : L::StandardLayout());
    kh->setSelectPhraseAfterCursorAsCandidate(c["selAfter"].b());
    kh->setMoveCursorAfterSelection(c["moveAfter"].b());
    kh->setEscKeyClearsEntireComposingBuffer(c["escClear"].b());
    kh->setPutLowercaseLettersToComposingBuffer(c["lower"].b());
    int ce = static_cast<int>(c["ctrlEnter"].i());
    kh->setCtrlEnterKeyBehavior(ce == 1 ? KeyHandlerCtrlEnter::OutputBpmfReadings : ce == 2 ? KeyHandlerCtrlEnter::OutputHTMLRubyText : KeyHandlerCtrlEnter::Disabled);
    kh->setAssociatedPhrasesEnabled(c["assoc"].b());
    kh->setHalfWidthPunctuationEnabled(c["half"].b());
  }
  static Key key(J e) {
    std::string c = e["c"].s();
    bool sh = e["sh"].b(), ct = e["ct"].b(), np = e["np"].b();
    using N = Key::KeyName;
    if (c.size() == 1) return Key::asciiKey(c[0], sh, ct, np);
    if (c == "TAB") return Key::asciiKey(Key::TAB, sh, ct, np);
    if (c == "BS") return Key::asciiKey(Key::BACKSPACE, sh, ct, np);
    if (c == "RET") return Key::asciiKey(Key::RETURN, sh, ct, np);
    if (c == "ESC") return Key::asciiKey(Key::ESC, sh, ct, np);
    if (c == "DEL") return Key::asciiKey(Key::DELETE, sh, ct, np);
    if (c == "LEFT") return Key::namedKey(N::LEFT, sh, ct, np);
    if (c == "RIGHT") return Key::namedKey(N::RIGHT, sh, ct, np);
    if (c == "UP") return Key::namedKey(N::UP, sh, ct, np);
    if (c == "DOWN") return Key::namedKey(N::DOWN, sh, ct, np);
    if (c == "HOME") return Key::namedKey(N::HOME, sh, ct, np);
    if (c == "END") return Key::namedKey(N::END, sh, ct, np);
    return Key();
  }
  void select(size_t i) {  // the i-th entry of the list on display
    InputState* s = state.get();
    if (auto* x = dynamic_cast<S::ChoosingCandidate*>(s)) {
      auto c = x->candidates[i]; size_t oc = x->originalCursor;
      kh->candidateSelected(c, oc, cb());
    } else if (auto* x = dynamic_cast<S::AssociatedPhrases*>(s)) {
      auto c = x->candidates[i]; size_t pc = x->prefixCursorIndex; std::string r = x->prefixReading, v = x->prefixValue;
      kh->candidateAssociatedPhraseSelected(pc, c, r, v, cb());
    } else if (auto* x = dynamic_cast<S::AssociatedPhrasesPlain*>(s)) {
      auto c = x->candidates[i];
      kh->candidateSelected(c, 0, cb());
    } else if (auto* x = dynamic_cast<S::SelectingFeature*>(s)) {
      enter(x->nextState(i));
    } else if (auto* x = dynamic_cast<S::SelectingDateMacro*>(s)) {
      enter(std::make_unique<S::Committing>(x->menu[i]));
    } else if (auto* x = dynamic_cast<S::SelectingDictionary*>(s)) {
      kh->dictionaryServiceSelected(x->selectedPhrase, i, x, cb());
    }
  }
  size_t listSize() {
    InputState* s = state.get();
    if (auto* x = dynamic_cast<S::ChoosingCandidate*>(s)) return x->candidates.size();
    if (auto* x = dynamic_cast<S::AssociatedPhrases*>(s)) return x->candidates.size();
    if (auto* x = dynamic_cast<S::AssociatedPhrasesPlain*>(s)) return x->candidates.size();
    if (auto* x = dynamic_cast<S::SelectingFeature*>(s)) return x->features.size();
    if (auto* x = dynamic_cast<S::SelectingDateMacro*>(s)) return x->menu.size();
    if (auto* x = dynamic_cast<S::SelectingDictionary*>(s)) return x->menu.size();
    return 0;
  }
  bool isList() {
    std::string t = Type(state.get());
    return t == "Choosing" || t == "Assoc" || t == "AssocPlain" || t == "SelDict" || t == "CharInfo" || t == "Feature" || t == "DateMacro";
  }
  bool applies(J e) {
    std::string k = e["k"].s(), t = Type(state.get());
    auto* as = dynamic_cast<S::AssociatedPhrases*>(state.get());
    bool mc = kh->inputMode() == InputMode::McBopomofo;
    if (k == "key") return !isList() || t == "AssocPlain" || (as && as->useShiftKey);
    if (k == "sel") return isList() && listSize() > 0;
    if (k == "cancel") return isList() && !(as && as->useShiftKey);
    if (k == "move" || k == "assoc" || k == "dict") return t == "Choosing" && mc && listSize() > 0;
    if (k == "trad") return t == "Choosing" && !mc && listSize() > 0;
    return true;
  }
  bool apply(J e) {
    std::string k = e["k"].s();
    InputState* s = state.get();
    size_t i = listSize() ? static_cast<size_t>(e["i"].i()) % listSize() : 0;
    if (k == "key") {
      if (dynamic_cast<S::AssociatedPhrasesPlain*>(s)) enter(std::make_unique<S::Empty>());
      return kh->handle(key(e), state.get(), cb(), ecb());
    }
    if (k == "sel") { select(i); return true; }
    if (k == "cancel") {
      if (auto* x = dynamic_cast<S::ShowingCharInfo*>(s)) { enter(std::make_unique<S::SelectingDictionary>(*x->previousState)); return true; }
      auto back = [this](S::NotEmpty* p) {
        if (auto* c = dynamic_cast<S::ChoosingCandidate*>(p)) enter(std::make_unique<S::ChoosingCandidate>(*c));
        else if (auto* m = dynamic_cast<S::Marking*>(p)) enter(std::make_unique<S::Marking>(*m));
        else if (auto* n = dynamic_cast<S::Inputting*>(p)) enter(std::make_unique<S::Inputting>(*n));
      };
      if (auto* x = dynamic_cast<S::SelectingDictionary*>(s)) { auto hold = std::move(x->previousState); back(hold.get()); return true; }
      if (auto* x = dynamic_cast<S::AssociatedPhrases*>(s)) { auto hold = std::move(x->previousState); back(hold.get()); return true; }
      size_t oc = 0;
      if (auto* x = dynamic_cast<S::ChoosingCandidate*>(s)) oc = x->originalCursor;
      kh->candidatePanelCancelled(oc, cb());
      return true;
    }
    if (k == "move") {
      size_t c = kh->candidateCursorIndex();
      if (e["d"].i() < 0) { if (c > 0) --c; } else ++c;
      kh->setCandidateCursorIndex(c);
      auto in = kh->buildInputtingState();
      enter(kh->buildChoosingCandidateState(in.get(), kh->candidateCursorIndex()));
      return true;
    }
    if (k == "assoc") {
      auto* x = dynamic_cast<S::ChoosingCandidate*>(s);
      auto n = kh->buildAssociatedPhrasesStateFromCandidateChoosingState(std::make_unique<S::ChoosingCandidate>(*x), x->originalCursor,
                                                                       x->candidates[i].reading, x->candidates[i].value, i);
      if (n) enter(std::move(n));
      return true;
    }
    if (k == "dict") {
      auto* x = dynamic_cast<S::ChoosingCandidate*>(s);
      std::string ph = x->candidates[i].value;
      enter(kh->buildSelectingDictionaryState(std::make_unique<S::ChoosingCandidate>(*x), ph, i));
      return true;
    }
    if (k == "trad") {
      return kh->handleCandidateKeyForTraditionalBopomofoIfRequired(key(e), [this, i] { select(i); }, cb(), ecb());
    }
    if (k == "reset") {
      kh->reset();
      if (e["commit"].b()) enter(std::make_unique<S::Empty>()); else state = std::make_unique<S::Empty>();
      return true;
    }
    if (k == "cfg") { config(e["cfg"]); return true; }
    if (k == "tick") { gNow += e["d"].i() * 675; return true; }
    return true;
  }
};

static void Run(J sc) {
  Sim s;
  std::string n = std::to_string(sc["lm"].i());
  s.lm->loadLanguageModel((gDir + "/lm" + n + ".txt").c_str());
  s.lm->loadAssociatedPhrasesV2((gDir + "/assoc" + n + ".txt").c_str());
  s.kh = std::make_unique<KeyHandler>(s.lm, s.adder, std::make_unique<Loc>());
  s.kh->setInputMode(sc["mode"].s() == "plain" ? InputMode::PlainBopomofo : InputMode::McBopomofo);
  s.kh->setOnAddNewPhrase([&s](const std::string& p) { s.hook.push_back(p); });
  s.config(sc["cfg"]);
  J ops = sc["ops"];
  for (size_t i = 0; i < ops.size(); ++i) {
    J e = ops.at(i);
    s.com.clear(); s.err = 0; s.adder->added.clear(); s.hook.clear();
    std::string eff = "key";
    bool ret = false;
    if (s.applies(e)) ret = s.apply(e);
    else if (e.has("alt") && s.applies(e["alt"])) { eff = "alt"; ret = s.apply(e["alt"]); }
    else eff = "na";
    W w;
    w.kv("eff", eff).kv("ret", ret).kv("err", s.err > 0).kv("com", s.com);
    w.k("st").ob(); PutState(w, s.state.get()); w.oe();
    w.k("add").ab(); for (auto& a : s.adder->added) w.ab().v(a.first).v(a.second).ae(); w.ae();
    w.k("hook").strs(s.hook);
    auto in = s.kh->buildInputtingState();
    w.k("pr").ob(); PutText(w, in.get()); w.kv("tip", in->tooltip).kv("cc", s.kh->candidateCursorIndex()); w.oe();
    vf::Emit(e, w.t);
  }
}

int main(int argc, char** argv) {
  gDir = argv[3];
  setenv("XDG_DATA_HOME", "/nonexistent-vf", 1);
  setenv("XDG_DATA_DIRS", "/nonexistent-vf", 1);
  return vf::Main(argc, argv, Run);
}
