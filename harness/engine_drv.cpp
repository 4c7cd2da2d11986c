// Drives the whole engine (McBopomofo.cpp) inside a real fcitx::Instance: an
// input context receives key, focus and reset events through the framework and
// records what the application and the candidate window would show.
// argv[3]: directory with lm<i>.txt, plain<i>.txt, assoc<i>.txt, dict<i>.json.
#include <fcitx-config/iniparser.h>
#include <fcitx-config/rawconfig.h>
#include <fcitx-utils/eventdispatcher.h>
#include <fcitx-utils/log.h>
#include <fcitx/addoninfo.h>
#include <fcitx/addonmanager.h>
#include <fcitx/inputcontext.h>
#include <fcitx/inputcontextmanager.h>
#include <fcitx/inputmethodgroup.h>
#include <fcitx/inputmethodmanager.h>
#include <fcitx/inputpanel.h>
#include <fcitx/action.h>
#include <fcitx/focusgroup.h>
#include <fcitx/instance.h>
#include <fcitx/userinterfacemanager.h>

#include <notifications_public.h>

#include <filesystem>

#include "McBopomofo.h"
#include "vf.h"

using vf::J;
using vf::W;
namespace fs = std::filesystem;
static std::vector<std::vector<std::string>> gProc;
static std::string gUser;
namespace fcitx {
void startProcess(const std::vector<std::string>& args, const std::string&) {
  gProc.push_back(args);
  // The user's files are known by their names.
  for (auto& a : gProc.back())
    if (!gUser.empty() && a.rfind(gUser + "/", 0) == 0) a = a.substr(gUser.size() + 1);
}
}  // namespace fcitx

extern "C" fcitx::AddonFactory* fcitx_addon_factory_instance();
// A notifier that writes down what it is asked to show.
static std::vector<std::vector<std::string>> gTips;
struct Notifications : fcitx::AddonInstance {
  void showTip(const std::string&, const std::string&, const std::string&, const std::string& a, const std::string& b, int32_t) { gTips.push_back({a, b}); }
  FCITX_ADDON_EXPORT_FUNCTION(Notifications, showTip);
};
struct NotifierFactory : fcitx::AddonFactory {
  fcitx::AddonInstance* create(fcitx::AddonManager*) override { return new Notifications; }
};
static std::string gDir;

struct IC : fcitx::InputContext {
  std::vector<std::string> com;
  fcitx::Text seen;  // the pre-edit as the application last received it
  int fwd = 0;
  explicit IC(fcitx::InputContextManager& m) : InputContext(m, "vf") { created(); }
  ~IC() override { destroy(); }
  const char* frontend() const override { return "vf"; }
  void commitStringImpl(const std::string& t) override { com.push_back(t); }
  void deleteSurroundingTextImpl(int, unsigned) override {}
  void forwardKeyImpl(const fcitx::ForwardKeyEvent&) override { ++fwd; }
  void updatePreeditImpl() override { seen = inputPanel().clientPreedit(); }
};

static void Put(const fs::path& p, const std::string& s) {
  fs::create_directories(p.parent_path());
  std::ofstream(p, std::ios::binary) << s;
}
static void PutText(W& w, const char* k, const fcitx::Text& t) {
  std::string s = t.toString();
  w.k(k).ob();
  int c = t.cursor();
  size_t n = c < 0 ? s.size() : std::min<size_t>(c, s.size());
  w.kv("h", s.substr(0, n)).kv("l", s.substr(n)).kv("c", c < 0 ? std::string("none") : c > (int)s.size() ? std::string("beyond") : std::string("ok"));
  w.k("hl").ab();
  for (size_t i = 0; i < t.size(); ++i)
    if (t.formatAt(i) & fcitx::TextFormatFlag::HighLight) w.v(t.stringAt(i));
  w.ae().oe();
}

static std::string Conf(J c) {
  std::string s;
  auto yes = [](bool b) { return b ? "True" : "False"; };
  auto str = [&](const char* k, const char* conf) { if (c.has(k)) s += std::string(conf) + "=" + c[k].s() + "\n"; };
  auto bl = [&](const char* k, const char* conf) { if (c.has(k)) s += std::string(conf) + "=" + yes(c[k].b()) + "\n"; };
  str("kb", "BopomofoKeyboardLayout");
  str("hint", "CandidateLayout");
  str("keys", "SelectionKeys");
  if (c.has("selAfter")) s += std::string("SelectPhrase=") + (c["selAfter"].b() ? "after_cursor" : "before_cursor") + "\n";
  bl("moveAfter", "MoveCursorAfterSelection");
  bl("jk", "AllowMovingCursorWhenChoosingCandidates");
  bl("escClear", "EscKeyClearsEntireComposingBuffer");
  if (c.has("lower")) s += std::string("ShiftLetterKeys=") + (c["lower"].b() ? "put_lowercase_to_buffer" : "directly_output_uppercase") + "\n";
  if (c.has("ctrlEnter")) {
    static const char* n[] = {"disabled", "output_bpmf_reading", "output_html_ruby_text"};
    s += std::string("KeyHandlerCtrlEnter=") + n[c["ctrlEnter"].i()] + "\n";
  }
  bl("half", "HalfWidthPunctuationEnable");
  bl("assoc", "AssociatedPhrasesEnabled");
  bl("hook", "AddScriptHookEnabled");
  if (c.has("count")) s += "SelectionKeysCount=" + std::to_string(c["count"].i()) + "\n";
  str("open", "OpenUserPhraseFilesWith");
  str("hookp", "AddScriptHookPath");
  if (c.has("bad"))     // values that are none
    for (size_t i = 0; i < c["bad"].size(); ++i) s += c["bad"].at(i).s() + "\n";
  return s;
}

// The user's files.  Every change must be seen as one: the clock that stamps
// files is coarse.
struct Files {
  fs::path dir;
  int64_t bump = 0;
  fs::file_time_type last{};
  fs::path at(const std::string& w) { return dir / (w == "user" ? "data.txt" : w == "excl" ? "exclude-phrases.txt" : "phrases-replacement.txt"); }
  void write(const std::string& w, J x, bool gone, J raw) {
    fs::path p = at(w);
    if (gone) { fs::remove(p); return; }
    std::string s = raw["head"].s();
    for (size_t i = 0; i < x.size(); ++i) {
      if (i || !s.empty()) s += "\n";
      s += x.at(i)["v"].s() + " " + x.at(i)[w == "repl" ? "to" : "k"].s();
    }
    if (raw["end"].b()) s += "\n";
    Put(p, s);
    ++bump;
    fs::last_write_time(p, fs::file_time_type::clock::now() - std::chrono::seconds(1000000) + std::chrono::seconds(bump));
  }
  void settle() {
    std::error_code ec;
    auto t = fs::last_write_time(at("user"), ec);
    if (!ec && t != last) usleep(12000);
    last = t;
  }
};

// Settings as the framework stores them, under the names used here.
static void PutConf(W& w, const char* k, const fcitx::RawConfig& r) {
  static const std::pair<const char*, const char*> names[] = {
      {"kb", "BopomofoKeyboardLayout"}, {"hint", "CandidateLayout"}, {"keys", "SelectionKeys"}, {"count", "SelectionKeysCount"},
      {"selAfter", "SelectPhrase"}, {"moveAfter", "MoveCursorAfterSelection"}, {"jk", "AllowMovingCursorWhenChoosingCandidates"},
      {"escClear", "EscKeyClearsEntireComposingBuffer"}, {"lower", "ShiftLetterKeys"}, {"ctrlEnter", "KeyHandlerCtrlEnter"},
      {"half", "HalfWidthPunctuationEnable"}, {"assoc", "AssociatedPhrasesEnabled"}, {"hook", "AddScriptHookEnabled"},
      {"open", "OpenUserPhraseFilesWith"}, {"hookp", "AddScriptHookPath"}};
  w.k(k).ob();
  for (auto& [a, b] : names) {
    auto* v = r.valueByPath(b);
    w.kv(a, v ? *v : std::string("(none)"));
  }
  w.oe();
}
static const std::pair<const char*, const char*> kActs[] = {
    {"assoc", "mcbopomofo-associated-phrases"}, {"half", "mcbopomofo-half-width-punctuation"},
    {"user", "mcbopomofo-user-phrases-edit"}, {"excl", "mcbopomofo-user-excluded-phrases-edit"}};

struct Sim {
  Files files;
  fs::path conf;
  size_t next = 0;       // the next operation
  int front = 0;         // the application in front
  bool first = true;
  std::string modes[2];  // input methods to take up again
  std::vector<std::string> com[2];
  fcitx::Instance* inst;
  std::unique_ptr<IC> ics[2];  // two applications
  IC* ic = nullptr;
  IC* bg = nullptr;
  fs::path user;

  static fcitx::Key key(J e) {
    std::string p = e["p"].s();
    uint32_t st = 0;
    auto on = [&](const char* k, fcitx::KeyState f) { if (e[k].b()) st |= static_cast<uint32_t>(f); };
    on("sh", fcitx::KeyState::Shift);
    on("ct", fcitx::KeyState::Ctrl);
    on("alt", fcitx::KeyState::Alt);
    on("sup", fcitx::KeyState::Super);
    on("caps", fcitx::KeyState::CapsLock);
    on("num", fcitx::KeyState::NumLock);
    return fcitx::Key(static_cast<fcitx::KeySym>(e["sym"].i()), fcitx::KeyStates(st), static_cast<int>(e["code"].i()));
  }
  fcitx::CommonCandidateList* list() {
    return dynamic_cast<fcitx::CommonCandidateList*>(ic->inputPanel().candidateList().get());
  }
  void observe(J e, bool acc) {
    W w;
    auto& p = ic->inputPanel();
    w.kv("acc", acc).k("com").strs(ic->com);
    std::string all;
    for (auto& c : ic->com) all += c;
    w.kv("all", all).kv("fwd", ic->fwd);
    bool pre = ic->capabilityFlags().test(fcitx::CapabilityFlag::Preedit);
    PutText(w, "pe", pre ? ic->seen : p.preedit());
    w.kv("other", pre ? p.preedit().toString() : p.clientPreedit().toString());
    w.kv("same", !pre || p.clientPreedit().toString() == ic->seen.toString());
    w.kv("aux", p.auxDown().toString()).kv("auxu", p.auxUp().toString());
    auto* l = list();
    w.k("w").ob().kv("on", l != nullptr);
    if (l) {
      w.kv("page", l->currentPage()).kv("pages", l->totalPages()).kv("cur", l->cursorIndex()).kv("total", l->totalSize());
      w.k("items").ab();
      for (int i = 0; i < l->size(); ++i) w.v(l->candidate(i).text().toString());
      w.ae().k("labels").ab();
      for (int i = 0; i < l->size(); ++i) w.v(l->label(i).toString());
      w.ae().kv("vert", l->layoutHint() == fcitx::CandidateLayoutHint::Vertical ? "v" : l->layoutHint() == fcitx::CandidateLayoutHint::Horizontal ? "h" : "n");
    }
    w.oe();
    w.k("proc").ab();
    for (auto& a : gProc) w.strs(a);
    w.ae();
    w.k("tips").ab();
    for (auto& a : gTips) w.strs(a);
    w.ae();
    w.kv("im", inst->inputMethod(ic));
    // What the application in the background was given.  (Its panel is not on
    // display; what may be left there is cleared when it is activated.)
    std::string ball;
    if (bg)
      for (auto& c : bg->com) ball += c;
    w.kv("ball", ball);
    std::string k = e["k"].s();
    if (k != "key" && k != "click" && k != "file" && k != "out" && k != "reset") {
      fcitx::RawConfig now, saved;
      inst->addonManager().addon("mcbopomofo", true)->getConfig()->save(now);
      PutConf(w, "conf", now);
      if (k == "act" || k == "cfg") {
        fcitx::readAsIni(saved, conf.string());
        PutConf(w, "saved", saved);
      }
      w.k("lab").ob();
      for (auto& [a, b] : kActs) { auto* x = inst->userInterfaceManager().lookupAction(b); w.kv(a, x ? x->shortText(ic) : std::string("(none)")); }
      w.oe().k("menu").ab();
      for (auto* x : ic->statusArea().actions(fcitx::StatusGroup::InputMethod)) {
        std::string n = x->name();
        for (auto& [a, b] : kActs) if (n == b) n = a;
        w.v(n);
      }
      w.ae();
    }
    vf::Emit(e, w.t);
  }
  static std::string ImName(const std::string& m) { return m == "plain" ? "mcbopomofo-plain" : m == "mc" ? "mcbopomofo" : "vfother"; }
  // Runs the operations up to the end, or to the next restart.
  void run(J sc) {
    std::unique_ptr<fcitx::FocusGroup> group;
    bool two = sc.has("two");
    bool grouped = two && sc["two"]["group"].b();
    if (grouped) group = std::make_unique<fcitx::FocusGroup>("vf", inst->inputContextManager());
    auto make = [&](IC& c, J d, const std::string& im) {
      fcitx::CapabilityFlags caps;
      if (d["pre"].b()) caps |= fcitx::CapabilityFlag::Preedit;
      if (d["unfocus"].b()) caps |= fcitx::CapabilityFlag::ClientUnfocusCommit;
      c.setCapabilityFlags(caps);
      if (group) c.setFocusGroup(group.get());
      c.focusIn();
      inst->setCurrentInputMethod(&c, im, true);
    };
    J ops = sc["ops"];
    if (first) { modes[0] = ImName(sc["mode"].s()); modes[1] = two ? ImName(sc["two"]["mode"].s()) : ""; }
    // which of the two has the focus
    if (two) {
      ics[1] = std::make_unique<IC>(inst->inputContextManager());
      if (front) { ics[0] = std::make_unique<IC>(inst->inputContextManager()); make(*ics[0], sc, modes[0]); ics[0]->focusOut(); }
      else { make(*ics[1], sc["two"], modes[1]); ics[1]->focusOut(); }
    }
    if (!ics[0]) ics[0] = std::make_unique<IC>(inst->inputContextManager());
    if (front) make(*ics[1], sc["two"], modes[1]); else make(*ics[0], sc, modes[0]);
    ic = ics[front].get();
    bg = ics[1 - front].get();
    if (!first) {
      ic->com = com[front];
      if (bg) bg->com = com[1 - front];
      observe(ops.at(next++), false);
      files.settle();
    }
    first = false;
    for (; next < ops.size(); ++next) {
      J e = ops.at(next);
      ic->com.clear();
      if (bg) bg->com.clear();
      ic->fwd = 0;
      gProc.clear(); gTips.clear();
      std::string k = e["k"].s();
      bool acc = false;
      if (k == "key") {
        fcitx::KeyEvent ev(ic, key(e), e["rel"].b());
        acc = ic->keyEvent(ev);
      } else if (k == "click") {
        if (auto* l = list()) {
          if (l->size() > 0) { l->candidate(static_cast<int>(e["i"].i()) % l->size()).select(ic); }
        }
      } else if (k == "out") { ic->focusOut();
      } else if (k == "in") { ic->focusIn();
      } else if (k == "sw") {  // the user turns to the other application
        if (!grouped) ic->focusOut();
        std::swap(ic, bg);
        front = 1 - front;
        ic->focusIn();
      } else if (k == "reset") { ic->reset();
      } else if (k == "im") { inst->setCurrentInputMethod(ic, e["im"].s() == "plain" ? "mcbopomofo-plain" : e["im"].s() == "mc" ? "mcbopomofo" : "vfother", true);
      } else if (k == "file") {
        files.write(e["w"].s(), e["x"], e["gone"].b(), e["raw"]);
      } else if (k == "act") {
        for (auto& [a, b] : kActs)       // only what the menu shows can be chosen
          if (e["act"].s() == a)
            for (auto* x : ic->statusArea().actions(fcitx::StatusGroup::InputMethod))
              if (x->name() == b) { x->activate(ic); break; }
      } else if (k == "cfg") {
        fcitx::RawConfig rc;
        std::istringstream in(Conf(e["cfg"]));
        std::string line;
        while (std::getline(in, line)) { auto q = line.find('='); rc.setValueByPath(line.substr(0, q), line.substr(q + 1)); }
        inst->addonManager().addon("mcbopomofo", true)->setConfig(rc);
      } else if (k == "conf") {  // somebody edits the file
        Put(conf, Conf(e["cfg"]));
        inst->addonManager().addon("mcbopomofo", true)->reloadConfig();
      } else if (k == "restart") {
        ic->focusOut();
        for (int i : {0, 1}) {
          com[i].clear();
          if (ics[i]) { modes[i] = inst->inputMethod(ics[i].get()); com[i] = ics[i]->com; }
        }
        break;
      }
      observe(e, acc);
      files.settle();
    }
    ics[0].reset();
    ics[1].reset();
  }
};

// A second, inert input method to switch to and from.
struct Other : fcitx::InputMethodEngine {
  void keyEvent(const fcitx::InputMethodEntry&, fcitx::KeyEvent&) override {}
};
struct OtherFactory : fcitx::AddonFactory {
  fcitx::AddonInstance* create(fcitx::AddonManager*) override { return new Other; }
};

static void Run(J sc) {
  fs::path top = fs::current_path() / ("e" + std::to_string(getpid()));
  fs::create_directories(top);
  std::string n = std::to_string(sc["lm"].i());
  fs::path data = top / "share" / "fcitx5";
  fs::create_directories(data / "data");
  auto link = [&](const std::string& from, const char* to) { if (fs::exists(from)) fs::create_symlink(from, data / "data" / to); };
  link(gDir + "/lm" + n + ".txt", "mcbopomofo-data.txt");
  link(gDir + "/plain" + n + ".txt", "mcbopomofo-data-plain-bpmf.txt");
  link(gDir + "/assoc" + n + ".txt", "mcbopomofo-associated-phrases-v2.txt");
  if (sc["dict"].i() > 0) link(gDir + "/dict" + std::to_string(sc["dict"].i()) + ".json", "mcbopomofo-dictionary-service.json");
  for (const char* a : {"mcbopomofo", "vfother", "notifications"})
    if (*a != 'n' || sc["tips"].b())
    Put(data / "addon" / (std::string(a) + ".conf"), std::string("[Addon]\nName=") + a + (*a == 'n' ? "\nCategory=Module" : "\nCategory=InputMethod") + "\nLibrary=" + a + "\nType=StaticLibrary\nOnDemand=False\nConfigurable=True\n");
  for (auto [im, a] : {std::pair<const char*, const char*>{"mcbopomofo", "mcbopomofo"}, {"mcbopomofo-plain", "mcbopomofo"}, {"vfother", "vfother"}})
    Put(data / "inputmethod" / (std::string(im) + ".conf"), std::string("[InputMethod]\nName=") + im + "\nLabel=x\nLangCode=zh_TW\nAddon=" + a + "\nConfigurable=True\n");
  Put(top / "config" / "profile", "[Groups/0]\nName=Default\nDefault Layout=us\nDefaultIM=mcbopomofo\n[Groups/0/Items/0]\nName=vfother\nLayout=\n[Groups/0/Items/1]\nName=mcbopomofo\nLayout=\n[Groups/0/Items/2]\nName=mcbopomofo-plain\nLayout=\n[GroupOrder]\n0=Default\n");
  Put(top / "config" / "conf" / "mcbopomofo.conf", Conf(sc[sc.has("conf") ? "conf" : "cfg"]));
  fs::path user = top / "user";
  fs::create_directories(user / "fcitx5" / "mcbopomofo");
  Files files;
  files.dir = user / "fcitx5" / "mcbopomofo";
  if (sc.has("files"))
    for (const char* w : {"user", "excl", "repl"})
      if (std::string(w) != "repl" || !sc["files"]["rg"].b()) files.write(w, sc["files"][w], false, sc["raw"]);
  for (const char* v : {"FCITX_CONFIG_DIRS", "FCITX_DATA_DIRS", "FCITX_ADDON_DIRS"}) unsetenv(v);
  setenv("SKIP_FCITX_PATH", "1", 1);
  setenv("SKIP_FCITX_USER_PATH", "0", 1);
  unsetenv("SKIP_FCITX_USER_PATH");
  setenv("FCITX_CONFIG_HOME", (top / "config").c_str(), 1);
  setenv("XDG_CONFIG_DIRS", (top / "nocfg").c_str(), 1);
  setenv("XDG_DATA_HOME", user.c_str(), 1);
  setenv("XDG_DATA_DIRS", (top / "share").c_str(), 1);
  setenv("XDG_RUNTIME_DIR", (top / "run").c_str(), 1);
  setenv("XDG_CACHE_HOME", (top / "cache").c_str(), 1);
  if (!getenv("VF_STDERR")) fcitx::Log::setLogRule("*=0");
  gUser = files.dir.string();
  Sim sim;
  sim.user = user;
  sim.files = files;
  sim.conf = top / "config" / "conf" / "mcbopomofo.conf";
  do {
    char a0[] = "vf", a1[] = "--disable=all", a2[] = "--enable=mcbopomofo,vfother", a3[] = "--enable=mcbopomofo,vfother,notifications";
    char* argv[] = {a0, a1, sc["tips"].b() ? a3 : a2, nullptr};
    fcitx::Instance inst(3, argv);
    fcitx::StaticAddonRegistry reg;
    OtherFactory other;
    NotifierFactory notifier;
    reg.emplace("notifications", &notifier);
    reg.emplace("mcbopomofo", fcitx_addon_factory_instance());
    reg.emplace("vfother", &other);
    inst.addonManager().registerDefaultLoader(&reg);
    sim.inst = &inst;
    fcitx::EventDispatcher d;
    d.attach(&inst.eventLoop());
    d.schedule([&] { sim.run(sc); inst.exit(); });
    inst.exec();
  } while (sim.next < sc["ops"].size());
  fs::remove_all(top);
}

int main(int argc, char** argv) {
  gDir = argv[3];
  return vf::Main(argc, argv, Run);
}
