// Date and time macros under a controlled clock.
#include <sys/time.h>
#include <time.h>

#include "InputMacro.h"
#include "InputState.h"
#include "vf.h"
using namespace McBopomofo;
using vf::J;
using vf::W;

static bool g_fixed = false;
static long long g_now = 0;

extern "C" {
// Every way to read the wall clock answers the scenario's time.
int gettimeofday(struct timeval* tv, void*) noexcept {
  if (g_fixed) { tv->tv_sec = g_now; tv->tv_usec = 250000; return 0; }
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* t) noexcept {
  if (t) *t = g_now;
  return g_now;
}
int __clock_gettime(clockid_t, struct timespec*);
}
#include <sys/syscall.h>
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if (g_fixed && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) { ts->tv_sec = g_now; ts->tv_nsec = 250000000; return 0; }
  return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}

static const char* kTextOnly[] = {"", "MACRO@", "MACRO@NOPE", "macro@date_today_short", "文", "DATE_TODAY_SHORT", " MACRO@DATE_TODAY_SHORT", "MACRO@DATE_TODAY_SHORT "};
static void Run(J sc) {
  setenv("TZ", sc["tz"].s().c_str(), 1);
  tzset();
  InputMacroController c;
  J ops = sc["ops"];
  for (size_t i = 0; i < ops.size(); ++i) {
    J e = ops.at(i);
    g_now = e["epoch"].i();
    g_fixed = true;
    W w;
    w.k("m").ob();
    J names = sc["names"];
    for (size_t j = 0; j < names.size(); ++j) w.kv(names.at(j).s().c_str(), c.handle("MACRO@" + names.at(j).s()));
    w.oe();
    w.k("text").ab();
    for (auto* t : kTextOnly) w.v(c.handle(t) == t);
    w.ae();
    InputStates::SelectingDateMacro menu([&](const std::string& x) { return c.handle(x); });
    w.k("menu").ab();
    for (auto& x : menu.menu) w.v(x);
    w.ae();
    vf::Emit(e, w.t);
  }
}
int main(int argc, char** argv) { return vf::Main(argc, argv, Run); }
