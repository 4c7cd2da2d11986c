// Drives UserOverrideModel directly: observations and, after each, the
// suggestion for every context of the scenario.
#include "UserOverrideModel.h"
#include "vf.h"
using vf::J;
using vf::W;
static void Run(J sc) {
  double hl = sc["hl"].d();
  McBopomofo::UserOverrideModel m(sc["cap"].i(), hl);
  double base = sc["base"].d();
  long long now = 0;
  J ops = sc["ops"], keys = sc["keys"];
  for (size_t i = 0; i < ops.size(); ++i) {
    J e = ops.at(i);
    now += e["d"].i();
    auto t = [&] { return base + static_cast<double>(now) * hl / 8.0; };
    if (e["k"].s() == "obs") {
      if (!e["f"].b() && i % 2) m.observe(e["key"].s(), e["v"].s(), t());
      else m.observe(e["key"].s(), e["v"].s(), t(), e["f"].b());
    }
    W w;
    w.k("s").ab();
    for (size_t j = 0; j < keys.size(); ++j) {
      auto s = m.suggest(keys.at(j).s(), t());
      w.ab().v(s.candidate).v(s.forceHighScoreOverride).v(s.empty()).ae();
    }
    w.ae();
    vf::Emit(e, w.t);
  }
}
int main(int argc, char** argv) { return vf::Main(argc, argv, Run); }
