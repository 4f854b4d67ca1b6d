// C28: nothing stays allocated, nothing is freed twice.
#include "scen.h"

Spec spec() {
    Spec s;
    s.id = "C28";
    s.rule = "at least three calls succeeded and at least one image was loaded or made";
    s.quick_cases = 102000;
    s.thorough_cases = 1020000;
    s.batch = 64;
    s.cpu_limit = 20;
    s.assumptions = {"requests above 4 MB are refused, as on a small system", "freeing a block twice, or one that is not from the memory functions, is reported by AddressSanitizer or by the block list of the harness"};
    s.min_frac = {{"failed call", 0.3}, {"load", 0.3}, {"save", 0.2}, {"three images", 0.1}};
    return s;
}
void one_case(Src &s, Ctx &c) {
    mem::cap = 4u << 20;
    mem::bts.clear();
    il_fresh();
    std::vector<ScOp> ops = sc_ops(s, 14);
    for (auto &o : ops) c.say(o.name);
    il_fresh();
    Sc sc;
    for (size_t i = 0; i < ops.size(); i++) {
        sc.step = fmt("%zu ", i) + ops[i].name;
        ops[i].run(sc);
        sc_after(sc, true);
        if (!ops[i].name.compare(0, 4, "load")) c.note("load");
        if (!ops[i].name.compare(0, 4, "save")) c.note("save");
    }
    if (sc.failed) c.note("failed call");
    if (sc.ids.size() >= 3) c.note("three images");
    if (s.flip()) sc_delete(sc); // otherwise shutting down has to do it
    iluRegioniv(nullptr, 0); // ILU keeps its copy of the region until the next one
    ilShutDown();
    g_il_up = false;
    if (mem::bt_on && mem::live) mem::bt_show();
    CHECK(mem::live == 0, "leak", "%llu blocks with %llu bytes stay allocated", (unsigned long long)mem::live, (unsigned long long)mem::live_bytes);
    c.nontriv = sc.ok >= 3;
}
