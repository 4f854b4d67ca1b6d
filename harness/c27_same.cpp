// C27: the same calls give the same results, whatever memory holds and whatever happened before.
#include "scen.h"
// no result may depend on the clock: the writers that store a date get this one
extern "C" time_t time(time_t *t) { time_t v = 1000000000; if (t) *t = v; return v; }

Spec spec() {
    Spec s;
    s.id = "C27";
    s.rule = "at least three calls succeeded, and the second run started after other operations or in differently filled memory";
    s.quick_cases = 100000;
    s.thorough_cases = 1000000;
    s.batch = 64;
    s.cpu_limit = 30;
    s.assumptions = {"requests above 4 MB are refused, as on a small system", "fresh memory is filled with one byte value (0, 0xCD or 0xFF) per run", "earlier operations change no settings (settings are inputs)"};
    s.min_frac = {{"failed call", 0.3}, {"load", 0.3}, {"save", 0.15}, {"earlier operations", 0.4}, {"other memory", 0.5}};
    return s;
}
// "3 load TGA seed..." -> "load-TGA"
static std::string sig(const std::string &l) {
    std::string r;
    int words = 0;
    for (size_t i = l.find(' ') + 1; i < l.size(); i++) {
        if (l[i] == ' ' && ++words == 2) break;
        r += isalnum(l[i]) ? l[i] : '-';
    }
    return r;
}
void one_case(Src &s, Ctx &c) {
    mem::cap = 4u << 20;
    il_fresh();
    std::vector<ScOp> ops = sc_ops(s, 9), before;
    ScOpts o;
    o.states = false;
    if (s.chance(2, 3)) before = sc_ops(s, 7, o);
    static const int FILL[] = {0, 0xCD, 0xFF, 0x7F};
    int fa = FILL[s.draw(4)], fb = FILL[s.draw(4)];
    bool drop = s.flip();
    for (auto &q : ops) c.say(q.name);
    if (!before.empty()) c.say("-- second run after:");
    for (auto &q : before) c.say(q.name);
    c.say(fmt("memory %02x, then %02x", fa, fb));
    Sc a, b, h;
    il_fresh();
    mem::fill = fa;
    ilBindImage(0);
    sc_run(a, ops);
    mem::fill = fb;
    il_fresh();
    sc_run(h, before, false);
    if (drop) sc_delete(h);
    ilBindImage(0);
    sc_run(b, ops);
    mem::fill = -1;
    for (size_t i = 0; i < a.log.size() && i < b.log.size(); i++)
        CHECK(a.log[i] == b.log[i], "differs-" + sig(a.log[i]), "first run: %s\nsecond run: %s", a.log[i].c_str(), b.log[i].c_str());
    CHECK(a.log.size() == b.log.size(), "differs", "%zu and %zu entries", a.log.size(), b.log.size());
    for (auto &q : ops) {
        if (!q.name.compare(0, 4, "load")) c.note("load");
        if (!q.name.compare(0, 4, "save")) c.note("save");
    }
    if (a.failed) c.note("failed call");
    if (!before.empty()) c.note("earlier operations");
    if (fa != fb) c.note("other memory");
    c.nontriv = a.ok >= 3 && (fa != fb || !before.empty());
}
