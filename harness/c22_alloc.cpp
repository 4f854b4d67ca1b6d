// C22: when one request for memory is refused, the call says so or works, and nothing is damaged.
#include "scen.h"
extern "C" time_t time(time_t *t) { time_t v = 1000000000; if (t) *t = v; return v; }

Spec spec() {
    Spec s;
    s.id = "C22";
    s.rule = "at least one request was refused within a call that worked without the fault";
    s.quick_cases = 20000;
    s.thorough_cases = 400000;
    s.batch = 64;
    s.cpu_limit = 40;
    s.assumptions = {"requests above 4 MB are refused in every run, as on a small system", "memory that libpng, libjpeg and libtiff take from malloc themselves is not refused"};
    s.min_frac = {{"fault reported", 0.4}};
    return s;
}
// Checks the selected image; after a failure it may be empty.
static void after(Sc &c) {
    std::string e;
    for (int i = 0; i < 40; i++) {
        ILenum x = ilGetError();
        if (x == IL_NO_ERROR) break;
        c.first_err.push_back(x);
        e += fmt(" %04x", x);
    }
    if (!e.empty()) c.log.push_back(c.step + ": errors" + e);
    if (!ilGetInteger(IL_CUR_IMAGE)) return;
    if (ilGetInteger(IL_IMAGE_WIDTH) == 0 || ilGetInteger(IL_IMAGE_HEIGHT) == 0 || ilGetInteger(IL_IMAGE_DEPTH) == 0) {
        CHECK(ilGetInteger(IL_IMAGE_SIZE_OF_DATA) == 0, "inv-empty", "after %s: no pixels, but data", c.step.c_str());
        c.log.push_back(c.step + ": empty image");
        drain_errors();
        return;
    }
    sc_after(c, true);
}
static size_t run(Sc &c, const std::vector<ScOp> &ops, std::vector<size_t> *ends = nullptr, std::vector<uint64_t> *at = nullptr, int64_t fault = -1) {
    size_t hit = (size_t)-1;
    uint64_t r0 = mem::refused;
    for (size_t i = 0; i < ops.size(); i++) {
        c.step = fmt("%zu ", i) + ops[i].name;
        uint64_t n0 = mem::total;
        if (fault >= 0 && hit == (size_t)-1) { mem::fail_run = 1; mem::fail_at = fault; }
        ops[i].run(c);
        uint64_t n1 = mem::total;
        if (fault >= 0 && hit == (size_t)-1) {
            if (mem::fail_at < 0) hit = i;
            else fault = mem::fail_at;
            mem::fail_at = -1;
        }
        after(c);
        if (ends) ends->push_back(c.log.size());
        if (at) at->push_back(n1 - n0);
    }
    (void)r0;
    return hit;
}
void one_case(Src &s, Ctx &c) {
    mem::cap = 4u << 20;
    mem::fail_at = -1;
    mem::bts.clear();
    il_fresh();
    ScOpts o;
    o.states = s.flip();
    std::vector<ScOp> ops = sc_ops(s, 4, o);
    uint64_t pick = s.draw(1 << 16);
    for (auto &q : ops) c.say(q.name);
    il_fresh();
    ilBindImage(0);
    Sc a;
    std::vector<size_t> ea;
    std::vector<uint64_t> at;
    run(a, ops, &ea, &at);
    uint64_t n = 0;
    for (uint64_t x : at) n += x;
    // every request when there are few, otherwise some of them
    std::vector<uint64_t> ks;
    for (uint64_t k = 0; k < n && n <= 6; k++) ks.push_back(k);
    for (int i = 0; n > 6 && i < 6; i++) ks.push_back((pick + i * (n / 6 + 1)) % n);
    static uint64_t mng_left = 0;
    for (uint64_t k : ks) {
        c.say(fmt("refuse request %llu of %llu", (unsigned long long)k, (unsigned long long)n));
        il_fresh();
        ilBindImage(0);
        Sc b;
        std::vector<size_t> eb;
        size_t hit = run(b, ops, &eb, nullptr, (int64_t)k);
        CHECK(hit != (size_t)-1, "harness", "request %llu never came", (unsigned long long)k);
        size_t a0 = hit ? ea[hit - 1] : 0, b0 = hit ? eb[hit - 1] : 0;
        bool reported = false;
        for (size_t i = b0; i < eb[hit]; i++) reported |= b.log[i].find(": errors") != std::string::npos;
        std::string word = ops[hit].name.substr(0, ops[hit].name.find(' ', ops[hit].name.find(' ') + 1));
        if (!reported) {
            bool same = ea[hit] - a0 == eb[hit] - b0;
            for (size_t i = 0; same && i < ea[hit] - a0; i++) same = a.log[a0 + i] == b.log[b0 + i];
            std::string x, y;
            for (size_t i = a0; i < ea[hit]; i++) x += "\n  " + a.log[i];
            for (size_t i = b0; i < eb[hit]; i++) y += "\n  " + b.log[i];
            CHECK(same, "silent-" + word, "no error was left, and the result is not the one without the fault:%s\nand now%s", x.c_str(), y.c_str());
            c.note("worked anyway");
        } else c.note("fault reported");
        c.nontriv = true;
        sc_delete(b);
        if (!o.states) { // the library still works as before
            ilBindImage(0);
            Sc d;
            run(d, ops);
            CHECK(d.log == a.log, "later-" + word, "the same calls give another result after the fault");
            sc_delete(d);
        }
        iluRegioniv(nullptr, 0);
        ilShutDown();
        g_il_up = false;
        if (mem::bt_on && mem::live) mem::bt_show();
        uint64_t left = mem::live, bytes = mem::live_bytes;
        mem::bts.clear();
        if (word == "load MNG") mng_left = left; // libmng itself loses its row buffers when another of its requests is refused
        CHECK(left == mng_left, "leak-" + word, "%llu blocks with %llu bytes stay allocated", (unsigned long long)(left - mng_left), (unsigned long long)bytes);
    }
}
