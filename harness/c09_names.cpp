// C09: image names against a map from names to images.
#include "ilh.h"

Spec spec() {
    Spec s;
    s.id = "C09";
    s.rule = "at least one name was deleted and another operation on names followed";
    s.quick_cases = 180000;
    s.thorough_cases = 1800000;
    s.batch = 64;
    s.cpu_limit = 10;
    s.assumptions = {"after ilInit the names 0 (default image) and 1 are in use; a fresh image is 1x1x1 with undefined pixels"};
    s.min_frac = {{"deleted", 0.6}, {"rebound", 0.1}};
    return s;
}
struct Model {
    std::map<ILuint, Img> m; // w == 0: fresh, pixels undefined
    ILuint cur = 1;
};
static void check_content(const Img &want, const char *when, ILuint name) {
    Img got = get_image(when);
    if (!want.w) {
        CHECK(got.w == 1 && got.h == 1 && got.d == 1, "fresh", "%s: fresh image %u is %s", when, name, got.str().c_str());
        return;
    }
    CHECK(got.w == want.w && got.h == want.h && got.d == want.d && got.format == want.format && got.type == want.type && got.origin == want.origin && got.data == want.data && got.pal == want.pal && got.paltype == want.paltype,
          "content", "%s: image %u is %s with other content, wanted %s", when, name, got.str().c_str(), want.str().c_str());
}
static void check_all(Model &md, const std::set<ILuint> &seen) {
    ILuint cur = ilGetInteger(IL_CUR_IMAGE);
    CHECK(cur == md.cur, "current", "IL_CUR_IMAGE is %u, wanted %u", cur, md.cur);
    for (ILuint n : seen) {
        bool want = n != 0 && md.m.count(n);
        CHECK((ilIsImage(n) != 0) == want, "isimage", "ilIsImage(%u) is %d, wanted %d", n, ilIsImage(n), want);
    }
    for (auto &p : md.m) {
        ilBindImage(p.first);
        check_content(p.second, "check", p.first);
    }
    ilBindImage(md.cur);
}
void one_case(Src &s, Ctx &c) {
    il_fresh();
    Model md;
    md.m[0] = Img();
    ilBindImage(0);
    md.m[0] = get_image("default image");
    md.m[1] = Img();
    ilBindImage(1);
    std::set<ILuint> seen = {0, 1, 2, 3, 1023, 1024, 1025, 4000};
    int n = s.range(3, 40);
    bool after_delete = false;
    auto name = [&]() -> ILuint { // a name, usually one that matters
        if (s.chance(1, 6)) return s.pick({0u, 1u, 2u, 3u, 7u, 40u, 1023u, 1024u, 1025u, 2047u, 2048u, 2500u});
        std::vector<ILuint> v(seen.begin(), seen.end());
        return s.pick(v);
    };
    std::string log;
    for (int i = 0; i < n; i++) {
        int op = s.range(0, 9);
        drain_errors();
        switch (op) {
        case 0: { // one name
            ILuint id = ilGenImage();
            log += fmt("gen->%u ", id);
            c.say(fmt("gen->%u", id));
            CHECK(id != 0, "gen-zero", "ilGenImage returned 0");
            CHECK(!md.m.count(id), "gen-used", "ilGenImage returned %u, which is in use (%s)", id, log.c_str());
            md.m[id] = Img();
            seen.insert(id);
            break;
        }
        case 1: { // several names
            int k = s.chance(1, 12) ? s.range(1000, 1100) : s.range(1, 6);
            std::vector<ILuint> v(k + 2, 0xdeadbeef);
            ilGenImages(k, &v[1]);
            CHECK(v[0] == 0xdeadbeef && v[k + 1] == 0xdeadbeef, "gen-overrun", "ilGenImages(%d) wrote outside its array", k);
            c.say(fmt("gen %d", k));
            log += fmt("gen%d->%u.. ", k, v[1]);
            for (int j = 1; j <= k; j++) {
                CHECK(v[j] != 0 && v[j] != 0xdeadbeef, "gen-zero", "ilGenImages(%d): entry %d is %u", k, j, v[j]);
                CHECK(!md.m.count(v[j]), "gen-used", "ilGenImages returned %u, which is in use (%s)", v[j], log.c_str());
                md.m[v[j]] = Img();
                if (k < 10 || j < 3 || j > k - 3) seen.insert(v[j]);
            }
            if (k >= 1000) { // keep the rest out of the way
                ilDeleteImages(k - 4, &v[3]);
                for (int j = 3; j < k - 1; j++) {
                    md.m.erase(v[j]);
                    if (md.cur == v[j]) md.cur = 0;
                }
            }
            break;
        }
        case 2: case 3: { // bind
            ILuint id = name();
            if (!md.m.count(id)) c.note("rebound");
            ilBindImage(id);
            c.say(fmt("bind %u", id));
            log += fmt("bind%u ", id);
            if (!md.m.count(id)) md.m[id] = Img();
            seen.insert(id);
            md.cur = id;
            CHECK((ILuint)ilGetInteger(IL_CUR_IMAGE) == id, "current", "after binding %u IL_CUR_IMAGE is %d", id, ilGetInteger(IL_CUR_IMAGE));
            break;
        }
        case 4: { // delete one
            ILuint id = name();
            c.say(fmt("delete %u", id));
            log += fmt("del%u ", id);
            ilDeleteImage(id);
            if (id != 0 && md.m.count(id)) {
                md.m.erase(id);
                if (md.cur == id) md.cur = 0;
                after_delete = true;
                c.note("deleted");
            }
            break;
        }
        case 5: { // delete several, possibly the same twice
            int k = s.range(1, 5);
            std::vector<ILuint> v;
            for (int j = 0; j < k; j++) v.push_back(s.chance(1, 4) && j ? v[0] : name());
            std::string t;
            for (auto x : v) t += fmt("%u ", x);
            c.say("delete " + t);
            log += "del " + t;
            ilDeleteImages(k, &v[0]);
            for (auto id : v)
                if (id != 0 && md.m.count(id)) {
                    md.m.erase(id);
                    if (md.cur == id) md.cur = 0;
                    after_delete = true;
                    c.note("deleted");
                }
            break;
        }
        case 6: case 7: { // new content
            Img im = s.chance(1, 4) ? gen_indexed(s, s.range(1, 6), s.range(1, 6), 1, s.range(1, 30), IL_PAL_RGB24)
                                    : gen_img(s, s.range(1, 8), s.range(1, 8), s.range(1, 2), s.pick({IL_RGB, IL_RGBA, IL_LUMINANCE}), s.pick({IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT}));
            put_image(im);
            c.say("texture of " + im.str());
            log += "tex ";
            md.m[md.cur] = im;
            break;
        }
        case 8: { // write through the pointer
            Img &im = md.m[md.cur];
            if (!im.w) break;
            size_t o = s.draw(im.data.size());
            uint8_t v = (uint8_t)s.draw(256);
            ilGetData()[o] = v;
            im.data[o] = v;
            c.say("poke");
            break;
        }
        case 9: { // rejected calls
            int w = s.range(0, 1);
            ILuint dummy = 0xdeadbeef;
            if (w == 0) ilGenImages(0, &dummy);
            else ilGenImages(3, nullptr);
            CHECK(dummy == 0xdeadbeef, "gen-bad", "a rejected ilGenImages wrote a name");
            CHECK(ilGetError() != IL_NO_ERROR, "gen-bad", "a rejected ilGenImages raised no error");
            ilDeleteImages(0, &dummy);
            break;
        }
        }
        if (s.chance(1, 8)) check_all(md, seen);
    }
    check_all(md, seen);
    // whatever was in use, everything is released
    ilShutDown();
    CHECK(mem::live == 0, "leak", "%llu allocations remain after ilShutDown", (unsigned long long)mem::live);
    c.nontriv = after_delete && n > 3;
}
