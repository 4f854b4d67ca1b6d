// C12: the state machine (modes, values, strings, push/pop) against a model.
#include "ilh.h"

Spec spec() {
    Spec s;
    s.id = "C12";
    s.rule = "states were set, pushed, changed inside the push and popped";
    s.quick_cases = 240000;
    s.thorough_cases = 2400000;
    s.batch = 64;
    s.cpu_limit = 10;
    s.assumptions = {"a push keeps the groups of its mask and gives every other state its default; a pop brings everything back (the documentation leaves the other groups open, the code has always done this)", "hints and key colour have no getter and are judged by their effects in C01 and C29"};
    s.min_frac = {{"pushpop", 0.4}, {"invalid", 0.5}};
    return s;
}
struct Flag { ILenum mode, alias; int def; ILuint bit; };
static const Flag FL[] = {
    {IL_ORIGIN_SET, IL_ORIGIN_SET, 0, IL_ORIGIN_BIT}, {IL_FORMAT_SET, IL_FORMAT_SET, 0, IL_FORMAT_BIT}, {IL_TYPE_SET, IL_TYPE_SET, 0, IL_TYPE_BIT},
    {IL_FILE_OVERWRITE, IL_FILE_MODE, 0, IL_FILE_BIT}, {IL_CONV_PAL, IL_CONV_PAL, 0, IL_PAL_BIT}, {IL_DEFAULT_ON_FAIL, IL_DEFAULT_ON_FAIL, 0, IL_LOADFAIL_BIT},
    {IL_USE_KEY_COLOUR, IL_USE_KEY_COLOUR, 0, 0}, {IL_BLIT_BLEND, IL_BLIT_BLEND, 1, 0}, {IL_SAVE_INTERLACED, IL_INTERLACE_MODE, 0, 0},
    {IL_JPG_PROGRESSIVE, IL_JPG_PROGRESSIVE, 0, IL_FORMAT_SPECIFIC_BIT}, {IL_NVIDIA_COMPRESS, IL_NVIDIA_COMPRESS, 0, 0}, {IL_SQUISH_COMPRESS, IL_SQUISH_COMPRESS, 0, 0}};
static const int NF = sizeof FL / sizeof *FL;
struct Int { ILenum mode; int def; ILuint bit; std::vector<int> good, bad; };
static const std::vector<int> B01 = {0, 1}, NB = {2, -1, 255, INT_MIN, INT_MAX};
static const std::vector<Int> IN = {
    {IL_FORMAT_MODE, IL_BGRA, IL_FORMAT_BIT, {IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA}, {0, -1, IL_COLOUR_INDEX, 0x190B, 0x1901, 0x1400}},
    {IL_TYPE_MODE, IL_UNSIGNED_BYTE, IL_TYPE_BIT, {IL_BYTE, IL_UNSIGNED_BYTE, IL_SHORT, IL_UNSIGNED_SHORT, IL_INT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE}, {0, -1, 0x1407, 0x140C, IL_RGB}},
    {IL_ORIGIN_MODE, IL_ORIGIN_LOWER_LEFT, IL_ORIGIN_BIT, {IL_ORIGIN_LOWER_LEFT, IL_ORIGIN_UPPER_LEFT}, {0, -1, IL_ORIGIN_SET, IL_ORIGIN_MODE}},
    {IL_KEEP_DXTC_DATA, 0, 0, B01, NB},
    {IL_MAX_QUANT_INDICES, 256, 0, {2, 3, 16, 255, 256}, {1, 0, -1, 257, INT_MAX, INT_MIN}},
    {IL_NEU_QUANT_SAMPLE, 15, 0, {1, 2, 15, 29, 30}, {0, -1, 31, INT_MAX}},
    {IL_QUANTIZATION_MODE, IL_WU_QUANT, 0, {IL_WU_QUANT, IL_NEU_QUANT}, {0, -1, IL_QUANTIZATION_MODE, IL_NEU_QUANT_SAMPLE}},
    {IL_BMP_RLE, 0, IL_FORMAT_SPECIFIC_BIT, B01, NB},
    {IL_DXTC_FORMAT, IL_DXT1, IL_FORMAT_SPECIFIC_BIT, {IL_DXT1, IL_DXT2, IL_DXT3, IL_DXT4, IL_DXT5, IL_3DC, IL_RXGB, IL_ATI1N, IL_DXT1A}, {0, -1, INT_MIN, INT_MAX, 0x0705, 0x0712, 0x070C}},
    {IL_JPG_SAVE_FORMAT, IL_JFIF, IL_FORMAT_SPECIFIC_BIT, {IL_JFIF, IL_EXIF}, {0, -1, 1, IL_PNG}},
    {IL_JPG_QUALITY, 99, IL_FORMAT_SPECIFIC_BIT, {0, 1, 50, 98, 99}, {-1, 100, INT_MAX, INT_MIN}},
    {IL_PNG_INTERLACE, 0, IL_FORMAT_SPECIFIC_BIT, B01, NB},
    {IL_PCD_PICNUM, 2, IL_FORMAT_SPECIFIC_BIT, {0, 1, 2}, {-1, 3, INT_MAX, INT_MIN}},
    {IL_PNG_ALPHA_INDEX, -1, IL_FORMAT_SPECIFIC_BIT, {-1, 0, 1, 128, 255}, {-2, 256, INT_MAX, INT_MIN}},
    {IL_SGI_RLE, 0, IL_FORMAT_SPECIFIC_BIT, B01, NB},
    {IL_TGA_CREATE_STAMP, 0, IL_FORMAT_SPECIFIC_BIT, B01, NB},
    {IL_TGA_RLE, 0, IL_FORMAT_SPECIFIC_BIT, B01, NB},
    {IL_VTF_COMP, IL_DXT_NO_COMP, IL_FORMAT_SPECIFIC_BIT, {IL_DXT1, IL_DXT5, IL_DXT3, IL_DXT1A, IL_DXT_NO_COMP}, {0, -1, IL_DXT2, IL_DXT4, IL_3DC}},
    {IL_COMPRESS_MODE, IL_COMPRESS_ZLIB, IL_COMPRESS_BIT, {IL_COMPRESS_NONE, IL_COMPRESS_RLE, IL_COMPRESS_ZLIB}, {0, -1, IL_COMPRESS_LZO, IL_COMPRESS_MODE}},
};
static const ILenum ST[] = {IL_TGA_ID_STRING, IL_TGA_AUTHNAME_STRING, IL_TGA_AUTHCOMMENT_STRING, IL_PNG_AUTHNAME_STRING, IL_PNG_TITLE_STRING, IL_PNG_DESCRIPTION_STRING,
                            IL_TIF_DESCRIPTION_STRING, IL_TIF_HOSTCOMPUTER_STRING, IL_TIF_DOCUMENTNAME_STRING, IL_TIF_AUTHNAME_STRING, IL_CHEAD_HEADER_STRING};
static const int NS = sizeof ST / sizeof *ST;
struct State {
    std::vector<int> f, i;
    std::vector<std::string> s; // "" unset, else "=" + text
    State() {
        for (auto &x : FL) f.push_back(x.def);
        for (auto &x : IN) i.push_back(x.def);
        s.resize(NS);
    }
};
struct Im { int dur, ox, oy, cube; };
static void verify(const State &m, const Im &im) {
    for (int k = 0; k < NF; k++) {
        CHECK((ilIsEnabled(FL[k].mode) != 0) == (m.f[k] != 0), "flag", "mode %04x is %d, wanted %d", FL[k].mode, ilIsEnabled(FL[k].mode), m.f[k]);
        CHECK((ilIsDisabled(FL[k].mode) != 0) == (m.f[k] == 0), "flag", "ilIsDisabled(%04x) is %d, wanted %d", FL[k].mode, ilIsDisabled(FL[k].mode), !m.f[k]);
        CHECK(ilGetInteger(FL[k].alias) == m.f[k] && ilGetBoolean(FL[k].alias) == m.f[k], "flag-get", "ilGetInteger(%04x) is %d, wanted %d", FL[k].alias, ilGetInteger(FL[k].alias), m.f[k]);
    }
    for (size_t k = 0; k < IN.size(); k++) {
        ILint v = 12345;
        ilGetIntegerv(IN[k].mode, &v);
        CHECK(v == m.i[k] && ilGetInteger(IN[k].mode) == m.i[k], "value", "value %04x is %d, wanted %d", IN[k].mode, v, m.i[k]);
    }
    for (int k = 0; k < NS; k++) {
        const char *g = (const char *)ilGetString(ST[k]);
        std::string got = g ? "=" + std::string(g) : "";
        CHECK(got == m.s[k] || (!g && m.s[k] == "="), "string", "string %04x is '%.60s', wanted '%.60s'", ST[k], got.c_str(), m.s[k].c_str());
    }
    CHECK(ilGetInteger(IL_IMAGE_DURATION) == im.dur && ilGetInteger(IL_IMAGE_OFFX) == im.ox && ilGetInteger(IL_IMAGE_OFFY) == im.oy && ilGetInteger(IL_IMAGE_CUBEFLAGS) == im.cube,
          "image-value", "image values %d %d %d %x, wanted %d %d %d %x", ilGetInteger(IL_IMAGE_DURATION), ilGetInteger(IL_IMAGE_OFFX), ilGetInteger(IL_IMAGE_OFFY), ilGetInteger(IL_IMAGE_CUBEFLAGS), im.dur, im.ox, im.oy, im.cube);
    ILenum e = ilGetError();
    CHECK(e == IL_NO_ERROR, "get-error", "reading valid states leaves error %04x", e);
}
void one_case(Src &s, Ctx &c) {
    il_fresh();
    std::vector<State> st(1);
    std::vector<ILuint> masks;
    ILuint ids[2];
    ilGenImages(2, ids);
    Im im[2] = {{0, 0, 0, 0}, {0, 0, 0, 0}};
    int b = 0;
    ilBindImage(ids[0]);
    for (int q = 0; q < 2; q++) {
        ilBindImage(ids[q]);
        ilTexImage(2, 2, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, nullptr);
    }
    ilBindImage(ids[0]);
    int n = s.range(4, 50);
    bool changed_in = false, popped = false;
    verify(st.back(), im[b]);
    for (int i = 0; i < n; i++) {
        State &m = st.back();
        drain_errors();
        bool expect_error = false;
        switch (s.range(0, 11)) {
        case 0: case 1: { // flag
            int k = s.range(0, NF - 1), v = s.range(0, 1);
            CHECK(v ? ilEnable(FL[k].mode) : ilDisable(FL[k].mode), "flag-set", "mode %04x cannot be set to %d", FL[k].mode, v);
            m.f[k] = v;
            c.say(fmt("%s %04x", v ? "enable" : "disable", FL[k].mode));
            changed_in |= st.size() > 1;
            break;
        }
        case 2: case 3: { // value
            size_t k = s.draw(IN.size());
            bool good = s.chance(3, 4);
            int v = good ? s.pick(IN[k].good) : s.pick(IN[k].bad);
            bool func = s.flip(), ret = good;
            if (IN[k].mode == IL_COMPRESS_MODE) ret = ilCompressFunc(v);
            else if (func && IN[k].mode == IL_FORMAT_MODE) ret = ilFormatFunc(v);
            else if (func && IN[k].mode == IL_TYPE_MODE) ret = ilTypeFunc(v);
            else if (func && IN[k].mode == IL_ORIGIN_MODE) ret = ilOriginFunc(v);
            else ilSetInteger(IN[k].mode, v);
            CHECK(ret == good, "value-ret", "setting %04x to %d returns %d", IN[k].mode, v, ret);
            if (good) m.i[k] = v, changed_in |= st.size() > 1;
            else expect_error = true, c.note("invalid");
            c.say(fmt("set %04x to %d", IN[k].mode, v));
            break;
        }
        case 4: { // string
            int k = s.range(0, NS - 1);
            int len = s.pick({0, 1, 5, 40, 80, 254, 255, 256, 300});
            std::string t;
            uint64_t sd = s.seed32();
            for (int q = 0; q < len; q++) t += (char)(32 + mix64(sd + q) % 95);
            char *buf = strdup(t.c_str());
            ilSetString(ST[k], buf);
            memset(buf, '#', t.size()); // the library keeps its own copy
            free(buf);
            m.s[k] = "=" + t;
            c.say(fmt("string %04x of %d", ST[k], len));
            changed_in |= st.size() > 1;
            break;
        }
        case 5: case 6: { // push
            ILuint mask = s.chance(1, 3) ? (ILuint)IL_ALL_ATTRIB_BITS : (ILuint)s.draw(256);
            if (s.chance(1, 4)) { // a pending error stays
                ilSetInteger(IL_JPG_QUALITY, 1000);
                ilPushAttrib(mask);
                CHECK(ilGetError() == IL_INVALID_PARAM, "push-error", "a push loses the pending error");
            } else ilPushAttrib(mask);
            c.say(fmt("push %x", mask));
            if (st.size() >= 32) { expect_error = true; break; }
            State d;
            for (int k = 0; k < NF; k++) if (FL[k].bit & mask) d.f[k] = m.f[k];
            for (size_t k = 0; k < IN.size(); k++) if (IN[k].bit & mask) d.i[k] = m.i[k];
            if (mask & IL_FORMAT_SPECIFIC_BIT) d.s = m.s;
            st.push_back(d);
            break;
        }
        case 7: { // pop
            ilPopAttrib();
            c.say("pop");
            if (st.size() == 1) { expect_error = true; c.note("invalid"); break; }
            st.pop_back();
            if (changed_in) popped = true, c.note("pushpop");
            break;
        }
        case 8: { // values of the image
            int w = s.range(0, 4), v = s.pick({0, 1, 7, 1000, -1, -20});
            Im &q = im[b];
            if (w == 0) ilSetInteger(IL_IMAGE_DURATION, v), q.dur = v;
            else if (w == 1) ilSetInteger(IL_IMAGE_OFFX, v), q.ox = v;
            else if (w == 2) ilSetInteger(IL_IMAGE_OFFY, v), q.oy = v;
            else if (w == 3) { v = s.pick({0x400, 0x800, 0x1000, 0x10000, 0}); ilSetInteger(IL_IMAGE_CUBEFLAGS, v), q.cube = v; }
            else { v = std::max(v, 0); CHECK(ilSetDuration(v), "duration", "ilSetDuration(%d) fails", v); q.dur = v; }
            c.say(fmt("image value %d = %d", w, v));
            break;
        }
        case 9: b ^= 1, ilBindImage(ids[b]); break;
        case 10: { // names that do not exist
            ILenum bad = s.pick({0u, 1u, 0x06FFu, 0x0D00u, 0x9999u, 0xffffffffu});
            int w = s.range(0, 7);
            bool r = false;
            ILint v = 77;
            if (w == 0) r = ilEnable(bad);
            else if (w == 1) r = ilDisable(bad);
            else if (w == 2) r = ilIsEnabled(bad);
            else if (w == 3) ilSetInteger(bad, 1);
            else if (w == 4) ilSetString(bad, "x");
            else if (w == 5) r = ilGetString(bad) != nullptr;
            else if (w == 6) r = ilGetInteger(bad) != 0;
            else ilSetString(ST[0], nullptr);
            (void)v;
            CHECK(!r, "bad-name", "kind %d: name %04x is accepted", w, bad);
            c.say(fmt("bad name %d %04x", w, bad));
            expect_error = true;
            c.note("invalid");
            break;
        }
        case 11: { // many pushes and pops
            int k = s.range(1, 40);
            size_t have = st.size();
            for (int q = 0; q < k; q++) {
                drain_errors();
                ilPushAttrib(IL_ALL_ATTRIB_BITS);
                bool over = st.size() >= 32;
                ILenum e = ilGetError();
                CHECK(e == (over ? IL_STACK_OVERFLOW : IL_NO_ERROR), "overflow", "push at depth %zu leaves error %04x", st.size(), e);
                if (!over) {
                    State d, &t = st.back();
                    for (int z = 0; z < NF; z++) if (FL[z].bit) d.f[z] = t.f[z];
                    for (size_t z = 0; z < IN.size(); z++) if (IN[z].bit) d.i[z] = t.i[z];
                    d.s = t.s;
                    st.push_back(d);
                }
            }
            verify(st.back(), im[b]);
            while (st.size() > have) st.pop_back(), ilPopAttrib();
            c.say(fmt("%d pushes and pops", k));
            break;
        }
        }
        ILenum e = ilGetError();
        CHECK((e != IL_NO_ERROR) == expect_error, "error", "error %04x, %s expected", e, expect_error ? "one" : "none");
        drain_errors();
        if (s.chance(1, 3) || expect_error) verify(st.back(), im[b]);
    }
    verify(st.back(), im[b]);
    if (s.chance(1, 8)) { // a new start has the defaults again
        ilShutDown();
        CHECK(mem::live == 0, "leak", "%llu allocations remain after ilShutDown", (unsigned long long)mem::live);
        ilInit();
        verify(State(), Im{0, 0, 0, 0});
        ilPopAttrib();
        CHECK(ilGetError() == IL_STACK_UNDERFLOW, "reinit", "pushed states survive ilShutDown and ilInit");
    }
    c.nontriv = popped;
}
