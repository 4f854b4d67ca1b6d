// C04: file names, handles, memory and callbacks lead to the same pictures and the same bytes.
#include "seeds.h"
#include <ctime>
// files carry the time of day: it stands still here
extern "C" time_t time(time_t *t) { time_t v = 1700000000; if (t) *t = v; return v; }

Spec spec() {
    Spec s;
    s.id = "C04";
    s.rule = "the content was loaded, or the image saved, in at least two of the ways";
    s.quick_cases = 48000;
    s.thorough_cases = 480000;
    s.batch = 48;
    s.cpu_limit = 20;
    s.assumptions = {"callbacks behave as the functions of the C library they stand for", "contents which the loader refuses are compared in the refusal only"};
    s.min_frac = {{"loaded", 0.05}, {"saved", 0.1}, {"refused", 0.1}};
    return s;
}
// ---- callbacks over memory
struct VF { Bytes b; size_t pos = 0; bool w = false; int opens = 0, closes = 0, calls = 0; std::string bad; };
static VF *g_vf;
static std::string g_vname;
static VF *vf(ILHANDLE h) {
    if (h != (ILHANDLE)g_vf) { if (g_vf) g_vf->bad = "a callback got another handle"; return g_vf; }
    g_vf->calls++;
    if (g_vf->closes > g_vf->opens) g_vf->bad = "closed too often";
    return g_vf;
}
static ILHANDLE ILAPIENTRY v_open(ILconst_string n) {
    if (!g_vf || g_vname != n) return nullptr;
    if (g_vf->w) g_vf->b.clear();
    g_vf->pos = 0;
    g_vf->opens++;
    return (ILHANDLE)g_vf;
}
static void ILAPIENTRY v_close(ILHANDLE h) { vf(h)->closes++; }
static ILboolean ILAPIENTRY v_eof(ILHANDLE h) { VF *f = vf(h); return f->pos >= f->b.size(); }
static ILint ILAPIENTRY v_getc(ILHANDLE h) { VF *f = vf(h); return f->pos < f->b.size() ? f->b[f->pos++] : IL_EOF; }
static ILint ILAPIENTRY v_read(void *p, ILuint size, ILuint n, ILHANDLE h) {
    VF *f = vf(h);
    if (!size || !n) return 0;
    uint64_t want = (uint64_t)size * n, room = f->pos < f->b.size() ? f->b.size() - f->pos : 0;
    uint64_t k = std::min(want, room);
    memcpy(p, f->b.data() + f->pos, k);
    f->pos += k;
    return (ILint)(k / size);
}
static ILint ILAPIENTRY v_seek(ILHANDLE h, ILint off, ILint mode) {
    VF *f = vf(h);
    int64_t p = mode == IL_SEEK_SET ? off : mode == IL_SEEK_CUR ? (int64_t)f->pos + off : mode == IL_SEEK_END ? (int64_t)f->b.size() + off : -1;
    if (p < 0) return -1;
    f->pos = p;
    return 0;
}
static ILint ILAPIENTRY v_tell(ILHANDLE h) { return (ILint)vf(h)->pos; }
static ILint ILAPIENTRY v_putc(ILubyte c, ILHANDLE h) {
    VF *f = vf(h);
    if (f->pos >= f->b.size()) f->b.resize(f->pos + 1);
    f->b[f->pos++] = c;
    return c;
}
static ILint ILAPIENTRY v_write(const void *p, ILuint size, ILuint n, ILHANDLE h) {
    VF *f = vf(h);
    size_t k = (size_t)size * n;
    if (!k) return 0;
    if (f->pos + k > f->b.size()) f->b.resize(f->pos + k);
    memcpy(&f->b[f->pos], p, k);
    f->pos += k;
    return n;
}
static void callbacks_r() { ilSetRead(v_open, v_close, v_eof, v_getc, v_read, v_seek, v_tell); }
static void callbacks_w() { ilSetWrite(v_open, v_close, v_putc, v_seek, v_tell, v_write); }

static void shuffle(Src &s, std::vector<int> &v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[s.draw(i)]); }

static void loading(Src &s, Ctx &c) {
    int ti = s.draw(ltypes().size());
    std::string how;
    Bytes b = gen_input(s, ti, how);
    const LType &lt = ltypes()[ti];
    bool unknown = s.chance(1, 6);
    ILenum type = unknown ? (ILenum)IL_TYPE_UNKNOWN : lt.type;
    if (b.empty()) b.push_back(0);
    c.say(fmt("load %s%s, %zu bytes of %s", lt.name, unknown ? " as unknown" : "", b.size(), how.c_str()));
    if (s.chance(1, 6)) { ilEnable(IL_ORIGIN_SET); ilOriginFunc(s.pick({IL_ORIGIN_LOWER_LEFT, IL_ORIGIN_UPPER_LEFT})); }
    if (s.chance(1, 8)) { ilEnable(IL_FORMAT_SET); ilFormatFunc(s.pick({IL_RGBA, IL_LUMINANCE, IL_BGR})); }
    if (s.chance(1, 8)) ilSetInteger(IL_KEEP_DXTC_DATA, IL_TRUE);
    const char *names[] = {"ilLoadL", "ilLoad", "ilLoadF", "ilLoadF with callbacks", "ilLoad with callbacks", "ilLoadImage"};
    std::vector<int> ways = {0, 1, 2, 3, 4};
    if (!unknown && lt.type != IL_DOOM && s.chance(1, 4)) ways.push_back(5);
    shuffle(s, ways);
    ways.resize(s.range(2, (int)ways.size()));
    std::string path = g_scratch + "/in." + (unknown ? "bin" : lt.ext);
    bool oks[6];
    std::vector<Part> dumps[6];
    int first = -1, first_ok = -1;
    std::string order;
    for (int wy : ways) {
        mem::fill = 0x40 + 0x1B * wy; // what fresh memory happens to hold must not matter
        ILuint id = ilGenImage();
        ilBindImage(id);
        drain_errors();
        Bytes pre;
        int plen = s.pick({0, 1, 3, 128, 512, -1});
        if (plen < 0) plen = s.range(1, 3000);
        if ((wy == 2 || wy == 3)) {
            if (s.flip()) for (int i = 0; i < plen; i++) pre.push_back((uint8_t)mix64(i + plen));
            else { pre = b; pre.resize(std::min<size_t>(pre.size(), plen)); }
        }
        order += fmt("%s%s", order.empty() ? "" : ", ", names[wy]);
        if (!pre.empty()) order += fmt(" at %zu", pre.size());
        bool ok = false;
        Bytes all = pre;
        all.insert(all.end(), b.begin(), b.end());
        VF v;
        g_vf = nullptr;
        switch (wy) {
        case 0: {
            ILubyte *q = (ILubyte *)malloc(b.size());
            memcpy(q, &b[0], b.size());
            ok = ilLoadL(type, q, (ILuint)b.size());
            free(q);
            break;
        }
        case 1: case 5:
            write_file(path, b);
            ok = wy == 1 ? ilLoad(type, path.c_str()) : ilLoadImage(path.c_str());
            break;
        case 2: {
            write_file(path, all);
            FILE *f = fopen(path.c_str(), "rb");
            fseek(f, pre.size(), SEEK_SET);
            ok = ilLoadF(type, (ILHANDLE)f);
            CHECK(fcntl(fileno(f), F_GETFD) != -1, std::string("closed-") + lt.name, "ilLoadF of %s closed the handle of the caller", lt.name);
            CHECK(ftell(f) == (long)pre.size(), std::string("position-") + lt.name, "ilLoadF of %s moves the handle from %zu to %ld", lt.name, pre.size(), ftell(f));
            fclose(f);
            break;
        }
        case 3: case 4:
            v.b = wy == 3 ? all : b;
            g_vf = &v;
            g_vname = "virtual." + std::string(unknown ? "bin" : lt.ext);
            callbacks_r();
            if (wy == 3) { v.pos = pre.size(); ok = ilLoadF(type, (ILHANDLE)g_vf); CHECK(v.pos == pre.size(), std::string("position-") + lt.name, "ilLoadF of %s with callbacks moves the handle from %zu to %zu", lt.name, pre.size(), v.pos); }
            else ok = ilLoad(type, g_vname.c_str());
            if (s.flip() || wy == 4) ilResetRead();
            else { ilResetRead(); ilResetRead(); }
            CHECK(v.bad.empty(), std::string("callback-") + lt.name, "%s: %s", names[wy], v.bad.c_str());
            CHECK(v.opens == v.closes && (wy == 4 || v.opens == 0), std::string("openclose-") + lt.name, "%s of %s: %d opened, %d closed", names[wy], lt.name, v.opens, v.closes);
            if (wy == 4 && ok) CHECK(v.opens >= 1, std::string("notused-") + lt.name, "%s of %s: the open callback was not used", names[wy], lt.name);
            if (ok) CHECK(v.calls > 0, std::string("notused-") + lt.name, "%s of %s: the callbacks were not used", names[wy], lt.name);
            break;
        }
        unlink(path.c_str());
        drain_errors();
        oks[wy] = ok;
        CHECK((ILuint)ilGetInteger(IL_CUR_IMAGE) == id, std::string("bound-") + lt.name, "%s: image %d is bound afterwards", names[wy], ilGetInteger(IL_CUR_IMAGE));
        if (first < 0) first = wy;
        CHECK(ok == oks[first], fmt("result-%s", lt.name), "%s of %s: %s %s, %s %s (order %s)", how.c_str(), lt.name, names[first], oks[first] ? "loads" : "fails", names[wy], ok ? "loads" : "fails", order.c_str());
        if (ok) {
            dumps[wy] = dump_chain(id, lt.name);
            if (first_ok < 0) first_ok = wy;
            else {
                std::string d = chain_diff(dumps[first_ok], dumps[wy]);
                CHECK(d.empty(), fmt("picture-%s", lt.name), "%s of %s: %s and %s differ: %s (order %s)", how.c_str(), lt.name, names[first_ok], names[wy], d.c_str(), order.c_str());
                c.nontriv = true;
            }
        }
        ilDeleteImages(1, &id);
    }
    c.say(order);
    c.note(first_ok >= 0 ? "loaded" : "refused");
    if (first_ok >= 0) c.note(std::string("loaded ") + lt.name);
}

static void saving(Src &s, Ctx &c) {
    int w = s.size(40), h = s.size(40);
    Img im = s.chance(1, 3) ? gen_indexed(s, w, h, 1, s.range(1, 256), s.pick({IL_PAL_RGB24, IL_PAL_BGRA32, IL_PAL_BGR24, IL_PAL_RGBA32}))
                            : gen_img(s, w, h, s.chance(1, 10) ? 2 : 1, s.pick({IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA}), s.pick({IL_UNSIGNED_BYTE, IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_FLOAT, IL_UNSIGNED_INT}));
    tame_floats(s, im);
    std::vector<SaveKind> kinds = save_kinds();
    kinds.push_back({IL_RAW, "raw"});
    const SaveKind &k = kinds[s.draw(kinds.size())];
    ilSetInteger(IL_TGA_RLE, s.flip());
    ilSetInteger(IL_SGI_RLE, s.flip());
    ilSetInteger(IL_BMP_RLE, s.flip());
    ilSetInteger(IL_PNG_INTERLACE, s.flip());
    ilSetInteger(IL_DXTC_FORMAT, s.pick({IL_DXT1, IL_DXT3, IL_DXT5, IL_3DC, IL_ATI1N}));
    if (s.chance(1, 4)) ilSetString(IL_TIF_DESCRIPTION_STRING, "a description");
    ilEnable(IL_FILE_OVERWRITE);
    c.say(fmt("save %s as %s", im.str().c_str(), k.ext));
    const char *names[] = {"ilSaveL", "ilSave", "ilSaveF", "ilSaveF with callbacks", "ilSave with callbacks", "ilSaveImage"};
    std::vector<int> ways = {0, 1, 2, 3, 4, 5};
    shuffle(s, ways);
    ways.resize(s.range(2, 6));
    std::string path = g_scratch + "/out." + k.ext, order;
    bool mips = s.chance(1, 6) && im.type == IL_UNSIGNED_BYTE && im.format != IL_COLOUR_INDEX && im.d == 1;
    int first = -1;
    bool first_ok = false;
    Bytes want;
    for (int wy : ways) {
        if (wy == 5 && k.type == IL_RAW) continue;
        mem::fill = 0x40 + 0x1B * wy;
        ILuint id = new_image(im);
        if (mips) iluBuildMipmaps();
        std::vector<Part> before = dump_chain(id);
        drain_errors();
        int plen = s.chance(1, 3) ? 0 : s.range(1, 700);
        Bytes pre;
        if (wy == 2 || wy == 3) for (int i = 0; i < plen; i++) pre.push_back((uint8_t)mix64(i * 3 + plen));
        order += fmt("%s%s", order.empty() ? "" : ", ", names[wy]);
        if (!pre.empty()) order += fmt(" at %zu", pre.size());
        Bytes out;
        ILuint ok = 0;
        long endpos = -1;
        VF v;
        v.w = true;
        g_vf = nullptr;
        std::string sg = std::string("-") + k.ext;
        switch (wy) {
        case 0: out = save_mem(k.type); ok = !out.empty(); break;
        case 1: ok = ilSave(k.type, path.c_str()); break;
        case 5: ok = ilSaveImage(path.c_str()); break;
        case 2: {
            write_file(path, pre);
            FILE *f = fopen(path.c_str(), "r+b");
            fseek(f, 0, SEEK_END);
            ok = ilSaveF(k.type, (ILHANDLE)f);
            fseek(f, 0, SEEK_CUR);
            endpos = ftell(f);
            CHECK(fcntl(fileno(f), F_GETFD) != -1, "closed" + sg, "ilSaveF as %s closed the handle of the caller", k.ext);
            fclose(f);
            break;
        }
        case 3: case 4:
            v.b = pre;
            g_vf = &v;
            g_vname = std::string("virtual.") + k.ext;
            callbacks_w();
            if (wy == 3) { v.pos = pre.size(); ok = ilSaveF(k.type, (ILHANDLE)g_vf); endpos = (long)v.pos; }
            else ok = ilSave(k.type, g_vname.c_str());
            ilResetWrite();
            CHECK(v.bad.empty(), "callback" + sg, "%s: %s", names[wy], v.bad.c_str());
            CHECK(v.opens == v.closes && v.opens == (wy == 4 ? v.opens : 0), "openclose" + sg, "%s as %s: %d opened, %d closed", names[wy], k.ext, v.opens, v.closes);
            if (ok) CHECK(v.calls > 0, "notused" + sg, "%s as %s: the callbacks were not used", names[wy], k.ext);
            out = v.b;
            break;
        }
        if (wy == 1 || wy == 2 || wy == 5) out = read_file(path);
        unlink(path.c_str());
        if (ok && endpos >= 0) CHECK(endpos == (long)out.size(), "after" + sg, "%s as %s leaves the handle at %ld, the file has %zu bytes", names[wy], k.ext, endpos, out.size());
        if (ok && !pre.empty()) {
            CHECK(out.size() >= pre.size() && !memcmp(out.data(), pre.data(), pre.size()), "before" + sg, "%s as %s overwrites what is before the position of the handle", names[wy], k.ext);
            if (wy == 2 || wy == 3) CHECK(ok == out.size() - pre.size(), "count" + sg, "%s as %s returns %u, wrote %zu bytes", names[wy], k.ext, ok, out.size() - pre.size());
            out.erase(out.begin(), out.begin() + pre.size());
        }
        drain_errors();
        std::string d = chain_diff(before, dump_chain(id));
        CHECK(d.empty(), "changed" + sg, "%s as %s changes the image: %s", names[wy], k.ext, d.c_str());
        if (first < 0) first = wy, first_ok = ok, want = out;
        else {
            CHECK(!!ok == first_ok, "result" + sg, "%s as %s: %s %s, %s %s (order %s)", im.str().c_str(), k.ext, names[first], first_ok ? "saves" : "fails", names[wy], ok ? "saves" : "fails", order.c_str());
            if (ok) {
                CHECK(out.size() == want.size(), "bytes" + sg, "%s as %s: %s writes %zu bytes, %s %zu (order %s)", im.str().c_str(), k.ext, names[first], want.size(), names[wy], out.size(), order.c_str());
                for (size_t i = 0; i < out.size(); i++)
                    CHECK(out[i] == want[i], "bytes" + sg, "%s as %s: byte %zu of %zu is %02x with %s, %02x with %s (order %s)", im.str().c_str(), k.ext, i, out.size(), want[i], names[first], out[i], names[wy], order.c_str());
                c.nontriv = true;
            }
        }
        ilDeleteImages(1, &id);
    }
    c.say(order);
    c.note(first_ok ? "saved" : "not saved");
    if (first_ok) c.note(std::string("saved ") + k.ext);
}

void one_case(Src &s, Ctx &c) {
    mem::cap = 64u << 20;
    mem::total_cap = 400u << 20;
    il_fresh();
    if (s.chance(1, 3)) saving(s, c);
    else loading(s, c);
    // the default functions are in force again
    std::string p = g_scratch + "/last.ppm";
    Bytes b = {'P', '6', ' ', '1', ' ', '1', ' ', '2', '5', '5', '\n', 10, 20, 30};
    write_file(p, b);
    ilDisable(IL_FORMAT_SET);
    ILuint id = ilGenImage();
    ilBindImage(id);
    CHECK(ilLoad(IL_PNM, p.c_str()) && ilGetData()[1] == 20, "reset", "after everything a file no longer loads by name: %04x", ilGetError());
    unlink(p.c_str());
    ilEnable(IL_FILE_OVERWRITE);
    CHECK(ilSave(IL_PNM, p.c_str()) && read_file(p).size() > 10, "reset", "after everything a file is no longer saved by name: %04x", ilGetError());
    unlink(p.c_str());
    ilShutDown();
    g_il_up = false;
    CHECK(mem::live == 0, "leak", "%llu blocks of memory are never freed", (unsigned long long)mem::live);
}
