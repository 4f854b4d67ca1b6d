// C23: a file loaded with load modes against the same file loaded without them and converted afterwards.
#include "seeds.h"

Spec spec() {
    Spec s;
    s.id = "C23";
    s.rule = "the file loads, and the modes change at least one of its pictures";
    s.quick_cases = 100000;
    s.thorough_cases = 1000000;
    s.batch = 32;
    s.cpu_limit = 20;
    s.assumptions = {"the conversion of a picture to another format and type is taken from ilConvertImage (C07, C19, C29), the pixels of the file from a load without modes (C25)",
                     "with a type other than bytes and no format, an indexed picture becomes true colour in the order of its palette", "RAW is left out for the origin (it has no origin of its own), DOOM for IL_CONV_PAL (it has its own transparent colour)"};
    s.min_frac = {{"loads", 0.4}, {"origin", 0.1}, {"format", 0.1}, {"type", 0.1}, {"conv pal", 0.02}, {"key", 0.05}, {"several", 0.02}};
    return s;
}
static const ILenum F[] = {IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA};
static const ILenum T[] = {IL_UNSIGNED_BYTE, IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE, IL_SHORT};

struct Modes { bool o = false, f = false, t = false, pal = false, key = false; ILenum om = 0, fm = 0, tm = 0; float k[4] = {0, 0, 0, 0}; };

// the picture as the modes want it; false if they cannot be had
static bool expect(const Img &a, const Modes &m, Img &out) {
    Img im = a;
    if (m.o && im.origin != m.om) { im = flipped(im); im.origin = m.om; }
    ILenum f = m.f ? m.fm : im.format, t = m.t ? m.tm : im.type;
    if (im.format == IL_COLOUR_INDEX && !m.f) {
        if (m.pal) f = IL_BGR;
        else if (t != IL_UNSIGNED_BYTE)
            switch (im.paltype) {
            case IL_PAL_RGB24: f = IL_RGB; break;
            case IL_PAL_RGB32: case IL_PAL_RGBA32: f = IL_RGBA; break;
            case IL_PAL_BGR24: f = IL_BGR; break;
            case IL_PAL_BGR32: case IL_PAL_BGRA32: f = IL_BGRA; break;
            }
    }
    ILuint id = new_image(im);
    if (m.key) ilEnable(IL_USE_KEY_COLOUR);
    bool ok = ilConvertImage(f, t);
    ilDisable(IL_USE_KEY_COLOUR);
    if (ok) out = get_image("expected");
    ilDeleteImage(id);
    return ok;
}

void one_case(Src &s, Ctx &c) {
    il_fresh();
    static std::vector<int> good;
    if (good.empty()) for (size_t i = 0; i < ltypes().size(); i++) if (!seeds().of[i].empty()) good.push_back((int)i);
    // a whole file more often than a broken one
    Bytes b;
    std::string how;
    int ti;
    if (s.chance(2, 3)) {
        if (s.chance(2, 3)) {
            bool many = s.chance(1, 4); // with mipmaps, faces and frames
            size_t gi = s.draw(gen_kinds().size());
            while (many && strcasecmp(gen_kinds()[gi].name, "dds") && !gen_kinds()[gi].multi) gi = (gi + 1) % gen_kinds().size();
            const GenKind &k = gen_kinds()[gi];
            ti = -1;
            for (size_t i = 0; i < ltypes().size(); i++) if (!strcasecmp(k.name, ltypes()[i].name)) ti = (int)i;
            if (ti < 0) return;
            b = gen_file(s, k).b;
            how = "encoder";
        } else {
            const SaveKind &k = save_kinds()[s.draw(save_kinds().size())];
            ti = (int)(ltype_of(k.type) - &ltypes()[0]);
            b = saved_file(s, k);
            how = "saved";
        }
    } else {
        ti = good[s.draw(good.size())];
        if (s.flip()) { b = seeds().get(seeds().of[ti][s.draw(seeds().of[ti].size())]); how = "seed"; }
        else b = gen_input(s, ti, how);
    }
    const LType &L = ltypes()[ti];
    Modes m;
    m.o = s.flip(); m.f = s.flip(); m.t = s.flip(); m.pal = s.chance(1, 4) && L.type != IL_DOOM; m.key = s.chance(1, 4);
    m.om = s.pick({IL_ORIGIN_LOWER_LEFT, IL_ORIGIN_UPPER_LEFT});
    m.fm = F[s.draw(6)];
    m.tm = T[s.draw(7)];
    for (float &k : m.k) k = s.chance(1, 3) ? 0 : s.range(0, 255) / 255.0f;
    m.k[3] = s.range(0, 3) / 255.0f;
    std::string what = fmt("%s (%s, %zu bytes) with%s%s%s%s%s", L.name, how.c_str(), b.size(), m.o ? m.om == IL_ORIGIN_UPPER_LEFT ? " origin UL" : " origin LL" : "",
                           m.f ? fmt(" format %s", fmt_name(m.fm)).c_str() : "", m.t ? fmt(" type %s", type_name(m.tm)).c_str() : "", m.pal ? " conv-pal" : "", m.key ? " key" : "");
    c.say(what);
    ILuint plain = ilGenImage();
    ilBindImage(plain);
    if (b.empty()) return;
    bool ok = ilLoadL(L.type, &b[0], (ILuint)b.size());
    std::vector<Part> A;
    if (ok) A = dump_chain(plain, "plain");
    // dump_chain looks at one level only
    size_t total = 0;
    for (auto &p : A) total += p.im.data.size();
    if (total > 400000) return;
    drain_errors();
    ilKeyColour(m.k[0], m.k[1], m.k[2], m.k[3]);
    bool possible = true;
    std::vector<Part> E = A;
    bool changes = false;
    for (auto &p : E) {
        Img o;
        if (!expect(p.im, m, o)) { possible = false; break; }
        o.origin = m.o ? m.om : p.im.origin;
        if (o.data != p.im.data || o.format != p.im.format || o.type != p.im.type) changes = true;
        p.im = o;
    }
    drain_errors();
    if (m.o) { ilEnable(IL_ORIGIN_SET); if (s.flip()) ilOriginFunc(m.om); else ilSetInteger(IL_ORIGIN_MODE, m.om); }
    if (m.f) { ilEnable(IL_FORMAT_SET); if (s.flip()) ilFormatFunc(m.fm); else ilSetInteger(IL_FORMAT_MODE, m.fm); }
    if (m.t) { ilEnable(IL_TYPE_SET); if (s.flip()) ilTypeFunc(m.tm); else ilSetInteger(IL_TYPE_MODE, m.tm); }
    if (m.pal) ilEnable(IL_CONV_PAL);
    if (m.key) ilEnable(IL_USE_KEY_COLOUR);
    CHECK(ilGetError() == IL_NO_ERROR, "modes", "%s: setting the modes fails", what.c_str());
    ILuint id = ilGenImage();
    ilBindImage(id);
    bool ok2;
    int via = s.range(0, 2);
    std::string path = g_scratch + "/set." + L.ext;
    if (via) write_file(path, b);
    if (via == 0) ok2 = ilLoadL(L.type, &b[0], (ILuint)b.size());
    else if (via == 1) ok2 = ilLoad(L.type, path.c_str());
    else {
        FILE *f = fopen(path.c_str(), "rb");
        ok2 = f && ilLoadF(L.type, f);
        if (f) fclose(f);
    }
    if (via) unlink(path.c_str());
    std::string sg = std::string("-") + L.name;
    if (!ok) {
        CHECK(!ok2, "loads-more" + sg, "%s: loads, though it does not without them", what.c_str());
        return;
    }
    c.note("loads");
    if (!possible) {
        CHECK(!ok2, "impossible" + sg, "%s: loads, though its pictures cannot be converted like that", what.c_str());
        CHECK(ilGetError() != IL_NO_ERROR, "impossible-error" + sg, "%s: no error", what.c_str());
        c.note("impossible");
        return;
    }
    CHECK(ok2, "fails" + sg, "%s: does not load, error %04x; without the modes it does", what.c_str(), ilGetError());
    std::vector<Part> B = dump_chain(id, "with modes");
    for (auto &p : B) {
        if (m.o) CHECK(p.im.origin == m.om, "origin" + sg, "%s: %s has origin %04x", what.c_str(), p.where.c_str(), p.im.origin);
        if (m.f) CHECK(p.im.format == m.fm, "format" + sg, "%s: %s is %s", what.c_str(), p.where.c_str(), p.im.str().c_str());
        if (m.t) CHECK(p.im.type == m.tm, "type" + sg, "%s: %s is %s", what.c_str(), p.where.c_str(), p.im.str().c_str());
        if (m.pal) CHECK(p.im.format != IL_COLOUR_INDEX, "pal" + sg, "%s: %s is indexed", what.c_str(), p.where.c_str());
    }
    std::string d = chain_diff(E, B);
    CHECK(d.empty(), "picture" + sg, "%s: wanted and got: %s", what.c_str(), d.c_str());
    if (changes) {
        c.nontriv = true;
        if (m.o) c.note("origin");
        if (m.f) c.note("format");
        if (m.t) c.note("type");
        if (m.pal) c.note("conv pal");
        if (m.key) c.note("key");
        if (A.size() > 1) c.note("several");
    }
}
