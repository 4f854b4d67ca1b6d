// C03: loaders stay within their memory and in bounded time on any bytes, what they load is consistent, and the library is usable afterwards.
#include "seeds.h"

Spec spec() {
    Spec s;
    s.id = "C03";
    s.rule = "the input is a file of the type, damaged or found by fuzzing (not only noise refused at the first bytes)";
    s.quick_cases = 102000;
    s.thorough_cases = 2000000;
    s.batch = 64;
    s.cpu_limit = 10;
    s.enumerated = seeds().all.size();
    s.min_frac = {{"loaded", 0.06}, {"refused", 0.15}};
    return s;
}

static volatile unsigned g_sink;
// looks at everything the library says belongs to the current image and what hangs on it
static void survey_chain(bool ok, const char *type) {
    ILuint id = ilGetInteger(IL_CUR_IMAGE);
    int frames = ilGetInteger(IL_NUM_IMAGES);
    for (int f = 0; f <= std::min(frames, 6); f++) {
        ilBindImage(id);
        if (!ilActiveImage(f)) continue;
        int layers = std::min<int>(ilGetInteger(IL_NUM_LAYERS), 4), faces = std::min<int>(ilGetInteger(IL_NUM_FACES), 6);
        for (int fc = 0; fc <= faces; fc++) {
            ilBindImage(id); ilActiveImage(f);
            if (fc && !ilActiveFace(fc)) continue;
            int mips = std::min<int>(ilGetInteger(IL_NUM_MIPMAPS), 12);
            for (int m = 0; m <= mips; m++) {
                ilBindImage(id); ilActiveImage(f);
                if (fc && !ilActiveFace(fc)) continue;
                if (m && !ilActiveMipmap(m)) continue;
                if (ok) {
                    Img im = get_image(type);
                    unsigned v = 0;
                    for (auto b : im.data) v += b;
                    for (auto b : im.pal) v += b;
                    g_sink += v;
                } else {
                    ILubyte *p = ilGetData();
                    size_t n = p ? (ILuint)ilGetInteger(IL_IMAGE_SIZE_OF_DATA) : 0;
                    unsigned v = 0;
                    for (size_t i = 0; i < n; i++) v += p[i];
                    p = ilGetPalette();
                    n = p ? (ILuint)ilGetInteger(IL_PALETTE_NUM_COLS) * ilGetInteger(IL_PALETTE_BPP) : 0;
                    for (size_t i = 0; i < n; i++) v += p[i];
                    g_sink += v;
                }
            }
        }
        for (int l = 1; l <= layers; l++) {
            ilBindImage(id); ilActiveImage(f);
            if (ilActiveLayer(l) && ok) g_sink += get_image(type).data[0];
        }
    }
    ilBindImage(id);
    drain_errors();
}

void one_case(Src &s, Ctx &c) {
    mem::cap = 64u << 20;
    mem::total_cap = 400u << 20;
    mem::fill = 0xA5;
    il_fresh();
    const Seeds &S = seeds();
    uint64_t pickv = s.draw(1u << 20);
    Bytes b;
    int ti;
    std::string how;
    if (pickv < S.all.size()) {
        ti = S.all[pickv].type;
        b = S.get(pickv);
        how = fmt("seed %d", (int)pickv);
        c.note("stored seeds");
        c.nontriv = true;
    } else if (s.chance(1, 30)) { // noise behind nothing, or behind the start of a file
        ti = s.draw(ltypes().size());
        how = "noise";
        if (s.flip() && !S.of[ti].empty()) { b = S.get(S.of[ti][s.draw(S.of[ti].size())]); b.resize(std::min<size_t>(b.size(), s.range(1, 24))); how = "start+noise"; }
        int n = s.range(0, 200);
        for (int i = 0; i < n; i++) b.push_back((uint8_t)s.draw(256));
    } else {
        ti = s.draw(ltypes().size());
        b = gen_input(s, ti, how);
        c.nontriv = b.size() > 8;
    }
    if (b.empty()) b.push_back(0);
    const LType &lt = ltypes()[ti];
    c.note(std::string("type ") + lt.name);
    const char *ways[] = {"ilLoadL", "ilLoad", "ilLoadImage", "ilLoadL unknown", "ilIsValidL", "ilDetermineTypeL", "ilIsValid"};
    int way = s.pick({0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6});
    c.say(fmt("%s %s %zu bytes of %s", ways[way], lt.name, b.size(), how.c_str()));
    if (s.chance(1, 4)) { ilEnable(IL_ORIGIN_SET); ilOriginFunc(s.pick({IL_ORIGIN_LOWER_LEFT, IL_ORIGIN_UPPER_LEFT})); c.say("origin set"); }
    if (s.chance(1, 8)) ilEnable(IL_CONV_PAL);
    if (s.chance(1, 8)) { ilEnable(IL_FORMAT_SET); ilFormatFunc(s.pick({IL_RGBA, IL_LUMINANCE, IL_BGR})); }
    if (s.chance(1, 8)) { ilEnable(IL_TYPE_SET); ilTypeFunc(s.pick({IL_UNSIGNED_BYTE, IL_FLOAT, IL_UNSIGNED_SHORT})); }
    if (s.chance(1, 8)) ilSetInteger(IL_KEEP_DXTC_DATA, IL_TRUE);

    // a second image, to see that it is left alone
    Img keep = gen_img(s, 3, 2, 1, IL_RGBA, IL_UNSIGNED_BYTE);
    ILuint kid = new_image(keep);
    ILuint id = ilGenImage();
    ilBindImage(id);
    drain_errors();

    ILubyte *q = (ILubyte *)malloc(b.size()); // its own block, so that reading past it is seen
    memcpy(q, &b[0], b.size());
    std::string path = g_scratch + "/in." + lt.ext;
    if (way == 1 || way == 2 || way == 6) write_file(path, b);
    bool ok = false, loads = way <= 3;
    switch (way) {
    case 0: ok = ilLoadL(lt.type, q, (ILuint)b.size()); break;
    case 1: ok = ilLoad(lt.type, path.c_str()); break;
    case 2: ok = ilLoadImage(path.c_str()); break;
    case 3: ok = ilLoadL(IL_TYPE_UNKNOWN, q, (ILuint)b.size()); break;
    case 4: ilIsValidL(lt.type, q, (ILuint)b.size()); break;
    case 5: ilDetermineTypeL(q, (ILuint)b.size()); break;
    case 6: ilIsValid(lt.type, path.c_str()); break;
    }
    c.note(!loads ? "tested" : ok ? "loaded" : "refused");
    if (ok) c.note(std::string("loaded ") + lt.name);
    CHECK(!memcmp(q, &b[0], b.size()), fmt("input-%s", lt.name), "%s changed the caller's bytes", ways[way]);
    free(q);
    unlink(path.c_str());
    drain_errors();
    if (loads) {
        CHECK((ILuint)ilGetInteger(IL_CUR_IMAGE) == id, fmt("bound-%s", lt.name), "%s of %s: image %d is bound afterwards instead of %u", ways[way], lt.name, ilGetInteger(IL_CUR_IMAGE), id);
        try {
            survey_chain(ok, lt.name);
        } catch (Fail &f) { f.sig += std::string("-") + lt.name; throw f; }
    }
    // the library goes on working: the same name takes another picture, and it can be saved, loaded and deleted
    ilDisable(IL_FORMAT_SET); ilDisable(IL_TYPE_SET); ilDisable(IL_CONV_PAL); ilDisable(IL_ORIGIN_SET);
    Img good = gen_img(s, s.range(1, 5), s.range(1, 5), 1, IL_RGB, IL_UNSIGNED_BYTE);
    good.origin = IL_ORIGIN_UPPER_LEFT;
    std::string sg = fmt("after-%s", lt.name);
    Out o;
    o.str(fmt("P6\n%d %d\n255\n", good.w, good.h));
    o.bytes(good.data);
    ilBindImage(id);
    CHECK(ilLoadL(IL_PNM, &o.b[0], (ILuint)o.b.size()), sg, "after %s of %s a well formed file no longer loads: %04x", ways[way], lt.name, ilGetError());
    same_picture(good, get_image("the next file"), sg, "the next file loaded");
    CHECK(ilGetInteger(IL_NUM_IMAGES) == 0 && ilGetInteger(IL_NUM_MIPMAPS) == 0 && ilGetInteger(IL_NUM_LAYERS) == 0 && ilGetInteger(IL_NUM_FACES) == 0, sg + "-chain", "after %s of %s, the next file loaded has %d images, %d mipmaps, %d layers, %d faces", ways[way], lt.name,
          ilGetInteger(IL_NUM_IMAGES), ilGetInteger(IL_NUM_MIPMAPS), ilGetInteger(IL_NUM_LAYERS), ilGetInteger(IL_NUM_FACES));
    ilDeleteImages(1, &id);
    CHECK(!ilIsImage(id), sg + "-delete", "the name is still in use after its deletion");
    ilBindImage(kid);
    Img k2 = get_image("the other image");
    CHECK(k2.data == keep.data && k2.w == keep.w && k2.format == keep.format, sg + "-other", "%s of %s changed another image", ways[way], lt.name);
    ilShutDown();
    g_il_up = false;
    CHECK(mem::live == 0, fmt("leak-%s-%s", lt.name, ok ? "loaded" : "refused"), "%s of %s (%s): %llu blocks of memory are never freed", ways[way], lt.name, ok ? "loaded" : "refused", (unsigned long long)mem::live);
}
