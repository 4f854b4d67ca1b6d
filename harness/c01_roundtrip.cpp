// C01: an image saved in a format that can hold it losslessly loads back as the same picture.
#include "ilh.h"

Spec spec() {
    Spec s;
    s.id = "C01";
    s.rule = "the image has at least 2 different pixels and the save was accepted";
    s.quick_cases = 96000;
    s.thorough_cases = 1000000;
    s.batch = 64;
    s.cpu_limit = 20;
    s.min_frac = {{"saved", 0.95}};
    return s;
}

struct Kind {
    const char *name;
    ILenum file;
    const char *ext;
    bool mem;                    // ilSaveL supports it
    std::vector<ILenum> formats; // losslessly held in 8 bits
    bool u16;                    // also in 16 bits
    bool alpha;                  // alpha kept (for formats with alpha)
    int maxdim;
};
static const std::vector<ILenum> RGBS = {IL_RGB, IL_BGR};
static const std::vector<Kind> &kinds() {
    static const std::vector<Kind> k = {
        {"bmp", IL_BMP, "bmp", true, {IL_RGB, IL_BGR, IL_RGBA, IL_BGRA, IL_LUMINANCE, IL_COLOUR_INDEX}, false, false, 300},
        {"png", IL_PNG, "png", true, {IL_RGB, IL_BGR, IL_RGBA, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_COLOUR_INDEX}, true, true, 300},
        {"tga", IL_TGA, "tga", true, {IL_RGB, IL_BGR, IL_RGBA, IL_BGRA, IL_LUMINANCE, IL_COLOUR_INDEX}, false, true, 300},
        {"sgi", IL_SGI, "sgi", true, {IL_RGB, IL_BGR, IL_RGBA, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_COLOUR_INDEX}, true, true, 300},
        {"pcx", IL_PCX, "pcx", false, {IL_RGB, IL_BGR, IL_RGBA, IL_BGRA, IL_LUMINANCE, IL_COLOUR_INDEX}, false, true, 300},
        {"ppm", IL_PNM, "ppm", true, {IL_RGB, IL_BGR, IL_LUMINANCE, IL_COLOUR_INDEX}, false, false, 200},
        {"pgm", IL_PNM, "pgm", false, {IL_LUMINANCE}, false, false, 200},
        {"tif", IL_TIF, "tif", true, {IL_RGB, IL_BGR, IL_RGBA, IL_BGRA, IL_COLOUR_INDEX}, true, true, 300},
        {"psd", IL_PSD, "psd", true, {IL_RGB, IL_BGR, IL_RGBA, IL_BGRA, IL_LUMINANCE, IL_COLOUR_INDEX}, true, true, 300},
        {"raw", IL_RAW, "raw", true, {IL_RGB, IL_RGBA, IL_LUMINANCE}, true, true, 300},
        {"vtf", IL_VTF, "vtf", true, {IL_RGB, IL_BGR, IL_RGBA, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA}, false, true, 128},
        {"wbmp", IL_WBMP, "wbmp", true, {IL_LUMINANCE}, false, false, 300},
    };
    return k;
}

void one_case(Src &s, Ctx &c) {
    il_fresh();
    const Kind &k = s.pick(kinds());
    ILenum f = s.pick(k.formats);
    ILenum t = k.u16 && f != IL_COLOUR_INDEX && s.chance(1, 3) ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE;
    int w = s.size(k.maxdim), h = s.size(w > 100 ? 40 : k.maxdim);
    if (k.file == IL_VTF) { w = 1 << s.range(0, 7); h = 1 << s.range(0, w > 32 ? 5 : 7); }
    Img im;
    if (f == IL_COLOUR_INDEX) {
        int nc = s.chance(1, 3) ? 256 : s.range(1, 256);
        im = gen_indexed(s, w, h, 1, nc, s.pick({IL_PAL_RGB24, IL_PAL_BGR24, IL_PAL_RGBA32, IL_PAL_BGRA32, IL_PAL_RGB32, IL_PAL_BGR32}));
    } else
        im = gen_img(s, w, h, 1, f, t);
    if (k.file == IL_WBMP)
        for (auto &b : im.data) b = b & 0x40 ? 255 : 0;
    if (k.file == IL_RAW) im.origin = IL_ORIGIN_UPPER_LEFT; // the dump holds no origin; it is read as upper left
    new_image(im);
    std::string opt;
    if (k.file == IL_TGA && s.flip()) { ilSetInteger(IL_TGA_RLE, IL_TRUE); opt += " rle"; }
    if (k.file == IL_SGI && s.flip()) { ilSetInteger(IL_SGI_RLE, IL_TRUE); opt += " rle"; }
    if (k.file == IL_PNG && s.flip()) { ilSetInteger(IL_PNG_INTERLACE, IL_TRUE); opt += " interlaced"; }
    if (s.flip()) { ilHint(IL_COMPRESSION_HINT, IL_USE_COMPRESSION); opt += " compress"; }
    if (k.file == IL_VTF) ilSetInteger(IL_VTF_COMP, IL_DXT_NO_COMP);
    bool byfile = !k.mem || s.chance(1, 4);
    c.say(fmt("%s%s %s %s", k.name, opt.c_str(), byfile ? "file" : "memory", im.str().c_str()));
    std::string what = fmt("%s%s of %s", k.name, opt.c_str(), im.str().c_str()), sg = fmt("%s-%s", k.name, t == IL_UNSIGNED_SHORT ? "16-" : "8-");
    Bytes b;
    if (byfile) {
        std::string p = g_scratch + "/x." + k.ext;
        unlink(p.c_str());
        CHECK(ilSave(k.file, p.c_str()), sg + "save", "%s: ilSave failed, error %04x", what.c_str(), ilGetError());
        b = read_file(p);
    } else {
        b = save_mem(k.file);
        CHECK(!b.empty(), sg + "save", "%s: ilSaveL failed, error %04x", what.c_str(), ilGetError());
    }
    c.note("saved");
    c.note(std::string("kind-") + k.name);
    // saving must not change the image
    Img after = get_image("after saving");
    CHECK(after.origin == im.origin && after.paltype == im.paltype && after.pal == im.pal, sg + "save-changes", "%s: saving changed the image to %s", what.c_str(), after.str().c_str());
    same_picture(im, after, sg + "save-changes", "saving as " + what);
    ILuint id = ilGenImage();
    ilBindImage(id);
    CHECK(ilLoadL(k.file, &b[0], (ILuint)b.size()), sg + "load", "%s: ilLoadL failed, error %04x", what.c_str(), ilGetError());
    Img got = get_image("after loading");
    CHECK(got.w == im.w && got.h == im.h && got.d == 1, sg + "dims", "%s: loaded as %s", what.c_str(), got.str().c_str());
    Img a = upright(im), g = upright(got);
    for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) {
            auto A = rgba_of(a, x, y), G = rgba_of(g, x, y);
            if (!k.alpha) A[3] = 1;
            if (k.file == IL_BMP || k.file == IL_TGA || k.file == IL_PCX || k.file == IL_PSD || k.file == IL_SGI)
                if (f == IL_COLOUR_INDEX) A[3] = 1;
            for (int q = 0; q < 4; q++)
                CHECK(fabs(A[q] - G[q]) < 1e-6, sg + std::string(fmt_name(f)) + "-pixels", "%s loads as %s with pixel (%d,%d) = %.4f %.4f %.4f %.4f, wanted %.4f %.4f %.4f %.4f",
                      what.c_str(), got.str().c_str(), x, y, G[0], G[1], G[2], G[3], A[0], A[1], A[2], A[3]);
        }
    Img u = upright(im);
    c.nontriv = u.data.size() > (size_t)u.px() && memcmp(&u.data[0], &u.data[u.px()], u.data.size() - u.px()) != 0;
}
