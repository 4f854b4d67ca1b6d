// C30: queries report what the image holds, and change nothing.
#include "iluh.h"
#include "seeds.h"

Spec spec() {
    Spec s;
    s.id = "C30";
    s.rule = "the image has more than one pixel, and a comparison was made with an image that differs in one respect";
    s.quick_cases = 300000;
    s.thorough_cases = 3000000;
    s.batch = 128;
    s.cpu_limit = 20;
    s.min_frac = {{"differs", 0.4}, {"chain", 0.15}};
    return s;
}
static const ILenum FS[] = {IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_ALPHA};
static const ILenum TS[] = {IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE, IL_BYTE, IL_SHORT, IL_INT};
static const ILenum PS[] = {IL_PAL_RGB24, IL_PAL_RGB32, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGR32, IL_PAL_BGRA32};

static Img pict(Src &s, int most) {
    int w = s.size(most), h = s.size(most), d = s.chance(1, 4) ? s.range(2, 4) : 1;
    if (s.chance(1, 4)) return gen_indexed(s, w, h, d, s.range(1, 256), PS[s.draw(6)]);
    Img m = gen_img(s, w, h, d, FS[s.draw(7)], s.flip() ? IL_UNSIGNED_BYTE : TS[s.draw(8)]);
    if (s.chance(1, 3)) { // few colours, some of them alike in all but one byte
        size_t px = (size_t)m.nc() * tsize(m.type), n = m.data.size() / px;
        std::vector<Bytes> cols;
        for (int k = s.range(1, 5); k > 0; k--) {
            Bytes b(px, (uint8_t)s.draw(256));
            if (!cols.empty() && s.flip()) { b = cols[0]; b[s.draw(px)] ^= 1 << s.draw(8); }
            cols.push_back(b);
        }
        uint64_t sd = s.seed32();
        for (size_t i = 0; i < n; i++) memcpy(&m.data[i * px], cols[mix64(sd + i) % cols.size()].data(), px);
    }
    return m;
}
static size_t distinct(const Img &m) {
    size_t px = (size_t)m.nc() * tsize(m.type);
    std::set<std::string> v;
    for (size_t i = 0; i + px <= m.data.size(); i += px) v.insert(std::string((const char *)&m.data[i], px));
    return v.size();
}
// All queries about the selected picture, against what was put there
static void ask(const Img &m, const std::string &when) {
    auto I = [&](ILenum e) { ILint v = -12345; ilGetIntegerv(e, &v); ILint w = ilGetInteger(e); CHECK(v == w, "getters", "%s: ilGetInteger(%#x) is %d, ilGetIntegerv gives %d", when.c_str(), e, w, v); return v; };
    auto Q = [&](ILenum e, long long want, const char *n) { CHECK(I(e) == want, std::string("query ") + n, "%s: %s is %d for %s, not %lld", when.c_str(), n, I(e), m.str().c_str(), want); };
    size_t b = tsize(m.type), px = b * m.nc();
    Q(IL_IMAGE_WIDTH, m.w, "IL_IMAGE_WIDTH");
    Q(IL_IMAGE_HEIGHT, m.h, "IL_IMAGE_HEIGHT");
    Q(IL_IMAGE_DEPTH, m.d, "IL_IMAGE_DEPTH");
    Q(IL_IMAGE_FORMAT, m.format, "IL_IMAGE_FORMAT");
    Q(IL_IMAGE_TYPE, m.type, "IL_IMAGE_TYPE");
    Q(IL_IMAGE_ORIGIN, m.origin, "IL_IMAGE_ORIGIN");
    Q(IL_IMAGE_BPC, b, "IL_IMAGE_BPC");
    Q(IL_IMAGE_CHANNELS, m.nc(), "IL_IMAGE_CHANNELS");
    Q(IL_IMAGE_BYTES_PER_PIXEL, px, "IL_IMAGE_BYTES_PER_PIXEL");
    Q(IL_IMAGE_BITS_PER_PIXEL, px * 8, "IL_IMAGE_BITS_PER_PIXEL");
    Q(IL_IMAGE_PLANESIZE, px * m.w * m.h, "IL_IMAGE_PLANESIZE");
    Q(IL_IMAGE_SIZE_OF_DATA, px * m.w * m.h * m.d, "IL_IMAGE_SIZE_OF_DATA");
    ILubyte *d = ilGetData();
    CHECK(d && !memcmp(d, m.data.data(), m.data.size()), "data", "%s: ilGetData does not give the pixels of %s", when.c_str(), m.str().c_str());
    ILinfo f;
    memset(&f, 0xa5, sizeof f);
    iluGetImageInfo(&f);
    CHECK(f.Width == (ILuint)m.w && f.Height == (ILuint)m.h && f.Depth == (ILuint)m.d && f.Bpp == m.nc() && f.SizeOfData == m.data.size() && f.Format == m.format && f.Type == m.type && f.Origin == m.origin, "info", "%s: iluGetImageInfo says %ux%ux%u Bpp %u size %u format %x type %x origin %x for %s",
          when.c_str(), f.Width, f.Height, f.Depth, f.Bpp, f.SizeOfData, f.Format, f.Type, f.Origin, m.str().c_str());
    CHECK(f.Data == d && f.Id == (ILuint)ilGetInteger(IL_CUR_IMAGE), "info-id", "%s: iluGetImageInfo gives other data or another name", when.c_str());
    CHECK(f.Palette == ilGetPalette() && f.PalType == (ILenum)I(IL_PALETTE_TYPE), "info-pal", "%s: iluGetImageInfo gives another palette", when.c_str());
    CHECK(f.NumNext == (ILuint)I(IL_NUM_IMAGES) && f.NumMips == (ILuint)I(IL_NUM_MIPMAPS) && f.NumLayers == (ILuint)I(IL_NUM_LAYERS) && f.CubeFlags == (ILenum)I(IL_IMAGE_CUBEFLAGS), "info-chain", "%s: iluGetImageInfo says %u next, %u mipmaps, %u layers, cube %x; the queries %d, %d, %d, %x", when.c_str(), f.NumNext,
          f.NumMips, f.NumLayers, f.CubeFlags, I(IL_NUM_IMAGES), I(IL_NUM_MIPMAPS), I(IL_NUM_LAYERS), I(IL_IMAGE_CUBEFLAGS));
    if (m.paltype != IL_PAL_NONE) {
        int pb = m.paltype == IL_PAL_RGB24 || m.paltype == IL_PAL_BGR24 ? 3 : 4;
        Q(IL_PALETTE_TYPE, m.paltype, "IL_PALETTE_TYPE");
        Q(IL_PALETTE_BPP, pb, "IL_PALETTE_BPP");
        Q(IL_PALETTE_NUM_COLS, m.pal.size() / pb, "IL_PALETTE_NUM_COLS");
        Q(IL_PALETTE_SIZE, m.pal.size(), "IL_PALETTE_SIZE");
        Q(IL_PALETTE_BASE_TYPE, m.paltype == IL_PAL_RGB24 ? IL_RGB : m.paltype == IL_PAL_BGR24 ? IL_BGR : m.paltype == IL_PAL_RGB32 || m.paltype == IL_PAL_RGBA32 ? IL_RGBA : IL_BGRA, "IL_PALETTE_BASE_TYPE");
        CHECK(f.PalSize == m.pal.size() && f.Palette && !memcmp(f.Palette, m.pal.data(), m.pal.size()), "palette", "%s: the palette is not that of %s", when.c_str(), m.str().c_str());
    } else {
        Q(IL_PALETTE_NUM_COLS, 0, "IL_PALETTE_NUM_COLS");
        Q(IL_PALETTE_SIZE, 0, "IL_PALETTE_SIZE");
        Q(IL_PALETTE_TYPE, IL_PAL_NONE, "IL_PALETTE_TYPE");
    }
    ILuint n = iluColoursUsed();
    CHECK(n == distinct(m), "colours", "%s: iluColoursUsed says %u, %s has %zu colours", when.c_str(), n, m.str().c_str(), distinct(m));
}
static void put(Src &s, const Img &m) {
    Bytes d = m.data;
    ilTexImage(m.w, m.h, m.d, (ILubyte)m.nc(), m.format, m.type, d.data());
    ilRegisterOrigin(m.origin);
    if (m.paltype != IL_PAL_NONE) { Bytes p = m.pal; ilRegisterPal(p.data(), (ILuint)p.size(), m.paltype); }
}
// m, different in one respect (or not at all); what: in which
static Img other(Src &s, const Img &m, std::string &what) {
    Img o = m;
    for (;;) {
        switch (s.range(0, 11)) {
        case 0: what = "nothing"; return o;
        case 10: case 11: { // larger, beginning with the same bytes
            int q = s.range(0, 2);
            (q == 0 ? o.w : q == 1 ? o.h : o.d)++;
            size_t n = (size_t)o.w * o.h * o.d * o.nc() * tsize(o.type);
            while (o.data.size() < n) o.data.push_back(o.data[o.data.size() % m.data.size()]);
            what = q == 0 ? "width" : q == 1 ? "height" : "depth";
            return o;
        }
        case 1: case 2: { // any one byte, often the last or first
            size_t i = s.chance(1, 3) ? o.data.size() - 1 : s.chance(1, 3) ? 0 : s.draw(o.data.size());
            o.data[i] ^= 1 << s.draw(8);
            what = fmt("byte %zu of %zu", i, o.data.size());
            return o;
        }
        case 3:
            if (o.pal.empty()) break;
            { size_t i = s.flip() ? o.pal.size() - 1 : s.draw(o.pal.size()); o.pal[i] ^= 1 << s.draw(8); what = fmt("palette byte %zu", i); }
            return o;
        case 4: o.origin = o.origin == IL_ORIGIN_UPPER_LEFT ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT; what = "origin"; return o;
        case 5: {
            ILenum f = m.format == IL_RGB ? IL_BGR : m.format == IL_BGR ? IL_RGB : m.format == IL_RGBA ? IL_BGRA : m.format == IL_BGRA ? IL_RGBA : m.format == IL_LUMINANCE ? IL_ALPHA : m.format == IL_ALPHA ? IL_LUMINANCE : 0;
            if (!f) break;
            o.format = f;
            what = "format";
            return o;
        }
        case 6: {
            ILenum t = m.type == IL_BYTE ? IL_UNSIGNED_BYTE : m.type == IL_UNSIGNED_BYTE ? IL_BYTE : m.type == IL_SHORT ? IL_UNSIGNED_SHORT : m.type == IL_UNSIGNED_SHORT ? IL_SHORT : m.type == IL_INT ? IL_UNSIGNED_INT : m.type == IL_UNSIGNED_INT ? IL_INT : 0;
            if (!t || m.format == IL_COLOUR_INDEX) break;
            o.type = t;
            what = "type";
            return o;
        }
        case 7: if (m.w == m.h) break; std::swap(o.w, o.h); what = "width and height"; return o;
        case 8: if (m.d == m.h) break; std::swap(o.d, o.h); what = "height and depth"; return o;
        case 9:
            if (o.pal.empty()) break;
            if (s.flip() && (o.paltype == IL_PAL_RGB24 || o.paltype == IL_PAL_BGR24)) { o.paltype = o.paltype == IL_PAL_RGB24 ? IL_PAL_BGR24 : IL_PAL_RGB24; what = "palette type"; return o; }
            { int pb = o.paltype == IL_PAL_RGB24 || o.paltype == IL_PAL_BGR24 ? 3 : 4;
              Bytes e(pb, 7); // one more entry
              if (o.pal.size() / pb >= 256) break;
              o.pal.insert(o.pal.end(), e.begin(), e.end());
              what = "palette size"; }
            return o;
        }
    }
}
// The IL_NUM_* queries are the numbers of sub images that can be selected, from the main picture and from a sub image.
static void counts(Src &s, ILuint id, const char *what) {
    struct K { const char *n; ILenum num; ILboolean(ILAPIENTRY *sel)(ILuint); };
    static const K ks[] = {{"images", IL_NUM_IMAGES, ilActiveImage}, {"mipmaps", IL_NUM_MIPMAPS, ilActiveMipmap}, {"layers", IL_NUM_LAYERS, ilActiveLayer}, {"faces", IL_NUM_FACES, ilActiveFace}};
    std::string way = what;
    ilBindImage(id);
    for (int step = 0; step < 3; step++) {
        for (const K &k : ks) {
            int n = ilGetInteger(k.num);
            CHECK(n >= 0 && n < 100000, "counts", "%s: %d %s", way.c_str(), n, k.n);
            CHECK(!k.sel(n + 1), "counts", "%s has %d %s, number %d can be selected", way.c_str(), n, k.n, n + 1);
        }
        // go one or more steps along one kind that is there
        std::vector<int> can;
        for (int i = 0; i < 4; i++) if (ilGetInteger(ks[i].num) > 0) can.push_back(i);
        if (can.empty()) break;
        const K &k = ks[can[s.draw(can.size())]];
        int n = ilGetInteger(k.num), go = s.flip() ? n : s.range(1, n);
        CHECK(k.sel(go), "counts", "%s has %d %s, number %d cannot be selected", way.c_str(), n, k.n, go);
        CHECK(ilGetInteger(k.num) == n - go, "counts", "%s has %d %s, %d of them behind number %d", way.c_str(), n, k.n, ilGetInteger(k.num), go);
        way += fmt(", %s %d", k.n, go);
    }
    drain_errors();
    ilBindImage(id);
}

void one_case(Src &s, Ctx &c) {
    il_fresh();
    Bytes lump;
    std::string how;
    if (s.chance(1, 4)) lump = gen_input(s, (int)s.draw(ltypes().size()), how); // may itself use the library
    il_fresh();
    if (s.chance(1, 8)) { // a file with sub images of all kinds
        bool dds = s.flip();
        GFile g = dds ? fg::dds(s, s.size(20) + 1, s.size(20) + 1) : fg::gif(s, s.size(20) + 1, s.size(20) + 1);
        ILuint f = ilGenImage();
        ilBindImage(f);
        if (ilLoadL(g.type, g.b.data(), (ILuint)g.b.size())) {
            c.note(g.faces.size() ? "cube map" : "animation or texture");
            if (!dds) CHECK(ilGetInteger(IL_NUM_IMAGES) == g.images - 1, "counts", "a file with %d pictures has %d further images", g.images, ilGetInteger(IL_NUM_IMAGES));
            if (dds) CHECK(ilGetInteger(IL_NUM_FACES) == (int)g.faces.size(), "counts", "a texture with %zu further faces has %d", g.faces.size(), ilGetInteger(IL_NUM_FACES));
            counts(s, f, g.variant.c_str());
        }
        ilDeleteImages(1, &f);
        drain_errors();
    }
    Img m = pict(s, 20);
    std::string what;
    Img o = other(s, m, what);
    ILuint a, b, x = ilGenImage();
    // extra images around, so that names do not coincide with positions
    for (int i = s.range(0, 3); i > 0; i--) ilGenImage();
    a = ilGenImage();
    b = ilGenImage();
    ilBindImage(a);
    put(s, m);
    bool chain = s.chance(1, 3), second = false;
    Img sub = pict(s, 6);
    int mips = 0, nexts = 0, layers = 0;
    if (chain) {
        c.note("chain");
        nexts = s.range(0, 3);
        mips = s.range(0, 2);
        if (nexts) ilCreateSubImage(IL_SUB_NEXT, nexts);
        if (mips) ilCreateSubImage(IL_SUB_MIPMAP, mips);
        layers = s.range(0, 3);
        if (layers) ilCreateSubImage(IL_SUB_LAYER, layers);
        if (nexts && s.flip()) {
            ilActiveImage(1);
            second = true;
            Bytes d = sub.data;
            ilTexImageSurface(sub.w, sub.h, sub.d, (ILubyte)sub.nc(), sub.format, sub.type, d.data());
            ilRegisterOrigin(sub.origin);
            if (sub.paltype != IL_PAL_NONE) { Bytes p = sub.pal; ilRegisterPal(p.data(), (ILuint)p.size(), sub.paltype); }
        }
    }
    ilSetDuration(s.range(0, 999));
    ilBindImage(b);
    put(s, o);
    drain_errors();
    c.say(m.str() + ", other: " + what + (chain ? fmt(", %d next, %d mipmaps, %d layers", nexts, mips, layers) : "") + (second ? ", second: " + sub.str() : ""));
    ilBindImage(a);
    std::vector<Part> da = dump_chain(a, "before"), db = dump_chain(b, "before");
    ilBindImage(a);
    auto same = [&](const char *w) {
        ILuint cur = ilGetInteger(IL_CUR_IMAGE), act = ilGetInteger(IL_ACTIVE_IMAGE), am = ilGetInteger(IL_ACTIVE_MIPMAP);
        CHECK(cur == a || cur == b, "bound", "%s bound image %u", w, cur);
        std::vector<Part> na = dump_chain(a, w), nb = dump_chain(b, w);
        CHECK(chain_diff(da, na).empty(), "changed", "%s changed the image: %s", w, chain_diff(da, na).c_str());
        CHECK(chain_diff(db, nb).empty(), "changed-other", "%s changed the other image: %s", w, chain_diff(db, nb).c_str());
        ilBindImage(cur);
        if (act) ilActiveImage(act);
        if (am) ilActiveMipmap(am);
    };
    ask(m, "the image");
    if (chain) {
        CHECK(ilGetInteger(IL_NUM_IMAGES) == nexts && ilGetInteger(IL_NUM_MIPMAPS) == mips && ilGetInteger(IL_NUM_LAYERS) == layers && ilGetInteger(IL_NUM_FACES) == 0, "counts",
              "%d next, %d mipmaps, %d layers and %d faces, made were %d, %d, %d and none", ilGetInteger(IL_NUM_IMAGES), ilGetInteger(IL_NUM_MIPMAPS), ilGetInteger(IL_NUM_LAYERS), ilGetInteger(IL_NUM_FACES), nexts, mips, layers);
        counts(s, a, "an image with sub images");
    }
    // comparison, both ways and with itself
    bool want = what == "nothing";
    if (!want) c.note("differs");
    bool r = iluCompareImage(b);
    CHECK(r == want, "compare", "iluCompareImage says %s for %s and the same with another %s", r ? "equal" : "different", m.str().c_str(), what.c_str());
    CHECK((ILuint)ilGetInteger(IL_CUR_IMAGE) == a, "compare-bound", "iluCompareImage bound image %d", ilGetInteger(IL_CUR_IMAGE));
    CHECK(iluCompareImage(a), "compare-self", "iluCompareImage says that %s differs from itself", m.str().c_str());
    ilBindImage(b);
    r = iluCompareImage(a);
    CHECK(r == want, "compare", "iluCompareImage says %s for %s and the same with another %s (other way round)", r ? "equal" : "different", m.str().c_str(), what.c_str());
    ask(o, "the other image");
    same("a query");
    ilBindImage(a);
    if (second) {
        ilActiveImage(1);
        ask(sub, "the second picture");
        CHECK(ilGetInteger(IL_ACTIVE_IMAGE) == 1 && (ILuint)ilGetInteger(IL_CUR_IMAGE) == a, "selection", "queries moved the selection to image %d of %d", ilGetInteger(IL_ACTIVE_IMAGE), ilGetInteger(IL_CUR_IMAGE));
        // the second picture against the first of the other image
        bool eq = sub.str() == o.str() && sub.data == o.data && sub.pal == o.pal && sub.origin == o.origin;
        CHECK((bool)iluCompareImage(b) == eq, "compare-sub", "iluCompareImage of the second picture %s with %s", sub.str().c_str(), o.str().c_str());
        CHECK(ilGetInteger(IL_ACTIVE_IMAGE) == 1 && (ILuint)ilGetInteger(IL_CUR_IMAGE) == a, "selection", "iluCompareImage moved the selection to image %d of %d", ilGetInteger(IL_ACTIVE_IMAGE), ilGetInteger(IL_CUR_IMAGE));
        same("a query of the second picture");
    }
    // queries that have nothing to do with the image
    int act = ilGetInteger(IL_ACTIVE_IMAGE);
    CHECK(ilIsImage(a) && ilIsImage(b) && ilIsImage(x) && !ilIsImage(0x7fffff00), "isimage", "ilIsImage is wrong");
    for (int i = s.range(1, 4); i > 0; i--) {
        std::string nm;
        switch (s.range(0, 9)) {
        case 0: nm = "ilGetAlpha"; { ILubyte *p = ilGetAlpha(TS[s.draw(8)]); if (p) mem::dealloc(p); } break;
        case 1: nm = "ilCopyPixels"; { Bytes d((size_t)m.w * m.h * m.d * 32); ilCopyPixels(0, 0, 0, m.w, m.h, m.d, FS[s.draw(7)], TS[s.draw(8)], d.data()); } break;
        case 2: nm = "ilGetDXTCData"; { ILenum f = s.pick({IL_DXT1, IL_DXT3, IL_DXT5, IL_3DC, IL_ATI1N, IL_RXGB}); ILuint n = ilGetDXTCData(nullptr, 0, f); Bytes d(n); ilGetDXTCData(d.data(), n, f); } break;
        case 3: nm = "ilDetermineTypeL"; { Bytes d = lump; ilDetermineTypeL(d.data(), (ILuint)d.size()); for (int k = 0; k < 5; k++) ilIsValidL(ltypes()[s.draw(ltypes().size())].type, d.data(), (ILuint)d.size()); } break;
        case 4: nm = "iluErrorString"; iluErrorString(s.range(0x500, 0x600)); break;
        case 5: nm = "ilGetString"; ilGetString(IL_LOAD_EXT); ilGetString(IL_SAVE_EXT); ilGetString(IL_VENDOR); iluGetString(ILU_VENDOR); break;
        case 6: nm = "ilSaveL(NULL)"; { const SaveKind sk = s.pick(save_kinds()); ilSaveL(sk.type, nullptr, 0); } break;
        case 7: nm = "ilTypeFromExt"; ilTypeFromExt("picture.png"); ilDetermineType((g_scratch + "/missing").c_str()); break;
        case 8: nm = "ilGetPalette"; ilGetPalette(); ilGetLumpPos(); break;
        case 9: nm = "ilSaveL"; { const SaveKind sk = s.pick(save_kinds()); Bytes d(50000); ilSaveL(sk.type, d.data(), (ILuint)d.size()); } break;
        }
        drain_errors();
        CHECK(ilGetInteger(IL_ACTIVE_IMAGE) == act && (ILuint)ilGetInteger(IL_CUR_IMAGE) == a, "selection " + nm, "%s moved the selection to image %d of %d", nm.c_str(), ilGetInteger(IL_ACTIVE_IMAGE), ilGetInteger(IL_CUR_IMAGE));
        same(nm.c_str());
        c.note(nm.c_str());
    }
    c.nontriv = m.w * m.h > 1 && !want;
}
