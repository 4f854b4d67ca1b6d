// C20: DXT blocks are decoded by their definition, and what the encoder writes is nearest, bounded and of the right size.
#include "ilh.h"
#include "dxth.h"

Spec spec() {
    Spec s;
    s.id = "C20";
    s.rule = "the surface has more than one block or one cut off by the edge, and its blocks are not all alike";
    s.quick_cases = 375000;
    s.thorough_cases = 3750000;
    s.batch = 64;
    s.cpu_limit = 10;
    s.assumptions = {"decoded channels may be rounded to either side after the end points are widened to eight bits", "the 8-bit colours of an image are those ilConvertImage gives (C07)",
                     "a block may pick its end points freely as long as two colours stay exact and errors stay within the colours of the block"};
    s.min_frac = {{"decode", 0.1}, {"encode", 0.25}, {"chain", 0.08}, {"edge", 0.3}, {"two colours", 0.1}, {"transparent", 0.02}, {"several slices", 0.05}, {"flip", 0.04}, {"invert", 0.02}};
    return s;
}
static Bytes random_blocks(Src &s, int kind, int w, int h, int d) {
    uint64_t sd = s.seed32();
    Bytes b;
    size_t n = dsize(kind == 1 ? IL_DXT1 : IL_DXT5, w, h, d) / (kind == 1 ? 8 : 16);
    for (size_t i = 0; i < n; i++) { Bytes x = dxt_gen(s, kind, sd); b.insert(b.end(), x.begin(), x.end()); }
    return b;
}
static void decode(Src &s, Ctx &c, int w, int h, int d) {
    int kind = s.pick({1, 3, 5});
    ILenum f = kind == 1 ? IL_DXT1 : kind == 3 ? IL_DXT3 : IL_DXT5;
    Bytes b = random_blocks(s, kind, w, h, d);
    std::string what = fmt("%s data of a %dx%dx%d surface", dname(f), w, h, d);
    c.say(what);
    c.note("decode");
    ILuint id = s.flip() ? new_image(source(s, s.size(6), s.size(6), 1)) : ilGenImage();
    ilBindImage(id);
    drain_errors();
    CHECK(ilTexImageDxtc(w, h, d, f, &b[0]), "tex", "%s: ilTexImageDxtc refuses, error %04x", what.c_str(), ilGetError());
    CHECK(ilGetInteger(IL_IMAGE_WIDTH) == w && ilGetInteger(IL_IMAGE_HEIGHT) == h && ilGetInteger(IL_IMAGE_DEPTH) == d && (ILenum)ilGetInteger(IL_DXTC_DATA_FORMAT) == f, "tex", "%s: became %s with data %04x", what.c_str(), get_image().str().c_str(), ilGetInteger(IL_DXTC_DATA_FORMAT));
    CHECK(dxtc(f) == b, "tex-data", "%s: the image keeps other data", what.c_str());
    int act = s.range(0, 3);
    if (act == 1) {
        c.note("flip");
        ilFlipSurfaceDxtcData();
        Bytes b2 = dxtc(f);
        if (h % 4 == 0) { // an exact flip
            auto v = reference(kind, b, w, h, d), v2 = reference(kind, b2, w, h, d);
            for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
                auto &p = v[((size_t)z * h + y) * w + x], &q = v2[((size_t)z * h + h - 1 - y) * w + x];
                CHECK(p == q, "flip", "%s: flipped, pixel (%d,%d,%d) differs", what.c_str(), x, y, z);
            }
        }
        if (s.flip()) { // twice is nothing
            ilFlipSurfaceDxtcData();
            CHECK(dxtc(f) == b, "flip-twice", "%s: flipped twice", what.c_str());
        } else b = b2;
    } else if (act == 2) {
        c.note("invert");
        ILboolean ok = ilInvertSurfaceDxtcDataAlpha();
        if (kind == 1) {
            CHECK(!ok && ilGetError() != IL_NO_ERROR, "invert-dxt1", "%s: alpha inverted", what.c_str());
            CHECK(dxtc(f) == b, "invert-dxt1", "%s: changed", what.c_str());
        } else {
            CHECK(ok, "invert", "%s: ilInvertSurfaceDxtcDataAlpha fails", what.c_str());
            Bytes b2 = dxtc(f);
            auto v = reference(kind, b, w, h, d), v2 = reference(kind, b2, w, h, d);
            for (size_t i = 0; i < v.size(); i++) {
                for (int k = 0; k < 3; k++) CHECK(v[i][k] == v2[i][k], "invert-colour", "%s: alpha inverted, colour of pixel %zu differs", what.c_str(), i);
                CHECK(fabs(v[i][3] + v2[i][3] - 1) <= 1e-9, "invert-alpha", "%s: alpha %.4f of pixel %zu inverted to %.4f", what.c_str(), v[i][3], i, v2[i][3]);
            }
            b = b2;
        }
    } else if (act == 3 && s.flip()) {
        what += ", padded pixels ignored";
        // bits of pixels beyond the edge do not matter
        int bw = (w + 3) / 4, bh = (h + 3) / 4, bs = bsize(f);
        for (int z = 0; z < d; z++) for (int y = 0; y < bh * 4; y++) for (int x = 0; x < bw * 4; x++)
            if (x >= w || y >= h) b[(((size_t)z * bh + y / 4) * bw + x / 4) * bs + (kind == 1 ? 4 : 12) + y % 4] ^= 2 << (2 * (x % 4));
        CHECK(ilTexImageDxtc(w, h, d, f, &b[0]), "tex", "%s: second time", what.c_str());
    }
    drain_errors();
    ILboolean ok = s.flip() ? ilDxtcDataToSurface() : ilDxtcDataToImage();
    CHECK(ok, "decode-fails", "%s: not decoded, error %04x", what.c_str(), ilGetError());
    Img im = get_image(what.c_str());
    CHECK(im.w == w && im.h == h && im.d == d && im.format == IL_RGBA && im.type == IL_UNSIGNED_BYTE && im.origin == IL_ORIGIN_UPPER_LEFT, "decode-kind", "%s: became %s", what.c_str(), im.str().c_str());
    same_as_reference(kind, b, im, what, kind == 1 ? "decode-dxt1" : kind == 3 ? "decode-dxt3" : "decode-dxt5");
    CHECK(dxtc(f) == b, "decode-keeps", "%s: decoding changed the data", what.c_str());
    c.nontriv = b.size() > (size_t)bsize(f) || w % 4 || h % 4;
}
static void encode(Src &s, Ctx &c, int w, int h, int d) {
    ILenum f = EF[s.draw(7)];
    Img m = source(s, w, h, d);
    std::string what = fmt("%s of %s", dname(f), m.str().c_str());
    c.note("encode");
    for (size_t i = m.px(); i < m.data.size() && !c.nontriv; i++) c.nontriv = m.data[i] != m.data[i - m.px()];
    c.nontriv = c.nontriv && (w > 4 || h > 4 || d > 1 || w % 4 || h % 4);
    Want want = wanted(m);
    ILuint id = new_image(m);
    drain_errors();
    int how = s.range(0, 4);
    if (how == 2 && (f == IL_3DC || f == IL_ATI1N || f == IL_RXGB)) how = 0;
    if (want.nolum && f == IL_ATI1N) how = 0;
    if (how == 2) { // from memory
        what += " by ilCompressDXT";
        c.say(what);
        ILuint n = 12345;
        Bytes in = want.rgba.data;
        if (w * h * d == 0) return;
        ILubyte *p = ilCompressDXT(&in[0], w, h, d, f, &n);
        CHECK(p, "compress", "%s: nothing, error %04x", what.c_str(), ilGetError());
        CHECK(n == dsize(f, w, h, d), "size", "%s: %u bytes", what.c_str(), n);
        Bytes b(p, p + n);
        mem::dealloc(p);
        CHECK(in == want.rgba.data, "compress-input", "%s: changes its input", what.c_str());
        want.loose = false;
        verify(f, b, want, what, c);
        CHECK(ilGetInteger(IL_CUR_IMAGE) == (ILint)id && same_img(get_image(), m), "compress-image", "%s: another image is bound or the bound one changed", what.c_str());
        return;
    }
    if (how == 3 || how == 4) { // kept with the image
        what += how == 3 ? " by ilSurfaceToDxtcData" : " by ilImageToDxtcData";
        c.say(what);
        if (s.chance(1, 3)) { ILenum g = EF[s.draw(7)]; if (!(want.nolum && g == IL_ATI1N)) CHECK(ilSurfaceToDxtcData(g), "surface", "%s: first to %s, fails", what.c_str(), dname(g)); }
        CHECK(how == 3 ? ilSurfaceToDxtcData(f) : ilImageToDxtcData(f), "surface", "%s: fails, error %04x", what.c_str(), ilGetError());
        CHECK((ILenum)ilGetInteger(IL_DXTC_DATA_FORMAT) == f, "surface", "%s: IL_DXTC_DATA_FORMAT is %04x", what.c_str(), ilGetInteger(IL_DXTC_DATA_FORMAT));
        Bytes b = dxtc(f);
        verify(f, b, want, what, c);
        CHECK(same_img(get_image(), m), "image", "%s: the image changed", what.c_str());
        if (f == IL_DXT1 || f == IL_DXT3 || f == IL_DXT5) {
            c.note("decode");
            CHECK(ilDxtcDataToSurface(), "decode-fails", "%s: not decoded again, error %04x", what.c_str(), ilGetError());
            Img im = get_image();
            CHECK(im.format == IL_RGBA && im.type == IL_UNSIGNED_BYTE && im.origin == IL_ORIGIN_UPPER_LEFT && im.paltype == IL_PAL_NONE && im.w == w && im.h == h && im.d == d, "decode-kind", "%s: decoded to %s", what.c_str(), im.str().c_str());
            same_as_reference(f == IL_DXT1 ? 1 : f == IL_DXT3 ? 3 : 5, b, im, what, "decode-own");
        }
        return;
    }
    c.say(what);
    if (f == IL_ATI1N && want.nolum) { // the picture has no luminance
        Bytes b(ilGetDXTCData(NULL, 0, f));
        CHECK(!ilGetDXTCData(&b[0], b.size(), f) && ilGetError() != IL_NO_ERROR, "no-luminance", "%s: written", what.c_str());
        return;
    }
    ILuint n = ilGetDXTCData(NULL, 0, f);
    CHECK(n == dsize(f, w, h, d), "size", "%s: %u bytes", what.c_str(), n);
    ILuint room = how == 1 ? n + s.range(0, 40) : n;
    Bytes b(room, 0xA5);
    ILuint k = ilGetDXTCData(&b[0], room, f);
    CHECK(k == n, "write", "%s: %u bytes written of %u", what.c_str(), k, n);
    for (size_t i = n; i < b.size(); i++) CHECK(b[i] == 0xA5, "beyond", "%s: byte %zu beyond the data is written", what.c_str(), i - n);
    b.resize(n);
    CHECK(ilGetError() == IL_NO_ERROR, "error", "%s: leaves an error", what.c_str());
    verify(f, b, want, what, c);
    CHECK(same_img(get_image(), m), "image", "%s: the image changed", what.c_str());
    if (s.flip()) CHECK(dxtc(f) == b, "twice", "%s: differs the second time", what.c_str());
    if (s.chance(1, 3)) { // the same picture upside down in memory
        Img u = flipped(m);
        u.origin = m.origin == IL_ORIGIN_UPPER_LEFT ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT;
        ilDeleteImage(id);
        id = new_image(u);
        CHECK(dxtc(f) == b, "origin", "%s: the same picture with the other origin gives other data", what.c_str());
    }
}
static void chain(Src &s, Ctx &c) {
    ILenum f = EF[s.draw(4)];
    int frames = s.range(0, 2), mips = s.range(0, 2);
    if (s.flip()) { if (s.flip()) frames = 0; else mips = 0; }
    c.note("chain");
    std::vector<Img> src;
    ILuint id = ilGenImage();
    ilBindImage(id);
    auto pic = [&]() { return source(s, s.size(9), s.size(9), s.chance(1, 6) ? 2 : 1); };
    put_image(pic());
    if (frames) CHECK(ilCreateSubImage(IL_SUB_NEXT, frames) == (ILuint)frames, "setup", "frames");
    for (int i = 0; i <= frames; i++) {
        ilBindImage(id);
        ilActiveImage(i);
        Img m = pic();
        put_image(m, true);
        src.push_back(m);
        int k = i == 0 || s.flip() ? mips : 0;
        if (k) CHECK(ilCreateSubImage(IL_SUB_MIPMAP, k) == (ILuint)k, "setup", "mipmaps");
        for (int j = 1; j <= k; j++) {
            ilBindImage(id);
            ilActiveImage(i);
            ilActiveMipmap(j);
            Img q = pic();
            put_image(q, true);
            src.push_back(q);
        }
    }
    std::vector<Part> before = dump_chain(id);
    CHECK(before.size() == src.size(), "setup", "%zu parts, made %zu", before.size(), src.size());
    std::string what = fmt("%s of %zu images in %d frames", dname(f), src.size(), frames + 1);
    c.say(what);
    c.nontriv = src.size() > 1;
    ilBindImage(id);
    int sel = s.range(0, frames);
    if (s.flip()) ilActiveImage(sel); else sel = 0;
    drain_errors();
    CHECK(ilImageToDxtcData(f), "chain", "%s: ilImageToDxtcData fails, error %04x", what.c_str(), ilGetError());
    CHECK(ilGetInteger(IL_CUR_IMAGE) == (ILint)id && ilGetInteger(IL_ACTIVE_IMAGE) == sel, "selection", "%s: image %d frame %d selected, was %u frame %d", what.c_str(), ilGetInteger(IL_CUR_IMAGE), ilGetInteger(IL_ACTIVE_IMAGE), id, sel);
    std::vector<Bytes> data;
    std::string diff = chain_diff(before, dump_chain(id));
    CHECK(diff.empty(), "chain-image", "%s: the images changed: %s", what.c_str(), diff.c_str());
    auto each = [&](const std::function<void(size_t)> &fn) {
        size_t k = 0;
        for (int i = 0; i <= frames; i++) {
            ilBindImage(id);
            ilActiveImage(i);
            int n = ilGetInteger(IL_NUM_MIPMAPS);
            for (int j = 0; j <= n; j++) {
                ilBindImage(id);
                ilActiveImage(i);
                ilActiveMipmap(j);
                fn(k++);
            }
        }
    };
    each([&](size_t k) {
        CHECK((ILenum)ilGetInteger(IL_DXTC_DATA_FORMAT) == f, "chain", "%s: image %zu has data of format %04x", what.c_str(), k, ilGetInteger(IL_DXTC_DATA_FORMAT));
        data.push_back(dxtc(f));
    });
    for (size_t k = 0; k < src.size(); k++) verify(f, data[k], wanted(src[k]), what + fmt(", image %zu %s", k, src[k].str().c_str()), c);
    ilBindImage(id);
    if (f == IL_DXT1A) { CHECK(!ilDxtcDataToImage(), "chain-dxt1a", "%s: decoded", what.c_str()); return; } // not a format that is decoded
    CHECK(ilDxtcDataToImage(), "chain-decode", "%s: ilDxtcDataToImage fails, error %04x", what.c_str(), ilGetError());
    each([&](size_t k) {
        Img im = get_image();
        CHECK(im.w == src[k].w && im.h == src[k].h && im.d == src[k].d && im.format == IL_RGBA && im.type == IL_UNSIGNED_BYTE && im.origin == IL_ORIGIN_UPPER_LEFT, "chain-kind", "%s: image %zu %s decoded to %s", what.c_str(), k, src[k].str().c_str(), im.str().c_str());
        same_as_reference(f == IL_DXT1 ? 1 : f == IL_DXT3 ? 3 : 5, data[k], im, what + fmt(", image %zu", k), "chain-data");
    });
}
static void refuse(Src &s, Ctx &c, int w, int h) {
    c.note("refused");
    int how = s.range(0, 4);
    ILuint id = new_image(source(s, w, h, 1));
    std::vector<Part> before = dump_chain(id);
    drain_errors();
    Bytes b(4096, 7);
    ILuint n = 0;
    static const ILenum BAD[] = {IL_DXT2, IL_DXT4, 0, IL_DXT_NO_COMP, IL_RGB, 0xFFFFFFFFu};
    ILenum bad = BAD[s.draw(6)];
    switch (how) {
    case 0: c.say(fmt("ilGetDXTCData of format %04x", bad)); CHECK(!ilGetDXTCData(NULL, 0, bad) && ilGetError() && !ilGetDXTCData(&b[0], 4096, bad) && ilGetError(), "refuse", "format %04x written", bad); break;
    case 1: c.say(fmt("ilSurfaceToDxtcData to %04x", bad)); CHECK(!ilSurfaceToDxtcData(bad) && ilGetError() && !ilImageToDxtcData(bad) && ilGetError(), "refuse", "format %04x written", bad); break;
    case 2: {
        int p = s.range(0, 4);
        c.say(fmt("ilCompressDXT, bad parameter %d", p));
        CHECK(!ilCompressDXT(p == 0 ? NULL : &b[0], p == 1 ? 0 : 4, p == 2 ? 0 : 4, p == 3 ? 0 : 1, p == 4 ? bad : IL_DXT1, &n) && ilGetError(), "refuse", "bad parameter %d accepted", p);
        break;
    }
    case 3: {
        int p = s.range(0, 3);
        if (bad == IL_DXT2 || bad == IL_DXT4) bad = 0;
        c.say(fmt("ilTexImageDxtc, bad parameter %d", p));
        CHECK(!ilTexImageDxtc(p == 0 ? s.range(-1, 0) : 4, p == 1 ? s.range(-1, 0) : 4, p == 2 ? 0 : 1, p == 3 ? bad : IL_DXT1, &b[0]) && ilGetError(), "refuse", "bad parameter %d accepted", p);
        break;
    }
    case 4:
        c.say("decoding without data");
        CHECK(!ilDxtcDataToSurface() && ilGetError(), "refuse", "decoded without data");
        CHECK(!ilInvertSurfaceDxtcDataAlpha() && ilGetError(), "refuse", "inverted without data");
        ilFlipSurfaceDxtcData();
        CHECK(ilGetError() != IL_NO_ERROR, "refuse", "flipped without data");
        break;
    }
    std::string diff = chain_diff(before, dump_chain(id));
    CHECK(diff.empty(), "refuse-changes", "refused, but the image changed: %s", diff.c_str());
}
void one_case(Src &s, Ctx &c) {
    il_fresh();
    int m = g_thorough ? 33 : 17, w = s.size(m), h = s.size(m), d = s.chance(1, 6) ? s.range(2, 4) : 1;
    if (w % 4 || h % 4) c.note("edge");
    if (d > 1) c.note("several slices");
    int mode = s.range(0, 15);
    if (mode < 5) decode(s, c, w, h, d);
    else if (mode < 12) encode(s, c, w, h, d);
    else if (mode < 15) chain(s, c);
    else refuse(s, c, w, h);
}
