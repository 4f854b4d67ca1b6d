// C02: pictures saved as JPEG, HDR and DXT compressed DDS come back with the same size, the right way up, within the error of the coding.
#include "dxth.h"
#include <csetjmp>
#include <cstdio>
extern "C" {
#include <jpeglib.h>
}

Spec spec() {
    Spec s;
    s.id = "C02";
    s.rule = "the picture has at least two different pixels and was saved and loaded";
    s.quick_cases = 180000;
    s.thorough_cases = 1800000;
    s.batch = 64;
    s.cpu_limit = 20;
    s.assumptions = {"the reference for JPEG is libjpeg's own encoder with its default chroma sampling at the same quality: the picture may not be further off than that in any 16x16 block, up to rounding",
                     "HDR holds colours from 1e-32 to 2^127; what lies below becomes 0 (negative values included), what lies above is not judged",
                     "a cube map is six images in the chain with the flags of six different faces; mipmaps have half the size of the level before"};
    s.min_frac = {{"jpg", 0.25}, {"hdr", 0.2}, {"dds", 0.3}, {"cube", 0.02}, {"no cube", 0.005}, {"mipmaps", 0.05}, {"volume", 0.02}, {"kept data", 0.05}, {"progressive", 0.05}, {"negative", 0.02}, {"file", 0.1}};
    return s;
}

struct JErr { jpeg_error_mgr m; jmp_buf j; };
static void jfail(j_common_ptr p) { longjmp(((JErr *)p->err)->j, 1); }
static void jquiet(j_common_ptr, int) {}
static Bytes ref_jpeg(const Img &im, int quality, bool prog) { // im: upright RGB or LUMINANCE bytes
    jpeg_compress_struct c;
    JErr e;
    c.err = jpeg_std_error(&e.m);
    jpeg_create_compress(&c);
    unsigned char *out = nullptr;
    unsigned long n = 0;
    jpeg_mem_dest(&c, &out, &n);
    c.image_width = im.w, c.image_height = im.h;
    c.input_components = im.px();
    c.in_color_space = im.px() == 1 ? JCS_GRAYSCALE : JCS_RGB;
    jpeg_set_defaults(&c);
    jpeg_set_quality(&c, quality, TRUE);
    if (prog) jpeg_simple_progression(&c);
    jpeg_start_compress(&c, TRUE);
    for (int y = 0; y < im.h; y++) { JSAMPROW r = (JSAMPROW)im.at(0, y, 0); jpeg_write_scanlines(&c, &r, 1); }
    jpeg_finish_compress(&c);
    jpeg_destroy_compress(&c);
    Bytes b(out, out + n);
    free(out);
    return b;
}
static bool ref_unjpeg(const Bytes &b, Img &im, bool *prog) {
    jpeg_decompress_struct c;
    JErr e;
    c.err = jpeg_std_error(&e.m);
    e.m.error_exit = jfail;
    e.m.emit_message = jquiet;
    if (setjmp(e.j)) { jpeg_destroy_decompress(&c); return false; }
    jpeg_create_decompress(&c);
    jpeg_mem_src(&c, (unsigned char *)&b[0], b.size());
    jpeg_read_header(&c, TRUE);
    *prog = c.progressive_mode;
    jpeg_start_decompress(&c);
    im.w = c.output_width, im.h = c.output_height, im.d = 1;
    im.format = c.output_components == 1 ? IL_LUMINANCE : IL_RGB;
    im.type = IL_UNSIGNED_BYTE, im.origin = IL_ORIGIN_UPPER_LEFT, im.paltype = IL_PAL_NONE;
    im.data.assign(im.size(), 0);
    while (c.output_scanline < c.output_height) { JSAMPROW r = im.at(0, c.output_scanline, 0); jpeg_read_scanlines(&c, &r, 1); }
    jpeg_finish_decompress(&c);
    jpeg_destroy_decompress(&c);
    return true;
}
static const ILenum F[] = {IL_RGB, IL_LUMINANCE, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE_ALPHA, IL_COLOUR_INDEX, IL_ALPHA};
static const ILenum T[] = {IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE};
static Img picture(Src &s, int w, int h, ILenum f, ILenum t, int d = 1) {
    if (f == IL_COLOUR_INDEX) return gen_indexed(s, w, h, d, s.range(1, 256), s.pick({IL_PAL_RGB24, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGRA32, IL_PAL_RGB32, IL_PAL_BGR32}));
    Img im = gen_img(s, w, h, d, f, t);
    if (t == IL_UNSIGNED_BYTE && s.flip()) { // a smooth picture, which is coded well: mistakes show
        uint64_t sd = s.seed32();
        for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++)
            for (int k = 0; k < im.px(); k++) {
                int a = (sd >> (3 * k)) & 7, b = (sd >> (3 * k + 12)) & 7, r = ((sd >> 24) & 15) + 1;
                im.at(x, y, z)[k] = (uint8_t)(128 + 110 * sin((x * (a - 3.5) + y * (b - 3.5)) / (8.0 * r) + k + z));
            }
    }
    return im;
}
static bool varied(const Img &m) {
    for (size_t i = m.px(); i < m.data.size(); i++) if (m.data[i] != m.data[i - m.px()]) return true;
    return false;
}
// saves the bound image, in memory or as a file; the image stays as it was
static bool save(Src &s, Ctx &c, ILuint id, ILenum type, const char *ext, const std::string &what, Bytes &b) {
    std::vector<Part> before = dump_chain(id);
    drain_errors();
    bool ok;
    if (s.chance(1, 4)) {
        c.note("file");
        std::string p = g_scratch + "/x." + ext;
        unlink(p.c_str());
        ok = s.flip() ? ilSave(type, p.c_str()) : ilSaveImage(p.c_str());
        if (ok) b = read_file(p);
    } else {
        b = save_mem(type);
        ok = !b.empty();
    }
    std::string diff = chain_diff(before, dump_chain(id));
    CHECK(diff.empty(), std::string(ext) + "-image", "%s: saving changed the image: %s", what.c_str(), diff.c_str());
    return ok;
}
static Img load(ILenum type, const Bytes &b, const char *ext, const std::string &what, int w, int h, int d, ILuint *id = nullptr) {
    ILuint n = ilGenImage();
    ilBindImage(n);
    drain_errors();
    CHECK(ilLoadL(type, &b[0], (ILuint)b.size()), std::string(ext) + "-load", "%s: not loaded again, error %04x", what.c_str(), ilGetError());
    Img g = get_image();
    CHECK(g.w == w && g.h == h && g.d == d, std::string(ext) + "-dims", "%s: loaded as %s", what.c_str(), g.str().c_str());
    if (id) *id = n;
    return g;
}

static void jpg(Src &s, Ctx &c) {
    c.note("jpg");
    ILenum f = F[s.draw(8)], t = s.chance(2, 3) ? IL_UNSIGNED_BYTE : T[s.draw(5)];
    int w = s.size(s.chance(1, 10) ? 300 : 70), h = s.size(w > 100 ? 40 : 70);
    Img m = picture(s, w, h, f, t);
    int q = s.pick({99, 99, 75, 50, 90, 95, 30, 10, 100, 1});
    bool prog = s.chance(1, 4);
    std::string what = fmt("JPEG of quality %d%s of %s", q, prog ? ", progressive," : "", m.str().c_str());
    c.say(what);
    if (prog) c.note("progressive");
    // the 8-bit picture that is coded
    Img src = m;
    if (!((m.format == IL_RGB || m.format == IL_LUMINANCE) && m.type == IL_UNSIGNED_BYTE)) {
        ILuint a = new_image(m);
        if (!ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE)) { c.say("no RGB picture"); return; }
        src = get_image();
        ilDeleteImage(a);
    }
    src = upright(src);
    if (q != 99) ilSetInteger(IL_JPG_QUALITY, q);
    q = ilGetInteger(IL_JPG_QUALITY);
    if (prog) ilEnable(IL_JPG_PROGRESSIVE); else ilDisable(IL_JPG_PROGRESSIVE);
    if (s.chance(1, 3)) ilSetInteger(IL_JPG_SAVE_FORMAT, s.pick({IL_JFIF, IL_EXIF}));
    ILuint id = new_image(m);
    Bytes b;
    CHECK(save(s, c, id, IL_JPG, s.flip() ? "jpg" : "jpeg", what, b), "jpg-save", "%s: not saved, error %04x", what.c_str(), ilGetError());
    Img g = upright(load(IL_JPG, b, "jpg", what, w, h, 1));
    CHECK(g.type == IL_UNSIGNED_BYTE && (g.format == IL_RGB || g.format == IL_LUMINANCE), "jpg-kind", "%s: loaded as %s", what.c_str(), g.str().c_str());
    Bytes rb = ref_jpeg(src, q, prog);
    Img ref, own;
    bool rp, op;
    CHECK(ref_unjpeg(rb, ref, &rp), "harness", "the reference is not decoded");
    CHECK(ref_unjpeg(b, own, &op), "jpg-valid", "%s: libjpeg does not read the file", what.c_str());
    CHECK(op == prog, "jpg-progressive", "%s: written %s", what.c_str(), op ? "progressively" : "as a baseline file");
    CHECK((double)b.size() <= rb.size() * 1.25 + 200 && (double)b.size() >= rb.size() * 0.7 - 100, "jpg-size", "%s: %zu bytes, libjpeg needs %zu at this quality", what.c_str(), b.size(), rb.size());
    for (int by = 0; by < h; by += 16) for (int bx = 0; bx < w; bx += 16) {
        double worst = 0, rworst = 0, sum = 0, rsum = 0;
        int n = 0;
        for (int y = by; y < h && y < by + 16; y++) for (int x = bx; x < w && x < bx + 16; x++) {
            auto S = rgba_of(src, x, y), R = rgba_of(ref, x, y), G = rgba_of(g, x, y), O = rgba_of(own, x, y);
            for (int k = 0; k < 3; k++) {
                double e = fabs(S[k] - G[k]) * 255, r = fabs(S[k] - R[k]) * 255;
                worst = std::max(worst, e), rworst = std::max(rworst, r);
                sum += e * e, rsum += r * r, n++;
                CHECK(fabs(G[k] - O[k]) * 255 <= 4, "jpg-decode", "%s: pixel (%d,%d) channel %d is loaded as %.0f, libjpeg says %.0f", what.c_str(), x, y, k, G[k] * 255, O[k] * 255);
            }
        }
        CHECK(worst <= rworst * 1.25 + 6, "jpg-error", "%s: in the block at (%d,%d) a pixel is off by %.0f, libjpeg's worst is %.0f", what.c_str(), bx, by, worst, rworst);
        CHECK(sqrt(sum / n) <= sqrt(rsum / n) * 1.1 + 1.5, "jpg-rms", "%s: the block at (%d,%d) is off by %.2f, libjpeg's by %.2f", what.c_str(), bx, by, sqrt(sum / n), sqrt(rsum / n));
    }
    c.nontriv = varied(m);
}

static void hdr(Src &s, Ctx &c) {
    c.note("hdr");
    ILenum f = F[s.draw(7)], t = s.chance(2, 3) ? IL_FLOAT : T[s.draw(5)];
    int w = s.size(s.chance(1, 10) ? 700 : 40), h = s.size(w > 100 ? 8 : 40);
    if (s.chance(1, 200)) { w = 32767 + s.range(-1, 2); h = s.range(1, 2); }
    Img m = picture(s, w, h, f, t);
    bool neg = false;
    if ((t == IL_FLOAT || t == IL_DOUBLE) && f != IL_COLOUR_INDEX) {
        int mode = s.range(0, 4);
        uint64_t sd = s.seed32();
        size_t n = m.data.size() / tsize(t), run = 1;
        bool negs = s.chance(1, 4);
        if (mode == 3) run = 3 * s.range(1, 300); // long runs
        for (size_t i = 0; i < n && mode; i++) {
            uint64_t r = mix64(sd + i / run * 7 + (run > 1 ? i % m.px() * 0 : 0));
            double v = (r & 0xffff) / 65535.0;
            if (mode == 2) v = ldexp(0.5 + (r & 0xffff) / 131072.0, (int)(r >> 20 & 255) % 230 - 110); // any size
            if (mode == 3) v = ldexp(1.0, (int)(r & 7) - 3);
            if (mode == 4) v = ldexp((r & 0xff) / 256.0, (int)(mix64(sd) % 40) - 20);
            if (mode == 1 && w < 8 && (r >> 40 & 1)) v = i % m.px() < 2 ? (2 + (r & 1) * 0.5) / 256 : i % m.px() == 2 ? 0.5 + (r & 0xff) / 1024.0 : 1; // looks like a mark
            if (negs && (r >> 30 & 3) == 0) { v = -v; }
            if (t == IL_FLOAT) { float x = (float)v; memcpy(&m.data[i * 4], &x, 4); } else memcpy(&m.data[i * 8], &v, 8);
        }
    }
    std::string what = fmt("HDR of %s", m.str().c_str());
    c.say(what);
    ILuint a = new_image(m);
    CHECK(ilConvertImage(IL_RGB, IL_FLOAT), "convert", "%s: no float picture", what.c_str());
    Img src = upright(get_image());
    ilDeleteImage(a);
    ILuint id = new_image(m);
    Bytes b;
    CHECK(save(s, c, id, IL_HDR, "hdr", what, b), "hdr-save", "%s: not saved, error %04x", what.c_str(), ilGetError());
    if (s.flip()) ilHint(IL_MEM_SPEED_HINT, IL_FASTEST);
    Img g = upright(load(IL_HDR, b, "hdr", what, w, h, 1));
    CHECK(g.type == IL_FLOAT && g.format == IL_RGB, "hdr-kind", "%s: loaded as %s", what.c_str(), g.str().c_str());
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
        double S[3], G[3], top = 0;
        for (int k = 0; k < 3; k++) {
            float v;
            memcpy(&v, src.at(x, y, 0) + 4 * k, 4); S[k] = v;
            memcpy(&v, g.at(x, y, 0) + 4 * k, 4); G[k] = v;
            if (S[k] < 0) { S[k] = 0; neg = true; }
            top = std::max(top, S[k]);
        }
        for (int k = 0; k < 3; k++)
            CHECK(fabs(S[k] - G[k]) <= top / 127 + 1e-31, neg ? "hdr-negative" : "hdr-error", "%s: pixel (%d,%d) of %g %g %g is loaded as %g %g %g", what.c_str(), x, y, S[0], S[1], S[2], G[0], G[1], G[2]);
    }
    if (neg) c.note("negative");
    c.nontriv = varied(m);
}

static void dds(Src &s, Ctx &c) {
    c.note("dds");
    ILenum f = EF[s.draw(7)];
    int kind = s.range(0, 7); // one surface, mipmaps, volume, volume with mipmaps, cube, cube with mipmaps
    int m = kind >= 6 ? 9 : kind >= 3 ? 13 : 40;
    int w = s.size(m), h = s.size(m), d = 1, faces = 1, mips = 0;
    if (kind == 3 || kind == 4) mips = s.range(1, 4);
    if (kind == 5) { d = s.range(2, 5); if (s.flip()) mips = s.range(1, 3); }
    if (kind >= 6) { faces = 6; h = w; if (s.flip()) mips = s.range(1, 3); }
    { int n = 0; while (((w | h | d) >> (n + 1)) > 0) n++; mips = std::min(mips, n); }
    if (mips) c.note("mipmaps");
    if (d > 1) c.note("volume");
    if (faces > 1) c.note("cube");
    std::vector<int> order = {0, 1, 2, 3, 4, 5};
    for (int i = 5; i > 0; i--) std::swap(order[i], order[s.draw(i + 1)]);
    bool nolum = false, broken = faces > 1 && s.chance(1, 6);
    std::vector<std::vector<Img>> im(faces, std::vector<Img>(mips + 1));
    for (int i = 0; i < faces; i++) for (int k = 0; k <= mips; k++) {
        Img &x = im[i][k];
        x = source(s, std::max(1, w >> k), std::max(1, h >> k), std::max(1, d >> k));
        if (x.format == IL_ALPHA && x.type != IL_UNSIGNED_BYTE) nolum = true;
        if (!i && !k) c.nontriv = varied(x);
    }
    if (nolum && f == IL_ATI1N) f = IL_DXT5;
    std::string what = fmt("DDS of %s of %s, %d mipmaps, %d faces", dname(f), im[0][0].str().c_str(), mips, faces);
    c.say(what);
    std::vector<std::vector<Want>> want(faces);
    for (int i = 0; i < faces; i++) for (auto &x : im[i]) want[i].push_back(wanted(x));
    ILuint id = ilGenImage();
    ilBindImage(id);
    auto at = [&](int i, int k) {
        ilBindImage(id);
        if (i) CHECK(ilActiveImage(i), "harness", "no image %d", i);
        if (k) CHECK(ilActiveMipmap(k), "harness", "no mipmap %d", k);
    };
    if (faces > 1) CHECK(ilCreateSubImage(IL_SUB_NEXT, faces - 1) == (ILuint)faces - 1, "harness", "no images");
    for (int i = 0; i < faces; i++) {
        at(i, 0);
        put_image(im[i][0], true);
        if (faces > 1) ilSetInteger(IL_IMAGE_CUBEFLAGS, broken && i == 5 ? 0x400 << order[0] : 0x400 << order[i]);
        for (int k = 1; k <= mips; k++) {
            at(i, k - 1);
            CHECK(ilCreateSubImage(IL_SUB_MIPMAP, 1), "harness", "no mipmap %d", k);
            at(i, k);
            put_image(im[i][k], true);
        }
    }
    ilBindImage(id);
    ilSetInteger(IL_DXTC_FORMAT, f);
    drain_errors();
    if (broken) { faces = 1; what += ", one of them twice"; c.note("no cube"); }
    Bytes b;
    CHECK(save(s, c, id, IL_DDS, "dds", what, b), "dds-save", "%s: not saved, error %04x", what.c_str(), ilGetError());
    // the blocks in the file: faces in the order of the flags
    size_t pos = 128;
    std::vector<std::vector<Bytes>> blocks(faces);
    std::vector<int> face(faces);
    for (int i = 0; i < faces; i++) face[faces > 1 ? order[i] : 0] = i;
    for (int i = 0; i < faces; i++) for (int k = 0; k <= mips; k++) {
        Img &x = im[face[i]][k];
        size_t n = dsize(f, x.w, x.h, x.d);
        CHECK(pos + n <= b.size(), "dds-short", "%s: the file has only %zu bytes", what.c_str(), b.size());
        blocks[i].push_back(Bytes(b.begin() + pos, b.begin() + pos + n));
        pos += n;
        verify(f, blocks[i].back(), want[face[i]][k], what + fmt(", face %d level %d %s", i, k, x.str().c_str()), c);
    }
    CHECK(pos == b.size(), "dds-long", "%s: %zu bytes, wanted %zu", what.c_str(), b.size(), pos);
    bool keep = s.chance(1, 3);
    if (keep) { ilSetInteger(IL_KEEP_DXTC_DATA, IL_TRUE); c.note("kept data"); }
    Img g = load(IL_DDS, b, "dds", what, w, h, d, &id);
    CHECK(ilGetInteger(IL_NUM_MIPMAPS) == mips && ilGetInteger(IL_NUM_FACES) == faces - 1 && ilGetInteger(IL_NUM_IMAGES) == 0, "dds-chain", "%s: loaded with %d mipmaps, %d faces, %d images", what.c_str(), ilGetInteger(IL_NUM_MIPMAPS), ilGetInteger(IL_NUM_FACES), ilGetInteger(IL_NUM_IMAGES));
    for (int i = 0; i < faces; i++) for (int k = 0; k <= mips; k++) {
        ilBindImage(id);
        if (i) CHECK(ilActiveFace(i), "dds-chain", "%s: no face %d", what.c_str(), i);
        if (!k && faces > 1) CHECK(ilGetInteger(IL_IMAGE_CUBEFLAGS) == 0x400 << i, "dds-flags", "%s: face %d is loaded with the flags %x", what.c_str(), i, ilGetInteger(IL_IMAGE_CUBEFLAGS));
        if (k) CHECK(ilActiveMipmap(k), "dds-chain", "%s: no mipmap %d of face %d", what.c_str(), k, i);
        Img &x = im[face[i]][k];
        std::string w2 = what + fmt(", face %d level %d", i, k);
        const Bytes &bl = blocks[i][k];
        if (keep) {
            ILenum kf = ilGetInteger(IL_DXTC_DATA_FORMAT), fx = f == IL_DXT1A ? (ILenum)IL_DXT1 : f;
            if (k || !(f == IL_3DC || f == IL_ATI1N))
                CHECK(kf == fx, "dds-kept-format", "%s: the data is kept as %04x", w2.c_str(), kf);
            if (kf == fx) {
                CHECK(dxtc(fx) == bl, "dds-kept", "%s: other data is kept than the file has", w2.c_str());
            }
        }
        g = get_image();
        CHECK(g.w == x.w && g.h == x.h && g.d == x.d && g.origin == IL_ORIGIN_UPPER_LEFT && g.type == IL_UNSIGNED_BYTE, "dds-dims", "%s: loaded as %s, wanted %dx%dx%d", w2.c_str(), g.str().c_str(), x.w, x.h, x.d);
        int bw = (x.w + 3) / 4, bh = (x.h + 3) / 4, bs = bsize(f);
        if (f == IL_DXT1 || f == IL_DXT1A || f == IL_DXT3 || f == IL_DXT5) {
            CHECK(g.format == IL_RGBA, "dds-kind", "%s: loaded as %s", w2.c_str(), g.str().c_str());
            same_as_reference(f == IL_DXT3 ? 3 : f == IL_DXT5 ? 5 : 1, bl, g, w2, "dds-decode");
            continue;
        }
        CHECK(g.format == (f == IL_ATI1N ? IL_LUMINANCE : IL_RGB), "dds-kind", "%s: loaded as %s", w2.c_str(), g.str().c_str());
        for (int z = 0; z < x.d; z++) for (int y = 0; y < x.h; y++) for (int xx = 0; xx < x.w; xx++) {
            const uint8_t *p = &bl[(((size_t)z * bh + y / 4) * bw + xx / 4) * bs], *px = g.at(xx, y, z);
            int j = (y % 4) * 4 + xx % 4;
            double a[16], a2[16], o[16][4];
            dxt_alpha5(p, a);
            if (f == IL_ATI1N) CHECK(fabs(px[0] - a[j] * 255) < 0.95, "dds-ati1n", "%s: pixel (%d,%d,%d) is %d, wanted %.1f", w2.c_str(), xx, y, z, px[0], a[j] * 255);
            if (f == IL_3DC) {
                dxt_alpha5(p + 8, a2);
                CHECK(fabs(px[1] - a[j] * 255) < 0.95 && fabs(px[0] - a2[j] * 255) < 0.95, "dds-3dc", "%s: pixel (%d,%d,%d) is %d %d, wanted %.1f %.1f", w2.c_str(), xx, y, z, px[0], px[1], a2[j] * 255, a[j] * 255);
            }
            if (f == IL_RXGB) {
                dxt_block(5, p, o);
                CHECK(fabs(px[0] - o[j][3] * 255) < 0.95 && fabs(px[1] - o[j][1] * 255) <= 1.2 && fabs(px[2] - o[j][2] * 255) <= 1.2, "dds-rxgb", "%s: pixel (%d,%d,%d) is %d %d %d, wanted %.1f %.1f %.1f", w2.c_str(), xx, y, z, px[0], px[1], px[2], o[j][3] * 255,
                      o[j][1] * 255, o[j][2] * 255);
            }
        }
    }
}
void one_case(Src &s, Ctx &c) {
    il_fresh();
    int k = s.range(0, 9);
    if (k < 4) dds(s, c);
    else if (k < 7) jpg(s, c);
    else hdr(s, c);
}
