// C08: ilCopyPixels and ilSetPixels against a model that moves one pixel at a time.
#include "ilh.h"

Spec spec() {
    Spec s;
    s.id = "C08";
    s.rule = "the region overlaps the image and is not the whole image";
    s.quick_cases = 960000;
    s.thorough_cases = 9600000;
    s.batch = 128;
    s.cpu_limit = 10;
    s.assumptions = {"conversions inside a block are judged against ilConvertImage of the same block (C07 judges that one)"};
    s.min_frac = {{"overlap", 0.45}};
    return s;
}
static const std::vector<ILenum> FM = {IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_ALPHA};
static const std::vector<ILenum> TY = {IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE, IL_HALF};
static std::pair<int, int> span(Src &s, int limit, bool neg) { // offset, size
    switch (s.range(0, 6)) {
    case 0: return {0, limit};
    case 1: { int o = s.range(0, limit - 1); return {o, s.range(1, limit - o)}; }
    case 2: { int o = s.range(0, limit - 1); return {o, s.range(1, limit + 6)}; }
    case 3: return {limit + s.range(0, 5), s.range(1, 5)};
    case 4: return {0, s.range(1, limit + 4)};
    case 5: if (neg) return {-s.range(1, limit + 3), s.range(1, limit * 2 + 4)}; return {s.range(0, limit - 1), 1};
    default: if (neg) { int o = -s.range(1, 4); return {o, -o + s.range(0, 2)}; } return {s.range(0, limit), s.range(1, limit)};
    }
}
void one_case(Src &s, Ctx &c) {
    il_fresh();
    int dims = s.range(1, 3);
    int w = s.size(20), h = dims > 1 || s.flip() ? s.size(16) : 1, d = dims > 2 || s.chance(1, 4) ? s.range(1, 4) : 1;
    bool idx = s.chance(1, 8);
    Img im = idx ? gen_indexed(s, w, h, d, s.range(1, 256), s.pick({IL_PAL_RGB24, IL_PAL_BGRA32})) : gen_img(s, w, h, d, s.pick(FM), s.pick(TY));
    ILenum f = s.chance(1, 2) ? im.format : s.pick(FM), t = f == im.format && s.flip() ? im.type : s.pick(TY);
    if (s.chance(1, 3)) t = im.type;
    if (f == IL_COLOUR_INDEX) t = IL_UNSIGNED_BYTE;
    bool set = s.flip();
    auto sx = span(s, w, set);
    auto sy = dims == 1 ? std::pair<int, int>(0, 1) : span(s, h, set);
    auto sz = dims < 3 ? std::pair<int, int>(0, 1) : span(s, d, set);
    if (dims == 1 && s.chance(1, 4)) sz = span(s, d, set);
    int X = sx.first, W = sx.second, Y = sy.first, H = sy.second, Z = sz.first, D = sz.second;
    if (s.chance(1, 40)) { (s.flip() ? W : H) = 0; }
    int mode = s.range(0, 2); // IL_ORIGIN_SET off, upper, lower
    ILenum view = mode == 0 ? im.origin : mode == 1 ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT;
    if (mode) {
        ilEnable(IL_ORIGIN_SET);
        ilOriginFunc(view);
    } else if (s.flip()) { ilOriginFunc(s.flip() ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT); ilDisable(IL_ORIGIN_SET); }
    std::string what = fmt("%s of %dx%dx%d at (%d,%d,%d) as %s/%s, image %s, rows from %s", set ? "set" : "copy", W, H, D, X, Y, Z, fmt_name(f), type_name(t), im.str().c_str(), view == IL_ORIGIN_UPPER_LEFT ? "top" : "bottom");
    c.say(what);
    ILuint id = new_image(im);
    Img base = im; // as the caller sees the rows
    if (view != im.origin) base = flipped(im), base.origin = view;
    auto inside = [&](int x, int y, int z) { return x >= 0 && y >= 0 && z >= 0 && x < w && y < h && z < d; };
    size_t overlap = 0;
    for (int z = 0; z < D; z++)
        for (int y = 0; y < H; y++)
            for (int x = 0; x < W; x++) overlap += inside(X + x, Y + y, Z + z);
    std::string sg = fmt("%s-%d-", set ? "set" : "copy", dims);
    drain_errors();
    if (!set) {
        bool same = f == im.format && t == im.type;
        size_t need = (size_t)W * H * D * chans(f) * tsize(t);
        Bytes buf(need, 0xA5); // exactly as large as needed: one more byte is caught by the sanitizer
        buf.shrink_to_fit();
        if (s.chance(1, 30)) { // refused requests
            ILenum bf = s.pick({(ILenum)IL_COLOUR_INDEX, 0u, 0x9999u});
            Bytes b2((size_t)W * H * D * 32 + 1, 0xA5);
            ILuint n = ilCopyPixels(X, Y, Z, W, H, D, bf, t, &b2[0]);
            CHECK(n == 0, sg + "bad", "%s: format %04x accepted", what.c_str(), bf);
            for (auto b : b2) CHECK(b == 0xA5, sg + "bad", "%s: refused, but wrote to the buffer", what.c_str());
            c.note("refused");
            return;
        }
        // the block as an image, converted by the library
        Img blk;
        blk.w = std::max(W, 1), blk.h = std::max(H, 1), blk.d = std::max(D, 1), blk.format = im.format, blk.type = im.type, blk.paltype = im.paltype, blk.pal = im.pal;
        blk.data.assign(blk.size(), 0);
        for (int z = 0; z < D; z++)
            for (int y = 0; y < H; y++)
                for (int x = 0; x < W; x++)
                    if (inside(X + x, Y + y, Z + z)) memcpy(blk.at(x, y, z), base.at(X + x, Y + y, Z + z), im.px());
        ILuint tid = new_image(blk);
        bool conv = f != IL_COLOUR_INDEX && ilConvertImage(f, t); // indices are not handed out
        Img want = get_image("block");
        ilDeleteImage(tid);
        ilBindImage(id);
        drain_errors();
        ILuint n = ilCopyPixels(X, Y, Z, W, H, D, f, t, need ? (void *)&buf[0] : (void *)&n);
        ILenum er = ilGetError();
        if (!need) { CHECK(n == 0, sg + "empty", "%s: %u bytes", what.c_str(), n); return; }
        if (!conv) {
            CHECK(n == 0 && er != IL_NO_ERROR, sg + "refuse", "%s: %u bytes although the conversion is refused, error %04x", what.c_str(), n, er);
            c.note("refused");
            return;
        }
        CHECK(n == need, sg + "count", "%s: returns %u, wanted %zu, error %04x", what.c_str(), n, need, er);
        CHECK(er == IL_NO_ERROR, sg + "error", "%s: error %04x pending", what.c_str(), er);
        int px = chans(f) * tsize(t);
        for (int z = 0; z < D; z++)
            for (int y = 0; y < H; y++)
                for (int x = 0; x < W; x++) {
                    const uint8_t *g = &buf[(((size_t)z * H + y) * W + x) * px];
                    if (inside(X + x, Y + y, Z + z))
                        CHECK(!memcmp(g, want.at(x, y, z), px), sg + "pixels", "%s: (%d,%d,%d) is %s, wanted %s", what.c_str(), x, y, z, hexbytes(g, px).c_str(), hexbytes(want.at(x, y, z), px).c_str());
                    else if (same)
                        for (int q = 0; q < px; q++) CHECK(g[q] == 0xA5, sg + "outside", "%s: (%d,%d,%d) lies outside, but was written", what.c_str(), x, y, z);
                }
        Img after = get_image("after ilCopyPixels");
        CHECK(after.data == im.data && after.pal == im.pal && after.format == im.format && after.origin == im.origin, sg + "changed", "%s: the image changed", what.c_str());
    } else {
        Img blk = f == IL_COLOUR_INDEX ? gen_img(s, std::max(W, 1), std::max(H, 1), std::max(D, 1), f, t) : gen_img(s, std::max(W, 1), std::max(H, 1), std::max(D, 1), f, t);
        if (f == IL_COLOUR_INDEX && t == IL_UNSIGNED_BYTE)
            for (auto &b : blk.data) b %= im.pal.size() / pal_bpp(im.paltype);
        bool same = f == im.format && t == im.type;
        Img want = blk;
        bool conv = true;
        if (!same) {
            ILuint tid = new_image(blk);
            conv = im.format != IL_COLOUR_INDEX && f != IL_COLOUR_INDEX && ilConvertImage(im.format, im.type);
            if (conv) want = get_image("block");
            ilDeleteImage(tid);
            ilBindImage(id);
        }
        drain_errors();
        Bytes buf(blk.data.begin(), blk.data.begin() + (size_t)W * H * D * blk.px());
        buf.shrink_to_fit();
        Bytes keep = buf;
        ilSetPixels(X, Y, Z, W, H, D, f, t, buf.empty() ? (void *)&W : (void *)&buf[0]);
        ILenum er = ilGetError();
        CHECK(buf == keep, sg + "buffer", "%s: changed the caller's buffer", what.c_str());
        Img exp = base;
        if (conv)
            for (int z = 0; z < D; z++)
                for (int y = 0; y < H; y++)
                    for (int x = 0; x < W; x++)
                        if (inside(X + x, Y + y, Z + z)) memcpy(exp.at(X + x, Y + y, Z + z), want.at(x, y, z), im.px());
        if (conv || buf.empty()) CHECK(er == IL_NO_ERROR, sg + "error", "%s: error %04x", what.c_str(), er);
        else CHECK(er != IL_NO_ERROR, sg + "noerror", "%s: no error although the conversion is refused", what.c_str());
        Img got = get_image("after ilSetPixels");
        CHECK(got.origin == im.origin && got.format == im.format && got.type == im.type && got.pal == im.pal, sg + "shape", "%s: now %s", what.c_str(), got.str().c_str());
        if (view != im.origin) exp = flipped(exp);
        CHECK(got.w == w && got.h == h && got.d == d, sg + "dims", "%s: now %s", what.c_str(), got.str().c_str());
        for (int z = 0; z < d; z++)
            for (int y = 0; y < h; y++)
                for (int x = 0; x < w; x++)
                    CHECK(!memcmp(exp.at(x, y, z), got.at(x, y, z), im.px()), sg + "pixels", "%s: pixel (%d,%d,%d) is %s, wanted %s", what.c_str(), x, y, z, hexbytes(got.at(x, y, z), im.px()).c_str(), hexbytes(exp.at(x, y, z), im.px()).c_str());
        if (!conv) c.note("refused");
    }
    if (overlap) c.note("overlap");
    c.nontriv = overlap > 0 && overlap < (size_t)w * h * d;
}
