// C15: geometry operations of ILU against a pixel model, in sequences.
#include "iluh.h"

Spec spec() {
    Spec s;
    s.id = "C15";
    s.rule = "the image has at least six pixels that are not all alike, and an operation moved or changed them";
    s.quick_cases = 600000;
    s.thorough_cases = 6000000;
    s.batch = 64;
    s.cpu_limit = 10;
    s.assumptions = {"rows are counted in the order of the image by crop, rotation and wave; a region leaves the pixels within 1.6 of its border open",
                     "rotation by other than right angles may be off by one source pixel, and quantises indexed images again", "the clear colour of a format is taken from ilClearImage (C29)"};
    s.min_frac = {{"flip", 0.05}, {"mirror", 0.05}, {"crop", 0.05}, {"canvas", 0.05}, {"right angle", 0.05}, {"rotate", 0.03}, {"region", 0.02}, {"indexed", 0.1}, {"refused", 0.05}, {"deep", 0.1}};
    return s;
}
static const ILenum F[] = {IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_ALPHA};
static const ILenum T[] = {IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE, IL_BYTE, IL_SHORT, IL_INT};

static void inv_channel(uint8_t *p, ILenum t) {
    if (t == IL_FLOAT) { float v; memcpy(&v, p, 4); v = 1.0f - v; memcpy(p, &v, 4); }
    else if (t == IL_DOUBLE) { double v; memcpy(&v, p, 8); v = 1.0 - v; memcpy(p, &v, 8); }
    else for (int i = 0; i < tsize(t); i++) p[i] = ~p[i];
}
template <class Fn> static Img remap(const Img &m, int w, int h, int d, Fn src) {
    Img n = m;
    n.w = w; n.h = h; n.d = d;
    n.data.assign(n.size(), 0);
    for (int z = 0; z < d; z++)
        for (int y = 0; y < h; y++)
            for (int x = 0; x < w; x++) memcpy(n.at(x, y, z), src(x, y, z), m.px());
    return n;
}
static void same(const Img &want, const Img &got, const char *sig, const std::string &what) {
    CHECK(got.w == want.w && got.h == want.h && got.d == want.d, std::string(sig) + "-size", "%s: %s, wanted %s", what.c_str(), got.str().c_str(), want.str().c_str());
    CHECK(got.format == want.format && got.type == want.type && got.origin == want.origin && got.paltype == want.paltype, std::string(sig) + "-kind", "%s: %s, wanted %s", what.c_str(), got.str().c_str(), want.str().c_str());
    CHECK(got.pal == want.pal, std::string(sig) + "-palette", "%s: %s, the palette differs", what.c_str(), got.str().c_str());
    for (int z = 0; z < want.d; z++)
        for (int y = 0; y < want.h; y++)
            for (int x = 0; x < want.w; x++)
                CHECK(!memcmp(want.at(x, y, z), got.at(x, y, z), want.px()), std::string(sig) + "-pixels", "%s: %s, pixel (%d,%d,%d) is %s, wanted %s", what.c_str(), want.str().c_str(), x, y, z,
                      hexbytes(got.at(x, y, z), got.px()).c_str(), hexbytes(want.at(x, y, z), want.px()).c_str());
}
// the pixel that stands for the clear colour
static Bytes clear_pixel(const Img &m, ILuint back) {
    Bytes px(m.px());
    if (m.format == IL_COLOUR_INDEX) return px;
    Img one;
    one.w = one.h = one.d = 1; one.format = m.format; one.type = m.type; one.data.assign(m.px(), 0);
    ILuint id = new_image(one);
    ilClearImage();
    memcpy(&px[0], ilGetData(), m.px());
    ilDeleteImage(id);
    ilBindImage(back);
    return px;
}

void one_case(Src &s, Ctx &c) {
    il_fresh();
    Img m;
    int w = s.size(14), h = s.size(14), d = s.chance(1, 5) ? s.range(2, 3) : 1;
    bool idx = s.chance(1, 5);
    if (idx) m = gen_indexed(s, w, h, d, s.range(1, 256), s.pick({IL_PAL_RGB24, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGRA32, IL_PAL_RGB32, IL_PAL_BGR32}));
    else m = gen_img(s, w, h, d, F[s.draw(7)], s.flip() ? IL_UNSIGNED_BYTE : T[s.draw(8)]);
    ILuint id = new_image(m);
    if (idx) c.note("indexed");
    if (d > 1) c.note("deep");
    float cc[4] = {s.range(0, 4) / 4.0f, s.range(0, 255) / 255.0f, s.range(0, 4) / 4.0f, s.range(0, 2) / 2.0f};
    ilClearColour(cc[0], cc[1], cc[2], cc[3]);
    // a second frame that must not be touched
    Img next;
    bool frames = s.chance(1, 6);
    if (frames) {
        ilCreateSubImage(IL_SUB_NEXT, 1);
        ilActiveImage(1);
        next = gen_img(s, s.size(6), s.size(6), 1, m.format == IL_COLOUR_INDEX ? IL_RGB : m.format, m.format == IL_COLOUR_INDEX ? IL_UNSIGNED_BYTE : m.type);
        put_image(next, true);
        ilBindImage(id);
    }
    bool moved = false;
    int steps = s.range(1, 4);
    for (int k = 0; k < steps; k++) {
        int op = s.range(0, 9);
        drain_errors();
        std::string what;
        bool ok = false, refuse = false, swapped = false;
        Img was = m;
        switch (op) {
        case 0:
            what = "iluFlipImage";
            ok = iluFlipImage();
            m = flipped(m);
            c.note("flip");
            break;
        case 1:
            what = "iluMirror";
            ok = iluMirror();
            m = remap(was, was.w, was.h, was.d, [&](int x, int y, int z) { return was.at(was.w - 1 - x, y, z); });
            c.note("mirror");
            break;
        case 2: {
            Region r;
            if (s.flip()) { r = gen_region(s, m.w, m.h); if (!idx) c.note("region"); }
            what = "iluNegative " + (r.on() ? r.str() : std::string());
            ok = iluNegative();
            no_region();
            if (idx) { for (auto &b : m.pal) b = ~b; break; }
            Img got = get_image("negative");
            CHECK(ok && got.data.size() == m.data.size(), "negative", "%s fails or gives %s", what.c_str(), got.str().c_str());
            for (int z = 0; z < m.d; z++)
                for (int y = 0; y < m.h; y++)
                    for (int x = 0; x < m.w; x++) {
                        int in = r.where(x, y);
                        uint8_t *p = m.at(x, y, z);
                        // a pixel on the border is either as it was or inverted
                        if (in == 0 || (in < 0 && !memcmp(got.at(x, y, z), p, m.px()))) continue;
                        for (int k = 0; k < m.nc(); k++) inv_channel(p + k * tsize(m.type), m.type);
                    }
            break;
        }
        case 3: {
            what = "iluSwapColours";
            ok = iluSwapColours();
            refuse = m.format == IL_LUMINANCE || m.format == IL_LUMINANCE_ALPHA || m.format == IL_ALPHA;
            if (refuse) break;
            if (idx) {
                static const ILenum A[] = {IL_PAL_RGB24, IL_PAL_RGB32, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGR32, IL_PAL_BGRA32};
                for (int i = 0; i < 6; i++) if (was.paltype == A[i]) m.paltype = A[(i + 3) % 6];
                int b = pal_bpp(m.paltype);
                for (size_t i = 0; i + b <= m.pal.size(); i += b) std::swap(m.pal[i], m.pal[i + 2]);
                if (m.paltype == IL_PAL_RGB32 || m.paltype == IL_PAL_BGR32) { // the fourth byte means nothing
                    Img g = get_image("swap");
                    if (g.pal.size() == m.pal.size()) for (size_t i = 3; i < m.pal.size(); i += 4) m.pal[i] = g.pal[i];
                }
            } else {
                auto sw = [&](Img &q) {
                    q.format = q.format == IL_RGB ? IL_BGR : q.format == IL_BGR ? IL_RGB : q.format == IL_RGBA ? IL_BGRA : IL_RGBA;
                    int ts = tsize(q.type);
                    for (size_t i = 0; i < q.data.size(); i += q.px()) for (int b = 0; b < ts; b++) std::swap(q.data[i + b], q.data[i + 2 * ts + b]);
                };
                sw(m);
                if (frames) sw(next);
            }
            swapped = true;
            break;
        }
        case 4:
            what = "iluInvertAlpha";
            ok = iluInvertAlpha();
            refuse = m.format != IL_RGBA && m.format != IL_BGRA && m.format != IL_LUMINANCE_ALPHA;
            if (!refuse) for (size_t i = 0; i < m.data.size(); i += m.px()) inv_channel(&m.data[i + m.px() - tsize(m.type)], m.type);
            break;
        case 5: {
            ILuint x = s.range(0, m.w - 1), y = s.range(0, m.h - 1), z = s.range(0, m.d - 1), cw = s.range(0, m.w - x), ch = s.range(0, m.h - y), cd = s.range(0, m.d - z);
            if (s.chance(1, 5)) {
                ILuint *v[] = {&x, &y, &z, &cw, &ch, &cd};
                int i = s.range(0, 5);
                *v[i] = s.pick({m.w + 1u, m.h + 1u, m.d + 1u, 0xFFFFFFFFu, 0x80000000u, 0xFFFFFFFFu - *v[i] + 1u, (unsigned)m.w, (unsigned)m.h});
            }
            what = fmt("iluCrop(%u,%u,%u,%u,%u,%u)", x, y, z, cw, ch, cd);
            ok = iluCrop(x, y, z, cw, ch, cd);
            int64_t W = std::max(cw, 1u), H = std::max(ch, 1u), D = std::max(cd, 1u);
            refuse = x + W > was.w || y + H > was.h || z + D > was.d;
            if (!refuse) m = remap(was, (int)W, (int)H, (int)D, [&](int a, int b, int e) { return was.at(a + x, b + y, e + z); });
            c.note("crop");
            break;
        }
        case 6: {
            ILenum place = s.pick({ILU_LOWER_LEFT, ILU_LOWER_RIGHT, ILU_UPPER_LEFT, ILU_UPPER_RIGHT, ILU_CENTER});
            int W = m.w + s.range(0, 5), H = m.h + s.range(0, 5), D = m.d + (s.chance(1, 4) ? s.range(0, 2) : 0);
            if (s.chance(1, 6)) { int i = s.range(0, 2); (i == 0 ? W : i == 1 ? H : D) = s.range(0, (i == 0 ? m.w : i == 1 ? m.h : m.d) - 1); }
            what = fmt("iluEnlargeCanvas(%d,%d,%d) %04x", W, H, D, place);
            iluImageParameter(ILU_PLACEMENT, place);
            Bytes px = clear_pixel(m, id);
            drain_errors();
            ok = iluEnlargeCanvas(W, H, D);
            refuse = W < m.w || H < m.h || D < m.d;
            c.note("canvas");
            if (refuse) break;
            int ax = place == ILU_CENTER ? (W - m.w) / 2 : place == ILU_LOWER_LEFT || place == ILU_UPPER_LEFT ? 0 : W - m.w;
            bool low = place == ILU_LOWER_LEFT || place == ILU_LOWER_RIGHT;
            int ay = place == ILU_CENTER ? (H - m.h) / 2 : low == (m.origin == IL_ORIGIN_LOWER_LEFT) ? 0 : H - m.h;
            Img got = get_image("canvas");
            CHECK(ok && got.w == W && got.h == H && got.d == D, "canvas-size", "%s on %s gives %s", what.c_str(), was.str().c_str(), got.str().c_str());
            if (idx && got.data.size() > was.data.size()) {
                // the background is the colour of the palette nearest to the clear colour
                uint8_t bg = 0;
                bool found = false;
                for (int z = 0; z < D && !found; z++) for (int y = 0; y < H && !found; y++) for (int x = 0; x < W && !found; x++)
                    if (x < ax || x >= ax + was.w || y < ay || y >= ay + was.h || z >= was.d) { bg = *got.at(x, y, z); found = true; }
                double best = 1e9, mine = 0;
                Img q = was;
                q.w = q.h = q.d = 1; q.data.assign(1, 0);
                for (int i = 0; i * pal_bpp(q.paltype) < (int)q.pal.size(); i++) {
                    q.data[0] = i;
                    auto v = rgba_of(q, 0, 0);
                    double e = 0;
                    for (int k = 0; k < 3; k++) e += pow(v[k] * 255 - floor(cc[k] * 255), 2);
                    best = std::min(best, e);
                    if (i == bg) mine = e;
                }
                CHECK(bg * pal_bpp(q.paltype) < (int)q.pal.size() && mine <= best + 1e-6 + 4 * sqrt(best) + 3, "canvas-background", "%s on %s: background index %d is %g from the clear colour, another %g", what.c_str(), was.str().c_str(), bg, mine, best);
                px[0] = bg;
            }
            m = remap(was, W, H, D, [&](int x, int y, int z) { return x >= ax && x < ax + was.w && y >= ay && y < ay + was.h && z < was.d ? was.at(x - ax, y - ay, z) : &px[0]; });
            break;
        }
        case 7: {
            int q = s.range(-9, 9);
            float a = s.chance(1, 8) ? s.pick({-0.0f, 3600.0f, -3600.0f, 36000.0f * 90, 90.0f * 4097}) : q * 90.0f;
            q = (int)lrint(fmod(a / 90.0, 4.0) + 4) & 3;
            what = fmt("iluRotate(%g)", a);
            ok = iluRotate(a);
            c.note("right angle");
            int W = was.w, H = was.h;
            if (q == 1) m = remap(was, H, W, was.d, [&](int x, int y, int z) { return was.at(y, H - 1 - x, z); });
            if (q == 2) m = remap(was, W, H, was.d, [&](int x, int y, int z) { return was.at(W - 1 - x, H - 1 - y, z); });
            if (q == 3) m = remap(was, H, W, was.d, [&](int x, int y, int z) { return was.at(W - 1 - y, x, z); });
            break;
        }
        case 8: {
            float a = s.flip() ? s.range(-3600, 3600) / 10.0f + 0.05f : s.range(-720, 720) / 1.0f;
            if (fmod(a, 90.0) == 0) a += 37;
            what = fmt("iluRotate(%g)", a);
            Bytes px = clear_pixel(m, id);
            drain_errors();
            ok = iluRotate(a);
            c.note("rotate");
            Img got = get_image("rotated");
            double t = a * M_PI / 180, C = cos(t), S = sin(t), bw = fabs(was.w * C) + fabs(was.h * S), bh = fabs(was.w * S) + fabs(was.h * C);
            CHECK(ok, "rotate", "%s on %s fails, error %04x", what.c_str(), was.str().c_str(), ilGetError());
            CHECK(fabs(got.w - bw) <= 2.01 && fabs(got.h - bh) <= 2.01 && got.d == was.d, "rotate-size", "%s on %s gives %s, the box is %g x %g", what.c_str(), was.str().c_str(), got.str().c_str(), bw, bh);
            CHECK(got.format == was.format && got.type == was.type && got.origin == was.origin && (idx || got.paltype == IL_PAL_NONE), "rotate-kind", "%s on %s gives %s", what.c_str(), was.str().c_str(), got.str().c_str());
            m = got;
            moved = true;
            if (idx) break;
            double ex = std::min({0.0, -was.h * S, was.w * C - was.h * S, was.w * C}), ey = std::min({0.0, was.h * C, was.h * C + was.w * S, was.w * S});
            int mx = (int)ex, my = (int)ey, more = fabs(ex - lrint(ex)) < 1e-3 || fabs(ey - lrint(ey)) < 1e-3; // rounding may move the picture by one
            for (int z = 0; z < got.d; z++)
                for (int y = 0; y < got.h; y++)
                    for (int x = 0; x < got.w; x++) {
                        double sx = (x + mx) * C + (y + my) * S, sy = (y + my) * C - (x + mx) * S;
                        const uint8_t *p = got.at(x, y, z);
                        bool deep = sx >= 1.01 + more && sy >= 1.01 + more && sx <= was.w - 1.01 - more && sy <= was.h - 1.01 - more, out = sx < -2 - more || sy < -2 - more || sx > was.w + 1 + more || sy > was.h + 1 + more;
                        bool good = !deep && !memcmp(p, &px[0], m.px());
                        for (int b = (int)floor(sy) - 1 - more; b <= floor(sy) + 1 + more && !good && !out; b++)
                            for (int e = (int)floor(sx) - 1 - more; e <= floor(sx) + 1 + more && !good; e++)
                                if (e >= 0 && b >= 0 && e < was.w && b < was.h) good = !memcmp(p, was.at(e, b, z), m.px());
                        CHECK(good, out ? "rotate-outside" : "rotate-pixels", "%s on %s: pixel (%d,%d,%d) is %s, comes from (%.2f,%.2f)%s", what.c_str(), was.str().c_str(), x, y, z, hexbytes(p, m.px()).c_str(), sx, sy, out ? ", outside" : "");
                    }
            break;
        }
        case 9: {
            float a = s.range(-3600, 3600) / 10.0f;
            what = fmt("iluWave(%g)", a);
            ok = iluWave(a);
            c.note("wave");
            Img got = get_image("wave");
            CHECK(got.w == was.w && got.h == was.h && got.d == was.d, "wave-size", "%s on %s gives %s", what.c_str(), was.str().c_str(), got.str().c_str());
            for (int y = 0; y < was.h; y++) {
                double dl = 30 * sin((10 * a + y) * M_PI / 180) + 15 * sin((7 * a + 3 * y) * M_PI / 180);
                int n = (int)dl;
                bool good = false;
                for (int t : {n, n + 1, n - 1}) {
                    if (good || (t != n && fabs(dl - lrint(dl)) > 0.02)) continue;
                    Img q = m;
                    for (int z = 0; z < was.d; z++) for (int x = 0; x < was.w; x++) memcpy(q.at((((x + t) % was.w) + was.w) % was.w, y, z), was.at(x, y, z), was.px());
                    good = true;
                    for (int z = 0; z < was.d; z++) good = good && !memcmp(q.at(0, y, z), got.at(0, y, z), (size_t)was.w * was.px());
                    if (good) m = q;
                }
                CHECK(good, "wave-row", "%s on %s: row %d is not turned by %g", what.c_str(), was.str().c_str(), y, dl);
            }
            break;
        }
        }
        c.say(what + " on " + was.str());
        if (refuse) {
            c.note("refused");
            CHECK(!ok, "refuse", "%s on %s succeeds", what.c_str(), was.str().c_str());
            CHECK(ilGetError() != IL_NO_ERROR, "refuse-error", "%s on %s: no error", what.c_str(), was.str().c_str());
        } else {
            CHECK(ok, "fails", "%s on %s fails, error %04x", what.c_str(), was.str().c_str(), ilGetError());
            CHECK(ilGetError() == IL_NO_ERROR, "error", "%s on %s: an error after success", what.c_str(), was.str().c_str());
        }
        CHECK((ILuint)ilGetInteger(IL_CUR_IMAGE) == id, "bound", "%s: image %d is bound", what.c_str(), ilGetInteger(IL_CUR_IMAGE));
        Img got = get_image(what.c_str());
        same(m, got, refuse ? "refused" : op == 0 ? "flip" : op == 1 ? "mirror" : op == 2 ? "negative" : op == 3 ? "swap" : op == 4 ? "alpha" : op == 5 ? "crop" : op == 6 ? "canvas" : op == 7 ? "right" : "shape", what + " on " + was.str());
        if (frames) {
            CHECK(ilGetInteger(IL_NUM_IMAGES) == 1, "frames", "%s: %d further frames", what.c_str(), ilGetInteger(IL_NUM_IMAGES));
            ilActiveImage(1);
            same(next, get_image("next"), "next", what + ": the second frame");
            ilBindImage(id);
        }
        if (was.data != m.data || was.pal != m.pal || was.w != m.w || was.h != m.h || swapped) moved = true;
    }
    bool varied = false;
    for (size_t i = 1; i < m.data.size(); i++) varied = varied || m.data[i] != m.data[0];
    c.nontriv = moved && varied && w * h * d >= 6;
}
