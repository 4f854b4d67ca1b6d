// What a DXT block may be for a picture: shared by C20 (the data) and C02 (DDS files).
#pragma once
#include "ilh.h"
#include "filegen.h"
using namespace fg;
static int bsize(ILenum f) { return f == IL_DXT1 || f == IL_DXT1A || f == IL_ATI1N ? 8 : 16; }
static size_t dsize(ILenum f, int w, int h, int d) { return (size_t)((w + 3) / 4) * ((h + 3) / 4) * d * bsize(f); }
static const char *dname(ILenum f) {
    switch (f) {
    case IL_DXT1: return "DXT1"; case IL_DXT1A: return "DXT1A"; case IL_DXT2: return "DXT2"; case IL_DXT3: return "DXT3"; case IL_DXT4: return "DXT4"; case IL_DXT5: return "DXT5";
    case IL_3DC: return "3DC"; case IL_ATI1N: return "ATI1N"; case IL_RXGB: return "RXGB";
    }
    return "?";
}
// the picture in data, by the definition: w*h*d pixels of four doubles
static std::vector<std::array<double, 4>> reference(int kind, const Bytes &b, int w, int h, int d) {
    std::vector<std::array<double, 4>> v((size_t)w * h * d);
    int bw = (w + 3) / 4, bh = (h + 3) / 4, bs = kind == 1 ? 8 : 16;
    for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
        double o[16][4];
        dxt_block(kind, &b[(((size_t)z * bh + y / 4) * bw + x / 4) * bs], o);
        memcpy(&v[((size_t)z * h + y) * w + x], o[(y % 4) * 4 + x % 4], sizeof o[0]);
    }
    return v;
}
static void same_as_reference(int kind, const Bytes &b, const Img &im, const std::string &what, const char *sig) {
    auto v = reference(kind, b, im.w, im.h, im.d);
    for (size_t i = 0; i < v.size(); i++)
        for (int k = 0; k < 4; k++) {
            int g = im.data[i * 4 + k];
            double want = v[i][k] * 255;
            // a transparent pixel of DXT1 has no colour
            if (kind == 1 && v[i][3] == 0 && k < 3) continue;
            CHECK(fabs(g - want) <= (k == 3 ? 0.6 : 1.2), sig, "%s: pixel (%zu,%zu,%zu) channel %d is %d, wanted %.2f", what.c_str(), i % im.w, i / im.w % im.h, i / im.w / im.h, k, g, want);
        }
}
static Img blocky(Src &s, int w, int h, int d, ILenum f, ILenum t, int how) {
    Img im;
    im.w = w, im.h = h, im.d = d, im.format = f, im.type = t, im.paltype = IL_PAL_NONE;
    im.origin = s.flip() ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT;
    im.data.assign(im.size(), 0);
    uint64_t sd = s.seed32();
    int nc = chans(f);
    int few = s.range(0, 3), amode = s.range(0, 4);
    for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
        int yy = im.origin == IL_ORIGIN_UPPER_LEFT ? y : h - 1 - y;
        uint64_t blk = mix64(sd ^ ((uint64_t)(z * 100 + yy / 4) * 1000 + x / 4)), px = mix64(blk + (yy % 4) * 4 + x % 4 + 1);
        int v[4];
        auto rep = [&](uint64_t q, int *o) { // a colour that 565 can hold
            int r = q & 31, g = q >> 5 & 63, b = q >> 11 & 31;
            if (few == 0) { r = (q & 1) * 31; g = (q >> 1 & 1) * 63; b = (q >> 2 & 1) * 31; } // primaries: many have the same weight
            o[0] = r << 3 | r >> 2; o[1] = g << 2 | g >> 4; o[2] = b << 3 | b >> 2;
        };
        if (how == 0) rep(mix64(blk + 77 + (px & 1)), v);                                   // two colours
        else if (how == 1) { int a = blk & 255, b = blk >> 8 & 255; v[0] = v[1] = v[2] = (px & 1) && few ? ((px >> 1 & 1) ? a : b) : a + (int)((b - a) * (double)(px >> 8 & 255) / 255); } // grey ramp
        else if (how == 2) { v[0] = px & 255; v[1] = px >> 8 & 255; v[2] = px >> 16 & 255; }   // noise
        else { for (int k = 0; k < 3; k++) v[k] = ((blk >> (8 * k)) & 127) + ((px >> (8 * k)) & 63); } // a cluster
        v[3] = amode == 0 ? 255 : amode == 1 ? (px >> 30 & 1) * 255 : amode == 2 ? (int)((px >> 30 & 15) * 17) : amode == 3 ? (int)(px >> 30 & 255) : (int)(((px >> 30) & 1) ? blk >> 40 & 255 : blk >> 50 & 255);
        for (int q = 0; q < nc; q++) {
            int val = f == IL_ALPHA ? v[3] : f == IL_LUMINANCE ? v[0] : f == IL_LUMINANCE_ALPHA ? (q ? v[3] : v[0]) : q == 3 ? v[3] : (f == IL_BGR || f == IL_BGRA) ? v[2 - q] : v[q];
            uint8_t *a = im.at(x, y, z) + q * tsize(t);
            if (t == IL_UNSIGNED_BYTE) *a = (uint8_t)val;
            else if (t == IL_FLOAT || t == IL_DOUBLE) chan_set(a, t, (val + 0.001) / 255.0);
            else chan_set(a, t, val / 255.0);
        }
    }
    return im;
}
struct Want { Img rgba, lum; bool loose, nolum; };
// the 8-bit picture that is coded, first row at the top
static Want wanted(const Img &m) {
    Want w;
    ILuint a = new_image(m);
    CHECK(ilConvertImage(IL_RGBA, IL_UNSIGNED_BYTE), "convert", "%s: no RGBA picture", m.str().c_str());
    w.rgba = upright(get_image());
    ilDeleteImage(a);
    w.nolum = m.format == IL_ALPHA && m.type != IL_UNSIGNED_BYTE; // alpha does not become luminance
    if (m.format == IL_ALPHA) w.lum = w.nolum ? w.rgba : upright(m);
    else {
        a = new_image(m);
        CHECK(ilConvertImage(IL_LUMINANCE, IL_UNSIGNED_BYTE), "convert", "%s: no luminance picture", m.str().c_str());
        w.lum = upright(get_image());
        ilDeleteImage(a);
    }
    w.loose = m.type != IL_UNSIGNED_BYTE; // the last bit may come out either way
    return w;
}
static void alpha_check(const uint8_t *p, const std::vector<std::pair<int, int>> &px, int slack, const std::string &what, const char *sig) {
    // px: index in the block and its value
    double a[16], t[8];
    dxt_alpha5(p, a);
    t[0] = p[0]; t[1] = p[1];
    for (int i = 2; i < 8; i++) t[i] = p[0] > p[1] ? ((8 - i) * t[0] + (i - 1) * t[1]) / 7 : i < 6 ? ((6 - i) * t[0] + (i - 1) * t[1]) / 5 : i == 6 ? 0 : 255;
    int lo = 255, hi = 0;
    std::set<int> vals;
    for (auto &q : px) { lo = std::min(lo, q.second); hi = std::max(hi, q.second); vals.insert(q.second); }
    for (auto &q : px) {
        double got = a[q.first] * 255, best = 1e9;
        for (double x : t) best = std::min(best, fabs(x - q.second));
        double err = fabs(got - q.second);
        CHECK(err <= best + 1.01 + slack, sig, "%s: pixel %d has %d and is coded as %.2f, though the block has a value at distance %.2f", what.c_str(), q.first, q.second, got, best);
        CHECK(err <= (hi - lo) / 10.0 + 1.01 + slack, sig, "%s: pixel %d has %d and is coded as %.2f in a block of values from %d to %d", what.c_str(), q.first, q.second, got, lo, hi);
        if (vals.size() <= 2) CHECK(err <= 0.01 + slack, sig, "%s: pixel %d has %d and is coded as %.2f in a block of %zu values", what.c_str(), q.first, q.second, got, vals.size());
    }
}
static void verify(ILenum f, const Bytes &b, const Want &w, const std::string &what, Ctx &c) {
    int W = w.rgba.w, H = w.rgba.h, D = w.rgba.d, bw = (W + 3) / 4, bh = (H + 3) / 4, bs = bsize(f), kind = f == IL_DXT1 || f == IL_DXT1A ? 1 : f == IL_DXT3 ? 3 : 5;
    int slack = w.loose ? 1 : 0;
    CHECK(b.size() == dsize(f, W, H, D), "size", "%s: %zu bytes", what.c_str(), b.size());
    for (int z = 0; z < D; z++) for (int by = 0; by < bh; by++) for (int bx = 0; bx < bw; bx++) {
        const uint8_t *p = &b[(((size_t)z * bh + by) * bw + bx) * bs];
        std::string at = what + fmt(": block (%d,%d,%d) %s", bx, by, z, hexbytes(p, bs).c_str());
        std::vector<std::pair<int, int>> ch[4], lum;
        for (int i = 0; i < 16; i++) {
            int x = bx * 4 + i % 4, y = by * 4 + i / 4;
            if (x >= W || y >= H) continue;
            for (int k = 0; k < 4; k++) ch[k].push_back({i, w.rgba.at(x, y, z)[k]});
            lum.push_back({i, *w.lum.at(x, y, z)});
        }
        if (f == IL_ATI1N) { alpha_check(p, lum, slack, at, "ati1n"); continue; }
        if (f == IL_3DC) { alpha_check(p, ch[1], slack, at + " first channel", "3dc"); alpha_check(p + 8, ch[0], slack, at + " second channel", "3dc"); continue; }
        double o[16][4], col[4][4];
        dxt_block(kind, p, o);
        const uint8_t *cb = kind == 1 ? p : p + 8;
        uint16_t e0 = cb[0] | cb[1] << 8, e1 = cb[2] | cb[3] << 8;
        bool four = kind != 1 || e0 > e1;
        dxt_colours(e0, e1, four, col);
        if (f == IL_RXGB) alpha_check(p, ch[0], slack, at + " red", "rxgb-red");
        else if (kind == 5) alpha_check(p, ch[3], slack, at + " alpha", "dxt5-alpha");
        std::set<uint32_t> set;
        struct P { int i; double v[3]; bool seen, open; };
        std::vector<P> px;
        bool grey = true, exactly = true;
        for (size_t j = 0; j < ch[0].size(); j++) {
            P q;
            q.i = ch[0][j].first;
            int v[3] = {ch[0][j].second, ch[1][j].second, ch[2][j].second}, a = ch[3][j].second;
            if (f == IL_RXGB) v[0] = 0;
            set.insert(v[0] << 16 | v[1] << 8 | v[2]);
            grey = grey && v[0] == v[1] && v[1] == v[2];
            for (int k = 0; k < 3; k++) {
                int n = k == 1 ? 63 : 31, r = (int)floor(v[k] * n / 255.0 + 0.5);
                if (f == IL_RXGB) r = v[k] >> (k == 1 ? 2 : 3);
                exactly = exactly && fabs(r * 255.0 / n - v[k]) <= 0.51;
                q.v[k] = r * 255.0 / n;
            }
            q.seen = f == IL_RXGB || kind != 1 || a >= 128;
            q.open = w.loose && kind == 1 && (a == 127 || a == 128);
            if (f != IL_RXGB && kind == 1 && !q.open) {
                CHECK((o[q.i][3] != 0) == q.seen, "dxt1-alpha", "%s: pixel %d has alpha %d and is coded as %s", at.c_str(), q.i, a, q.seen ? "transparent" : "opaque");
                if (!q.seen) c.note("transparent");
            }
            if (kind == 3) {
                double err = fabs(o[q.i][3] * 255 - a);
                CHECK(err <= 16 + slack && (a % 17 || err <= 0.01 + 17 * slack), "dxt3-alpha", "%s: pixel %d has alpha %d and is coded as %.1f", at.c_str(), q.i, a, o[q.i][3] * 255);
            }
            px.push_back(q);
        }
        auto dist = [](const double *a, const double *b, double scale) { double t = 0; for (int k = 0; k < 3; k++) t += (a[k] * scale - b[k]) * (a[k] * scale - b[k]); return sqrt(t); };
        double wide = 0;
        for (auto &x : px) for (auto &y : px) wide = std::max(wide, dist(x.v, y.v, 1));
        double lum_lo = 256, lum_hi = -1;
        for (auto &x : px) { lum_lo = std::min(lum_lo, x.v[1]); lum_hi = std::max(lum_hi, x.v[1]); }
        for (auto &x : px) {
            if (!x.seen || x.open) continue;
            double best = 1e9, err = dist(o[x.i], x.v, 255);
            for (int k = 0; k < (four ? 4 : 3); k++) best = std::min(best, dist(col[k], x.v, 255));
            double sl = w.loose ? 12 : 0;
            CHECK(err <= best + 8 + sl, "nearest", "%s: pixel %d (%.1f,%.1f,%.1f) is coded at distance %.1f, the block has a colour at %.1f", at.c_str(), x.i, x.v[0], x.v[1], x.v[2], err, best);
            CHECK(err <= wide + 0.01 + sl, "bound", "%s: pixel %d (%.1f,%.1f,%.1f) is coded at distance %.1f, the colours of the block are within %.1f", at.c_str(), x.i, x.v[0], x.v[1], x.v[2], err, wide);
            if (set.size() <= 2) CHECK(err <= 0.01 + sl, "two-colours", "%s: pixel %d (%.1f,%.1f,%.1f) is coded at distance %.1f in a block of %zu colours", at.c_str(), x.i, x.v[0], x.v[1], x.v[2], err, set.size());
            if (grey) CHECK(err <= sqrt(3.0) * (lum_hi - lum_lo) / (four ? 6 : 4) + 16 + sl, "grey", "%s: grey pixel %d (%.1f) is coded at distance %.1f in a block from %.1f to %.1f", at.c_str(), x.i, x.v[1], err, lum_lo, lum_hi);
        }
        if (set.size() == 2) c.note("two colours");
    }
}
static const ILenum EF[] = {IL_DXT1, IL_DXT1A, IL_DXT3, IL_DXT5, IL_3DC, IL_ATI1N, IL_RXGB};
static Img source(Src &s, int w, int h, int d) {
    if (s.chance(1, 8)) return gen_indexed(s, w, h, d, s.range(1, 256), s.pick({IL_PAL_RGB24, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGRA32, IL_PAL_RGB32, IL_PAL_BGR32}));
    static const ILenum F[] = {IL_RGBA, IL_BGRA, IL_RGB, IL_BGR, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_ALPHA};
    static const ILenum T[] = {IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE};
    ILenum f = F[s.draw(7)], t = s.chance(2, 3) ? IL_UNSIGNED_BYTE : T[s.draw(5)];
    return blocky(s, w, h, d, f, t, s.range(0, 3));
}
static bool same_img(const Img &a, const Img &b) { return a.data == b.data && a.w == b.w && a.h == b.h && a.d == b.d && a.format == b.format && a.type == b.type && a.origin == b.origin && a.pal == b.pal && a.paltype == b.paltype; }
static Bytes dxtc(ILenum f) {
    ILuint n = ilGetDXTCData(NULL, 0, f);
    Bytes b(n);
    ILuint k = n ? ilGetDXTCData(&b[0], n, f) : 0;
    CHECK(k == n, "write", "ilGetDXTCData says %u bytes and then writes %u", n, k);
    return b;
}
