// C17: scaling against reference resampling, and mipmap chains.
#include "ilh.h"

Spec spec() {
    Spec s;
    s.id = "C17";
    s.rule = "the size changes and the source has at least two different pixels";
    s.quick_cases = 480000;
    s.thorough_cases = 4800000;
    s.batch = 64;
    s.cpu_limit = 10;
    s.assumptions = {"sample positions are x*old/new (the upper left of each new pixel); interpolated values may be off by one step, filtered ones (two passes over bytes) by two",
                     "the filters beyond bilinear may refuse anything but flat byte images that are not indexed; shrinking is always interpolation", "an indexed image scaled with interpolation is quantised again (C19), its colours are compared on average"};
    s.min_frac = {{"nearest", 0.1}, {"linear", 0.1}, {"filter", 0.2}, {"enlarge", 0.2}, {"shrink", 0.1}, {"mixed", 0.1}, {"mipmaps", 0.05}, {"deep", 0.05}, {"indexed", 0.05}};
    return s;
}
static const ILenum F[] = {IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_ALPHA};
static const ILenum T[] = {IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE, IL_BYTE, IL_SHORT, IL_INT};
static const ILenum FL[] = {ILU_NEAREST, ILU_LINEAR, ILU_BILINEAR, ILU_SCALE_BOX, ILU_SCALE_TRIANGLE, ILU_SCALE_BELL, ILU_SCALE_BSPLINE, ILU_SCALE_LANCZOS3, ILU_SCALE_MITCHELL};
static const char *FN[] = {"nearest", "linear", "bilinear", "box", "triangle", "bell", "bspline", "lanczos3", "mitchell"};

// unscaled values in doubles
struct Field {
    int w, h, d, n;
    std::vector<double> v;
    Field(int w, int h, int d, int n) : w(w), h(h), d(d), n(n), v((size_t)w * h * d * n) {}
    double &at(int x, int y, int z, int c) { return v[(((size_t)z * h + y) * w + x) * n + c]; }
    double at(int x, int y, int z, int c) const { return v[(((size_t)z * h + y) * w + x) * n + c]; }
};
static double rawmax(ILenum t) {
    switch (t) {
    case IL_BYTE: return 127; case IL_UNSIGNED_BYTE: return 255; case IL_SHORT: return 32767; case IL_UNSIGNED_SHORT: return 65535;
    case IL_INT: return 2147483647.0; case IL_UNSIGNED_INT: return 4294967295.0;
    }
    return 1;
}
static Field field(const Img &m) {
    Field f(m.w, m.h, m.d, m.nc());
    int ts = tsize(m.type);
    for (size_t i = 0; i < f.v.size(); i++) f.v[i] = chan_get(&m.data[i * ts], m.type) * rawmax(m.type);
    return f;
}
static Field field_rgba(const Img &m) {
    Field f(m.w, m.h, m.d, 4);
    for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) {
        auto p = rgba_of(m, x, y, z);
        for (int c = 0; c < 4; c++) f.at(x, y, z, c) = p[c] * 255;
    }
    return f;
}
static Field interpolate(const Field &a, int W, int H, int D, int mode) { // 0 nearest, 1 along the rows, 2 everywhere
    Field b(W, H, D, a.n);
    for (int z = 0; z < D; z++) for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) {
        int64_t px = (int64_t)x * a.w, py = (int64_t)y * a.h, pz = (int64_t)z * a.d;
        int x0 = px / W, y0 = py / H, z0 = pz / D, x1 = std::min(x0 + 1, a.w - 1), y1 = std::min(y0 + 1, a.h - 1), z1 = std::min(z0 + 1, a.d - 1);
        double fx = mode ? double(px % W) / W : 0, fy = mode == 2 ? double(py % H) / H : 0, fz = mode == 2 ? double(pz % D) / D : 0;
        for (int c = 0; c < a.n; c++) {
            auto l = [&](int yy, int zz) { return a.at(x0, yy, zz, c) * (1 - fx) + a.at(x1, yy, zz, c) * fx; };
            double p = l(y0, z0) * (1 - fy) + l(y1, z0) * fy, q = l(y0, z1) * (1 - fy) + l(y1, z1) * fy;
            b.at(x, y, z, c) = p * (1 - fz) + q * fz;
        }
    }
    return b;
}
static double kernel(ILenum k, double t) {
    double a = fabs(t);
    auto sinc = [](double x) { return x == 0 ? 1.0 : sin(M_PI * x) / (M_PI * x); };
    switch (k) {
    case ILU_SCALE_BOX: return t > -0.5 && t <= 0.5;
    case ILU_SCALE_TRIANGLE: return a < 1 ? 1 - a : 0;
    case ILU_SCALE_BELL: return a < .5 ? .75 - a * a : a < 1.5 ? .5 * (a - 1.5) * (a - 1.5) : 0;
    case ILU_SCALE_BSPLINE: return a < 1 ? .5 * a * a * a - a * a + 2 / 3.0 : a < 2 ? (2 - a) * (2 - a) * (2 - a) / 6 : 0;
    case ILU_SCALE_LANCZOS3: return a < 3 ? sinc(a) * sinc(a / 3) : 0;
    case ILU_SCALE_MITCHELL: return a < 1 ? (7 * a * a * a - 12 * a * a + 16 / 3.0) / 6 : a < 2 ? (-7 / 3.0 * a * a * a + 12 * a * a - 20 * a + 32 / 3.0) / 6 : 0;
    }
    return 0;
}
static double support(ILenum k) { return k == ILU_SCALE_BOX ? 0.5 : k == ILU_SCALE_TRIANGLE ? 1 : k == ILU_SCALE_BELL ? 1.5 : k == ILU_SCALE_LANCZOS3 ? 3 : 2; }
// one dimension: weights of the sources for new sample i; close: a sample lies on the edge of a box
static std::vector<std::pair<int, double>> weights(ILenum k, int from, int to, int i, bool &close) {
    double sc = (double)to / from, f = sc < 1 ? 1 / sc : 1, centre = i / sc, wd = support(k) * f, sum = 0;
    std::vector<std::pair<int, double>> r;
    for (int j = (int)ceil(centre - wd - 1e-6); j <= (int)floor(centre + wd + 1e-6); j++) {
        double t = (centre - j) / f;
        if (k == ILU_SCALE_BOX && fabs(fabs(t) - 0.5) < 1e-6) close = true;
        double v = kernel(k, t) / f;
        int n = ((j % (2 * from)) + 2 * from) % (2 * from);
        r.push_back({n < from ? n : 2 * from - 1 - n, v});
        sum += v;
    }
    for (auto &p : r) p.second /= sum;
    return r;
}
static Field filtered(const Field &a, int W, int H, ILenum k, bool &close) {
    Field t(W, a.h, 1, a.n), b(W, H, 1, a.n);
    auto cl = [](double v) { return v < 0 ? 0 : v > 255 ? 255 : floor(v + 0.5); };
    for (int x = 0; x < W; x++) {
        auto ws = weights(k, a.w, W, x, close);
        for (int y = 0; y < a.h; y++) for (int c = 0; c < a.n; c++) {
            double s = 0;
            for (auto &p : ws) s += a.at(p.first, y, 0, c) * p.second;
            t.at(x, y, 0, c) = cl(s);
        }
    }
    for (int y = 0; y < H; y++) {
        auto ws = weights(k, a.h, H, y, close);
        for (int x = 0; x < W; x++) for (int c = 0; c < a.n; c++) {
            double s = 0;
            for (auto &p : ws) s += t.at(x, p.first, 0, c) * p.second;
            b.at(x, y, 0, c) = s;
        }
    }
    return b;
}
static double g_tol(ILenum t, double v) { return t == IL_FLOAT ? 1e-6 + fabs(v) * 1e-6 : t == IL_DOUBLE ? 1e-9 : 1.001; }

// src scaled to W x H x D with a filter; false if it may be refused
static void compare(const Img &src, const Img &got, int W, int H, int D, ILenum fl, const std::string &what) {
    CHECK(got.w == W && got.h == H && got.d == D, "size", "%s gives %s", what.c_str(), got.str().c_str());
    CHECK(got.format == src.format && got.type == src.type && got.origin == src.origin, "kind", "%s gives %s", what.c_str(), got.str().c_str());
    bool idx = src.format == IL_COLOUR_INDEX, up = W > src.w || H > src.h, adv = fl != ILU_NEAREST && fl != ILU_LINEAR && fl != ILU_BILINEAR;
    if (fl == ILU_NEAREST || (W == src.w && H == src.h && D == src.d)) {
        CHECK(got.pal == src.pal && got.paltype == src.paltype, "nearest-palette", "%s changes the palette", what.c_str());
        for (int z = 0; z < D; z++) for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) {
            const uint8_t *o = src.at((int)((int64_t)x * src.w / W), (int)((int64_t)y * src.h / H), (int)((int64_t)z * src.d / D)), *g = got.at(x, y, z);
            CHECK(!memcmp(o, g, src.px()), "nearest", "%s: pixel (%d,%d,%d) is %s, wanted %s", what.c_str(), x, y, z, hexbytes(g, src.px()).c_str(), hexbytes(o, src.px()).c_str());
        }
        return;
    }
    Field a = idx ? field_rgba(src) : field(src), g = idx ? field_rgba(got) : field(got);
    bool close = false;
    Field want = a;
    double tolx = 0;
    if (!adv || !up) want = interpolate(a, W, H, D, fl == ILU_LINEAR ? 1 : 2);
    else {
        if (src.w > W) want = interpolate(a, W, src.h, 1, 2);
        else if (src.h > H) want = interpolate(a, src.w, H, 1, 2);
        for (auto &v : want.v) v = floor(v + 0.5);
        want = filtered(want, W, H, fl, close);
        tolx = fl == ILU_SCALE_LANCZOS3 || fl == ILU_SCALE_MITCHELL ? 1.5 : 1;
        for (auto &v : want.v) v = v < 0 ? 0 : v > 255 ? 255 : v;
    }
    bool positive = !adv || !up || (fl != ILU_SCALE_LANCZOS3 && fl != ILU_SCALE_MITCHELL);
    double sum = 0;
    for (int c = 0; c < (idx ? 3 : a.n); c++) { // quantising drops the alpha channel
        double lo = 1e300, hi = -1e300;
        for (size_t i = c; i < a.v.size(); i += a.n) { lo = std::min(lo, a.v[i]); hi = std::max(hi, a.v[i]); }
        for (size_t i = c; i < g.v.size(); i += a.n) {
            double v = g.v[i], t = g_tol(idx ? IL_UNSIGNED_BYTE : src.type, want.v[i]);
            if (idx) { sum += fabs(v - want.v[i]); if (lo < hi) continue; t = 2; }
            if (lo == hi) CHECK(fabs(v - lo) <= (idx ? t : fabs(lo) * 1e-7), "constant", "%s: channel %d is %.10g everywhere and %.10g afterwards", what.c_str(), c, lo, v);
            if (positive) CHECK(v >= lo - t && v <= hi + t, "range", "%s: channel %d has %.10g, the source %.10g to %.10g", what.c_str(), c, v, lo, hi);
            if (!close) CHECK(fabs(v - want.v[i]) <= t + tolx, adv && up ? "filter" : "linear", "%s: channel %d of pixel %zu is %.10g, wanted %.10g", what.c_str(), c, i / a.n, v, want.v[i]);
        }
    }
    if (idx) CHECK(sum / (want.v.size() / 4 * 3) < 14, "indexed", "%s: colours are off by %g on average", what.c_str(), sum / (want.v.size() / 4 * 3));
}

void one_case(Src &s, Ctx &c) {
    il_fresh();
    int w = s.size(20), h = s.size(20), d = s.chance(1, 5) ? s.range(2, 4) : 1;
    bool idx = s.chance(1, 8);
    Img m;
    if (idx) m = gen_indexed(s, w, h, d, s.range(1, 64), s.pick({IL_PAL_RGB24, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGRA32, IL_PAL_RGB32, IL_PAL_BGR32}));
    else m = gen_img(s, w, h, d, F[s.draw(7)], s.chance(2, 3) ? IL_UNSIGNED_BYTE : T[s.draw(8)]);
    int fi = s.range(0, 8);
    if (s.chance(1, 4)) fi = s.range(0, 2);
    ILenum fl = FL[fi];
    ILuint other = new_image(gen_img(s, 2, 2, 1, IL_RGBA, IL_UNSIGNED_BYTE));
    Bytes ob(ilGetData(), ilGetData() + 16);
    ILuint id = new_image(m);
    drain_errors();
    bool varied = false;
    for (size_t i = m.px(); i < m.data.size(); i++) varied = varied || m.data[i] != m.data[i - m.px()];
    c.note(fi == 0 ? "nearest" : fi <= 2 ? "linear" : "filter");
    if (idx) c.note("indexed");
    if (d > 1) c.note("deep");
    iluImageParameter(ILU_FILTER, fl);
    CHECK(iluGetInteger(ILU_FILTER) == (ILint)fl, "state", "the filter is %04x, set %04x", iluGetInteger(ILU_FILTER), fl);
    if (s.chance(1, 8)) {
        std::string what = std::string("iluBuildMipmaps (") + FN[fi] + ") on " + m.str();
        c.say(what);
        c.note("mipmaps");
        if (s.chance(1, 3)) { CHECK(ilCreateSubImage(IL_SUB_MIPMAP, s.range(1, 3)), "mipmaps", "no mipmaps can be made"); ilBindImage(id); }
        CHECK(iluBuildMipmaps(), "mip-fails", "%s fails, error %04x", what.c_str(), ilGetError());
        CHECK(ilGetError() == IL_NO_ERROR, "mip-error", "%s leaves an error", what.c_str());
        int n = 0;
        for (int q = std::max(w, std::max(h, d)); q > 1; q /= 2) n++;
        CHECK(ilGetInteger(IL_NUM_MIPMAPS) == n, "mip-count", "%s: %d mipmaps, wanted %d", what.c_str(), ilGetInteger(IL_NUM_MIPMAPS), n);
        Img prev = get_image("base");
        CHECK(prev.data == m.data && prev.pal == m.pal && prev.w == w && prev.h == h && prev.d == d, "mip-base", "%s changes the image", what.c_str());
        for (int k = 1; k <= n; k++) {
            ilBindImage(id);
            CHECK(ilActiveMipmap(k), "mip-select", "%s: no mipmap %d", what.c_str(), k);
            Img g = get_image("mipmap");
            // indexed images become true colour when their colours are mixed
            if (prev.format == IL_COLOUR_INDEX && g.format != IL_COLOUR_INDEX) {
                CHECK(g.w == std::max(1, prev.w / 2) && g.h == std::max(1, prev.h / 2) && g.d == std::max(1, prev.d / 2), "mip-size", "%s: mipmap %d is %s", what.c_str(), k, g.str().c_str());
                Field a = interpolate(field_rgba(prev), g.w, g.h, g.d, fl == ILU_LINEAR ? 1 : 2), b = field_rgba(g);
                for (size_t i = 0; i < a.v.size(); i++) CHECK(fabs(a.v[i] - b.v[i]) < 1.01, "mip-index", "%s: mipmap %d channel %zu of pixel %zu is %g, wanted %g", what.c_str(), k, i % 4, i / 4, b.v[i], a.v[i]);
            } else
                compare(prev, g, std::max(1, prev.w / 2), std::max(1, prev.h / 2), std::max(1, prev.d / 2), fl, what + fmt(", mipmap %d", k));
            prev = g;
        }
        c.nontriv = varied && n > 0;
        return;
    }
    int W, H, D = d;
    std::string what;
    bool ok, refuse = false;
    if (s.chance(1, 8)) {
        float f[3] = {s.range(1, 48) / 16.0f, s.range(1, 48) / 16.0f, d > 1 ? s.range(1, 32) / 16.0f : 1.0f};
        if (s.chance(1, 6)) f[s.range(0, 2)] = s.pick({0.0f, -1.0f, 1e20f, (float)NAN});
        what = fmt("iluEnlargeImage(%g,%g,%g) (%s) on ", f[0], f[1], f[2], FN[fi]) + m.str();
        for (float q : f) if (!(q > 0) || q > 1e10f) refuse = true;
        W = H = D = 1;
        if (!refuse) { W = std::max(1, (int)(w * f[0])); H = std::max(1, (int)(h * f[1])); D = std::max(1, (int)(d * f[2])); }
        ok = iluEnlargeImage(f[0], f[1], f[2]);
    } else {
        W = s.range(1, 26), H = s.range(1, 26);
        if (s.chance(1, 4)) { W = w * s.range(1, 3); H = h * s.range(1, 3); }
        if (s.chance(1, 10)) W = w;
        if (s.chance(1, 10)) H = h;
        if (d > 1 || s.chance(1, 10)) D = s.chance(1, 2) ? d : s.range(1, 5);
        int zero = s.chance(1, 20) ? s.range(1, 7) : 0; // a size of 0 stands for 1
        if (zero & 1) W = 1;
        if (zero & 2) H = 1;
        if (zero & 4) D = 1;
        what = fmt("iluScale(%d,%d,%d) (%s) on ", zero & 1 ? 0 : W, zero & 2 ? 0 : H, zero & 4 ? 0 : D, FN[fi]) + m.str();
        ok = iluScale(zero & 1 ? 0 : W, zero & 2 ? 0 : H, zero & 4 ? 0 : D);
    }
    c.say(what);
    bool up = W > w || H > h, down = W < w || H < h;
    c.note(up && down ? "mixed" : up ? "enlarge" : "shrink");
    Img g = get_image(what.c_str());
    bool may = fi > 2 && up && (m.type != IL_UNSIGNED_BYTE || idx || d > 1 || D > 1);
    if (!ok) {
        CHECK(refuse || may, "fails", "%s fails, error %04x", what.c_str(), ilGetError());
        CHECK(ilGetError() != IL_NO_ERROR, "refuse-error", "%s: no error", what.c_str());
        CHECK(g.data == m.data && g.pal == m.pal && g.w == w && g.h == h && g.d == d && g.origin == m.origin, "refuse", "%s is refused and changes the image", what.c_str());
        return;
    }
    CHECK(!refuse, "refuse", "%s succeeds", what.c_str());
    CHECK(ilGetError() == IL_NO_ERROR, "error", "%s leaves an error", what.c_str());
    CHECK((ILuint)ilGetInteger(IL_CUR_IMAGE) == id, "bound", "%s: image %d is bound", what.c_str(), ilGetInteger(IL_CUR_IMAGE));
    compare(m, g, W, H, D, fl, what);
    c.nontriv = varied && (W != w || H != h || D != d);
    ilBindImage(other);
    CHECK(!memcmp(ilGetData(), &ob[0], 16), "other", "another image changed");
}
