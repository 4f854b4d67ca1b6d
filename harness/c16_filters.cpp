// C16: filters of ILU against a pixel model.
#include "iluh.h"

static Img three_by_three();
static bool g_ideal; // no allowance for the known kernel errors

Spec spec() {
    Spec s;
    s.id = "C16";
    s.rule = "the image has at least four pixels that are not all alike, and the operation changed something";
    s.quick_cases = 360000;
    s.thorough_cases = 3600000;
    s.batch = 64;
    s.cpu_limit = 10;
    s.assumptions = {"the neighbourhood filters work on bytes: images of other types and indexed ones are compared with the same filter on the converted image (C07, C19)",
                     "a region leaves the pixels within 1.6 of its border open", "colour functions on signed bytes other than the scaled ones are only checked for shape and memory",
                     "blurring adds the bias 1 of its kernels; the four corners are copied"};
    s.min_frac = {{"kernel", 0.2}, {"edges", 0.05}, {"sharpen", 0.03}, {"colour", 0.3}, {"pixelize", 0.03}, {"noise", 0.03}, {"region", 0.1}, {"indexed", 0.1}, {"deep", 0.1}, {"converted", 0.1}, {"refused", 0.02}, {"one colour", 0.05}};
    s.known.push_back({"kernel-neighbours", "the 3x3 filters take the lower left neighbour twice and the lower right one never, and in the first and last column take three columns to the right (key kernel-neighbours)", [](Ctx &) {
        il_fresh();
        Img m = three_by_three();
        new_image(m);
        ILint k[9] = {0, 0, 0, 0, 0, 0, 0, 0, 1}; // moves the picture by one pixel
        CHECK(iluConvolution(k, 1, 0), "conv", "fails");
        Img g = get_image();
        CHECK(*g.at(1, 1, 0) == *m.at(2, 2, 0), "conv", "centre is %d", *g.at(1, 1, 0));
    }});
    return s;
}
static const ILenum F[] = {IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_ALPHA};
static const ILenum T[] = {IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE, IL_BYTE, IL_SHORT, IL_INT};

static Img three_by_three() {
    Img m;
    m.w = m.h = 3; m.d = 1; m.format = IL_LUMINANCE; m.type = IL_UNSIGNED_BYTE; m.paltype = IL_PAL_NONE;
    m.origin = IL_ORIGIN_UPPER_LEFT;
    for (int i = 1; i <= 9; i++) m.data.push_back(i * 10);
    return m;
}
static const int AVG[] = {1, 1, 1, 1, 1, 1, 1, 1, 1}, GAUSS[] = {1, 2, 1, 2, 4, 2, 1, 2, 1}, EMB[] = {-1, 0, 1, -1, 0, 1, -1, 0, 1},
                 SH[] = {1, 2, 1, 0, 0, 0, -1, -2, -1}, SV[] = {1, 0, -1, 2, 0, -2, 1, 0, -1}, PH[] = {1, 1, 1, 0, 0, 0, -1, -1, -1}, PV[] = {1, 0, -1, 1, 0, -1, 1, 0, -1};

// One pass of a 3x3 kernel over every slice. Where the region is uncertain the filtered value is given.
static Img kernel(const Img &m, const int *k, int scale, int bias, const Region &r, bool ideal) {
    Img n = m;
    int b = m.px();
    for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) {
        bool sx = x == 0 || x == m.w - 1, sy = y == 0 || y == m.h - 1;
        if ((sx && sy) || r.where(x, y) == 0) continue;
        for (int c = 0; c < b; c++) {
            double sum = 0;
            for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) {
                int yy = std::min(m.h - 1, std::max(0, y + j - 1)), xx = x + i - 1, v;
                if (ideal) v = m.at(std::min(m.w - 1, std::max(0, xx)), yy, z)[c];
                else if (sx) { // columns x..x+2, going on with the next row
                    int64_t pos = std::min<int64_t>((int64_t)yy * m.w + x + i, (int64_t)m.w * m.h - 1);
                    v = m.at(pos % m.w, pos / m.w, z)[c];
                } else v = m.at(i == 2 && j == 2 ? x - 1 : xx, yy, z)[c];
                sum += (double)v * k[j * 3 + i];
            }
            double v = fabs(sum / scale + bias);
            n.at(x, y, z)[c] = v >= 255 ? 255 : (int)v;
        }
    }
    return n;
}
static Img edges(const Img &m, const int *h, const int *v, const Region &r, bool ideal) {
    Img a = kernel(m, h, 1, 0, r, ideal), b = kernel(m, v, 1, 0, r, ideal), n = m;
    for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) {
        if (r.where(x, y) == 0) continue;
        for (int c = 0; c < m.px(); c++) {
            double p = a.at(x, y, z)[c], q = b.at(x, y, z)[c];
            n.at(x, y, z)[c] = std::min(255.0, sqrt(p * p + q * q));
        }
    }
    return n;
}
static double rawmax(ILenum t) {
    switch (t) {
    case IL_BYTE: return 127; case IL_UNSIGNED_BYTE: return 255; case IL_SHORT: return 32767; case IL_UNSIGNED_SHORT: return 65535;
    case IL_INT: return 2147483647.0; case IL_UNSIGNED_INT: return 4294967295.0;
    }
    return 1;
}
static bool is_float(ILenum t) { return t == IL_FLOAT || t == IL_DOUBLE; }
static bool is_signed(ILenum t) { return t == IL_BYTE || t == IL_SHORT || t == IL_INT; }
static double raw(const uint8_t *p, ILenum t) {
    switch (t) {
    case IL_BYTE: return *(int8_t *)p; case IL_UNSIGNED_BYTE: return *p;
    case IL_SHORT: { int16_t v; memcpy(&v, p, 2); return v; } case IL_UNSIGNED_SHORT: { uint16_t v; memcpy(&v, p, 2); return v; }
    case IL_INT: { int32_t v; memcpy(&v, p, 4); return v; } case IL_UNSIGNED_INT: { uint32_t v; memcpy(&v, p, 4); return v; }
    case IL_FLOAT: { float v; memcpy(&v, p, 4); return v; } case IL_DOUBLE: { double v; memcpy(&v, p, 8); return v; }
    }
    return 0;
}
// where red, green, blue and alpha are
static std::array<int, 4> places(ILenum f) {
    switch (f) {
    case IL_RGB: case IL_PAL_RGB24: case IL_PAL_RGB32: return {0, 1, 2, -1};
    case IL_BGR: case IL_PAL_BGR24: case IL_PAL_BGR32: return {2, 1, 0, -1};
    case IL_RGBA: case IL_PAL_RGBA32: return {0, 1, 2, 3};
    case IL_BGRA: case IL_PAL_BGRA32: return {2, 1, 0, 3};
    case IL_LUMINANCE: return {0, -1, -1, -1};
    case IL_LUMINANCE_ALPHA: return {0, -1, -1, 1};
    case IL_ALPHA: return {-1, -1, -1, 0};
    }
    return {-1, -1, -1, -1};
}
typedef std::function<void(double *)> Col; // red, green, blue, alpha from 0 to 1; grey: red

static void check_colours(const Img &m, const Img &g, const Col &fn, double eps, const std::string &what) {
    bool idx = m.format == IL_COLOUR_INDEX;
    ILenum t = idx ? (ILenum)IL_UNSIGNED_BYTE : m.type;
    auto pos = places(idx ? m.paltype : m.format);
    const Bytes &a = idx ? m.pal : m.data, &b = idx ? g.pal : g.data;
    int px = idx ? pal_bpp(m.paltype) : m.px(), ts = tsize(t);
    if (idx) CHECK(m.data == g.data, "colour-indices", "%s changes indices", what.c_str());
    double mx = rawmax(t), lo = is_signed(t) ? -mx - 1 : 0;
    for (size_t i = 0; i + px <= a.size(); i += px) {
        double v[4] = {1, 1, 1, 1}, o[4];
        for (int c = 0; c < 4; c++) if (pos[c] >= 0) v[c] = raw(&a[i + pos[c] * ts], t) / mx;
        if (pos[0] >= 0 && pos[1] < 0) v[1] = v[2] = v[0];
        memcpy(o, v, sizeof v);
        fn(v);
        Bytes seen(px);
        for (int c = 0; c < 4; c++) {
            if (pos[c] < 0) continue;
            double got = raw(&b[i + pos[c] * ts], t), want = v[c] * mx, was = raw(&a[i + pos[c] * ts], t);
            for (int q = 0; q < ts; q++) seen[pos[c] * ts + q] = 1;
            if (v[c] == o[c]) { bool near_ = is_float(t) && c != 3 && fabs(got - was) <= 1e-6 * (1 + fabs(was)); CHECK(near_ || got == was || (got != got && was != was), "colour-kept", "%s: channel %d of pixel %zu was %.10g and is %.10g", what.c_str(), c, i / px, was, got); continue; }
            if (is_float(t)) { CHECK(fabs(got - want) <= eps * (1 + fabs(want)), "colour", "%s: channel %d of pixel %zu was %.10g and is %.10g, wanted %.10g", what.c_str(), c, i / px, was, got, want); continue; }
            want = want < lo ? lo : want > mx ? mx : want;
            CHECK(fabs(got - want) <= 0.5 + eps * mx, "colour", "%s: channel %d of pixel %zu was %.10g and is %.10g, wanted %.10g", what.c_str(), c, i / px, was, got, want);
        }
        for (int q = 0; q < px; q++) if (!seen[q]) CHECK(a[i + q] == b[i + q], "colour-other", "%s changes unused bytes", what.c_str());
    }
}
// every pixel is the old one (outside the region), the new one (inside) or one of them
static std::string against(const Img &m, const Img &want, const Img &g, const Region &r) {
    for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) {
        int q = r.where(x, y);
        bool old = !memcmp(m.at(x, y, z), g.at(x, y, z), m.px()), nw = !memcmp(want.at(x, y, z), g.at(x, y, z), m.px());
        if (q == 0 && !old) return fmt("pixel (%d,%d,%d) outside of the region was %s and is %s", x, y, z, hexbytes(m.at(x, y, z), m.px()).c_str(), hexbytes(g.at(x, y, z), m.px()).c_str());
        if (q == 1 && !nw) return fmt("pixel (%d,%d,%d) was %s and is %s, wanted %s", x, y, z, hexbytes(m.at(x, y, z), m.px()).c_str(), hexbytes(g.at(x, y, z), m.px()).c_str(), hexbytes(want.at(x, y, z), m.px()).c_str());
        if (q == -1 && !nw && !old) return fmt("pixel (%d,%d,%d) at the border of the region was %s and is %s, wanted %s or no change", x, y, z, hexbytes(m.at(x, y, z), m.px()).c_str(), hexbytes(g.at(x, y, z), m.px()).c_str(), hexbytes(want.at(x, y, z), m.px()).c_str());
    }
    return "";
}
static void check_model(const Img &m, const Img &g, const Region &r, const std::function<Img(bool)> &model, const char *sig, const std::string &what) {
    std::string e = against(m, model(true), g, r);
    if (e.empty()) return;
    if (known("kernel-neighbours")) e = against(m, model(false), g, r);
    CHECK(e.empty(), sig, "%s: %s", what.c_str(), e.c_str());
}

void one_case(Src &s, Ctx &c) {
    il_fresh();
    int w = s.size(12), h = s.size(12), d = s.chance(1, 5) ? s.range(2, 3) : 1;
    bool idx = s.chance(1, 6), flat = s.chance(1, 10);
    Img m;
    if (idx) m = gen_indexed(s, w, h, d, s.range(1, 256), s.pick({IL_PAL_RGB24, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGRA32, IL_PAL_RGB32, IL_PAL_BGR32}));
    else m = gen_img(s, w, h, d, F[s.draw(7)], s.chance(2, 3) ? IL_UNSIGNED_BYTE : T[s.draw(8)]);
    if (!idx && is_float(m.type)) tame_floats(s, m);
    if (flat) { for (size_t i = m.px(); i < m.data.size(); i++) m.data[i] = m.data[i - m.px()]; c.note("one colour"); }
    ILuint other = new_image(gen_img(s, 2, 2, 1, IL_RGBA, IL_UNSIGNED_BYTE));
    Bytes ob(ilGetData(), ilGetData() + 16);
    ILuint id = new_image(m);
    if (idx) c.note("indexed");
    if (d > 1) c.note("deep");
    Img next;
    bool frames = s.chance(1, 8);
    if (frames) {
        ilCreateSubImage(IL_SUB_NEXT, 1);
        ilActiveImage(1);
        next = gen_img(s, s.size(6), s.size(6), 1, idx ? (ILenum)IL_RGB : m.format, idx ? (ILenum)IL_UNSIGNED_BYTE : m.type);
        put_image(next, true);
        ilBindImage(id);
    }
    Region r;
    if (s.chance(1, 4)) { r = gen_region(s, w, h); c.note("region"); }
    drain_errors();
    bool u8 = m.type == IL_UNSIGNED_BYTE && !idx, alpha = idx ? m.paltype == IL_PAL_RGBA32 || m.paltype == IL_PAL_BGRA32 : has_alpha(m.format);
    bool colour = m.format == IL_RGB || m.format == IL_RGBA || m.format == IL_BGR || m.format == IL_BGRA;
    auto fparam = [&]() -> float { return s.chance(1, 4) ? s.pick({0.0f, 1.0f, 2.0f, 0.5f}) : s.range(-64, 320) / 128.0f; };
    std::string what;
    std::function<ILboolean()> op;
    std::function<void(const Img &)> check; // the result when it is not refused
    bool refuse = false, may_refuse = false, bytefilter = false;
    int scale = 1, bias = 0;
    ILint k[9];
    int which = s.range(0, 19);
    if (s.chance(1, 5)) which = s.range(0, 7);
    switch (which) {
    case 0: case 1: {
        int it = s.chance(1, 2) ? 1 : s.range(0, 4);
        const int *kk = which ? GAUSS : AVG;
        int sc = which ? 16 : 9;
        what = fmt("%s(%d)", which ? "iluBlurGaussian" : "iluBlurAvg", it);
        op = [=] { return which ? iluBlurGaussian(it) : iluBlurAvg(it); };
        bytefilter = true;
        check = [=](const Img &g) {
            if (r.on() && it > 1) { // inside, the uncertain border spreads
                for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++)
                    if (r.where(x, y) == 0) CHECK(!memcmp(m.at(x, y, z), g.at(x, y, z), m.px()), "kernel-outside", "%s: pixel (%d,%d,%d) outside of the region changed", what.c_str(), x, y, z);
                return;
            }
            check_model(m, g, r, [&](bool ideal) { Img n = m; for (int i = 0; i < it; i++) n = kernel(n, kk, sc, 1, r, ideal); return n; }, "blur", what);
        };
        c.note("kernel");
        break;
    }
    case 2:
        what = "iluEmboss"; op = iluEmboss; bytefilter = true;
        check = [=](const Img &g) { check_model(m, g, r, [&](bool ideal) { return kernel(m, EMB, 1, 128, r, ideal); }, "emboss", what); };
        c.note("kernel");
        break;
    case 3:
        what = "iluEdgeDetectE"; op = iluEdgeDetectE; bytefilter = true;
        check = [=](const Img &g) { check_model(m, g, r, [&](bool ideal) { return kernel(m, EMB, 1, 0, r, ideal); }, "edge-e", what); };
        c.note("kernel");
        break;
    case 4: case 5:
        what = which == 4 ? "iluEdgeDetectP" : "iluEdgeDetectS"; bytefilter = true;
        op = which == 4 ? iluEdgeDetectP : iluEdgeDetectS;
        check = [=](const Img &g) { check_model(m, g, r, [&](bool ideal) { return edges(m, which == 4 ? PH : SH, which == 4 ? PV : SV, r, ideal); }, "edges", what); };
        c.note("edges");
        break;
    case 6: {
        float f = s.chance(1, 4) ? 1.0f : s.range(-64, 384) / 128.0f;
        int it = s.chance(1, 2) ? 1 : s.range(0, 4);
        what = fmt("iluSharpen(%g,%d)", f, it); bytefilter = true;
        op = [=] { return iluSharpen(f, it); };
        c.note("sharpen");
        check = [=](const Img &g) {
            for (int pass = 0; pass < 2; pass++) {
                Img b = kernel(m, GAUSS, 16, 1, r, pass == 0);
                std::string e;
                for (int z = 0; z < m.d && e.empty(); z++) for (int y = 0; y < m.h && e.empty(); y++) for (int x = 0; x < m.w && e.empty(); x++) {
                    int q = r.where(x, y);
                    for (int ch = 0; ch < m.px(); ch++) {
                        int v = m.at(x, y, z)[ch], bl = b.at(x, y, z)[ch], got = g.at(x, y, z)[ch], was = v;
                        bool unsure = false;
                        for (int i = 0; i < it && q; i++) {
                            if (v == bl) break;
                            float e2 = (1 - f) * bl + f * v;
                            if (fabs(e2 - floor(e2 + 0.5)) < 1e-3 && f != 1 && f != 0 && f != 0.5f && f != 2) unsure = true;
                            v = !(e2 > 0) ? 0 : e2 >= 255 ? 255 : (int)e2;
                        }
                        if (unsure || (q == -1 && got == was)) continue;
                        if (got != v) { e = fmt("%s: channel %d of pixel (%d,%d,%d) was %d and is %d, wanted %d", what.c_str(), ch, x, y, z, was, got, v); break; }
                    }
                }
                if (e.empty()) break;
                CHECK(pass == 0 && known("kernel-neighbours"), "sharpen", "%s", e.c_str());
            }
        };
        break;
    }
    case 7: {
        for (int i = 0; i < 9; i++) k[i] = s.range(-4, 4);
        if (s.chance(1, 4)) { for (int &v : k) v = 0; k[s.range(0, 8)] = s.pick({1, -1, 2}); }
        if (s.chance(1, 20)) for (int &v : k) v = s.pick({INT_MAX, INT_MIN, 1, 0});
        scale = s.range(-4, 16);
        bias = s.chance(1, 2) ? 0 : s.range(-300, 300);
        bool null = s.chance(1, 30);
        what = fmt("iluConvolution(%d %d %d  %d %d %d  %d %d %d, %d, %d)", k[0], k[1], k[2], k[3], k[4], k[5], k[6], k[7], k[8], scale, bias);
        if (null) what = "iluConvolution(NULL)";
        refuse = null || scale == 0;
        bytefilter = true;
        std::array<int, 9> ka;
        std::copy(k, k + 9, ka.begin());
        op = [=] { std::array<int, 9> t = ka; return iluConvolution(null ? nullptr : &t[0], scale, bias); };
        check = [=](const Img &g) { check_model(m, g, r, [&](bool ideal) { return kernel(m, &ka[0], scale, bias, r, ideal); }, "convolution", what); };
        c.note("kernel");
        break;
    }
    case 8: {
        ILuint ps = s.chance(1, 20) ? s.pick({0u, 0xffffffffu, 0x80000000u, 1000u}) : (ILuint)s.range(1, 8);
        what = fmt("iluPixelize(%u)", ps);
        op = [=] { return iluPixelize(ps); };
        c.note("pixelize");
        check = [=](const Img &g) {
            Img n = m;
            int b = (int)std::min<ILuint>(ps ? ps : 1, 64), ts = tsize(m.type), nc = m.nc();
            for (int z = 0; z < m.d; z += b) for (int y = 0; y < m.h; y += b) for (int x = 0; x < m.w; x += b) for (int ch = 0; ch < nc; ch++) {
                long double sum = 0;
                int num = 0;
                for (int kz = z; kz < std::min(z + b, m.d); kz++) for (int j = y; j < std::min(y + b, m.h); j++) for (int i = x; i < std::min(x + b, m.w); i++, num++) sum += raw(m.at(i, j, kz) + ch * ts, m.type);
                sum /= num;
                for (int kz = z; kz < std::min(z + b, m.d); kz++) for (int j = y; j < std::min(y + b, m.h); j++) for (int i = x; i < std::min(x + b, m.w); i++) {
                    double was = raw(m.at(i, j, kz) + ch * ts, m.type), got = raw(g.at(i, j, kz) + ch * ts, m.type);
                    int q = r.where(i, j);
                    bool ok = is_float(m.type) ? fabs(got - (double)sum) <= 1e-6 * (1 + fabs((double)sum)) : got == (double)truncl(sum);
                    if (q == 0) CHECK(got == was, "pixelize-outside", "%s: channel %d of pixel (%d,%d,%d) outside of the region was %.10g and is %.10g", what.c_str(), ch, i, j, kz, was, got);
                    else CHECK(ok || (q == -1 && got == was), "pixelize", "%s: channel %d of pixel (%d,%d,%d) was %.10g and is %.10g, its block has the average %.10g", what.c_str(), ch, i, j, kz, was, got, (double)sum);
                }
            }
        };
        break;
    }
    case 9: {
        float tol = s.chance(1, 4) ? s.pick({0.0f, 1.0f, -1.0f, 5.0f}) : s.range(0, 256) / 256.0f;
        what = fmt("iluNoisify(%g)", tol);
        op = [=] { return iluNoisify(tol); };
        c.note("noise");
        check = [=](const Img &g) {
            if (idx) return;
            double t = tol < 0 ? 0 : tol > 1 ? 1 : tol, mx = m.type == IL_BYTE ? 255 : m.type == IL_SHORT ? 65535 : m.type == IL_INT ? 4294967295.0 : rawmax(m.type);
            double lim = is_float(m.type) ? t * 0.5 : floor(t * floor(mx / 2)), top = rawmax(m.type), low = is_signed(m.type) ? -top - 1 : 0;
            int ts = tsize(m.type), nc = m.nc(), cols = nc - (has_alpha(m.format) ? 1 : 0);
            for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) {
                int q = r.where(x, y);
                double lo = -lim, hi = lim;
                for (int ch = 0; ch < nc; ch++) {
                    double was = raw(m.at(x, y, z) + ch * ts, m.type), got = raw(g.at(x, y, z) + ch * ts, m.type), e = is_float(m.type) ? 1e-6 * (1 + fabs(was)) : 0;
                    if (q == 0 || ch >= cols) { CHECK(got == was, ch >= cols ? "noise-alpha" : "noise-outside", "%s: channel %d of pixel (%d,%d,%d) was %.10g and is %.10g", what.c_str(), ch, x, y, z, was, got); continue; }
                    // the values the noise of this pixel may have
                    if (is_float(m.type) || (got > low && got < top)) { lo = std::max(lo, got - was - e); hi = std::min(hi, got - was + e); }
                    else if (got == low) hi = std::min(hi, got - was);
                    else lo = std::max(lo, got - was);
                    if (got == low && got == was) hi = std::min(hi, 0.0);
                    CHECK(lo <= hi + 2 * e, "noise", "%s: channel %d of pixel (%d,%d,%d) was %.10g and is %.10g, the noise of this pixel cannot be the same in all channels or is above %g", what.c_str(), ch, x, y, z, was, got, lim);
                }
            }
        };
        break;
    }
    case 10: {
        float f = fparam();
        what = fmt("iluScaleAlpha(%g)", f);
        op = [=] { return iluScaleAlpha(f); };
        refuse = !alpha;
        check = [=](const Img &g) { check_colours(m, g, [=](double *v) { v[3] *= f; }, 1e-6, what); };
        break;
    }
    case 11: {
        float a = fparam(), b = fparam(), e = fparam();
        what = fmt("iluScaleColours(%g,%g,%g)", a, b, e);
        op = [=] { return iluScaleColours(a, b, e); };
        refuse = m.format == IL_ALPHA;
        check = [=](const Img &g) { check_colours(m, g, [=](double *v) { v[0] *= a; v[1] *= b; v[2] *= e; }, 1e-6, what); };
        break;
    }
    case 12: {
        float a = s.chance(1, 10) ? s.pick({0.0f, -1.0f, (float)NAN}) : s.chance(1, 4) ? 1.0f : s.range(1, 320) / 100.0f;
        what = fmt("iluGammaCorrect(%g)", a);
        op = [=] { return iluGammaCorrect(a); };
        refuse = !(a > 0);
        check = [=](const Img &g) { check_colours(m, g, [=](double *v) { for (int i = 0; i < 3; i++) if (v[i] > 0) v[i] = pow(v[i], 1.0 / a); }, 2e-6, what); };
        break;
    }
    case 13: {
        float a = fparam(), w4[3] = {0.3086f, 0.6094f, 0.0820f};
        bool four = s.flip();
        if (four) for (float &q : w4) q = s.range(0, 100) / 100.0f;
        what = four ? fmt("iluSaturate4f(%g,%g,%g,%g)", w4[0], w4[1], w4[2], a) : fmt("iluSaturate1f(%g)", a);
        double p = w4[0], q = w4[1], u = w4[2];
        op = [=] { return four ? iluSaturate4f((float)p, (float)q, (float)u, a) : iluSaturate1f(a); };
        refuse = !colour;
        check = [=](const Img &g) { check_colours(m, g, [=](double *v) { double l = (1 - (double)a) * (v[0] * p + v[1] * q + v[2] * u); for (int i = 0; i < 3; i++) v[i] = l + a * v[i]; }, 1e-5, what); };
        break;
    }
    case 14: {
        float a = fparam();
        what = fmt("iluContrast(%g)", a);
        op = [=] { return iluContrast(a); };
        check = [=](const Img &g) { check_colours(m, g, [=](double *v) { for (int i = 0; i < 3; i++) v[i] = (1 - (double)a) * 127 / 255 + a * v[i]; }, 1e-6, what); };
        break;
    }
    case 15:
        what = "iluAlienify"; op = iluAlienify; refuse = !colour;
        check = [=](const Img &g) { check_colours(m, g, [](double *v) { v[0] = v[2]; }, 0, what); };
        break;
    case 16:
        what = "iluSepia"; op = iluSepia; refuse = !colour || !u8;
        check = [=](const Img &g) {
            auto p = places(m.format);
            for (size_t i = 0; i < m.data.size(); i += m.px()) {
                double R = m.data[i + p[0]], G = m.data[i + p[1]], B = m.data[i + p[2]];
                double v[3] = {R * 0.393 + G * 0.769 + B * 0.189, R * 0.349 + G * 0.686 + B * 0.168, R * 0.272 + G * 0.534 + B * 0.131};
                for (int ch = 0; ch < 3; ch++) {
                    double got = g.data[i + p[ch]], want = std::min(255.0, v[ch]);
                    CHECK(got <= want + 1e-6 && got > want - 1 - 1e-6, "sepia", "%s: channel %d of (%g,%g,%g) is %g, wanted %g", what.c_str(), ch, R, G, B, got, want);
                }
                if (p[3] >= 0) CHECK(m.data[i + 3] == g.data[i + 3], "sepia-alpha", "%s changes the alpha channel", what.c_str());
            }
        };
        break;
    case 17: {
        what = "iluEqualize"; op = iluEqualize; may_refuse = m.format == IL_ALPHA; refuse = m.type != IL_UNSIGNED_BYTE && m.type != IL_BYTE;
        Bytes lum;
        if (m.format != IL_ALPHA && (u8 || idx)) {
            Img t = m;
            if (idx) { // the histogram of the palette
                t.format = m.paltype == IL_PAL_RGB24 ? IL_RGB : m.paltype == IL_PAL_BGR24 ? IL_BGR : m.paltype == IL_PAL_RGB32 || m.paltype == IL_PAL_RGBA32 ? IL_RGBA : IL_BGRA;
                t.paltype = IL_PAL_NONE; t.pal.clear(); t.data = m.pal; t.h = t.d = 1; t.w = (int)(m.pal.size() / pal_bpp(m.paltype));
            }
            ILuint tmp = new_image(t);
            if (ilConvertImage(IL_LUMINANCE, IL_UNSIGNED_BYTE)) lum.assign(ilGetData(), ilGetData() + (size_t)t.w * t.h * t.d);
            ilDeleteImage(tmp);
            ilBindImage(id);
        }
        check = [=](const Img &g) {
            if (lum.empty()) return;
            const Bytes &a = idx ? m.pal : m.data, &b = idx ? g.pal : g.data;
            int px = idx ? pal_bpp(m.paltype) : m.px(), cols = px >= 3 ? 3 : 1;
            if (idx) CHECK(m.data == g.data, "equalize-indices", "%s changes indices", what.c_str());
            uint64_t hist[256] = {}, below[256] = {};
            for (auto v : lum) hist[v]++;
            for (int i = 1; i < 256; i++) below[i] = below[i - 1] + hist[i - 1];
            for (size_t i = 0; i < lum.size(); i++) for (int ch = 0; ch < px; ch++) {
                double was = a[i * px + ch], got = b[i * px + ch], want = was;
                if (ch < cols) want = lum[i] ? std::min(255.0, was * (double)(below[lum[i]] * 256 / lum.size()) / lum[i]) : 0;
                CHECK(got <= want + 1e-3 && got > want - 1 - 1e-3, "equalize", "%s: channel %d of pixel %zu was %g and is %g, wanted %g (luminance %d)", what.c_str(), ch, i, was, got, want, lum[i]);
            }
        };
        break;
    }
    case 18:
        what = "iluEqualize2"; op = iluEqualize2; refuse = !colour || (m.type != IL_UNSIGNED_BYTE && m.type != IL_BYTE); may_refuse = true;
        check = [=](const Img &g) {
            if (!u8) return;
            double avg[3] = {}, mn[3], mxv[3];
            size_t n = m.data.size() / m.px();
            for (size_t i = 0; i < m.data.size(); i += m.px()) for (int ch = 0; ch < 3; ch++) avg[ch] += m.data[i + ch];
            for (double &a : avg) a /= n;
            if (avg[0] == avg[1] || avg[1] == avg[2] || avg[0] == avg[2]) return;
            int lo = std::min_element(avg, avg + 3) - avg, hi = std::max_element(avg, avg + 3) - avg, mid = 3 - lo - hi;
            double f[3] = {1, 1, 1};
            f[lo] = avg[mid] / avg[lo];
            f[hi] = avg[mid] / avg[hi];
            for (int ch = 0; ch < 3; ch++) {
                mn[ch] = 1e9; mxv[ch] = -1;
                for (size_t i = ch; i < m.data.size(); i += m.px()) { mn[ch] = std::min(mn[ch], m.data[i] * f[ch]); mxv[ch] = std::max(mxv[ch], m.data[i] * f[ch]); }
            }
            for (size_t i = 0; i < m.data.size(); i++) {
                int ch = i % m.px();
                double want = ch == 3 ? m.data[i] : (m.data[i] * f[ch] - mn[ch]) * 255 / (mxv[ch] - mn[ch]);
                CHECK(g.data[i] <= want + 1e-6 && g.data[i] > want - 1 - 1e-6, "equalize2", "%s: channel %d of pixel %zu was %d and is %d, wanted %g", what.c_str(), ch, i / m.px(), m.data[i], g.data[i], want);
            }
        };
        break;
    case 19: {
        float tol = s.chance(1, 4) ? s.pick({0.0f, 1.0f, 2.0f}) : s.range(-64, 128) / 128.0f;
        int nb[3] = {s.range(0, 255), s.range(0, 255), s.range(0, 255)}, cb[3];
        // the colour to replace is the clear colour: one that is in the image, or near
        auto p = places(m.format);
        size_t at = (size_t)s.range(0, w * h * d - 1) * m.px();
        for (int i = 0; i < 3; i++) cb[i] = u8 && p[i] >= 0 ? std::min(255, std::max(0, m.data[at + p[i]] + s.range(-3, 3))) : s.range(0, 255);
        ilClearColour(cb[0] / 255.0f, cb[1] / 255.0f, cb[2] / 255.0f, 1.0f);
        what = fmt("iluReplaceColour(%d,%d,%d,%g) with (%d,%d,%d) as the colour to replace", nb[0], nb[1], nb[2], tol, cb[0], cb[1], cb[2]);
        ILubyte R = nb[0], G = nb[1], B = nb[2];
        op = [=] { return iluReplaceColour(R, G, B, tol); };
        refuse = tsize(m.type) > 1;
        std::array<int, 3> cl = {cb[0], cb[1], cb[2]}, nw = {nb[0], nb[1], nb[2]};
        check = [=](const Img &g) {
            if (m.type != IL_UNSIGNED_BYTE) return;
            int lim = (int)(std::min(1.0f, fabsf(tol)) * 255);
            if (tol == 0 || idx || m.format == IL_ALPHA) { CHECK(g.data == m.data, "replace-none", "%s changes pixels", what.c_str()); return; }
            for (size_t i = 0; i < m.data.size(); i += m.px()) {
                int dist2 = 0, dist;
                bool grey = p[1] < 0;
                for (int ch = 0; ch < (grey ? 1 : 3); ch++) dist2 += (m.data[i + p[ch]] - cl[ch]) * (m.data[i + p[ch]] - cl[ch]);
                dist = (int)sqrt((double)dist2);
                for (int ch = 0; ch < m.px(); ch++) {
                    int want = m.data[i + ch];
                    if (dist <= lim) for (int q = 0; q < (grey ? 1 : 3); q++) if (p[q] == ch) want = grey ? nw[2] : nw[q];
                    CHECK(g.data[i + ch] == want, "replace", "%s: byte %d of pixel %zu was %d and is %d, wanted %d (distance %d)", what.c_str(), ch, i / m.px(), m.data[i + ch], g.data[i + ch], want, dist);
                }
            }
        };
        break;
    }
    }
    if (which >= 10) c.note("colour");
    what += " on " + m.str();
    if (r.on()) what += ", " + r.str();
    c.say(what);
    // a filter for bytes does the same to the converted image
    bool conv = (bytefilter && !u8) || (which == 8 && idx);
    Img want;
    if (conv && !refuse) {
        c.note("converted");
        ILuint cp = ilCloneCurImage();
        ilBindImage(cp);
        ILenum base = !idx ? m.format : m.paltype == IL_PAL_RGB24 || m.paltype == IL_PAL_RGB32 ? IL_RGB : m.paltype == IL_PAL_RGBA32 ? IL_RGBA : m.paltype == IL_PAL_BGRA32 ? IL_BGRA : IL_BGR;
        if (m.paltype == IL_PAL_RGB32) base = IL_RGBA;
        if (m.paltype == IL_PAL_BGR32) base = IL_BGRA;
        CHECK(ilConvertImage(base, IL_UNSIGNED_BYTE), "convert", "%s: the copy cannot be converted", what.c_str());
        CHECK(op(), "convert", "%s: the converted copy is refused", what.c_str());
        CHECK(ilConvertImage(m.format, m.type), "convert", "%s: the copy cannot be converted back", what.c_str());
        want = get_image("converted copy");
        ilDeleteImage(cp);
        ilBindImage(id);
        drain_errors();
    }
    ILboolean ok = op();
    CHECK((ILuint)ilGetInteger(IL_CUR_IMAGE) == id, "bound", "%s: image %d is bound", what.c_str(), ilGetInteger(IL_CUR_IMAGE));
    Img g = get_image(what.c_str());
    if (!ok) {
        CHECK(refuse || may_refuse, "fails", "%s fails, error %04x", what.c_str(), ilGetError());
        CHECK(ilGetError() != IL_NO_ERROR, "refuse-error", "%s: no error", what.c_str());
        CHECK(g.data == m.data && g.pal == m.pal && g.w == w && g.h == h && g.d == d && g.origin == m.origin, "refuse", "%s is refused and changes the image", what.c_str());
        c.note("refused");
    } else {
        CHECK(!refuse, "not-refused", "%s succeeds", what.c_str());
        CHECK(ilGetError() == IL_NO_ERROR, "error", "%s leaves an error", what.c_str());
        CHECK(g.w == w && g.h == h && g.d == d && g.format == m.format && g.type == m.type && g.origin == m.origin, "kind", "%s gives %s", what.c_str(), g.str().c_str());
        if (conv) {
            CHECK(g.data == want.data && g.pal == want.pal && g.paltype == want.paltype, "converted", "%s: the result is not that of the converted image", what.c_str());
        } else {
            if (!idx) CHECK(g.pal.empty(), "palette", "%s makes a palette", what.c_str());
            check(g);
        }
        bool varied = false;
        for (size_t i = m.px(); i < m.data.size(); i++) varied = varied || m.data[i] != m.data[i - m.px()];
        c.nontriv = varied && w * h * d >= 4 && (g.data != m.data || g.pal != m.pal);
    }
    if (frames) {
        CHECK(ilActiveImage(1), "frames", "%s: the second frame is gone", what.c_str());
        Img n = get_image("second frame");
        CHECK(n.data == next.data && n.w == next.w && n.h == next.h, "frames", "%s changes another frame", what.c_str());
    }
    ilBindImage(other);
    CHECK(!memcmp(ilGetData(), &ob[0], 16), "other", "another image changed");
}
