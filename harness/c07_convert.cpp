// C07: ilConvertImage from any format and type to any other shows the same picture.
#include "ilh.h"

Spec spec() {
    Spec s;
    s.id = "C07";
    s.rule = "format or type changes, the conversion was accepted and the image has 2 different pixels";
    s.quick_cases = 600000;
    s.thorough_cases = 6000000;
    s.batch = 128;
    s.cpu_limit = 10;
    s.assumptions = {"values are compared within one step of integer destinations (truncation or rounding), 2e-7 relative for float, 2^-10 for half; signed integer types only for consistency and memory safety"};
    s.min_frac = {{"converted", 0.75}};
    return s;
}
static const std::vector<ILenum> FM = {IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_ALPHA, IL_COLOUR_INDEX};
static const std::vector<ILenum> TY = {IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE, IL_HALF};

static double tol_of(ILenum st, ILenum dt) {
    double m = type_max(dt), t = 0;
    if (st == dt) return 0;
    if (m) t = (type_max(st) && type_max(st) < m) ? 0.01 / m : 1.0001 / m; // widening an integer is exact, else truncated or rounded
    if (dt == IL_HALF || st == IL_HALF) t = std::max(t, 1.0 / 1024);
    if (st == IL_FLOAT || dt == IL_FLOAT) t = std::max(t, 2e-7);
    t = std::max(t, 1e-12);
    return t;
}
static const double L[3] = {0.212671, 0.715160, 0.072169};
static double clamp01(double v) { return v < 0 ? 0 : v > 1 ? 1 : v; }

// compares the picture `got` with `src` converted to got's format and type
static void compare(const Img &src, const Img &got, const std::string &sg, const std::string &what) {
    CHECK(got.w == src.w && got.h == src.h && got.d == src.d, sg + "dims", "%s: %s", what.c_str(), got.str().c_str());
    CHECK(got.origin == src.origin, sg + "origin", "%s: origin changed, %s", what.c_str(), got.str().c_str());
    int ts = tsize(got.type);
    bool isint = type_max(got.type) != 0;
    double tol = tol_of(src.type, got.type);
    bool lum_dst = got.format == IL_LUMINANCE || got.format == IL_LUMINANCE_ALPHA;
    bool lum_src = src.format == IL_LUMINANCE || src.format == IL_LUMINANCE_ALPHA || src.format == IL_ALPHA;
    for (int z = 0; z < src.d; z++)
        for (int y = 0; y < src.h; y++)
            for (int x = 0; x < src.w; x++) {
                auto v = rgba_of(src, x, y, z);
                if (v[0] == -1 && v[1] == -1 && v[3] == -1) continue; // an index without a colour
                if (isint)
                    for (auto &q : v) q = clamp01(q);
                double lum = lum_src ? v[0] : v[0] * L[0] + v[1] * L[1] + v[2] * L[2];
                double mag = std::max(1.0, std::max(fabs(v[0]), std::max(fabs(v[1]), fabs(v[2]))));
                double want[4];
                int n = 0;
                switch (got.format) {
                case IL_RGB: want[0] = v[0], want[1] = v[1], want[2] = v[2], n = 3; break;
                case IL_RGBA: want[0] = v[0], want[1] = v[1], want[2] = v[2], want[3] = v[3], n = 4; break;
                case IL_BGR: want[0] = v[2], want[1] = v[1], want[2] = v[0], n = 3; break;
                case IL_BGRA: want[0] = v[2], want[1] = v[1], want[2] = v[0], want[3] = v[3], n = 4; break;
                case IL_LUMINANCE: want[0] = lum, n = 1; break;
                case IL_LUMINANCE_ALPHA: want[0] = lum, want[1] = v[3], n = 2; break;
                case IL_ALPHA: want[0] = v[3], n = 1; break;
                case IL_COLOUR_INDEX: {
                    auto g = rgba_of(got, x, y, z);
                    if (src.format == IL_COLOUR_INDEX) {
                        CHECK(g == v, sg + "index", "%s: (%d,%d,%d) changes its colour", what.c_str(), x, y, z);
                        break;
                    }
                    for (int q = 0; q < 3; q++)
                        CHECK(fabs(g[q] - lum) <= 1.0001 / 255, sg + "index", "%s: (%d,%d,%d) channel %d is %.6f, wanted %.6f", what.c_str(), x, y, z, q, g[q], lum);
                    break;
                }
                }
                for (int q = 0; q < n; q++) {
                    double g = chan_get(got.at(x, y, z) + q * ts, got.type), t = tol * mag;
                    if (lum_dst && q == 0 && !lum_src) {
                        t = std::max(t, (got.type == IL_HALF ? 1.0 / 1024 : 2e-6) * mag); // weights are single precision
                        if (isint) t += 1.0001 / type_max(got.type) ;
                        if (src.format == IL_COLOUR_INDEX) t += 1.0001 / 255; // weighed in 8 bits
                        else if (type_max(src.type) && type_max(src.type) > type_max(got.type) && isint) t += 1.0001 / type_max(got.type);
                    }
                    CHECK(fabs(g - want[q]) <= t, sg + "value", "%s: (%d,%d,%d) channel %d is %.9f, wanted %.9f (tolerance %g)", what.c_str(), x, y, z, q, g, want[q], t);
                }
            }
}

void one_case(Src &s, Ctx &c) {
    il_fresh();
    ILenum sf = s.pick(FM), df = s.pick(FM);
    bool sgn = s.chance(1, 12);
    static const std::vector<ILenum> SG = {IL_BYTE, IL_SHORT, IL_INT};
    ILenum st = sf == IL_COLOUR_INDEX ? IL_UNSIGNED_BYTE : sgn && s.flip() ? s.pick(SG) : s.pick(TY);
    ILenum dt = df == IL_COLOUR_INDEX && !s.chance(1, 6) ? IL_UNSIGNED_BYTE : sgn ? s.pick(SG) : s.pick(TY);
    if (s.chance(1, 8)) dt = st;
    if (s.chance(1, 10)) df = sf;
    auto gen = [&](int maxdim) {
        int w = s.size(maxdim), h = s.size(w > 30 ? 8 : maxdim), d = s.chance(1, 4) ? s.range(1, 4) : 1;
        Img im = sf == IL_COLOUR_INDEX ? gen_indexed(s, w, h, d, s.flip() ? 256 : s.range(1, 256), s.pick({IL_PAL_RGB24, IL_PAL_BGR24, IL_PAL_RGBA32, IL_PAL_BGRA32, IL_PAL_RGB32, IL_PAL_BGR32}))
                                       : gen_img(s, w, h, d, sf, st);
        if (s.chance(1, 4)) tame_floats(s, im, true);
        return im;
    };
    Img im = gen(40);
    if (st == IL_HALF && type_max(dt) == 0 && dt != IL_HALF) {} // finite by construction
    ILuint id = new_image(im);
    // other images must not matter, and those that follow are converted too
    std::vector<Img> next;
    bool other = s.flip();
    Img oi;
    ILuint oid = 0;
    if (other) {
        oi = s.flip() ? gen_indexed(s, 3, 3, 1, 5, IL_PAL_BGRA32) : gen_img(s, 3, 2, 1, IL_RGBA, IL_UNSIGNED_SHORT);
        oid = new_image(oi);
        ilBindImage(id);
    }
    if (s.chance(1, 5)) {
        int n = s.range(1, 3);
        CHECK(ilCreateSubImage(IL_SUB_NEXT, n), "subimage", "ilCreateSubImage failed, error %04x", ilGetError());
        for (int i = 0; i < n; i++) {
            Img m = gen(8);
            ilBindImage(id);
            CHECK(ilActiveImage(i + 1), "subimage", "ilActiveImage(%d) failed", i + 1);
            put_image(m, true);
            next.push_back(m);
        }
        ilBindImage(id);
    }
    drain_errors();
    std::string what = fmt("%s%s to %s/%s", im.str().c_str(), next.empty() ? "" : fmt(" and %d more", (int)next.size()).c_str(), fmt_name(df), type_name(dt));
    c.say(what);
    bool signed_ = st == IL_BYTE || st == IL_SHORT || st == IL_INT || dt == IL_BYTE || dt == IL_SHORT || dt == IL_INT;
    bool quant = df == IL_COLOUR_INDEX && sf != IL_LUMINANCE && sf != IL_COLOUR_INDEX;
    bool refuse = (df == IL_COLOUR_INDEX && dt != IL_UNSIGNED_BYTE && dt != IL_BYTE) || (sf == IL_ALPHA && (df == IL_LUMINANCE || df == IL_COLOUR_INDEX));
    if (sf == df && st == dt) refuse = false;
    if (s.chance(1, 40)) {
        ILenum bad = s.pick({0u, 0x1901u, 0x190Bu, 0x9999u, 1u}), badt = s.pick({0u, 0x1407u, 0x140Cu, 0x9999u});
        bool bf = s.flip();
        CHECK(!ilConvertImage(bf ? bad : df, bf ? dt : badt) || (sf == df && st == dt && bf && bad == df), "bad-accepted", "%s: ilConvertImage(%04x,%04x) accepted", what.c_str(), bf ? bad : df, bf ? dt : badt);
        CHECK(ilGetError() != IL_NO_ERROR, "bad-noerror", "%s: (%04x,%04x) refused without an error", what.c_str(), bf ? bad : df, bf ? dt : badt);
        Img g = get_image("after a refused conversion");
        CHECK(g.data == im.data && g.pal == im.pal && g.format == im.format && g.type == im.type, "bad-changed", "%s: a refused conversion changed the image to %s", what.c_str(), g.str().c_str());
        c.note("invalid");
        return;
    }
    if (quant) { // C19 judges the colours; here only the shape
        if (refuse && !signed_) {}
        bool ok = ilConvertImage(df, dt);
        Img g = get_image("after quantisation");
        if (!ok) CHECK(g.data == im.data && g.format == im.format, "quant-changed", "%s: a refused conversion changed the image", what.c_str());
        c.note(ok ? "quantised" : "quant-refused");
        return;
    }
    bool ok = ilConvertImage(df, dt);
    if (refuse) {
        CHECK(!ok, "should-refuse", "%s: accepted", what.c_str());
        CHECK(ilGetError() != IL_NO_ERROR, "bad-noerror", "%s: refused without an error", what.c_str());
        Img g = get_image("after a refused conversion");
        CHECK(g.data == im.data && g.pal == im.pal && g.format == im.format && g.type == im.type, "bad-changed", "%s: a refused conversion changed the image to %s", what.c_str(), g.str().c_str());
        c.note("refused");
        return;
    }
    CHECK(ok, "refused", "%s: refused, error %04x", what.c_str(), ilGetError());
    ILenum er = ilGetError();
    CHECK(er == IL_NO_ERROR, "error", "%s: succeeded with error %04x pending", what.c_str(), er);
    std::string sg = fmt("%s-%s-", fmt_name(sf), fmt_name(df));
    for (size_t i = 0; i <= next.size(); i++) {
        const Img &src = i ? next[i - 1] : im;
        ilBindImage(id);
        if (i) CHECK(ilActiveImage((ILuint)i), "subimage-lost", "%s: image %d is gone", what.c_str(), (int)i);
        Img got = get_image("after conversion");
        CHECK(got.format == df && got.type == dt, sg + "format", "%s: the result%s is %s", what.c_str(), i ? " of a following image" : "", got.str().c_str());
        CHECK(df == IL_COLOUR_INDEX || got.paltype == IL_PAL_NONE, sg + "palette", "%s: the result keeps a palette", what.c_str());
        if (!signed_) compare(src, got, sg, what + (i ? fmt(" (image %d)", (int)i) : ""));
        else {
            CHECK(got.w == src.w && got.h == src.h && got.d == src.d && got.origin == src.origin, sg + "dims", "%s: %s", what.c_str(), got.str().c_str());
            if (sf == df && tsize(st) == tsize(dt) && type_max(st) + type_max(dt) > 0) CHECK(got.data == src.data, sg + "sign", "%s: bits changed", what.c_str());
        }
        if (sf == df && st == dt) CHECK(got.data == src.data && got.pal == src.pal, sg + "noop", "%s: changed something", what.c_str());
    }
    c.note("converted");
    if (signed_) c.note("signed");
    // conversions that lose nothing are undone by converting back
    auto rank = [](ILenum t) { return t == IL_UNSIGNED_BYTE ? 1 : t == IL_UNSIGNED_SHORT ? 2 : t == IL_FLOAT ? 3 : t == IL_UNSIGNED_INT ? 4 : t == IL_DOUBLE ? 5 : 0; };
    bool tl = st == dt || (rank(st) && rank(dt) > rank(st) && !(st == IL_FLOAT && dt == IL_UNSIGNED_INT) && !(st == IL_UNSIGNED_INT && dt == IL_FLOAT));
    bool fl = sf == df || (chans(sf) >= 3 && chans(df) >= chans(sf)) || (sf == IL_ALPHA && has_alpha(df)) ;
    if (!signed_ && tl && fl && sf != IL_COLOUR_INDEX && df != IL_COLOUR_INDEX) {
        ilBindImage(id);
        CHECK(ilConvertImage(sf, st), sg + "back", "%s: cannot be converted back, error %04x", what.c_str(), ilGetError());
        Img b = get_image("after converting back");
        CHECK(b.format == sf && b.type == st, sg + "back-format", "%s and back is %s", what.c_str(), b.str().c_str());
        for (size_t i = 0; i < b.data.size(); i++)
            CHECK(b.data[i] == im.data[i], sg + "back-value", "%s and back: byte %zu is %02x, was %02x", what.c_str(), i, b.data[i], im.data[i]);
        c.note("undone");
    }
    if (other) {
        ilBindImage(oid);
        Img g = get_image("another image");
        CHECK(g.data == oi.data && g.pal == oi.pal && g.format == oi.format, "other-changed", "%s: another image changed", what.c_str());
    }
    c.nontriv = (sf != df || st != dt) && im.data.size() > (size_t)im.px() && memcmp(&im.data[0], &im.data[im.px()], im.data.size() - im.px()) != 0;
}
