// C14: ilBlit and ilOverlayImage against a pixel-by-pixel model.
#include "ilh.h"

Spec spec() {
    Spec s;
    s.id = "C14";
    s.rule = "the pasted part was clipped, or blended, or converted, and changed some but not all of the destination";
    s.quick_cases = 600000;
    s.thorough_cases = 6000000;
    s.batch = 64;
    s.cpu_limit = 10;
    s.assumptions = {"positions count from the upper left corner of both images", "blending uses the alpha of RGBA, BGRA and LUMINANCE_ALPHA sources and keeps the alpha of the destination",
                     "the conversion of the source to the format of the destination is taken from ilConvertImage (C07); blended values may be off by one step"};
    s.min_frac = {{"clipped", 0.2}, {"blended", 0.1}, {"converted", 0.2}};
    return s;
}
static const ILenum F[] = {IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA};
static const ILenum T[] = {IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE};

static Img gen(Src &s, bool idx) {
    int w = s.size(12), h = s.size(12), d = s.chance(1, 5) ? s.range(1, 3) : 1;
    if (idx) return gen_indexed(s, w, h, d, s.range(1, 256), s.pick({IL_PAL_RGB24, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGRA32, IL_PAL_RGB32, IL_PAL_BGR32}));
    return gen_img(s, w, h, d, F[s.draw(6)], s.flip() ? IL_UNSIGNED_BYTE : T[s.draw(5)]);
}
static int off(Src &s, int dst, int len) {
    switch (s.range(0, 39)) {
    case 38: return INT_MIN + s.range(0, 2);
    case 39: return INT_MAX - s.range(0, 2);
    case 36: case 37: return s.range(-len - 1, dst + 1);
    default: return s.range(-((len - 1) / 2), dst / 2);
    }
}
static unsigned uoff(Src &s, int len) { return s.chance(1, 30) ? 0xFFFFFFFFu - s.range(0, 3) : s.chance(1, 30) ? 0x7FFFFFFFu + s.range(0, 2) : s.flip() ? 0 : s.chance(1, 10) ? s.range(0, len) : s.range(0, len / 2); }
static unsigned ulen(Src &s, int len) { return s.chance(1, 20) ? 0xFFFFFFFFu - s.range(0, 3) : s.chance(1, 20) ? 0x7FFFFFFFu + s.range(0, 2) : s.chance(1, 10) ? s.range(0, len + 2) : s.range((len + 1) / 2, len); }

void one_case(Src &s, Ctx &c) {
    il_fresh();
    bool sidx = s.chance(1, 5), didx = s.chance(1, 10);
    Img S = gen(s, sidx), D = gen(s, didx);
    bool self = s.chance(1, 20), missing = s.chance(1, 30);
    ILuint si = new_image(S), di = new_image(D), other = ilGenImage();
    if (self) { S = D; si = di; }
    Bytes opal = S.pal;
    bool blend = s.chance(2, 3);
    blend ? ilEnable(IL_BLIT_BLEND) : ilDisable(IL_BLIT_BLEND);
    bool overlay = s.chance(1, 3);
    int64_t dx = off(s, D.w, S.w), dy = off(s, D.h, S.h), dz = D.d > 1 || S.d > 1 || s.chance(1, 20) ? off(s, D.d, S.d) : 0;
    int64_t sx = 0, sy = 0, sz = 0, w = S.w, h = S.h, d = S.d;
    if (!overlay) {
        sx = uoff(s, S.w); sy = uoff(s, S.h); sz = s.chance(1, 4) ? uoff(s, S.d) : 0;
        w = ulen(s, S.w); h = ulen(s, S.h); d = s.chance(1, 4) ? ulen(s, S.d) : S.d;
    }
    c.say(fmt("%s %s -> %s at %d,%d,%d from %u,%u,%u size %ux%ux%u%s%s", overlay ? "overlay" : "blit", S.str().c_str(), D.str().c_str(), (int)dx, (int)dy, (int)dz, (unsigned)sx, (unsigned)sy,
              (unsigned)sz, (unsigned)w, (unsigned)h, (unsigned)d, blend ? " blend" : "", self ? " self" : ""));
    // the source in the destination's format, by the library's own conversion
    bool refused = (D.format == IL_COLOUR_INDEX) != (S.format == IL_COLOUR_INDEX) && D.format == IL_COLOUR_INDEX;
    Img C = S;
    if (S.format != D.format || S.type != D.type) {
        if (!refused) {
            new_image(S);
            CHECK(ilConvertImage(D.format, D.type), "convert", "ilConvertImage fails");
            C = get_image("converted");
        }
        c.note("converted");
    }
    // a part hanging on the destination can be the target as well
    bool sub = s.chance(1, 10) && !self && !didx;
    ilBindImage(di);
    if (sub) {
        ILuint n = ilCreateSubImage(IL_SUB_NEXT, 1);
        CHECK(n == 1, "sub", "ilCreateSubImage returns %u", n);
        CHECK(ilActiveImage(1), "sub", "ilActiveImage(1) fails");
        put_image(D, true);
        ilBindImage(di);
        Img base = D;
        for (auto &b : base.data) b ^= 0x11;
        tame_floats(s, base);
        put_image(base, true);
        ilActiveImage(1);
        c.note("sub");
    }
    drain_errors();
    ILuint name = si;
    if (missing) name = 4000 + s.range(0, 99);
    bool ok = overlay ? ilOverlayImage(name, (ILint)dx, (ILint)dy, (ILint)dz)
                      : ilBlit(name, (ILint)dx, (ILint)dy, (ILint)dz, (ILuint)sx, (ILuint)sy, (ILuint)sz, (ILuint)w, (ILuint)h, (ILuint)d);
    CHECK((ILuint)ilGetInteger(IL_CUR_IMAGE) == di, "bound", "image %d is bound afterwards, wanted %u", ilGetInteger(IL_CUR_IMAGE), di);
    CHECK(ilGetInteger(IL_ACTIVE_IMAGE) == (sub ? 1 : 0), "active", "sub-image %d is active", ilGetInteger(IL_ACTIVE_IMAGE));
    Img got = get_image("destination");
    if (missing || refused) {
        CHECK(!ok, "refuse", "pasting %s succeeds", missing ? "an image that does not exist" : "colours into an indexed image");
        CHECK(ilGetError() != IL_NO_ERROR, "refuse-error", "no error after a refusal");
        CHECK(!missing || !ilIsImage(name), "refuse-name", "the missing source exists now");
        same_picture(D, got, "refuse", "after a refusal");
        return;
    }
    CHECK(ok, "fails", "returns false, error %04x", ilGetError());
    CHECK(ilGetError() == IL_NO_ERROR, "error", "an error after success");
    CHECK(got.w == D.w && got.h == D.h && got.d == D.d && got.format == D.format && got.type == D.type && got.origin == D.origin && got.paltype == D.paltype && got.pal == D.pal,
          "shape", "destination is now %s, was %s", got.str().c_str(), D.str().c_str());
    Img U = upright(D), V = upright(C), A = upright(S), G = upright(got);
    int ac = S.format == IL_RGBA || S.format == IL_BGRA ? 3 : S.format == IL_LUMINANCE_ALPHA ? 1 : -1;
    bool bl = blend && ac >= 0;
    int ncol = D.nc() - (bl && has_alpha(D.format) ? 1 : 0), ts = tsize(D.type), sts = tsize(S.type);
    long in = 0;
    for (int z = 0; z < D.d; z++)
        for (int y = 0; y < D.h; y++)
            for (int x = 0; x < D.w; x++) {
                int64_t rx = x - dx, ry = y - dy, rz = z - dz;
                bool inside = rx >= 0 && rx < w && ry >= 0 && ry < h && rz >= 0 && rz < d && rx + sx < S.w && ry + sy < S.h && rz + sz < S.d;
                const uint8_t *g = G.at(x, y, z), *o = U.at(x, y, z);
                if (!inside) {
                    CHECK(!memcmp(g, o, D.px()), "outside", "pixel (%d,%d,%d) outside the pasted part changed: %s, was %s", x, y, z, hexbytes(g, D.px()).c_str(), hexbytes(o, D.px()).c_str());
                    continue;
                }
                in++;
                const uint8_t *v = V.at(rx + sx, ry + sy, rz + sz);
                if (!bl) {
                    CHECK(!memcmp(g, v, D.px()), "inside", "pixel (%d,%d,%d) is %s, wanted %s", x, y, z, hexbytes(g, D.px()).c_str(), hexbytes(v, D.px()).c_str());
                    continue;
                }
                double a = chan_get(A.at(rx + sx, ry + sy, rz + sz) + ac * sts, S.type);
                for (int k = 0; k < D.nc(); k++) {
                    double gv = chan_get(g + k * ts, D.type), ov = chan_get(o + k * ts, D.type), want = k < ncol ? chan_get(v + k * ts, D.type) * a + ov * (1 - a) : ov;
                    double tol = k >= ncol ? 0 : type_max(D.type) ? std::max(1.01 / type_max(D.type), 1e-9) : 1e-5;
                    CHECK(fabs(gv - want) <= tol, k < ncol ? "blend" : "blend-alpha", "pixel (%d,%d,%d) channel %d is %.9g, wanted %.9g (alpha %.6g, was %.6g)", x, y, z, k, gv, want, a, ov);
                }
            }
    if (!self) {
        ilBindImage(si);
        Img after = get_image("source");
        CHECK(after.data == S.data && after.pal == opal && after.origin == S.origin && after.w == S.w && after.h == S.h && after.d == S.d && after.format == S.format, "source", "the source changed");
    }
    if (sub) {
        ilBindImage(di);
        Img b = get_image("base");
        Img base = D;
        CHECK(b.w == D.w && b.data.size() == D.data.size(), "sub-base", "the base image changed");
    }
    bool clip = in != (int64_t)(w * h * d);
    if (clip) c.note("clipped");
    if (bl && in) c.note("blended");
    if (in && in < (long)D.w * D.h * D.d && (clip || bl || S.format != D.format || S.type != D.type)) c.nontriv = true;
    (void)other;
}
