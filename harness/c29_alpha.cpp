// C29: alpha, key colour, clear and clamp operations against a pixel model.
#include "ilh.h"

Spec spec() {
    Spec s;
    s.id = "C29";
    s.rule = "the image has at least four pixels that are not all alike, and the call did something to it or read from it";
    s.quick_cases = 560000;
    s.thorough_cases = 5600000;
    s.batch = 64;
    s.cpu_limit = 10;
    s.assumptions = {"values are rescaled with the largest value of the type; a cleared channel may be rounded either way",
                     "alpha read in another type is rescaled to within one step", "a colour matches the key colour when all three channels are the value nearest to the key"};
    s.min_frac = {{"set", 0.1}, {"mod", 0.1}, {"get", 0.1}, {"clear", 0.1}, {"key", 0.1}, {"key hit", 0.05}, {"indexed", 0.1}, {"added", 0.05}};
    return s;
}
static const ILenum F[] = {IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_ALPHA};
static const ILenum T[] = {IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE, IL_BYTE, IL_SHORT, IL_INT};
static double top(ILenum t) {
    switch (t) {
    case IL_BYTE: return 127; case IL_UNSIGNED_BYTE: return 255; case IL_SHORT: return 32767; case IL_UNSIGNED_SHORT: return 65535;
    case IL_INT: return 2147483647.0; case IL_UNSIGNED_INT: return 4294967295.0;
    }
    return 0;
}
static bool is_signed(ILenum t) { return t == IL_BYTE || t == IL_SHORT || t == IL_INT; }
static double utop(ILenum t) { return tsize(t) == 1 ? 255 : tsize(t) == 2 ? 65535 : 4294967295.0; }
// the raw value of a channel
static double raw(const uint8_t *p, ILenum t) { double m = top(t); return m ? chan_get(p, t) * m : chan_get(p, t); }

void one_case(Src &s, Ctx &c) {
    il_fresh();
    int w = s.size(10), h = s.size(10), d = s.chance(1, 8) ? s.range(2, 3) : 1;
    bool idx = s.chance(1, 5);
    Img m;
    if (idx) m = gen_indexed(s, w, h, d, s.range(1, 256), s.pick({IL_PAL_RGB24, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGRA32, IL_PAL_RGB32, IL_PAL_BGR32}));
    else m = gen_img(s, w, h, d, F[s.draw(7)], s.flip() ? IL_UNSIGNED_BYTE : T[s.draw(8)]);
    if (idx) c.note("indexed");
    ILuint other = new_image(gen_img(s, 2, 2, 1, IL_RGBA, IL_UNSIGNED_BYTE));
    Bytes obytes(ilGetData(), ilGetData() + 16);
    ILuint id = new_image(m);
    int op = s.range(0, 5), ts = tsize(m.type);
    bool varied = false;
    for (size_t i = 1; i < m.data.size(); i++) varied = varied || m.data[i] != m.data[0];
    c.nontriv = varied && w * h * d >= 4;
    drain_errors();
    double v = s.chance(1, 6) ? s.pick({-0.5, 1.5, 1e9, -1e300, 0.9999999}) : s.flip() ? s.range(0, 4) / 4.0 : s.range(0, 1000) / 1000.0, cv = std::min(1.0, std::max(0.0, v));
    switch (op) {
    case 0: case 1: {
        std::string what = fmt(op ? "ilModAlpha(%g)" : "ilSetAlpha(%g)", v) + " on " + m.str();
        c.say(what);
        c.note(op ? "mod" : "set");
        bool had = has_alpha(m.format);
        if (op) ilModAlpha(v); else CHECK(ilSetAlpha(v), "set-fails", "%s fails, error %04x", what.c_str(), ilGetError());
        CHECK(ilGetError() == IL_NO_ERROR, "error", "%s leaves an error", what.c_str());
        Img g = get_image(what.c_str());
        if (op && had) { same_picture(m, g, "mod-kept", what); CHECK(g.data == m.data && g.origin == m.origin, "mod-kept", "%s changes an image with alpha", what.c_str()); break; }
        if (!had) c.note("added");
        ILenum nf = m.format == IL_RGB || idx ? IL_RGBA : m.format == IL_BGR ? IL_BGRA : m.format == IL_LUMINANCE ? IL_LUMINANCE_ALPHA : m.format;
        CHECK(g.w == w && g.h == h && g.d == d && g.format == nf && g.type == m.type && g.origin == m.origin && g.paltype == IL_PAL_NONE, "alpha-kind", "%s gives %s", what.c_str(), g.str().c_str());
        int nc = g.nc();
        for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
            const uint8_t *p = g.at(x, y, z), *o = m.at(x, y, z);
            if (idx) {
                auto q = rgba_of(m, x, y, z);
                for (int k = 0; k < 3; k++) CHECK(p[k] == lrint(q[k] * 255), "alpha-colour", "%s: pixel (%d,%d,%d) channel %d is %02x, wanted %g", what.c_str(), x, y, z, k, p[k], q[k] * 255);
            } else
                CHECK(!memcmp(p, o, ts * (nc - 1)), "alpha-colour", "%s: pixel (%d,%d,%d) is %s, was %s", what.c_str(), x, y, z, hexbytes(p, g.px()).c_str(), hexbytes(o, m.px()).c_str());
            double a = raw(p + (nc - 1) * ts, g.type), want = top(g.type) ? cv * top(g.type) : cv;
            CHECK(fabs(a - want) <= (top(g.type) ? 0.5001 : 1e-6), "alpha-value", "%s: pixel (%d,%d,%d) has alpha %.10g, wanted %.10g", what.c_str(), x, y, z, a, want);
        }
        break;
    }
    case 2: {
        ILenum t = s.chance(1, 3) ? m.type : T[s.draw(8)];
        bool bad = s.chance(1, 12);
        if (bad) t = s.pick({0u, 0x1406u + 8, 0x1399u, 0xFFFFFFFFu, (unsigned)IL_RGB});
        std::string what = fmt("ilGetAlpha(%04x)", t) + " of " + m.str();
        c.say(what);
        c.note("get");
        ILubyte *a = ilGetAlpha(t);
        Img g = get_image(what.c_str());
        CHECK(g.data == m.data && g.pal == m.pal && g.format == m.format && g.type == m.type && g.w == w && g.origin == m.origin, "get-changes", "%s changes the image", what.c_str());
        if (bad) { CHECK(!a, "get-bad", "%s gives data", what.c_str()); CHECK(ilGetError() != IL_NO_ERROR, "get-bad", "%s: no error", what.c_str()); break; }
        CHECK(a, "get-fails", "%s gives nothing, error %04x", what.c_str(), ilGetError());
        CHECK(ilGetError() == IL_NO_ERROR, "get-error", "%s leaves an error", what.c_str());
        Bytes got(a, a + (size_t)w * h * d * tsize(t));
        mem::dealloc(a);
        bool open = t != m.type && (is_signed(t) || is_signed(m.type)) && has_alpha(m.format); // conversion of signed types is not defined
        for (int i = 0; i < w * h * d && !open; i++) {
            double val = raw(&got[(size_t)i * tsize(t)], t), mx = top(t);
            if (m.paltype == IL_PAL_RGBA32 || m.paltype == IL_PAL_BGRA32) {
                double want = rgba_of(m, i % w, i / w % h, i / w / h)[3];
                CHECK(is_signed(t) || fabs(val / (mx ? mx : 1) - want) <= 1e-6 + (mx ? 1.001 / mx : 0), "get-index", "%s: alpha %d is %.10g, wanted %g of %g", what.c_str(), i, val, want, mx);
                continue;
            }
            if (!has_alpha(m.format)) { CHECK(val == (mx ? mx : 1), "get-opaque", "%s: alpha %d is %.10g, wanted opaque", what.c_str(), i, val); continue; }
            const uint8_t *o = &m.data[(size_t)i * m.px() + (m.nc() - 1) * ts];
            if (t == m.type) { CHECK(!memcmp(o, &got[(size_t)i * ts], ts), "get-value", "%s: alpha %d is %s, wanted %s", what.c_str(), i, hexbytes(&got[(size_t)i * ts], ts).c_str(), hexbytes(o, ts).c_str()); continue; }
            double want = chan_get(o, m.type) * (mx ? mx : 1);
            CHECK(fabs(val - want) <= (mx ? 1.001 : 1e-6) + want * 1e-7, "get-value", "%s: alpha %d is %.10g, wanted %.10g", what.c_str(), i, val, want);
        }
        break;
    }
    case 3: {
        float q[4];
        bool grey = s.flip();
        for (int i = 0; i < 4; i++) q[i] = s.chance(1, 8) ? s.pick({-1.0f, 2.0f, 1e30f}) : s.flip() ? s.range(0, 4) / 4.0f : s.range(0, 255) / 255.0f;
        if (grey) q[1] = q[2] = q[0];
        std::string what = fmt("ilClearImage to %g,%g,%g,%g on ", q[0], q[1], q[2], q[3]) + m.str();
        c.say(what);
        c.note("clear");
        ilClearColour(q[0], q[1], q[2], q[3]);
        CHECK(ilClearImage(), "clear-fails", "%s fails", what.c_str());
        CHECK(ilGetError() == IL_NO_ERROR, "clear-error", "%s leaves an error", what.c_str());
        for (float &f : q) f = std::min(1.0f, std::max(0.0f, f));
        Img g = get_image(what.c_str());
        CHECK(g.w == w && g.h == h && g.d == d && g.format == m.format && g.type == m.type && g.origin == m.origin, "clear-kind", "%s gives %s", what.c_str(), g.str().c_str());
        double lum = 0.212671 * q[0] + 0.715160 * q[1] + 0.072169 * q[2];
        if (idx) {
            for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
                auto p = rgba_of(g, x, y, z);
                for (int k = 0; k < 4; k++) CHECK(fabs(p[k] - q[k]) <= 1.001 / 255, "clear-index", "%s: pixel (%d,%d,%d) channel %d is %g, wanted %g", what.c_str(), x, y, z, k, p[k], q[k]);
            }
            break;
        }
        double want[4] = {q[0], q[1], q[2], q[3]};
        if (m.format == IL_BGR || m.format == IL_BGRA) std::swap(want[0], want[2]);
        if (m.format == IL_LUMINANCE || m.format == IL_LUMINANCE_ALPHA) { want[0] = lum; want[1] = q[3]; }
        if (m.format == IL_ALPHA) want[0] = q[3];
        for (size_t i = 0; i < g.data.size(); i += ts) {
            int k = (i / ts) % m.nc();
            double val;
            // signed types hold the bits of the unsigned value
            if (is_signed(m.type)) { uint32_t u = 0; memcpy(&u, &g.data[i], ts); val = u / utop(m.type); } else val = chan_get(&g.data[i], m.type);
            double tol = top(m.type) ? 1.001 / utop(m.type) + 1e-7 : 1e-6;
            CHECK(fabs(val - want[k]) <= tol, "clear-value", "%s: channel %d of pixel %zu is %.10g, wanted %.10g", what.c_str(), k, i / m.px(), val, want[k]);
            CHECK(i < (size_t)m.px() || !memcmp(&g.data[i], &g.data[i % m.px()], ts), "clear-uneven", "%s: pixel %zu differs from the first", what.c_str(), i / m.px());
        }
        break;
    }
    case 4: {
        // the key colour is one of the picture, or any
        if (m.format != IL_RGB && m.format != IL_BGR && !idx) m = gen_img(s, w, h, d, s.pick({IL_RGB, IL_BGR}), s.flip() ? IL_UNSIGNED_BYTE : T[s.draw(5)]);
        if (is_signed(m.type)) m = gen_img(s, w, h, d, m.format, IL_UNSIGNED_BYTE); // an opaque signed value is not defined

        ts = tsize(m.type);
        int np = w * h * d, pick = s.range(0, np - 1), ncol = idx ? (int)m.pal.size() / pal_bpp(m.paltype) : 0;
        float q[3] = {s.range(0, 255) / 255.0f, s.range(0, 255) / 255.0f, s.range(0, 255) / 255.0f};
        int key = idx ? s.range(0, ncol - 1) : 0;
        if (!idx && s.chance(4, 5) && !is_signed(m.type)) {
            bool fl = !top(m.type);
            for (int k = 0; k < 3; k++) {
                uint8_t *p = &m.data[(size_t)pick * m.px() + k * ts];
                double val = chan_get(p, m.type);
                if (m.type == IL_UNSIGNED_INT) { val = s.pick({0.0, 0.5, 1.0}); uint32_t u = val == 0 ? 0 : val == 1 ? 0xFFFFFFFFu : 0x80000000u; memcpy(p, &u, 4); }
                if (fl) { val = s.range(0, 16) / 16.0; chan_set(p, m.type, val); }
                q[m.format == IL_BGR ? 2 - k : k] = (float)val;
            }
            // some more of them
            for (int i = 0; i < np; i++) if (s.chance(1, 4)) memcpy(&m.data[(size_t)i * m.px()], &m.data[(size_t)pick * m.px()], m.px());
            for (int i = 0; i < np; i++) if (s.chance(1, 6)) memcpy(&m.data[(size_t)i * m.px()], &m.data[(size_t)pick * m.px()], ts * 2);
        }
        float ka = idx ? key / 255.0f : s.range(0, 4) / 4.0f;
        bool frames = s.chance(1, 4), on = s.chance(5, 6);
        ilBindImage(id);
        put_image(m);
        if (frames) { ilCreateSubImage(IL_SUB_NEXT, 1); ilActiveImage(1); put_image(m, true); ilBindImage(id); }
        ilKeyColour(q[0], q[1], q[2], ka);
        on ? ilEnable(IL_USE_KEY_COLOUR) : ilDisable(IL_USE_KEY_COLOUR);
        ILenum nf = s.pick({IL_RGBA, IL_BGRA, IL_LUMINANCE_ALPHA});
        std::string what = fmt("key %g,%g,%g,%g%s, to %s, ", q[0], q[1], q[2], ka, on ? "" : " off", fmt_name(nf)) + m.str();
        c.say(what);
        c.note("key");
        CHECK(ilConvertImage(nf, m.type), "key-fails", "%s fails, error %04x", what.c_str(), ilGetError());
        ilDisable(IL_USE_KEY_COLOUR);
        for (int f = 0; f <= frames; f++) {
            ilBindImage(id);
            if (f) ilActiveImage(1);
            Img g = get_image(what.c_str());
            CHECK(g.w == w && g.h == h && g.d == d && g.format == nf && g.type == m.type && g.origin == m.origin, "key-kind", "%s gives %s", what.c_str(), g.str().c_str());
            for (int i = 0; i < np; i++) {
                const uint8_t *o = &m.data[(size_t)i * m.px()], *p = &g.data[(size_t)i * g.px()];
                bool hit, near = false;
                double base = 1;
                if (idx) { hit = *o == key; base = rgba_of(m, i % w, i / w % h, i / w / h)[3]; }
                else {
                    hit = true;
                    for (int k = 0; k < 3; k++) {
                        double kv = q[m.format == IL_BGR ? 2 - k : k], mx = top(m.type), ov = raw(o + k * ts, m.type);
                        if (mx ? fabs(ov - kv * mx) > 0.5001 : ov != kv) hit = false;
                        if (mx && fabs(fabs(ov - kv * mx) - 0.5) < 0.01 + mx * 1e-7) near = true;
                    }
                }
                if (near) continue;
                double a = chan_get(p + (g.nc() - 1) * ts, g.type);
                if (hit && on) c.note("key hit");
                CHECK(fabs(a - (hit && on ? 0 : base)) < 1e-6, f ? "key-frame" : hit ? "key-hit" : "key-miss", "%s: pixel %d of frame %d (%s) has alpha %g", what.c_str(), i, f, hexbytes(o, m.px()).c_str(), a);
                if (!idx && nf != IL_LUMINANCE_ALPHA)
                    for (int k = 0; k < 3; k++) {
                        int kk = (m.format == IL_BGR) == (nf == IL_BGRA) ? k : 2 - k;
                        CHECK(!memcmp(p + kk * ts, o + k * ts, ts), "key-colour", "%s: pixel %d is %s, was %s", what.c_str(), i, hexbytes(p, g.px()).c_str(), hexbytes(o, m.px()).c_str());
                    }
            }
        }
        break;
    }
    case 5: {
        std::string what = "ilClampNTSC on " + m.str();
        c.say(what);
        c.note("ntsc");
        bool ok = ilClampNTSC();
        CHECK(ok == (m.type == IL_UNSIGNED_BYTE), "ntsc-result", "%s returns %d", what.c_str(), ok);
        CHECK((ilGetError() == IL_NO_ERROR) == ok, "ntsc-error", "%s: error and result disagree", what.c_str());
        if (ok) for (auto &b : idx ? m.pal : m.data) b = std::min<uint8_t>(235, std::max<uint8_t>(16, b));
        Img g = get_image(what.c_str());
        if (idx && (m.paltype == IL_PAL_RGB32 || m.paltype == IL_PAL_BGR32)) for (size_t i = 3; i < m.pal.size() && i < g.pal.size(); i += 4) m.pal[i] = g.pal[i];
        CHECK(g.data == m.data && g.pal == m.pal && g.format == m.format && g.type == m.type && g.w == w && g.h == h && g.origin == m.origin, "ntsc", "%s gives another image: %s", what.c_str(), g.str().c_str());
        break;
    }
    }
    CHECK((ILuint)ilGetInteger(IL_CUR_IMAGE) == id, "bound", "image %d is bound", ilGetInteger(IL_CUR_IMAGE));
    ilBindImage(other);
    CHECK(!memcmp(ilGetData(), &obytes[0], 16), "other", "another image changed");
}
