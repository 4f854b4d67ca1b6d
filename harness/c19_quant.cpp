// C19: quantisation to a palette: shape, palette limit, nearest or mean colours, determinism.
#include "ilh.h"

Spec spec() {
    Spec s;
    s.id = "C19";
    s.rule = "a picture of more than two colours was quantised";
    s.quick_cases = 96000;
    s.thorough_cases = 960000;
    s.batch = 32;
    s.cpu_limit = 30;
    s.assumptions = {"the 8-bit colours a picture has are taken from ilConvertImage to RGB (C07)", "the Wu quantiser may not tell apart colours that share their upper five bits"};
    s.min_frac = {{"wu", 0.3}, {"neural", 0.2}, {"few colours", 0.1}, {"more than the limit", 0.2}};
    return s;
}
static Img source(Src &s, std::string &kind, bool &sep) {
    int big = g_thorough ? 160 : 70;
    int w = s.size(big), h = s.size(big), d = s.chance(1, 8) ? s.range(2, 3) : 1;
    static const ILenum F[] = {IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE_ALPHA, IL_ALPHA};
    ILenum f = F[s.range(0, 9) % 6];
    static const ILenum T[] = {IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE};
    ILenum t = s.chance(2, 3) ? IL_UNSIGNED_BYTE : T[s.range(1, 4)];
    int how = s.range(0, 5);
    sep = false;
    if (how == 0) { kind = "noise"; Img im = gen_img(s, w, h, d, f, t); tame_floats(s, im); return im; }
    if (how == 1) {
        kind = "indexed";
        static const ILenum P[] = {IL_PAL_RGB24, IL_PAL_BGR24, IL_PAL_RGBA32, IL_PAL_BGRA32, IL_PAL_RGB32, IL_PAL_BGR32};
        return gen_indexed(s, w, h, d, 1 + s.range(0, 255), P[s.range(0, 5)]);
    }
    Img im;
    im.w = w, im.h = h, im.d = d, im.format = f, im.type = t, im.paltype = IL_PAL_NONE;
    im.origin = s.flip() ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT;
    im.data.assign(im.size(), 0);
    int nc = chans(f);
    if (how == 2 || how == 3) {
        // separated colours, drawn from the grid of multiples of 32
        kind = "separated";
        sep = true;
        int n = how == 2 ? 1 + s.range(0, 9) : 1 + s.range(0, 299);
        std::vector<std::array<int, 4>> pal(n);
        for (auto &p : pal)
            for (auto &v : p) v = s.range(0, 7) * 36;
        uint64_t seed = s.seed32();
        for (int z = 0, k = 0; z < d; z++)
            for (int y = 0; y < h; y++)
                for (int x = 0; x < w; x++, k++) {
                    auto &p = pal[mix64(seed + k) % n];
                    for (int q = 0; q < nc; q++) {
                        uint8_t *a = im.at(x, y, z) + q * tsize(t);
                        int v = q < 3 && nc >= 3 ? p[q] : q == 0 ? p[0] : 255;
                        // (v + .5)/255 of the range shows as v in 8 bits
                        if (t == IL_UNSIGNED_BYTE) *a = (uint8_t)v;
                        else if (t == IL_FLOAT || t == IL_DOUBLE) chan_set(a, t, (v + 0.001) / 255.0);
                        else chan_set(a, t, v / 255.0);
                    }
                }
        return im;
    }
    kind = how == 4 ? "gradient" : "clusters";
    uint64_t seed = s.seed32();
    int n = 1 + s.range(0, 5), amp = 1 + s.range(0, 40);
    for (int z = 0, k = 0; z < d; z++)
        for (int y = 0; y < h; y++)
            for (int x = 0; x < w; x++, k++)
                for (int q = 0; q < nc; q++) {
                    int v;
                    if (how == 4) v = q == 0 ? x * 255 / std::max(1, w - 1) : q == 1 ? y * 255 / std::max(1, h - 1) : (x + y + z * 9) * 255 / (w + h + 30);
                    else v = (int)(mix64(seed ^ ((mix64(seed + k) % n) * 4 + q)) % 256) + (int)(mix64(seed + k * 7 + q * 31) % amp);
                    v = std::max(0, std::min(255, v));
                    uint8_t *a = im.at(x, y, z) + q * tsize(t);
                    if (t == IL_UNSIGNED_BYTE) *a = (uint8_t)v;
                    else if (t == IL_FLOAT || t == IL_DOUBLE) chan_set(a, t, (v + 0.001) / 255.0);
                    else chan_set(a, t, v / 255.0);
                }
    return im;
}
void one_case(Src &s, Ctx &c) {
    il_fresh();
    bool neu = s.chance(2, 5);
    int limit = s.pick({2, 256, 3, 16, 4, 8, 255, 0});
    if (!limit) limit = s.range(2, 256);
    int sample = s.pick({15, 1, 30, 0});
    if (!sample) sample = s.range(1, 30);
    std::string kind;
    bool sep;
    Img im = source(s, kind, sep);
    // other states that must not matter
    bool om = s.chance(1, 4);
    if (om) { ilEnable(IL_ORIGIN_SET); ilOriginFunc(s.flip() ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT); }
    ilSetInteger(IL_QUANTIZATION_MODE, neu ? IL_NEU_QUANT : IL_WU_QUANT);
    ilSetInteger(IL_MAX_QUANT_INDICES, limit);
    ilSetInteger(IL_NEU_QUANT_SAMPLE, sample);
    std::string what = fmt("%s picture %s to %d colours, %s quantiser%s", kind.c_str(), im.str().c_str(), limit, neu ? "neural" : "Wu", neu ? fmt(", sample %d", sample).c_str() : "");
    c.say(what);
    std::string sg = neu ? "neu-" : "wu-";
    ILuint a = new_image(im);
    CHECK(ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE), sg + "rgb", "%s: no RGB picture", what.c_str());
    Img rgb = get_image("as RGB");
    ILuint id = new_image(im);
    drain_errors();
    if (s.chance(1, 25)) { // indices have 8 bits
        ILenum t = s.pick({(ILenum)IL_SHORT, (ILenum)IL_UNSIGNED_SHORT, (ILenum)IL_INT, (ILenum)IL_FLOAT, (ILenum)IL_DOUBLE});
        CHECK(!ilConvertImage(IL_COLOUR_INDEX, t) && ilGetError() != IL_NO_ERROR, sg + "wide", "%s: indices of type %s accepted", what.c_str(), type_name(t));
        Img after = get_image("after a refused conversion");
        CHECK(after.data == im.data && after.format == im.format && after.type == im.type, sg + "wide", "%s: refused, but the image changed", what.c_str());
    }
    if (im.format == IL_COLOUR_INDEX) {
        // indexed already: through the palette picture of it, which ilConvertImage leaves alone
        CHECK(ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE), sg + "indexed", "%s: refused", what.c_str());
        Img same = get_image("indexed to indexed");
        CHECK(same.data == im.data && same.pal == im.pal && same.paltype == im.paltype, sg + "indexed", "%s: an indexed image changed", what.c_str());
        ilDeleteImage(id);
        id = new_image(rgb);
        c.note("was indexed");
    }
    ILint durorigin = ilGetInteger(IL_IMAGE_ORIGIN);
    bool ok = ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
    ILenum er = ilGetError();
    CHECK(ok && er == IL_NO_ERROR, sg + "refused", "%s: %d, error %04x", what.c_str(), ok, er);
    Img q = get_image("quantised"); // all sizes are tested in there
    CHECK(q.format == IL_COLOUR_INDEX && q.type == IL_UNSIGNED_BYTE && q.w == rgb.w && q.h == rgb.h && q.d == rgb.d, sg + "shape", "%s: became %s", what.c_str(), q.str().c_str());
    CHECK(ilGetInteger(IL_IMAGE_ORIGIN) == durorigin, sg + "origin", "%s: origin %04x became %04x", what.c_str(), durorigin, ilGetInteger(IL_IMAGE_ORIGIN));
    int pb = pal_bpp(q.paltype), ncol = pb ? (int)q.pal.size() / pb : 0;
    CHECK(ncol >= 1 && ncol <= limit, sg + "limit", "%s: %d colours in the palette", what.c_str(), ncol);
    CHECK(ilGetInteger(IL_PALETTE_NUM_COLS) == ncol, sg + "limit", "%s: IL_PALETTE_NUM_COLS is %d, the palette has %d", what.c_str(), ilGetInteger(IL_PALETTE_NUM_COLS), ncol);
    auto pal = [&](int i, int ch) -> int {
        const uint8_t *p = &q.pal[(size_t)i * pb];
        bool bgr = q.paltype == IL_PAL_BGR24 || q.paltype == IL_PAL_BGR32 || q.paltype == IL_PAL_BGRA32;
        return p[bgr ? 2 - ch : ch];
    };
    size_t n = (size_t)rgb.w * rgb.h * rgb.d;
    std::set<uint32_t> colours;
    std::map<uint32_t, int> cell;
    std::vector<std::array<uint64_t, 4>> sum(256);
    for (auto &x : sum) x = {0, 0, 0, 0};
    for (size_t k = 0; k < n; k++) {
        int ix = q.data[k];
        const uint8_t *p = &rgb.data[k * 3];
        CHECK(ix < ncol, sg + "index", "%s: pixel %zu has index %d of %d colours", what.c_str(), k, ix, ncol);
        colours.insert(p[0] << 16 | p[1] << 8 | p[2]);
        for (int ch = 0; ch < 3; ch++) sum[ix][ch] += p[ch];
        sum[ix][3]++;
        auto in = cell.insert({(uint32_t)(p[0] >> 3 << 10 | p[1] >> 3 << 5 | p[2] >> 3), ix});
        if (!neu) CHECK(in.first->second == ix, sg + "cell", "%s: two pixels of one colour (%d,%d,%d in five bits) have indices %d and %d", what.c_str(), p[0] >> 3, p[1] >> 3, p[2] >> 3, ix, in.first->second);
    }
    c.note(neu ? "neural" : "wu");
    c.note(kind.c_str());
    c.note((int)colours.size() > limit ? "more than the limit" : colours.size() < 10 ? "few colours" : "many colours");
    if (colours.size() > 2) c.nontriv = true;
    int used = 0;
    for (auto &x : sum) used += x[3] > 0;
    if (!neu) {
        for (int i = 0; i < ncol; i++)
            if (sum[i][3])
                for (int ch = 0; ch < 3; ch++) {
                    int m = (int)(sum[i][ch] / sum[i][3]), g = pal(i, ch);
                    CHECK(abs(m - g) <= 1, sg + "mean", "%s: channel %d of colour %d is %d, the mean of its pixels is %d", what.c_str(), ch, i, g, m);
                }
        if ((int)cell.size() <= limit)
            for (size_t k = 0; k < n; k++)
                for (int ch = 0; ch < 3; ch++) {
                    int g = pal(q.data[k], ch), v = rgb.data[k * 3 + ch];
                    CHECK(abs(g - v) <= (sep ? 0 : 16), sg + (sep ? "exact" : "close"), "%s: %zu colours, but pixel %zu channel %d is %d, was %d", what.c_str(), colours.size(), k, ch, g, v);
                }
        else if (sep)
            CHECK(used == limit, sg + "few", "%s: %zu colours, but only %d of the %d allowed are used", what.c_str(), colours.size(), used, limit);
    } else {
        for (size_t k = 0; k < n; k++) {
            int best = 1 << 20, got = 0;
            if (k > 4000 && k % 7) continue;
            for (int i = 0; i < ncol; i++) {
                int dd = 0;
                for (int ch = 0; ch < 3; ch++) dd += abs(pal(i, ch) - rgb.data[k * 3 + ch]);
                best = std::min(best, dd);
                if (i == q.data[k]) got = dd;
            }
            CHECK(got == best, sg + "nearest", "%s: pixel %zu is off by %d, another colour of the palette only by %d", what.c_str(), k, got, best);
        }
        if (colours.size() == 1)
            for (int ch = 0; ch < 3; ch++) CHECK(abs(pal(q.data[0], ch) - rgb.data[ch]) <= 1, sg + "single", "%s: channel %d of the only colour is %d, was %d", what.c_str(), ch, pal(q.data[0], ch), rgb.data[ch]);
    }
    // once more, after another picture went through the quantiser: same result
    if (s.chance(1, 2)) {
        Img other = gen_img(s, s.size(20), s.size(20), 1, IL_RGB, IL_UNSIGNED_BYTE);
        ILuint o = new_image(other);
        ilSetInteger(IL_MAX_QUANT_INDICES, s.range(2, 256));
        bool oneu = s.flip();
        ilSetInteger(IL_QUANTIZATION_MODE, oneu ? IL_NEU_QUANT : IL_WU_QUANT);
        CHECK(ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE), "other", "another picture is refused");
        ilDeleteImage(o);
        ilSetInteger(IL_MAX_QUANT_INDICES, limit);
        ilSetInteger(IL_QUANTIZATION_MODE, neu ? IL_NEU_QUANT : IL_WU_QUANT);
        ILuint id2 = new_image(im.format == IL_COLOUR_INDEX ? rgb : im);
        CHECK(ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE), sg + "again", "%s: refused the second time", what.c_str());
        Img q2 = get_image("quantised again");
        CHECK(q2.data == q.data && q2.pal == q.pal && q2.paltype == q.paltype, sg + "again", "%s: quantising the same picture again gives another result", what.c_str());
        ilDeleteImage(id2);
        c.note("again");
    }
    ilShutDown();
    g_il_up = false;
    CHECK(mem::live == 0, sg + "leak", "%s: %llu blocks of memory are never freed", what.c_str(), (unsigned long long)mem::live);
}
