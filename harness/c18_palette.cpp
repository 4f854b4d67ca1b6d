// C18: palettes convert, save, load, register and expand without changing colours.
#include "ilh.h"
#include <sstream>

Spec spec() {
    Spec s;
    s.id = "C18";
    s.rule = "the palette has at least two different entries, or the palette file has colours or damage";
    s.quick_cases = 400000;
    s.thorough_cases = 4000000;
    s.batch = 64;
    s.cpu_limit = 10;
    s.assumptions = {"the fourth byte of a 32 bit palette type without alpha is not looked at", "a JASC palette is saved with 256 entries, the rest black, as its readers expect",
                     "how a palette file of no known kind fails is open as long as it fails with an error and changes nothing"};
    s.min_frac = {{"convert", 0.15}, {"save", 0.08}, {"load", 0.2}, {"damaged", 0.08}, {"register", 0.1}, {"JASC", 0.04}, {"Halo", 0.04}, {"ACT", 0.03}, {"COL", 0.03}, {"PLT", 0.03}, {"expanded", 0.1}};
    s.known.push_back({"apply-pal", "ilApplyPal refuses every image (its test of the format can never be passed), so no palette is ever applied (key apply-pal)", [](Ctx &) {
        il_fresh();
        Img m;
        m.w = m.h = 2, m.d = 1, m.format = IL_RGB, m.type = IL_UNSIGNED_BYTE, m.paltype = IL_PAL_NONE;
        m.data.assign(12, 200);
        new_image(m);
        std::string f = g_scratch + "/apply.act";
        write_file(f, Bytes(768, 200));
        CHECK(ilApplyPal(f.c_str()), "apply-pal", "ilApplyPal refuses a 2x2 RGB image, error %04x", ilGetError());
    }});
    return s;
}
static const ILenum P[] = {IL_PAL_RGB24, IL_PAL_BGR24, IL_PAL_RGBA32, IL_PAL_BGRA32, IL_PAL_RGB32, IL_PAL_BGR32};
static bool pal_alpha(ILenum t) { return t == IL_PAL_RGBA32 || t == IL_PAL_BGRA32; }
static std::array<int, 4> entry(const Bytes &p, ILenum t, size_t i) {
    const uint8_t *q = &p[i * pal_bpp(t)];
    bool bgr = t == IL_PAL_BGR24 || t == IL_PAL_BGR32 || t == IL_PAL_BGRA32;
    return {q[bgr ? 2 : 0], q[1], q[bgr ? 0 : 2], pal_alpha(t) ? q[3] : 255};
}
static bool same_img(const Img &a, const Img &b) { return a.data == b.data && a.w == b.w && a.h == b.h && a.d == b.d && a.format == b.format && a.type == b.type && a.origin == b.origin && a.pal == b.pal && a.paltype == b.paltype; }
static bool same_but_pal(const Img &a, const Img &b) { return a.data == b.data && a.w == b.w && a.h == b.h && a.d == b.d && a.format == b.format && a.type == b.type && a.origin == b.origin; }
static Img base(Src &s, Ctx &c, const char *cls) {
    int n = s.chance(1, 4) ? s.pick({256, 1, 2, 255, 16}) : 1 + s.range(0, 255);
    Img m = gen_indexed(s, s.size(9), s.size(9), s.chance(1, 10) ? 2 : 1, n, P[s.draw(6)]);
    c.note(cls);
    for (int i = 1; i < n; i++) if (entry(m.pal, m.paltype, i) != entry(m.pal, m.paltype, 0)) { c.nontriv = true; break; }
    return m;
}
// every pixel of the image shows its palette entry
static void expanded(const Img &m, const std::string &what, Ctx &c) {
    ILuint old = ilGetInteger(IL_CUR_IMAGE), id = ilGenImage();
    ilBindImage(id);
    CHECK(ilCopyImage(old), "expand", "%s: not copied", what.c_str());
    CHECK(ilConvertImage(IL_RGBA, IL_UNSIGNED_BYTE), "expand", "%s: not expanded, error %04x", what.c_str(), ilGetError());
    Img g = get_image(what.c_str());
    CHECK(g.paltype == IL_PAL_NONE && g.format == IL_RGBA && g.w == m.w && g.h == m.h && g.d == m.d, "expand", "%s: expanded to %s", what.c_str(), g.str().c_str());
    for (size_t i = 0; i < m.data.size(); i++) {
        auto e = entry(m.pal, m.paltype, m.data[i]);
        for (int k = 0; k < 4; k++) CHECK(g.data[i * 4 + k] == e[k], "expand-colour", "%s: pixel %zu of index %d has channel %d %d, its entry is %d,%d,%d,%d", what.c_str(), i, m.data[i], k, g.data[i * 4 + k], e[0], e[1], e[2], e[3]);
    }
    ilDeleteImage(id);
    ilBindImage(old);
    c.note("expanded");
}
static void queries(const Img &m, const std::string &what) {
    int b = pal_bpp(m.paltype);
    CHECK((ILenum)ilGetInteger(IL_PALETTE_TYPE) == m.paltype, "query", "%s: IL_PALETTE_TYPE %04x", what.c_str(), ilGetInteger(IL_PALETTE_TYPE));
    CHECK(ilGetInteger(IL_PALETTE_BPP) == b, "query", "%s: IL_PALETTE_BPP %d", what.c_str(), ilGetInteger(IL_PALETTE_BPP));
    CHECK(ilGetInteger(IL_PALETTE_SIZE) == (ILint)m.pal.size(), "query", "%s: IL_PALETTE_SIZE %d, has %zu bytes", what.c_str(), ilGetInteger(IL_PALETTE_SIZE), m.pal.size());
    CHECK(ilGetInteger(IL_PALETTE_NUM_COLS) == (ILint)m.pal.size() / b, "query", "%s: IL_PALETTE_NUM_COLS %d", what.c_str(), ilGetInteger(IL_PALETTE_NUM_COLS));
    ILubyte *p = ilGetPalette();
    CHECK(p && !memcmp(p, &m.pal[0], m.pal.size()), "query", "%s: ilGetPalette gives other bytes", what.c_str());
}
static void convert(Src &s, Ctx &c) {
    Img m = base(s, c, "convert");
    new_image(m);
    drain_errors();
    queries(m, m.str());
    int steps = s.range(1, 4);
    std::string what = m.str();
    for (int i = 0; i < steps; i++) {
        if (s.chance(1, 10)) {
            ILenum bad = s.pick({(ILenum)IL_PAL_NONE, 0x040Au, 0u, 0xFFFFFFFFu, (ILenum)IL_RGB});
            CHECK(!ilConvertPal(bad) && ilGetError() != IL_NO_ERROR, "bad-type", "%s: converted to palette type %04x", what.c_str(), bad);
            CHECK(same_img(get_image(), m), "bad-type", "%s: refused type %04x, but changed", what.c_str(), bad);
            c.note("refused");
            continue;
        }
        ILenum t = P[s.draw(6)];
        what += fmt(" to %04x", t);
        c.say(what);
        CHECK(ilConvertPal(t), "convert", "%s: fails, error %04x", what.c_str(), ilGetError());
        Img g = get_image(what.c_str());
        CHECK(ilGetError() == IL_NO_ERROR, "convert-error", "%s: leaves an error", what.c_str());
        CHECK(g.paltype == t, "convert-type", "%s: type %04x", what.c_str(), g.paltype);
        CHECK(same_but_pal(g, m), "convert-image", "%s: the image changed to %s", what.c_str(), g.str().c_str());
        size_t n = m.pal.size() / pal_bpp(m.paltype);
        CHECK(g.pal.size() / pal_bpp(t) == n, "convert-count", "%s: %zu entries", what.c_str(), g.pal.size() / pal_bpp(t));
        for (size_t k = 0; k < n; k++) {
            auto a = entry(m.pal, m.paltype, k), b = entry(g.pal, t, k);
            for (int q = 0; q < 3; q++) CHECK(a[q] == b[q], "convert-colour", "%s: entry %zu is %d,%d,%d, was %d,%d,%d", what.c_str(), k, b[0], b[1], b[2], a[0], a[1], a[2]);
            if (pal_alpha(t) && (pal_alpha(m.paltype) || pal_bpp(m.paltype) == 3)) CHECK(a[3] == b[3], "convert-alpha", "%s: entry %zu has alpha %d, had %d", what.c_str(), k, b[3], a[3]);
        }
        queries(g, what);
        m = g;
        if (s.chance(1, 3)) expanded(m, what, c);
    }
}
static void reg(Src &s, Ctx &c) {
    Img m = base(s, c, "register");
    Img old = s.flip() ? gen_indexed(s, m.w, m.h, m.d, s.range(1, 256), P[s.draw(6)]) : m;
    old.data = m.data;
    old.origin = m.origin;
    if (s.flip()) { old.pal.clear(); old.paltype = IL_PAL_NONE; }
    new_image(old);
    drain_errors();
    std::string what = fmt("palette of %zu bytes of type %04x for %s", m.pal.size(), m.paltype, old.str().c_str());
    c.say(what);
    if (s.chance(1, 6)) { // refused
        int k = s.range(0, 2);
        Bytes p(64, 3);
        ilRegisterPal(&p[0], k == 0 ? 0 : 63, k == 1 ? (ILenum)s.pick({0, 0x0400 + 99, 0x1907}) : m.paltype);
        if (k == 2) return;
        CHECK(ilGetError() != IL_NO_ERROR, "register-bad", "%s: bad palette %d registered", what.c_str(), k);
        CHECK(same_img(get_image(), old), "register-bad", "%s: refused palette %d, but changed", what.c_str(), k);
        c.note("refused");
        return;
    }
    uint8_t *p = (uint8_t *)malloc(m.pal.size());
    memcpy(p, &m.pal[0], m.pal.size());
    ilRegisterPal(p, m.pal.size(), m.paltype);
    memset(p, 0xA5, m.pal.size());
    free(p);
    CHECK(ilGetError() == IL_NO_ERROR, "register", "%s: error", what.c_str());
    Img g = get_image(what.c_str());
    CHECK(same_img(g, m), "register", "%s: the image is %s", what.c_str(), g.str().c_str());
    queries(m, what);
    if (s.flip()) { // a copy has its own
        ILuint a = ilGetInteger(IL_CUR_IMAGE), b = ilGenImage();
        ilBindImage(b);
        CHECK(ilCopyImage(a), "copy", "%s: not copied", what.c_str());
        CHECK(ilConvertPal(P[s.draw(6)]), "copy", "%s: copy not converted", what.c_str());
        ilBindImage(a);
        CHECK(same_img(get_image(), m), "copy", "%s: converting the palette of a copy changes the original", what.c_str());
    }
    expanded(m, what, c);
}
static void save(Src &s, Ctx &c) {
    Img m = base(s, c, "save");
    new_image(m);
    drain_errors();
    std::string f = g_scratch + "/p.pal";
    std::string what = "ilSavePal of " + m.str();
    c.say(what);
    bool over = s.chance(1, 3), exists = s.chance(1, 4);
    unlink(f.c_str());
    Bytes junk(3000, 'x');
    if (exists) write_file(f, junk);
    (over ? ilEnable : ilDisable)(IL_FILE_OVERWRITE);
    int bad = s.chance(1, 6) ? s.range(1, 4) : 0;
    if (bad) {
        std::string g = bad == 1 ? g_scratch + "/p.act" : bad == 2 ? g_scratch + "/nowhere/p.pal" : bad == 3 ? g_scratch + "/p" : "";
        CHECK(!ilSavePal(bad == 4 && s.flip() ? NULL : g.c_str()) && ilGetError() != IL_NO_ERROR, "save-bad", "%s: as '%s' accepted", what.c_str(), g.c_str());
        CHECK(same_img(get_image(), m), "save-bad", "%s: refused, but the image changed", what.c_str());
        struct stat st;
        CHECK(bad == 4 || stat(g.c_str(), &st), "save-bad", "%s: refused, but '%s' is there", what.c_str(), g.c_str());
        c.note("refused");
        return;
    }
    ILboolean ok = ilSavePal(f.c_str());
    CHECK(same_img(get_image(), m), "save-image", "%s: the image changed to %s", what.c_str(), get_image().str().c_str());
    if (exists && !over) {
        CHECK(!ok && ilGetError() == IL_FILE_ALREADY_EXISTS, "save-over", "%s: over a file that is there", what.c_str());
        CHECK(read_file(f) == junk, "save-over", "%s: refused, but the file changed", what.c_str());
        return;
    }
    CHECK(ok, "save", "%s: fails, error %04x", what.c_str(), ilGetError());
    // the file by its description
    Bytes b = read_file(f);
    std::string t(b.begin(), b.end());
    std::istringstream in(t);
    std::string l1, l2;
    int n = 0;
    in >> l1 >> l2 >> n;
    CHECK(l1 == "JASC-PAL" && l2 == "0100" && n == 256, "save-file", "%s: starts with '%s' '%s' %d", what.c_str(), l1.c_str(), l2.c_str(), n);
    size_t have = m.pal.size() / pal_bpp(m.paltype);
    std::vector<std::array<int, 3>> want;
    for (int i = 0; i < 256; i++) {
        std::array<int, 3> e = {0, 0, 0};
        if ((size_t)i < have) { auto q = entry(m.pal, m.paltype, i); e = {q[0], q[1], q[2]}; }
        want.push_back(e);
        int v[3] = {-1, -1, -1};
        in >> v[0] >> v[1] >> v[2];
        for (int k = 0; k < 3; k++) CHECK(v[k] == e[k], "save-file", "%s: entry %d in the file is %d,%d,%d, wanted %d,%d,%d", what.c_str(), i, v[0], v[1], v[2], e[0], e[1], e[2]);
    }
    std::string rest;
    CHECK(!(in >> rest), "save-file", "%s: the file goes on with '%s'", what.c_str(), rest.c_str());
    // and back, into this image or another
    Img h = m;
    if (s.flip()) { h = gen_indexed(s, 3, 2, 1, s.range(1, 256), P[s.draw(6)]); new_image(h); }
    drain_errors();
    CHECK(ilLoadPal(f.c_str()), "load-own", "%s: not loaded again, error %04x", what.c_str(), ilGetError());
    Img g = get_image(what.c_str());
    CHECK(same_but_pal(g, h), "load-own", "%s: loading the palette changed the image", what.c_str());
    CHECK(pal_bpp(g.paltype) && g.pal.size() / pal_bpp(g.paltype) == 256, "load-own", "%s: loaded %zu bytes of type %04x", what.c_str(), g.pal.size(), g.paltype);
    for (int i = 0; i < 256; i++) { auto q = entry(g.pal, g.paltype, i); for (int k = 0; k < 3; k++) CHECK(q[k] == want[i][k], "load-own", "%s: entry %d comes back as %d,%d,%d, was %d,%d,%d", what.c_str(), i, q[0], q[1], q[2], want[i][0], want[i][1], want[i][2]); }
    queries(g, what);
}
// a palette file and the colours it holds
static Bytes pal_file(Src &s, Bytes &rgb, std::string &ext, std::string &kind, bool many) {
    Bytes b;
    int k = s.range(0, 4), n = s.chance(1, 4) ? s.pick({1, 256, 2, 255}) : s.range(1, 256);
    uint64_t sd = s.seed32();
    if (k == 2 || k == 3) n = 256;
    else if (many) n = s.pick({257, 258, 300, 400});
    rgb.clear();
    for (int i = 0; i < n * 3; i++) rgb.push_back(mix64(sd + i) >> 9);
    auto put = [&](const std::string &t) { b.insert(b.end(), t.begin(), t.end()); };
    auto le16 = [&](int v) { b.push_back(v & 255); b.push_back(v >> 8 & 255); };
    auto le32 = [&](uint32_t v) { le16(v & 0xFFFF); le16(v >> 16); };
    ext = "pal";
    switch (k) {
    case 0: {
        kind = "JASC";
        std::string nl = s.flip() ? "\n" : "\r\n";
        put("JASC-PAL" + nl + "0100" + nl + fmt("%d", n) + nl);
        for (int i = 0; i < n; i++) put(fmt("%d%s%d%s%d", rgb[i * 3], s.chance(1, 20) ? "  " : " ", rgb[i * 3 + 1], " ", rgb[i * 3 + 2]) + (i == n - 1 && s.flip() ? "" : nl));
        break;
    }
    case 1:
        kind = "Halo";
        put("AH");
        le16(0xe3);
        le16(n * 6); b.push_back(10); b.push_back(0); le16(0); le16(0); le16(n - 1); le16(255); le16(255); le16(255);
        put("Dr. Halo");
        b.resize(b.size() + 12);
        break;
    case 2: kind = "ACT"; ext = "act"; b = rgb; if (s.chance(1, 3)) { b.push_back(1); b.push_back(0); b.push_back(0xFF); b.push_back(0xFF); } break;
    case 3:
        kind = "COL"; ext = "col";
        if (s.flip()) { le32(768 + 8); le16(0xB123); le16(0); }
        b.insert(b.end(), rgb.begin(), rgb.end());
        break;
    case 4:
        kind = "PLT"; ext = "plt";
        le32(n * 3);
        b.insert(b.end(), rgb.begin(), rgb.end());
        break;
    }
    return b;
}
static void load(Src &s, Ctx &c) {
    Bytes rgb, b;
    std::string ext, kind;
    bool many = s.chance(1, 20);
    b = pal_file(s, rgb, ext, kind, many);
    many = rgb.size() > 768;
    if (kind == "Halo") {
        // header of 40 bytes, then 16 bits a channel
        for (uint8_t v : rgb) { b.push_back(v); b.push_back(s.chance(1, 40) ? 1 : 0); }
    }
    c.note("load");
    c.note(kind.c_str());
    c.nontriv = true;
    Img m = s.flip() ? gen_indexed(s, 4, 3, 1, s.range(1, 256), P[s.draw(6)]) : gen_img(s, 3, 3, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
    new_image(m);
    drain_errors();
    bool damaged = !many && s.chance(2, 5);
    std::string what = kind + fmt(" palette of %zu colours", rgb.size() / 3), dmg;
    bool sure = false; // this damage must be noticed
    if (damaged) {
        c.note("damaged");
        int how = s.range(0, 6);
        if (how == 0) { size_t to = s.range(0, (int)b.size() - 1); dmg = fmt("cut to %zu of %zu bytes", to, b.size()); b.resize(to); sure = (kind != "COL" && kind != "ACT") || to < 768; if (kind == "JASC") sure = false; }
        else if (how == 1) { int n = s.range(1, 4); dmg = fmt("%d bytes changed", n); for (int i = 0; i < n && !b.empty(); i++) b[s.range(0, (int)std::min<size_t>(b.size(), 24) - 1)] = (uint8_t)(s.flip() ? s.range(0, 255) : s.pick({255, 0, 127, 128, (int)'-', (int)'9', (int)' '})); }
        else if (how == 2) { dmg = "random bytes"; b.resize(s.range(0, 900)); uint64_t sd = s.seed32(); for (size_t i = 0; i < b.size(); i++) b[i] = mix64(sd + i) >> 9; }
        else if (how == 3 && kind == "JASC") {
            std::string t(b.begin(), b.end());
            size_t p = t.find("0100") + 4;
            while (isspace(t[p])) p++;
            size_t e = p;
            while (isdigit(t[e])) e++;
            std::string v = s.pick({std::string("0"), std::string("257"), std::string("-1"), std::string("4294967297"), std::string("2147483648"), std::string("99999999999999999999999"), std::string("x")});
            dmg = "number of colours " + v;
            sure = v != "4294967297";
            t.replace(p, e - p, v);
            b.assign(t.begin(), t.end());
        } else if (how == 3 && kind == "PLT") { uint32_t v = s.pick({0u, 769u, 771u, 1u, 0xFFFFFFFFu, 0x80000000u, 767u}); memcpy(&b[0], &v, 4); dmg = fmt("size %u", v); sure = true; }
        else if (how == 3 && kind == "Halo") { b[12] = 0; b[13] = 1; dmg = "more than 256 colours"; }
        else if (how == 4) { std::string big(3000, s.pick({'9', 'a', '0'})); dmg = "a long word"; size_t p = s.range(0, (int)std::min<size_t>(b.size(), 40)); b.insert(b.begin() + p, big.begin(), big.end()); }
        else { dmg = "another extension"; ext = s.pick({std::string("pal"), std::string("act"), std::string("col"), std::string("plt"), std::string("xyz")}); if (kind == "JASC" || kind == "Halo") { if (ext == "xyz") sure = true; } }
        what += ", " + dmg;
    }
    if (s.chance(1, 4)) for (char &x : ext) x = toupper(x);
    std::string f = g_scratch + "/in." + ext;
    what += " as ." + ext;
    c.say(what);
    write_file(f, b);
    ILboolean ok = ilLoadPal(f.c_str());
    ILenum er = ilGetError();
    Img g = get_image(what.c_str());
    CHECK(same_but_pal(g, m), "load-image", "%s: the image changed to %s", what.c_str(), g.str().c_str());
    if (!ok) {
        CHECK(er != IL_NO_ERROR, "load-silent", "%s: fails without an error", what.c_str());
        CHECK(g.pal == m.pal && g.paltype == m.paltype, "load-kept", "%s: fails, but the palette changed", what.c_str());
    } else {
        queries(g, what);
        CHECK(g.pal.size() / pal_bpp(g.paltype) <= 256, "load-size", "%s: %zu bytes of type %04x", what.c_str(), g.pal.size(), g.paltype);
    }
    if (many) { CHECK(!ok, "load-many", "%s: accepted", what.c_str()); c.note("too many"); }
    else if (!damaged) {
        CHECK(ok, "load", "%s: fails, error %04x", what.c_str(), er);
        CHECK(pal_bpp(g.paltype) && g.pal.size() / pal_bpp(g.paltype) == rgb.size() / 3, "load-count", "%s: %zu bytes of type %04x", what.c_str(), g.pal.size(), g.paltype);
        for (size_t i = 0; i < rgb.size() / 3; i++) {
            auto q = entry(g.pal, g.paltype, i);
            for (int k = 0; k < 3; k++) CHECK(q[k] == rgb[i * 3 + k], "load-colour", "%s: entry %zu is %d,%d,%d, the file has %d,%d,%d", what.c_str(), i, q[0], q[1], q[2], rgb[i * 3], rgb[i * 3 + 1], rgb[i * 3 + 2]);
            CHECK(q[3] == 255, "load-colour", "%s: entry %zu is not opaque", what.c_str(), i);
        }
        if (g.pal.size() / pal_bpp(g.paltype) == 256) expanded(g, what, c);
    } else if (sure) CHECK(!ok, "load-damaged", "%s: accepted", what.c_str());
    if (s.chance(1, 8)) {
        CHECK(!ilLoadPal((g_scratch + "/none." + ext).c_str()) && ilGetError() != IL_NO_ERROR, "load-none", "a file that is not there is loaded");
        CHECK(!ilLoadPal(NULL) && ilGetError() != IL_NO_ERROR, "load-none", "no file name is accepted");
        Img h = get_image();
        CHECK(same_img(h, g), "load-none", "a failing ilLoadPal changed the palette");
    }
}
static void without(Src &s, Ctx &c) {
    Img m = gen_img(s, 3, 2, 1, s.pick({IL_RGB, IL_RGBA, IL_LUMINANCE, IL_COLOUR_INDEX}), IL_UNSIGNED_BYTE);
    m.pal.clear();
    m.paltype = IL_PAL_NONE;
    new_image(m);
    drain_errors();
    c.say("no palette in " + m.str());
    c.note("none");
    CHECK(!ilConvertPal(P[s.draw(6)]) && ilGetError() != IL_NO_ERROR, "none-convert", "a palette that is not there is converted");
    CHECK(!ilSavePal((g_scratch + "/none.pal").c_str()) && ilGetError() != IL_NO_ERROR, "none-save", "a palette that is not there is saved");
    struct stat st;
    CHECK(stat((g_scratch + "/none.pal").c_str(), &st), "none-save", "a file is made for a palette that is not there");
    CHECK(!ilGetPalette() && ilGetInteger(IL_PALETTE_NUM_COLS) == 0 && ilGetInteger(IL_PALETTE_SIZE) == 0 && (ILenum)ilGetInteger(IL_PALETTE_TYPE) == IL_PAL_NONE, "none-query", "the queries give a palette");
    drain_errors();
    CHECK(same_img(get_image(), m), "none-image", "the image changed");
}
void one_case(Src &s, Ctx &c) {
    il_fresh();
    int k = s.range(0, 15);
    if (k < 4) convert(s, c);
    else if (k < 6) reg(s, c);
    else if (k < 8) save(s, c);
    else if (k < 15) load(s, c);
    else without(s, c);
}
