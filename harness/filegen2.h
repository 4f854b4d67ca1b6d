// Independent encoders for the game, film, paint and science formats (included by filegen.h).
// GFile.raw: the upright indices the file holds, for formats whose colours are not in the file.
#pragma once
namespace fg {
static void put_px(GFile &g, int w, int h, const std::vector<Px> &px) { show(g, w, h, px, true); }
// ---------------------------------------------------------------- Dr. Halo CUT: no colours in the file
static GFile cut(Src &s, int w, int h) {
    GFile g;
    g.type = IL_CUT; g.ext = "cut"; g.variant = "cut"; g.detect = false;
    Bytes ix = indices(s, w, h, 256);
    g.pic.size(w, h);
    g.raw = ix; // the colours are in another file
    Out o;
    o.le16(w); o.le16(h); o.le16(0);
    for (int y = 0; y < h; y++) {
        Out r;
        const uint8_t *v = &ix[(size_t)y * w];
        for (int x = 0; x < w;) {
            int run = 1;
            while (x + run < w && run < 127 && v[x + run] == v[x]) run++;
            if (run > 2 || s.chance(1, 10)) { r.u8(0x80 | run); r.u8(v[x]); x += run; }
            else { int k = std::min(w - x, s.range(1, 127)); r.u8(k); for (int i = 0; i < k; i++) r.u8(v[x + i]); x += k; }
        }
        r.u8(0);
        o.le16((int)r.b.size());
        o.bytes(r.b);
    }
    o.le16(0);
    g.b = o.b;
    return g;
}
// ---------------------------------------------------------------- Homeworld LIF
static GFile lif(Src &s, int w, int h) {
    GFile g;
    g.type = IL_LIF; g.ext = "lif"; g.variant = "lif";
    Bytes ix = indices(s, w, h, 255);
    auto pal = colours(s, 256);
    show(g, w, h, ix, pal, true);
    Out o;
    o.field("Willy 7", 8); o.le32(260); o.le32(50); o.le32(w); o.le32(h);
    o.le32(0); o.le32(0); o.le32(0); o.le32(0); o.le32(0);
    // the colours are stored from entry 255 on: index i shows entry i - 1
    for (auto &v : ix) o.u8(v - 1);
    for (auto &p : pal) for (int c = 0; c < 4; c++) o.u8(p.c[c]);
    g.b = o.b;
    return g;
}
// ---------------------------------------------------------------- Half-Life MDL textures
static GFile mdl(Src &s, int w, int h) {
    GFile g;
    g.type = IL_MDL; g.ext = "mdl"; g.variant = "mdl";
    int n = s.range(1, 3);
    g.images = n;
    Out o;
    o.str("IDST"); o.le32(10); o.zero(172);
    size_t head = o.pos();
    o.le32(n); o.le32(0); o.le32(0);
    o.zero(s.range(0, 40));
    size_t tex = o.pos();
    std::vector<std::pair<Bytes, std::vector<Px>>> t;
    std::vector<std::pair<int, int>> sz;
    for (int i = 0; i < n; i++) {
        int W = i ? s.size(40) : w, H = i ? s.size(40) : h;
        sz.push_back({W, H});
        t.push_back({indices(s, W, H, 256), colours(s, 256)});
        o.field("tex", 64); o.le32(0); o.le32(W); o.le32(H); o.le32(0);
        GFile q;
        show(q, W, H, t[i].first, t[i].second, false);
        if (i) g.more.push_back(q.pic); else g.pic = q.pic;
    }
    o.zero(s.range(0, 9));
    size_t data = o.pos();
    for (int i = 0; i < n; i++) {
        o.set_le32(tex + i * 80 + 76, o.pos());
        // rows from the bottom
        o.bytes(t[i].first);
        for (auto &p : t[i].second) for (int c = 0; c < 3; c++) o.u8(p.c[c]);
    }
    o.set_le32(head + 4, tex); o.set_le32(head + 8, data);
    g.alpha = false;
    g.flip_unsure = true;
    g.b = o.b;
    return g;
}
// ---------------------------------------------------------------- Quake 2 WAL
static GFile wal(Src &s, int w, int h) {
    GFile g;
    g.type = IL_WAL; g.ext = "wal"; g.variant = "wal"; g.detect = false;
    Bytes ix = indices(s, w, h, 256);
    g.pic.size(w, h);
    g.raw = ix;
    Out o;
    o.field("e1u1/wall", 32); o.le32(w); o.le32(h);
    size_t off = o.pos();
    o.zero(16); o.field("", 32); o.le32(0); o.le32(0); o.le32(0);
    o.set_le32(off, o.pos());
    o.bytes(ix);
    int W = w, H = h;
    for (int m = 1; m < 4; m++) {
        W = std::max(1, W / 2); H = std::max(1, H / 2);
        Bytes q = indices(s, W, H, 256);
        o.set_le32(off + 4 * m, o.pos());
        o.bytes(q);
        g.raw_mips.push_back({W, H, q});
    }
    g.b = o.b;
    return g;
}
// ---------------------------------------------------------------- Softimage PIC
static GFile pic(Src &s, int w, int h) {
    GFile g;
    g.type = IL_PIC; g.ext = "pic"; g.variant = "pic";
    bool alpha = s.chance(1, 2);
    auto px = texture(s, w, h);
    if (!alpha) for (auto &p : px) p.c[3] = 255;
    g.alpha = alpha;
    put_px(g, w, h, px);
    Out o;
    o.be32(0x5380F634); o.bef(3.71f); o.field("made by the checks", 80); o.str("PICT");
    o.be16(w); o.be16(h); o.bef(1.0f); o.be16(3); o.be16(0);
    struct Pk { int chan, type; };
    std::vector<Pk> pk;
    if (s.chance(1, 4)) { pk = {{0x80, 0}, {0x40, 0}, {0x20, 0}}; if (s.chance(1, 2)) std::swap(pk[0], pk[2]); }
    else pk = {{0xE0, 0}};
    if (alpha) { if (pk.size() == 1 && s.chance(1, 3)) pk[0].chan = 0xF0; else pk.push_back({0x10, 0}); }
    for (auto &p : pk) p.type = s.range(0, 2);
    for (size_t i = 0; i < pk.size(); i++) { o.u8(i + 1 < pk.size()); o.u8(8); o.u8(pk[i].type); o.u8(pk[i].chan); g.variant += fmt(" %02x/%d", pk[i].chan, pk[i].type); }
    for (int y = 0; y < h; y++)
        for (auto &p : pk) {
            std::vector<int> ch;
            for (int c = 0; c < 4; c++) if (p.chan & (0x80 >> c)) ch.push_back(c);
            auto put = [&](int x) { for (int c : ch) o.u8(px[(size_t)y * w + x].c[c]); };
            auto same = [&](int a, int b) { for (int c : ch) if (px[(size_t)y * w + a].c[c] != px[(size_t)y * w + b].c[c]) return false; return true; };
            if (p.type == 0) { for (int x = 0; x < w; x++) put(x); continue; }
            for (int x = 0; x < w;) {
                int run = 1, most = p.type == 1 ? 255 : s.chance(1, 4) ? 60000 : 128;
                while (x + run < w && run < most && same(x, x + run)) run++;
                if (p.type == 1) { o.u8(run); put(x); x += run; continue; }
                if (run > 128 || (run > 1 && s.chance(1, 8))) { o.u8(128); o.be16(run); put(x); x += run; }
                else if (run > 1) { o.u8(run + 127); put(x); x += run; }
                else { int k = std::min(w - x, s.chance(1, 5) ? 128 : s.range(1, 12)); o.u8(k - 1); for (int i = 0; i < k; i++) put(x + i); x += k; }
            }
        }
    g.b = o.b;
    return g;
}
// ---------------------------------------------------------------- Apple icons
static GFile icns(Src &s, int, int) {
    GFile g;
    g.type = IL_ICNS; g.ext = "icns"; g.variant = "icns";
    struct Sz { const char *c, *m; int w; };
    static const Sz all[] = {{"is32", "s8mk", 16}, {"il32", "l8mk", 32}, {"ih32", "h8mk", 48}, {"it32", "t8mk", 128}};
    std::vector<int> use;
    for (int i = 0; i < 4; i++) if (s.chance(i == 3 ? 1 : 2, i == 3 ? 8 : 5)) use.push_back(i);
    if (use.empty()) use.push_back(s.range(0, 2));
    g.images = use.size();
    Out o;
    o.str("icns"); o.be32(0);
    if (s.chance(1, 4)) { o.str("ICN#"); o.be32(8 + 256); o.zero(256); }
    bool first = true;
    for (int u : use) {
        const Sz &z = all[u];
        int w = z.w;
        bool mask = s.chance(2, 3), rle = z.w == 128 || s.chance(2, 3);
        auto px = texture(s, w, w);
        if (!mask) for (auto &p : px) p.c[3] = 255;
        GFile q;
        put_px(q, w, w, px);
        if (first) g.pic = q.pic; else g.more.push_back(q.pic);
        first = false;
        Out d;
        if (z.w == 128) d.be32(0);
        if (!rle) for (auto &p : px) { d.u8(0); for (int c = 0; c < 3; c++) d.u8(p.c[c]); }
        else for (int c = 0; c < 3; c++)
            for (size_t x = 0; x < px.size();) {
                size_t run = 1;
                while (x + run < px.size() && run < 130 && px[x + run].c[c] == px[x].c[c]) run++;
                if (run >= 3) { d.u8(125 + (int)run); d.u8(px[x].c[c]); x += run; }
                else { size_t k = std::min<size_t>(px.size() - x, s.chance(1, 3) ? 128 : s.range(1, 20)); d.u8((int)k - 1); for (size_t i = 0; i < k; i++) d.u8(px[x + i].c[c]); x += k; }
            }
        // run length data that is as long as the plain data would be taken for it
        if (rle && z.w != 128 && d.b.size() >= (size_t)w * w * 4) { d.b.clear(); for (auto &p : px) { d.u8(0); for (int c = 0; c < 3; c++) d.u8(p.c[c]); } }
        o.str(z.c); o.be32(8 + (uint32_t)d.b.size()); o.bytes(d.b);
        if (mask) { o.str(z.m); o.be32(8 + w * w); for (auto &p : px) o.u8(p.c[3]); }
        g.variant += fmt(" %s%s%s", z.c, rle ? "" : " plain", mask ? "+mask" : "");
    }
    o.set_be32(4, (uint32_t)o.pos());
    g.b = o.b;
    return g;
}
// ---------------------------------------------------------------- Doom patches and flats
static GFile doom(Src &s, int w, int h) {
    GFile g;
    g.type = IL_DOOM; g.ext = "lmp"; g.variant = "doom"; g.detect = false; g.by_name = false;
    h = std::min(h, 120);
    g.pic.size(w, h);
    g.raw.assign((size_t)w * h, 247);
    Bytes ix = indices(s, w, h, 256);
    Out o;
    o.le16(w); o.le16(h); o.le16(3); o.le16(5);
    size_t tab = o.pos();
    o.zero(4 * (size_t)w);
    for (int x = 0; x < w; x++) {
        o.set_le32(tab + 4 * x, o.pos());
        for (int y = s.chance(1, 3) ? s.range(0, h) : 0; y < h;) {
            int n = s.chance(1, 2) ? h - y : s.range(1, h - y);
            o.u8(y); o.u8(n); o.u8(ix[(size_t)y * w + x]);
            for (int i = 0; i < n; i++) { o.u8(ix[(size_t)(y + i) * w + x]); g.raw[(size_t)(y + i) * w + x] = ix[(size_t)(y + i) * w + x]; }
            o.u8(0);
            y += n + s.range(0, 5);
        }
        o.u8(255);
    }
    g.b = o.b;
    return g;
}
static GFile flat(Src &s, int, int) {
    GFile g;
    g.type = IL_DOOM_FLAT; g.ext = "lmp"; g.variant = "doom flat"; g.detect = false; g.by_name = false;
    g.b = g.raw = indices(s, 64, 64, 256);
    g.pic.size(64, 64);
    return g;
}
// ---------------------------------------------------------------- Alias PIX
static GFile pix(Src &s, int w, int h) {
    GFile g;
    g.type = IL_PIX; g.ext = "pix"; g.variant = "pix"; g.detect = false;
    auto px = texture(s, w, h);
    g.alpha = false;
    put_px(g, w, h, px);
    Out o;
    o.be16(w); o.be16(h); o.be16(0); o.be16(h - 1); o.be16(24);
    for (int y = 0; y < h; y++)
        for (int x = 0; x < w;) {
            int run = 1;
            const Px *p = &px[(size_t)y * w];
            while (x + run < w && run < 255 && !memcmp(p[x + run].c, p[x].c, 3) && s.chance(63, 64)) run++;
            o.u8(run); o.u8(p[x].c[2]); o.u8(p[x].c[1]); o.u8(p[x].c[0]);
            x += run;
        }
    g.b = o.b;
    return g;
}
// ---------------------------------------------------------------- Pixar PXR
static GFile pxr(Src &s, int w, int h) {
    GFile g;
    g.type = IL_PXR; g.ext = "pxr"; g.detect = false;
    int k = s.range(0, 2);
    g.variant = fmt("pxr %d", k);
    auto px = texture(s, w, h);
    if (k == 0) gray(px);
    g.alpha = k == 2;
    put_px(g, w, h, px);
    Out o;
    o.le16(0xE880);
    o.zero(414);
    o.le16(h); o.le16(w);
    o.zero(4);
    o.u8(k == 0 ? 8 : k == 1 ? 0x0E : 0x0F);
    o.pad_to(1024);
    for (auto &p : px) for (int c = 0; c < (k == 0 ? 1 : 2 + k); c++) o.u8(p.c[c]);
    g.b = o.b;
    return g;
}
// ---------------------------------------------------------------- Heavy Metal FTX, Descent TEXTURE
static GFile ftx(Src &s, int w, int h) {
    GFile g;
    g.type = IL_FTX; g.ext = "ftx"; g.variant = "ftx"; g.detect = false;
    auto px = texture(s, w, h);
    put_px(g, w, h, px);
    Out o;
    o.le32(w); o.le32(h); o.le32(1);
    for (auto &p : px) for (int c = 0; c < 4; c++) o.u8(p.c[c]);
    g.b = o.b;
    return g;
}
static GFile texture_(Src &s, int w, int h) {
    GFile g = dds(s, w, h);
    g.type = IL_TEXTURE; g.ext = "texture"; g.variant = "texture " + g.variant; g.detect = false;
    g.b.insert(g.b.begin(), 48, 0);
    return g;
}
// DXT blocks of a picture and what they show
static Bytes dxt_pic(Src &s, Pic &p, int w, int h, int k) {
    Bytes o;
    p.size(w, h);
    uint64_t sd = s.seed32();
    for (int by = 0; by < (h + 3) / 4; by++)
        for (int bx = 0; bx < (w + 3) / 4; bx++) {
            Bytes b = dxt_gen(s, k, sd);
            o.insert(o.end(), b.begin(), b.end());
            double out[16][4];
            dxt_block(k, &b[0], out);
            for (int i = 0; i < 16; i++) {
                int x = bx * 4 + i % 4, y = by * 4 + i / 4;
                if (x < w && y < h) memcpy(p.at(x, y), out[i], sizeof out[i]);
            }
        }
    return o;
}
static const double DXT_TOL = 0.034;
// ---------------------------------------------------------------- Gothic/ROT
static GFile rot(Src &s, int w, int h) {
    GFile g;
    g.type = IL_ROT; g.ext = "rot"; g.detect = false; g.flip_unsure = true;
    int k = s.range(0, 3);
    g.variant = fmt("rot %d", k);
    int W = w, H = h, n = s.chance(1, 2) ? 1 : 20;
    std::vector<Bytes> lev;
    std::vector<std::pair<int, int>> sz;
    for (int m = 0; m < n; m++) {
        Pic p;
        if (k == 0) {
            auto px = texture(s, W, H);
            GFile q;
            put_px(q, W, H, px);
            p = q.pic;
            Bytes b;
            for (auto &x : px) b.insert(b.end(), x.c, x.c + 4);
            lev.push_back(b);
        } else lev.push_back(dxt_pic(s, p, W, H, k == 1 ? 1 : k == 2 ? 3 : 5));
        if (m) g.mips.push_back(p); else g.pic = p;
        sz.push_back({W, H});
        if (W == 1 && H == 1) break;
        W = std::max(1, W / 2); H = std::max(1, H / 2);
    }
    if (k) g.tol = DXT_TOL;
    Out o;
    o.str("FORM"); o.be32(0x14); o.str("HEAD"); o.le32(w); o.le32(h); o.le32(k == 0 ? 1024 : 1027 + k); o.le32(4);
    o.str("FORM");
    size_t len = o.pos();
    o.be32(0); o.str("MIPS");
    for (size_t m = 0; m < lev.size(); m++) {
        o.str("FORM"); o.be32(4 + 16 + (uint32_t)lev[m].size()); o.str("MLVL");
        o.le32((int)m); o.le32(sz[m].first); o.le32(sz[m].second); o.le32((uint32_t)lev[m].size());
        o.bytes(lev[m]);
    }
    o.set_be32(len, (uint32_t)(o.pos() - len - 4));
    g.b = o.b;
    return g;
}
// ---------------------------------------------------------------- Scitex CT
static GFile scitex(Src &s, int w, int h) {
    GFile g;
    g.type = IL_SCITEX; g.ext = "ct";
    bool rgb = s.chance(1, 2);
    g.variant = rgb ? "scitex rgb" : "scitex grey";
    g.alpha = false;
    auto px = texture(s, w, h);
    if (!rgb) gray(px);
    put_px(g, w, h, px);
    Out o;
    o.field("checks", 80); o.str("CT"); o.zero(942);
    o.u8(s.range(0, 1)); o.u8(rgb ? 3 : 1); o.be16(rgb ? 7 : 8);
    o.str("+0000010.00000"); o.str("+0000010.00000");
    o.str(fmt("+%011d", h)); o.str(fmt("+%011d", w));
    o.pad_to(2048);
    for (int y = 0; y < h; y++)
        for (int c = 0; c < (rgb ? 3 : 1); c++) {
            for (int x = 0; x < w; x++) o.u8(px[(size_t)y * w + x].c[c]);
            if (w & 1) o.u8(0);
        }
    g.b = o.b;
    return g;
}
// ---------------------------------------------------------------- BLP (Warcraft III, World of Warcraft)
static GFile blp(Src &s, int w, int h) {
    GFile g;
    g.type = IL_BLP; g.ext = "blp";
    int k = s.range(0, 5); // 0: BLP1 indices, 1: BLP1 indices and alpha, 2: BLP2 indices, 3..5: BLP2 DXT1, 3, 5
    g.variant = fmt("blp %d", k);
    bool mips = s.chance(1, 2) && k != 1;
    int W = w, H = h;
    std::vector<Bytes> lev;
    auto pal = colours(s, 256);
    g.alpha = k == 1 || k > 2;
    for (int m = 0; m < (mips ? 16 : 1); m++) {
        GFile q;
        Bytes b;
        if (k > 2) { b = dxt_pic(s, q.pic, W, H, k == 3 ? 1 : k == 4 ? 3 : 5); g.tol = DXT_TOL; }
        else {
            b = indices(s, W, H, 256);
            show(q, W, H, b, pal, false);
            if (k == 1) {
                Bytes a = indices(s, W, H, 256);
                for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) q.pic.at(x, y)[3] = a[(size_t)y * W + x] / 255.0;
                b.insert(b.end(), a.begin(), a.end());
            }
        }
        lev.push_back(b);
        if (m) g.mips.push_back(q.pic); else g.pic = q.pic;
        if (W == 1 && H == 1) break;
        W = std::max(1, W / 2); H = std::max(1, H / 2);
    }
    Out o;
    if (k < 2) { o.str("BLP1"); o.le32(1); o.le32(k == 1 ? 8 : 0); o.le32(w); o.le32(h); o.le32(k == 0 ? 5 : s.range(3, 4)); o.le32(1); }
    else { o.str("BLP2"); o.le32(1); o.u8(k == 2 ? 1 : 2); o.u8(k == 2 ? 0 : k == 3 ? 1 : 8); o.u8(k == 5 ? 7 : k == 4 ? 1 : 0); o.u8(mips); o.le32(w); o.le32(h); }
    size_t tab = o.pos();
    o.zero(128);
    if (k < 3 || s.chance(1, 2)) for (auto &p : pal) { o.u8(p.c[2]); o.u8(p.c[1]); o.u8(p.c[0]); o.u8(255); }
    for (size_t m = 0; m < lev.size(); m++) {
        o.set_le32(tab + 4 * m, o.pos());
        o.set_le32(tab + 64 + 4 * m, (uint32_t)lev[m].size());
        o.bytes(lev[m]);
        o.zero(s.range(0, 3));
    }
    g.b = o.b;
    return g;
}
// ---------------------------------------------------------------- Wii TPL
static uint16_t rgb565(const Px &p) { return (p.c[0] >> 3) << 11 | (p.c[1] >> 2) << 5 | p.c[2] >> 3; }
static void of565(uint16_t v, double *d) { d[0] = (v >> 11) / 31.0; d[1] = (v >> 5 & 63) / 63.0; d[2] = (v & 31) / 31.0; d[3] = 1; }
static void of5a3(uint16_t v, double *d) {
    if (v & 0x8000) { d[0] = (v >> 10 & 31) / 31.0; d[1] = (v >> 5 & 31) / 31.0; d[2] = (v & 31) / 31.0; d[3] = 1; }
    else { d[0] = (v >> 8 & 15) / 15.0; d[1] = (v >> 4 & 15) / 15.0; d[2] = (v & 15) / 15.0; d[3] = (v >> 12 & 7) / 7.0; }
}
static GFile tpl(Src &s, int w, int h) {
    GFile g;
    g.type = IL_TPL; g.ext = "tpl"; g.variant = "tpl";
    int n = s.chance(2, 3) ? 1 : s.range(2, 3);
    g.images = n;
    g.tol = 0.004;
    Out o;
    o.be32(0x0020AF30); o.be32(n); o.be32(12);
    size_t dir = o.pos();
    o.zero(8 * n);
    for (int t = 0; t < n; t++) {
        static const int kinds[] = {0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 14};
        int f = s.pick(std::vector<int>(kinds, kinds + 11)), W = t ? s.size(40) : w, H = t ? s.size(40) : h;
        g.variant += fmt(" %d", f);
        auto px = texture(s, W, H);
        Pic p;
        p.size(W, H);
        int np = 0, pf = s.range(0, 2);
        std::vector<std::array<double, 4>> pal;
        if (f >= 8 && f <= 10) {
            np = f == 8 ? s.range(1, 16) : f == 9 ? s.range(1, 256) : s.range(1, 600);
            o.pad(4);
            o.set_be32(dir + 8 * t + 4, o.pos());
            o.be16(np); o.be16(0); o.be32(pf); o.be32(o.pos() + 4);
            uint64_t sd = s.seed32();
            for (int i = 0; i < np; i++) {
                uint16_t v = (uint16_t)(mix64(sd + i) >> 9);
                o.be16(v);
                std::array<double, 4> d;
                if (pf == 0) d = {(v & 255) / 255.0, (v & 255) / 255.0, (v & 255) / 255.0, (v >> 8) / 255.0};
                else if (pf == 1) of565(v, &d[0]);
                else of5a3(v, &d[0]);
                pal.push_back(d);
            }
        }
        o.pad(4);
        o.set_be32(dir + 8 * t, o.pos());
        o.be16(H); o.be16(W); o.be32(f); o.be32(0);
        size_t at = o.pos() - 4;
        o.be32(0); o.be32(0); o.be32(1); o.be32(1); o.bef(0); o.zero(4);
        o.pad(32);
        o.set_be32(at, o.pos());
        int tw = f == 0 || f == 8 || f == 14 || f == 1 || f == 2 || f == 9 ? 8 : 4, th = f == 0 || f == 8 || f == 14 ? 8 : 4;
        for (int ty = 0; ty < H; ty += th)
            for (int tx = 0; tx < W; tx += tw) {
                if (f == 14) {
                    for (int b = 0; b < 4; b++) {
                        uint64_t r = s.seed32() * 0x9E3779B97F4A7C15ull;
                        uint8_t blk[8];
                        for (int i = 0; i < 8; i++) blk[i] = (uint8_t)(mix64(r + i) >> 13);
                        for (int i = 0; i < 8; i++) o.u8(blk[i]);
                        uint16_t c0 = blk[0] << 8 | blk[1], c1 = blk[2] << 8 | blk[3];
                        double c[4][4];
                        of565(c0, c[0]); of565(c1, c[1]);
                        for (int q = 0; q < 4; q++) {
                            c[2][q] = c0 > c1 ? (2 * c[0][q] + c[1][q]) / 3 : (c[0][q] + c[1][q]) / 2;
                            c[3][q] = c0 > c1 ? (c[0][q] + 2 * c[1][q]) / 3 : 0;
                        }
                        for (int i = 0; i < 16; i++) {
                            int x = tx + b % 2 * 4 + i % 4, y = ty + b / 2 * 4 + i / 4;
                            if (x < W && y < H) memcpy(p.at(x, y), c[blk[4 + i / 4] >> (6 - i % 4 * 2) & 3], 32);
                        }
                    }
                    g.tol = std::max(g.tol, 0.009);
                    continue;
                }
                Bytes second;
                int half = -1;
                for (int i = 0; i < tw * th; i++) {
                    int x = tx + i % tw, y = ty + i / tw;
                    bool in = x < W && y < H;
                    Px q = in ? px[(size_t)y * W + x] : Px{{1, 2, 3, 4}};
                    double d[4] = {0, 0, 0, 1};
                    auto grey = [&](int v, double m, int a, double am) { d[0] = d[1] = d[2] = v / m; d[3] = a / am; };
                    int v;
                    switch (f) {
                    case 0: v = q.c[0] >> 4; if (i % 2) o.u8(half | v); else half = v << 4; grey(v, 15, 1, 1); break;
                    case 1: o.u8(q.c[0]); grey(q.c[0], 255, 1, 1); break;
                    case 2: o.u8((q.c[3] & 0xF0) | q.c[0] >> 4); grey(q.c[0] >> 4, 15, q.c[3] >> 4, 15); break;
                    case 3: o.u8(q.c[3]); o.u8(q.c[0]); grey(q.c[0], 255, q.c[3], 255); break;
                    case 4: v = rgb565(q); o.be16(v); of565(v, d); break;
                    case 5: v = q.c[0] << 8 | q.c[1]; o.be16(v); of5a3(v, d); break;
                    case 6: o.u8(q.c[3]); o.u8(q.c[0]); second.push_back(q.c[1]); second.push_back(q.c[2]); for (int c = 0; c < 4; c++) d[c] = q.c[c] / 255.0; break;
                    case 8: v = q.c[0] % np; if (i % 2) o.u8(half | v); else half = v << 4; memcpy(d, &pal[v], 32); break;
                    case 9: v = q.c[0] % np; o.u8(v); memcpy(d, &pal[v], 32); break;
                    case 10: v = (q.c[0] << 8 | q.c[1]) % np; o.be16(v | (q.c[2] & 0xC0) << 8); memcpy(d, &pal[v], 32); break;
                    }
                    if (in) memcpy(p.at(x, y), d, 32);
                }
                o.bytes(second);
            }
        if (t) g.more.push_back(p); else g.pic = p;
    }
    g.b = o.b;
    return g;
}
// ---------------------------------------------------------------- Amiga ILBM, PBM
static GFile ilbm(Src &s, int w, int h) {
    GFile g;
    g.type = IL_ILBM; g.ext = "lbm";
    enum { IDX, DEEP, HAM6, HAM8, EHB, PBM };
    int k = s.range(0, 5);
    if (k == PBM) w = (w + 15) & ~15; // readers differ in how they pad other widths
    int planes = k == DEEP ? 24 : k == HAM6 || k == EHB ? 6 : k == HAM8 || k == PBM ? 8 : s.range(1, 8);
    g.alpha = false;
    bool comp = s.chance(1, 2), mask = k != PBM && s.chance(1, 5), camg = k == HAM6 || k == HAM8 || (k == EHB && s.chance(1, 2));
    int need = k == HAM6 ? 16 : k == HAM8 ? 64 : k == EHB ? 32 : 1 << planes;
    if (k == IDX && planes > 1 && s.chance(1, 4)) need = std::max(1, need - s.range(0, need / 2 - 1));
    bool haspal = k != DEEP;
    auto pal = colours(s, 256);
    g.variant = fmt("ilbm %d planes %d%s%s%s", k, planes, comp ? " packed" : "", mask ? " mask" : "", camg ? " camg" : "");
    std::vector<uint32_t> val((size_t)w * h);
    auto px = texture(s, w, h);
    g.pic.size(w, h);
    for (int y = 0; y < h; y++) {
        Px held = pal[0];
        for (int x = 0; x < w; x++) {
            const Px &p = px[(size_t)y * w + x];
            uint32_t v;
            Px c;
            if (k == DEEP) { v = p.c[0] | p.c[1] << 8 | p.c[2] << 16; c = p; }
            else if (k == HAM6 || k == HAM8) {
                int n = planes - 2, m = (1 << n) - 1, ctl = p.c[1] & 3, low = p.c[0] & m;
                v = ctl << n | low;
                if (ctl == 0) held = pal[low];
                else { int ch = ctl == 1 ? 2 : ctl == 2 ? 0 : 1; held.c[ch] = (uint8_t)(low << (8 - n)); }
                c = held;
                // the missing low bits of a modified channel are filled in different ways
                g.tol = std::max(g.tol, k == HAM6 ? 0.06 : 0.013);
            } else {
                v = p.c[0] % (k == EHB ? 64 : need);
                c = k == EHB && v >= 32 ? Px{{(uint8_t)(pal[v - 32].c[0] / 2), (uint8_t)(pal[v - 32].c[1] / 2), (uint8_t)(pal[v - 32].c[2] / 2), 255}} : pal[v];
            }
            val[(size_t)y * w + x] = v;
            g.pic.set8(x, y, c.c[0], c.c[1], c.c[2]);
        }
    }
    Out o;
    auto chunk = [&](const char *id, const Bytes &d) { o.str(id); o.be32((uint32_t)d.size()); o.bytes(d); if (d.size() & 1) o.u8(0); };
    o.str("FORM"); o.be32(0); o.str(k == PBM ? "PBM " : "ILBM");
    if (s.chance(1, 4)) { Out a; a.str("checks"); if (s.chance(1, 2)) a.u8('.'); chunk("ANNO", a.b); }
    Out hd;
    hd.be16(w); hd.be16(h); hd.be16(0); hd.be16(0); hd.u8(planes); hd.u8(mask ? 1 : 0); hd.u8(comp); hd.u8(0); hd.be16(0); hd.u8(10); hd.u8(11); hd.be16(320); hd.be16(200);
    chunk("BMHD", hd.b);
    if (haspal) { Out c; for (int i = 0; i < need; i++) for (int q = 0; q < 3; q++) c.u8(pal[i].c[q]); chunk("CMAP", c.b); }
    if (camg) { Out c; c.be32(k == EHB ? 0x80 : 0x800); chunk("CAMG", c.b); }
    Out b;
    for (int y = 0; y < h; y++) {
        int np = k == PBM ? 1 : planes + mask;
        for (int p = 0; p < np; p++) {
            Bytes row;
            if (k == PBM) { for (int x = 0; x < w; x++) row.push_back(val[(size_t)y * w + x]); if (comp ? w % 2 : w % 2) row.push_back(0); }
            else {
                Bytes bits;
                for (int x = 0; x < w; x++) bits.push_back(p < planes ? val[(size_t)y * w + x] >> p & 1 : 1);
                row = pack_row(&bits[0], w, 1, 2);
            }
            if (!comp) b.bytes(row); else packbits(s, b, &row[0], (int)row.size());
        }
    }
    chunk("BODY", b.b);
    o.set_be32(4, (uint32_t)o.pos() - 8);
    g.b = o.b;
    return g;
}
// ---------------------------------------------------------------- Maya IFF
static GFile maya(Src &s, int w, int h) {
    GFile g;
    g.type = IL_IFF; g.ext = "iff"; g.detect = false;
    bool alpha = s.chance(1, 2), comp = alpha && s.chance(1, 2);
    int n = alpha ? 4 : 3;
    g.variant = fmt("maya iff %d%s", n, comp ? " packed" : "");
    g.alpha = alpha;
    auto px = texture(s, w, h);
    put_px(g, w, h, px);
    Out o;
    o.str("FOR4"); o.be32(0); o.str("CIMG");
    if (s.chance(1, 2)) { o.str("FVER"); o.be32(4); o.be32(1); }
    if (s.chance(1, 2)) { o.str("AUTH"); o.be32(6); o.str("checks"); o.be16(0); }
    int tw = s.chance(1, 2) ? 1000 : s.range(1, 40), th = s.chance(1, 2) ? 1000 : s.range(1, 40);
    int tiles = (w + tw - 1) / tw * ((h + th - 1) / th);
    o.str("TBHD"); o.be32(32); o.be32(w); o.be32(h); o.be16(1); o.be16(1); o.be32(alpha ? 3 : 1); o.be16(0); o.be16(tiles); o.be32(comp); o.be32(0); o.be32(0);
    size_t form = o.pos();
    o.str("FOR4"); o.be32(0); o.str("TBMP");
    for (int y = 0; y < h; y += th)
        for (int x = 0; x < w; x += tw) {
            int x2 = std::min(w, x + tw) - 1, y2 = std::min(h, y + th) - 1, a = (x2 - x + 1) * (y2 - y + 1);
            auto at = [&](int i) -> const Px & { return px[(size_t)(y + i / (x2 - x + 1)) * w + x + i % (x2 - x + 1)]; };
            Out d;
            if (comp)
                for (int c = n - 1; c >= 0; c--)
                    for (int i = 0; i < a;) {
                        int run = 1;
                        while (i + run < a && run < 128 && at(i + run).c[c] == at(i).c[c]) run++;
                        if (run > 1) { d.u8(0x80 | (run - 1)); d.u8(at(i).c[c]); i += run; }
                        else { int k = std::min(a - i, s.range(1, 128)); d.u8(k - 1); for (int q = 0; q < k; q++) d.u8(at(i + q).c[c]); i += k; }
                    }
            // what is not smaller is stored as it is
            if (!comp || d.b.size() >= (size_t)a * n) { d.b.clear(); for (int i = 0; i < a; i++) for (int c = n - 1; c >= 0; c--) d.u8(at(i).c[c]); }
            o.str("RGBA"); o.be32(8 + (uint32_t)d.b.size()); o.be16(x); o.be16(y); o.be16(x2); o.be16(y2);
            o.bytes(d.b);
            while ((o.pos() - form) % 4) o.u8(0);
        }
    o.set_be32(form + 4, (uint32_t)(o.pos() - form - 8));
    o.set_be32(4, (uint32_t)o.pos() - 8);
    g.b = o.b;
    return g;
}
// ---------------------------------------------------------------- KTX
static GFile ktx(Src &s, int w, int h) {
    GFile g;
    g.type = IL_KTX; g.ext = "ktx";
    int k = s.range(1, 4);
    static const int glf[] = {0, 0x1909, 0x190A, 0x1907, 0x1908};
    bool up = s.chance(1, 3), mips = s.chance(1, 2);
    g.variant = fmt("ktx %d%s%s", k, up ? " up" : "", mips ? " mips" : "");
    g.alpha = k == 2 || k == 4;
    Out o;
    static const uint8_t id[] = {0xAB, 'K', 'T', 'X', ' ', '1', '1', 0xBB, '\r', '\n', 0x1A, '\n'};
    for (int c : id) o.u8(c);
    o.le32(0x04030201); o.le32(0x1401); o.le32(1); o.le32(glf[k]); o.le32(glf[k]); o.le32(glf[k]); o.le32(w); o.le32(h); o.le32(0); o.le32(0); o.le32(1);
    size_t at = o.pos();
    o.le32(0);
    Out kv;
    if (s.chance(1, 3)) { kv.le32(9); kv.str(std::string("api\0GLES2", 9)); kv.zero(3); }
    if (up || s.chance(1, 3)) { std::string t = std::string("KTXorientation") + '\0' + (up ? "S=r,T=u" : "S=r,T=d") + '\0'; kv.le32((uint32_t)t.size()); kv.str(t); kv.pad(4); }
    o.le32((uint32_t)kv.b.size()); o.bytes(kv.b);
    int W = w, H = h, n = 0;
    for (;; n++) {
        auto px = texture(s, W, H);
        if (k < 3) gray(px);
        GFile q;
        put_px(q, W, H, px);
        if (n) g.mips.push_back(q.pic); else g.pic = q.pic;
        int row = (W * k + 3) / 4 * 4;
        o.le32(row * H);
        for (int y = 0; y < H; y++) {
            const Px *p = &px[(size_t)(up ? H - 1 - y : y) * W];
            size_t a = o.pos();
            for (int x = 0; x < W; x++) for (int c = 0; c < k; c++) o.u8(k == 2 && c == 1 ? p[x].c[3] : p[x].c[c]);
            while (o.pos() - a < (size_t)row) o.u8(0);
        }
        if (!mips || (W == 1 && H == 1)) break;
        W = std::max(1, W / 2); H = std::max(1, H / 2);
    }
    o.set_le32(at, n + 1);
    g.b = o.b;
    return g;
}
// ---------------------------------------------------------------- DPX
static GFile dpx(Src &s, int w, int h) {
    GFile g;
    g.type = IL_DPX; g.ext = "dpx"; g.detect = false;
    int desc = s.pick(std::vector<int>{6, 50, 51}), bits = s.pick(std::vector<int>{8, 10, 16, 32});
    int n = desc == 6 ? 1 : desc == 50 ? 3 : 4;
    if (bits == 10 && n != 3) bits = 8; // the packing of the others differs between readers
    g.variant = fmt("dpx %d/%d", desc, bits);
    g.alpha = n == 4;
    if (bits == 10) g.tol = 0.0001; // 10 bits widened to 16
    auto px = texture(s, w, h);
    if (n == 1) gray(px);
    put_px(g, w, h, px);
    Out o;
    int off = s.pick(std::vector<int>{2048, 8192});
    o.str("SDPX"); o.be32(off); o.field("V1.0", 8); o.be32(0); o.be32(1); o.be32(1664); o.be32(384); o.be32(0); o.field("x.dpx", 100); o.field("2001", 24); o.field("checks", 100);
    o.field("", 200); o.field("", 200); o.be32(0xFFFFFFFF); o.pad_to(768);
    o.be16(0); o.be16(1); o.be32(w); o.be32(h);
    o.be32(0); o.be32(0); o.bef(0); o.be32((uint32_t)((1ull << bits) - 1)); o.bef(1); o.u8(desc); o.u8(2); o.u8(2); o.u8(bits); o.be16(bits == 10 ? 1 : 0); o.be16(0); o.be32(off); o.be32(0); o.be32(0); o.field("", 32);
    o.pad_to(off);
    for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) {
            const Px &p = px[(size_t)y * w + x];
            if (bits == 8) for (int c = 0; c < n; c++) o.u8(p.c[c]);
            else if (bits != 10) for (int c = 0; c < n; c++) {
                double *d = g.pic.at(x, y), v;
                if (bits == 16) { int q = p.c[c] << 8 | p.c[(c + 1) % n]; o.be16(q); v = q / 65535.0; }
                else { float q = p.c[c] / 200.0f; o.bef(q); v = q; }
                if (n == 1) d[0] = d[1] = d[2] = v;
                else d[c] = v;
            }
            else {
                uint32_t v = 0;
                double *d = g.pic.at(x, y);
                for (int c = 0; c < 3; c++) { uint32_t q = p.c[c] << 2 | p.c[3] >> (c * 2) & 3; d[c] = q / 1023.0; v |= q << (22 - 10 * c); }
                d[3] = 1;
                o.be32(v);
            }
        }
    g.b = o.b;
    return g;
}
// ---------------------------------------------------------------- FITS
static GFile fits(Src &s, int w, int h) {
    GFile g;
    g.type = IL_FITS; g.ext = "fits"; g.detect = false;
    int bits = s.pick(std::vector<int>{8, 16, 32, -32, -64}), axes = s.pick(std::vector<int>{2, 2, 1, 3}), d = axes == 3 ? s.range(1, 4) : 1;
    if (axes == 1) h = 1;
    if (d > 1) h = std::min(h, 30);
    g.variant = fmt("fits %d, %d axes", bits, axes);
    g.alpha = false;
    g.depth = d;
    std::vector<Px> px;
    for (int z = 0; z < d; z++) { auto q = texture(s, w, h); px.insert(px.end(), q.begin(), q.end()); }
    gray(px);
    put_px(g, w, h * d, px);
    g.tol = 1e-5;
    Out o;
    auto card = [&](const std::string &t) { o.str(t); while (o.pos() % 80) o.u8(' '); };
    card(fmt("SIMPLE  = %20s", "T")); card(fmt("BITPIX  = %20d", bits)); card(fmt("NAXIS   = %20d", axes)); card(fmt("NAXIS1  = %20d", w));
    if (axes > 1) card(fmt("NAXIS2  = %20d", h));
    if (axes > 2) card(fmt("NAXIS3  = %20d", d));
    if (s.chance(1, 2)) card("COMMENT   by the checks");
    card("END");
    while (o.pos() % 2880) o.u8(' ');
    double top = 0;
    for (auto &p : px) top = std::max(top, (double)p.c[0]);
    for (size_t k = 0; k < px.size(); k++) {
        int x = k % w, y = k / w, v = px[k].c[0];
        double q = v / 255.0;
        switch (bits) {
        case 8: o.u8(v); break;
        case 16: v = v << 7 | px[k].c[3] >> 1; o.be16(v); q = v / 32767.0; break;
        case 32: v = v << 23 | px[k].c[3] << 9; o.be32(v); q = v / 2147483647.0; break;
        // the largest value is shown as 1
        case -32: o.bef(v * 3.25f); q = top ? v / top : 0; break;
        case -64: {
            double f = v * 3.25;
            uint64_t u;
            memcpy(&u, &f, 8);
            o.be32(u >> 32); o.be32((uint32_t)u);
            q = top ? v / top : 0;
        }
        }
        double *at = g.pic.at(x, y);
        at[0] = at[1] = at[2] = q;
    }
    o.pad(2880);
    g.flip_unsure = true;
    g.b = o.b;
    return g;
}
// ---------------------------------------------------------------- VTF
static GFile vtf(Src &s, int w, int h) {
    GFile g;
    g.type = IL_VTF; g.ext = "vtf";
    auto p2 = [](int v) { int q = 1; while (q * 2 <= v) q *= 2; return q; };
    w = p2(w); h = p2(h);
    struct V { int id, n; const char *name; };
    static const V vs[] = {{0, 4, "RGBA8888"}, {1, 4, "ABGR8888"}, {2, 3, "RGB888"}, {3, 3, "BGR888"}, {5, 1, "I8"}, {6, 2, "IA88"}, {8, 1, "A8"}, {11, 4, "ARGB8888"}, {12, 4, "BGRA8888"}, {13, 0, "DXT1"}, {14, 0, "DXT3"}, {15, 0, "DXT5"}};
    const V f = s.pick(std::vector<V>(vs, vs + 12));
    bool mips = s.chance(1, 2), low = s.chance(1, 2);
    int minor = s.range(0, 3), frames = s.chance(1, 4) ? s.range(2, 3) : 1;
    g.variant = fmt("vtf 7.%d %s%s%s%s", minor, f.name, mips ? " mips" : "", low ? " low" : "", frames > 1 ? fmt(" %d frames", frames).c_str() : "");
    if (f.id >= 13) g.tol = DXT_TOL;
    g.alpha = f.id != 2 && f.id != 3 && f.id != 5;
    g.images = frames;
    int n = 1;
    if (mips) for (int W = w, H = h; W > 1 || H > 1; W = std::max(1, W / 2), H = std::max(1, H / 2)) n++;
    Out o;
    o.str(std::string("VTF\0", 4)); o.le32(7); o.le32(minor);
    int hs = minor < 2 ? 64 : 80;
    o.le32(hs); o.le16(w); o.le16(h); o.le32(0); o.le16(frames); o.le16(0); o.le32(0); o.lef(0); o.lef(0); o.lef(0); o.le32(0); o.lef(1);
    o.le32(f.id); o.u8(n); o.le32(low ? 13 : 0xFFFFFFFF); o.u8(low ? std::min(4, w) : 0); o.u8(low ? std::min(4, h) : 0);
    if (minor >= 2) o.le16(1);
    if (minor >= 3) { o.zero(3); o.le32(2); o.zero(8); hs = 80 + 16; o.pad_to(80); o.le32(1); o.le32(hs); o.le32(0x30); o.le32(hs + (low ? 8 : 0)); o.set_le32(12, hs); }
    o.pad_to(hs);
    if (low) { uint64_t sd = s.seed32(); o.bytes(dxt_gen(s, 1, sd)); }
    g.more.resize(frames - 1);
    for (int m = n - 1; m >= 0; m--) {
        int W = std::max(1, w >> m), H = std::max(1, h >> m);
        for (int fr = 0; fr < frames; fr++) {
            GFile q;
            if (f.id >= 13) o.bytes(dxt_pic(s, q.pic, W, H, f.id == 13 ? 1 : f.id == 14 ? 3 : 5));
            else {
                auto px = texture(s, W, H);
                if (f.id == 5 || f.id == 6) gray(px);
                if (f.id == 8) for (auto &p : px) p.c[0] = p.c[1] = p.c[2] = 0;
                put_px(q, W, H, px);
                for (auto &p : px) switch (f.id) {
                    case 0: o.u8(p.c[0]); o.u8(p.c[1]); o.u8(p.c[2]); o.u8(p.c[3]); break;
                    case 1: for (int c = 3; c >= 0; c--) o.u8(p.c[c]); break;
                    case 2: for (int c = 0; c < 3; c++) o.u8(p.c[c]); break;
                    case 3: for (int c = 2; c >= 0; c--) o.u8(p.c[c]); break;
                    case 5: o.u8(p.c[0]); break;
                    case 6: o.u8(p.c[0]); o.u8(p.c[3]); break;
                    case 8: o.u8(p.c[3]); break;
                    case 11: o.u8(p.c[3]); for (int c = 0; c < 3; c++) o.u8(p.c[c]); break;
                    case 12: for (int c = 2; c >= 0; c--) o.u8(p.c[c]); o.u8(p.c[3]); break;
                    }
            }
            if (m == 0) { if (fr) g.more[fr - 1] = q.pic; else g.pic = q.pic; }
            else if (fr == 0) g.mips.insert(g.mips.begin(), q.pic);
        }
    }
    g.b = o.b;
    return g;
}
// ---------------------------------------------------------------- Call of Duty IWI: levels from the smallest
static GFile iwi(Src &s, int w, int h) {
    GFile g;
    g.type = IL_IWI; g.ext = "iwi";
    struct V { int id, n; };
    static const V vs[] = {{1, 4}, {2, 3}, {4, 1}, {11, 0}, {12, 0}, {13, 0}};
    const V f = s.pick(std::vector<V>(vs, vs + 6));
    bool mips = s.chance(1, 2);
    g.variant = fmt("iwi %d%s", f.id, mips ? " mips" : "");
    if (f.id >= 11) {
        g.tol = DXT_TOL;
        auto p2 = [](int v) { int q = 1; while (q * 2 <= v) q *= 2; return q; };
        w = p2(w); h = p2(h);
    }
    g.alpha = f.id != 2;
    Out o;
    o.str("IWi"); o.u8(s.range(5, 6)); o.u8(f.id); o.u8(mips ? 0 : 3); o.le16(w); o.le16(h); o.le16(1); o.zero(16);
    int n = 1;
    if (mips) for (int W = w, H = h; W > 1 || H > 1; W = std::max(1, W / 2), H = std::max(1, H / 2)) n++;
    for (int m = n - 1; m >= 0; m--) {
        int W = std::max(1, w >> m), H = std::max(1, h >> m);
        GFile q;
        if (f.id >= 11) o.bytes(dxt_pic(s, q.pic, W, H, f.id == 11 ? 1 : f.id == 12 ? 3 : 5));
        else {
            auto px = texture(s, W, H);
            if (f.id == 4) for (auto &p : px) p.c[0] = p.c[1] = p.c[2] = 0;
            put_px(q, W, H, px);
            for (auto &p : px) switch (f.id) {
                case 1: for (int c = 2; c >= 0; c--) o.u8(p.c[c]); o.u8(p.c[3]); break;
                case 2: for (int c = 2; c >= 0; c--) o.u8(p.c[c]); break;
                case 4: o.u8(p.c[3]); break;
                }
        }
        if (m) g.mips.insert(g.mips.begin(), q.pic); else g.pic = q.pic;
    }
    g.b = o.b;
    return g;
}
// ---------------------------------------------------------------- a picture in the tag of an MP3
static GFile mp3(Src &s, int w, int h) {
    bool jp = s.chance(1, 2);
    GFile in = jp ? jpg(s, w, h) : png(s, w, h);
    GFile g = in;
    g.type = IL_MP3; g.ext = "mp3";
    int major = s.range(3, 4);
    g.variant = fmt("mp3 2.%d %s", major, in.variant.c_str());
    auto syn = [](Out &o, uint32_t v) { for (int i = 3; i >= 0; i--) o.u8(v >> (7 * i) & 127); };
    Out fr;
    auto frame = [&](const char *id, const Bytes &d) {
        fr.str(id);
        if (major == 3) fr.be32((uint32_t)d.size()); else syn(fr, (uint32_t)d.size());
        fr.be16(0);
        fr.bytes(d);
    };
    for (int i = s.range(0, 2); i > 0; i--) { Out d; d.u8(0); d.str("title"); d.zero(s.range(0, 200)); frame(i == 1 ? "TIT2" : "TPE1", d.b); }
    Out a;
    a.u8(0); a.str(jp ? "image/jpeg" : "image/png"); a.u8(0); a.u8(s.range(0, 20));
    if (s.chance(1, 2)) a.str("cover");
    a.u8(0);
    a.bytes(in.b);
    frame("APIC", a.b);
    fr.zero(s.range(0, 20));
    Out o;
    o.str("ID3"); o.u8(major); o.u8(0); o.u8(0); syn(o, (uint32_t)fr.b.size());
    o.bytes(fr.b);
    o.zero(s.range(0, 10));
    g.b = o.b;
    return g;
}
// ---------------------------------------------------------------- MNG with one picture
static GFile mng(Src &s, int w, int h) {
    // libmng does not put the passes of an interlaced picture together properly
    GFile g = png(s, w, h, false, false);
    g.type = IL_MNG; g.ext = "mng"; g.detect = false;
    g.tol = 0.0041; // the picture shown has 8 bits
    Out o;
    auto chunk = [&](const char *id, const Bytes &d) {
        Out c;
        c.str(id); c.bytes(d);
        o.be32((uint32_t)d.size()); o.bytes(c.b); o.be32((uint32_t)crc32(0, &c.b[0], (uInt)c.b.size()));
    };
    o.u8(0x8A); o.str("MNG\r\n\x1A\n");
    Out m;
    m.be32(w); m.be32(h); m.be32(0); m.be32(0); m.be32(0); m.be32(0); m.be32(s.chance(1, 2) ? 0 : 15);
    chunk("MHDR", m.b);
    o.b.insert(o.b.end(), g.b.begin() + 8, g.b.end());
    chunk("MEND", Bytes());
    g.variant = "mng " + g.variant;
    g.b = o.b;
    return g;
}
// ---------------------------------------------------------------- DICOM
static GFile dicom(Src &s, int w, int h) {
    GFile g;
    g.type = IL_DICOM; g.ext = s.chance(1, 2) ? "dcm" : "dicom"; g.detect = false;
    int n = s.pick(std::vector<int>{1, 3}), bits = s.pick(std::vector<int>{8, 16});
    bool big = s.chance(1, 3);
    g.variant = fmt("dicom %dx%d%s", n, bits, big ? " big" : "");
    g.alpha = false;
    auto px = texture(s, w, h);
    if (n == 1) gray(px);
    put_px(g, w, h, px);
    Out o;
    bool be = false;
    auto u16 = [&](int v) { if (be) o.be16(v); else o.le16(v); };
    auto u32 = [&](uint32_t v) { if (be) o.be32(v); else o.le32(v); };
    auto tag = [&](int a, int b, const char *vr) { u16(a); u16(b); o.str(vr); };
    auto us = [&](int a, int b, int v) { tag(a, b, "US"); u16(2); u16(v); };
    auto text = [&](int a, int b, const char *vr, std::string t) { if (t.size() & 1) t += vr[0] == 'U' ? '\0' : ' '; tag(a, b, vr); u16((int)t.size()); o.str(t); };
    o.zero(128); o.str("DICM");
    tag(2, 0, "UL"); u16(4); u32(100);
    if (s.chance(1, 2)) { tag(2, 1, "OB"); u16(0); u32(2); o.u8(0); o.u8(1); }
    text(2, 0x10, "UI", big ? "1.2.840.10008.1.2.2" : "1.2.840.10008.1.2.1");
    if (s.chance(1, 2)) text(2, 0x13, "SH", "CHECKS");
    be = big;
    if (s.chance(1, 2)) text(8, 0x60, "CS", "OT");
    if (s.chance(1, 2)) text(0x10, 0x10, "PN", "A^B^C");
    us(0x28, 2, n);
    if (s.chance(1, 2)) text(0x28, 4, "CS", n == 1 ? "MONOCHROME2" : "RGB");
    us(0x28, 0x10, h); us(0x28, 0x11, w);
    us(0x28, 0x100, bits); us(0x28, 0x101, bits); us(0x28, 0x102, bits - 1);
    if (s.chance(1, 2)) us(0x28, 0x103, 0);
    tag(0x7FE0, 0x10, bits == 8 ? "OB" : "OW"); u16(0);
    size_t len = (size_t)w * h * n * bits / 8;
    u32((uint32_t)(len + (len & 1)));
    for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) {
            const Px &p = px[(size_t)y * w + x];
            for (int c = 0; c < n; c++) {
                if (bits == 8) { o.u8(p.c[c]); continue; }
                int v = p.c[c] << 8 | p.c[3];
                u16(v);
                double *d = g.pic.at(x, y);
                if (n == 1) d[0] = d[1] = d[2] = v / 65535.0; else d[c] = v / 65535.0;
            }
        }
    if (len & 1) o.u8(0);
    g.b = o.b;
    return g;
}
// ---------------------------------------------------------------- Paint Shop Pro
static GFile psp(Src &s, int w, int h) {
    GFile g;
    g.type = IL_PSP; g.ext = "psp";
    int ver = s.range(3, 5), kind = s.range(0, 4); // indices, grey, colours, four channels, colours and an alpha channel
    bool rle = s.chance(2, 3);
    g.variant = fmt("psp %d kind %d%s", ver, kind, rle ? " rle" : "");
    g.alpha = kind >= 3;
    int ncol = kind == 0 ? s.range(2, 256) : 256;
    auto pal = colours(s, ncol);
    auto px = texture(s, w, h);
    Bytes ix = kind == 0 ? indices(s, w, h, ncol) : Bytes();
    if (kind == 0) show(g, w, h, ix, pal, false);
    else { if (kind == 1) gray(px); put_px(g, w, h, px); }
    Out o;
    std::string sig = "Paint Shop Pro Image File\n\x1A";
    o.str(sig); o.zero(32 - sig.size()); o.le16(ver); o.le16(0);
    // in version 3 a block has the length of its first part, and its whole length; later only the whole length
    auto block = [&](Out &q, int id, const Bytes &body, size_t first) {
        q.str(std::string("~BK\0", 4)); q.le16(id);
        if (ver == 3) q.le32((uint32_t)first);
        q.le32((uint32_t)body.size());
        q.bytes(body);
    };
    auto part = [&](const Bytes &d) { Out c; if (ver > 3) c.le32((uint32_t)d.size() + 4); c.bytes(d); return c.b; };
    auto rect = [&](Out &q, int x, int y) { q.le32(0); q.le32(0); q.le32(x); q.le32(y); };
    Out at;
    at.le32(w); at.le32(h); at.le32(0); at.le32(0x40520000); at.u8(1); at.le16(rle ? 1 : 0); at.le16(kind <= 1 ? 8 : 24); at.le16(1); at.le32(kind == 0 ? ncol : kind == 1 ? 256 : 1 << 24);
    at.u8(kind == 1); at.le32(w * h * 3); at.le32(0); at.le16(1); at.le32(ver > 3 ? 1 : 0);
    if (ver == 3) { // the loader takes the part's length from the header's second field
        o.str(std::string("~BK\0", 4)); o.le16(0); o.le32((uint32_t)at.b.size()); o.le32((uint32_t)at.b.size()); o.bytes(at.b);
    } else block(o, 0, part(at.b), 0);
    if (s.chance(1, 3)) { Out cr; cr.zero(s.range(0, 40)); block(o, 1, cr.b, cr.b.size()); }
    if (kind == 0) {
        Out c;
        Out n;
        n.le32(ncol);
        c.bytes(part(n.b));
        for (auto &p : pal) { c.u8(p.c[2]); c.u8(p.c[1]); c.u8(p.c[0]); c.u8(0); }
        block(o, 2, c.b, 4);
    }
    auto channel = [&](int bitmap, int chan, const Bytes &v) {
        Bytes d;
        if (!rle) d = v;
        else
            for (size_t i = 0; i < v.size();) {
                size_t run = 1;
                while (i + run < v.size() && run < 127 && v[i + run] == v[i]) run++;
                if (run > 2 || s.chance(1, 6)) { d.push_back(128 + run); d.push_back(v[i]); i += run; }
                else { size_t k = std::min(v.size() - i, (size_t)s.range(1, 128)); d.push_back(k); d.insert(d.end(), v.begin() + i, v.begin() + i + k); i += k; }
            }
        Out hd;
        hd.le32((uint32_t)d.size()); hd.le32((uint32_t)v.size()); hd.le16(bitmap); hd.le16(chan);
        Out q;
        q.bytes(part(hd.b)); q.bytes(d);
        Out r;
        block(r, 5, q.b, 12);
        return r.b;
    };
    auto plane = [&](int c) { Bytes v; for (auto &p : px) v.push_back(p.c[c]); return v; };
    Out lay;
    std::string name = "Background";
    Out info;
    info.u8(0); rect(info, w, h); rect(info, w, h); info.u8(255); info.u8(0); info.u8(1); info.u8(0); info.u8(0); rect(info, 0, 0); rect(info, 0, 0); info.u8(1); info.u8(0); info.u8(0); info.le16(0); info.zero(40);
    Out bm;
    int nch = kind <= 1 ? 1 : kind == 3 ? 4 : 3;
    bm.le16(kind == 3 ? 2 : 1); bm.le16(nch);
    if (ver == 3) { lay.field(name, 256); lay.bytes(info.b); lay.bytes(bm.b); }
    else {
        Out c;
        c.le16((int)name.size()); c.str(name); c.bytes(info.b);
        if (s.chance(1, 3)) c.zero(s.range(0, 20)); // what later versions add
        lay.bytes(part(c.b)); lay.bytes(part(bm.b));
    }
    for (int c = 0; c < nch; c++) lay.bytes(channel(c == 3 ? 1 : 0, nch == 1 || c == 3 ? 0 : c + 1, kind == 0 ? ix : plane(c)));
    Out lb;
    block(lb, 4, lay.b, 256);
    block(o, 3, lb.b, 0);
    if (kind == 4) {
        Out al, in, ch;
        rect(in, w, h); rect(in, w, h);
        ch.le16(1); ch.le16(1);
        if (ver == 3) { al.field("Alpha", 256); al.bytes(in.b); al.bytes(ch.b); }
        else { Out c; c.le16(5); c.str("Alpha"); c.bytes(in.b); al.bytes(part(c.b)); al.bytes(part(ch.b)); }
        al.bytes(channel(4, 0, plane(3)));
        Out bank, n;
        n.le16(1);
        bank.bytes(part(n.b));
        block(bank, 8, al.b, 256);
        block(o, 7, bank.b, 2);
    }
    g.b = o.b;
    return g;
}
// ---------------------------------------------------------------- Unreal packages
static GFile utx(Src &s, int w, int h) {
    GFile g;
    g.type = IL_UTX; g.ext = "utx"; g.detect = false;
    g.alpha = true;
    int ver = s.range(0, 1) ? s.range(61, 63) : s.range(67, 69), n = s.range(1, 3), npal = s.range(1, 2);
    g.images = n;
    auto compact = [](Out &o, int v) {
        unsigned a = v < 0 ? -v : v;
        uint8_t b = (v < 0 ? 0x80 : 0) | (a & 0x3F);
        a >>= 6;
        o.u8(a ? b | 0x40 : b);
        while (a) { b = a & 0x7F; a >>= 7; o.u8(a ? b | 0x80 : b); }
    };
    std::vector<std::string> names = {"None", "Core", "Engine", "Package", "Class", "Palette", "Texture", "Format", "USize", "VSize", "UBits", "MipZero", "Tex", "Pal"};
    for (int i = names.size() - 1; i > 0; i--) std::swap(names[i], names[s.range(0, i)]);
    auto nm = [&](const char *x) { for (size_t i = 0; i < names.size(); i++) if (names[i] == x) return (int)i; return 0; };
    Out o;
    o.le32(0x9E2A83C1); o.le16(ver); o.le16(0); o.le32(1);
    o.le32((uint32_t)names.size()); o.le32(0); o.le32(n + npal); o.le32(0); o.le32(4); o.le32(0);
    o.zero(s.range(0, 30));
    o.set_le32(16, (uint32_t)o.pos());
    for (auto &x : names) { if (ver >= 64) o.u8((int)x.size() + 1); o.str(x); o.u8(0); o.le32(0x70010); }
    std::vector<std::vector<Px>> pals;
    std::vector<uint32_t> at, len;
    for (int i = 0; i < npal; i++) {
        int nc = s.chance(1, 3) ? s.range(1, 256) : 256;
        auto c = colours(s, nc);
        at.push_back((uint32_t)o.pos());
        compact(o, nm("None")); // an empty list of properties
        if (nm("None") > 63) return g;
        compact(o, nc);
        for (auto &p : c) for (int q = 0; q < 4; q++) o.u8(p.c[q]);
        len.push_back((uint32_t)(o.pos() - at.back()));
        pals.push_back(c);
    }
    for (int i = 0; i < n; i++) {
        int W = i ? s.range(1, 20) : w, H = i ? s.range(1, 20) : h, fm = s.chance(1, 2) ? 3 : 0, pi = s.range(0, npal - 1);
        GFile t;
        Bytes d;
        if (fm == 3) d = dxt_pic(s, t.pic, W, H, 1);
        else { d = indices(s, W, H, (int)pals[pi].size()); show(t, W, H, d, pals[pi], true); }
        at.push_back((uint32_t)o.pos());
        auto prop = [&](const char *x, int type) { compact(o, nm(x)); o.u8(type); };
        int order = s.range(0, 1);
        for (int q = 0; q < 2; q++) {
            if (q == order) { if (fm == 0 || s.chance(1, 2)) { prop("Palette", 0x05); compact(o, pi + 1); } if (fm == 3 || s.chance(1, 3)) { prop("Format", 0x01); o.u8(fm); } }
            else { prop("USize", 0x22); o.le32(W); if (s.chance(1, 2)) { prop("UBits", 0x01); o.u8(5); } prop("VSize", 0x22); o.le32(H); if (s.chance(1, 2)) { prop("MipZero", 0x2A); compact(o, nm("Core")); for (int k = 0; k < 4; k++) o.u8(k); } }
        }
        compact(o, nm("None"));
        o.u8(1); o.le32((uint32_t)o.pos() + 4 + (uint32_t)d.size()); compact(o, (int)d.size());
        o.bytes(d);
        o.le32(W); o.le32(H); o.u8(0); o.u8(0);
        len.push_back((uint32_t)(o.pos() - at.back()));
        if (fm == 3) g.tol = DXT_TOL;
        if (i == 0) { g.pic = t.pic; g.variant = fmt("utx %d format %d", ver, fm); }
        else g.more.push_back(t.pic);
    }
    // imports: -1 Core, -2 Class Palette, -3 Engine, -4 Class Texture
    uint32_t exp = (uint32_t)o.pos();
    for (int i = 0; i < n + npal; i++) {
        compact(o, i < npal ? -2 : -4); compact(o, 0); o.le32(0); compact(o, nm(i < npal ? "Pal" : "Tex")); o.le32(0x70004);
        compact(o, (int)len[i]); compact(o, (int)at[i]);
    }
    uint32_t imp = (uint32_t)o.pos();
    auto import_ = [&](const char *pk, const char *cl, int outer, const char *ob) { compact(o, nm(pk)); compact(o, nm(cl)); o.le32((uint32_t)outer); compact(o, nm(ob)); };
    import_("Core", "Package", 0, "Core"); import_("Core", "Class", -3, "Palette"); import_("Core", "Package", 0, "Engine"); import_("Core", "Class", -3, "Texture");
    o.set_le32(24, exp);
    o.set_le32(28, 4);
    o.set_le32(32, imp);
    g.b = o.b;
    return g;
}
} // namespace fg
