// Independent encoders: well formed files of many formats written from the format descriptions (no code of the library),
// together with the picture they describe.
#pragma once
#include "ilh.h"
#include <png.h>
#include <jpeglib.h>
#include <tiffio.h>
#include <zlib.h>

struct Out {
    Bytes b;
    void u8(int v) { b.push_back((uint8_t)v); }
    void le16(int v) { u8(v); u8(v >> 8); }
    void be16(int v) { u8(v >> 8); u8(v); }
    void le32(uint32_t v) { le16(v & 0xffff); le16(v >> 16); }
    void be32(uint32_t v) { be16(v >> 16); be16(v & 0xffff); }
    void lef(float f) { uint32_t u; memcpy(&u, &f, 4); le32(u); }
    void bef(float f) { uint32_t u; memcpy(&u, &f, 4); be32(u); }
    void str(const std::string &s) { b.insert(b.end(), s.begin(), s.end()); }
    void zero(size_t n) { b.insert(b.end(), n, 0); }
    void field(const std::string &s, size_t n) { for (size_t i = 0; i < n; i++) u8(i < s.size() ? s[i] : 0); }
    void bytes(const Bytes &o) { b.insert(b.end(), o.begin(), o.end()); }
    void pad_to(size_t n) { while (b.size() < n) u8(0); }
    void pad(size_t m) { while (b.size() % m) u8(0); }
    size_t pos() const { return b.size(); }
    void set_le32(size_t p, uint32_t v) { for (int i = 0; i < 4; i++) b[p + i] = (uint8_t)(v >> (8 * i)); }
    void set_be32(size_t p, uint32_t v) { for (int i = 0; i < 4; i++) b[p + i] = (uint8_t)(v >> (24 - 8 * i)); }
};

// A picture: rows from the top, RGBA in 8 bits or (for wide or float formats) doubles
struct Pic {
    int w = 0, h = 0, d = 0; // d: planes, 0 for those of the file
    std::vector<double> v; // 4 per pixel
    double *at(int x, int y) { return &v[((size_t)y * w + x) * 4]; }
    const double *at(int x, int y) const { return &v[((size_t)y * w + x) * 4]; }
    void size(int W, int H) { w = W; h = H; v.assign((size_t)w * h * 4, 1.0); }
    void set8(int x, int y, int r, int g, int b, int a = 255) { double *p = at(x, y); p[0] = r / 255.0; p[1] = g / 255.0; p[2] = b / 255.0; p[3] = a / 255.0; }
    int get8(int x, int y, int c) const { return (int)lrint(at(x, y)[c] * 255); }
};
struct GFile {
    std::string kind, variant, ext;
    ILenum type = 0;
    Bytes b;
    Pic pic;             // what it shows (first image)
    int depth = 1;       // planes of a volume: pic.h rows each, stacked in pic as h*depth rows
    bool alpha = true;   // alpha is part of what it says
    double tol = 0.0006; // per channel
    bool judged = true;  // the picture is known
    int images = 1;      // pictures in the file
    std::vector<Pic> more; // what the further pictures show
    bool detect = true;  // the type can be told from the contents
    std::string sig;     // kind of defect class when a mismatch is found
    Bytes raw;           // the upright indices, when the colours are not in the file
    struct Raw { int w, h; Bytes b; };
    std::vector<Raw> raw_mips;
    std::vector<Pic> mips; // the smaller levels of the first picture, as far as they are judged
    bool flip_unsure = false; // descriptions differ on which row comes first
    std::vector<Pic> faces; // the further faces of a cube map
    std::vector<std::vector<Pic>> face_mips;
    std::vector<ILuint> cube;  // flag of each face
    int skip = 0;          // bits of the channels that are not judged
    bool by_name = true;   // the type has the extension for itself
};

namespace fg {
// raw samples
struct Px { uint8_t c[4]; };
static std::vector<Px> texture(Src &s, int w, int h) {
    std::vector<Px> p((size_t)w * h);
    if (!p.empty()) gen_bytes(s, p[0].c, p.size() * 4, 4, w);
    return p;
}
static Bytes indices(Src &s, int w, int h, int n) {
    Bytes p((size_t)w * h);
    if (!p.empty()) gen_bytes(s, &p[0], p.size(), 1, w);
    for (auto &v : p) v = v % n;
    return p;
}
static std::vector<Px> colours(Src &s, int n) {
    std::vector<Px> p(n);
    uint64_t sd = s.seed32();
    for (int i = 0; i < n; i++)
        for (int c = 0; c < 4; c++) p[i].c[c] = (uint8_t)(mix64(sd + i * 4 + c) >> 7);
    return p;
}
static void show(GFile &g, int w, int h, const Bytes &ix, const std::vector<Px> &pal, bool alpha) {
    g.pic.size(w, h);
    for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) {
            const Px &p = pal[ix[y * w + x]];
            g.pic.set8(x, y, p.c[0], p.c[1], p.c[2], alpha ? p.c[3] : 255);
        }
}
static void show(GFile &g, int w, int h, const std::vector<Px> &px, bool alpha) {
    g.pic.size(w, h);
    for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) {
            const Px &p = px[y * w + x];
            g.pic.set8(x, y, p.c[0], p.c[1], p.c[2], alpha ? p.c[3] : 255);
        }
}
static void gray(std::vector<Px> &px) {
    for (auto &p : px) p.c[1] = p.c[2] = p.c[0];
}
// packs samples of bits width, most significant first, rows padded to a multiple of align bytes
static Bytes pack_row(const uint8_t *v, int n, int bits, int align) {
    Bytes o;
    int acc = 0, have = 0;
    for (int i = 0; i < n; i++) {
        acc = (acc << bits) | (v[i] & ((1 << bits) - 1));
        have += bits;
        if (have == 8) { o.push_back((uint8_t)acc); acc = have = 0; }
    }
    if (have) o.push_back((uint8_t)(acc << (8 - have)));
    while (o.size() % align) o.push_back(0);
    return o;
}

// ---------------------------------------------------------------- BMP
static GFile bmp(Src &s, int w, int h) {
    GFile g;
    g.type = IL_BMP;
    g.ext = "bmp";
    g.alpha = false;
    int var = s.range(0, 9);
    bool os2 = false, top = s.chance(1, 4), gap = s.chance(1, 5);
    static const int bitsof[] = {24, 8, 4, 1, 32, 16, 16, 32, 8, 4};
    int bits = bitsof[var], comp = var == 6 || var == 7 ? 3 : var == 8 ? 1 : var == 9 ? 2 : 0;
    if (bits <= 8 || bits == 24) os2 = comp == 0 && s.chance(1, 6);
    if (comp == 1 || comp == 2 || os2) top = false;
    Out o;
    int ncol = bits <= 8 ? 1 << bits : 0, used = ncol;
    bool fewer = bits == 8 && !os2 && s.chance(1, 3);
    if (fewer) used = s.range(1, ncol);
    g.variant = fmt("bmp%d%s%s%s%s", bits, comp == 1 ? "rle8" : comp == 2 ? "rle4" : comp == 3 ? "fields" : "", os2 ? " os2" : "", top ? " top" : "", fewer ? " short palette" : "");
    auto pal = colours(s, std::max(used, 1));
    Bytes ix;
    std::vector<Px> px;
    if (ncol) { ix = indices(s, w, h, used); show(g, w, h, ix, pal, false); }
    else px = texture(s, w, h);
    uint32_t mask[3] = {0, 0, 0};
    int width[3] = {8, 8, 8};
    if (bits == 16 && comp == 0) { mask[0] = 0x7C00; mask[1] = 0x3E0; mask[2] = 0x1F; width[0] = width[1] = width[2] = 5; }
    if (bits == 16 && comp == 3) {
        int v = s.range(0, 2);
        static const uint32_t m[3][3] = {{0xF800, 0x7E0, 0x1F}, {0x7C00, 0x3E0, 0x1F}, {0xF00, 0xF0, 0xF}};
        static const int wd[3][3] = {{5, 6, 5}, {5, 5, 5}, {4, 4, 4}};
        memcpy(mask, m[v], sizeof mask);
        memcpy(width, wd[v], sizeof width);
    }
    if (bits == 32) {
        static const uint32_t m[3][3] = {{0xFF0000, 0xFF00, 0xFF}, {0xFF, 0xFF00, 0xFF0000}, {0xFF000000, 0xFF0000, 0xFF00}};
        memcpy(mask, m[comp == 3 ? s.range(0, 2) : 0], sizeof mask);
    }
    Bytes body;
    auto row_at = [&](int k) { return top ? k : h - 1 - k; }; // file row k shows this picture row
    for (int k = 0; k < h; k++) {
        int y = row_at(k);
        if (comp == 1 || comp == 2) {
            int x = 0;
            const uint8_t *r = &ix[(size_t)y * w];
            while (x < w) {
                int run = 1;
                if (comp == 1) { while (x + run < w && run < 255 && r[x + run] == r[x]) run++; }
                else { while (x + run < w && run < 255 && r[x + run] == r[x + (run & 1)]) run++; }
                int m = s.range(0, 2);
                if (m == 2 && w - x >= 3) { // absolute
                    int n = std::min(w - x, s.range(3, 12));
                    body.push_back(0);
                    body.push_back((uint8_t)n);
                    size_t at = body.size();
                    if (comp == 1) for (int i = 0; i < n; i++) body.push_back(r[x + i]);
                    else for (int i = 0; i < n; i += 2) body.push_back((uint8_t)(r[x + i] << 4 | (i + 1 < n ? r[x + i + 1] : 0)));
                    if ((body.size() - at) & 1) body.push_back(0);
                    x += n;
                } else {
                    int n = m == 1 ? s.range(1, run) : run;
                    body.push_back((uint8_t)n);
                    body.push_back(comp == 1 ? r[x] : (uint8_t)(r[x] << 4 | (n > 1 ? r[x + 1] : 0)));
                    x += n;
                }
            }
            body.push_back(0);
            body.push_back(k == h - 1 ? 1 : 0);
            continue;
        }
        Bytes row;
        if (bits <= 8) row = pack_row(&ix[(size_t)y * w], w, bits, 1);
        else
            for (int x = 0; x < w; x++) {
                Px &p = px[(size_t)y * w + x];
                if (bits == 24) { row.push_back(p.c[2]); row.push_back(p.c[1]); row.push_back(p.c[0]); }
                else {
                    uint32_t v = 0;
                    for (int c = 0; c < 3; c++) {
                        int sh = __builtin_ctz(mask[c]);
                        uint32_t q = p.c[c] >> (8 - width[c]);
                        p.c[c] = (uint8_t)lrint(q * 255.0 / ((1 << width[c]) - 1));
                        v |= q << sh;
                    }
                    for (int i = 0; i < bits / 8; i++) row.push_back((uint8_t)(v >> (8 * i)));
                }
            }
        while (row.size() % 4) row.push_back(0);
        body.insert(body.end(), row.begin(), row.end());
    }
    if (!ncol) show(g, w, h, px, false);
    if (bits == 16) { g.tol = width[0] == 4 ? 0.065 : 0.033; }
    int hs = os2 ? 12 : 40, palbytes = os2 ? ncol * 3 : (ncol ? used * 4 : 0) + (comp == 3 ? 12 : 0);
    int off = 14 + hs + palbytes + (gap && comp != 3 ? 2 * s.range(1, 8) : 0);
    o.str("BM");
    o.le32(off + body.size());
    o.le32(0);
    o.le32(off);
    o.le32(hs);
    if (os2) { o.le16(w); o.le16(h); o.le16(1); o.le16(bits); }
    else {
        o.le32(w);
        o.le32(top ? -h : h);
        o.le16(1);
        o.le16(bits);
        o.le32(comp);
        o.le32(body.size());
        o.le32(2835);
        o.le32(2835);
        o.le32(fewer ? used : s.flip() ? ncol : 0);
        o.le32(0);
    }
    if (comp == 3) for (int c = 0; c < 3; c++) o.le32(mask[c]);
    for (int i = 0; i < (ncol ? used : 0); i++) {
        o.u8(pal[i].c[2]); o.u8(pal[i].c[1]); o.u8(pal[i].c[0]);
        if (!os2) o.u8(0);
    }
    o.pad_to(off);
    o.bytes(body);
    g.b = o.b;
    return g;
}

// ---------------------------------------------------------------- TGA
static GFile tga(Src &s, int w, int h) {
    GFile g;
    g.type = IL_TGA;
    g.ext = "tga";
    int kind = s.range(0, 2); // true colour, mapped, grey
    bool rle = s.flip(), top = s.flip();
    int bits = kind == 0 ? s.pick({24, 32, 16, 15}) : 8, cmbits = 0, ncol = 0, first = 0;
    bool bit15 = false;
    int idlen = s.chance(1, 3) ? s.range(1, 255) : 0;
    std::vector<Px> pal, px;
    Bytes ix;
    if (kind == 1) {
        cmbits = s.pick({24, 32, 16, 15});
        ncol = s.range(1, 256);
        if (s.chance(1, 4)) first = s.range(0, 256 - ncol);
        bit15 = cmbits == 16 && s.flip();
        pal = colours(s, ncol);
        ix = indices(s, w, h, ncol);
    } else {
        px = texture(s, w, h);
        if (kind == 2) gray(px);
    }
    auto emit = [&](Bytes &o, Px &p, int b) { // stores and keeps what the stored bits say
        if (b == 24 || b == 32) {
            o.push_back(p.c[2]); o.push_back(p.c[1]); o.push_back(p.c[0]);
            if (b == 32) o.push_back(p.c[3]); else p.c[3] = 255;
        } else {
            int v = (p.c[0] >> 3) << 10 | (p.c[1] >> 3) << 5 | p.c[2] >> 3;
            if (bit15 && p.c[3] & 1) v |= 0x8000;
            if (bit15) p.c[3] = p.c[3] & 1 ? 255 : 0;
            o.push_back((uint8_t)v); o.push_back((uint8_t)(v >> 8));
            for (int c = 0; c < 3; c++) p.c[c] = (uint8_t)lrint((p.c[c] >> 3) * 255.0 / 31);
        }
    };
    Out o;
    Bytes palb;
    for (auto &p : pal) emit(palb, p, cmbits);
    g.alpha = kind == 0 ? bits == 32 : kind == 1 ? cmbits == 32 || bit15 : false;
    if ((kind == 0 && bits <= 16) || (kind == 1 && cmbits <= 16)) g.tol = 0.033;
    o.u8(idlen);
    o.u8(kind == 1);
    o.u8((kind == 0 ? 2 : kind == 1 ? 1 : 3) + (rle ? 8 : 0));
    o.le16(first);
    o.le16(ncol);
    o.u8(cmbits);
    o.le16(0); o.le16(0);
    o.le16(w); o.le16(h);
    o.u8(bits == 15 ? 16 : bits);
    o.u8((top ? 0x20 : 0) | (bits == 32 ? 8 : bit15 ? 1 : 0));
    for (int i = 0; i < idlen; i++) o.u8('a' + i % 26);
    o.bytes(palb);
    g.variant = fmt("tga%d%s%s%s%s", bits, kind == 1 ? fmt(" map%d*%d", cmbits, ncol).c_str() : kind == 2 ? " grey" : "", rle ? " rle" : "", top ? " top" : "", idlen ? " id" : "") + (bit15 ? " bit15" : "") + (first ? fmt(" from %d", first) : "");
    for (int k = 0; k < h; k++) {
        int y = top ? k : h - 1 - k;
        std::vector<Bytes> cell(w);
        for (int x = 0; x < w; x++) {
            if (kind == 1) cell[x] = {(uint8_t)(first + ix[(size_t)y * w + x])};
            else if (kind == 2) cell[x] = {px[(size_t)y * w + x].c[0]};
            else emit(cell[x], px[(size_t)y * w + x], bits);
        }
        if (!rle) { for (auto &c : cell) o.bytes(c); continue; }
        for (int x = 0; x < w;) {
            int run = 1;
            while (x + run < w && run < 128 && cell[x + run] == cell[x]) run++;
            int m = s.range(0, 2);
            if (m == 0 && run > 1) { o.u8(0x80 | (run - 1)); o.bytes(cell[x]); x += run; }
            else if (m == 1) { int n = s.range(1, run); o.u8(0x80 | (n - 1)); o.bytes(cell[x]); x += n; }
            else { int n = std::min(w - x, s.chance(1, 4) ? 128 : s.range(1, 20)); o.u8(n - 1); for (int i = 0; i < n; i++) o.bytes(cell[x + i]); x += n; }
        }
    }
    if (s.chance(1, 3)) { o.le32(0); o.le32(0); o.str("TRUEVISION-XFILE."); o.u8(0); }
    if (kind == 1) show(g, w, h, ix, pal, g.alpha);
    else show(g, w, h, px, g.alpha);
    g.b = o.b;
    return g;
}

// ---------------------------------------------------------------- PCX (and DCX)
static void pcx_row(Src &s, Out &o, const Bytes &row) {
    for (size_t x = 0; x < row.size();) {
        size_t run = 1;
        while (x + run < row.size() && run < 63 && row[x + run] == row[x]) run++;
        if (s.chance(1, 4)) run = s.range(1, (int)run);
        if (run > 1 || row[x] >= 0xC0 || s.chance(1, 6)) o.u8(0xC0 | run);
        o.u8(row[x]);
        x += run;
    }
}
static GFile pcx(Src &s, int w, int h, bool forDcx = false) {
    GFile g;
    g.type = IL_PCX;
    g.ext = "pcx";
    g.alpha = false;
    int var = s.range(0, forDcx ? 1 : 3); // 24 bit, 8 bit, 4 planes of 1 bit, 1 bit
    int bits = var < 2 ? 8 : 1, planes = var == 0 ? 3 : var == 2 ? 4 : 1;
    int bpl = bits == 8 ? (w + 1) / 2 * 2 : ((w + 7) / 8 + 1) / 2 * 2;
    auto pal = colours(s, var == 1 ? 256 : 16);
    if (var == 3) { memset(pal[0].c, 0, 4); memset(pal[1].c, 255, 4); }
    Bytes ix;
    std::vector<Px> px;
    if (var == 0) { px = texture(s, w, h); show(g, w, h, px, false); }
    else { ix = indices(s, w, h, var == 1 ? 256 : var == 2 ? 16 : 2); show(g, w, h, ix, pal, false); }
    int x0 = s.chance(1, 4) ? s.range(1, 300) : 0, y0 = s.chance(1, 4) ? s.range(1, 300) : 0;
    g.variant = fmt("pcx%dx%d", bits, planes);
    Out o;
    o.u8(10); o.u8(5); o.u8(1); o.u8(bits);
    o.le16(x0); o.le16(y0); o.le16(x0 + w - 1); o.le16(y0 + h - 1);
    o.le16(300); o.le16(300);
    for (int i = 0; i < 16; i++) for (int c = 0; c < 3; c++) o.u8(var == 0 ? 0 : pal[i].c[c]);
    o.u8(0); o.u8(planes); o.le16(bpl); o.le16(1);
    o.pad_to(128);
    for (int y = 0; y < h; y++) {
        Bytes row;
        for (int p = 0; p < planes; p++) {
            Bytes r;
            if (var == 0) for (int x = 0; x < w; x++) r.push_back(px[(size_t)y * w + x].c[p]);
            else if (var == 1) r.assign(&ix[(size_t)y * w], &ix[(size_t)y * w] + w);
            else {
                Bytes b(w);
                for (int x = 0; x < w; x++) b[x] = (ix[(size_t)y * w + x] >> p) & 1;
                r = pack_row(&b[0], w, 1, 1);
            }
            r.resize(bpl, 0);
            row.insert(row.end(), r.begin(), r.end());
        }
        pcx_row(s, o, row);
    }
    if (var == 1) {
        o.u8(12);
        for (int i = 0; i < 256; i++) for (int c = 0; c < 3; c++) o.u8(pal[i].c[c]);
    }
    g.b = o.b;
    return g;
}
static GFile dcx(Src &s, int w, int h) {
    GFile g = pcx(s, w, h, true);
    int n = s.range(1, 3);
    std::vector<GFile> f = {g};
    for (int i = 1; i < n; i++) f.push_back(pcx(s, s.flip() ? w : s.size(40), s.flip() ? h : s.size(40), true));
    Out o;
    o.le32(0x3ADE68B1);
    uint32_t at = 4 + 1024 * 4;
    for (int i = 0; i < 1024; i++) {
        o.le32(i < n ? at : 0);
        if (i < n) at += f[i].b.size();
    }
    for (auto &x : f) o.bytes(x.b);
    for (int i = 1; i < n; i++) g.more.push_back(f[i].pic);
    g.b = o.b;
    g.type = IL_DCX;
    g.ext = "dcx";
    g.images = n;
    g.variant = "dcx of " + g.variant;
    return g;
}

// ---------------------------------------------------------------- PNM
static GFile pnm(Src &s, int w, int h) {
    GFile g;
    g.type = IL_PNM;
    g.alpha = false;
    int p = s.range(1, 6);
    int maxv = p == 1 || p == 4 ? 1 : s.chance(1, 4) ? 65535 : 255;
    g.ext = p == 1 || p == 4 ? "pbm" : p == 2 || p == 5 ? "pgm" : "ppm";
    g.variant = fmt("P%d max %d", p, maxv);
    std::string sp = s.pick<std::string>({" ", "\n", "\t", "\n# a comment\n", "  \r\n"});
    Out o;
    o.str(fmt("P%d\n", p));
    if (s.chance(1, 3)) o.str("# made by a test 12 34\n");
    o.str(fmt("%d%s%d\n", w, sp.c_str(), h));
    if (maxv != 1) o.str(fmt("%d\n", maxv));
    g.pic.size(w, h);
    auto px = texture(s, w, h);
    int col = 0;
    for (int y = 0; y < h; y++) {
        Bytes bits;
        for (int x = 0; x < w; x++) {
            Px q = px[(size_t)y * w + x];
            double *d = g.pic.at(x, y);
            if (maxv == 1) {
                int v = q.c[0] & 1; // 1 is black
                bits.push_back(v);
                d[0] = d[1] = d[2] = 1 - v;
                if (p == 1) { o.u8('0' + v); if (++col % 60 == 0) o.u8('\n'); else if (s.chance(1, 4)) o.u8(' '); }
            } else {
                int n = p == 3 || p == 6 ? 3 : 1;
                for (int c = 0; c < n; c++) {
                    int v = maxv == 255 ? q.c[c] : q.c[c] << 8 | q.c[3];
                    d[c] = v / (double)maxv;
                    if (p <= 3) { std::string t = fmt("%d", v); if (col + (int)t.size() > 65) { o.u8('\n'); col = 0; } o.str(t); o.u8(' '); col += t.size() + 1; }
                    else { if (maxv > 255) o.u8(v >> 8); o.u8(v); }
                }
                if (n == 1) d[1] = d[2] = d[0];
            }
        }
        if (p == 4) o.bytes(pack_row(&bits[0], w, 1, 1));
        if (p == 1 && s.chance(1, 3)) { o.u8('\n'); col = 0; }
    }
    if (p <= 3) o.u8('\n');
    g.b = o.b;
    return g;
}

// ---------------------------------------------------------------- SGI
static GFile sgi(Src &s, int w, int h) {
    GFile g;
    g.type = IL_SGI;
    int z = s.pick({3, 4, 1}), bpc = s.chance(1, 3) ? 2 : 1;
    bool rle = s.flip();
    g.ext = "sgi";
    g.alpha = z == 4;
    g.variant = fmt("sgi %d channels of %d%s", z, bpc, rle ? " rle" : "");
    auto px = texture(s, w, h);
    g.pic.size(w, h);
    auto val = [&](int x, int y, int c) { int v = px[(size_t)y * w + x].c[c]; return bpc == 1 ? v : v << 8 | (uint8_t)(v * 37 + c * 11 + x); };
    for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++)
            for (int c = 0; c < 4; c++)
                g.pic.at(x, y)[c] = c == 3 && z < 4 ? 1 : val(x, y, z == 1 ? 0 : c) / (bpc == 1 ? 255.0 : 65535.0);
    Out o;
    o.be16(474); o.u8(rle); o.u8(bpc); o.be16(z == 1 ? 2 : 3); o.be16(w); o.be16(h); o.be16(z);
    o.be32(0); o.be32(bpc == 1 ? 255 : 65535); o.be32(0);
    o.field("test", 80);
    o.be32(0);
    o.pad_to(512);
    auto samp = [&](Out &q, int v) { if (bpc == 2) q.be16(v); else q.u8(v); };
    if (!rle) {
        for (int c = 0; c < z; c++)
            for (int k = 0; k < h; k++)
                for (int x = 0; x < w; x++) samp(o, val(x, h - 1 - k, c));
    } else {
        size_t tab = o.pos();
        o.zero((size_t)h * z * 8);
        for (int c = 0; c < z; c++)
            for (int k = 0; k < h; k++) {
                Out r;
                int y = h - 1 - k;
                for (int x = 0; x < w;) {
                    int run = 1;
                    while (x + run < w && run < 127 && val(x + run, y, c) == val(x, y, c)) run++;
                    if (s.chance(1, 3) || run == 1) {
                        int n = std::min(w - x, s.range(1, 20));
                        samp(r, 0x80 | n);
                        for (int i = 0; i < n; i++) samp(r, val(x + i, y, c));
                        x += n;
                    } else { samp(r, run); samp(r, val(x, y, c)); x += run; }
                }
                samp(r, 0);
                o.set_be32(tab + (size_t)(c * h + k) * 4, o.pos());
                o.set_be32(tab + (size_t)h * z * 4 + (size_t)(c * h + k) * 4, r.pos());
                o.bytes(r.b);
            }
    }
    g.b = o.b;
    return g;
}

// ---------------------------------------------------------------- GIF
static Bytes lzw(Src &s, const Bytes &ix, int bits) {
    // a plain encoder: string table as a map
    std::map<std::pair<int, int>, int> tab;
    int clear = 1 << bits, eoi = clear + 1, next = eoi + 1, width = bits + 1;
    uint32_t acc = 0;
    int have = 0;
    Bytes o;
    auto put = [&](int code) {
        acc |= (uint32_t)code << have;
        have += width;
        while (have >= 8) { o.push_back((uint8_t)acc); acc >>= 8; have -= 8; }
    };
    bool early = s.chance(1, 4); // clears now and then
    put(clear);
    int cur = -1, n = 0;
    for (uint8_t v : ix) {
        n++;
        if (cur < 0) { cur = v; continue; }
        auto it = tab.find({cur, v});
        if (it != tab.end()) { cur = it->second; continue; }
        put(cur);
        if (next < 4096) {
            tab[{cur, v}] = next++;
            if (next - 1 == (1 << width) && width < 12) width++;
        }
        cur = v;
        if (next >= 4096 || (early && n % 300 == 0)) {
            put(cur);
            // the decoder has added one more entry by now
            if (next < 4096) { if (next == (1 << width) && width < 12) width++; }
            put(clear);
            tab.clear();
            next = eoi + 1;
            width = bits + 1;
            cur = -1;
        }
    }
    if (cur >= 0) {
        put(cur);
        if (next < 4096 && next == (1 << width) && width < 12) width++;
    }
    put(eoi);
    if (have) o.push_back((uint8_t)acc);
    return o;
}
static GFile gif(Src &s, int w, int h) {
    GFile g;
    g.type = IL_GIF;
    g.ext = "gif";
    int bits = s.range(1, 8), n = 1 << bits;
    bool local = s.chance(1, 3), global = !local || s.flip(), inter = s.chance(1, 3), trans = s.chance(1, 3);
    int frames = s.chance(1, 3) ? s.range(2, 3) : 1;
    auto pal = colours(s, n), gpal = colours(s, n);
    if (!local) pal = gpal;
    int ti = trans ? s.range(0, n - 1) : -1;
    for (int i = 0; i < n; i++) pal[i].c[3] = i == ti ? 0 : 255;
    g.alpha = true;
    g.images = frames;
    g.variant = fmt("gif %d bits%s%s%s%s", bits, local ? " local" : "", inter ? " interlaced" : "", trans ? " transparent" : "", frames > 1 ? " frames" : "");
    Out o;
    o.str(trans || frames > 1 || s.flip() ? "GIF89a" : "GIF87a");
    o.le16(w); o.le16(h);
    o.u8((global ? 0x80 : 0) | 0x70 | (bits - 1));
    o.u8(0); o.u8(0);
    if (global) for (auto &p : gpal) for (int c = 0; c < 3; c++) o.u8(p.c[c]);
    for (int f = 0; f < frames; f++) {
        if (s.chance(1, 4)) { o.u8(0x21); o.u8(0xFE); o.u8(5); o.str("hello"); o.u8(0); }
        if (trans || frames > 1) { o.u8(0x21); o.u8(0xF9); o.u8(4); o.u8(trans ? 1 : 0); o.le16(10); o.u8(trans ? ti : 0); o.u8(0); }
        Bytes ix = indices(s, w, h, n);
        { GFile t; show(t, w, h, ix, pal, true); if (f == 0) g.pic = t.pic; else g.more.push_back(t.pic); }
        o.u8(0x2C); o.le16(0); o.le16(0); o.le16(w); o.le16(h);
        o.u8((local ? 0x80 | (bits - 1) : 0) | (inter ? 0x40 : 0));
        if (local) for (auto &p : pal) for (int c = 0; c < 3; c++) o.u8(p.c[c]);
        Bytes ord;
        if (inter) {
            static const int st[4] = {0, 4, 2, 1}, step[4] = {8, 8, 4, 2};
            for (int p = 0; p < 4; p++)
                for (int y = st[p]; y < h; y += step[p]) ord.insert(ord.end(), &ix[(size_t)y * w], &ix[(size_t)y * w] + w);
        } else ord = ix;
        int mc = std::max(bits, 2);
        o.u8(mc);
        Bytes z = lzw(s, ord, mc);
        for (size_t i = 0; i < z.size(); i += 255) {
            size_t k = std::min<size_t>(255, z.size() - i);
            o.u8(k);
            o.b.insert(o.b.end(), z.begin() + i, z.begin() + i + k);
        }
        o.u8(0);
    }
    o.u8(0x3B);
    g.b = o.b;
    return g;
}

// ---------------------------------------------------------------- ICO, CUR
static GFile png(Src &s, int w, int h, bool rgba_only = false, bool may_inter = true);
static GFile ico(Src &s, int w, int h) {
    GFile g;
    w = std::min(w, 255);
    h = std::min(h, 255);
    g.type = IL_ICO;
    bool cur = s.chance(1, 4);
    g.ext = cur ? "cur" : "ico";
    int n = s.range(1, 3);
    g.images = n;
    std::vector<Bytes> body;
    std::vector<int> bitsv, ws, hs;
    for (int k = 0; k < n; k++) {
        int W = k ? s.range(1, 20) : w, H = k ? s.range(1, 20) : h;
        int bits = s.pick({32, 24, 8, 4, 1, 0}); // 0: a PNG file
        Out o;
        GFile t;
        if (bits == 0) {
            t = png(s, W, H);
            if (t.variant.find("bits 16") != std::string::npos) g.tol = 0.004; // icons have 8 bits
            if (k == 0) { g.pic = t.pic; g.variant = g.ext + " " + t.variant; }
            else g.more.push_back(t.pic);
            body.push_back(t.b);
            bitsv.push_back(32); ws.push_back(W); hs.push_back(H);
            continue;
        }
        int ncol = bits <= 8 ? 1 << bits : 0;
        o.le32(40); o.le32(W); o.le32(H * 2); o.le16(1); o.le16(bits); o.le32(0); o.le32(0); o.le32(0); o.le32(0); o.le32(0); o.le32(0);
        auto pal = colours(s, std::max(1, ncol));
        for (int i = 0; i < ncol; i++) { o.u8(pal[i].c[2]); o.u8(pal[i].c[1]); o.u8(pal[i].c[0]); o.u8(0); }
        Bytes ix = indices(s, W, H, std::max(1, ncol)), mask = indices(s, W, H, 2);
        auto px = texture(s, W, H);
        if (bits == 32) std::fill(mask.begin(), mask.end(), 0);
        for (int y = H - 1; y >= 0; y--) {
            Bytes row;
            if (ncol) row = pack_row(&ix[(size_t)y * W], W, bits, 4);
            else for (int x = 0; x < W; x++) {
                Px &p = px[(size_t)y * W + x];
                row.push_back(p.c[2]); row.push_back(p.c[1]); row.push_back(p.c[0]);
                if (bits == 32) row.push_back(p.c[3]);
            }
            while (row.size() % 4) row.push_back(0);
            o.bytes(row);
        }
        for (int y = H - 1; y >= 0; y--) o.bytes(pack_row(&mask[(size_t)y * W], W, 1, 4));
        t.pic.size(W, H);
        for (int y = 0; y < H; y++)
            for (int x = 0; x < W; x++) {
                Px p = ncol ? pal[ix[(size_t)y * W + x]] : px[(size_t)y * W + x];
                t.pic.set8(x, y, p.c[0], p.c[1], p.c[2], bits == 32 ? p.c[3] : mask[(size_t)y * W + x] ? 0 : 255);
            }
        if (k == 0) { g.pic = t.pic; g.variant = fmt("%s %d bits", g.ext.c_str(), bits); }
        else g.more.push_back(t.pic);
        body.push_back(o.b);
        bitsv.push_back(bits); ws.push_back(W); hs.push_back(H);
    }
    Out o;
    o.le16(0); o.le16(cur ? 2 : 1); o.le16(n);
    uint32_t at = 6 + 16 * n;
    for (int k = 0; k < n; k++) {
        o.u8(ws[k]); o.u8(hs[k]); o.u8(bitsv[k] < 8 ? 1 << bitsv[k] : 0); o.u8(0);
        o.le16(cur ? 0 : 1); o.le16(cur ? 0 : bitsv[k]);
        o.le32(body[k].size()); o.le32(at);
        at += body[k].size();
    }
    for (auto &b : body) o.bytes(b);
    g.b = o.b;
    return g;
}

// ---------------------------------------------------------------- PNG (libpng)
static void png_to(png_structp p, png_bytep d, png_size_t n) { Bytes *b = (Bytes *)png_get_io_ptr(p); b->insert(b->end(), d, d + n); }
static void png_noflush(png_structp) {}
static GFile png(Src &s, int w, int h, bool rgba_only, bool may_inter) {
    GFile g;
    g.type = IL_PNG;
    g.ext = "png";
    static const int ct[] = {PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_RGB_ALPHA, PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_PALETTE};
    int t = rgba_only ? PNG_COLOR_TYPE_RGB_ALPHA : ct[s.range(0, 4)];
    int bits = 8;
    if (t == PNG_COLOR_TYPE_GRAY) bits = s.pick({8, 1, 2, 4, 16});
    else if (t == PNG_COLOR_TYPE_PALETTE) bits = s.pick({8, 1, 2, 4});
    else bits = rgba_only ? 8 : s.pick({8, 16});
    bool inter = s.chance(1, 3), trns = t == PNG_COLOR_TYPE_PALETTE && s.chance(1, 3);
    int ch = t == PNG_COLOR_TYPE_RGB ? 3 : t == PNG_COLOR_TYPE_RGB_ALPHA ? 4 : t == PNG_COLOR_TYPE_GRAY_ALPHA ? 2 : 1;
    g.alpha = ch == 4 || ch == 2 || trns;
    if (!may_inter) inter = false;
    g.variant = fmt("png type %d bits %d%s%s", t, bits, inter ? " interlaced" : "", trns ? " trns" : "");
    Bytes out;
    png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
    png_infop info = png_create_info_struct(p);
    png_set_write_fn(p, &out, png_to, png_noflush);
    png_set_IHDR(p, info, w, h, bits, t, inter ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
    png_set_compression_level(p, 1);
    int n = t == PNG_COLOR_TYPE_PALETTE ? (s.flip() ? 1 << bits : s.range(1, 1 << bits)) : 0;
    auto pal = colours(s, std::max(n, 1));
    for (auto &q : pal) if (!trns) q.c[3] = 255;
    if (n) {
        std::vector<png_color> pc(n);
        Bytes tr(n);
        for (int i = 0; i < n; i++) { pc[i].red = pal[i].c[0]; pc[i].green = pal[i].c[1]; pc[i].blue = pal[i].c[2]; tr[i] = pal[i].c[3]; }
        png_set_PLTE(p, info, &pc[0], n);
        if (trns) png_set_tRNS(p, info, &tr[0], n, nullptr);
    }
    auto px = texture(s, w, h);
    bool key = !rgba_only && (ch == 1 || ch == 3) && !n && s.chance(1, 3); // one colour is transparent
    png_color_16 kc;
    memset(&kc, 0, sizeof kc);
    auto sample = [&](const Px &q, int c) { return bits == 16 ? q.c[c] << 8 | q.c[(c + 1) & 3] : bits == 8 ? q.c[c] : q.c[0] & ((1 << bits) - 1); };
    const Px kp = px[s.range(0, w * h - 1)];
    if (key) {
        kc.gray = sample(kp, 0); kc.red = sample(kp, 0); kc.green = sample(kp, 1); kc.blue = sample(kp, 2);
        png_set_tRNS(p, info, nullptr, 0, &kc);
        g.alpha = true;
        g.variant += " key";
    }
    if (s.chance(1, 4)) png_set_gAMA(p, info, 1 / 2.2);
    if (s.chance(1, 4)) { png_text tx; memset(&tx, 0, sizeof tx); tx.compression = PNG_TEXT_COMPRESSION_NONE; tx.key = (char *)"Title"; tx.text = (char *)"a picture"; png_set_text(p, info, &tx, 1); }
    png_write_info(p, info);
    Bytes ix = n ? indices(s, w, h, n) : Bytes();
    g.pic.size(w, h);
    std::vector<Bytes> rows(h);
    for (int y = 0; y < h; y++) {
        Bytes row;
        for (int x = 0; x < w; x++) {
            const Px &q = px[(size_t)y * w + x];
            double *d = g.pic.at(x, y);
            if (n) { const Px &e = pal[ix[(size_t)y * w + x]]; g.pic.set8(x, y, e.c[0], e.c[1], e.c[2], e.c[3]); continue; }
            double v[4];
            for (int c = 0; c < ch; c++) {
                if (bits == 16) { int u = q.c[c] << 8 | q.c[(c + 1) & 3]; row.push_back(u >> 8); row.push_back((uint8_t)u); v[c] = u / 65535.0; }
                else if (bits == 8) { row.push_back(q.c[c]); v[c] = q.c[c] / 255.0; }
                else { int u = q.c[0] & ((1 << bits) - 1); row.push_back(u); v[c] = u / (double)((1 << bits) - 1); }
            }
            if (ch <= 2) { d[0] = d[1] = d[2] = v[0]; d[3] = ch == 2 ? v[1] : 1; }
            else { d[0] = v[0]; d[1] = v[1]; d[2] = v[2]; d[3] = ch == 4 ? v[3] : 1; }
            if (key) { bool is = true; for (int c = 0; c < ch; c++) if (sample(q, c) != sample(kp, c)) is = false; d[3] = is ? 0 : 1; }
        }
        if (n) rows[y] = pack_row(&ix[(size_t)y * w], w, bits, 1);
        else if (bits < 8) rows[y] = pack_row(&row[0], w, bits, 1);
        else rows[y] = row;
    }
    std::vector<png_bytep> rp(h);
    for (int y = 0; y < h; y++) rp[y] = &rows[y][0];
    png_write_image(p, &rp[0]);
    png_write_end(p, info);
    png_destroy_write_struct(&p, &info);
    g.b = out;
    return g;
}

// ---------------------------------------------------------------- JPEG (libjpeg; the picture is what libjpeg decodes)
static GFile jpg(Src &s, int w, int h) {
    GFile g;
    g.type = IL_JPG;
    g.ext = "jpg";
    g.alpha = false;
    bool grey = s.chance(1, 3), prog = s.chance(1, 3);
    int q = s.range(40, 100), sub = s.range(0, 2);
    g.variant = fmt("jpg%s%s q%d", grey ? " grey" : "", prog ? " progressive" : "", q);
    auto px = texture(s, w, h);
    jpeg_compress_struct c;
    jpeg_error_mgr e;
    c.err = jpeg_std_error(&e);
    jpeg_create_compress(&c);
    unsigned char *mem = nullptr;
    unsigned long len = 0;
    jpeg_mem_dest(&c, &mem, &len);
    c.image_width = w;
    c.image_height = h;
    c.input_components = grey ? 1 : 3;
    c.in_color_space = grey ? JCS_GRAYSCALE : JCS_RGB;
    jpeg_set_defaults(&c);
    jpeg_set_quality(&c, q, TRUE);
    if (!grey) { c.comp_info[0].h_samp_factor = sub ? 2 : 1; c.comp_info[0].v_samp_factor = sub == 2 ? 2 : 1; }
    if (prog) jpeg_simple_progression(&c);
    if (s.chance(1, 3)) c.restart_interval = s.range(1, 10);
    jpeg_start_compress(&c, TRUE);
    for (int y = 0; y < h; y++) {
        Bytes row;
        for (int x = 0; x < w; x++) for (int k = 0; k < c.input_components; k++) row.push_back(px[(size_t)y * w + x].c[k]);
        JSAMPROW r = &row[0];
        jpeg_write_scanlines(&c, &r, 1);
    }
    jpeg_finish_compress(&c);
    g.b.assign(mem, mem + len);
    jpeg_destroy_compress(&c);
    free(mem);
    jpeg_decompress_struct d;
    d.err = jpeg_std_error(&e);
    jpeg_create_decompress(&d);
    jpeg_mem_src(&d, &g.b[0], g.b.size());
    jpeg_read_header(&d, TRUE);
    jpeg_start_decompress(&d);
    g.pic.size(w, h);
    for (int y = 0; y < h; y++) {
        Bytes row((size_t)w * d.output_components);
        JSAMPROW r = &row[0];
        jpeg_read_scanlines(&d, &r, 1);
        for (int x = 0; x < w; x++) {
            const uint8_t *p = &row[(size_t)x * d.output_components];
            if (grey) g.pic.set8(x, y, p[0], p[0], p[0]);
            else g.pic.set8(x, y, p[0], p[1], p[2]);
        }
    }
    jpeg_finish_decompress(&d);
    jpeg_destroy_decompress(&d);
    g.tol = 2.1 / 255;
    return g;
}

// ---------------------------------------------------------------- TIFF (libtiff into memory)
struct TMem { Bytes b; size_t pos = 0; };
static tmsize_t t_read(thandle_t h, void *d, tmsize_t n) { TMem *m = (TMem *)h; if (m->pos >= m->b.size()) return 0; n = std::min<tmsize_t>(n, m->b.size() - m->pos); memcpy(d, &m->b[m->pos], n); m->pos += n; return n; }
static tmsize_t t_write(thandle_t h, void *d, tmsize_t n) { TMem *m = (TMem *)h; if (m->b.size() < m->pos + n) m->b.resize(m->pos + n); memcpy(&m->b[m->pos], d, n); m->pos += n; return n; }
static toff_t t_seek(thandle_t h, toff_t o, int w) { TMem *m = (TMem *)h; m->pos = w == SEEK_SET ? o : w == SEEK_CUR ? m->pos + o : m->b.size() + o; return m->pos; }
static int t_close(thandle_t) { return 0; }
static toff_t t_size(thandle_t h) { return ((TMem *)h)->b.size(); }
static GFile tif(Src &s, int w, int h) {
    GFile g;
    g.type = IL_TIF;
    g.ext = "tif";
    int kind = s.range(0, 5); // rgb, rgba, grey, palette, grey16, rgb16
    bool big = s.flip(), miniswhite = kind == 2 && s.chance(1, 3), tiled = s.chance(1, 5);
    int comp = s.pick({COMPRESSION_NONE, COMPRESSION_LZW, COMPRESSION_PACKBITS, COMPRESSION_ADOBE_DEFLATE});
    int bits = kind >= 4 ? 16 : kind == 3 ? s.pick({8, 4, 1}) : kind == 2 ? s.pick({8, 4, 1}) : 8;
    if (tiled && bits < 8) tiled = false;
    int ch = kind == 0 || kind == 5 ? 3 : kind == 1 ? 4 : 1;
    int orient = s.chance(1, 4) ? ORIENTATION_BOTLEFT : ORIENTATION_TOPLEFT;
    bool planar = ch > 1 && !tiled && s.chance(1, 5);
    g.alpha = kind == 1;
    g.variant = fmt("tif %s%d comp %d%s%s%s%s%s", kind == 3 ? "pal" : ch == 1 ? "grey" : ch == 3 ? "rgb" : "rgba", bits, comp, big ? " be" : " le", orient == ORIENTATION_BOTLEFT ? " botleft" : "",
                    planar ? " planar" : "", tiled ? " tiled" : "", miniswhite ? " miniswhite" : "");
    TMem m;
    TIFF *t = TIFFClientOpen("mem", big ? "wb" : "wl", &m, t_read, t_write, t_seek, t_close, t_size, nullptr, nullptr);
    TIFFSetField(t, TIFFTAG_IMAGEWIDTH, w);
    TIFFSetField(t, TIFFTAG_IMAGELENGTH, h);
    TIFFSetField(t, TIFFTAG_BITSPERSAMPLE, bits);
    TIFFSetField(t, TIFFTAG_SAMPLESPERPIXEL, ch);
    TIFFSetField(t, TIFFTAG_COMPRESSION, comp);
    TIFFSetField(t, TIFFTAG_ORIENTATION, orient);
    TIFFSetField(t, TIFFTAG_PLANARCONFIG, planar ? PLANARCONFIG_SEPARATE : PLANARCONFIG_CONTIG);
    TIFFSetField(t, TIFFTAG_PHOTOMETRIC, kind == 3 ? PHOTOMETRIC_PALETTE : ch == 1 ? (miniswhite ? PHOTOMETRIC_MINISWHITE : PHOTOMETRIC_MINISBLACK) : PHOTOMETRIC_RGB);
    if (kind == 1) { uint16_t ex = EXTRASAMPLE_UNASSALPHA; TIFFSetField(t, TIFFTAG_EXTRASAMPLES, 1, &ex); }
    auto pal = colours(s, 1 << std::min(bits, 8));
    if (kind == 3) {
        std::vector<uint16_t> r(1 << bits), gg(1 << bits), b(1 << bits);
        for (int i = 0; i < 1 << bits; i++) { r[i] = pal[i].c[0] * 257; gg[i] = pal[i].c[1] * 257; b[i] = pal[i].c[2] * 257; }
        TIFFSetField(t, TIFFTAG_COLORMAP, &r[0], &gg[0], &b[0]);
    }
    auto px = texture(s, w, h);
    int rps = s.chance(1, 2) ? h : s.range(1, h);
    if (tiled) { TIFFSetField(t, TIFFTAG_TILEWIDTH, 16); TIFFSetField(t, TIFFTAG_TILELENGTH, 16); }
    else TIFFSetField(t, TIFFTAG_ROWSPERSTRIP, rps);
    g.pic.size(w, h);
    auto val = [&](int x, int y, int c) {
        const Px &p = px[(size_t)y * w + x];
        return bits == 16 ? p.c[c] << 8 | p.c[(c + 1) & 3] : bits == 8 ? p.c[c] : p.c[0] & ((1 << bits) - 1);
    };
    auto rowbytes = [&](int y, int c0, int n) {
        Bytes r;
        if (bits < 8) { Bytes v(w); for (int x = 0; x < w; x++) v[x] = val(x, y, 0); return pack_row(&v[0], w, bits, 1); }
        for (int x = 0; x < w; x++)
            for (int c = c0; c < c0 + n; c++) {
                int v = val(x, y, c);
                if (bits == 16) { uint16_t u = v; r.push_back(((uint8_t *)&u)[0]); r.push_back(((uint8_t *)&u)[1]); } // host order, libtiff swaps
                else r.push_back(v);
            }
        return r;
    };
    if (tiled) {
        int ps = ch * bits / 8;
        for (int ty = 0; ty < h; ty += 16)
            for (int tx = 0; tx < w; tx += 16) {
                Bytes tile((size_t)256 * ps, 0);
                for (int y = ty; y < std::min(ty + 16, h); y++) {
                    Bytes r = rowbytes(y, 0, ch);
                    int n = std::min(16, w - tx);
                    memcpy(&tile[(size_t)(y - ty) * 16 * ps], &r[(size_t)tx * ps], n * ps);
                }
                TIFFWriteTile(t, &tile[0], tx, ty, 0, 0);
            }
    } else if (planar) {
        for (int c = 0; c < ch; c++) for (int y = 0; y < h; y++) { Bytes r = rowbytes(y, c, 1); TIFFWriteScanline(t, &r[0], y, c); }
    } else
        for (int y = 0; y < h; y++) { Bytes r = rowbytes(y, 0, ch); TIFFWriteScanline(t, &r[0], y, 0); }
    TIFFClose(t);
    for (int y = 0; y < h; y++) {
        int Y = orient == ORIENTATION_BOTLEFT ? h - 1 - y : y;
        for (int x = 0; x < w; x++) {
            double *d = g.pic.at(x, Y), mx = (1 << bits) - 1;
            if (kind == 3) { const Px &p = pal[val(x, y, 0)]; g.pic.set8(x, Y, p.c[0], p.c[1], p.c[2]); continue; }
            if (ch == 1) { double v = val(x, y, 0) / mx; if (miniswhite) v = 1 - v; d[0] = d[1] = d[2] = v; continue; }
            for (int c = 0; c < ch; c++) d[c] = val(x, y, c) / mx;
        }
    }
    g.b = m.b;
    return g;
}

// ---------------------------------------------------------------- WBMP
static GFile wbmp(Src &s, int w, int h) {
    GFile g;
    g.type = IL_WBMP;
    g.ext = "wbmp";
    g.variant = "wbmp";
    g.alpha = false;
    Bytes ix = indices(s, w, h, 2);
    Out o;
    o.u8(0); o.u8(0);
    auto multi = [&](int v) { if (v >= 128) o.u8(0x80 | v >> 7); o.u8(v & 127); };
    multi(w); multi(h);
    g.pic.size(w, h);
    for (int y = 0; y < h; y++) {
        o.bytes(pack_row(&ix[(size_t)y * w], w, 1, 1));
        for (int x = 0; x < w; x++) { int v = ix[(size_t)y * w + x] * 255; g.pic.set8(x, y, v, v, v); }
    }
    g.b = o.b;
    return g;
}

// ---------------------------------------------------------------- Radiance HDR
static GFile hdr(Src &s, int w, int h) {
    GFile g;
    g.type = IL_HDR;
    g.ext = "hdr";
    g.alpha = false;
    bool rle = w >= 8 && s.flip(), old = !rle && s.flip();
    if (old && s.chance(1, 3)) { w = s.range(200, 700); h = std::min(h, 3); }
    g.variant = rle ? "hdr rle" : old ? "hdr old rle" : "hdr flat";
    Out o;
    o.str("#?RADIANCE\n");
    if (s.chance(1, 3)) o.str("# a comment\n");
    if (s.chance(1, 3)) o.str("EXPOSURE=1.0\n");
    o.str("FORMAT=32-bit_rle_rgbe\n\n");
    o.str(fmt("-Y %d +X %d\n", h, w));
    auto px = texture(s, w, h);
    if (w > 256 && old && w * h > 2) for (int k = s.range(1, 3); k > 0; k--) { int a = s.range(0, w * h - 1), b = s.range(a, w * h - 1); for (int i = a; i <= b; i++) px[i] = px[a]; }
    g.pic.size(w, h);
    for (int y = 0; y < h; y++) {
        for (int x = 0; x < w; x++) {
            Px &p = px[(size_t)y * w + x];
            p.c[3] = p.c[3] % 7 == 0 ? 0 : 118 + p.c[3] % 20;
            if (p.c[3] == 0) p.c[0] = p.c[1] = p.c[2] = 0;
            else p.c[0] |= 0x80; // normalised mantissa, which also keeps it from looking like a marker of the coding
            for (int c = 0; c < 3; c++) g.pic.at(x, y)[c] = p.c[3] ? ldexp(p.c[c], p.c[3] - 136) : 0;
        }
        if (old) {
            for (int x = 0; x < w;) {
                const Px p = px[(size_t)y * w + x];
                int run = 0; // repetitions after the first
                while (x + run + 1 < w && !memcmp(&px[(size_t)y * w + x + run + 1], &p, 4)) run++;
                for (int c = 0; c < 4; c++) o.u8(p.c[c]);
                x++;
                if (run && s.chance(3, 4)) {
                    int k = s.flip() ? run : s.range(1, run), n = k; // lowest 8 bits first
                    bool first = true;
                    while (n || (first && run > 0)) { o.u8(1); o.u8(1); o.u8(1); o.u8(n & 255); n >>= 8; first = false; }
                    x += k;
                }
            }
            continue;
        }
        if (!rle) { for (int x = 0; x < w; x++) for (int c = 0; c < 4; c++) o.u8(px[(size_t)y * w + x].c[c]); continue; }
        o.u8(2); o.u8(2); o.be16(w);
        for (int c = 0; c < 4; c++)
            for (int x = 0; x < w;) {
                auto v = [&](int i) { return px[(size_t)y * w + i].c[c]; };
                int run = 1;
                while (x + run < w && run < 127 && v(x + run) == v(x)) run++;
                if (run > 1 && s.chance(2, 3)) { o.u8(128 + run); o.u8(v(x)); x += run; }
                else { int n = std::min(w - x, s.range(1, 128)); o.u8(n); for (int i = 0; i < n; i++) o.u8(v(x + i)); x += n; }
            }
    }
    g.tol = 0.01;
    g.b = o.b;
    return g;
}

// ---------------------------------------------------------------- XPM
static GFile xpm(Src &s, int w, int h) {
    GFile g;
    g.type = IL_XPM;
    g.ext = "xpm";
    int cpp = s.range(1, 2), n = s.range(1, cpp == 1 ? 80 : 150);
    bool none = s.chance(1, 3);
    auto pal = colours(s, n);
    for (auto &p : pal) p.c[3] = 255;
    std::vector<int> forms(n, 0);
    if (s.chance(1, 2)) { // the other ways to write a colour
        uint64_t sd = s.seed32();
        for (int i = 0; i < n; i++) {
            sd = mix64(sd + 1);
            forms[i] = (sd >> 20) % 7;
            uint8_t *c = pal[i].c;
            if (forms[i] == 1) for (int k = 0; k < 3; k++) c[k] = (c[k] & 15) * 17;
            if (forms[i] == 5) { c[3] = (sd >> 30) % 101; c[0] = c[1] = c[2] = (uint8_t)lrint(c[3] * 2.55); }
            if (forms[i] == 6) { for (int k = 0; k < 3; k++) c[k] = c[k] & 1 ? 255 : 0; if (c[0] && c[2] && !c[1]) c[1] = 255; }
        }
        g.tol = 0.0045;
    }
    std::vector<Px> shown = pal;
    for (auto &p : shown) p.c[3] = 255;
    if (none) { shown[0].c[3] = 0; shown[0].c[0] = shown[0].c[1] = shown[0].c[2] = 0; }
    Bytes ix = indices(s, w, h, n);
    show(g, w, h, ix, shown, true);
    g.variant = fmt("xpm %d colours %d chars%s", n, cpp, none ? " none" : "");
    static const char set[] = " .+@#$%&*=-;>,')!~{]^/(_:<[}|1234567890abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ`";
    int base = 90;
    auto code = [&](int i) { std::string t; for (int k = 0; k < cpp; k++) { t += set[i % base]; i /= base; } return t; };
    std::string o = "/* XPM */\nstatic char * image_xpm[] = {\n";
    o += fmt("\"%d %d %d %d\",\n", w, h, n, cpp);
    auto name = [&](int i) {
        const uint8_t *c = pal[i].c;
        if (none && i == 0) return std::string("None");
        switch (forms[i]) {
        case 1: return fmt("#%X%X%X", c[0] & 15, c[1] & 15, c[2] & 15);
        case 2: return fmt("#%02X8%02X0%02XF", c[0], c[1], c[2]);
        case 3: return fmt("#%02x01%02xff%02x7A", c[0], c[1], c[2]);
        case 4: return fmt("#%02x%02x%02x", c[0], c[1], c[2]);
        case 5: return fmt("gray%d", c[3]);
        case 6: return std::string(c[0] ? c[1] ? c[2] ? "white" : "yellow" : "red" : c[1] ? c[2] ? "Cyan" : "green" : c[2] ? "blue" : "Black");
        }
        return fmt("#%02X%02X%02X", c[0], c[1], c[2]);
    };
    for (int i = 0; i < n; i++)
        o += fmt("\"%s\tc %s\",\n", code(i).c_str(), name(i).c_str());
    for (int y = 0; y < h; y++) {
        o += "\"";
        for (int x = 0; x < w; x++) o += code(ix[(size_t)y * w + x]);
        o += y + 1 < h ? "\",\n" : "\"};\n";
    }
    g.b.assign(o.begin(), o.end());
    return g;
}

// ---------------------------------------------------------------- PSD
static void packbits(Src &s, Out &o, const uint8_t *v, int n) {
    for (int x = 0; x < n;) {
        int run = 1;
        while (x + run < n && run < 128 && v[x + run] == v[x]) run++;
        if (run > 1 && s.chance(3, 4)) { o.u8(257 - run); o.u8(v[x]); x += run; }
        else { int k = std::min(n - x, s.chance(1, 8) ? 128 : s.range(1, 10)); o.u8(k - 1); for (int i = 0; i < k; i++) o.u8(v[x + i]); x += k; }
    }
}
static GFile psd(Src &s, int w, int h) {
    GFile g;
    g.type = IL_PSD;
    g.ext = "psd";
    int kind = s.range(0, 5); // rgb, rgba, grey, indexed, rgb16, cmyk
    int ch = kind == 0 || kind == 4 ? 3 : kind == 1 || kind == 5 ? 4 : 1, bits = kind == 4 ? 16 : 8, mode = kind == 2 ? 1 : kind == 3 ? 2 : kind == 5 ? 4 : 3;
    bool rle = kind != 4 && s.flip();
    g.alpha = kind == 1;
    g.variant = fmt("psd mode %d %d channels %d bits%s", mode, ch, bits, rle ? " rle" : "");
    auto px = texture(s, w, h);
    auto pal = colours(s, 256);
    Out o;
    o.str("8BPS"); o.be16(1); o.zero(6); o.be16(ch); o.be32(h); o.be32(w); o.be16(bits); o.be16(mode);
    if (mode == 2) { o.be32(768); for (int c = 0; c < 3; c++) for (int i = 0; i < 256; i++) o.u8(pal[i].c[c]); }
    else o.be32(0);
    int extra = s.chance(1, 3) ? s.range(0, 40) * 2 : 0;
    if (extra >= 12) { o.be32(extra); o.str("8BIM"); o.be16(0x0BB7); o.be16(0); o.be32(extra - 12); o.zero(extra - 12); } else o.be32(0);
    if (s.chance(1, 4)) { o.be32(8); o.zero(8); } else o.be32(0);
    o.be16(rle);
    auto val = [&](int x, int y, int c) { const Px &p = px[(size_t)y * w + x]; return bits == 16 ? p.c[c] << 8 | p.c[(c + 1) & 3] : p.c[c]; };
    std::vector<Bytes> rows;
    for (int c = 0; c < ch; c++)
        for (int y = 0; y < h; y++) {
            Out r;
            Bytes raw;
            for (int x = 0; x < w; x++) { if (bits == 16) raw.push_back(val(x, y, c) >> 8); raw.push_back((uint8_t)val(x, y, c)); }
            if (rle) packbits(s, r, &raw[0], (int)raw.size());
            else r.b = raw;
            rows.push_back(r.b);
        }
    if (rle) for (auto &r : rows) o.be16(r.size());
    for (auto &r : rows) o.bytes(r);
    g.pic.size(w, h);
    for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) {
            double *d = g.pic.at(x, y), mx = bits == 16 ? 65535.0 : 255.0;
            if (mode == 2) { const Px &p = pal[val(x, y, 0)]; g.pic.set8(x, y, p.c[0], p.c[1], p.c[2]); }
            else if (mode == 1) d[0] = d[1] = d[2] = val(x, y, 0) / mx;
            else if (mode == 4) for (int c = 0; c < 3; c++) d[c] = val(x, y, c) / 255.0 * (val(x, y, 3) / 255.0); // stored inverted
            else for (int c = 0; c < ch; c++) d[c] = val(x, y, c) / mx;
        }
    if (mode == 4) g.tol = 0.02;
    g.b = o.b;
    return g;
}

// ---------------------------------------------------------------- Sun raster
static GFile sun(Src &s, int w, int h) {
    GFile g;
    g.type = IL_SUN;
    g.ext = "sun";
    g.alpha = false;
    int bits = s.pick({24, 32, 8, 1}), type = s.range(1, 3);
    bool map = bits == 8 && s.flip();
    if (bits == 8 && !map) map = true;
    int n = map ? s.range(1, 256) : 0;
    g.variant = fmt("sun %d bits type %d", bits, type);
    auto pal = colours(s, std::max(n, 2));
    if (bits == 1) { memset(pal[0].c, 255, 4); memset(pal[1].c, 0, 4); }
    Bytes ix = indices(s, w, h, bits == 1 ? 2 : std::max(n, 1));
    auto px = texture(s, w, h);
    Bytes body;
    for (int y = 0; y < h; y++) {
        Bytes row;
        if (bits == 1) row = pack_row(&ix[(size_t)y * w], w, 1, 2);
        else for (int x = 0; x < w; x++) {
            const Px &p = px[(size_t)y * w + x];
            if (bits == 8) { row.push_back(ix[(size_t)y * w + x]); continue; }
            if (bits == 32) row.push_back(0);
            if (type == 3) { row.push_back(p.c[0]); row.push_back(p.c[1]); row.push_back(p.c[2]); }
            else { row.push_back(p.c[2]); row.push_back(p.c[1]); row.push_back(p.c[0]); }
        }
        if (row.size() & 1) row.push_back(0);
        body.insert(body.end(), row.begin(), row.end());
    }
    if (type == 2) {
        Bytes z;
        for (size_t i = 0; i < body.size();) {
            size_t run = 1;
            while (i + run < body.size() && run < 256 && body[i + run] == body[i]) run++;
            if (run > 2 || (run > 1 && s.flip())) { z.push_back(0x80); z.push_back((uint8_t)(run - 1)); z.push_back(body[i]); i += run; }
            else if (body[i] == 0x80) { z.push_back(0x80); z.push_back(0); i++; }
            else z.push_back(body[i++]);
        }
        body = z;
    }
    Out o;
    o.be32(0x59A66A95); o.be32(w); o.be32(h); o.be32(bits); o.be32(body.size()); o.be32(type); o.be32(map ? 1 : 0); o.be32(n * 3);
    for (int c = 0; c < 3; c++) for (int i = 0; i < n; i++) o.u8(pal[i].c[c]);
    o.bytes(body);
    if (bits <= 8) show(g, w, h, ix, pal, false);
    else show(g, w, h, px, false);
    g.b = o.b;
    return g;
}

// ---------------------------------------------------------------- DDS
static void dxt_colours(uint16_t a, uint16_t b, bool four, double out[4][4]) {
    auto ex = [](uint16_t v, double *o) { o[0] = (v >> 11) / 31.0; o[1] = ((v >> 5) & 63) / 63.0; o[2] = (v & 31) / 31.0; o[3] = 1; };
    ex(a, out[0]);
    ex(b, out[1]);
    for (int c = 0; c < 4; c++) {
        if (four) { out[2][c] = (2 * out[0][c] + out[1][c]) / 3; out[3][c] = (out[0][c] + 2 * out[1][c]) / 3; }
        else { out[2][c] = (out[0][c] + out[1][c]) / 2; out[3][c] = 0; }
    }
    out[2][3] = 1;
    out[3][3] = four ? 1 : 0;
}
static void dxt_alpha5(const uint8_t *p, double a[16]) {
    double t[8];
    t[0] = p[0] / 255.0;
    t[1] = p[1] / 255.0;
    for (int i = 2; i < 8; i++)
        t[i] = p[0] > p[1] ? ((8 - i) * t[0] + (i - 1) * t[1]) / 7 : i < 6 ? ((6 - i) * t[0] + (i - 1) * t[1]) / 5 : i == 6 ? 0 : 1;
    uint64_t bits = 0;
    for (int i = 0; i < 6; i++) bits |= (uint64_t)p[2 + i] << (8 * i);
    for (int i = 0; i < 16; i++) a[i] = t[(bits >> (3 * i)) & 7];
}
// decodes one block of DXT1, 3 or 5 by the definition
static void dxt_block(int kind, const uint8_t *p, double out[16][4]) {
    const uint8_t *c = kind == 1 ? p : p + 8;
    uint16_t a = c[0] | c[1] << 8, b = c[2] | c[3] << 8;
    double col[4][4];
    dxt_colours(a, b, kind != 1 || a > b, col);
    uint32_t bits = c[4] | c[5] << 8 | c[6] << 16 | (uint32_t)c[7] << 24;
    double al[16];
    if (kind == 3) for (int i = 0; i < 16; i++) al[i] = ((p[i / 2] >> (4 * (i & 1))) & 15) / 15.0;
    if (kind == 5) dxt_alpha5(p, al);
    for (int i = 0; i < 16; i++) {
        memcpy(out[i], col[(bits >> (2 * i)) & 3], sizeof col[0]);
        if (kind != 1) out[i][3] = al[i];
    }
}
// a random block whose colours are defined for this kind
static Bytes dxt_gen(Src &s, int kind, uint64_t &sd) {
    Bytes b;
    auto rnd = [&]() { sd = mix64(sd + 1); return (uint8_t)(sd >> 17); };
    if (kind != 1) for (int i = 0; i < 8; i++) b.push_back(rnd());
    uint16_t c0 = rnd() | rnd() << 8, c1 = rnd() | rnd() << 8;
    if (kind != 1 && c0 < c1) std::swap(c0, c1); // the other order is read in two ways by decoders
    b.push_back(c0 & 255); b.push_back(c0 >> 8); b.push_back(c1 & 255); b.push_back(c1 >> 8);
    for (int i = 0; i < 4; i++) b.push_back(rnd());
    return b;
}
static double half_of(int v) {
    int e = v >> 10 & 31, m = v & 1023;
    double x = e ? ldexp(1024 + m, e - 25) : ldexp(m, -24);
    return v & 0x8000 ? -x : x;
}
struct DdsFmt { const char *name; int code; int bits; uint32_t pf; uint32_t m[4]; };
// codes: 0 masks, 1..5 DXT, 6 ATI1, 7 ATI2, 8 RXGB, others the number in the four character code, 1000+n a DX10 header with format n
static const DdsFmt dds_fmts[] = {
    {"A8R8G8B8", 0, 32, 0x41, {0xFF0000, 0xFF00, 0xFF, 0xFF000000}}, {"A8B8G8R8", 0, 32, 0x41, {0xFF, 0xFF00, 0xFF0000, 0xFF000000}}, {"X8R8G8B8", 0, 32, 0x40, {0xFF0000, 0xFF00, 0xFF, 0}},
    {"R8G8B8", 0, 24, 0x40, {0xFF0000, 0xFF00, 0xFF, 0}}, {"R5G6B5", 0, 16, 0x40, {0xF800, 0x7E0, 0x1F, 0}}, {"X1R5G5B5", 0, 16, 0x40, {0x7C00, 0x3E0, 0x1F, 0}},
    {"A1R5G5B5", 0, 16, 0x41, {0x7C00, 0x3E0, 0x1F, 0x8000}}, {"A4R4G4B4", 0, 16, 0x41, {0xF00, 0xF0, 0xF, 0xF000}}, {"A8R3G3B2", 0, 16, 0x41, {0xE0, 0x1C, 3, 0xFF00}}, {"R3G3B2", 0, 8, 0x40, {0xE0, 0x1C, 3, 0}},
    {"A2B10G10R10", 0, 32, 0x41, {0x3FF00000, 0xFFC00, 0x3FF, 0xC0000000}}, {"A2R10G10B10", 0, 32, 0x41, {0x3FF, 0xFFC00, 0x3FF00000, 0xC0000000}},
    {"L8", 0, 8, 0x20000, {0xFF, 0, 0, 0}}, {"A8L8", 0, 16, 0x20001, {0xFF, 0, 0, 0xFF00}}, {"A4L4", 0, 8, 0x20001, {0xF, 0, 0, 0xF0}}, {"L16", 0, 16, 0x20000, {0xFFFF, 0, 0, 0}},
    {"DXT1", 1}, {"DXT2", 2}, {"DXT3", 3}, {"DXT4", 4}, {"DXT5", 5}, {"ATI1", 6}, {"ATI2", 7}, {"RXGB", 8},
    {"A16B16G16R16", 36}, {"R16F", 111}, {"G16R16F", 112}, {"A16B16G16R16F", 113}, {"R32F", 114}, {"G32R32F", 115}, {"A32B32G32R32F", 116},
    {"R8G8B8A8", 1028}, {"B8G8R8A8", 1087}, {"B8G8R8A8_SRGB", 1091}};
// one level: the planes are stacked in the picture
static void dds_level(Src &s, Out &o, Pic &pic, const DdsFmt &f, int w, int h, int d) {
    pic.size(w, h * d);
    pic.d = d;
    uint64_t sd = s.seed32();
    auto rnd = [&]() { sd = mix64(sd + 1); return (uint8_t)(sd >> 17); };
    if (f.code >= 1 && f.code <= 8) {
        for (int z = 0; z < d; z++)
            for (int by = 0; by < (h + 3) / 4; by++)
                for (int bx = 0; bx < (w + 3) / 4; bx++) {
                    double out[16][4];
                    for (auto &q : out) q[0] = q[1] = q[2] = q[3] = 1;
                    Bytes b;
                    if (f.code == 6 || f.code == 7) {
                        for (int k = 0; k < (f.code == 7 ? 16 : 8); k++) b.push_back(rnd());
                        double v[16];
                        dxt_alpha5(&b[0], v);
                        for (int i = 0; i < 16; i++) if (f.code == 6) out[i][0] = out[i][1] = out[i][2] = v[i]; else out[i][1] = v[i];
                        if (f.code == 7) { dxt_alpha5(&b[8], v); for (int i = 0; i < 16; i++) out[i][0] = v[i]; }
                    } else {
                        int k = f.code == 2 ? 3 : f.code == 4 || f.code == 8 ? 5 : f.code;
                        b = dxt_gen(s, k, sd);
                        // the colours of DXT2 and 4 are multiplied by an alpha that is not small here
                        if (f.code == 2) for (int i = 0; i < 8; i++) { if (b[i] & 15) b[i] |= 8; if (b[i] >> 4) b[i] |= 0x80; }
                        if (f.code == 4) { b[0] |= 0x80; b[1] |= 0x80; }
                        dxt_block(k, &b[0], out);
                        for (auto &q : out) {
                            if (f.code == 8) { q[0] = q[3]; q[3] = 1; }
                            if ((f.code == 2 || f.code == 4) && q[3] > 0) for (int c = 0; c < 3; c++) q[c] = std::min(1.0, q[c] / q[3]);
                        }
                    }
                    o.bytes(b);
                    for (int i = 0; i < 16; i++) {
                        int x = bx * 4 + i % 4, y = by * 4 + i / 4;
                        if (x < w && y < h) memcpy(pic.at(x, z * h + y), out[i], sizeof out[i]);
                    }
                }
        return;
    }
    auto px = texture(s, w, h * d);
    for (int y = 0; y < h * d; y++)
        for (int x = 0; x < w; x++) {
            Px p = px[(size_t)y * w + x];
            double *q = pic.at(x, y);
            if (f.code == 0) {
                uint32_t val = 0;
                if (f.m[1] == 0xFFC00) p.c[2] = p.c[0]; // writers differ on which of the ends is red
                for (int c = 0; c < 4; c++) {
                    if (!f.m[c]) { q[c] = 1; continue; }
                    int sh = __builtin_ctz(f.m[c]), n = __builtin_popcount(f.m[c]);
                    uint32_t v = (p.c[c] << 8 | p.c[(c + 2) % 4]) >> (16 - n);
                    if (f.m[1] == 0xFFC00 && c == 2) v = (uint32_t)lrint(q[0] * 1023);
                    val |= v << sh;
                    q[c] = v / (double)((1 << n) - 1);
                }
                if (f.pf & 0x20000) q[1] = q[2] = q[0];
                for (int i = 0; i < f.bits / 8; i++) o.u8(val >> (8 * i));
            } else if (f.code >= 1000) {
                for (int c = 0; c < 4; c++) { o.u8(p.c[f.code == 1028 || c == 3 ? c : 2 - c]); q[c] = p.c[c] / 255.0; }
            } else {
                int n = f.code == 111 || f.code == 114 ? 1 : f.code == 112 || f.code == 115 ? 2 : 4;
                for (int c = 0; c < n; c++) {
                    int v = p.c[c] << 8 | p.c[(c + 1) % 4];
                    if (f.code == 36) { o.le16(v); q[c] = v / 65535.0; }
                    else if (f.code <= 113) { if ((v >> 10 & 31) == 31) v &= ~0x400; o.le16(v); q[c] = half_of(v); }
                    else { float e = (v - 20000) / 16384.0f; o.lef(e); q[c] = e; }
                }
            }
        }
}
static GFile dds(Src &s, int w, int h) {
    GFile g;
    g.type = IL_DDS;
    g.ext = "dds";
    const DdsFmt f = dds_fmts[s.range(0, (int)(sizeof dds_fmts / sizeof dds_fmts[0]) - 1)];
    bool dx10 = f.code >= 1000;
    int shape = dx10 ? 0 : s.pick(std::vector<int>{0, 0, 1, 2}), d = 1; // flat, cube, volume
    if (shape) { w = std::min(w, 40); h = std::min(h, 40); }
    if (shape == 2) d = s.range(1, 6);
    g.depth = d;
    int n = 1, full = 1;
    for (int W = w, H = h, D = d; W > 1 || H > 1 || D > 1; W = std::max(1, W / 2), H = std::max(1, H / 2), D = std::max(1, D / 2)) full++;
    if (!dx10 && s.flip()) n = s.flip() ? full : s.range(1, full);
    std::vector<ILuint> faces;
    static const ILuint all[6] = {IL_CUBEMAP_POSITIVEX, IL_CUBEMAP_NEGATIVEX, IL_CUBEMAP_POSITIVEY, IL_CUBEMAP_NEGATIVEY, IL_CUBEMAP_POSITIVEZ, IL_CUBEMAP_NEGATIVEZ};
    if (shape == 1) { bool some = s.chance(1, 3); for (int i = 0; i < 6; i++) if (!some || s.flip()) faces.push_back(all[i]); if (faces.empty()) faces.push_back(all[s.range(0, 5)]); }
    static const uint32_t none[4] = {0, 0, 0, 0};
    char cc[5] = {0, 0, 0, 0, 0};
    if (f.code >= 1 && f.code <= 8) strcpy(cc, f.name);
    else if (dx10) strcpy(cc, "DX10");
    else cc[0] = (char)f.code;
    Out o;
    o.str("DDS ");
    uint32_t flags = 0x1007, caps1 = 0x1000, caps2 = 0;
    if (n > 1 || s.chance(1, 8)) { flags |= 0x20000; caps1 |= 0x400008; }
    if (shape == 1) { caps1 |= 8; caps2 |= 0x200; for (ILuint q : faces) caps2 |= q; }
    if (shape == 2) { if (s.flip()) caps1 |= 8; caps2 |= 0x200000; flags |= 0x800000; }
    uint32_t linear = s.chance(1, 3) ? 0 : f.code == 0 ? w * f.bits / 8 : ((w + 3) / 4) * ((h + 3) / 4) * 16;
    if (linear) flags |= f.code == 0 ? 8 : 0x80000;
    o.le32(124); o.le32(flags); o.le32(h); o.le32(w); o.le32(linear); o.le32(shape == 2 ? d : 0); o.le32(flags & 0x20000 ? n : 0);
    o.zero(44);
    o.le32(32); o.le32(f.code ? 4 : f.pf); o.bytes(Bytes(cc, cc + 4)); o.le32(f.code ? 0 : f.bits);
    for (int i = 0; i < 4; i++) o.le32(f.code ? none[i] : f.m[i]);
    o.le32(caps1); o.le32(caps2); o.le32(0); o.le32(0); o.le32(0);
    if (dx10) { o.le32(f.code - 1000); o.le32(3); o.le32(0); o.le32(1); o.le32(0); }
    for (size_t k = 0; k < std::max<size_t>(1, faces.size()); k++) {
        std::vector<Pic> lev;
        for (int i = 0, W = w, H = h, D = d; i < n; i++, W = std::max(1, W / 2), H = std::max(1, H / 2), D = std::max(1, D / 2)) { Pic p; dds_level(s, o, p, f, W, H, D); lev.push_back(p); }
        std::vector<Pic> small(lev.begin() + 1, lev.end());
        if (k == 0) { g.pic = lev[0]; g.mips = small; }
        else { g.faces.push_back(lev[0]); g.face_mips.push_back(small); }
    }
    g.cube = faces;
    if (f.code == 0) {
        g.alpha = f.m[3] != 0;
        int least = 8;
        for (int c = 0; c < 3; c++) if (f.m[c]) least = std::min(least, __builtin_popcount(f.m[c])); // the bits are not spread over the whole range
        if (least < 8) g.tol = 1.06 / (1 << least);
        if (f.m[1] == 0xFFC00) g.tol = 0.002;
    } else if (f.code <= 8) { g.alpha = f.code <= 5; g.tol = f.code == 6 || f.code == 7 ? 0.0045 : f.code == 2 || f.code == 4 ? 0.075 : 0.034; if (f.code == 7) g.skip = 4; }
    else g.alpha = dx10 || f.code == 36 || f.code == 113 || f.code == 116;
    g.variant = fmt("dds %s%s%s%s", f.name, shape == 1 ? fmt(" %zu faces", faces.size()).c_str() : shape == 2 ? fmt(" %d planes", d).c_str() : "", n > 1 ? fmt(" %d levels", n).c_str() : "", linear ? " linear" : "");
    g.b = o.b;
    return g;
}
} // namespace fg

typedef GFile (*GenFn)(Src &, int, int);
struct GenKind { const char *name; GenFn fn; int maxw, maxh; bool multi; };
#include "filegen2.h"
static GFile fg_pcx(Src &s, int w, int h) { return fg::pcx(s, w, h); }
static GFile fg_png(Src &s, int w, int h) { return fg::png(s, w, h, false); }
static std::vector<GenKind> &gen_kinds() {
    static std::vector<GenKind> k = {
        {"bmp", fg::bmp, 300, 300, false}, {"tga", fg::tga, 300, 300, false}, {"pcx", fg_pcx, 300, 300, false}, {"pnm", fg::pnm, 200, 200, false}, {"sgi", fg::sgi, 200, 200, false},
        {"gif", fg::gif, 200, 200, true}, {"ico", fg::ico, 100, 100, true}, {"png", fg_png, 200, 200, false}, {"jpg", fg::jpg, 120, 120, false}, {"tif", fg::tif, 150, 150, false},
        {"wbmp", fg::wbmp, 300, 300, false}, {"hdr", fg::hdr, 150, 150, false}, {"xpm", fg::xpm, 100, 100, false}, {"psd", fg::psd, 150, 150, false}, {"sun", fg::sun, 200, 200, false},
        {"dds", fg::dds, 130, 130, false}, {"dcx", fg::dcx, 100, 100, true},
        {"cut", fg::cut, 300, 300, false}, {"lif", fg::lif, 150, 150, false}, {"mdl", fg::mdl, 100, 100, true}, {"wal", fg::wal, 100, 100, false}, {"pic", fg::pic, 300, 300, false},
        {"icns", fg::icns, 10, 10, true}, {"doom", fg::doom, 100, 100, false}, {"doom flat", fg::flat, 2, 2, false}, {"pix", fg::pix, 300, 300, false}, {"pxr", fg::pxr, 150, 150, false},
        {"ftx", fg::ftx, 150, 150, false}, {"texture", fg::texture_, 80, 80, false}, {"rot", fg::rot, 100, 100, false}, {"scitex", fg::scitex, 150, 150, false}, {"blp", fg::blp, 100, 100, false},
        {"tpl", fg::tpl, 100, 100, true}, {"ilbm", fg::ilbm, 150, 150, false}, {"iff", fg::maya, 100, 100, false}, {"ktx", fg::ktx, 100, 100, false}, {"dpx", fg::dpx, 100, 100, false},
        {"fits", fg::fits, 100, 100, false}, {"vtf", fg::vtf, 64, 64, true}, {"iwi", fg::iwi, 100, 100, false},
        {"mp3", fg::mp3, 100, 100, false}, {"mng", fg::mng, 100, 100, false}, {"dicom", fg::dicom, 100, 100, false}, {"psp", fg::psp, 100, 100, false}, {"utx", fg::utx, 60, 60, true},
    };
    return k;
}
static GFile gen_file(Src &s, const GenKind &k) {
    int w = s.size(k.maxw), h = s.size(w > 80 ? std::min(40, k.maxh) : k.maxh);
    GFile g = k.fn(s, w, h);
    g.kind = k.name;
    if (g.type == IL_ICO || g.type == IL_WBMP) g.detect = false;
    return g;
}
