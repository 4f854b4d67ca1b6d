// C26: saved files are read by decoders that share no code with the library, and show the same picture.
#include "dxth.h"
#include <csetjmp>
extern "C" {
#include <png.h>
#include <tiffio.h>
}

Spec spec() {
    Spec s;
    s.id = "C26";
    s.rule = "the file was written and the picture has at least two different pixels";
    s.quick_cases = 240000;
    s.thorough_cases = 2400000;
    s.batch = 64;
    s.cpu_limit = 20;
    s.assumptions = {"PNG is read by libpng and TIFF by libtiff, the others by decoders in this check written from the format descriptions",
                     "where the file has fewer bits than the image, the value may be rounded or cut off", "files of formats without alpha show the colours; two-dimensional formats show the first slice",
                     "colours are only converted to grey where the harness saves grey pictures"};
    s.min_frac = {{"saved", 0.6}, {"strings", 0.05}, {"rle", 0.05}, {"other depth", 0.1}, {"slices", 0.01}};
    return s;
}
struct Dec { // a decoded picture, first row at the top
    int w = 0, h = 0, depth = 255;
    bool alpha = false;
    std::vector<std::array<double, 4>> px;
    void make(long long W, long long H) {
        CHECK(W > 0 && H > 0 && W * H < (1 << 24), "size", "the file says %lldx%lld", W, H);
        w = (int)W, h = (int)H;
        px.assign((size_t)w * h, {0, 0, 0, 1});
    }
    std::array<double, 4> &at(int x, int y) { return px[(size_t)y * w + x]; }
};
struct In {
    const Bytes &b;
    size_t p = 0;
    const char *k;
    In(const Bytes &x, const char *n) : b(x), k(n) {}
    int u8() { CHECK(p < b.size(), std::string(k) + "-short", "%s: the file ends after %zu bytes", k, b.size()); return b[p++]; }
    unsigned le16() { unsigned a = u8(); return a | u8() << 8; }
    unsigned le32() { unsigned a = le16(); return a | le16() << 16; }
    unsigned be16() { unsigned a = u8(); return a << 8 | u8(); }
    unsigned be32() { unsigned a = be16(); return a << 16 | be16(); }
    void end() { CHECK(p == b.size(), std::string(k) + "-long", "%s: %zu bytes, the data ends after %zu", k, b.size(), p); }
    void skip(size_t n) { CHECK(p + n <= b.size(), std::string(k) + "-short", "%s: the file ends after %zu bytes", k, b.size()); p += n; }
};
#define OK(cond, k, ...) CHECK(cond, std::string(k) + "-header", __VA_ARGS__)

static void d_bmp(const Bytes &b, Dec &d) {
    In f(b, "bmp");
    OK(f.u8() == 'B' && f.u8() == 'M', "bmp", "no BM");
    unsigned size = f.le32(), res = f.le32(), off = f.le32(), hs = f.le32(), w = f.le32();
    int h = (int)f.le32();
    unsigned planes = f.le16(), bpp = f.le16(), comp = f.le32();
    unsigned isize = f.le32();
    f.le32(); f.le32();
    unsigned used = f.le32(), imp = f.le32();
    OK(size == b.size() && res == 0 && hs == 40 && planes == 1 && comp == 0 && imp <= 256, "bmp", "BMP header: size %u of %zu, reserved %u, header %u, %u planes, compression %u", size, b.size(), res, hs, planes, comp);
    OK(bpp == 8 || bpp == 24 || bpp == 32, "bmp", "BMP with %u bits", bpp);
    unsigned ncol = bpp == 8 ? (used ? used : 256) : used;
    OK(off == 54 + 4 * ncol && ncol <= 256, "bmp", "BMP with %u colours and data at %u", ncol, off);
    Bytes pal(b.begin() + 54, b.begin() + 54 + 4 * ncol);
    f.p = off;
    d.make(w, h < 0 ? -(long long)h : h);
    size_t stride = ((size_t)w * bpp / 8 + 3) / 4 * 4;
    OK(b.size() == off + stride * d.h && (isize == 0 || isize == stride * d.h), "bmp", "BMP: %zu bytes, %zu are needed", b.size(), off + stride * d.h);
    d.alpha = bpp == 32;
    for (int y = 0; y < d.h; y++) {
        const uint8_t *r = &b[off + stride * y];
        for (int x = 0; x < d.w; x++) {
            auto &o = d.at(x, h < 0 ? y : d.h - 1 - y);
            const uint8_t *q = r + x * bpp / 8;
            if (bpp == 8) { CHECK(*q < ncol, "bmp-index", "BMP: index %d of %u colours", *q, ncol); q = &pal[*q * 4]; }
            o = {q[2] / 255.0, q[1] / 255.0, q[0] / 255.0, bpp == 32 ? q[3] / 255.0 : 1.0};
        }
    }
}
struct PErr { jmp_buf j; std::string msg; };
struct PIn { const Bytes *b; size_t p; };
static void d_png(const Bytes &b, Dec &d, std::map<std::string, std::string> &text, bool *inter) {
    // the chunks fill the file
    In f(b, "png");
    f.skip(8);
    std::string last;
    while (f.p < b.size()) { unsigned n = f.be32(); last.clear(); for (int i = 0; i < 4; i++) last += (char)f.u8(); f.skip(n); f.skip(4); }
    OK(last == "IEND", "png", "PNG ends with %s", last.c_str());
    PErr e;
    PIn in = {&b, 0};
    png_structp p = png_create_read_struct(PNG_LIBPNG_VER_STRING, &e, [](png_structp p, png_const_charp m) { PErr *e = (PErr *)png_get_error_ptr(p); e->msg = m; longjmp(e->j, 1); }, [](png_structp, png_const_charp) {});
    png_infop i = png_create_info_struct(p);
    static std::vector<png_bytep> rows;
    static Bytes buf;
    if (setjmp(e.j)) { png_destroy_read_struct(&p, &i, nullptr); CHECK(false, "png-valid", "libpng: %s", e.msg.c_str()); }
    png_set_read_fn(p, &in, [](png_structp p, png_bytep o, png_size_t n) { PIn *in = (PIn *)png_get_io_ptr(p); if (in->p + n > in->b->size()) png_error(p, "end of file"); memcpy(o, &(*in->b)[in->p], n); in->p += n; });
    png_read_info(p, i);
    unsigned w = png_get_image_width(p, i), h = png_get_image_height(p, i);
    *inter = png_get_interlace_type(p, i) != PNG_INTERLACE_NONE;
    png_set_interlace_handling(p);
    int bits = png_get_bit_depth(p, i);
    png_set_palette_to_rgb(p);
    png_set_expand_gray_1_2_4_to_8(p);
    png_set_tRNS_to_alpha(p);
    png_set_gray_to_rgb(p);
    png_set_filler(p, 0xffff, PNG_FILLER_AFTER);
    png_read_update_info(p, i);
    size_t stride = png_get_rowbytes(p, i);
    int px = bits == 16 ? 8 : 4;
    CHECK(stride == (size_t)px * w, "harness", "PNG rows of %zu", stride);
    d.make(w, h);
    d.depth = bits == 16 ? 65535 : 255;
    d.alpha = true;
    buf.assign(stride * h, 0);
    rows.clear();
    for (unsigned y = 0; y < h; y++) rows.push_back(&buf[stride * y]);
    png_read_image(p, rows.data());
    png_read_end(p, i);
    png_textp t;
    int n = 0;
    png_get_text(p, i, &t, &n);
    for (int k = 0; k < n; k++) text[t[k].key] = t[k].text ? t[k].text : "";
    png_destroy_read_struct(&p, &i, nullptr);
    for (size_t k = 0; k < (size_t)w * h; k++)
        for (int q = 0; q < 4; q++) d.px[k][q] = bits == 16 ? (buf[k * 8 + 2 * q] << 8 | buf[k * 8 + 2 * q + 1]) / 65535.0 : buf[k * 4 + q] / 255.0;
}
static void d_tga(const Bytes &b, Dec &d, std::string *str, bool *rle) {
    In f(b, "tga");
    unsigned idl = f.u8(), hasmap = f.u8(), type = f.u8(), first = f.le16(), ncol = f.le16(), entry = f.u8();
    unsigned x0 = f.le16(), y0 = f.le16(), w = f.le16(), h = f.le16(), bpp = f.u8(), desc = f.u8();
    OK(hasmap <= 1 && first == 0 && x0 == 0 && y0 == 0, "tga", "TGA: map %u from %u, at %u,%u", hasmap, first, x0, y0);
    OK((type & ~8u) >= 1 && (type & ~8u) <= 3, "tga", "TGA of type %u", type);
    OK(((type & 7) == 1 && bpp == 8 && hasmap) || ((type & 7) == 2 && (bpp == 24 || bpp == 32)) || ((type & 7) == 3 && bpp == 8), "tga", "TGA of type %u with %u bits", type, bpp);
    OK(hasmap ? ncol >= 1 && (entry == 24 || entry == 32) : ncol == 0 && entry == 0, "tga", "TGA with a map of %u entries of %u bits", ncol, entry);
    OK((desc & 0xD0) == 0 && (desc & 15) == (bpp == 32 ? 8u : 0u), "tga", "TGA descriptor %02x with %u bits", desc, bpp);
    str[0].clear();
    for (unsigned i = 0; i < idl; i++) str[0] += (char)f.u8();
    size_t map = f.p;
    f.skip((size_t)ncol * entry / 8);
    *rle = type & 8;
    d.make(w, h);
    d.alpha = bpp == 32;
    Bytes data;
    size_t n = (size_t)w * h, e = bpp / 8;
    if (*rle)
        while (data.size() < n * e) {
            int c = f.u8(), k = (c & 127) + 1;
            size_t q = f.p;
            f.skip(c & 128 ? e : e * k);
            for (int i = 0; i < k; i++) data.insert(data.end(), b.begin() + q + (c & 128 ? 0 : i * e), b.begin() + q + (c & 128 ? 0 : i * e) + e);
        }
    else { size_t q = f.p; f.skip(n * e); data.assign(b.begin() + q, b.begin() + f.p); }
    CHECK(data.size() == n * e, "tga-rle", "TGA: %zu bytes come out of the packets, %zu are needed", data.size(), n * e);
    for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) {
        const uint8_t *q = &data[((size_t)y * w + x) * e];
        auto &o = d.at(x, desc & 0x20 ? y : h - 1 - y);
        if ((type & 7) == 1) { CHECK(*q < ncol, "tga-index", "TGA: index %d of %u colours", *q, ncol); q = &b[map + *q * entry / 8]; o = {q[2] / 255.0, q[1] / 255.0, q[0] / 255.0, 1}; }
        else if ((type & 7) == 3) o = {*q / 255.0, *q / 255.0, *q / 255.0, 1};
        else o = {q[2] / 255.0, q[1] / 255.0, q[0] / 255.0, e == 4 ? q[3] / 255.0 : 1.0};
    }
    // footer and extension area
    OK(b.size() >= 26 && !memcmp(&b[b.size() - 18], "TRUEVISION-XFILE.", 18), "tga", "TGA without its footer");
    In g(b, "tga");
    g.p = b.size() - 26;
    unsigned ext = g.le32(), dev = g.le32();
    OK(dev == 0 && ext >= f.p && ext + 495 + 26 == b.size(), "tga", "TGA: extension area at %u, data ends at %zu, %zu bytes", ext, f.p, b.size());
    g.p = ext;
    OK(g.le16() == 495, "tga", "TGA extension area");
    str[1] = (const char *)&b[ext + 2];
    str[2] = (const char *)&b[ext + 2 + 41];
}
static void d_sgi(const Bytes &b, Dec &d, bool *rle) {
    In f(b, "sgi");
    unsigned magic = f.be16(), st = f.u8(), bpc = f.u8(), dim = f.be16(), w = f.be16(), h = f.be16(), z = f.be16();
    OK(magic == 474 && st <= 1 && (bpc == 1 || bpc == 2) && z >= 1 && z <= 4 && (dim == 3 || (dim == 2 && z == 1)), "sgi", "SGI: %u %u %u, %u dimensions, %ux%ux%u", magic, st, bpc, dim, w, h, z);
    unsigned lo = f.be32(), hi = f.be32();
    OK(lo == 0 && hi == (bpc == 1 ? 255u : 65535u), "sgi", "SGI: values from %u to %u", lo, hi);
    f.skip(4); f.skip(80);
    OK(f.be32() == 0, "sgi", "SGI colour map");
    f.p = 512;
    d.make(w, h);
    d.depth = bpc == 1 ? 255 : 65535;
    d.alpha = z == 2 || z == 4;
    *rle = st;
    std::vector<unsigned> off, len;
    if (st) {
        for (unsigned i = 0; i < h * z; i++) off.push_back(f.be32());
        for (unsigned i = 0; i < h * z; i++) len.push_back(f.be32());
    }
    size_t end = f.p;
    for (unsigned c = 0; c < z; c++) for (unsigned y = 0; y < h; y++) {
        size_t stop = 0;
        if (st) { f.p = off[c * h + y]; stop = f.p + len[c * h + y]; OK(f.p >= 512 + 8u * h * z && stop <= b.size(), "sgi", "SGI: row %u of channel %u from %zu to %zu of %zu", y, c, f.p, stop, b.size()); end = std::max(end, stop); }
        std::vector<unsigned> row;
        if (!st) for (unsigned x = 0; x < w; x++) row.push_back(bpc == 1 ? f.u8() : f.be16());
        else
            for (;;) {
                CHECK(f.p < stop, "sgi-rle", "SGI: row %u of channel %u does not end within its %u bytes", y, c, len[c * h + y]);
                unsigned q = bpc == 1 ? f.u8() : f.be16(), n = q & 127;
                if (!n) break;
                if (q & 128) for (unsigned i = 0; i < n; i++) row.push_back(bpc == 1 ? f.u8() : f.be16());
                else { unsigned v = bpc == 1 ? f.u8() : f.be16(); row.insert(row.end(), n, v); }
            }
        if (st) CHECK(f.p == stop, "sgi-rle", "SGI: row %u of channel %u has %u bytes, %zu are left", y, c, len[c * h + y], stop - f.p);
        CHECK(row.size() == w, "sgi-rle", "SGI: row %u of channel %u has %zu pixels of %u", y, c, row.size(), w);
        for (unsigned x = 0; x < w; x++) {
            auto &o = d.at(x, h - 1 - y);
            double v = row[x] / (double)d.depth;
            if (z <= 2) { if (c == 0) o[0] = o[1] = o[2] = v; else o[3] = v; } else o[c] = v;
        }
    }
    if (!st) { end = f.p; }
    OK(end == b.size(), "sgi", "SGI: %zu bytes, the data ends at %zu", b.size(), end);
}
static void d_pcx(const Bytes &b, Dec &d) {
    In f(b, "pcx");
    OK(f.u8() == 10, "pcx", "PCX manufacturer");
    unsigned ver = f.u8(), enc = f.u8(), bits = f.u8(), x0 = f.le16(), y0 = f.le16(), x1 = f.le16(), y1 = f.le16();
    f.p = 64;
    OK(f.u8() == 0, "pcx", "PCX reserved byte");
    unsigned planes = f.u8(), bps = f.le16();
    OK(ver == 5 && enc == 1 && bits == 8 && x1 >= x0 && y1 >= y0 && (planes == 1 || planes == 3 || planes == 4), "pcx", "PCX: version %u, encoding %u, %u bits, %u planes", ver, enc, bits, planes);
    unsigned w = x1 - x0 + 1, h = y1 - y0 + 1;
    OK(bps >= w && bps % 2 == 0, "pcx", "PCX: %u bytes a row for %u pixels", bps, w);
    d.make(w, h);
    d.alpha = planes == 4;
    f.p = 128;
    size_t pal = b.size() - 768;
    if (planes == 1) OK(b.size() >= 128 + 769 && b[pal - 1] == 12, "pcx", "PCX without a palette");
    std::vector<uint8_t> line((size_t)bps * planes);
    for (unsigned y = 0; y < h; y++) {
        for (size_t i = 0; i < line.size();) {
            int c = f.u8(), n = 1;
            if ((c & 0xC0) == 0xC0) { n = c & 63; c = f.u8(); }
            CHECK(i % bps + n <= bps, "pcx-rle", "PCX: row %u has a run across the end of a plane", y);
            while (n-- > 0) line[i++] = c;
        }
        for (unsigned x = 0; x < w; x++) {
            auto &o = d.at(x, y);
            if (planes == 1) { const uint8_t *q = &b[pal + line[x] * 3]; o = {q[0] / 255.0, q[1] / 255.0, q[2] / 255.0, 1}; }
            else for (unsigned k = 0; k < planes; k++) o[k] = line[k * bps + x] / 255.0;
        }
    }
    if (planes == 1) OK(f.p == pal - 1, "pcx", "PCX: the data ends at %zu, the palette is at %zu", f.p, pal); else f.end();
}
static void d_pnm(const Bytes &b, Dec &d, int *kind) {
    In f(b, "pnm");
    OK(f.u8() == 'P', "pnm", "no P");
    int k = *kind = f.u8() - '0';
    OK(k >= 1 && k <= 6, "pnm", "P%d", k);
    auto num = [&]() -> unsigned {
        int c = f.u8();
        while (isspace(c)) c = f.u8();
        CHECK(isdigit(c), "pnm-text", "PNM: byte %02x at %zu is no digit", c, f.p - 1);
        unsigned v = 0;
        while (isdigit(c)) { v = v * 10 + c - '0'; if (f.p == b.size()) { f.p++; break; } c = f.u8(); }
        f.p--;
        return v;
    };
    unsigned w = num(), h = num(), mv = k == 1 || k == 4 ? 1 : num();
    OK(mv == 1 || mv == 255 || mv == 65535, "pnm", "PNM: greatest value %u", mv);
    d.make(w, h);
    d.depth = mv;
    int nc = k == 3 || k == 6 ? 3 : 1;
    if (k >= 4) { int c = f.u8(); OK(isspace(c), "pnm", "PNM header ends with %02x", c); }
    for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) {
        auto &o = d.at(x, y);
        double v[3];
        for (int q = 0; q < nc; q++) {
            unsigned t;
            if (k == 4) { if (x % 8 == 0) t = f.u8(); else t = b[f.p - 1]; t = t >> (7 - x % 8) & 1; }
            else t = k >= 4 ? (mv > 255 ? f.be16() : f.u8()) : num();
            CHECK(t <= mv, "pnm-text", "PNM: value %u of %u", t, mv);
            v[q] = mv == 1 ? 1 - (double)t : t / (double)mv;
        }
        for (int q = 0; q < 3; q++) o[q] = v[nc == 3 ? q : 0];
    }
    if (k < 4) {
        while (f.p < b.size()) CHECK(isspace(f.u8()), "pnm-long", "PNM goes on after the last pixel");
        size_t l = 0;
        for (size_t i = 0; i < b.size(); i++) { if (b[i] == '\n') l = 0; else CHECK(++l <= 70, "pnm-line", "PNM: a line has more than 70 characters"); }
    } else f.end();
}
struct TIn { const Bytes *b; toff_t p; };
static std::string g_tifferr;
static void d_tif(const Bytes &b, Dec &d, std::map<int, std::string> &tags, int *comp) {
    TIFFSetWarningHandler(nullptr);
    TIFFSetErrorHandler([](const char *, const char *f, va_list a) { char m[300]; vsnprintf(m, sizeof m, f, a); g_tifferr = m; });
    g_tifferr.clear();
    TIn in = {&b, 0};
    TIFF *t = TIFFClientOpen("saved", "r", &in,
        [](thandle_t h, void *o, tmsize_t n) -> tmsize_t { TIn *i = (TIn *)h; size_t s = i->b->size(), k = i->p >= s ? 0 : std::min<size_t>(n, s - i->p); if (k) memcpy(o, &(*i->b)[i->p], k); i->p += k; return k; },
        [](thandle_t, void *, tmsize_t) -> tmsize_t { return 0; },
        [](thandle_t h, toff_t o, int w) -> toff_t { TIn *i = (TIn *)h; i->p = w == SEEK_SET ? o : w == SEEK_CUR ? i->p + o : i->b->size() + o; return i->p; },
        [](thandle_t) -> int { return 0; }, [](thandle_t h) -> toff_t { return ((TIn *)h)->b->size(); },
        [](thandle_t, void **, toff_t *) -> int { return 0; }, [](thandle_t, void *, toff_t) {});
    CHECK(t, "tif-valid", "libtiff: %s", g_tifferr.c_str());
    uint32_t w = 0, h = 0;
    uint16_t bps = 0, spp = 0, ph = 0, pc = 0, ori = 0, sf = 0, ne = 0, *ex = nullptr, cp = 0;
    TIFFGetField(t, TIFFTAG_IMAGEWIDTH, &w); TIFFGetField(t, TIFFTAG_IMAGELENGTH, &h);
    TIFFGetFieldDefaulted(t, TIFFTAG_BITSPERSAMPLE, &bps); TIFFGetFieldDefaulted(t, TIFFTAG_SAMPLESPERPIXEL, &spp);
    TIFFGetField(t, TIFFTAG_PHOTOMETRIC, &ph); TIFFGetFieldDefaulted(t, TIFFTAG_PLANARCONFIG, &pc); TIFFGetFieldDefaulted(t, TIFFTAG_ORIENTATION, &ori);
    TIFFGetFieldDefaulted(t, TIFFTAG_SAMPLEFORMAT, &sf); TIFFGetFieldDefaulted(t, TIFFTAG_EXTRASAMPLES, &ne, &ex); TIFFGetFieldDefaulted(t, TIFFTAG_COMPRESSION, &cp);
    *comp = cp;
    for (int k : {TIFFTAG_DOCUMENTNAME, TIFFTAG_ARTIST, TIFFTAG_HOSTCOMPUTER, TIFFTAG_IMAGEDESCRIPTION, TIFFTAG_SOFTWARE, TIFFTAG_DATETIME}) { char *s = nullptr; if (TIFFGetField(t, k, &s) && s) tags[k] = s; }
    bool ok = (bps == 8 || bps == 16) && spp >= 1 && spp <= 4 && pc == PLANARCONFIG_CONTIG && sf == SAMPLEFORMAT_UINT && (ori == ORIENTATION_TOPLEFT || ori == ORIENTATION_BOTLEFT) && (ph == PHOTOMETRIC_MINISBLACK ? spp <= 2 : ph == PHOTOMETRIC_RGB && spp >= 3) &&
              ne == (spp == 2 || spp == 4) && (!ne || ex[0] == EXTRASAMPLE_UNASSALPHA);
    if (!ok) { TIFFClose(t); OK(false, "tif", "TIFF: %u bits, %u samples, photometric %u, planar %u, format %u, orientation %u, %u extra", bps, spp, ph, pc, sf, ori, ne); }
    if (w < 1 || h < 1 || (uint64_t)w * h > 1 << 24) TIFFClose(t);
    d.make(w, h);
    d.depth = bps == 8 ? 255 : 65535;
    d.alpha = ne;
    Bytes row(TIFFScanlineSize(t) + 8);
    for (uint32_t y = 0; y < h; y++) {
        int r = TIFFReadScanline(t, &row[0], y, 0);
        if (r < 0) { TIFFClose(t); CHECK(false, "tif-valid", "libtiff, row %u: %s", y, g_tifferr.c_str()); }
        for (uint32_t x = 0; x < w; x++) {
            auto &o = d.at(x, ori == ORIENTATION_TOPLEFT ? y : h - 1 - y);
            double v[4];
            for (int q = 0; q < spp; q++) v[q] = bps == 8 ? row[x * spp + q] / 255.0 : ((uint16_t *)&row[0])[x * spp + q] / 65535.0;
            if (spp <= 2) { o[0] = o[1] = o[2] = v[0]; if (spp == 2) o[3] = v[1]; } else for (int q = 0; q < spp; q++) o[q] = v[q];
        }
    }
    bool more = TIFFReadDirectory(t);
    TIFFClose(t);
    OK(!more, "tif", "TIFF with a second directory");
    CHECK(g_tifferr.empty(), "tif-valid", "libtiff: %s", g_tifferr.c_str());
}
static void d_psd(const Bytes &b, Dec &d) {
    In f(b, "psd");
    OK(f.be32() == 0x38425053 && f.be16() == 1 && f.be32() == 0 && f.be16() == 0, "psd", "PSD header");
    unsigned ch = f.be16(), h = f.be32(), w = f.be32(), bits = f.be16(), mode = f.be16(), n = f.be32();
    OK((bits == 8 || bits == 16) && ((mode == 1 && (ch == 1 || ch == 2)) || (mode == 2 && ch == 1 && bits == 8) || (mode == 3 && (ch == 3 || ch == 4))), "psd", "PSD: mode %u, %u channels, %u bits", mode, ch, bits);
    OK(n == (mode == 2 ? 768u : 0u), "psd", "PSD: %u bytes of colours in mode %u", n, mode);
    size_t pal = f.p;
    f.skip(n);
    f.skip(f.be32());
    f.skip(f.be32());
    unsigned comp = f.be16();
    OK(comp == 0, "psd", "PSD compression %u", comp);
    d.make(w, h);
    d.depth = bits == 8 ? 255 : 65535;
    d.alpha = ch == 2 || ch == 4;
    for (unsigned c = 0; c < ch; c++) for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) {
        unsigned v = bits == 8 ? f.u8() : f.be16();
        auto &o = d.at(x, y);
        if (mode == 2) o = {b[pal + v] / 255.0, b[pal + 256 + v] / 255.0, b[pal + 512 + v] / 255.0, 1};
        else if (mode == 1 && c == 0) o[0] = o[1] = o[2] = v / (double)d.depth;
        else o[mode == 1 ? 3 : c] = v / (double)d.depth;
    }
    f.end();
}
static void d_wbmp(const Bytes &b, Dec &d) {
    In f(b, "wbmp");
    OK(f.u8() == 0 && f.u8() == 0, "wbmp", "WBMP type");
    auto num = [&] { unsigned v = 0; for (int i = 0; i < 5; i++) { int c = f.u8(); v = v << 7 | (c & 127); if (!(c & 128)) return v; } OK(false, "wbmp", "WBMP number"); return 0u; };
    unsigned w = num(), h = num();
    d.make(w, h);
    for (unsigned y = 0; y < h; y++) {
        int c = 0;
        for (unsigned x = 0; x < w; x++) { if (x % 8 == 0) c = f.u8(); double v = c >> (7 - x % 8) & 1; d.at(x, y) = {v, v, v, 1}; }
    }
    f.end();
}
static void d_hdr(const Bytes &b, Dec &d) {
    In f(b, "hdr");
    auto line = [&] { std::string s; for (int c; (c = f.u8()) != '\n';) { s += (char)c; OK(s.size() < 200, "hdr", "HDR line"); } return s; };
    std::string s = line();
    OK(s.substr(0, 2) == "#?", "hdr", "HDR begins with %s", s.c_str());
    bool fm = false;
    while (!(s = line()).empty()) if (s == "FORMAT=32-bit_rle_rgbe") fm = true;
    OK(fm, "hdr", "HDR without its format");
    unsigned w = 0, h = 0;
    s = line();
    OK(sscanf(s.c_str(), "-Y %u +X %u", &h, &w) == 2, "hdr", "HDR resolution %s", s.c_str());
    d.make(w, h);
    Bytes row((size_t)w * 4);
    for (unsigned y = 0; y < h; y++) {
        if (w >= 8 && w <= 0x7fff) {
            int a = f.u8(), c = f.u8();
            unsigned l = f.be16();
            CHECK(a == 2 && c == 2 && l == w, "hdr-rle", "HDR: row %u begins with %d %d %u", y, a, c, l);
            for (int k = 0; k < 4; k++)
                for (unsigned x = 0; x < w;) {
                    unsigned n = f.u8();
                    bool run = n > 128;
                    if (run) n -= 128;
                    CHECK(n > 0 && x + n <= w, "hdr-rle", "HDR: row %u has a packet of %u at %u", y, n, x);
                    int v = run ? f.u8() : 0;
                    while (n--) row[4 * x++ + k] = run ? v : f.u8();
                }
        } else for (auto &v : row) v = f.u8();
        for (unsigned x = 0; x < w; x++) { const uint8_t *p = &row[4 * x]; for (int k = 0; k < 3; k++) d.at(x, y)[k] = p[3] ? ldexp(p[k] + 0.5, p[3] - 136) : 0; }
    }
    f.end();
}
static void d_raw(const Bytes &b, const Img &m) {
    In f(b, "raw");
    unsigned w = f.le32(), h = f.le32(), dd = f.le32(), bpp = f.u8(), bpc = f.u8();
    OK((int)w == m.w && (int)h == m.h && (int)dd == m.d && (int)bpp == chans(m.format) && (int)bpc == tsize(m.type), "raw", "RAW: %ux%ux%u, %u channels of %u", w, h, dd, bpp, bpc);
    OK(b.size() == 14 + m.data.size() && std::equal(m.data.begin(), m.data.end(), b.begin() + 14), "raw", "RAW: other data");
}
static void d_vtf(const Bytes &b, Dec &d, Ctx &c, ILenum comp, const Img &m) {
    In f(b, "vtf");
    OK(f.le32() == 0x00465456, "vtf", "no VTF");
    unsigned v1 = f.le32(), v2 = f.le32(), hs = f.le32(), w = f.le16(), h = f.le16();
    f.le32();
    unsigned fr = f.le16();
    f.le16(); f.skip(4 + 12 + 4 + 4);
    unsigned fo = f.le32(), mips = f.u8(), lf = f.le32(), lw = f.u8(), lh = f.u8(), dep = f.le16();
    OK(v1 == 7 && v2 <= 2 && hs == 80 && fr == 1 && mips == 1 && (lf == 0xFFFFFFFF || (lw && lh)) && dep == 1, "vtf", "VTF: %u.%u, header %u, %u frames, %u mipmaps, low resolution %x %ux%u, depth %u", v1, v2, hs, fr, mips, lf, lw, lh, dep);
    f.p = hs;
    if (comp != IL_DXT_NO_COMP) {
        OK(fo == (comp == IL_DXT1 ? 20u : comp == IL_DXT3 ? 14u : 15u) || (comp == IL_DXT1 && fo == 13), "vtf", "VTF: format %u", fo);
        CHECK((int)w == m.w && (int)h == m.h, "vtf-dims", "VTF: %ux%u", w, h);
        Img one = m;
        one.d = 1;
        one.data.resize(one.size());
        verify(comp, Bytes(b.begin() + f.p, b.end()), wanted(one), "VTF of " + m.str(), c);
        return;
    }
    d.make(w, h);
    struct F { unsigned f; int px; const char *o; };
    static const F fs[] = {{0, 4, "RGBA"}, {2, 3, "RGB"}, {3, 3, "BGR"}, {5, 1, "L"}, {6, 2, "LA"}, {8, 1, "A"}, {12, 4, "BGRA"}, {25, 8, "RGBA"}};
    const F *q = nullptr;
    for (auto &x : fs) if (x.f == fo) q = &x;
    OK(q, "vtf", "VTF: format %u", fo);
    if (fo == 25) d.depth = 65535;
    d.alpha = strchr(q->o, 'A');
    for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) {
        auto &o = d.at(x, y);
        for (const char *p = q->o; *p; p++) {
            double v = fo == 25 ? f.le16() / 65535.0 : f.u8() / 255.0;
            if (*p == 'L') o[0] = o[1] = o[2] = v; else o[*p == 'R' ? 0 : *p == 'G' ? 1 : *p == 'B' ? 2 : 3] = v;
        }
        if (!strcmp(q->o, "A")) o[0] = o[1] = o[2] = 0;
    }
    f.end();
}
static void d_chead(const Bytes &b, const Img &m, const std::string &name) {
    std::string t(b.begin(), b.end());
    std::map<std::string, unsigned long> def;
    for (size_t p = 0; (p = t.find("#define ", p)) != std::string::npos; p++) { char n[64]; char v[64]; if (sscanf(t.c_str() + p + 8, "%63s %63s", n, v) == 2) def[n] = strtoul(v, nullptr, 0); }
    OK(def["IMAGE_BPP"] == (unsigned long)chans(m.format) && (int)def["IMAGE_WIDTH"] == m.w && (int)def["IMAGE_HEIGHT"] == m.h && (int)def["IMAGE_DEPTH"] == m.d && def["IMAGE_FORMAT"] == m.format && def["IMAGE_TYPE"] == IL_UNSIGNED_BYTE, "chead", "C header: %lux%lux%lu, %lu channels, format %lx, type %lx",
       def["IMAGE_WIDTH"], def["IMAGE_HEIGHT"], def["IMAGE_DEPTH"], def["IMAGE_BPP"], def["IMAGE_FORMAT"], def["IMAGE_TYPE"]);
    auto array = [&](const std::string &n) {
        Bytes v;
        size_t p = t.find("ILubyte " + n + "[] = {");
        OK(p != std::string::npos, "chead", "C header: no %s", n.c_str());
        size_t q = t.find("};", p);
        OK(q != std::string::npos, "chead", "C header: %s does not end", n.c_str());
        p = t.find('{', p) + 1;
        bool num = false, comma = true;
        while (p < q) {
            if (isdigit(t[p])) { OK(comma, "chead", "C header: no comma at %zu", p); unsigned long x = strtoul(&t[p], nullptr, 10); OK(x < 256, "chead", "C header: value %lu", x); v.push_back((uint8_t)x); while (isdigit(t[p])) p++; comma = false; num = true; }
            else if (t[p] == ',') { OK(num && !comma, "chead", "C header: comma at %zu", p); comma = true; p++; }
            else { OK(isspace(t[p]), "chead", "C header: character %c", t[p]); p++; }
        }
        return v;
    };
    Bytes v = array(name);
    OK(v.size() == m.data.size() / tsize(m.type), "chead", "C header: %zu values of %zu", v.size(), m.data.size() / tsize(m.type));
    for (size_t i = 0; i < v.size(); i++) {
        double want = chan_get(&m.data[i * tsize(m.type)], m.type) * 255;
        CHECK(m.type == IL_UNSIGNED_BYTE ? v[i] == m.data[i] : fabs(v[i] - want) <= 1.001, "chead-data", "C header: value %zu is %d, wanted %.2f", i, v[i], want);
    }
    if (m.format == IL_COLOUR_INDEX) {
        OK(def["IMAGE_PALSIZE"] == m.pal.size() && def["IMAGE_PALTYPE"] == m.paltype, "chead", "C header: palette of %lu bytes, type %lx", def["IMAGE_PALSIZE"], def["IMAGE_PALTYPE"]);
        OK(array(name + "Pal") == m.pal, "chead", "C header: another palette");
    }
}

struct Kind { ILenum type; const char *ext; bool mem; };
static const Kind KINDS[] = {{IL_BMP, "bmp", true}, {IL_PNG, "png", true}, {IL_TGA, "tga", true}, {IL_SGI, "sgi", true}, {IL_PCX, "pcx", false}, {IL_PNM, "ppm", true}, {IL_PNM, "pgm", false}, {IL_PNM, "pbm", false}, {IL_TIF, "tif", true},
                             {IL_PSD, "psd", true}, {IL_RAW, "raw", true}, {IL_VTF, "vtf", true}, {IL_WBMP, "wbmp", true}, {IL_HDR, "hdr", true}, {IL_CHEAD, "h", false}};

void one_case(Src &s, Ctx &c) {
    il_fresh();
    const Kind &k = KINDS[s.draw(15)];
    bool grey = !strcmp(k.ext, "pgm"), two = !strcmp(k.ext, "pbm") || k.type == IL_WBMP;
    int m = s.chance(1, 12) ? 300 : 40, w = s.size(m), h = s.size(w > 60 ? 30 : m), d = s.chance(1, 25) ? 2 : 1;
    if (k.type == IL_VTF) { w = 1 << s.range(0, 6); h = 1 << s.range(0, 6); }
    bool huge = s.chance(1, 150) && k.type != IL_CHEAD;
    if (huge) { w = s.pick({32767, 32768, 65535, 65536, 65537, 70001}); h = 1; if (s.flip()) std::swap(w, h); d = 1; }
    ILenum f = grey || two ? (ILenum)IL_LUMINANCE : s.pick({IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_COLOUR_INDEX, IL_COLOUR_INDEX});
    ILenum t = two || s.chance(3, 5) ? (ILenum)IL_UNSIGNED_BYTE : s.pick({IL_UNSIGNED_SHORT, IL_UNSIGNED_SHORT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE});
    if (huge) { f = s.pick({f, (ILenum)IL_LUMINANCE}); t = IL_UNSIGNED_BYTE; }
    Img im = f == IL_COLOUR_INDEX ? gen_indexed(s, w, h, d, s.chance(1, 3) ? 256 : s.range(1, 256), s.pick({IL_PAL_RGB24, IL_PAL_BGR24, IL_PAL_RGBA32, IL_PAL_BGRA32, IL_PAL_RGB32, IL_PAL_BGR32})) : gen_img(s, w, h, d, f, t);
    if (two) for (auto &v : im.data) v = v & 0x40 ? 255 : 0;
    if (d > 1) c.note("slices");
    if (f != IL_COLOUR_INDEX && t != IL_UNSIGNED_BYTE) c.note("other depth");
    new_image(im);
    std::string opt;
    bool rle = false, inter = false, comp = false;
    if ((k.type == IL_TGA || k.type == IL_SGI) && s.flip()) { rle = true; ilSetInteger(k.type == IL_TGA ? IL_TGA_RLE : IL_SGI_RLE, IL_TRUE); opt += " rle"; c.note("rle"); }
    if (k.type == IL_PNG && s.flip()) { inter = true; ilSetInteger(IL_PNG_INTERLACE, IL_TRUE); opt += " interlaced"; }
    comp = s.flip();
    ilHint(IL_COMPRESSION_HINT, comp ? IL_USE_COMPRESSION : IL_NO_COMPRESSION);
    if (comp) opt += " compress";
    ILenum vc = IL_DXT_NO_COMP;
    if (k.type == IL_VTF) { vc = s.pick({IL_DXT_NO_COMP, IL_DXT_NO_COMP, IL_DXT_NO_COMP, IL_DXT1, IL_DXT3, IL_DXT5}); ilSetInteger(IL_VTF_COMP, vc); opt += fmt(" vtf %04x", vc); if (vc != IL_DXT_NO_COMP) rle = true; }
    std::map<ILenum, std::string> strs;
    if (s.chance(1, 4)) {
        c.note("strings");
        static const ILenum N[] = {IL_TGA_ID_STRING, IL_TGA_AUTHNAME_STRING, IL_TGA_AUTHCOMMENT_STRING, IL_PNG_TITLE_STRING, IL_PNG_AUTHNAME_STRING, IL_PNG_DESCRIPTION_STRING, IL_TIF_DESCRIPTION_STRING, IL_TIF_AUTHNAME_STRING, IL_TIF_DOCUMENTNAME_STRING,
                                   IL_TIF_HOSTCOMPUTER_STRING, IL_CHEAD_HEADER_STRING};
        for (ILenum e : N) {
            if (s.chance(1, 3)) continue;
            int n = s.pick({1, 2, 5, 20, 30, 40, 41, 79, 80, 81, 200, 254, 255, 256, 300});
            std::string x;
            uint64_t sd = s.seed32();
            for (int i = 0; i < n; i++) x += (char)('a' + mix64(sd + i) % 26);
            strs[e] = x;
            ilSetString(e, x.c_str());
        }
        opt += fmt(" %zu strings", strs.size());
    }
    std::string what = fmt("%s%s of %s", k.ext, opt.c_str(), im.str().c_str());
    bool byfile = !k.mem || s.chance(1, 4);
    c.say(what);
    drain_errors();
    Bytes b;
    if (byfile) {
        std::string p = g_scratch + "/x." + k.ext;
        unlink(p.c_str());
        if (ilSave(k.type, p.c_str())) b = read_file(p);
        unlink(p.c_str());
    } else b = save_mem(k.type, huge ? 8u << 20 : 0);
    if (b.empty()) { ILenum er = ilGetError();
        CHECK(er != IL_NO_ERROR, "noerror", "%s: refused without an error", what.c_str()); 
        bool deep = t != IL_UNSIGNED_BYTE && f != IL_COLOUR_INDEX, cut = w > 65534 || h > 65535;
        bool may = k.type == IL_PNM ? deep && (comp || t != IL_UNSIGNED_SHORT) : k.type == IL_PNG ? deep && (t == IL_FLOAT || t == IL_DOUBLE) : k.type == IL_TGA ? cut || f == IL_LUMINANCE_ALPHA : k.type == IL_SGI || k.type == IL_PCX ? cut : k.type == IL_VTF ? cut || (w & (w - 1)) || (h & (h - 1)) : false;
        CHECK(may, fmt("%s-refused", k.ext), "%s: refused with error %x", what.c_str(), er);
        c.note("refused");
        return;
    }
    c.note("saved");
    c.note(std::string("saved ") + k.ext);
    for (size_t i = im.px(); i < im.data.size() && !c.nontriv; i++) c.nontriv = im.data[i] != im.data[i - im.px()];
    c.say(fmt("%zu bytes", b.size()));
    auto clip = [&](ILenum e, size_t n, const std::string &got, const char *name) {
        if (!strs.count(e)) return;
        std::string want = strs[e].substr(0, n);
        CHECK(got == want, fmt("%s-string", k.ext), "%s: %s is \"%s\", set was \"%s\"", what.c_str(), name, got.c_str(), strs[e].c_str());
    };
    Dec o;
    double tol = 0;
    switch (k.type) {
    case IL_BMP: d_bmp(b, o); break;
    case IL_PNG: {
        std::map<std::string, std::string> tx;
        bool il;
        d_png(b, o, tx, &il);
        CHECK(il == inter, "png-interlace", "%s: interlaced %d", what.c_str(), il);
        clip(IL_PNG_TITLE_STRING, 255, tx["Title"], "title"); clip(IL_PNG_AUTHNAME_STRING, 255, tx["Author"], "author"); clip(IL_PNG_DESCRIPTION_STRING, 255, tx["Description"], "description");
        break;
    }
    case IL_TGA: {
        std::string st[3];
        bool r;
        d_tga(b, o, st, &r);
        CHECK(r == rle, "tga-compressed", "%s: compressed %d", what.c_str(), r);
        clip(IL_TGA_ID_STRING, 254, st[0], "id"); clip(IL_TGA_AUTHNAME_STRING, 40, st[1], "author"); clip(IL_TGA_AUTHCOMMENT_STRING, 80, st[2], "comment");
        break;
    }
    case IL_SGI: {
        bool r;
        d_sgi(b, o, &r);
        CHECK(r == (rle && o.depth == 255), "sgi-compressed", "%s: compressed %d", what.c_str(), r);
        break;
    }
    case IL_PCX: d_pcx(b, o); break;
    case IL_PNM: {
        int n;
        d_pnm(b, o, &n);
        CHECK(n == (two ? 1 : grey ? 2 : 3) + (comp ? 3 : 0), "pnm-kind", "%s: P%d", what.c_str(), n);
        break;
    }
    case IL_TIF: {
        std::map<int, std::string> tg;
        int cp;
        d_tif(b, o, tg, &cp);
        CHECK(cp == (comp ? COMPRESSION_LZW : COMPRESSION_NONE), "tif-compressed", "%s: compression %d", what.c_str(), cp);
        clip(IL_TIF_DESCRIPTION_STRING, 255, tg[TIFFTAG_IMAGEDESCRIPTION], "description"); clip(IL_TIF_AUTHNAME_STRING, 255, tg[TIFFTAG_ARTIST], "artist");
        clip(IL_TIF_DOCUMENTNAME_STRING, 255, tg[TIFFTAG_DOCUMENTNAME], "document name"); clip(IL_TIF_HOSTCOMPUTER_STRING, 255, tg[TIFFTAG_HOSTCOMPUTER], "host computer");
        break;
    }
    case IL_PSD: d_psd(b, o); break;
    case IL_RAW: d_raw(b, im); return;
    case IL_VTF: d_vtf(b, o, c, vc, im); if (vc != IL_DXT_NO_COMP) return; break;
    case IL_WBMP: d_wbmp(b, o); break;
    case IL_HDR: d_hdr(b, o); break;
    case IL_CHEAD: d_chead(b, im, strs.count(IL_CHEAD_HEADER_STRING) ? strs[IL_CHEAD_HEADER_STRING].substr(0, 32) : "IL_IMAGE"); return;
    }
    std::string sg = std::string(k.ext) + "-";
    CHECK(o.w == w && o.h == h, sg + "dims", "%s: the file shows %dx%d", what.c_str(), o.w, o.h);
    Img u = upright(im);
    if (two) o.depth = 255;
    if (k.type == IL_HDR) o.depth = 1 << 30;
    bool exact = f == IL_COLOUR_INDEX || (t == IL_UNSIGNED_BYTE && o.depth % 255 == 0) || (t == IL_UNSIGNED_SHORT && o.depth == 65535);
    tol = exact ? 1e-6 : 1.001 / o.depth;
    bool alpha = has_alpha(f) || im.paltype == IL_PAL_RGBA32 || im.paltype == IL_PAL_BGRA32;
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
        auto A = rgba_of(u, x, y);
        auto &G = o.at(x, y);
        double top = std::max({A[0], A[1], A[2]}) / 120;
        for (int q = 0; q < 3; q++)
            CHECK(fabs(A[q] - G[q]) <= (k.type == IL_HDR ? top : tol), sg + fmt_name(f) + (exact ? "-pixels" : "-depth"), "%s: the file shows (%d,%d) as %.5f %.5f %.5f %.5f, wanted %.5f %.5f %.5f %.5f", what.c_str(), x, y, G[0], G[1], G[2], G[3], A[0], A[1], A[2], A[3]);
        if (alpha && o.alpha) CHECK(fabs(A[3] - G[3]) <= tol, sg + fmt_name(f) + "-alpha", "%s: the file shows (%d,%d) with alpha %.5f, wanted %.5f", what.c_str(), x, y, G[3], A[3]);
        else CHECK(G[3] == 1, sg + fmt_name(f) + "-alpha", "%s: the file shows (%d,%d) with alpha %.5f", what.c_str(), x, y, G[3]);
    }
    if (alpha && f != IL_COLOUR_INDEX && (k.type == IL_PNG || k.type == IL_TGA || k.type == IL_TIF || k.type == IL_PSD || k.type == IL_SGI || k.type == IL_PCX || k.type == IL_VTF))
        CHECK(o.alpha, sg + "alpha-lost", "%s: the file has no alpha", what.c_str());
}
