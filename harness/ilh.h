// DevIL access for the checks: a plain reference image, generators, import/export, allocator accounting.
#pragma once
#include <execinfo.h>
#include <map>
#include <malloc.h>
extern "C" void __sanitizer_symbolize_pc(void *, const char *, char *, size_t);
#include "core.h"
#include <IL/il.h>
#include <IL/ilu.h>
#include <malloc.h>

typedef std::vector<uint8_t> Bytes;

// ------------------------------------------------------------------ allocator installed with ilSetMemory
namespace mem {
static uint64_t live = 0, live_bytes = 0, total = 0;
static uint64_t cap = 256u << 20;   // a single request above this is refused (like a loaded system would)
static int64_t fail_at = -1;        // the n-th request from now is refused (fault injection), -1 off
static int fail_run = 1;            // how many requests in a row are refused
static uint64_t refused = 0;
static uint64_t total_cap = 1u << 30; // all blocks together
static int fill = -1;               // byte that fresh memory is filled with, -1: leave
static std::set<const void *> *track = nullptr;
// debugging aid (MEMBT=file): where every live block was requested
static bool bt_on = getenv("MEMBT") != nullptr;
static std::map<const void *, std::vector<void *>> bts;
static void bt_show() {
    FILE *f = fopen(getenv("MEMBT"), "a");
    if (!f) return;
    for (auto &b : bts) {
        fprintf(f, "block of %zu:", malloc_usable_size((void *)b.first));
        for (void *pc : b.second) {
            char name[200] = "";
            __sanitizer_symbolize_pc(pc, "%f:%l", name, sizeof name);
            fprintf(f, " %s", name);
        }
        fprintf(f, "\n");
    }
    fclose(f);
}
static void *alloc(const ILsizei n) {
    total++;
    if (fail_at >= 0) {
        if (fail_at == 0) {
            refused++;
            if (--fail_run <= 0) fail_at = -1;
            return nullptr;
        }
        fail_at--;
    }
    if ((uint64_t)n > cap || live_bytes + n > total_cap) { refused++; return nullptr; }
    void *p = malloc(n);
    if (p) {
        live++;
        live_bytes += malloc_usable_size(p);
        if (fill >= 0) memset(p, fill, n);
        if (track) track->insert(p);
        if (bt_on) { void *pc[8]; int n = backtrace(pc, 8); bts[p].assign(pc + 2, pc + std::max(n, 2)); }
    }
    return p;
}
static void dealloc(const void *p) {
    if (!p) return;
    live--;
    live_bytes -= malloc_usable_size((void *)p);
    if (track) track->erase(p);
    if (bt_on) bts.erase(p);
    free((void *)p);
}
static void install() { ilSetMemory(alloc, dealloc); }
}

static inline void drain_errors() {
    for (int i = 0; i < 64 && ilGetError() != IL_NO_ERROR; i++) {}
}
static bool g_il_up = false;
static inline void il_fresh() {
    if (!g_il_up) {
        mem::install();
        ilInit();
        iluInit();
        g_il_up = true;
    } else {
        ilShutDown();
        ilInit();
        iluInit();
    }
    // these outlive ilShutDown
    ilClearColour(1.0f, 1.0f, 1.0f, 0.0f);
    ilKeyColour(0, 0, 0, 0);
    iluImageParameter(ILU_FILTER, ILU_NEAREST);
    iluImageParameter(ILU_PLACEMENT, ILU_CENTER);
    iluRegioniv(nullptr, 0);
    drain_errors();
}

// ------------------------------------------------------------------ formats and types
static inline const char *fmt_name(ILenum f) {
    switch (f) {
    case IL_COLOUR_INDEX: return "INDEX";
    case IL_ALPHA: return "ALPHA";
    case IL_RGB: return "RGB";
    case IL_RGBA: return "RGBA";
    case IL_BGR: return "BGR";
    case IL_BGRA: return "BGRA";
    case IL_LUMINANCE: return "LUM";
    case IL_LUMINANCE_ALPHA: return "LUMA";
    }
    return "?";
}
static inline const char *type_name(ILenum t) {
    switch (t) {
    case IL_BYTE: return "i8";
    case IL_UNSIGNED_BYTE: return "u8";
    case IL_SHORT: return "i16";
    case IL_UNSIGNED_SHORT: return "u16";
    case IL_INT: return "i32";
    case IL_UNSIGNED_INT: return "u32";
    case IL_FLOAT: return "f32";
    case IL_DOUBLE: return "f64";
    case IL_HALF: return "f16";
    }
    return "?";
}
static inline int chans(ILenum f) {
    switch (f) {
    case IL_COLOUR_INDEX: case IL_LUMINANCE: case IL_ALPHA: return 1;
    case IL_LUMINANCE_ALPHA: return 2;
    case IL_RGB: case IL_BGR: return 3;
    case IL_RGBA: case IL_BGRA: return 4;
    }
    return 0;
}
static inline int tsize(ILenum t) {
    switch (t) {
    case IL_BYTE: case IL_UNSIGNED_BYTE: return 1;
    case IL_SHORT: case IL_UNSIGNED_SHORT: case IL_HALF: return 2;
    case IL_INT: case IL_UNSIGNED_INT: case IL_FLOAT: return 4;
    case IL_DOUBLE: return 8;
    }
    return 0;
}
static inline bool has_alpha(ILenum f) { return f == IL_RGBA || f == IL_BGRA || f == IL_LUMINANCE_ALPHA || f == IL_ALPHA; }
static inline int pal_bpp(ILenum p) {
    switch (p) {
    case IL_PAL_RGB24: case IL_PAL_BGR24: return 3;
    case IL_PAL_RGB32: case IL_PAL_RGBA32: case IL_PAL_BGR32: case IL_PAL_BGRA32: return 4;
    }
    return 0;
}

// ------------------------------------------------------------------ reference image
struct Img {
    int w = 0, h = 0, d = 1;
    ILenum format = IL_RGB, type = IL_UNSIGNED_BYTE, origin = IL_ORIGIN_LOWER_LEFT;
    Bytes data;
    ILenum paltype = IL_PAL_NONE;
    Bytes pal;

    int nc() const { return chans(format); }
    int px() const { return chans(format) * tsize(type); }
    size_t size() const { return (size_t)w * h * d * px(); }
    uint8_t *at(int x, int y, int z = 0) { return &data[((size_t)(z * h + y) * w + x) * px()]; }
    const uint8_t *at(int x, int y, int z = 0) const { return &data[((size_t)(z * h + y) * w + x) * px()]; }
    std::string str() const {
        return fmt("%dx%dx%d %s/%s %s%s", w, h, d, fmt_name(format), type_name(type), origin == IL_ORIGIN_UPPER_LEFT ? "UL" : "LL",
                   paltype != IL_PAL_NONE ? fmt(" pal %04x*%d", paltype, pal_bpp(paltype) ? (int)(pal.size() / pal_bpp(paltype)) : -1).c_str() : "");
    }
};

static inline Img flipped(const Img &a) {
    Img b = a;
    size_t row = (size_t)a.w * a.px();
    for (int z = 0; z < a.d; z++)
        for (int y = 0; y < a.h; y++)
            if (row) memcpy(&b.data[((size_t)z * a.h + y) * row], &a.data[((size_t)z * a.h + (a.h - 1 - y)) * row], row);
    return b;
}
// same picture, first row at the top
static inline Img upright(const Img &a) {
    if (a.origin == IL_ORIGIN_UPPER_LEFT) return a;
    Img b = flipped(a);
    b.origin = IL_ORIGIN_UPPER_LEFT;
    return b;
}

// normalised value of a channel, in doubles: integers map 0..max to 0..1
static inline double chan_get(const uint8_t *p, ILenum t) {
    switch (t) {
    case IL_BYTE: { int8_t v; memcpy(&v, p, 1); return v / 127.0; }
    case IL_UNSIGNED_BYTE: return *p / 255.0;
    case IL_SHORT: { int16_t v; memcpy(&v, p, 2); return v / 32767.0; }
    case IL_UNSIGNED_SHORT: { uint16_t v; memcpy(&v, p, 2); return v / 65535.0; }
    case IL_INT: { int32_t v; memcpy(&v, p, 4); return v / 2147483647.0; }
    case IL_UNSIGNED_INT: { uint32_t v; memcpy(&v, p, 4); return v / 4294967295.0; }
    case IL_FLOAT: { float v; memcpy(&v, p, 4); return v; }
    case IL_DOUBLE: { double v; memcpy(&v, p, 8); return v; }
    case IL_HALF: {
        uint16_t v;
        memcpy(&v, p, 2);
        int e = (v >> 10) & 31, m = v & 1023;
        double r = e == 0 ? ldexp(m, -24) : e == 31 ? (m ? NAN : INFINITY) : ldexp(1024 + m, e - 25);
        return v & 0x8000 ? -r : r;
    }
    }
    return 0;
}
static inline double type_max(ILenum t) {
    switch (t) {
    case IL_UNSIGNED_BYTE: return 255;
    case IL_UNSIGNED_SHORT: return 65535;
    case IL_UNSIGNED_INT: return 4294967295.0;
    }
    return 0; // floating point
}
static inline void chan_set(uint8_t *p, ILenum t, double v) {
    switch (t) {
    case IL_BYTE: { int8_t x = (int8_t)lrint(v * 127); memcpy(p, &x, 1); break; }
    case IL_UNSIGNED_BYTE: *p = (uint8_t)lrint(v * 255); break;
    case IL_SHORT: { int16_t x = (int16_t)lrint(v * 32767); memcpy(p, &x, 2); break; }
    case IL_UNSIGNED_SHORT: { uint16_t x = (uint16_t)lrint(v * 65535); memcpy(p, &x, 2); break; }
    case IL_INT: { int32_t x = (int32_t)llrint(v * 2147483647.0); memcpy(p, &x, 4); break; }
    case IL_UNSIGNED_INT: { uint32_t x = (uint32_t)llrint(v * 4294967295.0); memcpy(p, &x, 4); break; }
    case IL_FLOAT: { float x = (float)v; memcpy(p, &x, 4); break; }
    case IL_DOUBLE: memcpy(p, &v, 8); break;
    }
}

// ------------------------------------------------------------------ generators
// Fills bytes with one of several textures; every byte pattern is legal.
static inline void gen_bytes(Src &s, uint8_t *p, size_t n, int px, int w) {
    int mode = s.range(0, 6);
    uint64_t sd = s.seed32();
    if (px < 1) px = 1;
    if (w < 1) w = 1;
    for (size_t i = 0; i < n; i++) {
        size_t pi = i / px, c = i % px, x = pi % w, y = pi / w;
        uint8_t v = 0;
        switch (mode) {
        case 0: v = (uint8_t)(mix64(sd + c)); break;                                             // constant
        case 1: v = (uint8_t)(mix64(sd * 31 + i)); break;                                        // noise
        case 2: v = (uint8_t)(x * (1 + (sd & 7)) + y * (1 + ((sd >> 3) & 7)) + c * 40 + (sd >> 8)); break; // gradient
        case 3: { uint64_t k = mix64(sd + (mix64(sd ^ pi) % 4)); v = (uint8_t)(k >> (8 * (c % 8))); break; } // four colours
        case 4: { uint64_t run = pi / (1 + (mix64(sd + pi / 37) % 9)); v = (uint8_t)(mix64(sd + run) >> (8 * (c % 8))); break; } // runs
        case 5: v = (mix64(sd * 7 + i) & 3) == 0 ? 255 : ((mix64(sd * 7 + i) & 3) == 1 ? 0 : (uint8_t)(mix64(sd + i) >> 9)); break; // extremes
        case 6: { uint64_t m = mix64(sd + pi); v = (m & 1) ? (uint8_t)(mix64(sd + (m >> 1) % 200) >> (8 * (c % 8))) : (uint8_t)(mix64(sd) >> (8 * (c % 8))); break; } // background + noise
        }
        p[i] = v;
    }
}
// makes floating point data finite and in [0,1] (wide: also outside)
static inline void tame_floats(Src &s, Img &im, bool wide = false) {
    if (im.type == IL_FLOAT) {
        for (size_t i = 0; i + 4 <= im.data.size(); i += 4) {
            uint32_t u;
            memcpy(&u, &im.data[i], 4);
            float f = (u & 0xffffff) / (float)0xffffff;
            if (wide && (u >> 30) == 3) f = f * 40 - 8;
            memcpy(&im.data[i], &f, 4);
        }
    } else if (im.type == IL_DOUBLE) {
        for (size_t i = 0; i + 8 <= im.data.size(); i += 8) {
            uint64_t u;
            memcpy(&u, &im.data[i], 8);
            double f = (u & 0xffffffffffULL) / (double)0xffffffffffULL;
            if (wide && (u >> 62) == 3) f = f * 40 - 8;
            memcpy(&im.data[i], &f, 8);
        }
    } else if (im.type == IL_HALF) {
        for (size_t i = 0; i + 2 <= im.data.size(); i += 2) {
            uint16_t u;
            memcpy(&u, &im.data[i], 2);
            u = wide && (u & 7) == 7 ? (u & 0x8000) | (u & 0x7fff) % 0x5000 : (u & 0x7fff) % 0x3c01; // within [0,1]
            memcpy(&im.data[i], &u, 2);
        }
    }
}
static inline Img gen_img(Src &s, int w, int h, int d, ILenum format, ILenum type) {
    Img im;
    im.w = w;
    im.h = h;
    im.d = d;
    im.format = format;
    im.type = type;
    im.origin = s.flip() ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT;
    im.data.resize(im.size());
    if (!im.data.empty()) gen_bytes(s, &im.data[0], im.data.size(), im.px(), w);
    tame_floats(s, im);
    return im;
}
// an indexed image whose indices are all inside its palette
static inline Img gen_indexed(Src &s, int w, int h, int d, int ncol, ILenum paltype) {
    Img im = gen_img(s, w, h, d, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
    for (auto &b : im.data) b = (uint8_t)(b % ncol);
    im.paltype = paltype;
    im.pal.resize(ncol * pal_bpp(paltype));
    uint64_t sd = s.seed32();
    for (size_t i = 0; i < im.pal.size(); i++) im.pal[i] = (uint8_t)(mix64(sd + i) >> 5);
    return im;
}

// ------------------------------------------------------------------ to and from the library
// surface: keeps what is chained to the current image (ilTexImage drops it)
static inline void put_image(const Img &im, bool surface = false) {
    bool ok = (surface ? ilTexImageSurface : ilTexImage)(im.w, im.h, im.d, (ILubyte)im.nc(), im.format, im.type, (void *)(im.data.empty() ? nullptr : &im.data[0]));
    CHECK(ok, "teximage", "ilTexImage(%s) failed, error %04x", im.str().c_str(), ilGetError());
    ilRegisterOrigin(im.origin);
    if (im.paltype != IL_PAL_NONE) ilRegisterPal((void *)&im.pal[0], (ILuint)im.pal.size(), im.paltype);
}
static inline ILuint new_image(const Img &im) {
    ILuint id = ilGenImage();
    ilBindImage(id);
    put_image(im);
    return id;
}
// the invariants every image of the library has; reads every byte of its data and palette
static inline Img get_image(const char *when = "") {
    Img im;
    im.w = ilGetInteger(IL_IMAGE_WIDTH);
    im.h = ilGetInteger(IL_IMAGE_HEIGHT);
    im.d = ilGetInteger(IL_IMAGE_DEPTH);
    im.format = ilGetInteger(IL_IMAGE_FORMAT);
    im.type = ilGetInteger(IL_IMAGE_TYPE);
    im.origin = ilGetInteger(IL_IMAGE_ORIGIN);
    int bpp = ilGetInteger(IL_IMAGE_CHANNELS), bpc = ilGetInteger(IL_IMAGE_BPC), bytespp = ilGetInteger(IL_IMAGE_BYTES_PER_PIXEL),
        bits = ilGetInteger(IL_IMAGE_BITS_PER_PIXEL), plane = ilGetInteger(IL_IMAGE_PLANESIZE), sod = ilGetInteger(IL_IMAGE_SIZE_OF_DATA);
    CHECK(im.w > 0 && im.h > 0 && im.d > 0, "inv-dims", "%s: dimensions %dx%dx%d", when, im.w, im.h, im.d);
    CHECK(chans(im.format) > 0, "inv-format", "%s: format %04x", when, im.format);
    CHECK(tsize(im.type) > 0, "inv-type", "%s: type %04x", when, im.type);
    CHECK(im.origin == IL_ORIGIN_LOWER_LEFT || im.origin == IL_ORIGIN_UPPER_LEFT, "inv-origin", "%s: origin %04x", when, im.origin);
    CHECK(bpp == chans(im.format), "inv-channels", "%s: %d channels in a %s image", when, bpp, fmt_name(im.format));
    CHECK(bpc == tsize(im.type), "inv-bpc", "%s: %d bytes per channel in a %s image", when, bpc, type_name(im.type));
    CHECK(bytespp == bpp * bpc && bits == 8 * bpp * bpc, "inv-bpp", "%s: bytes per pixel %d bits %d", when, bytespp, bits);
    CHECK((uint64_t)(ILuint)plane == (uint64_t)im.w * im.h * bpp * bpc, "inv-plane", "%s: plane size %d for %s", when, plane, im.str().c_str());
    CHECK((uint64_t)(ILuint)sod == (uint64_t)im.w * im.h * im.d * bpp * bpc, "inv-size", "%s: data size %d for %s", when, sod, im.str().c_str());
    ILubyte *p = ilGetData();
    CHECK(p != nullptr, "inv-data", "%s: no data in %s", when, im.str().c_str());
    im.data.assign(p, p + im.size());
    im.paltype = ilGetInteger(IL_PALETTE_TYPE);
    if (im.paltype != IL_PAL_NONE) {
        int n = ilGetInteger(IL_PALETTE_NUM_COLS), b = pal_bpp(im.paltype);
        CHECK(b > 0, "inv-paltype", "%s: palette type %04x", when, im.paltype);
        CHECK(ilGetInteger(IL_PALETTE_BPP) == b, "inv-palbpp", "%s: palette bpp %d", when, ilGetInteger(IL_PALETTE_BPP));
        ILubyte *q = ilGetPalette();
        CHECK(n == 0 || q != nullptr, "inv-pal", "%s: no palette data", when);
        if (n > 0) im.pal.assign(q, q + (size_t)n * b);
    }
    return im;
}

static inline std::string hexbytes(const uint8_t *p, int n) {
    std::string o;
    for (int i = 0; i < n; i++) o += fmt("%02x", p[i]);
    return o;
}
// equality of the pictures (position by position from the top left), format and type
static inline void same_picture(const Img &want0, const Img &got0, const std::string &sig, const std::string &what) {
    Img want = upright(want0), got = upright(got0);
    CHECK(want.w == got.w && want.h == got.h && want.d == got.d, sig + "-dims", "%s: wanted %s, got %s", what.c_str(), want.str().c_str(), got.str().c_str());
    CHECK(want.format == got.format && want.type == got.type, sig + "-format", "%s: wanted %s, got %s", what.c_str(), want.str().c_str(), got.str().c_str());
    if (want.data != got.data)
        for (int z = 0; z < want.d; z++)
            for (int y = 0; y < want.h; y++)
                for (int x = 0; x < want.w; x++)
                    CHECK(!memcmp(want.at(x, y, z), got.at(x, y, z), want.px()), sig + "-pixels", "%s: %s, pixel (%d,%d,%d) is %s, wanted %s", what.c_str(),
                          want0.str().c_str(), x, y, z, hexbytes(got.at(x, y, z), got.px()).c_str(), hexbytes(want.at(x, y, z), want.px()).c_str());
}
// colours of an image as RGBA doubles (indexed images through their palette)
static inline std::vector<double> rgba_of(const Img &im, int x, int y, int z = 0) {
    const uint8_t *p = im.at(x, y, z);
    int ts = tsize(im.type);
    auto g = [&](int c) { return chan_get(p + c * ts, im.type); };
    switch (im.format) {
    case IL_RGB: return {g(0), g(1), g(2), 1};
    case IL_RGBA: return {g(0), g(1), g(2), g(3)};
    case IL_BGR: return {g(2), g(1), g(0), 1};
    case IL_BGRA: return {g(2), g(1), g(0), g(3)};
    case IL_LUMINANCE: return {g(0), g(0), g(0), 1};
    case IL_LUMINANCE_ALPHA: return {g(0), g(0), g(0), g(1)};
    case IL_ALPHA: return {0, 0, 0, g(0)};
    case IL_COLOUR_INDEX: {
        int b = pal_bpp(im.paltype);
        size_t o = (size_t)p[0] * b;
        if (!b || o + b > im.pal.size()) return {-1, -1, -1, -1};
        const uint8_t *q = &im.pal[o];
        double a = (im.paltype == IL_PAL_RGBA32 || im.paltype == IL_PAL_BGRA32) ? q[3] / 255.0 : 1.0;
        if (im.paltype == IL_PAL_RGB24 || im.paltype == IL_PAL_RGB32 || im.paltype == IL_PAL_RGBA32) return {q[0] / 255.0, q[1] / 255.0, q[2] / 255.0, a};
        return {q[2] / 255.0, q[1] / 255.0, q[0] / 255.0, a};
    }
    }
    return {0, 0, 0, 0};
}

static inline Bytes read_file(const std::string &p) {
    Bytes b;
    FILE *f = fopen(p.c_str(), "rb");
    if (!f) return b;
    fseek(f, 0, SEEK_END);
    long n = ftell(f);
    rewind(f);
    b.resize(n > 0 ? n : 0);
    if (n > 0 && fread(&b[0], 1, n, f) != (size_t)n) b.clear();
    fclose(f);
    return b;
}
static inline void write_file(const std::string &p, const Bytes &b) {
    FILE *f = fopen(p.c_str(), "wb");
    if (!f) return;
    if (!b.empty()) fwrite(&b[0], 1, b.size(), f);
    fclose(f);
}
// saves the current image of the library into memory; empty when it refuses
static inline Bytes save_mem(ILenum type, size_t room = 0) {
    if (!room) {
        size_t raw = (size_t)ilGetInteger(IL_IMAGE_SIZE_OF_DATA);
        room = raw * 12 + (1 << 16);
    }
    Bytes b(room);
    ILuint n = ilSaveL(type, &b[0], (ILuint)room);
    CHECK(n <= room, "save-overlong", "ilSaveL(%04x) reports %u bytes in a buffer of %zu", type, n, room);
    b.resize(n);
    return b;
}

// everything that hangs on an image: frames, faces, mipmaps and layers with their pictures and places
struct Part { std::string where; Img im; std::array<int, 3> meta; };
static inline std::vector<Part> dump_chain(ILuint id, const char *when = "", int max_frames = 6, int max_mips = 12) {
    std::vector<Part> v;
    auto add = [&](const std::string &w) { v.push_back({w, get_image(when), {ilGetInteger(IL_IMAGE_DURATION), ilGetInteger(IL_IMAGE_OFFX), ilGetInteger(IL_IMAGE_OFFY)}}); };
    ilBindImage(id);
    int frames = ilGetInteger(IL_NUM_IMAGES);
    for (int f = 0; f <= std::min(frames, max_frames); f++) {
        ilBindImage(id);
        if (!ilActiveImage(f)) continue;
        int layers = std::min<int>(ilGetInteger(IL_NUM_LAYERS), 4), faces = std::min<int>(ilGetInteger(IL_NUM_FACES), 6);
        for (int fc = 0; fc <= faces; fc++) {
            ilBindImage(id); ilActiveImage(f);
            if (fc && !ilActiveFace(fc)) continue;
            int mips = std::min<int>(ilGetInteger(IL_NUM_MIPMAPS), max_mips);
            for (int m = 0; m <= mips; m++) {
                ilBindImage(id); ilActiveImage(f);
                if (fc && !ilActiveFace(fc)) continue;
                if (m && !ilActiveMipmap(m)) continue;
                add(fmt("frame %d of %d, face %d, mipmap %d", f, frames, fc, m));
            }
        }
        for (int l = 1; l <= layers; l++) {
            ilBindImage(id); ilActiveImage(f);
            if (ilActiveLayer(l)) add(fmt("frame %d, layer %d of %d", f, l, layers));
        }
    }
    ilBindImage(id);
    return v;
}
// "" when both are the same
static inline std::string chain_diff(const std::vector<Part> &a, const std::vector<Part> &b) {
    for (size_t i = 0; i < std::max(a.size(), b.size()); i++) {
        if (i >= a.size() || i >= b.size()) return fmt("%zu and %zu pictures", a.size(), b.size());
        const Part &x = a[i], &y = b[i];
        if (x.where != y.where) return x.where + " and " + y.where;
        if (x.im.w != y.im.w || x.im.h != y.im.h || x.im.d != y.im.d || x.im.format != y.im.format || x.im.type != y.im.type || x.im.origin != y.im.origin || x.im.paltype != y.im.paltype)
            return x.where + " is " + x.im.str() + " and " + y.im.str();
        if (x.im.pal != y.im.pal) return x.where + " has different palettes";
        if (x.meta != y.meta) return x.where + fmt(" has duration and place %d %d %d and %d %d %d", x.meta[0], x.meta[1], x.meta[2], y.meta[0], y.meta[1], y.meta[2]);
        for (size_t k = 0; k < x.im.data.size(); k++)
            if (x.im.data[k] != y.im.data[k]) return x.where + " " + x.im.str() + fmt(" has bytes %02x and %02x at %zu of %zu", x.im.data[k], y.im.data[k], k, x.im.data.size());
    }
    return "";
}
