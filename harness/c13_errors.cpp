// C13: errors are queued in order, failing calls leave an error and change nothing, others leave none.
#include "scen.h"
#include <deque>

Spec spec() {
    Spec s;
    s.id = "C13";
    s.rule = "at least one call was refused and at least two errors were read back, or a sequence had both failing and working calls";
    s.quick_cases = 250000;
    s.thorough_cases = 2500000;
    s.batch = 128;
    s.cpu_limit = 20;
    s.min_frac = {{"queue longer than 32", 0.01}, {"refused", 0.3}, {"load failed", 0.05}, {"load worked", 0.05}};
    return s;
}

// A call that has to be refused.
struct Bad {
    std::string name;
    ILenum code = 0;               // the error that has to be pending on top, 0: any
    std::function<int()> run;      // 0: refused, 1: reported success, -1: says nothing
};
using V = std::vector<ILenum>;
static const V ABLE = {IL_ORIGIN_SET, IL_FORMAT_SET, IL_TYPE_SET, IL_FILE_OVERWRITE, IL_CONV_PAL, IL_DEFAULT_ON_FAIL, IL_USE_KEY_COLOUR, IL_BLIT_BLEND, IL_SAVE_INTERLACED, IL_JPG_PROGRESSIVE, IL_NVIDIA_COMPRESS, IL_SQUISH_COMPRESS};
static const V INTS = {IL_COMPRESS_MODE, IL_CUR_IMAGE, IL_FORMAT_MODE, IL_INTERLACE_MODE, IL_KEEP_DXTC_DATA, IL_ORIGIN_MODE, IL_MAX_QUANT_INDICES, IL_NEU_QUANT_SAMPLE, IL_QUANTIZATION_MODE, IL_TYPE_MODE, IL_VERSION_NUM, IL_ACTIVE_IMAGE, IL_ACTIVE_MIPMAP, IL_ACTIVE_LAYER, IL_ACTIVE_FACE, IL_BMP_RLE, IL_DXTC_FORMAT, IL_JPG_QUALITY, IL_JPG_SAVE_FORMAT, IL_PCD_PICNUM, IL_PNG_ALPHA_INDEX, IL_PNG_INTERLACE, IL_SGI_RLE, IL_TGA_CREATE_STAMP, IL_TGA_RLE, IL_VTF_COMP, IL_CONV_PAL, IL_DEFAULT_ON_FAIL, IL_FILE_MODE, IL_FORMAT_SET, IL_ORIGIN_SET, IL_TYPE_SET, IL_USE_KEY_COLOUR, IL_BLIT_BLEND, IL_JPG_PROGRESSIVE, IL_NVIDIA_COMPRESS, IL_SQUISH_COMPRESS,
    IL_DXTC_DATA_FORMAT, IL_PALETTE_SIZE, IL_IMAGE_BITS_PER_PIXEL, IL_IMAGE_BYTES_PER_PIXEL, IL_IMAGE_BPC, IL_IMAGE_CHANNELS, IL_IMAGE_CUBEFLAGS, IL_IMAGE_DEPTH, IL_IMAGE_DURATION, IL_IMAGE_FORMAT, IL_IMAGE_HEIGHT, IL_IMAGE_SIZE_OF_DATA, IL_IMAGE_OFFX, IL_IMAGE_OFFY, IL_IMAGE_ORIGIN, IL_IMAGE_PLANESIZE, IL_IMAGE_TYPE, IL_IMAGE_WIDTH, IL_NUM_FACES, IL_NUM_IMAGES, IL_NUM_LAYERS, IL_NUM_MIPMAPS, IL_PALETTE_TYPE, IL_PALETTE_BPP, IL_PALETTE_NUM_COLS, IL_PALETTE_BASE_TYPE};
static const V STRS = {IL_VENDOR, IL_VERSION_NUM, IL_LOAD_EXT, IL_SAVE_EXT, IL_TGA_ID_STRING, IL_TGA_AUTHNAME_STRING, IL_TGA_AUTHCOMMENT_STRING, IL_PNG_AUTHNAME_STRING, IL_PNG_TITLE_STRING, IL_PNG_DESCRIPTION_STRING, IL_TIF_DESCRIPTION_STRING, IL_TIF_HOSTCOMPUTER_STRING, IL_TIF_DOCUMENTNAME_STRING, IL_TIF_AUTHNAME_STRING, IL_CHEAD_HEADER_STRING};
static const V SINTS = {IL_FORMAT_MODE, IL_KEEP_DXTC_DATA, IL_MAX_QUANT_INDICES, IL_NEU_QUANT_SAMPLE, IL_ORIGIN_MODE, IL_QUANTIZATION_MODE, IL_TYPE_MODE, IL_IMAGE_DURATION, IL_IMAGE_OFFX, IL_IMAGE_OFFY, IL_IMAGE_CUBEFLAGS, IL_BMP_RLE, IL_DXTC_FORMAT, IL_JPG_SAVE_FORMAT, IL_JPG_QUALITY, IL_PNG_INTERLACE, IL_PCD_PICNUM, IL_PNG_ALPHA_INDEX, IL_SGI_RLE, IL_TGA_CREATE_STAMP, IL_TGA_RLE, IL_VTF_COMP};
static const V FORMATS = {IL_COLOUR_INDEX, IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_ALPHA};
static const V TYPES = {IL_BYTE, IL_UNSIGNED_BYTE, IL_SHORT, IL_UNSIGNED_SHORT, IL_INT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE};
static const V PALS = {IL_PAL_RGB24, IL_PAL_RGB32, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGR32, IL_PAL_BGRA32};
static const V DXTS = {IL_DXT1, IL_DXT2, IL_DXT3, IL_DXT4, IL_DXT5, IL_3DC, IL_RXGB, IL_ATI1N, IL_DXT1A};

static ILenum bad_enum(Src &s, const V &valid) {
    for (;;) {
        ILenum v;
        switch (s.range(0, 4)) {
        case 0: v = s.pick(valid) + s.range(-1, 1); break;
        case 1: v = s.range(0x0400, 0x0F10); break;
        case 2: v = s.pick({0u, 0xffffffffu, 1u, 0x80000000u}); break;
        case 3: v = s.pick(valid) ^ (1u << s.range(0, 31)); break;
        default: v = s.seed32(); break;
        }
        if (v != IL_HALF && std::find(valid.begin(), valid.end(), v) == valid.end()) return v; // IL_HALF: known to parts of the library only
    }
}
static int bad_int(Src &s, int lo, int hi) { // outside of lo..hi
    return s.flip() ? s.pick({lo - 1, lo - 2, lo - 1000, INT32_MIN}) : s.pick({hi + 1, hi + 2, hi + 1000, INT32_MAX});
}
static ILHANDLE ILAPIENTRY no_open(ILconst_string) { return nullptr; }
static ILenum ILAPIENTRY no_proc(ILconst_string) { return IL_FALSE; }
static const ILuint NOIMG = 0x7fff0000;

// Needs: image bound with the given properties
struct World { std::vector<ILuint> ids; bool indexed, dxt; int w, h, d, sub; };

static Bad gen_bad(Src &s, const World &wd) {
    Bad b;
    static const char *MISSING[] = {"missing.png", "missing.tga", "missing.jpg", "nowhere/x.bmp", "missing.dds", "missing.gif"};
    auto B = [&](const std::string &n, ILenum code, std::function<int()> f) { b.name = n; b.code = code; b.run = f; };
    std::string miss = g_scratch + "/" + MISSING[s.draw(6)], odd = g_scratch + "/file." + s.pick({std::string("qqq"), std::string("pngx"), std::string("xpng"), std::string("p"), std::string("t6a")}), bare = g_scratch + "/noextension";
    static Bytes *buf = new Bytes(1 << 16);
    ILubyte *d = buf->data();
    const LType &lt = s.pick(ltypes());
    const SaveKind sk = s.pick(save_kinds());
    std::string exist = g_scratch + "/exists." + sk.ext;
    switch (s.range(0, 63)) {
    case 0: { ILenum e = bad_enum(s, ABLE); B(fmt("ilEnable(%#x)", e), IL_INVALID_ENUM, [=] { return (int)ilEnable(e); }); break; }
    case 1: { ILenum e = bad_enum(s, ABLE); B(fmt("ilDisable(%#x)", e), IL_INVALID_ENUM, [=] { return (int)ilDisable(e); }); break; }
    case 2: { ILenum e = bad_enum(s, ABLE); B(fmt("ilIsEnabled(%#x)", e), IL_INVALID_ENUM, [=] { return (int)ilIsEnabled(e); }); break; }
    case 3: { ILenum e = bad_enum(s, ABLE); B(fmt("ilIsDisabled(%#x)", e), IL_INVALID_ENUM, [=] { ilIsDisabled(e); return -1; }); break; }
    case 4: { ILenum e = bad_enum(s, INTS); B(fmt("ilGetInteger(%#x)", e), IL_INVALID_ENUM, [=] { return (int)ilGetInteger(e); }); break; }
    case 5: { ILenum e = bad_enum(s, INTS); B(fmt("ilGetIntegerv(%#x)", e), IL_INVALID_ENUM, [=] { ILint v[4] = {-7, -7, -7, -7}; ilGetIntegerv(e, v); return -1; }); break; }
    case 6: { ILenum e = s.pick(INTS); B(fmt("ilGetIntegerv(%#x, NULL)", e), IL_INVALID_PARAM, [=] { ilGetIntegerv(e, nullptr); return -1; }); break; }
    case 7: { ILenum e = bad_enum(s, INTS); B(fmt("ilGetBoolean(%#x)", e), IL_INVALID_ENUM, [=] { return (int)ilGetBoolean(e); }); break; }
    case 8: { ILenum e = s.pick(INTS); B(fmt("ilGetBooleanv(%#x, NULL)", e), IL_INVALID_PARAM, [=] { ilGetBooleanv(e, nullptr); return -1; }); break; }
    case 9: { ILenum e = bad_enum(s, {IL_ORIGIN_LOWER_LEFT, IL_ORIGIN_UPPER_LEFT}); B(fmt("ilOriginFunc(%#x)", e), IL_INVALID_PARAM, [=] { return (int)ilOriginFunc(e); }); break; }
    case 10: { ILenum e = bad_enum(s, FORMATS); B(fmt("ilFormatFunc(%#x)", e), IL_INVALID_PARAM, [=] { return (int)ilFormatFunc(e); }); break; }
    case 11: { ILenum e = bad_enum(s, TYPES); B(fmt("ilTypeFunc(%#x)", e), IL_INVALID_PARAM, [=] { return (int)ilTypeFunc(e); }); break; }
    case 12: { ILenum e = bad_enum(s, {IL_COMPRESS_NONE, IL_COMPRESS_RLE, IL_COMPRESS_LZO, IL_COMPRESS_ZLIB}); B(fmt("ilCompressFunc(%#x)", e), IL_INVALID_PARAM, [=] { return (int)ilCompressFunc(e); }); break; }
    case 13: { ILenum e = bad_enum(s, {IL_MEM_SPEED_HINT, IL_COMPRESSION_HINT}); B(fmt("ilHint(%#x, ...)", e), IL_INVALID_ENUM, [=] { ilHint(e, IL_DONT_CARE); return -1; }); break; }
    case 14: { ILenum e = bad_enum(s, {IL_FASTEST, IL_LESS_MEM, IL_DONT_CARE}); B(fmt("ilHint(IL_MEM_SPEED_HINT, %#x)", e), IL_INVALID_ENUM, [=] { ilHint(IL_MEM_SPEED_HINT, e); return -1; }); break; }
    case 15: { ILenum e = bad_enum(s, {IL_USE_COMPRESSION, IL_NO_COMPRESSION, IL_DONT_CARE}); B(fmt("ilHint(IL_COMPRESSION_HINT, %#x)", e), IL_INVALID_ENUM, [=] { ilHint(IL_COMPRESSION_HINT, e); return -1; }); break; }
    case 16: { ILenum e = bad_enum(s, SINTS); int v = s.range(-2, 300); B(fmt("ilSetInteger(%#x, %d)", e, v), IL_INVALID_ENUM, [=] { ilSetInteger(e, v); return -1; }); break; }
    case 17: {
        struct R { ILenum e; int lo, hi; };
        static const R rs[] = {{IL_KEEP_DXTC_DATA, 0, 1}, {IL_MAX_QUANT_INDICES, 2, 256}, {IL_NEU_QUANT_SAMPLE, 1, 30}, {IL_BMP_RLE, 0, 1}, {IL_JPG_QUALITY, 0, 99}, {IL_PNG_INTERLACE, 0, 1}, {IL_PCD_PICNUM, 0, 2}, {IL_PNG_ALPHA_INDEX, -1, 255}, {IL_SGI_RLE, 0, 1}, {IL_TGA_CREATE_STAMP, 0, 1}, {IL_TGA_RLE, 0, 1}};
        const R &r = rs[s.draw(11)];
        int v = bad_int(s, r.lo, r.hi);
        B(fmt("ilSetInteger(%#x, %d)", r.e, v), IL_INVALID_PARAM, [=, e = r.e] { ilSetInteger(e, v); return -1; });
        break;
    }
    case 18: {
        struct R { ILenum e; V ok; };
        static const R rs[] = {{IL_QUANTIZATION_MODE, {IL_WU_QUANT, IL_NEU_QUANT}}, {IL_DXTC_FORMAT, DXTS}, {IL_JPG_SAVE_FORMAT, {IL_JFIF, IL_EXIF}}, {IL_VTF_COMP, {IL_DXT1, IL_DXT5, IL_DXT3, IL_DXT1A, IL_DXT_NO_COMP}}, {IL_FORMAT_MODE, FORMATS}, {IL_ORIGIN_MODE, {IL_ORIGIN_LOWER_LEFT, IL_ORIGIN_UPPER_LEFT}}, {IL_TYPE_MODE, TYPES}};
        const R &r = rs[s.draw(7)];
        ILenum v = bad_enum(s, r.ok);
        B(fmt("ilSetInteger(%#x, %#x)", r.e, v), IL_INVALID_PARAM, [=, e = r.e] { ilSetInteger(e, (ILint)v); return -1; });
        break;
    }
    case 19: { ILenum e = bad_enum(s, V(STRS.begin() + 4, STRS.end())); B(fmt("ilSetString(%#x)", e), IL_INVALID_ENUM, [=] { ilSetString(e, "text"); return -1; }); break; }
    case 20: { ILenum e = s.pick(V(STRS.begin() + 4, STRS.end())); B(fmt("ilSetString(%#x, NULL)", e), IL_INVALID_PARAM, [=] { ilSetString(e, nullptr); return -1; }); break; }
    case 21: { ILenum e = bad_enum(s, STRS); B(fmt("ilGetString(%#x)", e), IL_INVALID_ENUM, [=] { return (int)(ilGetString(e) != nullptr); }); break; }
    case 22: { ILenum f = bad_enum(s, FORMATS), t = s.pick(TYPES); B(fmt("ilConvertImage(%#x, %#x)", f, t), 0, [=] { return (int)ilConvertImage(f, t); }); break; }
    case 23: { ILenum f = s.pick(FORMATS), t = bad_enum(s, TYPES); B(fmt("ilConvertImage(%#x, %#x)", f, t), 0, [=] { return (int)ilConvertImage(f, t); }); break; }
    case 24: { ILenum p = bad_enum(s, PALS); if (!wd.indexed && s.flip()) p = s.pick(PALS); B(fmt("ilConvertPal(%#x)", p), 0, [=] { return (int)ilConvertPal(p); }); break; }
    case 25: B("ilLoad of a missing file", IL_COULD_NOT_OPEN_FILE, [=, t = s.pick({IL_TGA, IL_PNG, IL_BMP, IL_JPG, IL_DDS, IL_GIF, IL_PSD, IL_TIF})] { return (int)ilLoad(t, miss.c_str()); }); break;
    case 26: B("ilLoadImage of a missing file", IL_COULD_NOT_OPEN_FILE, [=] { return (int)ilLoadImage(miss.c_str()); }); break;
    case 27: { bool e = s.flip(); B(fmt("ilLoad(%s)", e ? "\"\"" : "NULL"), 0, [=] { return (int)ilLoad(lt.type, e ? "" : nullptr); }); break; }
    case 28: { bool e = s.flip(); B(fmt("ilLoadImage(%s)", e ? "\"\"" : "NULL"), 0, [=] { return (int)ilLoadImage(e ? "" : nullptr); }); break; }
    case 29: { bool e = s.flip(); int n = e ? 0 : s.range(0, 100); B(fmt("ilLoadL(%s, %d)", e ? "data" : "NULL", n), 0, [=] { return (int)ilLoadL(lt.type, e ? d : nullptr, n); }); break; }
    case 30: B("ilLoadF(NULL)", 0, [=] { return (int)ilLoadF(lt.type, nullptr); }); break;
    case 31: { V ok; for (auto &q : ltypes()) ok.push_back(q.type); ok.push_back(0);  ILenum e = bad_enum(s, ok); e = (e >= 0x410 && e <= 0x4a0) ? 0x9999 : e; B(fmt("ilLoadL(type %#x)", e), IL_INVALID_ENUM, [=] { return (int)ilLoadL(e, d, 100); }); break; }
    case 32: B("ilSave of an unknown type", 0, [=] { return (int)ilSave(0x9999, (g_scratch + "/new.png").c_str()); }); break;
    case 33: { int k = s.range(0, 3); std::string p = k == 0 ? odd : bare; B(k == 2 ? "ilSaveImage(NULL)" : k == 3 ? "ilSaveImage(\"\")" : "ilSaveImage(" + p.substr(g_scratch.size() + 1) + ")", 0, [=] { return (int)ilSaveImage(k == 2 ? nullptr : k == 3 ? "" : p.c_str()); }); break; }
    case 34: B("ilSave over an existing file, " + std::string(sk.ext), sk.type == IL_VTF || sk.type == IL_MNG ? 0 : IL_FILE_ALREADY_EXISTS, [=] { write_file(exist, Bytes(3, 'x')); ilDisable(IL_FILE_OVERWRITE); int r = ilSave(sk.type, exist.c_str()); bool same = read_file(exist) == Bytes(3, 'x'); unlink(exist.c_str()); CHECK(same, "overwritten", "%s: the existing file was changed", sk.ext); return r; }); break;
    case 35: B("ilSave into a missing directory, " + std::string(sk.ext), 0, [=] { return (int)ilSave(sk.type, (g_scratch + "/nowhere/x." + sk.ext).c_str()); }); break;
    case 36: { bool f = s.flip(); B(f ? "ilSaveF(NULL)" : "ilSave(NULL)", 0, [=] { return f ? (int)ilSaveF(sk.type, nullptr) : (int)ilSave(sk.type, nullptr); }); break; }
    case 37: { ILuint n = wd.sub == 1 ? 0 : 0; (void)n; ILuint k = s.pick({100u, 7u, 0xffffffffu}); int q = s.range(0, 3); B(fmt("ilActive%d(%u)", q, k), IL_ILLEGAL_OPERATION, [=] { return (int)(q == 0 ? ilActiveImage(k) : q == 1 ? ilActiveMipmap(k) : q == 2 ? ilActiveLayer(k) : ilActiveFace(k)); }); break; }
    case 38: { ILenum e = bad_enum(s, {IL_SUB_NEXT, IL_SUB_MIPMAP, IL_SUB_LAYER}); B(fmt("ilCreateSubImage(%#x)", e), IL_INVALID_ENUM, [=] { return (int)ilCreateSubImage(e, 1); }); break; }
    case 39: { int x = s.range(-3, 3); B("ilOverlayImage of a missing image", 0, [=] { return (int)ilOverlayImage(NOIMG, x, 0, 0); }); break; }
    case 40: B("ilBlit of a missing image", 0, [=] { return (int)ilBlit(NOIMG, 0, 0, 0, 0, 0, 0, 3, 3, 1); }); break;
    case 41: { bool q = s.flip(); B(q ? "ilCopyImage of a missing image" : "iluCompareImage with a missing image", 0, [=] { return (int)(q ? ilCopyImage(NOIMG) : iluCompareImage(NOIMG)); }); break; }
    case 42: { ILenum f = s.flip() ? s.pick(V{IL_RGB, IL_RGBA}) : bad_enum(s, FORMATS), t = bad_enum(s, TYPES); B(fmt("ilCopyPixels(%#x, %#x)", f, t), 0, [=] { return (int)ilCopyPixels(0, 0, 0, 1, 1, 1, f, t, d); }); break; }
    case 43: B("ilCopyPixels(NULL)", IL_INVALID_PARAM, [=] { return (int)ilCopyPixels(0, 0, 0, 1, 1, 1, IL_RGB, IL_UNSIGNED_BYTE, nullptr); }); break;
    case 44: B("ilSetPixels(NULL)", IL_INVALID_PARAM, [=] { ilSetPixels(0, 0, 0, 1, 1, 1, IL_RGB, IL_UNSIGNED_BYTE, nullptr); return -1; }); break;
    case 45: { ILenum f = bad_enum(s, FORMATS), t = s.pick(TYPES); B(fmt("ilSetPixels(%#x)", f), 0, [=] { ilSetPixels(0, 0, 0, 1, 1, 1, f, t, d); return -1; }); break; }
    case 46: { ILenum f = s.pick(FORMATS), t = bad_enum(s, TYPES); B(fmt("ilTexImage(%#x, %#x)", f, t), 0, [=] { return (int)ilTexImage(2, 2, 1, 3, f, t, d); }); break; }
    case 47: { int n = s.range(-3, 0), q = s.range(0, 1); B(fmt("ilCreateSubImage of no kind %d %d", n, q), 0, [=] { return (int)ilCreateSubImage(n ? 0x9998 : 0, q + 1); }); break; }
    case 48: { ILenum f = bad_enum(s, DXTS); B(fmt("ilTexImageDxtc(%#x)", f), 0, [=] { return (int)ilTexImageDxtc(4, 4, 1, f, d); }); break; }
    case 49: { int w = s.range(-2, 1), h = w == 1 ? s.range(-3, 0) : 4; B(fmt("ilTexImageDxtc(%dx%d)", w, h), 0, [=] { return (int)ilTexImageDxtc(w, h, 1, IL_DXT1, d); }); break; }
    case 50: { ILenum f = bad_enum(s, DXTS); B(fmt("ilGetDXTCData(%#x)", f), 0, [=, z = s.flip()] { return (int)ilGetDXTCData(z ? nullptr : d, 1 << 16, f); }); break; }
    case 51: { ILenum f = bad_enum(s, {IL_DXT1, IL_DXT3, IL_DXT5}); (void)f; int q = s.range(0, 2); B(fmt("ilCompressDXT %d", q), 0, [=] { ILuint n = 77; ILubyte *p = ilCompressDXT(q == 0 ? nullptr : d, q == 1 ? 0 : 4, 4, 1, q == 2 ? 0x9999 : IL_DXT1, &n); bool r = p != nullptr; if (p) mem::dealloc(p); return (int)r; }); break; }
    case 52: { int q = s.range(0, 2); if (wd.dxt) q = 3; ILenum f = bad_enum(s, DXTS); B(fmt("dxt call %d", q), 0, [=] { return (int)(q == 0 ? ilDxtcDataToSurface() : q == 1 ? ilDxtcDataToImage() : q == 2 ? ilInvertSurfaceDxtcDataAlpha() : ilSurfaceToDxtcData(f)); }); break; }
    case 53: { ILenum t = bad_enum(s, TYPES); B(fmt("ilGetAlpha(%#x)", t), 0, [=] { ILubyte *p = ilGetAlpha(t); bool r = p != nullptr; if (p) mem::dealloc(p); return (int)r; }); break; }
    case 54: { B("ilSetData(NULL)", IL_INVALID_PARAM, [=] { return (int)ilSetData(nullptr); }); break; }
    case 55: { int q = s.range(0, 3); B(q == 0 ? "ilPopAttrib" : "ilPushAttrib 40 times", IL_STACK_UNDERFLOW, [=] {
        if (!q) { ilPopAttrib(); return -1; }
        for (int i = 0; i < 40; i++) ilPushAttrib(IL_ALL_ATTRIB_BITS);
        ILenum e = ilGetError();
        CHECK(e == IL_STACK_OVERFLOW, "no-overflow", "the 40th ilPushAttrib left %04x", e);
        for (int i = 0; i < 40; i++) ilPopAttrib();
        return -1; }); break; }
    case 56: { int q = s.range(0, 3); B(fmt("register call %d", q), 0, [=] {
        if (q == 0) return (int)ilRegisterLoad(nullptr, no_proc);
        if (q == 1) return (int)ilRegisterSave(nullptr, no_proc);
        if (q == 2) return (int)ilRegisterLoad("qqz", nullptr);
        return (int)ilRegisterSave("qqz", nullptr); }); break; }
    case 57: { bool q = s.flip(); B(q ? "ilRemoveLoad of what was not registered" : "ilRemoveSave of what was not registered", 0, [=] { return q ? (int)ilRemoveLoad("qqy") : (int)ilRemoveSave("qqy"); }); break; }
    case 58: { int q = s.range(0, 2); ILenum e = bad_enum(s, q == 0 ? FORMATS : q == 1 ? TYPES : V{IL_ORIGIN_LOWER_LEFT, IL_ORIGIN_UPPER_LEFT}); B(fmt("ilRegister%s(%#x)", q == 0 ? "Format" : q == 1 ? "Type" : "Origin", e), 0, [=] { if (q == 0) ilRegisterFormat(e); else if (q == 1) ilRegisterType(e); else ilRegisterOrigin(e); return -1; }); break; }
    case 59: { int q = s.range(1, 2); ILenum e = bad_enum(s, PALS); B(fmt("ilRegisterPal %d", q), IL_INVALID_PARAM, [=] { ilRegisterPal(d, q == 1 ? 0 : 12, q == 2 ? e : IL_PAL_RGB24); return -1; }); break; }
    case 60: {
        int q = s.range(0, 12);
        ILenum e = bad_enum(s, {ILU_FILTER, ILU_PLACEMENT, ILU_VERSION_NUM});
        ILenum v = bad_enum(s, {ILU_NEAREST, ILU_LINEAR, ILU_BILINEAR, ILU_SCALE_BOX, ILU_SCALE_TRIANGLE, ILU_SCALE_BELL, ILU_SCALE_BSPLINE, ILU_SCALE_LANCZOS3, ILU_SCALE_MITCHELL, ILU_LOWER_LEFT, ILU_LOWER_RIGHT, ILU_UPPER_LEFT, ILU_UPPER_RIGHT, ILU_CENTER});
        ILenum l = bad_enum(s, {ILU_ENGLISH, ILU_ARABIC, ILU_DUTCH, ILU_FRENCH, ILU_JAPANESE, ILU_SPANISH, ILU_GERMAN, ILU_ITALIAN});
        static const char *n[] = {"iluImageParameter(bad name)", "iluImageParameter(bad filter)", "iluImageParameter(bad placement)", "iluGetInteger", "iluGetString", "iluSetLanguage", "iluGetImageInfo(NULL)", "iluLoadImage(missing)", "iluEnlargeImage(-1)", "iluConvolution(NULL)", "iluRegioniv of two points", "iluRegionfv of two points", "iluGetIntegerv(NULL)"};
        B(fmt("%s %#x %#x %#x", n[q], e, v, l), 0, [=] {
            switch (q) {
            case 0: iluImageParameter(e, ILU_LINEAR); return -1;
            case 1: iluImageParameter(ILU_FILTER, v); return -1;
            case 2: iluImageParameter(ILU_PLACEMENT, v); return -1;
            case 3: return (int)iluGetInteger(e);
            case 4: return (int)(iluGetString(e) != nullptr);
            case 5: return (int)iluSetLanguage(l);
            case 6: iluGetImageInfo(nullptr); return -1;
            case 7: return (int)(iluLoadImage(miss.c_str()) != 0);
            case 8: return (int)iluEnlargeImage(-1, 1, 1);
            case 9: return (int)iluConvolution(nullptr, 1, 0);
            case 10: { ILpointi pt[2] = {{0, 0}, {3, 3}}; iluRegioniv(pt, 1 + (v & 1)); return -1; }
            case 11: { ILpointf pt[2] = {{0, 0}, {3, 3}}; iluRegionfv(pt, 1 + (v & 1)); return -1; }
            default: iluGetIntegerv(ILU_FILTER, nullptr); return -1;
            }
        });
        break;
    }
    case 61: { int q = s.range(0, 3); int x = s.range(0, 30); B(fmt("iluCrop/Canvas outside %d", q), 0, [=] { return (int)(q == 0 ? iluCrop(wd.w + x, 0, 0, 1, 1, 1) : q == 1 ? iluCrop(0, wd.h + x, 0, 1, 1, 1) : q == 2 ? iluCrop(0, 0, wd.d + x, 1, 1, 1) : iluCrop(0, 0, 0, wd.w + 1 + x, wd.h, wd.d)); }); break; }
    case 62: { int q = s.range(0, 4); B(fmt("palette file %d", q), 0, [=] { return (int)(q == 0 ? ilLoadPal((g_scratch + "/missing.pal").c_str()) : q == 1 ? ilLoadPal(nullptr) : q == 2 ? ilSavePal(nullptr) : q == 3 ? ilSavePal((g_scratch + "/x.qqq").c_str()) : ilApplyPal((g_scratch + "/missing.pal").c_str())); }); break; }
    case 63: { int q = s.range(0, 4); B(fmt("raw data %d", q), 0, [=] { return (int)(q == 0 ? ilLoadData((g_scratch + "/missing.raw").c_str(), 2, 2, 1, 3) : q == 1 ? ilLoadData(nullptr, 2, 2, 1, 3) : q <= 3 ? ilLoadDataL(nullptr, 100, 2, 2, 1, 3) : ilApplyProfile(nullptr, nullptr)); }); break; }
    }
    return b;
}

// Everything a refused call must leave alone.
struct Snap { std::vector<long long> sel; std::vector<Img> im; std::vector<long long> st; };
static Snap snap(const World &wd) {
    Snap r;
    for (ILenum e : {IL_CUR_IMAGE, IL_ACTIVE_IMAGE, IL_ACTIVE_MIPMAP, IL_ACTIVE_LAYER, IL_ACTIVE_FACE, IL_NUM_IMAGES, IL_NUM_MIPMAPS, IL_NUM_LAYERS, IL_NUM_FACES}) r.sel.push_back(ilGetInteger(e));
    ILuint cur = ilGetInteger(IL_CUR_IMAGE), act = ilGetInteger(IL_ACTIVE_IMAGE);
    r.im.push_back(get_image("selected"));
    for (ILuint id : wd.ids) {
        if (!ilIsImage(id)) { r.st.push_back(-1); continue; }
        ilBindImage(id);
        r.im.push_back(get_image("image"));
        r.st.push_back(ilGetInteger(IL_DXTC_DATA_FORMAT));
        r.st.push_back(ilGetInteger(IL_IMAGE_DURATION));
    }
    ilBindImage(cur);
    if (act) ilActiveImage(act);
    for (ILenum e : {IL_COMPRESS_MODE, IL_FORMAT_MODE, IL_INTERLACE_MODE, IL_KEEP_DXTC_DATA, IL_ORIGIN_MODE, IL_MAX_QUANT_INDICES, IL_NEU_QUANT_SAMPLE, IL_QUANTIZATION_MODE, IL_TYPE_MODE, IL_BMP_RLE, IL_DXTC_FORMAT, IL_JPG_QUALITY, IL_JPG_SAVE_FORMAT, IL_PCD_PICNUM, IL_PNG_ALPHA_INDEX, IL_PNG_INTERLACE, IL_SGI_RLE, IL_TGA_CREATE_STAMP, IL_TGA_RLE, IL_VTF_COMP}) r.st.push_back(ilGetInteger(e));
    for (ILenum e : ABLE) if (e != IL_FILE_OVERWRITE) r.st.push_back(ilIsEnabled(e));
    r.st.push_back(iluGetInteger(ILU_FILTER));
    return r;
}
static std::vector<ILenum> drain() {
    std::vector<ILenum> v;
    for (;;) {
        ILenum e = ilGetError();
        if (e == IL_NO_ERROR) return v;
        v.push_back(e);
        CHECK(v.size() <= 32, "endless", "more than 32 errors pending");
    }
}
static std::string codes(const std::vector<ILenum> &v) { std::string r; for (ILenum e : v) r += fmt(" %04x", e); return r; }

static World make_world(Src &s, Ctx &c) {
    World wd{};
    int n = s.range(1, 2);
    for (int i = 0; i < n; i++) {
        Img m = sc_img(s, 8);
        wd.ids.push_back(new_image(m));
        if (i == n - 1) { wd.indexed = m.format == IL_COLOUR_INDEX; wd.w = m.w; wd.h = m.h; wd.d = m.d; c.say(m.str()); }
    }
    if (s.chance(1, 4)) {
        ilCreateSubImage(IL_SUB_NEXT, 2);
        wd.sub = 1;
        if (s.flip()) {
            ilActiveImage(1);
            Img m = sc_img(s, 5);
            sc_put(*new Sc, m);
            wd.indexed = m.format == IL_COLOUR_INDEX; wd.w = m.w; wd.h = m.h; wd.d = m.d;
            c.say("second picture selected: " + m.str());
        }
    }
    drain_errors();
    return wd;
}
// Refused calls, one after the other, each of which must leave an error and nothing else
static void refused(Src &s, Ctx &c) {
    World wd = make_world(s, c);
    int n = s.range(1, 8);
    for (int i = 0; i < n; i++) {
        Bad b = gen_bad(s, wd);
        c.say(b.name);
        std::string sig = b.name.substr(0, b.name.find_first_of("(0123456789"));
        Snap s0 = snap(wd);
        drain_errors();
        int r = b.run();
        std::vector<ILenum> e = drain();
        CHECK(r <= 0, "accepted " + sig, "%s reported success (%d), errors:%s", b.name.c_str(), r, codes(e).c_str());
        CHECK(!e.empty(), "silent " + sig, "%s was refused without an error", b.name.c_str());
        if (b.code) CHECK(e[0] == b.code, "code " + sig, "%s left%s instead of %04x", b.name.c_str(), codes(e).c_str(), b.code);
        for (ILenum k : e) CHECK(iluErrorString(k) && *iluErrorString(k), "string", "no text for %04x", k);
        Snap s1 = snap(wd);
        CHECK(s0.sel == s1.sel, "selection " + sig, "%s changed the selection", b.name.c_str());
        CHECK(s0.st == s1.st, "settings " + sig, "%s changed a setting or image attribute", b.name.c_str());
        CHECK(s0.im.size() == s1.im.size(), "images " + sig, "%s changed the images", b.name.c_str());
        for (size_t k = 0; k < s0.im.size(); k++) {
            const Img &x = s0.im[k], &y = s1.im[k];
            CHECK(x.str() == y.str() && x.data == y.data && x.pal == y.pal && x.origin == y.origin, "picture " + sig, "%s changed an image from %s to %s", b.name.c_str(), x.str().c_str(), y.str().c_str());
        }
        drain_errors();
        c.nontriv = true;
        c.note("refused");
        if (getenv("CODES")) c.note(("code " + sig + codes(e)).c_str());
    }
}
// The queue itself, against a list of the most recent 32
static void queue(Src &s, Ctx &c) {
    std::deque<ILenum> model;
    World wd = make_world(s, c);
    Img small = gen_img(s, 3, 2, 1, IL_RGB, IL_UNSIGNED_BYTE);
    ILuint id = new_image(small);
    CHECK(drain().empty(), "late", "errors while making an image");
    Bytes file(100000);
    ILuint fn = ilSaveL(IL_TGA, file.data(), (ILuint)file.size());
    int n = s.range(2, s.chance(2, 3) ? 120 : 40);
    int pops = s.range(0, 3);
    std::string trace;
    bool over = false;
    size_t reads = 0;
    for (int i = 0; i < n; i++) {
        int k = s.range(0, 9 + pops);
        if (k <= 6) {
            ILenum code = 0;
            switch (k) {
            case 0: code = IL_INVALID_ENUM; ilEnable(bad_enum(s, ABLE)); break;
            case 1: code = IL_INVALID_PARAM; ilSetInteger(IL_JPG_QUALITY, bad_int(s, 0, 99)); break;
            case 2: code = IL_COULD_NOT_OPEN_FILE; ilLoad(s.pick({IL_TGA, IL_PNG, IL_BMP}), (g_scratch + "/missing.x").c_str()); break;
            case 3: code = IL_STACK_UNDERFLOW; ilPopAttrib(); break;
            case 4: code = IL_ILLEGAL_OPERATION; ilActiveImage(5); break;
            case 5: { code = IL_FILE_ALREADY_EXISTS; std::string p = g_scratch + "/e.tga"; write_file(p, Bytes(2, 'q')); ilSave(IL_TGA, p.c_str()); unlink(p.c_str()); break; }
            case 6: code = IL_INVALID_ENUM; ilGetInteger(bad_enum(s, INTS)); break;
            }
            trace += fmt(" +%x", code & 0xff);
            model.push_front(code);
            if (model.size() > 32) { model.pop_back(); over = true; }
        } else if (k <= 9) {
            int q = s.range(0, 14);
            bool ok = true;
            switch (q) {
            case 0: ok = ilEnable(IL_CONV_PAL) && ilDisable(IL_CONV_PAL); break;
            case 1: ilGetInteger(s.pick(INTS)); break;
            case 2: put_image(small); break;
            case 3: ilBindImage(id); ok = ilConvertImage(s.pick({IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE}), s.pick(TYPES)); break;
            case 4: ok = ilLoadL(IL_TGA, file.data(), fn); break;
            case 5: ok = iluFlipImage(); break;
            case 6: { Bytes d(64); ok = ilCopyPixels(0, 0, 0, 1, 1, 1, IL_RGBA, IL_UNSIGNED_BYTE, d.data()) != 0; break; }
            case 7: ilPushAttrib(IL_ALL_ATTRIB_BITS); ilPopAttrib(); break;
            case 8: { ILuint t = ilGenImage(); ilBindImage(t); ilBindImage(id); ilDeleteImages(1, &t); break; }
            case 10: { struct R { ILenum e; int lo, hi; }; static const R rs[] = {{IL_KEEP_DXTC_DATA, 0, 1}, {IL_MAX_QUANT_INDICES, 2, 256}, {IL_NEU_QUANT_SAMPLE, 1, 30}, {IL_BMP_RLE, 0, 1}, {IL_JPG_QUALITY, 0, 99}, {IL_PNG_INTERLACE, 0, 1}, {IL_PCD_PICNUM, 0, 2}, {IL_PNG_ALPHA_INDEX, -1, 255}, {IL_SGI_RLE, 0, 1}, {IL_TGA_CREATE_STAMP, 0, 1}, {IL_TGA_RLE, 0, 1}, {IL_IMAGE_DURATION, 0, 1000}, {IL_IMAGE_OFFX, 0, 100}, {IL_IMAGE_OFFY, 0, 100}};
                const R &r = rs[s.draw(14)];
                int v = s.chance(1, 3) ? r.lo : s.flip() ? r.hi : s.range(r.lo, r.hi);
                ilSetInteger(r.e, v);
                break; }
            case 11: { ILenum e = s.pick(ABLE); if (e != IL_FILE_OVERWRITE) { ok = ilEnable(e); ilIsEnabled(e); ilIsDisabled(e); ok = ok && ilDisable(e); } break; }
            case 12: ilSetString(s.pick(V(STRS.begin() + 4, STRS.end())), s.flip() ? "" : "text"); break;
            case 13: iluImageParameter(ILU_FILTER, s.pick({ILU_NEAREST, ILU_LINEAR, ILU_BILINEAR, ILU_SCALE_BOX, ILU_SCALE_TRIANGLE, ILU_SCALE_BELL, ILU_SCALE_BSPLINE, ILU_SCALE_LANCZOS3, ILU_SCALE_MITCHELL})); iluGetInteger(ILU_FILTER); break;
            case 14: ilHint(IL_MEM_SPEED_HINT, s.pick({IL_FASTEST, IL_LESS_MEM, IL_DONT_CARE})); ilHint(IL_COMPRESSION_HINT, s.pick({IL_USE_COMPRESSION, IL_NO_COMPRESSION, IL_DONT_CARE})); break;
            case 9: ilGetString(s.pick(STRS)); iluErrorString(IL_INVALID_ENUM); break;
            }
            trace += fmt(" ok%d", q);
            c.note(fmt("valid %d", q).c_str());
            CHECK(ok, "refused-valid", "a valid call (%d) was refused with pending errors:%s", q, trace.c_str());
        } else {
            int m = s.range(1, 6);
            for (int j = 0; j < m; j++) {
                ILenum want = model.empty() ? IL_NO_ERROR : model.front(), got = ilGetError();
                if (!model.empty()) { model.pop_front(); reads++; }
                trace += fmt(" -%x", got & 0xff);
                CHECK(got == want, "order", "ilGetError returned %04x instead of %04x after%s", got, want, trace.c_str());
            }
        }
    }
    while (!model.empty()) {
        ILenum got = ilGetError();
        CHECK(got == model.front(), "order", "ilGetError returned %04x instead of %04x after%s (at the end)", got, model.front(), trace.c_str());
        model.pop_front();
        reads++;
    }
    ILenum got = ilGetError();
    CHECK(got == IL_NO_ERROR, "not-empty", "ilGetError returned %04x with nothing pending after%s", got, trace.c_str());
    c.say(trace);
    if (over) c.note("queue longer than 32");
    if (reads > 1) c.nontriv = true;
}
// Any sequence of calls: those that fail leave an error, those that work leave none
static void sequence(Src &s, Ctx &c) {
    Sc sc;
    std::vector<ScOp> ops = sc_ops(s, 12);
    size_t bad = 0, good = 0;
    for (size_t i = 0; i < ops.size(); i++) {
        c.say(ops[i].name);
        sc.step = fmt("%zu ", i) + ops[i].name;
        drain_errors();
        size_t f0 = sc.failed, o0 = sc.ok;
        ops[i].run(sc);
        size_t f1 = sc.failed - f0, o1 = sc.ok - o0;
        std::vector<ILenum> e = drain();
        std::string sig = ops[i].name.substr(0, ops[i].name.find_first_of("(%"));
        if (sig.find("new ") == 0) sig = "new";
        if (sig.find(" of ") != std::string::npos) sig = sig.substr(0, sig.find(" of "));
        if (ops[i].name.find("sub 5") == 0) continue; // tries several selections
        if (f1 && !o1) { bad++; CHECK(!e.empty(), "silent " + sig, "%s failed without an error", ops[i].name.c_str()); }
        if (o1 && !f1) { good++; CHECK(e.empty(), "noisy " + sig, "%s worked, but left%s", ops[i].name.c_str(), codes(e).c_str()); }
        for (ILenum k : e) CHECK(iluErrorString(k) && *iluErrorString(k), "string", "no text for %04x", k);
    }
    sc_delete(sc);
    if (bad && good) c.nontriv = true;
}
// Loads of all kinds of files
static void loads(Src &s, Ctx &c) {
    int t = (int)s.draw(ltypes().size());
    const LType &lt = ltypes()[t];
    std::string how;
    Bytes b = gen_input(s, t, how);
    int via = s.range(0, 4);
    c.say(fmt("load %s %s of %zu bytes, way %d", lt.name, how.c_str(), b.size(), via));
    ILuint id = ilGenImage();
    ilBindImage(id);
    std::string p = g_scratch + "/in." + lt.ext;
    if (via >= 3) write_file(p, b);
    bool ok = via <= 1 ? ilLoadL(lt.type, b.data(), (ILuint)b.size()) : via == 2 ? ilLoadL(IL_TYPE_UNKNOWN, b.data(), (ILuint)b.size()) : via == 3 ? ilLoad(lt.type, p.c_str()) : ilLoadImage(p.c_str());
    std::vector<ILenum> e = drain();
    if (via >= 3) unlink(p.c_str());
    if (ok) CHECK(e.empty(), std::string("noisy load ") + lt.name, "the load worked, but left%s", codes(e).c_str());
    else CHECK(!e.empty(), std::string("silent load ") + lt.name, "the load failed without an error");
    for (ILenum k : e) CHECK(iluErrorString(k) && *iluErrorString(k), "string", "no text for %04x", k);
    CHECK((ILuint)ilGetInteger(IL_CUR_IMAGE) == id, "bound", "the load bound another image");
    c.nontriv = !ok;
    c.note(ok ? "load worked" : "load failed");
    // palette files
    static const char *PX[] = {"pal", "act", "col", "plt", "map", "hal", "mp"};
    std::string q = g_scratch + "/p." + PX[s.draw(7)];
    Bytes d(s.pick({0, 1, 5, 17, 40, 255, 256, 768, 769, 776, 1024, 1028, 2000}));
    uint64_t sd = s.seed32();
    for (size_t i = 0; i < d.size(); i++) d[i] = (uint8_t)(mix64(sd + i) >> 9);
    static const std::string heads[] = {"JASC-PAL\n0100\n2\n1 2 3\n4 5 6\n", "JASC-PAL\n0100\n300\n1 2 3\n", "JASC-PAL\n0200\n", "JASC-PAL\r\n0100\r\n3\r\n", "AH"};
    if (s.flip()) { const std::string &h = s.pick({heads[0], heads[1], heads[2], heads[3], heads[4]}); d.insert(d.begin(), h.begin(), h.end()); }
    write_file(q, d);
    ok = ilLoadPal(q.c_str());
    e = drain();
    unlink(q.c_str());
    if (ok) CHECK(e.empty(), "noisy palette", "%s: the palette was loaded, but left%s", q.c_str(), codes(e).c_str());
    else CHECK(!e.empty(), "silent palette", "%s: the palette failed without an error", q.c_str());
    c.note(ok ? "palette worked" : "palette failed");
}
void one_case(Src &s, Ctx &c) {
    il_fresh();
    mem::cap = 4u << 20; // no huge images
    int k = s.range(0, 15);
    if (k >= 10) { c.note("loads"); loads(s, c); }
    else if (k < 5) { c.note("refusals"); refused(s, c); }
    else if (k < 7) { c.note("queue"); queue(s, c); }
    else { c.note("sequence"); sequence(s, c); }
}
