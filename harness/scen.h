// Scenarios: sequences of operations on up to four images, generated first and run afterwards (any number of times).
// Running one gives a log: what every call returned, the errors it left and what the images held then.
#pragma once
#include "iluh.h"
#include "seeds.h"

struct Sc {
    std::vector<ILuint> ids;     // images, 0: deleted
    int cur = -1;
    std::vector<std::string> log;
    bool quiet = false;          // no image checks after every step
    size_t failed = 0, ok = 0;   // calls that failed, and others
    std::string step;
    std::vector<uint32_t> first_err; // all errors seen, in order
    void bind(int k) { // every operation works on an image of its own scenario
        if (ids.empty()) ids.push_back(0);
        cur = k % (int)ids.size();
        if (!ids[cur]) ids[cur] = ilGenImage();
        ilBindImage(ids[cur]);
    }
    void ret(bool r) { (r ? ok : failed)++; log.push_back(step + (r ? ": yes" : ": no")); }
    void num(long long v) { log.push_back(step + fmt(": %lld", v)); }
    void bytes(const void *p, size_t n) {
        uint64_t h = 1469598103934665603ull;
        for (size_t i = 0; i < n; i++) h = (h ^ ((const uint8_t *)p)[i]) * 1099511628211ull;
        log.push_back(step + fmt(": %zu bytes, hash %016llx", n, (unsigned long long)h));
    }
    void file(const std::string &p) {
        Bytes b = read_file(p);
        bytes(b.data(), b.size());
        unlink(p.c_str());
    }
};
struct ScOp {
    std::string name;
    bool state = false; // sets something that later calls use
    std::function<void(Sc &)> run;
};

static const ILenum SC_F[] = {IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_ALPHA, IL_COLOUR_INDEX};
static const ILenum SC_T[] = {IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE, IL_BYTE, IL_SHORT, IL_INT};
static const ILenum SC_PAL[] = {IL_PAL_RGB24, IL_PAL_RGB32, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGR32, IL_PAL_BGRA32};

static inline Img sc_img(Src &s, int maxsize = 16) {
    int w = s.size(maxsize), h = s.size(maxsize), d = s.chance(1, 8) ? s.range(2, 3) : 1;
    if (s.chance(1, 4)) return gen_indexed(s, w, h, d, s.range(1, 256), SC_PAL[s.draw(6)]);
    return gen_img(s, w, h, d, SC_F[s.draw(7)], s.flip() ? IL_UNSIGNED_BYTE : SC_T[s.draw(8)]);
}
static inline void sc_put(Sc &c, const Img &m) {
    bool r = ilTexImage(m.w, m.h, m.d, (ILubyte)m.nc(), m.format, m.type, (void *)m.data.data());
    if (r) ilRegisterOrigin(m.origin);
    if (r && m.paltype != IL_PAL_NONE) ilRegisterPal((void *)m.pal.data(), (ILuint)m.pal.size(), m.paltype);
    c.ret(r);
}
struct ScOpts { bool files = true, states = true, noise = true; int kind = -1; };

static inline ScOp sc_op(Src &s, const ScOpts &o = ScOpts()) {
    ScOp op;
    int slot = s.range(0, 3), k;
    auto F = [&](const std::string &n, std::function<void(Sc &)> f) { op.name = n; op.run = f; };
    for (;;) {
        k = o.kind >= 0 ? o.kind : s.range(0, 17);
        if (o.kind >= 0) break;
        if (!o.states && (k == 13 || k == 14)) continue;
        if (!o.files && (k == 1 || k == 2 || k == 3)) continue;
        break;
    }
    switch (k) {
    case 0: {
        Img m = sc_img(s);
        bool fresh = o.kind == 0 || s.flip();
        F("new " + m.str(), [=](Sc &c) {
            if (fresh || c.ids.empty()) {
                if (c.ids.size() >= 4) { c.cur = slot; ilDeleteImages(1, &c.ids[slot]); c.ids[slot] = ilGenImage(); }
                else { c.ids.push_back(ilGenImage()); c.cur = (int)c.ids.size() - 1; }
            } else c.cur = slot % (int)c.ids.size();
            if (!c.ids[c.cur]) c.ids[c.cur] = ilGenImage();
            ilBindImage(c.ids[c.cur]);
            sc_put(c, m);
        });
        break;
    }
    case 1: case 2: { // load
        int t = (int)s.draw(ltypes().size());
        std::string how;
        Bytes b = gen_input(s, t, how);
        int via = s.range(0, 5);
        const LType &lt = ltypes()[t];
        F(fmt("load %s %s of %zu bytes, way %d", lt.name, how.c_str(), b.size(), via), [=](Sc &c) {
            c.bind(slot);
            std::string p = g_scratch + "/in." + lt.ext;
            if (via <= 2) c.ret(ilLoadL(via == 2 ? IL_TYPE_UNKNOWN : lt.type, b.data(), (ILuint)b.size()));
            else {
                write_file(p, b);
                if (via == 3) c.ret(ilLoad(lt.type, p.c_str()));
                else if (via == 4) c.ret(ilLoadImage(p.c_str()));
                else { c.num(ilDetermineType(p.c_str())); c.num(ilIsValid(lt.type, p.c_str())); }
                unlink(p.c_str());
            }
        });
        break;
    }
    case 3: { // save
        const SaveKind sk = s.chance(1, 10) ? SaveKind{IL_JASC_PAL, "pal"} : s.chance(1, 10) ? SaveKind{IL_RAW, "raw"} : s.chance(1, 12) ? SaveKind{IL_CHEAD, "h"} : save_kinds()[s.draw(save_kinds().size())];
        int via = s.range(0, 3), room = s.pick({0, 10, 100, 1000, 1 << 18});
        F(fmt("save %s way %d room %d", sk.ext, via, room), [=](Sc &c) {
            c.bind(slot);
            std::string p = g_scratch + "/out." + sk.ext;
            if (via == 0) c.ret(ilSaveImage(p.c_str()));
            else if (via == 1) c.ret(ilSave(sk.type, p.c_str()));
            else {
                Bytes b(room);
                ILuint n = ilSaveL(sk.type, via == 3 ? nullptr : b.data(), via == 3 ? 0 : room);
                c.num(n);
                if (n && via == 2) c.bytes(b.data(), std::min<size_t>(n, b.size()));
            }
            if (access(p.c_str(), F_OK) == 0) c.file(p);
        });
        break;
    }
    case 4: {
        ILenum f = SC_F[s.draw(8)], t = SC_T[s.draw(8)];
        if (s.flip()) t = IL_UNSIGNED_BYTE;
        if (s.chance(1, 5)) {
            ILenum p = SC_PAL[s.draw(6)];
            F(fmt("ilConvertPal %04x", p), [=](Sc &c) { c.bind(slot); c.ret(ilConvertPal(p)); });
        } else F(fmt("ilConvertImage %s %s", fmt_name(f), type_name(t)), [=](Sc &c) { c.bind(slot); c.ret(ilConvertImage(f, t)); });
        break;
    }
    case 5: { // geometry
        int q = s.range(0, 12), a = s.range(0, 20), b = s.range(0, 20), e = s.range(0, 3), g = s.range(0, 5), h = s.range(0, 5);
        float ang = s.chance(1, 3) ? s.range(-4, 4) * 90.0f : (float)s.range(-360, 360), sc = s.range(0, 40) / 16.0f;
        if (q >= 10) q = 5;
        F(fmt("geometry %d (%d %d %d %d %d %g %g)", q, a, b, e, g, h, ang, sc), [=](Sc &c) {
            c.bind(slot);
            switch (q) {
            case 0: c.ret(iluFlipImage()); break;
            case 1: c.ret(iluMirror()); break;
            case 2: c.ret(iluCrop(g, h, 0, a, b, 1)); break;
            case 3: c.ret(iluEnlargeCanvas(a + 8, b + 8, e)); break;
            case 4: c.ret(iluRotate(ang)); break;
            case 5: c.ret(iluScale(a, b, e ? 1 : 2)); break;
            case 6: c.ret(iluEnlargeImage(sc, sc, 1)); break;
            case 7: c.ret(iluWave(ang)); break;
            case 8: c.ret(iluBuildMipmaps()); break;
            default: c.ret(iluRotate3D(1, 0, 0, ang)); break;
            }
        });
        break;
    }
    case 6: { // colours
        int q = s.range(0, 20);
        float a = s.range(-64, 320) / 128.0f, b = s.range(0, 256) / 128.0f;
        int n = s.range(0, 3), r = s.range(0, 255), sd = s.range(0, 9999);
        if (q == 10 && !o.noise) q = 11;
        F(fmt("filter %d (%g %g %d %d)", q, a, b, n, r), [=](Sc &c) {
            c.bind(slot);
            ILint m[9] = {n, 1, -1, 2, r % 5, 0, -n, 1, 1};
            switch (q) {
            case 0: c.ret(iluNegative()); break;
            case 1: c.ret(iluInvertAlpha()); break;
            case 2: c.ret(iluSwapColours()); break;
            case 3: c.ret(iluBlurAvg(n)); break;
            case 4: c.ret(iluBlurGaussian(n)); break;
            case 5: c.ret(iluEmboss()); break;
            case 6: c.ret(iluEdgeDetectE()); break;
            case 7: c.ret(iluEdgeDetectP()); break;
            case 8: c.ret(iluEdgeDetectS()); break;
            case 9: c.ret(iluSharpen(a, n)); break;
            case 10: srand(sd); c.ret(iluNoisify(b / 2)); break;
            case 11: c.ret(iluPixelize(n + 1)); break;
            case 12: c.ret(iluScaleAlpha(b)); break;
            case 13: c.ret(iluScaleColours(a, b, 1)); break;
            case 14: c.ret(iluGammaCorrect(b)); break;
            case 15: c.ret(n ? iluSaturate1f(a) : iluSaturate4f(b, 0.5f, 0.25f, a)); break;
            case 16: c.ret(iluContrast(a)); break;
            case 17: c.ret(n ? iluAlienify() : iluSepia()); break;
            case 18: c.ret(n ? iluEqualize() : iluEqualize2()); break;
            case 19: c.ret(iluReplaceColour(r, n, 255 - r, a)); break;
            case 20: c.ret(iluConvolution(m, n, r)); break;
            }
        });
        break;
    }
    case 7: { // alpha and clearing
        int q = s.range(0, 4), t = (int)s.draw(8);
        double v = s.range(0, 256) / 256.0;
        F(fmt("alpha %d %g", q, v), [=](Sc &c) {
            c.bind(slot);
            switch (q) {
            case 0: c.ret(ilSetAlpha(v)); break;
            case 1: ilModAlpha(v); c.num(0); break;
            case 2: {
                ILubyte *a = ilGetAlpha(SC_T[t]);
                c.ret(a != nullptr);
                if (a) { c.bytes(a, (size_t)ilGetInteger(IL_IMAGE_WIDTH) * ilGetInteger(IL_IMAGE_HEIGHT) * ilGetInteger(IL_IMAGE_DEPTH) * tsize(SC_T[t])); mem::dealloc(a); }
                break;
            }
            case 3: c.ret(ilClearImage()); break;
            case 4: c.ret(ilClampNTSC()); break;
            }
        });
        break;
    }
    case 8: case 9: { // copies between images
        int q = s.range(0, 6), from = s.range(0, 3), v[9];
        for (int &x : v) x = s.range(-3, 14);
        std::array<int, 9> a;
        std::copy(v, v + 9, a.begin());
        F(fmt("copy %d from %d (%d %d %d %d %d %d)", q, from, a[0], a[1], a[2], a[3], a[4], a[5]), [=](Sc &c) {
            c.bind(slot);
            ILuint src = from == 3 && c.ids.size() < 3 ? 0x7fffff00 : c.ids[from % c.ids.size()];
            switch (q) {
            case 0: {
                ILuint n = ilCloneCurImage();
                c.ret(n != 0);
                if (!n) break;
                if (c.ids.size() < 4) { c.ids.push_back(n); c.cur = (int)c.ids.size() - 1; }
                else { ilDeleteImages(1, &c.ids[from]); c.ids[from] = n; c.cur = from; }
                ilBindImage(n);
                break;
            }
            case 1: c.ret(ilCopyImage(src)); break;
            case 2: c.ret(ilOverlayImage(src, a[0], a[1], 0)); break;
            case 3: case 4: c.ret(ilBlit(src, a[0], a[1], 0, abs(a[2]), abs(a[3]), 0, abs(a[4]), abs(a[5]), 1)); break;
            case 5: c.ret(ilDefaultImage()); break;
            case 6: c.num(iluCompareImage(src)); break;
            }
        });
        break;
    }
    case 10: { // parts of the image
        Img m = gen_img(s, s.size(8), s.size(8), 1, SC_F[s.draw(7)], SC_T[s.draw(8)]);
        int q = s.range(0, 1), x = s.range(-2, 8), y = s.range(-2, 8);
        F(fmt("%s pixels at %d %d, ", q ? "set" : "copy", x, y) + m.str(), [=](Sc &c) {
            c.bind(slot);
            if (q) { Bytes d = m.data; ilSetPixels(x, y, 0, m.w, m.h, 1, m.format, m.type, d.data()); c.num(0); }
            else {
                Bytes d(m.data.size());
                ILuint n = ilCopyPixels(x, y, 0, m.w, m.h, 1, m.format, m.type, d.data());
                c.ret(n != 0);
                c.bytes(d.data(), std::min<size_t>(n, d.size()));
            }
        });
        break;
    }
    case 11: { // sub images
        int q = s.range(0, 5), n = s.range(0, 3);
        ILenum kind = s.pick({IL_SUB_NEXT, IL_SUB_MIPMAP, IL_SUB_LAYER});
        Img m = sc_img(s, 6);
        F(fmt("sub %d %d", q, n), [=](Sc &c) {
            c.bind(slot);
            switch (q) {
            case 0: c.num(ilCreateSubImage(kind, n)); break;
            case 1: c.ret(ilActiveImage(n)); break;
            case 2: c.ret(ilActiveMipmap(n)); break;
            case 3: c.ret(ilActiveLayer(n)); break;
            case 4: c.ret(ilActiveFace(n)); break;
            case 5: // fill a sub image
                if (ilActiveImage(n) || ilActiveMipmap(n)) c.ret(ilTexImageSurface(m.w, m.h, m.d, (ILubyte)m.nc(), m.format, m.type, (void *)m.data.data()));
                break;
            }
        });
        break;
    }
    case 12: { // DXT
        int q = s.range(0, 8);
        ILenum f = s.pick({IL_DXT1, IL_DXT2, IL_DXT3, IL_DXT4, IL_DXT5, IL_3DC, IL_ATI1N, IL_RXGB, IL_DXT1A});
        int w = s.size(12), h = s.size(12);
        Bytes d((size_t)((w + 3) / 4) * ((h + 3) / 4) * 16);
        uint64_t sd = s.seed32();
        for (size_t i = 0; i < d.size(); i++) d[i] = (uint8_t)(mix64(sd + i) >> 9);
        F(fmt("dxt %d %04x %dx%d", q, f, w, h), [=](Sc &c) {
            c.bind(slot);
            switch (q) {
            case 0: { ILuint n = ilGetDXTCData(nullptr, 0, f); c.num(n); Bytes b(n); if (n) { n = ilGetDXTCData(b.data(), n, f); c.bytes(b.data(), std::min<size_t>(n, b.size())); } break; }
            case 1: c.ret(ilDxtcDataToSurface()); break;
            case 2: c.ret(ilSurfaceToDxtcData(f)); break;
            case 3: c.ret(ilDxtcDataToImage()); break;
            case 4: c.ret(ilImageToDxtcData(f)); break;
            case 5: ilFlipSurfaceDxtcData(); c.num(0); break;
            case 6: c.ret(ilInvertSurfaceDxtcDataAlpha()); break;
            case 7: c.ret(ilTexImageDxtc(w, h, 1, f, d.data())); break;
            case 8: {
                Bytes rgba((size_t)w * h * 4);
                for (size_t i = 0; i < rgba.size(); i++) rgba[i] = d[i % d.size()];
                ILuint n = 0;
                ILubyte *p = ilCompressDXT(rgba.data(), w, h, 1, f, &n);
                c.ret(p != nullptr);
                if (p) { c.bytes(p, n); mem::dealloc(p); }
                break;
            }
            }
        });
        break;
    }
    case 13: case 14: { // states
        op.state = true;
        int q = s.range(0, 13), n = s.range(0, 255), m = s.range(0, 9);
        bool b = s.flip();
        float col[4];
        for (float &x : col) x = s.range(0, 4) / 4.0f;
        std::string str(s.range(0, 20), 'a' + m);
        std::array<float, 4> cl = {col[0], col[1], col[2], col[3]};
        F(fmt("state %d %d %d %d", q, n, m, b), [=](Sc &c) {
            switch (q) {
            case 0: ilClearColour(cl[0], cl[1], cl[2], cl[3]); break;
            case 1: ilKeyColour(cl[0], cl[1], cl[2], cl[3]); break;
            case 2: { static const ILenum e[] = {IL_USE_KEY_COLOUR, IL_CONV_PAL, IL_ORIGIN_SET, IL_FORMAT_SET, IL_TYPE_SET, IL_SAVE_INTERLACED, IL_DEFAULT_ON_FAIL, IL_FILE_OVERWRITE, IL_NVIDIA_COMPRESS, IL_SQUISH_COMPRESS}; if (b) ilEnable(e[m]); else ilDisable(e[m]); break; }
            case 3: ilOriginFunc(b ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT); break;
            case 4: { static const ILenum e[] = {IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA}; ilFormatFunc(e[m % 6]); break; }
            case 5: ilTypeFunc(SC_T[m % 8]); break;
            case 6: ilSetInteger(b ? IL_TGA_RLE : IL_SGI_RLE, m & 1); break;
            case 7: { ILenum q = b ? IL_DXT1 : m & 1 ? IL_DXT3 : IL_DXT5; ilSetInteger(IL_DXTC_FORMAT, q); ilSetInteger(IL_VTF_COMP, m & 2 ? q : IL_DXT_NO_COMP); break; }
            case 8: ilSetInteger(b ? IL_QUANTIZATION_MODE : IL_MAX_QUANT_INDICES, b ? (m & 1 ? IL_NEU_QUANT : IL_WU_QUANT) : n + 1); break;
            case 9: { static const ILenum e[] = {IL_TGA_ID_STRING, IL_TGA_AUTHNAME_STRING, IL_TGA_AUTHCOMMENT_STRING, IL_PNG_AUTHNAME_STRING, IL_PNG_TITLE_STRING, IL_PNG_DESCRIPTION_STRING, IL_TIF_DESCRIPTION_STRING, IL_TIF_HOSTCOMPUTER_STRING, IL_TIF_DOCUMENTNAME_STRING, IL_TIF_AUTHNAME_STRING}; ilSetString(m == 9 && b ? (ILenum)IL_CHEAD_HEADER_STRING : e[m], str.c_str()); break; }
            case 10: if (b) ilPushAttrib(IL_ALL_ATTRIB_BITS); else ilPopAttrib(); break;
            case 11: iluImageParameter(ILU_FILTER, ILU_NEAREST + m % 9); break;
            case 12: { ILpointi p[3] = {{n % 8, 0}, {12, m}, {0, 10}}; iluRegioniv(p, b ? 3 : 0); break; }
            case 13: ilHint(b ? IL_MEM_SPEED_HINT : IL_COMPRESSION_HINT, m < 3 ? IL_FASTEST : m < 6 ? IL_LESS_MEM : IL_USE_COMPRESSION); ilSetInteger(IL_JPG_QUALITY, n % 100); ilSetInteger(IL_INTERLACE_MODE, 0); ilSetInteger(IL_NEU_QUANT_SAMPLE, 1 + m); break;
            }
        });
        break;
    }
    case 15: { // palettes and raw data
        int q = s.range(0, 6), n = s.range(0, 256), w = s.size(8), h = s.size(8), e = s.range(0, 255);
        ILenum pt = SC_PAL[s.draw(6)];
        Bytes d(n * pal_bpp(pt) + 1 + w * h * 4);
        uint64_t sd = s.seed32();
        for (size_t i = 0; i < d.size(); i++) d[i] = (uint8_t)(mix64(sd + i) >> 9);
        std::string txt = "JASC-PAL\n0100\n" + std::to_string(n) + "\n";
        int rows = s.chance(1, 4) ? s.range(0, n) : n;
        for (int i = 0; i < rows; i++) txt += fmt("%d %d %d\n", d[i * 3], d[i * 3 + 1], d[i * 3 + 2]);
        static const char *ext[] = {"pal", "act", "col", "plt", "lbm", "txt", "halo"};
        std::string pe = ext[s.draw(7)];
        bool jasc = s.flip();
        F(fmt("palette %d %d %04x .%s", q, n, pt, pe.c_str()), [=](Sc &c) {
            c.bind(slot);
            std::string p = g_scratch + "/p." + pe;
            switch (q) {
            case 0: if (n) ilRegisterPal((void *)d.data(), n * pal_bpp(pt), pt); c.num(0); break;
            case 1: c.ret(ilSavePal((g_scratch + "/p.pal").c_str())); if (access((g_scratch + "/p.pal").c_str(), F_OK) == 0) c.file(g_scratch + "/p.pal"); break;
            case 2: write_file(p, jasc ? Bytes(txt.begin(), txt.end()) : d); c.ret(ilLoadPal(p.c_str())); unlink(p.c_str()); break;
            case 3: write_file(p, jasc ? Bytes(txt.begin(), txt.end()) : d); c.ret(ilApplyPal(p.c_str())); unlink(p.c_str()); break;
            case 4: c.ret(ilLoadDataL((void *)d.data(), (ILuint)d.size(), w, h, 1, (ILubyte)(1 + e % 4))); break;
            case 5: c.ret(ilSaveData((g_scratch + "/r.raw").c_str())); if (access((g_scratch + "/r.raw").c_str(), F_OK) == 0) c.file(g_scratch + "/r.raw"); break;
            case 6: { Bytes full(ilGetInteger(IL_IMAGE_SIZE_OF_DATA)); for (size_t i = 0; i < full.size(); i++) full[i] = (uint8_t)(mix64(sd + i) >> 9); if (ilGetInteger(IL_IMAGE_FORMAT) != IL_COLOUR_INDEX && ilGetInteger(IL_IMAGE_TYPE) != IL_FLOAT && ilGetInteger(IL_IMAGE_TYPE) != IL_DOUBLE) c.ret(ilSetData(full.data())); break; }
            }
        });
        break;
    }
    case 16: { // meta data and queries
        int q = s.range(0, 5), n = s.range(0, 6);
        F(fmt("meta %d %d", q, n), [=](Sc &c) {
            c.bind(slot);
            switch (q) {
            case 0: c.num(iluColoursUsed()); break;
            case 1: { ILinfo i; memset(&i, 0, sizeof i); iluGetImageInfo(&i); c.num((long long)i.Width * i.Height * i.Depth + i.Bpp + i.SizeOfData + i.Format + i.Type + i.Origin + i.NumNext + i.NumMips + i.NumLayers + i.CubeFlags); break; }
            case 2: c.ret(ilSetDuration(n)); break;
            case 3: ilRegisterOrigin(n & 1 ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT); c.num(0); break;
            case 4: c.ret(ilRegisterNumImages(n)); break;
            case 5: c.num(ilIsImage(c.ids[n % c.ids.size()])); break;
            }
        });
        break;
    }
    case 17: { // deleting
        F("delete", [=](Sc &c) {
            if (c.ids.empty()) return;
            ILuint &id = c.ids[slot % c.ids.size()];
            if (id) ilDeleteImages(1, &id);
            id = 0;
            c.num(0);
        });
        break;
    }
    }
    return op;
}
// the errors left, and the picture now selected
static inline void sc_after(Sc &c, bool images) {
    std::string e;
    for (int i = 0; i < 40; i++) {
        ILenum x = ilGetError();
        if (x == IL_NO_ERROR) break;
        c.first_err.push_back(x);
        e += fmt(" %04x", x);
    }
    if (!e.empty()) c.log.push_back(c.step + ": errors" + e);
    if (!images) return;
    ILuint id = ilGetInteger(IL_CUR_IMAGE);
    if (!id) return;
    int slot = -1;
    for (size_t i = 0; i < c.ids.size(); i++) if (c.ids[i] == id) slot = (int)i;
    Img m = get_image(c.step.c_str());
    c.bytes(m.data.data(), m.data.size());
    c.bytes(m.pal.data(), m.pal.size());
    c.log.push_back(c.step + fmt(": image in slot %d is ", slot) + m.str() + fmt(" frames %d mipmaps %d layers %d faces %d duration %d at %d %d", ilGetInteger(IL_NUM_IMAGES), ilGetInteger(IL_NUM_MIPMAPS), ilGetInteger(IL_NUM_LAYERS), ilGetInteger(IL_NUM_FACES), ilGetInteger(IL_IMAGE_DURATION), ilGetInteger(IL_IMAGE_OFFX), ilGetInteger(IL_IMAGE_OFFY)));
    drain_errors();
}
static inline void sc_run(Sc &c, const std::vector<ScOp> &ops, bool images = true) {
    for (size_t i = 0; i < ops.size(); i++) {
        c.step = fmt("%zu ", i) + ops[i].name;
        ops[i].run(c);
        sc_after(c, images);
    }
}
// mostly starts with a picture or two
static inline std::vector<ScOp> sc_ops(Src &s, int most, ScOpts o = ScOpts()) {
    std::vector<ScOp> v;
    for (int i = s.pick({1, 1, 2, 3, 0}); i > 0; i--) {
        ScOpts f = o;
        f.kind = o.files && s.chance(1, 3) ? 1 : 0;
        v.push_back(sc_op(s, f));
    }
    for (int n = s.range(1, most); n > 0; n--) v.push_back(sc_op(s, o));
    return v;
}
static inline void sc_delete(Sc &c) {
    for (ILuint &id : c.ids) if (id) { ilDeleteImages(1, &id); id = 0; }
    ilBindImage(0);
    drain_errors();
}
