// Starting files for the loaders: what fuzzing found (harness/seeds/<TYPE>.bin), what the encoders of filegen.h write,
// what the library itself saves; and the mutations applied to them.
#pragma once
#include "filegen.h"

struct LType { const char *name; ILenum type; const char *ext; };
static inline const std::vector<LType> &ltypes() {
    static const std::vector<LType> v = {
        {"BMP", IL_BMP, "bmp"}, {"CUT", IL_CUT, "cut"}, {"DOOM", IL_DOOM, "lmp"}, {"ICO", IL_ICO, "ico"}, {"JPG", IL_JPG, "jpg"}, {"ILBM", IL_ILBM, "lbm"},
        {"PCD", IL_PCD, "pcd"}, {"PCX", IL_PCX, "pcx"}, {"PIC", IL_PIC, "pic"}, {"PNG", IL_PNG, "png"}, {"PNM", IL_PNM, "ppm"}, {"SGI", IL_SGI, "sgi"},
        {"TGA", IL_TGA, "tga"}, {"TIF", IL_TIF, "tif"}, {"MDL", IL_MDL, "mdl"}, {"WAL", IL_WAL, "wal"}, {"LIF", IL_LIF, "lif"}, {"MNG", IL_MNG, "mng"},
        {"GIF", IL_GIF, "gif"}, {"DDS", IL_DDS, "dds"}, {"DCX", IL_DCX, "dcx"}, {"PSD", IL_PSD, "psd"}, {"EXIF", IL_EXIF, "exif"}, {"PSP", IL_PSP, "psp"},
        {"PIX", IL_PIX, "pix"}, {"PXR", IL_PXR, "pxr"}, {"XPM", IL_XPM, "xpm"}, {"HDR", IL_HDR, "hdr"}, {"ICNS", IL_ICNS, "icns"}, {"VTF", IL_VTF, "vtf"},
        {"WBMP", IL_WBMP, "wbmp"}, {"SUN", IL_SUN, "sun"}, {"IFF", IL_IFF, "iff"}, {"TPL", IL_TPL, "tpl"}, {"FITS", IL_FITS, "fits"}, {"DICOM", IL_DICOM, "dcm"},
        {"IWI", IL_IWI, "iwi"}, {"BLP", IL_BLP, "blp"}, {"FTX", IL_FTX, "ftx"}, {"ROT", IL_ROT, "rot"}, {"TEXTURE", IL_TEXTURE, "texture"}, {"DPX", IL_DPX, "dpx"},
        {"UTX", IL_UTX, "utx"}, {"MP3", IL_MP3, "mp3"}, {"KTX", IL_KTX, "ktx"}, {"SCITEX", IL_SCITEX, "ct"}};
    return v;
}
static inline const LType *ltype_of(ILenum t) {
    for (auto &l : ltypes()) if (l.type == t) return &l;
    return nullptr;
}

struct Seeds {
    struct Item { int type; uint32_t off, len; }; // type: index in ltypes()
    std::vector<Bytes> pack;              // one per type
    std::vector<Item> all;
    std::vector<std::vector<int>> of;     // per type: indices in all
    Bytes get(int i) const {
        const Item &t = all[i];
        return Bytes(pack[t.type].begin() + t.off, pack[t.type].begin() + t.off + t.len);
    }
};
static inline const Seeds &seeds() {
    static Seeds s;
    static bool ready = false;
    if (ready) return s;
    ready = true;
    for (size_t k = 0; k < ltypes().size(); k++) {
        s.pack.push_back(read_file(std::string(VERIF_DIR) + "/harness/seeds/" + ltypes()[k].name + ".bin"));
        s.of.emplace_back();
        const Bytes &p = s.pack.back();
        for (size_t q = 0; q + 4 <= p.size();) {
            uint32_t n = p[q] | p[q + 1] << 8 | p[q + 2] << 16 | (uint32_t)p[q + 3] << 24;
            q += 4;
            if (n > p.size() - q) break;
            s.of.back().push_back((int)s.all.size());
            s.all.push_back({(int)k, (uint32_t)q, n});
            q += n;
        }
    }
    return s;
}

// a file the library itself writes, of a random small image
struct SaveKind { ILenum type; const char *ext; };
static inline const std::vector<SaveKind> &save_kinds() {
    static const std::vector<SaveKind> v = {{IL_BMP, "bmp"}, {IL_TGA, "tga"}, {IL_PNG, "png"}, {IL_JPG, "jpg"}, {IL_SGI, "sgi"}, {IL_PCX, "pcx"}, {IL_PNM, "ppm"}, {IL_TIF, "tif"},
                                            {IL_PSD, "psd"}, {IL_DDS, "dds"}, {IL_VTF, "vtf"}, {IL_HDR, "hdr"}, {IL_WBMP, "wbmp"}};
    return v;
}
static inline Bytes saved_file(Src &s, const SaveKind &k) {
    int w = s.size(24), h = s.size(24);
    Img im = s.chance(1, 3) ? gen_indexed(s, w, h, 1, s.range(1, 256), s.pick({IL_PAL_RGB24, IL_PAL_BGRA32}))
                            : gen_img(s, w, h, 1, s.pick({IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA}), s.pick({IL_UNSIGNED_BYTE, IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT}));
    ILuint id = new_image(im);
    ilSetInteger(IL_TGA_RLE, s.flip());
    ilSetInteger(IL_SGI_RLE, s.flip());
    ilSetInteger(IL_DXTC_FORMAT, s.pick({IL_DXT1, IL_DXT3, IL_DXT5, IL_3DC, IL_ATI1N}));
    if (s.chance(1, 4)) iluBuildMipmaps();
    ilEnable(IL_FILE_OVERWRITE);
    std::string p = g_scratch + "/seed." + k.ext;
    Bytes b;
    if (ilSave(k.type, p.c_str())) b = read_file(p);
    unlink(p.c_str());
    ilDeleteImages(1, &id);
    drain_errors();
    return b;
}

// one random edit of a file
static inline void mutate(Src &s, Bytes &b, const Bytes &other) {
    auto where = [&](size_t room) -> size_t { // where an edit goes: half of them in the header
        size_t n = b.size() >= room ? b.size() - room + 1 : 0;
        if (n == 0) return 0;
        switch (s.draw(5)) {
        case 0: return s.draw(std::min<size_t>(n, 32));
        case 1: return s.draw(std::min<size_t>(n, 160));
        case 2: return n - 1 - s.draw(std::min<size_t>(n, 64));
        default: return s.draw(n);
        }
    };
    static const uint32_t nice[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1000, 1023, 1024, 4095, 4096, 16384, 32767, 32768,
                                    65534, 65535, 65536, 65537, 0x100000, 0xffffff, 0x1000000, 0x10000000, 0x20000000, 0x40000000, 0x55555556, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xaaaaaaab, 0xfffffff0,
                                    0xfffffffe, 0xffffffff};
    const int nn = sizeof nice / sizeof *nice;
    if (b.empty()) { b.push_back((uint8_t)s.draw(256)); return; }
    switch (s.draw(11)) {
    case 0: b.resize(s.draw(b.size() + 1)); break; // cut short
    case 1: { size_t p = where(1); b[p] ^= 1 << s.draw(8); break; }
    case 2: { size_t p = where(1); b[p] = (uint8_t)s.draw(256); break; }
    case 3: { size_t p = where(1); b[p] = (uint8_t)nice[s.draw(nn)]; break; }
    case 4: case 5: { // a 16 bit field
        size_t p = where(2);
        uint32_t v = s.flip() ? nice[s.draw(nn)] : (uint32_t)s.draw(65536);
        bool be = s.flip();
        if (p + 2 <= b.size()) { b[p + be] = (uint8_t)v; b[p + !be] = (uint8_t)(v >> 8); }
        break;
    }
    case 6: case 7: { // a 32 bit field
        size_t p = where(4);
        uint32_t v = nice[s.draw(nn)];
        bool be = s.flip();
        if (s.chance(1, 4) && p + 4 <= b.size()) { // near what it was
            uint32_t old = be ? b[p] << 24 | b[p + 1] << 16 | b[p + 2] << 8 | b[p + 3] : b[p + 3] << 24 | b[p + 2] << 16 | b[p + 1] << 8 | b[p];
            v = old + (uint32_t)s.range(0, 16) - 8;
        }
        if (p + 4 <= b.size())
            for (int i = 0; i < 4; i++) b[p + i] = (uint8_t)(v >> 8 * (be ? 3 - i : i));
        break;
    }
    case 8: { // remove a part
        size_t p = where(1), n = 1 + s.draw(std::min<size_t>(b.size() - p, 64));
        b.erase(b.begin() + p, b.begin() + std::min(b.size(), p + n));
        break;
    }
    case 9: { // repeat a part, or put in bytes
        size_t p = where(1), n = 1 + s.draw(std::min<size_t>(b.size() - p, 32));
        Bytes part(b.begin() + p, b.begin() + p + n);
        if (s.flip()) for (auto &v : part) v = (uint8_t)s.draw(256);
        size_t q = where(1);
        b.insert(b.begin() + q, part.begin(), part.end());
        break;
    }
    case 10: { // the rest of another file of the type
        if (other.empty()) break;
        size_t p = s.draw(b.size()), q = s.flip() ? p : s.draw(other.size());
        if (q >= other.size()) q = s.draw(other.size());
        b.resize(p);
        b.insert(b.end(), other.begin() + q, other.end());
        break;
    }
    }
    if (b.size() > 300000) b.resize(300000);
}

// a file for a loader: type index in ltypes()
static inline Bytes gen_input(Src &s, int type, std::string &how) {
    const Seeds &S = seeds();
    auto base = [&](std::string &h) -> Bytes {
        ILenum t = ltypes()[type].type;
        std::vector<const GenKind *> gk;
        for (auto &k : gen_kinds()) if (!strcasecmp(k.name, ltypes()[type].name)) gk.push_back(&k);
        const SaveKind *sk = nullptr;
        for (auto &k : save_kinds()) if (k.type == t) sk = &k;
        int r = s.range(0, 3);
        if (r == 1 && sk) { h = "saved"; Bytes b = saved_file(s, *sk); if (!b.empty()) return b; }
        if (r <= 1 && !gk.empty()) { h = "encoder"; return gen_file(s, *gk[s.draw(gk.size())]).b; }
        h = "seed";
        if (!S.of[type].empty()) return S.get(S.of[type][s.draw(S.of[type].size())]);
        return Bytes(16, 0);
    };
    Bytes b = base(how);
    int n = s.chance(1, 8) ? 0 : s.chance(1, 2) ? 1 : s.range(1, 3);
    if (s.chance(1, 10)) n += s.range(0, 12);
    Bytes other;
    std::string oh;
    if (n && s.chance(1, 3)) other = base(oh);
    for (int i = 0; i < n; i++) mutate(s, b, other);
    how += fmt("+%d", n);
    return b;
}
