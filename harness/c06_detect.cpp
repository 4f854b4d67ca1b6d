// C06: telling the type of a file from its content and from its name.
#include "seeds.h"

Spec spec() {
    Spec s;
    s.id = "C06";
    s.rule = "a content was recognised as some type, or a name with an extension was judged";
    s.quick_cases = 160000;
    s.thorough_cases = 1600000;
    s.batch = 64;
    s.cpu_limit = 20;
    s.assumptions = {"types without a signature (ICO, CUT, WBMP, Doom, ...) are not told from their content and not judged there"};
    s.min_frac = {{"well formed", 0.2}, {"any bytes", 0.2}, {"name", 0.1}};
    return s;
}
struct Ext { const char *ext; std::vector<ILenum> types; };
// from the comments of the public header
static const std::vector<Ext> &documented() {
    static const std::vector<Ext> v = {
        {"bmp", {IL_BMP}}, {"cut", {IL_CUT}}, {"ico", {IL_ICO}}, {"cur", {IL_ICO}}, {"jpg", {IL_JPG}}, {"jpe", {IL_JPG}}, {"jpeg", {IL_JPG}}, {"iff", {IL_ILBM, IL_IFF}}, {"ilbm", {IL_ILBM}},
        {"lbm", {IL_ILBM}}, {"pcd", {IL_PCD}}, {"pcx", {IL_PCX}}, {"pic", {IL_PIC}}, {"png", {IL_PNG}}, {"pbm", {IL_PNM}}, {"pgm", {IL_PNM}}, {"ppm", {IL_PNM}}, {"pnm", {IL_PNM}},
        {"sgi", {IL_SGI}}, {"bw", {IL_SGI}}, {"rgb", {IL_SGI}}, {"rgba", {IL_SGI}}, {"tga", {IL_TGA}}, {"vda", {IL_TGA}}, {"icb", {IL_TGA}}, {"vst", {IL_TGA}}, {"tif", {IL_TIF}}, {"tiff", {IL_TIF}},
        {"mdl", {IL_MDL}}, {"wal", {IL_WAL}}, {"lif", {IL_LIF}}, {"mng", {IL_MNG}}, {"gif", {IL_GIF}}, {"dds", {IL_DDS}}, {"dcx", {IL_DCX}}, {"psd", {IL_PSD}}, {"psp", {IL_PSP}}, {"pix", {IL_PIX}},
        {"pxr", {IL_PXR}}, {"xpm", {IL_XPM}}, {"hdr", {IL_HDR}}, {"icns", {IL_ICNS}}, {"jp2", {IL_JP2}}, {"exr", {IL_EXR}}, {"wdp", {IL_WDP}}, {"hdp", {IL_WDP}}, {"vtf", {IL_VTF}}, {"wbmp", {IL_WBMP}},
        {"sun", {IL_SUN}}, {"ras", {IL_SUN}}, {"rs", {IL_SUN}}, {"im1", {IL_SUN}}, {"im8", {IL_SUN}}, {"im24", {IL_SUN}}, {"im32", {IL_SUN}}, {"tpl", {IL_TPL}}, {"fit", {IL_FITS}}, {"fits", {IL_FITS}},
        {"dcm", {IL_DICOM}}, {"dicom", {IL_DICOM}}, {"iwi", {IL_IWI}}, {"blp", {IL_BLP}}, {"ftx", {IL_FTX}}, {"rot", {IL_ROT}}, {"texture", {IL_TEXTURE}}, {"dpx", {IL_DPX}}, {"utx", {IL_UTX}},
        {"mp3", {IL_MP3}}, {"ktx", {IL_KTX}}, {"ch", {IL_SCITEX}}, {"ct", {IL_SCITEX}}, {"sct", {IL_SCITEX}}};
    return v;
}

static void names(Src &s, Ctx &c) {
    c.note("name");
    const Ext &e = documented()[s.draw(documented().size())];
    std::string ext = e.ext;
    int kind = s.range(0, 5);
    bool known_ext = true;
    static const char *alnum = "abcdefghijklmnopqrstuvwxyz0123456789";
    auto is_doc = [&](const std::string &x) {
        std::string l;
        for (char ch : x) l += (char)tolower(ch);
        static const char *more[] = {"dib", "jif", "jfif", "jpx", "j2k", "j2c", "pam", "pdd", "ham", "jng", "h", "raw", "pal"};
        for (auto m : more) if (l == m) return true;
        for (auto &d : documented()) if (l == d.ext) return true;
        return false;
    };
    if (kind == 1) { ext += alnum[s.draw(36)]; known_ext = false; }
    if (kind == 2) { ext.resize(ext.size() - 1); known_ext = false; }
    if (kind == 3) { size_t p = s.draw(ext.size()); ext[p] = alnum[s.draw(36)]; known_ext = false; }
    if (kind == 4) { ext.clear(); int n = s.range(0, 12); for (int i = 0; i < n; i++) ext += alnum[s.draw(36)]; known_ext = false; }
    if (!known_ext && is_doc(ext)) return;
    for (auto &ch : ext) if (s.chance(1, 3)) ch = (char)toupper(ch);
    std::string base;
    int nb = s.range(0, 12);
    for (int i = 0; i < nb; i++) base += s.pick({'a', 'Z', '.', '/', '_', ' ', '9', '-'});
    if (s.chance(1, 6)) base += "." + std::string(documented()[s.draw(documented().size())].ext);
    bool dot = !s.chance(1, 8) ;
    std::string name = base + (dot ? "." : "") + ext;
    if (!dot && base.find('.') != std::string::npos) return;
    if (!dot) known_ext = false;
    if (dot && kind == 5 && s.flip()) { name += s.pick({" ", ".", "/", "~"}); known_ext = false; }
    char *q = (char *)malloc(name.size() + 1); // its end is guarded
    memcpy(q, name.c_str(), name.size() + 1);
    ILenum t = ilTypeFromExt(q);
    free(q);
    drain_errors();
    c.say("name \"" + name + "\"");
    bool ok = false;
    if (known_ext) { for (ILenum w : e.types) ok |= t == w; }
    else ok = t == IL_TYPE_UNKNOWN;
    CHECK(ok, std::string("ext-") + (known_ext ? e.ext : "unknown"), "ilTypeFromExt(\"%s\") gives %04x", name.c_str(), t);
    c.nontriv = dot;
}

struct Sig { ILenum type; std::vector<int> at; };
// bytes without which the content is not of the type
static const std::vector<Sig> &sigs() {
    static const std::vector<Sig> v = {{IL_PNG, {0, 1, 2, 3, 4, 5, 6, 7}}, {IL_GIF, {0, 1, 2, 3, 5}}, {IL_DDS, {0, 1, 2, 3}}, {IL_PSD, {0, 1, 2, 3}}, {IL_TIF, {0, 1, 2, 3}}, {IL_SUN, {0, 1, 2, 3}},
                                       {IL_SGI, {0, 1}}, {IL_JPG, {0, 1}}, {IL_BMP, {0, 1}}, {IL_HDR, {0, 1, 2}}, {IL_VTF, {0, 1, 2, 3}}, {IL_DCX, {0, 1, 2, 3}}, {IL_PCX, {0}}, {IL_PNM, {0, 1}}};
    return v;
}
struct View { ILenum type; bool valid; ILint pos; };

void one_case(Src &s, Ctx &c) {
    mem::cap = 64u << 20;
    mem::total_cap = 400u << 20;
    il_fresh();
    if (s.chance(1, 5)) { names(s, c); return; }
    Bytes b;
    std::string how;
    ILenum want = IL_TYPE_UNKNOWN, about;
    bool wf = s.flip();
    if (wf) {
        if (s.chance(1, 3)) {
            const SaveKind &k = save_kinds()[s.draw(save_kinds().size())];
            b = saved_file(s, k);
            want = k.type;
            how = std::string("saved ") + k.ext;
            if (k.type == IL_WBMP) want = IL_TYPE_UNKNOWN;
        } else {
            GFile g = gen_file(s, gen_kinds()[s.draw(gen_kinds().size())]);
            b = g.b;
            how = g.variant;
            if (g.detect) want = g.type;
        }
        if (want == IL_TYPE_UNKNOWN) wf = false;
    }
    if (b.empty()) {
        wf = false;
        want = IL_TYPE_UNKNOWN;
        int ti = s.draw(ltypes().size());
        b = gen_input(s, ti, how);
        how = std::string(ltypes()[ti].name) + " " + how;
        if (s.chance(1, 10)) b.resize(std::min<size_t>(b.size(), s.range(0, 40)));
    }
    c.note(wf ? "well formed" : "any bytes");
    c.say(fmt("%s, %zu bytes", how.c_str(), b.size()));
    about = wf ? want : s.pick(ltypes()).type;
    if (s.chance(1, 12)) about = s.pick({(ILenum)IL_TYPE_UNKNOWN, (ILenum)0x1234, (ILenum)IL_RAW, (ILenum)IL_JASC_PAL});
    // an image that must not change, with a pending error or none
    Img im = gen_img(s, s.range(1, 6), s.range(1, 6), 1, s.pick({IL_RGB, IL_LUMINANCE, IL_BGRA}), IL_UNSIGNED_BYTE);
    ILuint id = new_image(im);
    if (s.chance(1, 8)) { ilBindImage(0); ilDeleteImages(1, &id); id = 0; }
    drain_errors();
    std::string path = g_scratch + "/in.bin";
    auto all = [&](const Bytes &data, ILenum type, const char *what) -> std::array<View, 3> {
        std::array<View, 3> v;
        std::string named;
        for (int way = 0; way < 3; way++) {
            ILenum t = 0;
            bool ok = false;
            if (way == 0) {
                // by name, a file is valid only under an extension of the type
                std::vector<std::string> ex;
                for (auto &d : documented()) for (ILenum q : d.types) if (q == type) ex.push_back(d.ext);
                std::string e = ex.empty() ? "bin" : ex[s.draw(ex.size())];
                if (s.chance(1, 4)) for (auto &ch : e) ch = (char)toupper(ch);
                std::string p2 = g_scratch + "/in." + e;
                write_file(p2, data);
                t = ilDetermineType(p2.c_str());
                ok = ilIsValid(type, p2.c_str());
                unlink(p2.c_str());
                named = e;
            } else if (way == 1) {
                Bytes f;
                int pre = s.chance(1, 3) ? 0 : s.range(1, 600);
                for (int i = 0; i < pre; i++) f.push_back((uint8_t)mix64(i + pre));
                if (s.flip() && pre) { f = data; f.resize(pre); }
                f.insert(f.end(), data.begin(), data.end());
                write_file(path, f);
                FILE *h = fopen(path.c_str(), "rb");
                fseek(h, pre, SEEK_SET);
                if (s.flip()) {
                    t = ilDetermineTypeF((ILHANDLE)h);
                    CHECK(ftell(h) == pre, "position", "%s: ilDetermineTypeF moves the handle from %d to %ld", what, pre, ftell(h));
                    ok = ilIsValidF(type, (ILHANDLE)h);
                    CHECK(ftell(h) == pre, "position", "%s: ilIsValidF(%04x) moves the handle from %d to %ld", what, type, pre, ftell(h));
                } else {
                    ok = ilIsValidF(type, (ILHANDLE)h);
                    CHECK(ftell(h) == pre, "position", "%s: ilIsValidF(%04x) moves the handle from %d to %ld", what, type, pre, ftell(h));
                    t = ilDetermineTypeF((ILHANDLE)h);
                    CHECK(ftell(h) == pre, "position", "%s: ilDetermineTypeF moves the handle from %d to %ld", what, pre, ftell(h));
                }
                fclose(h);
                unlink(path.c_str());
            } else {
                uint8_t *q = (uint8_t *)malloc(data.size() ? data.size() : 1);
                if (!data.empty()) memcpy(q, &data[0], data.size());
                t = ilDetermineTypeL(q, (ILuint)data.size());
                ok = ilIsValidL(type, q, (ILuint)data.size());
                CHECK(data.empty() || !memcmp(q, &data[0], data.size()), "lump", "%s: the buffer was written to", what);
                free(q);
            }
            v[way] = {t, ok, 0};
        }
        drain_errors();
        for (int i = 1; i < 3; i++) {
            CHECK(v[i].type == v[0].type, fmt("ways-determine-%04x", v[0].type), "%s: ilDetermineType gives %04x by name and %04x %s", what, v[0].type, v[i].type, i == 1 ? "by handle" : "in memory");
            CHECK(v[i].valid == v[0].valid, fmt("ways-valid-%04x", type), "%s: ilIsValid(%04x) gives %d by name (.%s) and %d %s", what, type, v[0].valid, named.c_str(), v[i].valid, i == 1 ? "by handle" : "in memory");
        }
        return v;
    };
    auto v = all(b, about, how.c_str());
    ILenum t = v[0].type;
    if (wf) {
        CHECK(t == want, fmt("determine-%04x", want), "%s: the type %04x is given, it is %04x", how.c_str(), t, want);
        CHECK(about != want || v[0].valid, fmt("valid-%04x", want), "%s is not valid as %04x", how.c_str(), want);
        c.note(std::string("recognised ") + (ltype_of(want) ? ltype_of(want)->name : "?"));
    }
    if (t != IL_TYPE_UNKNOWN) {
        c.nontriv = true;
        auto q = all(b, t, how.c_str());
        CHECK(q[0].valid, fmt("consistent-%04x", t), "%s is determined as %04x, but ilIsValid says no", how.c_str(), t);
    }
    if (wf) {
        // loading without a type is loading as the type
        std::vector<Part> d[2];
        bool ok[2];
        for (int i = 0; i < 2; i++) {
            ILuint q = ilGenImage();
            ilBindImage(q);
            ILenum lt = i ? want : (ILenum)IL_TYPE_UNKNOWN;
            int way = s.range(0, 2);
            if (way == 0) ok[i] = ilLoadL(lt, &b[0], (ILuint)b.size());
            else {
                write_file(path, b);
                if (way == 1) ok[i] = ilLoad(lt, path.c_str());
                else { FILE *f = fopen(path.c_str(), "rb"); ok[i] = ilLoadF(lt, (ILHANDLE)f); fclose(f); }
                unlink(path.c_str());
            }
            if (ok[i]) d[i] = dump_chain(q, how.c_str());
            drain_errors();
            ilDeleteImages(1, &q);
        }
        ilBindImage(id);
        drain_errors();
        CHECK(ok[0] && ok[1], fmt("load-%04x", want), "%s: loading without a type %s, with it %s", how.c_str(), ok[0] ? "works" : "fails", ok[1] ? "works" : "fails");
        std::string df = chain_diff(d[0], d[1]);
        CHECK(df.empty(), fmt("load-%04x", want), "%s: loading without a type gives another picture: %s", how.c_str(), df.c_str());
        // a signature with a wrong byte
        for (auto &g : sigs())
            if (g.type == want) {
                Bytes m = b;
                size_t p = g.at[s.draw(g.at.size())];
                uint8_t bit = 1 << s.draw(5); // not the bit of the letter case
                if (p < m.size()) {
                    m[p] ^= bit;
                    if (want == IL_PNM) { if (m[0] == 'P' && m[1] >= '1' && m[1] <= '7') break; if (m[0] == 'P' && (m[1] == 'F' || m[1] == 'f')) break; }
                    auto q = all(m, want, (how + " with a wrong signature").c_str());
                    CHECK(q[0].type != want && !q[0].valid, fmt("signature-%04x", want), "%s with byte %zu = %02x instead of %02x is still taken for %04x", how.c_str(), p, m[p], b[p], want);
                    c.note("wrong signature");
                }
            }
    }
    CHECK((ILuint)ilGetInteger(IL_CUR_IMAGE) == id, "bound", "%s: image %d is bound afterwards", how.c_str(), ilGetInteger(IL_CUR_IMAGE));
    if (id) {
        Img a = get_image("afterwards");
        CHECK(a.origin == im.origin, "changed", "%s: the bound image changed", how.c_str());
        same_picture(im, a, "changed", how);
    }
    ilShutDown();
    g_il_up = false;
    CHECK(mem::live == 0, "leak", "%s: %llu blocks of memory are never freed", how.c_str(), (unsigned long long)mem::live);
}
