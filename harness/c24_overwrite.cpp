// C24: files are never overwritten unless allowed, and the extension alone picks the format of ilSaveImage.
#include "seeds.h"
#include <ctime>
#include <dirent.h>
#include <sys/stat.h>
// files carry the time of day: it stands still here
extern "C" time_t time(time_t *t) { time_t v = 1700000000; if (t) *t = v; return v; }

Spec spec() {
    Spec s;
    s.id = "C24";
    s.rule = "a save met an existing file, or an extension picked the format";
    s.quick_cases = 64000;
    s.thorough_cases = 640000;
    s.batch = 64;
    s.cpu_limit = 20;
    s.assumptions = {"the format of an extension is the one of the comments in il.h", "what a save to a fresh name under the same settings writes is right (C01, C04, C05 decide that)"};
    s.min_frac = {{"refused: exists", 0.2}, {"replaced", 0.2}, {"bad extension", 0.2}, {"by extension", 0.2}};
    return s;
}

struct Ext { const char *ext; ILenum type; };
static const Ext EXTS[] = {{"bmp", IL_BMP}, {"h", IL_CHEAD}, {"dds", IL_DDS}, {"hdr", IL_HDR}, {"jpg", IL_JPG}, {"jpeg", IL_JPG}, {"jpe", IL_JPG}, {"pcx", IL_PCX}, {"png", IL_PNG},
    {"pbm", IL_PNM}, {"pgm", IL_PNM}, {"ppm", IL_PNM}, {"pnm", IL_PNM}, {"psd", IL_PSD}, {"raw", IL_RAW}, {"sgi", IL_SGI}, {"bw", IL_SGI}, {"rgb", IL_SGI}, {"rgba", IL_SGI},
    {"tga", IL_TGA}, {"vda", IL_TGA}, {"icb", IL_TGA}, {"vst", IL_TGA}, {"tif", IL_TIF}, {"tiff", IL_TIF}, {"vtf", IL_VTF}, {"wbmp", IL_WBMP}, {"pal", IL_JASC_PAL}};
// formats that take any name when the type is given
static const Ext TYPES[] = {{"bmp", IL_BMP}, {"dds", IL_DDS}, {"hdr", IL_HDR}, {"jpg", IL_JPG}, {"pcx", IL_PCX}, {"png", IL_PNG}, {"psd", IL_PSD}, {"raw", IL_RAW}, {"sgi", IL_SGI}, {"tga", IL_TGA},
    {"tif", IL_TIF}, {"vtf", IL_VTF}, {"wbmp", IL_WBMP}};

typedef std::map<std::string, Bytes> Dir;
static void list(const std::string &root, const std::string &sub, Dir &d) {
    DIR *h = opendir((root + "/" + sub).c_str());
    if (!h) return;
    while (dirent *e = readdir(h)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string p = sub.empty() ? n : sub + "/" + n;
        struct stat st;
        if (lstat((root + "/" + p).c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) list(root, p, d);
        else d[p] = read_file(root + "/" + p);
    }
    closedir(h);
}
static void clear(const std::string &root) {
    Dir d;
    list(root, "", d);
    for (auto &f : d) unlink((root + "/" + f.first).c_str());
}
static std::string letters(Src &s, const char *e) {
    std::string o = e;
    int m = s.draw(4);
    for (auto &ch : o) if (m == 1 || (m == 2 && s.flip())) ch = (char)toupper(ch);
    return o;
}

void one_case(Src &s, Ctx &c) {
    mem::cap = 64u << 20;
    mem::total_cap = 400u << 20;
    il_fresh();
    std::string root = g_scratch + "/d", ref = g_scratch + "/r";
    for (auto &p : {root, ref}) { mkdir(p.c_str(), 0700); mkdir((p + "/sub.png").c_str(), 0700); clear(p); }
    Dir model;
    bool ow = false, deflt = true;
    std::vector<bool> stack;
    std::vector<std::string> names;
    int ops = s.range(2, 9);
    ILuint id = 0;
    for (int o = 0; o < ops; o++) {
        if (!id || s.chance(1, 2)) {
            if (id) ilDeleteImages(1, &id);
            int w = s.chance(1, 3) ? s.pick({4, 8, 16}) : s.size(20), h = s.chance(1, 3) ? s.pick({4, 8, 16}) : s.size(20);
            Img im = s.chance(1, 3) ? gen_indexed(s, w, h, 1, s.range(1, 256), s.pick({IL_PAL_RGB24, IL_PAL_BGRA32, IL_PAL_BGR24, IL_PAL_RGBA32}))
                                    : gen_img(s, w, h, s.chance(1, 10) ? 2 : 1, s.pick({IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA}), s.pick({IL_UNSIGNED_BYTE, IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_FLOAT}));
            tame_floats(s, im);
            c.say(im.str());
            id = new_image(im);
        }
        // the permission
        int q = s.draw(10);
        if (q < 2) { ilEnable(IL_FILE_OVERWRITE); ow = true; deflt = false; }
        else if (q < 4) { ilDisable(IL_FILE_OVERWRITE); ow = false; }
        else if (q == 4 && stack.size() < 5) {
            ilPushAttrib(s.pick({IL_FILE_BIT, IL_ALL_ATTRIB_BITS, IL_FILE_BIT | IL_ORIGIN_BIT}));
            stack.push_back(ow);
        } else if (q == 5 && !stack.empty()) { ilPopAttrib(); ow = stack.back(); stack.pop_back(); }
        CHECK((ilIsEnabled(IL_FILE_OVERWRITE) != 0) == ow && (ilGetBoolean(IL_FILE_MODE) != 0) == ow, "mode", "IL_FILE_OVERWRITE is %d, IL_FILE_MODE %d, %d expected", ilIsEnabled(IL_FILE_OVERWRITE), ilGetBoolean(IL_FILE_MODE), ow);
        (void)deflt;
        // what is there already
        if (s.chance(1, 4)) {
            Bytes b(s.pick({0, 1, 7, 100, 3000, 20000}));
            uint64_t sd = s.seed32();
            for (size_t i = 0; i < b.size(); i++) b[i] = (uint8_t)mix64(sd + i);
            std::string n = "a." + letters(s, EXTS[s.draw(sizeof EXTS / sizeof *EXTS)].ext);
            write_file(root + "/" + n, b);
            model[n] = b;
            names.push_back(n);
        }
        // the save
        int how = s.draw(8);
        std::string name, what;
        ILenum type = 0; // of the reference
        bool bad = false, byext = false;
        auto reuse = [&](const std::string &n) { name = n; names.push_back(n); };
        if (how <= 2) { // ilSaveImage, or ilSave without a type
            byext = true;
            if (s.chance(1, 4)) {
                static const char *BAD[] = {"a", "png", "a.", "a.pn", "a.pngx", "a.xpng", "a.png ", "a. png", "a.png.", "sub.png/a", "a.png.bak", "a.txt", "a.bm", "a.b", "a.gif", "a.ico", "a.pngpng", "a.unknownextension", "a.pic"};
                name = BAD[s.draw(sizeof BAD / sizeof *BAD)];
                bad = true;
                if (s.chance(1, 3) && name.find('/') == std::string::npos) {
                    Bytes b = {1, 2, 3};
                    write_file(root + "/" + name, b);
                    model[name] = b;
                }
            } else if (!names.empty() && s.chance(1, 2)) name = names[s.draw(names.size())];
            else reuse(std::string(s.pick({"a", "b", "", "x.bmp", "sub.png/c", "a b"})) + "." + letters(s, EXTS[s.draw(sizeof EXTS / sizeof *EXTS)].ext));
            if (!bad) {
                std::string e = name.find('.') == std::string::npos ? "" : name.substr(name.rfind('.') + 1);
                for (auto &ch : e) ch = (char)tolower(ch);
                for (auto &x : EXTS) if (e == x.ext) type = x.type;
                if (!type) bad = true;
            }
            what = how == 0 ? "ilSave(IL_TYPE_UNKNOWN)" : "ilSaveImage";
        } else if (how <= 5) { // by type, under any name
            if (!names.empty() && s.chance(1, 2)) name = names[s.draw(names.size())];
            else reuse(s.pick({"a.png", "noext", "b.bmp", "sub.png/d", "a.tga", "z.dat", "e.", "c.ppm", "c.pbm"}));
            if (s.chance(1, 8)) { type = IL_PNM; }
            else type = TYPES[s.draw(sizeof TYPES / sizeof *TYPES)].type;
            what = fmt("ilSave(%04x)", type);
        } else if (how == 6) {
            if (!names.empty() && s.chance(1, 2)) name = names[s.draw(names.size())];
            else reuse(s.pick({"a.pal", "b.PAL", "c.Pal", "a.png", "nopal"}));
            std::string e = name.find('.') == std::string::npos ? "" : name.substr(name.rfind('.') + 1);
            for (auto &ch : e) ch = (char)tolower(ch);
            bad = e != "pal" || !ilGetInteger(IL_PALETTE_NUM_COLS) || !ilGetPalette();
            type = IL_JASC_PAL;
            what = "ilSavePal";
        } else {
            if (!names.empty() && s.chance(1, 2)) name = names[s.draw(names.size())];
            else reuse(s.pick({"a.data", "a.png", "raw", "b"}));
            what = "ilSaveData";
        }
        std::string path = root + "/" + name, rpath = ref + "/" + name;
        bool exists = model.count(name);
        c.say(fmt("%s \"%s\"%s%s", what.c_str(), name.c_str(), exists ? fmt(" exists, %zu bytes", model[name].size()).c_str() : "", ow ? " overwrite" : ""));
        // what a new file gets
        Bytes want;
        bool want_ok = false;
        if (!bad) {
            mem::fill = 0x11;
            if (what == "ilSaveData") { ILubyte *p = ilGetData(); want.assign(p, p + ilGetInteger(IL_IMAGE_SIZE_OF_DATA)); want_ok = true; }
            else if (byext || type == IL_PNM || type == IL_JASC_PAL) { want_ok = ilSave(type, rpath.c_str()); want = read_file(rpath); unlink(rpath.c_str()); }
            else {
                std::string rp = ref + "/ref";
                for (auto &x : TYPES) if (x.type == type) rp += std::string(".") + x.ext;
                want_ok = ilSave(type, rp.c_str());
                want = read_file(rp);
                unlink(rp.c_str());
            }
        }
        mem::fill = 0xEE;
        std::vector<Part> before = dump_chain(id);
        drain_errors();
        ILboolean ok = how == 0 ? ilSave(IL_TYPE_UNKNOWN, path.c_str()) : how <= 2 ? ilSaveImage(path.c_str()) : how <= 5 ? ilSave(type, path.c_str()) : how == 6 ? ilSavePal(path.c_str()) : ilSaveData(path.c_str());
        ILenum err = ilGetError();
        Dir now;
        list(root, "", now);
        std::string sg = how <= 2 ? "-ext" : how <= 5 ? fmt("-%04x", type) : how == 6 ? "-pal" : "-data";
        for (auto &f : model)
            if (f.first != name) CHECK(now.count(f.first) && now[f.first] == f.second, "other" + sg, "%s \"%s\" changes the file \"%s\"", what.c_str(), name.c_str(), f.first.c_str());
        for (auto &f : now) CHECK(f.first == name || model.count(f.first), "stray" + sg, "%s \"%s\" creates the file \"%s\"", what.c_str(), name.c_str(), f.first.c_str());
        if (bad) {
            CHECK(!ok, "badname" + sg, "%s \"%s\" succeeds", what.c_str(), name.c_str());
            CHECK(err != IL_NO_ERROR, "badname-error" + sg, "%s \"%s\" fails without an error", what.c_str(), name.c_str());
            CHECK(now == model, "badname-file" + sg, "%s \"%s\" fails for the name and %s the file", what.c_str(), name.c_str(), exists ? "changes" : "creates");
            c.note("bad extension");
        } else if (exists && !ow) {
            CHECK(!ok, "overwrite" + sg, "%s \"%s\" succeeds though the file exists and overwriting is off", what.c_str(), name.c_str());
            CHECK(err == IL_FILE_ALREADY_EXISTS || (!want_ok && err != IL_NO_ERROR), "overwrite-error" + sg, "%s \"%s\" to an existing file: error %04x", what.c_str(), name.c_str(), err);
            CHECK(now == model, "overwrite-file" + sg, "%s \"%s\" refuses to overwrite, but changes the file from %zu to %zu bytes", what.c_str(), name.c_str(), model[name].size(), now[name].size());
            c.note("refused: exists");
            c.nontriv = true;
        } else {
            CHECK(!!ok == want_ok, "result" + sg, "%s \"%s\": %s, a save to a new file %s", what.c_str(), name.c_str(), ok ? "succeeds" : fmt("fails with %04x", err).c_str(), want_ok ? "succeeds" : "fails");
            if (ok) {
                const Bytes &got = now[name];
                CHECK(now.count(name), "nofile" + sg, "%s \"%s\" succeeds without a file", what.c_str(), name.c_str());
                size_t i = 0;
                while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
                CHECK(got == want, "content" + sg, "%s \"%s\"%s: %zu bytes, a new file has %zu, the first difference is at %zu", what.c_str(), name.c_str(), exists ? fmt(" over %zu bytes", model[name].size()).c_str() : "", got.size(), want.size(), i);
                c.note(exists ? "replaced" : "new");
                if (byext) { c.note("by extension"); c.nontriv = true; }
                if (exists) c.nontriv = true;
            } else {
                CHECK(err != IL_NO_ERROR, "noerror" + sg, "%s \"%s\" fails without an error", what.c_str(), name.c_str());
                c.note("unsupported");
            }
        }
        std::string d = chain_diff(before, dump_chain(id));
        CHECK(d.empty(), "changed" + sg, "%s \"%s\" changes the image: %s", what.c_str(), name.c_str(), d.c_str());
        model = now;
        drain_errors();
    }
    clear(root);
    clear(ref);
    ilShutDown();
    g_il_up = false;
    CHECK(mem::live == 0, "leak", "%llu blocks of memory are never freed", (unsigned long long)mem::live);
}
