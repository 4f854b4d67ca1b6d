// C21: registered handlers against a model of the two handler lists.
#include "ilh.h"

Spec spec() {
    Spec s;
    s.id = "C21";
    s.rule = "a handler was called, or one that had been registered was not called because it was removed, late or shadowed";
    s.quick_cases = 112000;
    s.thorough_cases = 1500000;
    s.batch = 64;
    s.cpu_limit = 10;
    s.assumptions = {"registering an extension that has a handler keeps the first one and is not an error", "handlers outlive ilShutDown, as they are removed when the program ends", "a handler for saving does not take the place of a saver of the library",
                     "when a handler for loading reports an error for an extension the library knows, its own loader may still be tried"};
    s.min_frac = {{"load handler", 0.2}, {"save handler", 0.15}, {"handler error", 0.1}, {"removed", 0.2}, {"duplicate", 0.1}, {"override", 0.1}, {"nested", 0.02}, {"restart", 0.05}, {"chain", 0.05}, {"many", 0.1}};
    return s;
}
struct Call { int handler; std::string file; bool save; };
static std::vector<Call> g_calls;
static std::function<ILenum(int, const char *)> g_act;
template <int N> static ILenum ILAPIENTRY on_load(ILconst_string f) { g_calls.push_back({N, f, false}); return g_act ? g_act(N, f) : 0; }
template <int N> static ILenum ILAPIENTRY on_save(ILconst_string f) { g_calls.push_back({N, f, true}); return g_act ? g_act(N, f) : 0; }
static IL_LOADPROC LH[] = {on_load<0>, on_load<1>, on_load<2>, on_load<3>, on_load<4>, on_load<5>};
static IL_SAVEPROC SH[] = {on_save<0>, on_save<1>, on_save<2>, on_save<3>, on_save<4>, on_save<5>};
static const char *EXT[] = {"xyz", "q", "bmp", "foo2", "png", "tga", "xyzz", "xy", "a-very-long-extension"};
static bool builtin(const std::string &e) { return e == "bmp" || e == "png" || e == "tga"; }
static std::string lower(std::string e) { for (char &c : e) c = tolower(c); return e; }
static bool same_img(const Img &a, const Img &b) { return a.data == b.data && a.w == b.w && a.h == b.h && a.d == b.d && a.format == b.format && a.type == b.type && a.origin == b.origin && a.pal == b.pal && a.paltype == b.paltype; }
static Img pic(Src &s) {
    if (s.chance(1, 4)) return gen_indexed(s, s.size(5), s.size(5), 1, s.range(1, 20), s.pick({IL_PAL_RGB24, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGRA32}));
    static const ILenum F[] = {IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_ALPHA}, T[] = {IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_FLOAT, IL_UNSIGNED_INT};
    return gen_img(s, s.size(5), s.size(5), s.chance(1, 8) ? 2 : 1, F[s.draw(7)], T[s.draw(4)]);
}
void one_case(Src &s, Ctx &c) {
    g_calls.clear();
    g_act = nullptr;
    il_fresh();
    std::map<std::string, int> load, save; // extension in lower case -> handler
    std::set<std::string> gone;
    for (const char *e : EXT) { // the lists outlive ilShutDown
        for (int i = 0; i < 50 && ilRemoveLoad(e); i++);
        for (int i = 0; i < 50 && ilRemoveSave(e); i++);
    }
    drain_errors();
    ILuint id = new_image(pic(s));
    ilEnable(IL_FILE_OVERWRITE);
    // a file of the library for each extension it knows
    Img stored = gen_img(s, s.size(6), s.size(6), 1, IL_RGB, IL_UNSIGNED_BYTE);
    stored.origin = IL_ORIGIN_LOWER_LEFT;
    std::map<std::string, Bytes> files;
    {
        ILuint k = new_image(stored);
        files["bmp"] = save_mem(IL_BMP);
        files["png"] = save_mem(IL_PNG);
        files["tga"] = save_mem(IL_TGA);
        ilDeleteImage(k);
        ilBindImage(id);
    }
    for (auto &f : files) CHECK(!f.second.empty(), "setup", "no %s file", f.first.c_str());
    drain_errors();
    std::string story;
    size_t said = 0;
    auto spell = [&](const std::string &e) { std::string r = e; if (s.chance(1, 3)) for (char &x : r) if (s.flip()) x = toupper(x); return r; };
    int nops = s.range(2, 18), nreg = 0;
    for (int op = 0; op < nops; op++) {
        int k = s.range(0, 19);
        std::string e = EXT[s.flip() ? s.draw(3) : s.draw(9)];
        auto &pool = k < 15 ? load : save;
        if (k > 8 && !pool.empty() && s.chance(2, 3)) { auto it = pool.begin(); std::advance(it, s.draw(pool.size())); e = it->first; }
        std::string se = spell(e);
        int h = s.range(0, 5);
        if (k < 5) {
            bool sv = s.flip();
            auto &m = sv ? save : load;
            story += fmt("%s '%s' handler %d; ", sv ? "register save" : "register load", se.c_str(), h);
            char *copy = strdup(se.c_str());
            ILboolean ok = sv ? ilRegisterSave(copy, SH[h]) : ilRegisterLoad(copy, LH[h]);
            memset(copy, 'z', strlen(copy)); // the name belongs to the caller
            free(copy);
            c.say(story.substr(said)); said = story.size();
            CHECK(ok, "register", "%s: refused, error %04x", story.c_str(), ilGetError());
            if (m.count(e)) c.note("duplicate");
            m.insert({e, h});
            if (++nreg == 4) c.note("many");
        } else if (k < 8) {
            bool sv = s.flip();
            auto &m = sv ? save : load;
            if (s.flip() && !m.empty()) { auto it = m.begin(); std::advance(it, s.draw(m.size())); e = it->first; se = spell(e); }
            story += fmt("%s '%s'; ", sv ? "remove save" : "remove load", se.c_str());
            c.say(story.substr(said)); said = story.size();
            drain_errors();
            ILboolean ok = sv ? ilRemoveSave(se.c_str()) : ilRemoveLoad(se.c_str());
            if (m.erase(e)) {
                CHECK(ok, "remove", "%s: refused, error %04x", story.c_str(), ilGetError());
                CHECK(ilGetError() == IL_NO_ERROR, "remove", "%s: error", story.c_str());
                gone.insert((sv ? "s" : "l") + e);
                c.note("removed");
            } else {
                CHECK(!ok && ilGetError() != IL_NO_ERROR, "remove-none", "%s: it was not registered", story.c_str());
            }
        } else if (k == 8 && s.chance(1, 2)) {
            story += "restart; ";
            il_fresh();
            ilEnable(IL_FILE_OVERWRITE);
            id = new_image(pic(s));
            c.note("restart");
        } else if (k < 15) { // load
            std::string f = g_scratch + "/" + s.pick({std::string("in"), std::string("a.b"), std::string("x.bmp.c")}) + "." + se;
            bool blt = builtin(e);
            Bytes content = blt ? files[e] : Bytes(40, 0xEE);
            bool missing = !blt && s.chance(1, 5);
            unlink(f.c_str());
            if (!missing) write_file(f, content);
            int act = s.range(0, 9);
            Img made = pic(s);
            ILenum err = s.pick({(ILenum)IL_NO_ERROR, (ILenum)IL_ILLEGAL_FILE_VALUE, (ILenum)IL_COULD_NOT_OPEN_FILE, (ILenum)IL_OUT_OF_MEMORY});
            if (act < 4) err = IL_NO_ERROR;
            int frames = s.chance(1, 3) ? s.range(1, 3) : 0, mips = s.chance(1, 3) ? s.range(1, 3) : 0, faces = s.chance(1, 4) ? s.range(1, 5) : 0, dur = s.range(0, 9999);
            bool nested = s.chance(1, 8), self = s.chance(1, 8), does = act < 8;
            Img before = get_image("before a load");
            g_calls.clear();
            std::string why;
            g_act = [&](int, const char *) -> ILenum {
                if (nested) {
                    write_file(g_scratch + "/nested.tga", files["tga"]);
                    if (load.count("tga")) ilLoad(IL_TGA, (g_scratch + "/nested.tga").c_str());
                    else if (!ilLoadImage((g_scratch + "/nested.tga").c_str())) why = "a load in the handler fails";
                }
                if (does) {
                    if (!ilTexImage(made.w, made.h, made.d, made.nc(), made.format, made.type, &made.data[0])) why = "ilTexImage refuses";
                    if (made.format != IL_ALPHA) ilRegisterFormat(made.format);
                    ilRegisterType(made.type);
                    ilRegisterOrigin(made.origin);
                    if (made.paltype != IL_PAL_NONE) ilRegisterPal(&made.pal[0], made.pal.size(), made.paltype);
                    ilSetDuration(dur);
                    if (faces && !ilRegisterNumFaces(faces)) why = "ilRegisterNumFaces refuses";
                    if (frames && !ilRegisterNumImages(frames)) why = "ilRegisterNumImages refuses";
                    if (mips && !ilRegisterMipNum(mips)) why = "ilRegisterMipNum refuses";
                }
                if (self) ilRemoveLoad(e.c_str());
                return err;
            };
            story += fmt("load '%s'%s; ", f.c_str() + g_scratch.size() + 1, missing ? " that is missing" : "");
            c.say(story.substr(said)); said = story.size();
            ilBindImage(id);
            drain_errors();
            bool generic = s.chance(1, 6);
            if (generic && !missing) generic = false;
            ILboolean ok = ilLoadImage(f.c_str());
            ILenum er = ilGetError();
            g_act = nullptr;
            CHECK(why.empty(), "handler", "%s: %s", story.c_str(), why.c_str());
            auto it = load.find(e);
            if (it == load.end()) {
                CHECK(g_calls.empty(), "load-uncalled", "%s: handler %d called for '%s'", story.c_str(), g_calls[0].handler, g_calls[0].file.c_str());
                if (gone.count("l" + e)) c.nontriv = true;
                CHECK(!ok == !blt, "load-builtin", "%s: gives %d, error %04x", story.c_str(), ok, er);
                if (blt) {
                    Img g = upright(get_image()), w = upright(stored);
                    CHECK(g.w == w.w && g.h == w.h && g.d == 1, "load-builtin", "%s: gives %s", story.c_str(), g.str().c_str());
                    for (int y = 0; y < w.h; y++) for (int x = 0; x < w.w; x++) CHECK(rgba_of(g, x, y) == rgba_of(w, x, y), "load-builtin", "%s: another picture", story.c_str());
                }
                else CHECK(er != IL_NO_ERROR, "load-silent", "%s: fails without an error", story.c_str());
                if (!blt) CHECK(same_img(get_image(), before), "load-failed", "%s: nothing loads it, but the image changed", story.c_str());
                continue;
            }
            c.nontriv = true;
            c.note("load handler");
            if (blt) c.note("override");
            if (nested) c.note("nested");
            CHECK(g_calls.size() == 1 && !g_calls[0].save, "load-called", "%s: %zu handlers called", story.c_str(), g_calls.size());
            CHECK(g_calls[0].handler == it->second, "load-which", "%s: handler %d called, %d is registered", story.c_str(), g_calls[0].handler, it->second);
            CHECK(g_calls[0].file == f, "load-name", "%s: called with '%s'", story.c_str(), g_calls[0].file.c_str());
            if (self) { load.erase(it); gone.insert("l" + e); }
            if (err) {
                c.note("handler error");
                if (!blt) {
                    CHECK(!ok, "load-error", "%s: handler gives error %04x, the load succeeds", story.c_str(), err);
                    CHECK(er != IL_NO_ERROR, "load-error", "%s: handler gives error %04x, none is pending", story.c_str(), err);
                    bool found = er == err;
                    for (ILenum q; (q = ilGetError()) != IL_NO_ERROR;) found = found || q == err;
                    CHECK(found, "load-error", "%s: the error %04x of the handler is lost", story.c_str(), err);
                }
                ilBindImage(id);
                continue;
            }
            CHECK(ok, "load-ok", "%s: the handler succeeds, the load fails with %04x", story.c_str(), er);
            CHECK(er == IL_NO_ERROR, "load-clean", "%s: the load succeeds and leaves error %04x", story.c_str(), er);
            CHECK(ilGetInteger(IL_CUR_IMAGE) == (ILint)id, "load-bound", "%s: image %d is bound", story.c_str(), ilGetInteger(IL_CUR_IMAGE));
            if (does) {
                Img g = get_image();
                CHECK(same_img(g, made), "load-image", "%s: handler made %s, the image is %s", story.c_str(), made.str().c_str(), g.str().c_str());
                CHECK(ilGetInteger(IL_IMAGE_DURATION) == dur, "load-duration", "%s: duration %d, wanted %d", story.c_str(), ilGetInteger(IL_IMAGE_DURATION), dur);
                CHECK(ilGetInteger(IL_NUM_IMAGES) == frames && ilGetInteger(IL_NUM_MIPMAPS) == mips && ilGetInteger(IL_NUM_FACES) == faces, "load-chain", "%s: %d images, %d mipmaps and %d faces, wanted %d, %d and %d", story.c_str(), ilGetInteger(IL_NUM_IMAGES), ilGetInteger(IL_NUM_MIPMAPS), ilGetInteger(IL_NUM_FACES), frames, mips, faces);
                if (frames + mips + faces) c.note("chain");
                for (int q = 1; q <= frames; q++) { ilBindImage(id); CHECK(ilActiveImage(q), "load-chain", "%s: image %d cannot be selected", story.c_str(), q); get_image("a chained image"); }
                for (int q = 1; q <= mips; q++) { ilBindImage(id); CHECK(ilActiveMipmap(q), "load-chain", "%s: mipmap %d cannot be selected", story.c_str(), q); get_image("a mipmap"); }
                for (int q = 1; q <= faces; q++) { ilBindImage(id); CHECK(ilActiveFace(q), "load-chain", "%s: face %d cannot be selected", story.c_str(), q); get_image("a face"); }
                ilBindImage(id);
                // without the chain, so that later loads start from one image
            } else if (!nested) CHECK(same_img(get_image(), before), "load-idle", "%s: the handler does nothing, but the image changed", story.c_str());
        } else { // save
            Img m = gen_img(s, s.size(5), s.size(5), 1, s.pick({IL_RGB, IL_RGBA}), IL_UNSIGNED_BYTE);
            ilBindImage(id);
            put_image(m);
            std::string f = g_scratch + "/out." + se;
            bool blt = builtin(e);
            unlink(f.c_str());
            ILenum err = s.chance(1, 3) ? s.pick({(ILenum)IL_ILLEGAL_FILE_VALUE, (ILenum)IL_FILE_WRITE_ERROR}) : IL_NO_ERROR;
            bool self = s.chance(1, 8);
            g_calls.clear();
            std::string why;
            g_act = [&](int, const char *n) -> ILenum {
                Img g = get_image("in a save handler");
                if (!same_img(g, m)) why = "the handler sees " + g.str();
                write_file(n, Bytes(10, 'w'));
                if (self) ilRemoveSave(e.c_str());
                return err;
            };
            story += fmt("save as '%s'; ", f.c_str() + g_scratch.size() + 1);
            c.say(story.substr(said)); said = story.size();
            drain_errors();
            ILboolean ok = ilSaveImage(f.c_str());
            ILenum er = ilGetError();
            g_act = nullptr;
            CHECK(why.empty(), "handler", "%s: %s of %s", story.c_str(), why.c_str(), m.str().c_str());
            CHECK(same_img(get_image(), m), "save-image", "%s: the image changed", story.c_str());
            auto it = save.find(e);
            if (blt || it == save.end()) {
                CHECK(g_calls.empty(), "save-uncalled", "%s: handler %d called", story.c_str(), g_calls[0].handler);
                if (gone.count("s" + e) || it != save.end()) c.nontriv = true;
                CHECK(!ok == !blt, "save-builtin", "%s: gives %d, error %04x", story.c_str(), ok, er);
                if (!blt) CHECK(er != IL_NO_ERROR, "save-silent", "%s: fails without an error", story.c_str());
                struct stat st;
                CHECK(!stat(f.c_str(), &st) == blt, "save-file", "%s: gives %d, the file %s there", story.c_str(), ok, blt ? "is not" : "is");
                continue;
            }
            c.nontriv = true;
            c.note("save handler");
            CHECK(g_calls.size() == 1 && g_calls[0].save, "save-called", "%s: %zu handlers called", story.c_str(), g_calls.size());
            CHECK(g_calls[0].handler == it->second, "save-which", "%s: handler %d called, %d is registered", story.c_str(), g_calls[0].handler, it->second);
            CHECK(g_calls[0].file == f, "save-name", "%s: called with '%s'", story.c_str(), g_calls[0].file.c_str());
            if (self) { save.erase(it); gone.insert("s" + e); }
            if (err) { c.note("handler error"); 
                bool found = er == err;
                for (ILenum q; (q = ilGetError()) != IL_NO_ERROR;) found = found || q == err;
                CHECK(!ok && found, "save-error", "%s: handler gives error %04x, ilSaveImage gives %d and error %04x", story.c_str(), err, ok, er);
            }
            else CHECK(ok && er == IL_NO_ERROR, "save-ok", "%s: the handler succeeds, ilSaveImage gives %d and error %04x", story.c_str(), ok, er);
        }
    }
    g_act = nullptr;
}
