// C11: copies are complete and independent; memory handed in is copied. Stateful, against a model of plain images.
#include "ilh.h"

Spec spec() {
    Spec s;
    s.id = "C11";
    s.rule = "an image was copied and the copy or the source was changed afterwards";
    s.quick_cases = 400000;
    s.thorough_cases = 4000000;
    s.batch = 64;
    s.cpu_limit = 10;
    s.assumptions = {"a copy holds the copied element alone: its sub-images stay behind (documented by the commented out iCopySubImages)", "what an edit makes of its image is taken from the edited image itself; C07, C08, C14, C15 judge it"};
    s.min_frac = {{"copy", 0.6}, {"edit", 0.6}};
    return s;
}
struct Model {
    Img im;
    int dur = 0, ox = 0, oy = 0, cube = 0, next = 0;
};
static void check_one(const Model &m, const std::string &what) {
    Img g = get_image(what.c_str());
    CHECK(g.w == m.im.w && g.h == m.im.h && g.d == m.im.d && g.format == m.im.format && g.type == m.im.type && g.origin == m.im.origin, "shape", "%s: is %s, wanted %s", what.c_str(), g.str().c_str(), m.im.str().c_str());
    CHECK(g.data == m.im.data, "pixels", "%s: the pixels of %s differ", what.c_str(), g.str().c_str());
    CHECK(g.paltype == m.im.paltype && g.pal == m.im.pal, "palette", "%s: the palette differs, %s, wanted %s", what.c_str(), g.str().c_str(), m.im.str().c_str());
    CHECK(ilGetInteger(IL_IMAGE_DURATION) == m.dur && ilGetInteger(IL_IMAGE_OFFX) == m.ox && ilGetInteger(IL_IMAGE_OFFY) == m.oy && ilGetInteger(IL_IMAGE_CUBEFLAGS) == m.cube, "attributes",
          "%s: duration %d offsets %d,%d cube flags %x, wanted %d %d,%d %x", what.c_str(), ilGetInteger(IL_IMAGE_DURATION), ilGetInteger(IL_IMAGE_OFFX), ilGetInteger(IL_IMAGE_OFFY), ilGetInteger(IL_IMAGE_CUBEFLAGS), m.dur, m.ox, m.oy, m.cube);
    CHECK(ilGetInteger(IL_NUM_IMAGES) == m.next, "chain", "%s: %d images follow, wanted %d", what.c_str(), ilGetInteger(IL_NUM_IMAGES), m.next);
}
static void pull(Model &m) {
    m.im = get_image("edited");
    m.dur = ilGetInteger(IL_IMAGE_DURATION);
    m.ox = ilGetInteger(IL_IMAGE_OFFX);
    m.oy = ilGetInteger(IL_IMAGE_OFFY);
    m.cube = ilGetInteger(IL_IMAGE_CUBEFLAGS);
}
static const ILenum F[] = {IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_ALPHA};
static const ILenum T[] = {IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE, IL_HALF, IL_BYTE, IL_SHORT, IL_INT};
static Img gen(Src &s) {
    int w = s.size(12), h = s.size(12), d = s.chance(1, 6) ? s.range(1, 3) : 1;
    Img im;
    if (s.chance(1, 3)) im = gen_indexed(s, w, h, d, s.range(1, 256), s.pick({IL_PAL_RGB24, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGRA32, IL_PAL_RGB32, IL_PAL_BGR32}));
    else im = gen_img(s, w, h, d, F[s.draw(7)], s.flip() ? IL_UNSIGNED_BYTE : T[s.draw(9)]);
    return im;
}
// hands the library memory that is overwritten and freed afterwards
static void give(const Img &im, bool surface) {
    uint8_t *p = (uint8_t *)malloc(im.data.size());
    memcpy(p, &im.data[0], im.data.size());
    int mode = im.w & 1;
    bool ok;
    if (mode) {
        ok = (surface ? ilTexImageSurface : ilTexImage)(im.w, im.h, im.d, im.nc(), im.format, im.type, nullptr) && ilSetData(p);
    } else
        ok = (surface ? ilTexImageSurface : ilTexImage)(im.w, im.h, im.d, im.nc(), im.format, im.type, p);
    memset(p, 0xA5, im.data.size());
    free(p);
    CHECK(ok, "give", "the image %s is refused, error %04x", im.str().c_str(), ilGetError());
    ilRegisterOrigin(im.origin);
    if (im.paltype != IL_PAL_NONE) {
        uint8_t *q = (uint8_t *)malloc(im.pal.size());
        memcpy(q, &im.pal[0], im.pal.size());
        ilRegisterPal(q, im.pal.size(), im.paltype);
        memset(q, 0xA5, im.pal.size());
        free(q);
    }
}
void one_case(Src &s, Ctx &c) {
    il_fresh();
    std::map<ILuint, Model> names;
    std::vector<ILuint> ids;
    auto fresh = [&](ILuint id) {
        Model m;
        m.im = gen(s);
        ilBindImage(id);
        give(m.im, false);
        names[id] = m;
        c.say(fmt("new %u %s", id, m.im.str().c_str()));
    };
    for (int i = 0, n = s.range(1, 3); i < n; i++) {
        ids.push_back(ilGenImage());
        fresh(ids.back());
    }
    std::set<ILuint> related;
    bool copied = false, edited = false;
    int n = s.range(2, 14);
    for (int i = 0; i < n; i++) {
        ILuint id = ids[s.draw(ids.size())];
        ilBindImage(id);
        drain_errors();
        Model &m = names[id];
        switch (s.range(0, 9)) {
        case 0: { // copy over an existing image
            ILuint from = ids[s.draw(ids.size())];
            c.say(fmt("copy %u -> %u", from, id));
            CHECK(ilCopyImage(from), "copy", "ilCopyImage fails, error %04x", ilGetError());
            CHECK(ilGetError() == IL_NO_ERROR, "copy-error", "an error after a copy");
            if (from != id) {
                Model k = names[from];
                k.next = 0;
                m = k;
            }
            related.insert(id);
            related.insert(from);
            copied = true;
            break;
        }
        case 1: case 2: { // clone
            if (ids.size() > 5) break;
            ILuint k = ilCloneCurImage();
            c.say(fmt("clone %u -> %u", id, k));
            CHECK(k != 0 && !names.count(k) && ilIsImage(k), "clone", "ilCloneCurImage returns %u, error %04x", k, ilGetError());
            CHECK(ilGetError() == IL_NO_ERROR, "clone-error", "an error after a clone");
            Model mm = m;
            mm.next = 0;
            names[k] = mm;
            ids.push_back(k);
            related.insert(id);
            related.insert(k);
            copied = true;
            break;
        }
        case 3: // attributes
            m.dur = s.range(0, 1000);
            m.ox = s.range(-100, 100);
            m.oy = s.range(-100, 100);
            m.cube = s.chance(1, 2) ? 0 : 1 << s.range(10, 15);
            ilSetInteger(IL_IMAGE_DURATION, m.dur);
            ilSetInteger(IL_IMAGE_OFFX, m.ox);
            ilSetInteger(IL_IMAGE_OFFY, m.oy);
            ilSetInteger(IL_IMAGE_CUBEFLAGS, m.cube);
            c.say(fmt("attributes %u", id));
            edited |= related.count(id);
            break;
        case 4: case 5: { // edits
            int e = s.range(0, 9);
            c.say(fmt("edit %u by %d", id, e));
            switch (e) {
            case 0: iluFlipImage(); break;
            case 1: { uint8_t px[4] = {9, 8, 7, 6}; ilSetPixels(s.range(0, m.im.w - 1), s.range(0, m.im.h - 1), 0, 1, 1, 1, IL_RGBA, IL_UNSIGNED_BYTE, px); break; }
            case 2: ilConvertImage(s.pick({IL_RGBA, IL_BGR, IL_LUMINANCE}), s.pick({IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_FLOAT})); break;
            case 3: ilClearColour(.2f, .4f, .6f, .8f); ilClearImage(); break;
            case 4: if (m.im.paltype != IL_PAL_NONE) ilConvertPal(s.pick({IL_PAL_BGR24, IL_PAL_RGBA32, IL_PAL_RGB24})); break;
            case 5: ilSetAlpha(.5); break;
            case 6: { // straight through the pointers the library hands out
                ILubyte *p = ilGetData();
                for (size_t k = 0; k < m.im.data.size(); k += 3) p[k] = (uint8_t)(m.im.format == IL_COLOUR_INDEX ? 0 : p[k] ^ 0x55);
                if (m.im.paltype != IL_PAL_NONE) ilGetPalette()[0] ^= 0xFF;
                break;
            }
            case 7: iluSwapColours(); break;
            case 8: if (m.im.paltype != IL_PAL_NONE) { uint8_t q[9] = {1, 2, 3, 4, 5, 6, 7, 8, 9}; ilRegisterPal(q, 9, IL_PAL_RGB24); } break;
            case 9: ilOverlayImage(ids[s.draw(ids.size())], 0, 0, 0); break;
            }
            drain_errors();
            pull(m);
            if (m.im.paltype != IL_PAL_NONE && m.im.format == IL_COLOUR_INDEX) { // keep the indices legal for the next operation
                size_t nc = m.im.pal.size() / pal_bpp(m.im.paltype);
                for (auto &b : m.im.data) if (b >= nc) b = 0;
                ilSetData(&m.im.data[0]);
            }
            edited |= related.count(id);
            break;
        }
        case 6: fresh(id); edited |= related.count(id); break;
        case 7: // delete
            if (ids.size() < 2) break;
            c.say(fmt("delete %u", id));
            ilDeleteImage(id);
            names.erase(id);
            ids.erase(std::find(ids.begin(), ids.end(), id));
            edited |= related.count(id);
            break;
        case 8: { // images that follow: they stay behind when the base is copied, and can be copied themselves
            if (m.next) break;
            ILuint got = ilCreateSubImage(IL_SUB_NEXT, 1);
            CHECK(got == 1, "sub", "ilCreateSubImage returns %u", got);
            m.next = 1;
            ilActiveImage(1);
            Model sub;
            sub.im = gen(s);
            give(sub.im, true);
            c.say(fmt("follower of %u %s", id, sub.im.str().c_str()));
            if (s.flip() && ids.size() < 6) {
                ILuint k = ilCloneCurImage();
                CHECK(k != 0 && !names.count(k), "clone-sub", "ilCloneCurImage of a sub-image returns %u", k);
                CHECK((ILuint)ilGetInteger(IL_CUR_IMAGE) == id && ilGetInteger(IL_ACTIVE_IMAGE) == 1, "clone-sub-bound", "after cloning a sub-image %d/%d is selected", ilGetInteger(IL_CUR_IMAGE), ilGetInteger(IL_ACTIVE_IMAGE));
                names[k] = sub;
                ids.push_back(k);
                related.insert(k);
                copied = true;
                c.say(fmt("cloned to %u", k));
            } else if (s.flip() && ids.size() > 1) {
                ILuint from = ids[s.draw(ids.size())];
                if (from == id) break;
                c.say(fmt("copy %u into the follower", from));
                CHECK(ilCopyImage(from), "copy-sub", "ilCopyImage into a sub-image fails, error %04x", ilGetError());
                CHECK((ILuint)ilGetInteger(IL_CUR_IMAGE) == id && ilGetInteger(IL_ACTIVE_IMAGE) == 1, "copy-sub-bound", "after copying %d/%d is selected", ilGetInteger(IL_CUR_IMAGE), ilGetInteger(IL_ACTIVE_IMAGE));
                Img g = get_image("follower");
                const Img &w = names[from].im;
                CHECK(g.data == w.data && g.pal == w.pal && g.format == w.format && g.w == w.w && g.origin == w.origin, "copy-sub", "the follower differs from its source");
            }
            break;
        }
        case 9: { // refused
            ILuint bad = 5000 + s.range(0, 100);
            CHECK(!ilCopyImage(bad) && ilGetError() != IL_NO_ERROR && !ilIsImage(bad), "refuse", "copying an image that does not exist succeeds");
            c.say("copy of nothing");
            break;
        }
        }
        CHECK((ILuint)ilGetInteger(IL_CUR_IMAGE) == (ilIsImage(id) ? id : 0), "bound", "image %d is bound, wanted %u", ilGetInteger(IL_CUR_IMAGE), id);
        for (auto &kv : names) {
            ilBindImage(kv.first);
            check_one(kv.second, fmt("image %u after step %d", kv.first, i));
        }
    }
    for (ILuint id : ids) ilDeleteImage(id);
    ilShutDown();
    CHECK(mem::live == 0, "leak", "%llu blocks stay allocated", (unsigned long long)mem::live);
    c.nontriv = copied && edited;
    if (copied) c.note("copy");
    if (edited) c.note("edit");
}
