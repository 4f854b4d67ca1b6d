// C25: well formed files written by an independent encoder load as the picture they describe.
#include "filegen.h"

Spec spec() {
    Spec s;
    s.id = "C25";
    s.rule = "the file loaded and the picture has more than one colour";
    s.quick_cases = 160000;
    s.thorough_cases = 1600000;
    s.batch = 64;
    s.cpu_limit = 20;
    s.min_frac = {{"judged", 0.8}};
    return s;
}

// compares the current image with what the file shows; true if it has more than one colour
static bool judge(const GFile &g, const Pic &pic, int index, const std::string &sig) {
    Img im = upright(get_image(g.variant.c_str()));
    CHECK(im.w == pic.w && im.h * im.d == pic.h && im.d == (pic.d ? pic.d : g.depth), "dims-" + sig, "%s: picture %d loaded as %s, the file says %dx%d", g.variant.c_str(), index, im.str().c_str(), pic.w, pic.h);
    bool multi = false, turned = false;
    if (g.flip_unsure) { // either way, but the same in every slice
        auto bad_rows = [&](bool turn) {
            int n = 0;
            for (int y = 0; y < pic.h; y++)
                for (int x = 0; x < pic.w; x++) {
                    auto got = rgba_of(im, x, turn ? im.h - 1 - y % im.h : y % im.h, y / im.h);
                    const double *want = pic.at(x, y);
                    for (int ch = 0; ch < (g.alpha ? 4 : 3); ch++) if (!(g.skip >> ch & 1) && !(fabs(got[ch] - want[ch]) <= g.tol * std::max(1.0, fabs(want[ch])))) n++;
                }
            return n;
        };
        turned = bad_rows(true) < bad_rows(false);
    }
    for (int y = 0; y < pic.h; y++)
        for (int x = 0; x < pic.w; x++) {
            auto got = rgba_of(im, x, turned ? im.h - 1 - y % im.h : y % im.h, y / im.h);
            const double *want = pic.at(x, y);
            if (memcmp(want, pic.at(0, 0), 32)) multi = true;
            bool bad = false;
            for (int ch = 0; ch < (g.alpha ? 4 : 3); ch++)
                if (!(g.skip >> ch & 1) && !(fabs(got[ch] - want[ch]) <= g.tol * std::max(1.0, fabs(want[ch])))) bad = true;
            if (bad && g.alpha && want[3] == 0 && got[3] == 0) bad = false; // the colour of what is fully transparent shows nowhere
            CHECK(!bad, "pixels-" + sig, "%s %s: picture %d pixel (%d,%d) is (%.4f %.4f %.4f %.4f), the file says (%.4f %.4f %.4f %.4f)", g.variant.c_str(), im.str().c_str(), index, x, y, got[0], got[1],
                  got[2], got[3], want[0], want[1], want[2], want[3]);
        }
    return multi;
}

static bool judge_raw(const GFile &g, int w, int h, const Bytes &raw, const std::string &sig) {
    Img im = upright(get_image(g.variant.c_str()));
    CHECK(im.w == w && im.h == h && im.d == 1, "dims-" + sig, "%s: loaded as %s, the file says %dx%d", g.variant.c_str(), im.str().c_str(), w, h);
    CHECK(im.data.size() == raw.size() && im.format == IL_COLOUR_INDEX, "dims-" + sig, "%s: loaded as %s, the file has indices", g.variant.c_str(), im.str().c_str());
    for (size_t i = 0; i < raw.size(); i++) CHECK(im.data[i] == raw[i], "indices-" + sig, "%s %s: index at (%zu,%zu) is %d, the file says %d", g.variant.c_str(), im.str().c_str(), i % w, i / w, im.data[i], raw[i]);
    return Bytes(raw.size(), raw[0]) != raw;
}

void one_case(Src &s, Ctx &c) {
    il_fresh();
    const char *only = getenv("KIND");
    const GenKind *k = &s.pick(gen_kinds());
    if (only) for (auto &q : gen_kinds()) if (!strcmp(q.name, only)) k = &q;
    GFile g = gen_file(s, *k);
    c.say(fmt("%s %dx%d (%zu bytes)", g.variant.c_str(), g.pic.w, g.pic.h, g.b.size()));
    c.note(std::string("kind ") + k->name);
    ILuint id = ilGenImage();
    ilBindImage(id);
    int how = s.range(0, g.by_name ? 3 : 2);
    if (how == 1 && !g.detect) how = 0;
    bool ok;
    std::string sig = k->name;
    if (how <= 1) ok = ilLoadL(how == 0 ? g.type : IL_TYPE_UNKNOWN, &g.b[0], (ILuint)g.b.size());
    else {
        std::string p = g_scratch + "/f." + g.ext;
        write_file(p, g.b);
        ok = how == 2 ? ilLoad(g.type, p.c_str()) : ilLoadImage(p.c_str());
    }
    CHECK(ok, "refused-" + sig, "%s: refused (%s), error %04x", g.variant.c_str(), how == 0 ? "memory" : how == 1 ? "memory, unknown type" : how == 2 ? "file" : "ilLoadImage", ilGetError());
    ILenum e = ilGetError();
    CHECK(e == IL_NO_ERROR, "error-" + sig, "%s: loaded, but error %04x is pending", g.variant.c_str(), e);
    bool multi = false;
    c.note("judged");
    if (!g.raw.empty()) multi = judge_raw(g, g.pic.w, g.pic.h, g.raw, sig);
    else multi = judge(g, g.pic, 0, sig);
    int n = ilGetInteger(IL_NUM_IMAGES) + 1;
    CHECK(n == g.images, "images-" + sig, "%s: %d pictures, the file has %d", g.variant.c_str(), n, g.images);
    for (size_t i = 0; i < g.more.size(); i++) {
        ilBindImage(id);
        CHECK(ilActiveImage(i + 1), "images-" + sig, "%s: picture %zu of %d cannot be selected", g.variant.c_str(), i + 1, g.images);
        judge(g, g.more[i], i + 1, sig);
        c.note("further picture judged");
    }
    size_t nm = g.mips.size() + g.raw_mips.size();
    if (nm) {
        ilBindImage(id);
        CHECK(ilGetInteger(IL_NUM_MIPMAPS) == (int)nm, "mips-" + sig, "%s: %d mipmaps, the file has %zu", g.variant.c_str(), ilGetInteger(IL_NUM_MIPMAPS), nm);
        for (size_t i = 0; i < nm; i++) {
            ilBindImage(id);
            CHECK(ilActiveMipmap(i + 1), "mips-" + sig, "%s: mipmap %zu of %zu cannot be selected", g.variant.c_str(), i + 1, nm);
            if (g.mips.empty()) judge_raw(g, g.raw_mips[i].w, g.raw_mips[i].h, g.raw_mips[i].b, sig);
            else judge(g, g.mips[i], (int)i + 1, sig);
            c.note("mipmap judged");
        }
    }
    if (!g.cube.empty()) {
        ilBindImage(id);
        CHECK(ilGetInteger(IL_NUM_FACES) == (int)g.faces.size(), "faces-" + sig, "%s: %d further faces, the file has %zu", g.variant.c_str(), ilGetInteger(IL_NUM_FACES), g.faces.size());
        for (size_t k = 0; k < g.cube.size(); k++) {
            ilBindImage(id);
            if (k) CHECK(ilActiveFace(k), "faces-" + sig, "%s: face %zu cannot be selected", g.variant.c_str(), k);
            CHECK((ILuint)ilGetInteger(IL_IMAGE_CUBEFLAGS) == g.cube[k], "faces-" + sig, "%s: face %zu has the flags %x, the file says %x", g.variant.c_str(), k, ilGetInteger(IL_IMAGE_CUBEFLAGS), g.cube[k]);
            if (!k) continue;
            judge(g, g.faces[k - 1], (int)k, "face-" + sig);
            c.note("face judged");
            auto &fm = g.face_mips[k - 1];
            CHECK(ilGetInteger(IL_NUM_MIPMAPS) == (int)fm.size(), "facemips-" + sig, "%s: face %zu has %d mipmaps, the file has %zu", g.variant.c_str(), k, ilGetInteger(IL_NUM_MIPMAPS), fm.size());
            for (size_t i = 0; i < fm.size(); i++) {
                ilBindImage(id);
                CHECK(ilActiveFace(k) && ilActiveMipmap(i + 1), "facemips-" + sig, "%s: mipmap %zu of face %zu cannot be selected", g.variant.c_str(), i + 1, k);
                judge(g, fm[i], (int)i + 1, "facemip-" + sig);
            }
        }
    }
    c.nontriv = multi;
    ilDeleteImages(1, &id);
    ilShutDown();
    g_il_up = false;
    CHECK(mem::live == 0, "leak-" + sig, "%s: %llu blocks stay allocated", g.variant.c_str(), (unsigned long long)mem::live);
}
