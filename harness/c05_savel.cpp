// C05: saving into memory with buffers of every size, asking for the size, and outputs that stop taking data.
#include "seeds.h"
#include <ctime>
extern "C" time_t time(time_t *t) { time_t v = 1700000000; if (t) *t = v; return v; }

Spec spec() {
    Spec s;
    s.id = "C05";
    s.rule = "the image was saved and at least one smaller buffer was tried";
    s.quick_cases = 100000;
    s.thorough_cases = 1000000;
    s.batch = 48;
    s.cpu_limit = 20;
    s.assumptions = {"a write callback that takes fewer bytes than asked reports how many it took, like fwrite"};
    s.min_frac = {{"saved", 0.5}, {"too small", 0.5}};
    return s;
}

// an output which takes only so many bytes
static Bytes g_out;
static size_t g_pos, g_room;
static bool g_refused;
static int g_opens, g_closes;
static ILHANDLE ILAPIENTRY l_open(ILconst_string) { g_opens++; g_pos = 0; g_out.clear(); return (ILHANDLE)&g_out; }
static void ILAPIENTRY l_close(ILHANDLE) { g_closes++; }
static ILint ILAPIENTRY l_seek(ILHANDLE, ILint off, ILint mode) {
    int64_t p = mode == IL_SEEK_SET ? off : mode == IL_SEEK_CUR ? (int64_t)g_pos + off : (int64_t)g_out.size() + off;
    if (p < 0) return -1;
    g_pos = p;
    return 0;
}
static ILint ILAPIENTRY l_tell(ILHANDLE) { return (ILint)g_pos; }
static ILint ILAPIENTRY l_write(const void *p, ILuint size, ILuint n, ILHANDLE) {
    size_t k = (size_t)size * n;
    if (!k) return 0;
    size_t room = g_pos < g_room ? g_room - g_pos : 0, m = std::min(k, room);
    if (m < k) g_refused = true;
    if (g_pos + m > g_out.size()) g_out.resize(g_pos + m);
    if (m) memcpy(&g_out[g_pos], p, m);
    g_pos += m;
    return (ILint)(m / size);
}
static ILint ILAPIENTRY l_putc(ILubyte c, ILHANDLE h) { return l_write(&c, 1, 1, h) == 1 ? c : IL_EOF; }

void one_case(Src &s, Ctx &c) {
    il_fresh();
    std::vector<SaveKind> kinds = save_kinds();
    kinds.push_back({IL_RAW, "raw"});
    const SaveKind &k = kinds[s.draw(kinds.size())];
    int w = s.size(40), h = s.size(40);
    if (k.type == IL_VTF && s.chance(3, 4)) { w = 1 << s.range(0, 5); h = 1 << s.range(0, 5); }
    Img im = s.chance(1, 3) ? gen_indexed(s, w, h, 1, s.range(1, 256), s.pick({IL_PAL_RGB24, IL_PAL_BGRA32, IL_PAL_BGR24, IL_PAL_RGBA32}))
                            : gen_img(s, w, h, s.chance(1, 20) ? 2 : 1, s.pick({IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA}),
                                      s.pick({IL_UNSIGNED_BYTE, IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_FLOAT, IL_UNSIGNED_INT}));
    ILuint id = new_image(im);
    std::string opt;
    auto onoff = [&](ILenum m, const char *n) { if (s.flip()) { ilSetInteger(m, IL_TRUE); opt += n; } };
    if (k.type == IL_TGA) onoff(IL_TGA_RLE, " rle");
    if (k.type == IL_SGI) onoff(IL_SGI_RLE, " rle");
    if (k.type == IL_BMP) onoff(IL_BMP_RLE, " rle");
    if (k.type == IL_PNG) onoff(IL_PNG_INTERLACE, " interlaced");
    if (k.type == IL_JPG) { onoff(IL_JPG_PROGRESSIVE, " progressive"); ilSetInteger(IL_JPG_QUALITY, s.range(1, 99)); }
    if (k.type == IL_DDS) ilSetInteger(IL_DXTC_FORMAT, s.pick({IL_DXT1, IL_DXT3, IL_DXT5, IL_3DC, IL_ATI1N}));
    if (k.type == IL_VTF && s.flip()) ilSetInteger(IL_VTF_COMP, IL_DXT_NO_COMP);
    if (s.flip()) ilHint(IL_COMPRESSION_HINT, IL_USE_COMPRESSION);
    if (s.chance(1, 6) && im.type == IL_UNSIGNED_BYTE && im.format != IL_COLOUR_INDEX && im.d == 1) { iluBuildMipmaps(); opt += " mipmaps"; }
    ilBindImage(id);
    if (s.chance(1, 4)) {
        std::string t(s.range(0, 200), 'd');
        for (ILenum e : {IL_TGA_ID_STRING, IL_TGA_AUTHNAME_STRING, IL_TGA_AUTHCOMMENT_STRING, IL_PNG_TITLE_STRING, IL_PNG_AUTHNAME_STRING, IL_PNG_DESCRIPTION_STRING, IL_TIF_DESCRIPTION_STRING, IL_TIF_AUTHNAME_STRING})
            if (s.flip()) ilSetString(e, t.c_str());
        opt += " strings";
    }
    drain_errors();
    c.say(fmt("%s as %s%s", im.str().c_str(), k.ext, opt.c_str()));
    std::string sg = std::string("-") + k.ext, what = fmt("%s as %s%s", im.str().c_str(), k.ext, opt.c_str());
    std::vector<Part> before = dump_chain(id);
    // asked for the size, possibly before anything was saved
    bool ask_first = s.flip();
    ILuint asked = 0;
    auto ask = [&] {
        ILuint a = ilSaveL(k.type, nullptr, 0);
        asked = a;
        if (!a) CHECK(ilGetError() != IL_NO_ERROR, "ask-noerror" + sg, "%s: no size and no error", what.c_str());
        drain_errors();
    };
    if (ask_first) ask();
    // the file, with more room than it needs
    size_t room = im.size() * 4 + (1 << 17);
    Bytes ref(room, 0xA5);
    ILuint n = ilSaveL(k.type, &ref[0], (ILuint)room);
    CHECK(n <= room, "overlong" + sg, "%s: %u bytes in a buffer of %zu", what.c_str(), n, room);
    if (!n) CHECK(ilGetError() != IL_NO_ERROR, "noerror" + sg, "%s: refused without an error", what.c_str());
    drain_errors();
    for (size_t i = n; n && i < room; i++) CHECK(ref[i] == 0xA5, "length" + sg, "%s: %u bytes reported, but byte %zu was written", what.c_str(), n, i);
    ref.resize(n);
    if (!ask_first) ask();
    CHECK((asked != 0) == (n != 0), "ask-result" + sg, "%s: a size of %u is reported, saving gives %u", what.c_str(), asked, n);
    c.note(n ? "saved" : "refused");
    if (n) {
        c.note(std::string("saved ") + k.ext);
        CHECK(asked == n, "ask-size" + sg, "%s: a size of %u is reported, the file has %u bytes", what.c_str(), asked, n);
        std::string path = g_scratch + "/f." + k.ext;
        if (s.chance(1, 4)) { // the number of bytes is that of the file
            ilEnable(IL_FILE_OVERWRITE);
            CHECK(ilSave(k.type, path.c_str()), "save" + sg, "%s: ilSave fails, ilSaveL does not", what.c_str());
            Bytes f = read_file(path);
            unlink(path.c_str());
            CHECK(f.size() == n && !memcmp(&f[0], &ref[0], n), "file" + sg, "%s: ilSaveL gives %u bytes, the file has %zu or differs", what.c_str(), n, f.size());
        }
    }
    int tries = s.range(2, 8);
    for (int i = 0; i < tries; i++) {
        size_t m = n ? n : 1000;
        switch (s.draw(7)) {
        case 0: break;
        case 1: m = m > 1 ? m - 1 : 0; break;
        case 2: m = m + 1 + s.draw(20); break;
        case 3: m = s.draw(std::min<size_t>(m, 200) + 1); break;
        case 4: m = m - std::min<size_t>(m, s.draw(40)); break;
        default: m = s.draw(m + 1); break;
        }
        bool out_cb = s.chance(1, 4);
        std::string w2 = fmt("%s, room for %zu of %u", what.c_str(), m, n);
        c.say(fmt("%zu%s", m, out_cb ? " callbacks" : ""));
        ILuint r;
        if (!out_cb) {
            const size_t pad = 64;
            uint8_t *blk = (uint8_t *)malloc(m ? m : 1); // its end is guarded by the sanitizer
            std::vector<uint8_t> old(m);
            for (size_t q = 0; q < m; q++) blk[q] = 0x5A;
            (void)pad;
            r = ilSaveL(k.type, blk, (ILuint)m);
            Bytes got(blk, blk + m);
            free(blk);
            CHECK(r <= m, "overlong" + sg, "%s: %u bytes are reported", w2.c_str(), r);
            if (r) {
                CHECK(r == n && !memcmp(&got[0], &ref[0], n), "truncated" + sg, "%s: success with %u bytes, which are not the file", w2.c_str(), r);
                for (size_t q = n; q < m; q++) CHECK(got[q] == 0x5A, "length" + sg, "%s: byte %zu after the end was written", w2.c_str(), q);
            }
        } else {
            g_room = m;
            g_pos = 0;
            g_out.clear();
            g_refused = false;
            g_opens = g_closes = 0;
            ilSetWrite(l_open, l_close, l_putc, l_seek, l_tell, l_write);
            bool f = s.flip();
            ilEnable(IL_FILE_OVERWRITE);
            r = f ? ilSaveF(k.type, (ILHANDLE)&g_out) : ilSave(k.type, "virtual");
            ilResetWrite();
            CHECK(g_opens == g_closes, "openclose" + sg, "%s: %d opened, %d closed", w2.c_str(), g_opens, g_closes);
            if (r) CHECK(g_out == ref, "write-error" + sg, "%s: the output took %zu bytes, which are not the file, and success is reported", w2.c_str(), g_out.size());
        }
        if (n && m >= n) CHECK(r != 0, "refused" + sg, "%s: refused, error %04x", w2.c_str(), ilGetError());
        if (!r) CHECK(ilGetError() != IL_NO_ERROR, "noerror" + sg, "%s: refused without an error", w2.c_str());
        drain_errors();
        if (n && m < n) { c.nontriv = true; c.note("too small"); }
        CHECK((ILuint)ilGetInteger(IL_CUR_IMAGE) == id, "bound" + sg, "%s: image %d is bound afterwards", w2.c_str(), ilGetInteger(IL_CUR_IMAGE));
        std::string d = chain_diff(before, dump_chain(id));
        CHECK(d.empty(), "changed" + sg, "%s: the image changed: %s", w2.c_str(), d.c_str());
    }
    ilDeleteImages(1, &id);
    ilShutDown();
    g_il_up = false;
    CHECK(mem::live == 0, "leak" + sg, "%s: %llu blocks of memory are never freed", what.c_str(), (unsigned long long)mem::live);
}
