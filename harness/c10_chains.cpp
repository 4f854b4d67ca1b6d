// C10: chains of images, mipmaps, faces and layers against a tree.
#include "ilh.h"

Spec spec() {
    Spec s;
    s.id = "C10";
    s.rule = "the tree had at least 3 elements and an element below the base was selected";
    s.quick_cases = 480000;
    s.thorough_cases = 4800000;
    s.batch = 64;
    s.cpu_limit = 10;
    s.assumptions = {"selections count from the current element along its own chain; IL_ACTIVE_* is the position on the base's own chain of that kind and 0 elsewhere; faces come from a generated DDS cube map"};
    s.min_frac = {{"created", 0.6}, {"selected", 0.5}};
    return s;
}
enum Kind { NEXT, MIP, FACE, LAYER, KINDS };
struct Node {
    Img im; // w == 0: fresh
    Node *kid[KINDS] = {nullptr, nullptr, nullptr, nullptr};
    Node *up = nullptr;
    Kind how = NEXT;
    ~Node() {
        for (auto k : kid) delete k;
    }
};
static const char *KN[] = {"image", "mipmap", "face", "layer"};
static bool select_(Kind k, int n) {
    switch (k) {
    case NEXT: return ilActiveImage(n);
    case MIP: return ilActiveMipmap(n);
    case FACE: return ilActiveFace(n);
    default: return ilActiveLayer(n);
    }
}
static const ILenum NUM[] = {IL_NUM_IMAGES, IL_NUM_MIPMAPS, IL_NUM_FACES, IL_NUM_LAYERS}, ACT[] = {IL_ACTIVE_IMAGE, IL_ACTIVE_MIPMAP, IL_ACTIVE_FACE, IL_ACTIVE_LAYER};
static int count(Node *n, Kind k) {
    int r = 0;
    for (n = n->kid[k]; n; n = n->kid[k]) r++;
    return r;
}
static int position(Node *base, Node *n, Kind k) {
    int r = 0;
    for (Node *p = base; p; p = p->kid[k], r++)
        if (p == n) return r;
    return 0;
}
static std::string path(Node *n) { return n->up ? path(n->up) + "/" + KN[n->how] : "base"; }
static void go(ILuint name, Node *n) {
    std::vector<Kind> v;
    for (; n->up; n = n->up) v.push_back(n->how);
    ilBindImage(name);
    for (size_t i = v.size(); i-- > 0;) CHECK(select_(v[i], 1), "lost", "an element (%s) of the tree is gone", KN[v[i]]);
}
static int verify(ILuint name, Node *base, Node *n) {
    go(name, n);
    std::string p = path(n);
    for (int k = 0; k < KINDS; k++) {
        CHECK(ilGetInteger(NUM[k]) == count(n, (Kind)k), "num", "%s: %d %ss, wanted %d", p.c_str(), ilGetInteger(NUM[k]), KN[k], count(n, (Kind)k));
        CHECK(ilGetInteger(ACT[k]) == position(base, n, (Kind)k), "active", "%s: active %s is %d, wanted %d", p.c_str(), KN[k], ilGetInteger(ACT[k]), position(base, n, (Kind)k));
    }
    Img got = get_image(p.c_str());
    if (!n->im.w) CHECK(got.w == 1 && got.h == 1 && got.d == 1, "fresh", "%s: a new element is %s", p.c_str(), got.str().c_str());
    else CHECK(got.w == n->im.w && got.h == n->im.h && got.d == n->im.d && got.format == n->im.format && got.type == n->im.type && got.data == n->im.data && got.pal == n->im.pal && got.origin == n->im.origin,
               "content", "%s is %s with other content, wanted %s", p.c_str(), got.str().c_str(), n->im.str().c_str());
    int t = 1;
    for (auto k : n->kid)
        if (k) t += verify(name, base, k);
    return t;
}
static void put32(Bytes &b, uint32_t v) { for (int i = 0; i < 4; i++) b.push_back(v >> (8 * i)); }
// an uncompressed cube map with six faces and a chain of mipmaps in each
static Bytes cube(Src &s, int e, int mips, std::vector<std::vector<Img>> &out) {
    Bytes b = {'D', 'D', 'S', ' '};
    put32(b, 124);
    put32(b, 0x1 | 0x2 | 0x4 | 0x1000 | (mips > 1 ? 0x20000 : 0));
    put32(b, e);
    put32(b, e);
    put32(b, 0);
    put32(b, 0);
    put32(b, mips > 1 ? mips : 0);
    for (int i = 0; i < 11; i++) put32(b, 0);
    put32(b, 32);
    put32(b, 0x41); // RGB with alpha
    put32(b, 0);
    put32(b, 32);
    put32(b, 0xff0000);
    put32(b, 0xff00);
    put32(b, 0xff);
    put32(b, 0xff000000);
    put32(b, 0x1008 | (mips > 1 ? 0x400000 : 0));
    put32(b, 0x200 | 0xfc00);
    for (int i = 0; i < 3; i++) put32(b, 0);
    for (int f = 0; f < 6; f++) {
        out.push_back({});
        int w = e;
        for (int m = 0; m < mips; m++, w = std::max(1, w / 2)) {
            Img im = gen_img(s, w, w, 1, IL_BGRA, IL_UNSIGNED_BYTE);
            im.origin = IL_ORIGIN_UPPER_LEFT;
            b.insert(b.end(), im.data.begin(), im.data.end());
            for (size_t i = 0; i < im.data.size(); i += 4) std::swap(im.data[i], im.data[i + 2]);
            im.format = IL_RGBA;
            out.back().push_back(im);
        }
    }
    return b;
}
static Img small(Src &s) {
    if (s.chance(1, 4)) return gen_indexed(s, s.range(1, 5), s.range(1, 5), 1, s.range(1, 20), IL_PAL_BGR24);
    return gen_img(s, s.range(1, 6), s.range(1, 6), s.range(1, 2), s.pick({IL_RGB, IL_BGRA, IL_LUMINANCE}), s.pick({IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT}));
}
void one_case(Src &s, Ctx &c) {
    il_fresh();
    ILuint names[2];
    ilGenImages(2, names);
    Node *bases[2] = {new Node, new Node};
    int b = 0;
    Node *cur = bases[0];
    ilBindImage(names[0]);
    int n = s.range(3, 30), most = 0;
    bool below = false;
    for (int i = 0; i < n; i++) {
        drain_errors();
        switch (s.range(0, 8)) {
        case 0: case 1: { // create
            Kind k = s.pick({NEXT, MIP, LAYER});
            int num = s.range(1, 4);
            ILuint got = ilCreateSubImage(k == NEXT ? IL_SUB_NEXT : k == MIP ? IL_SUB_MIPMAP : IL_SUB_LAYER, num);
            c.say(fmt("create %d %ss at %s", num, KN[k], path(cur).c_str()));
            CHECK(got == (ILuint)num, "create-count", "ilCreateSubImage(%s, %d) returned %u", KN[k], num, got);
            delete cur->kid[k];
            cur->kid[k] = nullptr;
            Node *p = cur;
            for (int j = 0; j < num; j++) {
                Node *q = new Node;
                q->up = p;
                q->how = k;
                p->kid[k] = q;
                p = q;
            }
            c.note("created");
            break;
        }
        case 2: case 3: case 4: { // select
            Kind k = s.pick({NEXT, MIP, FACE, LAYER});
            int have = count(cur, k);
            int num = s.chance(3, 4) ? s.range(0, have) : s.pick({have + 1, have + 2, have + 7, INT_MAX, -1});
            bool ok = select_(k, num), want = num >= 0 && num <= have;
            ILenum er = ilGetError();
            c.say(fmt("select %s %d of %d", KN[k], num, have));
            CHECK(ok == want, "select", "selecting %s %d of %d %s", KN[k], num, have, ok ? "succeeded" : "failed");
            CHECK((er == IL_NO_ERROR) == want, "select-error", "selecting %s %d of %d leaves error %04x", KN[k], num, have, er);
            if (ok) {
                for (int j = 0; j < num; j++) cur = cur->kid[k];
                if (cur->up) below = true, c.note("selected");
            }
            break;
        }
        case 5: { // content
            Img im = small(s);
            bool surf = s.flip();
            put_image(im, surf);
            c.say(fmt("%s at %s", surf ? "surface" : "texture", path(cur).c_str()));
            cur->im = im;
            if (!surf)
                for (auto &k : cur->kid) delete k, k = nullptr;
            break;
        }
        case 6: { // bind
            if (s.flip()) b ^= 1;
            ilBindImage(names[b]);
            c.say(fmt("bind %d", b));
            cur = bases[b];
            break;
        }
        case 7: { // a cube map
            if (!s.chance(1, 3)) break;
            int e = s.pick({1, 2, 4, 8}), mips = 1;
            if (s.flip()) while ((e >> mips) > 0) mips++;
            std::vector<std::vector<Img>> im;
            Bytes f = cube(s, e, mips, im);
            ilBindImage(names[b]);
            CHECK(ilLoadL(IL_DDS, &f[0], (ILuint)f.size()), "cube", "the cube map (%d, %d mipmaps) does not load, error %04x", e, mips, ilGetError());
            c.say(fmt("load cube %d with %d levels", e, mips));
            c.note("cube");
            delete bases[b];
            bases[b] = cur = new Node;
            Node *face = cur;
            for (int q = 0; q < 6; q++) {
                if (q) {
                    Node *x = new Node;
                    x->up = face;
                    x->how = FACE;
                    face->kid[FACE] = x;
                    face = x;
                }
                Node *lv = face;
                for (int m = 0; m < mips; m++) {
                    if (m) {
                        Node *x = new Node;
                        x->up = lv;
                        x->how = MIP;
                        lv->kid[MIP] = x;
                        lv = x;
                    }
                    lv->im = im[q][m];
                }
            }
            ilBindImage(names[b]);
            break;
        }
        case 8: { // rejected or empty requests
            int w = s.range(0, 2);
            if (w == 0) CHECK(ilCreateSubImage(s.pick({0u, 0x0683u, 0x9999u}), 2) == 0 && ilGetError() != IL_NO_ERROR, "create-bad", "an invalid kind of sub-image was accepted");
            else if (w == 1) CHECK(ilCreateSubImage(IL_SUB_NEXT, 0) == 0, "create-none", "created something");
            else {
                ilDeleteImage(names[b]); // deleting frees the chain, the name starts again
                delete bases[b];
                ilBindImage(names[b]);
                cur = bases[b] = new Node;
                c.say(fmt("delete %d", b));
            }
            break;
        }
        }
        if (s.chance(1, 4) || i == n - 1) {
            for (int j = 0; j < 2; j++) most = std::max(most, verify(names[j], bases[j], bases[j]));
            go(names[b], cur);
        }
        if (s.chance(1, 16)) { // a sub-image must not be what a name gives
            ilBindImage(names[b]);
            CHECK((ILuint)ilGetInteger(IL_CUR_IMAGE) == names[b] && ilGetInteger(IL_ACTIVE_IMAGE) == 0, "bind-base", "binding does not select the base image");
            cur = bases[b];
        }
    }
    for (int j = 0; j < 2; j++) delete bases[j];
    ilDeleteImages(2, names);
    ilShutDown();
    CHECK(mem::live == 0, "leak", "%llu allocations remain after deleting the names and ilShutDown", (unsigned long long)mem::live);
    c.nontriv = most >= 3 && below;
}
