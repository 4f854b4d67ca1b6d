// What the checks of the image library utilities share: regions and their pixels.
#pragma once
#include "ilh.h"

struct Region {
    std::vector<std::array<double, 2>> p; // in pixels of the image, row 0 first in memory
    bool on() const { return !p.empty(); }
    // 1: well inside, 0: well outside, -1: too close to the border to say
    int where(int x, int y) const {
        if (!on()) return 1;
        bool in = false;
        for (size_t i = 0, j = p.size() - 1; i < p.size(); j = i++) {
            double x1 = p[j][0], y1 = p[j][1], x2 = p[i][0], y2 = p[i][1], dx = x2 - x1, dy = y2 - y1, l = dx * dx + dy * dy;
            double t = l > 0 ? std::min(1.0, std::max(0.0, ((x - x1) * dx + (y - y1) * dy) / l)) : 0;
            if (hypot(x - x1 - t * dx, y - y1 - t * dy) <= 1.6) return -1;
            if ((y1 > y) != (y2 > y) && x < x1 + (y - y1) * dx / dy) in = !in;
        }
        return in;
    }
    std::string str() const {
        std::string o = "region";
        for (auto &q : p) o += fmt(" (%g,%g)", q[0], q[1]);
        return o;
    }
};
// Sets a region for an image of this size, as integers or as fractions.
static inline Region gen_region(Src &s, int w, int h) {
    Region r;
    std::vector<ILpointi> pi;
    std::vector<ILpointf> pf;
    int kind = s.range(0, 2), n = kind == 0 ? 4 : s.range(3, 7);
    bool floats = s.flip();
    for (int i = 0; i < n; i++) {
        ILpointi q;
        q.x = s.range(-3, w + 3);
        q.y = s.range(-3, h + 3);
        pi.push_back(q);
    }
    if (kind == 0) { // an upright rectangle
        int x0 = std::min(pi[0].x, pi[1].x), x1 = std::max(pi[0].x, pi[1].x), y0 = std::min(pi[0].y, pi[1].y), y1 = std::max(pi[0].y, pi[1].y);
        if (s.flip()) { x0 = std::min(x0, w / 4); y0 = std::min(y0, h / 4); x1 = std::max(x1, w - w / 4); y1 = std::max(y1, h - h / 4); }
        pi[0].x = x0; pi[0].y = y0; pi[1].x = x1; pi[1].y = y0; pi[2].x = x1; pi[2].y = y1; pi[3].x = x0; pi[3].y = y1;
    }
    for (auto &q : pi) {
        ILpointf f;
        f.x = (q.x + 0.25f) / w;
        f.y = (q.y + 0.25f) / h;
        pf.push_back(f);
        if (floats) r.p.push_back({(double)f.x * w, (double)f.y * h}); else r.p.push_back({(double)q.x, (double)q.y});
    }
    if (floats) iluRegionfv(pf.data(), (ILuint)pf.size()); else iluRegioniv(pi.data(), (ILuint)pi.size());
    // the library keeps its own copy
    for (auto &q : pi) q.x = q.y = 1;
    for (auto &q : pf) q.x = q.y = 0.5f;
    return r;
}
static inline void no_region() { iluRegioniv(nullptr, 0); }
