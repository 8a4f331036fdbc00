#include "pbt.h"
#include "cmmcore/vec.h"
#include "cmmcore/polyline.h"
#include <map>
#include <set>
using namespace cmmcore;
const pbt::Spec SPEC = {"C41",
    "0 to 40 (sometimes up to 120, rarely over a thousand) segments built from disjoint open chains and loops (the assembly is then known), from random graphs with branching vertices and repeated segments, with the vertices on grids from 1e-16 to 1000 and end points that coincide exactly or within half of the library's tolerance; shuffled, with random directions. "
    "non-trivial: at least one chain or loop of three or more segments whose segments are not given in order",
    900000, 9000000, 8};

static bool near(const vec3 &a, const vec3 &b) { return std::hypot(a.x - b.x, a.y - b.y, a.z - b.z) < eps; }

void property(pbt::Src &s, pbt::Ctx &c) {
    std::vector<vec3> vert;
    double unit = s.pick({3, 1, 1, 1, 1}) == 0 ? 1.0 : std::vector<double>{1e-15, 1e-7, 4.76837158203125e-7, 1e-3, 1000, 0.125}[s.below(6)];
    bool jitter = s.chance(1, 3);
    // vertices: distinct grid points, so that different ones are further apart than the tolerance
    auto point = [&](int i) { return vec3(unit * (i % 7 - 3), unit * (i / 7 % 7 - 3), unit * (i / 49 - 1)); };
    int used = 0;
    bool huge = s.chance(1, 9000);
    int grid = huge ? 2009 : 147;   // 7 by 7 by 41 or 3
    int perm = 1 + (int) s.below(146);   // the grid points, visited with a stride
    std::vector<int> stride = {1, 2, 4, 5, 8, 10, 11, 13, 16, 17};   // coprime to 147 and 2009
    int st = stride[s.below(stride.size())];
    auto fresh = [&] { return point((perm + st * used++) % grid); };
    auto noisy = [&](vec3 p) {   // within half a tolerance, where the coordinates have room for it
        if (jitter && s.flag()) {
            double *q[3] = {&p.x, &p.y, &p.z};
            double d = eps * 0.24 * (double) s.range(-1, 1);
            *q[s.below(3)] += d;
        }
        return p;
    };
    std::vector<std::pair<vec3, vec3>> E;
    struct Part { std::vector<vec3> v; bool loop; };
    std::vector<Part> parts;
    bool graph = s.chance(1, 3);
    if (graph) {
        bool many = huge || s.chance(1, 30);
        int nv = 2 + (int) s.below(many ? huge ? 400 : 50 : 7);
        std::vector<vec3> v;
        for (int i = 0; i < nv; ++i) v.push_back(fresh());
        int ne = (int) s.below(many ? huge ? 1200 : 120 : 15);
        for (int i = 0; i < ne; ++i) {
            size_t a = s.below(nv), b = s.below(nv);
            if (a == b && !s.chance(1, 4)) b = (a + 1) % nv;
            E.push_back({v[a], v[b]});
        }
        c.label("graph with branches");
        vert = v;
    } else {
        bool many = huge || s.chance(1, 30);   // one long part, or many
        int np = many ? 1 + (int) s.below(12) : (int) s.below(5);
        for (int i = 0; i < np; ++i) {
            int len = 1 + (int) s.below(many ? (huge ? 1200 : 140) / np - 1 : 10);
            bool loop = s.flag();
            if (loop && len < 3) len = 3;
            Part p;
            p.loop = loop;
            for (int j = 0; j < (loop ? len : len + 1); ++j) p.v.push_back(fresh());
            for (int j = 0; j < len; ++j) E.push_back({p.v[j], p.v[(j + 1) % p.v.size()]});
            for (auto &q: p.v) vert.push_back(q);
            parts.push_back(p);
            if (loop) c.label("loop");
            else if (len > 1) c.label("chain");
            if (len >= 3) c.nontrivial();
        }
    }
    // shuffle and flip
    for (size_t i = E.size(); i > 1; --i) std::swap(E[i - 1], E[s.below(i)]);
    std::vector<Segment> seg;
    for (auto &e: E) {
        if (s.flag()) std::swap(e.first, e.second);
        seg.push_back({noisy(e.first), noisy(e.second)});
    }
    c.show([&](auto &o) {
        o << "grid " << unit << (jitter ? " jittered" : "") << " segments";
        for (auto &e: seg) o << " (" << e.p1.x / unit << "," << e.p1.y / unit << "," << e.p1.z / unit << ")-(" << e.p2.x / unit << "," << e.p2.y / unit << "," << e.p2.z / unit << ")";
    });
    auto id = [&](const vec3 &p) {
        for (size_t i = 0; i < vert.size(); ++i) if (near(vert[i], p)) return (int) i;
        pbt::str("");
        return -1;
    };
    std::vector<std::list<vec3>> out;
    size_t before = s.below(2);
    if (before) out.push_back({vec3(1, 2, 3)});
    auto keep = seg;
    auto &ret = assemble_polylines(seg, out);
    PBT_CHECK(&ret == &out, "the result is not the list given");
    PBT_CHECK(out.size() >= before && (!before || out[0].size() == 1), "the polylines already in the list changed");
    for (size_t i = 0; i < seg.size(); ++i) PBT_CHECK(keep[i].p1 == seg[i].p1 && keep[i].p2 == seg[i].p2, "the segments changed");
    // every segment once; a polyline may need its closing segment. All are consecutive vertices
    std::map<std::pair<int, int>, int> want, got;
    auto key = [](int a, int b) { return std::make_pair(std::min(a, b), std::max(a, b)); };
    for (auto &e: E) want[key(id(e.first), id(e.second))]++;
    std::vector<std::vector<int>> lines;
    for (size_t i = before; i < out.size(); ++i) {
        lines.emplace_back();
        for (auto &p: out[i]) {
            int k = id(p);
            PBT_CHECK(k >= 0, "polyline ", i - before, " has a vertex that is no end point of a segment: ", p.x, ",", p.y, ",", p.z);
            lines.back().push_back(k);
        }
        PBT_CHECK(lines.back().size() >= 1, "polyline without vertices");
    }
    for (auto &l: lines) for (size_t j = 0; j + 1 < l.size(); ++j) got[key(l[j], l[j + 1])]++;
    // which closing segments are used follows from what is missing: the missing multiset must be closings of distinct polylines
    std::vector<bool> closed(lines.size(), false);
    for (auto &g: got) PBT_CHECK(want.count(g.first) && want[g.first] >= g.second, "uses a segment that does not exist or twice: ", g.first.first, "-", g.first.second);
    for (auto &w: want) {
        int miss = w.second - got[w.first];
        for (size_t j = 0; j < lines.size() && miss > 0; ++j)
            if (!closed[j] && key(lines[j].front(), lines[j].back()) == w.first) closed[j] = true, miss--;
        PBT_CHECK(miss == 0, "segment ", w.first.first, "-", w.first.second, " is used by no polyline");
    }
    // nothing left to join
    auto ends = [&](size_t j) {
        return closed[j] ? std::set<int>{} : std::set<int>{lines[j].front(), lines[j].back()};
    };
    for (size_t j = 0; j < lines.size(); ++j) {
        PBT_CHECK(closed[j] || lines[j].size() > 1, "polyline with a single vertex");
        for (size_t k = j + 1; k < lines.size(); ++k)
            for (int a: ends(j)) PBT_CHECK(!ends(k).count(a), "polylines ", j, " and ", k, " end in the same point but are not joined");
        if (!closed[j] && lines[j].size() > 2) PBT_CHECK(lines[j].front() != lines[j].back(), "a closed polyline repeats its first point");
    }
    if (!graph) {
        PBT_CHECK(lines.size() == parts.size(), parts.size(), " chains and loops come out as ", lines.size(), " polylines");
        for (auto &p: parts) {
            std::vector<int> v;
            for (auto &q: p.v) v.push_back(id(q));
            int hits = 0;
            for (size_t j = 0; j < lines.size(); ++j) {
                auto &l = lines[j];
                if (l.size() != v.size()) continue;
                auto rv = l;
                std::reverse(rv.begin(), rv.end());
                if (!p.loop) hits += l == v || rv == v;
                else for (auto *x: {&l, &rv}) {
                    auto it = std::find(x->begin(), x->end(), v[0]);
                    if (it == x->end()) continue;
                    auto y = *x;
                    std::rotate(y.begin(), y.begin() + (it - x->begin()), y.end());
                    if (y == v) { hits++; break; }
                }
            }
            PBT_CHECK(hits == 1, "a ", p.loop ? "loop" : "chain", " of ", p.v.size(), " vertices is ", hits, " times in the result");
        }
    }
}
