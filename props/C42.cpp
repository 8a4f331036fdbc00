#include "nurbs_glue.h"
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <unistd.h>
using namespace cmmcore;
const pbt::Spec SPEC = {"C42",
    "clamped curves and surfaces of degree 1..8, rational or not, irregular knots with interior multiplicity, coordinates up to 100; the text written is parsed back (entities, references, nested lists) and compared with the exported object: ids, control points, weights, degrees, knots, and for surfaces the boundary curves, vertices, edges, loop, face and shell; also several objects into one stream and whole files. "
    "non-trivial: a rational curve or surface, or one with repeated interior knots",
    60000, 1500000, 8};

struct Arg { std::string atom; std::vector<Arg> list; bool is_list = false; };
struct Entity { int id; std::string name; std::vector<Arg> args; };

static std::vector<Arg> parse_list(const std::string &t, size_t &i) {   // t[i] == '('
    std::vector<Arg> r;
    PBT_CHECK(t[i] == '(', "no opening parenthesis in ", t);
    ++i;
    while (true) {
        while (i < t.size() && t[i] == ' ') ++i;
        PBT_CHECK(i < t.size(), "parentheses do not match in ", t);
        if (t[i] == ')') { ++i; return r; }
        Arg a;
        if (t[i] == '(') {
            a.is_list = true;
            a.list = parse_list(t, i);
        } else if (t[i] == '\'') {
            size_t e = t.find('\'', i + 1);
            PBT_CHECK(e != std::string::npos, "unfinished string in ", t);
            a.atom = t.substr(i, e - i + 1);
            i = e + 1;
        } else {
            size_t e = t.find_first_of(",) ", i);
            PBT_CHECK(e != std::string::npos && e > i, "parentheses do not match in ", t);
            a.atom = t.substr(i, e - i);
            i = e;
        }
        r.push_back(a);
        while (i < t.size() && t[i] == ' ') ++i;
        PBT_CHECK(i < t.size(), "parentheses do not match in ", t);
        if (t[i] == ',') ++i;
        else PBT_CHECK(t[i] == ')', "unexpected ", t.substr(i, 5), " in ", t);
    }
}
static int ref_id(const Arg &a) {
    PBT_CHECK(!a.is_list && a.atom.size() > 1 && a.atom[0] == '#', "not a reference: ", a.atom);
    return std::stoi(a.atom.substr(1));
}
static double number(const Arg &a) {
    PBT_CHECK(!a.is_list && !a.atom.empty(), "not a number");
    size_t used = 0;
    double d = 0;
    try { d = std::stod(a.atom, &used); } catch (...) { used = 0; }
    PBT_CHECK(used == a.atom.size(), "not a number: ", a.atom);
    return d;
}
struct Text {
    std::vector<Entity> all;
    std::map<int, size_t> at;
    void parse(const std::string &text, int first, int next) {
        std::istringstream in(text);
        std::string line;
        int want = first;
        while (std::getline(in, line)) {
            if (line.empty()) continue;
            Entity e;
            PBT_CHECK(line[0] == '#', "not an entity: ", line);
            size_t eq = line.find(" = ");
            PBT_CHECK(eq != std::string::npos, "not an entity: ", line);
            e.id = std::stoi(line.substr(1, eq - 1));
            PBT_CHECK(e.id == want, "entity ", e.id, " where ", want, " is next");
            want++;
            size_t p = line.find('(', eq);
            PBT_CHECK(p != std::string::npos, "not an entity: ", line);
            e.name = line.substr(eq + 3, p - eq - 3);
            e.args = parse_list(line, p);
            PBT_CHECK(line.substr(p) == ";", "entity does not end with its arguments: ", line);
            at[e.id] = all.size();
            all.push_back(e);
        }
        PBT_CHECK(want == next, "the next id is ", next, " after entities up to ", want - 1);
        for (auto &e: all) refs(e.args, e);
    }
    void refs(const std::vector<Arg> &v, const Entity &e) {
        for (auto &a: v) {
            refs(a.list, e);
            if (!a.is_list && a.atom[0] == '#') PBT_CHECK(at.count(ref_id(a)), "entity ", e.id, " ", e.name, " refers to ", a.atom, ", which does not exist");
        }
    }
    const Entity &get(const Arg &a, const char *name) {
        const Entity &e = all[at.at(ref_id(a))];
        PBT_CHECK(e.name == name, "#", e.id, " is a ", e.name, " where a ", name, " is expected");
        return e;
    }
    std::vector<const Entity *> named(const char *n) {
        std::vector<const Entity *> r;
        for (auto &e: all) if (e.name == n) r.push_back(&e);
        return r;
    }
    ref::P3 point(const Arg &a) {
        auto &e = get(a, "CARTESIAN_POINT");
        PBT_CHECK(e.args.size() == 2 && e.args[1].list.size() == 3, "a point needs three coordinates");
        ref::P3 p;
        for (int k = 0; k < 3; ++k) p[k] = number(e.args[1].list[k]);
        return p;
    }
};
static double prec(double x) { return 1e-5 * std::fabs(x) + 1e-12; }   // six significant digits
static void knots_match(const Arg &mult, const Arg &kn, const std::vector<double> &U, const char *what) {
    PBT_CHECK(mult.is_list && kn.is_list && mult.list.size() == kn.list.size(), what, ": ", mult.list.size(), " multiplicities for ", kn.list.size(), " knots");
    std::vector<double> r;
    for (size_t i = 0; i < kn.list.size(); ++i) {
        double m = number(mult.list[i]);
        PBT_CHECK(m >= 1 && m == std::floor(m) && m < 1000, what, ": multiplicity ", m);
        for (int j = 0; j < (int) m; ++j) r.push_back(number(kn.list[i]));
    }
    PBT_CHECK(r.size() == U.size(), what, ": ", r.size(), " knots written, ", U.size(), " exist");
    for (size_t i = 0; i < U.size(); ++i) PBT_CHECK(std::fabs(r[i] - U[i]) <= prec(U[i]), what, ": knot ", i, " is ", r[i], " not ", U[i]);
    PBT_CHECK(kn.list.size() == gen::distinct(U).size(), what, ": a knot is written twice");
}
static void point_match(const ref::P3 &p, const std::array<double, 4> &q, const char *what) {
    for (int k = 0; k < 3; ++k) PBT_CHECK(std::fabs((double) p[k] - q[k] / q[3]) <= prec(q[k] / q[3]), what, ": coordinate ", k, " is ", (double) p[k], " not ", q[k] / q[3]);
}
struct Crv { int p; std::vector<double> U; std::vector<std::array<double, 4>> P; };
static void curve_match(Text &t, const Entity &e, const Crv &c, const char *what) {
    auto &a = e.args;
    PBT_CHECK(a.size() == 10, what, ": ", a.size(), " arguments");
    PBT_CHECK(number(a[1]) == c.p, what, ": degree ", a[1].atom);
    PBT_CHECK(a[2].list.size() == c.P.size() && a[9].list.size() == c.P.size(), what, ": number of control points or weights");
    for (size_t i = 0; i < c.P.size(); ++i) {
        point_match(t.point(a[2].list[i]), c.P[i], what);
        PBT_CHECK(std::fabs(number(a[9].list[i]) - c.P[i][3]) <= prec(c.P[i][3]), what, ": weight ", i);
    }
    knots_match(a[6], a[7], c.U, what);
}
static const std::string &scratch() {
    static struct Dir {
        std::string p;
        Dir() {
            char t[] = "/tmp/verif-c42-XXXXXX";
            p = mkdtemp(t);
        }
        ~Dir() {
            unlink((p + "/f").c_str());
            rmdir(p.c_str());
        }
    } d;
    return d.p;
}
static void file(const NURBSSurface &k, Text &t) {
    std::string f = scratch() + "/f";
    k.writeSTEPFile(f);
    std::ifstream in(f);
    std::stringstream ss;
    ss << in.rdbuf();
    std::string a = ss.str();
    unlink(f.c_str());
    auto has = [&](const char *x) { return a.find(x); };
    PBT_CHECK(a.rfind("ISO-10303-21;\n", 0) == 0, "the file does not start as a STEP file");
    const std::string end = "ENDSEC;\nEND-ISO-10303-21;\n";
    PBT_CHECK(a.size() > end.size() && a.substr(a.size() - end.size()) == end, "the file does not end as a STEP file");
    size_t data = has("\nDATA;\n"), head = has("\nHEADER;\n");
    PBT_CHECK(head != std::string::npos && data != std::string::npos && head < data && has("\nENDSEC;\n") < data, "sections");
    std::string body = a.substr(data + 7, a.size() - end.size() - data - 7);
    std::ostringstream o;
    int id = 10;
    k.toSTEP(o, id);
    PBT_CHECK(body == o.str(), "the data section differs from the entities of the surface");
    t.parse(body, 10, id);
    bool thrown = false;
    try { k.writeSTEPFile(scratch() + "/no/f"); } catch (const std::exception &) { thrown = true; }
    PBT_CHECK(thrown, "a file that cannot be written is not reported");
}

void property(pbt::Src &s, pbt::Ctx &c) {
    std::ostringstream out;
    int first = 1 + (int) s.below(50), id = first;
    struct Done { bool surf; int id; gen::CurveData c; gen::SurfData s; };
    std::vector<Done> done;
    int n = 1 + (int) s.below(3);
    bool special = false;
    for (int i = 0; i < n; ++i) {
        Done d;
        d.surf = s.flag();
        if (d.surf) {
            gen::SurfOpt o;
            o.extra = 3;
            d.s = gen::surface(s, o);
            c.show([&](auto &os) { os << d.s; });
            special = special || d.s.rational;
            if (s.chance(1, 8)) {
                Text tf;
                file(glue::surface(d.s), tf);
                c.label("file");
            }
            d.id = glue::surface(d.s).toSTEP(out, id);
            c.label("surface");
        } else {
            d.c = gen::curve(s);
            c.show([&](auto &os) { os << d.c; });
            special = special || d.c.rational || d.c.multi;
            d.id = glue::curve(d.c).toSTEP(out, id);
            c.label("curve");
        }
        done.push_back(d);
    }
    if (special) c.nontrivial();
    Text t;
    t.parse(out.str(), first, id);
    PBT_CHECK(t.named("RATIONAL_B_SPLINE_CURVE_WITH_KNOTS").size() + 0 == [&] { size_t k = 0; for (auto &d: done) k += d.surf ? 4 : 1; return k; }(), "number of curves written");
    int prev = first - 1;
    for (auto &d: done) {
        PBT_CHECK(d.id > prev && t.at.count(d.id), "returned id ", d.id);
        prev = d.id;
        const Entity &e = t.all[t.at[d.id]];
        if (!d.surf) {
            PBT_CHECK(e.name == "RATIONAL_B_SPLINE_CURVE_WITH_KNOTS", "the returned id is a ", e.name);
            curve_match(t, e, {d.c.p, d.c.U, d.c.P}, "curve");
            continue;
        }
        PBT_CHECK(e.name == "RATIONAL_B_SPLINE_SURFACE_WITH_KNOTS", "the returned id is a ", e.name);
        auto &a = e.args;
        auto &S = d.s;
        size_t nu = S.P.size(), nv = S.P[0].size();
        PBT_CHECK(a.size() == 14, "surface: ", a.size(), " arguments");
        PBT_CHECK(number(a[1]) == S.p && number(a[2]) == S.q, "surface: degrees ", a[1].atom, ",", a[2].atom);
        PBT_CHECK(a[3].list.size() == nu && a[13].list.size() == nu, "surface: rows of control points or weights");
        for (size_t i = 0; i < nu; ++i) {
            PBT_CHECK(a[3].list[i].list.size() == nv && a[13].list[i].list.size() == nv, "surface: columns of control points or weights");
            for (size_t j = 0; j < nv; ++j) {
                point_match(t.point(a[3].list[i].list[j]), S.P[i][j], "surface");
                PBT_CHECK(std::fabs(number(a[13].list[i].list[j]) - S.P[i][j][3]) <= prec(S.P[i][j][3]), "surface: weight ", i, ",", j);
            }
        }
        knots_match(a[8], a[9], S.U, "surface u");
        knots_match(a[10], a[11], S.V, "surface v");
        // the boundary: four curves, each the edge of the control net
        std::vector<Crv> want(4);
        want[0] = {S.q, S.V, S.P.front()};
        want[1] = {S.q, S.V, S.P.back()};
        want[2] = {S.p, S.U, {}};
        want[3] = {S.p, S.U, {}};
        for (auto &r: S.P) want[2].P.push_back(r.front()), want[3].P.push_back(r.back());
        // the face with this surface
        const Entity *face = nullptr;
        for (auto *f: t.named("ADVANCED_FACE")) if (ref_id(f->args[2]) == d.id) {
            PBT_CHECK(!face, "two faces on one surface");
            face = f;
        }
        PBT_CHECK(face && face->args.size() == 4 && face->args[1].list.size() == 1, "no face with one bound on the surface");
        int shells = 0, models = 0;
        for (auto *h: t.named("OPEN_SHELL")) for (auto &x: h->args.at(1).list) if (ref_id(x) == face->id) {
            shells++;
            for (auto *m: t.named("SHELL_BASED_SURFACE_MODEL")) for (auto &y: m->args.at(1).list) models += ref_id(y) == h->id;
        }
        PBT_CHECK(shells == 1 && models == 1, "the face is in ", shells, " shells, the shell in ", models, " models");
        auto &bound = t.get(face->args[1].list[0], "FACE_OUTER_BOUND");
        auto &loop = t.get(bound.args.at(1), "EDGE_LOOP");
        PBT_CHECK(loop.args.at(1).list.size() == 4, "loop of ", loop.args[1].list.size(), " edges");
        std::set<int> curves, vertices;
        int last = -1, firstv = -1;
        std::set<int> sides;
        for (auto &ea: loop.args[1].list) {
            auto &ed = t.get(ea, "EDGE_CURVE");
            PBT_CHECK(ed.args.size() == 5, "edge: ", ed.args.size(), " arguments");
            auto &cv = t.get(ed.args[3], "RATIONAL_B_SPLINE_CURVE_WITH_KNOTS");
            curves.insert(cv.id);
            bool same = ed.args[4].atom == ".T.";
            PBT_CHECK(same || ed.args[4].atom == ".F.", "sense ", ed.args[4].atom);
            ref::P3 v[2], e2[2];
            for (int k = 0; k < 2; ++k) {
                auto &vx = t.get(ed.args[1 + k], "VERTEX_POINT");
                vertices.insert(vx.id);
                v[k] = t.point(vx.args.at(1));
            }
            PBT_CHECK(cv.args.at(2).list.size() >= 2, "curve with one control point");
            e2[same ? 0 : 1] = t.point(cv.args[2].list.front());
            e2[same ? 1 : 0] = t.point(cv.args[2].list.back());
            double tol = 3e-5 * S.scale();
            for (int k = 0; k < 2; ++k) PBT_CHECK(ref::dist(v[k], e2[k]) <= tol, k ? "end" : "start", " of edge #", ed.id, " is not where its curve ", k ? "ends" : "starts");
            if (last >= 0) PBT_CHECK(ref_id(ed.args[1]) == last, "edge #", ed.id, " does not start where the one before ends");
            else firstv = ref_id(ed.args[1]);
            last = ref_id(ed.args[2]);
            // which side of the surface it is
            bool found = false;
            std::string why;
            for (int k = 0; k < 4 && !found; ++k) {
                if (sides.count(k)) continue;
                try {
                    curve_match(t, cv, want[k], "boundary");
                    sides.insert(k);
                    found = true;
                } catch (const pbt::Failure &f) { why = f.msg; }
            }
            PBT_CHECK(found, "curve #", cv.id, " is no side of the surface: ", why);
        }
        PBT_CHECK(last == firstv, "the loop is not closed");
        PBT_CHECK(curves.size() == 4 && vertices.size() == 4, curves.size(), " curves and ", vertices.size(), " vertices in the loop");
    }
}
