// C18: faces of solid elements, look-up of faces by their nodes, boundary elements
#include "Abstract/Model.h"
#include "Abstract/Mesh.h"
#include "vp.h"
#include <algorithm>
using namespace vega;

struct P { double a[3]; };
static P sub(const P& u, const P& v) { return {{u.a[0] - v.a[0], u.a[1] - v.a[1], u.a[2] - v.a[2]}}; }
static P cross(const P& u, const P& v) { return {{u.a[1] * v.a[2] - u.a[2] * v.a[1], u.a[2] * v.a[0] - u.a[0] * v.a[2], u.a[0] * v.a[1] - u.a[1] * v.a[0]}}; }
static double dot(const P& u, const P& v) { return u.a[0] * v.a[0] + u.a[1] * v.a[1] + u.a[2] * v.a[2]; }

// corners, edges as the mid-side nodes number them, faces as sets of corners: an independent description of each shape (1-based)
struct Shape { const CellType* type; std::vector<P> corners; std::vector<std::pair<int, int>> edges; std::vector<std::set<int>> faces; };
static const std::vector<P> HEX{{{0, 0, 0}}, {{1, 0, 0}}, {{1, 1, 0}}, {{0, 1, 0}}, {{0, 0, -1}}, {{1, 0, -1}}, {{1, 1, -1}}, {{0, 1, -1}}};
static const std::vector<P> TET{{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, -1}}};
static const std::vector<P> PYR{{{0, 0, 0}}, {{1, 0, 0}}, {{1, 1, 0}}, {{0, 1, 0}}, {{.5, .5, -1}}};
static const std::vector<P> PEN{{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, -1}}, {{1, 0, -1}}, {{0, 1, -1}}};
static const std::vector<std::pair<int, int>> HEXE{{1, 2}, {2, 3}, {3, 4}, {4, 1}, {5, 6}, {6, 7}, {7, 8}, {8, 5}, {1, 5}, {2, 6}, {3, 7}, {4, 8}};
static const std::vector<std::pair<int, int>> TETE{{1, 2}, {2, 3}, {3, 1}, {1, 4}, {2, 4}, {3, 4}};
static const std::vector<std::pair<int, int>> PYRE{{1, 2}, {2, 3}, {3, 4}, {4, 1}, {1, 5}, {2, 5}, {3, 5}, {4, 5}};
static const std::vector<std::pair<int, int>> PENE{{1, 2}, {2, 3}, {3, 1}, {4, 5}, {5, 6}, {6, 4}, {1, 4}, {2, 5}, {3, 6}};
static const std::vector<std::set<int>> HEXF{{1, 2, 3, 4}, {5, 6, 7, 8}, {1, 2, 5, 6}, {2, 3, 6, 7}, {3, 4, 7, 8}, {1, 4, 5, 8}};
static const std::vector<std::set<int>> TETF{{1, 2, 3}, {1, 2, 4}, {1, 3, 4}, {2, 3, 4}};
static const std::vector<std::set<int>> PYRF{{1, 2, 3, 4}, {1, 2, 5}, {2, 3, 5}, {3, 4, 5}, {1, 4, 5}};
static const std::vector<std::set<int>> PENF{{1, 2, 3}, {4, 5, 6}, {1, 2, 4, 5}, {2, 3, 5, 6}, {1, 3, 4, 6}};
static const Shape SHAPES[] = {
    {&CellType::TETRA4, TET, {}, TETF}, {&CellType::PYRA5, PYR, {}, PYRF}, {&CellType::PENTA6, PEN, {}, PENF}, {&CellType::HEXA8, HEX, {}, HEXF},
    {&CellType::TETRA10, TET, TETE, TETF}, {&CellType::PYRA13, PYR, PYRE, PYRF}, {&CellType::PENTA15, PEN, PENE, PENF}, {&CellType::HEXA20, HEX, HEXE, HEXF}};

static std::string str(const std::vector<int>& v) { std::ostringstream o; for (int x : v) o << " " << x; return o.str(); }

struct Solid { const Shape* s; std::vector<int> ids; pos_t position; };

static std::vector<int> idsOf(const Solid& e, const std::set<int>& corners) {      // every node of the face with these corners
    std::vector<int> r;
    for (int k : corners) r.push_back(e.ids[static_cast<size_t>(k - 1)]);
    for (size_t i = 0; i < e.s->edges.size(); ++i)
        if (corners.count(e.s->edges[i].first) && corners.count(e.s->edges[i].second)) r.push_back(e.ids[e.s->corners.size() + i]);
    std::sort(r.begin(), r.end());
    return r;
}
static std::vector<int> sorted(std::vector<int> v) { std::sort(v.begin(), v.end()); return v; }

// node order of a face: corners around it, then the middle of each side in turn, normal pointing out of the solid
static void walk(vp::Case& c, const std::string& k, const std::vector<int>& f, const std::map<int, P>& x, const P& inside, size_t corners) {
    const bool quadratic = f.size() > corners;
    P n = {{0, 0, 0}}, m = {{0, 0, 0}};
    for (size_t i = 0; i < corners; ++i) {
        const P a = x.at(f[i]), b = x.at(f[(i + 1) % corners]);
        const P w = cross(a, b);
        for (int d = 0; d < 3; ++d) { n.a[d] += w.a[d]; m.a[d] += a.a[d] / static_cast<double>(corners); }
        if (quadratic) {
            const P mid = x.at(f[corners + i]);
            for (int d = 0; d < 3; ++d) if (std::fabs(mid.a[d] - (a.a[d] + b.a[d]) / 2) > 1e-9 * 100) { c.fail(k + "-middle", "node " + std::to_string(f[corners + i]) + " is not in the middle of its side"); break; }
        }
    }
    c.check(k + "-outward", dot(n, sub(m, inside)) > 0, "the normal of the face" + str(f) + " is not outward");
}

static void body(vp::Case& c) {
    Mesh mesh(LogLevel::ERROR, "faces");
    std::map<int, P> x;
    std::vector<Solid> solids;
    int next = 1 + static_cast<int>(c.draw(50));
    const int nsolid = 1 + static_cast<int>(c.draw(4));
    for (int s = 0; s < nsolid; ++s) {
        Solid e{&SHAPES[c.draw(8)], {}, 0};
        const size_t total = e.s->corners.size() + e.s->edges.size();
        for (size_t i = 0; i < total; ++i) { e.ids.push_back(next); next += 1 + static_cast<int>(c.draw(3)); }
        for (size_t i = total; i > 1; --i) std::swap(e.ids[i - 1], e.ids[c.draw(static_cast<uint32_t>(i))]);
        double A[3][3];
        for (int t = 0; ; ++t) {      // an affine image that keeps the sense
            for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) A[i][j] = t > 3 ? (i == j) : c.real(4);
            const double det = A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]);
            if (det < 0) for (double& v : A[0]) v = -v;
            if (std::fabs(det) > .01) break;
        }
        std::vector<P> p;
        for (const P& q : e.s->corners) { P r; for (int i = 0; i < 3; ++i) r.a[i] = 20.0 * s + A[i][0] * q.a[0] + A[i][1] * q.a[1] + A[i][2] * q.a[2]; p.push_back(r); }
        for (const auto& d : e.s->edges) { P r; for (int i = 0; i < 3; ++i) r.a[i] = (p[static_cast<size_t>(d.first - 1)].a[i] + p[static_cast<size_t>(d.second - 1)].a[i]) / 2; p.push_back(r); }
        for (size_t i = 0; i < total; ++i) { x[e.ids[i]] = p[i]; mesh.addNode(e.ids[i], p[i].a[0], p[i].a[1], p[i].a[2]); }
        e.position = mesh.addCell(s + 1, *e.s->type, e.ids);
        c.text << e.s->type->to_str() << str(e.ids) << "\n";
        solids.push_back(e);
    }
    c.nontrivial = true;
    for (const Solid& e : solids) {
        c.tag(e.s->type->description);
        const Cell k = mesh.findCell(e.position);
        const size_t nc = e.s->corners.size();
        P inside = {{0, 0, 0}};
        for (size_t i = 0; i < nc; ++i) for (int d = 0; d < 3; ++d) inside.a[d] += x[e.ids[i]].a[d] / static_cast<double>(nc);
        const std::vector<int> corners(e.ids.begin(), e.ids.begin() + static_cast<long>(nc));
        if (k.cornerNodeIds() != corners) c.fail("corners", "got" + str(k.cornerNodeIds()) + ", expected" + str(corners));

        const std::map<int, std::vector<int>> faces = k.nodeIdsByFaceNum();
        std::vector<std::vector<int>> got, want;
        std::map<std::pair<int, int>, int> sides;
        for (const auto& f : faces) {
            got.push_back(sorted(f.second));
            const size_t nf = e.s->edges.empty() ? f.second.size() : f.second.size() / 2;
            for (size_t i = 0; i < nf; ++i) ++sides[{f.second[i], f.second[(i + 1) % nf]}];
            bool known = true;
            for (int n : f.second) if (!x.count(n)) known = false;
            if (known) walk(c, "face", f.second, x, inside, nf);
        }
        for (const auto& f : e.s->faces) want.push_back(idsOf(e, f));
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        if (got != want) c.fail("faces", "the faces of " + e.s->type->to_str() + " are not those of its shape");
        for (const auto& d : sides) c.check("closed", d.second == 1 && sides.count({d.first.second, d.first.first}), "side " + std::to_string(d.first.first) + "-" + std::to_string(d.first.second) + " is not shared by two faces in opposite directions");

        // a face looked up by its nodes, as a pressure card names them
        for (const auto& f : e.s->faces) {
            const std::vector<int> expected = idsOf(e, f);
            std::vector<std::pair<int, int>> names;
            if (nc == 4) {
                for (int a : f) for (int b = 1; b <= 4; ++b) if (!f.count(b)) names.push_back({e.ids[static_cast<size_t>(a - 1)], e.ids[static_cast<size_t>(b - 1)]});
            } else if (f.size() == 4) {
                for (int a : f) for (int b : f) {      // opposite corners share no side
                    if (a == b) continue;
                    int common = 0;
                    for (const auto& g : e.s->faces) if (g.count(a) && g.count(b)) ++common;
                    if (common == 1) names.push_back({e.ids[static_cast<size_t>(a - 1)], e.ids[static_cast<size_t>(b - 1)]});
                }
            } else if (nc == 6) {
                for (int a : f) names.push_back({e.ids[static_cast<size_t>(a - 1)], Globals::UNAVAILABLE_INT});
            }
            for (const auto& n : names) {
                const std::vector<int> r = n.second == Globals::UNAVAILABLE_INT ? k.faceids_from_two_nodes(n.first) : k.faceids_from_two_nodes(n.first, n.second);
                if (sorted(r) != expected) c.fail("lookup", e.s->type->to_str() + " " + std::to_string(n.first) + "," + std::to_string(n.second) + ": got" + str(r) + ", expected" + str(expected));
                else {
                    bool listed = false;
                    for (const auto& q : faces) if (q.second == r) listed = true;
                    c.check("lookup-order", listed, "the face found is not walked as the face of the element");
                }
            }
        }
        if (nc != 5) for (const auto& f : faces) {
            const std::pair<int, int> n = k.two_nodeids_from_facenum(f.first);
            const std::vector<int> r = k.faceids_from_two_nodes(n.first, n.second);
            if (r != f.second) c.fail("round-trip", e.s->type->to_str() + " face " + std::to_string(f.first) + ": the two nodes that name it give the face" + str(r) + " instead of" + str(f.second));
        }
    }
    // boundary elements over some faces
    std::set<int> used;
    const int nskin = 1 + static_cast<int>(c.draw(5));
    for (int s = 0; s < nskin; ++s) {
        const Solid& e = solids[c.draw(static_cast<uint32_t>(solids.size()))];
        const auto faces = mesh.findCell(e.position).nodeIdsByFaceNum();
        const int num = 1 + static_cast<int>(c.draw(static_cast<uint32_t>(faces.size())));
        const std::vector<int> f = faces.at(num);
        const pos_t p = mesh.generateSkinCell(f, SpaceDimension::DIMENSION_2D);
        const Cell k = mesh.findCell(p);
        c.text << "boundary over face " << num << " of cell " << e.s->type->to_str() << "\n";
        const CellType* t = f.size() == 3 ? &CellType::TRI3 : f.size() == 4 ? &CellType::QUAD4 : f.size() == 6 ? &CellType::TRI6 : &CellType::QUAD8;
        c.check("skin-type", k.type == *t, "the boundary element over " + std::to_string(f.size()) + " nodes is a " + k.type.to_str());
        if (k.nodeIds != f) c.fail("skin-nodes", "got" + str(k.nodeIds) + ", expected" + str(f));
        c.check("skin-id", used.insert(k.id).second && k.id > static_cast<int>(solids.size()), "the id of a boundary element is in use");
        const auto back = mesh.volcellAndFaceNum_from_skincell(k);
        c.check("skin-back", back.first.position == e.position && back.second == num, "a boundary element is given the face " + std::to_string(back.second) + " of cell " + std::to_string(back.first.id));
    }
}
int main() { return vp::serve(body); }
