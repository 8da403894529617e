// C16: coordinate systems against a reference of 3x3 matrices
#include "Abstract/Model.h"
#include "Abstract/CoordinateSystem.h"
#include "vp.h"
using namespace vega;
typedef double V3[3];
struct R3 { double a[3]; };
static R3 mk(double x, double y, double z) { return R3{{x, y, z}}; }
static R3 operator+(const R3& u, const R3& v) { return mk(u.a[0] + v.a[0], u.a[1] + v.a[1], u.a[2] + v.a[2]); }
static R3 operator-(const R3& u, const R3& v) { return mk(u.a[0] - v.a[0], u.a[1] - v.a[1], u.a[2] - v.a[2]); }
static R3 operator*(double k, const R3& v) { return mk(k * v.a[0], k * v.a[1], k * v.a[2]); }
static double dot(const R3& u, const R3& v) { return u.a[0] * v.a[0] + u.a[1] * v.a[1] + u.a[2] * v.a[2]; }
static R3 cross(const R3& u, const R3& v) { return mk(u.a[1] * v.a[2] - u.a[2] * v.a[1], u.a[2] * v.a[0] - u.a[0] * v.a[2], u.a[0] * v.a[1] - u.a[1] * v.a[0]); }
static double norm(const R3& u) { return std::sqrt(dot(u, u)); }
static R3 unit(const R3& u) { return (1.0 / norm(u)) * u; }
static VectorialValue vv(const R3& u) { return VectorialValue(u.a[0], u.a[1], u.a[2]); }
static R3 rr(const VectorialValue& u) { return mk(u.x(), u.y(), u.z()); }
static std::string str(const R3& u) { std::ostringstream o; o << "(" << u.a[0] << ", " << u.a[1] << ", " << u.a[2] << ")"; return o.str(); }
struct Base { R3 e[3]; R3 on(const R3& l) const { return l.a[0] * e[0] + l.a[1] * e[1] + l.a[2] * e[2]; }
              R3 in(const R3& g) const { return mk(dot(g, e[0]), dot(g, e[1]), dot(g, e[2])); } };
struct Ref { int kind; R3 o; Base b; };      // kind 0 cartesian, 1 cylindrical, 2 spherical, 3 orientation; all global
static double S = 1;

static R3 draw(vp::Case& c) { R3 r; for (double& x : r.a) x = S * c.real(); return r; }
static R3 noncol(vp::Case& c, const R3& u) {      // a vector not along u
    R3 v = draw(c);
    if (norm(cross(u, v)) < 1e-3 * norm(u) * S) v = std::fabs(u.a[0]) < .9 * norm(u) ? mk(S, 0, 0) : mk(0, S, 0);
    return v;
}
static void near(vp::Case& c, const std::string& k, const R3& got, const R3& want, const std::string& what) {
    const double s = std::max(1.0, norm(want));
    for (int i = 0; i < 3; ++i) if (!(std::fabs(got.a[i] - want.a[i]) <= 1e-9 * s)) { c.fail(k, what + " got " + str(got) + ", expected " + str(want)); return; }
}
static R3 local(int kind, const R3& l) {     // local coordinates to the local cartesian ones
    const double d = M_PI / 180;
    if (kind == 1) return mk(l.a[0] * cos(d * l.a[1]), l.a[0] * sin(d * l.a[1]), l.a[2]);
    if (kind == 2) return mk(l.a[0] * sin(d * l.a[1]) * cos(d * l.a[2]), l.a[0] * sin(d * l.a[1]) * sin(d * l.a[2]), l.a[0] * cos(d * l.a[1]));
    return l;
}
static Base rotation(const VectorialValue& a) {    // Z then Y' then X'' : columns of Rz Ry Rx
    const double cz = cos(a.x()), sz = sin(a.x()), cy = cos(a.y()), sy = sin(a.y()), cx = cos(a.z()), sx = sin(a.z());
    Base b;
    b.e[0] = mk(cz * cy, sz * cy, -sy);
    b.e[1] = mk(cz * sy * sx - sz * cx, sz * sy * sx + cz * cx, cy * sx);
    b.e[2] = mk(cz * sy * cx + sz * sx, sz * sy * cx - cz * sx, cy * cx);
    return b;
}

static void body(vp::Case& c) {
    const double scales[] = {1, 1000, .01};
    S = scales[c.draw(3)];
    Model model("m");
    Mesh& mesh = model.mesh;
    std::vector<Ref> refs;
    std::vector<std::shared_ptr<CoordinateSystem>> css;
    const int n = 1 + static_cast<int>(c.draw(4));
    int node = 1;
    for (int k = 0; k < n; ++k) {
        const int kind = static_cast<int>(c.draw(4));
        // systems are nested in Cartesian ones only: a system defined in a cylindrical one is a known finding of C03
        int parent = -1;
        if (kind != 3 && k > 0 && c.flag(3)) {
            std::vector<int> ok;
            for (int j = 0; j < k; ++j) if (refs[j].kind == 0) ok.push_back(j);
            if (!ok.empty()) parent = ok[c.draw(static_cast<uint32_t>(ok.size()))];
        }
        const R3 o = draw(c);
        R3 ex = draw(c);
        if (norm(ex) < 1e-3 * S) ex = mk(0, 0, S);
        const R3 ey = noncol(c, ex);
        Base b;
        b.e[0] = unit(ex);
        b.e[1] = unit(ey - dot(ey, b.e[0]) * b.e[0]);
        b.e[2] = cross(b.e[0], b.e[1]);
        Ref r{kind, o, b};
        const int id = 100 + k;
        const Reference<CoordinateSystem> rcs(CoordinateSystem::Type::ABSOLUTE, parent < 0 ? CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID : 100 + parent);
        c.text << "cs " << id << " kind " << kind << " in " << (parent < 0 ? 0 : 100 + parent) << " O " << str(o) << " ex " << str(ex) << " ey " << str(ey);
        std::shared_ptr<CoordinateSystem> cs;
        if (kind == 0 && parent < 0 && c.flag()) {        // from three nodes: O, a point of Z, a point of XZ
            c.text << " by nodes";
            mesh.addNode(node, o.a[0], o.a[1], o.a[2]);
            const R3 z = o + ex, xz = o + ey;
            mesh.addNode(node + 1, z.a[0], z.a[1], z.a[2]);
            mesh.addNode(node + 2, xz.a[0], xz.a[1], xz.a[2]);
            const CartesianCoordinateSystem s(mesh, node, node + 1, node + 2, rcs, id);
            mesh.add(s);
            node += 3;
            r.b.e[2] = unit(ex);
            r.b.e[0] = b.e[1];
            r.b.e[1] = cross(r.b.e[2], r.b.e[0]);
            c.tag("cartesian by nodes");
        } else if (kind == 0) { mesh.add(CartesianCoordinateSystem(mesh, vv(o), vv(ex), vv(ey), rcs, id)); c.tag("cartesian"); }
        else if (kind == 1) { mesh.add(CylindricalCoordinateSystem(mesh, vv(o), vv(ex), vv(ey), rcs, id)); c.tag("cylindrical"); }
        else if (kind == 2) { mesh.add(SphericalCoordinateSystem(mesh, vv(o), vv(ex), vv(ey), rcs, id)); c.tag("spherical"); }
        else {
            mesh.addNode(node, o.a[0], o.a[1], o.a[2]);
            const R3 x = o + ex, v = o + ey;
            mesh.addNode(node + 1, x.a[0], x.a[1], x.a[2]);
            if (c.flag()) {
                mesh.addNode(node + 2, v.a[0], v.a[1], v.a[2]);
                cs = std::make_shared<OrientationCoordinateSystem>(mesh, node, node + 1, node + 2);
            } else cs = std::make_shared<OrientationCoordinateSystem>(mesh, node, node + 1, vv(ey));
            node += 3;
            c.tag("orientation");
        }
        c.text << "\n";
        if (kind != 3) cs = mesh.findCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, id));
        if (cs == nullptr) { c.fail("lost", "a stored system is not found"); return; }
        cs->build();
        if (parent >= 0) {
            const Ref& p = refs[parent];
            r.o = p.o + p.b.on(r.o);
            for (R3& e : r.b.e) e = p.b.on(e);
            c.tag("nested");
        }
        refs.push_back(r);
        css.push_back(cs);
        // definition
        const R3 E[3] = {rr(cs->getEx()), rr(cs->getEy()), rr(cs->getEz())};
        for (int i = 0; i < 3; ++i) near(c, "axes", parent >= 0 ? refs[parent].b.on(E[i]) : E[i], r.b.e[i], "axis " + std::to_string(i) + " of " + std::to_string(id));
    }
    const int m = 2 + static_cast<int>(c.draw(6));
    for (int q = 0; q < m; ++q) {
        const int k = static_cast<int>(c.draw(static_cast<uint32_t>(n)));
        const Ref& r = refs[k];
        CoordinateSystem& cs = *css[k];
        const std::string me = "system " + std::to_string(100 + k);
        R3 p = draw(c);
        if (r.kind == 1 || r.kind == 2) { p.a[0] = std::fabs(p.a[0]); p.a[1] *= 17 / S; }
        if (r.kind == 2) p.a[2] *= 23 / S;
        const R3 g = r.o + r.b.on(local(r.kind, p));
        near(c, "position", rr(cs.positionToGlobal(vv(p))), g, me + " position " + str(p));
        if (r.kind == 0 || r.kind == 3) {
            near(c, "vector", rr(cs.vectorToGlobal(vv(p))), r.b.on(p), me + " vector " + str(p));
            near(c, "vector-local", rr(cs.vectorToLocal(vv(p))), r.b.in(p), me + " vector to local " + str(p));
            near(c, "round-trip", rr(cs.vectorToLocal(cs.vectorToGlobal(vv(p)))), p, me + " to global and back");
            near(c, "round-trip", rr(cs.vectorToGlobal(cs.vectorToLocal(vv(p)))), p, me + " to local and back");
            const Base b = rotation(cs.getEulerAnglesIntrinsicZYX());
            for (int i = 0; i < 3; ++i) {
                const R3 d = b.e[i] - r.b.e[i];
                if (!(norm(d) < 1e-6)) c.fail("euler", me + " angles give axis " + std::to_string(i) + " " + str(b.e[i]) + ", expected " + str(r.b.e[i]));
            }
            const int j = static_cast<int>(c.draw(static_cast<uint32_t>(n)));
            if (refs[j].kind == 0 || refs[j].kind == 3) {
                const Base b2 = rotation(cs.getEulerAnglesIntrinsicZYX(css[j].get()));
                for (int i = 0; i < 3; ++i) if (!(norm(b2.e[i] - refs[j].b.in(r.b.e[i])) < 1e-6)) c.fail("euler-in", me + " angles in system " + std::to_string(100 + j) + ": axis " + std::to_string(i));
                c.tag("angles in another system");
            }
            c.nontrivial = true;
        } else if (r.kind == 1) {
            // the directions at a point of space: outside the axis, and on it
            R3 at = draw(c);
            if (c.draw(8) == 7) at = r.o + dot(at, r.b.e[2]) * r.b.e[2];
            const R3 d = at - r.o;
            R3 rad = d - dot(d, r.b.e[2]) * r.b.e[2];
            Base b = r.b;
            if (norm(rad) > 1e-6 * std::max(norm(d), norm(r.o))) { b.e[0] = unit(rad); b.e[1] = cross(b.e[2], b.e[0]); c.tag("directions outside the axis"); c.nontrivial = true; }
            else if (norm(rad) <= 1e-11 * norm(d)) c.tag("directions on the axis");
            else continue;
            cs.updateLocalBase(vv(at));
            near(c, "local-base", rr(cs.vectorToGlobal(vv(p))), b.on(p), me + " vector " + str(p) + " at " + str(at));
            const Base e = rotation(static_cast<CylindricalCoordinateSystem&>(cs).getLocalEulerAnglesIntrinsicZYX());
            for (int i = 0; i < 3; ++i) if (!(norm(e.e[i] - b.e[i]) < 1e-6)) c.fail("euler-local", me + " local angles at " + str(at) + ": axis " + std::to_string(i));
        } else c.nontrivial = true;
        const auto copy = cs.clone();
        near(c, "clone", rr(copy->positionToGlobal(vv(p))), g, me + " copied, position " + str(p));
    }
}
int main() { return vp::serve(body); }
