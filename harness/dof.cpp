// C19: sets of freedoms, matrices over them, and coefficients, against bit masks and plain arrays
#include "Abstract/Dof.h"
#include "Abstract/Utility.h"
#include <cfloat>
#include <memory>
#include "vp.h"
using namespace vega;

static int mask(const DOFS& d) { return static_cast<int>(static_cast<char>(d)); }
static int bits(int m) { int n = 0; for (; m; m >>= 1) n += m & 1; return n; }
static std::string code(int m) { std::string r; for (int i = 0; i < 6; ++i) if (m >> i & 1) r += static_cast<char>('1' + i); return r.empty() ? "0" : r; }
static DOF dof(int i) { return DOF::findByPosition(static_cast<dof_int>(i)); }

static void same_set(vp::Case& c, const std::string& k, const DOFS& d, int m) {
    if (mask(d) != m) c.fail(k, "got " + code(mask(d)) + ", expected " + code(m));
    c.same<int>(k + "-size", d.size(), bits(m));
    c.same<bool>(k + "-empty", d.empty(), m == 0);
    int seen = 0, last = -1;
    for (const DOF e : d) {
        if (e.position <= last) c.fail(k + "-order", "iteration is not increasing");
        last = e.position;
        if (seen >> e.position & 1) c.fail(k + "-twice", "a freedom is visited twice");
        seen |= 1 << e.position;
    }
    c.same<int>(k + "-iteration", seen, m);
    for (int i = 0; i < 6; ++i) c.same<bool>(k + "-contains", d.contains(dof(i)), (m >> i & 1) != 0, code(m) + " contains " + std::to_string(i + 1));
    c.same<std::string>(k + "-nastran", std::to_string(d.nastranCode()), code(m));
    if (m) c.same<int>(k + "-round-trip", mask(DOFS::nastranCodeToDOFS(d.nastranCode())), m, "Nastran code");
}

static void sets(vp::Case& c) {
    c.tag("sets");
    std::vector<DOFS> s;
    std::vector<int> m;
    const int n = 2 + static_cast<int>(c.draw(3));
    for (int i = 0; i < n; ++i) {
        const int x = static_cast<int>(c.draw(64));
        switch (c.draw(4)) {
        case 0: s.push_back(DOFS((x & 1) != 0, (x & 2) != 0, (x & 4) != 0, (x & 8) != 0, (x & 16) != 0, (x & 32) != 0)); break;
        case 1: s.push_back(DOFS(static_cast<char>(x))); break;
        case 2: s.push_back(DOFS::combineCodes((x & 1) != 0, (x & 2) != 0, (x & 4) != 0, (x & 8) != 0, (x & 16) != 0, (x & 32) != 0)); break;
        default: {        // a Nastran code: digits in any order, possibly repeated
            std::string t = code(x);
            if (t == "0") { s.push_back(DOFS::NO_DOFS); break; }
            for (size_t k = t.size(); k > 1; --k) std::swap(t[k - 1], t[c.draw(static_cast<uint32_t>(k))]);
            if (t.size() < 8 && c.flag(4)) t += t[c.draw(static_cast<uint32_t>(t.size()))];
            c.text << "code " << t << "\n";
            s.push_back(DOFS::nastranCodeToDOFS(std::stoi(t)));
            c.tag("Nastran code");
        }
        }
        m.push_back(x);
        c.text << "set " << code(x) << "\n";
        same_set(c, "set", s.back(), x);
    }
    for (int q = 0; q < 3 + static_cast<int>(c.draw(12)); ++q) {
        const size_t a = c.draw(static_cast<uint32_t>(s.size())), b = c.draw(static_cast<uint32_t>(s.size()));
        const int d = static_cast<int>(c.draw(6));
        const uint32_t op = c.draw(11);
        c.text << "op " << op << " " << code(m[a]) << " " << code(m[b]) << " " << d + 1 << "\n";
        const DOFS A = s[a], B = s[b];
        const int x = m[a], y = m[b];
        DOFS r;
        int w = 0;
        switch (op) {
        case 0: r = A + B; w = x | y; break;
        case 1: r = A - B; w = x & ~y; break;
        case 2: r = A & B; w = x & y; break;
        case 3: r = A.intersection(B); w = x & y; break;
        case 4: r = A + dof(d); w = x | 1 << d; break;
        case 5: r = A - dof(d); w = x & ~(1 << d); break;
        case 6: r = A; r += B; w = x | y; break;
        case 7: r = A; r += dof(d); w = x | 1 << d; break;
        case 8: r = dof(d); w = 1 << d; break;
        case 9: r = DOFS(dof(d)); w = 1 << d; break;
        default: r = A; w = x;
        }
        same_set(c, "op" + std::to_string(op), r, w);
        c.same<bool>("containsAll", A.containsAll(B), (x & y) == y);
        c.same<bool>("containsAnyOf", A.containsAnyOf(B), (x & y) != 0);
        c.same<bool>("equality", A == B, x == y);
        c.same<bool>("equality-dof", A == dof(d), x == 1 << d);
        if (!(mask(A) == x && mask(B) == y)) c.fail("argument-changed", "an operand changed");
        s.push_back(r);
        m.push_back(w);
        if (bits(x) > 1 && bits(y) > 0) c.nontrivial = true;
    }
    DOFS f = s[0];
    const VectorialValue t = f.getTranslations(), o = f.getRotations();
    const double v[6] = {t.x(), t.y(), t.z(), o.x(), o.y(), o.z()};
    for (int i = 0; i < 6; ++i) c.check("free-values", (m[0] >> i & 1) ? v[i] == DOFS::FREE_DOF : v[i] == 0, "translations and rotations of " + code(m[0]));
    if (c.flag()) {       // codes that are not freedoms are refused
        const int bad[] = {7, 8, 9, 10, 17, 128, 90, 1203};
        const int k = bad[c.draw(8)];
        c.text << "bad code " << k << "\n";
        bool thrown = false;
        try { DOFS::nastranCodeToDOFS(k); } catch (const std::invalid_argument&) { thrown = true; }
        c.check("bad-code", thrown, "the code " + std::to_string(k) + " is accepted");
    }
}

static double value(vp::Case& c) { return c.draw(4) == 0 ? 0.0 : c.real(); }

struct M { double v[6][6]; bool in[6][6]; MatrixType type; };

static DOFMatrix matrix(vp::Case& c, M& m) {
    const MatrixType types[] = {MatrixType::FULL, MatrixType::SYMMETRIC, MatrixType::DIAGONAL};
    const int span = c.flag() ? 6 : 3, first = c.flag(3) ? 0 : (span == 3 ? 3 : 0);
    m.type = types[c.draw(3)];
    for (auto& r : m.v) for (double& x : r) x = 0;
    for (auto& r : m.in) for (bool& x : r) x = false;
    DOFMatrix r(m.type);
    const int n = static_cast<int>(c.draw(14));
    c.text << "matrix type " << static_cast<int>(m.type) << ":";
    for (int k = 0; k < n; ++k) {
        const int i = first + static_cast<int>(c.draw(static_cast<uint32_t>(span)));
        const int j = c.draw(3) == 0 ? i : first + static_cast<int>(c.draw(static_cast<uint32_t>(span)));
        const double x = value(c);
        c.text << " (" << i + 1 << "," << j + 1 << ")=" << x;
        if (m.type == MatrixType::DIAGONAL && i != j) {
            bool thrown = false;
            try { r.addComponent(dof(i), dof(j), x); } catch (const std::logic_error&) { thrown = true; }
            c.same<bool>("diagonal-refuses", thrown, x != 0, "a term out of the diagonal");
            if (!thrown) m.in[i][j] = true;
            continue;
        }
        r.addComponent(dof(i), dof(j), x);
        m.v[i][j] = x;
        m.in[i][j] = true;
        if (m.type == MatrixType::SYMMETRIC) { m.v[j][i] = x; m.in[j][i] = true; }
        if (i != j && x != 0) c.nontrivial = true;
    }
    c.text << "\n";
    return r;
}

static void same_matrix(vp::Case& c, const std::string& k, const DOFMatrix& a, const M& m, bool t = false) {
    bool rot = false, tra = false, empty = true, zero = true, diag = true, sym = true;
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) {
        const double w = t ? m.v[j][i] : m.v[i][j];
        c.same<double>(k + "-component", a.findComponent(dof(i), dof(j)), w, "(" + std::to_string(i + 1) + "," + std::to_string(j + 1) + ")");
        if (m.in[i][j]) { empty = false; rot |= i > 2 || j > 2; tra |= i < 3 || j < 3; }
        if (w != 0) { zero = false; diag &= i == j; sym &= m.v[i][j] == m.v[j][i]; }
        else sym &= m.v[j][i] == m.v[i][j];
    }
    c.same<bool>(k + "-isEmpty", a.isEmpty(), empty);
    c.same<bool>(k + "-isZero", a.isZero(), zero);
    c.same<bool>(k + "-hasRotations", a.hasRotations(), rot);
    c.same<bool>(k + "-hasTranslations", a.hasTranslations(), tra);
    c.same<bool>(k + "-isDiagonal", a.isDiagonal(), diag);
    c.same<bool>(k + "-isSymmetric", a.isSymmetric(), sym);
    for (int all = 0; all < 2; ++all) {
        const int n = all || rot ? 6 : 3;
        std::vector<double> d, col, up;
        for (int j = 0; j < n; ++j) {
            d.push_back(m.v[j][j]);
            for (int i = 0; i < n; ++i) {
                const double w = t ? m.v[j][i] : m.v[i][j];
                col.push_back(w);
                if (i <= j) up.push_back(w);
            }
        }
        c.check(k + "-diagonal", a.diagonal(all != 0) == d, "diagonal");
        c.check(k + "-columns", a.asColumnsVector(all != 0) == col, "components by columns");
        c.check(k + "-upper", a.asUpperTriangularColumnsVector(all != 0) == up, "upper triangle by columns");
    }
}

static void matrices(vp::Case& c) {
    c.tag("matrices");
    M m, n;
    DOFMatrix a = matrix(c, m);
    same_matrix(c, "matrix", a, m);
    same_matrix(c, "transposed", a.transposed(), m, true);
    same_matrix(c, "transposed-twice", a.transposed().transposed(), m);
    c.check("equal-itself", a.isEqual(a), "a matrix differs from itself");
    std::unique_ptr<DOFMatrix> bp(new DOFMatrix(matrix(c, n)));
    if (c.flag(3)) { bp.reset(new DOFMatrix(m.type)); DOFMatrix& b = *bp; n = m; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) if (m.in[i][j] || c.draw(12) == 5) {
        if (m.type == MatrixType::DIAGONAL && i != j) continue;
        b.addComponent(dof(i), dof(j), m.v[i][j]); }
        if (c.flag()) {
            const int i = static_cast<int>(c.draw(6)), j = m.type == MatrixType::DIAGONAL ? i : static_cast<int>(c.draw(6));
            n.v[i][j] += 1;
            if (m.type == MatrixType::SYMMETRIC) n.v[j][i] = n.v[i][j];
            b.addComponent(dof(i), dof(j), n.v[i][j]);
            c.text << "compared with a copy changed at (" << i + 1 << "," << j + 1 << ")\n";
        } else c.text << "compared with a copy\n";
    }
    const DOFMatrix& b = *bp;
    bool eq = true;
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) eq &= m.v[i][j] == n.v[i][j];
    c.same<bool>("isEqual", a.isEqual(b), eq);
    c.same<bool>("isEqual-reversed", b.isEqual(a), eq);
    DOFMatrix x(m.type);
    const int k = static_cast<int>(c.draw(7));
    for (int i = 0; i < k && i < 6; ++i) x.addComponent(dof(i), dof(i), DBL_MAX);
    c.same<bool>("isMaxDiagonal", x.isMaxDiagonal(), true);
    if (c.flag()) { x.addComponent(DOF::RZ, DOF::RZ, c.real()); c.same<bool>("isMaxDiagonal-other", x.isMaxDiagonal(), false); }
    a.setAllZero();
    for (auto& r : m.v) for (double& y : r) y = 0;
    same_matrix(c, "zeroed", a, m);
}

static void coefficients(vp::Case& c) {
    c.tag("coefficients");
    struct K { double v[6]; bool in[6]; };
    std::vector<DOFCoefs> s;
    std::vector<K> m;
    for (int q = 0; q < 2 + static_cast<int>(c.draw(12)); ++q) {
        K k;
        for (int i = 0; i < 6; ++i) { k.v[i] = 0; k.in[i] = false; }
        const uint32_t op = s.empty() ? c.draw(3) : c.draw(7);
        const size_t a = s.empty() ? 0 : c.draw(static_cast<uint32_t>(s.size())), b = s.empty() ? 0 : c.draw(static_cast<uint32_t>(s.size()));
        DOFCoefs r;
        c.text << "op " << op << " " << a << " " << b << "\n";
        if (op == 0) {
            for (int i = 0; i < 6; ++i) { k.v[i] = value(c); k.in[i] = true; }
            r = DOFCoefs(k.v[0], k.v[1], k.v[2], k.v[3], k.v[4], k.v[5]);
        } else if (op == 1) {
            const int x = static_cast<int>(c.draw(64));
            const double v = value(c);
            r = DOFCoefs(DOFS(static_cast<char>(x)), v);
            for (int i = 0; i < 6; ++i) if (x >> i & 1) { k.v[i] = v; k.in[i] = true; }
        } else if (op == 2) {
            const int i = static_cast<int>(c.draw(6));
            const double v = value(c);
            r = DOFCoefs(dof(i), v);
            k.v[i] = v; k.in[i] = true;
        } else if (op == 3 || op == 4) {
            r = s[a]; k = m[a];
            r += s[b];
            for (int i = 0; i < 6; ++i) if (m[b].in[i]) { k.v[i] = k.in[i] ? k.v[i] + m[b].v[i] : m[b].v[i]; k.in[i] = true; }
            c.nontrivial = true;
        } else if (op == 5) {
            const double f = c.real();
            r = s[a]; k = m[a];
            r *= f;
            for (int i = 0; i < 6; ++i) if (k.in[i]) k.v[i] *= f;
        } else {
            const int i = static_cast<int>(c.draw(6));
            const double v = value(c);
            r = s[a]; k = m[a];
            r.setValue(dof(i), v);
            k.v[i] = v; k.in[i] = true;
        }
        int w = 0;
        for (int i = 0; i < 6; ++i) {
            w |= k.in[i] << i;
            if (k.in[i]) {
                c.same<double>("coefficient", r.getValue(dof(i)), k.v[i], "op " + std::to_string(op) + " freedom " + std::to_string(i + 1));
                c.same<double>("coefficient-index", r[static_cast<dof_int>(i)], k.v[i]);
            }
        }
        c.same<int>("coefficient-dofs", mask(r.getDOFS()), w, "op " + std::to_string(op));
        c.same<bool>("coefficient-empty", r.isEmpty(), w == 0);
        c.same<double>("coefficient-beyond", r[static_cast<dof_int>(6)], 0.0);
        for (size_t j = 0; j < s.size(); ++j) {
            bool eq = true;
            int less = 0;
            for (int i = 0; i < 6; ++i) {
                const double x = k.in[i] ? k.v[i] : Globals::UNAVAILABLE_DOUBLE, y = m[j].in[i] ? m[j].v[i] : Globals::UNAVAILABLE_DOUBLE;
                if (x != y) { eq = false; less = x < y ? 1 : -1; break; }
            }
            c.same<bool>("coefficient-equality", r == s[j], eq);
            c.same<bool>("coefficient-order", r < s[j], less == 1);
            c.same<bool>("coefficient-order-reversed", s[j] < r, less == -1);
        }
        s.push_back(r);
        m.push_back(k);
    }
}

static void body(vp::Case& c) {
    switch (c.draw(3)) {
    case 0: sets(c); break;
    case 1: matrices(c); break;
    default: coefficients(c);
    }
}
int main() { return vp::serve(body); }
