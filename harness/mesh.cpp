// C17: the mesh, its groups and its containers against maps and sets
#include "Abstract/Model.h"
#include "Abstract/Mesh.h"
#include "vp.h"
using namespace vega;

struct MNode { int id; double x, y, z; bool defined; std::set<int> parts; int dofs; };
struct MCell { int id; const CellType* type; std::vector<int> nodes; double offset; pos_t cs; int element; bool isvirtual; bool dead; };
struct MGroup { std::string name; int id; bool cells; std::set<pos_t> in; std::set<int> later; };
struct MBox { std::set<pos_t> nodes, cells; std::set<int> later; std::set<std::string> ngroups, cgroups; };
struct MOrient { int o, x, node; double v[3]; pos_t pos; };

static const CellType* const TYPES[] = {&CellType::SEG2, &CellType::POINT1, &CellType::QUAD4, &CellType::TRI3, &CellType::HEXA8, &CellType::SEG3, &CellType::TRI6,
    &CellType::QUAD8, &CellType::TETRA4, &CellType::PYRA5, &CellType::PENTA6, &CellType::TETRA10, &CellType::HEXA20, &CellType::PENTA15, &CellType::PYRA13,
    &CellType::POLY3, &CellType::POLY5, &CellType::POLY20};
static const int NTYPES = 18, NIDS = 40;

template<typename T> static std::string str(const T& s) { std::ostringstream o; o << "{"; for (const auto& x : s) o << " " << x; o << " }"; return o.str(); }
template<typename T> static void sets(vp::Case& c, const std::string& k, const T& got, const T& want, const std::string& what) {
    if (got != want) c.fail(k, what + ": got " + str(got) + ", expected " + str(want));
}

struct W {
    vp::Case& c;
    Mesh mesh;
    std::vector<MNode> nodes;
    std::map<int, pos_t> nodeAt;
    std::vector<MCell> cells;
    std::map<int, pos_t> cellAt;
    std::vector<MGroup> groups;
    std::vector<NodeContainer> boxes;
    std::vector<MBox> mboxes;
    std::vector<MOrient> orients;
    std::set<const CellType*> replaced;      // types with cells that an update left behind
    size_t removed = 0;

    explicit W(vp::Case& c) : c(c), mesh(LogLevel::ERROR, "mesh") {}

    int nid() { return 1 + static_cast<int>(c.draw(NIDS)); }
    int cid() { return 1 + static_cast<int>(c.draw(60)); }
    MGroup* group(const std::string& n) { for (auto& g : groups) if (g.name == n) return &g; return nullptr; }
    MGroup* group(bool ofCells) {
        std::vector<MGroup*> r;
        for (auto& g : groups) if (g.cells == ofCells) r.push_back(&g);
        return r.empty() ? nullptr : r[c.draw(static_cast<uint32_t>(r.size()))];
    }
    std::shared_ptr<NodeGroup> ng(const std::string& n) { return std::dynamic_pointer_cast<NodeGroup>(mesh.findGroup(n)); }
    std::shared_ptr<CellGroup> cg(const std::string& n) { return std::dynamic_pointer_cast<CellGroup>(mesh.findGroup(n)); }

    void addNode() {
        const bool automatic = c.draw(8) == 7;
        const int id = automatic ? Node::AUTO_ID : nid();
        const double x = c.real(), y = c.real(), z = c.real();
        c.text << "addNode " << (automatic ? "auto" : std::to_string(id)) << " (" << x << ", " << y << ", " << z << ")\n";
        const pos_t p = mesh.addNode(id, x, y, z);
        if (automatic) {
            c.check("auto-node", p == nodes.size(), "an automatic node takes the position of another");
            if (p != nodes.size()) return;
            const int given = mesh.findNodeId(p);
            c.check("auto-node-id", nodeAt.find(given) == nodeAt.end(), "an automatic node takes the id of another");
            nodes.push_back({given, x, y, z, true, {}, 0});
            nodeAt[given] = p;
            return;
        }
        const auto it = nodeAt.find(id);
        if (it == nodeAt.end()) {
            c.same<size_t>("new-node", p, nodes.size(), "position of node " + std::to_string(id));
            nodes.push_back({id, x, y, z, true, {}, 0});
            nodeAt[id] = p;
        } else {
            c.same<size_t>("same-node", p, it->second, "position of node " + std::to_string(id));
            MNode& n = nodes[it->second];
            n.x = x; n.y = y; n.z = z; n.defined = true;
            c.tag("node defined again");
        }
    }
    pos_t reserve(int id, const int* part) {
        auto it = nodeAt.find(id);
        if (it == nodeAt.end()) {
            nodes.push_back({id, 0, 0, 0, false, {}, 0});
            it = nodeAt.insert({id, static_cast<pos_t>(nodes.size() - 1)}).first;
        }
        if (part) nodes[it->second].parts.insert(*part);
        return it->second;
    }
    void reserveNodes() {
        if (c.flag()) {
            const int id = nid();
            c.text << "reserve node " << id << "\n";
            const pos_t p = mesh.findOrReserveNode(id);
            c.same<size_t>("reserve", p, reserve(id, nullptr), "position of node " + std::to_string(id));
        } else {
            std::set<int> ids;
            const int n = static_cast<int>(c.draw(4));
            for (int i = 0; i < n; ++i) ids.insert(nid());
            c.text << "reserve nodes " << str(ids) << "\n";
            const std::set<pos_t> got = mesh.findOrReserveNodes(ids);
            std::set<pos_t> want;
            for (int id : ids) want.insert(reserve(id, nullptr));
            sets(c, "reserve-nodes", got, want, "positions");
        }
    }
    std::vector<int> connectivity(const CellType& t) {
        std::vector<int> all, r;
        for (int i = 1; i <= NIDS; ++i) all.push_back(i);
        const uint32_t turn = c.draw(NIDS), step = c.flag() ? 1 : 7;
        for (unsigned i = 0; i < t.numNodes; ++i) r.push_back(all[(turn + i * step) % all.size()]);
        return r;
    }
    void addCell() {
        const CellType& t = *TYPES[c.draw(NTYPES)];
        const bool automatic = c.draw(8) == 7;
        int id = cid();
        if (!automatic) { while (cellAt.count(id)) ++id; }
        const std::vector<int> ids = connectivity(t);
        const bool isvirtual = c.draw(6) == 5;
        const int element = c.draw(3) == 2 ? Cell::UNAVAILABLE_CELL : 1 + static_cast<int>(c.draw(4));
        const double offset = t.dimension == SpaceDimension::DIMENSION_2D && c.flag() ? c.real() : 0.0;
        const MOrient* o = !orients.empty() && c.draw(4) == 3 ? &orients[c.draw(static_cast<uint32_t>(orients.size()))] : nullptr;
        const pos_t cs = o ? o->pos : CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID;
        c.text << "addCell " << (automatic ? "auto" : std::to_string(id)) << " " << t.to_str() << str(ids) << " element " << element << " offset " << offset << (o ? " oriented" : "")
               << (isvirtual ? " virtual" : "") << "\n";
        const pos_t p = mesh.addCell(automatic ? Cell::AUTO_ID : id, t, ids, isvirtual, cs, element, offset);
        c.same<size_t>("new-cell", p, cells.size(), "position of the cell");
        if (p != cells.size()) return;
        if (automatic) {
            id = mesh.findCellId(p);
            c.check("auto-cell-id", !cellAt.count(id), "an automatic cell takes the id of another");
        }
        cells.push_back({id, &t, ids, offset, cs, element, isvirtual, false});
        cellAt[id] = p;
        for (int n : ids) reserve(n, &element);
    }
    void updateCell() {
        if (cells.empty()) return;
        const pos_t old = c.draw(static_cast<uint32_t>(cells.size()));
        if (cells[old].dead || cells[old].cs != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) return;
        const CellType& t = *TYPES[c.draw(NTYPES)];
        const std::vector<int> ids = connectivity(t);
        const int id = cells[old].id;
        c.text << "updateCell " << id << " " << t.to_str() << str(ids) << "\n";
        c.tag("cell updated");
        for (size_t i = 0; i < boxes.size(); ++i) {      // an id named before its cell designates the cell as it is now
            boxes[i].containsCellPosition(old);
            resolve(mboxes[i].cells, mboxes[i].later);
        }
        const pos_t p = mesh.updateCell(id, t, ids);
        c.same<size_t>("updated-cell", p, cells.size(), "position of the cell");
        MCell n{id, &t, ids, 0, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID, Cell::UNAVAILABLE_CELL, false, false};
        if (t.dimension == SpaceDimension::DIMENSION_2D) n.offset = cells[old].offset;
        cells[old].dead = true;
        replaced.insert(cells[old].type);
        cells.push_back(n);
        cellAt[id] = p;
        for (int k : ids) reserve(k, nullptr);
        for (auto& g : groups) if (g.cells && g.in.erase(old)) g.in.insert(p);
        for (size_t i = 0; i < boxes.size(); ++i) if (mboxes[i].cells.count(old)) {      // what the writers do with the containers
            boxes[i].removeCellPositionExcludingGroups(old);
            boxes[i].addCellPosition(p);
            mboxes[i].cells.erase(old);
            mboxes[i].cells.insert(p);
        }
    }
    void makeGroup() {
        const bool ofCells = c.flag();
        const std::string name = "G" + std::to_string(c.draw(9));
        const int id = c.flag() ? static_cast<int>(1 + c.draw(9)) : Group::NO_ORIGINAL_ID;
        const bool find = !ofCells && c.flag();
        c.text << (find ? "findOrCreate " : "create ") << (ofCells ? "cell group " : "node group ") << name << " id " << id << "\n";
        const MGroup* same = group(name);
        bool taken = same != nullptr;
        if (find && same && !same->cells) {
            const auto g = mesh.findOrCreateNodeGroup(name, id);
            c.check("group-found", g == mesh.findGroup(name) && g->getName() == name && g->getOriginalId() == same->id, "the group found is not the one stored");
            return;
        }
        if (id != Group::NO_ORIGINAL_ID) for (const auto& g : groups) if (g.id == id) taken = true;
        bool thrown = false;
        std::shared_ptr<Group> g;
        try {
            if (ofCells) g = mesh.createCellGroup(name, id, "a comment");
            else if (find) g = mesh.findOrCreateNodeGroup(name, id, "a comment");
            else g = mesh.createNodeGroup(name, id, "a comment");
        } catch (const std::invalid_argument&) { thrown = true; }
        c.check("group-refused", thrown == taken, std::string(taken ? "accepted" : "refused") + " a group " + name);
        if (thrown || taken) return;
        c.check("group-data", g && g->getName() == name && g->getOriginalId() == id && g->getComment() == "a comment", "group " + name);
        groups.push_back({name, id, ofCells, {}, {}});
    }
    void fill() {
        MGroup* g = group(c.flag());
        if (!g) return;
        if (g->cells) {
            const auto r = cg(g->name);
            if (!r) { c.fail("group-lost", g->name); return; }
            switch (c.draw(5)) {
            case 0: {
                const int id = cid();
                c.text << g->name << ".addCellId " << id << "\n";
                if (!cellAt.count(id)) c.tag("cell put in a group before its definition");
                r->addCellId(id);
                put(g->in, g->later, id);
                break;
            }
            case 1: case 2: {
                std::vector<int> ids;
                const int n = static_cast<int>(c.draw(5));
                for (int i = 0; i < n; ++i) ids.push_back(cid());
                c.text << g->name << ".addCellIds " << str(ids) << "\n";
                if (c.flag()) r->addCellIds(ids);
                else if (c.flag()) r->addCellIds(std::set<int>(ids.begin(), ids.end()));
                else r->addCellIds(std::list<int>(ids.begin(), ids.end()));
                for (int id : ids) put(g->in, g->later, id);
                break;
            }
            case 3: {
                const auto p = live();
                if (p < 0) return;
                c.text << g->name << ".addCellPosition " << p << "\n";
                if (c.flag()) r->addCellPosition(static_cast<pos_t>(p));
                else r->addCellPositions(std::vector<pos_t>{static_cast<pos_t>(p)});
                g->in.insert(static_cast<pos_t>(p));
                break;
            }
            default: {
                const auto p = live();
                if (p < 0) return;
                c.text << g->name << ".removeCellPosition " << p << "\n";
                r->removeCellPosition(static_cast<pos_t>(p));
                resolve(g->in, g->later);
                if (g->in.erase(static_cast<pos_t>(p))) ++removed;
            }
            }
        } else {
            const auto r = ng(g->name);
            if (!r) { c.fail("group-lost", g->name); return; }
            const int id = nid();
            switch (c.draw(5)) {
            case 0: c.text << g->name << ".addNodeId " << id << "\n"; r->addNodeId(id); g->in.insert(reserve(id, nullptr)); break;
            case 1: {
                std::set<int> ids{id, nid(), nid()};
                c.text << g->name << ".addNodeIds " << str(ids) << "\n";
                r->addNodeIds(ids);
                for (int k : ids) g->in.insert(reserve(k, nullptr));
                break;
            }
            case 2:
                if (nodes.empty()) return;
                { const pos_t p = c.draw(static_cast<uint32_t>(nodes.size()));
                  c.text << g->name << ".addNodePosition " << p << "\n";
                  if (c.flag()) r->addNodeByPosition(p); else r->addNodePositions(std::set<pos_t>{p});
                  g->in.insert(p); }
                break;
            case 3:
                if (nodes.empty()) return;
                { const pos_t p = c.draw(static_cast<uint32_t>(nodes.size()));
                  c.text << g->name << ".addNode " << p << "\n";
                  r->addNode(mesh.findNode(p));
                  g->in.insert(p); }
                break;
            default:
                if (nodes.empty()) return;
                { const pos_t p = c.draw(static_cast<uint32_t>(nodes.size()));
                  c.text << g->name << ".removeNodeByPosition " << p << "\n";
                  r->removeNodeByPosition(p);
                  if (g->in.erase(p)) ++removed; else c.tag("absent node removed"); }
            }
        }
    }
    // a position of a cell that was not replaced
    int live() {
        if (cells.empty()) return -1;
        const pos_t p = c.draw(static_cast<uint32_t>(cells.size()));
        return cells[p].dead ? -1 : static_cast<int>(p);
    }
    void put(std::set<pos_t>& in, std::set<int>& later, int id) { if (cellAt.count(id)) in.insert(cellAt[id]); else later.insert(id); }
    void resolve(std::set<pos_t>& in, std::set<int>& later) {
        for (auto it = later.begin(); it != later.end();) {
            if (cellAt.count(*it)) { in.insert(cellAt[*it]); it = later.erase(it); } else ++it;
        }
    }
    bool named(const std::string& n) {
        for (const auto& b : mboxes) if (b.ngroups.count(n) || b.cgroups.count(n)) return true;
        return false;
    }
    void changeGroup() {
        if (groups.empty()) return;
        const size_t i = c.draw(static_cast<uint32_t>(groups.size()));
        const std::string name = groups[i].name;
        if (c.flag()) {
            c.text << "removeGroup " << name << "\n";
            mesh.removeGroup(name);
            groups.erase(groups.begin() + static_cast<long>(i));
            if (named(name)) c.tag("group of a container removed");
            ++removed;
        } else {
            const std::string to = "R" + std::to_string(c.draw(5));
            if (group(to) || named(name) || named(to)) return;
            c.text << "renameGroup " << name << " " << to << "\n";
            mesh.renameGroup(name, to, "renamed");
            groups[i].name = to;
            c.check("rename", mesh.findGroup(to) && mesh.findGroup(to)->getName() == to && mesh.findGroup(to)->getComment() == "renamed", "name of the group");
            c.tag("group renamed");
        }
    }
    void box() {
        if (boxes.empty() || (boxes.size() < 3 && c.draw(6) == 5)) { boxes.push_back(NodeContainer(mesh)); mboxes.push_back({}); c.text << "new container\n"; }
        const size_t i = c.draw(static_cast<uint32_t>(boxes.size()));
        NodeContainer& b = boxes[i];
        MBox& m = mboxes[i];
        c.text << "container " << i << ": ";
        switch (c.draw(12)) {
        case 0: { const int id = nid(); c.text << "addNodeId " << id; b.addNodeId(id); m.nodes.insert(reserve(id, nullptr)); break; }
        case 1: { std::vector<int> ids{nid(), nid()}; c.text << "addNodeIds " << str(ids);
                  if (c.flag()) b.addNodeIds(ids);
                  else if (c.flag()) { std::sort(ids.begin(), ids.end()); b.addNodeIds(std::set<int>(ids.begin(), ids.end())); }
                  else b.addNodeIds(std::list<int>(ids.begin(), ids.end()));
                  for (int k : ids) m.nodes.insert(reserve(k, nullptr)); break; }
        case 2: { const int id = cid(); c.text << "addCellId " << id; b.addCellId(id); put(m.cells, m.later, id); break; }
        case 3: { const int p = live(); if (p >= 0) { c.text << "add cell " << p; b.CellContainer::add(mesh.findCell(static_cast<pos_t>(p))); m.cells.insert(static_cast<pos_t>(p)); } break; }
        case 4: { const MGroup* g = group(false); if (g) { c.text << "add node group " << g->name; if (c.flag()) b.addNodeGroup(g->name); else b.add(*ng(g->name)); m.ngroups.insert(g->name); } break; }
        case 5: { const MGroup* g = group(true); if (g) { c.text << "add cell group " << g->name; if (c.flag()) b.addCellGroup(g->name); else b.CellContainer::add(*cg(g->name)); m.cgroups.insert(g->name); } break; }
        case 6: { const size_t j = c.draw(static_cast<uint32_t>(boxes.size())); c.text << "add container " << j; c.tag("container added to a container");
                  const NodeContainer other = boxes[j];
                  MBox o = mboxes[j];
                  resolve(o.cells, o.later);
                  b.add(other);
                  m.nodes.insert(o.nodes.begin(), o.nodes.end());
                  m.ngroups.insert(o.ngroups.begin(), o.ngroups.end());
                  // the nodes of the cells are in, whether as cells or as nodes
                  m.cells.insert(o.cells.begin(), o.cells.end());
                  m.later.insert(o.later.begin(), o.later.end());
                  m.cgroups.insert(o.cgroups.begin(), o.cgroups.end());
                  break; }
        case 7: { if (!m.cells.empty() || !m.later.empty() || nodes.empty()) break; const pos_t p = c.draw(static_cast<uint32_t>(nodes.size())); c.text << "remove node " << p;
                  b.removeNodePositionExcludingGroups(p); if (m.nodes.erase(p)) ++removed; else c.tag("absent node removed"); break; }
        case 8: { const int p = live(); if (p >= 0) { c.text << "remove cell " << p; b.removeCellPositionExcludingGroups(static_cast<pos_t>(p)); resolve(m.cells, m.later);
                  if (m.cells.erase(static_cast<pos_t>(p))) ++removed; } break; }
        case 9: if (c.draw(4) == 3) { c.text << "remove all cells"; b.removeAllCellsExcludingGroups(); m.cells.clear(); m.later.clear(); } break;
        case 10: if (c.draw(4) == 3) { c.text << "clear"; b.clear(); m = MBox(); } break;
        default: { std::vector<pos_t> v; const int p = live(); if (p >= 0) v.push_back(static_cast<pos_t>(p)); c.text << "add cell positions " << str(v);
                   if (c.flag()) b.addCellPositions(v); else b.addCellPositions(std::set<pos_t>(v.begin(), v.end())); m.cells.insert(v.begin(), v.end()); }
        }
        c.text << "\n";
    }
    void orientation() {
        MOrient o;
        o.o = nid();
        do o.x = nid(); while (o.x == o.o && c.more());
        if (o.x == o.o) return;
        o.node = c.flag() ? nid() : 0;
        double v[3] = {1, 0, 0};
        if (!o.node) {
            const uint32_t k = c.draw(4);
            v[0] = k == 1 ? 0 : 1; v[1] = k == 0 ? 0 : k == 3 ? -2 : 1; v[2] = k == 2 ? 1 : 0;
        }
        const double len = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
        for (int i = 0; i < 3; ++i) o.v[i] = v[i] / len;
        c.text << "orientation " << o.o << " " << o.x << " " << o.node << " (" << v[0] << ", " << v[1] << ", " << v[2] << ")\n";
        c.tag("orientation");
        const OrientationCoordinateSystem s = o.node ? OrientationCoordinateSystem(mesh, o.o, o.x, o.node) : OrientationCoordinateSystem(mesh, o.o, o.x, VectorialValue(v[0], v[1], v[2]));
        const MOrient* known = nullptr;
        for (const auto& k : orients) {
            if (k.o != o.o || k.x != o.x || k.node != o.node) continue;
            if (!o.node && (std::fabs(k.v[0] - o.v[0]) > 1e-9 || std::fabs(k.v[1] - o.v[1]) > 1e-9 || std::fabs(k.v[2] - o.v[2]) > 1e-9)) continue;
            known = &k;
        }
        o.pos = mesh.addOrFindOrientation(s);
        if (known) c.same<size_t>("orientation-found", o.pos, known->pos, "position of a known orientation");
        else {
            for (const auto& k : orients) c.check("orientation-new", k.pos != o.pos, "two orientations share a position");
            orients.push_back(o);
        }
    }
    void allow() {
        if (nodes.empty()) return;
        const pos_t p = c.draw(static_cast<uint32_t>(nodes.size()));
        const int m = static_cast<int>(c.draw(64));
        c.text << "allowDOFS " << p << " " << m << "\n";
        mesh.allowDOFS(p, DOFS(static_cast<char>(m)));
        nodes[p].dofs |= m;
    }

    void verify() {
        c.same<size_t>("count-nodes", mesh.countNodes(), nodes.size());
        c.same<size_t>("count-cells", mesh.countCells(), cellAt.size());
        int last = INT_MIN;
        size_t seen = 0;
        for (const Node& n : mesh.nodes) {
            if (n.id <= last) c.fail("node-order", "iteration over the nodes is not by increasing id");
            last = n.id;
            ++seen;
            const auto it = nodeAt.find(n.id);
            if (it == nodeAt.end()) { c.fail("node-unknown", "node " + std::to_string(n.id)); continue; }
            c.same<size_t>("node-position", n.position, it->second, "node " + std::to_string(n.id));
        }
        c.same<size_t>("node-iteration", seen, nodes.size(), "nodes visited");
        seen = 0;
        for (auto it = mesh.nodes.begin(); it.hasNext(); ++seen) it.next();
        c.same<size_t>("node-next", seen, nodes.size(), "nodes visited");
        if (!nodes.empty()) {
            c.same<int>("min-node", mesh.nodes.getMinNodeId(), nodeAt.begin()->first);
            c.same<int>("max-node", mesh.nodes.getMaxNodeId(), nodeAt.rbegin()->first);
        }
        std::map<std::set<int>, int> part;
        std::map<int, std::set<int>> partOf;
        std::set<pos_t> unused;
        for (pos_t p = 0; p < nodes.size(); ++p) {
            const MNode& m = nodes[p];
            const std::string w = "node " + std::to_string(m.id);
            const Node n = mesh.findNode(p);
            c.same<int>("node-id", n.id, m.id, w);
            c.same<int>("node-id-of", mesh.findNodeId(p), m.id, w);
            c.same<size_t>("node-position-of", mesh.findNodePosition(m.id), p, w);
            if (m.defined) c.check("node-coordinates", n.x == m.x && n.y == m.y && n.z == m.z && n.lx == m.x && n.ly == m.y && n.lz == m.z, w);
            c.same<int>("node-dofs", static_cast<char>(n.dofs), m.dofs, w);
            const int k = mesh.findNodePartId(p);
            c.same<int>("node-part", n.nodepartId, k, w);
            if (m.parts.empty()) c.same<int>("node-no-part", k, 0, w);
            else {
                if (part.count(m.parts)) c.same<int>("node-part-same", k, part[m.parts], w + ": nodes of the same elements have different parts:");
                if (partOf.count(k)) c.check("node-part-other", partOf[k] == m.parts, w + ": nodes of different elements share a part");
                part[m.parts] = k;
                partOf[k] = m.parts;
                c.check("node-part-cells", mesh.nodes.cellPartsByNodePart.count(k) && mesh.nodes.cellPartsByNodePart.at(k) == m.parts, w + ": parts of the cells of its part");
            }
            if (!m.defined && m.parts.empty()) unused.insert(p);
            else if (!m.defined && mesh.nodes.reservedButUnusedNodePositions.count(p)) unused.insert(p);      // only cells: both answers
        }
        for (int id = 1; id <= NIDS + 2; ++id) if (!nodeAt.count(id)) c.same<size_t>("node-absent", mesh.findNodePosition(id), Node::UNAVAILABLE_NODE, "position of node " + std::to_string(id));
        sets(c, "reserved", mesh.nodes.reservedButUnusedNodePositions, unused, "nodes reserved only");
        for (pos_t p = 0; p < cells.size(); ++p) {
            const MCell& m = cells[p];
            if (m.dead) continue;
            const std::string w = "cell " + std::to_string(m.id);
            c.same<size_t>("cell-position", mesh.findCellPosition(m.id), p, w);
            c.same<int>("cell-id", mesh.findCellId(p), m.id, w);
            c.check("has-cell", mesh.hasCell(m.id), w);
            cell(mesh.findCell(p), p, "find");
        }
        for (int id = 1; id <= 62; ++id) if (!cellAt.count(id)) {
            c.check("cell-absent", !mesh.hasCell(id) && mesh.findCellPosition(id) == Cell::UNAVAILABLE_CELL, "cell " + std::to_string(id));
        }
        for (const CellType* t : TYPES) {
            if (replaced.count(t)) continue;
            std::vector<pos_t> want, got, got2, got3;
            for (pos_t p = 0; p < cells.size(); ++p) if (cells[p].type == t) want.push_back(p);
            c.same<size_t>("count-type", mesh.countCells(*t), want.size(), t->to_str());
            for (auto it = mesh.cells.cells_begin(*t); it != mesh.cells.cells_end(*t); ++it) { const Cell k = *it; got.push_back(k.position); cell(k, k.position, "iteration"); }
            for (auto it = mesh.cells.cells_begin(*t); it.hasNext();) got2.push_back(it.next().position);
            for (auto it = mesh.cells.cells_begin(*t); it != mesh.cells.cells_end(*t);) got3.push_back((*it++).position);
            sets(c, "iteration", got, want, t->to_str());
            sets(c, "iteration-next", got2, want, t->to_str());
            sets(c, "iteration-postfix", got3, want, t->to_str());
        }
        std::set<std::string> nn, cn, gn, gc;
        for (auto& g : groups) (g.cells ? gc : gn).insert(g.name);
        for (const auto& g : mesh.getNodeGroups()) nn.insert(g->getName());
        for (const auto& g : mesh.getCellGroups()) cn.insert(g->getName());
        std::set<std::string> csn;
        for (const auto& kv : mesh.cellGroupNameByCspos) { csn.insert(kv.second); cn.erase(kv.second); }
        sets(c, "node-groups", nn, gn, "node groups");
        sets(c, "cell-groups", cn, gc, "cell groups");
        for (int i = 0; i < 14; ++i) {
            const std::string n = i < 9 ? "G" + std::to_string(i) : "R" + std::to_string(i - 9);
            c.check("has-group", mesh.hasGroup(n) == (group(n) != nullptr) && (mesh.findGroup(n) != nullptr) == (group(n) != nullptr), "group " + n);
        }
        for (int i = 1; i < 10; ++i) {
            std::string n;
            for (const auto& g : groups) if (g.id == i) n = g.name;
            c.check("has-group-id", mesh.hasGroup(i) == !n.empty(), "group of id " + std::to_string(i));
            const auto g = mesh.findGroup(i);
            c.check("group-of-id", n.empty() ? g == nullptr : g != nullptr && g->getName() == n && g == mesh.findGroup(n), "group of id " + std::to_string(i));
        }
        for (auto& g : groups) {
            if (g.cells) {
                resolve(g.in, g.later);
                const auto r = cg(g.name);
                if (!r) { c.fail("group-kind", g.name); continue; }
                std::set<int> ids;
                std::set<pos_t> np, got;
                for (pos_t p : g.in) { ids.insert(cells[p].id); for (int n : cells[p].nodes) np.insert(nodeAt[n]); }
                sets(c, "group-cells", r->cellPositions(), g.in, g.name);
                sets(c, "group-cell-ids", r->cellIds(), ids, g.name);
                sets(c, "group-nodes", r->nodePositions(), np, g.name);
                for (const Cell& k : r->getCells()) { got.insert(k.position); cell(k, k.position, "group"); }
                sets(c, "group-get-cells", got, g.in, g.name);
                c.same<bool>("group-empty", r->empty(), g.in.empty(), g.name);
                for (pos_t p = 0; p < cells.size(); ++p) if (!cells[p].dead) c.same<bool>("group-contains", r->containsCellPosition(p), g.in.count(p) != 0, g.name + " " + std::to_string(p));
            } else {
                const auto r = ng(g.name);
                if (!r) { c.fail("group-kind", g.name); continue; }
                std::set<int> ids;
                std::set<pos_t> got;
                for (pos_t p : g.in) ids.insert(nodes[p].id);
                sets(c, "group-node-positions", r->nodePositions(), g.in, g.name);
                sets(c, "group-node-ids", r->getNodeIds(), ids, g.name);
                for (const Node& n : r->getNodes()) got.insert(n.position);
                sets(c, "group-get-nodes", got, g.in, g.name);
                c.same<bool>("group-empty", r->empty(), g.in.empty(), g.name);
                for (pos_t p = 0; p < nodes.size(); ++p) c.same<bool>("group-contains", r->containsNodePosition(p), g.in.count(p) != 0, g.name + " " + std::to_string(p));
            }
        }
        std::map<pos_t, std::set<pos_t>> oriented;
        for (pos_t p = 0; p < cells.size(); ++p) if (!cells[p].dead && cells[p].cs != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) oriented[cells[p].cs].insert(p);
        c.same<size_t>("orientation-groups", mesh.cellGroupNameByCspos.size(), oriented.size(), "orientation groups");
        c.same<size_t>("orientation-names", csn.size(), oriented.size(), "names of the orientation groups");
        for (const auto& kv : oriented) {
            const auto it = mesh.cellGroupNameByCspos.find(kv.first);
            const auto r = it == mesh.cellGroupNameByCspos.end() ? nullptr : cg(it->second);
            if (!r) { c.fail("orientation-group", "missing"); continue; }
            sets(c, "orientation-cells", r->cellPositions(), kv.second, "orientation group");
        }
        for (const auto& o : orients) {
            const auto s = std::dynamic_pointer_cast<OrientationCoordinateSystem>(mesh.getCoordinateSystemByPosition(o.pos));
            c.check("orientation-stored", s && s->getNodeO() == o.o && s->getNodeX() == o.x && (o.node ? s->getNodeV() == o.node : s->getNodeV() == Node::UNAVAILABLE_NODE), "orientation at " + std::to_string(o.pos));
            if (s && !o.node) c.check("orientation-vector", std::fabs(s->getV().x() - o.v[0]) + std::fabs(s->getV().y() - o.v[1]) + std::fabs(s->getV().z() - o.v[2]) < 1e-9, "vector of an orientation");
        }
        for (size_t i = 0; i < boxes.size(); ++i) {
            const NodeContainer& b = boxes[i];
            MBox& m = mboxes[i];
            resolve(m.cells, m.later);
            const std::string w = "container " + std::to_string(i);
            std::set<pos_t> ca = m.cells, own = m.nodes, all;
            bool lost = false, none = true;
            for (const auto& n : m.cgroups) { const MGroup* g = group(n); if (g && g->cells) ca.insert(g->in.begin(), g->in.end()); else lost = true; }
            for (pos_t p : m.cells) for (int n : cells[p].nodes) own.insert(nodeAt[n]);
            all = own;
            for (pos_t p : ca) for (int n : cells[p].nodes) all.insert(nodeAt[n]);
            for (const auto& n : m.ngroups) { const MGroup* g = group(n); if (g && !g->cells) { all.insert(g->in.begin(), g->in.end()); none = none && !g->in.empty(); } else lost = true; }
            std::set<int> ids, aids;
            for (pos_t p : own) ids.insert(nodes[p].id);
            for (pos_t p : all) aids.insert(nodes[p].id);
            sets(c, "box-nodes", b.getNodePositionsExcludingGroups(), own, w);
            sets(c, "box-all-nodes", b.getNodePositionsIncludingGroups(), all, w);
            sets(c, "box-node-ids", b.getNodeIdsExcludingGroups(), ids, w);
            sets(c, "box-all-node-ids", b.getNodeIdsIncludingGroups(), aids, w);
            std::set<pos_t> got;
            for (const Node& n : b.getNodesExcludingGroups()) got.insert(n.position);
            sets(c, "box-get-nodes", got, own, w);
            c.same<bool>("box-has-nodes", b.hasNodesIncludingGroups(), !all.empty(), w);
            c.same<bool>("box-has-cells", b.hasCellsIncludingGroups(), !ca.empty(), w);
            c.same<bool>("box-cells-empty", b.CellContainer::empty(), ca.empty(), w);
            if (none && !lost) c.same<bool>("box-empty", b.empty(), all.empty(), w);
            std::set<int> cids;
            for (pos_t p : ca) cids.insert(cells[p].id);
            sets(c, "box-all-cells", b.getCellPositionsIncludingGroups(), ca, w);
            sets(c, "box-all-cell-ids", b.getCellIdsIncludingGroups(), cids, w);
            got.clear();
            for (const Cell& k : b.getCellsIncludingGroups()) got.insert(k.position);
            sets(c, "box-get-all-cells", got, ca, w);
            sets(c, "box-cells", b.getCellPositionsExcludingGroups(), m.cells, w);
            got.clear();
            for (const Cell& k : b.getCellsExcludingGroups()) got.insert(k.position);
            sets(c, "box-get-cells", got, m.cells, w);
            cids.clear();
            for (pos_t p : m.cells) cids.insert(cells[p].id);
            sets(c, "box-cell-ids", b.getCellIdsExcludingGroups(), cids, w);
            c.same<bool>("box-own-cells", b.hasCellsExcludingGroups(), !m.cells.empty(), w);
            c.same<bool>("box-has-cell-groups", b.hasCellGroups(), !m.cgroups.empty(), w);
            c.same<bool>("box-has-node-groups", b.hasNodeGroups(), !m.ngroups.empty(), w);
            if (!lost) {
                std::set<std::string> a, d;
                for (const auto& g : b.getCellGroups()) a.insert(g->getName());
                for (const auto& g : b.getNodeGroups()) d.insert(g->getName());
                sets(c, "box-cell-groups", a, m.cgroups, w);
                sets(c, "box-node-groups", d, m.ngroups, w);
            }
        }
    }
    void cell(const Cell& k, pos_t p, const std::string& how) {
        if (p >= cells.size()) { c.fail("cell-" + how, "position out of range"); return; }
        const MCell& m = cells[p];
        const std::string w = "cell " + std::to_string(m.id);
        c.same<int>("cell-id-" + how, k.id, m.id, w);
        c.same<size_t>("cell-position-" + how, k.position, p, w);
        c.check("cell-type-" + how, k.type == *m.type, w);
        if (k.nodeIds != m.nodes) c.fail("cell-nodes-" + how, w + ": got " + str(k.nodeIds) + ", expected " + str(m.nodes));
        std::vector<pos_t> np;
        for (int n : m.nodes) np.push_back(nodeAt[n]);
        if (k.nodePositions != np) c.fail("cell-node-positions-" + how, w + ": got " + str(k.nodePositions) + ", expected " + str(np));
        c.same<double>("cell-offset-" + how, k.offset, m.offset, w);
        c.same<int>("cell-element-" + how, k.elementId, m.element, w);
        c.same<bool>("cell-virtual-" + how, k.isvirtual, m.isvirtual, w);
        c.same<size_t>("cell-system-" + how, k.cspos, m.cs, w);
        c.same<bool>("cell-oriented-" + how, k.hasOrientation, m.cs != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID, w);
        for (const auto& o : orients) if (o.pos == m.cs) c.check("cell-orientation-" + how, k.orientation && k.orientation->getNodeO() == o.o && k.orientation->getNodeX() == o.x, w);
    }
    void statistics() {
        for (const MNode& n : nodes) if (!n.defined) return;
        if (!replaced.empty()) return;
        double lo = 1e300, lonz = 1e300, hi = 0, sum = 0;
        size_t k = 0, pairs = 0;
        for (const MCell& m : cells) for (size_t i = 0; i < m.nodes.size(); ++i) for (size_t j = i + 1; j < m.nodes.size(); ++j) {
            const MNode& a = nodes[nodeAt[m.nodes[i]]];
            const MNode& b = nodes[nodeAt[m.nodes[j]]];
            const double d = (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z);
            ++pairs;
            lo = std::min(lo, d);
            hi = std::max(hi, d);
            if (d > 0) { lonz = std::min(lonz, d); sum += d; ++k; }
        }
        if (pairs == 0) return;
        c.tag("statistics");
        const MeshStatistics s = mesh.calcStats();
        c.near("stats-min", s.minLength, std::sqrt(lo), "shortest length");
        c.near("stats-max", s.maxLength, std::sqrt(hi), "longest length");
        if (k) c.near("stats-min-nonzero", s.minNonzeroLength, std::sqrt(lonz), "shortest non-zero length");
        c.near("stats-mean", s.quadraticMeanLength, k ? std::sqrt(sum / static_cast<double>(k)) : 0, "quadratic mean of the non-zero lengths");
    }
};

static void body(vp::Case& c) {
    W w(c);
    const bool defineAll = c.flag(3);
    if (defineAll) {       // nodes first, in an order of their own: cells and groups then meet defined nodes
        const uint32_t step = 1 + 2 * c.draw(10);
        const double s = c.draw(5) == 0 ? 0.0 : 1.0;
        for (int i = 0; i < NIDS; ++i) {
            const int id = 1 + static_cast<int>((static_cast<uint32_t>(i) * (step % 5 == 0 ? 7 : step)) % NIDS);
            if (w.nodeAt.count(id)) continue;
            const pos_t p = w.mesh.addNode(id, s * (id % 4), s * ((id / 4) % 4), s * (id / 16));
            w.nodes.push_back({id, s * (id % 4), s * ((id / 4) % 4), s * (id / 16), true, {}, 0});
            w.nodeAt[id] = p;
        }
        c.text << "nodes 1 to " << NIDS << (s > 0 ? "" : " at the origin") << "\n";
    }
    int ops = 0;
    while (c.more() && ops < 60) {
        ++ops;
        switch (c.draw(16)) {
        case 0: case 1: w.addNode(); break;
        case 2: w.reserveNodes(); break;
        case 3: case 4: case 5: w.addCell(); break;
        case 6: w.updateCell(); break;
        case 7: case 8: w.makeGroup(); break;
        case 9: case 10: w.fill(); break;
        case 11: w.changeGroup(); break;
        case 12: case 13: w.box(); break;
        case 14: w.orientation(); break;
        default: w.allow();
        }
        if (c.draw(6) == 5) w.verify();
        if (!c.fails.empty()) break;
    }
    if (c.fails.empty()) w.verify();
    if (c.fails.empty()) w.statistics();
    for (const auto& m : w.cells) {
        if (w.cells.size() > 3) break;
        std::ostringstream o;
        if (m.dead) continue;
        o << w.mesh.findCell(w.cellAt[m.id]);
        for (int n : m.nodes) c.check("cell-text", o.str().find(std::to_string(n)) != std::string::npos, "the text of cell " + std::to_string(m.id) + " does not name its node " + std::to_string(n));
    }
    c.nontrivial = ops > 3 && w.cellAt.size() > 1 && (!w.groups.empty() || !w.boxes.empty());
    if (w.removed) c.tag("something removed");
}
int main() { return vp::serve(body); }
