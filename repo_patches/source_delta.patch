From 4fa403661c7b8a16c300b5b42cb74d6b59f0b499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:36 +0000
Subject: [PATCH 001/117] fix: GRDSET default coordinate systems are ids, not
 positions

The CP and CD defaults were stored as internal positions and then used as
coordinate system ids by every GRID card, so the grids referred to an
undefined coordinate system.
---
 Nastran/NastranParser.h            |  8 ++++----
 Nastran/NastranParser_geometry.cpp | 15 +++++----------
 2 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/Nastran/NastranParser.h b/Nastran/NastranParser.h
index 7d7e76e..a46b2cd 100644
--- a/Nastran/NastranParser.h
+++ b/Nastran/NastranParser.h
@@ -58,13 +58,13 @@ protected:
 private:
     class GrdSet {
     public:
-        GrdSet(const pos_t cp = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID,
-                const pos_t cd = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID,
+        GrdSet(const int cp = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID,
+                const int cd = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID,
                 const int ps = 0, const int seid = 0) :
                     cp(cp), cd(cd), ps(ps), seid(seid) {
         }
-        pos_t cp;
-        pos_t cd;
+        int cp;
+        int cd;
         int ps;
         int seid;
     };
diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index fa8884a..27ff722 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -57,15 +57,10 @@ const unordered_map<CellType::Code, vector<int>, EnumClassHash> NastranParser::n
 
 void NastranParser::parseGRDSET(NastranTokenizer& tok, Model& model) {
     tok.skip(1);
-    int cp = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
-    if (cp != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
-        grdSet.cp = model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, cp));
-        }
+    // The defaults are the coordinate system ids, as they would be written in the GRID card
+    grdSet.cp = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
     tok.skip(3);
-    int cd = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
-    if (cd != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
-        grdSet.cd = model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, cd));
-        }
+    grdSet.cd = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
     grdSet.ps = tok.nextInt(true, 0);
     grdSet.seid = tok.nextInt(true, 0);
 
@@ -73,7 +68,7 @@ void NastranParser::parseGRDSET(NastranTokenizer& tok, Model& model) {
 
 void NastranParser::parseGRID(NastranTokenizer& tok, Model& model) {
     int id = tok.nextInt();
-    int cp = tok.nextInt(true, static_cast<int>(grdSet.cp));
+    int cp = tok.nextInt(true, grdSet.cp);
     pos_t cpos = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID;
     string scp;
     if (cp != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
@@ -86,7 +81,7 @@ void NastranParser::parseGRID(NastranTokenizer& tok, Model& model) {
     double x3 = tok.nextDouble(true, 0.0);
 
     /* Coordinate System for Displacement */
-    int cd = tok.nextInt(true, static_cast<int>(grdSet.cd));
+    int cd = tok.nextInt(true, grdSet.cd);
     pos_t cdos = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID;
     string scd="";
     if (cd != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
-- 
2.43.0


From 591ae09ae9fd127a70ab7b339099f87c2bf559f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 002/117] fix: Nastran output keeps the coordinate systems of
 the grids

GRID cards were written with the coordinates in the local system but without
the system (CP), CORD2x cards with their origin only, and spherical systems
declared themselves cylindrical.
---
 Abstract/CoordinateSystem.cpp |  2 +-
 Abstract/CoordinateSystem.h   |  1 +
 Nastran/NastranWriter.cpp     | 35 ++++++++++++++++++++++++-----------
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index 2fb85f6..a0838c7 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -242,7 +242,7 @@ VectorialValue CylindricalCoordinateSystem::getLocalEulerAnglesIntrinsicZYX(cons
 SphericalCoordinateSystem::SphericalCoordinateSystem(const Mesh& mesh,
         const VectorialValue origin, const VectorialValue ex, const VectorialValue ey, const Reference<CoordinateSystem> rcs,
         int original_id) :
-        CoordinateSystem(mesh, CoordinateSystem::Type::ABSOLUTE, CoordinateSystem::CoordinateType::CYLINDRICAL, origin, ex, ey, rcs, original_id) {
+        CoordinateSystem(mesh, CoordinateSystem::Type::ABSOLUTE, CoordinateSystem::CoordinateType::SPHERICAL, origin, ex, ey, rcs, original_id) {
 }
 
 // TODO : LD What's this ? Should this method be renamed moveOrigin ?
diff --git a/Abstract/CoordinateSystem.h b/Abstract/CoordinateSystem.h
index 6105b3f..2ea3582 100644
--- a/Abstract/CoordinateSystem.h
+++ b/Abstract/CoordinateSystem.h
@@ -75,6 +75,7 @@ public:
     inline VectorialValue getEx() const noexcept {return ex;};
     inline VectorialValue getEy() const noexcept {return ey;};
     inline VectorialValue getEz() const noexcept {return ez;};
+    inline Reference<CoordinateSystem> getReferenceCS() const noexcept {return rcs;};
 
     protected:
     CoordinateSystem(const Mesh&, Type, CoordinateType, const VectorialValue origin, const VectorialValue ex,
diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 0e16330..8aecc71 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -369,11 +369,19 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
 void NastranWriter::writeNodes(const Model& model, ofstream& out) const
 		{
 	for (Node node : model.mesh.nodes) {
-	    if (node.positionCS!= CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID)
-	        cerr << "Warning in GRID "<<node.id<<" CP not supported and dismissed."<<endl;
-        if (node.displacementCS!= CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID)
-            cerr << "Warning in GRID "<<node.id<<" CD not supported and dismissed."<<endl;
-		out << Line("GRID").add(node.id).add().add(node.lx).add(node.ly).add(node.lz);
+		shared_ptr<CoordinateSystem> positionCS = nullptr;
+		if (node.positionCS != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
+			positionCS = model.mesh.getCoordinateSystemByPosition(node.positionCS);
+		}
+		shared_ptr<CoordinateSystem> displacementCS = nullptr;
+		if (node.displacementCS != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
+			displacementCS = model.mesh.getCoordinateSystemByPosition(node.displacementCS);
+		}
+		Line grid("GRID");
+		grid.add(node.id).add(positionCS == nullptr ? 0 : positionCS->bestId());
+		grid.add(node.lx).add(node.ly).add(node.lz);
+		grid.add(displacementCS == nullptr ? 0 : displacementCS->bestId());
+		out << grid;
 	}
 }
 
@@ -1039,22 +1047,27 @@ string NastranWriter::writeModel(Model& model,
         if (coordinateSystem->type != CoordinateSystem::Type::ABSOLUTE) {
             continue;
         }
+        string keyword;
 		switch (coordinateSystem->coordType) {
 			case CoordinateSystem::CoordinateType::CARTESIAN:
-				// TODO LD complete
-				out << Line("CORD2R").add(coordinateSystem->bestId()).add(coordinateSystem->getOrigin());
+				keyword = "CORD2R";
 				break;
 			case CoordinateSystem::CoordinateType::SPHERICAL:
-				// TODO LD complete
-				out << Line("CORD2S").add(coordinateSystem->bestId()).add(coordinateSystem->getOrigin());
+				keyword = "CORD2S";
 				break;
 			case CoordinateSystem::CoordinateType::CYLINDRICAL:
-				// TODO LD complete
-				out << Line("CORD2C").add(coordinateSystem->bestId()).add(coordinateSystem->getOrigin());
+				keyword = "CORD2C";
 				break;
 			default:
 				handleWritingError("Unimplemented coordinate system type");
 		}
+		// Origin, a point on the z axis and a point in the xz plane. The points are far enough from
+		// the origin for the axes not to be lost in the rounding of the fields.
+		const VectorialValue& origin = coordinateSystem->getOrigin();
+		const double distance = max(1., origin.norm());
+		out << Line(keyword).add(coordinateSystem->bestId()).add(coordinateSystem->getReferenceCS().original_id)
+				.add(origin).add(origin + distance * coordinateSystem->getEz())
+				.add(origin + distance * coordinateSystem->getEx());
 	}
 	writeRuler(out);
 	writeNodes(model, out);
-- 
2.43.0


From cc95e23c035af695be3c59ec6a8ca61724ce7d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:18 +0000
Subject: [PATCH 003/117] fix: cells added to a group or load before their
 definition are kept

---
 Abstract/MeshComponents.cpp | 77 ++++++++++++++++++++++---------------
 Abstract/MeshComponents.h   |  5 ++-
 2 files changed, 50 insertions(+), 32 deletions(-)

diff --git a/Abstract/MeshComponents.cpp b/Abstract/MeshComponents.cpp
index 4d8fcbf..b2d1714 100644
--- a/Abstract/MeshComponents.cpp
+++ b/Abstract/MeshComponents.cpp
@@ -677,38 +677,46 @@ void CellContainer::addCellPosition(pos_t cellPosition) noexcept {
 	cellPositions.insert(cellPosition);
 }
 
+set<pos_t>& CellContainer::resolvedCellPositions() const noexcept {
+	for (auto it = undefinedCellIds.begin(); it != undefinedCellIds.end();) {
+		const pos_t cellPosition = mesh.findCellPosition(*it);
+		if (cellPosition == Cell::UNAVAILABLE_CELL) {
+			++it;
+		} else {
+			cellPositions.insert(cellPosition);
+			it = undefinedCellIds.erase(it);
+		}
+	}
+	return cellPositions;
+}
+
 void CellContainer::addCellId(int cellId) noexcept {
-	cellPositions.insert(mesh.findCellPosition(cellId));
+	const pos_t cellPosition = mesh.findCellPosition(cellId);
+	if (cellPosition == Cell::UNAVAILABLE_CELL) {
+		undefinedCellIds.insert(cellId);
+	} else {
+		cellPositions.insert(cellPosition);
+	}
 }
 
 void CellContainer::addCellIds(const vector<int>& otherIds) noexcept {
-	transform(otherIds.begin(),
-              otherIds.end(),
-              std::inserter(cellPositions, cellPositions.begin()),
-              [&](const int cellId) {
-                  return mesh.findCellPosition(cellId);
-              });
+	for (const int cellId : otherIds) {
+		addCellId(cellId);
+	}
 }
 
 void CellContainer::addCellIds(const set<int>& otherIds) noexcept {
-	transform(otherIds.begin(),
-              otherIds.end(),
-              std::inserter(cellPositions, cellPositions.begin()),
-              [&](const int cellId) {
-                  return mesh.findCellPosition(cellId);
-              });
+	for (const int cellId : otherIds) {
+		addCellId(cellId);
+	}
 }
 
 void CellContainer::addCellIds(const list<int>& otherIds) noexcept {
-	transform(otherIds.begin(),
-              otherIds.end(),
-              std::inserter(cellPositions, cellPositions.begin()),
-              [&](const int cellId) {
-                  return mesh.findCellPosition(cellId);
-              });
+	for (const int cellId : otherIds) {
+		addCellId(cellId);
+	}
 }
 
-
 void CellContainer::addCellPositions(const vector<pos_t>& otherPositions) noexcept {
     cellPositions.insert(otherPositions.begin(), otherPositions.end());
 }
@@ -743,24 +751,28 @@ void CellContainer::add(const CellContainer& cellContainer) noexcept {
 		cellPositions.insert(otherCellPositions.begin(), otherCellPositions.end());
 	}
 
+	undefinedCellIds.insert(cellContainer.undefinedCellIds.begin(), cellContainer.undefinedCellIds.end());
+
 	if (not cellContainer.cellGroupNames.empty()) {
 		this->cellGroupNames.insert(cellContainer.cellGroupNames.begin(), cellContainer.cellGroupNames.end());
 	}
 }
 
 bool CellContainer::containsCellPosition(pos_t cellPosition) const noexcept {
-	return cellPositions.find(cellPosition) != cellPositions.end();
+	const auto& positions = resolvedCellPositions();
+	return positions.find(cellPosition) != positions.end();
 }
 
 void CellContainer::removeCellPositionExcludingGroups(pos_t cellPosition) noexcept {
-	cellPositions.erase(cellPosition);
+	resolvedCellPositions().erase(cellPosition);
 }
 
 
 set<Cell> CellContainer::getCellsExcludingGroups() const noexcept {
 	set<Cell> cells;
-	transform(cellPositions.begin(),
-              cellPositions.end(),
+	const auto& positions = resolvedCellPositions();
+	transform(positions.begin(),
+              positions.end(),
               std::inserter(cells, cells.begin()),
               [&](const pos_t cellPosition) {
                   return mesh.findCell(cellPosition);
@@ -782,12 +794,14 @@ set<Cell> CellContainer::getCellsIncludingGroups() const noexcept {
 
 void CellContainer::removeAllCellsExcludingGroups() noexcept {
     cellPositions.clear();
+	undefinedCellIds.clear();
 }
 
 set<int> CellContainer::getCellIdsExcludingGroups() const noexcept {
 	set<int> result;
-	transform(cellPositions.begin(),
-              cellPositions.end(),
+	const auto& positions = resolvedCellPositions();
+	transform(positions.begin(),
+              positions.end(),
               std::inserter(result, result.begin()),
               [&](const pos_t cellPosition) {
                   return mesh.findCellId(cellPosition);
@@ -808,7 +822,7 @@ set<int> CellContainer::getCellIdsIncludingGroups() const noexcept {
 }
 
 set<pos_t> CellContainer::getCellPositionsIncludingGroups() const noexcept {
-	set<pos_t> result(cellPositions.begin(), cellPositions.end());
+	set<pos_t> result(resolvedCellPositions());
     for (const auto& groupName : cellGroupNames) {
         const auto& group = dynamic_pointer_cast<CellGroup>(mesh.findGroup(groupName));
         if (group != nullptr) {
@@ -820,7 +834,7 @@ set<pos_t> CellContainer::getCellPositionsIncludingGroups() const noexcept {
 }
 
 set<pos_t> CellContainer::getCellPositionsExcludingGroups() const noexcept {
-	return cellPositions;
+	return resolvedCellPositions();
 }
 
 set<pos_t> CellContainer::getNodePositionsIncludingGroups() const noexcept {
@@ -846,14 +860,15 @@ bool CellContainer::empty() const noexcept {
 void CellContainer::clear() noexcept {
 	cellGroupNames.clear();
 	cellPositions.clear();
+	undefinedCellIds.clear();
 }
 
 bool CellContainer::hasCellsExcludingGroups() const noexcept {
-	return not cellPositions.empty();
+	return not resolvedCellPositions().empty();
 }
 
 bool CellContainer::hasCellsIncludingGroups() const noexcept {
-	if (not cellPositions.empty())
+	if (not resolvedCellPositions().empty())
         return true;
     for (const auto& groupName : cellGroupNames) {
         const auto& group = static_pointer_cast<CellGroup>(mesh.findGroup(groupName));
@@ -883,7 +898,7 @@ bool CellContainer::hasCellGroups() const noexcept {
 string CellContainer::to_str() const {
     ostringstream out;
 	out << "CellContainer[";
-	if (not cellPositions.empty()) {
+	if (not resolvedCellPositions().empty()) {
         out << "cell ids:[" << cellPositions << "],";
 	}
 	if (not cellGroupNames.empty()) {
diff --git a/Abstract/MeshComponents.h b/Abstract/MeshComponents.h
index b163664..f9693e1 100644
--- a/Abstract/MeshComponents.h
+++ b/Abstract/MeshComponents.h
@@ -437,9 +437,12 @@ class CellGroup;
  */
 class CellContainer {
 private:
-    std::set<pos_t> cellPositions;
+    mutable std::set<pos_t> cellPositions;
+    mutable std::set<int> undefinedCellIds; /**< ids added before the definition of the cell */
     std::set<std::string> cellGroupNames;
     const Mesh& mesh;
+    /** Positions of the cells, including those defined after having been added by id */
+    std::set<pos_t>& resolvedCellPositions() const noexcept;
 public:
     CellContainer(const Mesh&) noexcept;
     virtual ~CellContainer() = default;
-- 
2.43.0


From 154a4608ff4ba2225f4d57c46e59069f09122f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:18 +0000
Subject: [PATCH 004/117] fix: shells with several offsets are split by offset,
 not merged

---
 Abstract/Model.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index e3eb356..54ca8f2 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2126,46 +2126,48 @@ void Model::createSetGroups() {
 void Model::splitElementsByCellOffsets() {
     vector<shared_ptr<ElementSet>> elementSetsToAdd;
     vector<shared_ptr<ElementSet>> elementSetsToRemove;
-    map<long, shared_ptr<CellContainer>> cellPositionsByRoundedOffset;
 
     for (const auto& elementSet : elementSets.filter(ElementSet::Type::SHELL)) {
         const auto& shell = static_pointer_cast<Shell>(elementSet);
         if (not shell->containsNonzeroOffsetCell())
             continue;
+        map<double, shared_ptr<CellContainer>> cellsByOffset;
         elementSetsToRemove.push_back(shell);
         for (const Cell& cell : shell->getCellsIncludingGroups()) {
-            long offsetRounded = lround(pow(cell.offset,6));
-            const auto& it = cellPositionsByRoundedOffset.find(offsetRounded);
-            if (it == cellPositionsByRoundedOffset.end()) {
+            const auto& it = cellsByOffset.find(cell.offset);
+            if (it == cellsByOffset.end()) {
                 const shared_ptr<ElementSet>& clonedElement = shell->clone();
                 const auto& clonedShell = dynamic_pointer_cast<Shell>(clonedElement);
+                if (not cellsByOffset.empty())
+                    clonedShell->resetId(); // only one of the clones can keep the original id
                 clonedShell->clear();
                 clonedShell->offset = shell->offset + cell.offset;
                 clonedShell->add(cell);
-                cellPositionsByRoundedOffset[offsetRounded] = clonedShell;
+                cellsByOffset[cell.offset] = clonedShell;
                 elementSetsToAdd.push_back(clonedShell);
             } else {
                 it->second->add(cell);
             }
         }
     }
-    cellPositionsByRoundedOffset.clear();
 
     for (const auto& elementSet : elementSets.filter(ElementSet::Type::COMPOSITE)) {
         const auto& composite = static_pointer_cast<Composite>(elementSet);
         if (not composite->containsNonzeroOffsetCell())
             continue;
+        map<double, shared_ptr<CellContainer>> cellsByOffset;
         elementSetsToRemove.push_back(composite);
         for (const Cell& cell : composite->getCellsIncludingGroups()) {
-            long offsetRounded = lround(pow(cell.offset,6));
-            const auto& it = cellPositionsByRoundedOffset.find(offsetRounded);
-            if (it == cellPositionsByRoundedOffset.end()) {
+            const auto& it = cellsByOffset.find(cell.offset);
+            if (it == cellsByOffset.end()) {
                 const shared_ptr<ElementSet>& clonedElement = composite->clone();
                 const auto& clonedComposite = static_pointer_cast<Composite>(clonedElement);
+                if (not cellsByOffset.empty())
+                    clonedComposite->resetId(); // only one of the clones can keep the original id
                 clonedComposite->clear();
                 clonedComposite->offset = composite->offset + cell.offset;
                 clonedComposite->add(cell);
-                cellPositionsByRoundedOffset[offsetRounded] = clonedComposite;
+                cellsByOffset[cell.offset] = clonedComposite;
                 elementSetsToAdd.push_back(clonedComposite);
             } else {
                 it->second->add(cell);
-- 
2.43.0


From d90e8a77b1c005b8bd3142e87dc3c180af574175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:53 +0000
Subject: [PATCH 005/117] fix: a grid listed by a set before its definition
 stays in the set

---
 Abstract/Mesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Abstract/Mesh.cpp b/Abstract/Mesh.cpp
index 07de406..9ad8bf7 100644
--- a/Abstract/Mesh.cpp
+++ b/Abstract/Mesh.cpp
@@ -200,6 +200,7 @@ pos_t Mesh::addNode(const int id, const double x, const double y, const double z
 		nodes.nodepositionById[assignId] = nodePosition;
 	} else {
 		nodePosition = positionIterator->second;
+		nodes.reservedButUnusedNodePositions.erase(nodePosition);
 		NodeData& nodeData = nodes.nodeDatas[nodePosition];
 		nodeData.x = x;
 		nodeData.y = y;
-- 
2.43.0


From dff43910f189863148c256d8bb0059bb5e0f9b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:53 +0000
Subject: [PATCH 006/117] fix: non-structural mass is carried by a copy, not by
 doubling the element

---
 Abstract/Model.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 54ca8f2..dcc4976 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -917,19 +917,23 @@ void Model::emulateAdditionalMass() {
             const auto& newMaterial = make_shared<Material>(*this);
             newMaterial->addNature(make_shared<ElasticNature>(*this, 0, 0, 0, rho));
             materials.add(newMaterial);
+            for (const auto& material : cellElementSet->getMaterials()) {
+                cellElementSet->unassignMaterial(material);
+            }
             cellElementSet->assignMaterial(newMaterial);
             // copy and assign new cellGroup
             ostringstream oss;
             oss << "created by emulateAdditionalMass() because of elementSet: " << elementSet << " additional rho:" << rho;
             const auto& newCellGroup = mesh.createCellGroup(
                     "VAM_" + to_string(newElementSets.size()), Group::NO_ORIGINAL_ID, oss.str());
-            const auto& cellContainer = dynamic_pointer_cast<CellContainer>(elementSet);
-            cellContainer->add(*newCellGroup);
+            // only the copy carries the additional mass
+            cellElementSet->clear();
+            cellElementSet->add(*newCellGroup);
             newElementSets.push_back(newElementSet);
             for (const auto cellPosition : elementSet->cellPositions()) {
                 const Cell& cell = mesh.findCell(cellPosition);
                 const auto newCellPosition = mesh.addCell(Cell::AUTO_ID, cell.type, cell.nodeIds, cell.isvirtual,
-                        cell.cspos, cell.elementId);
+                        cell.cspos, cell.elementId, cell.offset);
                 newCellGroup->addCellPosition(newCellPosition);
             }
         }
-- 
2.43.0


From 934b14aae8ff1e62be79e0c9a63db503c8addfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:53 +0000
Subject: [PATCH 007/117] fix: SET3 ids do not collide with property ids

---
 Nastran/NastranParser.cpp          |  4 ++--
 Nastran/NastranParser.h            |  9 +++++++++
 Nastran/NastranParser_geometry.cpp | 21 +++++++++++++++++----
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index fa2ccab..04c63e6 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3449,7 +3449,7 @@ void NastranParser::parseSET3(NastranTokenizer& tok, Model& model) {
     string des = tok.nextString();
 
     if (des == "GRID") {
-        shared_ptr<NodeGroup> nodeGroup = model.mesh.findOrCreateNodeGroup(name,sid,"SET3");
+        shared_ptr<NodeGroup> nodeGroup = model.mesh.findOrCreateNodeGroup(name, getFreeGroupId(sid, model), "SET3");
         const auto& ids = tok.nextInts();
         nodeGroup->addNodeIds(ids);
         const auto& setValue = make_shared<SetValue<int>>(model, set<int>{ids.begin(), ids.end()}, sid);
@@ -3457,7 +3457,7 @@ void NastranParser::parseSET3(NastranTokenizer& tok, Model& model) {
         setValue->setInputContext(tok.getInputContext());
         model.add(setValue);
     } else if (des == "ELEM") {
-        shared_ptr<CellGroup> cellGroup = model.mesh.createCellGroup(name,sid,"SET3");
+        shared_ptr<CellGroup> cellGroup = model.mesh.createCellGroup(name, getFreeGroupId(sid, model), "SET3");
         const auto& ids = tok.nextInts();
         cellGroup->addCellIds(ids);
         const auto& setValue = make_shared<SetValue<int>>(model, set<int>{ids.begin(), ids.end()}, sid);
diff --git a/Nastran/NastranParser.h b/Nastran/NastranParser.h
index a46b2cd..046397b 100644
--- a/Nastran/NastranParser.h
+++ b/Nastran/NastranParser.h
@@ -858,6 +858,15 @@ private:
     std::string parseSubcase(NastranTokenizer& tok, Model& model, std::map<std::string, std::string> context);
     std::string parseSubcom(NastranTokenizer& tok, Model& model, std::map<std::string, std::string> context);
 
+    /**
+     *  Cell group of a property, null if it has none yet.
+     */
+    std::shared_ptr<CellGroup> findPropertyCellGroup(int property_id, const Model& model) const;//in NastranParser_geometry.cpp
+    /**
+     *  Id for a new group: the wanted one, unless another group has taken it already.
+     */
+    int getFreeGroupId(int group_id, const Model& model) const;//in NastranParser_geometry.cpp
+
     /**
      *  Add the Cell to the CellGroup corresponding to the property_id (use getOrCreateCellGroup)
      */
diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index 27ff722..fc811f4 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -104,24 +104,37 @@ void NastranParser::parseGRID(NastranTokenizer& tok, Model& model) {
     }
 }
 
+shared_ptr<CellGroup> NastranParser::findPropertyCellGroup(int property_id, const Model& model) const {
+    // by name, because the ids of the sets (SET3) may be equal to the ids of the properties
+    auto cellGroup = dynamic_pointer_cast<CellGroup>(model.mesh.findGroup("PROP_" + to_string(property_id)));
+    if (cellGroup == nullptr) {
+        cellGroup = dynamic_pointer_cast<CellGroup>(model.mesh.findGroup("CGVEGA_" + to_string(property_id)));
+    }
+    return cellGroup;
+}
+
+int NastranParser::getFreeGroupId(int group_id, const Model& model) const {
+    return model.mesh.hasGroup(group_id) ? Group::NO_ORIGINAL_ID : group_id;
+}
+
 void NastranParser::addProperty(NastranTokenizer& tok, int property_id, int cell_id, Model& model) {
-    auto cellGroup = dynamic_pointer_cast<CellGroup>(model.mesh.findGroup(property_id));
+    auto cellGroup = findPropertyCellGroup(property_id, model);
     if (cellGroup == nullptr) {
         string cellGroupName = "PROP_" + to_string(property_id);
         string comment = cellGroupName;
         auto commentEntry = tok.labelByCommentTypeAndId.find({NastranTokenizer::CommentType::COMP, property_id});
         if (commentEntry != tok.labelByCommentTypeAndId.end())
             comment = commentEntry->second;
-        cellGroup = model.mesh.createCellGroup(cellGroupName, property_id, comment);
+        cellGroup = model.mesh.createCellGroup(cellGroupName, getFreeGroupId(property_id, model), comment);
     }
     cellGroup->addCellId(cell_id);
 }
 
 shared_ptr<CellGroup> NastranParser::getOrCreateCellGroup(int group_id, Model& model, string comment) {
-    auto cellGroup = dynamic_pointer_cast<CellGroup>(model.mesh.findGroup(group_id));
+    auto cellGroup = findPropertyCellGroup(group_id, model);
 
     if (cellGroup == nullptr) {
-        cellGroup = model.mesh.createCellGroup("CGVEGA_"+to_string(group_id), group_id, comment);
+        cellGroup = model.mesh.createCellGroup("CGVEGA_"+to_string(group_id), getFreeGroupId(group_id, model), comment);
     }
     return cellGroup;
 }
-- 
2.43.0


From f6bc7622cbeca171276af75d014477c9864d80e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:53 +0000
Subject: [PATCH 008/117] fix: the offset of a PCOMP is the position of its
 middle plane

---
 Nastran/NastranParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 04c63e6..f1e87b0 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2609,9 +2609,9 @@ void NastranParser::parsePCOMP(NastranTokenizer& tok, Model& model) {
         composite->addLayer(Reference<Material>(Material::Type::MATERIAL,midn), tn, thetan);
     }
     if (is_equal(z0, Globals::UNAVAILABLE_DOUBLE)) {
-        composite->offset = composite->getTotalThickness() / 2.0; // default -1/2 element thickness
+        composite->offset = 0.0; // default -1/2 element thickness : centered on the reference plane
     } else {
-        composite->offset = z0;
+        composite->offset = z0 + composite->getTotalThickness() / 2.0; // z0 is the position of the bottom face
     }
     composite->setInputContext(tok.getInputContext());
     composite->add(*getOrCreateCellGroup(pid, model, "PCOMP"));
-- 
2.43.0


From a74e95c570caffb35fb2479d0f778ab86d7b5fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:53 +0000
Subject: [PATCH 009/117] fix: Nastran output keeps the node order of shells
 and writes trusses and CQUAD8 offsets

---
 Nastran/NastranWriter.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 8aecc71..b90e613 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -153,11 +153,11 @@ Line& Line::add(const VectorialValue vector) noexcept {
 
 const unordered_map<CellType::Code, vector<int>, EnumClassHash> NastranWriter::med2nastranNodeConnectByCellType =
         {
-                { CellType::Code::TRI3_CODE, { 0, 2, 1 } },
-                { CellType::Code::TRI6_CODE, { 0, 2, 1, 5, 4, 3 } },
-                { CellType::Code::QUAD4_CODE, { 0, 3, 2, 1 } },
-                { CellType::Code::QUAD8_CODE, { 0, 3, 2, 1, 7, 6, 5, 4 } },
-                { CellType::Code::QUAD9_CODE, { 0, 3, 2, 1, 7, 6, 5, 4, 8 } },
+                { CellType::Code::TRI3_CODE, { 0, 1, 2 } },
+                { CellType::Code::TRI6_CODE, { 0, 1, 2, 3, 4, 5 } },
+                { CellType::Code::QUAD4_CODE, { 0, 1, 2, 3 } },
+                { CellType::Code::QUAD8_CODE, { 0, 1, 2, 3, 4, 5, 6, 7 } },
+                { CellType::Code::QUAD9_CODE, { 0, 1, 2, 3, 4, 5, 6, 7, 8 } },
                 { CellType::Code::TETRA4_CODE, { 0, 2, 1, 3 } },
                 { CellType::Code::TETRA10_CODE, { 0, 2, 1, 3, 6, 5, 4, 7, 9, 8 } },
                 { CellType::Code::PYRA5_CODE, { 0, 3, 2, 1, 4 } },
@@ -253,6 +253,8 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
 			string keyword;
 			if (elementSet->isBeam()) {
                 keyword = isCosmic() ? "CBAR" : "CBEAM";
+            } else if (elementSet->isTruss()) {
+                keyword = "CROD";
             } else if (elementSet->isDiscrete() and cell.type.code == CellType::Code::SEG2_CODE) {
                 keyword = "CBUSH";
 			} else if (elementSet->isShell()) {
@@ -358,6 +360,9 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
                     F = "1";
                 cellLine.add(x1x2x3).add(F);
             } else if (elementSet->isShell()) {
+                if (cell.type.code == CellType::Code::QUAD8_CODE) {
+                    cellLine.skip(4); // thicknesses at the corners
+                }
                 cellLine.add(); // theta (real) or matid (int)
                 cellLine.add(cell.offset);
             }
@@ -803,7 +808,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		prod.add(truss->mainMaterial()->bestId());
 		prod.add(truss->getAreaCrossSection());
 		prod.add(truss->getTorsionalConstant());
-		out << truss;
+		out << prod;
 		truss->markAsWritten();
 	}
 	for (const auto& beam : model.getBeams()) {
-- 
2.43.0


From 266db5e739cbd9381abec5c65c84f9e55db6a405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:59 +0000
Subject: [PATCH 010/117] fix: the node count of pyramids written to Systus is
 the number of nodes listed

---
 Systus/SystusWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 5cb70f4..9200043 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -2860,10 +2860,10 @@ void SystusWriter::writeElements(const SystusModel& systusModel, const int idSub
             }
 
             out << cell.id << " " << dim << typecell;              // Dimension and type of cell;
-            out << setfill('0') << setw(2) << cell.nodeIds.size(); // Number of nodes in two caracters: 01, 02, 05, 10, etc.
+            out << setfill('0') << setw(2) << systusConnect.size(); // Number of nodes in two caracters: 01, 02, 05, 10, etc.
 
-            if (cell.nodeIds.size()>20){
-                cerr<< "Warning in Elements: " << cell << " has " << cell.nodeIds.size() << " but SYSTUS only support up to 20 nodes by element."<<endl;
+            if (systusConnect.size()>20){
+                cerr<< "Warning in Elements: " << cell << " has " << systusConnect.size() << " but SYSTUS only support up to 20 nodes by element."<<endl;
             }
 
             out << " " << materialIdByElementSetId[elementSet->getId()]; // Material Id
-- 
2.43.0


From a58acc7c6b31bc24b92723f608dc500516ce87ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 011/117] fix: free-format continuation lines keep their fields
 in place

---
 Nastran/NastranTokenizer.cpp | 38 ++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 71eb511..d08333b 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -156,27 +156,31 @@ bool NastranTokenizer::readLineSkipComment(string& line, bool firstLine) {
 }
 
 void NastranTokenizer::splitFreeFormat(string line, bool firstLine) {
-	if (firstLine) {
-		split(currentLineVector, line, boost::is_any_of(","));
-	} else {
-		//skip first field;
-		string lineNoContinuation = line.substr(line.find(',') + 1);
-		vector<string> otherLine;
-		split(otherLine, lineNoContinuation, boost::is_any_of(","));
-		currentLineVector.insert(currentLineVector.end(), otherLine.begin(), otherLine.end());
-	}
+	// keyword or continuation symbol, eight data fields, continuation symbol
+	static const size_t LINE_FIELDS = 9;
+	vector<string> fields;
+	split(fields, line, boost::is_any_of(","));
 	bool explicitContinuation = false;
-	for (size_t fieldIndex = 1; fieldIndex < currentLineVector.size(); fieldIndex += 8) {
-		string field = trim_copy(currentLineVector[fieldIndex]);
-		if (field[0] == '+') {
-			explicitContinuation = true;
-			currentLineVector.erase(currentLineVector.begin() + fieldIndex);
+	if (fields.size() > LINE_FIELDS) {
+		const string& lastField = trim_copy(fields[LINE_FIELDS]);
+		if (lastField.empty() or lastField[0] == '+') {
+			explicitContinuation = not lastField.empty();
+			fields.erase(fields.begin() + LINE_FIELDS);
 		}
 	}
+	//a continuation has no keyword
+	const size_t firstField = (firstLine or fields.size() == 1) ? 0 : 1;
+	currentLineVector.insert(currentLineVector.end(), fields.begin() + firstField, fields.end());
 	char c = static_cast<char>(this->instrream.peek());
-    string line2;
-    if (explicitContinuation || c == ',' || c == '+' || c == '*') {
-		readLineSkipComment(line2, false);
+	string line2;
+	if (explicitContinuation || c == ',' || c == '+' || c == '*') {
+		if (readLineSkipComment(line2, false)) {
+			throw vega::ParsingException("Continuation expected", this->fileName, lineNumber);
+		}
+		//fill the current line with empty fields
+		for (size_t fieldCount = fields.size(); fieldCount < LINE_FIELDS; fieldCount++) {
+			currentLineVector.push_back("");
+		}
 		splitFreeFormat(line2, false);
 	}
 }
-- 
2.43.0


From 60fd32e7b156d0b21947bb92a71cfc4bd6f97723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 012/117] fix: no read past the end of the line when looking
 for empty fields

---
 Nastran/NastranTokenizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index d08333b..6a739dc 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -267,6 +267,9 @@ bool NastranTokenizer::isNextEmpty(int n) {
             result = false;
             break;
         }
+        if (currentField + i >= currentLineVector.size()) {
+            break; // nothing left on the line
+        }
         string curField = trim_copy(currentLineVector[currentField + i]);
         result &= curField.empty();
     }
-- 
2.43.0


From 58cb32728210cc1af2e6719b76cea7d79e7f26be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 013/117] fix: truncated input is a parsing error, not an
 unhandled exception

---
 Nastran/NastranTokenizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 6a739dc..5708cab 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -386,7 +386,7 @@ void NastranTokenizer::splitFixedFormat(string& line, const bool longFormat, con
 		if (!iseof) {
 			splitFixedFormat(line2, longFormat, false);
 		} else {
-			throw "Continuation Expected: Line N " + to_string(this->lineNumber);
+			throw vega::ParsingException("Continuation expected", this->fileName, lineNumber);
 		}
 	} else {
 		/** Test for automatic continuation : we allow tabulation
@@ -422,7 +422,7 @@ string NastranTokenizer::nextString(bool returnDefaultIfNotFoundOrBlank, string
 
 void NastranTokenizer::skip(int fields) {
 	if (this->nextSymbolType == SymbolType::SYMBOL_EOF) {
-		throw "Attempt to read past the end of file. Line:" + this->lineNumber;
+		throw vega::ParsingException("Attempt to read past the end of file", this->fileName, lineNumber);
 	}
 
 	this->currentField = min(static_cast<unsigned int>(this->currentLineVector.size()),
-- 
2.43.0


From efabc675b0897bea97878d8675f0d931bc6f9066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 014/117] fix: THRU/BY lists count from the first value and
 keep the last

---
 Nastran/NastranTokenizer.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 5708cab..034604c 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -476,6 +476,9 @@ list<int> NastranTokenizer::nextInts() {
             result.push_back(nextInt());
         } else if (isNextTHRU()) {
             skip(1);
+            if (result.empty()) {
+                handleParsingError("THRU without a first value.");
+            }
             int start = result.back();
             int endint = nextInt();
             int step = 1;
@@ -487,10 +490,17 @@ list<int> NastranTokenizer::nextInts() {
             if (isNextBY()) {
                 skip(1);
                 step = nextInt();
+                if (step <= 0) {
+                    handleParsingError("BY needs a positive increment.");
+                }
             }
-            for(int i=start+1;i<=endint;i+=step) {
+            // the last value always belongs to the list
+            for(int i=start+step;i<endint;i+=step) {
                 result.push_back(i);
             }
+            if (endint != start) {
+                result.push_back(endint);
+            }
         }
 	}
 	return result;
-- 
2.43.0


From 0fe550fb9130dcd2459abc8d4a25617442b3a62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:03 +0000
Subject: [PATCH 015/117] fix: a PBUSH card may leave its last stiffness fields
 out

---
 Nastran/NastranParser.cpp | 46 +++++----------------------------------
 1 file changed, 6 insertions(+), 40 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index f1e87b0..7c206a7 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2439,48 +2439,14 @@ void NastranParser::parsePBUSH(NastranTokenizer& tok, Model& model) {
         tok.skipToNotEmpty();
         string flag = tok.nextString();
         if (flag=="K") { // Stiffness values (Default 0.0)
-            if (tok.isNextDouble() or tok.isNextEmpty())
-                k1=tok.nextDouble(true, 0.0);
-            else
-                if (tok.nextString() == "RIGID")
-                    k1 = DBL_MAX;
-                else
-                    handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
-                k2=tok.nextDouble(true, 0.0);
-            else
-                if (tok.nextString() == "RIGID")
-                    k2 = DBL_MAX;
-                else
-                    handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
-                k3=tok.nextDouble(true, 0.0);
-            else
-                if (tok.nextString() == "RIGID")
-                    k3 = DBL_MAX;
-                else
-                    handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
-                k4=tok.nextDouble(true, 0.0);
-            else
-                if (tok.nextString() == "RIGID")
-                    k4 = DBL_MAX;
-                else
-                    handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
-                k5=tok.nextDouble(true, 0.0);
-            else
-                if (tok.nextString() == "RIGID")
-                    k5 = DBL_MAX;
-                else
-                    handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
-                k6=tok.nextDouble(true, 0.0);
-            else
-                if (tok.nextString() == "RIGID")
-                    k6 = DBL_MAX;
+            for (double* k : {&k1, &k2, &k3, &k4, &k5, &k6}) {
+                if (tok.isEmptyUntilNextKeyword() or tok.isNextDouble() or tok.isNextEmpty())
+                    *k = tok.nextDouble(true, 0.0);
+                else if (tok.nextString() == "RIGID")
+                    *k = DBL_MAX;
                 else
                     handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
+            }
         } else if (flag=="B") { // Force-Per-velocity Damping (Default 0.0)
             b1=tok.nextDouble(true, 0.0);
             b2=tok.nextDouble(true, 0.0);
-- 
2.43.0


From b294b63d928e977b86b9a20038f799c16959d865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:03 +0000
Subject: [PATCH 016/117] fix: RBAR with its independent freedoms at GB takes
 GB as reference point

---
 Nastran/NastranParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 7c206a7..4911749 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3090,8 +3090,8 @@ void NastranParser::parseRBAR(NastranTokenizer& tok, Model& model) {
         model.add(qrc);
         model.addConstraintIntoConstraintSet(*qrc, *model.commonConstraintSet);
     } else if (cnb != 0) {
-        const auto& qrc = make_shared<QuasiRigidConstraint>(model, DOFS::nastranCodeToDOFS(cnb), ga, original_id);
-        qrc->addSlave(gb);
+        const auto& qrc = make_shared<QuasiRigidConstraint>(model, DOFS::nastranCodeToDOFS(cnb), gb, original_id);
+        qrc->addSlave(ga);
         qrc->setInputContext(tok.getInputContext());
         model.add(qrc);
         model.addConstraintIntoConstraintSet(*qrc, *model.commonConstraintSet);
-- 
2.43.0


From 90cb2796e8e39bcef1e5d302e0872aa171d7148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:03 +0000
Subject: [PATCH 017/117] fix: RBAR1 takes GA as reference point and the six
 components by default

---
 Nastran/NastranParser.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 4911749..5a32535 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3111,10 +3111,9 @@ void NastranParser::parseRBAR1(NastranTokenizer& tok, Model& model) {
     int original_id=tok.nextInt();
     int ga = tok.nextInt();
     int gb = tok.nextInt();
-    int cna = tok.nextInt(true, 0);
+    int cb = tok.nextInt(true, 123456); // dependent components at gb, the six components of ga are independent
 
-    const auto& qrc = make_shared<QuasiRigidConstraint>(model, DOFS::nastranCodeToDOFS(cna), MasterSlaveConstraint::UNAVAILABLE_MASTER, original_id);
-    qrc->addSlave(ga);
+    const auto& qrc = make_shared<QuasiRigidConstraint>(model, DOFS::nastranCodeToDOFS(cb), ga, original_id);
     qrc->addSlave(gb);
     qrc->setInputContext(tok.getInputContext());
     model.add(qrc);
-- 
2.43.0


From 23aa93c2ba9a71f6cb1e9da980ef97d5a44ff20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:05 +0000
Subject: [PATCH 018/117] fix: scalar springs whose element id equals another
 property id

---
 Nastran/NastranParser.cpp          | 4 ++--
 Nastran/NastranParser_geometry.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 5a32535..b3f6f53 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2594,7 +2594,7 @@ void NastranParser::parsePDAMP(NastranTokenizer& tok, Model& model) {
         const double b = tok.nextDouble(true, 0.0);
 
         const auto& cellGroup = getOrCreateCellGroup(pid, model, "PDAMP");
-        const auto& elementSet = model.elementSets.find(pid);
+        const auto& elementSet = model.elementSets.find(Reference<ElementSet>(ElementSet::Type::SCALAR_SPRING, pid));
         if (elementSet == nullptr){
             const auto& scalarSpring = make_shared<ScalarSpring>(model, pid, Globals::UNAVAILABLE_DOUBLE, b);
             scalarSpring->add(*cellGroup);
@@ -2674,7 +2674,7 @@ void NastranParser::parsePELAS(NastranTokenizer& tok, Model& model) {
         }
 
         const auto& cellGroup = getOrCreateCellGroup(pid, model, "PELAS");
-        const auto& elementSet = model.elementSets.find(pid);
+        const auto& elementSet = model.elementSets.find(Reference<ElementSet>(ElementSet::Type::SCALAR_SPRING, pid));
         if (elementSet == nullptr){
             const auto& scalarSpring = make_shared<ScalarSpring>(model, pid, k, ge);
             scalarSpring->add(*cellGroup);
diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index fc811f4..64d8514 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -321,7 +321,7 @@ void NastranParser::parseCDAMP1(NastranTokenizer& tok, Model& model) {
     cellGroup->addCellPosition(cellPosition);
 
     // Creates or update the ElementSet defined by the PELAS key.
-    const auto& elementSet = model.elementSets.find(pid);
+    const auto& elementSet = model.elementSets.find(Reference<ElementSet>(ElementSet::Type::SCALAR_SPRING, pid));
     if (elementSet == nullptr){
         const auto& scalarSpring = make_shared<ScalarSpring>(model, pid);
         scalarSpring->add(*cellGroup);
@@ -363,7 +363,7 @@ void NastranParser::parseCELAS1(NastranTokenizer& tok, Model& model) {
     cellGroup->addCellPosition(cellPosition);
 
     // Creates or update the ElementSet defined by the PELAS key.
-    const auto& elementSet = model.elementSets.find(pid);
+    const auto& elementSet = model.elementSets.find(Reference<ElementSet>(ElementSet::Type::SCALAR_SPRING, pid));
     if (elementSet == nullptr){
         const auto& scalarSpring = make_shared<ScalarSpring>(model, pid);
         scalarSpring->add(*cellGroup);
@@ -403,7 +403,7 @@ void NastranParser::parseCELAS2(NastranTokenizer& tok, Model& model) {
     springGroup->addCellPosition(cellPosition);
 
     // Create ElementSet
-    const auto& scalarSpring = make_shared<ScalarSpring>(model, eid, k ,ge);
+    const auto& scalarSpring = make_shared<ScalarSpring>(model, Identifiable<ElementSet>::NO_ORIGINAL_ID, k ,ge);
     scalarSpring->add(*springGroup);
     scalarSpring->addSpring(cellPosition, DOF::findByPosition(c1), DOF::findByPosition(c2));
     model.add(scalarSpring);
@@ -423,7 +423,7 @@ void NastranParser::parseCELAS4(NastranTokenizer& tok, Model& model) {
     springGroup->addCellPosition(cellPosition);
 
     // Create ElementSet
-    const auto& scalarSpring = make_shared<ScalarSpring>(model, eid, k);
+    const auto& scalarSpring = make_shared<ScalarSpring>(model, Identifiable<ElementSet>::NO_ORIGINAL_ID, k);
     scalarSpring->add(*springGroup);
     scalarSpring->addSpring(cellPosition, DOF::DX, DOF::DX);
     model.add(scalarSpring);
-- 
2.43.0


From c6c1793bf008bc8ca130f5c8e5dfb160900d90fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:05 +0000
Subject: [PATCH 019/117] fix: FORCE1 loads are effective

---
 Abstract/Loading.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index 580e093..b2f9ea8 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -375,7 +375,7 @@ void NodalForceTwoNodes::scale(const double factor) {
 }
 
 bool NodalForceTwoNodes::ineffective() const {
-	return is_zero(magnitude) or force.iszero();
+	return is_zero(magnitude);
 }
 
 NodalForceFourNodes::NodalForceFourNodes(Model& model, const std::shared_ptr<LoadSet> loadset, const int node1_id,
-- 
2.43.0


From 48e1dec3407980409af9e8ecc648c36063ae36cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:05 +0000
Subject: [PATCH 020/117] fix: RBE3 and partial RBE2 written with their own ids
 and reference point

---
 Nastran/NastranWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index b90e613..e634971 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -469,7 +469,7 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
                 out << rbar;
             } else {
                 Line rbe2("RBE2");
-                rbe2.add(constraintSet->bestId());
+                rbe2.add(quasiRigid->bestId());
                 const int masterId = model.mesh.findNodeId(quasiRigid->getMaster());
                 rbe2.add(masterId);
                 rbe2.add(quasiRigid->getDOFS());
@@ -489,7 +489,7 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
             Line rbe3("RBE3");
             rbe3.add(rbe3Constraint->bestId());
             rbe3.add();
-            const int masterPosition = model.mesh.findNodeId(rbe3Constraint->getMaster());
+            const auto masterPosition = rbe3Constraint->getMaster();
             rbe3.add(model.mesh.findNodeId(masterPosition));
             rbe3.add(rbe3Constraint->getDOFSForNode(masterPosition));
             for (const auto slavePosition : rbe3Constraint->getSlaves()) {
-- 
2.43.0


From b0d151887c6a605c1191cd5c5143d3bb7bc63c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:51 +0000
Subject: [PATCH 021/117] fix: an SPCADD set need not be selected by the case
 control

---
 Nastran/NastranParser.cpp | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index b3f6f53..cafb027 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3497,29 +3497,29 @@ void NastranParser::parseSPC1(NastranTokenizer& tok, Model& model) {
 
 void NastranParser::parseSPCADD(NastranTokenizer& tok, Model& model) {
     int set_id = tok.nextInt();
-    // retrieve the ConstraintSet that was created in the executive section
+    // retrieve the ConstraintSet: it already exists if the executive section or another card refers to it
     shared_ptr<ConstraintSet> constraintSet_ptr = model.find(
             Reference<ConstraintSet>(ConstraintSet::Type::SPC, set_id));
 
-    if (!constraintSet_ptr)
-        handleParsingError("ConstraintSet "+ to_string(set_id)+ " does not exist in Executive section",
-                tok, model);
-    else {
-        while (tok.isNextInt()) {
-            int constraintSet_id = tok.nextInt();
-            // Need to add referenced SPCs in the same constraintset, otherwise it will not be found
-            // Example: case of SPC in local coordinate system later replaced by MPCs during finish()
-            // Possible alternative: make sure that these SPCs are found also with methods like
-            // Model.getConstraintsByConstraintSet() etc. which seems not to be the case now
-            const Reference<ConstraintSet>& constraintSetReference{ConstraintSet::Type::SPC, constraintSet_id};
-            auto constraintSet = model.constraintSets.find(constraintSetReference);
-            if (constraintSet == nullptr) {
-                constraintSet = make_shared<ConstraintSet>(model, ConstraintSet::Type::SPC, constraintSet_id);
-                constraintSet->setInputContext(tok.getInputContext());
-                model.add(constraintSet);
-            }
-            constraintSet_ptr->add(constraintSetReference);
+    if (!constraintSet_ptr) {
+        constraintSet_ptr = make_shared<ConstraintSet>(model, ConstraintSet::Type::SPC, set_id);
+        constraintSet_ptr->setInputContext(tok.getInputContext());
+        model.add(constraintSet_ptr);
+    }
+    while (tok.isNextInt()) {
+        int constraintSet_id = tok.nextInt();
+        // Need to add referenced SPCs in the same constraintset, otherwise it will not be found
+        // Example: case of SPC in local coordinate system later replaced by MPCs during finish()
+        // Possible alternative: make sure that these SPCs are found also with methods like
+        // Model.getConstraintsByConstraintSet() etc. which seems not to be the case now
+        const Reference<ConstraintSet>& constraintSetReference{ConstraintSet::Type::SPC, constraintSet_id};
+        auto constraintSet = model.constraintSets.find(constraintSetReference);
+        if (constraintSet == nullptr) {
+            constraintSet = make_shared<ConstraintSet>(model, ConstraintSet::Type::SPC, constraintSet_id);
+            constraintSet->setInputContext(tok.getInputContext());
+            model.add(constraintSet);
         }
+        constraintSet_ptr->add(constraintSetReference);
     }
 }
 
-- 
2.43.0


From 9b41ff896ee5baf772729283c3befa07ce19467b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:01 +0000
Subject: [PATCH 022/117] fix: combinations of load combinations defined later
 in the file

---
 Abstract/Model.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index dcc4976..d16e6ce 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -14,6 +14,8 @@
 #include <iostream>
 #include <string>
 #include <fstream>
+#include <functional>
+#include <set>
 #include <ciso646>
 
 using namespace std;
@@ -1098,12 +1100,21 @@ void Model::removeUnassignedMaterials() {
 }
 
 void Model::replaceCombinedLoadSets() {
-    for (const auto& loadSet : this->loadSets) {
+    // A combination of combinations can only be replaced once the combinations it refers to have been replaced.
+    set<int> replacingIds;
+    const function<void(const shared_ptr<LoadSet>&)> replace = [&](const shared_ptr<LoadSet>& loadSet) {
+        if (loadSet->embedded_loadsets.empty()) {
+            return;
+        }
+        if (not replacingIds.insert(loadSet->getId()).second) {
+            throw logic_error("CombinedLoadSet: loadSet refers to itself " + to_str(loadSet->getReference()));
+        }
         for (const auto& kv : loadSet->embedded_loadsets) {
             const auto& otherloadSet = this->find(kv.first);
             if (otherloadSet == nullptr) {
                 throw logic_error("CombinedLoadSet: missing loadSet " + to_str(kv.first));
             }
+            replace(otherloadSet);
             double coefficient = kv.second;
             for (const auto& loading : otherloadSet->getLoadings()) {
                 if (is_equal(coefficient, 1.0)) {
@@ -1128,6 +1139,9 @@ void Model::replaceCombinedLoadSets() {
             otherloadSet->markAsWritten();
         }
         loadSet->embedded_loadsets.clear();
+    };
+    for (const auto& loadSet : this->loadSets) {
+        replace(loadSet);
     }
 }
 
-- 
2.43.0


From aa57a62a9be5b4cabb7974046ab15a1888e152a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:22 +0000
Subject: [PATCH 023/117] fix: no memory address in the description of
 additional-mass groups

---
 Abstract/Model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index d16e6ce..1f4309c 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -925,7 +925,7 @@ void Model::emulateAdditionalMass() {
             cellElementSet->assignMaterial(newMaterial);
             // copy and assign new cellGroup
             ostringstream oss;
-            oss << "created by emulateAdditionalMass() because of elementSet: " << elementSet << " additional rho:" << rho;
+            oss << "created by emulateAdditionalMass() because of elementSet: " << elementSet->getId() << " additional rho:" << rho;
             const auto& newCellGroup = mesh.createCellGroup(
                     "VAM_" + to_string(newElementSets.size()), Group::NO_ORIGINAL_ID, oss.str());
             // only the copy carries the additional mass
-- 
2.43.0


From 796300d2d80e50227e50514f52afc17b35d0310b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:42 +0000
Subject: [PATCH 024/117] fix: the first bulk card keeps its leading and
 trailing blanks

---
 Nastran/NastranTokenizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 034604c..22d892e 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -317,8 +317,8 @@ void NastranTokenizer::nextLine() {
 	if (!iseof) {
 		switch (currentSection) {
 		case SectionType::SECTION_EXECUTIVE:
-			boost::algorithm::trim(this->currentLine);
-			split(currentLineVector, this->currentLine, boost::is_any_of("\t\\= "), boost::algorithm::token_compress_on);
+			// the line itself is kept as it is: it may turn out to be the first one of the bulk section
+			split(currentLineVector, boost::algorithm::trim_copy(this->currentLine), boost::is_any_of("\t\\= "), boost::algorithm::token_compress_on);
 			break;
 		case SectionType::SECTION_BULK:
 			parseBulkSectionLine(this->currentLine);
-- 
2.43.0


From 58292bf24bb7c531dd2ad08b8be008cde64e0d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:01 +0000
Subject: [PATCH 025/117] fix: no nameless cards in the Nastran output for
 point elements

---
 Nastran/NastranWriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index e634971..4a641a0 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -333,6 +333,9 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
                     }
 			    }
 			}
+            if (keyword.empty()) {
+                continue; // the element is written with its property (CONM1, CONM2), or not supported
+            }
             vector<int> nasConnect;
             auto entry = med2nastranNodeConnectByCellType.find(cell.type.code);
             if (entry == med2nastranNodeConnectByCellType.end()) {
-- 
2.43.0


From 9927a0386e9391d5afe403be8baecf8eb95ea047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:01 +0000
Subject: [PATCH 026/117] fix: MPC cards are written with the id of their set
 and two terms by line

---
 Nastran/NastranWriter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 4a641a0..7177f8a 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -510,13 +510,13 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
             const auto& lmpc =
                     static_pointer_cast<LinearMultiplePointConstraint>(constraint);
             Line mpc("MPC");
-            mpc.add(constraintSet->getId());
-            int fieldNum = 2;
+            mpc.add(constraintSet->bestId());
+            int termNum = 0;
 			for (const auto nodePosition : lmpc->nodePositions()) {
 			    DOFCoefs dofcoef = lmpc->getDoFCoefsForNode(nodePosition);
 				for (dof_int i = 0; i < 6; i++) {
 					if (!is_zero(dofcoef[i])) {
-                        if (fieldNum % 8 == 0) {
+                        if (termNum > 0 and termNum % 2 == 0) { // two terms by line
                             mpc.add();
                             mpc.add();
                         }
@@ -524,7 +524,7 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
                         mpc.add(model.mesh.findNodeId(nodePosition));
                         mpc.add(i+1);
                         mpc.add(dofcoef[i]);
-                        fieldNum += 3;
+                        termNum++;
 					}
 				}
 			}
-- 
2.43.0


From 49f87d906dd31b499c1d7b8ce692a1bf8a73c51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:01 +0000
Subject: [PATCH 027/117] fix: CONM2 cards are written with their offset and
 inertia

---
 Nastran/NastranWriter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 7177f8a..4f45ac2 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -881,6 +881,10 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
             conm2.add(model.mesh.findNodeId(nodePosition));
             conm2.add(0); // CID
             conm2.add(mass->getMass());
+            conm2.add(mass->ex).add(mass->ey).add(mass->ez);
+            conm2.add();
+            conm2.add(mass->ixx).add(-mass->ixy).add(mass->iyy);
+            conm2.add(-mass->ixz).add(-mass->iyz).add(mass->izz);
             out << conm2;
             elementSet->markAsWritten();
         }
-- 
2.43.0


From 6cff60c3920e502c90161c54e6733b5578266a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:53 +0000
Subject: [PATCH 028/117] fix: products of inertia of CONM2 in the order of
 NodalMass

---
 Nastran/NastranParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index cafb027..df69ad0 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1233,7 +1233,7 @@ void NastranParser::parseCONM2(NastranTokenizer& tok, Model& model) {
     const double i32 = tok.nextDouble(true, 0.0);
     const double i33 = tok.nextDouble(true, 0.0);
 
-    const auto& nodalMass = make_shared<NodalMass>(model, mass, i11, i22, i33, -i21, -i31, -i32, x1, x2, x3, eid);
+    const auto& nodalMass = make_shared<NodalMass>(model, mass, i11, i22, i33, -i21, -i32, -i31, x1, x2, x3, eid);
 
     const pos_t cpos = ci == 0 ? CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID : model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, ci));
     const auto cellPosition = model.mesh.addCell(eid, CellType::POINT1, { g }, false, cpos);
-- 
2.43.0


From 98158c7327b8ac299d22ca454d8d81f522243d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:34 +0000
Subject: [PATCH 029/117] fix: an offset mass without inertia of its own keeps
 its offset

---
 Abstract/Element.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index e8a46b3..0541dc6 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -946,7 +946,8 @@ bool NodalMass::hasTranslations() const {
 }
 
 bool NodalMass::hasRotations() const {
-	return (not is_zero(ixx) or not is_zero(iyy) or not is_zero(izz) or not is_zero(ixy) or not is_zero(iyz) or not is_zero(ixz));
+	return (not is_zero(ixx) or not is_zero(iyy) or not is_zero(izz) or not is_zero(ixy) or not is_zero(iyz) or not is_zero(ixz)
+	        or not is_zero(ex) or not is_zero(ey) or not is_zero(ez));
 }
 
 DOFS NodalMass::getDOFSForNode(const pos_t nodePosition) const {
-- 
2.43.0


From 2e694632d8531a0a290551745956cbc3246e21da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:34 +0000
Subject: [PATCH 030/117] fix: Nastran output keeps the torsional constant,
 shear factors and non-structural mass of beams and shells

---
 Nastran/NastranWriter.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 4f45ac2..963e8ee 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -822,8 +822,28 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		pbeam.add(beam->getAreaCrossSection());
 		pbeam.add(beam->getMomentOfInertiaZ());
 		pbeam.add(beam->getMomentOfInertiaY());
-		pbeam.add(0.0);
+		if (not isCosmic()) {
+			pbeam.add(0.0); // I12
+		}
 		pbeam.add(beam->getTorsionalConstant());
+		const double nsm = beam->getAdditionalRho() * beam->getAreaCrossSection();
+		const double shearY = beam->getShearAreaFactorY();
+		const double shearZ = beam->getShearAreaFactorZ();
+		const bool hasShear = isCosmic() and beam->beamModel == Beam::BeamModel::TIMOSHENKO
+				and not (is_zero(shearY) and is_zero(shearZ));
+		if (not is_zero(nsm) or hasShear) {
+			pbeam.add(nsm);
+		}
+		if (hasShear) {
+			pbeam.skip(9); // stress recovery points
+			for (const double shear : {shearZ, shearY}) {
+				if (is_zero(shear)) {
+					pbeam.add();
+				} else {
+					pbeam.add(1. / shear);
+				}
+			}
+		}
 		out << pbeam;
 		beam->markAsWritten();
 	}
@@ -834,6 +854,11 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		pshell.add(shell->mainMaterial()->bestId());
 		pshell.add(shell->thickness);
 		pshell.add(shell->mainMaterial()->bestId()); // MID2 for bending
+		const double nsm = shell->getAdditionalRho() * shell->thickness;
+		if (not is_zero(nsm)) {
+			pshell.skip(3); // 12I/T**3, MID3, TS/T
+			pshell.add(nsm);
+		}
 		out << pshell;
 		shell->markAsWritten();
 	}
-- 
2.43.0


From f39c1fdae658d4b0fbaa3725fa81401d9beed9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:34 +0000
Subject: [PATCH 031/117] fix: CONM1 has 21 terms, and any of them may be blank

---
 Nastran/NastranParser.cpp | 5 +----
 Nastran/NastranWriter.cpp | 4 ++--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index df69ad0..8be03e6 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1190,13 +1190,10 @@ void NastranParser::parseCONM1(NastranTokenizer& tok, Model& model) {
 
     const auto& nodalMassMatrix = make_shared<DiscretePoint>(model, MatrixType::SYMMETRIC, eid);
 
-    for (dof_int row = 0; row < 5; row++) {
+    for (dof_int row = 0; row < 6; row++) {
         const DOF rowdof = DOF::findByPosition(row);
         for (dof_int col = 0; col <= row; col++) {
             const DOF coldof = DOF::findByPosition(col);
-            if (!tok.isNextDouble()) {
-                break;
-            }
             nodalMassMatrix->addMass(rowdof, coldof, tok.nextDouble(true, 0.0));
         }
     }
diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 963e8ee..49ca8b6 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -887,9 +887,9 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
             conm1.add(discretePoint->bestId());
             conm1.add(model.mesh.findNodeId(nodePosition));
             conm1.add(0); // CID
-            for (dof_int row = 0; row < 5; row++) {
+            for (dof_int row = 0; row < 6; row++) {
                 const DOF rowdof = DOF::findByPosition(row);
-                for (dof_int col = 0; col < row; col++) {
+                for (dof_int col = 0; col <= row; col++) {
                     const DOF coldof = DOF::findByPosition(col);
                     conm1.add(discretePoint->findMass(rowdof, coldof));
                 }
-- 
2.43.0


From 65fb1126dd372525b47020ddaea8a65cefb9bb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:06 +0000
Subject: [PATCH 032/117] fix: Nastran output gives the permanent constraints
 with the grids

---
 Nastran/NastranWriter.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 49ca8b6..ae9b13d 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -376,6 +376,13 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
 
 void NastranWriter::writeNodes(const Model& model, ofstream& out) const
 		{
+	// Permanent single point constraints are not selected by the case control: they are given with the grids
+	map<pos_t, DOFS> permanentDOFSByNode;
+	for (const auto& constraint : model.commonConstraintSet->getConstraintsByType(Constraint::Type::SPC)) {
+		for (const auto nodePosition : constraint->nodePositions()) {
+			permanentDOFSByNode[nodePosition] += constraint->getDOFSForNode(nodePosition);
+		}
+	}
 	for (Node node : model.mesh.nodes) {
 		shared_ptr<CoordinateSystem> positionCS = nullptr;
 		if (node.positionCS != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
@@ -389,6 +396,10 @@ void NastranWriter::writeNodes(const Model& model, ofstream& out) const
 		grid.add(node.id).add(positionCS == nullptr ? 0 : positionCS->bestId());
 		grid.add(node.lx).add(node.ly).add(node.lz);
 		grid.add(displacementCS == nullptr ? 0 : displacementCS->bestId());
+		const auto& permanentDOFS = permanentDOFSByNode.find(node.position);
+		if (permanentDOFS != permanentDOFSByNode.end()) {
+			grid.add(permanentDOFS->second);
+		}
 		out << grid;
 	}
 }
@@ -432,6 +443,10 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
 		const auto& spcs = constraintSet->getConstraintsByType(Constraint::Type::SPC);
         for (const auto& constraint : spcs) {
             const auto& spc = static_pointer_cast<SinglePointConstraint>(constraint);
+            if (constraintSet->type == ConstraintSet::Type::ALL) {
+                spc->markAsWritten(); // with the grids
+                continue;
+            }
             for (const auto nodePosition : spc->nodePositions()) {
                 const int nodeId = model.mesh.findNodeId(nodePosition);
                 out
@@ -1037,6 +1052,9 @@ string NastranWriter::writeModel(Model& model,
 			out << "  " << typeName << "=" << loadSet->bestId() << endl;
 		}
 		for (const auto& constraintSet : analysis->getConstraintSets()) {
+			if (constraintSet->type == ConstraintSet::Type::ALL) {
+				continue; // always active
+			}
 			string typeName = constraintSet->stringByType.find(constraintSet->type)->second;
 			out << "  " << typeName << "=" << constraintSet->bestId() << endl;
 		}
-- 
2.43.0


From b5d9b5224e2288268229325def54ce1f38a031f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:06 +0000
Subject: [PATCH 033/117] fix: Nastran output keeps the non-zero values of
 single point constraints

---
 Nastran/NastranWriter.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index ae9b13d..347c5ee 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -449,9 +449,18 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
             }
             for (const auto nodePosition : spc->nodePositions()) {
                 const int nodeId = model.mesh.findNodeId(nodePosition);
-                out
-                        << Line("SPC1").add(constraintSet->bestId()).add(
-                                spc->getDOFSForNode(nodePosition)).add(nodeId);
+                DOFS fixedDOFS;
+                for (const DOF dof : spc->getDOFSForNode(nodePosition)) {
+                    const double value = spc->getDoubleForDOF(dof);
+                    if (is_zero(value)) {
+                        fixedDOFS += dof;
+                    } else {
+                        out << Line("SPC").add(constraintSet->bestId()).add(nodeId).add(DOFS(dof)).add(value);
+                    }
+                }
+                if (fixedDOFS.size() > 0) {
+                    out << Line("SPC1").add(constraintSet->bestId()).add(fixedDOFS).add(nodeId);
+                }
             }
             spc->markAsWritten();
         }
-- 
2.43.0


From e19a1ccc6ce8690b96dc057348c1b5f0b2d18e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:06 +0000
Subject: [PATCH 034/117] fix: Nastran output writes moments and imposed
 displacements

---
 Nastran/NastranWriter.cpp | 44 +++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 347c5ee..3422622 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -782,23 +782,45 @@ void NastranWriter::writeLoadings(const Model& model, ofstream& out) const
 
             const auto& nodalForce = static_pointer_cast<NodalForce>(loading);
             for (const auto nodePosition : nodalForce->getNodePositionsIncludingGroups()) {
-                Line force("FORCE");
-                force.add(loadingSet->bestId());
-                force.add(model.mesh.findNodeId(nodePosition));
-                force.add(0);
                 const auto& forceVector = nodalForce->getForceInGlobalCS(nodePosition);
-                force.add(1.0);
-                force.add(forceVector.x());
-                force.add(forceVector.y());
-                force.add(forceVector.z());
-                if (!nodalForce->getMomentInGlobalCS(nodePosition).iszero()) {
-                    handleWritingError("Unimplemented moment in FORCE");
+                const auto& momentVector = nodalForce->getMomentInGlobalCS(nodePosition);
+                if (!forceVector.iszero() or momentVector.iszero()) {
+                    Line force("FORCE");
+                    force.add(loadingSet->bestId());
+                    force.add(model.mesh.findNodeId(nodePosition));
+                    force.add(0);
+                    force.add(1.0);
+                    force.add(forceVector);
+                    out << force;
+                }
+                if (!momentVector.iszero()) {
+                    Line moment("MOMENT");
+                    moment.add(loadingSet->bestId());
+                    moment.add(model.mesh.findNodeId(nodePosition));
+                    moment.add(0);
+                    moment.add(1.0);
+                    moment.add(momentVector);
+                    out << moment;
                 }
-                out << force;
             }
             nodalForce->markAsWritten();
         }
 
+        for (const auto& loading : loadingSet->getLoadingsByType(Loading::Type::IMPOSED_DISPLACEMENT)) {
+            const auto& imposedDisplacement = static_pointer_cast<ImposedDisplacement>(loading);
+            for (const auto nodePosition : imposedDisplacement->getNodePositionsIncludingGroups()) {
+                for (const DOF dof : imposedDisplacement->getDOFSForNode(nodePosition)) {
+                    Line spcd("SPCD");
+                    spcd.add(loadingSet->bestId());
+                    spcd.add(model.mesh.findNodeId(nodePosition));
+                    spcd.add(DOFS(dof));
+                    spcd.add(imposedDisplacement->getDoubleForDOF(dof));
+                    out << spcd;
+                }
+            }
+            imposedDisplacement->markAsWritten();
+        }
+
         for (const auto& loading : nodalForces) {
             const auto& staticPressure = dynamic_pointer_cast<StaticPressure>(loading);
             if (staticPressure == nullptr)
-- 
2.43.0


From 7e033b214102b08cb0d5c424707ae0e8ffceac8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 035/117] fix: Nastran output writes rigid elements instead of
 equations that are never selected

---
 Abstract/ConfigurationParameters.cpp | 1 +
 Abstract/ConfigurationParameters.h   | 1 +
 Abstract/Model.cpp                   | 3 ++-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/Abstract/ConfigurationParameters.cpp b/Abstract/ConfigurationParameters.cpp
index 83ab3c1..9237480 100644
--- a/Abstract/ConfigurationParameters.cpp
+++ b/Abstract/ConfigurationParameters.cpp
@@ -83,6 +83,7 @@ ModelConfiguration ConfigurationParameters::getModelConfiguration() const {
     } else if (this->outputSolver.getSolverName() == SolverName::NASTRAN) {
         // default should be always false
         configuration.autoDetectAnalysis = true;
+        configuration.emulateQuasiRigids = false; // written as RBE2
         configuration.replaceCombinedLoadSets = true; // tentative workaround for problem in LOAD BULK detection
     } else {
         throw logic_error(" solver not yet implemented");
diff --git a/Abstract/ConfigurationParameters.h b/Abstract/ConfigurationParameters.h
index 10e22ac..cda4bb8 100644
--- a/Abstract/ConfigurationParameters.h
+++ b/Abstract/ConfigurationParameters.h
@@ -160,6 +160,7 @@ public:
      * problems in stiffness matrix
      */
     bool replaceRigidSegments = false;
+    bool emulateQuasiRigids = true;
 
     /**
      * Replace parametric functions (ex: ABSC coordinates, like PLOAD1 with LR option in Nastran)
diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 1f4309c..85e34ca 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2280,7 +2280,8 @@ void Model::finish() {
 
     for (const auto& constraint : constraints.filter(Constraint::Type::QUASI_RIGID)) {
         const auto& rigid = static_pointer_cast<QuasiRigidConstraint>(constraint);
-        if (this->configuration.convertCompletelyRigidsIntoMPCs or not rigid->isCompletelyRigid())
+        if (this->configuration.convertCompletelyRigidsIntoMPCs
+                or (this->configuration.emulateQuasiRigids and not rigid->isCompletelyRigid()))
             rigid->emulateWithMPCs();
     }
 
-- 
2.43.0


From 3598209c41f322d5c3a29648b32ea90a9d5447a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:44 +0000
Subject: [PATCH 036/117] fix: all the gravities of a load case are written to
 Systus

---
 Systus/SystusWriter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 9200043..755e107 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -1200,7 +1200,11 @@ void SystusWriter::fillLoadingsVectors(const SystusModel& systusModel, const int
                     vec.push_back(acceleration.z()); normvec=max(normvec, abs(acceleration.z()));
                     if (!is_zero(normvec)){
                         if (loadingVectorIdByLocalLoading[idLoadCase]!=0){
-                            handleWritingWarning("GRAVITY already defined for this loadcase. Dismissing load "+ to_string(gravity->bestId()) );
+                            // accelerations of a same loadcase add up
+                            auto& previous = vectors[loadingVectorIdByLocalLoading[idLoadCase]];
+                            for (size_t j = 6; j < vec.size(); j++) {
+                                previous[j] += vec[j];
+                            }
                         }else{
                             vectors[vectorId]=vec;
                             loadingVectorIdByLocalLoading[idLoadCase]= vectorId;
-- 
2.43.0


From c033ffc1eff297e2aca742f2799fe6f36c20193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:36 +0000
Subject: [PATCH 037/117] fix: a support is lifted for all the displacements
 imposed at a node, not the last one

---
 Abstract/Model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 85e34ca..0d92f97 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1488,7 +1488,7 @@ void Model::removeConstrainedImposed() {
             for (const auto& load : loads) {
                 const auto& impo = static_pointer_cast<ImposedDisplacement>(load);
                 for (const auto nodePosition : impo->nodePositions()) {
-                    imposedDofsByNodePosition[nodePosition] = impo->getDOFSForNode(nodePosition);
+                    imposedDofsByNodePosition[nodePosition] += impo->getDOFSForNode(nodePosition);
                 }
             }
         }
-- 
2.43.0


From 03ac3531f5a5959dda02c87df14e73990fb22d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:39 +0000
Subject: [PATCH 038/117] fix: ids given by VEGA to properties do not collide
 with those of the input in Nastran output

---
 Nastran/NastranWriter.cpp | 51 +++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 3422622..a7a9f4f 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -169,6 +169,31 @@ const unordered_map<CellType::Code, vector<int>, EnumClassHash> NastranWriter::m
                         15, 14, 13 } }
         };
 
+/**
+ * Ids of objects that VEGA adds to the model (CONROD properties...): they follow the ids of the input.
+ */
+static int propertyId(const Model& model, const ElementSet& elementSet) {
+	if (elementSet.isOriginal())
+		return elementSet.bestId();
+	int maxId = 0;
+	for (const auto& other : model.elementSets) {
+		if (other->isOriginal())
+			maxId = max(maxId, other->bestId());
+	}
+	return maxId + elementSet.getId();
+}
+
+static int materialId(const Model& model, const Material& material) {
+	if (material.isOriginal())
+		return material.bestId();
+	int maxId = 0;
+	for (const auto& other : model.materials) {
+		if (other->isOriginal())
+			maxId = max(maxId, other->bestId());
+	}
+	return maxId + material.getId();
+}
+
 string NastranWriter::toString() const {
 	return "NastranWriter";
 }
@@ -349,9 +374,9 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
 
             Line cellLine{keyword};
             if (isCosmic() && (cell.type.code == CellType::Code::TETRA4_CODE || cell.type.code == CellType::Code::TETRA10_CODE)) {
-                cellLine.add(cell.id).add(elementSet->mainMaterial()->bestId()).add(nasConnect);
+                cellLine.add(cell.id).add(materialId(model, *elementSet->mainMaterial())).add(nasConnect);
             } else {
-                cellLine.add(cell.id).add(elementSet->bestId()).add(nasConnect);
+                cellLine.add(cell.id).add(propertyId(model, *elementSet)).add(nasConnect);
             }
 
             if (elementSet->isBeam() and cell.hasOrientation) {
@@ -408,7 +433,7 @@ void NastranWriter::writeMaterials(const Model& model, ofstream& out) const
 		{
 	for (const auto& material : model.materials) {
 		Line mat1("MAT1");
-		mat1.add(material->bestId());
+		mat1.add(materialId(model, *material));
 		const auto& enature = material->findNature(Nature::NatureType::NATURE_ELASTIC);
 		if (enature) {
 			const ElasticNature& elasticNature = dynamic_cast<const ElasticNature&>(*enature);
@@ -853,8 +878,8 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		{
 	for (const auto& truss : model.getTrusses()) {
 		Line prod("PROD");
-		prod.add(truss->bestId());
-		prod.add(truss->mainMaterial()->bestId());
+		prod.add(propertyId(model, *truss));
+		prod.add(materialId(model, *truss->mainMaterial()));
 		prod.add(truss->getAreaCrossSection());
 		prod.add(truss->getTorsionalConstant());
 		out << prod;
@@ -863,8 +888,8 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 	for (const auto& beam : model.getBeams()) {
 	    string beamModel = isCosmic() ? "PBAR" : "PBEAM";
 		Line pbeam(beamModel);
-		pbeam.add(beam->bestId());
-		pbeam.add(beam->mainMaterial()->bestId());
+		pbeam.add(propertyId(model, *beam));
+		pbeam.add(materialId(model, *beam->mainMaterial()));
 		pbeam.add(beam->getAreaCrossSection());
 		pbeam.add(beam->getMomentOfInertiaZ());
 		pbeam.add(beam->getMomentOfInertiaY());
@@ -896,10 +921,10 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 	for (const auto& elementSet : model.elementSets.filter(ElementSet::Type::SHELL)) {
 		const auto& shell = static_pointer_cast<Shell>(elementSet);
 		Line pshell("PSHELL");
-		pshell.add(shell->bestId());
-		pshell.add(shell->mainMaterial()->bestId());
+		pshell.add(propertyId(model, *shell));
+		pshell.add(materialId(model, *shell->mainMaterial()));
 		pshell.add(shell->thickness);
-		pshell.add(shell->mainMaterial()->bestId()); // MID2 for bending
+		pshell.add(materialId(model, *shell->mainMaterial())); // MID2 for bending
 		const double nsm = shell->getAdditionalRho() * shell->thickness;
 		if (not is_zero(nsm)) {
 			pshell.skip(3); // 12I/T**3, MID3, TS/T
@@ -911,8 +936,8 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 	for (const auto& continuum : model.elementSets.filter(ElementSet::Type::CONTINUUM)) {
 	    string keyword = isCosmic() ? "PIHEX" : "PSOLID";
 		Line psolid(keyword);
-		psolid.add(continuum->bestId());
-		psolid.add(continuum->mainMaterial()->bestId());
+		psolid.add(propertyId(model, *continuum));
+		psolid.add(materialId(model, *continuum->mainMaterial()));
 		if (continuum->modelType == ModelType::TRIDIMENSIONAL and not isCosmic()) {
             psolid.add(0);
             psolid.add("THREE");
@@ -966,7 +991,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
             handleWritingError("discrete not completely written");
         }
         Line pbush("PBUSH");
-        pbush.add(segment->bestId());
+        pbush.add(propertyId(model, *segment));
         pbush.add(0); // CID
         pbush.add("K");
         for (const DOF dof: DOFS::ALL_DOFS) {
-- 
2.43.0


From 081b4ff373dacf713f4b8d21bd13208fd17b4fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:32 +0000
Subject: [PATCH 039/117] fix: RFORCE speed is in revolutions per unit time,
 and load factors scale its forces

---
 Abstract/Loading.cpp      | 13 +++++++++++--
 Abstract/Loading.h        |  4 ++++
 Nastran/NastranParser.cpp | 10 ++++++----
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index b2f9ea8..240535d 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -10,6 +10,7 @@
 
 #include "Loading.h"
 #include "Model.h"
+#include <cmath>
 //if with "or" and "and" under windows
 #include <ciso646>
 
@@ -196,6 +197,14 @@ bool Rotation::ineffective() const {
 	return is_zero(getSpeed()) or getAxis().iszero();
 }
 
+double Rotation::scaledSpeed(const double speed, const double factor) {
+	// the applied forces are proportional to the square of the speed
+	if (factor < 0) {
+		throw invalid_argument("A rotation can not be scaled by a negative factor");
+	}
+	return speed * sqrt(factor);
+}
+
 RotationCenter::RotationCenter(Model& model, const std::shared_ptr<LoadSet> loadset, double speed, double center_x, double center_y,
 		double center_z, double axis_x, double axis_y, double axis_z, const int original_id) :
 		Rotation(model, loadset, original_id), speed(speed), axis(axis_x, axis_y, axis_z), center(center_x,
@@ -219,7 +228,7 @@ unique_ptr<Loading> RotationCenter::clone() const {
 }
 
 void RotationCenter::scale(const double factor) {
-	speed *= factor;
+	speed = scaledSpeed(speed, factor);
 }
 
 RotationNode::RotationNode(Model& model, const std::shared_ptr<LoadSet> loadset, double speed, const int node_id, double axis_x,
@@ -246,7 +255,7 @@ unique_ptr<Loading> RotationNode::clone() const {
 }
 
 void RotationNode::scale(const double factor) {
-	speed *= factor;
+	speed = scaledSpeed(speed, factor);
 }
 
 ImposedDisplacement::ImposedDisplacement(Model& model, const std::shared_ptr<LoadSet> loadset, DOFS dofs, double value, const int original_id, const Reference<CoordinateSystem> csref) :
diff --git a/Abstract/Loading.h b/Abstract/Loading.h
index 365bbb4..d40aa88 100644
--- a/Abstract/Loading.h
+++ b/Abstract/Loading.h
@@ -162,6 +162,10 @@ public:
 class Rotation: public VolumicLoading {
 protected:
 	Rotation(Model& model, const std::shared_ptr<LoadSet> loadset, const int original_id = NO_ORIGINAL_ID);
+	/**
+	 * Speed at which the applied forces are multiplied by factor.
+	 */
+	static double scaledSpeed(const double speed, const double factor);
 public:
 	/**
 	 * Get rotation speed (in rad/s).
diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 8be03e6..fbb8248 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3177,9 +3177,9 @@ void NastranParser::parseRFORCE(NastranTokenizer& tok, Model& model) {
         handleParsingWarning("CoordinateSystem not supported and taken as 0.", tok, model);
     }
     double a = tok.nextDouble();
-    double r1 = tok.nextDouble();
-    double r2 = tok.nextDouble();
-    double r3 = tok.nextDouble();
+    double r1 = tok.nextDouble(true, 0.0);
+    double r2 = tok.nextDouble(true, 0.0);
+    double r3 = tok.nextDouble(true, 0.0);
 
     int method = tok.nextInt(true, 1);
     if (method != 1) {
@@ -3196,7 +3196,9 @@ void NastranParser::parseRFORCE(NastranTokenizer& tok, Model& model) {
         handleParsingWarning("MB not supported. Default (0) assumed.", tok, model);
     }
     const auto& loadset = model.getOrCreateLoadSet(sid, LoadSet::Type::LOAD);
-    const auto& rotation = make_shared<RotationNode>(model, loadset, a, g, r1, r2, r3);
+    // A is in revolutions per unit time, and the direction vector is not necessarily unitary
+    const double speed = 2*M_PI*a*VectorialValue(r1, r2, r3).norm();
+    const auto& rotation = make_shared<RotationNode>(model, loadset, speed, g, r1, r2, r3);
 
     rotation->setInputContext(tok.getInputContext());
     model.add(rotation);
-- 
2.43.0


From b08c2b359f1efb5269e88a76183a94e3d888933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:00 +0000
Subject: [PATCH 040/117] fix: a support lifted in an analysis stays in the
 others, SPCADD sets included

---
 Abstract/Analysis.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Abstract/Analysis.cpp b/Abstract/Analysis.cpp
index 6dd8896..dc1d68c 100644
--- a/Abstract/Analysis.cpp
+++ b/Abstract/Analysis.cpp
@@ -468,7 +468,11 @@ void Analysis::removeSPCNodeDofs(SinglePointConstraint& spc, const pos_t nodePos
                 continue;
             }
             for (const auto& constraintSet : otherAnalysis->getConstraintSets()) {
-                if (affectedConstraintSets.find(constraintSet) == affectedConstraintSets.end()) {
+                // the support may be reached through another set (SPCADD)
+                const auto& constraints = constraintSet->getConstraintsByType(Constraint::Type::SPC);
+                if (none_of(constraints.begin(), constraints.end(), [&spc](const shared_ptr<Constraint>& constraint) {
+                        return constraint->getReference() == spc.getReference();
+                    })) {
                     continue;
                 }
                 otherAnalysis->add(*otherAnalysesCS);
-- 
2.43.0


From a5652c7d96f58b6affbc899f6e96186d7547b20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:40 +0000
Subject: [PATCH 041/117] fix: MPC terms of grids with a displacement system
 are expressed in the global system for Aster

---
 Abstract/Constraint.cpp | 18 ++++++++++++++++++
 Abstract/Constraint.h   |  2 ++
 Abstract/Model.cpp      |  5 +++++
 3 files changed, 25 insertions(+)

diff --git a/Abstract/Constraint.cpp b/Abstract/Constraint.cpp
index e46fc35..9bc27e9 100644
--- a/Abstract/Constraint.cpp
+++ b/Abstract/Constraint.cpp
@@ -586,6 +586,24 @@ bool LinearMultiplePointConstraint::ineffective() const  {
     return dofCoefsByNodePosition.empty();
 }
 
+void LinearMultiplePointConstraint::emulateLocalDisplacementConstraint() {
+    for (auto& it : dofCoefsByNodePosition) {
+        const Node& node = model.mesh.findNode(it.first);
+        if (node.displacementCS == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
+            continue;
+        }
+        const auto& coordSystem = model.mesh.getCoordinateSystemByPosition(node.displacementCS);
+        coordSystem->updateLocalBase(VectorialValue(node.x, node.y, node.z));
+        DOFCoefs& local = it.second;
+        const VectorialValue& translation = coordSystem->vectorToGlobal(
+                VectorialValue(local[0], local[1], local[2]));
+        const VectorialValue& rotation = coordSystem->vectorToGlobal(
+                VectorialValue(local[3], local[4], local[5]));
+        local = DOFCoefs(translation.x(), translation.y(), translation.z(),
+                rotation.x(), rotation.y(), rotation.z());
+    }
+}
+
 DOFCoefs LinearMultiplePointConstraint::getDoFCoefsForNode(const pos_t nodePosition) const {
     DOFCoefs dofCoefs(0, 0, 0, 0, 0, 0);
     auto it = dofCoefsByNodePosition.find(nodePosition);
diff --git a/Abstract/Constraint.h b/Abstract/Constraint.h
index 910cb12..be1d5ea 100644
--- a/Abstract/Constraint.h
+++ b/Abstract/Constraint.h
@@ -222,6 +222,8 @@ public:
     DOFS getDOFSForNode(const pos_t nodePosition) const override;
     void removeNodePosition(const pos_t nodePosition) override;
     bool ineffective() const override;
+    /** Express the participations of the nodes having a local displacement system in the global one */
+    void emulateLocalDisplacementConstraint();
 };
 
 class Contact: public Constraint {
diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 0d92f97..6b9d38e 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -892,6 +892,11 @@ void Model::generateSkin() {
 
 void Model::emulateLocalDisplacementConstraint() {
 
+    // before the SPCs, which are replaced by LMPCs already expressed in the global system
+    for (const auto& constraint : constraints.filter(Constraint::Type::LMPC)) {
+        static_pointer_cast<LinearMultiplePointConstraint>(constraint)->emulateLocalDisplacementConstraint();
+    }
+
     for (const auto& constraint : constraints.filter(Constraint::Type::SPC)) {
         const auto& spc = static_pointer_cast<SinglePointConstraint>(   constraint);
         spc->emulateLocalDisplacementConstraint();
-- 
2.43.0


From 430a96eadd0328251dcf24a8d2fd5ed5dc327d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:28 +0000
Subject: [PATCH 042/117] fix: RBAR and RBAR1 keep their lever arm between
 grids without rotations of their own

---
 Nastran/NastranParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index fbb8248..cf2802e 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3082,12 +3082,14 @@ void NastranParser::parseRBAR(NastranTokenizer& tok, Model& model) {
     }
     if (cna != 0) {
         const auto& qrc = make_shared<QuasiRigidConstraint>(model, DOFS::nastranCodeToDOFS(cna), ga, original_id);
+        qrc->addRotations = true;
         qrc->addSlave(gb);
         qrc->setInputContext(tok.getInputContext());
         model.add(qrc);
         model.addConstraintIntoConstraintSet(*qrc, *model.commonConstraintSet);
     } else if (cnb != 0) {
         const auto& qrc = make_shared<QuasiRigidConstraint>(model, DOFS::nastranCodeToDOFS(cnb), gb, original_id);
+        qrc->addRotations = true;
         qrc->addSlave(ga);
         qrc->setInputContext(tok.getInputContext());
         model.add(qrc);
@@ -3111,6 +3113,7 @@ void NastranParser::parseRBAR1(NastranTokenizer& tok, Model& model) {
     int cb = tok.nextInt(true, 123456); // dependent components at gb, the six components of ga are independent
 
     const auto& qrc = make_shared<QuasiRigidConstraint>(model, DOFS::nastranCodeToDOFS(cb), ga, original_id);
+    qrc->addRotations = true;
     qrc->addSlave(gb);
     qrc->setInputContext(tok.getInputContext());
     model.add(qrc);
-- 
2.43.0


From f4318efbdb6da10c755811354e12cb1760848eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:18 +0000
Subject: [PATCH 043/117] fix: freedoms of the nodes of a rigid body are not
 blocked when a virtual discrete adds them

---
 Abstract/Model.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 6b9d38e..46551b0 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -648,6 +648,20 @@ void Model::generateDiscrets() {
 
     shared_ptr<CellGroup> virtualDiscretTGroup = nullptr;
 
+    // the freedoms of the nodes of a rigid body are held by the body
+    map<shared_ptr<Analysis>, set<pos_t>> rigidNodePositionsByAnalysis;
+    for (const auto& analysis : analyses) {
+        auto& rigidNodePositions = rigidNodePositionsByAnalysis[analysis];
+        for (const auto& constraint : analysis->getConstraints()) {
+            if (constraint->type == Constraint::Type::RIGID
+                    or (constraint->type == Constraint::Type::QUASI_RIGID
+                            and static_pointer_cast<QuasiRigidConstraint>(constraint)->isCompletelyRigid())) {
+                const auto& nodePositions = constraint->nodePositions();
+                rigidNodePositions.insert(nodePositions.begin(), nodePositions.end());
+            }
+        }
+    }
+
     // LD TODO : possible optimisation, only "altered nodes" (nodes with rotations, nodes with boundary conditions)
     for (const Node& node : this->mesh.nodes) {
         DOFS missingDOFS;
@@ -715,7 +729,8 @@ void Model::generateDiscrets() {
             if (!node.dofs.containsAll(requiredDOFS)) {
                 const DOFS& extraDOFS = addedDOFS - requiredDOFS - node.dofs;
 
-                if (extraDOFS != DOFS::NO_DOFS) {
+                const auto& rigidNodePositions = rigidNodePositionsByAnalysis[analysis];
+                if (extraDOFS != DOFS::NO_DOFS and rigidNodePositions.find(node.position) == rigidNodePositions.end()) {
                     if (spcSet == nullptr) {
                         spcSet = make_shared<ConstraintSet>(*this, ConstraintSet::Type::SPC);
                         add(spcSet);
-- 
2.43.0


From 4e2ef9d716c5ea47c80ad0cd6623055ecc311d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:51 +0000
Subject: [PATCH 044/117] fix: partially rigid elements act on the displacement
 system of their dependent grids in Aster

---
 Abstract/Constraint.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/Abstract/Constraint.cpp b/Abstract/Constraint.cpp
index 9bc27e9..8d39fec 100644
--- a/Abstract/Constraint.cpp
+++ b/Abstract/Constraint.cpp
@@ -222,6 +222,31 @@ void QuasiRigidConstraint::emulateWithMPCs() {
 
         VectorialValue distMaster{master.x - slave.x, master.y - slave.y, master.z - slave.z};
 
+        if (model.configuration.emulateLocalDisplacement
+                and slave.displacementCS != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
+            // the freedoms are those of the displacement system of the slave
+            const auto& coordSystem = model.mesh.getCoordinateSystemByPosition(slave.displacementCS);
+            coordSystem->updateLocalBase(VectorialValue(slave.x, slave.y, slave.z));
+            const bool hasRotations = masterCalcDofs.containsAnyOf(DOFS::ROTATIONS);
+            for (char i = 0; i < 6; i++) {
+                if (not dofs.contains(*DOF::dofByPosition[i]) or (i >= 3 and not hasRotations)) {
+                    continue;
+                }
+                const VectorialValue& axis = coordSystem->vectorToGlobal(VectorialValue::XYZ[i % 3]);
+                const auto& lmpc = make_shared<LinearMultiplePointConstraint>(model, 0.0);
+                if (i < 3) {
+                    const VectorialValue& lever = hasRotations ? distMaster.cross(axis) : VectorialValue(0, 0, 0);
+                    lmpc->addParticipation(master.id, -axis.x(), -axis.y(), -axis.z(), lever.x(), lever.y(), lever.z());
+                    lmpc->addParticipation(slave.id, axis.x(), axis.y(), axis.z());
+                } else {
+                    lmpc->addParticipation(master.id, 0.0, 0.0, 0.0, axis.x(), axis.y(), axis.z());
+                    lmpc->addParticipation(slave.id, 0.0, 0.0, 0.0, -axis.x(), -axis.y(), -axis.z());
+                }
+                lmpcs.insert(lmpc);
+            }
+            continue;
+        }
+
         // First relation: DX(M) - DX(A) - Z*DRY(A) + Y*DRZ(A) =0
         if (dofs.contains(DOF::DX)) {
             const auto& lmpc1 = make_shared<LinearMultiplePointConstraint>(model, 0.0);
-- 
2.43.0


From 44539df58cd998fea6665ff34185f3d702e0f00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:21 +0000
Subject: [PATCH 045/117] fix: all the global freedoms that a local freedom
 combines are available in Aster

---
 Abstract/Constraint.cpp |  2 ++
 Abstract/Model.cpp      | 12 ++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/Abstract/Constraint.cpp b/Abstract/Constraint.cpp
index 8d39fec..d0c581d 100644
--- a/Abstract/Constraint.cpp
+++ b/Abstract/Constraint.cpp
@@ -339,6 +339,8 @@ DOFS QuasiRigidConstraint::calcMasterDOFS() const {
         for (const auto slavePosition : getSlaves()) {
             const Node& slave = model.mesh.findNode(slavePosition);
             masterUsableDOFS += slave.dofs;
+            if (slave.displacementCS != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID)
+                return DOFS::ALL_DOFS; // the freedoms of the slave are combinations of the global ones
             VectorialValue distMaster{master.x - slave.x, master.y - slave.y, master.z - slave.z};
             if (not is_zero(distMaster.x()))
                 masterUsableDOFS += DOF::RY + DOF::RZ;
diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 46551b0..8c0bb4d 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2281,8 +2281,16 @@ void Model::finish() {
     for (const auto& analysis : analyses) {
         for (const auto& boundaryCondition : analysis->getBoundaryConditions()) {
             for(const auto nodePosition: boundaryCondition->nodePositions()) {
-                analysis->addBoundaryDOFS(nodePosition,
-                        boundaryCondition->getDOFSForNode(nodePosition));
+                DOFS boundaryDOFS = boundaryCondition->getDOFSForNode(nodePosition);
+                if (this->configuration.emulateLocalDisplacement and mesh.findNode(nodePosition).displacementCS
+                        != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
+                    // a local freedom is a combination of the global ones
+                    if (boundaryDOFS.containsAnyOf(DOFS::TRANSLATIONS))
+                        boundaryDOFS += DOFS::TRANSLATIONS;
+                    if (boundaryDOFS.containsAnyOf(DOFS::ROTATIONS))
+                        boundaryDOFS += DOFS::ROTATIONS;
+                }
+                analysis->addBoundaryDOFS(nodePosition, boundaryDOFS);
             }
         }
     }
-- 
2.43.0


From 3d8ca7e49e51e5a7e7d8efcdab49495350ea2ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:59 +0000
Subject: [PATCH 046/117] fix: the parts of a RBE3 of several weights share
 their additional nodes in Systus

---
 Systus/SystusWriter.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 755e107..8208c89 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -738,6 +738,9 @@ void SystusWriter::generateRBEs(SystusModel& systusModel,
         rbars->markAsWritten();
     }
 
+    // The cells of a same RBE3 may be dispatched in several element sets, one by weight and slave DOFS: they share
+    // the additional nodes (Lagrange, rotation, rotation's Lagrange), as they are the terms of a single average.
+    map<pair<int, int>, array<int, 3>> additionalNodesByRbe3;
     for (const auto& elementSet : systusModel.model.elementSets.filter(ElementSet::Type::RBE3)) {
 
         /*
@@ -766,19 +769,26 @@ void SystusWriter::generateRBEs(SystusModel& systusModel,
 
         // Creating a Lagrange node
         // Lagrange node must NOT have an orientation, as they inherit it from the slave node.
-        const auto master_lagr_position = mesh.addNode(Node::AUTO_ID, master.lx, master.ly, master.lz, master.positionCS, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
-        const int master_lagr_id = mesh.findNodeId(master_lagr_position);
+        const pair<int, int> rbe3Key(masterId, DOFSToInt(rbe3->mdofs));
+        const auto& itAdditionalNodes = additionalNodesByRbe3.find(rbe3Key);
+        const bool knownRbe3 = itAdditionalNodes != additionalNodesByRbe3.end();
+        const int master_lagr_id = knownRbe3 ? itAdditionalNodes->second[0] :
+                mesh.findNodeId(mesh.addNode(Node::AUTO_ID, master.lx, master.ly, master.lz, master.positionCS, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID));
 
         // Creating rotation nodes if needed
         int master_rot_id=0;
         int master_lagr_rot_id=0;
-        if (systusOption == SystusOption::CONTINUOUS){
+        if (knownRbe3) {
+            master_rot_id = itAdditionalNodes->second[1];
+            master_lagr_rot_id = itAdditionalNodes->second[2];
+        } else if (systusOption == SystusOption::CONTINUOUS){
             const auto master_rot_position = mesh.addNode(Node::AUTO_ID, master.lx, master.ly, master.lz, master.positionCS, master.displacementCS);
             master_rot_id = mesh.findNodeId(master_rot_position);
             rotationNodeIdByTranslationNodeId[master.id]=master_rot_id;
             const auto master_lagr_rot_position = mesh.addNode(Node::AUTO_ID, master.lx, master.ly, master.lz, master.positionCS, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
             master_lagr_rot_id = mesh.findNodeId(master_lagr_rot_position);
         }
+        additionalNodesByRbe3[rbe3Key] = {{master_lagr_id, master_rot_id, master_lagr_rot_id}};
 
         // Updating the cells
         map<pos_t, pos_t> updatedPositionByOldPosition;
-- 
2.43.0


From afe21a9b9ad67878c490180a1a41c872acaefb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:43 +0000
Subject: [PATCH 047/117] fix: scaling a load in a combination does not scale
 the table it shares with other loads

---
 Abstract/Loading.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index 240535d..ff69ec4 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -703,7 +703,17 @@ unique_ptr<Loading> ForceLine::clone() const {
 }
 
 void ForceLine::scale(const double factor) {
-	force->scale(factor);
+	// The function may be shared with other loadings, in particular the one this loading has been cloned from.
+	const auto& functionTable = dynamic_pointer_cast<FunctionTable>(force);
+	if (functionTable == nullptr) {
+		force->scale(factor);
+		return;
+	}
+	const auto& scaledTable = make_shared<FunctionTable>(*functionTable);
+	scaledTable->resetId();
+	scaledTable->scale(factor);
+	model.add(scaledTable);
+	force = scaledTable;
 }
 
 bool ForceLine::ineffective() const {
@@ -855,7 +865,17 @@ DOFS DynamicExcitation::getDOFSForNode(const pos_t nodePosition) const {
 }
 
 void DynamicExcitation::scale(const double factor) {
-	model.find(functionTableB)->scale(factor);
+	// The table may be shared with other loadings, in particular the one this loading has been cloned from.
+	const auto& functionTable = getFunctionTableB();
+	if (functionTable == nullptr) {
+		model.find(functionTableB)->scale(factor);
+		return;
+	}
+	const auto& scaledTable = make_shared<FunctionTable>(*functionTable);
+	scaledTable->resetId();
+	scaledTable->scale(factor);
+	model.add(scaledTable);
+	functionTableB = scaledTable->getReference();
 }
 
 unique_ptr<Loading> DynamicExcitation::clone() const {
-- 
2.43.0


From a9eb1d690c2811c9d1a0faa42717348b8c2c8a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:43 +0000
Subject: [PATCH 048/117] fix: PLOAD4 direction does not change its magnitude

---
 Nastran/NastranParser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index cf2802e..fb35c25 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2886,6 +2886,13 @@ void NastranParser::parsePLOAD4(NastranTokenizer& tok, Model& model) {
     }
 
     const auto& loadSet = model.getOrCreateLoadSet(loadset_id, LoadSet::Type::LOAD);
+    // N1, N2, N3 only give the direction of the pressure
+    const double norm = VectorialValue(n1, n2, n3).norm();
+    if (not is_equal(norm, 0.0)) {
+        n1 /= norm;
+        n2 /= norm;
+        n3 /= norm;
+    }
     bool has_direction = not (is_equal(n1, 0.0) and is_equal(n2, 0.0) and is_equal(n3, 0.0)
                               and cid == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
     if (not has_direction and g1 == Globals::UNAVAILABLE_INT) {
-- 
2.43.0


From 99aebab4d758bfb1acf65fbe6d285e1f27a1d9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:43 +0000
Subject: [PATCH 049/117] fix: PLOAD1 distances along a bar are converted to
 coordinates for Aster

---
 Abstract/Model.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 8c0bb4d..7d95bcc 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2071,8 +2071,12 @@ void Model::changeParametricForceLineToAbsolute() {
         const auto& functionTable = dynamic_pointer_cast<FunctionTable>(forceLine->force);
         if (functionTable == nullptr)
             throw logic_error("Cannot convert to absolute this kind of Function");
-        if (functionTable->getParaX() != Function::ParaName::ABSC)
+        double length = 1.0; // curvilinear values are ratios of the length of the beam, others are actual distances along it
+        if (functionTable->getParaX() == Function::ParaName::PARAX) {
+            length = VectorialValue(node2.x - node1.x, node2.y - node1.y, node2.z - node1.z).norm();
+        } else if (functionTable->getParaX() != Function::ParaName::ABSC) {
             continue;
+        }
         const auto& absoluteFunction = make_shared<FunctionTable>(*this, functionTable->parameter, functionTable->value, functionTable->left, functionTable->right, functionTable->getOriginalId());
         absoluteFunction->setParaX(Function::ParaName::PARAX);
         absoluteFunction->setParaY(functionTable->getParaY());
@@ -2080,7 +2084,7 @@ void Model::changeParametricForceLineToAbsolute() {
         if (cell.nodePositions.size() != 2)
             throw logic_error("Conversion of cell without two nodeids per ForceLine not yet implemented (but should be doable)");
         for (auto it = functionTable->getBeginValuesXY(); it != functionTable->getEndValuesXY(); it++) {
-            double absc = it->first;
+            double absc = it->first / length;
             double val = it->second;
             absoluteFunction->setXY(node1.x * (1-absc) + node2.x * absc, val);
         }
-- 
2.43.0


From 09b73fa58f81665268ff3b1d13c5ef5794142ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:46 +0000
Subject: [PATCH 050/117] fix: faces of HEXA20 all have the same orientation
 and their own mid-side nodes

---
 Abstract/MeshComponents.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Abstract/MeshComponents.cpp b/Abstract/MeshComponents.cpp
index b2d1714..a9de974 100644
--- a/Abstract/MeshComponents.cpp
+++ b/Abstract/MeshComponents.cpp
@@ -382,8 +382,8 @@ unordered_map<CellType::Code, vector<vector<int>>, EnumClassHash > Cell::init_fa
     };
     vector<vector<int> > hexa20list = { //
         {1,2,3,4,9,10,11,12}, //
-        {5,8,7,6,16,15,14,16}, //
-        {1,2,6,5,9,18,13,17}, //
+        {5,8,7,6,16,15,14,13}, //
+        {1,5,6,2,17,13,18,9}, //
         {2,6,7,3,18,14,19,10}, //
         {3,7,8,4,19,15,20,11}, //
         {1,4,8,5,12,20,16,17} //
-- 
2.43.0


From a324cffef03a507e85360bb0f7019d8dbcdbe756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:16 +0000
Subject: [PATCH 051/117] fix: a load that several loadsets of a combination
 share acts as many times

---
 Abstract/Model.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 7d95bcc..7aee21c 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1136,8 +1136,10 @@ void Model::replaceCombinedLoadSets() {
             }
             replace(otherloadSet);
             double coefficient = kv.second;
+            const auto& knownLoadings = loadSet->getLoadings();
             for (const auto& loading : otherloadSet->getLoadings()) {
-                if (is_equal(coefficient, 1.0)) {
+                // a loading that several combined loadsets bring acts as many times
+                if (is_equal(coefficient, 1.0) and knownLoadings.find(loading) == knownLoadings.end()) {
                     if (configuration.logLevel >= LogLevel::DEBUG) {
                         cout << "Ignoring scaling coefficient:" << coefficient << " for loading" << *loading << endl;
                     }
-- 
2.43.0


From 02747da11fbd5dd00626baa25077d90b15299d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:22 +0000
Subject: [PATCH 052/117] fix: an imposed displacement of several freedoms is
 scaled once in a combination

---
 Abstract/Loading.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index ff69ec4..3005ba2 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -280,10 +280,7 @@ double ImposedDisplacement::getDoubleForDOF(const DOF& dof) const {
 }
 
 void ImposedDisplacement::scale(const double factor) {
-    for(DOF dof : DOFS::ALL_DOFS) {
-        if (not is_equal(displacements[dof.position], Globals::UNAVAILABLE_DOUBLE))
-            displacements *= factor;
-    }
+    displacements *= factor;
 }
 
 NodalForce::NodalForce(Model& model, const std::shared_ptr<LoadSet> loadset, const VectorialValue& force,
-- 
2.43.0


From b6c5d911172f7a715c60dbf110b503d0ee70cde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:52 +0000
Subject: [PATCH 053/117] fix: a PLOAD on a quadrilateral acts on its four
 triangles with half of the pressure each

---
 Abstract/Loading.cpp | 55 +++++++++++++-------------------------------
 1 file changed, 16 insertions(+), 39 deletions(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index 3005ba2..c62a776 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -437,7 +437,7 @@ VectorialValue StaticPressure::getForceInGlobalCS(const pos_t nodePosition) cons
 	if (posSet.find(nodePosition) == posSet.end()) {
 	    return VectorialValue();
 	}
-	VectorialValue forceNode;
+	VectorialValue forceNode(0, 0, 0);
     const Node& node1 = model.mesh.findNode(node_position1);
     const Node& node2 = model.mesh.findNode(node_position2);
     const Node& node3 = model.mesh.findNode(node_position3);
@@ -451,45 +451,22 @@ VectorialValue StaticPressure::getForceInGlobalCS(const pos_t nodePosition) cons
         */
         const Node& node4 = model.mesh.findNode(node_position4);
         const VectorialValue& v14 = VectorialValue(node4.x, node4.y, node4.z) - VectorialValue(node1.x, node1.y, node1.z);
-        const VectorialValue& v24 = VectorialValue(node4.x, node4.y, node4.z) - VectorialValue(node2.x, node2.y, node2.z);
-        VectorialValue force1;
-        VectorialValue force2;
-        if (v13.norm() < v24.norm()) {
-            // triangles : G1,G2,G3 and G1,G3,G4
-            const VectorialValue& crossTria1 = v12.cross(v13);
-            double tria1Area = crossTria1.norm() / 2;
-            const VectorialValue& direction1 = crossTria1.normalized();
-            const VectorialValue& crossTria2 = v13.cross(v14);
-            double tria2Area = crossTria2.norm() / 2;
-            const VectorialValue& direction2 = crossTria2.normalized();
-            force1 = (magnitude / 4 * tria1Area) * direction1;
-            force2 = (magnitude / 4 * tria2Area) * direction2;
-            if (nodePosition == node_position1 || nodePosition == node_position3) {
-                forceNode = force1 + force2;
-            } else if (nodePosition == node_position2) {
-                forceNode = 2 * force1;
-            } else if (nodePosition == node_position4) {
-                forceNode = 2 * force2;
-            }
-        } else {
-            // triangles : G1,G2,G4 and G2,G3,G4
-            const VectorialValue& crossTria1 = v12.cross(v14);
-            double tria1Area = crossTria1.norm() / 2;
-            const VectorialValue& v23 = VectorialValue(node3.x, node3.y, node3.z) - VectorialValue(node2.x, node2.y, node2.z);
-            const VectorialValue& direction1 = crossTria1.normalized();
-            const VectorialValue& crossTria2 = v23.cross(v24);
-            double tria2Area = crossTria2.norm() / 2;
-            const VectorialValue& direction2 = crossTria2.normalized();
-            force1 = (magnitude / 4 * tria1Area) * direction1;
-            force2 = (magnitude / 4 * tria2Area) * direction2;
-            if (nodePosition == node_position2 || nodePosition == node_position4) {
-                forceNode = (force1 + force2);
-            } else if (nodePosition == node_position1) {
-                forceNode = 2 * force1;
-            } else if (nodePosition == node_position3) {
-                forceNode = 2 * force2;
-            }
+        const VectorialValue& v23 = v13 - v12;
+        const VectorialValue& v24 = v14 - v12;
+        if (nodePosition != node_position4) {
+            forceNode = forceNode + v12.cross(v13); // triangle G1,G2,G3
+        }
+        if (nodePosition != node_position2) {
+            forceNode = forceNode + v13.cross(v14); // triangle G1,G3,G4
+        }
+        if (nodePosition != node_position3) {
+            forceNode = forceNode + v12.cross(v14); // triangle G1,G2,G4
+        }
+        if (nodePosition != node_position1) {
+            forceNode = forceNode + v23.cross(v24); // triangle G2,G3,G4
         }
+        // half of the pressure, a third of each triangle by node, and the norm of the vectors is twice the areas
+        forceNode = forceNode.scaled(magnitude / 12);
     } else {
         const VectorialValue& crossTria = v12.cross(v13);
         double triaArea = crossTria.norm() / 2;
-- 
2.43.0


From 682e7e8cc1df277b4be43073f4eb3ca2ce3a458a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:47 +0000
Subject: [PATCH 054/117] fix: an empty line where a continuation is expected
 does not crash the tokenizer

---
 Nastran/NastranTokenizer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 22d892e..140764a 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -352,7 +352,9 @@ void NastranTokenizer::splitFixedFormat(string& line, const bool longFormat, con
 	int count = 0;
 	if (!firstLine) {
 		//todo:check that explicit continuation tokens are the same
-		++beg;
+		if (beg != tok.end()) {
+			++beg;
+		}
 		count++;
 	}
 	bool explicitContinuation = false;
-- 
2.43.0


From 3a425e9c65e97d91a19c4a0a434889c50715359d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:47 +0000
Subject: [PATCH 055/117] fix: a continuation marked in large format after a
 line with an explicit mark is read in large format

---
 Nastran/NastranTokenizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 140764a..dc6e940 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -386,7 +386,8 @@ void NastranTokenizer::splitFixedFormat(string& line, const bool longFormat, con
 		//todo:check that continuation tokens are the same
 		bool iseof = readLineSkipComment(line2, false);
 		if (!iseof) {
-			splitFixedFormat(line2, longFormat, false);
+			// the mark of the large format may appear on the continuation only
+			splitFixedFormat(line2, longFormat or (not line2.empty() and line2[0] == '*'), false);
 		} else {
 			throw vega::ParsingException("Continuation expected", this->fileName, lineNumber);
 		}
-- 
2.43.0


From 79a9f52d3010653c3083b362d94f0f10b0edcb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:55 +0000
Subject: [PATCH 056/117] fix: structural modal damping is half of it as
 reduced damping in Aster, from the interpolated function

---
 Aster/AsterWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index ee03f05..a3b32a8 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2904,7 +2904,7 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
                 break;
             }
             case (ModalDamping::DampingType::G): {
-                comm_file_ofs << "AMMOS" << analysis->getId() << " = CALC_FONCTION(COMB=_F(COEF=2.0, FONCTION=" << analysis->getId() << "))" << endl;
+                comm_file_ofs << "AMMOS" << analysis->getId() << " = CALC_FONCTION(COMB=_F(COEF=0.5, FONCTION=AMMOI" << analysis->getId() << "))" << endl;
                 destroyableConcepts.push_back("AMMOS" + to_string(analysis->getId()));
                 break;
             }
-- 
2.43.0


From 165bf6b5d5027711281bfa15132cb4688cd2acc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:55 +0000
Subject: [PATCH 057/117] fix: modes of a previous frequency response are
 reused under their name in Aster

---
 Aster/AsterWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index a3b32a8..41e1f69 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2718,7 +2718,7 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
             if (reusableAnalysis->type == Analysis::Type::LINEAR_MODAL)
                 modalResuName = "RESU" + to_string(reusableAnalysis->getId());
             else
-                modalResuName = "MOD" + to_string(reusableAnalysis->getId());
+                modalResuName = "MO" + to_string(reusableAnalysis->getId());
 		    comm_file_ofs << "# Reusing previous results: " << modalResuName << " for analysis " << *analysis << endl;
             handleWritingWarning("Reusing previous results: " + modalResuName + " for analysis " + to_str(*analysis));
 		}
-- 
2.43.0


From 39288ba4bac16675c1951b643eacd358854aea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:55 +0000
Subject: [PATCH 058/117] fix: lists of frequencies of FREQ3 and FREQ4 are used
 under the name they are defined with

---
 Aster/AsterWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 41e1f69..f563da0 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2947,7 +2947,7 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
             const auto& frequencyExcitBand = static_pointer_cast<BandRange>(frequencyExcit->getValue());
             string concept_name = list_concept_ss.str();
             string frequencyCount = to_string(frequencyExcitBand->maxsearch);
-            comm_file_ofs << "efreq" << analysis->getId() << " = np.concatenate([np.linspace(x, x+1-1/" << frequencyCount << "," << frequencyCount << ") for x in freqList.Valeurs()])" << endl;
+            comm_file_ofs << "efreq" << analysis->getId() << " = np.concatenate([np.linspace(x, x+1-1/" << frequencyCount << "," << frequencyCount << ") for x in " << freqList << "])" << endl;
             comm_file_ofs << concept_name << "= DEFI_LIST_REEL(VALE=efreq" << analysis->getId() << ")" << endl;
             destroyableConcepts.push_back(concept_name);
         }
@@ -2969,10 +2969,10 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
         }
         if (frequencyExcit->frequencyType == FrequencyExcit::FrequencyType::SPREAD) {
             comm_file_ofs << "                   LIST_FREQ  = LSPR" << setfill('0') << setw(4)
-            << frequencyExcit->getValue()->getId() << "," << endl;
+            << frequencyExcit->getId() << "," << endl;
         } else if (frequencyExcit->frequencyType == FrequencyExcit::FrequencyType::INTERPOLATE) {
             comm_file_ofs << "                   LIST_FREQ  = LSIP" << setfill('0') << setw(4)
-            << frequencyExcit->getValue()->getId() << "," << endl;
+            << frequencyExcit->getId() << "," << endl;
         } else {
             comm_file_ofs << "                   LIST_FREQ  = LST" << setfill('0') << setw(5)
             << frequencyExcit->getValue()->getId() << "," << endl;
-- 
2.43.0


From 19a36a66690b9eafa9e06a566e02af6ff9b1765e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:55 +0000
Subject: [PATCH 059/117] fix: modes above the upper bound of a search limited
 in number are filtered out in Aster

---
 Aster/AsterWriter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index f563da0..f613965 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2706,6 +2706,14 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
             if (asterModel->model.contains(ModelParameter::UPPER_CUTOFF_FREQUENCY)) {
                 highFreq = stod(asterModel->model.getParameter(ModelParameter::UPPER_CUTOFF_FREQUENCY));
             }
+            // The search of the smallest frequencies has no upper bound of its own
+            const auto& search = linearModal->getFrequencySearch();
+            if (search->frequencyType == FrequencySearch::FrequencyType::BAND) {
+                const auto& band = static_pointer_cast<BandRange>(search->getValue());
+                if (not is_equal(band->maxsearch, Globals::UNAVAILABLE_INT) and not is_equal(band->end, Globals::UNAVAILABLE_DOUBLE)) {
+                    highFreq = min(highFreq, band->end);
+                }
+            }
             comm_file_ofs << modalResuName << "=EXTR_MODE(FILTRE_MODE=_F(MODE=U" << modalResuName << ", FREQ_MIN=" << lowFreq << ", FREQ_MAX=" << highFreq << "),)" << endl;
             comm_file_ofs << "I" << modalResuName << "=RECU_TABLE(CO=" << modalResuName << ",NOM_PARA = ('FREQ','MASS_GENE','RIGI_GENE','AMOR_GENE','FACT_PARTICI_DX','FACT_PARTICI_DY','FACT_PARTICI_DZ','MASS_EFFE_DX','MASS_EFFE_DY','MASS_EFFE_DZ','MASS_EFFE_UN_DX','MASS_EFFE_UN_DY','MASS_EFFE_UN_DZ',))" << endl;
             comm_file_ofs << "IMPR_TABLE(TABLE=I" << modalResuName << ")" << endl << endl;
-- 
2.43.0


From 9a7591d53aae393f42a5b3a94c810890425de0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:55 +0000
Subject: [PATCH 060/117] fix: a norm of modes that is not supported is
 replaced by the default, as said

---
 Nastran/NastranParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index fb35c25..15cfd8c 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1552,7 +1552,7 @@ void NastranParser::parseEIGB(NastranTokenizer& tok, Model& model) {
         norm = FrequencySearch::NormType::MAX;
     else {
         handleParsingWarning("Only MASS and MAX normalizing method (NORM) supported. Default (MASS) assumed.", tok, model);
-        norm = FrequencySearch::NormType::MAX;
+        norm = FrequencySearch::NormType::MASS;
     }
     int g = tok.nextInt(true);
     if (g!=Globals::UNAVAILABLE_INT){
@@ -1601,7 +1601,7 @@ void NastranParser::parseEIGR(NastranTokenizer& tok, Model& model) {
         norm = FrequencySearch::NormType::MAX;
     else {
         handleParsingWarning("Only MASS and MAX normalizing method (NORM) supported. Default (MASS) assumed.", tok, model);
-        norm = FrequencySearch::NormType::MAX;
+        norm = FrequencySearch::NormType::MASS;
     }
     int g = tok.nextInt(true);
     if (g!=Globals::UNAVAILABLE_INT){
@@ -1657,7 +1657,7 @@ void NastranParser::parseEIGRL(NastranTokenizer& tok, Model& model) {
         norm = FrequencySearch::NormType::MAX;
     else {
         handleParsingWarning("Only MASS and MAX normalizing method (NORM) supported. Default (MASS) assumed.", tok, model);
-        norm = FrequencySearch::NormType::MAX;
+        norm = FrequencySearch::NormType::MASS;
     }
     const auto& bandRange = make_shared<BandRange>(model, lower, nd, upper);
     //bandRange.setParaX(Function::ParaName::FREQ);
-- 
2.43.0


From e578c0727651c449c38cfcc4682cdc8a19254b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:55 +0000
Subject: [PATCH 061/117] fix: structural damping and quality factors are
 converted to reduced damping in Systus

---
 Systus/SystusDat.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Systus/SystusDat.cpp b/Systus/SystusDat.cpp
index a92d28f..cfb0fb5 100644
--- a/Systus/SystusDat.cpp
+++ b/Systus/SystusDat.cpp
@@ -53,18 +53,19 @@ void SystusWriter::writeModalDamping(std::ostream& out, const shared_ptr<ModalDa
     if ((modalDampingTable->getParaX()!=Function::ParaName::FREQ) || (modalDampingTable->getParaY()!=Function::ParaName::AMOR)) {
         handleWritingWarning("Dismissing damping table with wrong units ("+to_string(static_cast<int>(modalDampingTable->getParaY()))+"/"+to_string(static_cast<int>(modalDampingTable->getParaX()))+")", "Analysis file");
     } else {
-        double firstDamping = modalDampingTable->getBeginValuesXY()->second;
+        const double tableDamping = modalDampingTable->getBeginValuesXY()->second;
+        double firstDamping = tableDamping;
         switch(modalDamping->dampingType) {
         case (ModalDamping::DampingType::CRIT): {
             // nothing to do in this case
             break;
         }
         case (ModalDamping::DampingType::G): {
-            firstDamping *= 2.0; // G = 2*CRIT
+            firstDamping *= 0.5; // G = 2*CRIT
             break;
         }
         case (ModalDamping::DampingType::Q): {
-            firstDamping = 1 / firstDamping; // Q = 1/CRIT
+            firstDamping = 0.5 / firstDamping; // Q = 1/(2*CRIT)
             break;
         }
         default: {
@@ -76,7 +77,7 @@ void SystusWriter::writeModalDamping(std::ostream& out, const shared_ptr<ModalDa
         // Systus 2017 allows to define damping for each modes, and not for frequency range. So we can only translate
         // constant dampings !
         for (auto it = modalDampingTable->getBeginValuesXY(); it != modalDampingTable->getEndValuesXY(); it++){
-            if (!is_equal(firstDamping, it->second)){
+            if (!is_equal(tableDamping, it->second)){
                 handleWritingWarning("SYSTUS modal damping must be defined by mode number and not by frequency. Constant damping is assumed.", "Analysis file");
             }
         }
-- 
2.43.0


From 1ba1498680af7cf63115aec88eed80627351b0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:13 +0000
Subject: [PATCH 062/117] fix: FREQ3 frequencies are between the modes of its
 range in Aster

---
 Aster/AsterWriter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index f613965..8246cb9 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2955,7 +2955,13 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
             const auto& frequencyExcitBand = static_pointer_cast<BandRange>(frequencyExcit->getValue());
             string concept_name = list_concept_ss.str();
             string frequencyCount = to_string(frequencyExcitBand->maxsearch);
-            comm_file_ofs << "efreq" << analysis->getId() << " = np.concatenate([np.linspace(x, x+1-1/" << frequencyCount << "," << frequencyCount << ") for x in " << freqList << "])" << endl;
+            comm_file_ofs << "import numpy as np" << endl;
+            // FREQ3: frequencies equally spaced between two consecutive modes of the range, or between a mode and a bound
+            const string bounds = "bfreq" + to_string(analysis->getId());
+            comm_file_ofs << bounds << " = [" << frequencyExcitBand->start << "] + [x for x in " << freqList << " if "
+                    << frequencyExcitBand->start << " < x < " << frequencyExcitBand->end << "] + [" << frequencyExcitBand->end << "]" << endl;
+            comm_file_ofs << "efreq" << analysis->getId() << " = np.unique(np.concatenate([np.linspace(a, b, " << frequencyCount
+                    << ") for a, b in zip(" << bounds << "[:-1], " << bounds << "[1:])])).tolist()" << endl;
             comm_file_ofs << concept_name << "= DEFI_LIST_REEL(VALE=efreq" << analysis->getId() << ")" << endl;
             destroyableConcepts.push_back(concept_name);
         }
-- 
2.43.0


From fd9f6ec4066b2034ae110f39145e1e3de23609b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:31 +0000
Subject: [PATCH 063/117] fix: Nastran output (modern dialect) writes the mode
 searches of its analyses

---
 Abstract/Analysis.h       |  3 +++
 Nastran/NastranWriter.cpp | 41 +++++++++++++++++++++++++++++++++++++++
 Nastran/NastranWriter.h   |  1 +
 3 files changed, 45 insertions(+)

diff --git a/Abstract/Analysis.h b/Abstract/Analysis.h
index 42e5408..bc9b169 100644
--- a/Abstract/Analysis.h
+++ b/Abstract/Analysis.h
@@ -217,6 +217,9 @@ public:
     LinearModal(Model&, const Reference<ObjectiveSet>&, const std::string original_label = "", const int original_id = NO_ORIGINAL_ID, const Type type = Type::LINEAR_MODAL);
     //LinearModal(Model&, const int frequency_band_original_id, const std::string original_label = "", const int original_id = NO_ORIGINAL_ID, const Type type = Type::LINEAR_MODAL);
     std::shared_ptr<FrequencySearch> getFrequencySearch() const noexcept;
+    int getFrequencySearchSetId() const noexcept {
+        return frequencySearchRef.original_id;
+    }
     bool use_power_iteration = false;
     bool validate() const override;
     bool isLinear() const noexcept override {
diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index a7a9f4f..afd519c 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -267,6 +267,43 @@ void NastranWriter::writeSOL(const Model& model, ofstream& out) const
 	firstAnalysis->markAsWritten();
 }
 
+void NastranWriter::writeFrequencySearches(const Model& model, ofstream& out) const
+		{
+	set<int> writtenIds;
+	for (const auto& analysis : model.analyses) {
+		if (analysis->type != Analysis::Type::LINEAR_MODAL) {
+			continue;
+		}
+		const auto& linearModal = static_pointer_cast<LinearModal>(analysis);
+		const auto& frequencySearch = linearModal->getFrequencySearch();
+		if (not writtenIds.insert(linearModal->getFrequencySearchSetId()).second) {
+			continue;
+		}
+		if (frequencySearch->frequencyType != FrequencySearch::FrequencyType::BAND) {
+			handleWritingError("Only frequency bands can be written in Nastran");
+		}
+		const auto& band = static_pointer_cast<BandRange>(frequencySearch->getValue());
+		Line eigrl("EIGRL");
+		eigrl.add(linearModal->getFrequencySearchSetId());
+		for (const double bound : {band->start, band->end}) {
+			if (is_equal(bound, Globals::UNAVAILABLE_DOUBLE)) {
+				eigrl.add();
+			} else {
+				eigrl.add(bound);
+			}
+		}
+		if (is_equal(band->maxsearch, Globals::UNAVAILABLE_INT)) {
+			eigrl.add();
+		} else {
+			eigrl.add(band->maxsearch);
+		}
+		eigrl.add().add().add().add(frequencySearch->norm == FrequencySearch::NormType::MASS ? "MASS" : "MAX");
+		out << eigrl;
+		band->markAsWritten();
+		frequencySearch->markAsWritten();
+	}
+}
+
 void NastranWriter::writeCells(const Model& model, ofstream& out) const
 		{
 	for (const auto& elementSet : model.elementSets) {
@@ -1114,6 +1151,9 @@ string NastranWriter::writeModel(Model& model,
 			string typeName = constraintSet->stringByType.find(constraintSet->type)->second;
 			out << "  " << typeName << "=" << constraintSet->bestId() << endl;
 		}
+		if (analysis->type == Analysis::Type::LINEAR_MODAL and not isCosmic()) {
+			out << "  METHOD=" << static_pointer_cast<LinearModal>(analysis)->getFrequencySearchSetId() << endl;
+		}
 		for (const auto& objective : analysis->getObjectives()) {
             switch (objective->type) {
             case Objective::Type::NODAL_DISPLACEMENT_OUTPUT: {
@@ -1151,6 +1191,7 @@ string NastranWriter::writeModel(Model& model,
         out << "PARAM,AUTOSPC,1" << endl;
 	} else {
         out << "PARAM,PRGPST,NO" << endl;
+        writeFrequencySearches(model, out);
     }
 
 	for (const auto& coordinateSystemEntry : model.mesh.coordinateSystemStorage.coordinateSystemByRef) {
diff --git a/Nastran/NastranWriter.h b/Nastran/NastranWriter.h
index 30d3cbc..3f3b995 100644
--- a/Nastran/NastranWriter.h
+++ b/Nastran/NastranWriter.h
@@ -65,6 +65,7 @@ private:
 	    return dialect == Dialect::COSMIC95;
 	}
 	void writeSOL(const Model& model, std::ofstream& out) const;
+	void writeFrequencySearches(const vega::Model& model, std::ofstream& out) const;
 	void writeCells(const Model& model, std::ofstream& out) const;
 	void writeNodes(const Model& model, std::ofstream& out) const;
 	void writeMaterials(const Model& model, std::ofstream& out) const;
-- 
2.43.0


From 006c5d6ac3d301b57393bb4c04da890d48bee190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:43 +0000
Subject: [PATCH 064/117] fix: every coefficient of a SUBSEQ is taken, for the
 subcase it is given for

---
 Nastran/NastranParser.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 15cfd8c..218e420 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -995,13 +995,28 @@ void NastranParser::addCombinationAnalysis(NastranTokenizer& tok, Model& model,
 
     // A SUBSEQ command must follow this command.
     const auto& subseq = context.find("SUBSEQ");
-    vector<string> coefStrings(model.analyses.size());
-    boost::split(coefStrings,subseq->second,boost::is_any_of(","));
+    if (subseq == context.end()) {
+        handleParsingError("SUBCOM without SUBSEQ", tok, model);
+        return;
+    }
+    vector<string> coefStrings;
+    string coefs = boost::algorithm::trim_copy_if(subseq->second, boost::is_any_of(", _="));
+    boost::split(coefStrings, coefs, boost::is_any_of(", _"), boost::token_compress_on);
+    // The coefficients are those of the subcases that immediately precede
+    vector<shared_ptr<Analysis>> subcases;
+    for (const auto& analysis : model.analyses) {
+        if (analysis->type != Analysis::Type::COMBINATION) {
+            subcases.push_back(analysis);
+        }
+    }
+    if (coefs.empty() or coefStrings.size() > subcases.size()) {
+        handleParsingError("SUBSEQ has more coefficients than there are subcases before it, or none", tok, model);
+        return;
+    }
+    const size_t first = subcases.size() - coefStrings.size();
     for (size_t i = 0; i < coefStrings.size(); i++) {
-        auto it = model.analyses.begin();
-        advance(it, i);
-        const auto& analysis = *it;
-        double coef = stod(coefStrings[i++]);
+        const auto& analysis = subcases[first + i];
+        double coef = stod(coefStrings[i]);
         if (model.configuration.logLevel >= LogLevel::TRACE) {
             cout << "Assigning analysis " << *analysis << " to combination " << *combination << " with coefficient " << to_string(coef) << endl;
         }
-- 
2.43.0


From 4fd32965dac11a1b4aa1415ccc6e6bad2fc4a36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:43 +0000
Subject: [PATCH 065/117] fix: Nastran output writes the combinations of
 subcases as such

---
 Nastran/NastranWriter.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index afd519c..b4709ba 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -1139,6 +1139,26 @@ string NastranWriter::writeModel(Model& model,
         objective->markAsWritten();
     }
 	for (const auto& analysis : model.analyses) {
+		if (analysis->type == Analysis::Type::COMBINATION) {
+			const auto& combination = static_pointer_cast<Combination>(analysis);
+			out << "SUBCOM " << analysis->bestId() << endl;
+			out << "  SUBSEQ=";
+			bool firstCoef = true;
+			for (const auto& previous : model.analyses) {
+				if (previous == analysis) {
+					break;
+				}
+				if (previous->type == Analysis::Type::COMBINATION) {
+					continue;
+				}
+				const auto& coef = combination->coefByAnalysis.find(previous->getReference());
+				out << (firstCoef ? "" : ",") << (coef == combination->coefByAnalysis.end() ? 0. : coef->second);
+				firstCoef = false;
+			}
+			out << endl;
+			analysis->markAsWritten();
+			continue;
+		}
 		out << "SUBCASE " << analysis->bestId() << endl;
 		for (const auto& loadSet : analysis->getLoadSets()) {
 			string typeName = loadSet->stringByType.find(loadSet->type)->second;
-- 
2.43.0


From b81f1445cb556d58731964c9dc087200b5f98ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:27 +0000
Subject: [PATCH 066/117] fix: requests of forces of constraints in the case
 control select no constraint set

---
 Nastran/NastranParser.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 218e420..e75fe0a 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -847,7 +847,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
             key = options[0];
             options.erase(options.begin());
         }
-        if (!key.compare(0, 3, "SPC")) {
+        if (key == "SPC") {
             Reference<ConstraintSet> constraintReference(ConstraintSet::Type::SPC, id);
             analysis->add(constraintReference);
             if (!model.find(constraintReference)) { // constraintSet is added in the model if not found in the model
@@ -855,7 +855,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
                 constraintSet->setInputContext(tok.getInputContext());
                 model.add(constraintSet);
             }
-        } else if (!key.compare(0, 3, "MPC")) {
+        } else if (key == "MPC") {
             Reference<ConstraintSet> constraintReference(ConstraintSet::Type::MPC, id);
             analysis->add(constraintReference);
             if (!model.find(constraintReference)) { // constraintSet is added in the model if not found in the model
@@ -863,7 +863,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
                 constraintSet->setInputContext(tok.getInputContext());
                 model.add(constraintSet);
             }
-        } else if (!key.compare(0, 7, "LOADSET")) {
+        } else if (key == "LOADSET") {
             Reference<LoadSet> loadsetReference(LoadSet::Type::LOADSET, id);
             analysis->add(loadsetReference);
             if (!model.find(loadsetReference)) { // loadSet is added in the model if not found in the model
@@ -871,7 +871,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
                 loadSet->setInputContext(tok.getInputContext());
                 model.add(loadSet);
             }
-        } else if (!key.compare(0, 4, "LOAD")) {
+        } else if (key == "LOAD") {
             Reference<LoadSet> loadsetReference(LoadSet::Type::LOAD, id);
             analysis->add(loadsetReference);
             if (!model.find(loadsetReference)) { // loadSet is added in the model if not found in the model
@@ -879,7 +879,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
                 loadSet->setInputContext(tok.getInputContext());
                 model.add(loadSet);
             }
-        } else if (!key.compare(0, 5, "DLOAD")) {
+        } else if (key == "DLOAD") {
             Reference<LoadSet> loadsetReference(LoadSet::Type::DLOAD, id);
             analysis->add(loadsetReference);
             if (!model.find(loadsetReference)) { // loadSet is added in the model if not found in the model
-- 
2.43.0


From ea4bf6ee22ff4b04baa78b3f5bdc3dff0a2348c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:27 +0000
Subject: [PATCH 067/117] fix: the method of a complex eigenvalue search is not
 taken for the one of the real search

---
 Nastran/NastranParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index e75fe0a..f60ce6c 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -713,7 +713,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
         int frequency_search_sid = 0;
         int statsub_buckling = 0;
         for (const auto& paramEntry : context) {
-            if (paramEntry.first.find("METHOD") != string::npos) {
+            if (paramEntry.first.find("METHOD") == 0) {
                 frequency_search_sid = stoi(paramEntry.second);
             }
             if (paramEntry.first.find("STATSUB") != string::npos and
@@ -737,7 +737,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
         map<string, string>::iterator it;
         int frequency_search_sid = 0;
         for (it = context.begin(); it != context.end(); it++) {
-            if (it->first.find("METHOD") != string::npos) {
+            if (it->first.find("METHOD") == 0) {
                 frequency_search_sid = stoi(it->second);
                 break;
             }
@@ -761,7 +761,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
         map<string, string>::iterator it;
         int frequency_search_sid = 0;
         for (it = context.begin(); it != context.end(); it++) {
-            if (it->first.find("METHOD") != string::npos) {
+            if (it->first.find("METHOD") == 0) {
                 frequency_search_sid = stoi(it->second);
                 break;
             }
-- 
2.43.0


From d29dd1898b25f25b4a7f716d1519ba66fa51ac92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:56 +0000
Subject: [PATCH 068/117] fix: the amplitude table of a modal frequency
 response is written with the default dynamic method of Systus

---
 Systus/SystusWriter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 8208c89..8c0a914 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -1903,7 +1903,7 @@ void SystusWriter::fillTables(const SystusModel& systusModel, const int idSubcas
 
 
     // Build tables for frequency-dependent amplitude on Modal Dynamic Analysis
-    if (systusModel.configuration.systusDynamicMethod=="modal") {
+    if (systusModel.configuration.systusDynamicMethod=="modal" or systusModel.configuration.systusDynamicMethod=="auto") {
         const auto& analysisId = systusSubcases[idSubcase];
 
         for (unsigned i = 0 ; i < analysisId.size(); i++) {
@@ -1913,6 +1913,9 @@ void SystusWriter::fillTables(const SystusModel& systusModel, const int idSubcas
                 handleWritingWarning("Wrong analysis number: analysis dismissed", "Table");
                 break;
             }
+            if (analysis->type != Analysis::Type::LINEAR_DYNA_MODAL_FREQ) {
+                continue;
+            }
 
             for (const auto& loadset : analysis->getLoadSets()) {
                 const int idLoadCase = localLoadingIdByLoadsetIdByAnalysisId[analysis->getId()][loadset->getId()];
-- 
2.43.0


From eca66382267479d64836c1439df03580f7be1ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:06 +0000
Subject: [PATCH 069/117] fix: the amplitude of a frequency response is applied
 by the direct dynamic method of Systus

---
 Systus/SystusWriter.cpp | 8 ++++----
 Systus/SystusWriter.h   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 8c0a914..6407ad1 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -1059,11 +1059,11 @@ void SystusWriter::fillLoads(const SystusModel& systusModel, const int idSubcase
     }
 }
 
-void SystusWriter::writeNodalForceVector(const SystusModel& systusModel, const shared_ptr<NodalForce>& nodalForce, const int idLoadCase, systus_ascid_t& vectorId) {
+void SystusWriter::writeNodalForceVector(const SystusModel& systusModel, const shared_ptr<NodalForce>& nodalForce, const int idLoadCase, systus_ascid_t& vectorId, const double factor) {
 
     for(const pos_t nodePosition : nodalForce->nodePositions()) {
-        const auto& force = nodalForce->getForceInGlobalCS(nodePosition);
-        const auto& moment = nodalForce->getMomentInGlobalCS(nodePosition);
+        const auto& force = nodalForce->getForceInGlobalCS(nodePosition).scaled(factor);
+        const auto& moment = nodalForce->getMomentInGlobalCS(nodePosition).scaled(factor);
         const int nodeId = systusModel.model.mesh.findNodeId(nodePosition);
 
         vector<double> vec;
@@ -1372,7 +1372,7 @@ void SystusWriter::fillLoadingsVectors(const SystusModel& systusModel, const int
                         }
 
                         const auto& nodalForce = static_pointer_cast<NodalForce>(dLoading);
-                        writeNodalForceVector(systusModel, nodalForce, idLoadCase, vectorId);
+                        writeNodalForceVector(systusModel, nodalForce, idLoadCase, vectorId, amplitude);
                         nodalForce->markAsWritten();
                     }
                     dEL->markAsWritten();
diff --git a/Systus/SystusWriter.h b/Systus/SystusWriter.h
index 85c516a..ec86b61 100644
--- a/Systus/SystusWriter.h
+++ b/Systus/SystusWriter.h
@@ -420,7 +420,7 @@ private:
     void writeNodalDisplacementAssertion(Assertion& assertion, std::ostream& out);
     void writeNodalComplexDisplacementAssertion(Assertion& assertion, std::ostream& out);
     void writeFrequencyAssertion(Assertion& assertion, std::ostream& out);
-    void writeNodalForceVector(const SystusModel& systusModel, const std::shared_ptr<NodalForce>& nodalForce, const int idLoadCase, systus_ascid_t& vectorId);
+    void writeNodalForceVector(const SystusModel& systusModel, const std::shared_ptr<NodalForce>& nodalForce, const int idLoadCase, systus_ascid_t& vectorId, const double factor = 1.);
 
     std::string toString() const override {
         return "SystusWriter";
-- 
2.43.0


From 4a40cd39f489923ce878f01770ded183187a852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:06 +0000
Subject: [PATCH 070/117] fix: the names of analyses of the ANALYSIS command
 are known

---
 Nastran/NastranParser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index f60ce6c..e48db61 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -170,20 +170,26 @@ const std::unordered_map<std::string, NastranParser::NastranAnalysis> NastranPar
         { "SEMODES", NastranAnalysis::MODES },
         { "5", NastranAnalysis::BUCKL },
         { "105", NastranAnalysis::BUCKL },
+        { "BUCK", NastranAnalysis::BUCKL },
         { "BUCKL", NastranAnalysis::BUCKL },
         { "SEBUCKL", NastranAnalysis::BUCKL },
         { "6", NastranAnalysis::NLSTATIC },
         { "106", NastranAnalysis::NLSTATIC },
         { "NLSTATIC", NastranAnalysis::NLSTATIC },
         { "108", NastranAnalysis::DFREQ },
+        { "DFREQ", NastranAnalysis::DFREQ },
         { "SEDFREQ", NastranAnalysis::DFREQ },
         { "109", NastranAnalysis::DTRAN },
+        { "DTRAN", NastranAnalysis::DTRAN },
         { "SEDTRAN", NastranAnalysis::DTRAN },
         { "110", NastranAnalysis::MCEIG },
+        { "MCEIG", NastranAnalysis::MCEIG },
         { "SEMCEIG", NastranAnalysis::MCEIG },
         { "111", NastranAnalysis::MFREQ },
+        { "MFREQ", NastranAnalysis::MFREQ },
         { "SEMFREQ", NastranAnalysis::MFREQ },
         { "112", NastranAnalysis::MTRAN },
+        { "MTRAN", NastranAnalysis::MTRAN },
         { "SEMTRAN", NastranAnalysis::MTRAN },
         { "200", NastranAnalysis::DESOPT },
         { "DESOPT", NastranAnalysis::DESOPT },
-- 
2.43.0


From 6b4b2b668ea861f2aa2e53fc434b42b8e83f3665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:24 +0000
Subject: [PATCH 071/117] fix: a buckling analysis without STATSUB starts from
 a static analysis, not from another buckling

---
 Abstract/Analysis.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Abstract/Analysis.cpp b/Abstract/Analysis.cpp
index dc1d68c..9c7746e 100644
--- a/Abstract/Analysis.cpp
+++ b/Abstract/Analysis.cpp
@@ -660,6 +660,12 @@ shared_ptr<Analysis> LinearBuckling::getStaticSubAnalysis() const noexcept {
     if (staticSubAnalysisRef != nullptr) {
         return model.find(*staticSubAnalysisRef);
     } else {
+        // The displacements of other buckling or modal analyses are not a static state
+        for (auto analysis = previousAnalysis; analysis != nullptr; analysis = analysis->previousAnalysis) {
+            if (analysis->type == Type::LINEAR_MECA_STAT or analysis->type == Type::NONLINEAR_MECA_STAT) {
+                return analysis;
+            }
+        }
         return previousAnalysis;
     }
 }
-- 
2.43.0


From 2c2f6ef37fac279aaaf795ed759f0d54b17e2345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:24 +0000
Subject: [PATCH 072/117] fix: FREQUENCY of a subcase or above it is overridden
 by FREQ, and conversely

---
 Nastran/NastranParser.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index e48db61..96fc5ac 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -195,6 +195,11 @@ const std::unordered_map<std::string, NastranParser::NastranAnalysis> NastranPar
         { "DESOPT", NastranAnalysis::DESOPT },
 };
 
+// FREQ and FREQUENCY are the same command: the last one overrides the previous one.
+static string contextKey(const string& keyword) {
+    return keyword == "FREQUENCY" ? "FREQ" : keyword;
+}
+
 string NastranParser::parseSubcase(NastranTokenizer& tok, Model& model,
         map<string, string> context) {
     const auto& inputContext = tok.getInputContext();
@@ -223,7 +228,7 @@ string NastranParser::parseSubcase(NastranTokenizer& tok, Model& model,
             if (ACCEPTED_CASE_CONTROL_COMMANDS.find(nextKeywordWithoutOptions) == ACCEPTED_CASE_CONTROL_COMMANDS.end()) {
                 handleParsingWarning("Unknown case control command: " + nextKeywordWithoutOptions + " in subcase " + to_string(subCaseId), tok, model);
             }
-            context[nextKeyword] = line;
+            context[contextKey(nextKeyword)] = line;
             if (model.configuration.logLevel >= LogLevel::TRACE) {
                 cout << "Put into context :" << nextKeyword << "=" << line << endl;
             }
@@ -495,14 +500,14 @@ void NastranParser::parseExecutiveSection(NastranTokenizer& tok, Model& model,
                         if (parts.size() >= 2) {
                             handleParsingError("multiple spaces in parameter not yet implemented", tok, model);
                         }
-                        context[keyword] = parvalparts[1];
+                        context[contextKey(keyword)] = parvalparts[1];
                     } else {
                         trim(parts[0]);boost::to_upper(parts[0]);
                         string partWithoutOptions = parts[0].substr(0, parts[0].find('('));
                         if (ACCEPTED_CASE_CONTROL_COMMANDS.find(partWithoutOptions) == ACCEPTED_CASE_CONTROL_COMMANDS.end()) {
                             handleParsingWarning("Unknown case control command: " + partWithoutOptions + " in executive section", tok, model);
                         }
-                        context[parts[0]] = parts[1];
+                        context[contextKey(parts[0])] = parts[1];
                     }
                 }
             }
-- 
2.43.0


From 7852230167a95f7afbaadb912b9bb1400fb2c238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:16 +0000
Subject: [PATCH 073/117] fix: combined and dynamic loads get the freedoms they
 act on

---
 Abstract/Analysis.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/Abstract/Analysis.cpp b/Abstract/Analysis.cpp
index 9c7746e..5d49276 100644
--- a/Abstract/Analysis.cpp
+++ b/Abstract/Analysis.cpp
@@ -22,6 +22,7 @@
  *      Author: devel
  */
 
+#include <functional>
 #include "Analysis.h"
 #include "Model.h"
 #include "BoundaryCondition.h"
@@ -146,15 +147,26 @@ vector<shared_ptr<BoundaryCondition>> Analysis::getBoundaryConditions() const no
             }
         }
     }
-    for (const auto& loadSet : getLoadSets()) {
-        if (loadSet == nullptr) {
-            continue;
+    // the loadings of combined loadSets and of excitations act on the analysis too
+    set<int> knownLoadSetIds;
+    const function<void(const shared_ptr<LoadSet>&)> addLoadings = [&](const shared_ptr<LoadSet>& loadSet) {
+        if (loadSet == nullptr or not knownLoadSetIds.insert(loadSet->getId()).second) {
+            return;
         }
         for (const auto& loading : loadSet->getLoadings()) {
             if (loading != nullptr) {
                 result.push_back(loading);
+                if (loading->type == Loading::Type::DYNAMIC_EXCITATION) {
+                    addLoadings(static_pointer_cast<DynamicExcitation>(loading)->getLoadSet());
+                }
             }
         }
+        for (const auto& embedded : loadSet->embedded_loadsets) {
+            addLoadings(model.find(embedded.first));
+        }
+    };
+    for (const auto& loadSet : getLoadSets()) {
+        addLoadings(loadSet);
     }
     return result;
 }
-- 
2.43.0


From 7da058f75b41ecb46af96669ed4ed346f801bdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:16 +0000
Subject: [PATCH 074/117] fix: a discrete element without rotations gives its
 nodes no rotation

---
 Abstract/Element.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index 0541dc6..29c8db3 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -453,7 +453,7 @@ DOFS Discrete::getDOFSForNode(const pos_t nodePosition) const {
 	UNUSEDV(nodePosition);
 	// LD : meaning here is that the node has a variable for the dof, not that it has stiffness
 	// over it
-	return DOFS::ALL_DOFS;
+	return hasRotations() ? DOFS::ALL_DOFS : DOFS::TRANSLATIONS;
 }
 
 DiscretePoint::DiscretePoint(Model& model, MatrixType matrixType,
-- 
2.43.0


From 4d46316cd547cfe1313558e57d0e1a812be6a7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:16 +0000
Subject: [PATCH 075/117] fix: Systus counts of elements and masses count what
 is written

---
 Systus/SystusDat.cpp    |  5 ++---
 Systus/SystusWriter.cpp | 22 +++++++++++++++-------
 Systus/SystusWriter.h   |  3 ++-
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/Systus/SystusDat.cpp b/Systus/SystusDat.cpp
index cfb0fb5..2c7e0bb 100644
--- a/Systus/SystusDat.cpp
+++ b/Systus/SystusDat.cpp
@@ -258,8 +258,7 @@ int SystusWriter::writeDynaModalAnalysis(ostream& out, const SystusModel& systus
 
     // Harmonic part
     const size_t nbNodes = systusModel.model.mesh.countNodes();
-    const size_t nbElements = systusModel.model.mesh.countCells();
-    out << "# MODAL DYNAMIC ANALYSIS"<<endl;
+        out << "# MODAL DYNAMIC ANALYSIS"<<endl;
     out << "DYNAMIC" << endl;
     out << "# IF THERE IS NNN RIGID BODY MODES, ADD 'RIGID NNN' TO THE NEXT LINE."<<endl;
     out << "HARMONIC RESPONSE MODAL "<< nModes<< " FORCE "<< nbLoadcases <<endl;
@@ -276,7 +275,7 @@ int SystusWriter::writeDynaModalAnalysis(ostream& out, const SystusModel& systus
     out << "VELOCITY 1 TO " << nbNodes << " INTERNAL" << endl;
     out << "ACCELERATION 1 TO " << nbNodes << " INTERNAL" << endl;
     out << "REACTION 1 TO " << nbNodes << " INTERNAL" << endl;
-    out << "FORCE 1 TO " << nbElements << " INTERNAL" << endl;
+    out << "FORCE 1 TO " << nbWrittenElements << " INTERNAL" << endl;
     out << "RETURN" << endl;
     out << endl;
 
diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 6407ad1..b245460 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -2491,13 +2491,19 @@ void SystusWriter::translate(const SystusModel &systusModel, const int idSubcase
 
 void SystusWriter::writeAsc(const SystusModel &systusModel, const int idSubcase, ostream& out) {
 
+    // Some cells are not elements of the subcase: they are counted before the header announces them.
+    ostringstream elements;
+    nbWrittenElements = writeElements(systusModel, idSubcase, elements);
+
     writeHeader(systusModel, out);
 
     writeInformations(systusModel, idSubcase, out);
 
     writeNodes(systusModel, out);
 
-    writeElements(systusModel, idSubcase, out);
+    out << "BEGIN_ELEMENTS " << nbWrittenElements << endl;
+    out << elements.str();
+    out << "END_ELEMENTS" << endl;
 
     writeGroups(systusModel, out);
 
@@ -2548,7 +2554,7 @@ void SystusWriter::writeHeader(const SystusModel& systusModel, ostream& out) {
     out << "1VSD 0 121126 133214 121126 133214 " << endl;
     out << systusModel.getName().substr(0, 20) << endl; //should be less than 24
     out << " 100000 " << systusOption << " " << systusModel.model.mesh.countNodes() << " ";
-    out << systusModel.model.mesh.countCells() << " ";
+    out << nbWrittenElements << " ";
     int kppr = static_cast<int>(localLoadingListName.size()) ; // KPPR: Number of loads
     out << kppr << " ";
 
@@ -2599,7 +2605,7 @@ void SystusWriter::writeInformations(const SystusModel &systusModel, int idSubca
     int lcode[40]={0};
     lcode[0] = static_cast<int>(localLoadingListName.size()); // KPPR: Number of loads
     lcode[1] = static_cast<int>(systusModel.model.mesh.countNodes());     // NMAX: Number of nodes
-    lcode[3] = static_cast<int>(systusModel.model.mesh.countCells());     // MMAXI: Number of elements
+    lcode[3] = static_cast<int>(nbWrittenElements);     // MMAXI: Number of elements
     lcode[5] = 0;                                         // JMAT: Number of material couples, will be computed in "nbmaterials" in the writeMaterials method
     lcode[6] = static_cast<int>(lists.size());            // JREP: Number of lists
     lcode[7] = static_cast<int>(vectors.size());          // JVEC: Number of vectors.
@@ -2735,9 +2741,9 @@ void SystusWriter::writeElementLocalReferentiel(const SystusModel& systusModel,
 
 
 
-void SystusWriter::writeElements(const SystusModel& systusModel, const int idSubcase, ostream& out) {
+size_t SystusWriter::writeElements(const SystusModel& systusModel, const int idSubcase, ostream& out) {
     const Mesh& mesh = systusModel.model.mesh;
-    out << "BEGIN_ELEMENTS " << mesh.countCells() << endl;
+    size_t nbWritten = 0;
     for (const auto& elementSet : systusModel.model.elementSets) {
 
         if (systusModel.model.configuration.logLevel >= LogLevel::TRACE){
@@ -2904,10 +2910,11 @@ void SystusWriter::writeElements(const SystusModel& systusModel, const int idSub
                 out << " " << node;
             }
             out << endl;
+            nbWritten++;
         }
     }
 
-    out << "END_ELEMENTS" << endl;
+    return nbWritten;
 }
 
 // TODO: Add an option to only write the User groups, and not all vega-created groups.
@@ -3045,7 +3052,8 @@ void SystusWriter::writeMasses(const SystusModel &systusModel, ostream& out) {
     // TODO : attention, la doc parle de dynamique. Prise en compte dans le poids en statique ???
     const auto& masses = systusModel.model.elementSets.filter(
             ElementSet::Type::NODAL_MASS);
-    out << "BEGIN_MASSES " << masses.size() << endl;
+    const auto& nbMasses = count_if(masses.begin(), masses.end(), [](const auto& mass) {return mass->effective();});
+    out << "BEGIN_MASSES " << nbMasses << endl;
     if (not masses.empty()) {
         for (const auto& mass : masses) {
             if (not mass->effective()) {
diff --git a/Systus/SystusWriter.h b/Systus/SystusWriter.h
index ec86b61..2605eaf 100644
--- a/Systus/SystusWriter.h
+++ b/Systus/SystusWriter.h
@@ -95,6 +95,7 @@ private:
     char dofCode;
     DOFS availableDOFS;
     int  nbDOFS;
+    size_t nbWrittenElements = 0; // elements of the current subcase
     double maxYoungModulus = Globals::UNAVAILABLE_DOUBLE;
     static int auto_part_id;                 /**< Next available number for Systus Part ID **/
     static const int DampingAccessId;        /**< Access Id for the Damping Matrices file (Element X9XX type 0)**/
@@ -384,7 +385,7 @@ private:
      *  Depending of the type of element, some angles may be dismissed.
      **/
     void writeElementLocalReferentiel(const SystusModel& systusModel, const int dim, const int celltype, const std::vector<int> nodes, const pos_t cpos, std::ostream& out);
-    void writeElements(const SystusModel&, const int idSubcase, std::ostream&);
+    size_t writeElements(const SystusModel&, const int idSubcase, std::ostream&);
     /**
      * Write the Cells and Nodes groups in ASC format.
      *
-- 
2.43.0


From b341f98956a389d88ee45d2984388f9a24077dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:09 +0000
Subject: [PATCH 076/117] fix: a discrete element without rotations gives its
 nodes no rotation (2)

---
 Abstract/Element.cpp | 5 ++++-
 Systus/SystusDat.cpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index 29c8db3..ca42624 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -453,7 +453,10 @@ DOFS Discrete::getDOFSForNode(const pos_t nodePosition) const {
 	UNUSEDV(nodePosition);
 	// LD : meaning here is that the node has a variable for the dof, not that it has stiffness
 	// over it
-	return hasRotations() ? DOFS::ALL_DOFS : DOFS::TRANSLATIONS;
+	if (hasTranslations() and not hasRotations()) {
+	    return DOFS::TRANSLATIONS;
+	}
+	return DOFS::ALL_DOFS;
 }
 
 DiscretePoint::DiscretePoint(Model& model, MatrixType matrixType,
diff --git a/Systus/SystusDat.cpp b/Systus/SystusDat.cpp
index 2c7e0bb..35c5c4e 100644
--- a/Systus/SystusDat.cpp
+++ b/Systus/SystusDat.cpp
@@ -258,7 +258,7 @@ int SystusWriter::writeDynaModalAnalysis(ostream& out, const SystusModel& systus
 
     // Harmonic part
     const size_t nbNodes = systusModel.model.mesh.countNodes();
-        out << "# MODAL DYNAMIC ANALYSIS"<<endl;
+    out << "# MODAL DYNAMIC ANALYSIS"<<endl;
     out << "DYNAMIC" << endl;
     out << "# IF THERE IS NNN RIGID BODY MODES, ADD 'RIGID NNN' TO THE NEXT LINE."<<endl;
     out << "HARMONIC RESPONSE MODAL "<< nModes<< " FORCE "<< nbLoadcases <<endl;
-- 
2.43.0


From 35f380c420b17b5278be5816b36c03cf0f4a3e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:32 +0000
Subject: [PATCH 077/117] fix: a scalar spring acts on its freedoms only
 (Code_Aster)

---
 Abstract/ConfigurationParameters.cpp |   1 +
 Abstract/Element.cpp                 | 155 +++++++++------------------
 Abstract/Element.h                   |   5 +-
 Abstract/Model.cpp                   |   8 +-
 4 files changed, 56 insertions(+), 113 deletions(-)

diff --git a/Abstract/ConfigurationParameters.cpp b/Abstract/ConfigurationParameters.cpp
index 9237480..ccea1a2 100644
--- a/Abstract/ConfigurationParameters.cpp
+++ b/Abstract/ConfigurationParameters.cpp
@@ -62,6 +62,7 @@ ModelConfiguration ConfigurationParameters::getModelConfiguration() const {
         configuration.changeParametricForceLineToAbsolute = true;
         configuration.alwaysUseGroupsForCells = true;
         configuration.splitElementsByCellOffsets = true;
+        configuration.splitElementsByDOFS = true;
         configuration.alwaysUseOrthotropicMaterialsInComposites = true;
     } else if (this->outputSolver.getSolverName() == SolverName::SYSTUS) {
         configuration.createSkin = true;
diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index ca42624..289ba77 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -1303,127 +1303,70 @@ size_t ScalarSpring::getNbDOFSSpring() const{
 }
 
 bool ScalarSpring::hasTranslations() const {
-	for (const DOF dof1 : DOFS::TRANSLATIONS) {
-		for (const DOF dof2 : DOFS::TRANSLATIONS) {
-            auto codeIter = this->cellpositionByDOFS.find({dof1, dof2});
-            if (codeIter != this->cellpositionByDOFS.end()) {
-				return true;
-            }
-		}
-	}
-	return false;
+    for (const auto& kv : this->cellpositionByDOFS) {
+        if (DOFS::TRANSLATIONS.contains(kv.first.first) or DOFS::TRANSLATIONS.contains(kv.first.second)) {
+            return true;
+        }
+    }
+    return false;
 }
 
 bool ScalarSpring::hasRotations() const {
-	for (const DOF dof1 : DOFS::ROTATIONS) {
-		for (const DOF dof2 : DOFS::ROTATIONS) {
-            auto codeIter = this->cellpositionByDOFS.find({dof1, dof2});
-            if (codeIter != this->cellpositionByDOFS.end()) {
-				return true;
-            }
-		}
-	}
-	return false;
-}
-
-vector<double> ScalarSpring::asStiffnessVector(bool addRotationsIfNotPresent) const {
-	vector<double> result;
-	char ncomp = (addRotationsIfNotPresent || hasRotations()) ? 6 : 3;
-
-    if (isDiagonal()) {
-        result.insert(result.end(), ncomp, stiffness);
-    } else if (isSymmetric()) {
-        int max_row_element_index = 0;
-        for (int colindex = 0; colindex < 2; ++colindex) {
-            for (char coldof = 0; coldof < ncomp; coldof++) {
-                DOF colcode = DOF::findByPosition(coldof);
-                max_row_element_index++;
-                int row_element_index = 0;
-                for (int rowindex = 0; rowindex < 2; ++rowindex) {
-                    for (char rowdof = 0; rowdof < ncomp; rowdof++) {
-                        row_element_index++;
-                        if (row_element_index > max_row_element_index) {
-                            break;
-                        }
-                        DOF rowcode = DOF::findByPosition(rowdof);
-                        auto codeIter = this->cellpositionByDOFS.find({rowcode, colcode});
-                        if (codeIter != this->cellpositionByDOFS.end() and colindex == 1 and row_element_index <= 2) {
-                            result.push_back(stiffness);
-                        } else {
-                            result.push_back(0.0);
-                        }
-                    }
-                }
-            }
+    for (const auto& kv : this->cellpositionByDOFS) {
+        if (DOFS::ROTATIONS.contains(kv.first.first) or DOFS::ROTATIONS.contains(kv.first.second)) {
+            return true;
         }
-    } else {
-        throw logic_error("not yet implemented");
     }
-	return result;
+    return false;
 }
 
-vector<double> ScalarSpring::asDampingVector(bool addRotationsIfNotPresent) const {
-	vector<double> result;
-	char ncomp = (addRotationsIfNotPresent || hasRotations()) ? 6 : 3;
-    if (isDiagonal()) {
-        result.insert(result.end(), ncomp, damping);
-    } else if (isSymmetric()) {
-        int max_row_element_index = 0;
-        for (int colindex = 0; colindex < 2; ++colindex) {
-            for (char coldof = 0; coldof < ncomp; coldof++) {
-                DOF colcode = DOF::findByPosition(coldof);
-                max_row_element_index++;
-                int row_element_index = 0;
-                for (int rowindex = 0; rowindex < 2; ++rowindex) {
-                    for (char rowdof = 0; rowdof < ncomp; rowdof++) {
-                        row_element_index++;
-                        if (row_element_index > max_row_element_index) {
-                            break;
-                        }
-                        DOF rowcode = DOF::findByPosition(rowdof);
-                        auto codeIter = this->cellpositionByDOFS.find({rowcode, colcode});
-                        if (codeIter != this->cellpositionByDOFS.end() and colindex == 1 and row_element_index <= 2) {
-                            result.push_back(damping);
-                        } else {
-                            result.push_back(0.0);
-                        }
-                    }
-                }
-            }
+bool ScalarSpring::isDiagonal() const {
+    for (const auto& kv : this->cellpositionByDOFS) {
+        if (kv.first.first != kv.first.second) {
+            return false;
         }
-    } else {
-        throw logic_error("not yet implemented");
     }
-	return result;
+    return true;
 }
 
-vector<double> ScalarSpring::asMassVector(bool addRotationsIfNotPresent) const {
-	vector<double> result;
-	char ncomp = (addRotationsIfNotPresent || hasRotations()) ? 6 : 3;
+// A spring between the freedom A of its first node and the freedom B of its second one brings
+// value * (uA - uB)^2 / 2 : it is a diagonal link only when both are the same freedom.
+vector<double> ScalarSpring::asVector(const double value, const bool addRotationsIfNotPresent) const {
+    const size_t ncomp = (addRotationsIfNotPresent || hasRotations()) ? 6 : 3;
+    const double v = is_equal(value, Globals::UNAVAILABLE_DOUBLE) ? 0.0 : value;
 
     if (isDiagonal()) {
-        result.insert(result.end(), ncomp, mass);
-    } else if (isSymmetric()) {
-        int max_row_element_index = 0;
-        for (int colindex = 0; colindex < 2; ++colindex) {
-            for (char coldof = 0; coldof < ncomp; coldof++) {
-                max_row_element_index++;
-                int row_element_index = 0;
-                for (int rowindex = 0; rowindex < 2; ++rowindex) {
-                    for (char rowdof = 0; rowdof < ncomp; rowdof++) {
-                        row_element_index++;
-                        if (row_element_index > max_row_element_index) {
-                            break;
-                        }
-                        result.push_back(mass);
-                    }
-                }
-            }
+        vector<double> result(ncomp, 0.0);
+        for (const auto& kv : this->cellpositionByDOFS) {
+            result[kv.first.first.position] = v;
         }
-    } else {
-        throw logic_error("not yet implemented");
+        return result;
     }
-	return result;
+    // upper triangle, by columns
+    vector<double> result(ncomp * (2 * ncomp + 1), 0.0);
+    const auto& add = [&result](const size_t row, const size_t col, const double x) {
+        result[max(row, col) * (max(row, col) + 1) / 2 + min(row, col)] += x;
+    };
+    for (const auto& kv : this->cellpositionByDOFS) {
+        const size_t a = kv.first.first.position;
+        const size_t b = ncomp + kv.first.second.position;
+        add(a, a, v);
+        add(b, b, v);
+        add(a, b, -v);
+    }
+    return result;
+}
+
+vector<double> ScalarSpring::asStiffnessVector(bool addRotationsIfNotPresent) const {
+    return asVector(stiffness, addRotationsIfNotPresent);
+}
+
+vector<double> ScalarSpring::asDampingVector(bool addRotationsIfNotPresent) const {
+    return asVector(damping, addRotationsIfNotPresent);
+}
+
+vector<double> ScalarSpring::asMassVector(bool addRotationsIfNotPresent) const {
+    return asVector(mass, addRotationsIfNotPresent);
 }
 
 } /* namespace vega */
diff --git a/Abstract/Element.h b/Abstract/Element.h
index 0f286c5..c58ebd8 100644
--- a/Abstract/Element.h
+++ b/Abstract/Element.h
@@ -664,6 +664,7 @@ private:
     double stiffness = 0.0;
     double damping = 0.0;
     double mass = 0.0;
+    std::vector<double> asVector(const double value, const bool addRotationsIfNotPresent) const;
 public:
     ScalarSpring(Model&, int original_id = NO_ORIGINAL_ID, double stiffness = 0.0, double damping = 0.0, double mass = 0.0);
     double getStiffness() const;
@@ -678,9 +679,7 @@ public:
     bool hasMass() const override;
 	bool hasTranslations() const override;
 	bool hasRotations() const override;
-	bool isDiagonal() const override {
-	    return true;
-	}
+	bool isDiagonal() const override;
 	bool isSymmetric() const override {
 	    return true;
 	}
diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 7aee21c..4f87352 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2270,6 +2270,10 @@ void Model::finish() {
         coordinateSystemEntry.second->build();
     }
 
+    if (this->configuration.splitElementsByDOFS){
+        splitElementsByDOFS();
+    }
+
     for (const auto& elementSet : elementSets) {
         for (const auto nodePosition : elementSet->nodePositions()) {
             mesh.allowDOFS(nodePosition,elementSet->getDOFSForNode(nodePosition));
@@ -2379,10 +2383,6 @@ void Model::finish() {
         makeCellsFromSurfaceSlide();
     }
 
-    if (this->configuration.splitElementsByDOFS){
-        splitElementsByDOFS();
-    }
-
     if (this->configuration.addVirtualMaterial) {
         assignVirtualMaterial();
     }
-- 
2.43.0


From 14fd0f2bcf8a993f912f19bd1267f0ea3923c9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:33 +0000
Subject: [PATCH 078/117] fix: a cell whose type is updated keeps the data of
 its dimension

---
 Abstract/Mesh.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/Abstract/Mesh.cpp b/Abstract/Mesh.cpp
index 9ad8bf7..3e1876b 100644
--- a/Abstract/Mesh.cpp
+++ b/Abstract/Mesh.cpp
@@ -481,10 +481,20 @@ pos_t Mesh::updateCell(int id, const CellType &cellType, const std::vector<int>
     }
     const auto& nodePositionsPtr = cells.nodepositionsByCelltype[cellType];
 	for (const auto& nodeId : nodeIds) {
-        cout << "updateCell nodeId:" << nodeId << endl;
-        cout << "updateCell nodePos:" << findOrReserveNode(nodeId) << endl;
 		nodePositionsPtr->push_back(findOrReserveNode(nodeId));
 	}
+    // The data of the dimension are read at the position of the cell among those of its type
+    if (cellType.dimension == SpaceDimension::DIMENSION_0D) {
+        cells.additional0DdataByCelltype[cellType].push_back(DimensionData0D{});
+    } else if (cellType.dimension == SpaceDimension::DIMENSION_1D) {
+        cells.additional1DdataByCelltype[cellType].push_back(DimensionData1D{});
+    } else if (cellType.dimension == SpaceDimension::DIMENSION_2D) {
+        const auto& oldData = cells.cellDatas[oldCellPosition];
+        const CellType& oldType = *CellType::findByCode(oldData.typeCode);
+        const double offset = oldType.dimension == SpaceDimension::DIMENSION_2D
+            ? cells.additional2DdataByCelltype[oldType][oldData.cellTypePosition].offset : 0.0;
+        cells.additional2DdataByCelltype[cellType].push_back(DimensionData2D{offset});
+    }
     if (cpos != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
         this->getOrCreateCellGroupForCS(cpos)->addCellId(id);
         cellData.csPos = cpos;
@@ -526,7 +536,7 @@ Cell Mesh::findCell(const pos_t cellPosition) const {
 	if (cellData.csPos!=CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID)
         ocs = static_pointer_cast<OrientationCoordinateSystem>(coordinateSystemStorage.findByPosition(cellData.csPos));
 
-    double offset;
+    double offset = 0.0;
     switch (cellType->dimension.code) {
     case SpaceDimension::Code::DIMENSION0D_CODE: {
         const auto& additional0Ddata = cells.additional0DdataByCelltype.at(*cellType)[cellData.cellTypePosition];
-- 
2.43.0


From 0d37a12ebbeb710893b480180c0fc60364f1e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:18 +0000
Subject: [PATCH 079/117] fix: directions of coordinate systems defined in
 another system

---
 Abstract/CoordinateSystem.cpp | 24 ++++++++++++++++++------
 Abstract/CoordinateSystem.h   |  2 +-
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index a0838c7..bba703a 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -67,9 +67,11 @@ VectorialValue CoordinateSystem::getEulerAnglesIntrinsicZYX(const CoordinateSyst
         EY= this->ey;
         EZ= this->ez;
     }else{
-        EX= vectorToGlobal(this->ex);
-        EY= vectorToGlobal(this->ey);
-        EZ= vectorToGlobal(this->ez);
+        // The local axes are given in the reference coordinate system
+        shared_ptr<CoordinateSystem> coordSystem = mesh.findCoordinateSystem(rcs);
+        EX= coordSystem->vectorToGlobal(this->ex);
+        EY= coordSystem->vectorToGlobal(this->ey);
+        EZ= coordSystem->vectorToGlobal(this->ez);
     }
     if (cs != nullptr){
         EX = cs->vectorToLocal(EX);
@@ -189,8 +191,18 @@ CylindricalCoordinateSystem::CylindricalCoordinateSystem(const Mesh& mesh,
 // TODO : LD What's this ? Should this method be renamed moveOrigin ?
 void CylindricalCoordinateSystem::updateLocalBase(const VectorialValue& point) {
     VectorialValue localOrigin = point - origin;
-    if (!localOrigin.iszero()) {
-        utheta = ez.cross(point - origin).normalized();
+    if (rcs != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
+        // Origin and axes are given in the reference coordinate system, and the point is a global one
+        shared_ptr<CoordinateSystem> coordSystem = mesh.findCoordinateSystem(rcs);
+        localOrigin = coordSystem->vectorToLocal(point - coordSystem->positionToGlobal(VectorialValue::O)) - origin;
+    }
+    const VectorialValue& tangent = ez.cross(localOrigin);
+    if (tangent.norm() <= 1e-9 * localOrigin.norm()) {
+        // On the axis
+        utheta = ey;
+        ur = ex;
+    } else {
+        utheta = tangent.normalized();
         ur = utheta.cross(ez);
     }
 }
@@ -235,7 +247,7 @@ unique_ptr<CoordinateSystem> CylindricalCoordinateSystem::clone() const {
 }
 
 VectorialValue CylindricalCoordinateSystem::getLocalEulerAnglesIntrinsicZYX(const CoordinateSystem *cs) const {
-    CartesianCoordinateSystem localCS(this->mesh, VectorialValue(0,0,0), this->ur, this->utheta);
+    CartesianCoordinateSystem localCS(this->mesh, VectorialValue(0,0,0), this->ur, this->utheta, this->rcs);
     return localCS.getEulerAnglesIntrinsicZYX(cs);
 }
 
diff --git a/Abstract/CoordinateSystem.h b/Abstract/CoordinateSystem.h
index 2ea3582..94e070a 100644
--- a/Abstract/CoordinateSystem.h
+++ b/Abstract/CoordinateSystem.h
@@ -175,7 +175,7 @@ public:
 
     /**
      *  Compute the local cylindrical base (ur, utheta, uz) corresponding to point.
-     *   Point must be expressed in the reference cartesian coordinate system.
+     *   Point must be expressed in the global cartesian coordinate system.
      */
     void updateLocalBase(const VectorialValue & point) override;
     /**
-- 
2.43.0


From c7229c8c697d110f615b5adf1734909876df3e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:16 +0000
Subject: [PATCH 080/117] fix: comparison of matrices, sums of partial
 coefficients, invalid freedom codes

---
 Abstract/Dof.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/Abstract/Dof.cpp b/Abstract/Dof.cpp
index 80084b2..eda249b 100644
--- a/Abstract/Dof.cpp
+++ b/Abstract/Dof.cpp
@@ -190,7 +190,7 @@ DOFS DOFS::nastranCodeToDOFS(int nastranCode) {
 		number = number / 10;
 		auto codeiter = DOF_BY_NASTRANCODE.left.find(nastranDigit);
 		if (codeiter == DOF_BY_NASTRANCODE.left.end()) {
-			throw invalid_argument("Invalid Nastran code: " + nastranCode);
+			throw invalid_argument("Invalid Nastran code: " + to_string(nastranCode));
 		}
 		DOFS internalDOFCode {static_cast<char>(codeiter->second)};
 		dofs += internalDOFCode;
@@ -450,15 +450,12 @@ DOFMatrix DOFMatrix::transposed() const noexcept {
 }
 
 bool DOFMatrix::isEqual(const DOFMatrix& other) const noexcept {
-    if (componentByDofs.size() != other.componentByDofs.size())
-        return false; // This should be relaxed: maybe other matrix has some zero values explicitely
-    for (auto& entry : componentByDofs) {
-        const auto& otherit = other.componentByDofs.find(entry.first);
-        if (otherit == other.componentByDofs.end() and not is_zero(entry.second)) {
-            return false;
-        }
-        if (not is_equal(entry.second, otherit->second)) {
-            return false;
+    // Components which are not stored are zero
+    for (const DOF row : DOFS::ALL_DOFS) {
+        for (const DOF col : DOFS::ALL_DOFS) {
+            if (not is_equal(findComponent(row, col), other.findComponent(row, col))) {
+                return false;
+            }
         }
     }
     return true;
@@ -518,6 +515,9 @@ void DOFCoefs::setValue(const DOF dof, double val) noexcept {
 
 DOFCoefs& DOFCoefs::operator+=(const DOFCoefs& rv) noexcept {
     for (dof_int i = 0; i < 6; i++) {
+        if (is_equal(rv.coefs[i], Globals::UNAVAILABLE_DOUBLE)) {
+            continue;
+        }
         if (not is_equal(coefs[i], Globals::UNAVAILABLE_DOUBLE)) {
             coefs[i] += rv.coefs[i];
         } else {
@@ -537,7 +537,7 @@ DOFCoefs& DOFCoefs::operator*=(const double factor) noexcept {
 }
 
 double DOFCoefs::operator[](const dof_int i) noexcept {
-    if (i > 6)
+    if (i >= 6)
         return 0; // TODO LD: why this case ???
     return coefs[i];
 }
-- 
2.43.0


From 22aa0c111092f88e4d20806d0b3d75e9a9d3796e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:57 +0000
Subject: [PATCH 081/117] fix: containers holding containers or removed groups,
 iteration and text of cells

---
 Abstract/MeshComponents.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/Abstract/MeshComponents.cpp b/Abstract/MeshComponents.cpp
index a9de974..4fbffc3 100644
--- a/Abstract/MeshComponents.cpp
+++ b/Abstract/MeshComponents.cpp
@@ -600,7 +600,7 @@ ostream &operator<<(ostream &out, const Cell& cell) noexcept {
 	out << ",type:" << static_cast<int>(cell.type.code);
 	out << ",nodeIds:[";
 	for (const int nodeId : cell.nodeIds) {
-		cout << "," << nodeId;
+		out << "," << nodeId;
 	}
 	out << "]";
 	return out;
@@ -633,8 +633,9 @@ CellIterator& CellIterator::operator ++() {
 }
 
 CellIterator CellIterator::operator ++(int) {
+	const CellIterator previous(*this);
 	increment(1); // argument must be ignored https://en.cppreference.com/w/cpp/language/operators#Increment_and_decrement
-	return *this;
+	return previous;
 }
 
 bool CellIterator::operator ==(const CellIterator& other) const noexcept {
@@ -871,8 +872,8 @@ bool CellContainer::hasCellsIncludingGroups() const noexcept {
 	if (not resolvedCellPositions().empty())
         return true;
     for (const auto& groupName : cellGroupNames) {
-        const auto& group = static_pointer_cast<CellGroup>(mesh.findGroup(groupName));
-        if (not group->empty())
+        const auto& group = dynamic_pointer_cast<CellGroup>(mesh.findGroup(groupName));
+        if (group != nullptr and not group->empty())
             return true;
     }
     return false;
@@ -967,7 +968,7 @@ void NodeContainer::addNodeGroup(const string& groupName) {
 }
 
 void NodeContainer::removeNodePositionExcludingGroups(const pos_t nodePosition) noexcept {
-	nodePositions.erase(nodePositions.find(nodePosition));
+	nodePositions.erase(nodePosition);
 }
 
 void NodeContainer::add(const Node& node) noexcept {
@@ -979,10 +980,9 @@ void NodeContainer::add(const NodeGroup& nodeGroup) noexcept {
 }
 
 void NodeContainer::add(const NodeContainer& nodeContainer) noexcept {
-    const auto& otherNodePositions = nodeContainer.getNodePositionsExcludingGroups();
-	if (not otherNodePositions.empty()) {
-		nodePositions.insert(otherNodePositions.begin(), otherNodePositions.end());
-	}
+	nodePositions.insert(nodeContainer.nodePositions.begin(), nodeContainer.nodePositions.end());
+
+	CellContainer::add(nodeContainer);
 
 	if (not nodeContainer.nodeGroupNames.empty()) {
 		nodeGroupNames.insert(nodeContainer.nodeGroupNames.begin(), nodeContainer.nodeGroupNames.end());
@@ -1003,7 +1003,10 @@ set<pos_t> NodeContainer::getNodePositionsExcludingGroups() const noexcept {
 set<pos_t> NodeContainer::getNodePositionsIncludingGroups() const noexcept {
     set<pos_t> result(nodePositions);
 	for (const auto& groupName : nodeGroupNames) {
-		const auto& group = static_pointer_cast<NodeGroup>(mesh.findGroup(groupName));
+		const auto& group = dynamic_pointer_cast<NodeGroup>(mesh.findGroup(groupName));
+		if (group == nullptr) {
+			continue;
+		}
 		const auto& groupNodePositions = group->nodePositions();
 		result.insert(groupNodePositions.begin(), groupNodePositions.end());
 	}
@@ -1060,7 +1063,8 @@ bool NodeContainer::hasNodesIncludingGroups() const noexcept {
 	if (not CellContainer::empty())
         return true;
 	for (string groupName : nodeGroupNames) {
-        if (not mesh.findGroup(groupName)->empty())
+        const auto& group = dynamic_pointer_cast<NodeGroup>(mesh.findGroup(groupName));
+        if (group != nullptr and not group->empty())
             return true;
     }
     return false;
-- 
2.43.0


From 008805722b4bb20eebf19bd1dede73cb2a561e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:57 +0000
Subject: [PATCH 082/117] fix: original id of a removed group, virtual cells,
 lengths of the mesh

---
 Abstract/Mesh.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Abstract/Mesh.cpp b/Abstract/Mesh.cpp
index 3e1876b..21c0e07 100644
--- a/Abstract/Mesh.cpp
+++ b/Abstract/Mesh.cpp
@@ -562,7 +562,7 @@ Cell Mesh::findCell(const pos_t cellPosition) const {
     }
     }
 	// Should stay as a "return unnamed" so that compiler can avoid rvalue copy
-	return Cell(cellData.id, *cellType, nodeIds, cellPosition, nodePositions, false, cellData.csPos, cellData.elementId, cellData.cellTypePosition, ocs, offset);
+	return Cell(cellData.id, *cellType, nodeIds, cellPosition, nodePositions, cellData.isvirtual, cellData.csPos, cellData.elementId, cellData.cellTypePosition, ocs, offset);
 }
 
 pos_t Mesh::generateSkinCell(const vector<int>& faceIds, const SpaceDimension& dimension) {
@@ -797,7 +797,7 @@ void Mesh::removeGroup(const string& name) noexcept {
     if (it != this->groupByName.end()) {
         std::shared_ptr<Group> group = it->second;
         this->groupByName.erase(name);
-        const int gId= group->getId();
+        const int gId= group->getOriginalId();
         if (gId!= Group::NO_ORIGINAL_ID){
             this->groupById.erase(gId);
         }
@@ -891,7 +891,7 @@ MeshStatistics Mesh::calcStats() {
         for (auto cellit = cells.cells_begin(cellType); cellit != cells.cells_end(cellType); cellit++) {
             const Cell& cell = *cellit;
             for (unsigned i = 0; i < cellType.numNodes - 1; i++) {
-                for (unsigned j = i; j < cellType.numNodes; j++) {
+                for (unsigned j = i + 1; j < cellType.numNodes; j++) {
                     const Node& n1 = findNode(cell.nodePositions[i]);
                     const Node& n2 = findNode(cell.nodePositions[j]);
                     squareDistances.push_back(boost::geometry::comparable_distance(n1, n2));
@@ -904,6 +904,8 @@ MeshStatistics Mesh::calcStats() {
             minSquareDistance = min(minSquareDistance, *(mm.first));
         maxSquareDistance = max(maxSquareDistance, *(mm.second));
         squareDistances.erase(remove_if(squareDistances.begin(), squareDistances.end(), [](double x){return is_zero(x);}), squareDistances.end());
+        if (squareDistances.empty())
+            continue;
         const auto mmnz = min_element(squareDistances.begin(), squareDistances.end());
         double sum = accumulate( squareDistances.begin(), squareDistances.end(), 0.0);
         minSquareDistanceNonZero = min(minSquareDistanceNonZero, *mmnz);
@@ -914,7 +916,7 @@ MeshStatistics Mesh::calcStats() {
     stats->minLength = sqrt(minSquareDistance);
     stats->minNonzeroLength = sqrt(minSquareDistanceNonZero);
     stats->maxLength = sqrt(maxSquareDistance);
-    stats->quadraticMeanLength = sqrt(sumSquareDistance / static_cast<double>(countSquareDistance));
+    stats->quadraticMeanLength = countSquareDistance == 0 ? 0.0 : sqrt(sumSquareDistance / static_cast<double>(countSquareDistance));
     return *stats;
 }
 
-- 
2.43.0


From de6f719b575023a76f015d97bed7ce16b95eacba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:04 +0000
Subject: [PATCH 083/117] fix: corners naming a face of a tetrahedron or a
 quadrilateral face of a wedge

---
 Abstract/MeshComponents.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Abstract/MeshComponents.cpp b/Abstract/MeshComponents.cpp
index 4fbffc3..a9c8c8d 100644
--- a/Abstract/MeshComponents.cpp
+++ b/Abstract/MeshComponents.cpp
@@ -565,7 +565,8 @@ pair<int, int> Cell::two_nodeids_from_facenum(int faceNum) const {
     case CellType::Code::TETRA4_CODE:
     case CellType::Code::TETRA10_CODE: {
         //node2 is on the opposite face
-        const set<int>& cellOrderedNodeIds{nodeIds.begin(), nodeIds.end()};
+        const auto& cornerIds = cornerNodeIds();
+        const set<int>& cellOrderedNodeIds{cornerIds.begin(), cornerIds.end()};
         const set<int>& faceOrderedNodeIds{faceNodeIds.begin(), faceNodeIds.end()};
         vector<int> v_difference;
 
@@ -579,7 +580,7 @@ pair<int, int> Cell::two_nodeids_from_facenum(int faceNum) const {
     case CellType::Code::PYRA13_CODE:
     case CellType::Code::PENTA15_CODE: {
         if (faceNodeIds.size() == 4 or faceNodeIds.size() == 8) {
-            return {faceNodeIds[0], faceNodeIds[1]};
+            return {faceNodeIds[0], faceNodeIds[2]};
         } else {
             int nodeId2 = Globals::UNAVAILABLE_INT;
             return {faceNodeIds[0], nodeId2};
-- 
2.43.0


From bc3f815ce52b81b47a5171c9136cd0642cf521c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:58 +0000
Subject: [PATCH 084/117] fix: the shear factors of PBAR go with their planes,
 a zero factor means no shear flexibility

---
 Nastran/NastranParser.cpp | 20 ++++++--------------
 Nastran/NastranWriter.cpp |  2 +-
 2 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 96fc5ac..66d9c65 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2140,26 +2140,18 @@ void NastranParser::parsePBAR(NastranTokenizer& tok, Model& model) {
 
     // K1, K2: Area factors for shear. VEGA works with 1/K1 and 1/K2
     // Default values is infinite
-    const double k1 = tok.nextDouble(true); // K1 = Kzz
-    const double k2 = tok.nextDouble(true); // K2 = Kyy
-    double invk1, invk2;
-    if (is_equal(k1, Globals::UNAVAILABLE_DOUBLE)){
-        invk1= 0.0;
-    }else{
-        invk1 = is_zero(k1) ? Globals::UNAVAILABLE_DOUBLE : 1.0/k1;
-    }
-    if (is_equal(k2, Globals::UNAVAILABLE_DOUBLE)){
-        invk2= 0.0;
-    }else{
-        invk2 = is_zero(k2) ? Globals::UNAVAILABLE_DOUBLE : 1.0/k2;
-    }
+    const double k1 = tok.nextDouble(true, 0.0); // plane 1: shear along Y, bending inertia Izz
+    const double k2 = tok.nextDouble(true, 0.0); // plane 2: shear along Z, bending inertia Iyy
+    // A zero is the same as a blank: no shear flexibility
+    const double invk1 = is_zero(k1) ? 0.0 : 1.0/k1;
+    const double invk2 = is_zero(k2) ? 0.0 : 1.0/k2;
 
     double i12 = tok.nextDouble(true, 0.0);
     if (!is_equal(i12, 0)) {
         handleParsingWarning("PBAR i12 not implemented.", tok, model);
     }
 
-    const auto& genericSectionBeam = make_shared<GenericSectionBeam>(model, area, i2, i1, j, invk2, invk1, Beam::BeamModel::TIMOSHENKO, nsm,
+    const auto& genericSectionBeam = make_shared<GenericSectionBeam>(model, area, i2, i1, j, invk1, invk2, Beam::BeamModel::TIMOSHENKO, nsm,
             elemId);
     genericSectionBeam->assignMaterial(Reference<Material>(Material::Type::MATERIAL,mid));
     genericSectionBeam->add(*getOrCreateCellGroup(elemId, model, "PBAR"));
diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index b4709ba..dc2fe10 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -944,7 +944,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		}
 		if (hasShear) {
 			pbeam.skip(9); // stress recovery points
-			for (const double shear : {shearZ, shearY}) {
+			for (const double shear : {shearY, shearZ}) {
 				if (is_zero(shear)) {
 					pbeam.add();
 				} else {
-- 
2.43.0


From 11315717427fa69f4b13bd958ba55797bb5bb3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:58 +0000
Subject: [PATCH 085/117] fix: WTMASS applies to the non-structural mass in
 Nastran output

---
 Nastran/NastranWriter.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index dc2fe10..32c5664 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -911,6 +911,14 @@ void NastranWriter::writeRuler(ofstream& out) const
 			<< endl;
 }
 
+/**
+ * Densities and concentrated masses are written as masses: so are the non-structural masses
+ */
+static double massMultiplier(const Model& model) {
+	return model.contains(ModelParameter::MASS_OVER_FORCE_MULTIPLIER) ?
+			stod(model.getParameter(ModelParameter::MASS_OVER_FORCE_MULTIPLIER)) : 1.0;
+}
+
 void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		{
 	for (const auto& truss : model.getTrusses()) {
@@ -934,7 +942,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 			pbeam.add(0.0); // I12
 		}
 		pbeam.add(beam->getTorsionalConstant());
-		const double nsm = beam->getAdditionalRho() * beam->getAreaCrossSection();
+		const double nsm = massMultiplier(model) * beam->getAdditionalRho() * beam->getAreaCrossSection();
 		const double shearY = beam->getShearAreaFactorY();
 		const double shearZ = beam->getShearAreaFactorZ();
 		const bool hasShear = isCosmic() and beam->beamModel == Beam::BeamModel::TIMOSHENKO
@@ -962,7 +970,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		pshell.add(materialId(model, *shell->mainMaterial()));
 		pshell.add(shell->thickness);
 		pshell.add(materialId(model, *shell->mainMaterial())); // MID2 for bending
-		const double nsm = shell->getAdditionalRho() * shell->thickness;
+		const double nsm = massMultiplier(model) * shell->getAdditionalRho() * shell->thickness;
 		if (not is_zero(nsm)) {
 			pshell.skip(3); // 12I/T**3, MID3, TS/T
 			pshell.add(nsm);
-- 
2.43.0


From 55ad1029828349391f257c4368b13e6e69dfe916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:27 +0000
Subject: [PATCH 086/117] fix: Nastran output keeps the non-structural mass of
 rods

---
 Nastran/NastranWriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 32c5664..383d46a 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -927,6 +927,11 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		prod.add(materialId(model, *truss->mainMaterial()));
 		prod.add(truss->getAreaCrossSection());
 		prod.add(truss->getTorsionalConstant());
+		const double nsm = massMultiplier(model) * truss->getAdditionalRho() * truss->getAreaCrossSection();
+		if (not is_zero(nsm)) {
+			prod.add(); // stress coefficient
+			prod.add(nsm);
+		}
 		out << prod;
 		truss->markAsWritten();
 	}
-- 
2.43.0


From 5e60fe704e2a103255b8d107a50b33261da33bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:27 +0000
Subject: [PATCH 087/117] fix: tubes are given by their outer radius, torsion
 constant of rectangles higher than wide

---
 Abstract/Element.cpp      | 10 ++++++----
 Nastran/NastranParser.cpp |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index 289ba77..2999320 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -247,11 +247,11 @@ unique_ptr<ElementSet> TubeSectionBeam::clone() const {
 }
 
 double TubeSectionBeam::getAreaCrossSection() const {
-	return M_PI * (pow(radius, 2) - pow(thickness, 2)) ;
+	return M_PI * (pow(radius, 2) - pow(radius - thickness, 2)) ;
 }
 
 double TubeSectionBeam::getMomentOfInertiaY() const {
-	return (pow(radius, 4) - pow(thickness, 4)) * M_PI / 4;
+	return (pow(radius, 4) - pow(radius - thickness, 4)) * M_PI / 4;
 }
 
 double TubeSectionBeam::getMomentOfInertiaZ() const {
@@ -260,7 +260,7 @@ double TubeSectionBeam::getMomentOfInertiaZ() const {
 
 double TubeSectionBeam::getTorsionalConstant() const {
 	// http://en.wikipedia.org/wiki/Torsion_constant
-	return (pow(radius, 4) - pow(thickness, 4)) * M_PI / 2;
+	return (pow(radius, 4) - pow(radius - thickness, 4)) * M_PI / 2;
 }
 
 double TubeSectionBeam::getShearAreaFactorY() const {
@@ -298,7 +298,9 @@ double RectangularSectionBeam::getTorsionalConstant() const {
 	//	return height * pow(width, 3) / 3;
 	//}
 
-	return width*pow(height, 3)*(1.0/3 -0.21*height*(1- pow(height,4)/(12*pow(width,4)))/width);
+	const double a = std::max(width, height);
+	const double b = std::min(width, height);
+	return a*pow(b, 3)*(1.0/3 -0.21*b*(1- pow(b,4)/(12*pow(a,4)))/a);
 }
 
 double RectangularSectionBeam::getShearAreaFactorY() const {
diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 66d9c65..3ea34e4 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2206,7 +2206,7 @@ void NastranParser::parsePBARL(NastranTokenizer& tok, Model& model) {
         double extRadius = tok.nextDouble();
         double intRadius = tok.nextDouble();
         nsm = tok.nextDouble(true, 0.0);
-        const auto& tubeSectionBeam = make_shared<TubeSectionBeam>(model, intRadius, extRadius - intRadius, Beam::BeamModel::TIMOSHENKO, nsm, propertyId);
+        const auto& tubeSectionBeam = make_shared<TubeSectionBeam>(model, extRadius, extRadius - intRadius, Beam::BeamModel::TIMOSHENKO, nsm, propertyId);
         tubeSectionBeam->assignMaterial(Reference<Material>(Material::Type::MATERIAL,mid));
         tubeSectionBeam->add(*getOrCreateCellGroup(propertyId, model, "PBARL"));
         tubeSectionBeam->setInputContext(tok.getInputContext());
@@ -2384,7 +2384,7 @@ void NastranParser::parsePBEAML(NastranTokenizer& tok, Model& model) {
         double extRadius = tok.nextDouble();
         double intRadius = tok.nextDouble();
         nsm = tok.nextDouble(true, 0.0);
-        const auto& tubeSectionBeam = make_shared<TubeSectionBeam>(model, intRadius, extRadius - intRadius, Beam::BeamModel::TIMOSHENKO, nsm, pid);
+        const auto& tubeSectionBeam = make_shared<TubeSectionBeam>(model, extRadius, extRadius - intRadius, Beam::BeamModel::TIMOSHENKO, nsm, pid);
         tubeSectionBeam->assignMaterial(Reference<Material>(Material::Type::MATERIAL,mid));
         tubeSectionBeam->add(*getOrCreateCellGroup(pid, model,"PBEAML"));
         tubeSectionBeam->setInputContext(tok.getInputContext());
-- 
2.43.0


From 89a494a22293b30921700754794561057580dd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:27 +0000
Subject: [PATCH 088/117] fix: PIHEX is the property of solids

---
 Nastran/NastranParser.cpp | 21 ++++++++++++++++++++-
 Nastran/NastranParser.h   |  5 +++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 3ea34e4..92dd6db 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -131,7 +131,7 @@ const unordered_map<string, NastranParser::parseElementFPtr> NastranParser::PARS
                 { "PROD", &NastranParser::parsePROD },
                 { "PLSOLID", &NastranParser::parsePLSOLID },
                 { "PSHELL", &NastranParser::parsePSHELL },
-                { "PIHEX", &NastranParser::parsePSHELL },
+                { "PIHEX", &NastranParser::parsePIHEX },
                 { "PSOLID", &NastranParser::parsePSOLID },
                 { "PVISC", &NastranParser::parsePVISC },
                 { "RBAR", &NastranParser::parseRBAR },
@@ -2964,6 +2964,25 @@ void NastranParser::parsePLOAD4(NastranTokenizer& tok, Model& model) {
     }
 }
 
+void NastranParser::parsePIHEX(NastranTokenizer& tok, Model& model) {
+    int pid = tok.nextInt();
+    int mid = tok.nextInt();
+    int cid = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
+    if (cid != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
+        handleParsingWarning("Material coordinate system!=0 not supported and dismissed.", tok, model);
+    }
+    if (not tok.isEmptyUntilNextKeyword()) {
+        // NIP, AR, ALPHA, BETA: number of integration points and limits on the shape of the elements
+        tok.skipToNextKeyword();
+        handleParsingWarning("Integration points and limits on the shape of the elements not supported and dismissed.", tok, model);
+    }
+    const auto& continuum = make_shared<Continuum>(model, ModelType::TRIDIMENSIONAL_SI, pid);
+    continuum->assignMaterial(Reference<Material>(Material::Type::MATERIAL, mid));
+    continuum->add(*getOrCreateCellGroup(pid, model, "PIHEX"));
+    continuum->setInputContext(tok.getInputContext());
+    model.add(continuum);
+}
+
 void NastranParser::parsePLSOLID(NastranTokenizer& tok, Model& model) {
     int pid = tok.nextInt();
     int mid = tok.nextInt();
diff --git a/Nastran/NastranParser.h b/Nastran/NastranParser.h
index 046397b..39c9e9c 100644
--- a/Nastran/NastranParser.h
+++ b/Nastran/NastranParser.h
@@ -708,6 +708,11 @@ private:
      */
     void parsePLSOLID(NastranTokenizer& tok, Model& model);
 
+    /**
+     * Parse the PIHEX keyword, the COSMIC property of the CIHEX1 and CIHEX2 solids.
+     */
+    void parsePIHEX(NastranTokenizer& tok, Model& model);
+
     /**
      * Parse the PSHELL keyword (page 2250 of MDN Nastran 2006 Quick Reference Guide.)
      * Only uniform PSHELLs are supported, meaning MID2, MID3, MID4, etc are dismissed.
-- 
2.43.0


From 4a5c38732c4ccb5aae1c959a3ec09e90b5138a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:27 +0000
Subject: [PATCH 089/117] fix: negative Poisson's ratios are written in Systus
 output

---
 Systus/SystusWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index b245460..0546467 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -286,7 +286,7 @@ void SystusWriter::fillMaterialField(const SMF key, const double value, map<SMF,
     case(SMF::RHO):
     case(SMF::E):
     case(SMF::NU):{
-        if (value>0.0){
+        if (value>0.0 or (key==SMF::NU and not is_zero(value))){
             out << value;
             systusMat[key]=out.str();
         }
-- 
2.43.0


From 3a1932e2299150d67142fcef515856b71e1141e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:27 +0000
Subject: [PATCH 090/117] fix: bulk modulus of MATHP is twice D1

---
 Nastran/NastranParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 92dd6db..43d0da3 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1993,7 +1993,8 @@ void NastranParser::parseMATHP(NastranTokenizer& tok, Model& model) {
     }
     tok.skip(5);
     double a20 = tok.nextDouble(true, 0.0);
-    material->addNature(make_shared<HyperElasticNature>(model, a10, a01, a20, d1, rho));
+    // the volumetric energy is D1*(J-1)^2 here, K/2*(J-1)^2 in the model
+    material->addNature(make_shared<HyperElasticNature>(model, a10, a01, a20, 2*d1, rho));
 }
 
 void NastranParser::parseMATS1(NastranTokenizer& tok, Model& model) {
-- 
2.43.0


From 3050b105e9d1052490ef646ec30707ea6b27d0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:38 +0000
Subject: [PATCH 091/117] fix: orientation vectors are given in the
 displacement coordinate system of the first grid

---
 Abstract/CoordinateSystem.cpp      | 11 +++++++++++
 Abstract/CoordinateSystem.h        |  2 +-
 Abstract/Model.cpp                 | 10 +++++++++-
 Nastran/NastranParser_geometry.cpp |  8 ++++----
 Nastran/NastranWriter.cpp          | 11 +++++++++++
 5 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index bba703a..fdb2dcc 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -330,6 +330,14 @@ void OrientationCoordinateSystem::build(){
         if(this->getNodeV() != Node::UNAVAILABLE_NODE){
             const Node& nodeV = mesh.findNode(mesh.findNodePosition(this->getNodeV()));
             this->v = VectorialValue(nodeV.x - nodeO.x, nodeV.y - nodeO.y, nodeV.z - nodeO.z).normalized();
+        } else if (nodeO.displacementCS != GLOBAL_COORDINATE_SYSTEM_ID) {
+            const auto& displacementCS = mesh.getCoordinateSystemByPosition(nodeO.displacementCS);
+            if (displacementCS->coordType == CoordinateType::SPHERICAL) {
+                cerr << "Orientation vector taken in the global coordinate system instead of " << *displacementCS << endl;
+            } else {
+                displacementCS->updateLocalBase(this->origin);
+                this->v = displacementCS->vectorToGlobal(this->v).normalized();
+            }
         }
         this->ey = this->v.orthonormalized(this->ex);
         this->ez = this->ex.cross(this->ey);
@@ -373,6 +381,9 @@ bool OrientationCoordinateSystem::operator ==(const OrientationCoordinateSystem&
         return false;
     }
     if (this->getNodeV() == Node::UNAVAILABLE_NODE){
+        if (ocs.getNodeV() != Node::UNAVAILABLE_NODE) {
+            return false;
+        }
         VectorialValue vect = (this->getV() - ocs.getV());
         return is_equal(vect.norm(), 0);
     }else{
diff --git a/Abstract/CoordinateSystem.h b/Abstract/CoordinateSystem.h
index 94e070a..369ef61 100644
--- a/Abstract/CoordinateSystem.h
+++ b/Abstract/CoordinateSystem.h
@@ -145,7 +145,7 @@ public:
                 const VectorialValue v, const Reference<CoordinateSystem> rcs = GLOBAL_COORDINATE_SYSTEM, int original_id = NO_ORIGINAL_ID);
 
 protected:
-    VectorialValue v; /**< Orientation vector */
+    VectorialValue v; /**< Orientation vector; until build(), a given vector is in the displacement system of the origin */
 
 public:
     void build() override; /**< Build (O,ex,ey,ez) from the node and v */
diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 4f87352..2262239 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2267,7 +2267,15 @@ void Model::finish() {
 
     /* Build the coordinate systems from their definition points */
     for (const auto& coordinateSystemEntry : mesh.coordinateSystemStorage.coordinateSystemByRef) {
-        coordinateSystemEntry.second->build();
+        if (coordinateSystemEntry.second->type != CoordinateSystem::Type::RELATIVE) {
+            coordinateSystemEntry.second->build();
+        }
+    }
+    // The orientations of the elements refer to the displacement coordinate systems
+    for (const auto& coordinateSystemEntry : mesh.coordinateSystemStorage.coordinateSystemByRef) {
+        if (coordinateSystemEntry.second->type == CoordinateSystem::Type::RELATIVE) {
+            coordinateSystemEntry.second->build();
+        }
     }
 
     if (this->configuration.splitElementsByDOFS){
diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index 64d8514..a90a7e1 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -143,7 +143,7 @@ pos_t NastranParser::parseOrientation(int point1, int point2, NastranTokenizer&
         Model& model) {
 
     const auto& line = tok.currentDataLine();
-    bool alternateFormat = line.size() < 8 || line[6].empty() || line[7].empty();
+    bool alternateFormat = (line.size() < 8 || line[6].empty() || line[7].empty()) && (tok.isNextInt() || tok.isNextEmpty(3));
     shared_ptr<OrientationCoordinateSystem> ocs;
     if (alternateFormat) {
         int g0 = tok.nextInt();
@@ -152,9 +152,9 @@ pos_t NastranParser::parseOrientation(int point1, int point2, NastranTokenizer&
         ocs = make_shared<OrientationCoordinateSystem>(model.mesh, point1, point2, g0);
     } else {
         double x1, x2, x3;
-        x1 = tok.nextDouble();
-        x2 = tok.nextDouble();
-        x3 = tok.nextDouble();
+        x1 = tok.nextDouble(true, 0.0);
+        x2 = tok.nextDouble(true, 0.0);
+        x3 = tok.nextDouble(true, 0.0);
         if (is_zero(x1) and is_zero(x2) and is_zero(x3)) {
             x2 = 1; // LD Hack, should find a better solution for a ill-defined segment orientation
         }
diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 383d46a..b0dfb31 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -421,6 +421,17 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
                 string F;
                 const auto& v = cell.orientation->getV();
                 x1x2x3 = {v.x(), v.y(), v.z()};
+                const Node& node = model.mesh.findNode(cell.nodePositions[0]);
+                if (node.displacementCS != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
+                    // the components are read in the displacement coordinate system of the first node
+                    const auto& displacementCS = model.mesh.getCoordinateSystemByPosition(node.displacementCS);
+                    if (displacementCS->coordType != CoordinateSystem::CoordinateType::SPHERICAL) {
+                        displacementCS->updateLocalBase(VectorialValue(node.x, node.y, node.z));
+                        x1x2x3 = {v.dot(displacementCS->vectorToGlobal(VectorialValue::X)),
+                                v.dot(displacementCS->vectorToGlobal(VectorialValue::Y)),
+                                v.dot(displacementCS->vectorToGlobal(VectorialValue::Z))};
+                    }
+                }
                 if (isCosmic())
                     F = "1";
                 cellLine.add(x1x2x3).add(F);
-- 
2.43.0


From 43953680a36f726a6bd9d0dc706c9e1a03391e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:05 +0000
Subject: [PATCH 092/117] fix: plies of PCOMP repeat the last material and
 thickness, their angle is zero by default

---
 Nastran/NastranParser.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 43d0da3..01af479 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2582,12 +2582,16 @@ void NastranParser::parsePCOMP(NastranTokenizer& tok, Model& model) {
     double theta1 = tok.nextDouble(true, 0.0);
     tok.skip(1); // SOUT1
     composite->addLayer(Reference<Material>(Material::Type::MATERIAL,mid1), t1, theta1);
+    int lastMid = mid1;
+    double lastT = t1;
     while(not tok.isNextEmpty(4) and not tok.isEmptyUntilNextKeyword()) {
-        int midn = tok.nextInt(true, mid1);
+        int midn = tok.nextInt(true, lastMid); // MIDn and Tn default to the last ones given
         composite->assignMaterial(Reference<Material>(Material::Type::MATERIAL,midn));
-        double tn = tok.nextDouble(true, t1);
-        double thetan = tok.nextDouble(true, theta1);
+        double tn = tok.nextDouble(true, lastT);
+        double thetan = tok.nextDouble(true, 0.0);
         tok.skip(1); // SOUTn
+        lastMid = midn;
+        lastT = tn;
         composite->addLayer(Reference<Material>(Material::Type::MATERIAL,midn), tn, thetan);
     }
     if (is_equal(z0, Globals::UNAVAILABLE_DOUBLE)) {
-- 
2.43.0


From cc039bfbd360472017b8305a4edb0c48bce579c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:17 +0000
Subject: [PATCH 093/117] fix: WTMASS applies to the density of hyperelastic
 materials

---
 Abstract/Material.cpp | 9 +++++++++
 Abstract/Material.h   | 1 +
 Aster/AsterWriter.cpp | 2 +-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/Abstract/Material.cpp b/Abstract/Material.cpp
index c071252..ee7649b 100644
--- a/Abstract/Material.cpp
+++ b/Abstract/Material.cpp
@@ -284,6 +284,15 @@ HyperElasticNature::HyperElasticNature(const Model& model, double c10, double c0
 		Nature(model, Nature::NatureType::NATURE_HYPERELASTIC), c10(c10), c01(c01), c20(c20), k(k), rho(rho) {
 }
 
+double HyperElasticNature::getRho() const {
+	double mass_multiplier = 1;
+	if (model.contains(ModelParameter::MASS_OVER_FORCE_MULTIPLIER)) {
+		mass_multiplier = stod(model.getParameter(ModelParameter::MASS_OVER_FORCE_MULTIPLIER));
+		assert(!is_zero(mass_multiplier));
+	}
+	return (is_equal(rho, Globals::UNAVAILABLE_DOUBLE)) ? 0 : rho * mass_multiplier;
+}
+
 NonLinearElasticNature::NonLinearElasticNature(const Model& model,
 		const int stress_strain_function_id) :
 		Nature(model, Nature::NatureType::NATURE_NONLINEAR_ELASTIC), stress_strain_function_ref(Value::Type::FUNCTION_TABLE,
diff --git a/Abstract/Material.h b/Abstract/Material.h
index 54f60da..893d6b5 100644
--- a/Abstract/Material.h
+++ b/Abstract/Material.h
@@ -177,6 +177,7 @@ public:
     double k; //< See u4.43.01 ELAS_HYPER
     double rho;
     HyperElasticNature(const Model&, double c10, double c01, double c20, double k, double rho = 0.0);
+    double getRho() const; //< density, as a mass
 };
 
 class NonLinearElasticNature: public Nature {
diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 8246cb9..60348f8 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -981,7 +981,7 @@ void AsterWriter::writeMaterials() {
 			comm_file_ofs << "                         C10=" << hyperElasticNature->c10 << "," << endl;
 			comm_file_ofs << "                         C01=" << hyperElasticNature->c01 << "," << endl;
 			comm_file_ofs << "                         C20=" << hyperElasticNature->c20 << "," << endl;
-			comm_file_ofs << "                         RHO=" << hyperElasticNature->rho << "," << endl;
+			comm_file_ofs << "                         RHO=" << hyperElasticNature->getRho() << "," << endl;
 			comm_file_ofs << "                         K=" << hyperElasticNature->k << "," << endl;
 			comm_file_ofs << "                         )," << endl;
 		}
-- 
2.43.0


From bf5a20d77e8935aa0ac55d34180901349fe2d94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:19 +0000
Subject: [PATCH 094/117] fix: WTMASS applies once to the density of isotropic
 plies

---
 Abstract/Model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 2262239..84cd8a9 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2249,7 +2249,7 @@ void Model::replaceIsotropicMaterialsInComposites() {
                                                                    elasticNature->getG(),
                                                                    elasticNature->getG(),
                                                                    elasticNature->getG(),
-                                                                   elasticNature->getRho()));
+                                                                   elasticNature->getRhoAsForceDensity()));
                 this->add(orthoMaterial);
                 replacedMaterials[material->getReference()] = orthoMaterial;
                 layer->setMaterial(orthoMaterial);
-- 
2.43.0


From bf7b6be902494b7973b50281f5e5ae7d24a1ab3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:31 +0000
Subject: [PATCH 095/117] fix: an analysis whose objectives are missing is
 refused instead of dereferencing nothing

---
 Abstract/Analysis.cpp | 49 +++++++++++++++++++++++++------------------
 Abstract/Analysis.h   |  6 +++---
 Aster/AsterWriter.cpp |  8 ++++---
 3 files changed, 37 insertions(+), 26 deletions(-)

diff --git a/Abstract/Analysis.cpp b/Abstract/Analysis.cpp
index 5d49276..ae178cd 100644
--- a/Abstract/Analysis.cpp
+++ b/Abstract/Analysis.cpp
@@ -642,15 +642,33 @@ LinearModal::LinearModal(Model& model, const Reference<ObjectiveSet>& frequencyS
 //        Analysis(model, type, original_label, original_id), frequencySearchRef(Objective::Type::FREQUENCY_SEARCH, frequency_band_original_id) {
 //}
 
-shared_ptr<FrequencySearch> LinearModal::getFrequencySearch() const noexcept {
-    const auto& objectiveSet = model.find(frequencySearchRef);
-    const auto& objectives = objectiveSet->getObjectivesByType(Objective::Type::FREQUENCY_SEARCH);
-    return static_pointer_cast<FrequencySearch>(*objectives.begin());
+static shared_ptr<Objective> findObjective(const Model& model, const Reference<ObjectiveSet>& objectiveSetRef, const Objective::Type type) {
+    const auto& objectiveSet = model.find(objectiveSetRef);
+    if (objectiveSet == nullptr) {
+        return nullptr;
+    }
+    const auto& objectives = objectiveSet->getObjectivesByType(type);
+    if (objectives.empty()) {
+        return nullptr;
+    }
+    return *objectives.begin();
+}
+
+static shared_ptr<Objective> getObjective(const Model& model, const Reference<ObjectiveSet>& objectiveSetRef, const Objective::Type type) {
+    const auto& objective = findObjective(model, objectiveSetRef, type);
+    if (objective == nullptr) {
+        throw logic_error("Missing objective: " + to_str(objectiveSetRef));
+    }
+    return objective;
+}
+
+shared_ptr<FrequencySearch> LinearModal::getFrequencySearch() const {
+    return static_pointer_cast<FrequencySearch>(getObjective(model, frequencySearchRef, Objective::Type::FREQUENCY_SEARCH));
 }
 
 bool LinearModal::validate() const {
     bool isValid = Analysis::validate();
-    if (!getFrequencySearch()) {
+    if (!findObjective(model, frequencySearchRef, Objective::Type::FREQUENCY_SEARCH)) {
         if (model.configuration.logLevel >= LogLevel::INFO) {
             cout << "Modal analysis is not valid: cannot find frenquency search:" << frequencySearchRef << endl;
         }
@@ -697,12 +715,7 @@ LinearDynaModalFreq::LinearDynaModalFreq(Model& model, const Reference<Objective
 }
 
 shared_ptr<ModalDamping> LinearDynaModalFreq::getModalDamping() const {
-    const auto& objectiveSet = model.find(modal_damping_reference);
-    if (objectiveSet == nullptr) {
-        return nullptr;
-    }
-    const auto& objectives = objectiveSet->getObjectivesByType(Objective::Type::MODAL_DAMPING);
-    return static_pointer_cast<ModalDamping>(*objectives.begin());
+    return static_pointer_cast<ModalDamping>(findObjective(model, modal_damping_reference, Objective::Type::MODAL_DAMPING));
 }
 
 bool LinearDynaModalFreq::hasModalDamping() const {
@@ -710,14 +723,12 @@ bool LinearDynaModalFreq::hasModalDamping() const {
 }
 
 shared_ptr<FrequencyExcit> LinearDynaModalFreq::getExcitationFrequencies() const {
-    const auto& objectiveSet = model.find(frequencyExcitationRef);
-    const auto& objectives = objectiveSet->getObjectivesByType(Objective::Type::FREQUENCY_EXCIT);
-    return static_pointer_cast<FrequencyExcit>(*objectives.begin());
+    return static_pointer_cast<FrequencyExcit>(getObjective(model, frequencyExcitationRef, Objective::Type::FREQUENCY_EXCIT));
 }
 
 bool LinearDynaModalFreq::validate() const {
     bool isValid = Analysis::validate();
-    if (getExcitationFrequencies() == nullptr) {
+    if (findObjective(model, frequencyExcitationRef, Objective::Type::FREQUENCY_EXCIT) == nullptr) {
         if (model.configuration.logLevel >= LogLevel::INFO) {
             cout << "Modal analysis is not valid: cannot find frenquency excitation:" << frequencyExcitationRef << endl;
         }
@@ -726,7 +737,7 @@ bool LinearDynaModalFreq::validate() const {
     return isValid;
 }
 
-bool LinearDynaModalFreq::canReuse(const std::shared_ptr<Analysis>& otherAnalysis) const noexcept {
+bool LinearDynaModalFreq::canReuse(const std::shared_ptr<Analysis>& otherAnalysis) const {
     if (not otherAnalysis->isModal()) {
         return false;
     }
@@ -760,14 +771,12 @@ LinearDynaDirectFreq::LinearDynaDirectFreq(Model& model,
 }
 
 shared_ptr<FrequencyExcit> LinearDynaDirectFreq::getExcitationFrequencies() const {
-    const auto& objectiveSet = model.find(frequencyExcitationRef);
-    const auto& objectives = objectiveSet->getObjectivesByType(Objective::Type::FREQUENCY_EXCIT);
-    return static_pointer_cast<FrequencyExcit>(*objectives.begin());
+    return static_pointer_cast<FrequencyExcit>(getObjective(model, frequencyExcitationRef, Objective::Type::FREQUENCY_EXCIT));
 }
 
 bool LinearDynaDirectFreq::validate() const {
     bool isValid = Analysis::validate();
-    if (getExcitationFrequencies() == nullptr) {
+    if (findObjective(model, frequencyExcitationRef, Objective::Type::FREQUENCY_EXCIT) == nullptr) {
         if (model.configuration.logLevel >= LogLevel::INFO) {
             cout << "Direct analysis is not valid: cannot find frenquency excitation:" << frequencyExcitationRef << endl;
         }
diff --git a/Abstract/Analysis.h b/Abstract/Analysis.h
index bc9b169..24a980a 100644
--- a/Abstract/Analysis.h
+++ b/Abstract/Analysis.h
@@ -103,7 +103,7 @@ public:
 
     std::string getParameter(const ModelParameter& parameter) const noexcept;
 
-    virtual bool canReuse(const std::shared_ptr<Analysis>&) const noexcept {
+    virtual bool canReuse(const std::shared_ptr<Analysis>&) const {
         return false;
     }
 
@@ -216,7 +216,7 @@ protected:
 public:
     LinearModal(Model&, const Reference<ObjectiveSet>&, const std::string original_label = "", const int original_id = NO_ORIGINAL_ID, const Type type = Type::LINEAR_MODAL);
     //LinearModal(Model&, const int frequency_band_original_id, const std::string original_label = "", const int original_id = NO_ORIGINAL_ID, const Type type = Type::LINEAR_MODAL);
-    std::shared_ptr<FrequencySearch> getFrequencySearch() const noexcept;
+    std::shared_ptr<FrequencySearch> getFrequencySearch() const;
     int getFrequencySearchSetId() const noexcept {
         return frequencySearchRef.original_id;
     }
@@ -273,7 +273,7 @@ public:
     std::shared_ptr<ModalDamping> getModalDamping() const;
     bool hasModalDamping() const;
     std::shared_ptr<FrequencyExcit> getExcitationFrequencies() const;
-    bool canReuse(const std::shared_ptr<Analysis>&) const noexcept override;
+    bool canReuse(const std::shared_ptr<Analysis>&) const override;
     bool validate() const override;
 };
 
diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 60348f8..803c029 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2224,10 +2224,12 @@ shared_ptr<NonLinearStrategy> AsterWriter::getNonLinearStrategy(
 	shared_ptr<NonLinearStrategy> nonLinearStrategy = nullptr;
 	const auto& strategy = nonLinAnalysis->model.find(nonLinAnalysis->strategy_reference);
     if (strategy == nullptr) {
-        handleWritingError("Cannot find nonlinear strategy" + to_str(nonLinAnalysis->strategy_reference));
+        throw logic_error("Cannot find nonlinear strategy" + to_str(nonLinAnalysis->strategy_reference));
+    }
+    const auto& objectives = strategy->getObjectivesByType(Objective::Type::NONLINEAR_PARAMETERS);
+    if (objectives.empty()) {
+        throw logic_error("Empty nonlinear strategy" + to_str(nonLinAnalysis->strategy_reference));
     }
-    const auto& objectiveSet = nonLinAnalysis->model.find(nonLinAnalysis->strategy_reference);
-    const auto& objectives = objectiveSet->getObjectivesByType(Objective::Type::NONLINEAR_PARAMETERS);
 	return static_pointer_cast<NonLinearStrategy>(*objectives.begin());
 }
 
-- 
2.43.0


From 68f79ebd22f4f52d1ba277cc90eda2581a1c072c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:31 +0000
Subject: [PATCH 096/117] fix: a missing material is reported instead of
 dereferenced

---
 Abstract/Element.cpp  | 5 ++++-
 Abstract/Model.cpp    | 3 +++
 Aster/AsterWriter.cpp | 7 +++++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index 2999320..b36d84d 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -110,7 +110,10 @@ bool ElementSet::hasMaterials() const {
 }
 
 std::shared_ptr<Material> ElementSet::mainMaterial() const {
-    const auto& mainMaterial = this->model.materials.find(*(materialRefs.begin()));
+    const auto& mainMaterial = materialRefs.empty() ? nullptr : this->model.materials.find(*(materialRefs.begin()));
+    if (mainMaterial == nullptr) {
+        throw logic_error("Missing material of " + to_str(*this));
+    }
     if (model.configuration.logLevel >= LogLevel::TRACE)
         cout << "ElementSet:" << *this << " has main material:" << *mainMaterial << endl;
     return mainMaterial;
diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 84cd8a9..a9be69d 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -940,6 +940,9 @@ void Model::emulateAdditionalMass() {
             newMaterial->addNature(make_shared<ElasticNature>(*this, 0, 0, 0, rho));
             materials.add(newMaterial);
             for (const auto& material : cellElementSet->getMaterials()) {
+                if (material == nullptr) {
+                    continue; // missing
+                }
                 cellElementSet->unassignMaterial(material);
             }
             cellElementSet->assignMaterial(newMaterial);
diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 803c029..3065811 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1067,6 +1067,10 @@ void AsterWriter::writeMaterials() {
                 continue;
             }
             for (const auto& material : cells->getMaterials()) {
+                if (material == nullptr) {
+                    handleWritingError("Missing material of " + to_str(*cells));
+                    continue;
+                }
                 comm_file_ofs << "                          _F(MATER=M" << material->getId() << ",";
                 writeCellContainer(cells);
                 comm_file_ofs << ")," << endl;
@@ -2534,6 +2538,9 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
 		comm_file_ofs << "                    COMPORTEMENT=(" << endl;
 		for (const auto& elementSet : asterModel->model.elementSets) {
             for (const auto& material : elementSet->getMaterials()) {
+                if (material == nullptr) {
+                    continue; // already reported
+                }
                 if (elementSet->hasMaterials() and elementSet->effective()) {
                     comm_file_ofs << "                          _F(";
                     const auto& cellElementSet = dynamic_pointer_cast<CellElementSet>(elementSet);
-- 
2.43.0


From efaef803e09543be66ad1e9f05684d1344e6016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:31 +0000
Subject: [PATCH 097/117] fix: a missing coordinate system is reported instead
 of dereferenced

---
 Abstract/Mesh.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Abstract/Mesh.cpp b/Abstract/Mesh.cpp
index 21c0e07..a731a4a 100644
--- a/Abstract/Mesh.cpp
+++ b/Abstract/Mesh.cpp
@@ -668,7 +668,11 @@ pos_t Mesh::findOrientation(const OrientationCoordinateSystem & ocs) const{
 }
 
 shared_ptr<vega::CoordinateSystem> Mesh::getCoordinateSystemByPosition(const pos_t pos) const{
-	return coordinateSystemStorage.findByPosition(pos);
+    const auto& coordinateSystem = coordinateSystemStorage.findByPosition(pos);
+    if (coordinateSystem == nullptr) {
+        throw logic_error("Coordinate system in position " + to_string(pos) + " is missing");
+    }
+    return coordinateSystem;
 }
 
 string Mesh::getName() const noexcept {
-- 
2.43.0


From de6c28501e3ee26744d0e9fc155873ae094723c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:03 +0000
Subject: [PATCH 098/117] fix: references to loadings, constraints or
 objectives that validation removed are skipped

---
 Abstract/Analysis.cpp | 36 ++++++++++++++++++------------------
 Abstract/Analysis.h   | 38 +++++++++++++++++++-------------------
 Abstract/Loading.h    |  2 +-
 Abstract/Model.cpp    | 38 ++++++++++++++++++++++++++++----------
 Abstract/Model.h      |  4 ++--
 5 files changed, 68 insertions(+), 50 deletions(-)

diff --git a/Abstract/Analysis.cpp b/Abstract/Analysis.cpp
index ae178cd..48d0f85 100644
--- a/Abstract/Analysis.cpp
+++ b/Abstract/Analysis.cpp
@@ -72,7 +72,7 @@ void Analysis::setParameter(const ModelParameter& parameter, const string& value
     parameters[parameter] = value;
 }
 
-bool Analysis::contains(const ModelParameter& parameter) const noexcept {
+bool Analysis::contains(const ModelParameter& parameter) const {
     return this->parameters.find(parameter) != this->parameters.end()
             or model.contains(parameter);
 }
@@ -105,7 +105,7 @@ vector<shared_ptr<LoadSet>> Analysis::getLoadSets() const noexcept {
     return result;
 }
 
-vector<shared_ptr<Constraint>> Analysis::getConstraints() const noexcept {
+vector<shared_ptr<Constraint>> Analysis::getConstraints() const {
     vector<shared_ptr<Constraint>> result;
     for (const auto& constraintSet : getConstraintSets()) {
         if (constraintSet == nullptr) {
@@ -120,7 +120,7 @@ vector<shared_ptr<Constraint>> Analysis::getConstraints() const noexcept {
     return result;
 }
 
-vector<shared_ptr<Loading>> Analysis::getLoadings() const noexcept {
+vector<shared_ptr<Loading>> Analysis::getLoadings() const {
     vector<shared_ptr<Loading>> result;
     for (const auto& loadSet : getLoadSets()) {
         if (loadSet == nullptr) {
@@ -135,7 +135,7 @@ vector<shared_ptr<Loading>> Analysis::getLoadings() const noexcept {
     return result;
 }
 
-vector<shared_ptr<BoundaryCondition>> Analysis::getBoundaryConditions() const noexcept {
+vector<shared_ptr<BoundaryCondition>> Analysis::getBoundaryConditions() const {
     vector<shared_ptr<BoundaryCondition>> result;
     for (const auto& constraintSet : getConstraintSets()) {
         if (constraintSet == nullptr) {
@@ -208,7 +208,7 @@ void Analysis::remove(const Reference<ObjectiveSet> objectiveSetReference) {
     }
 }
 
-bool Analysis::contains(const Reference<LoadSet> loadSetRef) const noexcept {
+bool Analysis::contains(const Reference<LoadSet> loadSetRef) const {
     for (const auto& loadset : getLoadSets()) {
         if (loadSetRef == loadset->getReference()) {
             return true;
@@ -217,7 +217,7 @@ bool Analysis::contains(const Reference<LoadSet> loadSetRef) const noexcept {
     return false;
 }
 
-bool Analysis::contains(const Reference<ConstraintSet> constraintSetRef) const noexcept {
+bool Analysis::contains(const Reference<ConstraintSet> constraintSetRef) const {
     for (const auto& constraintset : getConstraintSets()) {
         if (constraintSetRef == constraintset->getReference()) {
             return true;
@@ -226,7 +226,7 @@ bool Analysis::contains(const Reference<ConstraintSet> constraintSetRef) const n
     return false;
 }
 
-bool Analysis::contains(const Reference<ObjectiveSet> objectiveSetRef) const noexcept {
+bool Analysis::contains(const Reference<ObjectiveSet> objectiveSetRef) const {
     for (const auto& objectiveSet: getObjectiveSets()) {
         if (objectiveSetRef == objectiveSet->getReference()) {
             return true;
@@ -235,7 +235,7 @@ bool Analysis::contains(const Reference<ObjectiveSet> objectiveSetRef) const noe
     return false;
 }
 
-bool Analysis::contains(const LoadSet::Type type) const noexcept {
+bool Analysis::contains(const LoadSet::Type type) const {
     for (const auto& loadset : getLoadSets()) {
         if (type == loadset->type) {
             return true;
@@ -244,7 +244,7 @@ bool Analysis::contains(const LoadSet::Type type) const noexcept {
     return false;
 }
 
-bool Analysis::contains(const ConstraintSet::Type type) const noexcept {
+bool Analysis::contains(const ConstraintSet::Type type) const {
     for (const auto& constraintset : this->getConstraintSets()) {
         if (type == constraintset->type) {
             return true;
@@ -253,7 +253,7 @@ bool Analysis::contains(const ConstraintSet::Type type) const noexcept {
     return false;
 }
 
-bool Analysis::contains(const ObjectiveSet::Type type) const noexcept {
+bool Analysis::contains(const ObjectiveSet::Type type) const {
     for (const auto& objectiveSet : this->getObjectiveSets()) {
         if (type == objectiveSet->type) {
             return true;
@@ -262,7 +262,7 @@ bool Analysis::contains(const ObjectiveSet::Type type) const noexcept {
     return false;
 }
 
-bool Analysis::contains(const Objective::Type type) const noexcept {
+bool Analysis::contains(const Objective::Type type) const {
     for (const auto& objective : this->getObjectives()) {
         if (type == objective->type) {
             return true;
@@ -296,7 +296,7 @@ vector<shared_ptr<ObjectiveSet>> Analysis::getObjectiveSets() const noexcept {
     return result;
 }
 
-vector<shared_ptr<Assertion>> Analysis::getAssertions() const noexcept {
+vector<shared_ptr<Assertion>> Analysis::getAssertions() const {
     vector<shared_ptr<Assertion>> result;
     for (const auto& objectiveSet : getObjectiveSets()) {
         if (objectiveSet == nullptr) {
@@ -311,7 +311,7 @@ vector<shared_ptr<Assertion>> Analysis::getAssertions() const noexcept {
     return result;
 }
 
-vector<shared_ptr<Objective>> Analysis::getObjectives() const noexcept {
+vector<shared_ptr<Objective>> Analysis::getObjectives() const {
     vector<shared_ptr<Objective>> result;
     for (const auto& objectiveSet : getObjectiveSets()) {
         if (objectiveSet == nullptr) {
@@ -326,7 +326,7 @@ vector<shared_ptr<Objective>> Analysis::getObjectives() const noexcept {
     return result;
 }
 
-vector<shared_ptr<ConstraintSet>> Analysis::filter(const ConstraintSet::Type& type) const noexcept {
+vector<shared_ptr<ConstraintSet>> Analysis::filter(const ConstraintSet::Type& type) const {
     vector<shared_ptr<ConstraintSet>> constraintSets;
     for (const auto& constraintSet : getConstraintSets()) {
         if (constraintSet->type != type)
@@ -336,7 +336,7 @@ vector<shared_ptr<ConstraintSet>> Analysis::filter(const ConstraintSet::Type& ty
     return constraintSets;
 }
 
-vector<shared_ptr<LoadSet>> Analysis::filter(const LoadSet::Type& type) const noexcept {
+vector<shared_ptr<LoadSet>> Analysis::filter(const LoadSet::Type& type) const {
     vector<shared_ptr<LoadSet>> loadSets;
     for (const auto& loadSet : getLoadSets()) {
         if (loadSet->type != type)
@@ -346,7 +346,7 @@ vector<shared_ptr<LoadSet>> Analysis::filter(const LoadSet::Type& type) const no
     return loadSets;
 }
 
-vector<shared_ptr<Constraint>> Analysis::filter(const Constraint::Type& type) const noexcept {
+vector<shared_ptr<Constraint>> Analysis::filter(const Constraint::Type& type) const {
     vector<shared_ptr<Constraint>> constraints;
     for (const auto& constraint : getConstraints()) {
         if (constraint->type != type)
@@ -356,7 +356,7 @@ vector<shared_ptr<Constraint>> Analysis::filter(const Constraint::Type& type) co
     return constraints;
 }
 
-vector<shared_ptr<Loading>> Analysis::filter(const Loading::Type& type) const noexcept {
+vector<shared_ptr<Loading>> Analysis::filter(const Loading::Type& type) const {
     vector<shared_ptr<Loading>> loadings;
     for (const auto& loading : getLoadings()) {
         if (loading->type != type)
@@ -366,7 +366,7 @@ vector<shared_ptr<Loading>> Analysis::filter(const Loading::Type& type) const no
     return loadings;
 }
 
-vector<shared_ptr<Objective>> Analysis::filter(const Objective::Type& type) const noexcept {
+vector<shared_ptr<Objective>> Analysis::filter(const Objective::Type& type) const {
     vector<shared_ptr<Objective>> objectives;
     for (const auto& objective : getObjectives()) {
         if (objective->type != type)
diff --git a/Abstract/Analysis.h b/Abstract/Analysis.h
index 24a980a..f3a08e9 100644
--- a/Abstract/Analysis.h
+++ b/Abstract/Analysis.h
@@ -84,14 +84,14 @@ public:
     void add(const Reference<ConstraintSet>&);
     void add(const Reference<ObjectiveSet>&);
 
-    bool contains(const Reference<LoadSet>) const noexcept;
-    bool contains(const Reference<ConstraintSet>) const noexcept;
-    bool contains(const Reference<ObjectiveSet>) const noexcept;
+    bool contains(const Reference<LoadSet>) const;
+    bool contains(const Reference<ConstraintSet>) const;
+    bool contains(const Reference<ObjectiveSet>) const;
 
-    bool contains(const LoadSet::Type) const noexcept;
-    bool contains(const ConstraintSet::Type) const noexcept;
-    bool contains(const ObjectiveSet::Type) const noexcept;
-    bool contains(const Objective::Type) const noexcept;
+    bool contains(const LoadSet::Type) const;
+    bool contains(const ConstraintSet::Type) const;
+    bool contains(const ObjectiveSet::Type) const;
+    bool contains(const Objective::Type) const;
 
     void remove(const Reference<LoadSet>);
     void remove(const Reference<ConstraintSet>);
@@ -99,7 +99,7 @@ public:
 
     void setParameter(const ModelParameter& parameter, const std::string& value) noexcept;
 
-    bool contains(const ModelParameter& parameter) const noexcept;
+    bool contains(const ModelParameter& parameter) const;
 
     std::string getParameter(const ModelParameter& parameter) const noexcept;
 
@@ -122,17 +122,17 @@ public:
      * plus eventually the common LoadSet of all analyzes of the model
      */
     std::vector<std::shared_ptr<LoadSet>> getLoadSets() const noexcept;
-    std::vector<std::shared_ptr<Constraint>> getConstraints() const noexcept;
-    std::vector<std::shared_ptr<Loading>> getLoadings() const noexcept;
-    std::vector<std::shared_ptr<BoundaryCondition>> getBoundaryConditions() const noexcept;
-    std::vector<std::shared_ptr<Assertion>> getAssertions() const noexcept;
-    std::vector<std::shared_ptr<Objective>> getObjectives() const noexcept;
-
-    std::vector<std::shared_ptr<ConstraintSet>> filter(const ConstraintSet::Type& type) const noexcept;
-    std::vector<std::shared_ptr<LoadSet>> filter(const LoadSet::Type& type) const noexcept;
-    std::vector<std::shared_ptr<Constraint>> filter(const Constraint::Type& type) const noexcept;
-    std::vector<std::shared_ptr<Loading>> filter(const Loading::Type& type) const noexcept;
-    std::vector<std::shared_ptr<Objective>> filter(const Objective::Type& type) const noexcept;
+    std::vector<std::shared_ptr<Constraint>> getConstraints() const;
+    std::vector<std::shared_ptr<Loading>> getLoadings() const;
+    std::vector<std::shared_ptr<BoundaryCondition>> getBoundaryConditions() const;
+    std::vector<std::shared_ptr<Assertion>> getAssertions() const;
+    std::vector<std::shared_ptr<Objective>> getObjectives() const;
+
+    std::vector<std::shared_ptr<ConstraintSet>> filter(const ConstraintSet::Type& type) const;
+    std::vector<std::shared_ptr<LoadSet>> filter(const LoadSet::Type& type) const;
+    std::vector<std::shared_ptr<Constraint>> filter(const Constraint::Type& type) const;
+    std::vector<std::shared_ptr<Loading>> filter(const Loading::Type& type) const;
+    std::vector<std::shared_ptr<Objective>> filter(const Objective::Type& type) const;
 
     /**
      * Return true if the analysis has at least one SPC (or equivalent SPCD, MPCD, etc)
diff --git a/Abstract/Loading.h b/Abstract/Loading.h
index d40aa88..381f141 100644
--- a/Abstract/Loading.h
+++ b/Abstract/Loading.h
@@ -98,7 +98,7 @@ public:
 	static const std::string name;
 	static const std::map<Type, std::string> stringByType;
 	size_t size() const;
-	inline bool empty() const noexcept { return size() == 0;};
+	inline bool empty() const { return size() == 0;};
 	std::set<std::shared_ptr<Loading>, ptrLess<Loading> > getLoadings() const;
 	std::set<std::shared_ptr<Loading>, ptrLess<Loading> > getLoadingsByType(Loading::Type) const;
 	std::string getGroupName() const noexcept;
diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index a9be69d..96afacc 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -443,7 +443,10 @@ set<shared_ptr<Loading>, ptrLess<Loading>> Model::getLoadingsByLoadSet(
         for (const auto& itm2 : itm->second) {
             const auto& loading = find(itm2);
             if (loading == nullptr) {
-                throw logic_error("Missing loading declared in loadingSet : " + to_str(itm2));
+                if (translationMode == ConfigurationParameters::TranslationMode::MODE_STRICT) {
+                    throw logic_error("Missing loading declared in loadingSet : " + to_str(itm2));
+                }
+                continue; // it was removed because it is not valid
             }
             result.insert(loading);
         }
@@ -455,9 +458,12 @@ set<shared_ptr<Loading>, ptrLess<Loading>> Model::getLoadingsByLoadSet(
         if (itm3 != itm2->second.end()) {
             for (const auto& itm4 : itm3->second) {
                 shared_ptr<Loading> loading = find(itm4);
-            if (loading == nullptr) {
-                throw logic_error("Missing loading declared in loadingSet : " + to_str(itm4));
-            }
+                if (loading == nullptr) {
+                    if (translationMode == ConfigurationParameters::TranslationMode::MODE_STRICT) {
+                        throw logic_error("Missing loading declared in loadingSet : " + to_str(itm4));
+                    }
+                    continue; // it was removed because it is not valid
+                }
                 result.insert(loading);
             }
         }
@@ -484,7 +490,10 @@ set<shared_ptr<Constraint>, ptrLess<Constraint>> Model::getConstraintsByConstrai
     auto itm = constraintReferences_by_constraintSet_ids.find(constraintSetReference.id);
     if (itm != constraintReferences_by_constraintSet_ids.end()) {
         for (const auto& itm2 : itm->second) {
-            result.insert(find(itm2));
+            const auto& item = find(itm2);
+            if (item != nullptr) {
+                result.insert(item);
+            }
         }
     }
     auto itm2 = constraintReferences_by_constraintSet_original_ids_by_constraintSet_type.find(
@@ -493,7 +502,10 @@ set<shared_ptr<Constraint>, ptrLess<Constraint>> Model::getConstraintsByConstrai
         auto itm3 = itm2->second.find(constraintSetReference.original_id);
         if (itm3 != itm2->second.end()) {
             for (const auto& itm4 : itm3->second) {
-                result.insert(find(itm4));
+                const auto& item = find(itm4);
+                if (item != nullptr) {
+                    result.insert(item);
+                }
             }
         }
     }
@@ -528,7 +540,10 @@ set<shared_ptr<Objective>, ptrLess<Objective>> Model::getObjectivesByObjectiveSe
     auto itm = objectiveReferences_by_objectiveSet_ids.find(objectiveSetReference.id);
     if (itm != objectiveReferences_by_objectiveSet_ids.end()) {
         for (const auto& itm2 : itm->second) {
-            result.insert(find(itm2));
+            const auto& item = find(itm2);
+            if (item != nullptr) {
+                result.insert(item);
+            }
         }
     }
     auto itm2 = objectiveReferences_by_objectiveSet_original_ids_by_objectiveSet_type.find(
@@ -537,7 +552,10 @@ set<shared_ptr<Objective>, ptrLess<Objective>> Model::getObjectivesByObjectiveSe
         auto itm3 = itm2->second.find(objectiveSetReference.original_id);
         if (itm3 != itm2->second.end()) {
             for (const auto& itm4 : itm3->second) {
-                result.insert(find(itm4));
+                const auto& item = find(itm4);
+                if (item != nullptr) {
+                    result.insert(item);
+                }
             }
         }
     }
@@ -849,7 +867,7 @@ bool Model::needsLargeDisplacements() const {
     return largeDisp != 0;
 }
 
-std::shared_ptr<Analysis> Model::reusableAnalysisFor(const shared_ptr<Analysis>& analysis) const noexcept {
+std::shared_ptr<Analysis> Model::reusableAnalysisFor(const shared_ptr<Analysis>& analysis) const {
     for (const auto& previousAnalysis : this->analyses) {
         if (*previousAnalysis == *analysis)
             break; // only looking at previous analysis
@@ -860,7 +878,7 @@ std::shared_ptr<Analysis> Model::reusableAnalysisFor(const shared_ptr<Analysis>&
     return nullptr;
 }
 
-bool Model::canBeReused(const shared_ptr<Analysis>& analysis) const noexcept {
+bool Model::canBeReused(const shared_ptr<Analysis>& analysis) const {
     bool isAfter = false;
     for (const auto& otherAnalysis : this->analyses) {
         if (*otherAnalysis == *analysis) {
diff --git a/Abstract/Model.h b/Abstract/Model.h
index e3c551f..2f4354d 100644
--- a/Abstract/Model.h
+++ b/Abstract/Model.h
@@ -441,8 +441,8 @@ public:
     std::vector<std::shared_ptr<Beam>> getTrusses() const;
     bool needsLargeDisplacements() const;
 
-    std::shared_ptr<Analysis> reusableAnalysisFor(const std::shared_ptr<Analysis>&) const noexcept;
-    bool canBeReused(const std::shared_ptr<Analysis>&) const noexcept;
+    std::shared_ptr<Analysis> reusableAnalysisFor(const std::shared_ptr<Analysis>&) const;
+    bool canBeReused(const std::shared_ptr<Analysis>&) const;
 
     /**
      * Method that is called when parsing is complete.
-- 
2.43.0


From 97203be2fa2432d9d27b98d7b5166abe446828dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:03 +0000
Subject: [PATCH 099/117] fix: a node whose coordinate system is missing is
 written to MED like everywhere else

---
 Abstract/Mesh.cpp   |  2 +-
 Aster/MedWriter.cpp | 17 +++++------------
 2 files changed, 6 insertions(+), 13 deletions(-)

diff --git a/Abstract/Mesh.cpp b/Abstract/Mesh.cpp
index a731a4a..c71031c 100644
--- a/Abstract/Mesh.cpp
+++ b/Abstract/Mesh.cpp
@@ -227,7 +227,7 @@ Node Mesh::findNode(const pos_t nodePosition) const {
       return Node(nodeData.id, nodeData.x, nodeData.y, nodeData.z, nodePosition, nodeData.dofs,
           nodeData.x, nodeData.y, nodeData.z, nodeData.cpPos, nodeData.cdPos, nodeData.nodePart);
 	} else {
-      shared_ptr<CoordinateSystem> coordSystem = this->getCoordinateSystemByPosition(nodeData.cpPos);
+      shared_ptr<CoordinateSystem> coordSystem = coordinateSystemStorage.findByPosition(nodeData.cpPos);
       if (coordSystem == nullptr) {
           ostringstream oss;
           oss << "ERROR: Coordinate System of position " << nodeData.cpPos << " for Node "<<nodeData.id<<" not found.";
diff --git a/Aster/MedWriter.cpp b/Aster/MedWriter.cpp
index 3c1f062..1c9b93c 100644
--- a/Aster/MedWriter.cpp
+++ b/Aster/MedWriter.cpp
@@ -211,18 +211,11 @@ void MedWriter::writeMED(const Model& model, const string& medFileName) {
 	}
 	vector<med_float> coordinates;
 	coordinates.reserve(nnodes);
-	for (const NodeData& nodeData : model.mesh.nodes.getNodeDatas()) {
-	    if (nodeData.cpPos == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
-            coordinates.push_back(nodeData.x);
-            coordinates.push_back(nodeData.y);
-            coordinates.push_back(nodeData.z);
-	    } else {
-	        shared_ptr<CoordinateSystem> coordSystem = model.mesh.getCoordinateSystemByPosition(nodeData.cpPos);
-            VectorialValue gCoord = coordSystem->positionToGlobal(VectorialValue(nodeData.x,nodeData.y,nodeData.z));
-            coordinates.push_back(gCoord.x());
-            coordinates.push_back(gCoord.y());
-            coordinates.push_back(gCoord.z());
-	    }
+	for (pos_t nodePosition = 0; nodePosition < static_cast<pos_t>(nnodes); nodePosition++) {
+	    const Node& node = model.mesh.findNode(nodePosition);
+        coordinates.push_back(node.x);
+        coordinates.push_back(node.y);
+        coordinates.push_back(node.z);
 	}
 	if (MEDmeshNodeCoordinateWr(fid, meshname, MED_NO_DT, MED_NO_IT, 0.0, MED_FULL_INTERLACE,
 			nnodes, coordinates.data()) < 0) {
-- 
2.43.0


From 39376f2e5a184f33c3dca00ca3f7a42511ba4267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:03 +0000
Subject: [PATCH 100/117] fix: a case control line without a value is reported

---
 Nastran/NastranParser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 01af479..7b1fd94 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -500,7 +500,12 @@ void NastranParser::parseExecutiveSection(NastranTokenizer& tok, Model& model,
                         if (parts.size() >= 2) {
                             handleParsingError("multiple spaces in parameter not yet implemented", tok, model);
                         }
-                        context[contextKey(keyword)] = parvalparts[1];
+                        if (parvalparts.size() < 2) {
+                            handleParsingWarning("Case control parameter " + keyword + ": value cannot be parsed. Line:" + currentRawDataLine, tok, model);
+                            context[keyword] = "";
+                        } else {
+                            context[contextKey(keyword)] = parvalparts[1];
+                        }
                     } else {
                         trim(parts[0]);boost::to_upper(parts[0]);
                         string partWithoutOptions = parts[0].substr(0, parts[0].find('('));
-- 
2.43.0


From 73a42744cbda870ecc761eb0bbc261a7736a7e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:03 +0000
Subject: [PATCH 101/117] fix: the Nastran writer does not terminate without an
 analysis or on a value it cannot write

---
 Nastran/NastranWriter.cpp | 24 ++++++++++++++----------
 Nastran/NastranWriter.h   | 20 ++++++++++----------
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index b0dfb31..f56a7d9 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -59,12 +59,12 @@ Line::Line(string _keyword) noexcept : keyword(_keyword) {
 	}
 }
 
-Line& Line::add() noexcept {
+Line& Line::add() {
 	this->add(string());
 	return *this;
 }
 
-Line& Line::add(double value) noexcept {
+Line& Line::add(double value) {
 	std::ostringstream strs;
 	if (is_zero(value)) {
         strs << "0.";
@@ -97,54 +97,54 @@ Line& Line::add(double value) noexcept {
 	return *this;
 }
 
-Line& Line::add(string value) noexcept {
+Line& Line::add(string value) {
 	std::ostringstream strs;
 	strs << internal << setw(this->fieldLength) << value;
 	this->fields.push_back(strs.str());
 	return *this;
 }
 
-Line& Line::add(const char* value) noexcept {
+Line& Line::add(const char* value) {
 	std::ostringstream strs;
 	strs << internal << setw(this->fieldLength) << value;
 	this->fields.push_back(strs.str());
 	return *this;
 }
 
-Line& Line::add(int value) noexcept {
+Line& Line::add(int value) {
 	std::ostringstream strs;
 	strs << internal << setw(this->fieldLength) << value;
 	this->fields.push_back(strs.str());
 	return *this;
 }
 
-Line& Line::skip(int numFieldsToSkip) noexcept {
+Line& Line::skip(int numFieldsToSkip) {
     for (int i = 0; i < numFieldsToSkip; i++) {
         add();
     }
 	return *this;
 }
 
-Line& Line::add(const vector<double> values) noexcept {
+Line& Line::add(const vector<double> values) {
 	for(double value : values) {
 		this->add(value);
 	}
 	return *this;
 }
 
-Line& Line::add(const vector<int> values) noexcept {
+Line& Line::add(const vector<int> values) {
 	for(int value : values) {
 		this->add(value);
 	}
 	return *this;
 }
 
-Line& Line::add(const DOFS dofs) noexcept {
+Line& Line::add(const DOFS dofs) {
 	this->add(dofs.nastranCode());
 	return *this;
 }
 
-Line& Line::add(const VectorialValue vector) noexcept {
+Line& Line::add(const VectorialValue vector) {
 	this->add(vector.x());
 	this->add(vector.y());
 	this->add(vector.z());
@@ -221,6 +221,10 @@ string NastranWriter::getNasFilename(const Model& model,
 
 void NastranWriter::writeSOL(const Model& model, ofstream& out) const
     {
+	if (model.analyses.empty()) {
+	    out << "$ WARN no analysis" << endl;
+	    return;
+	}
 	auto& firstAnalysis = *model.analyses.begin();
 	string analysisLabel;
 	if (isCosmic()) {
diff --git a/Nastran/NastranWriter.h b/Nastran/NastranWriter.h
index 3f3b995..c9280a1 100644
--- a/Nastran/NastranWriter.h
+++ b/Nastran/NastranWriter.h
@@ -33,16 +33,16 @@ class Line {
 	std::vector<std::string> fields;
 public:
 	Line(std::string) noexcept;
-	Line& add() noexcept;
-	Line& add(double) noexcept;
-	Line& add(std::string) noexcept;
-	Line& add(const char*) noexcept;
-	Line& add(int) noexcept;
-	Line& skip(int) noexcept;
-	Line& add(const std::vector<int>) noexcept;
-	Line& add(const std::vector<double>) noexcept;
-	Line& add(const DOFS) noexcept;
-	Line& add(const VectorialValue) noexcept;
+	Line& add();
+	Line& add(double);
+	Line& add(std::string);
+	Line& add(const char*);
+	Line& add(int);
+	Line& skip(int);
+	Line& add(const std::vector<int>);
+	Line& add(const std::vector<double>);
+	Line& add(const DOFS);
+	Line& add(const VectorialValue);
 };
 
 std::ostream &operator<<(std::ostream &out, const Line& line) noexcept;
-- 
2.43.0


From b190089896dc67d3a52022cfbaca63ac15a8242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:47 +0000
Subject: [PATCH 102/117] fix: the frame of a cell is an orientation only if it
 is one

---
 Abstract/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Mesh.cpp b/Abstract/Mesh.cpp
index c71031c..d4acd7c 100644
--- a/Abstract/Mesh.cpp
+++ b/Abstract/Mesh.cpp
@@ -534,7 +534,7 @@ Cell Mesh::findCell(const pos_t cellPosition) const {
 	}
 	shared_ptr<OrientationCoordinateSystem> ocs = nullptr;
 	if (cellData.csPos!=CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID)
-        ocs = static_pointer_cast<OrientationCoordinateSystem>(coordinateSystemStorage.findByPosition(cellData.csPos));
+        ocs = dynamic_pointer_cast<OrientationCoordinateSystem>(coordinateSystemStorage.findByPosition(cellData.csPos));
 
     double offset = 0.0;
     switch (cellType->dimension.code) {
-- 
2.43.0


From 07a1c872ba521cf40dfdf18846a418b1fc5c24ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:47 +0000
Subject: [PATCH 103/117] fix: reading a SET continued at the end of the file
 ends

---
 Nastran/NastranParser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 7b1fd94..d2169d7 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -286,8 +286,12 @@ string NastranParser::parseSubcom(NastranTokenizer& tok, Model& model,
 
 void NastranParser::addSet(NastranTokenizer& tok, Model& model) {
     string line = trim_copy(tok.currentRawDataLine());
-    while (line.back() == ',') {
+    while (not line.empty() and line.back() == ',') {
         tok.nextLine();
+        if (tok.nextSymbolType == NastranTokenizer::SymbolType::SYMBOL_EOF) {
+            handleParsingError("SET continued after the end of the file", tok, model);
+            return;
+        }
         line += trim_copy(tok.currentRawDataLine());
     }
     vector<string> parts;
-- 
2.43.0


From ad47e38d2861d717a2f9eb3d3bbd864dfcd2f620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:47 +0000
Subject: [PATCH 104/117] fix: an empty damping table is reported instead of
 dereferenced

---
 Systus/SystusDat.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Systus/SystusDat.cpp b/Systus/SystusDat.cpp
index 35c5c4e..ffdd220 100644
--- a/Systus/SystusDat.cpp
+++ b/Systus/SystusDat.cpp
@@ -50,7 +50,9 @@ void SystusWriter::writeFrequencyExcit(std::ostream& out, const std::shared_ptr<
 void SystusWriter::writeModalDamping(std::ostream& out, const shared_ptr<ModalDamping>& modalDamping) {
     out << "DAMPING ";
     shared_ptr<FunctionTable> modalDampingTable = modalDamping->getFunctionTable();
-    if ((modalDampingTable->getParaX()!=Function::ParaName::FREQ) || (modalDampingTable->getParaY()!=Function::ParaName::AMOR)) {
+    if (modalDampingTable->getBeginValuesXY() == modalDampingTable->getEndValuesXY()) {
+        handleWritingWarning("Dismissing empty damping table", "Analysis file");
+    } else if ((modalDampingTable->getParaX()!=Function::ParaName::FREQ) || (modalDampingTable->getParaY()!=Function::ParaName::AMOR)) {
         handleWritingWarning("Dismissing damping table with wrong units ("+to_string(static_cast<int>(modalDampingTable->getParaY()))+"/"+to_string(static_cast<int>(modalDampingTable->getParaX()))+")", "Analysis file");
     } else {
         const double tableDamping = modalDampingTable->getBeginValuesXY()->second;
-- 
2.43.0


From 2f1d2070336d2189ada0d8c653bf5860b83968a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:47 +0000
Subject: [PATCH 105/117] fix: a file including itself is refused

---
 Nastran/NastranParser.cpp | 16 ++++++++++++++++
 Nastran/NastranParser.h   |  1 +
 2 files changed, 17 insertions(+)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index d2169d7..a303721 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1853,12 +1853,28 @@ void NastranParser::parseInclude(NastranTokenizer& tok, Model& model) {
     fs::path includePath = currentFname.parent_path() / fileName;
     const string includePathStr = includePath.string();
     if (fs::exists(includePath)) {
+        // A file including itself, directly or not, would never end
+        const string currentFile = fs::canonical(currentFname).string();
+        const string includedFile = fs::canonical(includePath).string();
+        const bool isCurrentNew = filesBeingRead.insert(currentFile).second;
+        if (not filesBeingRead.insert(includedFile).second) {
+            if (isCurrentNew) {
+                filesBeingRead.erase(currentFile);
+            }
+            handleParsingError("File including itself "+includePathStr, tok, model);
+            tok.skipToNextKeyword();
+            return;
+        }
         ifstream istream(includePathStr);
         NastranTokenizer tok2 {istream, this->logLevel, includePathStr, this->translationMode};
         tok2.bulkSection();
         tok2.nextLine();
         parseBULKSection(tok2, model);
         istream.close();
+        filesBeingRead.erase(includedFile);
+        if (isCurrentNew) {
+            filesBeingRead.erase(currentFile);
+        }
     } else {
         handleParsingError("Missing include file "+includePathStr, tok, model);
     }
diff --git a/Nastran/NastranParser.h b/Nastran/NastranParser.h
index 39c9e9c..709dbb1 100644
--- a/Nastran/NastranParser.h
+++ b/Nastran/NastranParser.h
@@ -524,6 +524,7 @@ private:
     void parseParamW3(NastranTokenizer& tok, Model& model);
 
     void parseInclude(NastranTokenizer& tok, Model& model);
+    std::set<std::string> filesBeingRead; /**< files whose inclusion is not finished */
 
     /**
      * PARAM LFREQ
-- 
2.43.0


From fd52d15eeefde1d03f9edc1509d82e5d41e14e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:13 +0000
Subject: [PATCH 106/117] fix: springs properties that no element uses are not
 written by Systus

---
 Systus/SystusWriter.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 0546467..3b8ef85 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -1788,6 +1788,9 @@ void SystusWriter::fillTables(const SystusModel& systusModel, const int idSubcas
 
             const auto& ss = static_pointer_cast<ScalarSpring>(elementSet);
             const auto& dofsSpring = ss->getDOFSSpring();
+            if (dofsSpring.empty()) {
+                continue; // not used by any element
+            }
             if (dofsSpring.size()!=1){
                 handleWritingWarning(to_str(*elementSet) + " spring directions after the first one will be dismissed.", "FillTable");
             }
@@ -2173,6 +2176,10 @@ void SystusWriter::fillMaterial(const SystusModel& systusModel, const int idSubc
             case ElementSet::Type::SCALAR_SPRING:{
                 const auto& ss = static_pointer_cast<ScalarSpring>(elementSet);
                 const auto& dofsSpring = ss->getDOFSSpring();
+                if (dofsSpring.empty()) {
+                    elementSet->markAsWritten();
+                    break; // not used by any element
+                }
                 if (dofsSpring.size()!=1){
                     handleWritingWarning(to_str(*elementSet) + " spring directions after the first one will be dismissed.", "Material");
                 }
@@ -2281,6 +2288,9 @@ void SystusWriter::fillMatrices(const SystusModel& systusModel, const int idSubc
 
         const auto& ss = static_pointer_cast<ScalarSpring>(elementSet);
         const auto& dofsSpring = ss->getDOFSSpring();
+        if (dofsSpring.empty()) {
+            continue; // not used by any element
+        }
         if (dofsSpring.size() != 1) {
             handleWritingWarning(to_str(*elementSet) + " spring directions after the first one will be dismissed.", "FillMatrices");
         }
@@ -2783,6 +2793,9 @@ size_t SystusWriter::writeElements(const SystusModel& systusModel, const int idS
             dim = 1;
             const auto& ss = static_pointer_cast<ScalarSpring>(elementSet);
             const auto& dofsSpring = ss->getDOFSSpring();
+            if (dofsSpring.empty()) {
+                continue; // not used by any element
+            }
             if (dofsSpring.size()!=1){
                 handleWritingWarning(to_str(*elementSet) + " spring directions after the first one will be dismissed.", "Elements");
             }
-- 
2.43.0


From af3df776b120c7c90893ec338b30d1216df1b706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:12 +0000
Subject: [PATCH 107/117] fix: the Nastran writer skips pressures it cannot
 write

---
 Nastran/NastranWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index f56a7d9..ffeb10d 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -705,6 +705,7 @@ void NastranWriter::writeLoadings(const Model& model, ofstream& out) const
             const auto& forceSurface = dynamic_pointer_cast<ForceSurfaceTwoNodes>(loading);
             if (forceSurface == nullptr) {
                 handleWritingError("Need to implement writing other ForceSurface subclasses");
+                continue;
             }
             const auto& cellPositions = forceSurface->getCellPositionsIncludingGroups();
             for (const pos_t cellPosition: cellPositions) {
-- 
2.43.0


From 5117b7933636bc92ecf1045d98d7589ff4130940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:53 +0000
Subject: [PATCH 108/117] fix: unreadable fields stop a strict translation with
 the exit code of parsing errors

---
 Abstract/SolverInterfaces.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/Abstract/SolverInterfaces.cpp b/Abstract/SolverInterfaces.cpp
index dcf7786..0c7bb18 100644
--- a/Abstract/SolverInterfaces.cpp
+++ b/Abstract/SolverInterfaces.cpp
@@ -136,11 +136,7 @@ void Tokenizer::handleParsingError(const string& message) {
 
     switch (translationMode) {
     case ConfigurationParameters::TranslationMode::MODE_STRICT:
-        // Problem on static over Alpine
-        //throw ParsingException(message, fileName, lineNumber, currentKeyword);
-        cerr << ParsingException(message, fileName, lineNumber, currentKeyword);
-        vega::stacktrace();
-        exit(2);
+        throw ParsingException(message, fileName, lineNumber, currentKeyword);
     case ConfigurationParameters::TranslationMode::MESH_AT_LEAST:
         //model.onlyMesh = true;
         cerr << ParsingMessageException(message, fileName, lineNumber, currentKeyword) << endl;
-- 
2.43.0


From 98e926f20dd07bdf34e82dbce9e7b36f2ca95d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:39 +0000
Subject: [PATCH 109/117] fix: mesh-at-least translates only the mesh when
 something was not understood

---
 Abstract/Element.cpp          |  8 +++++++
 Abstract/Element.h            |  2 ++
 Abstract/Mesh.cpp             | 16 ++++++++++++++
 Abstract/Mesh.h               |  4 ++++
 Abstract/Model.cpp            | 41 +++++++++++++++++++++++++++++++++++
 Abstract/Model.h              |  5 +++++
 Abstract/SolverInterfaces.cpp |  1 -
 Nastran/NastranParser.cpp     |  6 +++++
 8 files changed, 82 insertions(+), 1 deletion(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index b36d84d..41a3311 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -93,6 +93,10 @@ void CellElementSet::unassignMaterial(const shared_ptr<Material>& material) {
     materialRefs.erase(material->getReference());
 }
 
+void CellElementSet::unassignMaterials() {
+    materialRefs.clear();
+}
+
 set<shared_ptr<Material>> ElementSet::getMaterials() const {
     set<shared_ptr<Material>> materials;
     for (const auto& materialRef : materialRefs) {
@@ -389,6 +393,10 @@ std::shared_ptr<Material> CompositeLayer::getMaterial() const {
     return material;
 }
 
+bool CompositeLayer::hasMaterial() const {
+    return model.materials.find(_materialRef) != nullptr;
+}
+
 void CompositeLayer::setMaterial(const Reference<Material>& materialRef) {
     _materialRef = materialRef;
 }
diff --git a/Abstract/Element.h b/Abstract/Element.h
index c58ebd8..aa53159 100644
--- a/Abstract/Element.h
+++ b/Abstract/Element.h
@@ -133,6 +133,7 @@ public:
     void assignMaterial(const std::shared_ptr<Material>& material);
     void unassignMaterial(const Reference<Material>& materialRef);
     void unassignMaterial(const std::shared_ptr<Material>& material);
+    void unassignMaterials();
 };
 
 class RecoveryPoint {
@@ -325,6 +326,7 @@ class CompositeLayer {
 	}
 public:
     std::shared_ptr<Material> getMaterial() const;
+    bool hasMaterial() const;
     void setMaterial(const Reference<Material>&);
 	inline double getThickness() const noexcept {
 	    return _thickness;
diff --git a/Abstract/Mesh.cpp b/Abstract/Mesh.cpp
index d4acd7c..63dee99 100644
--- a/Abstract/Mesh.cpp
+++ b/Abstract/Mesh.cpp
@@ -675,6 +675,22 @@ shared_ptr<vega::CoordinateSystem> Mesh::getCoordinateSystemByPosition(const pos
     return coordinateSystem;
 }
 
+void Mesh::dismissMissingCoordinateSystems() {
+    const auto& dismissIfMissing = [this](pos_t& position) {
+        if (position != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID
+                and coordinateSystemStorage.findByPosition(position) == nullptr) {
+            position = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID;
+        }
+    };
+    for (auto& nodeData : nodes.nodeDatas) {
+        dismissIfMissing(nodeData.cpPos);
+        dismissIfMissing(nodeData.cdPos);
+    }
+    for (auto& cellData : cells.cellDatas) {
+        dismissIfMissing(cellData.csPos);
+    }
+}
+
 string Mesh::getName() const noexcept {
     return name;
 }
diff --git a/Abstract/Mesh.h b/Abstract/Mesh.h
index ef77b92..587ee1d 100644
--- a/Abstract/Mesh.h
+++ b/Abstract/Mesh.h
@@ -213,6 +213,10 @@ public:
      * Return nullptr if nothing has been found.
      */
     std::shared_ptr<vega::CoordinateSystem> getCoordinateSystemByPosition(const pos_t pos) const;
+    /**
+     * Nodes and cells that refer to a missing Coordinate System refer to the global one instead.
+     */
+    void dismissMissingCoordinateSystems();
 	pos_t addNode(const int id, const double x, const double y, const double z = 0,
 	        const pos_t cpPos = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID,
 	        const pos_t cdPos = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID,
diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 96afacc..4b7f883 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2286,6 +2286,10 @@ void Model::finish() {
         return;
     }
 
+    if (onlyMesh) {
+        keepOnlyMesh();
+    }
+
     /* Build the coordinate systems from their definition points */
     for (const auto& coordinateSystemEntry : mesh.coordinateSystemStorage.coordinateSystemByRef) {
         if (coordinateSystemEntry.second->type != CoordinateSystem::Type::RELATIVE) {
@@ -2597,6 +2601,43 @@ void Model::assignVirtualMaterial() {
     }
 }
 
+template<class T> static void removeAll(T& container) {
+    while (not container.empty()) {
+        container.erase(container.first()->getReference());
+    }
+}
+
+void Model::keepOnlyMesh() {
+    removeAll(analyses);
+    removeAll(loadings);
+    removeAll(loadSets);
+    removeAll(constraints);
+    removeAll(constraintSets);
+    removeAll(objectives);
+    removeAll(objectiveSets);
+    loadingReferences_by_loadSet_original_ids_by_loadSet_type.clear();
+    loadingReferences_by_loadSet_ids.clear();
+    constraintReferences_by_constraintSet_original_ids_by_constraintSet_type.clear();
+    constraintReferences_by_constraintSet_ids.clear();
+    objectiveReferences_by_objectiveSet_original_ids_by_objectiveSet_type.clear();
+    objectiveReferences_by_objectiveSet_ids.clear();
+    mesh.dismissMissingCoordinateSystems();
+    for (const auto& elementSet : elementSets) {
+        const auto& cellElementSet = dynamic_pointer_cast<CellElementSet>(elementSet);
+        if (cellElementSet != nullptr and cellElementSet->hasMaterials() and cellElementSet->getMaterials().count(nullptr) > 0) {
+            cellElementSet->unassignMaterials();
+            cellElementSet->assignMaterial(getVirtualMaterial());
+        }
+        if (elementSet->isComposite()) {
+            for (const auto& layer : static_pointer_cast<Composite>(elementSet)->getLayers()) {
+                if (not layer->hasMaterial()) {
+                    layer->setMaterial(getVirtualMaterial()->getReference());
+                }
+            }
+        }
+    }
+}
+
 void Model::assignElementsToCells() {
     for (const auto& element : elementSets) {
         for (const auto cellPosition : element->cellPositions()) {
diff --git a/Abstract/Model.h b/Abstract/Model.h
index 2f4354d..bf40102 100644
--- a/Abstract/Model.h
+++ b/Abstract/Model.h
@@ -172,6 +172,11 @@ private:
      */
     std::shared_ptr<Material> getVirtualMaterial();
 
+    /**
+     * Leave only the mesh and the elements, which then refer to no missing material
+     */
+    void keepOnlyMesh();
+
 public:
     bool finished = false;
     bool afterValidation = false;
diff --git a/Abstract/SolverInterfaces.cpp b/Abstract/SolverInterfaces.cpp
index 0c7bb18..55432d4 100644
--- a/Abstract/SolverInterfaces.cpp
+++ b/Abstract/SolverInterfaces.cpp
@@ -138,7 +138,6 @@ void Tokenizer::handleParsingError(const string& message) {
     case ConfigurationParameters::TranslationMode::MODE_STRICT:
         throw ParsingException(message, fileName, lineNumber, currentKeyword);
     case ConfigurationParameters::TranslationMode::MESH_AT_LEAST:
-        //model.onlyMesh = true;
         cerr << ParsingMessageException(message, fileName, lineNumber, currentKeyword) << endl;
         throw std::string("skipCommand");
         break;
diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index a303721..63dfa0b 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -524,6 +524,9 @@ void NastranParser::parseExecutiveSection(NastranTokenizer& tok, Model& model,
         } catch (std::string&) {
             // Parsing errors are catched by VegaCommandLine.
             // If we are not in strict mode, we dismiss this command and continue, hoping for the best.
+            if (translationMode == ConfigurationParameters::TranslationMode::MESH_AT_LEAST) {
+                model.onlyMesh = true;
+            }
             tok.skipToNextKeyword();
             canContinue = canContinue && (tok.nextSymbolType != NastranTokenizer::SymbolType::SYMBOL_EOF);
         }
@@ -582,6 +585,9 @@ void NastranParser::parseBULKSection(NastranTokenizer &tok, Model& model) {
         } catch (std::string&) {
             // Parsing errors are catched by VegaCommandLine.
             // If we are not in strict mode, we dismiss this command and continue, hoping for the best.
+            if (translationMode == ConfigurationParameters::TranslationMode::MESH_AT_LEAST) {
+                model.onlyMesh = true;
+            }
             tok.skipToNextKeyword();
         }
         tok.nextLine();
-- 
2.43.0


From 49490a17089d3e10f93927757a1d8e9b274f4f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:39 +0000
Subject: [PATCH 110/117] fix: FREQ without frequencies is refused

---
 Nastran/NastranParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 63dfa0b..a65a3a9 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1761,8 +1761,11 @@ void NastranParser::parseFORCE2(NastranTokenizer& tok, Model& model) {
 
 void NastranParser::parseFREQ(NastranTokenizer& tok, Model& model) {
     int sid = tok.nextInt();
-    const auto& objectiveSet = model.getOrCreateObjectiveSet(sid, ObjectiveSet::Type::FREQ);
     list<double> frequencies = tok.nextDoubles();
+    if (frequencies.empty()) {
+        handleParsingError("FREQ without frequencies", tok, model);
+    }
+    const auto& objectiveSet = model.getOrCreateObjectiveSet(sid, ObjectiveSet::Type::FREQ);
 
     const auto& frequencyValue = make_shared<ListValue<double>>(model, frequencies);
     frequencyValue->setInputContext(tok.getInputContext());
-- 
2.43.0


From d046b216a4acab84202c3c31349efeed0debb3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:28 +0000
Subject: [PATCH 111/117] fix: scalar points do not end the reading of a table
 of displacements

The grids listed after a scalar point in a page of results had no assertions.
---
 ResultReaders/F06Parser.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index 54c5288..97b45ef 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -33,6 +33,14 @@ namespace result {
 using boost::algorithm::trim;
 using boost::algorithm::trim_copy;
 
+/**
+ * Lines of the displacement tables about points that are not grids: scalar points have up to six values per line.
+ */
+static bool isOtherPoint(const vector<string>& tokens, size_t idPosition) {
+	return tokens.size() > idPosition + 2 and tokens[idPosition].find_first_not_of("0123456789") == string::npos
+			and (tokens[idPosition + 1] == "S" or tokens[idPosition + 1] == "E" or tokens[idPosition + 1] == "M");
+}
+
 int F06Parser::readDisplacementSection(int currentSubCase, Model& model,
 		const ConfigurationParameters& configuration, ifstream& istream,
 		vector<shared_ptr<Assertion>>& assertions, double loadStep) {
@@ -62,16 +70,16 @@ int F06Parser::readDisplacementSection(int currentSubCase, Model& model,
 				vector<string> tokens;
 				copy(istream_iterator<string>(istringLine), istream_iterator<string>(),
 						back_inserter(tokens));
-				if (tokens.size() != 8)
-					break;
-
-				int nodeId = stoi(tokens[0]);
-				if (tokens[1] != "G"){
+				if (isOtherPoint(tokens, 0)) {
 					//cerr << "unsupported assertion type " << assertionType
 					//		<< " : line n." << lineNumber << " " << currentLine
 					//		<< endl;
 					continue;
 				}
+				if (tokens.size() != 8)
+					break;
+
+				int nodeId = stoi(tokens[0]);
 				shared_ptr<ObjectiveSet> objectiveSet = nullptr;
 				if (currentSubCase == NO_SUBCASE) {
                     objectiveSet = model.commonObjectiveSet;
@@ -214,6 +222,10 @@ int F06Parser::readComplexDisplacementSection(int currentSubCase, Model& model,
 			vector<string> tokens;
 			copy(istream_iterator<string>(istringLine), istream_iterator<string>(),
 					back_inserter(tokens));
+			if (isOtherPoint(tokens, 1)) {
+				this->readLine(istream, currentLine); // imaginary parts
+				continue;
+			}
 			if (tokens.size() != 9)
 				break;
 
-- 
2.43.0


From 4980432338ad6950223ec2b18098ba05f46ea0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:28 +0000
Subject: [PATCH 112/117] fix: complex displacements of result files are
 expressed in the global frame

The real ones already were.
---
 ResultReaders/F06Parser.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index 97b45ef..3202a8b 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -244,11 +244,27 @@ int F06Parser::readComplexDisplacementSection(int currentSubCase, Model& model,
             } else {
                 objectiveSet = model.getOrCreateObjectiveSet(currentSubCase, ObjectiveSet::Type::ASSERTION);
             }
+			VectorialValue parts[4] = {
+					{stod(tokens[3]), stod(tokens[4]), stod(tokens[5])}, {stod(tokens[6]), stod(tokens[7]), stod(tokens[8])},
+					{stod(tokens[9]), stod(tokens[10]), stod(tokens[11])}, {stod(tokens[12]), stod(tokens[13]), stod(tokens[14])},
+			};
+			const Node& node = model.mesh.findNode(model.mesh.findNodePosition(nodeId));
+			if (node.displacementCS != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
+				const auto& coordSystem = model.mesh.getCoordinateSystemByPosition(node.displacementCS);
+				coordSystem->updateLocalBase(VectorialValue(node.x, node.y, node.z));
+				for (auto& part : parts) {
+					part = coordSystem->vectorToGlobal(part);
+				}
+			}
+			const double values[12] = {
+					parts[0].x(), parts[0].y(), parts[0].z(), parts[1].x(), parts[1].y(), parts[1].z(),
+					parts[2].x(), parts[2].y(), parts[2].z(), parts[3].x(), parts[3].y(), parts[3].z(),
+			};
 			for (dof_int i = 0; i < 6; i++) {
-				double real = stod(tokens[3 + i]);
+				double real = values[i];
 				if (abs(real) < 1e-12)
 					real = 0;
-				double imag = stod(tokens[9 + i]);
+				double imag = values[6 + i];
 				if (abs(imag) < 1e-12)
 					imag = 0;
 				complex<double> value(real, imag);
-- 
2.43.0


From 00a4b1835cfcbc3f48eddbe4f5b15410623e53b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:22 +0000
Subject: [PATCH 113/117] fix: CSV results of a study without subcases are
 asserted

---
 ResultReaders/CSVResultReader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ResultReaders/CSVResultReader.cpp b/ResultReaders/CSVResultReader.cpp
index 6e0f22f..f743305 100644
--- a/ResultReaders/CSVResultReader.cpp
+++ b/ResultReaders/CSVResultReader.cpp
@@ -123,6 +123,12 @@ struct CsvGrammar: qi::grammar<stream_iterator_type, void(), qi::locals<vector<L
 		assert(result_number != -1);
 		const auto& objectiveSet = model.getOrCreateObjectiveSet(result_number, ObjectiveSet::Type::ASSERTION);
 		shared_ptr<Analysis> analysis = model.analyses.find(result_number);
+		if (analysis == nullptr) {
+			// the analysis of a study without subcases has no other number than the one of its result
+			analysis = model.analyses.get(result_number);
+			if (analysis != nullptr and analysis->isOriginal())
+				analysis = nullptr;
+		}
 		if (analysis != nullptr) {
             analysis->add(objectiveSet);
 		}
-- 
2.43.0


From d2bd94c5c999eaae4037d561c109672978c587a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:27 +0000
Subject: [PATCH 114/117] fix: results of subcases that the model does not have
 are left out

The translation crashed.
---
 ResultReaders/F06Parser.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index 3202a8b..7706134 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -399,8 +399,9 @@ int F06Parser::addAssertionsToModel(int currentSubcase, double loadStep, Model &
 	shared_ptr<Analysis> analysis;
 	if (currentSubcase != NO_SUBCASE) {
 		analysis = model.analyses.find(currentSubcase);
-		analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
-		if (analysis == nullptr and model.configuration.logLevel >= LogLevel::INFO) {
+		if (analysis != nullptr) {
+			analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
+		} else if (model.configuration.logLevel >= LogLevel::INFO) {
 			cout << "Could not find subcase : " << currentSubcase << " in model." << endl;
 		}
 	} else if (not model.analyses.empty()) {
@@ -469,8 +470,9 @@ int F06Parser::addComplexAssertionsToModel(int currentSubCase, double frequency,
 	shared_ptr<Analysis> analysis;
 	if (currentSubCase != NO_SUBCASE) {
 		analysis = model.analyses.find(currentSubCase);
-		analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubCase});
-		if (analysis == nullptr and model.configuration.logLevel >= LogLevel::INFO) {
+		if (analysis != nullptr) {
+			analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubCase});
+		} else if (model.configuration.logLevel >= LogLevel::INFO) {
 			cout << "Could not find subcase : " << currentSubCase << " in model." << endl;
 		}
 	} else {
@@ -502,8 +504,9 @@ int F06Parser::addVonMisesAssertionsToModel(int currentSubcase, Model &model,
 	shared_ptr<Analysis> analysis;
 	if (currentSubcase != NO_SUBCASE) {
 		analysis = model.analyses.find(currentSubcase);
-		analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
-		if (analysis == nullptr and model.configuration.logLevel >= LogLevel::INFO) {
+		if (analysis != nullptr) {
+			analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
+		} else if (model.configuration.logLevel >= LogLevel::INFO) {
 			cout << "Could not find subcase : " << currentSubcase << " in model." << endl;
 		}
 	} else if (not model.analyses.empty()) {
-- 
2.43.0


From f4f23dbb1c2e67ab18189853145b74378694251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:27 +0000
Subject: [PATCH 115/117] fix: results of nodes that the model does not have
 are left out

The other results of the page were lost, or such a node was added to the mesh.
---
 Abstract/Model.cpp          |  4 ++++
 Abstract/Objective.cpp      |  2 +-
 ResultReaders/F06Parser.cpp | 10 ++++++++--
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 4b7f883..073c879 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1194,6 +1194,10 @@ void Model::removeAssertionsMissingDOFS()
     for (const auto& analysis : analyses) {
         for(const auto& assertion : analysis->getAssertions()) {
             for(const auto nodePosition: assertion->nodePositions()) {
+                if (nodePosition == Node::UNAVAILABLE_NODE) {
+                    objectivesToRemove.push_back(assertion);
+                    continue;
+                }
                 const DOFS& assertionDOFS = assertion->getDOFSForNode(nodePosition);
                 if (not assertionDOFS.empty()) {
                     const Node& node = mesh.findNode(nodePosition);
diff --git a/Abstract/Objective.cpp b/Abstract/Objective.cpp
index 67147cd..13f3cd5 100644
--- a/Abstract/Objective.cpp
+++ b/Abstract/Objective.cpp
@@ -125,7 +125,7 @@ Assertion::Assertion(Model& model, const std::shared_ptr<ObjectiveSet> objective
 
 NodalAssertion::NodalAssertion(Model& model, const std::shared_ptr<ObjectiveSet> objectiveset, Type type, double tolerance, int nodeId,
         DOF dof, int original_id) :
-        Assertion(model, objectiveset, type, tolerance, original_id), nodePosition(model.mesh.findOrReserveNode(nodeId)), nodeId(nodeId), dof(dof) {
+        Assertion(model, objectiveset, type, tolerance, original_id), nodePosition(model.mesh.findNodePosition(nodeId)), nodeId(nodeId), dof(dof) {
 }
 
 DOFS NodalAssertion::getDOFSForNode(const pos_t nodePosition) const {
diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index 7706134..2a3a4be 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -89,7 +89,10 @@ int F06Parser::readDisplacementSection(int currentSubCase, Model& model,
 				VectorialValue translation(stod(tokens[2]), stod(tokens[3]), stod(tokens[4]));
 				VectorialValue rotation(stod(tokens[5]), stod(tokens[6]), stod(tokens[7]));
 
-				const Node& node = model.mesh.findNode(model.mesh.findNodePosition(nodeId));
+				const pos_t nodePosition = model.mesh.findNodePosition(nodeId);
+				if (nodePosition == Node::UNAVAILABLE_NODE)
+					continue; // not in the model
+				const Node& node = model.mesh.findNode(nodePosition);
 				if (node.displacementCS != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
 					const auto& coordSystem = model.mesh.getCoordinateSystemByPosition(node.displacementCS);
 					coordSystem->updateLocalBase(VectorialValue(node.x, node.y, node.z));
@@ -248,7 +251,10 @@ int F06Parser::readComplexDisplacementSection(int currentSubCase, Model& model,
 					{stod(tokens[3]), stod(tokens[4]), stod(tokens[5])}, {stod(tokens[6]), stod(tokens[7]), stod(tokens[8])},
 					{stod(tokens[9]), stod(tokens[10]), stod(tokens[11])}, {stod(tokens[12]), stod(tokens[13]), stod(tokens[14])},
 			};
-			const Node& node = model.mesh.findNode(model.mesh.findNodePosition(nodeId));
+			const pos_t nodePosition = model.mesh.findNodePosition(nodeId);
+			if (nodePosition == Node::UNAVAILABLE_NODE)
+				continue; // not in the model
+			const Node& node = model.mesh.findNode(nodePosition);
 			if (node.displacementCS != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
 				const auto& coordSystem = model.mesh.getCoordinateSystemByPosition(node.displacementCS);
 				coordSystem->updateLocalBase(VectorialValue(node.x, node.y, node.z));
-- 
2.43.0


From 00e25b7c9891b0a461f7df7157c4c8e71e4ef559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:17 +0000
Subject: [PATCH 116/117] fix: Systus assertions of regrouped analyses
 designate the map of their own load case

---
 Systus/SystusWriter.cpp | 16 +++++++++++++---
 Systus/SystusWriter.h   |  2 +-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 3b8ef85..0c5c2c9 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -21,6 +21,7 @@
  *      Author: devel
  */
 
+#include <climits>
 #include <cstdlib>
 #include <iostream>
 #include <iomanip>
@@ -3255,13 +3256,22 @@ void SystusWriter::writeDat(const SystusModel& systusModel, const vega::Configur
             out << "LANGAGE" << endl;
             out << "variable displacement[" << nbDOFS << "],"
                     "frequency, phase[" << nbDOFS << "];" << endl;
+            // analyses regrouped under the same subcase have one map for each of their load cases
+            int mapNumber = 1;
+            const auto& loadings = localLoadingIdByLoadsetIdByAnalysisId.find(analysis->getId());
+            if (loadings != localLoadingIdByLoadsetIdByAnalysisId.end() and not loadings->second.empty()) {
+                mapNumber = INT_MAX;
+                for (const auto& loading : loadings->second) {
+                    mapNumber = min(mapNumber, loading.second);
+                }
+            }
             out << "iResu=open_file(\"" << systusModel.getName() << "_" << analysis->getId()
                                             << ".RESU\", \"write\");" << endl << endl;
 
             for (const auto& assertion : assertions) {
                 switch (assertion->type) {
                 case Objective::Type::NODAL_DISPLACEMENT_ASSERTION: {
-                    writeNodalDisplacementAssertion(*assertion, out);
+                    writeNodalDisplacementAssertion(*assertion, out, mapNumber);
                     assertion->markAsWritten();
                     break;
                 }
@@ -3308,7 +3318,7 @@ void SystusWriter::writeDat(const SystusModel& systusModel, const vega::Configur
 
 
 
-void SystusWriter::writeNodalDisplacementAssertion(Assertion& assertion, ostream& out) {
+void SystusWriter::writeNodalDisplacementAssertion(Assertion& assertion, ostream& out, const int mapNumber) {
     NodalDisplacementAssertion& nda = dynamic_cast<NodalDisplacementAssertion&>(assertion);
 //    if (systusOption == SystusOption::CONTINUOUS and nda.dof.isRotation) {
 //        return;
@@ -3319,7 +3329,7 @@ void SystusWriter::writeNodalDisplacementAssertion(Assertion& assertion, ostream
     int dofPos = nda.dof.position + 1;
 
     out << scientific;
-    out << "displacement = node_displacement(1" << "," << nodeId << ");" << endl;
+    out << "displacement = node_displacement(" << mapNumber << "," << nodeId << ");" << endl;
     out << "diff = abs((displacement[" << dofPos << "]-(" << nda.value << "))/("
             << (abs(nda.value) >= 1e-9 ? nda.value : 1.) << "));" << endl;
 
diff --git a/Systus/SystusWriter.h b/Systus/SystusWriter.h
index 2605eaf..17ccb73 100644
--- a/Systus/SystusWriter.h
+++ b/Systus/SystusWriter.h
@@ -418,7 +418,7 @@ private:
     void writeVectors(std::ostream&);
     void writeDat(const SystusModel&, const ConfigurationParameters &, const int idSubcase, std::ostream&);
 
-    void writeNodalDisplacementAssertion(Assertion& assertion, std::ostream& out);
+    void writeNodalDisplacementAssertion(Assertion& assertion, std::ostream& out, const int mapNumber);
     void writeNodalComplexDisplacementAssertion(Assertion& assertion, std::ostream& out);
     void writeFrequencyAssertion(Assertion& assertion, std::ostream& out);
     void writeNodalForceVector(const SystusModel& systusModel, const std::shared_ptr<NodalForce>& nodalForce, const int idLoadCase, systus_ascid_t& vectorId, const double factor = 1.);
-- 
2.43.0


From 316399bef99a830d4f276dc17ffadb9ebd284eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:06 +0000
Subject: [PATCH 117/117] fix: no empty TEST_RESU when the frequency range
 excludes every asserted mode

---
 Aster/AsterWriter.cpp | 20 +++++++++++++++-----
 Aster/AsterWriter.h   |  1 +
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 3065811..af3a4bb 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -565,7 +565,15 @@ void AsterWriter::writeAnalyses() {
             compositeNumber++;
         }
 
-		const auto& assertions = analysis->getAssertions();
+		vector<shared_ptr<Assertion>> assertions;
+		for (const auto& assertion : analysis->getAssertions()) {
+			if (assertion->type == Objective::Type::FREQUENCY_ASSERTION
+					and isExcludedFrequency(analysis, dynamic_pointer_cast<FrequencyAssertion>(assertion))) {
+				assertion->markAsWritten(); // Cannot check this frequency: it will be excluded by results
+			} else {
+				assertions.push_back(assertion);
+			}
+		}
 		if (not assertions.empty()) {
 			comm_file_ofs << "TEST_RESU(RESU = (" << endl;
 
@@ -3134,7 +3142,7 @@ void AsterWriter::writeNodalCellVonMisesAssertion(const shared_ptr<NodalCellVonM
     comm_file_ofs << "                     TOLE_MACHINE = (" << (relativeComparison ? ncvmisa->tolerance : 1e-5) << "," << 1e-5 << ")," << endl;
 }
 
-void AsterWriter::writeFrequencyAssertion(const shared_ptr<Analysis>& analysis, const shared_ptr<FrequencyAssertion>& frequencyAssertion) {
+bool AsterWriter::isExcludedFrequency(const shared_ptr<Analysis>& analysis, const shared_ptr<FrequencyAssertion>& frequencyAssertion) {
     bool isBuckling = analysis->type == Analysis::Type::LINEAR_BUCKLING;
 
     double lowFreq = 0;
@@ -3146,9 +3154,11 @@ void AsterWriter::writeFrequencyAssertion(const shared_ptr<Analysis>& analysis,
     if (analysis->contains(ModelParameter::UPPER_CUTOFF_FREQUENCY)) {
         highFreq = stod(analysis->getParameter(ModelParameter::UPPER_CUTOFF_FREQUENCY));
     }
-    if (not isBuckling and (frequencyAssertion->cycles < lowFreq or frequencyAssertion->cycles > highFreq)) {
-        return; // Cannot check this frequency: it will be excluded by results
-    }
+    return not isBuckling and (frequencyAssertion->cycles < lowFreq or frequencyAssertion->cycles > highFreq);
+}
+
+void AsterWriter::writeFrequencyAssertion(const shared_ptr<Analysis>& analysis, const shared_ptr<FrequencyAssertion>& frequencyAssertion) {
+    bool isBuckling = analysis->type == Analysis::Type::LINEAR_BUCKLING;
     string resuName;
     const auto& reusableAnalysis = asterModel->model.reusableAnalysisFor(analysis);
     if (reusableAnalysis == nullptr) {
diff --git a/Aster/AsterWriter.h b/Aster/AsterWriter.h
index b1231ff..d874268 100644
--- a/Aster/AsterWriter.h
+++ b/Aster/AsterWriter.h
@@ -69,6 +69,7 @@ class AsterWriter final : public Writer {
 	void writeNodalDisplacementAssertion(const std::shared_ptr<NodalDisplacementAssertion>&);
 	void writeNodalComplexDisplacementAssertion(const std::shared_ptr<NodalComplexDisplacementAssertion>&);
 	void writeNodalCellVonMisesAssertion(const std::shared_ptr<NodalCellVonMisesAssertion>&);
+	bool isExcludedFrequency(const std::shared_ptr<Analysis>&, const std::shared_ptr<FrequencyAssertion>&);
 	void writeFrequencyAssertion(const std::shared_ptr<Analysis>&, const std::shared_ptr<FrequencyAssertion>&);
 	void writeLoadset(const std::shared_ptr<LoadSet>&);
 	std::string writeValue(const std::shared_ptr<NamedValue>&);
-- 
2.43.0

