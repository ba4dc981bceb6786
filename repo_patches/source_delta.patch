From 6664ad518239d848c569dbb90a23c891296e0ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:03 +0000
Subject: [PATCH 001/139] fix: write the PROD card of trusses in Nastran output

The writer streamed the shared_ptr, i.e. an address, instead of the card.
---
 Nastran/NastranWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 0e16330..e93b54e 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -795,7 +795,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		prod.add(truss->mainMaterial()->bestId());
 		prod.add(truss->getAreaCrossSection());
 		prod.add(truss->getTorsionalConstant());
-		out << truss;
+		out << prod;
 		truss->markAsWritten();
 	}
 	for (const auto& beam : model.getBeams()) {
-- 
2.43.0


From 9259c4ee42ff7d75b8ce59136906ce5170c8c36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:03 +0000
Subject: [PATCH 002/139] fix: PBAR has no I12 field before J in Nastran output

---
 Nastran/NastranWriter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index e93b54e..136b313 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -806,7 +806,9 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		pbeam.add(beam->getAreaCrossSection());
 		pbeam.add(beam->getMomentOfInertiaZ());
 		pbeam.add(beam->getMomentOfInertiaY());
-		pbeam.add(0.0);
+		if (not isCosmic()) {
+			pbeam.add(0.0); // I12, which PBAR does not have in this place
+		}
 		pbeam.add(beam->getTorsionalConstant());
 		out << pbeam;
 		beam->markAsWritten();
-- 
2.43.0


From b1e794452ad3a084421c8afeafdfaaf2341eb853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:03 +0000
Subject: [PATCH 003/139] fix: RBE3 reference node in Nastran output

The node id was used as a position.
---
 Nastran/NastranWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 136b313..db0d224 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -476,7 +476,7 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
             Line rbe3("RBE3");
             rbe3.add(rbe3Constraint->bestId());
             rbe3.add();
-            const int masterPosition = model.mesh.findNodeId(rbe3Constraint->getMaster());
+            const pos_t masterPosition = rbe3Constraint->getMaster();
             rbe3.add(model.mesh.findNodeId(masterPosition));
             rbe3.add(rbe3Constraint->getDOFSForNode(masterPosition));
             for (const auto slavePosition : rbe3Constraint->getSlaves()) {
-- 
2.43.0


From 607634c7be77619b6f263255045daf3d001fd9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:03 +0000
Subject: [PATCH 004/139] fix: RBE2 element id of quasi rigid constraints in
 Nastran output

---
 Nastran/NastranWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index db0d224..04d01db 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -456,7 +456,7 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
                 out << rbar;
             } else {
                 Line rbe2("RBE2");
-                rbe2.add(constraintSet->bestId());
+                rbe2.add(quasiRigid->bestId());
                 const int masterId = model.mesh.findNodeId(quasiRigid->getMaster());
                 rbe2.add(masterId);
                 rbe2.add(quasiRigid->getDOFS());
-- 
2.43.0


From 11db59cb8bca6b297a0a7ea5cbf0cfdec524da12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:03 +0000
Subject: [PATCH 005/139] fix: field layout of MPC cards with more than four
 terms in Nastran output

---
 Nastran/NastranWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 04d01db..3c3b931 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -503,6 +503,7 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
                         if (fieldNum % 8 == 0) {
                             mpc.add();
                             mpc.add();
+                            fieldNum += 2;
                         }
 
                         mpc.add(model.mesh.findNodeId(nodePosition));
-- 
2.43.0


From e518e8e09e5eba8db060ed27a8d7f7d1e4a650f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:03 +0000
Subject: [PATCH 006/139] fix: MPC set id in Nastran output is the one selected
 by the subcases

---
 Nastran/NastranWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 3c3b931..d54c137 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -494,7 +494,7 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
             const auto& lmpc =
                     static_pointer_cast<LinearMultiplePointConstraint>(constraint);
             Line mpc("MPC");
-            mpc.add(constraintSet->getId());
+            mpc.add(constraintSet->bestId());
             int fieldNum = 2;
 			for (const auto nodePosition : lmpc->nodePositions()) {
 			    DOFCoefs dofcoef = lmpc->getDoFCoefsForNode(nodePosition);
-- 
2.43.0


From 5005697fe39f18282af7562199d08f2ccc2346a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:03 +0000
Subject: [PATCH 007/139] fix: CONM1 in Nastran output holds the whole lower
 triangle of the mass matrix

---
 Nastran/NastranWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index d54c137..95fecc3 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -849,9 +849,9 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
             conm1.add(discretePoint->bestId());
             conm1.add(model.mesh.findNodeId(nodePosition));
             conm1.add(0); // CID
-            for (dof_int row = 0; row < 5; row++) {
+            for (dof_int row = 0; row < 6; row++) {
                 const DOF rowdof = DOF::findByPosition(row);
-                for (dof_int col = 0; col < row; col++) {
+                for (dof_int col = 0; col <= row; col++) {
                     const DOF coldof = DOF::findByPosition(col);
                     conm1.add(discretePoint->findMass(rowdof, coldof));
                 }
-- 
2.43.0


From 324a81efde9aff9c32c15fd7e258d281a6b9c09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:03 +0000
Subject: [PATCH 008/139] fix: PBUSH has no CID field in Nastran output

---
 Nastran/NastranWriter.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 95fecc3..d2b889e 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -879,7 +879,6 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
         }
         Line pbush("PBUSH");
         pbush.add(segment->bestId());
-        pbush.add(0); // CID
         pbush.add("K");
         for (const DOF dof: DOFS::ALL_DOFS) {
             pbush.add(segment->findStiffness(dof, dof));
-- 
2.43.0


From 746e02ae046886e794b2ef7ac67c7fdc1f702998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:03 +0000
Subject: [PATCH 009/139] fix: keep the node order of shells in Nastran output

The parser does not reorder surface cells, so reversing them on writing flipped
the normal of every shell, and with it pressures and offsets.
---
 Nastran/NastranWriter.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index d2b889e..7ed48ed 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -153,11 +153,6 @@ Line& Line::add(const VectorialValue vector) noexcept {
 
 const unordered_map<CellType::Code, vector<int>, EnumClassHash> NastranWriter::med2nastranNodeConnectByCellType =
         {
-                { CellType::Code::TRI3_CODE, { 0, 2, 1 } },
-                { CellType::Code::TRI6_CODE, { 0, 2, 1, 5, 4, 3 } },
-                { CellType::Code::QUAD4_CODE, { 0, 3, 2, 1 } },
-                { CellType::Code::QUAD8_CODE, { 0, 3, 2, 1, 7, 6, 5, 4 } },
-                { CellType::Code::QUAD9_CODE, { 0, 3, 2, 1, 7, 6, 5, 4, 8 } },
                 { CellType::Code::TETRA4_CODE, { 0, 2, 1, 3 } },
                 { CellType::Code::TETRA10_CODE, { 0, 2, 1, 3, 6, 5, 4, 7, 9, 8 } },
                 { CellType::Code::PYRA5_CODE, { 0, 3, 2, 1, 4 } },
-- 
2.43.0


From ebaa6938f162789ffa95befd535ee22ecdaf9380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:44 +0000
Subject: [PATCH 010/139] fix: write node positions in the basic system in
 Nastran output

CP is not written, so the coordinates have to be the global ones.
---
 Nastran/NastranWriter.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 7ed48ed..a8de329 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -364,11 +364,9 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
 void NastranWriter::writeNodes(const Model& model, ofstream& out) const
 		{
 	for (Node node : model.mesh.nodes) {
-	    if (node.positionCS!= CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID)
-	        cerr << "Warning in GRID "<<node.id<<" CP not supported and dismissed."<<endl;
         if (node.displacementCS!= CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID)
             cerr << "Warning in GRID "<<node.id<<" CD not supported and dismissed."<<endl;
-		out << Line("GRID").add(node.id).add().add(node.lx).add(node.ly).add(node.lz);
+		out << Line("GRID").add(node.id).add().add(node.x).add(node.y).add(node.z);
 	}
 }
 
-- 
2.43.0


From 3d575ce96e50c04db742cfc84575aacdf5831b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:44 +0000
Subject: [PATCH 011/139] fix: write the cells of trusses as CROD in Nastran
 output

Their card had no name.
---
 Nastran/NastranWriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index a8de329..cf09661 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -248,6 +248,8 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
 			string keyword;
 			if (elementSet->isBeam()) {
                 keyword = isCosmic() ? "CBAR" : "CBEAM";
+            } else if (elementSet->isTruss()) {
+                keyword = "CROD";
             } else if (elementSet->isDiscrete() and cell.type.code == CellType::Code::SEG2_CODE) {
                 keyword = "CBUSH";
 			} else if (elementSet->isShell()) {
-- 
2.43.0


From a9118838c7c4ec2b40b8c48630f42ce2d3314ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:22 +0000
Subject: [PATCH 012/139] fix: imposed values of SPC in Nastran output

SPC1 only blocks; a non zero imposed displacement needs an SPC card.
---
 Nastran/NastranWriter.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index cf09661..fa66af7 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -413,9 +413,17 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
             const auto& spc = static_pointer_cast<SinglePointConstraint>(constraint);
             for (const auto nodePosition : spc->nodePositions()) {
                 const int nodeId = model.mesh.findNodeId(nodePosition);
-                out
-                        << Line("SPC1").add(constraintSet->bestId()).add(
-                                spc->getDOFSForNode(nodePosition)).add(nodeId);
+                DOFS blockedDofs = spc->getDOFSForNode(nodePosition);
+                for (const DOF dof : spc->getDOFSForNode(nodePosition)) {
+                    if (spc->hasReferences() or is_zero(spc->getDoubleForDOF(dof))) {
+                        continue;
+                    }
+                    out << Line("SPC").add(constraintSet->bestId()).add(nodeId).add(DOFS(dof)).add(spc->getDoubleForDOF(dof));
+                    blockedDofs = blockedDofs - dof;
+                }
+                if (not (blockedDofs == DOFS::NO_DOFS)) {
+                    out << Line("SPC1").add(constraintSet->bestId()).add(blockedDofs).add(nodeId);
+                }
             }
             spc->markAsWritten();
         }
-- 
2.43.0


From 83bdf076669fef17468b0e505bb37ac45c1b3c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 013/139] fix: keep permanent constraints (GRID PS) in Nastran
 output

They were written in a set 0 that nothing can select.
---
 Nastran/NastranWriter.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index fa66af7..75f5dd0 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -365,10 +365,23 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
 
 void NastranWriter::writeNodes(const Model& model, ofstream& out) const
 		{
+	// Permanent constraints do not belong to a selectable set
+	map<pos_t, DOFS> permanentDofs;
+	for (const auto& constraint : model.commonConstraintSet->getConstraintsByType(Constraint::Type::SPC)) {
+		for (const auto nodePosition : constraint->nodePositions()) {
+			permanentDofs[nodePosition] += constraint->getDOFSForNode(nodePosition);
+		}
+	}
 	for (Node node : model.mesh.nodes) {
         if (node.displacementCS!= CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID)
             cerr << "Warning in GRID "<<node.id<<" CD not supported and dismissed."<<endl;
-		out << Line("GRID").add(node.id).add().add(node.x).add(node.y).add(node.z);
+		Line grid("GRID");
+		grid.add(node.id).add().add(node.x).add(node.y).add(node.z);
+		const auto permanentEntry = permanentDofs.find(node.position);
+		if (permanentEntry != permanentDofs.end()) {
+			grid.add().add(permanentEntry->second);
+		}
+		out << grid;
 	}
 }
 
@@ -411,6 +424,10 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
 		const auto& spcs = constraintSet->getConstraintsByType(Constraint::Type::SPC);
         for (const auto& constraint : spcs) {
             const auto& spc = static_pointer_cast<SinglePointConstraint>(constraint);
+            if (constraintSet->type == ConstraintSet::Type::ALL) {
+                spc->markAsWritten(); // done in GRID
+                continue;
+            }
             for (const auto nodePosition : spc->nodePositions()) {
                 const int nodeId = model.mesh.findNodeId(nodePosition);
                 DOFS blockedDofs = spc->getDOFSForNode(nodePosition);
@@ -997,6 +1014,9 @@ string NastranWriter::writeModel(Model& model,
 			out << "  " << typeName << "=" << loadSet->bestId() << endl;
 		}
 		for (const auto& constraintSet : analysis->getConstraintSets()) {
+			if (constraintSet->type == ConstraintSet::Type::ALL) {
+				continue; // always active, not selectable
+			}
 			string typeName = constraintSet->stringByType.find(constraintSet->type)->second;
 			out << "  " << typeName << "=" << constraintSet->bestId() << endl;
 		}
-- 
2.43.0


From 9e88bd834725bbd7dbee1a9344bce467666f7f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:18 +0000
Subject: [PATCH 014/139] fix: more than six multi-point constraints between
 the same nodes (Systus)

---
 Abstract/Model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index e3eb356..076217a 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1723,7 +1723,7 @@ void Model::makeCellsFromLMPC() {
                         elementsetLMPC = make_shared<Lmpc>(*this, analysis->getId());
                         elementsetLMPC->assignMaterial(materialLMPC);
                         elmpcByDOFCoefs[cellDofCoefsSlice] = elementsetLMPC;
-                        for (const auto& lmpcDofCoefs : cellDofCoefs) {
+                        for (const auto& lmpcDofCoefs : cellDofCoefsSlice) {
                             elementsetLMPC->appendDofCoefs(lmpcDofCoefs);
                         }
                         this->add(elementsetLMPC);
-- 
2.43.0


From 7ea8de96d212cfa5708a511a6d1d61784cd0d96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:56 +0000
Subject: [PATCH 015/139] fix: cells of a RBE3 with several coefficients share
 one Lagrange node (Systus)

---
 Systus/SystusWriter.cpp | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 5cb70f4..1f19d28 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -738,6 +738,13 @@ void SystusWriter::generateRBEs(SystusModel& systusModel,
         rbars->markAsWritten();
     }
 
+    // All the cells of a RBE3 share the same Lagrange and rotation nodes, whatever their coefficients and DOFS
+    struct Rbe3Nodes {
+        int master_lagr_id = 0;
+        int master_rot_id = 0;
+        int master_lagr_rot_id = 0;
+    };
+    map<pair<int, DOFS>, Rbe3Nodes> rbe3NodesByMaster;
     for (const auto& elementSet : systusModel.model.elementSets.filter(ElementSet::Type::RBE3)) {
 
         /*
@@ -764,21 +771,27 @@ void SystusWriter::generateRBEs(SystusModel& systusModel,
 
         const Node& master = mesh.findNode(masterPosition);
 
-        // Creating a Lagrange node
-        // Lagrange node must NOT have an orientation, as they inherit it from the slave node.
-        const auto master_lagr_position = mesh.addNode(Node::AUTO_ID, master.lx, master.ly, master.lz, master.positionCS, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
-        const int master_lagr_id = mesh.findNodeId(master_lagr_position);
+        const auto& rbe3Key = make_pair(masterId, rbe3->mdofs);
+        if (rbe3NodesByMaster.find(rbe3Key) == rbe3NodesByMaster.end()) {
+            Rbe3Nodes rbe3Nodes;
+            // Creating a Lagrange node
+            // Lagrange node must NOT have an orientation, as they inherit it from the slave node.
+            const auto master_lagr_position = mesh.addNode(Node::AUTO_ID, master.lx, master.ly, master.lz, master.positionCS, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
+            rbe3Nodes.master_lagr_id = mesh.findNodeId(master_lagr_position);
 
-        // Creating rotation nodes if needed
-        int master_rot_id=0;
-        int master_lagr_rot_id=0;
-        if (systusOption == SystusOption::CONTINUOUS){
-            const auto master_rot_position = mesh.addNode(Node::AUTO_ID, master.lx, master.ly, master.lz, master.positionCS, master.displacementCS);
-            master_rot_id = mesh.findNodeId(master_rot_position);
-            rotationNodeIdByTranslationNodeId[master.id]=master_rot_id;
-            const auto master_lagr_rot_position = mesh.addNode(Node::AUTO_ID, master.lx, master.ly, master.lz, master.positionCS, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
-            master_lagr_rot_id = mesh.findNodeId(master_lagr_rot_position);
+            // Creating rotation nodes if needed
+            if (systusOption == SystusOption::CONTINUOUS){
+                const auto master_rot_position = mesh.addNode(Node::AUTO_ID, master.lx, master.ly, master.lz, master.positionCS, master.displacementCS);
+                rbe3Nodes.master_rot_id = mesh.findNodeId(master_rot_position);
+                rotationNodeIdByTranslationNodeId[master.id]=rbe3Nodes.master_rot_id;
+                const auto master_lagr_rot_position = mesh.addNode(Node::AUTO_ID, master.lx, master.ly, master.lz, master.positionCS, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
+                rbe3Nodes.master_lagr_rot_id = mesh.findNodeId(master_lagr_rot_position);
+            }
+            rbe3NodesByMaster[rbe3Key] = rbe3Nodes;
         }
+        const int master_lagr_id = rbe3NodesByMaster[rbe3Key].master_lagr_id;
+        const int master_rot_id = rbe3NodesByMaster[rbe3Key].master_rot_id;
+        const int master_lagr_rot_id = rbe3NodesByMaster[rbe3Key].master_lagr_rot_id;
 
         // Updating the cells
         map<pos_t, pos_t> updatedPositionByOldPosition;
-- 
2.43.0


From 00bb4dec90eb760bc6d16c59402921c3078a4ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:20 +0000
Subject: [PATCH 016/139] fix: FORCE1 loads were removed as ineffective

---
 Abstract/Loading.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index 580e093..b2f9ea8 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -375,7 +375,7 @@ void NodalForceTwoNodes::scale(const double factor) {
 }
 
 bool NodalForceTwoNodes::ineffective() const {
-	return is_zero(magnitude) or force.iszero();
+	return is_zero(magnitude);
 }
 
 NodalForceFourNodes::NodalForceFourNodes(Model& model, const std::shared_ptr<LoadSet> loadset, const int node1_id,
-- 
2.43.0


From 40b0ff3bd9b81da89dac45c4233676c685536384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:20 +0000
Subject: [PATCH 017/139] fix: write moments of nodal forces in Nastran output

---
 Nastran/NastranWriter.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 75f5dd0..e8f78b2 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -763,19 +763,15 @@ void NastranWriter::writeLoadings(const Model& model, ofstream& out) const
 
             const auto& nodalForce = static_pointer_cast<NodalForce>(loading);
             for (const auto nodePosition : nodalForce->getNodePositionsIncludingGroups()) {
-                Line force("FORCE");
-                force.add(loadingSet->bestId());
-                force.add(model.mesh.findNodeId(nodePosition));
-                force.add(0);
                 const auto& forceVector = nodalForce->getForceInGlobalCS(nodePosition);
-                force.add(1.0);
-                force.add(forceVector.x());
-                force.add(forceVector.y());
-                force.add(forceVector.z());
-                if (!nodalForce->getMomentInGlobalCS(nodePosition).iszero()) {
-                    handleWritingError("Unimplemented moment in FORCE");
+                const auto& momentVector = nodalForce->getMomentInGlobalCS(nodePosition);
+                const int nodeId = model.mesh.findNodeId(nodePosition);
+                if (!forceVector.iszero() or momentVector.iszero()) {
+                    out << Line("FORCE").add(loadingSet->bestId()).add(nodeId).add(0).add(1.0).add(forceVector);
+                }
+                if (!momentVector.iszero()) {
+                    out << Line("MOMENT").add(loadingSet->bestId()).add(nodeId).add(0).add(1.0).add(momentVector);
                 }
-                out << force;
             }
             nodalForce->markAsWritten();
         }
-- 
2.43.0


From 652a570e73c5029df287b3f0d1e42bef1fc83f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:45 +0000
Subject: [PATCH 018/139] fix: complete CORD2R, CORD2C and CORD2S cards in
 Nastran output

---
 Nastran/NastranWriter.cpp | 17 +++++++++++------
 Nastran/NastranWriter.h   |  1 +
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index e8f78b2..dc3cce4 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -363,6 +363,14 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
 	}
 }
 
+void NastranWriter::writeCoordinateSystem(const string& keyword, const CoordinateSystem& coordinateSystem, ofstream& out) const
+{
+    const auto& origin = coordinateSystem.getOrigin();
+    // defined in the basic system by its origin, a point on the z axis and a point in the xz plane
+    out << Line(keyword).add(coordinateSystem.bestId()).add(0).add(origin)
+            .add(origin + coordinateSystem.getEz()).add(origin + coordinateSystem.getEx());
+}
+
 void NastranWriter::writeNodes(const Model& model, ofstream& out) const
 		{
 	// Permanent constraints do not belong to a selectable set
@@ -1062,16 +1070,13 @@ string NastranWriter::writeModel(Model& model,
         }
 		switch (coordinateSystem->coordType) {
 			case CoordinateSystem::CoordinateType::CARTESIAN:
-				// TODO LD complete
-				out << Line("CORD2R").add(coordinateSystem->bestId()).add(coordinateSystem->getOrigin());
+				writeCoordinateSystem("CORD2R", *coordinateSystem, out);
 				break;
 			case CoordinateSystem::CoordinateType::SPHERICAL:
-				// TODO LD complete
-				out << Line("CORD2S").add(coordinateSystem->bestId()).add(coordinateSystem->getOrigin());
+				writeCoordinateSystem("CORD2S", *coordinateSystem, out);
 				break;
 			case CoordinateSystem::CoordinateType::CYLINDRICAL:
-				// TODO LD complete
-				out << Line("CORD2C").add(coordinateSystem->bestId()).add(coordinateSystem->getOrigin());
+				writeCoordinateSystem("CORD2C", *coordinateSystem, out);
 				break;
 			default:
 				handleWritingError("Unimplemented coordinate system type");
diff --git a/Nastran/NastranWriter.h b/Nastran/NastranWriter.h
index 30d3cbc..aa27df0 100644
--- a/Nastran/NastranWriter.h
+++ b/Nastran/NastranWriter.h
@@ -66,6 +66,7 @@ private:
 	}
 	void writeSOL(const Model& model, std::ofstream& out) const;
 	void writeCells(const Model& model, std::ofstream& out) const;
+	void writeCoordinateSystem(const std::string& keyword, const CoordinateSystem&, std::ofstream&) const;
 	void writeNodes(const Model& model, std::ofstream& out) const;
 	void writeMaterials(const Model& model, std::ofstream& out) const;
 	void writeConstraints(const Model& model, std::ofstream& out) const;
-- 
2.43.0


From cafb7340ca188ad97ee87e6738a77d2389e39ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:22 +0000
Subject: [PATCH 019/139] fix: local base of a cylindrical coordinate system
 defined in another one

---
 Abstract/CoordinateSystem.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index 2fb85f6..fe36227 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -188,9 +188,15 @@ CylindricalCoordinateSystem::CylindricalCoordinateSystem(const Mesh& mesh,
 
 // TODO : LD What's this ? Should this method be renamed moveOrigin ?
 void CylindricalCoordinateSystem::updateLocalBase(const VectorialValue& point) {
-    VectorialValue localOrigin = point - origin;
+    // The origin and the base are expressed in the reference coordinate system
+    VectorialValue referencePoint = point;
+    if (rcs != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
+        const auto& coordSystem = mesh.findCoordinateSystem(rcs);
+        referencePoint = coordSystem->vectorToLocal(point - coordSystem->positionToGlobal(VectorialValue(0, 0, 0)));
+    }
+    VectorialValue localOrigin = referencePoint - origin;
     if (!localOrigin.iszero()) {
-        utheta = ez.cross(point - origin).normalized();
+        utheta = ez.cross(localOrigin).normalized();
         ur = utheta.cross(ez);
     }
 }
-- 
2.43.0


From bc1bee5ec8ff3ac9d855bc0c5ead7a0101086892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:35 +0000
Subject: [PATCH 020/139] fix: blank components of MOMENT are zero

---
 Nastran/NastranParser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index fa2ccab..be9567e 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2027,10 +2027,10 @@ void NastranParser::parseMOMENT(NastranTokenizer& tok, Model& model) {
     int loadset_id = tok.nextInt();
     int node_id = tok.nextInt();
     int csid = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
-    double scale = tok.nextDouble(true);
-    double frx = tok.nextDouble(true) * scale;
-    double fry = tok.nextDouble(true) * scale;
-    double frz = tok.nextDouble(true) * scale;
+    double scale = tok.nextDouble(true, 0.0);
+    double frx = tok.nextDouble(true, 0.0) * scale;
+    double fry = tok.nextDouble(true, 0.0) * scale;
+    double frz = tok.nextDouble(true, 0.0) * scale;
 
     const auto& loadSet = model.getOrCreateLoadSet(loadset_id, LoadSet::Type::LOAD);
     const auto& moment1 = make_shared<NodalForce>(model, loadSet,
-- 
2.43.0


From 3dd897cb2813acdb57ca3e4d9ec904cfb582560d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:41 +0000
Subject: [PATCH 021/139] fix: one rotation node per master of several rigid
 bodies (Systus, continuous option)

---
 Systus/SystusWriter.cpp | 20 ++++++++++++++------
 Systus/SystusWriter.h   |  2 ++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 1f19d28..5e1569a 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -640,6 +640,18 @@ double SystusWriter::generateRbarStiffness(const SystusModel& systusModel){
 //}
 
 
+int SystusWriter::findOrCreateRotationNode(Mesh& mesh, const Node& master) {
+    // The rotations of a node are unique, even when it is the master of several rigid bodies
+    const auto& it = rotationNodeIdByTranslationNodeId.find(master.id);
+    if (it != rotationNodeIdByTranslationNodeId.end()) {
+        return it->second;
+    }
+    const auto rotationPosition = mesh.addNode(Node::AUTO_ID, master.lx, master.ly, master.lz, master.positionCS, master.displacementCS);
+    const int rotationId = mesh.findNodeId(rotationPosition);
+    rotationNodeIdByTranslationNodeId[master.id] = rotationId;
+    return rotationId;
+}
+
 void SystusWriter::generateRBEs(SystusModel& systusModel,
         const vega::ConfigurationParameters &configuration) {
 
@@ -679,9 +691,7 @@ void SystusWriter::generateRBEs(SystusModel& systusModel,
         int master_rot_id = 0;
 
         if (systusOption == SystusOption::CONTINUOUS){
-            const auto master_rot_position = mesh.addNode(Node::AUTO_ID, master.lx, master.ly, master.lz, master.positionCS, master.displacementCS);
-            master_rot_id = mesh.findNodeId(master_rot_position);
-            rotationNodeIdByTranslationNodeId[master.id]=master_rot_id;
+            master_rot_id = findOrCreateRotationNode(mesh, master);
         }
 
         map<pos_t, pos_t> updatedPositionByOldPosition;
@@ -781,9 +791,7 @@ void SystusWriter::generateRBEs(SystusModel& systusModel,
 
             // Creating rotation nodes if needed
             if (systusOption == SystusOption::CONTINUOUS){
-                const auto master_rot_position = mesh.addNode(Node::AUTO_ID, master.lx, master.ly, master.lz, master.positionCS, master.displacementCS);
-                rbe3Nodes.master_rot_id = mesh.findNodeId(master_rot_position);
-                rotationNodeIdByTranslationNodeId[master.id]=rbe3Nodes.master_rot_id;
+                rbe3Nodes.master_rot_id = findOrCreateRotationNode(mesh, master);
                 const auto master_lagr_rot_position = mesh.addNode(Node::AUTO_ID, master.lx, master.ly, master.lz, master.positionCS, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
                 rbe3Nodes.master_lagr_rot_id = mesh.findNodeId(master_lagr_rot_position);
             }
diff --git a/Systus/SystusWriter.h b/Systus/SystusWriter.h
index 85c516a..0ab7b2b 100644
--- a/Systus/SystusWriter.h
+++ b/Systus/SystusWriter.h
@@ -347,6 +347,8 @@ private:
     double generateRbarStiffness(const SystusModel&);
     //double generateLmpcRigidity(const SystusModel&, const std::shared_ptr<Lmpc>);
 
+    /** Node carrying the rotations of a master node in 3D mode. */
+    int findOrCreateRotationNode(Mesh& mesh, const Node& master);
     /**
      *  Generate RBE from Rbars and Rbe3 ElementSet:
      *    - adding the lagrangian/rotation node
-- 
2.43.0


From ad548a5ca63dbc54f7a0ee87ede920c32b2e1225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:33 +0000
Subject: [PATCH 022/139] fix: THRU BY lists start stepping from the first
 identifier

---
 Nastran/NastranTokenizer.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 71eb511..273a537 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -481,9 +481,16 @@ list<int> NastranTokenizer::nextInts() {
                 skip(1);
                 step = nextInt();
             }
-            for(int i=start+1;i<=endint;i+=step) {
+            if (step <= 0) {
+                handleParsingError("Invalid step " + to_string(step) + " in a THRU list");
+                step = 1;
+            }
+            for(int i=start+step;i<endint;i+=step) {
                 result.push_back(i);
             }
+            if (endint > start) { //the last one is always part of the list
+                result.push_back(endint);
+            }
         }
 	}
 	return result;
-- 
2.43.0


From a508d364f1ef3bbd3ecf415dabd431980011af81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 023/139] fix: free format rows cut short or starting with a
 signed real keep their fields in place

---
 Nastran/NastranTokenizer.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 273a537..a1499d8 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -156,6 +156,7 @@ bool NastranTokenizer::readLineSkipComment(string& line, bool firstLine) {
 }
 
 void NastranTokenizer::splitFreeFormat(string line, bool firstLine) {
+	size_t rowStart = 1;
 	if (firstLine) {
 		split(currentLineVector, line, boost::is_any_of(","));
 	} else {
@@ -163,10 +164,16 @@ void NastranTokenizer::splitFreeFormat(string line, bool firstLine) {
 		string lineNoContinuation = line.substr(line.find(',') + 1);
 		vector<string> otherLine;
 		split(otherLine, lineNoContinuation, boost::is_any_of(","));
+		//each line holds eight fields: the ones left out before a continuation are blank
+		while (currentLineVector.size() % 8 != 1) {
+			currentLineVector.push_back("");
+		}
+		rowStart = currentLineVector.size();
 		currentLineVector.insert(currentLineVector.end(), otherLine.begin(), otherLine.end());
 	}
 	bool explicitContinuation = false;
-	for (size_t fieldIndex = 1; fieldIndex < currentLineVector.size(); fieldIndex += 8) {
+	//only the field following the data of this line can be a continuation mark
+	for (size_t fieldIndex = rowStart + 8; fieldIndex < currentLineVector.size(); fieldIndex += 8) {
 		string field = trim_copy(currentLineVector[fieldIndex]);
 		if (field[0] == '+') {
 			explicitContinuation = true;
@@ -176,6 +183,9 @@ void NastranTokenizer::splitFreeFormat(string line, bool firstLine) {
 	char c = static_cast<char>(this->instrream.peek());
     string line2;
     if (explicitContinuation || c == ',' || c == '+' || c == '*') {
+		if (currentLineVector.size() == rowStart + 9 and trim_copy(currentLineVector.back()).empty()) {
+			currentLineVector.pop_back(); //blank continuation mark
+		}
 		readLineSkipComment(line2, false);
 		splitFreeFormat(line2, false);
 	}
-- 
2.43.0


From 418b2fcc108f010c2cdd38ef5df4d2e411527d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:28 +0000
Subject: [PATCH 024/139] fix: the first bulk card keeps the blanks at the end
 of its line

---
 Nastran/NastranParser.cpp    | 2 +-
 Nastran/NastranTokenizer.cpp | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index be9567e..53142be 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -481,7 +481,7 @@ void NastranParser::parseExecutiveSection(NastranTokenizer& tok, Model& model,
                     context[keyword] = "";
                 } else {
                     vector<string> parts;
-                    const auto& currentRawDataLine = tok.currentRawDataLine();
+                    const string currentRawDataLine = trim_copy(tok.currentRawDataLine());
                     split(parts, currentRawDataLine, boost::is_any_of("="), boost::algorithm::token_compress_on);
                     if (parts.size() == 1) {
                         vector<string> parvalparts;
diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index a1499d8..a032420 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -319,10 +319,12 @@ void NastranTokenizer::nextLine() {
 	bool iseof = readLineSkipComment(this->currentLine, true);
 	if (!iseof) {
 		switch (currentSection) {
-		case SectionType::SECTION_EXECUTIVE:
-			boost::algorithm::trim(this->currentLine);
-			split(currentLineVector, this->currentLine, boost::is_any_of("\t\\= "), boost::algorithm::token_compress_on);
+		case SectionType::SECTION_EXECUTIVE: {
+			//the line itself stays as it is: it may be the first one of the bulk section
+			const string trimmedLine = trim_copy(this->currentLine);
+			split(currentLineVector, trimmedLine, boost::is_any_of("\t\\= "), boost::algorithm::token_compress_on);
 			break;
+		}
 		case SectionType::SECTION_BULK:
 			parseBulkSectionLine(this->currentLine);
 			break;
-- 
2.43.0


From 1e40bfacadb418364caa4b9d313096cb9b635cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:55 +0000
Subject: [PATCH 025/139] fix: nothing is read after ENDDATA

---
 Nastran/NastranParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 53142be..b910191 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -538,6 +538,9 @@ void NastranParser::parseBULKSection(NastranTokenizer &tok, Model& model) {
     while (tok.nextSymbolType == NastranTokenizer::SymbolType::SYMBOL_KEYWORD) {
         string keyword = tok.nextString(true,"");
         tok.setCurrentKeyword(keyword);
+        if (keyword == "ENDDATA") {
+            break; //nothing is read after the end of the bulk data
+        }
         try{
             auto parser = findCmdParser(keyword);
             if (parser != nullptr) {
-- 
2.43.0


From b6410e0d4cfb559090fd1874387d5d25f2420eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:02 +0000
Subject: [PATCH 026/139] fix: blank lines of files with DOS line ends

---
 Nastran/NastranTokenizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index a032420..deeb75c 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -123,6 +123,9 @@ bool NastranTokenizer::readLineSkipComment(string& line, bool firstLine) {
 	bool eof = true;
 	while (getline(this->instrream, line)) {
 		lineNumber += 1;
+		if (not line.empty() and line.back() == '\r') {
+			line.pop_back(); //file with DOS line ends
+		}
 		bool blankLine = all_of(line.begin(), line.end(), [](int c) {return isblank(c);});
 		if (not line.empty() and not blankLine and line[0] != '$') {
 			boost::iterator_range<string::iterator> middle_dollar = boost::find_first(line, "$");
-- 
2.43.0


From 61efe67e7926669e1f39fe36c028eef90f6d6aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:09 +0000
Subject: [PATCH 027/139] fix: tubes are defined by their external radius and
 thickness

---
 Abstract/Element.cpp      | 6 +++---
 Nastran/NastranParser.cpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index e8a46b3..88b39b4 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -247,11 +247,11 @@ unique_ptr<ElementSet> TubeSectionBeam::clone() const {
 }
 
 double TubeSectionBeam::getAreaCrossSection() const {
-	return M_PI * (pow(radius, 2) - pow(thickness, 2)) ;
+	return M_PI * (pow(radius, 2) - pow(radius - thickness, 2)) ;
 }
 
 double TubeSectionBeam::getMomentOfInertiaY() const {
-	return (pow(radius, 4) - pow(thickness, 4)) * M_PI / 4;
+	return (pow(radius, 4) - pow(radius - thickness, 4)) * M_PI / 4;
 }
 
 double TubeSectionBeam::getMomentOfInertiaZ() const {
@@ -260,7 +260,7 @@ double TubeSectionBeam::getMomentOfInertiaZ() const {
 
 double TubeSectionBeam::getTorsionalConstant() const {
 	// http://en.wikipedia.org/wiki/Torsion_constant
-	return (pow(radius, 4) - pow(thickness, 4)) * M_PI / 2;
+	return (pow(radius, 4) - pow(radius - thickness, 4)) * M_PI / 2;
 }
 
 double TubeSectionBeam::getShearAreaFactorY() const {
diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index b910191..aaa3f73 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2194,7 +2194,7 @@ void NastranParser::parsePBARL(NastranTokenizer& tok, Model& model) {
         double extRadius = tok.nextDouble();
         double intRadius = tok.nextDouble();
         nsm = tok.nextDouble(true, 0.0);
-        const auto& tubeSectionBeam = make_shared<TubeSectionBeam>(model, intRadius, extRadius - intRadius, Beam::BeamModel::TIMOSHENKO, nsm, propertyId);
+        const auto& tubeSectionBeam = make_shared<TubeSectionBeam>(model, extRadius, extRadius - intRadius, Beam::BeamModel::TIMOSHENKO, nsm, propertyId);
         tubeSectionBeam->assignMaterial(Reference<Material>(Material::Type::MATERIAL,mid));
         tubeSectionBeam->add(*getOrCreateCellGroup(propertyId, model, "PBARL"));
         tubeSectionBeam->setInputContext(tok.getInputContext());
@@ -2372,7 +2372,7 @@ void NastranParser::parsePBEAML(NastranTokenizer& tok, Model& model) {
         double extRadius = tok.nextDouble();
         double intRadius = tok.nextDouble();
         nsm = tok.nextDouble(true, 0.0);
-        const auto& tubeSectionBeam = make_shared<TubeSectionBeam>(model, intRadius, extRadius - intRadius, Beam::BeamModel::TIMOSHENKO, nsm, pid);
+        const auto& tubeSectionBeam = make_shared<TubeSectionBeam>(model, extRadius, extRadius - intRadius, Beam::BeamModel::TIMOSHENKO, nsm, pid);
         tubeSectionBeam->assignMaterial(Reference<Material>(Material::Type::MATERIAL,mid));
         tubeSectionBeam->add(*getOrCreateCellGroup(pid, model,"PBEAML"));
         tubeSectionBeam->setInputContext(tok.getInputContext());
-- 
2.43.0


From aa89732d05d6cbabecaa621288945b7b783c7ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:09 +0000
Subject: [PATCH 028/139] fix: torsional constant of rectangles taller than
 wide

---
 Abstract/Element.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index 88b39b4..236708b 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -298,7 +298,10 @@ double RectangularSectionBeam::getTorsionalConstant() const {
 	//	return height * pow(width, 3) / 3;
 	//}
 
-	return width*pow(height, 3)*(1.0/3 -0.21*height*(1- pow(height,4)/(12*pow(width,4)))/width);
+	// the formula holds for the long side first
+	const double a = max(width, height);
+	const double b = min(width, height);
+	return a*pow(b, 3)*(1.0/3 -0.21*b*(1- pow(b,4)/(12*pow(a,4)))/a);
 }
 
 double RectangularSectionBeam::getShearAreaFactorY() const {
-- 
2.43.0


From 6493fd6abb61dd9926b480332637d5066d710fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 029/139] fix: PCOMP ply defaults

---
 Nastran/NastranParser.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index aaa3f73..ce2d4c6 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2603,13 +2603,17 @@ void NastranParser::parsePCOMP(NastranTokenizer& tok, Model& model) {
     double theta1 = tok.nextDouble(true, 0.0);
     tok.skip(1); // SOUT1
     composite->addLayer(Reference<Material>(Material::Type::MATERIAL,mid1), t1, theta1);
+    int lastMid = mid1;
+    double lastThickness = t1;
     while(not tok.isNextEmpty(4) and not tok.isEmptyUntilNextKeyword()) {
-        int midn = tok.nextInt(true, mid1);
+        int midn = tok.nextInt(true, lastMid); // defaults are the last defined values
         composite->assignMaterial(Reference<Material>(Material::Type::MATERIAL,midn));
-        double tn = tok.nextDouble(true, t1);
-        double thetan = tok.nextDouble(true, theta1);
+        double tn = tok.nextDouble(true, lastThickness);
+        double thetan = tok.nextDouble(true, 0.0);
         tok.skip(1); // SOUTn
         composite->addLayer(Reference<Material>(Material::Type::MATERIAL,midn), tn, thetan);
+        lastMid = midn;
+        lastThickness = tn;
     }
     if (is_equal(z0, Globals::UNAVAILABLE_DOUBLE)) {
         composite->offset = composite->getTotalThickness() / 2.0; // default -1/2 element thickness
-- 
2.43.0


From adb79503c0d799b9f1aea68f44a79dec7db7dc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 030/139] fix: PCOMP Z0 locates the bottom surface, not the mid
 surface

---
 Nastran/NastranParser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index ce2d4c6..07acd3d 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2615,10 +2615,11 @@ void NastranParser::parsePCOMP(NastranTokenizer& tok, Model& model) {
         lastMid = midn;
         lastThickness = tn;
     }
+    // Z0 is the bottom surface (default -1/2 element thickness), the offset is that of the mid surface
     if (is_equal(z0, Globals::UNAVAILABLE_DOUBLE)) {
-        composite->offset = composite->getTotalThickness() / 2.0; // default -1/2 element thickness
+        composite->offset = 0.0;
     } else {
-        composite->offset = z0;
+        composite->offset = z0 + composite->getTotalThickness() / 2.0;
     }
     composite->setInputContext(tok.getInputContext());
     composite->add(*getOrCreateCellGroup(pid, model, "PCOMP"));
-- 
2.43.0


From c2d865233a17d862b69092e8b921fe1acdebe330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:41 +0000
Subject: [PATCH 031/139] fix: shells with different offsets or properties are
 split apart

---
 Abstract/Model.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 076217a..dc72aa4 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2126,46 +2126,46 @@ void Model::createSetGroups() {
 void Model::splitElementsByCellOffsets() {
     vector<shared_ptr<ElementSet>> elementSetsToAdd;
     vector<shared_ptr<ElementSet>> elementSetsToRemove;
-    map<long, shared_ptr<CellContainer>> cellPositionsByRoundedOffset;
 
     for (const auto& elementSet : elementSets.filter(ElementSet::Type::SHELL)) {
         const auto& shell = static_pointer_cast<Shell>(elementSet);
         if (not shell->containsNonzeroOffsetCell())
             continue;
         elementSetsToRemove.push_back(shell);
+        map<double, shared_ptr<CellContainer>> cellContainerByOffset;
         for (const Cell& cell : shell->getCellsIncludingGroups()) {
-            long offsetRounded = lround(pow(cell.offset,6));
-            const auto& it = cellPositionsByRoundedOffset.find(offsetRounded);
-            if (it == cellPositionsByRoundedOffset.end()) {
+            const auto& it = cellContainerByOffset.find(cell.offset);
+            if (it == cellContainerByOffset.end()) {
                 const shared_ptr<ElementSet>& clonedElement = shell->clone();
                 const auto& clonedShell = dynamic_pointer_cast<Shell>(clonedElement);
+                clonedShell->resetId();
                 clonedShell->clear();
                 clonedShell->offset = shell->offset + cell.offset;
                 clonedShell->add(cell);
-                cellPositionsByRoundedOffset[offsetRounded] = clonedShell;
+                cellContainerByOffset[cell.offset] = clonedShell;
                 elementSetsToAdd.push_back(clonedShell);
             } else {
                 it->second->add(cell);
             }
         }
     }
-    cellPositionsByRoundedOffset.clear();
 
     for (const auto& elementSet : elementSets.filter(ElementSet::Type::COMPOSITE)) {
         const auto& composite = static_pointer_cast<Composite>(elementSet);
         if (not composite->containsNonzeroOffsetCell())
             continue;
         elementSetsToRemove.push_back(composite);
+        map<double, shared_ptr<CellContainer>> cellContainerByOffset;
         for (const Cell& cell : composite->getCellsIncludingGroups()) {
-            long offsetRounded = lround(pow(cell.offset,6));
-            const auto& it = cellPositionsByRoundedOffset.find(offsetRounded);
-            if (it == cellPositionsByRoundedOffset.end()) {
+            const auto& it = cellContainerByOffset.find(cell.offset);
+            if (it == cellContainerByOffset.end()) {
                 const shared_ptr<ElementSet>& clonedElement = composite->clone();
                 const auto& clonedComposite = static_pointer_cast<Composite>(clonedElement);
+                clonedComposite->resetId();
                 clonedComposite->clear();
                 clonedComposite->offset = composite->offset + cell.offset;
                 clonedComposite->add(cell);
-                cellPositionsByRoundedOffset[offsetRounded] = clonedComposite;
+                cellContainerByOffset[cell.offset] = clonedComposite;
                 elementSetsToAdd.push_back(clonedComposite);
             } else {
                 it->second->add(cell);
-- 
2.43.0


From da487af07a4663bd7f32372b160f6beb041d0ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:42 +0000
Subject: [PATCH 032/139] fix: the cells of the additional mass have their own
 material

---
 Abstract/Model.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index dc72aa4..3fa3070 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -917,14 +917,17 @@ void Model::emulateAdditionalMass() {
             const auto& newMaterial = make_shared<Material>(*this);
             newMaterial->addNature(make_shared<ElasticNature>(*this, 0, 0, 0, rho));
             materials.add(newMaterial);
+            for (const auto& material : elementSet->getMaterials()) {
+                cellElementSet->unassignMaterial(material);
+            }
             cellElementSet->assignMaterial(newMaterial);
             // copy and assign new cellGroup
             ostringstream oss;
             oss << "created by emulateAdditionalMass() because of elementSet: " << elementSet << " additional rho:" << rho;
             const auto& newCellGroup = mesh.createCellGroup(
                     "VAM_" + to_string(newElementSets.size()), Group::NO_ORIGINAL_ID, oss.str());
-            const auto& cellContainer = dynamic_pointer_cast<CellContainer>(elementSet);
-            cellContainer->add(*newCellGroup);
+            cellElementSet->clear();
+            cellElementSet->add(*newCellGroup);
             newElementSets.push_back(newElementSet);
             for (const auto cellPosition : elementSet->cellPositions()) {
                 const Cell& cell = mesh.findCell(cellPosition);
-- 
2.43.0


From c5eb02ee3c48fa3c7b677e28f1613b3dd2b5ad1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:42 +0000
Subject: [PATCH 033/139] fix: PBAR shear factors K1 and K2 were exchanged

---
 Nastran/NastranParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 07acd3d..76b2254 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2120,8 +2120,8 @@ void NastranParser::parsePBAR(NastranTokenizer& tok, Model& model) {
 
     // K1, K2: Area factors for shear. VEGA works with 1/K1 and 1/K2
     // Default values is infinite
-    const double k1 = tok.nextDouble(true); // K1 = Kzz
-    const double k2 = tok.nextDouble(true); // K2 = Kyy
+    const double k1 = tok.nextDouble(true); // K1: plane 1 (xy), shear along y
+    const double k2 = tok.nextDouble(true); // K2: plane 2 (xz), shear along z
     double invk1, invk2;
     if (is_equal(k1, Globals::UNAVAILABLE_DOUBLE)){
         invk1= 0.0;
@@ -2139,7 +2139,7 @@ void NastranParser::parsePBAR(NastranTokenizer& tok, Model& model) {
         handleParsingWarning("PBAR i12 not implemented.", tok, model);
     }
 
-    const auto& genericSectionBeam = make_shared<GenericSectionBeam>(model, area, i2, i1, j, invk2, invk1, Beam::BeamModel::TIMOSHENKO, nsm,
+    const auto& genericSectionBeam = make_shared<GenericSectionBeam>(model, area, i2, i1, j, invk1, invk2, Beam::BeamModel::TIMOSHENKO, nsm,
             elemId);
     genericSectionBeam->assignMaterial(Reference<Material>(Material::Type::MATERIAL,mid));
     genericSectionBeam->add(*getOrCreateCellGroup(elemId, model, "PBAR"));
-- 
2.43.0


From 2deb84ffbede896baf3bed28d040bd30e6cc13e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:42 +0000
Subject: [PATCH 034/139] fix: write YT of orthotropic materials (Aster)

---
 Aster/AsterWriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index ee03f05..99baea4 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1006,6 +1006,9 @@ void AsterWriter::writeMaterials() {
 			if (is_defined(orthoNature->getXt())) {
 			    comm_file_ofs << "                         XT=" << orthoNature->getXt() << "," << endl;
 			}
+			if (is_defined(orthoNature->getYt())) {
+			    comm_file_ofs << "                         YT=" << orthoNature->getYt() << "," << endl;
+			}
 			if (is_defined(orthoNature->getYc())) {
 			    comm_file_ofs << "                         YC=" << orthoNature->getYc() << "," << endl;
 			}
-- 
2.43.0


From 51ac0c0560ed4457f6f922cfcb7659aebc4df1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:23 +0000
Subject: [PATCH 035/139] fix: fields missing at the end of a row are empty,
 not read past its end

---
 Nastran/NastranTokenizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index deeb75c..92f1e50 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -276,6 +276,9 @@ bool NastranTokenizer::isNextEmpty(int n) {
             result = false;
             break;
         }
+        if (currentField + static_cast<size_t>(i) >= currentLineVector.size()) {
+            break; // fields missing at the end of a row are empty
+        }
         string curField = trim_copy(currentLineVector[currentField + i]);
         result &= curField.empty();
     }
-- 
2.43.0


From e7673ac6ead87d24c679778121cb3182137f091a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:23 +0000
Subject: [PATCH 036/139] fix: WTMASS applied twice to the isotropic plies of
 composites

---
 Abstract/Model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 3fa3070..0fd93fe 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2206,7 +2206,7 @@ void Model::replaceIsotropicMaterialsInComposites() {
                                                                    elasticNature->getG(),
                                                                    elasticNature->getG(),
                                                                    elasticNature->getG(),
-                                                                   elasticNature->getRho()));
+                                                                   elasticNature->getRhoAsForceDensity()));
                 this->add(orthoMaterial);
                 replacedMaterials[material->getReference()] = orthoMaterial;
                 layer->setMaterial(orthoMaterial);
-- 
2.43.0


From 2b70b6b02f21fb96fa1d7af5575c04cf26d022a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:26 +0000
Subject: [PATCH 037/139] fix: tube beams and rectangular trusses of the Systus
 output

---
 Systus/SystusWriter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 5e1569a..57787cf 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -428,6 +428,7 @@ void SystusWriter::getSystusAutomaticOption(const SystusModel& systusModel, Syst
 
         // Those elements need 6 DDL
         case ElementSet::Type::CIRCULAR_SECTION_BEAM:
+        case ElementSet::Type::TUBE_SECTION_BEAM:
         case ElementSet::Type::GENERIC_SECTION_BEAM:
         case ElementSet::Type::I_SECTION_BEAM:
         case ElementSet::Type::RECTANGULAR_SECTION_BEAM: {
@@ -2042,8 +2043,8 @@ void SystusWriter::fillMaterial(const SystusModel& systusModel, const int idSubc
                     const auto& rectangularBeam = static_pointer_cast<RectangularSectionBeam>(elementSet);
                     const double S= rectangularBeam->getAreaCrossSection();
 
+                    fillMaterialField(SMF::S, S, systusMat);
                     if (not rectangularBeam->isTruss()) {
-                        fillMaterialField(SMF::S, S, systusMat);
                         fillMaterialField(SMF::AY, S*rectangularBeam->getShearAreaFactorY(), systusMat);
                         fillMaterialField(SMF::AZ, S*rectangularBeam->getShearAreaFactorZ(), systusMat);
 
@@ -2761,6 +2762,7 @@ void SystusWriter::writeElements(const SystusModel& systusModel, const int idSub
 
         switch (elementSet->type) {
         case ElementSet::Type::CIRCULAR_SECTION_BEAM:
+        case ElementSet::Type::TUBE_SECTION_BEAM:
         case ElementSet::Type::GENERIC_SECTION_BEAM:
         case ElementSet::Type::I_SECTION_BEAM:
         case ElementSet::Type::RECTANGULAR_SECTION_BEAM: {
-- 
2.43.0


From 7d7292b7081865e995e052c4f3b5efa09523da84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:04 +0000
Subject: [PATCH 038/139] fix: non structural mass, shear factors and offset of
 CQUAD8 lost in the Nastran output

---
 Nastran/NastranWriter.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index dc3cce4..ec5807e 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -355,6 +355,9 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
                     F = "1";
                 cellLine.add(x1x2x3).add(F);
             } else if (elementSet->isShell()) {
+                if (cell.type.code == CellType::Code::QUAD8_CODE) {
+                    cellLine.skip(4); // corner thicknesses
+                }
                 cellLine.add(); // theta (real) or matid (int)
                 cellLine.add(cell.offset);
             }
@@ -814,12 +817,21 @@ void NastranWriter::writeRuler(ofstream& out) const
 
 void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		{
+	double massMultiplier = 1.; // the masses are written without PARAM,WTMASS
+	if (model.contains(ModelParameter::MASS_OVER_FORCE_MULTIPLIER)) {
+		massMultiplier = stod(model.getParameter(ModelParameter::MASS_OVER_FORCE_MULTIPLIER));
+	}
 	for (const auto& truss : model.getTrusses()) {
 		Line prod("PROD");
 		prod.add(truss->bestId());
 		prod.add(truss->mainMaterial()->bestId());
 		prod.add(truss->getAreaCrossSection());
 		prod.add(truss->getTorsionalConstant());
+		const double trussNsm = truss->getAdditionalRho() * truss->getAreaCrossSection() * massMultiplier;
+		if (not is_zero(trussNsm)) {
+			prod.add(); // C
+			prod.add(trussNsm);
+		}
 		out << prod;
 		truss->markAsWritten();
 	}
@@ -835,6 +847,14 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 			pbeam.add(0.0); // I12, which PBAR does not have in this place
 		}
 		pbeam.add(beam->getTorsionalConstant());
+		pbeam.add(beam->getAdditionalRho() * beam->getAreaCrossSection() * massMultiplier);
+		const double shearY = beam->getShearAreaFactorY();
+		const double shearZ = beam->getShearAreaFactorZ();
+		if (isCosmic() and not (is_zero(shearY) and is_zero(shearZ))) {
+			pbeam.skip(1 + 8); // end of the row and stress recovery points
+			pbeam.add(is_zero(shearY) ? 0. : 1. / shearY); // K1
+			pbeam.add(is_zero(shearZ) ? 0. : 1. / shearZ); // K2
+		}
 		out << pbeam;
 		beam->markAsWritten();
 	}
@@ -845,6 +865,11 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		pshell.add(shell->mainMaterial()->bestId());
 		pshell.add(shell->thickness);
 		pshell.add(shell->mainMaterial()->bestId()); // MID2 for bending
+		const double shellNsm = shell->getAdditionalRho() * shell->thickness * massMultiplier;
+		if (not is_zero(shellNsm)) {
+			pshell.skip(3); // bending stiffness, MID3, shear thickness
+			pshell.add(shellNsm);
+		}
 		out << pshell;
 		shell->markAsWritten();
 	}
-- 
2.43.0


From 6b0422ffd61f8caf70ed4cfc82242d38da5242da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:12 +0000
Subject: [PATCH 039/139] fix: generated properties took the number of another
 property in the Nastran output

---
 Nastran/NastranWriter.cpp | 25 +++++++++++++++++++------
 Nastran/NastranWriter.h   |  1 +
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index ec5807e..a7c7ff6 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -343,7 +343,7 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
             if (isCosmic() && (cell.type.code == CellType::Code::TETRA4_CODE || cell.type.code == CellType::Code::TETRA10_CODE)) {
                 cellLine.add(cell.id).add(elementSet->mainMaterial()->bestId()).add(nasConnect);
             } else {
-                cellLine.add(cell.id).add(elementSet->bestId()).add(nasConnect);
+                cellLine.add(cell.id).add(getPropertyId(model, *elementSet)).add(nasConnect);
             }
 
             if (elementSet->isBeam() and cell.hasOrientation) {
@@ -815,6 +815,19 @@ void NastranWriter::writeRuler(ofstream& out) const
 			<< endl;
 }
 
+int NastranWriter::getPropertyId(const Model& model, const ElementSet& elementSet) const {
+	if (elementSet.isOriginal()) {
+		return elementSet.getOriginalId();
+	}
+	int maxOriginalId = 0; // generated properties (CONROD...) are numbered after those of the user
+	for (const auto& otherElementSet : model.elementSets) {
+		if (otherElementSet->isOriginal()) {
+			maxOriginalId = max(maxOriginalId, otherElementSet->getOriginalId());
+		}
+	}
+	return maxOriginalId + elementSet.getId();
+}
+
 void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		{
 	double massMultiplier = 1.; // the masses are written without PARAM,WTMASS
@@ -823,7 +836,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 	}
 	for (const auto& truss : model.getTrusses()) {
 		Line prod("PROD");
-		prod.add(truss->bestId());
+		prod.add(getPropertyId(model, *truss));
 		prod.add(truss->mainMaterial()->bestId());
 		prod.add(truss->getAreaCrossSection());
 		prod.add(truss->getTorsionalConstant());
@@ -838,7 +851,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 	for (const auto& beam : model.getBeams()) {
 	    string beamModel = isCosmic() ? "PBAR" : "PBEAM";
 		Line pbeam(beamModel);
-		pbeam.add(beam->bestId());
+		pbeam.add(getPropertyId(model, *beam));
 		pbeam.add(beam->mainMaterial()->bestId());
 		pbeam.add(beam->getAreaCrossSection());
 		pbeam.add(beam->getMomentOfInertiaZ());
@@ -861,7 +874,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 	for (const auto& elementSet : model.elementSets.filter(ElementSet::Type::SHELL)) {
 		const auto& shell = static_pointer_cast<Shell>(elementSet);
 		Line pshell("PSHELL");
-		pshell.add(shell->bestId());
+		pshell.add(getPropertyId(model, *shell));
 		pshell.add(shell->mainMaterial()->bestId());
 		pshell.add(shell->thickness);
 		pshell.add(shell->mainMaterial()->bestId()); // MID2 for bending
@@ -876,7 +889,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 	for (const auto& continuum : model.elementSets.filter(ElementSet::Type::CONTINUUM)) {
 	    string keyword = isCosmic() ? "PIHEX" : "PSOLID";
 		Line psolid(keyword);
-		psolid.add(continuum->bestId());
+		psolid.add(getPropertyId(model, *continuum));
 		psolid.add(continuum->mainMaterial()->bestId());
 		if (continuum->modelType == ModelType::TRIDIMENSIONAL and not isCosmic()) {
             psolid.add(0);
@@ -927,7 +940,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
             handleWritingError("discrete not completely written");
         }
         Line pbush("PBUSH");
-        pbush.add(segment->bestId());
+        pbush.add(getPropertyId(model, *segment));
         pbush.add("K");
         for (const DOF dof: DOFS::ALL_DOFS) {
             pbush.add(segment->findStiffness(dof, dof));
diff --git a/Nastran/NastranWriter.h b/Nastran/NastranWriter.h
index aa27df0..8c68b1e 100644
--- a/Nastran/NastranWriter.h
+++ b/Nastran/NastranWriter.h
@@ -64,6 +64,7 @@ private:
 	bool isCosmic() const {
 	    return dialect == Dialect::COSMIC95;
 	}
+	int getPropertyId(const Model& model, const ElementSet& elementSet) const;
 	void writeSOL(const Model& model, std::ofstream& out) const;
 	void writeCells(const Model& model, std::ofstream& out) const;
 	void writeCoordinateSystem(const std::string& keyword, const CoordinateSystem&, std::ofstream&) const;
-- 
2.43.0


From 8f10abf652a34f4698a56061afba63fd56baaf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:10 +0000
Subject: [PATCH 040/139] fix: the function of a line load is shared by no
 scaled copy of it

---
 Abstract/Loading.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index b2f9ea8..a51e5ef 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -694,6 +694,14 @@ unique_ptr<Loading> ForceLine::clone() const {
 }
 
 void ForceLine::scale(const double factor) {
+	const auto& functionTable = dynamic_pointer_cast<FunctionTable>(force);
+	if (functionTable != nullptr) {
+		// the function may belong to other loadings too, which must not be scaled
+		const auto& ownFunction = make_shared<FunctionTable>(*functionTable);
+		ownFunction->resetId();
+		model.add(ownFunction);
+		force = ownFunction;
+	}
 	force->scale(factor);
 }
 
-- 
2.43.0


From a3dbdc0a135fad360c98056214d17e8d806d4a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:10 +0000
Subject: [PATCH 041/139] fix: increasing abscissas of line loads on beams
 pointing to -X

---
 Abstract/Model.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 0fd93fe..e8a0b18 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2044,10 +2044,17 @@ void Model::changeParametricForceLineToAbsolute() {
 
         if (cell.nodePositions.size() != 2)
             throw logic_error("Conversion of cell without two nodeids per ForceLine not yet implemented (but should be doable)");
+        vector<pair<double, double>> absoluteValues;
         for (auto it = functionTable->getBeginValuesXY(); it != functionTable->getEndValuesXY(); it++) {
             double absc = it->first;
             double val = it->second;
-            absoluteFunction->setXY(node1.x * (1-absc) + node2.x * absc, val);
+            absoluteValues.push_back({node1.x * (1-absc) + node2.x * absc, val});
+        }
+        if (node2.x < node1.x) {
+            reverse(absoluteValues.begin(), absoluteValues.end()); // the abscissas of a function are increasing
+        }
+        for (const auto& xy : absoluteValues) {
+            absoluteFunction->setXY(xy.first, xy.second);
         }
         this->add(absoluteFunction);
         forceLine->force = absoluteFunction;
-- 
2.43.0


From e92ff02a17c801656fe269706a63bc81f747cc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:10 +0000
Subject: [PATCH 042/139] fix: RFORCE speed is in revolutions, its load is
 quadratic

---
 Abstract/Loading.cpp      | 10 ++++++++--
 Nastran/NastranParser.cpp |  4 +++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index a51e5ef..fef06ab 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -219,7 +219,10 @@ unique_ptr<Loading> RotationCenter::clone() const {
 }
 
 void RotationCenter::scale(const double factor) {
-	speed *= factor;
+	if (factor < 0) {
+		throw logic_error("A centrifugal load cannot be scaled by a negative factor");
+	}
+	speed *= sqrt(factor); // the load is proportional to the square of the speed
 }
 
 RotationNode::RotationNode(Model& model, const std::shared_ptr<LoadSet> loadset, double speed, const int node_id, double axis_x,
@@ -246,7 +249,10 @@ unique_ptr<Loading> RotationNode::clone() const {
 }
 
 void RotationNode::scale(const double factor) {
-	speed *= factor;
+	if (factor < 0) {
+		throw logic_error("A centrifugal load cannot be scaled by a negative factor");
+	}
+	speed *= sqrt(factor); // the load is proportional to the square of the speed
 }
 
 ImposedDisplacement::ImposedDisplacement(Model& model, const std::shared_ptr<LoadSet> loadset, DOFS dofs, double value, const int original_id, const Reference<CoordinateSystem> csref) :
diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 76b2254..1373305 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3242,7 +3242,9 @@ void NastranParser::parseRFORCE(NastranTokenizer& tok, Model& model) {
         handleParsingWarning("MB not supported. Default (0) assumed.", tok, model);
     }
     const auto& loadset = model.getOrCreateLoadSet(sid, LoadSet::Type::LOAD);
-    const auto& rotation = make_shared<RotationNode>(model, loadset, a, g, r1, r2, r3);
+    // A is in revolutions per unit time, and the angular velocity also has the length of the vector
+    const double speed = 2 * M_PI * a * VectorialValue(r1, r2, r3).norm();
+    const auto& rotation = make_shared<RotationNode>(model, loadset, speed, g, r1, r2, r3);
 
     rotation->setInputContext(tok.getInputContext());
     model.add(rotation);
-- 
2.43.0


From 995f5e93ec11fe82b1252ab338740b5b29f75132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:10 +0000
Subject: [PATCH 043/139] fix: the length of the direction of PLOAD4 does not
 scale the pressure

---
 Nastran/NastranParser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 1373305..6cff401 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2930,6 +2930,13 @@ void NastranParser::parsePLOAD4(NastranTokenizer& tok, Model& model) {
         handleParsingWarning("LDIR field not supported: default (NORM) assumed.", tok, model);
     }
 
+    const double directionNorm = VectorialValue(n1, n2, n3).norm();
+    if (not is_zero(directionNorm)) {
+        // only the direction of this vector is meaningful
+        n1 /= directionNorm;
+        n2 /= directionNorm;
+        n3 /= directionNorm;
+    }
     const auto& loadSet = model.getOrCreateLoadSet(loadset_id, LoadSet::Type::LOAD);
     bool has_direction = not (is_equal(n1, 0.0) and is_equal(n2, 0.0) and is_equal(n3, 0.0)
                               and cid == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
-- 
2.43.0


From 15fd58df54328123d91b5b5e3aca4bb1834eda0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:10 +0000
Subject: [PATCH 044/139] fix: forces on shells in the Nastran output

---
 Nastran/NastranWriter.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index a7c7ff6..abe849e 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -617,10 +617,8 @@ void NastranWriter::writeLoadings(const Model& model, ofstream& out) const
 		const auto& forceSurfaces = loadingSet->getLoadingsByType(
 				Loading::Type::FORCE_SURFACE);
         for (const auto& loading : forceSurfaces) {
-            const auto& forceSurface = dynamic_pointer_cast<ForceSurfaceTwoNodes>(loading);
-            if (forceSurface == nullptr) {
-                handleWritingError("Need to implement writing other ForceSurface subclasses");
-            }
+            const auto& forceSurface = static_pointer_cast<ForceSurface>(loading);
+            const auto& forceSurfaceTwoNodes = dynamic_pointer_cast<ForceSurfaceTwoNodes>(loading);
             const auto& cellPositions = forceSurface->getCellPositionsIncludingGroups();
             for (const pos_t cellPosition: cellPositions) {
                 const Cell& cell = model.mesh.findCell(cellPosition);
@@ -635,12 +633,13 @@ void NastranWriter::writeLoadings(const Model& model, ofstream& out) const
                     handleWritingError("Unimplemented moment in PLOAD4");
                 }
 
-                const int nodeId1 = model.mesh.findNodeId(forceSurface->nodePosition1);
-                pload4.add(nodeId1);
-                int nodeId2 = Globals::UNAVAILABLE_INT;
-                if (forceSurface->nodePosition2 != Globals::UNAVAILABLE_POS) {
-                    nodeId2 = model.mesh.findNodeId(forceSurface->nodePosition2);
-                    pload4.add(nodeId2);
+                if (forceSurfaceTwoNodes != nullptr) {
+                    pload4.add(model.mesh.findNodeId(forceSurfaceTwoNodes->nodePosition1));
+                } else {
+                    pload4.add("");
+                }
+                if (forceSurfaceTwoNodes != nullptr and forceSurfaceTwoNodes->nodePosition2 != Globals::UNAVAILABLE_POS) {
+                    pload4.add(model.mesh.findNodeId(forceSurfaceTwoNodes->nodePosition2));
                 } else {
                     pload4.add("");
                 }
-- 
2.43.0


From c44255061b45d1bb9e6fcd306474ed1eaeaae51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:10 +0000
Subject: [PATCH 045/139] fix: faces 2 and 3 of quadratic hexahedra

---
 Abstract/MeshComponents.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Abstract/MeshComponents.cpp b/Abstract/MeshComponents.cpp
index 4d8fcbf..361252d 100644
--- a/Abstract/MeshComponents.cpp
+++ b/Abstract/MeshComponents.cpp
@@ -382,8 +382,8 @@ unordered_map<CellType::Code, vector<vector<int>>, EnumClassHash > Cell::init_fa
     };
     vector<vector<int> > hexa20list = { //
         {1,2,3,4,9,10,11,12}, //
-        {5,8,7,6,16,15,14,16}, //
-        {1,2,6,5,9,18,13,17}, //
+        {5,8,7,6,16,15,14,13}, //
+        {1,5,6,2,17,13,18,9}, //
         {2,6,7,3,18,14,19,10}, //
         {3,7,8,4,19,15,20,11}, //
         {1,4,8,5,12,20,16,17} //
-- 
2.43.0


From 7d9e6d7d8d4c503ecc337219651de1e911cfe5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:10 +0000
Subject: [PATCH 046/139] fix: loads and groups may name cells defined after
 them

---
 Abstract/MeshComponents.cpp | 62 +++++++++++++++++++++++++------------
 Abstract/MeshComponents.h   |  4 ++-
 2 files changed, 46 insertions(+), 20 deletions(-)

diff --git a/Abstract/MeshComponents.cpp b/Abstract/MeshComponents.cpp
index 361252d..caab269 100644
--- a/Abstract/MeshComponents.cpp
+++ b/Abstract/MeshComponents.cpp
@@ -678,34 +678,48 @@ void CellContainer::addCellPosition(pos_t cellPosition) noexcept {
 }
 
 void CellContainer::addCellId(int cellId) noexcept {
-	cellPositions.insert(mesh.findCellPosition(cellId));
+	const pos_t cellPosition = mesh.findCellPosition(cellId);
+	cellPositions.insert(cellPosition);
+	if (cellPosition == Cell::UNAVAILABLE_CELL) {
+		undefinedCellIds.insert(cellId);
+	}
+}
+
+void CellContainer::resolveUndefinedCells() const noexcept {
+	if (undefinedCellIds.empty()) {
+		return;
+	}
+	for (auto it = undefinedCellIds.begin(); it != undefinedCellIds.end();) {
+		const pos_t cellPosition = mesh.findCellPosition(*it);
+		if (cellPosition == Cell::UNAVAILABLE_CELL) {
+			++it;
+		} else {
+			cellPositions.insert(cellPosition);
+			it = undefinedCellIds.erase(it);
+		}
+	}
+	if (undefinedCellIds.empty()) {
+		const pos_t unavailable = Cell::UNAVAILABLE_CELL;
+		cellPositions.erase(unavailable);
+	}
 }
 
 void CellContainer::addCellIds(const vector<int>& otherIds) noexcept {
-	transform(otherIds.begin(),
-              otherIds.end(),
-              std::inserter(cellPositions, cellPositions.begin()),
-              [&](const int cellId) {
-                  return mesh.findCellPosition(cellId);
-              });
+	for (const int cellId : otherIds) {
+		addCellId(cellId);
+	}
 }
 
 void CellContainer::addCellIds(const set<int>& otherIds) noexcept {
-	transform(otherIds.begin(),
-              otherIds.end(),
-              std::inserter(cellPositions, cellPositions.begin()),
-              [&](const int cellId) {
-                  return mesh.findCellPosition(cellId);
-              });
+	for (const int cellId : otherIds) {
+		addCellId(cellId);
+	}
 }
 
 void CellContainer::addCellIds(const list<int>& otherIds) noexcept {
-	transform(otherIds.begin(),
-              otherIds.end(),
-              std::inserter(cellPositions, cellPositions.begin()),
-              [&](const int cellId) {
-                  return mesh.findCellPosition(cellId);
-              });
+	for (const int cellId : otherIds) {
+		addCellId(cellId);
+	}
 }
 
 
@@ -742,6 +756,7 @@ void CellContainer::add(const CellContainer& cellContainer) noexcept {
 	if (not otherCellPositions.empty()) {
 		cellPositions.insert(otherCellPositions.begin(), otherCellPositions.end());
 	}
+	undefinedCellIds.insert(cellContainer.undefinedCellIds.begin(), cellContainer.undefinedCellIds.end());
 
 	if (not cellContainer.cellGroupNames.empty()) {
 		this->cellGroupNames.insert(cellContainer.cellGroupNames.begin(), cellContainer.cellGroupNames.end());
@@ -749,15 +764,18 @@ void CellContainer::add(const CellContainer& cellContainer) noexcept {
 }
 
 bool CellContainer::containsCellPosition(pos_t cellPosition) const noexcept {
+	resolveUndefinedCells();
 	return cellPositions.find(cellPosition) != cellPositions.end();
 }
 
 void CellContainer::removeCellPositionExcludingGroups(pos_t cellPosition) noexcept {
+	resolveUndefinedCells();
 	cellPositions.erase(cellPosition);
 }
 
 
 set<Cell> CellContainer::getCellsExcludingGroups() const noexcept {
+	resolveUndefinedCells();
 	set<Cell> cells;
 	transform(cellPositions.begin(),
               cellPositions.end(),
@@ -782,9 +800,11 @@ set<Cell> CellContainer::getCellsIncludingGroups() const noexcept {
 
 void CellContainer::removeAllCellsExcludingGroups() noexcept {
     cellPositions.clear();
+    undefinedCellIds.clear();
 }
 
 set<int> CellContainer::getCellIdsExcludingGroups() const noexcept {
+	resolveUndefinedCells();
 	set<int> result;
 	transform(cellPositions.begin(),
               cellPositions.end(),
@@ -808,6 +828,7 @@ set<int> CellContainer::getCellIdsIncludingGroups() const noexcept {
 }
 
 set<pos_t> CellContainer::getCellPositionsIncludingGroups() const noexcept {
+	resolveUndefinedCells();
 	set<pos_t> result(cellPositions.begin(), cellPositions.end());
     for (const auto& groupName : cellGroupNames) {
         const auto& group = dynamic_pointer_cast<CellGroup>(mesh.findGroup(groupName));
@@ -820,6 +841,7 @@ set<pos_t> CellContainer::getCellPositionsIncludingGroups() const noexcept {
 }
 
 set<pos_t> CellContainer::getCellPositionsExcludingGroups() const noexcept {
+	resolveUndefinedCells();
 	return cellPositions;
 }
 
@@ -846,6 +868,7 @@ bool CellContainer::empty() const noexcept {
 void CellContainer::clear() noexcept {
 	cellGroupNames.clear();
 	cellPositions.clear();
+	undefinedCellIds.clear();
 }
 
 bool CellContainer::hasCellsExcludingGroups() const noexcept {
@@ -881,6 +904,7 @@ bool CellContainer::hasCellGroups() const noexcept {
 }
 
 string CellContainer::to_str() const {
+    resolveUndefinedCells();
     ostringstream out;
 	out << "CellContainer[";
 	if (not cellPositions.empty()) {
diff --git a/Abstract/MeshComponents.h b/Abstract/MeshComponents.h
index b163664..f587d23 100644
--- a/Abstract/MeshComponents.h
+++ b/Abstract/MeshComponents.h
@@ -437,9 +437,11 @@ class CellGroup;
  */
 class CellContainer {
 private:
-    std::set<pos_t> cellPositions;
+    mutable std::set<pos_t> cellPositions;
+    mutable std::set<int> undefinedCellIds; // ids of the cells that were not defined yet when they were added
     std::set<std::string> cellGroupNames;
     const Mesh& mesh;
+    void resolveUndefinedCells() const noexcept;
 public:
     CellContainer(const Mesh&) noexcept;
     virtual ~CellContainer() = default;
-- 
2.43.0


From 44db790cd7dba5078b182390740741455abd2e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:57 +0000
Subject: [PATCH 047/139] fix: apply every SUBSEQ coefficient to its own
 preceding subcase

---
 Nastran/NastranParser.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 6cff401..a172730 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -998,13 +998,27 @@ void NastranParser::addCombinationAnalysis(NastranTokenizer& tok, Model& model,
 
     // A SUBSEQ command must follow this command.
     const auto& subseq = context.find("SUBSEQ");
-    vector<string> coefStrings(model.analyses.size());
-    boost::split(coefStrings,subseq->second,boost::is_any_of(","));
+    if (subseq == context.end() or subseq->second.empty()) {
+        handleParsingError("SUBCOM without SUBSEQ", tok, model);
+        return;
+    }
+    vector<string> coefStrings;
+    const string& coefLine = boost::trim_copy_if(subseq->second, boost::is_any_of(", _"));
+    boost::split(coefStrings, coefLine, boost::is_any_of(", _"), boost::token_compress_on);
+    // The coefficients belong to the immediately preceding subcases, in their order
+    vector<shared_ptr<Analysis>> subcases;
+    for (const auto& analysis : model.analyses) {
+        if (analysis->type != Analysis::Type::COMBINATION)
+            subcases.push_back(analysis);
+    }
+    if (coefStrings.size() > subcases.size()) {
+        handleParsingError("SUBSEQ has more coefficients than there are preceding subcases", tok, model);
+        return;
+    }
+    const size_t offset = subcases.size() - coefStrings.size();
     for (size_t i = 0; i < coefStrings.size(); i++) {
-        auto it = model.analyses.begin();
-        advance(it, i);
-        const auto& analysis = *it;
-        double coef = stod(coefStrings[i++]);
+        const auto& analysis = subcases[offset + i];
+        double coef = stod(coefStrings[i]);
         if (model.configuration.logLevel >= LogLevel::TRACE) {
             cout << "Assigning analysis " << *analysis << " to combination " << *combination << " with coefficient " << to_string(coef) << endl;
         }
-- 
2.43.0


From 41e3ce4c359e7f07693f295e5b5823143d00a577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:57 +0000
Subject: [PATCH 048/139] fix: reuse the modal base of a frequency response
 under the name it was created with

---
 Aster/AsterWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 99baea4..6eb8b5d 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2721,7 +2721,7 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
             if (reusableAnalysis->type == Analysis::Type::LINEAR_MODAL)
                 modalResuName = "RESU" + to_string(reusableAnalysis->getId());
             else
-                modalResuName = "MOD" + to_string(reusableAnalysis->getId());
+                modalResuName = "MO" + to_string(reusableAnalysis->getId());
 		    comm_file_ofs << "# Reusing previous results: " << modalResuName << " for analysis " << *analysis << endl;
             handleWritingWarning("Reusing previous results: " + modalResuName + " for analysis " + to_str(*analysis));
 		}
-- 
2.43.0


From 0cbc407981d91b951cbde54afea0e3f3d3c48056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:21 +0000
Subject: [PATCH 049/139] fix: keep the SOL 105 subcases without METHOD static

---
 Nastran/NastranParser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index a172730..9c8a462 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -707,6 +707,15 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
             labelAnalysis = commentEntry->second;
     }
 
+    if (analysis_type == NastranAnalysis::BUCKL) {
+        // Only the subcases selecting an eigenvalue method are buckling ones, the others are static preloads
+        const bool hasMethod = any_of(context.begin(), context.end(), [](const pair<const string, string>& entry) {
+            return entry.first.find("METHOD") != string::npos;
+        });
+        if (not hasMethod)
+            analysis_type = NastranAnalysis::STATIC;
+    }
+
     if (analysis_type == NastranAnalysis::STATIC or (analysis_type == NastranAnalysis::BUCKL and previous == nullptr)) {
 
         analysis = make_shared<LinearMecaStat>(model, labelAnalysis, analysis_id);
-- 
2.43.0


From e4e7750fdeaca12515de252d3453ff210f50e97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:11 +0000
Subject: [PATCH 050/139] fix: buckle from the static preload when several
 buckling subcases follow it

---
 Abstract/Analysis.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Abstract/Analysis.cpp b/Abstract/Analysis.cpp
index 6dd8896..9efbad7 100644
--- a/Abstract/Analysis.cpp
+++ b/Abstract/Analysis.cpp
@@ -656,7 +656,12 @@ shared_ptr<Analysis> LinearBuckling::getStaticSubAnalysis() const noexcept {
     if (staticSubAnalysisRef != nullptr) {
         return model.find(*staticSubAnalysisRef);
     } else {
-        return previousAnalysis;
+        // several buckling subcases may share the same static preload
+        auto staticAnalysis = previousAnalysis;
+        while (staticAnalysis != nullptr and staticAnalysis->isBuckling()) {
+            staticAnalysis = staticAnalysis->previousAnalysis;
+        }
+        return staticAnalysis;
     }
 }
 
-- 
2.43.0


From b394b107cc1602b42951e0f56aa2e969e32acddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:47 +0000
Subject: [PATCH 051/139] fix: fall back on the announced MASS normalization of
 the modes

---
 Nastran/NastranParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 9c8a462..563a24e 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1581,7 +1581,7 @@ void NastranParser::parseEIGB(NastranTokenizer& tok, Model& model) {
         norm = FrequencySearch::NormType::MAX;
     else {
         handleParsingWarning("Only MASS and MAX normalizing method (NORM) supported. Default (MASS) assumed.", tok, model);
-        norm = FrequencySearch::NormType::MAX;
+        norm = FrequencySearch::NormType::MASS;
     }
     int g = tok.nextInt(true);
     if (g!=Globals::UNAVAILABLE_INT){
@@ -1630,7 +1630,7 @@ void NastranParser::parseEIGR(NastranTokenizer& tok, Model& model) {
         norm = FrequencySearch::NormType::MAX;
     else {
         handleParsingWarning("Only MASS and MAX normalizing method (NORM) supported. Default (MASS) assumed.", tok, model);
-        norm = FrequencySearch::NormType::MAX;
+        norm = FrequencySearch::NormType::MASS;
     }
     int g = tok.nextInt(true);
     if (g!=Globals::UNAVAILABLE_INT){
@@ -1686,7 +1686,7 @@ void NastranParser::parseEIGRL(NastranTokenizer& tok, Model& model) {
         norm = FrequencySearch::NormType::MAX;
     else {
         handleParsingWarning("Only MASS and MAX normalizing method (NORM) supported. Default (MASS) assumed.", tok, model);
-        norm = FrequencySearch::NormType::MAX;
+        norm = FrequencySearch::NormType::MASS;
     }
     const auto& bandRange = make_shared<BandRange>(model, lower, nd, upper);
     //bandRange.setParaX(Function::ParaName::FREQ);
-- 
2.43.0


From bf2795285a92b140448647faf5cefb3acb1bd5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:23 +0000
Subject: [PATCH 052/139] fix: analyses naming a missing or unsuitable method,
 frequency or constraint set

---
 Abstract/Analysis.cpp | 45 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/Abstract/Analysis.cpp b/Abstract/Analysis.cpp
index 9efbad7..157f4a1 100644
--- a/Abstract/Analysis.cpp
+++ b/Abstract/Analysis.cpp
@@ -266,7 +266,9 @@ vector<shared_ptr<ConstraintSet>> Analysis::getConstraintSets() const noexcept {
     if (commonConstraintSet != nullptr and not commonConstraintSet->empty())
         result.push_back(commonConstraintSet);
     for (const auto& constraintSetReference : this->constraintSet_references) {
-        result.push_back(model.find(constraintSetReference));
+        const auto& constraintSet = model.find(constraintSetReference);
+        if (constraintSet != nullptr)
+            result.push_back(constraintSet);
     }
 
     return result;
@@ -278,7 +280,9 @@ vector<shared_ptr<ObjectiveSet>> Analysis::getObjectiveSets() const noexcept {
     if (commonObjectiveSet != nullptr and not commonObjectiveSet->empty())
         result.push_back(commonObjectiveSet);
     for (const auto& objectiveSetReference : this->objectiveSet_references) {
-        result.push_back(model.find(objectiveSetReference));
+        const auto& objectiveSet = model.find(objectiveSetReference);
+        if (objectiveSet != nullptr)
+            result.push_back(objectiveSet);
     }
 
     return result;
@@ -613,7 +617,15 @@ NonLinearMecaStat::NonLinearMecaStat(Model& model, const Reference<ObjectiveSet>
 //}
 
 bool NonLinearMecaStat::validate() const {
-    return Analysis::validate();
+    bool isValid = Analysis::validate();
+    const auto& objectiveSet = model.find(strategy_reference);
+    if (objectiveSet == nullptr or objectiveSet->getObjectivesByType(Objective::Type::NONLINEAR_PARAMETERS).empty()) {
+        if (model.configuration.logLevel >= LogLevel::INFO) {
+            cout << "Nonlinear analysis is not valid: cannot find nonlinear strategy:" << strategy_reference << endl;
+        }
+        isValid = false;
+    }
+    return isValid;
 }
 
 LinearModal::LinearModal(Model& model, const Reference<ObjectiveSet>& frequencySearchRef,
@@ -628,7 +640,13 @@ LinearModal::LinearModal(Model& model, const Reference<ObjectiveSet>& frequencyS
 
 shared_ptr<FrequencySearch> LinearModal::getFrequencySearch() const noexcept {
     const auto& objectiveSet = model.find(frequencySearchRef);
+    if (objectiveSet == nullptr) {
+        return nullptr;
+    }
     const auto& objectives = objectiveSet->getObjectivesByType(Objective::Type::FREQUENCY_SEARCH);
+    if (objectives.empty()) {
+        return nullptr;
+    }
     return static_pointer_cast<FrequencySearch>(*objectives.begin());
 }
 
@@ -685,6 +703,9 @@ shared_ptr<ModalDamping> LinearDynaModalFreq::getModalDamping() const {
         return nullptr;
     }
     const auto& objectives = objectiveSet->getObjectivesByType(Objective::Type::MODAL_DAMPING);
+    if (objectives.empty()) {
+        return nullptr;
+    }
     return static_pointer_cast<ModalDamping>(*objectives.begin());
 }
 
@@ -694,12 +715,18 @@ bool LinearDynaModalFreq::hasModalDamping() const {
 
 shared_ptr<FrequencyExcit> LinearDynaModalFreq::getExcitationFrequencies() const {
     const auto& objectiveSet = model.find(frequencyExcitationRef);
+    if (objectiveSet == nullptr) {
+        return nullptr;
+    }
     const auto& objectives = objectiveSet->getObjectivesByType(Objective::Type::FREQUENCY_EXCIT);
+    if (objectives.empty()) {
+        return nullptr;
+    }
     return static_pointer_cast<FrequencyExcit>(*objectives.begin());
 }
 
 bool LinearDynaModalFreq::validate() const {
-    bool isValid = Analysis::validate();
+    bool isValid = LinearModal::validate();
     if (getExcitationFrequencies() == nullptr) {
         if (model.configuration.logLevel >= LogLevel::INFO) {
             cout << "Modal analysis is not valid: cannot find frenquency excitation:" << frequencyExcitationRef << endl;
@@ -720,7 +747,9 @@ bool LinearDynaModalFreq::canReuse(const std::shared_ptr<Analysis>& otherAnalysi
     if (this->use_power_iteration != otherModalAnalysis->use_power_iteration) {
         return false;
     }
-    if (*(this->getFrequencySearch()) != *(otherModalAnalysis->getFrequencySearch())) {
+    const auto& frequencySearch = this->getFrequencySearch();
+    const auto& otherFrequencySearch = otherModalAnalysis->getFrequencySearch();
+    if (frequencySearch == nullptr or otherFrequencySearch == nullptr or *frequencySearch != *otherFrequencySearch) {
         return false;
     }
     const auto& constraintSets = this->getConstraintSets();
@@ -744,7 +773,13 @@ LinearDynaDirectFreq::LinearDynaDirectFreq(Model& model,
 
 shared_ptr<FrequencyExcit> LinearDynaDirectFreq::getExcitationFrequencies() const {
     const auto& objectiveSet = model.find(frequencyExcitationRef);
+    if (objectiveSet == nullptr) {
+        return nullptr;
+    }
     const auto& objectives = objectiveSet->getObjectivesByType(Objective::Type::FREQUENCY_EXCIT);
+    if (objectives.empty()) {
+        return nullptr;
+    }
     return static_pointer_cast<FrequencyExcit>(*objectives.begin());
 }
 
-- 
2.43.0


From fc0ff189d8bec03618bf655631e5770bb6bd77d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:34 +0000
Subject: [PATCH 053/139] fix: missing and circularly defined coordinate
 systems

---
 Abstract/Constraint.cpp       |  4 ++++
 Abstract/CoordinateSystem.cpp | 37 +++++++++++++++++++++++++----------
 Abstract/CoordinateSystem.h   |  4 ++++
 Abstract/Mesh.cpp             |  2 +-
 Aster/AsterWriter.cpp         |  4 ++--
 Aster/MedWriter.cpp           |  7 +++++++
 Systus/SystusWriter.cpp       |  4 ++++
 7 files changed, 49 insertions(+), 13 deletions(-)

diff --git a/Abstract/Constraint.cpp b/Abstract/Constraint.cpp
index e46fc35..f5526cd 100644
--- a/Abstract/Constraint.cpp
+++ b/Abstract/Constraint.cpp
@@ -494,6 +494,10 @@ void SinglePointConstraint::emulateLocalDisplacementConstraint() {
         const Node& node = model.mesh.findNode(nodePosition);
         if (node.displacementCS != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
             const auto& coordSystem = model.mesh.getCoordinateSystemByPosition(node.displacementCS);
+            if (coordSystem == nullptr) {
+                cerr << "ERROR: displacement coordinate system of " << node << " not found. Global coordinate system used instead." << endl;
+                continue;
+            }
             // TODO LD: this should be done differently: is used to compute different nodes but every this it changes the coordinate system instance!
             coordSystem->updateLocalBase(VectorialValue(node.x, node.y, node.z));
             const DOFS& dofs = this->getDOFSForNode(nodePosition);
diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index fe36227..82981dd 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -58,6 +58,23 @@ ostream &operator<<(ostream &out, const CoordinateSystem& coordinateSystem) {
     return out;
 }
 
+shared_ptr<CoordinateSystem> CoordinateSystem::findReferenceSystem() const {
+    const auto& referenceSystem = mesh.findCoordinateSystem(rcs);
+    set<const CoordinateSystem*> visited{this};
+    for (auto system = referenceSystem; ; system = mesh.findCoordinateSystem(system->rcs)) {
+        if (system == nullptr) {
+            throw logic_error("Missing reference coordinate system of " + to_str(*this));
+        }
+        if (not visited.insert(system.get()).second) {
+            throw logic_error("Circular definition of " + to_str(*this));
+        }
+        if (system->rcs == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
+            break;
+        }
+    }
+    return referenceSystem;
+}
+
 VectorialValue CoordinateSystem::getEulerAnglesIntrinsicZYX(const CoordinateSystem *cs) const {
     double ax, ay, az = 0;
     VectorialValue EX, EY, EZ;
@@ -109,7 +126,7 @@ VectorialValue CartesianCoordinateSystem::positionToGlobal(const VectorialValue&
     if (rcs == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
         return this->getOrigin()+ global;
     } else {
-        shared_ptr<CoordinateSystem> coordSystem = mesh.findCoordinateSystem(rcs);
+        shared_ptr<CoordinateSystem> coordSystem = findReferenceSystem();
         return coordSystem->positionToGlobal(this->getOrigin())+global;
     }
 }
@@ -123,7 +140,7 @@ VectorialValue CartesianCoordinateSystem::vectorToGlobal(const VectorialValue& l
     if (rcs == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
         return vect;
     } else {
-        shared_ptr<CoordinateSystem> coordSystem = mesh.findCoordinateSystem(rcs);
+        shared_ptr<CoordinateSystem> coordSystem = findReferenceSystem();
         assert(coordSystem != nullptr);
         return coordSystem->vectorToGlobal(vect);
     }
@@ -135,7 +152,7 @@ VectorialValue CartesianCoordinateSystem::vectorToLocal(const VectorialValue& gl
     if (rcs == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
         vect = global;
     } else {
-        shared_ptr<CoordinateSystem> coordSystem = mesh.findCoordinateSystem(rcs);
+        shared_ptr<CoordinateSystem> coordSystem = findReferenceSystem();
         vect = coordSystem->vectorToLocal(global);
     }
 
@@ -191,7 +208,7 @@ void CylindricalCoordinateSystem::updateLocalBase(const VectorialValue& point) {
     // The origin and the base are expressed in the reference coordinate system
     VectorialValue referencePoint = point;
     if (rcs != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
-        const auto& coordSystem = mesh.findCoordinateSystem(rcs);
+        const auto& coordSystem = findReferenceSystem();
         referencePoint = coordSystem->vectorToLocal(point - coordSystem->positionToGlobal(VectorialValue(0, 0, 0)));
     }
     VectorialValue localOrigin = referencePoint - origin;
@@ -211,7 +228,7 @@ VectorialValue CylindricalCoordinateSystem::positionToGlobal(const VectorialValu
     if (rcs == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
         return position;
     } else {
-        shared_ptr<CoordinateSystem> coordSystem = mesh.findCoordinateSystem(rcs);
+        shared_ptr<CoordinateSystem> coordSystem = findReferenceSystem();
         return coordSystem->positionToGlobal(position);
     }
 }
@@ -225,7 +242,7 @@ VectorialValue CylindricalCoordinateSystem::vectorToGlobal(
     if (rcs == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
         return vect;
     } else {
-        shared_ptr<CoordinateSystem> coordSystem = mesh.findCoordinateSystem(rcs);
+        shared_ptr<CoordinateSystem> coordSystem = findReferenceSystem();
         return coordSystem->vectorToGlobal(vect);
     }
 }
@@ -272,7 +289,7 @@ VectorialValue SphericalCoordinateSystem::positionToGlobal(const VectorialValue&
     if (rcs == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
         return position;
     } else {
-        shared_ptr<CoordinateSystem> coordSystem = mesh.findCoordinateSystem(rcs);
+        shared_ptr<CoordinateSystem> coordSystem = findReferenceSystem();
         return coordSystem->positionToGlobal(position);
     }
 }
@@ -382,7 +399,7 @@ VectorialValue OrientationCoordinateSystem::positionToGlobal(const VectorialValu
     if (rcs == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
         return origin + global;
     } else {
-        shared_ptr<CoordinateSystem> coordSystem = mesh.findCoordinateSystem(rcs);
+        shared_ptr<CoordinateSystem> coordSystem = findReferenceSystem();
         return coordSystem->positionToGlobal(origin + global);
     }
 }
@@ -398,7 +415,7 @@ VectorialValue OrientationCoordinateSystem::vectorToGlobal(const VectorialValue&
     if (rcs == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
         return vect;
     } else {
-        shared_ptr<CoordinateSystem> coordSystem = mesh.findCoordinateSystem(rcs);
+        shared_ptr<CoordinateSystem> coordSystem = findReferenceSystem();
         return coordSystem->vectorToGlobal(vect);
     }
 }
@@ -409,7 +426,7 @@ VectorialValue OrientationCoordinateSystem::vectorToLocal(const VectorialValue&
     if (rcs == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
         vect = global;
     } else {
-        shared_ptr<CoordinateSystem> coordSystem = mesh.findCoordinateSystem(rcs);
+        shared_ptr<CoordinateSystem> coordSystem = findReferenceSystem();
         vect = coordSystem->vectorToLocal(global);
     }
     double x = vect.x() * this->inverseMatrix(0,0) + vect.y() * this->inverseMatrix(0,1) + vect.z() * this->inverseMatrix(0,2);
diff --git a/Abstract/CoordinateSystem.h b/Abstract/CoordinateSystem.h
index 6105b3f..074ccf3 100644
--- a/Abstract/CoordinateSystem.h
+++ b/Abstract/CoordinateSystem.h
@@ -79,6 +79,10 @@ public:
     protected:
     CoordinateSystem(const Mesh&, Type, CoordinateType, const VectorialValue origin, const VectorialValue ex,
             const VectorialValue ey, const Reference<CoordinateSystem> rcs = GLOBAL_COORDINATE_SYSTEM, int original_id = NO_ORIGINAL_ID);
+    /**
+     *  The coordinate system this one is defined in, which must exist and not depend upon this one.
+     */
+    std::shared_ptr<CoordinateSystem> findReferenceSystem() const;
     public:
     virtual void updateLocalBase(const VectorialValue&) {
     }
diff --git a/Abstract/Mesh.cpp b/Abstract/Mesh.cpp
index 07de406..0535c1d 100644
--- a/Abstract/Mesh.cpp
+++ b/Abstract/Mesh.cpp
@@ -523,7 +523,7 @@ Cell Mesh::findCell(const pos_t cellPosition) const {
 	}
 	shared_ptr<OrientationCoordinateSystem> ocs = nullptr;
 	if (cellData.csPos!=CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID)
-        ocs = static_pointer_cast<OrientationCoordinateSystem>(coordinateSystemStorage.findByPosition(cellData.csPos));
+        ocs = dynamic_pointer_cast<OrientationCoordinateSystem>(coordinateSystemStorage.findByPosition(cellData.csPos));
 
     double offset;
     switch (cellType->dimension.code) {
diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 6eb8b5d..9fd9a44 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -391,7 +391,7 @@ void AsterWriter::writeAnalyses() {
                         continue;
                     }
                     const auto& cs= asterModel->model.mesh.getCoordinateSystemByPosition(it.first);
-                    if (cs->type!=CoordinateSystem::Type::RELATIVE){
+                    if (cs == nullptr or cs->type!=CoordinateSystem::Type::RELATIVE){
                        //handleWritingError("Coordinate System of Group "+ it.second+" is not an ORIENTATION.");
                        continue;
                     }
@@ -1357,7 +1357,7 @@ void AsterWriter::writeAffeCaraElem() {
             continue;
         }
         const auto& cs= asterModel->model.mesh.getCoordinateSystemByPosition(it.first);
-		if (cs->type!=CoordinateSystem::Type::RELATIVE){
+		if (cs == nullptr or cs->type!=CoordinateSystem::Type::RELATIVE){
 		   //handleWritingError("Coordinate System of Group "+ it.second+" is not an ORIENTATION.");
 		   continue;
 		}
diff --git a/Aster/MedWriter.cpp b/Aster/MedWriter.cpp
index 3c1f062..b685803 100644
--- a/Aster/MedWriter.cpp
+++ b/Aster/MedWriter.cpp
@@ -218,6 +218,13 @@ void MedWriter::writeMED(const Model& model, const string& medFileName) {
             coordinates.push_back(nodeData.z);
 	    } else {
 	        shared_ptr<CoordinateSystem> coordSystem = model.mesh.getCoordinateSystemByPosition(nodeData.cpPos);
+	        if (coordSystem == nullptr) {
+	            // same fallback as Mesh::findNode : the global coordinate system
+	            coordinates.push_back(nodeData.x);
+	            coordinates.push_back(nodeData.y);
+	            coordinates.push_back(nodeData.z);
+	            continue;
+	        }
             VectorialValue gCoord = coordSystem->positionToGlobal(VectorialValue(nodeData.x,nodeData.y,nodeData.z));
             coordinates.push_back(gCoord.x());
             coordinates.push_back(gCoord.y());
diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 57787cf..c098fb0 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -1587,6 +1587,10 @@ void SystusWriter::fillCoordinatesVectors(const SystusModel& systusModel, const
             }
 
             const auto& cs = systusModel.model.mesh.getCoordinateSystemByPosition(node.displacementCS);
+            if (cs == nullptr) {
+                handleWritingWarning("Unknown displacement coordinate system of node " + to_string(node.id) + ", global one used instead.", "Nodes");
+                continue;
+            }
             vector<double> vec;
             switch (cs->type) {
             case CoordinateSystem::Type::ABSOLUTE: {
-- 
2.43.0


From 58396e6c32409e1f81296ed29b4cdb32e87bcd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:08 +0000
Subject: [PATCH 054/139] fix: missing materials, analyses and wrong DOF codes
 are reported instead of crashing

---
 Abstract/Dof.cpp          | 2 +-
 Abstract/Element.cpp      | 6 ++++++
 Abstract/Model.cpp        | 3 +++
 Aster/AsterWriter.cpp     | 6 ++++++
 Nastran/NastranWriter.cpp | 3 +++
 5 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/Abstract/Dof.cpp b/Abstract/Dof.cpp
index 80084b2..26afc2d 100644
--- a/Abstract/Dof.cpp
+++ b/Abstract/Dof.cpp
@@ -190,7 +190,7 @@ DOFS DOFS::nastranCodeToDOFS(int nastranCode) {
 		number = number / 10;
 		auto codeiter = DOF_BY_NASTRANCODE.left.find(nastranDigit);
 		if (codeiter == DOF_BY_NASTRANCODE.left.end()) {
-			throw invalid_argument("Invalid Nastran code: " + nastranCode);
+			throw invalid_argument("Invalid Nastran code: " + to_string(nastranCode));
 		}
 		DOFS internalDOFCode {static_cast<char>(codeiter->second)};
 		dofs += internalDOFCode;
diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index 236708b..2b2db0a 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -110,7 +110,13 @@ bool ElementSet::hasMaterials() const {
 }
 
 std::shared_ptr<Material> ElementSet::mainMaterial() const {
+    if (materialRefs.empty()) {
+        throw logic_error("No material assigned to " + to_str(*this));
+    }
     const auto& mainMaterial = this->model.materials.find(*(materialRefs.begin()));
+    if (mainMaterial == nullptr) {
+        throw logic_error("Cannot find material: " + to_str(*(materialRefs.begin())) + " of " + to_str(*this));
+    }
     if (model.configuration.logLevel >= LogLevel::TRACE)
         cout << "ElementSet:" << *this << " has main material:" << *mainMaterial << endl;
     return mainMaterial;
diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index e8a0b18..f168db1 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -918,6 +918,9 @@ void Model::emulateAdditionalMass() {
             newMaterial->addNature(make_shared<ElasticNature>(*this, 0, 0, 0, rho));
             materials.add(newMaterial);
             for (const auto& material : elementSet->getMaterials()) {
+                if (material == nullptr) {
+                    throw logic_error("Cannot find the material of " + to_str(*elementSet));
+                }
                 cellElementSet->unassignMaterial(material);
             }
             cellElementSet->assignMaterial(newMaterial);
diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 9fd9a44..59b11f6 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1070,6 +1070,9 @@ void AsterWriter::writeMaterials() {
                 continue;
             }
             for (const auto& material : cells->getMaterials()) {
+                if (material == nullptr) {
+                    throw logic_error("Cannot find the material of " + to_str(*cells));
+                }
                 comm_file_ofs << "                          _F(MATER=M" << material->getId() << ",";
                 writeCellContainer(cells);
                 comm_file_ofs << ")," << endl;
@@ -2535,6 +2538,9 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
 		comm_file_ofs << "                    COMPORTEMENT=(" << endl;
 		for (const auto& elementSet : asterModel->model.elementSets) {
             for (const auto& material : elementSet->getMaterials()) {
+                if (material == nullptr) {
+                    throw logic_error("Cannot find the material of " + to_str(*elementSet));
+                }
                 if (elementSet->hasMaterials() and elementSet->effective()) {
                     comm_file_ofs << "                          _F(";
                     const auto& cellElementSet = dynamic_pointer_cast<CellElementSet>(elementSet);
diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index abe849e..72fbb04 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -191,6 +191,9 @@ string NastranWriter::getNasFilename(const Model& model,
 
 void NastranWriter::writeSOL(const Model& model, ofstream& out) const
     {
+	if (model.analyses.empty()) {
+		return;
+	}
 	auto& firstAnalysis = *model.analyses.begin();
 	string analysisLabel;
 	if (isCosmic()) {
-- 
2.43.0


From 4beee11e2595af10e241da1099c46be5e933bcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:32 +0000
Subject: [PATCH 055/139] fix: files ending within a continued card or set,
 THRU without a first identifier

---
 Nastran/NastranParser.cpp    |  6 +++++-
 Nastran/NastranTokenizer.cpp | 11 ++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 563a24e..7fd84dc 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -275,8 +275,12 @@ string NastranParser::parseSubcom(NastranTokenizer& tok, Model& model,
 
 void NastranParser::addSet(NastranTokenizer& tok, Model& model) {
     string line = trim_copy(tok.currentRawDataLine());
-    while (line.back() == ',') {
+    while (not line.empty() and line.back() == ',') {
         tok.nextLine();
+        if (tok.nextSymbolType == NastranTokenizer::SymbolType::SYMBOL_EOF) {
+            handleParsingError("SET continued past the end of the file", tok, model);
+            break;
+        }
         line += trim_copy(tok.currentRawDataLine());
     }
     vector<string> parts;
diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 92f1e50..5317e40 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -361,7 +361,7 @@ void NastranTokenizer::splitFixedFormat(string& line, const bool longFormat, con
 	tokenizer<offset_separator> tok(line, f);
 	tokenizer<offset_separator>::iterator beg = tok.begin();
 	int count = 0;
-	if (!firstLine) {
+	if (!firstLine and beg != tok.end()) {
 		//todo:check that explicit continuation tokens are the same
 		++beg;
 		count++;
@@ -397,7 +397,7 @@ void NastranTokenizer::splitFixedFormat(string& line, const bool longFormat, con
 		if (!iseof) {
 			splitFixedFormat(line2, longFormat, false);
 		} else {
-			throw "Continuation Expected: Line N " + to_string(this->lineNumber);
+			handleParsingWarning("Continuation expected at the end of the file.");
 		}
 	} else {
 		/** Test for automatic continuation : we allow tabulation
@@ -433,7 +433,8 @@ string NastranTokenizer::nextString(bool returnDefaultIfNotFoundOrBlank, string
 
 void NastranTokenizer::skip(int fields) {
 	if (this->nextSymbolType == SymbolType::SYMBOL_EOF) {
-		throw "Attempt to read past the end of file. Line:" + this->lineNumber;
+		handleParsingError("Attempt to read past the end of file.");
+		return;
 	}
 
 	this->currentField = min(static_cast<unsigned int>(this->currentLineVector.size()),
@@ -487,6 +488,10 @@ list<int> NastranTokenizer::nextInts() {
             result.push_back(nextInt());
         } else if (isNextTHRU()) {
             skip(1);
+            if (result.empty()) {
+                handleParsingError("THRU without a first identifier");
+                continue;
+            }
             int start = result.back();
             int endint = nextInt();
             int step = 1;
-- 
2.43.0


From e1767be5eed2ecc1a9a0b8cc26404cf84704b233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:21 +0000
Subject: [PATCH 056/139] fix: loads on missing cells and invalid loads are
 dismissed instead of crashing

---
 Abstract/Loading.cpp        | 18 ++++++++++++++----
 Abstract/Loading.h          |  1 +
 Abstract/MeshComponents.cpp | 15 +++++++++------
 Abstract/MeshComponents.h   |  5 +++++
 Abstract/Model.cpp          |  4 ++--
 5 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index fef06ab..2bbeef5 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -523,6 +523,16 @@ set<pos_t> CellLoading::nodePositions() const {
 	return CellContainer::getNodePositionsIncludingGroups();
 }
 
+bool CellLoading::validate() const {
+	bool valid = Loading::validate();
+	const auto& undefinedCellIds = getUndefinedCellIds();
+	if (not undefinedCellIds.empty()) {
+		cerr << "Cells " << undefinedCellIds << " of loading " << *this << " not found." << endl;
+		valid = valid and not empty();
+	}
+	return valid;
+}
+
 bool CellLoading::cellDimensionGreatherThan(SpaceDimension dimension) {
 	bool result = false;
 	for (const Cell& cell : this->getCellsIncludingGroups()) {
@@ -643,7 +653,7 @@ bool ForceSurface::ineffective() const {
 }
 
 bool ForceSurface::validate() const {
-	return true;
+	return CellLoading::validate();
 }
 
 ForceSurfaceTwoNodes::ForceSurfaceTwoNodes(Model& model, const std::shared_ptr<LoadSet> loadset, int nodeId1, int nodeId2,
@@ -716,7 +726,7 @@ bool ForceLine::ineffective() const {
 }
 
 bool ForceLine::validate() const {
-	return true;
+	return CellLoading::validate();
 }
 
 NormalPressionFace::NormalPressionFace(Model& model, const std::shared_ptr<LoadSet> loadset, double intensity, const int original_id) :
@@ -747,7 +757,7 @@ bool NormalPressionFace::ineffective() const {
 
 bool NormalPressionFace::validate() const {
 	// TODO validate : Check that all the elements are 2D
-	return true;
+	return CellLoading::validate();
 }
 
 NormalPressionShell::NormalPressionShell(Model& model, const std::shared_ptr<LoadSet> loadset, double intensity, const int original_id) :
@@ -778,7 +788,7 @@ bool NormalPressionShell::ineffective() const {
 
 bool NormalPressionShell::validate() const {
 	// TODO validate : Check that all the elements are 2D (and maybe that they are also shells?)
-	return true;
+	return CellLoading::validate();
 }
 
 NormalPressionFaceTwoNodes::NormalPressionFaceTwoNodes(Model& model, const std::shared_ptr<LoadSet> loadset, int nodeId1, int nodeId2,
diff --git a/Abstract/Loading.h b/Abstract/Loading.h
index 365bbb4..37ef9e8 100644
--- a/Abstract/Loading.h
+++ b/Abstract/Loading.h
@@ -312,6 +312,7 @@ public:
 	 */
 	bool cellDimensionGreatherThan(SpaceDimension dimension);
 	std::set<pos_t> nodePositions() const override final;
+	bool validate() const override;
 	virtual SpaceDimension getLoadingDimension() const = 0;
     virtual std::vector<int> getApplicationFaceNodeIds() const = 0;
 	bool isCellLoading() const noexcept override final {
diff --git a/Abstract/MeshComponents.cpp b/Abstract/MeshComponents.cpp
index caab269..cb3690e 100644
--- a/Abstract/MeshComponents.cpp
+++ b/Abstract/MeshComponents.cpp
@@ -679,9 +679,10 @@ void CellContainer::addCellPosition(pos_t cellPosition) noexcept {
 
 void CellContainer::addCellId(int cellId) noexcept {
 	const pos_t cellPosition = mesh.findCellPosition(cellId);
-	cellPositions.insert(cellPosition);
 	if (cellPosition == Cell::UNAVAILABLE_CELL) {
 		undefinedCellIds.insert(cellId);
+	} else {
+		cellPositions.insert(cellPosition);
 	}
 }
 
@@ -698,10 +699,11 @@ void CellContainer::resolveUndefinedCells() const noexcept {
 			it = undefinedCellIds.erase(it);
 		}
 	}
-	if (undefinedCellIds.empty()) {
-		const pos_t unavailable = Cell::UNAVAILABLE_CELL;
-		cellPositions.erase(unavailable);
-	}
+}
+
+set<int> CellContainer::getUndefinedCellIds() const noexcept {
+	resolveUndefinedCells();
+	return undefinedCellIds;
 }
 
 void CellContainer::addCellIds(const vector<int>& otherIds) noexcept {
@@ -872,11 +874,12 @@ void CellContainer::clear() noexcept {
 }
 
 bool CellContainer::hasCellsExcludingGroups() const noexcept {
+	resolveUndefinedCells();
 	return not cellPositions.empty();
 }
 
 bool CellContainer::hasCellsIncludingGroups() const noexcept {
-	if (not cellPositions.empty())
+	if (hasCellsExcludingGroups())
         return true;
     for (const auto& groupName : cellGroupNames) {
         const auto& group = static_pointer_cast<CellGroup>(mesh.findGroup(groupName));
diff --git a/Abstract/MeshComponents.h b/Abstract/MeshComponents.h
index f587d23..74a654f 100644
--- a/Abstract/MeshComponents.h
+++ b/Abstract/MeshComponents.h
@@ -446,6 +446,11 @@ public:
     CellContainer(const Mesh&) noexcept;
     virtual ~CellContainer() = default;
 
+    /**
+     * Ids added to this container which belong to no cell of the mesh.
+     */
+    std::set<int> getUndefinedCellIds() const noexcept;
+
     /**
      * Adds a cellId to the current set
      */
diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index f168db1..6301ddc 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -441,7 +441,7 @@ set<shared_ptr<Loading>, ptrLess<Loading>> Model::getLoadingsByLoadSet(
         for (const auto& itm2 : itm->second) {
             const auto& loading = find(itm2);
             if (loading == nullptr) {
-                throw logic_error("Missing loading declared in loadingSet : " + to_str(itm2));
+                continue; // not valid, it has been removed
             }
             result.insert(loading);
         }
@@ -454,7 +454,7 @@ set<shared_ptr<Loading>, ptrLess<Loading>> Model::getLoadingsByLoadSet(
             for (const auto& itm4 : itm3->second) {
                 shared_ptr<Loading> loading = find(itm4);
             if (loading == nullptr) {
-                throw logic_error("Missing loading declared in loadingSet : " + to_str(itm4));
+                continue; // not valid, it has been removed
             }
                 result.insert(loading);
             }
-- 
2.43.0


From 1e1f8d22a7c31f95ef03c070458894a35977eacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:47 +0000
Subject: [PATCH 057/139] fix: contacts on node lines which are missing or too
 short

---
 Abstract/Constraint.cpp |  3 +++
 Abstract/Model.cpp      | 14 ++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/Abstract/Constraint.cpp b/Abstract/Constraint.cpp
index f5526cd..f3088a7 100644
--- a/Abstract/Constraint.cpp
+++ b/Abstract/Constraint.cpp
@@ -729,6 +729,9 @@ double SlideContact::getFriction() const {
     if (friction != ValueOrReference::EMPTY_VALUE) {
         if (friction.isReference()) {
             const auto& val = static_pointer_cast<const ScalarValue<double>>(model.find(friction.getReference()));
+            if (val == nullptr) {
+                throw logic_error("Cannot find friction of " + vega::to_str(*this));
+            }
             return val->number;
 
         } else {
diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 6301ddc..03a0ed0 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1974,10 +1974,13 @@ void Model::makeBoundarySegments() {
             const auto& slide = static_pointer_cast<SlideContact>(constraint);
             const auto& masterCellGroup = mesh.createCellGroup("SLIDE_M_"+to_string(slide->bestId()), Group::NO_ORIGINAL_ID, "created by makeBoundarySegments() for the master in a SLIDE contact");
             const auto& slaveCellGroup = mesh.createCellGroup("SLIDE_S_"+to_string(slide->bestId()), Group::NO_ORIGINAL_ID, "created by makeBoundarySegments() for the slave in a SLIDE contact");
-            const auto& masterNodeLine = static_pointer_cast<BoundaryNodeLine>(this->find(slide->master));
+            const auto& masterNodeLine = dynamic_pointer_cast<BoundaryNodeLine>(this->find(slide->master));
+            if (masterNodeLine == nullptr) {
+                throw logic_error("Cannot find master node list");
+            }
             const auto& masterNodeIds = masterNodeLine->nodeids;
             auto it = masterNodeIds.begin();
-            for(unsigned int i = 0; i < masterNodeIds.size() - 1;++i) {
+            for(unsigned int i = 0; i + 1 < masterNodeIds.size();++i) {
                 int nodeId1 = *it;
                 int nodeId2 = *(++it);
                 const auto cellPosition = mesh.addCell(Cell::AUTO_ID, CellType::SEG2, {nodeId1, nodeId2}, true);
@@ -1985,10 +1988,13 @@ void Model::makeBoundarySegments() {
             }
             slide->masterCellGroup = masterCellGroup;
             masterNodeLine->markAsWritten();
-            const auto& slaveNodeLine = static_pointer_cast<BoundaryNodeLine>(this->find(slide->slave));
+            const auto& slaveNodeLine = dynamic_pointer_cast<BoundaryNodeLine>(this->find(slide->slave));
+            if (slaveNodeLine == nullptr) {
+                throw logic_error("Cannot find slave node list");
+            }
             const auto& slaveNodeIds = slaveNodeLine->nodeids;
             auto it2 = slaveNodeIds.begin();
-            for(unsigned int i = 0; i < slaveNodeIds.size() - 1;++i) {
+            for(unsigned int i = 0; i + 1 < slaveNodeIds.size();++i) {
                 int nodeId1 = *it2;
                 int nodeId2 = *(++it2);
                 const auto cellPosition = mesh.addCell(Cell::AUTO_ID, CellType::SEG2, {nodeId1, nodeId2}, true);
-- 
2.43.0


From d820534370f8544ee8c65490cb5e946aff7fa751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:47 +0000
Subject: [PATCH 058/139] fix: reals which are not finite are rejected

---
 Nastran/NastranTokenizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 5317e40..4eff182 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -548,6 +548,9 @@ double NastranTokenizer::nextDouble(bool returnDefaultIfNotFoundOrBlank, double
 	}
 	try {
 		result = lexical_cast<double>(value);
+		if (not isfinite(result)) {
+			throw boost::bad_lexical_cast(); //NaN, infinity or overflow
+		}
 	} catch (boost::bad_lexical_cast &) {
 		string currentFieldstr =
 				currentField == 0 ? "LAST" : to_string(currentField - 1);
-- 
2.43.0


From ab746aca41c0e0a03ee4dce1b88d906df096c129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:47 +0000
Subject: [PATCH 059/139] fix: case control values separated by a tabulation or
 not at all

---
 Nastran/NastranParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 7fd84dc..0529a66 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -489,9 +489,9 @@ void NastranParser::parseExecutiveSection(NastranTokenizer& tok, Model& model,
                     split(parts, currentRawDataLine, boost::is_any_of("="), boost::algorithm::token_compress_on);
                     if (parts.size() == 1) {
                         vector<string> parvalparts;
-                        split(parvalparts, parts[0], boost::is_any_of(" "), boost::algorithm::token_compress_on);
-                        if (parts.size() >= 2) {
-                            handleParsingError("multiple spaces in parameter not yet implemented", tok, model);
+                        split(parvalparts, parts[0], boost::is_any_of(" \t"), boost::algorithm::token_compress_on);
+                        if (parvalparts.size() < 2) {
+                            handleParsingError("value cannot be parsed", tok, model);
                         }
                         context[keyword] = parvalparts[1];
                     } else {
-- 
2.43.0


From 7886ada7755bd676acac4f65f0862aa5a064b209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:28 +0000
Subject: [PATCH 060/139] fix: dynamic excitations whose excited load set is
 removed are removed too

---
 Abstract/Model.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 03a0ed0..1e6aea3 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2394,8 +2394,14 @@ bool Model::validate() {
 
     bool validMat = materials.validate();
     bool validEle = elementSets.validate();
-    bool validLoa = loadings.validate();
-    bool validLos = loadSets.validate();
+    bool validLoa = true;
+    bool validLos = true;
+    size_t remainingLos = 0;
+    do { // a dynamic excitation refers to a loadset, which can be removed after its own validation
+        remainingLos = loadSets.size();
+        validLoa = loadings.validate() and validLoa;
+        validLos = loadSets.validate() and validLos;
+    } while (loadSets.size() != remainingLos);
     bool validCon = constraints.validate();
     bool validCos = constraintSets.validate();
     bool validAna = analyses.validate();
-- 
2.43.0


From 5fcc9cfd6ccf184bd4d43edf86ba380817537023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:35 +0000
Subject: [PATCH 061/139] fix: number of iterations of a modal search with a
 huge number of modes

---
 Systus/SystusDat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Systus/SystusDat.cpp b/Systus/SystusDat.cpp
index a92d28f..07eaf95 100644
--- a/Systus/SystusDat.cpp
+++ b/Systus/SystusDat.cpp
@@ -138,7 +138,7 @@ int SystusWriter::writeLinearModalAnalysis(ostream& out, const SystusModel& syst
         }
     }
     // Number of iteration
-    int niter = 2*nmodes + 2;
+    const long niter = 2L*nmodes + 2;
 
     // Corresponding Systus commands
     string sShift="";
-- 
2.43.0


From 15823fba3ca16cded6c5f38b2bbf672eb911929b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:02 +0000
Subject: [PATCH 062/139] fix: non-finite values in Nastran output no longer
 terminate vegapp

---
 Nastran/NastranWriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 72fbb04..c29f169 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -11,6 +11,7 @@
 #include "build_properties.h"
 #include "../Abstract/Model.h"
 #include "NastranWriter.h"
+#include <cmath>
 #include <cstdlib>
 #include <iostream>
 #include <iomanip>
@@ -68,6 +69,8 @@ Line& Line::add(double value) noexcept {
 	std::ostringstream strs;
 	if (is_zero(value)) {
         strs << "0.";
+	} else if (not std::isfinite(value)) {
+        strs << value;
 	} else {
 	    // https://github.com/SteveDoyle2/pyNastran/blob/master/pyNastran/bdf/field_writer_8.py
 	    string str1 = str(boost::format("%8.11e") % value);
-- 
2.43.0


From 595fcf43fdf7742d727c018d96c1a60879b687d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:27 +0000
Subject: [PATCH 063/139] fix: a configuration file name starting with ~ no
 longer aborts vegapp

---
 Commandline/VegaCommandLine.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Commandline/VegaCommandLine.cpp b/Commandline/VegaCommandLine.cpp
index cd846de..ec806d2 100644
--- a/Commandline/VegaCommandLine.cpp
+++ b/Commandline/VegaCommandLine.cpp
@@ -444,16 +444,15 @@ void VegaCommandLine::printHeader() {
 
 string VegaCommandLine::expand_user(string path) {
     // http://stackoverflow.com/a/4891126
-    if (not path.empty() and path[0] == '~') {
-        assert(path.size() == 1 or path[1] == '/');  // or other error handling
+    if (not path.empty() and path[0] == '~' and (path.size() == 1 or path[1] == '/')) {
         char const* home = getenv("HOME");
         if (home || (home = getenv("USERPROFILE"))) {
             path.replace(0, 1, home);
         } else {
             char const *hdrive = getenv("HOMEDRIVE"), *hpath = getenv("HOMEPATH");
-            assert(hdrive);  // or other error handling
-            assert(hpath);
-            path.replace(0, 1, string(hdrive) + hpath);
+            if (hdrive and hpath) {
+                path.replace(0, 1, string(hdrive) + hpath);
+            }
         }
     }
     return path;
-- 
2.43.0


From 9c95fd98d39353bf3af40e1b1b34155eedeb0d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:27 +0000
Subject: [PATCH 064/139] fix: a zero PARAM WTMASS is dismissed instead of
 aborting vegapp

---
 Nastran/NastranParser_param.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Nastran/NastranParser_param.cpp b/Nastran/NastranParser_param.cpp
index b5594dd..bffc1e5 100644
--- a/Nastran/NastranParser_param.cpp
+++ b/Nastran/NastranParser_param.cpp
@@ -272,6 +272,10 @@ void NastranParser::parseParamPRTMAXIM(NastranTokenizer& tok, Model& model) {
 
 void NastranParser::parseParamWTMASS(NastranTokenizer& tok, Model& model) {
     double value = tok.nextDouble(true, 1);
+    if (is_zero(value)) {
+        handleParsingError("Zero parameter WTMASS is dismissed.", tok, model);
+        return;
+    }
     model.setParameter(ModelParameter::MASS_OVER_FORCE_MULTIPLIER, to_string_with_precision(value));
 }
 
-- 
2.43.0


From a31a63beed69f55378a69703acab9ad02bb8a27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:28 +0000
Subject: [PATCH 065/139] fix: command line errors end with an exit code
 instead of an uncaught exception

---
 Commandline/VegaCommandLine.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Commandline/VegaCommandLine.cpp b/Commandline/VegaCommandLine.cpp
index ec806d2..b75cb71 100644
--- a/Commandline/VegaCommandLine.cpp
+++ b/Commandline/VegaCommandLine.cpp
@@ -121,6 +121,9 @@ VegaCommandLine::ExitCode VegaCommandLine::convertStudy(
 }
 
 fs::path VegaCommandLine::normalize_path(string strpath) {
+    if (strpath.empty()) {
+        return fs::path();
+    }
     if (strpath.front() == '"' || strpath.front() == '\'') {
         strpath.erase(0, 1); // erase the first character
         strpath.erase(strpath.size() - 1); // erase the last character
@@ -180,6 +183,7 @@ ConfigurationParameters VegaCommandLine::readCommandLineParameters(const po::var
             throw invalid_argument("only one between mesh-at-least or best-effort "
                     " parameter can be specified at once.");
         }
+        hasParamMeshAtLeast = true;
         translationMode = ConfigurationParameters::TranslationMode::MESH_AT_LEAST;
     }
     if (vm.count("strict")) {
@@ -463,7 +467,7 @@ VegaCommandLine::ExitCode VegaCommandLine::process(int ac, const char* av[]) {
 #if Backtrace_FOUND
     signal(SIGSEGV, handler);
 #endif
-    LogLevel logLevel = LogLevel::TRACE;
+    LogLevel logLevel = LogLevel::INFO;
     try {
         string config_file;
 
-- 
2.43.0


From cd76ad5898b285752f8fb3255be4dd642deccec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:30 +0000
Subject: [PATCH 066/139] fix: RLOAD2 with a LOADSET request and no LSEQ card

---
 Nastran/NastranParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 0529a66..d1ab9c5 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3431,6 +3431,9 @@ void NastranParser::parseRLOAD2(NastranTokenizer& tok, Model& model) {
         // If there is a LOADSET request in the Case Control, then the model will reference static and thermal load set entries specified by the LID or TID field in the selected LSEQ entries corresponding to the EXCITEID.
         auto loadsets = model.loadSets.filter(LoadSet::Type::LOADSET); // Hack should look for the indicated LOADSEQ context parameter
         const auto& lseq = loadsets[0];
+        if (lseq->embedded_loadsets.empty()) {
+            handleParsingError("LOADSET " + to_string(lseq->bestId()) + " without LSEQ for RLOAD2.", tok, model);
+        }
 //        const Reference<LoadSet>& dareaSetId = lseq->embedded_loadsets[0].first; // What about .second ?
 //        handleParsingWarning("Hack in resolving RLOAD2->LSEQ->(darea id)->LOAD : " + to_string(dareaSetId.original_id) + " versus " + to_string(darea_set_id),
 //                tok, model); // Hack, should seek the corresponding darea
-- 
2.43.0


From 21c04a79e44bddade6196d42c8c2ade1642c2fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:18 +0000
Subject: [PATCH 067/139] fix: the exit code 4 of code_aster is reported as a
 syntax error

---
 Abstract/SolverInterfaces.cpp | 10 +++++++++-
 Abstract/SolverInterfaces.h   |  2 ++
 Aster/AsterRunner.cpp         |  2 +-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/Abstract/SolverInterfaces.cpp b/Abstract/SolverInterfaces.cpp
index dcf7786..183d06b 100644
--- a/Abstract/SolverInterfaces.cpp
+++ b/Abstract/SolverInterfaces.cpp
@@ -237,6 +237,14 @@ void Runner::deletePreviousResultFiles(string currentModel, const vector<string>
     }
 }
 
+int Runner::exitStatus(const int systemResult) const {
+#ifdef __GNUC__
+    return (systemResult & 0xFF00) >> 8;
+#else
+    return systemResult;
+#endif
+}
+
 Runner::ExitCode Runner::convertExecResult(const int exitCode) const {
     if (exitCode == 0) {
         return ExitCode::OK;
@@ -245,7 +253,7 @@ Runner::ExitCode Runner::convertExecResult(const int exitCode) const {
 #ifdef __GNUC__
     //bash exit codes http://tldp.org/LDP/abs/html/exitcodes.html
     //int lowByte = 0x00FF & exitCode;
-    int highByte = (exitCode & 0xFF00) >> 8;
+    int highByte = exitStatus(exitCode);
     if (highByte == 127) {
         result = ExitCode::SOLVER_NOT_FOUND;
     } else if (highByte > 128 && highByte <= 165) {
diff --git a/Abstract/SolverInterfaces.h b/Abstract/SolverInterfaces.h
index 271fa1c..5cd2e0a 100644
--- a/Abstract/SolverInterfaces.h
+++ b/Abstract/SolverInterfaces.h
@@ -190,6 +190,8 @@ protected:
 			const std::vector<std::string> extensions);
 	std::string stripExtension(const std::string& currentModel) const;
 	ExitCode convertExecResult(const int exitCode) const;
+	/** Exit status of a command, from the value returned by system() */
+	int exitStatus(const int systemResult) const;
 };
 
 /**
diff --git a/Aster/AsterRunner.cpp b/Aster/AsterRunner.cpp
index c9e9ebe..37aaf78 100644
--- a/Aster/AsterRunner.cpp
+++ b/Aster/AsterRunner.cpp
@@ -110,7 +110,7 @@ Runner::ExitCode AsterRunner::execSolver(const ConfigurationParameters &configur
                 cout << "Tests OK." << endl;
             }
         }
-    } else if (i == 4) { //handle the case of code_aster exit code 4
+    } else if (exitStatus(i) == 4) { //handle the case of code_aster exit code 4
         exitCode = ExitCode::TRANSLATION_SYNTAX_ERROR;
     }
     return exitCode;
-- 
2.43.0


From 203240cb4ba8157ec35946d0eb075548309377f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:35 +0000
Subject: [PATCH 068/139] fix: solvers can be run in directories whose name has
 blanks or shell characters

---
 Abstract/SolverInterfaces.cpp | 16 ++++++++++++++++
 Abstract/SolverInterfaces.h   |  2 ++
 Aster/AsterRunner.cpp         |  4 ++--
 Nastran/NastranRunner.cpp     |  6 +++---
 Systus/SystusRunner.cpp       | 12 ++++++------
 5 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/Abstract/SolverInterfaces.cpp b/Abstract/SolverInterfaces.cpp
index 183d06b..ed74890 100644
--- a/Abstract/SolverInterfaces.cpp
+++ b/Abstract/SolverInterfaces.cpp
@@ -237,6 +237,22 @@ void Runner::deletePreviousResultFiles(string currentModel, const vector<string>
     }
 }
 
+string Runner::quoted(const string& fileName) const {
+#ifdef __GNUC__
+    string result = "'";
+    for (const char c : fileName) {
+        if (c == '\'') {
+            result += "'\\''";
+        } else {
+            result += c;
+        }
+    }
+    return result + "'";
+#else
+    return "\"" + fileName + "\"";
+#endif
+}
+
 int Runner::exitStatus(const int systemResult) const {
 #ifdef __GNUC__
     return (systemResult & 0xFF00) >> 8;
diff --git a/Abstract/SolverInterfaces.h b/Abstract/SolverInterfaces.h
index 5cd2e0a..9b30c59 100644
--- a/Abstract/SolverInterfaces.h
+++ b/Abstract/SolverInterfaces.h
@@ -190,6 +190,8 @@ protected:
 			const std::vector<std::string> extensions);
 	std::string stripExtension(const std::string& currentModel) const;
 	ExitCode convertExecResult(const int exitCode) const;
+	/** A file name as one word of a shell command */
+	std::string quoted(const std::string& fileName) const;
 	/** Exit status of a command, from the value returned by system() */
 	int exitStatus(const int systemResult) const;
 };
diff --git a/Aster/AsterRunner.cpp b/Aster/AsterRunner.cpp
index 37aaf78..3d9e094 100644
--- a/Aster/AsterRunner.cpp
+++ b/Aster/AsterRunner.cpp
@@ -45,10 +45,10 @@ Runner::ExitCode AsterRunner::execSolver(const ConfigurationParameters &configur
     string command = configuration.solverCommand.empty() ? "as_run" : configuration.solverCommand;
     fs::path modelFilePath(modelFile);
     string fname = modelFilePath.stem().string();
-    command = command + " " + modelFile + " > " + fname + ".stdout 2> " + fname + ".stderr";
+    command = command + " " + quoted(modelFile) + " > " + quoted(fname + ".stdout") + " 2> " + quoted(fname + ".stderr");
 
     if (configuration.outputPath != ".") {
-        command = "cd " + configuration.outputPath + " && " + command;
+        command = "cd " + quoted(configuration.outputPath) + " && " + command;
     }
     vector<string> fileList = { ".mess", ".resu", ".rmed", ".stdout", ".stderr" };
     deletePreviousResultFiles(modelFile, fileList);
diff --git a/Nastran/NastranRunner.cpp b/Nastran/NastranRunner.cpp
index 2a662b8..4845c17 100644
--- a/Nastran/NastranRunner.cpp
+++ b/Nastran/NastranRunner.cpp
@@ -41,14 +41,14 @@ Runner::ExitCode NastranRunner::execSolver(const ConfigurationParameters &config
         string modelFile) {
     fs::path modelFilePath(modelFile);
     string fname = modelFilePath.stem().string();
-    string command = "nastran " + modelFilePath.filename().string() + " > " + fname + ".stdout 2> " + fname
-            + ".stderr";
+    string command = "nastran " + quoted(modelFilePath.filename().string()) + " > " + quoted(fname + ".stdout")
+            + " 2> " + quoted(fname + ".stderr");
     fs::path outputFsPath(configuration.outputPath);
     cout << configuration.outputPath << endl;
     if (!fs::is_directory(outputFsPath))
         return Runner::ExitCode::SOLVER_NOT_FOUND;
     if (configuration.outputPath != ".")
-        command = "cd " + configuration.outputPath + " && " + command;
+        command = "cd " + quoted(configuration.outputPath) + " && " + command;
 
     vector<string> fileList = { ".DBALL", ".f04", ".f06", ".IFPDAT", ".log", ".MASTER", ".stdout",
             ".stderr" };
diff --git a/Systus/SystusRunner.cpp b/Systus/SystusRunner.cpp
index 9950680..57417e9 100644
--- a/Systus/SystusRunner.cpp
+++ b/Systus/SystusRunner.cpp
@@ -64,10 +64,10 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
 
     ExitCode exitCode;
     if (configuration.systusOutputProduct=="systus") {
-        string command = "systus -batch -exec " + modelFile + " > " + fname + ".stdout 2> " + fname
-                + ".stderr";
+        string command = "systus -batch -exec " + quoted(modelFile) + " > " + quoted(fname + ".stdout") + " 2> "
+                + quoted(fname + ".stderr");
         if (configuration.outputPath != ".")
-            command = "cd " + configuration.outputPath + " && " + command;
+            command = "cd " + quoted(configuration.outputPath) + " && " + command;
         //run command
         int i = system(command.c_str());
         if (i != 0) {
@@ -88,10 +88,10 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
             cout << "Found DAT file:" << datFilename << endl;
             //check if it contains nook
             string datFileStr = (outputFsPath / fs::path(datFilename)).string();
-            string command = "systus -batch -exec " + datFilename + " > " + fname + ".stdout 2> " + fname
-                    + ".stderr";
+            string command = "systus -batch -exec " + quoted(datFilename) + " > " + quoted(fname + ".stdout") + " 2> "
+                    + quoted(fname + ".stderr");
             if (configuration.outputPath != ".")
-                command = "cd " + configuration.outputPath + " && " + command;
+                command = "cd " + quoted(configuration.outputPath) + " && " + command;
             //run command
             int i = system(command.c_str());
             if (i != 0) {
-- 
2.43.0


From b0227a83c82ecd06144ed39325fe200577b700c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:30 +0000
Subject: [PATCH 069/139] fix: errors of all the Systus runs but the last were
 overwritten

---
 Systus/SystusRunner.cpp | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/Systus/SystusRunner.cpp b/Systus/SystusRunner.cpp
index 57417e9..931d36f 100644
--- a/Systus/SystusRunner.cpp
+++ b/Systus/SystusRunner.cpp
@@ -62,7 +62,24 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
         }
     }
 
-    ExitCode exitCode;
+    // test if any error occurred during computation
+    const string outputFileStr = (outputFsPath / fs::path(fname + ".stdout")).string();
+    const auto errorFound = [&outputFileStr]() {
+        bool found = false;
+        ifstream outputFile(outputFileStr);
+        string line;
+        int lineNumber = 0;
+        while (getline(outputFile, line)) {
+            lineNumber += 1;
+            if (line.find("ERROR") != string::npos && line.find("NO ERROR") == string::npos) {
+                cerr << "Error found : line " << lineNumber << " file: " << outputFileStr << endl;
+                found = true;
+            }
+        }
+        return found;
+    };
+
+    ExitCode exitCode = Runner::ExitCode::SOLVER_RESULT_NOT_FOUND;
     if (configuration.systusOutputProduct=="systus") {
         string command = "systus -batch -exec " + quoted(modelFile) + " > " + quoted(fname + ".stdout") + " 2> "
                 + quoted(fname + ".stderr");
@@ -76,6 +93,8 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
             cout << "Command " << command << " ended with exit code " << i << endl;
         }
         exitCode = convertExecResult(i);
+        if (errorFound())
+            exitCode = Runner::ExitCode::SOLVER_EXIT_NOT_ZERO;
     } else {
         for (fs::directory_iterator it2( outputFsPath ); it2 != fs::directory_iterator(); it2++ ) {
             if( !fs::is_regular_file( it2->status() ) )
@@ -100,24 +119,13 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
                 cout << "Command " << command << " ended with exit code " << i << endl;
             }
             exitCode = convertExecResult(i);
+            if (errorFound())
+                exitCode = Runner::ExitCode::SOLVER_EXIT_NOT_ZERO;
             if (exitCode != Runner::ExitCode::OK)
                 return exitCode;
         }
     }
 
-    // test if any error occurred during computation
-    string outputFileStr = (outputFsPath / fs::path(fname + ".stdout")).string();
-    ifstream outputFile(outputFileStr);
-    string line;
-    int lineNumber = 0;
-    while (getline(outputFile, line)) {
-        lineNumber += 1;
-        if (line.find("ERROR") != string::npos && line.find("NO ERROR") == string::npos) {
-            cerr << "Error found : line " << lineNumber << " file: " << outputFileStr << endl;
-            exitCode = Runner::ExitCode::SOLVER_EXIT_NOT_ZERO;
-        }
-    }
-
     // test if result files exist
     if (exitCode == Runner::ExitCode::OK) {
         if (configuration.systusOutputProduct=="systus") {
-- 
2.43.0


From 8b3f4e6ae82aaa76acfb240a4b824003b6ed4103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:46 +0000
Subject: [PATCH 070/139] fix: a memory address was written in the Systus
 output

---
 Abstract/Model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 1e6aea3..4eea1f6 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -926,7 +926,7 @@ void Model::emulateAdditionalMass() {
             cellElementSet->assignMaterial(newMaterial);
             // copy and assign new cellGroup
             ostringstream oss;
-            oss << "created by emulateAdditionalMass() because of elementSet: " << elementSet << " additional rho:" << rho;
+            oss << "created by emulateAdditionalMass() because of elementSet: " << elementSet->bestId() << " additional rho:" << rho;
             const auto& newCellGroup = mesh.createCellGroup(
                     "VAM_" + to_string(newElementSets.size()), Group::NO_ORIGINAL_ID, oss.str());
             cellElementSet->clear();
-- 
2.43.0


From 111f6609bb4f43d8eaab76cb08dce5de593a521f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:41 +0000
Subject: [PATCH 071/139] fix: outputs which could not be written entirely no
 longer end with exit code 0

---
 Aster/AsterWriter.cpp     |  6 ++++++
 Aster/MedWriter.cpp       |  8 +++++---
 Nastran/NastranWriter.cpp |  3 +++
 Systus/SystusWriter.cpp   | 18 ++++++++++++++++++
 4 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 59b11f6..d539ae0 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -85,6 +85,9 @@ string AsterWriter::writeModel(Model& model,
 	}
 	this->writeExport();
 	exp_file_ofs.close();
+	if (not exp_file_ofs.good()) {
+	    throw ios::failure("Error while writing file " + exp_path + ".");
+	}
 
 	comm_file_ofs.open(comm_path.c_str(), ios::out | ios::trunc);
 
@@ -94,6 +97,9 @@ string AsterWriter::writeModel(Model& model,
 	}
 	this->writeComm();
 	comm_file_ofs.close();
+	if (not comm_file_ofs.good()) {
+	    throw ios::failure("Error while writing file " + comm_path + ".");
+	}
 
 	MedWriter medWriter;
 	medWriter.writeMED(model, med_path.c_str());
diff --git a/Aster/MedWriter.cpp b/Aster/MedWriter.cpp
index b685803..3c4a9b4 100644
--- a/Aster/MedWriter.cpp
+++ b/Aster/MedWriter.cpp
@@ -251,7 +251,9 @@ void MedWriter::writeMED(const Model& model, const string& medFileName) {
     for(med_int i=0; i<nnodes;i++){
         numnoe.push_back(i+1);
     }
-    MEDmeshEntityNumberWr(fid, meshname, MED_NO_DT, MED_NO_IT, MED_NODE, MED_NONE,nnodes, numnoe.data());
+    if (nnodes > 0 and MEDmeshEntityNumberWr(fid, meshname, MED_NO_DT, MED_NO_IT, MED_NODE, MED_NONE,nnodes, numnoe.data()) < 0) {
+        throw logic_error("ERROR : writing node numbers ...");
+    }
     numnoe.clear();
 
 	for (const auto& kv : model.mesh.cellPositionsByType) {
@@ -303,11 +305,11 @@ void MedWriter::writeMED(const Model& model, const string& medFileName) {
         for (const auto cellPosition : cellPositions) {
             cellnums.push_back(static_cast<med_int>(cellPosition)+1);
         }
-        MEDmeshEntityNumberWr(fid, meshname, MED_NO_DT, MED_NO_IT, MED_CELL, code, numCells, cellnums.data());
+        result = MEDmeshEntityNumberWr(fid, meshname, MED_NO_DT, MED_NO_IT, MED_CELL, code, numCells, cellnums.data());
         cellnums.clear();
 
         if (result < 0) {
-        throw logic_error("ERROR : writing cell names ...");
+        throw logic_error("ERROR : writing cell numbers ...");
         }
 	}
 
diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index c29f169..f374cb8 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -1141,6 +1141,9 @@ string NastranWriter::writeModel(Model& model,
 	out << "ENDDATA" << endl;
 
 	out.close();
+	if (not out.good()) {
+	    throw ios::failure("Error while writing file " + nasPath + ".");
+	}
 	return nasPath;
 }
 
diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index c098fb0..de851cf 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -387,6 +387,9 @@ string SystusWriter::writeModel(Model& model,
         }
         this->writeAsc(systusModel, idSubcase, asc_file_ofs);
         asc_file_ofs.close();
+        if (not asc_file_ofs.good()) {
+            throw ios::failure("Error while writing file " + asc_path + ".");
+        }
 
         /* Write some matrix files, if needed */
         this->writeMatrixFiles(systusModel, idSubcase);
@@ -402,6 +405,9 @@ string SystusWriter::writeModel(Model& model,
         }
         this->writeDat(systusModel, configuration, idSubcase, analyse_file_ofs);
         analyse_file_ofs.close();
+        if (not analyse_file_ofs.good()) {
+            throw ios::failure("Error while writing file " + analyse_path + ".");
+        }
 
         if (configuration.systusOutputProduct=="systus"){
             dat_file_ofs << "READ " << systusModel.getName() << "_SC" << to_string(idSubcase+1) << ".DAT" << endl;
@@ -410,6 +416,9 @@ string SystusWriter::writeModel(Model& model,
 
     if (configuration.systusOutputProduct=="systus"){
         dat_file_ofs.close();
+        if (not dat_file_ofs.good()) {
+            throw ios::failure("Error while writing file " + dat_path + ".");
+        }
     }
     return dat_path;
 }
@@ -3394,6 +3403,9 @@ void SystusWriter::writeMatrixFiles(const SystusModel& systusModel, const int id
         }
         ofsMatrixFile << dampingMatrices<<endl;
         ofsMatrixFile.close();
+        if (not ofsMatrixFile.good()) {
+            throw ios::failure("Error while writing file " + matrixFile + ".");
+        }
         filebyAccessId[SystusWriter::DampingAccessId]= systusModel.getName()+"_SC" + to_string(idSubcase+1) + "_DAMGEN";
     }
 
@@ -3409,6 +3421,9 @@ void SystusWriter::writeMatrixFiles(const SystusModel& systusModel, const int id
         }
         ofsMatrixFile << massMatrices << endl;
         ofsMatrixFile.close();
+        if (not ofsMatrixFile.good()) {
+            throw ios::failure("Error while writing file " + matrixFile + ".");
+        }
         filebyAccessId[SystusWriter::MassAccessId]= systusModel.getName()+"_SC" + to_string(idSubcase+1) + "_MASGEN";
     }
 
@@ -3424,6 +3439,9 @@ void SystusWriter::writeMatrixFiles(const SystusModel& systusModel, const int id
         }
         ofsMatrixFile << stiffnessMatrices <<endl;
         ofsMatrixFile.close();
+        if (not ofsMatrixFile.good()) {
+            throw ios::failure("Error while writing file " + matrixFile + ".");
+        }
         filebyAccessId[SystusWriter::StiffnessAccessId]=systusModel.getName()+"_SC" + to_string(idSubcase+1) + "_STIGEN";
     }
 }
-- 
2.43.0


From 543782e90338e1af154133d63b4f8f39b63fa0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:07 +0000
Subject: [PATCH 072/139] fix: a directory given as input file is refused

---
 Commandline/VegaCommandLine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Commandline/VegaCommandLine.cpp b/Commandline/VegaCommandLine.cpp
index b75cb71..a4d5f42 100644
--- a/Commandline/VegaCommandLine.cpp
+++ b/Commandline/VegaCommandLine.cpp
@@ -616,7 +616,7 @@ VegaCommandLine::ExitCode VegaCommandLine::process(int ac, const char* av[]) {
                 return ExitCode::NO_INPUT_FILE;
             }
         }
-        if (!fs::exists(configuration.inputFile)) {
+        if (!fs::exists(configuration.inputFile) or fs::is_directory(configuration.inputFile)) {
             cout << "Input file" << configuration.inputFile << " not found." << endl << endl;
             return ExitCode::NO_INPUT_FILE;
         }
-- 
2.43.0


From a3fcc0c628f8584fa582916ca809a034e6ad606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:04 +0000
Subject: [PATCH 073/139] fix: formulas of several composites had the same
 names, layer numbers skipped layers

---
 Aster/AsterWriter.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index d539ae0..85aa93e 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -478,8 +478,9 @@ void AsterWriter::writeAnalyses() {
 		int compositeNumber = 1;
         for (const auto& c : asterModel->model.elementSets.filter(ElementSet::Type::COMPOSITE)) {
             const auto& composite = static_pointer_cast<Composite>(c);
-            int layerNumber = 1;
+            int layerNumber = 0;
             for (const auto& layer : composite->getFullLayers()) {
+                layerNumber++;
                 const auto& material = layer->getMaterial();
                 const auto& onature = material->findNature(Nature::NatureType::NATURE_ORTHOTROPIC);
                 if (not onature) {
@@ -500,21 +501,21 @@ void AsterWriter::writeAnalyses() {
                         comm_file_ofs << "               EXTR_COQUE=_F(NOM_CHAM='SIGM_ELNO',NUME_COUCHE="+to_string(layerNumber)+",NIVE_COUCHE='MOY',),)" << endl << endl;
                         destroyableConcepts.push_back(layerStressesName);
 
-                        string layerLocalFormulaxx = "locxx" + to_string(layerNumber);
+                        string layerLocalFormulaxx = "xx" + layerStressesName;
                         comm_file_ofs << layerLocalFormulaxx << " = FORMULE(VALE='(SIXX*cos(-" << layer->getOrientation()*M_PI/180 << ")**2" <<
 								"+ SIYY*sin(-" << layer->getOrientation()*M_PI/180 << ")**2 " <<
 								"- SIXY*2*cos(-" << layer->getOrientation()*M_PI/180 << ")*sin(-" << layer->getOrientation()*M_PI/180 << ") )', NOM_PARA=('SIXX','SIYY','SIXY',),)" << endl << endl;
 
                         destroyableConcepts.push_back(layerLocalFormulaxx);
 
-                        string layerLocalFormulayy = "locyy" + to_string(layerNumber);
+                        string layerLocalFormulayy = "yy" + layerStressesName;
                         comm_file_ofs << layerLocalFormulayy << " = FORMULE(VALE='(SIXX*sin(-" << layer->getOrientation()*M_PI/180 << ")**2" <<
 								"+ SIYY*cos(-" << layer->getOrientation()*M_PI/180 << ")**2 " <<
 								"+ SIXY*2*cos(-" << layer->getOrientation()*M_PI/180 << ")*sin(-" << layer->getOrientation()*M_PI/180 << ") )', NOM_PARA=('SIXX','SIYY','SIXY',),)" << endl << endl;
 
                         destroyableConcepts.push_back(layerLocalFormulayy);
 
-                        string layerLocalFormulaxy = "locxy" + to_string(layerNumber);
+                        string layerLocalFormulaxy = "xy" + layerStressesName;
                         comm_file_ofs << layerLocalFormulaxy << " = FORMULE(VALE='(SIXX*sin(-" << layer->getOrientation()*M_PI/180 << ")*cos(-" << layer->getOrientation()*M_PI/180 << ") " <<
 								"-SIYY*sin(-" << layer->getOrientation()*M_PI/180 << ")*cos(-" << layer->getOrientation()*M_PI/180 << ") " <<
 								"+ SIXY*(cos(-" << layer->getOrientation()*M_PI/180 << ")**2-sin(-" << layer->getOrientation()*M_PI/180 << ")**2) )', NOM_PARA=('SIXX','SIYY','SIXY',),)" << endl << endl;
@@ -536,7 +537,7 @@ void AsterWriter::writeAnalyses() {
                         comm_file_ofs << "               )," << endl;
                         comm_file_ofs << "         )" << endl << endl;
 
-                        string layerTsaiFormula = "TSAI" + to_string(layerNumber);
+                        string layerTsaiFormula = "T" + layerStressesName;
                         comm_file_ofs << layerTsaiFormula << " = FORMULE(VALE='X1*(1/" << orthoNature->getXt() << "-1/" << orthoNature->getXc() << ")" <<
                                     "+X2*(1/" << orthoNature->getYt() << "-1/" << orthoNature->getYc() << ")" <<
                                     "+X1**2/(" << orthoNature->getXt() << "*" << orthoNature->getXc() << ")" <<
@@ -559,7 +560,6 @@ void AsterWriter::writeAnalyses() {
                         comm_file_ofs << "               )," << endl;
                         comm_file_ofs << "         )" << endl << endl;
 
-                        layerNumber++;
                         break;
                     }
                     default: {
-- 
2.43.0


From 790a36c54ece9c825e87cd805de9cbe0b82c9e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:25 +0000
Subject: [PATCH 074/139] fix: frequency lists refined around the modes used
 undefined names

---
 Aster/AsterWriter.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 85aa93e..d2fddc7 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2961,9 +2961,11 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
             list_concept_ss << "LSIP" << setfill('0') << setw(4) << frequencyExcit->getId();
             const auto& frequencyExcitBand = static_pointer_cast<BandRange>(frequencyExcit->getValue());
             string concept_name = list_concept_ss.str();
-            string frequencyCount = to_string(frequencyExcitBand->maxsearch);
-            comm_file_ofs << "efreq" << analysis->getId() << " = np.concatenate([np.linspace(x, x+1-1/" << frequencyCount << "," << frequencyCount << ") for x in freqList.Valeurs()])" << endl;
-            comm_file_ofs << concept_name << "= DEFI_LIST_REEL(VALE=efreq" << analysis->getId() << ")" << endl;
+            string frequencyCount = to_string(max(frequencyExcitBand->maxsearch - 1, 1));
+            // frequencyCount excitation frequencies between two consecutive modes, modes included
+            string edges = "efreq" + to_string(analysis->getId());
+            comm_file_ofs << edges << "=[" << frequencyExcitBand->start << "]+[x for x in " << freqList << " if " << frequencyExcitBand->start << " < x < " << frequencyExcitBand->end << "]+[" << frequencyExcitBand->end << "]" << endl;
+            comm_file_ofs << concept_name << "= DEFI_LIST_REEL(VALE=[x+(y-x)*k/" << frequencyCount << ". for x,y in zip(" << edges << "," << edges << "[1:]) for k in range(" << frequencyCount << ")]+[" << frequencyExcitBand->end << "])" << endl;
             destroyableConcepts.push_back(concept_name);
         }
 
@@ -2984,10 +2986,10 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
         }
         if (frequencyExcit->frequencyType == FrequencyExcit::FrequencyType::SPREAD) {
             comm_file_ofs << "                   LIST_FREQ  = LSPR" << setfill('0') << setw(4)
-            << frequencyExcit->getValue()->getId() << "," << endl;
+            << frequencyExcit->getId() << "," << endl;
         } else if (frequencyExcit->frequencyType == FrequencyExcit::FrequencyType::INTERPOLATE) {
             comm_file_ofs << "                   LIST_FREQ  = LSIP" << setfill('0') << setw(4)
-            << frequencyExcit->getValue()->getId() << "," << endl;
+            << frequencyExcit->getId() << "," << endl;
         } else {
             comm_file_ofs << "                   LIST_FREQ  = LST" << setfill('0') << setw(5)
             << frequencyExcit->getValue()->getId() << "," << endl;
-- 
2.43.0


From 6355ca7414b39d97d64622bd6939b21eb5b5825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:25 +0000
Subject: [PATCH 075/139] fix: modal dampings given as G or Q were written with
 wrong values

---
 Aster/AsterWriter.cpp | 2 +-
 Systus/SystusDat.cpp  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index d2fddc7..62eadd0 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2919,7 +2919,7 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
                 break;
             }
             case (ModalDamping::DampingType::G): {
-                comm_file_ofs << "AMMOS" << analysis->getId() << " = CALC_FONCTION(COMB=_F(COEF=2.0, FONCTION=" << analysis->getId() << "))" << endl;
+                comm_file_ofs << "AMMOS" << analysis->getId() << " = CALC_FONCTION(COMB=_F(COEF=0.5, FONCTION=AMMOI" << analysis->getId() << "))" << endl;
                 destroyableConcepts.push_back("AMMOS" + to_string(analysis->getId()));
                 break;
             }
diff --git a/Systus/SystusDat.cpp b/Systus/SystusDat.cpp
index 07eaf95..1ccd7ec 100644
--- a/Systus/SystusDat.cpp
+++ b/Systus/SystusDat.cpp
@@ -60,11 +60,11 @@ void SystusWriter::writeModalDamping(std::ostream& out, const shared_ptr<ModalDa
             break;
         }
         case (ModalDamping::DampingType::G): {
-            firstDamping *= 2.0; // G = 2*CRIT
+            firstDamping /= 2.0; // G = 2*CRIT
             break;
         }
         case (ModalDamping::DampingType::Q): {
-            firstDamping = 1 / firstDamping; // Q = 1/CRIT
+            firstDamping = 0.5 / firstDamping; // Q = 1/(2*CRIT)
             break;
         }
         default: {
-- 
2.43.0


From cf0b0dc7d597a734fff2a698537c8bb8aff04dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:39 +0000
Subject: [PATCH 076/139] fix: the command file of a model without elements was
 not valid Python

---
 Aster/AsterWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 62eadd0..8c9a410 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1097,8 +1097,8 @@ void AsterWriter::writeMaterials() {
 
 void AsterWriter::writeAffeCaraElem() {
 	calc_sigm = false;
+	comm_file_ofs << "CAEL=AFFE_CARA_ELEM(MODELE=MODMECA," << endl;
 	if (not asterModel->model.elementSets.empty()) {
-		comm_file_ofs << "CAEL=AFFE_CARA_ELEM(MODELE=MODMECA," << endl;
 
 		const auto& discrets_0d = asterModel->model.elementSets.filter(
 				ElementSet::Type::DISCRETE_0D);
-- 
2.43.0


From cd279036fb1227859b1cd355014561551bdaf5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:39 +0000
Subject: [PATCH 077/139] fix: RESVEC = YES above the subcases was lost because
 of its blanks

---
 Nastran/NastranParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index d1ab9c5..9467e40 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -500,7 +500,7 @@ void NastranParser::parseExecutiveSection(NastranTokenizer& tok, Model& model,
                         if (ACCEPTED_CASE_CONTROL_COMMANDS.find(partWithoutOptions) == ACCEPTED_CASE_CONTROL_COMMANDS.end()) {
                             handleParsingWarning("Unknown case control command: " + partWithoutOptions + " in executive section", tok, model);
                         }
-                        context[parts[0]] = parts[1];
+                        context[parts[0]] = trim_copy(parts[1]);
                     }
                 }
             }
-- 
2.43.0


From 6c7261891fe886c5102eae987ee4a576892e127a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:31 +0000
Subject: [PATCH 078/139] fix: the results of a complex modal analysis were
 printed under a name never defined

---
 Aster/AsterWriter.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 8c9a410..3464364 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -145,7 +145,8 @@ void AsterWriter::writeImprResultats(const shared_ptr<Analysis>& analysis) {
         }
         break;
     }
-    case (Analysis::Type::LINEAR_MODAL): {
+    case (Analysis::Type::LINEAR_MODAL):
+    case (Analysis::Type::LINEAR_MODAL_COMPLEX): {
         //comm_file_ofs << "                _F(RESULTAT=RESU" << analysis->getId()
         //		<< ", TOUT_PARA='OUI', TOUT_CHAM='NON')," << endl;
         break;
@@ -190,7 +191,8 @@ void AsterWriter::writeImprResultats(const shared_ptr<Analysis>& analysis) {
     }
     case (Analysis::Type::NONLINEAR_MECA_STAT):
     case (Analysis::Type::LINEAR_BUCKLING):
-    case (Analysis::Type::LINEAR_MODAL): {
+    case (Analysis::Type::LINEAR_MODAL):
+    case (Analysis::Type::LINEAR_MODAL_COMPLEX): {
         comm_file_ofs << "                _F(RESULTAT=RESU" << analysis->getId()
                 << ", NOM_CHAM = 'DEPL',)," << endl;
         break;
@@ -250,6 +252,7 @@ void AsterWriter::writeImprResultats(const shared_ptr<Analysis>& analysis) {
         switch (analysis->type) {
         case (Analysis::Type::COMBINATION):
         case (Analysis::Type::LINEAR_MODAL):
+        case (Analysis::Type::LINEAR_MODAL_COMPLEX):
         case (Analysis::Type::LINEAR_BUCKLING):
         case (Analysis::Type::NONLINEAR_MECA_STAT):
         case (Analysis::Type::LINEAR_MECA_STAT): {
@@ -2686,7 +2689,7 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
 		if (reusableAnalysis == nullptr) {
             modalAnalysis = linearModal;
             writeAssemblage(analysis, canBeReused);
-            if (analysis->type == Analysis::Type::LINEAR_MODAL)
+            if (analysis->type != Analysis::Type::LINEAR_DYNA_MODAL_FREQ)
                 modalResuName = "RESU" + to_string(modalAnalysis->getId());
             else {
                 modalResuName = "MO" + to_string(modalAnalysis->getId());
@@ -2730,7 +2733,7 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
             destroyableConcepts.push_back("J" + modalResuName);
 		} else {
 		    modalAnalysis = reusableAnalysis;
-            if (reusableAnalysis->type == Analysis::Type::LINEAR_MODAL)
+            if (reusableAnalysis->type != Analysis::Type::LINEAR_DYNA_MODAL_FREQ)
                 modalResuName = "RESU" + to_string(reusableAnalysis->getId());
             else
                 modalResuName = "MO" + to_string(reusableAnalysis->getId());
@@ -3146,9 +3149,9 @@ void AsterWriter::writeFrequencyAssertion(const shared_ptr<Analysis>& analysis,
     string resuName;
     const auto& reusableAnalysis = asterModel->model.reusableAnalysisFor(analysis);
     if (reusableAnalysis == nullptr) {
-        resuName = ((analysis->type == Analysis::Type::LINEAR_MODAL or analysis->type == Analysis::Type::LINEAR_BUCKLING) ? "RESU" : "UMO") + to_string(analysis->getId());
+        resuName = (analysis->type != Analysis::Type::LINEAR_DYNA_MODAL_FREQ ? "RESU" : "UMO") + to_string(analysis->getId());
     } else {
-        resuName = ((reusableAnalysis->type == Analysis::Type::LINEAR_MODAL or reusableAnalysis->type == Analysis::Type::LINEAR_BUCKLING) ? "RESU" : "UMO") + to_string(reusableAnalysis->getId());
+        resuName = (reusableAnalysis->type != Analysis::Type::LINEAR_DYNA_MODAL_FREQ ? "RESU" : "UMO") + to_string(reusableAnalysis->getId());
     }
 
 	string critere = (!is_zero(frequencyAssertion->cycles) ? "'RELATIF'," : "'ABSOLU',");
-- 
2.43.0


From 42f340092736c8c2f64ea0292b3f1b710c201ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:17 +0000
Subject: [PATCH 079/139] fix: dynamic excitations can reference a static load
 set as EXCITEID

---
 Abstract/Loading.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index 2bbeef5..204095f 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -849,7 +849,15 @@ shared_ptr<FunctionTable> DynamicExcitation::getFunctionTableP() const {
 
 
 shared_ptr<LoadSet> DynamicExcitation::getLoadSet() const {
-    return model.find(loadSet);
+    const auto& excitation = model.find(loadSet);
+    if (loadSet.type == LoadSet::Type::EXCITEID and loadSet.has_original_id() and (excitation == nullptr or excitation->empty())) {
+        // Static load sets can be referenced as well as DAREA
+        const auto& staticLoadSet = model.find(Reference<LoadSet>{LoadSet::Type::LOAD, loadSet.original_id});
+        if (staticLoadSet != nullptr) {
+            return staticLoadSet;
+        }
+    }
+    return excitation;
 }
 
 shared_ptr<FunctionPlaceHolder> DynamicExcitation::getFunctionTableBPlaceHolder() const {
-- 
2.43.0


From 76327e3ae582dd800d1068e21489f50217df3c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:17 +0000
Subject: [PATCH 080/139] fix: scaling a dynamic excitation leaves the tables
 of the others as they are

---
 Abstract/Loading.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index 204095f..b2b9c5c 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -878,7 +878,16 @@ DOFS DynamicExcitation::getDOFSForNode(const pos_t nodePosition) const {
 }
 
 void DynamicExcitation::scale(const double factor) {
-	model.find(functionTableB)->scale(factor);
+    const auto& functionTable = getFunctionTableB();
+    if (functionTable == nullptr) {
+        return;
+    }
+    // The table can be shared with other excitations, which keep it as it is
+    const auto& scaledTable = make_shared<FunctionTable>(*functionTable);
+    scaledTable->resetId();
+    scaledTable->scale(factor);
+    model.add(scaledTable);
+    functionTableB = scaledTable->getReference();
 }
 
 unique_ptr<Loading> DynamicExcitation::clone() const {
-- 
2.43.0


From 1f881abcad803a7d58510c79067703c5c508b1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:17 +0000
Subject: [PATCH 081/139] fix: FREQ frequencies can be given in any order

---
 Nastran/NastranParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 9467e40..04dce66 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1755,6 +1755,9 @@ void NastranParser::parseFREQ(NastranTokenizer& tok, Model& model) {
     int sid = tok.nextInt();
     const auto& objectiveSet = model.getOrCreateObjectiveSet(sid, ObjectiveSet::Type::FREQ);
     list<double> frequencies = tok.nextDoubles();
+    // They can be given in any order, and more than once
+    frequencies.sort();
+    frequencies.unique();
 
     const auto& frequencyValue = make_shared<ListValue<double>>(model, frequencies);
     frequencyValue->setInputContext(tok.getInputContext());
-- 
2.43.0


From f863f2bd43103e698b9e6a13eb068729ee913271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:17 +0000
Subject: [PATCH 082/139] fix: modal damping given as quality factors is
 written for Code_Aster

---
 Aster/AsterWriter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 3464364..a7b6adc 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2926,6 +2926,11 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
                 destroyableConcepts.push_back("AMMOS" + to_string(analysis->getId()));
                 break;
             }
+            case (ModalDamping::DampingType::Q): {
+                // The quality factors are inverted below: Q = 1/(2*CRIT)
+                comm_file_ofs << "AMMOS" << analysis->getId() << " = AMMOI" << analysis->getId() << endl;
+                break;
+            }
             default: {
                 handleWritingError("Modal damping type not (yet) implemented");
                 break;
@@ -2938,6 +2943,9 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
 
             comm_file_ofs << "AMMO" << analysis->getId() << "=AMMOT" << analysis->getId()
               << ".EXTR_TABLE().values()['TOUTRESU']" << endl;
+            if (linearDynaModalFreq->getModalDamping()->dampingType == ModalDamping::DampingType::Q) {
+                comm_file_ofs << "AMMO" << analysis->getId() << "=[0.5/q for q in AMMO" << analysis->getId() << "]" << endl;
+            }
             destroyableConcepts.push_back("AMMOI" + to_string(analysis->getId()));
             destroyableConcepts.push_back("AMMOT" + to_string(analysis->getId()));
         }
-- 
2.43.0


From 9195a7eed6cdd3a159751cbab26e6765f8d71c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:22 +0000
Subject: [PATCH 083/139] fix: Systus frequency responses keep the amplitude of
 their excitation

---
 Systus/SystusDat.cpp    |  1 -
 Systus/SystusWriter.cpp | 14 +++++++++-----
 Systus/SystusWriter.h   |  2 +-
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/Systus/SystusDat.cpp b/Systus/SystusDat.cpp
index 1ccd7ec..31035ba 100644
--- a/Systus/SystusDat.cpp
+++ b/Systus/SystusDat.cpp
@@ -264,7 +264,6 @@ int SystusWriter::writeDynaModalAnalysis(ostream& out, const SystusModel& systus
     out << "HARMONIC RESPONSE MODAL "<< nModes<< " FORCE "<< nbLoadcases <<endl;
     if (not tableByLoadcase.empty()){
         out <<"FUNCTION "<< tableByLoadcase[1] <<endl;
-        cout <<"FUNCTION "<< tableByLoadcase[0] <<endl;
     }
     if (linearDynaModalFreq->hasModalDamping()) {
         writeModalDamping(out, linearDynaModalFreq->getModalDamping());
diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index de851cf..80150bd 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -1080,11 +1080,11 @@ void SystusWriter::fillLoads(const SystusModel& systusModel, const int idSubcase
     }
 }
 
-void SystusWriter::writeNodalForceVector(const SystusModel& systusModel, const shared_ptr<NodalForce>& nodalForce, const int idLoadCase, systus_ascid_t& vectorId) {
+void SystusWriter::writeNodalForceVector(const SystusModel& systusModel, const shared_ptr<NodalForce>& nodalForce, const int idLoadCase, systus_ascid_t& vectorId, const double amplitude) {
 
     for(const pos_t nodePosition : nodalForce->nodePositions()) {
-        const auto& force = nodalForce->getForceInGlobalCS(nodePosition);
-        const auto& moment = nodalForce->getMomentInGlobalCS(nodePosition);
+        const auto& force = nodalForce->getForceInGlobalCS(nodePosition).scaled(amplitude);
+        const auto& moment = nodalForce->getMomentInGlobalCS(nodePosition).scaled(amplitude);
         const int nodeId = systusModel.model.mesh.findNodeId(nodePosition);
 
         vector<double> vec;
@@ -1389,7 +1389,7 @@ void SystusWriter::fillLoadingsVectors(const SystusModel& systusModel, const int
                         }
 
                         const auto& nodalForce = static_pointer_cast<NodalForce>(dLoading);
-                        writeNodalForceVector(systusModel, nodalForce, idLoadCase, vectorId);
+                        writeNodalForceVector(systusModel, nodalForce, idLoadCase, vectorId, amplitude);
                         nodalForce->markAsWritten();
                     }
                     dEL->markAsWritten();
@@ -1924,7 +1924,7 @@ void SystusWriter::fillTables(const SystusModel& systusModel, const int idSubcas
 
 
     // Build tables for frequency-dependent amplitude on Modal Dynamic Analysis
-    if (systusModel.configuration.systusDynamicMethod=="modal") {
+    if (systusModel.configuration.systusDynamicMethod=="auto" or systusModel.configuration.systusDynamicMethod=="modal") {
         const auto& analysisId = systusSubcases[idSubcase];
 
         for (unsigned i = 0 ; i < analysisId.size(); i++) {
@@ -1935,6 +1935,10 @@ void SystusWriter::fillTables(const SystusModel& systusModel, const int idSubcas
                 break;
             }
 
+            if (analysis->type != Analysis::Type::LINEAR_DYNA_MODAL_FREQ) {
+                continue;
+            }
+
             for (const auto& loadset : analysis->getLoadSets()) {
                 const int idLoadCase = localLoadingIdByLoadsetIdByAnalysisId[analysis->getId()][loadset->getId()];
                 for (const auto& loading : loadset->getLoadings()) {
diff --git a/Systus/SystusWriter.h b/Systus/SystusWriter.h
index 0ab7b2b..1c74c2a 100644
--- a/Systus/SystusWriter.h
+++ b/Systus/SystusWriter.h
@@ -422,7 +422,7 @@ private:
     void writeNodalDisplacementAssertion(Assertion& assertion, std::ostream& out);
     void writeNodalComplexDisplacementAssertion(Assertion& assertion, std::ostream& out);
     void writeFrequencyAssertion(Assertion& assertion, std::ostream& out);
-    void writeNodalForceVector(const SystusModel& systusModel, const std::shared_ptr<NodalForce>& nodalForce, const int idLoadCase, systus_ascid_t& vectorId);
+    void writeNodalForceVector(const SystusModel& systusModel, const std::shared_ptr<NodalForce>& nodalForce, const int idLoadCase, systus_ascid_t& vectorId, const double amplitude = 1.0);
 
     std::string toString() const override {
         return "SystusWriter";
-- 
2.43.0


From f39456e777d2f5d6da78b8d42d218e1785432036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:20 +0000
Subject: [PATCH 084/139] fix: scalar springs act along their own freedoms only

---
 Abstract/ConfigurationParameters.cpp |   1 +
 Abstract/Element.cpp                 | 154 +++++++++------------------
 Abstract/Element.h                   |   5 +-
 Abstract/Model.cpp                   |   3 +-
 4 files changed, 53 insertions(+), 110 deletions(-)

diff --git a/Abstract/ConfigurationParameters.cpp b/Abstract/ConfigurationParameters.cpp
index 83ab3c1..92d0ea8 100644
--- a/Abstract/ConfigurationParameters.cpp
+++ b/Abstract/ConfigurationParameters.cpp
@@ -61,6 +61,7 @@ ModelConfiguration ConfigurationParameters::getModelConfiguration() const {
         configuration.replaceRigidSegments = true;
         configuration.changeParametricForceLineToAbsolute = true;
         configuration.alwaysUseGroupsForCells = true;
+        configuration.splitElementsByDOFS = true;
         configuration.splitElementsByCellOffsets = true;
         configuration.alwaysUseOrthotropicMaterialsInComposites = true;
     } else if (this->outputSolver.getSolverName() == SolverName::SYSTUS) {
diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index 2b2db0a..c908971 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -1308,127 +1308,71 @@ size_t ScalarSpring::getNbDOFSSpring() const{
 }
 
 bool ScalarSpring::hasTranslations() const {
-	for (const DOF dof1 : DOFS::TRANSLATIONS) {
-		for (const DOF dof2 : DOFS::TRANSLATIONS) {
-            auto codeIter = this->cellpositionByDOFS.find({dof1, dof2});
-            if (codeIter != this->cellpositionByDOFS.end()) {
-				return true;
-            }
-		}
-	}
-	return false;
+    for (const auto& kv : this->cellpositionByDOFS) {
+        if (kv.first.first.isTranslation or kv.first.second.isTranslation) {
+            return true;
+        }
+    }
+    return false;
 }
 
 bool ScalarSpring::hasRotations() const {
-	for (const DOF dof1 : DOFS::ROTATIONS) {
-		for (const DOF dof2 : DOFS::ROTATIONS) {
-            auto codeIter = this->cellpositionByDOFS.find({dof1, dof2});
-            if (codeIter != this->cellpositionByDOFS.end()) {
-				return true;
-            }
-		}
-	}
-	return false;
-}
-
-vector<double> ScalarSpring::asStiffnessVector(bool addRotationsIfNotPresent) const {
-	vector<double> result;
-	char ncomp = (addRotationsIfNotPresent || hasRotations()) ? 6 : 3;
-
-    if (isDiagonal()) {
-        result.insert(result.end(), ncomp, stiffness);
-    } else if (isSymmetric()) {
-        int max_row_element_index = 0;
-        for (int colindex = 0; colindex < 2; ++colindex) {
-            for (char coldof = 0; coldof < ncomp; coldof++) {
-                DOF colcode = DOF::findByPosition(coldof);
-                max_row_element_index++;
-                int row_element_index = 0;
-                for (int rowindex = 0; rowindex < 2; ++rowindex) {
-                    for (char rowdof = 0; rowdof < ncomp; rowdof++) {
-                        row_element_index++;
-                        if (row_element_index > max_row_element_index) {
-                            break;
-                        }
-                        DOF rowcode = DOF::findByPosition(rowdof);
-                        auto codeIter = this->cellpositionByDOFS.find({rowcode, colcode});
-                        if (codeIter != this->cellpositionByDOFS.end() and colindex == 1 and row_element_index <= 2) {
-                            result.push_back(stiffness);
-                        } else {
-                            result.push_back(0.0);
-                        }
-                    }
-                }
-            }
+    for (const auto& kv : this->cellpositionByDOFS) {
+        if (kv.first.first.isRotation or kv.first.second.isRotation) {
+            return true;
         }
-    } else {
-        throw logic_error("not yet implemented");
     }
-	return result;
+    return false;
 }
 
-vector<double> ScalarSpring::asDampingVector(bool addRotationsIfNotPresent) const {
-	vector<double> result;
-	char ncomp = (addRotationsIfNotPresent || hasRotations()) ? 6 : 3;
-    if (isDiagonal()) {
-        result.insert(result.end(), ncomp, damping);
-    } else if (isSymmetric()) {
-        int max_row_element_index = 0;
-        for (int colindex = 0; colindex < 2; ++colindex) {
-            for (char coldof = 0; coldof < ncomp; coldof++) {
-                DOF colcode = DOF::findByPosition(coldof);
-                max_row_element_index++;
-                int row_element_index = 0;
-                for (int rowindex = 0; rowindex < 2; ++rowindex) {
-                    for (char rowdof = 0; rowdof < ncomp; rowdof++) {
-                        row_element_index++;
-                        if (row_element_index > max_row_element_index) {
-                            break;
-                        }
-                        DOF rowcode = DOF::findByPosition(rowdof);
-                        auto codeIter = this->cellpositionByDOFS.find({rowcode, colcode});
-                        if (codeIter != this->cellpositionByDOFS.end() and colindex == 1 and row_element_index <= 2) {
-                            result.push_back(damping);
-                        } else {
-                            result.push_back(0.0);
-                        }
-                    }
-                }
-            }
+bool ScalarSpring::isDiagonal() const {
+    for (const auto& kv : this->cellpositionByDOFS) {
+        if (kv.first.first != kv.first.second) {
+            return false;
         }
-    } else {
-        throw logic_error("not yet implemented");
     }
-	return result;
+    return true;
 }
 
-vector<double> ScalarSpring::asMassVector(bool addRotationsIfNotPresent) const {
-	vector<double> result;
-	char ncomp = (addRotationsIfNotPresent || hasRotations()) ? 6 : 3;
+vector<double> ScalarSpring::asVector(const double value, bool addRotationsIfNotPresent) const {
+    vector<double> result;
+    const size_t ncomp = (addRotationsIfNotPresent || hasRotations()) ? 6 : 3;
 
     if (isDiagonal()) {
-        result.insert(result.end(), ncomp, mass);
-    } else if (isSymmetric()) {
-        int max_row_element_index = 0;
-        for (int colindex = 0; colindex < 2; ++colindex) {
-            for (char coldof = 0; coldof < ncomp; coldof++) {
-                max_row_element_index++;
-                int row_element_index = 0;
-                for (int rowindex = 0; rowindex < 2; ++rowindex) {
-                    for (char rowdof = 0; rowdof < ncomp; rowdof++) {
-                        row_element_index++;
-                        if (row_element_index > max_row_element_index) {
-                            break;
-                        }
-                        result.push_back(mass);
-                    }
-                }
-            }
+        // one value by relative displacement
+        result.resize(ncomp, 0.0);
+        for (const auto& kv : this->cellpositionByDOFS) {
+            result[kv.first.first.position] = value;
         }
     } else {
-        throw logic_error("not yet implemented");
+        // upper triangular columns of the matrix of both nodes
+        vector<vector<double>> matrix(2 * ncomp, vector<double>(2 * ncomp, 0.0));
+        for (const auto& kv : this->cellpositionByDOFS) {
+            const size_t dofA = kv.first.first.position;
+            const size_t dofB = ncomp + kv.first.second.position;
+            matrix[dofA][dofA] += value;
+            matrix[dofB][dofB] += value;
+            matrix[dofA][dofB] -= value;
+        }
+        for (size_t col = 0; col < 2 * ncomp; ++col) {
+            for (size_t row = 0; row <= col; ++row) {
+                result.push_back(matrix[row][col]);
+            }
+        }
     }
-	return result;
+    return result;
+}
+
+vector<double> ScalarSpring::asStiffnessVector(bool addRotationsIfNotPresent) const {
+    return asVector(hasStiffness() ? stiffness : 0.0, addRotationsIfNotPresent);
+}
+
+vector<double> ScalarSpring::asDampingVector(bool addRotationsIfNotPresent) const {
+    return asVector(hasDamping() ? damping : 0.0, addRotationsIfNotPresent);
+}
+
+vector<double> ScalarSpring::asMassVector(bool addRotationsIfNotPresent) const {
+    return asVector(hasMass() ? mass : 0.0, addRotationsIfNotPresent);
 }
 
 } /* namespace vega */
diff --git a/Abstract/Element.h b/Abstract/Element.h
index 0f286c5..cc9c45f 100644
--- a/Abstract/Element.h
+++ b/Abstract/Element.h
@@ -664,6 +664,7 @@ private:
     double stiffness = 0.0;
     double damping = 0.0;
     double mass = 0.0;
+    std::vector<double> asVector(const double value, bool addRotationsIfNotPresent) const;
 public:
     ScalarSpring(Model&, int original_id = NO_ORIGINAL_ID, double stiffness = 0.0, double damping = 0.0, double mass = 0.0);
     double getStiffness() const;
@@ -678,9 +679,7 @@ public:
     bool hasMass() const override;
 	bool hasTranslations() const override;
 	bool hasRotations() const override;
-	bool isDiagonal() const override {
-	    return true;
-	}
+	bool isDiagonal() const override;
 	bool isSymmetric() const override {
 	    return true;
 	}
diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 4eea1f6..027de72 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1946,7 +1946,7 @@ void Model::splitElementsByDOFS(){
                 cout<< *elementSet << " spring must be split."<<endl;
             for (const auto & it : ss->getCellPositionByDOFS()){
                 const auto& scalarSpring = make_shared<ScalarSpring>(*this, Identifiable<ElementSet>::NO_ORIGINAL_ID, stiffness, damping);
-                const auto& cellGroup = this->mesh.createCellGroup(ss->name+"_"+to_string(i), Group::NO_ORIGINAL_ID);
+                const auto& cellGroup = this->mesh.createCellGroup("SPRING_"+to_string(ss->getId())+"_"+to_string(i), Group::NO_ORIGINAL_ID, "created by splitElementsByDOFS()");
                 scalarSpring->add(*cellGroup);
                 for (const auto cellPosition : it.second){
                     scalarSpring->addSpring(cellPosition, it.first.first, it.first.second);
@@ -1956,7 +1956,6 @@ void Model::splitElementsByDOFS(){
                 i++;
             }
             elementSetsToRemove.push_back(elementSet);
-            this->mesh.removeGroup(name);
         }
     }
 
-- 
2.43.0


From cbc508db103b90da563f8331334d9fb24169a181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:21 +0000
Subject: [PATCH 085/139] fix: WTMASS applies to the inertias of nodal masses

---
 Abstract/Element.cpp    | 8 ++++++--
 Abstract/Element.h      | 5 +++++
 Aster/AsterWriter.cpp   | 8 +++++---
 Systus/SystusWriter.cpp | 5 +++--
 4 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index c908971..a618791 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -941,13 +941,17 @@ NodalMass::NodalMass(Model& model, double m, double ixx, double iyy, double izz,
 				ixy), iyz(iyz), ixz(ixz), ex(ex), ey(ey), ez(ez) {
 }
 
-double NodalMass::getMass() const {
+double NodalMass::getMassMultiplier() const {
 	double mass_multiplier = 1.0;
 	if (model.contains(ModelParameter::MASS_OVER_FORCE_MULTIPLIER)) {
 		mass_multiplier = stod(model.getParameter(ModelParameter::MASS_OVER_FORCE_MULTIPLIER));
 		assert(!is_zero(mass_multiplier));
 	}
-	return m * mass_multiplier;
+	return mass_multiplier;
+}
+
+double NodalMass::getMass() const {
+	return m * getMassMultiplier();
 }
 
 bool NodalMass::hasTranslations() const {
diff --git a/Abstract/Element.h b/Abstract/Element.h
index cc9c45f..981d1bd 100644
--- a/Abstract/Element.h
+++ b/Abstract/Element.h
@@ -525,6 +525,11 @@ class NodalMass: public CellElementSet {
 	NodalMass(Model&, double m = 0, double ixx = 0, double iyy = 0, double izz = 0, double ixy = 0,
 			double iyz = 0, double ixz = 0, double ex = 0, double ey = 0, double ez = 0,
 			int original_id = NO_ORIGINAL_ID);
+	/**
+	 * Get the factor from the masses and inertias given to kg
+	 */
+	double getMassMultiplier() const;
+
 	/**
 	 * Get mass (in kg)
 	 */
diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index a7b6adc..d2776fa 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1225,10 +1225,12 @@ void AsterWriter::writeAffeCaraElem() {
 					writeCellContainer(static_pointer_cast<CellContainer>(nodalMass));
 					comm_file_ofs << endl;
 					if (nodalMass->hasRotations()) {
+                        const double multiplier = nodalMass->getMassMultiplier();
                         comm_file_ofs << "                                CARA='M_TR_D_N',VALE=("
-                                << nodalMass->getMass() << "," << nodalMass->ixx << ","
-                                << nodalMass->iyy << "," << nodalMass->izz << "," << nodalMass->ixy
-                                << "," << nodalMass->iyz << "," << nodalMass->ixz << ","
+                                << nodalMass->getMass() << "," << nodalMass->ixx * multiplier << ","
+                                << nodalMass->iyy * multiplier << "," << nodalMass->izz * multiplier << ","
+                                << nodalMass->ixy * multiplier << "," << nodalMass->iyz * multiplier << ","
+                                << nodalMass->ixz * multiplier << ","
                                 << nodalMass->ex << "," << nodalMass->ey << "," << nodalMass->ez
                                 << "),)," << endl;
 					} else {
diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 80150bd..d165bfe 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -3086,9 +3086,10 @@ void SystusWriter::writeMasses(const SystusModel &systusModel, ostream& out) {
                 handleWritingWarning("Offset not implemented and dismissed.");
             }
             if (!is_zero(nodalMass->ixx) || !is_zero(nodalMass->iyy) || !is_zero(nodalMass->izz)){
+                const double multiplier = nodalMass->getMassMultiplier();
                 out << "VALUES 6 " << nodalMass->getMass() << " " << nodalMass->getMass() << " "
-                        << nodalMass->getMass() << " " << nodalMass->ixx << " " << nodalMass->iyy
-                        << " " << nodalMass->izz;
+                        << nodalMass->getMass() << " " << nodalMass->ixx * multiplier << " " << nodalMass->iyy * multiplier
+                        << " " << nodalMass->izz * multiplier;
             }else{
                 out << "VALUES 3 " << nodalMass->getMass() << " " << nodalMass->getMass() << " "
                         << nodalMass->getMass();
-- 
2.43.0


From a33093d48fae28beab2aef6025537b510da5a7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:21 +0000
Subject: [PATCH 086/139] fix: nodal masses with an offset have rotations

---
 Abstract/Element.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index a618791..202d55e 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -959,7 +959,8 @@ bool NodalMass::hasTranslations() const {
 }
 
 bool NodalMass::hasRotations() const {
-	return (not is_zero(ixx) or not is_zero(iyy) or not is_zero(izz) or not is_zero(ixy) or not is_zero(iyz) or not is_zero(ixz));
+	return (not is_zero(ixx) or not is_zero(iyy) or not is_zero(izz) or not is_zero(ixy) or not is_zero(iyz) or not is_zero(ixz)
+			or not is_zero(ex) or not is_zero(ey) or not is_zero(ez));
 }
 
 DOFS NodalMass::getDOFSForNode(const pos_t nodePosition) const {
-- 
2.43.0


From 078569797e84ce73320736ae24d771484529fd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:21 +0000
Subject: [PATCH 087/139] fix: direct matrices are written with all of their
 blocks and freedoms

---
 Abstract/Model.cpp | 49 +++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 027de72..9048e6b 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1183,7 +1183,9 @@ void Model::replaceDirectMatrices()
         }
         const auto& matrix = static_pointer_cast<MatrixElement>(elementSetM);
         for (const auto nodePosition : matrix->nodePositions()) {
-            requiredDofsByNode[nodePosition] = DOFS();
+            if (not requiredDofsByNode.insert({nodePosition, DOFS()}).second) {
+                continue; // already seen with another matrix
+            }
             const int nodeId = mesh.findNodeId(nodePosition);
             DOFS owned;
             for (const auto elementSetI : elementSets) {
@@ -1196,6 +1198,10 @@ void Model::replaceDirectMatrices()
                         if (cellNodeId == nodeId) {
                             if (elementSetI->isBeam() or elementSetI->isShell()) {
                                 owned += DOFS::ALL_DOFS;
+                            } else if (elementSetI->isDiscrete() and static_pointer_cast<Discrete>(elementSetI)->hasRotations()) {
+                                owned += DOFS::ALL_DOFS;
+                            } else if (elementSetI->type == ElementSet::Type::NODAL_MASS) {
+                                owned += elementSetI->getDOFSForNode(nodePosition);
                             } else {
                                 owned += DOFS::TRANSLATIONS;
                             }
@@ -1214,7 +1220,7 @@ void Model::replaceDirectMatrices()
                 // single node
                 const auto nodePosition = pair.first;
                 const int nodeId = mesh.findNodeId(nodePosition);
-                DOFS requiredDofs = requiredDofsByNode.find(nodePosition)->second;
+                DOFS& requiredDofs = requiredDofsByNode.find(nodePosition)->second;
                 const auto& submatrix = matrix->findSubmatrix(nodePosition, nodePosition);
                 const auto& discrete = make_shared<DiscretePoint>(*this, submatrix->matrixType);
                 for (const auto& kv : submatrix->componentByDofs) {
@@ -1248,13 +1254,13 @@ void Model::replaceDirectMatrices()
                 const auto& matrixGroup = mesh.createCellGroup(
                         "MTN" + to_string(matrix_count), Group::NO_ORIGINAL_ID, oss.str());
                 discrete->add(*matrixGroup);
-                const auto cellPosition = mesh.addCell(Cell::AUTO_ID, CellType::SEG2, { nodeId }, true);
+                const auto cellPosition = mesh.addCell(Cell::AUTO_ID, CellType::POINT1, { nodeId }, true);
                 matrixGroup->addCellPosition(cellPosition);
                 if (discrete->hasRotations()) {
-                    addedDofsByNode[nodePosition] = DOFS::ALL_DOFS;
+                    addedDofsByNode[nodePosition] += DOFS::ALL_DOFS;
                     mesh.allowDOFS(nodePosition, DOFS::ALL_DOFS);
                 } else {
-                    addedDofsByNode[nodePosition] = DOFS::TRANSLATIONS;
+                    addedDofsByNode[nodePosition] += DOFS::TRANSLATIONS;
                     mesh.allowDOFS(nodePosition, DOFS::TRANSLATIONS);
                 }
                 if (this->configuration.logLevel >= LogLevel::DEBUG) {
@@ -1268,8 +1274,6 @@ void Model::replaceDirectMatrices()
                 const auto colNodePosition = pair.second;
                 const int rowNodeId = mesh.findNodeId(rowNodePosition);
                 const int colNodeId = mesh.findNodeId(colNodePosition);
-                DOFS requiredRowDofs = requiredDofsByNode.find(rowNodePosition)->second;
-                DOFS requiredColDofs = requiredDofsByNode.find(colNodePosition)->second;
 
                 const auto& discrete = make_shared<DiscreteSegment>(*this, matrix->matrixType);
                 ostringstream oss;
@@ -1284,17 +1288,6 @@ void Model::replaceDirectMatrices()
                     discrete->assignMaterial(getVirtualMaterial());
                 }
                 discrete->add(*matrixGroup);
-                if (discrete->hasRotations()) {
-                    addedDofsByNode[rowNodePosition] = DOFS::ALL_DOFS;
-                    mesh.allowDOFS(rowNodePosition, DOFS::ALL_DOFS);
-                    addedDofsByNode[colNodePosition] = DOFS::ALL_DOFS;
-                    mesh.allowDOFS(colNodePosition, DOFS::ALL_DOFS);
-                } else {
-                    addedDofsByNode[rowNodePosition] = DOFS::TRANSLATIONS;
-                    mesh.allowDOFS(rowNodePosition, DOFS::TRANSLATIONS);
-                    addedDofsByNode[colNodePosition] = DOFS::TRANSLATIONS;
-                    mesh.allowDOFS(colNodePosition, DOFS::TRANSLATIONS);
-                }
                 for (int row_index = 0; row_index < 2; ++row_index) {
                     for (int col_index = 0; col_index < 2; ++col_index) {
                         pos_t rowNodePosition2;
@@ -1312,8 +1305,9 @@ void Model::replaceDirectMatrices()
                         shared_ptr<const DOFMatrix> submatrix = matrix->findSubmatrix(rowNodePosition2,
                                 colNodePosition2);
                         for (const auto& kv : submatrix->componentByDofs) {
-                            // We are disassembling the matrix, so we must divide the value by the segments
-                            double value = kv.second / static_cast<int>(matrix->findInPairs(pair.first).size());
+                            // We are disassembling the matrix, so we must divide the terms of a node by its segments
+                            const double value = rowNodePosition2 == colNodePosition2 ?
+                                    kv.second / static_cast<int>(matrix->findInPairs(rowNodePosition2).size()) : kv.second;
                             const DOF& rowDof = kv.first.first;
                             const DOF& colDof = kv.first.second;
                             if (!is_equal(value, 0)) {
@@ -1333,12 +1327,23 @@ void Model::replaceDirectMatrices()
                                 default:
                                     throw logic_error("Not yet implemented");
                                 }
-                                requiredRowDofs += rowDof;
-                                requiredColDofs += colDof;
+                                requiredDofsByNode[rowNodePosition2] += rowDof;
+                                requiredDofsByNode[colNodePosition2] += colDof;
                             }
                         }
                     }
                 }
+                if (discrete->hasRotations()) {
+                    addedDofsByNode[rowNodePosition] += DOFS::ALL_DOFS;
+                    mesh.allowDOFS(rowNodePosition, DOFS::ALL_DOFS);
+                    addedDofsByNode[colNodePosition] += DOFS::ALL_DOFS;
+                    mesh.allowDOFS(colNodePosition, DOFS::ALL_DOFS);
+                } else {
+                    addedDofsByNode[rowNodePosition] += DOFS::TRANSLATIONS;
+                    mesh.allowDOFS(rowNodePosition, DOFS::TRANSLATIONS);
+                    addedDofsByNode[colNodePosition] += DOFS::TRANSLATIONS;
+                    mesh.allowDOFS(colNodePosition, DOFS::TRANSLATIONS);
+                }
                 if (this->configuration.logLevel >= LogLevel::TRACE) {
                     cout << "Creating discrete : " << *discrete << " over node ids : "
                             << to_string(rowNodeId) << " and : " << to_string(colNodeId) << endl;
-- 
2.43.0


From 161dc38e2a472f259adb2490b4c978af8758043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:21 +0000
Subject: [PATCH 088/139] fix: CONM1 rows with blanks and the last row were
 misread

---
 Nastran/NastranParser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 04dce66..277aa3b 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1220,14 +1220,14 @@ void NastranParser::parseCONM1(NastranTokenizer& tok, Model& model) {
 
     const auto& nodalMassMatrix = make_shared<DiscretePoint>(model, MatrixType::SYMMETRIC, eid);
 
-    for (dof_int row = 0; row < 5; row++) {
+    for (dof_int row = 0; row < 6; row++) {
         const DOF rowdof = DOF::findByPosition(row);
         for (dof_int col = 0; col <= row; col++) {
             const DOF coldof = DOF::findByPosition(col);
-            if (!tok.isNextDouble()) {
-                break;
+            const double mass = tok.nextDouble(true, 0.0);
+            if (not is_zero(mass)) {
+                nodalMassMatrix->addMass(rowdof, coldof, mass);
             }
-            nodalMassMatrix->addMass(rowdof, coldof, tok.nextDouble(true, 0.0));
         }
     }
 
-- 
2.43.0


From e808563f7028ae46f72ee302d1324d896eae53d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:21 +0000
Subject: [PATCH 089/139] fix: CONM2 products of inertia I31 and I32 were
 exchanged

---
 Nastran/NastranParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 277aa3b..4b559cc 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1263,7 +1263,7 @@ void NastranParser::parseCONM2(NastranTokenizer& tok, Model& model) {
     const double i32 = tok.nextDouble(true, 0.0);
     const double i33 = tok.nextDouble(true, 0.0);
 
-    const auto& nodalMass = make_shared<NodalMass>(model, mass, i11, i22, i33, -i21, -i31, -i32, x1, x2, x3, eid);
+    const auto& nodalMass = make_shared<NodalMass>(model, mass, i11, i22, i33, -i21, -i32, -i31, x1, x2, x3, eid);
 
     const pos_t cpos = ci == 0 ? CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID : model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, ci));
     const auto cellPosition = model.mesh.addCell(eid, CellType::POINT1, { g }, false, cpos);
-- 
2.43.0


From 01ff3ce3ae607ebdde9742cdc5b2152d09614e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:21 +0000
Subject: [PATCH 090/139] fix: PBUSH cards with trailing blank fields were
 rejected

---
 Nastran/NastranParser.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 4b559cc..44905b5 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2472,42 +2472,42 @@ void NastranParser::parsePBUSH(NastranTokenizer& tok, Model& model) {
         tok.skipToNotEmpty();
         string flag = tok.nextString();
         if (flag=="K") { // Stiffness values (Default 0.0)
-            if (tok.isNextDouble() or tok.isNextEmpty())
+            if (tok.isNextDouble() or tok.isNextEmpty() or tok.isEmptyUntilNextKeyword())
                 k1=tok.nextDouble(true, 0.0);
             else
                 if (tok.nextString() == "RIGID")
                     k1 = DBL_MAX;
                 else
                     handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
+            if (tok.isNextDouble() or tok.isNextEmpty() or tok.isEmptyUntilNextKeyword())
                 k2=tok.nextDouble(true, 0.0);
             else
                 if (tok.nextString() == "RIGID")
                     k2 = DBL_MAX;
                 else
                     handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
+            if (tok.isNextDouble() or tok.isNextEmpty() or tok.isEmptyUntilNextKeyword())
                 k3=tok.nextDouble(true, 0.0);
             else
                 if (tok.nextString() == "RIGID")
                     k3 = DBL_MAX;
                 else
                     handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
+            if (tok.isNextDouble() or tok.isNextEmpty() or tok.isEmptyUntilNextKeyword())
                 k4=tok.nextDouble(true, 0.0);
             else
                 if (tok.nextString() == "RIGID")
                     k4 = DBL_MAX;
                 else
                     handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
+            if (tok.isNextDouble() or tok.isNextEmpty() or tok.isEmptyUntilNextKeyword())
                 k5=tok.nextDouble(true, 0.0);
             else
                 if (tok.nextString() == "RIGID")
                     k5 = DBL_MAX;
                 else
                     handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
+            if (tok.isNextDouble() or tok.isNextEmpty() or tok.isEmptyUntilNextKeyword())
                 k6=tok.nextDouble(true, 0.0);
             else
                 if (tok.nextString() == "RIGID")
-- 
2.43.0


From c86d985ad1f8649f707bec1a50556db7e75365b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:21 +0000
Subject: [PATCH 091/139] fix: identifiers of properties and of scalar elements
 are kept apart

---
 Nastran/NastranParser.cpp          | 4 ++--
 Nastran/NastranParser_geometry.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 44905b5..8c903d7 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2666,7 +2666,7 @@ void NastranParser::parsePDAMP(NastranTokenizer& tok, Model& model) {
         const double b = tok.nextDouble(true, 0.0);
 
         const auto& cellGroup = getOrCreateCellGroup(pid, model, "PDAMP");
-        const auto& elementSet = model.elementSets.find(pid);
+        const auto& elementSet = model.elementSets.find(Reference<ElementSet>(ElementSet::Type::SCALAR_SPRING, pid));
         if (elementSet == nullptr){
             const auto& scalarSpring = make_shared<ScalarSpring>(model, pid, Globals::UNAVAILABLE_DOUBLE, b);
             scalarSpring->add(*cellGroup);
@@ -2746,7 +2746,7 @@ void NastranParser::parsePELAS(NastranTokenizer& tok, Model& model) {
         }
 
         const auto& cellGroup = getOrCreateCellGroup(pid, model, "PELAS");
-        const auto& elementSet = model.elementSets.find(pid);
+        const auto& elementSet = model.elementSets.find(Reference<ElementSet>(ElementSet::Type::SCALAR_SPRING, pid));
         if (elementSet == nullptr){
             const auto& scalarSpring = make_shared<ScalarSpring>(model, pid, k, ge);
             scalarSpring->add(*cellGroup);
diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index fa8884a..6a92ef3 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -313,7 +313,7 @@ void NastranParser::parseCDAMP1(NastranTokenizer& tok, Model& model) {
     cellGroup->addCellPosition(cellPosition);
 
     // Creates or update the ElementSet defined by the PELAS key.
-    const auto& elementSet = model.elementSets.find(pid);
+    const auto& elementSet = model.elementSets.find(Reference<ElementSet>(ElementSet::Type::SCALAR_SPRING, pid));
     if (elementSet == nullptr){
         const auto& scalarSpring = make_shared<ScalarSpring>(model, pid);
         scalarSpring->add(*cellGroup);
@@ -355,7 +355,7 @@ void NastranParser::parseCELAS1(NastranTokenizer& tok, Model& model) {
     cellGroup->addCellPosition(cellPosition);
 
     // Creates or update the ElementSet defined by the PELAS key.
-    const auto& elementSet = model.elementSets.find(pid);
+    const auto& elementSet = model.elementSets.find(Reference<ElementSet>(ElementSet::Type::SCALAR_SPRING, pid));
     if (elementSet == nullptr){
         const auto& scalarSpring = make_shared<ScalarSpring>(model, pid);
         scalarSpring->add(*cellGroup);
@@ -395,7 +395,7 @@ void NastranParser::parseCELAS2(NastranTokenizer& tok, Model& model) {
     springGroup->addCellPosition(cellPosition);
 
     // Create ElementSet
-    const auto& scalarSpring = make_shared<ScalarSpring>(model, eid, k ,ge);
+    const auto& scalarSpring = make_shared<ScalarSpring>(model, ElementSet::NO_ORIGINAL_ID, k ,ge);
     scalarSpring->add(*springGroup);
     scalarSpring->addSpring(cellPosition, DOF::findByPosition(c1), DOF::findByPosition(c2));
     model.add(scalarSpring);
@@ -415,7 +415,7 @@ void NastranParser::parseCELAS4(NastranTokenizer& tok, Model& model) {
     springGroup->addCellPosition(cellPosition);
 
     // Create ElementSet
-    const auto& scalarSpring = make_shared<ScalarSpring>(model, eid, k);
+    const auto& scalarSpring = make_shared<ScalarSpring>(model, ElementSet::NO_ORIGINAL_ID, k);
     scalarSpring->add(*springGroup);
     scalarSpring->addSpring(cellPosition, DOF::DX, DOF::DX);
     model.add(scalarSpring);
-- 
2.43.0


From 77dc8bf1382234dcd8d7570110e208b9e8d4310d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:21 +0000
Subject: [PATCH 092/139] fix: scalar springs and bushes connected to the
 ground

---
 Nastran/NastranParser_geometry.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index 6a92ef3..96e3cb8 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -278,11 +278,16 @@ void NastranParser::parseCBUSH(NastranTokenizer& tok, Model& model) {
     }
 
     // Add cell
+    // If GB is undefined, it is considered a fictitious grounded point
     if (gb == Globals::UNAVAILABLE_INT){
-        model.mesh.addCell(eid, CellType::POINT1, {ga}, false, cpos, pid);
-    }else{
-        model.mesh.addCell(eid, CellType::SEG2, {ga, gb}, false, cpos, pid);
+        const auto& spc = make_shared<SinglePointConstraint>(model, DOFS::ALL_DOFS, 0.0);
+        const auto nodePosition = model.mesh.addNode(Node::AUTO_ID, 0.0, 0.0, 0.0);
+        gb = model.mesh.findNodeId(nodePosition);
+        spc->addNodeId(gb);
+        model.add(spc);
+        model.addConstraintIntoConstraintSet(*spc, *model.commonConstraintSet);
     }
+    model.mesh.addCell(eid, CellType::SEG2, {ga, gb}, false, cpos, pid);
     addProperty(tok, pid, eid, model);
 }
 
@@ -293,7 +298,7 @@ void NastranParser::parseCDAMP1(NastranTokenizer& tok, Model& model) {
     int pid = tok.nextInt();
     int g1 = tok.nextInt();
     dof_int c1 = parseDOF(tok,model);
-    int g2 = tok.nextInt();
+    int g2 = tok.nextInt(true);
     dof_int c2 = parseDOF(tok,model,true);
 
     // Creates cell
@@ -306,6 +311,7 @@ void NastranParser::parseCDAMP1(NastranTokenizer& tok, Model& model) {
         g2 = model.mesh.findNodeId(nodePosition);
         spc->addNodeId(g2);
         model.add(spc);
+        model.addConstraintIntoConstraintSet(*spc, *model.commonConstraintSet);
     }
 
     const auto cellPosition= model.mesh.addCell(eid, CellType::SEG2, {g1, g2}, false, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID, pid);
@@ -349,6 +355,7 @@ void NastranParser::parseCELAS1(NastranTokenizer& tok, Model& model) {
         g2 = model.mesh.findNodeId(nodePosition);
         spc->addNodeId(g2);
         model.add(spc);
+        model.addConstraintIntoConstraintSet(*spc, *model.commonConstraintSet);
     }
     const auto cellPosition= model.mesh.addCell(eid, cellType, {g1, g2}, false, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID, pid);
     const auto& cellGroup = getOrCreateCellGroup(pid, model, "CELAS1");
@@ -377,8 +384,8 @@ void NastranParser::parseCELAS2(NastranTokenizer& tok, Model& model) {
     double k = tok.nextDouble();
     int g1 = tok.nextInt();
     dof_int c1 = parseDOF(tok,model);
-    int g2 = tok.nextInt();
-    dof_int c2 = parseDOF(tok,model);
+    int g2 = tok.nextInt(true);
+    dof_int c2 = parseDOF(tok,model,true);
     double ge = tok.nextDouble(true, 0.0);
 
     // S is only used for post-treatment, and so discarded.
@@ -389,6 +396,17 @@ void NastranParser::parseCELAS2(NastranTokenizer& tok, Model& model) {
         }
     }
 
+    // If G2 is undefined, it is considered a fictitious grounded point, and c2=c1
+    if (g2 == Globals::UNAVAILABLE_INT or g2 == 0){
+        c2= c1;
+        const auto& spc = make_shared<SinglePointConstraint>(model, DOFS::ALL_DOFS, 0.0);
+        const auto nodePosition = model.mesh.addNode(Node::AUTO_ID, 0.0, 0.0, 0.0);
+        g2 = model.mesh.findNodeId(nodePosition);
+        spc->addNodeId(g2);
+        model.add(spc);
+        model.addConstraintIntoConstraintSet(*spc, *model.commonConstraintSet);
+    }
+
     // Create a Cell and a cellgroup
     const auto& springGroup = model.mesh.createCellGroup("CELAS2_" + to_string(eid), Group::NO_ORIGINAL_ID, "CELAS2");
     const auto cellPosition= model.mesh.addCell(eid, CellType::SEG2, {g1, g2});
-- 
2.43.0


From 2a725881ee852733ac416f3660a1cda6c3dc3be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:21 +0000
Subject: [PATCH 093/139] fix: CMASS2 couples its two freedoms

---
 Nastran/NastranParser_geometry.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index 96e3cb8..fb59955 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -509,10 +509,16 @@ void NastranParser::parseCMASS2(NastranTokenizer& tok, Model& model) {
     double m = tok.nextDouble();
     int g1 = tok.nextInt();
     dof_int c1 = parseDOF(tok, model); // Nastran coordinate goes from 1 to 6, VEGA from 0 to 5.
-    int g2 = tok.nextInt();
-    dof_int c2 = parseDOF(tok, model); // Nastran coordinate goes from 1 to 6, VEGA from 0 to 5.
+    int g2 = tok.nextInt(true);
+    dof_int c2 = parseDOF(tok, model, true); // Nastran coordinate goes from 1 to 6, VEGA from 0 to 5.
     const auto& matrix = make_shared<MassMatrix>(model, MatrixType::SYMMETRIC, eid);
-    matrix->addComponent(g1, DOF::findByPosition(c1), g2, DOF::findByPosition(c2), m);
+    const DOF dof1 = DOF::findByPosition(c1);
+    matrix->addComponent(g1, dof1, g1, dof1, m);
+    if (g2 != Globals::UNAVAILABLE_INT and g2 != 0) {
+        const DOF dof2 = DOF::findByPosition(c2);
+        matrix->addComponent(g2, dof2, g2, dof2, m);
+        matrix->addComponent(g1, dof1, g2, dof2, -m);
+    }
     model.add(matrix);
 }
 
-- 
2.43.0


From d0fd438f061d8778277adb27c2a1405e529dab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:50 +0000
Subject: [PATCH 094/139] fix: constraints on rotations that the discrete
 elements of a node lack

---
 Abstract/Model.cpp | 54 ++++++++++++++++++++++++++++++++++++++++------
 Abstract/Model.h   |  2 ++
 2 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 9048e6b..6ab9ad4 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -639,8 +639,48 @@ set<shared_ptr<LoadSet>, ptrLess<LoadSet>> Model::getUncommonLoadSets() const {
     return result;
 }
 
+map<pos_t, DOFS> Model::findDiscreteDOFS() const {
+    map<pos_t, DOFS> dofsByNode;
+    for (const auto& elementSet : elementSets) {
+        if (not elementSet->isDiscrete())
+            continue;
+        if (elementSet->type == ElementSet::Type::SCALAR_SPRING) {
+            const auto& spring = static_pointer_cast<ScalarSpring>(elementSet);
+            for (const auto& kv : spring->getCellPositionByDOFS()) {
+                const bool rotation = kv.first.first.isRotation or kv.first.second.isRotation;
+                for (const pos_t cellPosition : kv.second) {
+                    for (const pos_t nodePosition : mesh.findCell(cellPosition).nodePositions) {
+                        dofsByNode[nodePosition] += rotation ? DOFS::ALL_DOFS : DOFS::TRANSLATIONS;
+                    }
+                }
+            }
+        } else {
+            const auto& discrete = static_pointer_cast<Discrete>(elementSet);
+            for (const pos_t nodePosition : discrete->nodePositions()) {
+                dofsByNode[nodePosition] += discrete->hasRotations() ? DOFS::ALL_DOFS : DOFS::TRANSLATIONS;
+            }
+        }
+    }
+    if (dofsByNode.empty())
+        return dofsByNode;
+
+    for (const auto& elementSet : elementSets) {
+        if (elementSet->isDiscrete())
+            continue;
+        for (const pos_t nodePosition : elementSet->nodePositions()) {
+            const auto& it = dofsByNode.find(nodePosition);
+            if (it != dofsByNode.end())
+                it->second += elementSet->getDOFSForNode(nodePosition);
+        }
+    }
+    return dofsByNode;
+}
+
 void Model::generateDiscrets() {
 
+    // nodes of discrete elements own the freedoms of their modelling only
+    const map<pos_t, DOFS>& discreteDOFS = findDiscreteDOFS();
+
     //rigid constraints
     shared_ptr<CellGroup> virtualDiscretTRGroup = nullptr;
 
@@ -649,12 +689,14 @@ void Model::generateDiscrets() {
     // LD TODO : possible optimisation, only "altered nodes" (nodes with rotations, nodes with boundary conditions)
     for (const Node& node : this->mesh.nodes) {
         DOFS missingDOFS;
+        const auto& discreteIt = discreteDOFS.find(node.position);
+        const DOFS ownedDOFS = discreteIt == discreteDOFS.end() ? node.dofs : discreteIt->second;
 
         for (const auto& analysis : analyses) {
 
             const DOFS& requiredDOFS = analysis->findBoundaryDOFS(node.position);
-            if (!node.dofs.containsAll(requiredDOFS)) {
-                missingDOFS += requiredDOFS - node.dofs;
+            if (!ownedDOFS.containsAll(requiredDOFS)) {
+                missingDOFS += requiredDOFS - ownedDOFS;
             }
         }
 
@@ -662,7 +704,7 @@ void Model::generateDiscrets() {
         if (not missingDOFS.empty()) {
             if (missingDOFS.containsAnyOf(DOFS::ROTATIONS)) {
                 //extra dofs added by the DISCRET. They need to be blocked.
-                addedDOFS = DOFS::ALL_DOFS - node.dofs - missingDOFS;
+                addedDOFS = DOFS::ALL_DOFS - ownedDOFS - missingDOFS;
                 if (virtualDiscretTRGroup == nullptr) {
                     const auto& virtualDiscretTR = make_shared<DiscretePoint>(*this, MatrixType::DIAGONAL);
                     for (DOF dof: DOFS::ALL_DOFS) {
@@ -684,7 +726,7 @@ void Model::generateDiscrets() {
                         true);
                 virtualDiscretTRGroup->addCellPosition(cellPosition);
             } else {
-                addedDOFS = DOFS::TRANSLATIONS - node.dofs - missingDOFS;
+                addedDOFS = DOFS::TRANSLATIONS - ownedDOFS - missingDOFS;
                 if (virtualDiscretTGroup == nullptr) {
                     const auto& virtualDiscretT = make_shared<DiscretePoint>(*this, MatrixType::DIAGONAL);
                     for (DOF dof: DOFS::TRANSLATIONS) {
@@ -710,8 +752,8 @@ void Model::generateDiscrets() {
             shared_ptr<ConstraintSet> spcSet = nullptr;
 
             const DOFS& requiredDOFS = analysis->findBoundaryDOFS(node.position);
-            if (!node.dofs.containsAll(requiredDOFS)) {
-                const DOFS& extraDOFS = addedDOFS - requiredDOFS - node.dofs;
+            if (!ownedDOFS.containsAll(requiredDOFS)) {
+                const DOFS& extraDOFS = addedDOFS - requiredDOFS - ownedDOFS;
 
                 if (extraDOFS != DOFS::NO_DOFS) {
                     if (spcSet == nullptr) {
diff --git a/Abstract/Model.h b/Abstract/Model.h
index e3c551f..77e46e5 100644
--- a/Abstract/Model.h
+++ b/Abstract/Model.h
@@ -51,6 +51,8 @@ class Model final {
 private:
     std::shared_ptr<Material> virtualMaterial = nullptr;
     void generateDiscrets();
+    /** Freedoms of the nodes of discrete elements, as their modelling gives them */
+    std::map<pos_t, DOFS> findDiscreteDOFS() const;
     void generateSkin();
     void emulateLocalDisplacementConstraint();
     void emulateAdditionalMass();
-- 
2.43.0


From 053d3176bd924c6da4665f4ac3250984da445110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:01 +0000
Subject: [PATCH 095/139] fix: empty damping and amplitude tables and springs
 without direction crashed the Systus output

---
 Abstract/Element.cpp    | 5 +++++
 Abstract/Element.h      | 4 +---
 Systus/SystusDat.cpp    | 2 ++
 Systus/SystusWriter.cpp | 4 ++++
 4 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index 202d55e..eedaa48 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -1339,6 +1339,11 @@ bool ScalarSpring::isDiagonal() const {
     return true;
 }
 
+bool ScalarSpring::validate() const {
+    // cells which are not springs have no direction
+    return empty() or not this->cellpositionByDOFS.empty();
+}
+
 vector<double> ScalarSpring::asVector(const double value, bool addRotationsIfNotPresent) const {
     vector<double> result;
     const size_t ncomp = (addRotationsIfNotPresent || hasRotations()) ? 6 : 3;
diff --git a/Abstract/Element.h b/Abstract/Element.h
index 981d1bd..d5869c3 100644
--- a/Abstract/Element.h
+++ b/Abstract/Element.h
@@ -699,9 +699,7 @@ public:
     std::vector<double> asStiffnessVector(bool addRotationsIfNotPresent = false) const override final;
     std::vector<double> asMassVector(bool addRotationsIfNotPresent = false) const override final;
     std::vector<double> asDampingVector(bool addRotationsIfNotPresent = false) const override final;
-    bool validate() const override {
-        return true;
-    }
+    bool validate() const override;
     std::unique_ptr<ElementSet> clone() const override;
 };
 
diff --git a/Systus/SystusDat.cpp b/Systus/SystusDat.cpp
index 31035ba..ab5ef17 100644
--- a/Systus/SystusDat.cpp
+++ b/Systus/SystusDat.cpp
@@ -52,6 +52,8 @@ void SystusWriter::writeModalDamping(std::ostream& out, const shared_ptr<ModalDa
     shared_ptr<FunctionTable> modalDampingTable = modalDamping->getFunctionTable();
     if ((modalDampingTable->getParaX()!=Function::ParaName::FREQ) || (modalDampingTable->getParaY()!=Function::ParaName::AMOR)) {
         handleWritingWarning("Dismissing damping table with wrong units ("+to_string(static_cast<int>(modalDampingTable->getParaY()))+"/"+to_string(static_cast<int>(modalDampingTable->getParaX()))+")", "Analysis file");
+    } else if (modalDampingTable->getBeginValuesXY() == modalDampingTable->getEndValuesXY()) {
+        handleWritingWarning("Dismissing damping table without values", "Analysis file");
     } else {
         double firstDamping = modalDampingTable->getBeginValuesXY()->second;
         switch(modalDamping->dampingType) {
diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index d165bfe..6a99a2e 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -1371,6 +1371,10 @@ void SystusWriter::fillLoadingsVectors(const SystusModel& systusModel, const int
                     if (systusModel.configuration.systusDynamicMethod=="direct"){
                         const auto& aTable = dE->getFunctionTableB();
 
+                        if (aTable == nullptr or aTable->getBeginValuesXY() == aTable->getEndValuesXY()) {
+                            handleWritingWarning("Dismissing dynamic excitation without amplitude: " + to_str(*dE), "Loadings");
+                            break;
+                        }
                         //TODO: Test the units of the table ?
                         amplitude = aTable->getBeginValuesXY()->second;
                         // In direct mode, SYSTUS 2017 allows only amplitude that doesn't depend of the frequency
-- 
2.43.0


From d84efafd7c5a129ff3b2f3e1f58c5f78b4c275c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:29 +0000
Subject: [PATCH 096/139] fix: cells updated by the Systus output lacked the
 data of their dimension

---
 Abstract/Mesh.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/Abstract/Mesh.cpp b/Abstract/Mesh.cpp
index 0535c1d..cc27cc5 100644
--- a/Abstract/Mesh.cpp
+++ b/Abstract/Mesh.cpp
@@ -484,6 +484,23 @@ pos_t Mesh::updateCell(int id, const CellType &cellType, const std::vector<int>
         cout << "updateCell nodePos:" << findOrReserveNode(nodeId) << endl;
 		nodePositionsPtr->push_back(findOrReserveNode(nodeId));
 	}
+    switch (cellType.dimension.code) {
+    case SpaceDimension::Code::DIMENSION0D_CODE: {
+        cells.additional0DdataByCelltype[cellType].push_back(DimensionData0D{});
+        break;
+    }
+    case SpaceDimension::Code::DIMENSION1D_CODE: {
+        cells.additional1DdataByCelltype[cellType].push_back(DimensionData1D{});
+        break;
+    }
+    case SpaceDimension::Code::DIMENSION2D_CODE: {
+        cells.additional2DdataByCelltype[cellType].push_back(DimensionData2D{0.0});
+        break;
+    }
+    default: {
+        break; // no additional data
+    }
+    }
     if (cpos != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
         this->getOrCreateCellGroupForCS(cpos)->addCellId(id);
         cellData.csPos = cpos;
@@ -525,7 +542,7 @@ Cell Mesh::findCell(const pos_t cellPosition) const {
 	if (cellData.csPos!=CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID)
         ocs = dynamic_pointer_cast<OrientationCoordinateSystem>(coordinateSystemStorage.findByPosition(cellData.csPos));
 
-    double offset;
+    double offset = 0.0;
     switch (cellType->dimension.code) {
     case SpaceDimension::Code::DIMENSION0D_CODE: {
         const auto& additional0Ddata = cells.additional0DdataByCelltype.at(*cellType)[cellData.cellTypePosition];
-- 
2.43.0


From bca4f43a751ae235b0e9b1a60b0243f5dc43caf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:59 +0000
Subject: [PATCH 097/139] fix: files of other studies were deleted, run and
 judged by the Systus runner

---
 Systus/SystusRunner.cpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/Systus/SystusRunner.cpp b/Systus/SystusRunner.cpp
index 931d36f..070611f 100644
--- a/Systus/SystusRunner.cpp
+++ b/Systus/SystusRunner.cpp
@@ -34,12 +34,28 @@ namespace systus {
 namespace fs = boost::filesystem;
 using namespace std;
 
+namespace {
+/**
+ * Tells the files of a study (stem.*, stem_SC1*, stem_ALL*) from those of another one, whose name begins the same.
+ */
+bool isFileOfStudy(const string& filename, const string& stem) {
+    if (not boost::algorithm::starts_with(filename, stem))
+        return false;
+    const string rest = filename.substr(stem.size());
+    if (boost::algorithm::starts_with(rest, "."))
+        return rest.find('.', 1) == string::npos;
+    if (boost::algorithm::starts_with(rest, "_SC"))
+        return rest.size() > 3 and isdigit(static_cast<unsigned char>(rest[3]));
+    return boost::algorithm::starts_with(rest, "_ALL.") or boost::algorithm::starts_with(rest, "_ALL_");
+}
+}
+
 Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configuration,
         string modelFile) {
 
     fs::path modelFilePath(modelFile);
     string fname = modelFilePath.stem().string();
-    string fnamePrefix = fname.substr(0, fname.find("_ALL"));
+    string fnamePrefix = fname.substr(0, fname.rfind("_ALL"));
 
     fs::path outputFsPath(configuration.outputPath);
     cout << configuration.outputPath << endl;
@@ -50,14 +66,16 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
     for (fs::directory_iterator it(outputFsPath); it != fs::directory_iterator(); it++) {
         if (fs::is_regular_file(it->status())) {
             string filename = it->path().filename().string();
-            if (filename.find(fnamePrefix) == 0) {
+            if (isFileOfStudy(filename, fnamePrefix)) {
                 if (boost::algorithm::ends_with(filename, ".TIT")
                         or boost::algorithm::ends_with(filename, ".fdb")
                         or boost::algorithm::ends_with(filename, ".RESU")) {
                     remove(*it);
                 }
             }
-            if (filename.find("SYSTUS") == 0 && filename.rfind(".DAT") + 4 == filename.size())
+            // files left by the solver, not the studies (SYSTUS..._SC1.DAT)
+            if (boost::algorithm::starts_with(filename, "SYSTUS") and boost::algorithm::ends_with(filename, ".DAT")
+                    and filename.find('_') == string::npos)
                 remove(*it);
         }
     }
@@ -102,7 +120,7 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
             string datFilename = it2->path().filename().string();
             if (not boost::algorithm::ends_with(datFilename, ".DAT"))
                 continue;
-            if (not boost::algorithm::starts_with(datFilename, fnamePrefix))
+            if (not isFileOfStudy(datFilename, fnamePrefix) or datFilename == fnamePrefix + ".DAT")
                 continue;
             cout << "Found DAT file:" << datFilename << endl;
             //check if it contains nook
@@ -136,7 +154,7 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
                 string filename2 = it2->path().filename().string();
                 if (not boost::algorithm::ends_with(filename2, ".TIT"))
                     continue;
-                if (not boost::algorithm::starts_with(filename2, fnamePrefix))
+                if (not isFileOfStudy(filename2, fnamePrefix))
                     continue;
                 foundTIT = true;
                 break;
@@ -148,7 +166,7 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
                 string filename2 = it2->path().filename().string();
                 if (not boost::algorithm::ends_with(filename2, ".fdb"))
                     continue;
-                if (not boost::algorithm::starts_with(filename2, fnamePrefix))
+                if (not isFileOfStudy(filename2, fnamePrefix))
                     continue;
                 foundFDB = true;
                 break;
@@ -164,7 +182,7 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
             string resuFilename = it2->path().filename().string();
             if (not boost::algorithm::ends_with(resuFilename, ".RESU"))
                 continue;
-            if (not boost::algorithm::starts_with(resuFilename, fnamePrefix))
+            if (not isFileOfStudy(resuFilename, fnamePrefix))
                 continue;
             cout << "Found RESU file:" << resuFilename << endl;
             //check if it contains nook
-- 
2.43.0


From 5bbf7620ba19f61df841a0719824419c45ca73a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:22 +0000
Subject: [PATCH 098/139] fix: CSV references: unknown nodes and ids crashed,
 results of decks without SUBCASE were dropped

---
 ResultReaders/CSVResultReader.cpp | 38 +++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/ResultReaders/CSVResultReader.cpp b/ResultReaders/CSVResultReader.cpp
index 6e0f22f..656c01e 100644
--- a/ResultReaders/CSVResultReader.cpp
+++ b/ResultReaders/CSVResultReader.cpp
@@ -58,7 +58,8 @@ using namespace std;
 struct CsvGrammar: qi::grammar<stream_iterator_type, void(), qi::locals<vector<LineItems>>,
 		qi::blank_type> {
 	CsvGrammar(Model& _model, const ConfigurationParameters& _configuration) :
-			CsvGrammar::base_type(start), model(_model), configuration(_configuration) {
+			CsvGrammar::base_type(start), model(_model), configuration(_configuration),
+			meshAvailable(_model.mesh.countNodes() > 0) {
 		using namespace qi;
 
 		static const char colsep = ',';
@@ -80,6 +81,20 @@ struct CsvGrammar: qi::grammar<stream_iterator_type, void(), qi::locals<vector<L
 		}
 	}
 
+	/**
+	 * Id that follows a prefix (RESU3, N12), -1 if there is none.
+	 */
+	static int parseId(const string& name, size_t prefixSize) {
+		if (name.size() <= prefixSize) {
+			return -1;
+		}
+		try {
+			return stoi(name.substr(prefixSize));
+		} catch (const logic_error&) {
+			return -1;
+		}
+	}
+
 	void convertFunc(const vector<string>& columns, const vector<LineItems>& positions) {
 		if (columns.size() != positions.size()) {
 			return;
@@ -89,14 +104,13 @@ struct CsvGrammar: qi::grammar<stream_iterator_type, void(), qi::locals<vector<L
 		int result_number = -1;
 		string node_name;
 		int nodeId = Node::UNAVAILABLE_NODE;
-		int num_step;
 		double time = 0;
 		for (LineItems position : positions) {
 			switch (position) {
 			case LineItems::RESULT_NAME:
 				result_name = columns[i];
 				if (result_name.find("RESU") == 0) {
-					result_number = stoi(result_name.substr(4));
+					result_number = parseId(result_name, 4);
 				} else {
 					cerr << "Can't parse result name" << result_name << endl;
 					return;
@@ -104,11 +118,10 @@ struct CsvGrammar: qi::grammar<stream_iterator_type, void(), qi::locals<vector<L
 				break;
 			case LineItems::NODE:
 				node_name = columns[i];
-				nodeId = stoi(node_name.substr(1));
+				nodeId = parseId(node_name, 1);
 				break;
 			case LineItems::NUM_ORD:
-				num_step = stoi(columns[i]);
-				break;
+				break; // not used
 			case LineItems::TIME:
 				time = atof(columns[i].c_str());
 				break;
@@ -118,11 +131,18 @@ struct CsvGrammar: qi::grammar<stream_iterator_type, void(), qi::locals<vector<L
 			}
 			i++;
 		}
-		UNUSEDV(num_step);
 		i = 0;
-		assert(result_number != -1);
+		const bool unknownNode = meshAvailable and model.mesh.findNodePosition(nodeId) == Node::UNAVAILABLE_NODE;
+		if (result_number == -1 or nodeId < 0 or unknownNode) {
+			cerr << "Result '" << result_name << "' on node '" << node_name << "' can't be found in the model, ignored." << endl;
+			return;
+		}
 		const auto& objectiveSet = model.getOrCreateObjectiveSet(result_number, ObjectiveSet::Type::ASSERTION);
 		shared_ptr<Analysis> analysis = model.analyses.find(result_number);
+		if (analysis == nullptr) {
+			// no such SUBCASE: results are also named after the internal id of their analysis
+			analysis = model.analyses.get(result_number);
+		}
 		if (analysis != nullptr) {
             analysis->add(objectiveSet);
 		}
@@ -130,7 +150,6 @@ struct CsvGrammar: qi::grammar<stream_iterator_type, void(), qi::locals<vector<L
 			auto it = dofPosition_by_lineItemEnum.find(position);
 			if (it != dofPosition_by_lineItemEnum.end()) {
 				double value = atof(columns[i].c_str());
-				assert(nodeId != Node::UNAVAILABLE_NODE);
 				const auto& nda = make_shared<NodalDisplacementAssertion>(model, objectiveSet, configuration.testTolerance, nodeId,
 						DOF::findByPosition(it->second), value, time);
 				model.add(nda);
@@ -149,6 +168,7 @@ struct CsvGrammar: qi::grammar<stream_iterator_type, void(), qi::locals<vector<L
 	qi::rule<stream_iterator_type> comment;
 	Model& model;
 	const ConfigurationParameters configuration;
+	const bool meshAvailable;
 	//visual studio 2013 refuses to compile initializer list
 	unordered_map<LineItems, dof_int, std::hash<dof_int>> dofPosition_by_lineItemEnum = {
         {LineItems::DX, 0}, //
-- 
2.43.0


From 678ef6f93a2c114df1cb8ed75e8c7ec8dcbec55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:22 +0000
Subject: [PATCH 099/139] fix: f06 references: unknown subcases, nodes and
 cells crashed, steps leaked into the next subcase

---
 ResultReaders/F06Parser.cpp | 61 ++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index 54c5288..4d33179 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -81,9 +81,18 @@ int F06Parser::readDisplacementSection(int currentSubCase, Model& model,
 				VectorialValue translation(stod(tokens[2]), stod(tokens[3]), stod(tokens[4]));
 				VectorialValue rotation(stod(tokens[5]), stod(tokens[6]), stod(tokens[7]));
 
-				const Node& node = model.mesh.findNode(model.mesh.findNodePosition(nodeId));
+				const pos_t nodePosition = model.mesh.findNodePosition(nodeId);
+				if (nodePosition == Node::UNAVAILABLE_NODE) {
+					cerr << "Node " << nodeId << " of " << configuration.resultFile << " line " << lineNumber
+							<< " is not in the model, its results are ignored." << endl;
+					continue;
+				}
+				const Node& node = model.mesh.findNode(nodePosition);
 				if (node.displacementCS != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
 					const auto& coordSystem = model.mesh.getCoordinateSystemByPosition(node.displacementCS);
+					if (coordSystem == nullptr) {
+						throw logic_error("Displacement coordinate system of node " + to_string(nodeId) + " not found");
+					}
 					coordSystem->updateLocalBase(VectorialValue(node.x, node.y, node.z));
 					translation = coordSystem->vectorToGlobal(translation);
 					rotation = coordSystem->vectorToGlobal(rotation);
@@ -110,7 +119,7 @@ int F06Parser::readDisplacementSection(int currentSubCase, Model& model,
 		message += " Line: " + currentLine;
 		cerr << message << endl;
 		if (ConfigurationParameters::TranslationMode::MODE_STRICT == configuration.translationMode) {
-			throw e;
+			throw;
 		} else {
 			//cerr << "Conditions not added, parsing next section" << endl;
 		}
@@ -181,7 +190,7 @@ int F06Parser::readEigenvalueSection(int currentSubCase, Model& model,
 		message += " Line: " + currentLine;
 		cerr << message << endl;
 		if (ConfigurationParameters::TranslationMode::MODE_STRICT == configuration.translationMode) {
-			throw e;
+			throw;
 		} else {
 			//cerr << "Conditions not added, parsing next section" << endl;
 		}
@@ -214,7 +223,7 @@ int F06Parser::readComplexDisplacementSection(int currentSubCase, Model& model,
 			vector<string> tokens;
 			copy(istream_iterator<string>(istringLine), istream_iterator<string>(),
 					back_inserter(tokens));
-			if (tokens.size() != 9)
+			if (tokens.size() != 9 or tokens[0] != "0") // a page header may have 9 tokens too
 				break;
 
 			this->readLine(istream, currentLine);
@@ -226,6 +235,11 @@ int F06Parser::readComplexDisplacementSection(int currentSubCase, Model& model,
 				throw exception();
 
 			int nodeId = stoi(tokens[1]);
+			if (model.mesh.findNodePosition(nodeId) == Node::UNAVAILABLE_NODE) {
+				cerr << "Node " << nodeId << " of " << configuration.resultFile << " line " << lineNumber
+						<< " is not in the model, its results are ignored." << endl;
+				continue;
+			}
 			shared_ptr<ObjectiveSet> objectiveSet = nullptr;
             if (currentSubCase == NO_SUBCASE) {
                 objectiveSet = model.commonObjectiveSet;
@@ -254,7 +268,7 @@ int F06Parser::readComplexDisplacementSection(int currentSubCase, Model& model,
 		message += " Line: " + currentLine;
 		cerr << message << endl;
 		if (ConfigurationParameters::TranslationMode::MODE_STRICT == configuration.translationMode) {
-			throw e;
+			throw;
 		} else {
 			//cerr << "Conditions not added, parsing next section" << endl;
 		}
@@ -308,7 +322,9 @@ int F06Parser::readStressesForSolidsSection(int currentSubCase, Model& model,
             for (int nodePos = 1; nodePos <= nodeNum + 1 /* for CENTER stress */; nodePos++) {
                 for (int dir = 1; dir <= 3; dir++) {
                     // PAGE should only happen between nodes
-                    this->readLine(istream, currentLine);
+                    if (not this->readLine(istream, currentLine)) {
+                        throw length_error("Unexpected end of file");
+                    }
                     if (currentLine[0] == '1' and currentLine.find("PAGE") != string::npos) {
                         for (int i = 1; i < 5; i++) {  // skip page header
                             this->readLine(istream, currentLine);
@@ -324,8 +340,14 @@ int F06Parser::readStressesForSolidsSection(int currentSubCase, Model& model,
                     istringLine.str(currentLine);
                     copy(istream_iterator<string>(istringLine), istream_iterator<string>(),
                             back_inserter(tokens));
-                    int nodeId = stoi(tokens[1]);
+                    int nodeId = stoi(tokens.at(1));
                     double vonMises = stod(tokens[tokens.size() - 1] /* sometimes smaller values have (or not) spaces between them, should cut using columns */);
+                    const pos_t cellPosition = model.mesh.findCellPosition(cellId);
+                    if (cellPosition == Cell::UNAVAILABLE_CELL or model.mesh.findNodePosition(nodeId) == Node::UNAVAILABLE_NODE) {
+                        cerr << "Cell " << cellId << " or node " << nodeId << " of " << configuration.resultFile << " line " << lineNumber
+                                << " is not in the model, its results are ignored." << endl;
+                        continue;
+                    }
                     shared_ptr<ObjectiveSet> objectiveSet = nullptr;
                     if (currentSubCase == NO_SUBCASE) {
                         objectiveSet = model.commonObjectiveSet;
@@ -337,7 +359,6 @@ int F06Parser::readStressesForSolidsSection(int currentSubCase, Model& model,
                                     nodeId, vonMises));
                     if (configuration.outputSolver.getSolverName() == SolverName::CODE_ASTER) {
                         // Workaround to avoid MAILLE in COMM file
-                        const auto cellPosition = model.mesh.findCellPosition(cellId);
                         const string& groupName = Cell::MedName(cellPosition);
                         if (not model.mesh.hasGroup(groupName)) {
                             const auto& cellGrp = model.mesh.createCellGroup(groupName, Group::NO_ORIGINAL_ID, "Single cell group over vmis elno assertion");
@@ -355,7 +376,7 @@ int F06Parser::readStressesForSolidsSection(int currentSubCase, Model& model,
 		message += " Line: " + currentLine;
 		cerr << message << endl;
 		if (ConfigurationParameters::TranslationMode::MODE_STRICT == configuration.translationMode) {
-			throw e;
+			throw;
 		} else {
 			//cerr << "Conditions not added, parsing next section" << endl;
 		}
@@ -371,8 +392,9 @@ int F06Parser::addAssertionsToModel(int currentSubcase, double loadStep, Model &
 	shared_ptr<Analysis> analysis;
 	if (currentSubcase != NO_SUBCASE) {
 		analysis = model.analyses.find(currentSubcase);
-		analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
-		if (analysis == nullptr and model.configuration.logLevel >= LogLevel::INFO) {
+		if (analysis != nullptr) {
+			analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
+		} else if (model.configuration.logLevel >= LogLevel::INFO) {
 			cout << "Could not find subcase : " << currentSubcase << " in model." << endl;
 		}
 	} else if (not model.analyses.empty()) {
@@ -441,15 +463,16 @@ int F06Parser::addComplexAssertionsToModel(int currentSubCase, double frequency,
 	shared_ptr<Analysis> analysis;
 	if (currentSubCase != NO_SUBCASE) {
 		analysis = model.analyses.find(currentSubCase);
-		analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubCase});
-		if (analysis == nullptr and model.configuration.logLevel >= LogLevel::INFO) {
+		if (analysis != nullptr) {
+			analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubCase});
+		} else if (model.configuration.logLevel >= LogLevel::INFO) {
 			cout << "Could not find subcase : " << currentSubCase << " in model." << endl;
 		}
-	} else {
+	} else if (not model.analyses.empty()) {
 		// LD If no subcase indicated, the first one is used.
 		// FIXME: what if the model don't have an analysis and the default one is
 		// created inside the finish()? GC
-		analysis = *model.analyses.begin();
+		analysis = model.analyses.first();
 	}
 	for (const auto& assertion : assertions) {
 		if (analysis != nullptr) {
@@ -474,8 +497,9 @@ int F06Parser::addVonMisesAssertionsToModel(int currentSubcase, Model &model,
 	shared_ptr<Analysis> analysis;
 	if (currentSubcase != NO_SUBCASE) {
 		analysis = model.analyses.find(currentSubcase);
-		analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
-		if (analysis == nullptr and model.configuration.logLevel >= LogLevel::INFO) {
+		if (analysis != nullptr) {
+			analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
+		} else if (model.configuration.logLevel >= LogLevel::INFO) {
 			cout << "Could not find subcase : " << currentSubcase << " in model." << endl;
 		}
 	} else if (not model.analyses.empty()) {
@@ -557,6 +581,9 @@ void F06Parser::add_assertions(const ConfigurationParameters& configuration,
 				 */
 				currentSubCase = addAssertionsToModel(currentSubCase, loadStep, model,
 						configuration, istream);
+				if (currentSubCase != NO_SUBCASE) {
+					loadStep = -1; // the SUBCASE line was consumed by the section
+				}
 			} else if (currentLine == "R E A L   E I G E N V A L U E S") {
 				currentSubCase = addFrequencyAssertionsToModel(currentSubCase, model, configuration, istream);
 			} else if (currentLine == "C O M P L E X   D I S P L A C E M E N T   V E C T O R") {
-- 
2.43.0


From da39d5721cf64f0e8c7693b1b10d119da1494c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:22 +0000
Subject: [PATCH 100/139] fix: Systus tests of regrouped analyses all looked at
 the first load case

---
 Systus/SystusWriter.cpp | 17 ++++++++++++++---
 Systus/SystusWriter.h   |  2 +-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 6a99a2e..09d3ad9 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -3257,6 +3257,17 @@ void SystusWriter::writeDat(const SystusModel& systusModel, const vega::Configur
         if (analysis== nullptr){
             handleWritingError("Analysis " + to_string(idAnalysis) + " not found.");
         }
+        // Static analyses regrouped in a subcase are its successive load cases
+        int idLoadCase = 1;
+        if (analysis->type == Analysis::Type::LINEAR_MECA_STAT) {
+            const auto& localLoadings = localLoadingIdByLoadsetIdByAnalysisId[idAnalysis];
+            if (not localLoadings.empty()) {
+                idLoadCase = static_cast<int>(localLoadings.begin()->second);
+                for (const auto& localLoading : localLoadings) {
+                    idLoadCase = min(idLoadCase, static_cast<int>(localLoading.second));
+                }
+            }
+        }
         const auto& assertions = analysis->getAssertions();
         if (not assertions.empty()) {
             out << "LANGAGE" << endl;
@@ -3268,7 +3279,7 @@ void SystusWriter::writeDat(const SystusModel& systusModel, const vega::Configur
             for (const auto& assertion : assertions) {
                 switch (assertion->type) {
                 case Objective::Type::NODAL_DISPLACEMENT_ASSERTION: {
-                    writeNodalDisplacementAssertion(*assertion, out);
+                    writeNodalDisplacementAssertion(*assertion, idLoadCase, out);
                     assertion->markAsWritten();
                     break;
                 }
@@ -3315,7 +3326,7 @@ void SystusWriter::writeDat(const SystusModel& systusModel, const vega::Configur
 
 
 
-void SystusWriter::writeNodalDisplacementAssertion(Assertion& assertion, ostream& out) {
+void SystusWriter::writeNodalDisplacementAssertion(Assertion& assertion, const int idLoadCase, ostream& out) {
     NodalDisplacementAssertion& nda = dynamic_cast<NodalDisplacementAssertion&>(assertion);
 //    if (systusOption == SystusOption::CONTINUOUS and nda.dof.isRotation) {
 //        return;
@@ -3326,7 +3337,7 @@ void SystusWriter::writeNodalDisplacementAssertion(Assertion& assertion, ostream
     int dofPos = nda.dof.position + 1;
 
     out << scientific;
-    out << "displacement = node_displacement(1" << "," << nodeId << ");" << endl;
+    out << "displacement = node_displacement(" << idLoadCase << "," << nodeId << ");" << endl;
     out << "diff = abs((displacement[" << dofPos << "]-(" << nda.value << "))/("
             << (abs(nda.value) >= 1e-9 ? nda.value : 1.) << "));" << endl;
 
diff --git a/Systus/SystusWriter.h b/Systus/SystusWriter.h
index 1c74c2a..cce8070 100644
--- a/Systus/SystusWriter.h
+++ b/Systus/SystusWriter.h
@@ -419,7 +419,7 @@ private:
     void writeVectors(std::ostream&);
     void writeDat(const SystusModel&, const ConfigurationParameters &, const int idSubcase, std::ostream&);
 
-    void writeNodalDisplacementAssertion(Assertion& assertion, std::ostream& out);
+    void writeNodalDisplacementAssertion(Assertion& assertion, const int idLoadCase, std::ostream& out);
     void writeNodalComplexDisplacementAssertion(Assertion& assertion, std::ostream& out);
     void writeFrequencyAssertion(Assertion& assertion, std::ostream& out);
     void writeNodalForceVector(const SystusModel& systusModel, const std::shared_ptr<NodalForce>& nodalForce, const int idLoadCase, systus_ascid_t& vectorId, const double amplitude = 1.0);
-- 
2.43.0


From b6d30b1546b468504c17db0344a86cbd8de341a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:13 +0000
Subject: [PATCH 101/139] fix: keep the constraints of the subcases which share
 an SPC set through SPCADD

---
 Abstract/Analysis.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Abstract/Analysis.cpp b/Abstract/Analysis.cpp
index 157f4a1..7b556fd 100644
--- a/Abstract/Analysis.cpp
+++ b/Abstract/Analysis.cpp
@@ -472,7 +472,11 @@ void Analysis::removeSPCNodeDofs(SinglePointConstraint& spc, const pos_t nodePos
                 continue;
             }
             for (const auto& constraintSet : otherAnalysis->getConstraintSets()) {
-                if (affectedConstraintSets.find(constraintSet) == affectedConstraintSets.end()) {
+                // the spc may also come from a set which is part of this one (SPCADD)
+                const auto& constraints = constraintSet->getConstraintsByType(Constraint::Type::SPC);
+                if (none_of(constraints.begin(), constraints.end(), [&spc](const shared_ptr<Constraint>& constraint) {
+                    return constraint->getReference() == spc.getReference();
+                })) {
                     continue;
                 }
                 otherAnalysis->add(*otherAnalysesCS);
-- 
2.43.0


From c79e81365178e4a847b02ba0c5f7cad18d797b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:23 +0000
Subject: [PATCH 102/139] fix: compressive strengths of MAT8 default to the
 tensile ones

---
 Nastran/NastranParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 8c903d7..745fc0e 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1972,9 +1972,9 @@ void NastranParser::parseMAT8(NastranTokenizer& tok, Model& model) {
     double a3 = Globals::UNAVAILABLE_DOUBLE; // pas de dilatation thermique normal pour MAT8?
     double tref = tok.nextDouble(true, Globals::UNAVAILABLE_DOUBLE);
     double xt = tok.nextDouble(true, Globals::UNAVAILABLE_DOUBLE);
-    double xc = tok.nextDouble(true, Globals::UNAVAILABLE_DOUBLE);
+    double xc = tok.nextDouble(true, xt);
     double yt = tok.nextDouble(true, Globals::UNAVAILABLE_DOUBLE);
-    double yc = tok.nextDouble(true, Globals::UNAVAILABLE_DOUBLE);
+    double yc = tok.nextDouble(true, yt);
     double s = tok.nextDouble(true, Globals::UNAVAILABLE_DOUBLE);
     shared_ptr<Material> material = model.getOrCreateMaterial(material_id);
     material->addNature(make_shared<OrthotropicNature>(model, e1, e2, nu12, g12, g2Z, g1Z, rho, a1, a2, a3, tref, xt, xc, yt, yc, s));
-- 
2.43.0


From 6733c903bc6a3e583d8d162c30754c1bd0c64806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:23 +0000
Subject: [PATCH 103/139] fix: orientation vectors and CID fields with blanks
 were misread

---
 Nastran/NastranParser_geometry.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index fb59955..2d56b54 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -135,7 +135,12 @@ pos_t NastranParser::parseOrientation(int point1, int point2, NastranTokenizer&
         Model& model) {
 
     const auto& line = tok.currentDataLine();
-    bool alternateFormat = line.size() < 8 || line[6].empty() || line[7].empty();
+    const auto& isBlank = [&line](size_t field) {
+        return line.size() <= field || boost::trim_copy(line[field]).empty();
+    };
+    // G0 is an integer which stands alone, or the vector (X1,X2,X3) whose blank components are null
+    const bool noVector = isBlank(6) && isBlank(7);
+    bool alternateFormat = noVector && (isBlank(5) || tok.isNextInt());
     shared_ptr<OrientationCoordinateSystem> ocs;
     if (alternateFormat) {
         int g0 = tok.nextInt();
@@ -144,9 +149,9 @@ pos_t NastranParser::parseOrientation(int point1, int point2, NastranTokenizer&
         ocs = make_shared<OrientationCoordinateSystem>(model.mesh, point1, point2, g0);
     } else {
         double x1, x2, x3;
-        x1 = tok.nextDouble();
-        x2 = tok.nextDouble();
-        x3 = tok.nextDouble();
+        x1 = tok.nextDouble(true, 0.0);
+        x2 = tok.nextDouble(true, 0.0);
+        x3 = tok.nextDouble(true, 0.0);
         if (is_zero(x1) and is_zero(x2) and is_zero(x3)) {
             x2 = 1; // LD Hack, should find a better solution for a ill-defined segment orientation
         }
@@ -241,7 +246,7 @@ void NastranParser::parseCBUSH(NastranTokenizer& tok, Model& model) {
     pos_t cpos = 0;
     if (!tok.isEmptyUntilNextKeyword()) {
         vector<string> line = tok.currentDataLine();
-        if ( (line.size()>8) && !(line[8].empty())){
+        if ( (line.size()>8) && !boost::trim_copy(line[8]).empty()){
             // A CID is provided by the user
             tok.skip(3);
             int cid = tok.nextInt();
-- 
2.43.0


From 6260bededf20613a00f5a8a8a00f4cfc6fa8c463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:23 +0000
Subject: [PATCH 104/139] fix: orientation vectors are given in the
 displacement frame of the first node

---
 Abstract/CoordinateSystem.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index 82981dd..b68a7e8 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -341,6 +341,17 @@ void OrientationCoordinateSystem::build(){
         if(this->getNodeV() != Node::UNAVAILABLE_NODE){
             const Node& nodeV = mesh.findNode(mesh.findNodePosition(this->getNodeV()));
             this->v = VectorialValue(nodeV.x - nodeO.x, nodeV.y - nodeO.y, nodeV.z - nodeO.z).normalized();
+        } else if (nodeO.displacementCS != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
+            // the components of the vector are given in the displacement coordinate system of O
+            const auto& displacementCS = mesh.getCoordinateSystemByPosition(nodeO.displacementCS);
+            if (displacementCS == nullptr or dynamic_pointer_cast<SphericalCoordinateSystem>(displacementCS) != nullptr) {
+                cerr << "ERROR: orientation vector not supported in the displacement coordinate system of " << nodeO
+                        << ". Global coordinate system used instead." << endl;
+            } else {
+                displacementCS->build();
+                displacementCS->updateLocalBase(this->origin);
+                this->v = displacementCS->vectorToGlobal(this->v);
+            }
         }
         this->ey = this->v.orthonormalized(this->ex);
         this->ez = this->ex.cross(this->ey);
-- 
2.43.0


From f2bf9a4dd97241e9f85ceec3fa441db1772d5c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:23 +0000
Subject: [PATCH 105/139] fix: angles of the coordinate systems which are
 defined in another one

---
 Abstract/CoordinateSystem.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index b68a7e8..7bb51f5 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -84,9 +84,9 @@ VectorialValue CoordinateSystem::getEulerAnglesIntrinsicZYX(const CoordinateSyst
         EY= this->ey;
         EZ= this->ez;
     }else{
-        EX= vectorToGlobal(this->ex);
-        EY= vectorToGlobal(this->ey);
-        EZ= vectorToGlobal(this->ez);
+        EX= vectorToGlobal(VectorialValue::X);
+        EY= vectorToGlobal(VectorialValue::Y);
+        EZ= vectorToGlobal(VectorialValue::Z);
     }
     if (cs != nullptr){
         EX = cs->vectorToLocal(EX);
@@ -258,7 +258,7 @@ unique_ptr<CoordinateSystem> CylindricalCoordinateSystem::clone() const {
 }
 
 VectorialValue CylindricalCoordinateSystem::getLocalEulerAnglesIntrinsicZYX(const CoordinateSystem *cs) const {
-    CartesianCoordinateSystem localCS(this->mesh, VectorialValue(0,0,0), this->ur, this->utheta);
+    CartesianCoordinateSystem localCS(this->mesh, VectorialValue(0,0,0), this->ur, this->utheta, this->rcs);
     return localCS.getEulerAnglesIntrinsicZYX(cs);
 }
 
-- 
2.43.0


From e53bd0d73d893ba7c19ab848283f84d0f6dfb850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:23 +0000
Subject: [PATCH 106/139] fix: orientation of CBUSH elements in Nastran output

---
 Nastran/NastranWriter.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index f374cb8..8fa024d 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -360,6 +360,22 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
                 if (isCosmic())
                     F = "1";
                 cellLine.add(x1x2x3).add(F);
+            } else if (keyword == "CBUSH") {
+                if (cell.orientation != nullptr) {
+                    const auto& v = cell.orientation->getV();
+                    cellLine.add(vector<double>{v.x(), v.y(), v.z()});
+                } else { // without CID, the element would act along its axis
+                    int cid = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID;
+                    if (cell.hasOrientation) {
+                        const auto& cs = model.mesh.getCoordinateSystemByPosition(cell.cspos);
+                        if (cs != nullptr) {
+                            cid = cs->bestId();
+                        } else {
+                            handleWritingWarning("Unknown coordinate system of CBUSH " + to_string(cell.id) + ", global one used instead.");
+                        }
+                    }
+                    cellLine.skip(3).add(cid);
+                }
             } else if (elementSet->isShell()) {
                 if (cell.type.code == CellType::Code::QUAD8_CODE) {
                     cellLine.skip(4); // corner thicknesses
-- 
2.43.0


From b6c4bec9192d6d0663c099f00bd9a71ca8fd4038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:23 +0000
Subject: [PATCH 107/139] fix: chained and spherical coordinate systems in
 Nastran output

---
 Abstract/CoordinateSystem.cpp | 2 +-
 Nastran/NastranWriter.cpp     | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index 7bb51f5..5e66dfe 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -265,7 +265,7 @@ VectorialValue CylindricalCoordinateSystem::getLocalEulerAnglesIntrinsicZYX(cons
 SphericalCoordinateSystem::SphericalCoordinateSystem(const Mesh& mesh,
         const VectorialValue origin, const VectorialValue ex, const VectorialValue ey, const Reference<CoordinateSystem> rcs,
         int original_id) :
-        CoordinateSystem(mesh, CoordinateSystem::Type::ABSOLUTE, CoordinateSystem::CoordinateType::CYLINDRICAL, origin, ex, ey, rcs, original_id) {
+        CoordinateSystem(mesh, CoordinateSystem::Type::ABSOLUTE, CoordinateSystem::CoordinateType::SPHERICAL, origin, ex, ey, rcs, original_id) {
 }
 
 // TODO : LD What's this ? Should this method be renamed moveOrigin ?
diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 8fa024d..8379140 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -390,10 +390,12 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
 
 void NastranWriter::writeCoordinateSystem(const string& keyword, const CoordinateSystem& coordinateSystem, ofstream& out) const
 {
-    const auto& origin = coordinateSystem.getOrigin();
+    const bool isSpherical = coordinateSystem.coordType == CoordinateSystem::CoordinateType::SPHERICAL;
     // defined in the basic system by its origin, a point on the z axis and a point in the xz plane
-    out << Line(keyword).add(coordinateSystem.bestId()).add(0).add(origin)
-            .add(origin + coordinateSystem.getEz()).add(origin + coordinateSystem.getEx());
+    out << Line(keyword).add(coordinateSystem.bestId()).add(0)
+            .add(coordinateSystem.positionToGlobal(VectorialValue::O))
+            .add(coordinateSystem.positionToGlobal(isSpherical ? VectorialValue(1, 0, 0) : VectorialValue::Z))
+            .add(coordinateSystem.positionToGlobal(isSpherical ? VectorialValue(1, 90, 0) : VectorialValue::X));
 }
 
 void NastranWriter::writeNodes(const Model& model, ofstream& out) const
-- 
2.43.0


From 708be51a0979846dc46d90e4a022a4e626dfc093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:57 +0000
Subject: [PATCH 108/139] fix: number of elements announced in the Systus files

---
 Systus/SystusDat.cpp    |  3 +--
 Systus/SystusWriter.cpp | 19 +++++++++++++------
 Systus/SystusWriter.h   |  1 +
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/Systus/SystusDat.cpp b/Systus/SystusDat.cpp
index ab5ef17..67794a0 100644
--- a/Systus/SystusDat.cpp
+++ b/Systus/SystusDat.cpp
@@ -259,7 +259,6 @@ int SystusWriter::writeDynaModalAnalysis(ostream& out, const SystusModel& systus
 
     // Harmonic part
     const size_t nbNodes = systusModel.model.mesh.countNodes();
-    const size_t nbElements = systusModel.model.mesh.countCells();
     out << "# MODAL DYNAMIC ANALYSIS"<<endl;
     out << "DYNAMIC" << endl;
     out << "# IF THERE IS NNN RIGID BODY MODES, ADD 'RIGID NNN' TO THE NEXT LINE."<<endl;
@@ -276,7 +275,7 @@ int SystusWriter::writeDynaModalAnalysis(ostream& out, const SystusModel& systus
     out << "VELOCITY 1 TO " << nbNodes << " INTERNAL" << endl;
     out << "ACCELERATION 1 TO " << nbNodes << " INTERNAL" << endl;
     out << "REACTION 1 TO " << nbNodes << " INTERNAL" << endl;
-    out << "FORCE 1 TO " << nbElements << " INTERNAL" << endl;
+    out << "FORCE 1 TO " << nbWrittenElements << " INTERNAL" << endl;
     out << "RETURN" << endl;
     out << endl;
 
diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 09d3ad9..3a0f71a 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -2517,13 +2517,21 @@ void SystusWriter::translate(const SystusModel &systusModel, const int idSubcase
 
 void SystusWriter::writeAsc(const SystusModel &systusModel, const int idSubcase, ostream& out) {
 
+    // The elements are counted as they are written: some cells (nodal masses, relations of another
+    // subcase...) are not Systus elements
+    ostringstream elements;
+    elements.copyfmt(out);
+    writeElements(systusModel, idSubcase, elements);
+
     writeHeader(systusModel, out);
 
     writeInformations(systusModel, idSubcase, out);
 
     writeNodes(systusModel, out);
 
-    writeElements(systusModel, idSubcase, out);
+    out << "BEGIN_ELEMENTS " << nbWrittenElements << endl;
+    out << elements.str();
+    out << "END_ELEMENTS" << endl;
 
     writeGroups(systusModel, out);
 
@@ -2574,7 +2582,7 @@ void SystusWriter::writeHeader(const SystusModel& systusModel, ostream& out) {
     out << "1VSD 0 121126 133214 121126 133214 " << endl;
     out << systusModel.getName().substr(0, 20) << endl; //should be less than 24
     out << " 100000 " << systusOption << " " << systusModel.model.mesh.countNodes() << " ";
-    out << systusModel.model.mesh.countCells() << " ";
+    out << nbWrittenElements << " ";
     int kppr = static_cast<int>(localLoadingListName.size()) ; // KPPR: Number of loads
     out << kppr << " ";
 
@@ -2625,7 +2633,7 @@ void SystusWriter::writeInformations(const SystusModel &systusModel, int idSubca
     int lcode[40]={0};
     lcode[0] = static_cast<int>(localLoadingListName.size()); // KPPR: Number of loads
     lcode[1] = static_cast<int>(systusModel.model.mesh.countNodes());     // NMAX: Number of nodes
-    lcode[3] = static_cast<int>(systusModel.model.mesh.countCells());     // MMAXI: Number of elements
+    lcode[3] = static_cast<int>(nbWrittenElements);       // MMAXI: Number of elements
     lcode[5] = 0;                                         // JMAT: Number of material couples, will be computed in "nbmaterials" in the writeMaterials method
     lcode[6] = static_cast<int>(lists.size());            // JREP: Number of lists
     lcode[7] = static_cast<int>(vectors.size());          // JVEC: Number of vectors.
@@ -2763,7 +2771,7 @@ void SystusWriter::writeElementLocalReferentiel(const SystusModel& systusModel,
 
 void SystusWriter::writeElements(const SystusModel& systusModel, const int idSubcase, ostream& out) {
     const Mesh& mesh = systusModel.model.mesh;
-    out << "BEGIN_ELEMENTS " << mesh.countCells() << endl;
+    nbWrittenElements = 0;
     for (const auto& elementSet : systusModel.model.elementSets) {
 
         if (systusModel.model.configuration.logLevel >= LogLevel::TRACE){
@@ -2931,10 +2939,9 @@ void SystusWriter::writeElements(const SystusModel& systusModel, const int idSub
                 out << " " << node;
             }
             out << endl;
+            nbWrittenElements++;
         }
     }
-
-    out << "END_ELEMENTS" << endl;
 }
 
 // TODO: Add an option to only write the User groups, and not all vega-created groups.
diff --git a/Systus/SystusWriter.h b/Systus/SystusWriter.h
index cce8070..e185659 100644
--- a/Systus/SystusWriter.h
+++ b/Systus/SystusWriter.h
@@ -95,6 +95,7 @@ private:
     char dofCode;
     DOFS availableDOFS;
     int  nbDOFS;
+    size_t nbWrittenElements = 0; /**< Number of elements of the current ASC file. **/
     double maxYoungModulus = Globals::UNAVAILABLE_DOUBLE;
     static int auto_part_id;                 /**< Next available number for Systus Part ID **/
     static const int DampingAccessId;        /**< Access Id for the Damping Matrices file (Element X9XX type 0)**/
-- 
2.43.0


From e60f73f9f2afedd98b2f300688194b19a292bb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:57 +0000
Subject: [PATCH 109/139] fix: local axes of a point on the axis of a
 cylindrical coordinate system

---
 Abstract/CoordinateSystem.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index 5e66dfe..c6824b3 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -212,8 +212,13 @@ void CylindricalCoordinateSystem::updateLocalBase(const VectorialValue& point) {
         referencePoint = coordSystem->vectorToLocal(point - coordSystem->positionToGlobal(VectorialValue(0, 0, 0)));
     }
     VectorialValue localOrigin = referencePoint - origin;
-    if (!localOrigin.iszero()) {
-        utheta = ez.cross(localOrigin).normalized();
+    const VectorialValue& tangent = ez.cross(localOrigin);
+    if (tangent.iszero()) {
+        // On the axis, the angle is taken as zero
+        ur = ex;
+        utheta = ey;
+    } else {
+        utheta = tangent.normalized();
         ur = utheta.cross(ez);
     }
 }
-- 
2.43.0


From 31c9a29edddd740c289d3259a151a389ee7cd793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:57 +0000
Subject: [PATCH 110/139] fix: unavailable stiffness of a damper written in the
 Systus materials

---
 Systus/SystusWriter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 3a0f71a..af032a1 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -2206,7 +2206,9 @@ void SystusWriter::fillMaterial(const SystusModel& systusModel, const int idSubc
                 // If we have the same DOF, we can use a Spring element 1602.
                 // Else, we need to use a tabulated element 1902 Type 0
                 if (pairDOF.first == pairDOF.second){
-                    fillMaterialField(DOFtoSMF(pairDOF.first), ss->getStiffness(), systusMat);
+                    if (ss->hasStiffness()){
+                        fillMaterialField(DOFtoSMF(pairDOF.first), ss->getStiffness(), systusMat);
+                    }
                     if (ss->hasDamping()){
                         handleWritingWarning(to_str(*elementSet)+" damping is not supported.","Material");
                     }
-- 
2.43.0


From 9274fe4b8142dea0c631abc702b24d0b208af6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:57 +0000
Subject: [PATCH 111/139] fix: cards without name in Nastran output

---
 Nastran/NastranWriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 8379140..e0bef2a 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -334,6 +334,9 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
                     }
 			    }
 			}
+            if (keyword.empty()) {
+                continue; // a card without name would extend the previous one
+            }
             vector<int> nasConnect;
             auto entry = med2nastranNodeConnectByCellType.find(cell.type.code);
             if (entry == med2nastranNodeConnectByCellType.end()) {
-- 
2.43.0


From 21a2bb4b1959b2ca54f64984b5ab7bba0cdcb11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:57 +0000
Subject: [PATCH 112/139] fix: scalar springs and dampers in Nastran output

---
 Nastran/NastranWriter.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index e0bef2a..ed81d1f 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -246,8 +246,8 @@ void NastranWriter::writeSOL(const Model& model, ofstream& out) const
 void NastranWriter::writeCells(const Model& model, ofstream& out) const
 		{
 	for (const auto& elementSet : model.elementSets) {
-		if (elementSet->isMatrixElement()) {
-			continue;
+		if (elementSet->isMatrixElement() or elementSet->type == ElementSet::Type::SCALAR_SPRING) {
+			continue; // written with their own values
 		}
 		for (const pos_t cellPosition : elementSet->cellPositions()) {
             const Cell& cell = model.mesh.findCell(cellPosition);
@@ -960,6 +960,24 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
             elementSet->markAsWritten();
         }
 	}
+    for (const auto& elementSet: model.elementSets.filter(ElementSet::Type::SCALAR_SPRING)) {
+        const auto& spring = static_pointer_cast<const ScalarSpring>(elementSet);
+        if (spring->hasMass() or (spring->hasStiffness() and spring->hasDamping())) {
+            handleWritingError("scalar spring not completely written");
+        }
+        for (const auto& dofsAndCells : spring->getCellPositionByDOFS()) {
+            for (const pos_t cellPosition : dofsAndCells.second) {
+                const Cell& cell = model.mesh.findCell(cellPosition);
+                Line celas(spring->hasStiffness() ? "CELAS2" : "CDAMP2");
+                celas.add(cell.id);
+                celas.add(spring->hasStiffness() ? spring->getStiffness() : spring->getDamping());
+                celas.add(cell.nodeIds.front()).add(dofsAndCells.first.first.position + 1);
+                celas.add(cell.nodeIds.back()).add(dofsAndCells.first.second.position + 1);
+                out << celas;
+            }
+        }
+        elementSet->markAsWritten();
+    }
     for (const auto& elementSet: model.elementSets.filter(ElementSet::Type::STRUCTURAL_SEGMENT)) {
         const auto& segment = static_pointer_cast<const StructuralSegment>(elementSet);
         if (segment->hasMass()) {
-- 
2.43.0


From f19167bbaefbfc077ddc27262e85ea3579d7be47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:57 +0000
Subject: [PATCH 113/139] fix: empty SETs and selection of sets without cards
 in Nastran output

---
 Nastran/NastranWriter.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index ed81d1f..5e79a60 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -1040,6 +1040,9 @@ string NastranWriter::writeModel(Model& model,
         }
 	}
     for (const auto& nodeGroup : model.mesh.getNodeGroups()) {
+        if (nodeGroup->getNodeIds().empty()) {
+            continue; // a set has at least one member
+        }
         out << "SET " << nodeGroup->getId() << " = ";
         bool firstNode = true;
         int nodeCount = 1;
@@ -1057,6 +1060,9 @@ string NastranWriter::writeModel(Model& model,
         out << " $ " << nodeGroup->getComment() << endl;
     }
     for (const auto& cellGroup : model.mesh.getCellGroups()) {
+        if (cellGroup->cellIds().empty()) {
+            continue;
+        }
         bool firstCell = true;
         int cellCount = 1;
         out << "SET " << cellGroup->getId() << " = ";
@@ -1096,6 +1102,9 @@ string NastranWriter::writeModel(Model& model,
 	for (const auto& analysis : model.analyses) {
 		out << "SUBCASE " << analysis->bestId() << endl;
 		for (const auto& loadSet : analysis->getLoadSets()) {
+			if (loadSet->type == LoadSet::Type::LOAD and loadSet->empty()) {
+				continue; // without any card to select
+			}
 			string typeName = loadSet->stringByType.find(loadSet->type)->second;
 			out << "  " << typeName << "=" << loadSet->bestId() << endl;
 		}
@@ -1103,6 +1112,9 @@ string NastranWriter::writeModel(Model& model,
 			if (constraintSet->type == ConstraintSet::Type::ALL) {
 				continue; // always active, not selectable
 			}
+			if (constraintSet->empty()) {
+				continue; // without any card to select
+			}
 			string typeName = constraintSet->stringByType.find(constraintSet->type)->second;
 			out << "  " << typeName << "=" << constraintSet->bestId() << endl;
 		}
-- 
2.43.0


From e84d997442b4a92e51a297bb1cb79211ce7353ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:57 +0000
Subject: [PATCH 114/139] fix: imposed displacements lost in Nastran output

---
 Nastran/NastranWriter.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 5e79a60..4c70e33 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -792,6 +792,21 @@ void NastranWriter::writeLoadings(const Model& model, ofstream& out) const
             forceLine->markAsWritten();
         }
 
+        for (const auto& loading : loadingSet->getLoadingsByType(Loading::Type::IMPOSED_DISPLACEMENT)) {
+            const auto& imposed = static_pointer_cast<ImposedDisplacement>(loading);
+            if (isCosmic()) {
+                handleWritingError("Imposed displacements do not exist in this dialect");
+                break;
+            }
+            for (const auto nodePosition : imposed->nodePositions()) {
+                for (const DOF dof : imposed->getDOFSForNode(nodePosition)) {
+                    out << Line("SPCD").add(loadingSet->bestId()).add(model.mesh.findNodeId(nodePosition))
+                            .add(DOFS(dof)).add(imposed->getDoubleForDOF(dof));
+                }
+            }
+            imposed->markAsWritten();
+        }
+
 		const auto& nodalForces = loadingSet->getLoadingsByType(
 				Loading::Type::NODAL_FORCE);
         for (const auto& loading : nodalForces) {
-- 
2.43.0


From c1520babc943d280134d7e5f2502d61d1fba51ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:57 +0000
Subject: [PATCH 115/139] fix: freedoms imposed on one node by several SPCD

---
 Abstract/Model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 6ab9ad4..5c6637e 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1523,7 +1523,7 @@ void Model::removeConstrainedImposed() {
             for (const auto& load : loads) {
                 const auto& impo = static_pointer_cast<ImposedDisplacement>(load);
                 for (const auto nodePosition : impo->nodePositions()) {
-                    imposedDofsByNodePosition[nodePosition] = impo->getDOFSForNode(nodePosition);
+                    imposedDofsByNodePosition[nodePosition] += impo->getDOFSForNode(nodePosition);
                 }
             }
         }
-- 
2.43.0


From b93679261d3c5cda9866735d150bae45d2eba106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:04 +0000
Subject: [PATCH 116/139] fix: offsets and inertias of CONM2 in Nastran output

---
 Nastran/NastranWriter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 4c70e33..c51f194 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -971,6 +971,13 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
             conm2.add(model.mesh.findNodeId(nodePosition));
             conm2.add(0); // CID
             conm2.add(mass->getMass());
+            if (mass->hasRotations()) {
+                const double multiplier = mass->getMassMultiplier();
+                conm2.add(mass->ex).add(mass->ey).add(mass->ez).add();
+                conm2.add(mass->ixx * multiplier);
+                conm2.add(-mass->ixy * multiplier).add(mass->iyy * multiplier);
+                conm2.add(-mass->ixz * multiplier).add(-mass->iyz * multiplier).add(mass->izz * multiplier);
+            }
             out << conm2;
             elementSet->markAsWritten();
         }
-- 
2.43.0


From 4172c0e49a54615e6556533746c0e918790210e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:52 +0000
Subject: [PATCH 117/139] fix: nodes first named by their only element are
 dropped from the node groups

---
 Abstract/Mesh.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Abstract/Mesh.cpp b/Abstract/Mesh.cpp
index cc27cc5..39084b9 100644
--- a/Abstract/Mesh.cpp
+++ b/Abstract/Mesh.cpp
@@ -264,7 +264,9 @@ pos_t Mesh::findOrReserveNode(int nodeId, int cellPartId) noexcept {
         nodePosition = addNode(nodeId, NodeStorage::RESERVED_POSITION, NodeStorage::RESERVED_POSITION,
                 NodeStorage::RESERVED_POSITION, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID, mainNodePart);
         nodes.nodepositionById[nodeId] = nodePosition;
-        nodes.reservedButUnusedNodePositions.insert(nodePosition);
+        if (cellPartId == Globals::UNAVAILABLE_INT) { // not reserved by a cell, which uses it
+            nodes.reservedButUnusedNodePositions.insert(nodePosition);
+        }
         if (this->logLevel >= LogLevel::TRACE) {
             cout << "Reserve node id:" << nodeId << " position:" << nodePosition << endl;
         }
-- 
2.43.0


From 28862ca53a0fffc33151a30c00aad56d57063807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:52 +0000
Subject: [PATCH 118/139] fix: ranges of a SET added nodes that do not exist to
 the mesh

---
 Abstract/Objective.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Abstract/Objective.cpp b/Abstract/Objective.cpp
index 67147cd..b6d4aeb 100644
--- a/Abstract/Objective.cpp
+++ b/Abstract/Objective.cpp
@@ -294,6 +294,8 @@ vector<shared_ptr<NodeGroup>> NodalDisplacementOutput::getNodeGroups() const {
         if (not model.mesh.hasGroup(groupName)) {
             nodeGroup = model.mesh.findOrCreateNodeGroup(groupName, NodeGroup::NO_ORIGINAL_ID, "SET");
             for (const int nodeId : setValue->getSet()) {
+                if (model.mesh.findNodePosition(nodeId) == Node::UNAVAILABLE_NODE)
+                    continue; // a set may name nodes which do not exist, with THRU in particular
                 nodeGroup->addNodeId(nodeId);
             }
             setValue->markAsWritten();
-- 
2.43.0


From 5ec2efe5b4ccda7bdec0a732efaeb49287f427ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:52 +0000
Subject: [PATCH 119/139] fix: the displacement request of a subcase replaces
 the one above it whatever its options

---
 Nastran/NastranParser.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 745fc0e..7f56846 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -189,6 +189,20 @@ const std::unordered_map<std::string, NastranParser::NastranAnalysis> NastranPar
         { "DESOPT", NastranAnalysis::DESOPT },
 };
 
+namespace {
+//a displacement request replaces the one that was active so far, whatever its spelling and options
+void setCaseControl(map<string, string>& context, const string& key, const string& value) {
+    const string request = "DISP";
+    if (boost::starts_with(key, request)) {
+        auto it = context.lower_bound(request);
+        while (it != context.end() and boost::starts_with(it->first, request)) {
+            it = context.erase(it);
+        }
+    }
+    context[key] = value;
+}
+}
+
 string NastranParser::parseSubcase(NastranTokenizer& tok, Model& model,
         map<string, string> context) {
     const auto& inputContext = tok.getInputContext();
@@ -217,7 +231,7 @@ string NastranParser::parseSubcase(NastranTokenizer& tok, Model& model,
             if (ACCEPTED_CASE_CONTROL_COMMANDS.find(nextKeywordWithoutOptions) == ACCEPTED_CASE_CONTROL_COMMANDS.end()) {
                 handleParsingWarning("Unknown case control command: " + nextKeywordWithoutOptions + " in subcase " + to_string(subCaseId), tok, model);
             }
-            context[nextKeyword] = line;
+            setCaseControl(context, nextKeyword, line);
             if (model.configuration.logLevel >= LogLevel::TRACE) {
                 cout << "Put into context :" << nextKeyword << "=" << line << endl;
             }
@@ -493,14 +507,14 @@ void NastranParser::parseExecutiveSection(NastranTokenizer& tok, Model& model,
                         if (parvalparts.size() < 2) {
                             handleParsingError("value cannot be parsed", tok, model);
                         }
-                        context[keyword] = parvalparts[1];
+                        setCaseControl(context, keyword, parvalparts[1]);
                     } else {
                         trim(parts[0]);boost::to_upper(parts[0]);
                         string partWithoutOptions = parts[0].substr(0, parts[0].find('('));
                         if (ACCEPTED_CASE_CONTROL_COMMANDS.find(partWithoutOptions) == ACCEPTED_CASE_CONTROL_COMMANDS.end()) {
                             handleParsingWarning("Unknown case control command: " + partWithoutOptions + " in executive section", tok, model);
                         }
-                        context[parts[0]] = trim_copy(parts[1]);
+                        setCaseControl(context, parts[0], trim_copy(parts[1]));
                     }
                 }
             }
-- 
2.43.0


From 707affa12be380d84fba07914ce01d1c103a3a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:52 +0000
Subject: [PATCH 120/139] fix: one displacement request per set, not one per
 analysis asking for it

---
 Nastran/NastranParser.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 7f56846..809f7c8 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -929,20 +929,19 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
             if (id != 0) {
                 const Reference<ObjectiveSet>& objectiveSetReference{ObjectiveSet::Type::DISP, id};
                 analysis->add(objectiveSetReference);
-                auto objectiveSet = model.find(objectiveSetReference);
-                if (model.find(objectiveSetReference) == nullptr) {
-                    objectiveSet = make_shared<ObjectiveSet>(model, ObjectiveSet::Type::DISP, id);
+                if (model.find(objectiveSetReference) == nullptr) { // the other analyses asking for the same set share its request
+                    const auto& objectiveSet = make_shared<ObjectiveSet>(model, ObjectiveSet::Type::DISP, id);
                     objectiveSet->setInputContext(tok.getInputContext());
                     model.add(objectiveSet);
-                }
-                auto nodalOutput = make_shared<NodalDisplacementOutput>(model, objectiveSet, make_shared<Reference<NamedValue>>(Value::Type::SET, id));
-                for (const auto& option:options) {
-                    if (option == "PHASE") {
-                        nodalOutput->complexOutput = NodalDisplacementOutput::ComplexOutputType::PHASE_MAGNITUDE;
+                    auto nodalOutput = make_shared<NodalDisplacementOutput>(model, objectiveSet, make_shared<Reference<NamedValue>>(Value::Type::SET, id));
+                    for (const auto& option:options) {
+                        if (option == "PHASE") {
+                            nodalOutput->complexOutput = NodalDisplacementOutput::ComplexOutputType::PHASE_MAGNITUDE;
+                        }
                     }
+                    nodalOutput->setInputContext(tok.getInputContext());
+                    model.add(nodalOutput);
                 }
-                nodalOutput->setInputContext(tok.getInputContext());
-                model.add(nodalOutput);
             }
         } else if (!key.compare(0, 4, "OFREQUENCY")) {
             if (id != 0) {
-- 
2.43.0


From 4af9e03868cf68344c4ef62789ba35f32067ca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:52 +0000
Subject: [PATCH 121/139] fix: coordinate systems of GRDSET, and GRDSET after
 the GRIDs

---
 Nastran/NastranParser.h            | 19 ++++++++---
 Nastran/NastranParser_geometry.cpp | 54 ++++++++++++++++++------------
 2 files changed, 47 insertions(+), 26 deletions(-)

diff --git a/Nastran/NastranParser.h b/Nastran/NastranParser.h
index 7d7e76e..83e0ca5 100644
--- a/Nastran/NastranParser.h
+++ b/Nastran/NastranParser.h
@@ -58,17 +58,28 @@ protected:
 private:
     class GrdSet {
     public:
-        GrdSet(const pos_t cp = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID,
-                const pos_t cd = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID,
+        GrdSet(const int cp = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID,
+                const int cd = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID,
                 const int ps = 0, const int seid = 0) :
                     cp(cp), cd(cd), ps(ps), seid(seid) {
         }
-        pos_t cp;
-        pos_t cd;
+        int cp; /**< original id **/
+        int cd; /**< original id **/
         int ps;
         int seid;
     };
     GrdSet grdSet;
+    struct Grid {
+        int id;
+        double x1;
+        double x2;
+        double x3;
+        int cp;
+        int cd;
+        int ps;
+    };
+    std::vector<Grid> incompleteGrids; /**< grids with blank fields, read before the GRDSET that fills them **/
+    void addGrid(Model& model, const Grid& grid);
 
     std::unordered_map<std::string, Reference<ElementSet>> directMatrixByName;
     static const std::unordered_map<std::string, NastranAnalysis> ANALYSIS_BY_LABEL;
diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index 2d56b54..24a054e 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -57,23 +57,23 @@ const unordered_map<CellType::Code, vector<int>, EnumClassHash> NastranParser::n
 
 void NastranParser::parseGRDSET(NastranTokenizer& tok, Model& model) {
     tok.skip(1);
-    int cp = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
-    if (cp != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
-        grdSet.cp = model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, cp));
-        }
+    grdSet.cp = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
     tok.skip(3);
-    int cd = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
-    if (cd != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
-        grdSet.cd = model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, cd));
-        }
+    grdSet.cd = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
     grdSet.ps = tok.nextInt(true, 0);
     grdSet.seid = tok.nextInt(true, 0);
-
+    // the GRDSET applies to every GRID, wherever it is
+    for (Grid grid : incompleteGrids) {
+        if (grid.ps != Globals::UNAVAILABLE_INT) {
+            grid.ps = 0; // already added
+        }
+        addGrid(model, grid);
+    }
+    incompleteGrids.clear();
 }
 
-void NastranParser::parseGRID(NastranTokenizer& tok, Model& model) {
-    int id = tok.nextInt();
-    int cp = tok.nextInt(true, static_cast<int>(grdSet.cp));
+void NastranParser::addGrid(Model& model, const Grid& grid) {
+    const int cp = grid.cp == Globals::UNAVAILABLE_INT ? grdSet.cp : grid.cp;
     pos_t cpos = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID;
     string scp;
     if (cp != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
@@ -81,31 +81,41 @@ void NastranParser::parseGRID(NastranTokenizer& tok, Model& model) {
         scp=" in CS"+to_string(cp)+"_"+to_string(cpos);
     }
 
-    double x1 = tok.nextDouble(true, 0.0);
-    double x2 = tok.nextDouble(true, 0.0);
-    double x3 = tok.nextDouble(true, 0.0);
-
     /* Coordinate System for Displacement */
-    int cd = tok.nextInt(true, static_cast<int>(grdSet.cd));
+    const int cd = grid.cd == Globals::UNAVAILABLE_INT ? grdSet.cd : grid.cd;
     pos_t cdos = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID;
     string scd="";
     if (cd != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
         cdos = model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, cd));
         scd=", DISP in CS"+to_string(cd)+"_"+to_string(cdos);
     }
-    model.mesh.addNode(id, x1, x2, x3, cpos, cdos);
+    model.mesh.addNode(grid.id, grid.x1, grid.x2, grid.x3, cpos, cdos);
 
-    int ps = tok.nextInt(true, grdSet.ps);
+    const int ps = grid.ps == Globals::UNAVAILABLE_INT ? grdSet.ps : grid.ps;
     if (ps) {
-        string spcName = "SPC" + to_string(id);
         const auto& spc = make_shared<SinglePointConstraint>(model, DOFS::nastranCodeToDOFS(ps));
-        spc->addNodeId(id);
+        spc->addNodeId(grid.id);
         model.add(spc);
         model.addConstraintIntoConstraintSet(*spc, *model.commonConstraintSet);
     }
 
     if (this->logLevel >= LogLevel::TRACE) {
-        cout << fixed << "GRID " << id << ": (" << x1 << ";" << x2 << ";" << x3 <<")"<< scp<<scd<< endl;
+        cout << fixed << "GRID " << grid.id << ": (" << grid.x1 << ";" << grid.x2 << ";" << grid.x3 <<")"<< scp<<scd<< endl;
+    }
+}
+
+void NastranParser::parseGRID(NastranTokenizer& tok, Model& model) {
+    Grid grid;
+    grid.id = tok.nextInt();
+    grid.cp = tok.nextInt(true, Globals::UNAVAILABLE_INT);
+    grid.x1 = tok.nextDouble(true, 0.0);
+    grid.x2 = tok.nextDouble(true, 0.0);
+    grid.x3 = tok.nextDouble(true, 0.0);
+    grid.cd = tok.nextInt(true, Globals::UNAVAILABLE_INT);
+    grid.ps = tok.nextInt(true, Globals::UNAVAILABLE_INT);
+    addGrid(model, grid);
+    if (grid.cp == Globals::UNAVAILABLE_INT or grid.cd == Globals::UNAVAILABLE_INT or grid.ps == Globals::UNAVAILABLE_INT) {
+        incompleteGrids.push_back(grid);
     }
 }
 
-- 
2.43.0


From d4f6a741a40a96cbc7bbac7e6f170ddd75ea953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:52 +0000
Subject: [PATCH 122/139] fix: rows of large fields continuing explicitly rows
 of small fields

---
 Nastran/NastranTokenizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 4eff182..b9ce73e 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -395,7 +395,8 @@ void NastranTokenizer::splitFixedFormat(string& line, const bool longFormat, con
 		//todo:check that continuation tokens are the same
 		bool iseof = readLineSkipComment(line2, false);
 		if (!iseof) {
-			splitFixedFormat(line2, longFormat, false);
+			//lines of large fields can continue lines of small fields
+			splitFixedFormat(line2, longFormat or line2[0] == '*', false);
 		} else {
 			handleParsingWarning("Continuation expected at the end of the file.");
 		}
-- 
2.43.0


From 6151162ee4e2b6120539be4773f654fb9101b42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:52 +0000
Subject: [PATCH 123/139] fix: Optistruct SET of elements was empty

---
 Optistruct/OptistructParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Optistruct/OptistructParser.cpp b/Optistruct/OptistructParser.cpp
index a71869a..9e830ed 100644
--- a/Optistruct/OptistructParser.cpp
+++ b/Optistruct/OptistructParser.cpp
@@ -129,7 +129,7 @@ void OptistructParser::parseSET(nastran::NastranTokenizer& tok, Model& model) {
         const auto& setValue = make_shared<SetValue<int>>(model, set<int>{ids.begin(), ids.end()}, sid);
         model.add(setValue);
         shared_ptr<CellGroup> cellGroup = model.mesh.createCellGroup(name,CellGroup::NO_ORIGINAL_ID,"SET");
-        for (const auto& id : tok.nextInts()) {
+        for (const auto& id : ids) {
             cellGroup->addCellId(id);
         }
         tok.skipToNotEmpty();
-- 
2.43.0


From 7bc70659f81ec0604775ba385e8af52540cb02b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:24 +0000
Subject: [PATCH 124/139] fix: abscissas and forces of PLOAD1 follow its scale
 (LE was read in global axes, FRPR as FR, lengths as fractions)

---
 Abstract/Loading.h        |  8 ++++++++
 Abstract/Model.cpp        | 32 ++++++++++++++++++++++++++++++++
 Abstract/Model.h          |  1 +
 Abstract/Value.cpp        |  6 ++++++
 Abstract/Value.h          |  1 +
 Nastran/NastranParser.cpp | 38 ++++++++++++--------------------------
 6 files changed, 60 insertions(+), 26 deletions(-)

diff --git a/Abstract/Loading.h b/Abstract/Loading.h
index 37ef9e8..3823828 100644
--- a/Abstract/Loading.h
+++ b/Abstract/Loading.h
@@ -371,9 +371,17 @@ public:
  */
 class ForceLine: public CellLoading {
 public:
+	/** how the table of the force is given: abscissas as fractions or lengths, forces by length or by projected length */
+	enum class Scale {
+		FRACTION,
+		LENGTH,
+		PROJECTED_FRACTION,
+		PROJECTED_LENGTH
+	};
 
 	std::shared_ptr<NamedValue> force;
 	DOF dof;
+	Scale tableScale = Scale::FRACTION;
     ForceLine(Model&, const std::shared_ptr<LoadSet> loadset, const std::shared_ptr<NamedValue> force, DOF component,
 			const int original_id = NO_ORIGINAL_ID);
 
diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 5c6637e..87b806a 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2075,6 +2075,36 @@ void Model::addAutoAnalysis() {
     }
 }
 
+void Model::changeForceLineScalesToFraction() {
+    for (const auto& loading: this->loadings.filter(Loading::Type::FORCE_LINE)) {
+        const auto& forceLine = static_pointer_cast<ForceLine>(loading);
+        const auto& functionTable = dynamic_pointer_cast<FunctionTable>(forceLine->force);
+        if (forceLine->tableScale == ForceLine::Scale::FRACTION or functionTable == nullptr)
+            continue;
+        const auto& cellPositions = forceLine->getCellPositionsIncludingGroups();
+        if (cellPositions.size() != 1)
+            continue;
+        const Cell& cell = mesh.findCell(*cellPositions.begin());
+        const Node& node1 = mesh.findNode(cell.nodePositions[0]);
+        const Node& node2 = mesh.findNode(cell.nodePositions[1]);
+        VectorialValue bar(node2.x - node1.x, node2.y - node1.y, node2.z - node1.z);
+        const double length = bar.norm();
+        if (is_zero(length))
+            continue;
+        const auto scale = forceLine->tableScale;
+        if (scale == ForceLine::Scale::LENGTH or scale == ForceLine::Scale::PROJECTED_LENGTH) {
+            functionTable->scaleX(1.0 / length);
+        }
+        if (scale == ForceLine::Scale::PROJECTED_FRACTION or scale == ForceLine::Scale::PROJECTED_LENGTH) {
+            const DOF dof = forceLine->dof;
+            const VectorialValue direction(dof == DOF::DX, dof == DOF::DY, dof == DOF::DZ);
+            if (not direction.iszero())
+                functionTable->scale(bar.cross(direction).norm() / length);
+        }
+        forceLine->tableScale = ForceLine::Scale::FRACTION;
+    }
+}
+
 void Model::changeParametricForceLineToAbsolute() {
     for (const auto& loading: this->loadings.filter(Loading::Type::FORCE_LINE)) {
         const auto& forceLine = static_pointer_cast<ForceLine>(loading);
@@ -2289,6 +2319,8 @@ void Model::finish() {
         coordinateSystemEntry.second->build();
     }
 
+    changeForceLineScalesToFraction();
+
     for (const auto& elementSet : elementSets) {
         for (const auto nodePosition : elementSet->nodePositions()) {
             mesh.allowDOFS(nodePosition,elementSet->getDOFSForNode(nodePosition));
diff --git a/Abstract/Model.h b/Abstract/Model.h
index 77e46e5..2b3d070 100644
--- a/Abstract/Model.h
+++ b/Abstract/Model.h
@@ -147,6 +147,7 @@ private:
      * with absolute (X,Y,Z coordinates)
      */
     void changeParametricForceLineToAbsolute();
+    void changeForceLineScalesToFraction();
 
     /**
      * Converts 0D Discrets into 1Ds
diff --git a/Abstract/Value.cpp b/Abstract/Value.cpp
index 145bcd3..8934142 100644
--- a/Abstract/Value.cpp
+++ b/Abstract/Value.cpp
@@ -157,6 +157,12 @@ void FunctionTable::scale(double factor) {
     }
 }
 
+void FunctionTable::scaleX(double factor) {
+    for(auto& xy: valuesXY) {
+            xy.first *= factor;
+    }
+}
+
 ConstantValue::ConstantValue(const Model& model, Type type, double value, int original_id) :
         NamedValue(model, type, original_id), value(value) {
 }
diff --git a/Abstract/Value.h b/Abstract/Value.h
index 45a3adc..ae080a4 100644
--- a/Abstract/Value.h
+++ b/Abstract/Value.h
@@ -355,6 +355,7 @@ public:
     std::vector<std::pair<double, double> >::const_iterator getEndValuesXY() const;
     bool iszero() const override;
     void scale(double factor) override;
+    void scaleX(double factor);
 };
 
 class ConstantValue: public NamedValue {
diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 809f7c8..11c840a 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2857,36 +2857,21 @@ void NastranParser::parsePLOAD1(NastranTokenizer& tok, Model& model) {
     else
         handleParsingError(string("PLOAD1 TYPE not yet implemented."), tok, model);
 
+    // Whatever the scale, the abscissas and the forces are given by the card : lengths and projections are converted when the mesh is complete.
     double effx1 = x1, effx2 = x2, effp1 = p1, effp2 = p2;
-
+    force->setParaX(FunctionTable::ParaName::ABSC);
+    ForceLine::Scale tableScale = ForceLine::Scale::FRACTION;
     if (scale == "LE") {
-        /* If SCALE = LE, the total load applied to the bar is P1(X2 - X1) in the yb direction. */
-        force->setParaX(FunctionTable::ParaName::PARAX);
-        effx1 = x1;
-        effx2 = x2;
-        effp1 = p1;
-        effp2 = p2;
-    } else if (scale == "FRPR" or scale == "FR") {
-        /* If SCALE = FRPR (fractional projected), the Xi values are ratios of the actual distance to the length of the bar
-         * and (X1 ≠ X2) the distributed load is input in terms of the projected length of the bar.*/
-        // TODO LD: encapsulate all this in mesh/cell/node (but it needs model)
-        force->setParaX(FunctionTable::ParaName::ABSC);
-//        int cellPos = model.mesh.findCellPosition(eid);
-//        const Cell& cell = model.mesh.findCell(cellPos);
-//        std::shared_ptr<OrientationCoordinateSystem> ocs = cell.orientation;
-//        const Node& firstNode = model.mesh.findNode(cell.nodePositions.front());
-//        const Node& lastNode = model.mesh.findNode(cell.nodePositions.back());
-//        const VectorialValue& barvect = VectorialValue(lastNode.x - firstNode.x, lastNode.y - firstNode.y, lastNode.z - firstNode.z);
-//        double dist = barvect.norm();
         /* If SCALE = LE (length), the Xi values are actual distances along the bar x-axis,
          * and (if X1 ≠ X2) Pi are load intensities per unit length of the bar. */
-//        effx1 = x1 * dist;
-//        effx2 = x2 * dist;
-        effx1 = x1;
-        effx2 = x2;
-        effp1 = p1;
-        effp2 = p2;
-    } else {
+        tableScale = ForceLine::Scale::LENGTH;
+    } else if (scale == "FRPR") {
+        /* If SCALE = FRPR (fractional projected), the Xi values are ratios of the actual distance to the length of the bar
+         * and (X1 ≠ X2) the distributed load is input in terms of the projected length of the bar.*/
+        tableScale = ForceLine::Scale::PROJECTED_FRACTION;
+    } else if (scale == "LEPR") {
+        tableScale = ForceLine::Scale::PROJECTED_LENGTH;
+    } else if (scale != "FR") {
         handleParsingError(string("PLOAD1 SCALE not yet implemented."), tok, model);
     }
 
@@ -2909,6 +2894,7 @@ void NastranParser::parsePLOAD1(NastranTokenizer& tok, Model& model) {
     model.add(force);
     const auto& loadSet = model.getOrCreateLoadSet(loadset_id, LoadSet::Type::LOAD);
     const auto& forceLine = make_shared<ForceLine>(model, loadSet, force, dof);
+    forceLine->tableScale = tableScale;
     forceLine->addCellId(eid);
     forceLine->setInputContext(tok.getInputContext());
     model.add(forceLine);
-- 
2.43.0


From 4794a66a5f2f37a7b370cf2af947867005c9df8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:24 +0000
Subject: [PATCH 125/139] fix: PLOAD1 of a part of a bar was written to Nastran
 with the artificial zero before it as its first value

---
 Nastran/NastranWriter.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index c51f194..c3a0f34 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -770,12 +770,21 @@ void NastranWriter::writeLoadings(const Model& model, ofstream& out) const
             }
             const auto& functionTable = static_pointer_cast<FunctionTable>(forceLine->force);
             auto it = functionTable->getBeginValuesXY();
+            auto last = functionTable->getEndValuesXY();
+            // the steep ramps from zero and to zero around the loaded part of the bar are not part of the load
+            const auto& isSteep = [](const pair<double, double>& from, const pair<double, double>& to) {
+                return abs(to.first - from.first) <= 1.01e-3 * max(abs(from.first), abs(to.first));
+            };
+            if (distance(it, last) > 2 and is_zero((last - 1)->second) and isSteep(*(last - 2), *(last - 1)))
+                --last;
+            if (distance(it, last) > 2 and is_zero(it->second) and isSteep(*it, *(it + 1)))
+                ++it;
             double x1 = it->first;
             double p1 = it->second;
             it++;
             double x2 = it->first;
             double p2 = it->second;
-            if (++it != functionTable->getEndValuesXY())
+            if (++it != last)
                 handleWritingWarning("More than two values in function table for force line, ignoring from the third.");
             for (const int cellId: forceLine->getCellIdsIncludingGroups()) {
                 Line pload1("PLOAD1");
-- 
2.43.0


From 8a2ae0ebe50e22b5c145a927d9cf9b189c929b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:24 +0000
Subject: [PATCH 126/139] fix: SPCFORCES and MPCFORCES requests selected
 constraint sets

---
 Nastran/NastranParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 11c840a..5881df8 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -877,6 +877,9 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
             key = options[0];
             options.erase(options.begin());
         }
+        if (boost::starts_with(key, "SPCF") or boost::starts_with(key, "MPCF")) {
+            continue; // a request of forces for a set of nodes, which selects no constraint
+        }
         if (!key.compare(0, 3, "SPC")) {
             Reference<ConstraintSet> constraintReference(ConstraintSet::Type::SPC, id);
             analysis->add(constraintReference);
-- 
2.43.0


From 56924c24e52f78a6f428d1dc92525a82e83188b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:24 +0000
Subject: [PATCH 127/139] fix: constants of the gaps of several PGAP collided,
 and the z component was tested on y

---
 Aster/AsterWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index d2776fa..d88c19d 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1562,9 +1562,9 @@ void AsterWriter::writeDefiContact() {
 //        const auto& surfaceSlides = constraintSet.getConstraintsByType(
 //				Constraint::Type::SURFACE_SLIDE_CONTACT);
         const auto& zones = constraintSet.getConstraintsByType(Constraint::Type::ZONE_CONTACT);
+		int gapCount = 0;
 		for (const auto& constraint : gaps) {
 			const auto& gap = static_pointer_cast<const Gap>(constraint);
-			int gapCount = 0;
 			for (const auto& gapParticipation : gap->getGaps()) {
 				gapCount++;
 				comm_file_ofs << "C" << constraintSet.getId() << "I" << to_string(gapCount)
@@ -1579,7 +1579,7 @@ void AsterWriter::writeDefiContact() {
 							<< "=DEFI_CONSTANTE(VALE=" << gapParticipation->direction.y() << ")"
 							<< endl;
 				}
-				if (!is_zero(gapParticipation->direction.y())) {
+				if (!is_zero(gapParticipation->direction.z())) {
 					comm_file_ofs << "C" << constraintSet.getId() << "MZ" << to_string(gapCount)
 							<< "=DEFI_CONSTANTE(VALE=" << gapParticipation->direction.z() << ")"
 							<< endl;
@@ -1601,9 +1601,9 @@ void AsterWriter::writeDefiContact() {
 		    comm_file_ofs << "                   FORMULATION='CONTINUE'," << endl;
 		}
 		comm_file_ofs << "                   ZONE=(" << endl;
+		gapCount = 0;
 		for (const auto& constraint : gaps) {
 			const auto& gap = static_pointer_cast<Gap>(constraint);
-			int gapCount = 0;
 			for (const auto& gapParticipation : gap->getGaps()) {
 				gapCount++;
 				comm_file_ofs << "                             _F(";
-- 
2.43.0


From 2ce414cdd659f9f40a6590a6023e00111ab67ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:24 +0000
Subject: [PATCH 128/139] fix: BCONTACT was never recognised, non linear
 analyses used every contact, and constraints of a set with contacts were
 dropped

---
 Abstract/Constraint.cpp   | 10 ++++++++
 Abstract/Constraint.h     |  1 +
 Aster/AsterWriter.cpp     | 54 ++++++++++++++++++++++++---------------
 Aster/AsterWriter.h       |  1 +
 Nastran/NastranParser.cpp |  2 +-
 5 files changed, 47 insertions(+), 21 deletions(-)

diff --git a/Abstract/Constraint.cpp b/Abstract/Constraint.cpp
index f3088a7..ebd6ca7 100644
--- a/Abstract/Constraint.cpp
+++ b/Abstract/Constraint.cpp
@@ -117,6 +117,16 @@ bool ConstraintSet::hasFunctions() const noexcept {
 	return false;
 }
 
+bool ConstraintSet::hasOnlyContacts() const noexcept {
+    const auto& allConstraints = getConstraints();
+    for (const auto& constraint : allConstraints) {
+        if (not constraint->isContact()) {
+            return false;
+        }
+    }
+    return not allConstraints.empty();
+}
+
 bool ConstraintSet::hasContacts() const noexcept {
     for (const auto& constraint : getConstraints()) {
 		if (constraint->isContact()) {
diff --git a/Abstract/Constraint.h b/Abstract/Constraint.h
index 910cb12..1836e21 100644
--- a/Abstract/Constraint.h
+++ b/Abstract/Constraint.h
@@ -94,6 +94,7 @@ public:
 	std::shared_ptr<ConstraintSet> clone() const;
 	bool hasFunctions() const noexcept;
 	bool hasContacts() const noexcept;
+	bool hasOnlyContacts() const noexcept;
 };
 
 /**
diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index d88c19d..cca6433 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1465,14 +1465,7 @@ void AsterWriter::writeAffeCharMeca() {
 			constraintSet.markAsWritten();
 			continue;
 		}
-		bool contactOnly = true;
-		for(const auto& constraint : constraintSet.getConstraints()) {
-		    if (not constraint->isContact()) {
-		        contactOnly = false;
-                break;
-		    }
-		}
-		if (contactOnly) {
+		if (constraintSet.hasOnlyContacts()) {
 			continue;
 		}
 		if (constraintSet.isOriginal()) {
@@ -1587,7 +1580,7 @@ void AsterWriter::writeDefiContact() {
 			}
 		}
 		const auto& asterName = "CN" + to_string(constraintSet.getId());
-		asternameByConstraintSet[constraintSet] = asterName;
+		asternameByContactSet[constraintSet] = asterName;
 		if (constraintSet.isOriginal()) {
             comm_file_ofs << "# ConstraintSet original id:" << constraintSet.getOriginalId() << endl;
 		}
@@ -2253,10 +2246,18 @@ void AsterWriter::writeAssemblage(const std::shared_ptr<Analysis>& analysis, boo
 
     ostringstream oss;
     oss << "MODELE=MODMECA," << endl;
-    const auto& constraintSets = analysis->getConstraintSets();
+    vector<shared_ptr<ConstraintSet>> constraintSets;
+    for (const auto& constraintSet : analysis->getConstraintSets()) {
+        if (constraintSet->hasContacts()) {
+            handleWritingWarning("Contacts are ignored by a linear analysis", "Analysis");
+        }
+        if (not constraintSet->hasOnlyContacts()) {
+            constraintSets.push_back(constraintSet);
+        }
+    }
     if (not constraintSets.empty()) {
         oss << "           CHARGE=(" << endl;
-        for (const auto& constraintSet : analysis->getConstraintSets()) {
+        for (const auto& constraintSet : constraintSets) {
             oss << "                   BL" << constraintSet->getId() << "," << endl;
         }
         oss << "                   )," << endl;
@@ -2475,8 +2476,11 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
 			comm_file_ofs << "                           _F(CHARGE=" << asternameByLoadSet[loadSet] << ")," << endl;
 		}
 		for (const auto& constraintSet : linearMecaStat->getConstraintSets()) {
+			if (constraintSet->hasContacts()) {
+				handleWritingWarning("Contacts are ignored by a linear analysis", "Analysis");
+			}
 			//GC: dirty fix for #801, a deeper analysis must be done
-			if (not constraintSet->empty()) {
+			if (not constraintSet->empty() and not constraintSet->hasOnlyContacts()) {
 				comm_file_ofs << "                           _F(CHARGE=" << asternameByConstraintSet[constraintSet] << "),"
 						<< endl;
 			}
@@ -2526,7 +2530,7 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
 					<< ",FONC_MULT=RAMP" << nonLinAnalysis->getId() << ")," << "# Original id:" << loadSet->getOriginalId() << endl;
 		}
 		for (const auto& constraintSet : nonLinAnalysis->getConstraintSets()) {
-			if (constraintSet->hasContacts()) {
+			if (constraintSet->hasOnlyContacts()) {
 				continue;
 			}
 			//GC: dirty fix for #801, a deeper analysis must be done
@@ -2536,15 +2540,25 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
 			}
 		}
 		comm_file_ofs << "                           )," << endl;
-		for (const auto& constraintSet : asterModel->model.constraintSets) {
-			if (constraintSet->empty()) {
-				// LD filter empty constraintSet
-				continue;
+		// the contacts of the analysis, or all of them when no analysis selects any
+		bool selectedContacts = false;
+		for (const auto& otherAnalysis : asterModel->model.analyses) {
+			for (const auto& constraintSet : otherAnalysis->getConstraintSets()) {
+				selectedContacts = selectedContacts or constraintSet->type == ConstraintSet::Type::CONTACT;
 			}
-			if (not constraintSet->hasContacts()) {
-				continue;
+		}
+		vector<shared_ptr<ConstraintSet>> contactSets;
+		for (const auto& constraintSet : asterModel->model.constraintSets) {
+			if (constraintSet->hasContacts() and (not selectedContacts or nonLinAnalysis->contains(constraintSet->getReference()))) {
+				contactSets.push_back(constraintSet);
 			}
-			comm_file_ofs << "                    CONTACT=" << asternameByConstraintSet[constraintSet] << "," << "# Original id:" << constraintSet->getOriginalId() << endl;
+		}
+		if (contactSets.size() > 1) {
+			handleWritingError("Only one set of contacts is supported in an analysis, ignoring the others", "Analysis");
+		}
+		if (not contactSets.empty()) {
+			const auto& contactSet = contactSets.front();
+			comm_file_ofs << "                    CONTACT=" << asternameByContactSet[contactSet] << "," << "# Original id:" << contactSet->getOriginalId() << endl;
 		}
 		comm_file_ofs << "                    COMPORTEMENT=(" << endl;
 		for (const auto& elementSet : asterModel->model.elementSets) {
diff --git a/Aster/AsterWriter.h b/Aster/AsterWriter.h
index b1231ff..0618e45 100644
--- a/Aster/AsterWriter.h
+++ b/Aster/AsterWriter.h
@@ -32,6 +32,7 @@ class AsterWriter final : public Writer {
 	std::map<Reference<NamedValue>, std::string> asternameByValue;
 	std::map<Reference<LoadSet>, std::string> asternameByLoadSet;
 	std::map<Reference<ConstraintSet>, std::string> asternameByConstraintSet;
+	std::map<Reference<ConstraintSet>, std::string> asternameByContactSet;
 	std::list<std::string> destroyableConcepts;
 //	std::set<int> singleGroupCellPositions;
 	static constexpr double SMALLEST_RELATIVE_COMPARISON = 1e-7;
diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 5881df8..c3bb754 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -920,7 +920,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
                 loadSet->setInputContext(tok.getInputContext());
                 model.add(loadSet);
             }
-        } else if (!key.compare(0, 4, "BCONTACT")) {
+        } else if (!key.compare(0, 8, "BCONTACT")) {
             Reference<ConstraintSet> constraintReference(ConstraintSet::Type::CONTACT, id);
             analysis->add(constraintReference);
             if (!model.find(constraintReference)) { // constraintSet is added in the model if not found in the model
-- 
2.43.0


From 60f9cac4744940fa4204374f914185f1e91a271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:24 +0000
Subject: [PATCH 129/139] fix: of two gaps of one property on the same node
 only the last was kept

---
 Abstract/Constraint.cpp | 6 +++---
 Abstract/Constraint.h   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Abstract/Constraint.cpp b/Abstract/Constraint.cpp
index ebd6ca7..faff755 100644
--- a/Abstract/Constraint.cpp
+++ b/Abstract/Constraint.cpp
@@ -623,7 +623,7 @@ GapTwoNodes::GapTwoNodes(Model& model, int original_id) :
 void GapTwoNodes::addGapNodes(int constrainedNodeId, int directionNodeId) {
     const auto constrainedNodePosition = model.mesh.findOrReserveNode(constrainedNodeId);
     const auto directionNodePosition = model.mesh.findOrReserveNode(directionNodeId);
-    directionNodePositionByconstrainedNodePosition[constrainedNodePosition] = directionNodePosition;
+    directionNodePositionByconstrainedNodePosition.insert({constrainedNodePosition, directionNodePosition});
 }
 
 vector<shared_ptr<Gap::GapParticipation>> GapTwoNodes::getGaps() const {
@@ -657,9 +657,9 @@ bool GapTwoNodes::ineffective() const {
 }
 
 DOFS GapTwoNodes::getDOFSForNode(const pos_t nodePosition) const {
-    const auto& it = directionNodePositionByconstrainedNodePosition.find(nodePosition);
+    const auto& range = directionNodePositionByconstrainedNodePosition.equal_range(nodePosition);
     DOFS dofs(DOFS::NO_DOFS);
-    if (it != directionNodePositionByconstrainedNodePosition.end()) {
+    for (auto it = range.first; it != range.second; ++it) {
         const Node& constrainedNode = model.mesh.findNode(it->first);
         const Node& directionNode = model.mesh.findNode(it->second);
         VectorialValue direction(directionNode.x - constrainedNode.x,
diff --git a/Abstract/Constraint.h b/Abstract/Constraint.h
index 1836e21..53d4a50 100644
--- a/Abstract/Constraint.h
+++ b/Abstract/Constraint.h
@@ -252,7 +252,7 @@ public:
 
 class GapTwoNodes: public Gap {
 private:
-	std::map<pos_t, pos_t> directionNodePositionByconstrainedNodePosition;
+	std::multimap<pos_t, pos_t> directionNodePositionByconstrainedNodePosition;
 public:
 	GapTwoNodes(Model& model, int original_id = NO_ORIGINAL_ID);
 	void addGapNodes(int constrainedNodeId, int directionNodeId);
-- 
2.43.0


From 133b901b81484e6fc2d393ac318788475b8526c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:24 +0000
Subject: [PATCH 130/139] fix: triangles of a BSSEG crashed (fourth node zero,
 or missing at the end of the list)

---
 Abstract/Constraint.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Abstract/Constraint.cpp b/Abstract/Constraint.cpp
index faff755..39c126a 100644
--- a/Abstract/Constraint.cpp
+++ b/Abstract/Constraint.cpp
@@ -798,6 +798,7 @@ set<pos_t> SurfaceContact::nodePositions() const {
         throw logic_error("Cannot find master node list");
     }
     for (int nodeId : masterSurface->nodeids) {
+        if (nodeId == 0) continue; // fourth node of a triangle
         result.insert(model.mesh.findNodePosition(nodeId));
     }
     const auto& slaveSurface = dynamic_pointer_cast<BoundaryNodeSurface>(model.find(slave));
@@ -805,6 +806,7 @@ set<pos_t> SurfaceContact::nodePositions() const {
         throw logic_error("Cannot find slave node list");
     }
     for (int nodeId : slaveSurface->nodeids) {
+        if (nodeId == 0) continue; // fourth node of a triangle
         result.insert(model.mesh.findNodePosition(nodeId));
     }
     return result;
@@ -835,11 +837,11 @@ void SurfaceContact::makeBoundarySurfaces() {
     }
     const auto& slaveNodeIds = slaveNodeSurface->nodeids;
     auto it2 = slaveNodeIds.begin();
-    for(unsigned int i = 0; i < slaveNodeIds.size();i+=4) {
+    for(unsigned int i = 0; i + 2 < slaveNodeIds.size();i+=4) {
         int nodeId1 = *(it2++);
         int nodeId2 = *(it2++);
         int nodeId3 = *(it2++);
-        int nodeId4 = *(it2++);
+        int nodeId4 = it2 != slaveNodeIds.end() ? *(it2++) : 0; // a triangle may be the last segment
         vector<int> connectivity {nodeId1, nodeId2, nodeId3};
         CellType cellType {CellType::TRI3};
         if (nodeId4 != 0) {
@@ -856,11 +858,11 @@ void SurfaceContact::makeBoundarySurfaces() {
     }
     const auto& masterNodeIds = masterNodeSurface->nodeids;
     auto it = masterNodeIds.begin();
-    for(unsigned int i = 0; i < masterNodeIds.size();i+=4) {
+    for(unsigned int i = 0; i + 2 < masterNodeIds.size();i+=4) {
         int nodeId1 = *(it++);
         int nodeId2 = *(it++);
         int nodeId3 = *(it++);
-        int nodeId4 = *(it++);
+        int nodeId4 = it != masterNodeIds.end() ? *(it++) : 0; // a triangle may be the last segment
         vector<int> connectivity {nodeId1, nodeId2, nodeId3};
         CellType cellType {CellType::TRI3};
         if (nodeId4 != 0) {
-- 
2.43.0


From 9e1fbb9c2802f81da9356bcc47e0cc052318b72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:24 +0000
Subject: [PATCH 131/139] fix: a BCBODY and a BSURF of the same number were
 taken for one another

---
 Abstract/Model.cpp        | 7 +++----
 Nastran/NastranParser.cpp | 4 ++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 87b806a..70ac373 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -371,11 +371,10 @@ shared_ptr<ElementSet> Model::find(const Reference<ElementSet> reference) const
 template<>
 shared_ptr<Target> Model::find(const Reference<Target> reference) const {
     shared_ptr<Target> target;
-    if (reference.id == Reference<Target>::NO_ID)
-        // retrieve by original_id
+    target = targets.find(reference);
+    if (target == nullptr and reference.id == Reference<Target>::NO_ID)
+        // retrieve by original_id only, whatever the type
         target = targets.find(reference.original_id);
-    else
-        target = targets.find(reference);
     return target;
 }
 
diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index c3bb754..d780e0e 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1129,7 +1129,7 @@ void NastranParser::parseBCTABLE(NastranTokenizer& tok, Model& model) {
     int idslave = tok.nextInt(true,0);
     int idmaster = tok.nextInt(true,0);
     if (idslave != 0 and idmaster != 0) {
-        const auto& zone = make_shared<ZoneContact>(model, Reference<Target>(Target::Type::BOUNDARY_SURFACE, idmaster), Reference<Target>(Target::Type::BOUNDARY_SURFACE, idslave));
+        const auto& zone = make_shared<ZoneContact>(model, Reference<Target>(Target::Type::CONTACT_BODY, idmaster), Reference<Target>(Target::Type::CONTACT_BODY, idslave));
         zone->setInputContext(tok.getInputContext());
         model.add(zone);
         model.addConstraintIntoConstraintSet(*zone, constraintSetReference);
@@ -1149,7 +1149,7 @@ void NastranParser::parseBCTABLE(NastranTokenizer& tok, Model& model) {
         if (not (tok.isNextEmpty() or tok.isEmptyUntilNextKeyword())) {
             handleParsingError("BCTABLE with more than one master on MASTERS line", tok, model);
         }
-        const auto& zone = make_shared<ZoneContact>(model, Reference<Target>(Target::Type::BOUNDARY_SURFACE, idmaster2), Reference<Target>(Target::Type::BOUNDARY_SURFACE, idslave2));
+        const auto& zone = make_shared<ZoneContact>(model, Reference<Target>(Target::Type::CONTACT_BODY, idmaster2), Reference<Target>(Target::Type::CONTACT_BODY, idslave2));
         zone->setInputContext(tok.getInputContext());
         model.add(zone);
         model.addConstraintIntoConstraintSet(*zone, constraintSetReference);
-- 
2.43.0


From 5bb1a85562276b0a3c838131125b1cffdedc4f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:42 +0000
Subject: [PATCH 132/139] fix: freedoms added to a node for one analysis are
 held in the analyses that do not use them

---
 Abstract/Model.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 70ac373..c9b10ec 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -702,8 +702,8 @@ void Model::generateDiscrets() {
         DOFS addedDOFS;
         if (not missingDOFS.empty()) {
             if (missingDOFS.containsAnyOf(DOFS::ROTATIONS)) {
-                //extra dofs added by the DISCRET. They need to be blocked.
-                addedDOFS = DOFS::ALL_DOFS - ownedDOFS - missingDOFS;
+                //extra dofs added by the DISCRET. They need to be blocked in the analyses that do not use them.
+                addedDOFS = DOFS::ALL_DOFS - ownedDOFS;
                 if (virtualDiscretTRGroup == nullptr) {
                     const auto& virtualDiscretTR = make_shared<DiscretePoint>(*this, MatrixType::DIAGONAL);
                     for (DOF dof: DOFS::ALL_DOFS) {
@@ -725,7 +725,7 @@ void Model::generateDiscrets() {
                         true);
                 virtualDiscretTRGroup->addCellPosition(cellPosition);
             } else {
-                addedDOFS = DOFS::TRANSLATIONS - ownedDOFS - missingDOFS;
+                addedDOFS = DOFS::TRANSLATIONS - ownedDOFS;
                 if (virtualDiscretTGroup == nullptr) {
                     const auto& virtualDiscretT = make_shared<DiscretePoint>(*this, MatrixType::DIAGONAL);
                     for (DOF dof: DOFS::TRANSLATIONS) {
@@ -747,11 +747,16 @@ void Model::generateDiscrets() {
             }
         }
 
+        if (ownedDOFS.empty()) {
+            // without any element, the node is left to the conditions of the analyses
+            addedDOFS = addedDOFS - missingDOFS;
+        }
+
         for (const auto& analysis : analyses) {
             shared_ptr<ConstraintSet> spcSet = nullptr;
 
             const DOFS& requiredDOFS = analysis->findBoundaryDOFS(node.position);
-            if (!ownedDOFS.containsAll(requiredDOFS)) {
+            if (not missingDOFS.empty()) {
                 const DOFS& extraDOFS = addedDOFS - requiredDOFS - ownedDOFS;
 
                 if (extraDOFS != DOFS::NO_DOFS) {
-- 
2.43.0


From e39d4f998b93d3bf091388ff29cc5fd14008b44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:42 +0000
Subject: [PATCH 133/139] fix: nodes of direct matrices hold the freedoms that
 the conditions of their analysis do not use

---
 Abstract/Model.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index c9b10ec..460cd1f 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1410,6 +1410,8 @@ void Model::replaceDirectMatrices()
             required = it->second;
         }
 
+        const DOFS requiredByMatrix = required;
+
         DOFS owned;
         auto it2 = ownedDofsByNode.find(nodePosition);
         if (it2 == ownedDofsByNode.end()) {
@@ -1419,9 +1421,11 @@ void Model::replaceDirectMatrices()
         }
 
         for (const auto loading : loadings) {
-            for (const auto nodePosition2 : loading->nodePositions()) {
-                required += loading->getDOFSForNode(nodePosition2);
+            const auto& loadingNodes = loading->nodePositions();
+            if (loadingNodes.find(nodePosition) == loadingNodes.end()) {
+                continue;
             }
+            required += loading->getDOFSForNode(nodePosition);
         }
         for (const auto constraint : constraints) {
             const auto& constraintNodes = constraint->nodePositions();
@@ -1441,6 +1445,19 @@ void Model::replaceDirectMatrices()
                         << endl;
             }
         }
+        // what only the loads and constraints of some analyses need is blocked in the others
+        for (const auto& analysis : analyses) {
+            const DOFS& unused = added - owned - requiredByMatrix - extra - analysis->findBoundaryDOFS(nodePosition);
+            if (unused != DOFS::NO_DOFS) {
+                const auto& spcSet = make_shared<ConstraintSet>(*this, ConstraintSet::Type::SPC);
+                add(spcSet);
+                const auto& spc = make_shared<SinglePointConstraint>(*this, unused);
+                spc->addNodePosition(nodePosition);
+                add(spc);
+                addConstraintIntoConstraintSet(*spc, *spcSet);
+                analysis->add(*spcSet);
+            }
+        }
     }
     for (const auto& elementSet : elementSetsToRemove) {
         if (configuration.logLevel >= LogLevel::TRACE) {
-- 
2.43.0


From 3dcf763e0c4cea3e046eec42e4cc0bc52c1adcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:42 +0000
Subject: [PATCH 134/139] fix: SOL and ANALYSIS name their solution in lower
 case too

---
 Nastran/NastranParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index d780e0e..ea9e941 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -675,7 +675,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
     string analysis_str;
     const auto& it0 = context.find("SOL");
     if (it0 != context.end())
-        analysis_str = trim_copy(it0->second);
+        analysis_str = boost::to_upper_copy(trim_copy(it0->second));
     else
         analysis_str = defaultAnalysis();
 
@@ -697,7 +697,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
     if (analysis_type == NastranAnalysis::DESOPT) {
         auto it = context.find("ANALYSIS");
         if (it != context.end()) {
-            string analysis_label = trim_copy(it->second);
+            string analysis_label = boost::to_upper_copy(trim_copy(it->second));
             cout << it->first << "=" << it->second << endl;
             auto label_entry = ANALYSIS_BY_LABEL.find(analysis_label);
             if (label_entry != ANALYSIS_BY_LABEL.end())
-- 
2.43.0


From 3a6c6c84e9d5c4ed36ca60e4637a62d9eb5b03a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:01 +0000
Subject: [PATCH 135/139] fix: do not write the loads of sets that no analysis
 selects

Only the freedoms that the selected loads need are provided: a moment of an
unused set on a node of solids asked Code_Aster for a rotation that the
model does not have, which stops the study.
---
 Aster/AsterWriter.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index cca6433..889f04c 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1494,12 +1494,28 @@ void AsterWriter::writeAffeCharMeca() {
 		constraintSet.markAsWritten();
 	}
 
+	// Nothing provides the freedoms of sets that no analysis selects, Code_Aster would refuse their loads
+	set<int> selectedLoadSetIds;
+	for (const auto& analysis : asterModel->model.analyses) {
+		for (const auto& loadSet : analysis->getLoadSets()) {
+			selectedLoadSetIds.insert(loadSet->getId());
+			for (const auto& loading : loadSet->getLoadings()) {
+				if (loading->type == Loading::Type::DYNAMIC_EXCITATION) {
+					const auto& excited = static_pointer_cast<DynamicExcitation>(loading)->getLoadSet();
+					if (excited != nullptr) {
+						selectedLoadSetIds.insert(excited->getId());
+					}
+				}
+			}
+		}
+	}
+
 	for (const auto& it : asterModel->model.loadSets) {
 		LoadSet& loadSet = *it;
 		if (loadSet.type == LoadSet::Type::DLOAD) {
 			continue;
 		}
-		if (loadSet.empty()) {
+		if (loadSet.empty() or selectedLoadSetIds.find(loadSet.getId()) == selectedLoadSetIds.end()) {
             loadSet.markAsWritten();
 			continue;
 		}
-- 
2.43.0


From 25c96db41d1dbf3900bda8249e28cbc52e0e880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:27 +0000
Subject: [PATCH 136/139] fix: the bulk modulus is twice the D1 of MATHP

---
 Nastran/NastranParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index ea9e941..01f01d0 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2019,7 +2019,8 @@ void NastranParser::parseMATHP(NastranTokenizer& tok, Model& model) {
     }
     tok.skip(5);
     double a20 = tok.nextDouble(true, 0.0);
-    material->addNature(make_shared<HyperElasticNature>(model, a10, a01, a20, d1, rho));
+    // The volumetric energy is D1*(J-1)^2, with half the bulk modulus as its factor
+    material->addNature(make_shared<HyperElasticNature>(model, a10, a01, a20, 2*d1, rho));
 }
 
 void NastranParser::parseMATS1(NastranTokenizer& tok, Model& model) {
-- 
2.43.0


From 6360d0b26a438ed6c3d3eb3c75cab4254ce4e093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:27 +0000
Subject: [PATCH 137/139] fix: WTMASS multiplies the density of MATHP too

---
 Abstract/Material.cpp | 8 ++++++++
 Abstract/Material.h   | 1 +
 Aster/AsterWriter.cpp | 2 +-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/Abstract/Material.cpp b/Abstract/Material.cpp
index c071252..a0257b8 100644
--- a/Abstract/Material.cpp
+++ b/Abstract/Material.cpp
@@ -284,6 +284,14 @@ HyperElasticNature::HyperElasticNature(const Model& model, double c10, double c0
 		Nature(model, Nature::NatureType::NATURE_HYPERELASTIC), c10(c10), c01(c01), c20(c20), k(k), rho(rho) {
 }
 
+double HyperElasticNature::getRho() const {
+	double mass_multiplier = 1;
+	if (model.contains(ModelParameter::MASS_OVER_FORCE_MULTIPLIER)) {
+		mass_multiplier = stod(model.getParameter(ModelParameter::MASS_OVER_FORCE_MULTIPLIER));
+	}
+	return rho * mass_multiplier;
+}
+
 NonLinearElasticNature::NonLinearElasticNature(const Model& model,
 		const int stress_strain_function_id) :
 		Nature(model, Nature::NatureType::NATURE_NONLINEAR_ELASTIC), stress_strain_function_ref(Value::Type::FUNCTION_TABLE,
diff --git a/Abstract/Material.h b/Abstract/Material.h
index 54f60da..3d7cd68 100644
--- a/Abstract/Material.h
+++ b/Abstract/Material.h
@@ -177,6 +177,7 @@ public:
     double k; //< See u4.43.01 ELAS_HYPER
     double rho;
     HyperElasticNature(const Model&, double c10, double c01, double c20, double k, double rho = 0.0);
+    double getRho() const;
 };
 
 class NonLinearElasticNature: public Nature {
diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 889f04c..0a2ee0b 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -990,7 +990,7 @@ void AsterWriter::writeMaterials() {
 			comm_file_ofs << "                         C10=" << hyperElasticNature->c10 << "," << endl;
 			comm_file_ofs << "                         C01=" << hyperElasticNature->c01 << "," << endl;
 			comm_file_ofs << "                         C20=" << hyperElasticNature->c20 << "," << endl;
-			comm_file_ofs << "                         RHO=" << hyperElasticNature->rho << "," << endl;
+			comm_file_ofs << "                         RHO=" << hyperElasticNature->getRho() << "," << endl;
 			comm_file_ofs << "                         K=" << hyperElasticNature->k << "," << endl;
 			comm_file_ofs << "                         )," << endl;
 		}
-- 
2.43.0


From 97bdfeb2be17ae890634752d38da97f76a4647e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:27 +0000
Subject: [PATCH 138/139] fix: the hardening slope of MATS1 is relative to the
 plastic strain

---
 Aster/AsterWriter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 0a2ee0b..5811526 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1042,7 +1042,13 @@ void AsterWriter::writeMaterials() {
 		if (binature) {
 			const auto& bilinearNature = static_pointer_cast<const BilinearElasticNature>(binature);
 			comm_file_ofs << "                 ECRO_LINE=_F(" << endl;
-			comm_file_ofs << "                         D_SIGM_EPSI=" << bilinearNature->secondary_slope << ","
+			// The hardening slope is relative to the plastic strain, D_SIGM_EPSI to the total one
+			double slope = is_defined(bilinearNature->secondary_slope) ? bilinearNature->secondary_slope : 0.0;
+			if (enature and not is_zero(slope)) {
+				const double young = static_pointer_cast<const ElasticNature>(enature)->getE();
+				slope = young * slope / (young + slope);
+			}
+			comm_file_ofs << "                         D_SIGM_EPSI=" << slope << ","
 					<< endl;
 			comm_file_ofs << "                         SY=" << bilinearNature->elastic_limit << "," << endl;
 			comm_file_ofs << "                         )," << endl;
-- 
2.43.0


From 9632417bfbe3f49df62c7d37de4963fff2465bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:24 +0000
Subject: [PATCH 139/139] fix: RBAR1 keeps its independent node

---
 Nastran/NastranParser.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 01f01d0..91e1a47 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3193,10 +3193,9 @@ void NastranParser::parseRBAR1(NastranTokenizer& tok, Model& model) {
     int original_id=tok.nextInt();
     int ga = tok.nextInt();
     int gb = tok.nextInt();
-    int cna = tok.nextInt(true, 0);
+    int cb = tok.nextInt(true, 123456); // the freedoms of GB that depend on GA
 
-    const auto& qrc = make_shared<QuasiRigidConstraint>(model, DOFS::nastranCodeToDOFS(cna), MasterSlaveConstraint::UNAVAILABLE_MASTER, original_id);
-    qrc->addSlave(ga);
+    const auto& qrc = make_shared<QuasiRigidConstraint>(model, DOFS::nastranCodeToDOFS(cb), ga, original_id);
     qrc->addSlave(gb);
     qrc->setInputContext(tok.getInputContext());
     model.add(qrc);
-- 
2.43.0

