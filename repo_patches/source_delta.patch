From 06bfdbf5c9f5b48e78b6f7d934f1f2ca97359296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 01/35] fix: mesh readers hung on or silently accepted
 truncated files; skip optional Gmsh sections

---
 src/mesh/meshreaders.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/mesh/meshreaders.cpp b/src/mesh/meshreaders.cpp
index 83a1484..118defa 100644
--- a/src/mesh/meshreaders.cpp
+++ b/src/mesh/meshreaders.cpp
@@ -67,15 +67,16 @@ MeshData readGmsh2(const std::string mfile)
 {
 	MeshData m;
 
-	int dum; double dummy; std::string dums; char ch;
+	int dum; double dummy; std::string dums;
 
 	std::ifstream infile;
 	open_file_toRead(mfile, infile);
+	// throw if the file ends, or turns out to be malformed, before everything has been read
+	infile.exceptions(std::ios::failbit | std::ios::badbit);
 
-	for(int i = 0; i < 4; i++)		//skip 4 lines
-		do
-			ch = infile.get();
-		while(ch != '\n');
+	do                              // skip to the nodes' section
+		infile >> dums;
+	while(dums != "$Nodes");
 
 	infile >> m.npoin;
 	m.coords.resize(m.npoin,NDIM);
@@ -88,8 +89,9 @@ MeshData readGmsh2(const std::string mfile)
 			infile >> m.coords(i,j);
 		if(NDIM < 3) infile >> dummy;
 	}
-	infile >> dums;		// get 'endnodes'
-	infile >> dums;		// get 'elements'
+	do                              // skip to the elements' section
+		infile >> dums;
+	while(dums != "$Elements");
 
 	int width_elms = 25;
 	int nelm, elmtype, nbtags, ntags;
@@ -271,6 +273,8 @@ MeshData readSU2(const std::string mfile)
 	std::string dum;
 	std::ifstream fin;
 	open_file_toRead(mfile, fin);
+	// throw if the file ends, or turns out to be malformed, before everything has been read
+	fin.exceptions(std::ios::failbit | std::ios::badbit);
 
 	std::getline(fin, dum, '='); std::getline(fin,dum);
 	int ndim = std::stoi(dum);
-- 
2.43.0


From 2a60358d248426ed5147114c61bba59f5788f3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 02/35] fix: SU2 reader dropped the marker following an empty
 marker

---
 src/mesh/meshreaders.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/mesh/meshreaders.cpp b/src/mesh/meshreaders.cpp
index 118defa..987b6f3 100644
--- a/src/mesh/meshreaders.cpp
+++ b/src/mesh/meshreaders.cpp
@@ -371,10 +371,6 @@ MeshData readSU2(const std::string mfile)
 			for(int inofa = 0; inofa < m.nnofa; inofa++)
 				fin >> bfacs[ib][iface][inofa];
 		}
-
-		//clear newline, except the last one because it may not exist
-		if(ib < nbmarkers-1)
-			std::getline(fin,dum);
 	}
 
 	fin.close();
-- 
2.43.0


From 79e4b462f4ebee6cb9d5a2ec3d98183942323503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 03/35] fix: reordering cells left the cells' region tags in
 the old order

---
 src/mesh/mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/mesh.cpp b/src/mesh/mesh.cpp
index 9ea44b5..284c760 100644
--- a/src/mesh/mesh.cpp
+++ b/src/mesh/mesh.cpp
@@ -88,11 +88,14 @@ void UMesh<scalar,ndim>::reorder_cells(const PetscInt *const permvec)
 	const amat::Array2d<fint> tempelems = inpoel;
 	const std::vector<int> tempnnode = nnode;
 	const std::vector<int> tempnfael = nfael;
+	const amat::Array2d<int> tempregions = vol_regions;
 
 	for(fint i = 0; i < nelem; i++)
 	{
 		for(int j = 0; j < inpoel.cols(); j++)
 			inpoel(i,j) = tempelems(permvec[i],j);
+		for(int j = 0; j < vol_regions.cols(); j++)
+			vol_regions(i,j) = tempregions(permvec[i],j);
 		nnode[i] = tempnnode[permvec[i]];
 		nfael[i] = tempnfael[permvec[i]];
 	}
-- 
2.43.0


From 1ab378f0440ca97809153ed38f0fb4d9efc66ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 04/35] fix: Barth-Jespersen and Venkatakrishnan limiters read
 past the cell array at physical boundaries

---
 src/spatial/limitedlinearreconstruction.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spatial/limitedlinearreconstruction.cpp b/src/spatial/limitedlinearreconstruction.cpp
index 4960f24..7617644 100644
--- a/src/spatial/limitedlinearreconstruction.cpp
+++ b/src/spatial/limitedlinearreconstruction.cpp
@@ -132,7 +132,9 @@ void BarthJespersenLimiter<scalar,nvars>::compute_face_values(const MVector<scal
 			for(int j = 0; j < m->gnfael(iel); j++)
 			{
 				const fint jel = m->gesuel(iel,j);
-				const scalar dui = u(jel,ivar)-u(iel,ivar);
+				// physical boundary ghost values are not part of u
+				const fint jbface = jel - (m->gnelem()+m->gnConnFace());
+				const scalar dui = (jbface >= 0 ? ug(jbface,ivar) : u(jel,ivar)) - u(iel,ivar);
 				if(dui > duimax) duimax = dui;
 				if(dui < duimin) duimin = dui;
 			}
@@ -227,7 +229,9 @@ void VenkatakrishnanLimiter<scalar,nvars>
 			for(int j = 0; j < m->gnfael(iel); j++)
 			{
 				const fint jel = m->gesuel(iel,j);
-				const scalar dui = u(jel,ivar)-u(iel,ivar);
+				// physical boundary ghost values are not part of u
+				const fint jbface = jel - (m->gnelem()+m->gnConnFace());
+				const scalar dui = (jbface >= 0 ? ug(jbface,ivar) : u(jel,ivar)) - u(iel,ivar);
 				if(dui > duimax) duimax = dui;
 				if(dui < duimin) duimin = dui;
 			}
-- 
2.43.0


From 75dd0d141ebd418b3a52383fae858cff5f66ee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 05/35] fix: moving adiabatic walls (2D) imposed a temperature
 jump across the wall

---
 src/spatial/abc.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index 1a43313..bbf05ea 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -276,7 +276,8 @@ void Adiabaticwall2D<scalar,j_real>::computeGhostState(const scalar *const ins,
 	gs[0] = ins[0];
 	gs[1] =  2.0*tangMomentum*n[1] - ins[1];
 	gs[2] = -2.0*tangMomentum*n[0] - ins[2];
-	gs[3] = ins[3];
+	// no temperature jump: only the kinetic energy differs from that of the interior state
+	gs[3] = ins[3] + 2.0*tangvel*(tangMomentum - (ins[1]*n[1]-ins[2]*n[0]));
 }
 
 template <typename scalar, typename j_real>
@@ -300,7 +301,10 @@ void Adiabaticwall2D<scalar,j_real>::computeGhostStateAndJacobian(const j_real *
 	dgs[2*NVARS+0] = -2.0*tangvel*n[0];
 	dgs[2*NVARS+2] = -1.0;
 
-	gs[3] = ins[3];
+	gs[3] = ins[3] + 2.0*tangvel*(tangMomentum - (ins[1]*n[1]-ins[2]*n[0]));
+	dgs[3*NVARS+0] = 2.0*tangvel*tangvel;
+	dgs[3*NVARS+1] = -2.0*tangvel*n[1];
+	dgs[3*NVARS+2] = 2.0*tangvel*n[0];
 	dgs[3*NVARS+3] = 1.0;
 }
 
-- 
2.43.0


From c8d8e25ce81a49fcbd36b37383ba639e32f913bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 06/35] fix: general adiabatic wall indexed the wall velocity
 out of bounds

---
 src/spatial/abc.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index bbf05ea..6c8b40d 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -319,9 +319,12 @@ void Adiabaticwall<scalar,j_real>::computeGhostState(const scalar *const ins, co
                                                      scalar *const __restrict gs) const
 {
 	gs[0] = ins[0];
-	for(int i= 1; i< NDIM+1; i++)
-		gs[i] =  2.0*ins[0]*wallvel[i] - ins[i];
 	gs[NDIM+1] = ins[NDIM+1];
+	for(int i= 1; i< NDIM+1; i++) {
+		gs[i] =  2.0*ins[0]*wallvel[i-1] - ins[i];
+		// no temperature jump: only the kinetic energy differs from that of the interior state
+		gs[NDIM+1] += 2.0*wallvel[i-1]*(ins[0]*wallvel[i-1] - ins[i]);
+	}
 }
 
 template <typename scalar, typename j_real>
@@ -336,15 +339,19 @@ void Adiabaticwall<scalar,j_real>::computeGhostStateAndJacobian(const j_real *co
 	gs[0] = ins[0];
 	dgs[0] = 1.0;
 
+	gs[NVARS-1] = ins[NVARS-1];
+	dgs[NVARS*NVARS-1] = 1.0;
+
 	for(int i= 1; i< NDIM+1; i++) {
-		gs[i] =  2.0*ins[0]*wallvel[i] - ins[i];
+		gs[i] =  2.0*ins[0]*wallvel[i-1] - ins[i];
 
-		dgs[i*NVARS+0] = 2.0*wallvel[i];
+		dgs[i*NVARS+0] = 2.0*wallvel[i-1];
 		dgs[i*NVARS+i] = -1.0;
-	}
 
-	gs[NVARS-1] = ins[NVARS-1];
-	dgs[NVARS*NVARS-1] = 1.0;
+		gs[NVARS-1] += 2.0*wallvel[i-1]*(ins[0]*wallvel[i-1] - ins[i]);
+		dgs[(NVARS-1)*NVARS+0] += 2.0*wallvel[i-1]*wallvel[i-1];
+		dgs[(NVARS-1)*NVARS+i] = -2.0*wallvel[i-1];
+	}
 }
 
 template <typename scalar, typename j_real>
-- 
2.43.0


From 98ad7a5f1dfe48cb538b3e2cb5caa5724efa8ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:38 +0000
Subject: [PATCH 07/35] fix: isothermal wall's Jacobian and the ghost state
 returned with it disagreed with the ghost state

---
 src/spatial/abc.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index 6c8b40d..54e12f4 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -388,8 +388,6 @@ void Isothermalwall2D<scalar,j_real>::computeGhostStateAndJacobian(const j_real
 	for(int k = 0; k < NVARS*NVARS; k++)
 		dgs[k] = 0;
 
-	/// \todo Fix isothermal BC Jacobian
-	// FIXME: Wrong Jacobian
 	const j_real tangMomentum = tangvel * ins[0];
 	gs[0] = ins[0];
 	dgs[0] = 1.0;
@@ -403,19 +401,22 @@ void Isothermalwall2D<scalar,j_real>::computeGhostStateAndJacobian(const j_real
 	dgs[2*NVARS+2] = -1.0;
 
 	const j_real vmag2 = dimDotProduct(&gs[1],&gs[1])/(ins[0]*ins[0]);
-	gs[3] = jphy.getEnergyFromTemperature(walltemperature, ins[0], vmag2);
+	const j_real gtemp = 2.0*walltemperature - jphy.getTemperatureFromConserved(ins);
+	gs[3] = jphy.getEnergyFromTemperature(gtemp, gs[0], vmag2);
 
 	j_real dvmag2[NVARS]; // derivative of vmag2 w.r.t. ins
-	dvmag2[0] = -2.0*dimDotProduct(&gs[1],&gs[1])/(ins[0]*ins[0]*ins[0]);
+	dvmag2[0] = -2.0*vmag2/ins[0] + 2.0/(ins[0]*ins[0])*(gs[1]*dgs[NVARS+0] + gs[2]*dgs[2*NVARS+0]);
 	for(int i = 1; i < NDIM+1; i++)
-		dvmag2[i] = 1.0/(ins[0]*ins[0]) * gs[i] * (-1.0);
+		dvmag2[i] = -2.0*gs[i]/(ins[0]*ins[0]);
 	dvmag2[NDIM+1] = 0;
 
-	// dummy dT for the next function call
+	// derivative of the ghost temperature
 	j_real dT[NVARS];
 	for(int i = 0; i < NVARS; i++) dT[i] = 0;
+	jphy.getJacobianTemperatureWrtConserved(ins, dT);
+	for(int i = 0; i < NVARS; i++) dT[i] = -dT[i];
 
-	jphy.getJacobianEnergyFromJacobiansTemperatureVmag2(walltemperature, ins[0], vmag2,
+	jphy.getJacobianEnergyFromJacobiansTemperatureVmag2(gtemp, ins[0], vmag2,
 	                                                    dT, dvmag2, &dgs[3*NVARS]);
 }
 
-- 
2.43.0


From 45fa432b61272397536dc9f7c9d5c410968169d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:38 +0000
Subject: [PATCH 08/35] fix: inflow-outflow BC treated exactly sonic outflow
 differently in its Jacobian

---
 src/spatial/abc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index 54e12f4..069fdb9 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -110,7 +110,7 @@ void InOutFlow<scalar,j_real>::computeGhostStateAndJacobian(const j_real *const
 	/* At subsonic outflow, pressure is taken from farfield, the other 3 quantities
 	 * are taken from the interior.
 	 */
-	else if(Mni <= 1)
+	else if(Mni < 1)
 	{
 		gs[0] = ins[0];
 		gs[1] = ins[1];
-- 
2.43.0


From 007a81bb1cb4b4c4db9fad83a9e110563e75fa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:36 +0000
Subject: [PATCH 09/35] fix: partitioning missed interior faces whose points
 all lie on the physical boundary

A face of a subdomain was recognized as a connectivity face only if one of its
points was off the physical boundary. A cut face which spans the domain from
boundary to boundary was thus lost. Decide from the global mesh's adjacency.
---
 src/mesh/meshpartitioning.cpp | 51 +++++++----------------------------
 src/mesh/meshpartitioning.hpp | 12 +--------
 2 files changed, 10 insertions(+), 53 deletions(-)

diff --git a/src/mesh/meshpartitioning.cpp b/src/mesh/meshpartitioning.cpp
index 2ff91f2..745963f 100644
--- a/src/mesh/meshpartitioning.cpp
+++ b/src/mesh/meshpartitioning.cpp
@@ -73,20 +73,16 @@ UMesh<freal,2> ReplicatedGlobalMeshPartitioner::restrictMeshToPartitions() const
 	 */
 	extractbfaces(pointGlob2Loc, lm);
 
-	/*! 5. Compute local esuel and mark elements that neighbor and points that lie on
-	 *     a physical boundary face
-	 */
+	//! 5. Compute local esuel
 	lm.compute_elementsSurroundingPoints();
 	lm.compute_elementsSurroundingElements();
-	const std::vector<bool> isPhyBounPoint = markLocalPhysicalBoundaryPoints(lm);
-	assert(isPhyBounPoint.size() == static_cast<size_t>(lm.npoin));
 
 	/*! 6. Use local esuel, the global esuel and local-to-global elem map 
 	 *     to build the connectivity face structure. Use the fact that ordering of faces within
 	 *     elements is not changed during restriction to assign global face indices.
 	 */
 	const std::vector<std::vector<EIndex>> connElemLocalFace
-		= getConnectivityFaceEIndices(lm, isPhyBounPoint);
+		= getConnectivityFaceEIndices(lm);
 
 	lm.nconnface = 0;
 	for(fint i = 0; i < lm.nelem; i++)
@@ -275,25 +271,9 @@ void ReplicatedGlobalMeshPartitioner::extractbfaces(const std::map<fint,fint>& p
 			lm.bface(iface,j) = tbfaces[iface][j];
 }
 
-std::vector<bool>
-ReplicatedGlobalMeshPartitioner::
-markLocalPhysicalBoundaryPoints(const UMesh<freal,2>& lm) const
-{
-	std::vector<bool> isBounPoin(lm.npoin,false);
-
-	for(fint iface = 0; iface < lm.nbface; iface++)
-	{
-		for(int inode = 0; inode < lm.nnofa; inode++) {
-			isBounPoin[lm.bface(iface,inode)] = true;
-		}
-	}
-	return isBounPoin;
-}
-
 std::vector<std::vector<EIndex>>
 ReplicatedGlobalMeshPartitioner::
-getConnectivityFaceEIndices(const UMesh<freal,2>& lm,
-                            const std::vector<bool>& isPhyBounPoint) const
+getConnectivityFaceEIndices(const UMesh<freal,2>& lm) const
 {
 	const int rank = get_mpi_rank(MPI_COMM_WORLD);
 
@@ -303,27 +283,14 @@ getConnectivityFaceEIndices(const UMesh<freal,2>& lm,
 
 	for(fint iel = 0; iel < lm.nelem; iel++)
 	{
-		// Check whether face points are physical boundary points to identify connectivity faces
+		// A face without a neighbor in this subdomain is a connectivity face if the global mesh has a
+		//  neighbor there. The ordering of faces within elements is the same in the two meshes.
+		const fint globelem = lm.globalElemIndex[iel];
 		for(EIndex iface = 0; iface < lm.nfael[iel]; iface++)
 		{
-			if(lm.esuel(iel,iface) == -1)
-			{
-				bool isconnface = false;
-				/* Get subdomain index of the points on this face.
-				 * If at least one point is not on a physical boundary, this is a connectivity face.
-				 */
-				for(FIndex inode = 0; inode < lm.nnofa; inode++)
-				{
-					const fint locpoint = lm.inpoel(iel,lm.getNodeEIndex(iel,iface,inode));
-					if(!isPhyBounPoint[locpoint]) {
-						isconnface = true;
-						break;
-					}
-				}
-				if(isconnface) {
-					connElemLocalFace[iel].push_back(iface);
-				}
-			}
+			const fint globnbr = gm.esuel(globelem,iface);
+			if(lm.esuel(iel,iface) == -1 && globnbr >= 0 && globnbr < gm.nelem)
+				connElemLocalFace[iel].push_back(iface);
 		}
 	}
 	std::cout << "Rank " << rank << ": computed connElemLocalFace" << std::endl;
diff --git a/src/mesh/meshpartitioning.hpp b/src/mesh/meshpartitioning.hpp
index 999c42d..d519783 100644
--- a/src/mesh/meshpartitioning.hpp
+++ b/src/mesh/meshpartitioning.hpp
@@ -59,20 +59,10 @@ protected:
 	 */
 	void extractbfaces(const std::map<fint,fint>& pointGlobal2Local, UMesh<freal,NDIM>& lm) const;
 
-	/// Marks points of this subdomain which are adjacent to physical boundary faces
-	/** As a by-product, also computes the number of physical boundary points in the local mesh in
-	 * nbpoin.
-	 * \return The vector of point marks
-	 */
-	std::vector<bool> markLocalPhysicalBoundaryPoints(const UMesh<freal,NDIM>& lm) const;
-
 	/// Returns a list of containing, for each local element, face E-indices that are connectivity
 	///  faces, if any
-	/** \param[in] isPhyBounPoint For each local point, whether or not it lies on a physical boundary
-	 */
 	std::vector<std::vector<EIndex>>
-	getConnectivityFaceEIndices(const UMesh<freal,NDIM>& lm,
-	                            const std::vector<bool>& isPhyBounPoint) const;
+	getConnectivityFaceEIndices(const UMesh<freal,NDIM>& lm) const;
 
 	/// The global mesh to partition
 	const UMesh<freal,NDIM>& gm;
-- 
2.43.0


From 53688d3724f56c7f775cb121cd4ca13f92dfdd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 10/35] fix: cap the Jacobian preallocation at the number of
 local cells

PETSc refuses more non-zero blocks per row than there are block columns,
so the set-up failed for meshes or subdomains with fewer cells than a
cell has faces plus one.
---
 src/linalg/alinalg.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/linalg/alinalg.cpp b/src/linalg/alinalg.cpp
index 344fa4c..a9e6b11 100644
--- a/src/linalg/alinalg.cpp
+++ b/src/linalg/alinalg.cpp
@@ -1,4 +1,5 @@
 #include "alinalg.hpp"
+#include <algorithm>
 #include <iostream>
 #include <vector>
 #include <cstring>
@@ -49,7 +50,8 @@ StatusCode setJacobianPreallocation(const UMesh<freal,NDIM> *const m, Mat A)
 		std::vector<PetscInt> dnnz(m->gnelem());
 		for(fint iel = 0; iel < m->gnelem(); iel++)
 		{
-			dnnz[iel] = m->gnfael(iel)+1;
+			// PETSc does not accept more non-zero blocks than there are block columns
+			dnnz[iel] = std::min<PetscInt>(m->gnfael(iel)+1, m->gnelem());
 		}
 
 		std::vector<PetscInt> onnz(m->gnelem(),0);
@@ -66,7 +68,7 @@ StatusCode setJacobianPreallocation(const UMesh<freal,NDIM> *const m, Mat A)
 		for(fint iel = 0; iel < m->gnelem(); iel++)
 		{
 			for(int i = 0; i < nvars; i++) {
-				dnnz[iel*nvars+i] = (m->gnfael(iel)+1)*nvars;
+				dnnz[iel*nvars+i] = std::min<PetscInt>(m->gnfael(iel)+1, m->gnelem())*nvars;
 			}
 		}
 
-- 
2.43.0


From c3b98393bc6b9fe9cd16b54e4d0c5a4183402397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 11/35] fix: allow a null time step vector in the diffusion
 residual

compute_residual took the array of the time step vector even when no time
steps were asked for, so the matrix-free operator, which passes no vector,
failed for the diffusion problem.
---
 src/spatial/diffusion.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spatial/diffusion.cpp b/src/spatial/diffusion.cpp
index 628d1bc..6edfc7d 100644
--- a/src/spatial/diffusion.cpp
+++ b/src/spatial/diffusion.cpp
@@ -226,7 +226,10 @@ StatusCode DiffusionMA<nvars>::compute_residual(const Vec uvec, Vec rvec,
 	ierr = VecDestroy(&gradvec); CHKERRQ(ierr);
 
 	{
-		MutableVecHandler<freal> dtvh(timesteps);
+		// the time step vector may be null when time steps are not requested
+		MutableVecHandler<freal> dtvh;
+		if(gettimesteps)
+			dtvh.setVec(timesteps);
 		freal *const dtm = dtvh.getArray();
 		MutableVecHandler<freal> rvh(rvec);
 		freal *const rarr = rvh.getArray();
-- 
2.43.0


From 283af72246b0bfc4a02d0c1cd27300cd87a85a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 12/35] fix: read scalar fields with their own number of
 variables in nodal averaging

scalar_postprocess_point used the flow problem's number of variables as
stride, reading the wrong values and past the end of the vector.
---
 src/spatial/diffusion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spatial/diffusion.cpp b/src/spatial/diffusion.cpp
index 6edfc7d..2664670 100644
--- a/src/spatial/diffusion.cpp
+++ b/src/spatial/diffusion.cpp
@@ -355,7 +355,7 @@ StatusCode scalar_postprocess_point(const UMesh<freal,NDIM> *const m, const Vec
 	StatusCode ierr = 0;
 	const PetscScalar* uarr;
 	ierr = VecGetArrayRead(uvec, &uarr); CHKERRQ(ierr);
-	Eigen::Map<const MVector<freal>> u(uarr, m->gnelem(), NVARS);
+	Eigen::Map<const MVector<freal>> u(uarr, m->gnelem(), nvars);
 
 	for(fint ielem = 0; ielem < m->gnelem(); ielem++)
 	{
-- 
2.43.0


From febf2b65900f9cea11ce28a5c0b88d954be352d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 13/35] fix: point output sums each cell's area once per node,
 not once per variable

The exported nodal averages were a quarter of the true values.
---
 src/spatial/aoutput.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spatial/aoutput.cpp b/src/spatial/aoutput.cpp
index 113abb9..66e006b 100644
--- a/src/spatial/aoutput.cpp
+++ b/src/spatial/aoutput.cpp
@@ -115,11 +115,11 @@ StatusCode FlowOutput::postprocess_point(const Vec uvec,
 	for(fint ielem = 0; ielem < m->gnelem(); ielem++)
 	{
 		for(int inode = 0; inode < m->gnnode(ielem); inode++)
+		{
 			for(int ivar = 0; ivar < NVARS; ivar++)
-			{
 				up(m->ginpoel(ielem,inode),ivar) += u(ielem,ivar)*m->garea(ielem);
-				areasum(m->ginpoel(ielem,inode)) += m->garea(ielem);
-			}
+			areasum(m->ginpoel(ielem,inode)) += m->garea(ielem);
+		}
 	}
 
 	for(fint ipoin = 0; ipoin < m->gnpoin(); ipoin++)
-- 
2.43.0


From 837e623c07d1584c5e6e80e0867cc1caf6686c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 14/35] fix: cumulative cell offsets in writeMeshToVtu for
 hybrid meshes

---
 src/spatial/aoutput.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spatial/aoutput.cpp b/src/spatial/aoutput.cpp
index 66e006b..cb64714 100644
--- a/src/spatial/aoutput.cpp
+++ b/src/spatial/aoutput.cpp
@@ -586,8 +586,11 @@ void writeMeshToVtu(std::string fname, const fvens::UMesh<freal,NDIM>& m)
 	}
 	out << "\t\t\t</DataArray>\n";
 	out << "\t\t\t<DataArray type=\"UInt32\" Name=\"offsets\" Format=\"ascii\">\n";
-	for(int i = 0; i < m.gnelem(); i++)
-		out << "\t\t\t\t" << m.gnnode(i)*(i+1) << '\n';
+	int totalcells = 0;
+	for(int i = 0; i < m.gnelem(); i++) {
+		totalcells += m.gnnode(i);
+		out << "\t\t\t\t" << totalcells << '\n';
+	}
 	out << "\t\t\t</DataArray>\n";
 	out << "\t\t\t<DataArray type=\"Int32\" Name=\"types\" Format=\"ascii\">\n";
 	for(int i = 0; i < m.gnelem(); i++)
-- 
2.43.0


From 139e107fe7be684a581aa50735243a6b038510fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 15/35] fix: run_output without output wall markers read past
 the end of the empty list

---
 src/utilities/casesolvers.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utilities/casesolvers.cpp b/src/utilities/casesolvers.cpp
index 65c8b9f..4b8fe98 100644
--- a/src/utilities/casesolvers.cpp
+++ b/src/utilities/casesolvers.cpp
@@ -154,8 +154,10 @@ FlowSolutionFunctionals FlowCase::run_output(const bool surface_file_needed,
 
 	ConstVecHandler<freal> uh(u);
 	const amat::Array2dView<freal> ua(uh.getArray(), m.gnelem(), NVARS);
-	const std::tuple<freal,freal,freal> fnls 
-		{ prob->computeSurfaceData(ua, &grad[0], opts.lwalls[0], output)};
+	// without a wall marker to output, there is nothing to integrate over
+	std::tuple<freal,freal,freal> fnls {0.0, 0.0, 0.0};
+	if(!opts.lwalls.empty())
+		fnls = prob->computeSurfaceData(ua, &grad[0], opts.lwalls[0], output);
 
 	delete prob;
 
-- 
2.43.0


From 94e1cb2380d6fe634b4631934f2a611749f25080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 16/35] fix: writeMeshToVtu leaves out the centre node of
 9-node quadrilaterals, as documented

---
 src/spatial/aoutput.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spatial/aoutput.cpp b/src/spatial/aoutput.cpp
index cb64714..a178606 100644
--- a/src/spatial/aoutput.cpp
+++ b/src/spatial/aoutput.cpp
@@ -580,7 +580,8 @@ void writeMeshToVtu(std::string fname, const fvens::UMesh<freal,NDIM>& m)
 	for(int i = 0; i < m.gnelem(); i++)
 	{
 		out << "\t\t\t\t";
-		for(int j = 0; j < m.gnnode(i); j++)
+		const int nnode = m.gnnode(i) == 9 ? 8 : m.gnnode(i);
+		for(int j = 0; j < nnode; j++)
 			out << m.ginpoel(i,j) << " ";
 		out << '\n';
 	}
@@ -588,7 +589,7 @@ void writeMeshToVtu(std::string fname, const fvens::UMesh<freal,NDIM>& m)
 	out << "\t\t\t<DataArray type=\"UInt32\" Name=\"offsets\" Format=\"ascii\">\n";
 	int totalcells = 0;
 	for(int i = 0; i < m.gnelem(); i++) {
-		totalcells += m.gnnode(i);
+		totalcells += m.gnnode(i) == 9 ? 8 : m.gnnode(i);
 		out << "\t\t\t\t" << totalcells << '\n';
 	}
 	out << "\t\t\t</DataArray>\n";
-- 
2.43.0


From 4e4bc2e300757b6a6f1925b7c794e0328d7b87cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 17/35] fix: usestarter was left uninitialized without an
 initialization section

---
 src/utilities/controlparser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utilities/controlparser.cpp b/src/utilities/controlparser.cpp
index b5a72f0..e3a6023 100644
--- a/src/utilities/controlparser.cpp
+++ b/src/utilities/controlparser.cpp
@@ -74,6 +74,7 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 	opts.order2 = true;
 	opts.Reinf=0; opts.Tinf=0; opts.Pr=0; 
 	opts.time_integrator = "NONE";
+	opts.usestarter = 0;
 
 	// Define string constants used as keywords in the control file
 
-- 
2.43.0


From 8f63194eb2d456e242fc0fd7ee63cc0672ba1714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 18/35] fix: unquoted lists in control files lost all but their
 first entry

---
 src/utilities/controlparser.cpp | 41 +++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/utilities/controlparser.cpp b/src/utilities/controlparser.cpp
index e3a6023..f033150 100644
--- a/src/utilities/controlparser.cpp
+++ b/src/utilities/controlparser.cpp
@@ -53,6 +53,27 @@ std::vector<T> parseStringToVector(const std::string str)
 	return vec;
 }
 
+/// Extract a vector of numbers from a list-valued option in a section of the control file
+/** The space-separated list may or may not be enclosed in quotes. If it is not, the INFO parser takes
+ * only the first entry as the option's value, and the other entries as further keys (and values).
+ */
+template <typename T> static inline
+std::vector<T> getVector(const pt::ptree& section, const std::string key)
+{
+	std::string str;
+	auto it = section.begin();
+	while(it != section.end() && it->first != key)
+		++it;
+	if(it == section.end())
+		throw pt::ptree_bad_path("No such option", pt::path(key));
+
+	str = it->second.data();
+	for(++it; it != section.end() && parseStringToVector<freal>(it->first).size() > 0; ++it)
+		str += " " + it->first + " " + it->second.data();
+
+	return parseStringToVector<T>(str);
+}
+
 /// Parse options related to boundary conditions
 static std::vector<FlowBCConfig> parse_BC_options(const pt::ptree& infopts,
                                                   const std::string bc_keyword);
@@ -140,14 +161,12 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 
 	opts.bcconf = parse_BC_options(infopts, c_bcs);
 
-	auto optlwalls = infopts.get_optional<std::string>(c_bcs+".listof_output_wall_boundaries");
-	if(optlwalls)
-		opts.lwalls = parseStringToVector<int>(*optlwalls);
+	if(infopts.get_optional<std::string>(c_bcs+".listof_output_wall_boundaries"))
+		opts.lwalls = getVector<int>(infopts.get_child(c_bcs), "listof_output_wall_boundaries");
 	opts.num_out_walls = static_cast<int>(opts.lwalls.size());
 
-	auto optlothers= infopts.get_optional<std::string>(c_bcs+".listof_output_other_boundaries");
-	if(optlothers)
-		opts.lothers = parseStringToVector<int>(*optlothers);
+	if(infopts.get_optional<std::string>(c_bcs+".listof_output_other_boundaries"))
+		opts.lothers = getVector<int>(infopts.get_child(c_bcs), "listof_output_other_boundaries");
 	opts.num_out_others = static_cast<int>(opts.lothers.size());
 
 	if(opts.num_out_others > 0 || opts.num_out_walls > 0) {
@@ -268,16 +287,14 @@ static std::vector<FlowBCConfig> parse_BC_options(const pt::ptree& infopts,
 			if(bconf.bc_type == ADIABATIC_WALL_BC  ||
 			   bconf.bc_type == ISOTHERMAL_WALL_BC ||
 			   bconf.bc_type == SUBSONIC_INFLOW_BC)   {
-				std::string bvals = infopts.get<std::string>(c_bcs+".bc"+std::to_string(ibc)+
-				                                             ".boundary_values");
-				bconf.bc_vals = parseStringToVector<freal>(bvals);
+				bconf.bc_vals = getVector<freal>(infopts.get_child(c_bcs+".bc"+std::to_string(ibc)),
+				                                 "boundary_values");
 			}
 
 			// array of options
 			if(bconf.bc_type == PERIODIC_BC) {
-				std::string bcopts = infopts.get<std::string>(c_bcs +".bc"+std::to_string(ibc)+
-				                                              ".options");
-				bconf.bc_opts = parseStringToVector<int>(bcopts);
+				bconf.bc_opts = getVector<int>(infopts.get_child(c_bcs+".bc"+std::to_string(ibc)),
+				                               "options");
 			}
 
 			bcvec.push_back(bconf);
-- 
2.43.0


From 58387b3c9cf1d6c2a38bd6d0e0a949f29c6383ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 19/35] fix: too few boundary_values in the control file led to
 reading past their end

---
 src/utilities/controlparser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utilities/controlparser.cpp b/src/utilities/controlparser.cpp
index f033150..fe6a433 100644
--- a/src/utilities/controlparser.cpp
+++ b/src/utilities/controlparser.cpp
@@ -289,6 +289,9 @@ static std::vector<FlowBCConfig> parse_BC_options(const pt::ptree& infopts,
 			   bconf.bc_type == SUBSONIC_INFLOW_BC)   {
 				bconf.bc_vals = getVector<freal>(infopts.get_child(c_bcs+".bc"+std::to_string(ibc)),
 				                                 "boundary_values");
+				const size_t nvals = bconf.bc_type == ADIABATIC_WALL_BC ? 1 : 2;
+				if(bconf.bc_vals.size() < nvals)
+					throw InputNotGivenError("Too few boundary_values for " + bctype);
 			}
 
 			// array of options
-- 
2.43.0


From dc41a579037a504ada473e989fc2ae3d829032d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 20/35] fix: an unknown flow_type in the control file silently
 selected inviscid flow

---
 src/utilities/controlparser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utilities/controlparser.cpp b/src/utilities/controlparser.cpp
index fe6a433..952b40e 100644
--- a/src/utilities/controlparser.cpp
+++ b/src/utilities/controlparser.cpp
@@ -152,6 +152,8 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 		if(opts.flowtype == "RANS")
 			throw UnsupportedOptionError("flowtype RANS");
 	}
+	else if(opts.flowtype != "EULER")
+		throw UnsupportedOptionError("flowtype " + opts.flowtype);
 	else {
 		opts.viscsim = false;
 		opts.Tinf = 298.0;
-- 
2.43.0


From 7ba5d66f794431924d292f5dd133ef4e77a3354b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 21/35] fix: reductions passed the same memory as send and
 receive buffers, which MPI forbids

---
 src/ode/aodesolver.cpp     | 2 +-
 src/utilities/mpiutils.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index 9850248..ef8e657 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -525,7 +525,7 @@ StatusCode SteadyBackwardEulerSolver<nvars>::solve(Vec uvec)
 			}
 		}
 
-		MPI_Allreduce(&resnorm2, &resnorm2, 1, FVENS_MPI_REAL, MPI_SUM, PETSC_COMM_WORLD);
+		MPI_Allreduce(MPI_IN_PLACE, &resnorm2, 1, FVENS_MPI_REAL, MPI_SUM, PETSC_COMM_WORLD);
 		resiold = resi;
 		resi = sqrt(resnorm2);
 
diff --git a/src/utilities/mpiutils.cpp b/src/utilities/mpiutils.cpp
index 8b4f7ad..33bdc84 100644
--- a/src/utilities/mpiutils.cpp
+++ b/src/utilities/mpiutils.cpp
@@ -14,7 +14,7 @@ namespace fvens {
 template <>
 void mpi_all_reduce(freal *const arr, const fint count, MPI_Op op, MPI_Comm comm)
 {
-	MPI_Allreduce(arr, arr, count, FVENS_MPI_REAL, op, comm);
+	MPI_Allreduce(MPI_IN_PLACE, arr, count, FVENS_MPI_REAL, op, comm);
 }
 
 void wait_for_debugger()
-- 
2.43.0


From 57a387081a5630463e588eadccc5fae1158495d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 22/35] fix: diffusion gradients on a subdomain without
 physical boundary faces

---
 src/spatial/diffusion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spatial/diffusion.cpp b/src/spatial/diffusion.cpp
index 2664670..5931099 100644
--- a/src/spatial/diffusion.cpp
+++ b/src/spatial/diffusion.cpp
@@ -337,7 +337,8 @@ void DiffusionMA<nvars>::getGradients(const Vec uvec,
 		compute_boundary_state(iface, &u(lelem,0), &ug(iface,0));
 	}
 
-	gradcomp->compute_gradients(u, amat::Array2dView<freal>(&ug(0,0),m->gnbface(),nvars),
+	const freal *const ugptr = m->gnbface() > 0 ? &ug(0,0) : nullptr;
+	gradcomp->compute_gradients(u, amat::Array2dView<freal>(ugptr,m->gnbface(),nvars),
 	                            &grads[0](0,0));
 }
 
-- 
2.43.0


From 61c1561def19fe9d15b602aa7e22cfd3fa81a681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 23/35] fix: ghosted vectors and matrices used mesh-wide cell
 numbers that are wrong unless ranks own consecutive cells

---
 src/mesh/mesh.cpp             |  2 +-
 src/mesh/mesh.hpp             | 16 ++++++++++++++--
 src/mesh/meshpartitioning.cpp | 16 ++++++++++++++++
 src/ode/aodesolver.cpp        |  4 ++--
 src/spatial/aspatial.cpp      | 10 +++++-----
 5 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/mesh/mesh.cpp b/src/mesh/mesh.cpp
index 284c760..6d7d50b 100644
--- a/src/mesh/mesh.cpp
+++ b/src/mesh/mesh.cpp
@@ -769,7 +769,7 @@ std::vector<fint> UMesh<scalar,ndim>::getConnectivityGlobalIndices() const
 {
 	std::vector<fint> cgind(nconnface);
 	for(fint iface = 0; iface < nconnface; iface++)
-		cgind[iface] = connface(iface,3);
+		cgind[iface] = distributedIndex[nelem+iface];
 
 	return cgind;
 }
diff --git a/src/mesh/mesh.hpp b/src/mesh/mesh.hpp
index 4cf3893..93d9113 100644
--- a/src/mesh/mesh.hpp
+++ b/src/mesh/mesh.hpp
@@ -104,6 +104,12 @@ public:
 	/// Returns the global element index of an element of this subdomain
 	fint gglobalElemIndex(const fint iel) const { return globalElemIndex[iel]; }
 
+	/// Returns the index of a cell or connectivity ghost cell in distributed vectors and matrices
+	/** Unlike the [global element index](@ref gglobalElemIndex), this numbers the cells subdomain by
+	 * subdomain, in the order in which distributed vectors and matrices store them.
+	 */
+	fint gdistributedIndex(const fint iel) const { return distributedIndex[iel]; }
+
 	/// Returns an entry from the face data structure \ref intfac
 	/** \param face Index of the face about which data is needed.
 	 *  Boundary faces, connectivity faces or interior faces are to be accessed using \ref FaceIterators.
@@ -221,8 +227,8 @@ public:
 	/// Returns the maximum number of faces in a cell over all cells (not just this subdomain)
 	fint gmaxnfael() const { return maxnfael; }
 
-	/// Returns the array of global element indices corresponding to external elements across
-	///  connectivity boundary faces of this subdomain
+	/// Returns the array of [indices in distributed vectors](@ref gdistributedIndex) corresponding to
+	///  external elements across connectivity boundary faces of this subdomain
 	// const fint *getConnectivityGlobalIndices() const
 	// {
 	// 	assert(connGlobalIndices.size() > 0);
@@ -389,6 +395,12 @@ private:
 	 */
 	std::vector<fint> globalElemIndex;
 
+	/// Stores the index in distributed vectors and matrices of each element in this subdomain followed
+	///  by that of the element across each connectivity face
+	/** Computed by the partitioner.
+	 */
+	std::vector<fint> distributedIndex;
+
 	/// List of indices of [esup](@ref esup) corresponding to nodes
 	amat::Array2d<fint> esup_p;
 
diff --git a/src/mesh/meshpartitioning.cpp b/src/mesh/meshpartitioning.cpp
index 745963f..d96ecaa 100644
--- a/src/mesh/meshpartitioning.cpp
+++ b/src/mesh/meshpartitioning.cpp
@@ -4,6 +4,7 @@
 
 #include <iostream>
 #include <map>
+#include <numeric>
 #include <scotch.h>
 #include "meshpartitioning.hpp"
 #include "utilities/mpiutils.hpp"
@@ -151,6 +152,21 @@ UMesh<freal,2> ReplicatedGlobalMeshPartitioner::restrictMeshToPartitions() const
 
 	assert(icofa == lm.nconnface);
 
+	//! 7. Number all cells subdomain by subdomain for use in distributed vectors and matrices
+	std::vector<fint> nextindex(get_mpi_size(MPI_COMM_WORLD)+1, 0);
+	for(fint iel = 0; iel < gm.nelem; iel++)
+		nextindex[elemdist[iel]+1]++;
+	std::partial_sum(nextindex.begin(), nextindex.end(), nextindex.begin());
+	std::vector<fint> glob2dist(gm.nelem);
+	for(fint iel = 0; iel < gm.nelem; iel++)
+		glob2dist[iel] = nextindex[elemdist[iel]]++;
+
+	lm.distributedIndex.resize(lm.nelem+lm.nconnface);
+	for(fint iel = 0; iel < lm.nelem; iel++)
+		lm.distributedIndex[iel] = glob2dist[lm.globalElemIndex[iel]];
+	for(fint iface = 0; iface < lm.nconnface; iface++)
+		lm.distributedIndex[lm.nelem+iface] = glob2dist[lm.connface(iface,3)];
+
 	return lm;
 }
 
diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index ef8e657..51e407c 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -314,7 +314,7 @@ StatusCode SteadyBackwardEulerSolver<nvars>::addPseudoTimeTerm(const freal cfl,
 	for(fint iel = 0; iel < m->gnelem(); iel++)
 	{
 		dtm[iel] = m->garea(iel) / (cfl*dtm[iel]);
-		const fint ielg = m->gglobalElemIndex(iel);
+		const fint ielg = m->gdistributedIndex(iel);
 
 		const Eigen::Matrix<freal,nvars,nvars,Eigen::RowMajor> db
 			= dtm[iel] * Eigen::Matrix<freal,nvars,nvars,Eigen::RowMajor>::Identity();
@@ -345,7 +345,7 @@ StatusCode SteadyBackwardEulerSolver<nvars>::addPseudoTimeTerm_slow(const freal
 	for(fint iel = 0; iel < m->gnelem(); iel++)
 	{
 		dtm[iel] = m->garea(iel) / (cfl*dtm[iel]);
-		const fint ielg = m->gglobalElemIndex(iel);
+		const fint ielg = m->gdistributedIndex(iel);
 
 		for(int i = 0; i < nvars; i++)
 		{
diff --git a/src/spatial/aspatial.cpp b/src/spatial/aspatial.cpp
index 80e0ecc..1880ff0 100644
--- a/src/spatial/aspatial.cpp
+++ b/src/spatial/aspatial.cpp
@@ -265,7 +265,7 @@ StatusCode Spatial<scalar,nvars>::assemble_jacobian(const Vec uvec, Mat A) const
 	for(fint iface = m->gPhyBFaceStart(); iface < m->gPhyBFaceEnd(); iface++)
 	{
 		const fint lelem = m->gintfac(iface,0);
-		const fint lelemg = isdistributed ? m->gglobalElemIndex(lelem) : lelem;
+		const fint lelemg = isdistributed ? m->gdistributedIndex(lelem) : lelem;
 
 		Matrix<freal,nvars,nvars,RowMajor> left;
 		compute_local_jacobian_boundary(iface, &uarr[lelem*nvars], left);
@@ -283,8 +283,8 @@ StatusCode Spatial<scalar,nvars>::assemble_jacobian(const Vec uvec, Mat A) const
 	{
 		const fint lelem = m->gintfac(iface,0);
 		const fint relem = m->gintfac(iface,1);
-		const fint lelemg = isdistributed ? m->gglobalElemIndex(lelem) : lelem;
-		const fint relemg = isdistributed ? m->gglobalElemIndex(relem) : relem;
+		const fint lelemg = isdistributed ? m->gdistributedIndex(lelem) : lelem;
+		const fint relemg = isdistributed ? m->gdistributedIndex(relem) : relem;
 
 		Matrix<freal,nvars,nvars,RowMajor> L;
 		Matrix<freal,nvars,nvars,RowMajor> U;
@@ -316,8 +316,8 @@ StatusCode Spatial<scalar,nvars>::assemble_jacobian(const Vec uvec, Mat A) const
 	{
 		const fint lelem = m->gintfac(iface,0);
 		const fint relem = m->gintfac(iface,1);
-		const fint lelemg = isdistributed ? m->gglobalElemIndex(lelem) : lelem;
-		const fint relemg = isdistributed ? m->gconnface(iface-m->gConnBFaceStart(), 3) : -1;
+		const fint lelemg = isdistributed ? m->gdistributedIndex(lelem) : lelem;
+		const fint relemg = isdistributed ? m->gdistributedIndex(relem) : -1;
 
 		Matrix<freal,nvars,nvars,RowMajor> L;
 		Matrix<freal,nvars,nvars,RowMajor> U;
-- 
2.43.0


From ee06560d8729387d7b85b5bf92b69d8208eaf66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 24/35] fix: Green-Gauss gradients updated cells with several
 boundary faces from several threads without synchronisation

---
 src/spatial/agradientschemes.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/spatial/agradientschemes.cpp b/src/spatial/agradientschemes.cpp
index 8127070..337a124 100644
--- a/src/spatial/agradientschemes.cpp
+++ b/src/spatial/agradientschemes.cpp
@@ -113,7 +113,14 @@ void GreenGaussGradients<scalar,nvars>::compute_gradients(
 					* m->gfacemetric(iface,2);
 
 				for(int idim = 0; idim < NDIM; idim++)
+				{
+#ifdef USE_ADOLC
+#pragma omp critical
+#else
+#pragma omp atomic update
+#endif
 					grad[ielem](idim,ivar) += (ut * m->gfacemetric(iface,idim))*areainv1;
+				}
 			}
 		}
 
@@ -206,6 +213,11 @@ void GreenGaussGradients<scalar,nvars>::compute_gradients(
 
 				for(int idim = 0; idim < NDIM; idim++)
 				{
+#ifdef USE_ADOLC
+#pragma omp critical
+#else
+#pragma omp atomic update
+#endif
 					grad[ielem](idim,ivar) += (ut * m->gfacemetric(iface,idim))*areainv1;
 				}
 			}
-- 
2.43.0


From 48c7d0d568644d4468d6ae0a718589ddbad73281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:53 +0000
Subject: [PATCH 25/35] fix: TVDRK solver advanced backwards in time, the
 assembled vector is already the negative residual

---
 src/ode/aodesolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index 51e407c..bc8f21f 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -737,7 +737,7 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 				{
 					ustage(iel,i) = tvdcoeffs(istage,0)*u(iel,i)
 						          + tvdcoeffs(istage,1)*ustage(iel,i)
-						          - tvdcoeffs(istage,2) * dtmin*cfl/m->garea(iel)*residual(iel,i);
+						          + tvdcoeffs(istage,2) * dtmin*cfl/m->garea(iel)*residual(iel,i);
 				}
 			}
 		}
-- 
2.43.0


From 2dacfaa2efe637ac4560bfd1204def13673c1a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 26/35] fix: TVDRK stages used the residual of the
 start-of-step state (and stale ghost values)

---
 src/ode/aodesolver.cpp | 50 ++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index bc8f21f..bf4e090 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -676,28 +676,20 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 	int mpirank;
 	MPI_Comm_rank(PETSC_COMM_WORLD, &mpirank);
 
-	PetscInt locnelem; PetscScalar *uarr; PetscScalar *rarr;
+	PetscInt locnelem; const PetscScalar *uarr; PetscScalar *rarr;
 	ierr = VecGetLocalSize(uvec, &locnelem); CHKERRQ(ierr);
 	assert(locnelem % nvars == 0);
 	locnelem /= nvars;
 	assert(locnelem == m->gnelem());
 
-	ierr = VecGetArray(uvec, &uarr); CHKERRQ(ierr);
-	Eigen::Map<MVector<freal>> u(uarr, locnelem, nvars);
-	ierr = VecGetArray(rvec, &rarr); CHKERRQ(ierr);
-	Eigen::Map<MVector<freal>> residual(rarr, locnelem, nvars);
-
+	// Stage solution vector
+	Vec ustagevec; PetscScalar *usarr;
+	ierr = VecDuplicate(uvec, &ustagevec); CHKERRQ(ierr);
+	ierr = VecCopy(uvec, ustagevec); CHKERRQ(ierr);
 
 	int step = 0;
 	freal time = 0;   //< Physical time elapsed
 
-	// Stage solution vector
-	MVector<freal> ustage(m->gnelem(),nvars);
-#pragma omp parallel for simd default(shared)
-	for(fint iel = 0; iel < m->gnelem(); iel++)
-		for(int ivar = 0; ivar < nvars; ivar++)
-			ustage(iel,ivar) = u(iel,ivar);
-	
 	struct timeval time1, time2;
 	gettimeofday(&time1, NULL);
 	double initialwtime = (double)time1.tv_sec + (double)time1.tv_usec * 1.0e-6;
@@ -709,14 +701,12 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 
 		for(int istage = 0; istage < order; istage++)
 		{
-#pragma omp parallel for simd default(shared)
-			for(fint iel = 0; iel < m->gnelem(); iel++) {
-				for(int i = 0; i < nvars; i++)
-					residual(iel,i) = 0;
-			}
+			ierr = VecSet(rvec, 0); CHKERRQ(ierr);
 
 			// update residual
-			ierr = space->compute_residual(uvec, rvec, true, dtmvec); CHKERRQ(ierr);
+			ierr = VecGhostUpdateBegin(ustagevec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+			ierr = VecGhostUpdateEnd(ustagevec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+			ierr = space->compute_residual(ustagevec, rvec, true, dtmvec); CHKERRQ(ierr);
 
 			// update time step for the first stage of each time step
 			if(istage == 0)
@@ -730,6 +720,13 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 			if(!std::isfinite(dtmin))
 				throw Numerical_error("TVDRK solver diverged - dtmin is Nan or inf!");
 
+			ierr = VecGetArrayRead(uvec, &uarr); CHKERRQ(ierr);
+			Eigen::Map<const MVector<freal>> u(uarr, locnelem, nvars);
+			ierr = VecGetArray(ustagevec, &usarr); CHKERRQ(ierr);
+			Eigen::Map<MVector<freal>> ustage(usarr, locnelem, nvars);
+			ierr = VecGetArray(rvec, &rarr); CHKERRQ(ierr);
+			Eigen::Map<MVector<freal>> residual(rarr, locnelem, nvars);
+
 #pragma omp parallel for simd default(shared)
 			for(fint iel = 0; iel < m->gnelem(); iel++)
 			{
@@ -740,13 +737,13 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 						          + tvdcoeffs(istage,2) * dtmin*cfl/m->garea(iel)*residual(iel,i);
 				}
 			}
-		}
 
-#pragma omp parallel for simd default(shared)
-		for(fint iel = 0; iel < m->gnelem(); iel++)
-			for(int ivar = 0; ivar < nvars; ivar++)
-				u(iel,ivar) = ustage(iel,ivar);
+			ierr = VecRestoreArrayRead(uvec, &uarr); CHKERRQ(ierr);
+			ierr = VecRestoreArray(ustagevec, &usarr); CHKERRQ(ierr);
+			ierr = VecRestoreArray(rvec, &rarr); CHKERRQ(ierr);
+		}
 
+		ierr = VecCopy(ustagevec, uvec); CHKERRQ(ierr);
 
 		if(step % 10 == 0)
 			if(mpirank == 0)
@@ -779,8 +776,9 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 		outf.close();
 	}
 
-	ierr = VecRestoreArray(uvec, &uarr); CHKERRQ(ierr);
-	ierr = VecRestoreArray(rvec, &rarr); CHKERRQ(ierr);
+	ierr = VecGhostUpdateBegin(uvec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+	ierr = VecGhostUpdateEnd(uvec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+	ierr = VecDestroy(&ustagevec); CHKERRQ(ierr);
 	return ierr;
 }
 
-- 
2.43.0


From faecb27120191ab623069a6399c45ddcd008dd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 27/35] fix: TVDRK time step was the smallest of the process'
 own cells, not of the mesh

---
 src/ode/aodesolver.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index bf4e090..e5e4792 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -22,6 +22,7 @@
 #include <iostream>
 #include <iomanip>
 #include <fstream>
+#include <limits>
 #include <sys/time.h>
 #include <ctime>
 
@@ -713,8 +714,11 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 			{
 				const PetscScalar *dtm;
 				ierr = VecGetArrayRead(dtmvec, &dtm); CHKERRQ(ierr);
-				dtmin = *std::min_element(dtm, dtm+m->gnelem());
+				dtmin = std::numeric_limits<freal>::infinity();
+				if(m->gnelem() > 0)
+					dtmin = *std::min_element(dtm, dtm+m->gnelem());
 				ierr = VecRestoreArrayRead(dtmvec, &dtm); CHKERRQ(ierr);
+				mpi_all_reduce<freal>(&dtmin, 1, MPI_MIN, PETSC_COMM_WORLD);
 			}
 
 			if(!std::isfinite(dtmin))
-- 
2.43.0


From cd80ab763aef0803ba6e4d207ef8671594072045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 28/35] fix: an unavailable temporal order ran with
 uninitialised coefficients

---
 src/ode/aodesolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index e5e4792..19cebf5 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -62,7 +62,7 @@ static Eigen::Matrix<freal,Eigen::Dynamic,Eigen::Dynamic> initialize_TVDRK_Coeff
 		tvdrk(2,2) = 0.6666666666666667;
 	}
 	else {
-		std::cout << "! Temporal order " << _order  << " not available!\n";
+		throw UnsupportedOptionError("Temporal order " + std::to_string(_order) + " not available!");
 	}
 	return tvdrk;
 }
-- 
2.43.0


From c5de0ab04322f89502f4e2bae66d5215735129d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:47 +0000
Subject: [PATCH 29/35] fix: subsonic inflow used a wrong outgoing Riemann
 invariant and a velocity that missed the given total state

---
 src/spatial/abc.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index 069fdb9..aba2aba 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -154,7 +154,7 @@ void InFlow<scalar,j_real>::computeGhostState(const scalar *const ins, const sca
 {
 	const scalar ci = phy.getSoundSpeedFromConserved(ins);
 	// Outgoing Riemann invariant
-	const scalar Rminus = dimDotProduct(&ins[1],&n[0])/ins[0] - ci/(2*phy.g - 1.0);
+	const scalar Rminus = dimDotProduct(&ins[1],&n[0])/ins[0] - 2.0*ci/(phy.g-1.0);
 	// Square of stagnation speed of sound
 	const scalar co2 = ci*ci + (phy.g-1.0)/2.0 * dimDotProduct(&ins[1],&ins[1])/(ins[0]*ins[0]);
 
@@ -165,14 +165,15 @@ void InFlow<scalar,j_real>::computeGhostState(const scalar *const ins, const sca
 	const scalar tg = ttotal*cg*cg/co2;
 	const scalar pg = ptotal * pow(tg/ttotal, phy.g/(phy.g-1.0));
 	gs[0] = phy.getDensityFromPressureTemperature(pg,tg);
-	const scalar vgmag = sqrt(2.0/(phy.g-1.0)*(co2 - cg*cg));
+	// Velocity along the face normal, from the ghost state's Mach number and its own speed of sound
+	const scalar vng = (Rminus/cg + 2.0/(phy.g-1.0)) * phy.getSoundSpeed(gs[0],pg);
 
 	// Get velocity components of ghost state assuming it's (anti-)parallel to the face normal
 	scalar vg[NDIM];
-	getComponentsCartesian<scalar>(vgmag, n, vg);
+	getComponentsCartesian<scalar>(vng, n, vg);
 	for(int i = 0; i < NDIM; i++)
 		gs[i+1] = gs[0]*vg[i];
-	gs[NDIM+1] = phy.getEnergyFromPressure(pg,gs[0],vgmag*vgmag);
+	gs[NDIM+1] = phy.getEnergyFromPressure(pg,gs[0],vng*vng);
 }
 
 template <typename scalar, typename j_real>
-- 
2.43.0


From 98fb8c05551cf5d66a258abdbcfa21d1c7d20b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:47 +0000
Subject: [PATCH 30/35] fix: wall and total temperatures given in kelvin were
 used as non-dimensional ones

---
 src/spatial/abc.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index aba2aba..7ed17f5 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -491,7 +491,9 @@ std::map<int,const FlowBC<scalar>*> create_const_flowBCs(const std::vector<FlowB
 			bc = new InOutFlow<scalar>(itbc->bc_tag, physics, uinf);
 			break;
 		case SUBSONIC_INFLOW_BC:
-			bc = new InFlow<scalar>(itbc->bc_tag, physics, itbc->bc_vals[0], itbc->bc_vals[1]);
+			// total temperature is given in Kelvin
+			bc = new InFlow<scalar>(itbc->bc_tag, physics, itbc->bc_vals[0],
+			                        itbc->bc_vals[1]/physics.Tinf);
 			break;
 		case EXTRAPOLATION_BC:
 			bc = new Extrapolation<scalar>(itbc->bc_tag, physics);
@@ -500,8 +502,9 @@ std::map<int,const FlowBC<scalar>*> create_const_flowBCs(const std::vector<FlowB
 			bc = new Adiabaticwall2D<scalar>(itbc->bc_tag, physics, itbc->bc_vals[0]);
 			break;
 		case ISOTHERMAL_WALL_BC:
+			// wall temperature is given in Kelvin
 			bc = new Isothermalwall2D<scalar>(itbc->bc_tag, physics, itbc->bc_vals[0],
-			                                  itbc->bc_vals[1]);
+			                                  itbc->bc_vals[1]/physics.Tinf);
 			break;
 		default:
 			throw std::runtime_error("BC type not implemented yet!");
-- 
2.43.0


From c4f7974afe422f608a9245308c07c572d67fd7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:47 +0000
Subject: [PATCH 31/35] fix: skin friction with constant viscosity was computed
 with Sutherland's viscosity

---
 src/spatial/flow_spatial.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spatial/flow_spatial.cpp b/src/spatial/flow_spatial.cpp
index c06719d..f4db9f2 100644
--- a/src/spatial/flow_spatial.cpp
+++ b/src/spatial/flow_spatial.cpp
@@ -223,7 +223,8 @@ FlowFV_base<scalar>::computeSurfaceData (const amat::Array2dView<scalar> u,
 			 */
 
 			// non-dim viscosity / Re_inf
-			const scalar muhat = physics.getViscosityCoeffFromConserved(urec);
+			const scalar muhat = pconfig.const_visc ? physics.getConstantViscosityCoeff()
+				: physics.getViscosityCoeffFromConserved(urec);
 
 			// velocity gradient tensor
 			scalar gradu[NDIM][NDIM];
-- 
2.43.0


From 2d7714a999fe65979eae0db1d5f38d188554cfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:11 +0000
Subject: [PATCH 32/35] fix: tags that an element of a Gmsh file does not have
 were read from uninitialised memory

---
 src/mesh/meshreaders.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/meshreaders.cpp b/src/mesh/meshreaders.cpp
index 987b6f3..43402ca 100644
--- a/src/mesh/meshreaders.cpp
+++ b/src/mesh/meshreaders.cpp
@@ -99,6 +99,7 @@ MeshData readGmsh2(const std::string mfile)
 	m.ndtag = 0; m.nbtag = 0;
 	infile >> nelm;
 	amat::Array2d<fint > elms(nelm,width_elms);
+	elms.zeros();                   // elements may have different numbers of tags
 	m.nbface = 0; m.nelem = 0;
 	std::vector<int> nnodes(nelm,0);
 	std::vector<int> nfaels(nelm,0);
-- 
2.43.0


From c5064836533dada32d7817da57520aae56ddad3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:20 +0000
Subject: [PATCH 33/35] fix: assigning an array to itself destroyed its
 contents in release builds

---
 src/utilities/aarray2d.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/utilities/aarray2d.cpp b/src/utilities/aarray2d.cpp
index de3c41d..4b48884 100644
--- a/src/utilities/aarray2d.cpp
+++ b/src/utilities/aarray2d.cpp
@@ -44,9 +44,7 @@ Array2d<T>::Array2d(Array2d<T>&& other)
 template <typename T>
 Array2d<T>& Array2d<T>::operator=(const Array2d<T>& rhs)
 {
-#ifdef DEBUG
 	if(this==&rhs) return *this;		// check for self-assignment
-#endif
 	nrows = rhs.nrows;
 	ncols = rhs.ncols;
 	size = nrows*ncols;
-- 
2.43.0


From 7434b1e77d7c1cf66a0f7b8a2cbdadfe5bc1f9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:19 +0000
Subject: [PATCH 34/35] fix: renumbering the cells of a distributed mesh left
 its connections to other subdomains in the old numbering

---
 src/mesh/ameshutils.cpp |  8 ++++++--
 src/mesh/mesh.cpp       | 31 +++++++++++++++++++++++++++++++
 src/mesh/mesh.hpp       |  3 +--
 3 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/mesh/ameshutils.cpp b/src/mesh/ameshutils.cpp
index d8fc58e..7551cb8 100644
--- a/src/mesh/ameshutils.cpp
+++ b/src/mesh/ameshutils.cpp
@@ -245,7 +245,6 @@ std::array<bool,8> compareMeshes(const UMesh<freal,NDIM>& m1, const UMesh<freal,
 template <typename scalar>
 StatusCode reorderMeshPetsc(const char *const ordering, const Spatial<freal,1>& sd, UMesh<scalar,NDIM>& m)
 {
-	// The implementation must be changed for the multi-process case
 	StatusCode ierr = 0;
 
 	// If the ordering requested is not 'natural', reorder the mesh
@@ -256,9 +255,14 @@ StatusCode reorderMeshPetsc(const char *const ordering, const Spatial<freal,1>&
 		CHKERRQ(MatSetSizes(A, PETSC_DECIDE, PETSC_DECIDE, m.gnelem(), m.gnelem()));
 		CHKERRQ(setJacobianPreallocation<1>(&m, A));
 
+		// The Jacobian is that of the subdomain alone, but there must be values across connectivity faces
+		const std::vector<PetscInt> ghosts(m.gnConnFace(), 0);
 		Vec u;
-		CHKERRQ(VecCreateSeq(PETSC_COMM_SELF, m.gnelem(), &u));
+		CHKERRQ(VecCreateGhost(PETSC_COMM_SELF, m.gnelem(), m.gnelem(), m.gnConnFace(),
+		                       ghosts.data(), &u));
 		CHKERRQ(VecSet(u,1.0));
+		CHKERRQ(VecGhostUpdateBegin(u, INSERT_VALUES, SCATTER_FORWARD));
+		CHKERRQ(VecGhostUpdateEnd(u, INSERT_VALUES, SCATTER_FORWARD));
 
 		ierr = sd.assemble_jacobian(u, A); CHKERRQ(ierr);
 		CHKERRQ(MatAssemblyBegin(A, MAT_FINAL_ASSEMBLY));
diff --git a/src/mesh/mesh.cpp b/src/mesh/mesh.cpp
index 6d7d50b..782de34 100644
--- a/src/mesh/mesh.cpp
+++ b/src/mesh/mesh.cpp
@@ -21,6 +21,7 @@
 #include <iomanip>
 #include <fstream>
 #include <algorithm>
+#include <numeric>
 #include <boost/algorithm/string.hpp>
 
 #include "mesh.hpp"
@@ -99,6 +100,36 @@ void UMesh<scalar,ndim>::reorder_cells(const PetscInt *const permvec)
 		nnode[i] = tempnnode[permvec[i]];
 		nfael[i] = tempnfael[permvec[i]];
 	}
+
+	// if this is a subdomain, update the data that connects it to the others
+	if(globalElemIndex.empty() && nelem == nelemglobal)
+		return;
+
+	const std::vector<fint> tempglobalelem = globalElemIndex;
+	std::vector<fint> newlocalindex(nelem);
+	for(fint i = 0; i < nelem; i++) {
+		globalElemIndex[i] = tempglobalelem[permvec[i]];
+		newlocalindex[permvec[i]] = i;
+	}
+
+	for(fint iface = 0; iface < nconnface; iface++)
+		connface(iface,0) = newlocalindex[connface(iface,0)];
+
+	// The subdomain's own range of distributed indices does not change, but the other subdomains
+	//  need to know which of their neighbors' cells is where in that range
+	const int mpisize = get_mpi_size(MPI_COMM_WORLD);
+	std::vector<fint> newdistributedindex(nelem), allnewindices(nelemglobal);
+	for(fint i = 0; i < nelem; i++)
+		newdistributedindex[i] = distributedIndex[newlocalindex[i]];
+
+	std::vector<int> counts(mpisize), offsets(mpisize,0);
+	MPI_Allgather(&nelem, 1, FVENS_MPI_INT, counts.data(), 1, FVENS_MPI_INT, MPI_COMM_WORLD);
+	std::partial_sum(counts.begin(), counts.end()-1, offsets.begin()+1);
+	MPI_Allgatherv(newdistributedindex.data(), nelem, FVENS_MPI_INT,
+	               allnewindices.data(), counts.data(), offsets.data(), FVENS_MPI_INT, MPI_COMM_WORLD);
+
+	for(fint iface = 0; iface < nconnface; iface++)
+		distributedIndex[nelem+iface] = allnewindices[distributedIndex[nelem+iface]];
 }
 
 /**	Stores (in array bpointsb) for each boundary point: the associated global point number and
diff --git a/src/mesh/mesh.hpp b/src/mesh/mesh.hpp
index 93d9113..066ce6f 100644
--- a/src/mesh/mesh.hpp
+++ b/src/mesh/mesh.hpp
@@ -253,8 +253,7 @@ public:
 
 	/// Re-orders cells according to some permutation vector locally in the subdomain
 	/** \warning If reordering is needed, this function must be called immediately after reading
-	 * and distributing the mesh.
-	 * \todo TODO: Update connectivity data between subdomains after reordering the cells!
+	 * and distributing the mesh. If the mesh is distributed, every process must call it.
 	 */
 	void reorder_cells(const PetscInt *const permvec);
 
-- 
2.43.0


From 728d61d1a94613ddc99806b6c0543d5c53275cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:19 +0000
Subject: [PATCH 35/35] fix: the problem and mesh size reported by distributed
 runs were those of the process' own cells

---
 src/ode/aodesolver.cpp        | 2 +-
 src/spatial/aoutput.cpp       | 2 +-
 src/utilities/casesolvers.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index 19cebf5..cee67f8 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -77,7 +77,7 @@ template <int nvars>
 SteadySolver<nvars>::SteadySolver(const Spatial<freal,nvars> *const spatial, const SteadySolverConfig& conf)
 	: space{spatial}, config{conf}
 {
-	tdata.nelem = spatial->mesh()->gnelem();
+	tdata.nelem = spatial->mesh()->gnelemglobal();
 }
 
 template <int nvars>
diff --git a/src/spatial/aoutput.cpp b/src/spatial/aoutput.cpp
index a178606..70ab675 100644
--- a/src/spatial/aoutput.cpp
+++ b/src/spatial/aoutput.cpp
@@ -50,7 +50,7 @@ freal FlowOutput::compute_entropy_cell(const Vec uvec) const
 	mpi_all_reduce<freal>(&error, 1, MPI_SUM, PETSC_COMM_WORLD);
 	error = sqrt(error);
 
-	const freal h = 1.0/sqrt(m->gnelem());
+	const freal h = 1.0/sqrt(m->gnelemglobal());
 
 	if(mpirank == 0)
 		std::cout << "FlowOutput: log mesh size and log entropy:   " << log10(h) << "  " 
diff --git a/src/utilities/casesolvers.cpp b/src/utilities/casesolvers.cpp
index 4b8fe98..9685c56 100644
--- a/src/utilities/casesolvers.cpp
+++ b/src/utilities/casesolvers.cpp
@@ -93,7 +93,7 @@ FlowSolutionFunctionals FlowCase::run_output(const bool surface_file_needed,
 
 	const FlowFV_base<freal> *const prob = createFlowSpatial(opts, m);
 
-	const freal h = 1.0 / ( std::pow((freal)m.gnelem(), 1.0/NDIM) );
+	const freal h = 1.0 / ( std::pow((freal)m.gnelemglobal(), 1.0/NDIM) );
 
 	try {
 		ierr = execute(prob, opts.lognres, u);
-- 
2.43.0

