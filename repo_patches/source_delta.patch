From a2c9216ea049c874b9608bb0894d9447b6003d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 01/64] fix: Mesh::clear releases the edges too

---
 src/lib/mesh/Mesh.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index 7d85878..e09048e 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -124,6 +124,10 @@ void Mesh<T,K>::clear()
 	for(auto ptr : mData->Elements)
 		delete ptr;
 	mData->Elements.clear();
+
+	for(auto ptr : mData->Edges)
+		delete ptr;
+	mData->Edges.clear();
 }
 
 template<typename T, Dimension K>
-- 
2.43.0


From b95389533d84abf11096d2f82cea0fb0ffceeb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 02/64] fix: Mesh handles survive self assignment and copies of
 moved-from handles

---
 src/lib/mesh/Mesh.inl | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index e09048e..3459df2 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -49,7 +49,8 @@ template<typename T, Dimension K>
 Mesh<T,K>::Mesh(const Mesh<T,K>& other)
 {
 	mData = other.mData;
-	mData->Refs++;
+	if(mData)
+		mData->Refs++;
 }
 
 template<typename T, Dimension K>
@@ -77,6 +78,9 @@ Mesh<T,K>::~Mesh()
 template<typename T, Dimension K>
 Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
 {
+	if(mData == other.mData)// Includes self assignment
+		return *this;
+
 	if(mData)
 	{
 		NS_ASSERT(mData->Refs > 0);
@@ -89,7 +93,8 @@ Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
 	}
 
 	mData = other.mData;
-	mData->Refs++;
+	if(mData)
+		mData->Refs++;
 	
 	return *this;
 }
@@ -97,6 +102,9 @@ Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
 template<typename T, Dimension K>
 Mesh<T,K>& Mesh<T,K>::operator =(Mesh<T,K>&& other)
 {
+	if(this == &other)
+		return *this;
+
 	if(mData)
 	{
 		NS_ASSERT(mData->Refs > 0);
-- 
2.43.0


From 0ea90c251f9dc3d809548721f341910342d23f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 03/64] fix: Mesh reference count is atomic

---
 src/lib/mesh/Mesh.h   | 3 ++-
 src/lib/mesh/Mesh.inl | 9 +++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/lib/mesh/Mesh.h b/src/lib/mesh/Mesh.h
index 22d9775..dcd2ab7 100644
--- a/src/lib/mesh/Mesh.h
+++ b/src/lib/mesh/Mesh.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "Simplex.h"
+#include <atomic>
 #include <unordered_set>
 #include <unordered_map>
 
@@ -108,7 +109,7 @@ private:
 		MeshElementList Elements;
 		MeshVertexList Vertices;
 		MeshEdgeList Edges;
-		size_t Refs;
+		std::atomic<size_t> Refs;// Handles may be used by different threads
 	}* mData;
 };
 
diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index 3459df2..e76963c 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -66,8 +66,7 @@ Mesh<T,K>::~Mesh()
 	if(mData)
 	{
 		NS_ASSERT(mData->Refs > 0);
-		mData->Refs--;
-		if(mData->Refs == 0)
+		if(--mData->Refs == 0)
 		{
 			clear();
 			delete mData;
@@ -84,8 +83,7 @@ Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
 	if(mData)
 	{
 		NS_ASSERT(mData->Refs > 0);
-		mData->Refs--;
-		if(mData->Refs == 0)
+		if(--mData->Refs == 0)
 		{
 			clear();
 			delete mData;
@@ -108,8 +106,7 @@ Mesh<T,K>& Mesh<T,K>::operator =(Mesh<T,K>&& other)
 	if(mData)
 	{
 		NS_ASSERT(mData->Refs > 0);
-		mData->Refs--;
-		if(mData->Refs == 0)
+		if(--mData->Refs == 0)
 		{
 			clear();
 			delete mData;
-- 
2.43.0


From b335e6f0e2291b12948df230e3b4e85eb8260152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 04/64] fix: MeshEdge initialises all its vertex slots

---
 src/lib/mesh/Mesh.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index e76963c..6af413b 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -30,7 +30,7 @@ MeshVertex<T,K>::MeshVertex(const FixedVector<T,K>& vertex) :
 template<typename T, Dimension K>
 MeshEdge<T,K>::MeshEdge()
 {
-	for(Index i = 0; i < K-1; ++i)
+	for(Index i = 0; i < K; ++i)
 		Vertices[i] = nullptr;
 	
 	Elements[0] = nullptr;
-- 
2.43.0


From dc0465a8803d80532d19c2faabb5607e9797c589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 05/64] fix: Mesh::addElement leaves no trace when it runs out
 of memory

---
 src/lib/mesh/Mesh.inl | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index 6af413b..89a8dc0 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -180,12 +180,26 @@ void Mesh<T,K>::addElement(MeshElement<T,K>* element)
 {
 	NS_ASSERT(element);
 
-	mData->Elements.push_back(element);
+	Index i = 0;
+	bool added = false;
+	try
+	{
+		mData->Elements.push_back(element);
+		added = true;
 
-	for(Index i = 0; i < K+1; ++i)
+		for(; i < K+1; ++i)
+		{
+			element->Element[i] = element->Vertices[i]->Vertex;
+			element->Vertices[i]->Elements.push_back(element);
+		}
+	}
+	catch(...)// The caller stays the owner, so forget everything about the element
 	{
-		element->Element[i] = element->Vertices[i]->Vertex;
-		element->Vertices[i]->Elements.push_back(element);
+		while(i > 0)
+			element->Vertices[--i]->Elements.pop_back();
+		if(added)
+			mData->Elements.pop_back();
+		throw;
 	}
 }
 
-- 
2.43.0


From ce1fd7427dc22018bd7142aad40da033a5d37826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 06/64] fix: Mesh::setupNeighbors does not lose an edge when it
 runs out of memory

---
 src/lib/mesh/Mesh.h   | 1 +
 src/lib/mesh/Mesh.inl | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/mesh/Mesh.h b/src/lib/mesh/Mesh.h
index dcd2ab7..8b4321f 100644
--- a/src/lib/mesh/Mesh.h
+++ b/src/lib/mesh/Mesh.h
@@ -2,6 +2,7 @@
 
 #include "Simplex.h"
 #include <atomic>
+#include <memory>
 #include <unordered_set>
 #include <unordered_map>
 
diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index 89a8dc0..8e88d92 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -260,7 +260,9 @@ void Mesh<T,K>::setupNeighbors()
 				throw MalformedElementNeighborConnectionException();
 
 			// Create edge
-			MeshEdge<T,K>* edge = new MeshEdge<T,K>();
+			std::unique_ptr<MeshEdge<T,K> > newEdge(new MeshEdge<T,K>());
+			mData->Edges.push_back(newEdge.get());
+			MeshEdge<T,K>* edge = newEdge.release();// Owned by the mesh now
 			edge->Elements[0] = S;
 
 			for(Index j = 0; j < K; ++j)
@@ -268,8 +270,6 @@ void Mesh<T,K>::setupNeighbors()
 			
 			S->Neighbors[i] = edge;
 
-			mData->Edges.push_back(edge);
-
 			// Find corresponding other element if exists
 			for(Index j = 0; j < K; ++j)
 			{
-- 
2.43.0


From 276bbd735d69bff7b07ec9da3b7dd13406648e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 07/64] fix: HyperCube::generate releases everything when it
 runs out of memory

---
 src/lib/mesh/HyperCube.inl | 51 +++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/src/lib/mesh/HyperCube.inl b/src/lib/mesh/HyperCube.inl
index 6bfa5db..acf7c84 100644
--- a/src/lib/mesh/HyperCube.inl
+++ b/src/lib/mesh/HyperCube.inl
@@ -40,42 +40,45 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 	ey.fill((T)0);
 	ey[1] = size[1]/(T)elements[1];
 	
-	MV** lastRowVertices = new MV*[elements[1]+1];
+	std::vector<MV*> lastRowVertices(elements[1]+1);
+
+	// The mesh takes over the ownership if and only if adding succeeds
+	const auto addVertex = [&](const FixedVector<T,2>& pos, uint32 flags)
+	{
+		std::unique_ptr<MV> v(new MV(pos));
+		v->Flags |= flags;
+		mesh.addVertex(v.get());
+		return v.release();
+	};
+
+	const auto addElement = [&](MV* v0, MV* v1, MV* v2)
+	{
+		std::unique_ptr<ME> s(new ME());
+		s->Vertices[0] = v0;
+		s->Vertices[1] = v1;
+		s->Vertices[2] = v2;
+		mesh.addElement(s.get());
+		s.release();
+	};
 
 	// Generate first row
 	for(Index j = 0; j <= elements[1]; ++j)
 	{
-		MV* v = new MV(offset + ex*(T)j);
-		v->Flags |= MVF_StrongBoundary;
-		mesh.addVertex(v);
-		lastRowVertices[j] = v;
+		lastRowVertices[j] = addVertex(offset + ex*(T)j, MVF_StrongBoundary);
 	}
 
 	// Iterate over rows
 	for(Index i = 1; i <= elements[0]; ++i)
 	{
 		const auto py = ey*(T)i;
-		MV* lastVertex = new MV(offset + py);
-		lastVertex->Flags |= MVF_StrongBoundary;// Set first column as boundary
-
-		mesh.addVertex(lastVertex);
+		MV* lastVertex = addVertex(offset + py, MVF_StrongBoundary);// Set first column as boundary
 
 		for(Index j = 1; j <= elements[1]; ++j)
 		{
-			MV* v = new MV(offset + ex*(T)j + py);
-			mesh.addVertex(v);
-
-			ME* s1 = new ME();
-			s1->Vertices[0] = lastRowVertices[j-1];
-			s1->Vertices[1] = lastVertex;
-			s1->Vertices[2] = v;
-			mesh.addElement(s1);
+			MV* v = addVertex(offset + ex*(T)j + py, 0);
 
-			ME* s2 = new ME();
-			s2->Vertices[0] = lastRowVertices[j-1];
-			s2->Vertices[1] = v;
-			s2->Vertices[2] = lastRowVertices[j];
-			mesh.addElement(s2);
+			addElement(lastRowVertices[j-1], lastVertex, v);
+			addElement(lastRowVertices[j-1], v, lastRowVertices[j]);
 
 			lastRowVertices[j-1] = lastVertex;
 			lastVertex = v;
@@ -90,10 +93,6 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 	for(Index j = 0; j <= elements[1]; ++j)
 		lastRowVertices[j]->Flags |= MVF_StrongBoundary;
 
-
-	// Cleanup
-	delete[] lastRowVertices;
-
 	mesh.setupNeighbors();
 	return mesh;
 }
-- 
2.43.0


From 9a5723c91892bd9f8691127750f8184e91af75fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 08/64] fix: HyperCube::generate puts elements[0] columns along
 x and elements[1] rows along y

---
 src/lib/mesh/HyperCube.inl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib/mesh/HyperCube.inl b/src/lib/mesh/HyperCube.inl
index acf7c84..885e65d 100644
--- a/src/lib/mesh/HyperCube.inl
+++ b/src/lib/mesh/HyperCube.inl
@@ -40,7 +40,7 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 	ey.fill((T)0);
 	ey[1] = size[1]/(T)elements[1];
 	
-	std::vector<MV*> lastRowVertices(elements[1]+1);
+	std::vector<MV*> lastRowVertices(elements[0]+1);
 
 	// The mesh takes over the ownership if and only if adding succeeds
 	const auto addVertex = [&](const FixedVector<T,2>& pos, uint32 flags)
@@ -62,18 +62,18 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 	};
 
 	// Generate first row
-	for(Index j = 0; j <= elements[1]; ++j)
+	for(Index j = 0; j <= elements[0]; ++j)
 	{
 		lastRowVertices[j] = addVertex(offset + ex*(T)j, MVF_StrongBoundary);
 	}
 
 	// Iterate over rows
-	for(Index i = 1; i <= elements[0]; ++i)
+	for(Index i = 1; i <= elements[1]; ++i)
 	{
 		const auto py = ey*(T)i;
 		MV* lastVertex = addVertex(offset + py, MVF_StrongBoundary);// Set first column as boundary
 
-		for(Index j = 1; j <= elements[1]; ++j)
+		for(Index j = 1; j <= elements[0]; ++j)
 		{
 			MV* v = addVertex(offset + ex*(T)j + py, 0);
 
@@ -86,11 +86,11 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 
 		lastVertex->Flags |= MVF_StrongBoundary;// Set last column as boundary
 
-		lastRowVertices[elements[1]] = lastVertex;
+		lastRowVertices[elements[0]] = lastVertex;
 	}
 
 	// Set last row as boundary
-	for(Index j = 0; j <= elements[1]; ++j)
+	for(Index j = 0; j <= elements[0]; ++j)
 		lastRowVertices[j]->Flags |= MVF_StrongBoundary;
 
 	mesh.setupNeighbors();
-- 
2.43.0


From 186c6a5bdefa934ec7bda609346bf549d5454f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 09/64] fix: PolyShapePolicy::prepareMesh does not lose a node
 when it runs out of memory

---
 src/lib/sf/PolyShapeFunction.inl | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/sf/PolyShapeFunction.inl b/src/lib/sf/PolyShapeFunction.inl
index c89473e..2917acc 100644
--- a/src/lib/sf/PolyShapeFunction.inl
+++ b/src/lib/sf/PolyShapeFunction.inl
@@ -391,11 +391,13 @@ void PolyShapePolicy<T,K,Order>::prepareMesh(Mesh<T,K>& m)
             for(auto* e : m.elements())
             {
                 const auto x2 = (e->Vertices[0]->Vertex + e->Vertices[1]->Vertex)/(T)2;
-                MeshVertex<T,K>* v2 = new MeshVertex<T,K>(x2);
+                std::unique_ptr<MeshVertex<T,K> > newVertex(new MeshVertex<T,K>(x2));
+                MeshVertex<T,K>* v2 = newVertex.get();
 
                 v2->Flags |= e->Vertices[0]->Flags | e->Vertices[1]->Flags;
                 v2->Flags |= MVF_Implicit;
                 m.addVertex(v2);
+                newVertex.release();// Owned by the mesh now
 
                 v2->Elements.push_back(e);
                 e->DOFVertices.push_back(v2);
@@ -414,13 +416,15 @@ void PolyShapePolicy<T,K,Order>::prepareMesh(Mesh<T,K>& m)
                 else
                 {
                     const auto x2 = (edge->Vertices[0]->Vertex + edge->Vertices[1]->Vertex)/(T)2;
-                    MeshVertex<T,K>* v2 = new MeshVertex<T,K>(x2);
+                    std::unique_ptr<MeshVertex<T,K> > newVertex(new MeshVertex<T,K>(x2));
+                    MeshVertex<T,K>* v2 = newVertex.get();
 
                     v2->Flags |= MVF_Implicit;
                     if(!edge->Elements[0] || !edge->Elements[1])
                         v2->Flags |= MVF_StrongBoundary;
 
                     m.addVertex(v2);
+                    newVertex.release();// Owned by the mesh now
 
                     v2->Elements.push_back(element);
                     element->DOFVertices.push_back(v2);
-- 
2.43.0


From bda300f4716e48b5badbc05236a107bd52779a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 10/64] fix: SparseMatrix::swap swaps the column count too

---
 src/lib/matrix/SparseMatrix.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index bb62f06..662da8c 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -832,6 +832,7 @@ void SparseMatrix<T>::swap(SparseMatrix<T>& v)
 	std::swap(mValues, v.mValues);
 	std::swap(mColumnPtr, v.mColumnPtr);
 	std::swap(mRowPtr, v.mRowPtr);
+	std::swap(mColumnCount, v.mColumnCount);
 }
 
 template<typename T>
-- 
2.43.0


From bfb8b5ef7b8e9fb12d61b9966d04e128e2e282d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 11/64] fix: SparseMatrix::set leaves the matrix unchanged when
 it runs out of memory

---
 src/lib/matrix/SparseMatrix.inl | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 662da8c..bacb66d 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -316,8 +316,16 @@ void SparseMatrix<T>::set_at(Index i1, Index i2, const T& v)
 	}
 	else// New
 	{
-		mValues.insert(mValues.begin() + columnPtrIndex, v);// O(D1*D2)
 		mColumnPtr.insert(mColumnPtr.begin() + columnPtrIndex, i2);// O(D1*D2)
+		try
+		{
+			mValues.insert(mValues.begin() + columnPtrIndex, v);// O(D1*D2)
+		}
+		catch (...)// Keep columns and values in step
+		{
+			mColumnPtr.erase(mColumnPtr.begin() + columnPtrIndex);
+			throw;
+		}
 	
 		for (Index k = i1 + 1; k < rows(); ++k)// O(D1)
 			mRowPtr[k] += 1;
-- 
2.43.0


From 0b6f8140c5b31e17783c5e0288f9ba79baf16f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 12/64] fix: SparseMatrix assignment leaves the matrix
 unchanged when it runs out of memory

---
 src/lib/matrix/SparseMatrix.h   | 7 +++++++
 src/lib/matrix/SparseMatrix.inl | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/lib/matrix/SparseMatrix.h b/src/lib/matrix/SparseMatrix.h
index 4c24cb7..04e90f7 100644
--- a/src/lib/matrix/SparseMatrix.h
+++ b/src/lib/matrix/SparseMatrix.h
@@ -299,6 +299,13 @@ public:
 	 */
 	SparseMatrix(std::initializer_list<std::initializer_list<T> > list);
 
+	SparseMatrix(const SparseMatrix& m) = default;
+
+	/**
+	* @brief Assigns the other matrix. Leaves this matrix unchanged if it fails.
+	*/
+	SparseMatrix& operator =(const SparseMatrix& m);
+
 	virtual ~SparseMatrix();
 
 	/**
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index bacb66d..6d443ee 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -225,6 +225,14 @@ SparseMatrix<T>::SparseMatrix(std::initializer_list<std::initializer_list<T> > l
 	}
 }
 
+template<typename T>
+SparseMatrix<T>& SparseMatrix<T>::operator =(const SparseMatrix<T>& m)
+{
+	SparseMatrix<T> tmp(m);
+	swap(tmp);
+	return *this;
+}
+
 template<typename T>
 SparseMatrix<T>::~SparseMatrix()
 {
-- 
2.43.0


From d58aa2be9c1353b5b8ea851f880b2eb97637cb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 13/64] fix: SparseMatrix::erase returns the right row when
 rows become or are empty

---
 src/lib/matrix/SparseMatrix.inl | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 6d443ee..e6a3b39 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -634,18 +634,12 @@ SparseMatrixIterator<T> SparseMatrix<T>::erase(const SparseMatrixIterator<T>& it
 		{
 			nIt.mIndex2 = *cIt;
 
-			for (Index s1 = it.row(); s1 < rows(); ++s1)
-			{
-				if (mRowPtr[s1] == it.mColumnPtrIndex)
-				{
-					nIt.mIndex1 = s1;// New row
-					break;
-				}
-				else if (mRowPtr[s1] > it.mColumnPtrIndex)
-				{
-					break;
-				}
-			}
+			// The successor lies in the last row starting at or before it
+			Index s1 = it.row();
+			while (s1 + 1 < rows() && mRowPtr[s1 + 1] <= it.mColumnPtrIndex)
+				++s1;
+
+			nIt.mIndex1 = s1;
 		}
 
 		return nIt;
-- 
2.43.0


From 07759cfd8ebd2fee5c2f3a97f3cb03e6e213bfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 14/64] fix: SparseMatrix products do not store zeros and
 survive aliased scalars

---
 src/lib/matrix/SparseMatrix.inl | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index e6a3b39..9c78505 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -672,18 +672,11 @@ SparseMatrix<T>& SparseMatrix<T>::operator -=(const SparseMatrix<T>& v2)
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator *=(const SparseMatrix<T>& v2)
 {
-	for (auto it = v2.cbegin(); it != v2.cend(); ++it)// O(D1*D2)
-	{
-		bool found;
-		Index tmp;
-		T& val = const_cast<T&>(internal_at(it.row(), it.column(), tmp, found));// O(D2)
-
-		val *= *it;
-	}
-
 	for (auto it = begin(); it != end();)// O(D1*D2)
 	{
-		if (!v2.has(it.row(), it.column()))// O(D2)
+		*it *= v2.at(it.row(), it.column());// O(D2)
+
+		if (*it == (T)0)
 			it = erase(it);// O(D1*D2)
 		else
 			++it;
@@ -695,7 +688,8 @@ SparseMatrix<T>& SparseMatrix<T>::operator *=(const SparseMatrix<T>& v2)
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator *=(const T& f)
 {
-	if (f == (T)0)
+	const T s = f;// Could be a reference to one of the entries
+	if (s == (T)0)
 	{
 		mValues.clear();
 		mColumnPtr.clear();
@@ -703,8 +697,15 @@ SparseMatrix<T>& SparseMatrix<T>::operator *=(const T& f)
 	}
 	else
 	{
-		for (auto it = begin(); it != end(); ++it)// O(D1*D2)
-			*it *= f; // O(1)
+		for (auto it = begin(); it != end();)// O(D1*D2)
+		{
+			*it *= s; // O(1)
+
+			if (*it == (T)0)// Underflow
+				it = erase(it);
+			else
+				++it;
+		}
 	}
 
 	return *this;
-- 
2.43.0


From 5a1ecf3a868adef126ea539ccbf7d59ec947dfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 15/64] fix: SparseMatrix can be subtracted from itself

---
 src/lib/matrix/SparseMatrix.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 9c78505..aa4c4e4 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -663,6 +663,9 @@ SparseMatrix<T>& SparseMatrix<T>::operator +=(const SparseMatrix<T>& v2)
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator -=(const SparseMatrix<T>& v2)
 {
+	if (this == &v2)// Entries vanish while iterating
+		return *this -= SparseMatrix<T>(v2);
+
 	for (auto it = v2.cbegin(); it != v2.cend(); ++it)
 		set(it.row(), it.column(), at(it.row(), it.column()) - *it);
 
-- 
2.43.0


From 129bc98e6b54087a73d62f67a13380e877997ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 16/64] fix: SparseMatrix::column_begin does not abort on an
 empty column

---
 src/lib/matrix/SparseMatrix.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index aa4c4e4..5a62ae5 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -534,7 +534,7 @@ const SparseMatrixColumnIterator<T> SparseMatrix<T>::column_begin(Index i) const
 	else
 	{
 		Index row = 0;
-		while (!has(row, i) && row != rows())
+		while (row != rows() && !has(row, i))
 			++row;
 
 		if (row == rows())
@@ -558,7 +558,7 @@ SparseMatrixColumnIterator<T> SparseMatrix<T>::column_begin(Index i)
 	else
 	{
 		Index row = 0;
-		while (!has(row, i) && row != rows())
+		while (row != rows() && !has(row, i))
 			++row;
 
 		if (row == rows())
-- 
2.43.0


From 3fe4e56bf9adf7d80845527b787066a65551d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 17/64] fix: max() of vectors and matrices works without
 positive entries

---
 src/lib/CountableSet.inl        | 2 +-
 src/lib/matrix/BaseMatrix.inl   | 2 +-
 src/lib/matrix/SparseMatrix.inl | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/CountableSet.inl b/src/lib/CountableSet.inl
index 22a8dcd..d584ebf 100644
--- a/src/lib/CountableSet.inl
+++ b/src/lib/CountableSet.inl
@@ -76,7 +76,7 @@ T CountableSet<T, DC>::max() const
 {
 	typedef typename get_complex_internal<T>::type _t;
 
-	_t s = std::numeric_limits<_t>::min();
+	_t s = std::numeric_limits<_t>::lowest();
 	for (Index i = 0; i < size(); ++i)
 	{
 		_t d = complex_abs(mData[i]);
diff --git a/src/lib/matrix/BaseMatrix.inl b/src/lib/matrix/BaseMatrix.inl
index 3fc479c..37a11ca 100644
--- a/src/lib/matrix/BaseMatrix.inl
+++ b/src/lib/matrix/BaseMatrix.inl
@@ -372,7 +372,7 @@ T BaseMatrix<T,DC>::sum() const
 template<typename T, class DC>
 T BaseMatrix<T,DC>::max() const
 {
-	T s = std::numeric_limits<typename get_complex_internal<T>::type>::min();
+	T s = std::numeric_limits<typename get_complex_internal<T>::type>::lowest();
 	for (auto l : mValues.Container)
 	{
 		if (l > s)
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 5a62ae5..f4db645 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -775,7 +775,7 @@ T SparseMatrix<T>::sum() const
 template<typename T>
 T SparseMatrix<T>::max() const
 {
-	T s = std::numeric_limits<typename get_complex_internal<T>::type>::min();
+	T s = std::numeric_limits<typename get_complex_internal<T>::type>::lowest();
 	for (auto l : mValues)
 	{
 		if (l > s)
-- 
2.43.0


From 37fe1924e10a39c6376cbd906e77cad815dadf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 18/64] fix: scalar compound assignments work when the scalar
 is one of the entries

---
 src/lib/Vector.inl             | 9 ++++++---
 src/lib/matrix/DenseMatrix.inl | 3 ++-
 src/lib/matrix/FixedMatrix.inl | 3 ++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index c8b41dc..bea9f6f 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -159,8 +159,9 @@ Vector<T,DC>& Vector<T,DC>::operator +=(const Vector<T,DC>& v)
 template<typename T, class DC>
 Vector<T,DC>& Vector<T,DC>::operator +=(const T& f)
 {
+	const T s = f;// Could be a reference to one of the entries
 	for (Index i = 0; i < this->size(); ++i)
-		this->mData[i] += f;
+		this->mData[i] += s;
 
 	return *this;
 }
@@ -180,8 +181,9 @@ Vector<T,DC>& Vector<T,DC>::operator -=(const Vector<T,DC>& v)
 template<typename T, class DC>
 Vector<T,DC>& Vector<T,DC>::operator -=(const T& f)
 {
+	const T s = f;// Could be a reference to one of the entries
 	for (Index i = 0; i < this->size(); ++i)
-		this->mData[i] -= f;
+		this->mData[i] -= s;
 
 	return *this;
 }
@@ -201,8 +203,9 @@ Vector<T,DC>& Vector<T,DC>::operator *=(const Vector<T,DC>& v)
 template<typename T, class DC>
 Vector<T,DC>& Vector<T,DC>::operator *=(const T& f)
 {
+	const T s = f;// Could be a reference to one of the entries
 	for (Index i = 0; i < this->size(); ++i)
-		this->mData[i] *= f;
+		this->mData[i] *= s;
 
 	return *this;
 }
diff --git a/src/lib/matrix/DenseMatrix.inl b/src/lib/matrix/DenseMatrix.inl
index b6aa00b..00cc35e 100644
--- a/src/lib/matrix/DenseMatrix.inl
+++ b/src/lib/matrix/DenseMatrix.inl
@@ -97,8 +97,9 @@ DenseMatrix<T>& DenseMatrix<T>::operator *=(const BaseMatrix<T,DC2>& m)
 template<typename T>
 DenseMatrix<T>& DenseMatrix<T>::operator *=(const T& f)
 {
+	const T s = f;// Could be a reference to one of the entries
 	for (Index i = 0; i < this->size(); ++i)
-		this->mValues.Container[i] *= f;
+		this->mValues.Container[i] *= s;
 
 	return *this;
 }
diff --git a/src/lib/matrix/FixedMatrix.inl b/src/lib/matrix/FixedMatrix.inl
index 6dcd48a..1c6f1f2 100644
--- a/src/lib/matrix/FixedMatrix.inl
+++ b/src/lib/matrix/FixedMatrix.inl
@@ -76,8 +76,9 @@ FixedMatrix<T,K1,K2>& FixedMatrix<T,K1,K2>::operator *=(const FixedMatrix<T,K1,K
 template<typename T, Dimension K1, Dimension K2>
 FixedMatrix<T,K1,K2>& FixedMatrix<T,K1,K2>::operator *=(const T& f)
 {
+	const T s = f;// Could be a reference to one of the entries
 	for (Index i = 0; i < this->size(); ++i)
-		this->mValues.Container[i] *= f;
+		this->mValues.Container[i] *= s;
 
 	return *this;
 }
-- 
2.43.0


From 9ec3cfea6e694efaa3b29929ee1cbabfdc200570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 19/64] fix: DenseMatrix element wise operators reject matrices
 of another shape

---
 src/lib/matrix/DenseMatrix.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/matrix/DenseMatrix.inl b/src/lib/matrix/DenseMatrix.inl
index 00cc35e..a4af7c9 100644
--- a/src/lib/matrix/DenseMatrix.inl
+++ b/src/lib/matrix/DenseMatrix.inl
@@ -59,7 +59,7 @@ template<typename T>
 template<class DC2>
 DenseMatrix<T>& DenseMatrix<T>::operator +=(const BaseMatrix<T,DC2>& m)
 {
-	if (this->size() != m.size())
+	if (this->rows() != m.rows() || this->columns() != m.columns())
 		throw MatrixSizeMismatchException();
 
 	for (Index i = 0; i < this->size(); ++i)
@@ -72,7 +72,7 @@ template<typename T>
 template<class DC2>
 DenseMatrix<T>& DenseMatrix<T>::operator -=(const BaseMatrix<T,DC2>& m)
 {
-	if (this->size() != m.size())
+	if (this->rows() != m.rows() || this->columns() != m.columns())
 		throw MatrixSizeMismatchException();
 
 	for (Index i = 0; i < this->size(); ++i)
@@ -85,7 +85,7 @@ template<typename T>
 template<class DC2>
 DenseMatrix<T>& DenseMatrix<T>::operator *=(const BaseMatrix<T,DC2>& m)
 {
-	if (this->size() != m.size())
+	if (this->rows() != m.rows() || this->columns() != m.columns())
 		throw MatrixSizeMismatchException();
 
 	for (Index i = 0; i < this->size(); ++i)
-- 
2.43.0


From e0eda40e0f1a3ced59b48d361db2a92f51ffb74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 20/64] fix: FixedMatrix::conjugate and adjugate compile

---
 src/lib/matrix/FixedMatrix.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/FixedMatrix.inl b/src/lib/matrix/FixedMatrix.inl
index 1c6f1f2..674cb9f 100644
--- a/src/lib/matrix/FixedMatrix.inl
+++ b/src/lib/matrix/FixedMatrix.inl
@@ -112,7 +112,7 @@ FixedMatrix<T,K1,K2> FixedMatrix<T,K1,K2>::conjugate() const
 	{
 		for (Index j = 0; j < this->columns(); ++j)
 		{
-			tmp.set(i, j, conjugate_vt(this->at(i, j)));
+			tmp.set(i, j, complex_conj(this->at(i, j)));
 		}
 	}
 
@@ -127,7 +127,7 @@ FixedMatrix<T,K2,K1> FixedMatrix<T,K1,K2>::adjugate() const
 	{
 		for (Index j = 0; j < this->rows(); ++j)
 		{
-			tmp.set(i, j, conjugate_vt(this->at(j, i)));
+			tmp.set(i, j, complex_conj(this->at(j, i)));
 		}
 	}
 
-- 
2.43.0


From cda6cc2352beb2919c4e87adc7db6c02ea4906ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 21/64] fix: doolittle releases its row table when it fails

---
 src/lib/LU.h   | 2 ++
 src/lib/LU.inl | 8 ++------
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/lib/LU.h b/src/lib/LU.h
index a1a3e41..edabe28 100644
--- a/src/lib/LU.h
+++ b/src/lib/LU.h
@@ -5,6 +5,8 @@
 
 #include "matrix/MatrixCheck.h"
 
+#include <vector>
+
 NS_BEGIN_NAMESPACE
 
 namespace LU
diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index dc29013..07ab032 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -63,7 +63,7 @@ namespace LU {
 			if(pivotCount)
 				*pivotCount = 0;
 
-			Index* rowTable = new Index[n];
+			std::vector<Index> rowTable(n);
 			for (Index i = 0; i < n; ++i)
 			{
 				L.set(i, i, (T)1);
@@ -127,8 +127,6 @@ namespace LU {
 			// Build pivot matrix
 			for (Index i = 0; i < n; ++i)
 				P.set(i,rowTable[i], (T)1);
-			
-			delete[] rowTable;
 		}
 
 		/* TODO: Optimize*/
@@ -146,7 +144,7 @@ namespace LU {
 			if(pivotCount)
 				*pivotCount = 0;
 
-			Index* rowTable = new Index[n];
+			std::vector<Index> rowTable(n);
 			for (Index i = 0; i < n; ++i)
 			{
 				L.set(i, i, (T)1);
@@ -211,8 +209,6 @@ namespace LU {
 			P = SparseMatrix<T>(n,n);
 			for (Index i = 0; i < n; ++i)
 				P.set(i,rowTable[i], (T)1);
-			
-			delete[] rowTable;
 		}
 
 		template<typename T>
-- 
2.43.0


From 26c1d6a6dcfe8bc01ec84d9d0a62187054fd716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 22/64] fix: dense doolittle overwrites all of L and P

---
 src/lib/LU.inl | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 07ab032..c74f9d2 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -66,7 +66,8 @@ namespace LU {
 			std::vector<Index> rowTable(n);
 			for (Index i = 0; i < n; ++i)
 			{
-				L.set(i, i, (T)1);
+				for (Index j = 0; j < n; ++j)
+					L.set(i, j, i == j ? (T)1 : (T)0);
 				rowTable[i] = i;
 			}
 			
@@ -126,7 +127,10 @@ namespace LU {
 
 			// Build pivot matrix
 			for (Index i = 0; i < n; ++i)
-				P.set(i,rowTable[i], (T)1);
+			{
+				for (Index j = 0; j < n; ++j)
+					P.set(i, j, j == rowTable[i] ? (T)1 : (T)0);
+			}
 		}
 
 		/* TODO: Optimize*/
-- 
2.43.0


From b58d377e94e713dcca270265ae0a36775d4ced3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 23/64] fix: cholesky overwrites all of L and rejects singular
 matrices

---
 src/lib/LU.inl | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index c74f9d2..77897ed 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -31,14 +31,17 @@ namespace LU {
 				}
 
 				s = m.at(j, j) - s;
-				if (!sqrt_allowed(s))
+				if (!sqrt_allowed(s) || s == (T)0)
 					throw NotPositiveDefiniteException();
 
+				for (Index i = 0; i < j; ++i)
+					L.set(i, j, (T)0);
+
 				L.set(j, j, std::sqrt(s));
 				for (Index i = j; i < L.rows(); ++i)
 				{
 					s = (T)0;
-					for (Index k = 0; k < i; ++k)
+					for (Index k = 0; k < j; ++k)
 						s += L.at(i, k)*L.at(j, k);
 					L.set(i, j, (m.at(i, j) - s) / L.at(j, j));
 				}
-- 
2.43.0


From 890f2b0693cc3a5438c2aa6232c1d4e0a52a8c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 24/64] fix: ilu0 overwrites all of L and U and always sets the
 unit diagonal

---
 src/lib/LU.inl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 77897ed..f92ce74 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -245,14 +245,14 @@ namespace LU {
 			}
 
 			// Seperate M into L and U
+			L = SparseMatrix<T>(A.rows(), A.columns());
+			U = SparseMatrix<T>(A.rows(), A.columns());
+			for(Index i = 0; i < M.rows(); ++i)
+				L.set(i, i, 1);
+
 			for(auto it = M.begin(); it != M.end(); ++it)
 			{
-				if(it.column() == it.row())
-				{
-					L.set(it.row(), it.column(), 1);
-					U.set(it.row(), it.column(), *it);
-				}
-				else if(it.column() < it.row())
+				if(it.column() < it.row())
 				{
 					L.set(it.row(), it.column(), *it);
 				}
-- 
2.43.0


From c306b4064e4f911ec389741e18578e2739a46263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 25/64] fix: ainv_lu inverts any U and overwrites its outputs

---
 src/lib/LU.inl | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index f92ce74..30fd66a 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -345,12 +345,18 @@ namespace LU {
 
 			for(Index k = 0; k < N; ++k)
 			{
+				// Entries known to be zero
+				for(Index i = 0; i < k; ++i)
+					invL.set(i,k, 0);
+				for(Index i = k+1; i < N; ++i)
+					invU.set(i,k, 0);
+
 				// L
 				invL.set(k,k, 1);// Assuming L has only ones as diagonal entries
 
 				for(Index i = k+1; i < N; ++i)
 				{
-					T m = invL.at(i,k);
+					T m = (T)0;
 
 					auto it = L.row_begin(i);
 					while(it != L.row_end(i) && it.column() < k)// Skipping. Is zero
@@ -363,11 +369,9 @@ namespace LU {
 				}
 
 				// U
-				invU.set(k,k, 1/U.at(k,k));
-				
-				for(Index i = (N-1)-k; ; --i)
+				for(Index i = k; ; --i)
 				{
-					T m = invU.at(i,k);
+					T m = (i == k) ? (T)1 : (T)0;
 
 					auto it = U.row_begin(i);
 					while(it != U.row_end(i) && it.column() < i+1)// Skipping. Is zero
-- 
2.43.0


From bb20591c9f5aeaef2dd68119aab15314b4f28c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 26/64] fix: Operations::inverse(L,U) divides the right entry

---
 src/lib/matrix/MatrixOperations.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/matrix/MatrixOperations.inl b/src/lib/matrix/MatrixOperations.inl
index f06e221..45dbec3 100644
--- a/src/lib/matrix/MatrixOperations.inl
+++ b/src/lib/matrix/MatrixOperations.inl
@@ -99,7 +99,7 @@ namespace Operations
 				if(std::abs(mid) <= std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())
 					throw SingularException();
 				
-				Inv.set(j,j, Inv.at(j,j) / mid);
+				Inv.set(j,i, Inv.at(j,i) / mid);
 
 				if(j == 0)
 					break;
-- 
2.43.0


From fc37462142dc9f67252b70ced6fd97bc8aa6340d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 27/64] fix: CG steps along conjugate directions and returns a
 start vector that is the solution

---
 src/lib/CG.inl | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/lib/CG.inl b/src/lib/CG.inl
index 7678225..cc956fc 100644
--- a/src/lib/CG.inl
+++ b/src/lib/CG.inl
@@ -29,26 +29,28 @@ namespace CG {
 
 			V2 l;
 			size_t k = 0;
-			for (; k < maxIter; ++k)
+			while (k < maxIter && rs != 0 && !(rs < eps2))
 			{
 				const auto t = a.mul(p);
-				const typename M::value_type ak = rs / (t.dot(p));
+				const typename M::value_type tp = t.dot(p);
+				if (tp == 0)// Nothing left to gain
+					break;
+
+				const typename M::value_type ak = rs / tp;
 				x += ak*p;
 				l = r - ak*t;
+				++k;
 
 				const auto ls = l.magSqr();
-				if (ls < eps2 || k == maxIter-1)
-					break;
-
 				const typename V2::value_type bk = ls / rs;
 
-				p = l + bk*r;
+				p = l + bk*p;
 				r = l;
 				rs = ls;
 			}
 
 			if (it_stat)
-				*it_stat = k + 1;
+				*it_stat = k;
 
 			return x;
 		}
@@ -81,15 +83,17 @@ namespace CG {
 			auto l1 = r.dot(z);
 			auto l2 = l1;
 			size_t k = 0;
-			for (; k < maxIter; ++k)
+			while (k < maxIter && l1 != 0 && !(r.magSqr() < eps2))
 			{
 				const auto t = a.mul(p);
-				const typename M::value_type ak = l1 / (t.dot(p));
+				const typename M::value_type tp = t.dot(p);
+				if (tp == 0)// Nothing left to gain
+					break;
+
+				const typename M::value_type ak = l1 / tp;
 				x += ak*p;
 				r -= ak*t;
-
-				if (r.magSqr() < eps2 || k == maxIter-1)
-					break;
+				++k;
 
 				z = c.mul(r);
 				l2 = r.dot(z);
@@ -98,7 +102,7 @@ namespace CG {
 			}
 
 			if (it_stat)
-				*it_stat = k + 1;
+				*it_stat = k;
 
 			return x;
 		}
-- 
2.43.0


From 5b874f2660c971d4584d590827cbf0a71e2dddf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 28/64] fix: CG::jacobi clears whatever its output held beside
 the diagonal

---
 src/lib/CG.inl | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/CG.inl b/src/lib/CG.inl
index cc956fc..7100c0b 100644
--- a/src/lib/CG.inl
+++ b/src/lib/CG.inl
@@ -121,6 +121,14 @@ namespace CG {
 			if (A.rows() != C.rows())
 				throw MatrixSizeMismatchException();
 
+			for(auto it = C.begin(); it != C.end();)// Nothing beside the diagonal may survive
+			{
+				if(it.row() != it.column() && *it != (T)0)
+					it = C.set(it, (T)0);
+				else
+					++it;
+			}
+
 			for(Index i = 0; i < A.rows(); ++i)
 			{
 				const auto mid = A.at(i,i);
-- 
2.43.0


From 37fa44f7e8005ca37de2dad940333bd004af12e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 29/64] fix: SOR relaxes the first sweep from the start vector

---
 src/lib/Iterative.inl | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib/Iterative.inl b/src/lib/Iterative.inl
index 19a1cdb..315dcac 100644
--- a/src/lib/Iterative.inl
+++ b/src/lib/Iterative.inl
@@ -82,7 +82,6 @@ namespace Iterative
 
 			V x = x0;
 			V xm = x0;
-			xm.fill((T)0);
 
 			for (size_t it = 0; it < maxIter; ++it)
 			{
-- 
2.43.0


From b3980a7c89896f96de0295d71f4d9069d14ed77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 30/64] fix: Jacobi and SOR do not take an overflow for
 convergence

---
 src/lib/Iterative.inl | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lib/Iterative.inl b/src/lib/Iterative.inl
index 315dcac..3811811 100644
--- a/src/lib/Iterative.inl
+++ b/src/lib/Iterative.inl
@@ -46,8 +46,7 @@ namespace Iterative
 				if (std::isnan(conv))
 					throw MatrixHasZeroInDiagException();
 
-				if (!std::isfinite(conv) ||
-					conv <= eps2)// Convergence
+				if (conv <= eps2)// Convergence
 				{
 					if (it_stat)
 						*it_stat = it + 1;
@@ -107,8 +106,7 @@ namespace Iterative
 				if (std::isnan(conv))
 					throw MatrixHasZeroInDiagException();
 
-				if (!std::isfinite(conv) ||
-					conv <= eps2)// Convergence
+				if (conv <= eps2)// Convergence
 				{
 					if (it_stat)
 						*it_stat = it + 1;
-- 
2.43.0


From b91a8c6d4e20c695d453af2312a5e8faa9e4630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 31/64] fix: Jacobi and SOR always report a zero in the
 diagonal

---
 src/lib/Iterative.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/Iterative.inl b/src/lib/Iterative.inl
index 3811811..7326826 100644
--- a/src/lib/Iterative.inl
+++ b/src/lib/Iterative.inl
@@ -39,6 +39,9 @@ namespace Iterative
 							mid = *rit;
 					}
 
+					if (mid == (T)0)
+						throw MatrixHasZeroInDiagException();
+
 					xm.set(i, (b.at(i) - t) / mid);
 				}
 
@@ -98,6 +101,9 @@ namespace Iterative
 							mid = *rit;
 					}
 
+					if (mid == (T)0)
+						throw MatrixHasZeroInDiagException();
+
 					t = (b.at(i) - t) / mid;
 					xm.set(i, rweight*xm.at(i) + weight*t);
 				}
-- 
2.43.0


From a704bee24df0e5b3f402bcb0d31da936f7187e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 32/64] fix: MeshTriangleLoader reports element file errors as
 such and reserves elements

---
 src/lib/loader/MeshTriangleLoader.inl | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index 5449ec9..6e19215 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -108,16 +108,16 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 
 		if(parseMode == 0)//First Line
 		{
-			size_t nodes = extractFirstNumber<size_t>(it, line.end());
+			size_t elements = extractFirstNumber<size_t>(it, line.end());
 
-			if(nodes == 0)
+			if(elements == 0)
 				throw LoadTriangleElementErrorException();
 
 			skipWS(it, line.end());
 			if(it == line.end() || extractFirstNumber<int>(it, line.end()) != 3)
 				throw LoadTriangleElementErrorException();
 			
-			mesh.reserveVertices(nodes);
+			mesh.reserveElements(elements);
 			// Everything else is ignored!
 			parseMode = 1;
 		}
@@ -128,24 +128,24 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 				indexShift = 0;
 			
 			if(index-indexShift != nextIndex)
-				throw LoadTriangleNodeErrorException();
+				throw LoadTriangleElementErrorException();
 			nextIndex = index-indexShift + 1;
 			
 			skipWS(it, line.end());
 			if(it == line.end())
-				throw LoadTriangleNodeErrorException();
+				throw LoadTriangleElementErrorException();
 			
 			size_t i1 = extractFirstNumber<size_t>(it, line.end());
 
 			skipWS(it, line.end());
 			if(it == line.end())
-				throw LoadTriangleNodeErrorException();
+				throw LoadTriangleElementErrorException();
 
 			size_t i2 = extractFirstNumber<size_t>(it, line.end());
 
 			skipWS(it, line.end());
 			if(it == line.end())
-				throw LoadTriangleNodeErrorException();
+				throw LoadTriangleElementErrorException();
 
 			size_t i3 = extractFirstNumber<size_t>(it, line.end());
 
-- 
2.43.0


From a18cbf3fdfaaefbfeeb8319bcc935eff78c3da12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 33/64] fix: MeshTriangleLoader::loadFile reports files it can
 not open

---
 src/lib/loader/MeshTriangleLoader.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index 6e19215..9b787c3 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -8,7 +8,12 @@ template<typename T>
 Mesh<T,2> MeshTriangleLoader<T>::loadFile(const std::string& nodeFile, const std::string& eleFile)
 {
 	std::ifstream f1(nodeFile);
+	if(!f1)
+		throw LoadTriangleNodeErrorException();
+
 	std::ifstream f2(eleFile);
+	if(!f2)
+		throw LoadTriangleElementErrorException();
 
 	return loadString(
 		std::string(std::istreambuf_iterator<char>(f1), std::istreambuf_iterator<char>()),
-- 
2.43.0


From 6646c7773da3d1a7d1fc7cc740eb94c15e8ea47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 34/64] fix: MeshTriangleLoader does not leak when adding to
 the mesh fails

---
 src/lib/loader/MeshTriangleLoader.h   |  1 +
 src/lib/loader/MeshTriangleLoader.inl | 10 ++++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/loader/MeshTriangleLoader.h b/src/lib/loader/MeshTriangleLoader.h
index d5badfd..d0e21ce 100644
--- a/src/lib/loader/MeshTriangleLoader.h
+++ b/src/lib/loader/MeshTriangleLoader.h
@@ -5,6 +5,7 @@
 #include <sstream>
 #include <fstream>
 #include <streambuf>
+#include <memory>
 
 NS_BEGIN_NAMESPACE
 
diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index 9b787c3..ac7c5f9 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -88,8 +88,9 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 
 			// Everything else is ignored
 
-			MeshVertex<T,2>* mv = new MeshVertex<T,2>(FixedVector<T,2>{e1,e2});
-			mesh.addVertex(mv);
+			std::unique_ptr<MeshVertex<T,2> > mv(new MeshVertex<T,2>(FixedVector<T,2>{e1,e2}));
+			mesh.addVertex(mv.get());
+			mv.release();// Owned by the mesh now
 		}
     }
 }
@@ -156,12 +157,13 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 
 			// Everything else is ignored
 
-			MeshElement<T,2>* me = new MeshElement<T,2>();
+			std::unique_ptr<MeshElement<T,2> > me(new MeshElement<T,2>());
 			me->Vertices[0] = mesh.vertex(i1-indexShift);
 			me->Vertices[1] = mesh.vertex(i2-indexShift);
 			me->Vertices[2] = mesh.vertex(i3-indexShift);
 
-			mesh.addElement(me);
+			mesh.addElement(me.get());
+			me.release();// Owned by the mesh now
 		}
     }
 }
-- 
2.43.0


From 680330e6d1eebe7ac1c9d639990f6a027a951d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 35/64] fix: MeshTriangleLoader checks vertex indices

---
 src/lib/loader/MeshTriangleLoader.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index ac7c5f9..0616d66 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -157,6 +157,12 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 
 			// Everything else is ignored
 
+			const size_t vertexCount = mesh.vertices().size();
+			if(i1-indexShift >= vertexCount ||
+				i2-indexShift >= vertexCount ||
+				i3-indexShift >= vertexCount)
+				throw LoadTriangleElementErrorException();
+
 			std::unique_ptr<MeshElement<T,2> > me(new MeshElement<T,2>());
 			me->Vertices[0] = mesh.vertex(i1-indexShift);
 			me->Vertices[1] = mesh.vertex(i2-indexShift);
-- 
2.43.0


From 04d31b29a7ebaa1550f4061bc67d04e174661a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 36/64] fix: MeshTriangleLoader does not step before the start
 of a line

---
 src/lib/loader/MeshTriangleLoader.inl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index 0616d66..e388a1a 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -200,7 +200,11 @@ T2 MeshTriangleLoader<T>::extractFirstNumber(std::string::const_iterator& start,
 	std::stringstream stream(std::string(start, end));
 	T2 ret = 0;
 	stream >> ret;
-	start += stream.tellg();
+
+	if(stream.eof())
+		start = end;
+	else
+		start += stream.tellg();
 
 	return ret;
 }
-- 
2.43.0


From 66d23ff2eb56e64fa5341d7a0238ad52e00c2166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 37/64] fix: MeshTriangleLoader rejects text where a number is
 expected

---
 src/lib/loader/MeshTriangleLoader.h   |  2 +-
 src/lib/loader/MeshTriangleLoader.inl | 27 ++++++++++++++-------------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/lib/loader/MeshTriangleLoader.h b/src/lib/loader/MeshTriangleLoader.h
index d0e21ce..e53e0b4 100644
--- a/src/lib/loader/MeshTriangleLoader.h
+++ b/src/lib/loader/MeshTriangleLoader.h
@@ -24,7 +24,7 @@ private:
 	static void skipWS(std::string::const_iterator& it,
 		std::string::const_iterator end);
 	
-	template<typename T2>
+	template<typename T2, class E>
 	static T2 extractFirstNumber(std::string::const_iterator& it,
 		std::string::const_iterator end);
 
diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index e388a1a..c085694 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -51,13 +51,13 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 
 		if(parseMode == 0)//First Line
 		{
-			size_t nodes = extractFirstNumber<size_t>(it, line.end());
+			size_t nodes = extractFirstNumber<size_t, LoadTriangleNodeErrorException>(it, line.end());
 
 			if(nodes == 0)
 				throw LoadTriangleNodeErrorException();
 
 			skipWS(it, line.end());
-			if(it == line.end() || extractFirstNumber<int>(it, line.end()) != 2)
+			if(it == line.end() || extractFirstNumber<int, LoadTriangleNodeErrorException>(it, line.end()) != 2)
 				throw LoadTriangleNodeErrorException();
 			
 			mesh.reserveVertices(nodes);
@@ -66,7 +66,7 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 		}
 		else// Vertices
 		{
-			size_t index = extractFirstNumber<size_t>(it, line.end());
+			size_t index = extractFirstNumber<size_t, LoadTriangleNodeErrorException>(it, line.end());
 			if(index == 0)
 				indexShift = 0;
 			
@@ -78,13 +78,13 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 			if(it == line.end())
 				throw LoadTriangleNodeErrorException();
 			
-			T e1 = extractFirstNumber<T>(it, line.end());
+			T e1 = extractFirstNumber<T, LoadTriangleNodeErrorException>(it, line.end());
 
 			skipWS(it, line.end());
 			if(it == line.end())
 				throw LoadTriangleNodeErrorException();
 
-			T e2 = extractFirstNumber<T>(it, line.end());
+			T e2 = extractFirstNumber<T, LoadTriangleNodeErrorException>(it, line.end());
 
 			// Everything else is ignored
 
@@ -114,13 +114,13 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 
 		if(parseMode == 0)//First Line
 		{
-			size_t elements = extractFirstNumber<size_t>(it, line.end());
+			size_t elements = extractFirstNumber<size_t, LoadTriangleElementErrorException>(it, line.end());
 
 			if(elements == 0)
 				throw LoadTriangleElementErrorException();
 
 			skipWS(it, line.end());
-			if(it == line.end() || extractFirstNumber<int>(it, line.end()) != 3)
+			if(it == line.end() || extractFirstNumber<int, LoadTriangleElementErrorException>(it, line.end()) != 3)
 				throw LoadTriangleElementErrorException();
 			
 			mesh.reserveElements(elements);
@@ -129,7 +129,7 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 		}
 		else// Vertices
 		{
-			size_t index = extractFirstNumber<size_t>(it, line.end());
+			size_t index = extractFirstNumber<size_t, LoadTriangleElementErrorException>(it, line.end());
 			if(index == 0)
 				indexShift = 0;
 			
@@ -141,19 +141,19 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 			if(it == line.end())
 				throw LoadTriangleElementErrorException();
 			
-			size_t i1 = extractFirstNumber<size_t>(it, line.end());
+			size_t i1 = extractFirstNumber<size_t, LoadTriangleElementErrorException>(it, line.end());
 
 			skipWS(it, line.end());
 			if(it == line.end())
 				throw LoadTriangleElementErrorException();
 
-			size_t i2 = extractFirstNumber<size_t>(it, line.end());
+			size_t i2 = extractFirstNumber<size_t, LoadTriangleElementErrorException>(it, line.end());
 
 			skipWS(it, line.end());
 			if(it == line.end())
 				throw LoadTriangleElementErrorException();
 
-			size_t i3 = extractFirstNumber<size_t>(it, line.end());
+			size_t i3 = extractFirstNumber<size_t, LoadTriangleElementErrorException>(it, line.end());
 
 			// Everything else is ignored
 
@@ -193,13 +193,14 @@ void MeshTriangleLoader<T>::skipWS(std::string::const_iterator& it,
 }
 
 template<typename T>
-template<typename T2>
+template<typename T2, class E>
 T2 MeshTriangleLoader<T>::extractFirstNumber(std::string::const_iterator& start,
 	std::string::const_iterator end)
 {
 	std::stringstream stream(std::string(start, end));
 	T2 ret = 0;
-	stream >> ret;
+	if(!(stream >> ret))
+		throw E();
 
 	if(stream.eof())
 		start = end;
-- 
2.43.0


From 8078deab92571ada7f2ffdc0667ae692a7730b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 38/64] fix: MeshTriangleLoader reports files which do not hold
 what they announce

---
 src/lib/loader/MeshTriangleLoader.inl | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index c085694..a0e6394 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -38,6 +38,7 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 	uint32 parseMode = 0;
 	uint32 indexShift = 1;
 	size_t nextIndex = 0;
+	size_t nodes = 0;
 
 	std::istringstream f(nodeStr);
     std::string line;    
@@ -51,9 +52,9 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 
 		if(parseMode == 0)//First Line
 		{
-			size_t nodes = extractFirstNumber<size_t, LoadTriangleNodeErrorException>(it, line.end());
+			nodes = extractFirstNumber<size_t, LoadTriangleNodeErrorException>(it, line.end());
 
-			if(nodes == 0)
+			if(nodes == 0 || nodes > nodeStr.size())// More than could ever follow
 				throw LoadTriangleNodeErrorException();
 
 			skipWS(it, line.end());
@@ -93,6 +94,9 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 			mv.release();// Owned by the mesh now
 		}
     }
+
+	if(parseMode == 0 || nextIndex != nodes)// Not everything announced is there
+		throw LoadTriangleNodeErrorException();
 }
 
 template<typename T>
@@ -101,6 +105,7 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 	uint32 parseMode = 0;
 	uint32 indexShift = 1;
 	size_t nextIndex = 0;
+	size_t elements = 0;
 
 	std::istringstream f(eleStr);
     std::string line;    
@@ -114,9 +119,9 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 
 		if(parseMode == 0)//First Line
 		{
-			size_t elements = extractFirstNumber<size_t, LoadTriangleElementErrorException>(it, line.end());
+			elements = extractFirstNumber<size_t, LoadTriangleElementErrorException>(it, line.end());
 
-			if(elements == 0)
+			if(elements == 0 || elements > eleStr.size())// More than could ever follow
 				throw LoadTriangleElementErrorException();
 
 			skipWS(it, line.end());
@@ -172,6 +177,9 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 			me.release();// Owned by the mesh now
 		}
     }
+
+	if(parseMode == 0 || nextIndex != elements)// Not everything announced is there
+		throw LoadTriangleElementErrorException();
 }
 
 template<typename T>
@@ -185,7 +193,7 @@ void MeshTriangleLoader<T>::skipWS(std::string::const_iterator& it,
 			it = end;
 			return;
 		}
-		else if(!isspace(*it))
+		else if(!isspace((unsigned char)*it))
 			return;
 
 		++it;
-- 
2.43.0


From c4964ac9f23aaaa3f8f593e413585fed3b2815a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 39/64] fix: MeshObjLoader does not leak on failure or abort on
 empty shapes

---
 src/objloader/loader/MeshObjLoader.inl | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/objloader/loader/MeshObjLoader.inl b/src/objloader/loader/MeshObjLoader.inl
index e238b1f..59e3753 100644
--- a/src/objloader/loader/MeshObjLoader.inl
+++ b/src/objloader/loader/MeshObjLoader.inl
@@ -46,20 +46,23 @@ Mesh<T,2> MeshObjLoader<T,yI,xI>::load(const std::vector<tinyobj::shape_t>& shap
 		const size_t vertexCount = shape.mesh.positions.size() / 3;
 		const size_t elementCount = shape.mesh.indices.size() / 3;
 
-		mesh.reserveVertices(vertexCount);
-		mesh.reserveElements(elementCount);
+		if(vertexCount > 0)
+			mesh.reserveVertices(vertexCount);
+		if(elementCount > 0)
+			mesh.reserveElements(elementCount);
 
 		for (size_t i = 0; i < vertexCount; ++i)
 		{
-			MV* v = new MV();
+			std::unique_ptr<MV> v(new MV());
 			v->Vertex[0] = (T)shape.mesh.positions[3*i + xI];
 			v->Vertex[1] = (T)shape.mesh.positions[3*i + yI];
-			mesh.addVertex(v);
+			mesh.addVertex(v.get());
+			v.release();// Owned by the mesh now
 		}
 
 		for (size_t i = 0; i < elementCount; ++i)
 		{
-			ME* s = new ME();
+			std::unique_ptr<ME> s(new ME());
 			for (Dimension j = 0; j < 3; ++j)
 			{
 				Index idx = shape.mesh.indices[3 * i + j];
@@ -69,7 +72,8 @@ Mesh<T,2> MeshObjLoader<T,yI,xI>::load(const std::vector<tinyobj::shape_t>& shap
 				s->Vertices[j] = mesh.vertex(idx);
 			}
 
-			mesh.addElement(s);
+			mesh.addElement(s.get());
+			s.release();// Owned by the mesh now
 		}
 
 		break;// Only one
-- 
2.43.0


From 11473ef9241553474b7026cadbfc0c0838d6347b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 40/64] fix: VTKExporter reports when the file could not be
 written

---
 src/lib/export/VTKExporter.h   | 3 +++
 src/lib/export/VTKExporter.inl | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/lib/export/VTKExporter.h b/src/lib/export/VTKExporter.h
index 0e91b31..86bf0fc 100644
--- a/src/lib/export/VTKExporter.h
+++ b/src/lib/export/VTKExporter.h
@@ -8,6 +8,9 @@
 
 NS_BEGIN_NAMESPACE
 
+NS_DECLARE_EXCEPTION_GROUP(Exporter, Mesh);
+NS_DECLARE_EXCEPTION(VTKExportError, Exporter, "Error while writing the VTK file.");
+
 enum VTKOutputOptions
 {
 	VOO_ElementDeterminant = 0x1,
diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index 1a3de4d..c602679 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -16,6 +16,9 @@ void VTKExporter<T,K>::write(const std::string& path,
 	static_assert(K >= 1 && K <= 3, "Only 1d, 2d and 3d data can be exported.");
 
 	std::ofstream stream(path.c_str());
+	if(!stream)
+		throw VTKExportErrorException();
+
 	// Header
 	stream << "<?xml version=\"1.0\"?>" << std::endl
 		<< "<VTKFile type=\"UnstructuredGrid\" version=\"0.1\" byte_order=\"LittleEndian\">" << std::endl
@@ -173,6 +176,8 @@ void VTKExporter<T,K>::write(const std::string& path,
 	
 	stream << std::endl;
 	stream.close();
+	if(!stream)// Something did not reach the file
+		throw VTKExportErrorException();
 }
 
 NS_END_NAMESPACE
\ No newline at end of file
-- 
2.43.0


From 27b874ffe238f8aca68f5de1ac9632c25961c3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 41/64] fix: VTKExporter does not touch the first of no point
 arrays

---
 src/lib/export/VTKExporter.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index c602679..703f9af 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -95,7 +95,10 @@ void VTKExporter<T,K>::write(const std::string& path,
 	stream << "</Cells>" << std::endl;
 
 	// Point data
-	stream << "<PointData Scalars=\"" << pointData.begin()->first << "\">" << std::endl;
+	if(pointData.empty())
+		stream << "<PointData>" << std::endl;
+	else
+		stream << "<PointData Scalars=\"" << pointData.begin()->first << "\">" << std::endl;
 	for(auto res : pointData)
 	{
 		stream << "<DataArray Name=\"" << res.first << "\" type=\"Float32\" format=\"ascii\">" << std::endl;
-- 
2.43.0


From 97ea4f13309522d44a4f4098dded30079468b9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 42/64] fix: VTKExporter announces the components of the
 gradient it writes

---
 src/lib/export/VTKExporter.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index 703f9af..1b0d050 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -160,7 +160,7 @@ void VTKExporter<T,K>::write(const std::string& path,
 	if(outputOptions & VOO_ElementGradient)
 	{
 		stream << "<DataArray Name=\"ElementGradient\" type=\"Float32\" NumberOfComponents=\"" 
-			<< (K*K) << "\" format=\"ascii\">" << std::endl;
+			<< K << "\" format=\"ascii\">" << std::endl;
 		for (MeshElement<T,K>* elem : mesh.elements())
 		{
 			const auto M = elem->Element.gradient(0);
-- 
2.43.0


From 7f31e0cb2ddb7e675b7e8841a9fc2ab08dbcb3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 43/64] fix: LoadObj reports read errors instead of returning
 what it got so far

---
 src/objloader/external/tiny_obj_loader.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 820d0bf..520b0c5 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -1255,6 +1255,11 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
     // Ignore unknown command.
   }
 
+  if (inStream.bad()) {
+    err += "Error while reading the stream.\n";
+    return false;
+  }
+
   bool ret = exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup,
                                     tags, material, name, true, flags, err );
   if (ret) {
-- 
2.43.0


From 01f94e66f5b60bb4f4fd0168153fba96fb846071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 44/64] fix: LoadObj rejects faces with too few vertices or
 invalid vertex indices

---
 src/objloader/external/tiny_obj_loader.h | 34 ++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 520b0c5..d89df4a 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -609,6 +609,30 @@ static void InitMaterial(material_t &material) {
   material.unknown_parameter.clear();
 }
 
+// Every face has to be a polygon build from available vertices
+static bool checkFaceGroup(
+    const std::vector<std::vector<vertex_index> > &faceGroup,
+    const std::vector<float> &in_positions, std::string &err) {
+  for (size_t i = 0; i < faceGroup.size(); i++) {
+    const std::vector<vertex_index> &face = faceGroup[i];
+
+    if (face.size() < 3) {
+      err += "Face with less than three vertices.\n";
+      return false;
+    }
+
+    for (size_t k = 0; k < face.size(); k++) {
+      if (face[k].v_idx < 0 ||
+          static_cast<size_t>(face[k].v_idx) >= in_positions.size() / 3) {
+        err += "Face with an invalid vertex index.\n";
+        return false;
+      }
+    }
+  }
+
+  return true;
+}
+
 static bool exportFaceGroupToShape(
     shape_t &shape, std::map<vertex_index, unsigned int> vertexCache,
     const std::vector<float> &in_positions,
@@ -1110,6 +1134,9 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
       }
 
       if (newMaterialId != material) {
+        if (!checkFaceGroup(faceGroup, v, err))
+          return false;
+
         // Create per-face material
         exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup, tags,
                                material, name, true, flags, err );
@@ -1144,6 +1171,8 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
 
     // group name
     if (token[0] == 'g' && IS_SPACE((token[1]))) {
+      if (!checkFaceGroup(faceGroup, v, err))
+        return false;
 
       // flush previous face group.
       bool ret =
@@ -1181,6 +1210,8 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
 
     // object name
     if (token[0] == 'o' && IS_SPACE((token[1]))) {
+      if (!checkFaceGroup(faceGroup, v, err))
+        return false;
 
       // flush previous face group.
       bool ret =
@@ -1260,6 +1291,9 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
     return false;
   }
 
+  if (!checkFaceGroup(faceGroup, v, err))
+    return false;
+
   bool ret = exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup,
                                     tags, material, name, true, flags, err );
   if (ret) {
-- 
2.43.0


From cc577bd5ddb76674fef903fe24777d064e6d4eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 45/64] fix: LoadObj range checks of normals and texture
 coordinates do not overflow

---
 src/objloader/external/tiny_obj_loader.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index d89df4a..285bd8d 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -568,14 +568,14 @@ updateVertex(std::map<vertex_index, unsigned int> &vertexCache,
   positions.push_back(in_positions[3 * static_cast<size_t>(i.v_idx) + 2]);
 
   if ((i.vn_idx >= 0) &&
-      (static_cast<size_t>(i.vn_idx * 3 + 2) < in_normals.size())) {
+      (static_cast<size_t>(i.vn_idx) < in_normals.size() / 3)) {
     normals.push_back(in_normals[3 * static_cast<size_t>(i.vn_idx) + 0]);
     normals.push_back(in_normals[3 * static_cast<size_t>(i.vn_idx) + 1]);
     normals.push_back(in_normals[3 * static_cast<size_t>(i.vn_idx) + 2]);
   }
 
   if ((i.vt_idx >= 0) &&
-      (static_cast<size_t>(i.vt_idx * 2 + 1) < in_texcoords.size())) {
+      (static_cast<size_t>(i.vt_idx) < in_texcoords.size() / 2)) {
     texcoords.push_back(in_texcoords[2 * static_cast<size_t>(i.vt_idx) + 0]);
     texcoords.push_back(in_texcoords[2 * static_cast<size_t>(i.vt_idx) + 1]);
   }
-- 
2.43.0


From 5f25af78a835dd2bc3dd04be982ff9cdc0652989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 46/64] fix: LoadObj bounds the names it copies and handles
 missing ones

---
 src/objloader/external/tiny_obj_loader.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 285bd8d..43fffac 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -785,12 +785,12 @@ void LoadMtl(std::map<std::string, int> &material_map,
       InitMaterial(material);
 
       // set new mtl name
-      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE];
+      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE] = "";
       token += 7;
 #ifdef _MSC_VER
       sscanf_s(token, "%s", namebuf, (unsigned)_countof(namebuf));
 #else
-      sscanf(token, "%s", namebuf);
+      sscanf(token, "%4095s", namebuf);
 #endif
       material.name = namebuf;
       continue;
@@ -1118,12 +1118,12 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
     // use mtl
     if ((0 == strncmp(token, "usemtl", 6)) && IS_SPACE((token[6]))) {
 
-      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE];
+      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE] = "";
       token += 7;
 #ifdef _MSC_VER
       sscanf_s(token, "%s", namebuf, (unsigned)_countof(namebuf));
 #else
-      sscanf(token, "%s", namebuf);
+      sscanf(token, "%4095s", namebuf);
 #endif
 
       int newMaterialId = -1;
@@ -1149,12 +1149,12 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
 
     // load mtl
     if ((0 == strncmp(token, "mtllib", 6)) && IS_SPACE((token[6]))) {
-      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE];
+      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE] = "";
       token += 7;
 #ifdef _MSC_VER
       sscanf_s(token, "%s", namebuf, (unsigned)_countof(namebuf));
 #else
-      sscanf(token, "%s", namebuf);
+      sscanf(token, "%4095s", namebuf);
 #endif
 
       std::string err_mtl;
@@ -1226,12 +1226,12 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
       shape = shape_t();
 
       // @todo { multiple object name? }
-      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE];
+      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE] = "";
       token += 2;
 #ifdef _MSC_VER
       sscanf_s(token, "%s", namebuf, (unsigned)_countof(namebuf));
 #else
-      sscanf(token, "%s", namebuf);
+      sscanf(token, "%4095s", namebuf);
 #endif
       name = std::string(namebuf);
 
@@ -1241,12 +1241,12 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
     if (token[0] == 't' && IS_SPACE(token[1])) {
       tag_t tag;
 
-      char namebuf[4096];
+      char namebuf[4096] = "";
       token += 2;
 #ifdef _MSC_VER
       sscanf_s(token, "%s", namebuf, (unsigned)_countof(namebuf));
 #else
-      sscanf(token, "%s", namebuf);
+      sscanf(token, "%4095s", namebuf);
 #endif
       tag.name = std::string(namebuf);
 
@@ -1269,12 +1269,12 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
 
       tag.stringValues.resize(static_cast<size_t>(ts.num_strings));
       for (size_t i = 0; i < static_cast<size_t>(ts.num_strings); ++i) {
-        char stringValueBuffer[4096];
+        char stringValueBuffer[4096] = "";
 
 #ifdef _MSC_VER
         sscanf_s(token, "%s", stringValueBuffer, (unsigned)_countof(stringValueBuffer));
 #else
-        sscanf(token, "%s", stringValueBuffer);
+        sscanf(token, "%4095s", stringValueBuffer);
 #endif
         tag.stringValues[i] = stringValueBuffer;
         token += tag.stringValues[i].size() + 1;
-- 
2.43.0


From cd651326851326cfee7f946e1a7ec89b76b445fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 47/64] fix: LoadObj does not overflow on huge exponents

---
 src/objloader/external/tiny_obj_loader.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 43fffac..0f1859d 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -446,8 +446,10 @@ static bool tryParseDouble(const char *s, const char *s_end, double *result) {
 
     read = 0;
     while ((end_not_reached = (curr != s_end)) && IS_DIGIT(*curr)) {
-      exponent *= 10;
-      exponent += static_cast<int>(*curr - 0x30);
+      if (exponent < 100000) { // More is out of range anyway
+        exponent *= 10;
+        exponent += static_cast<int>(*curr - 0x30);
+      }
       curr++;
       read++;
     }
-- 
2.43.0


From 9a11523cc44e1f5845577f6af5c54efa41bb6f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 48/64] fix: LoadObj does not read behind the end of tag lines

---
 src/objloader/external/tiny_obj_loader.h | 35 ++++++++++++++++++++----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 0f1859d..11dbf93 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -492,6 +492,20 @@ static inline void parseFloat3(float &x, float &y, float &z,
   z = parseFloat(token);
 }
 
+// Skips the current value and the separator following it
+static inline void skipTagValue(const char *&token) {
+  token += strcspn(token, "/ \t\r");
+  if (token[0] != '\0')
+    token++;
+}
+
+// Skips the current name and the space following it
+static inline void skipTagName(const char *&token) {
+  token += strcspn(token, " \t\r");
+  if (token[0] != '\0')
+    token++;
+}
+
 static tag_sizes parseTagTriple(const char *&token) {
   tag_sizes ts;
 
@@ -510,7 +524,7 @@ static tag_sizes parseTagTriple(const char *&token) {
   token++;
 
   ts.num_strings = atoi(token);
-  token += strcspn(token, "/ \t\r") + 1;
+  skipTagValue(token);
 
   return ts;
 }
@@ -1252,21 +1266,31 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
 #endif
       tag.name = std::string(namebuf);
 
-      token += tag.name.size() + 1;
+      token += strspn(token, " \t");
+      skipTagName(token);
 
       tag_sizes ts = parseTagTriple(token);
 
+      // Every value needs at least one character
+      const int maxValues = static_cast<int>(strlen(token));
+      if (ts.num_ints < 0 || ts.num_ints > maxValues ||
+          ts.num_floats < 0 || ts.num_floats > maxValues ||
+          ts.num_strings < 0 || ts.num_strings > maxValues) {
+        err += "Tag with an invalid amount of values.\n";
+        return false;
+      }
+
       tag.intValues.resize(static_cast<size_t>(ts.num_ints));
 
       for (size_t i = 0; i < static_cast<size_t>(ts.num_ints); ++i) {
         tag.intValues[i] = atoi(token);
-        token += strcspn(token, "/ \t\r") + 1;
+        skipTagValue(token);
       }
 
       tag.floatValues.resize(static_cast<size_t>(ts.num_floats));
       for (size_t i = 0; i < static_cast<size_t>(ts.num_floats); ++i) {
         tag.floatValues[i] = parseFloat(token);
-        token += strcspn(token, "/ \t\r") + 1;
+        skipTagValue(token);
       }
 
       tag.stringValues.resize(static_cast<size_t>(ts.num_strings));
@@ -1279,7 +1303,8 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
         sscanf(token, "%4095s", stringValueBuffer);
 #endif
         tag.stringValues[i] = stringValueBuffer;
-        token += tag.stringValues[i].size() + 1;
+        token += strspn(token, " \t");
+        skipTagName(token);
       }
 
       tags.push_back(tag);
-- 
2.43.0


From 8925094708927b467c641820d79c16421eef95ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 49/64] fix: VTKExporter escapes array names

---
 src/lib/export/VTKExporter.inl | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index 1b0d050..8bbafa9 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -19,6 +19,24 @@ void VTKExporter<T,K>::write(const std::string& path,
 	if(!stream)
 		throw VTKExportErrorException();
 
+	// Array names are attribute values
+	const auto escaped = [](const std::string& name)
+	{
+		std::string str;
+		for(char c : name)
+		{
+			switch(c)
+			{
+			case '&': str += "&amp;"; break;
+			case '<': str += "&lt;"; break;
+			case '>': str += "&gt;"; break;
+			case '"': str += "&quot;"; break;
+			default: str += c; break;
+			}
+		}
+		return str;
+	};
+
 	// Header
 	stream << "<?xml version=\"1.0\"?>" << std::endl
 		<< "<VTKFile type=\"UnstructuredGrid\" version=\"0.1\" byte_order=\"LittleEndian\">" << std::endl
@@ -98,10 +116,10 @@ void VTKExporter<T,K>::write(const std::string& path,
 	if(pointData.empty())
 		stream << "<PointData>" << std::endl;
 	else
-		stream << "<PointData Scalars=\"" << pointData.begin()->first << "\">" << std::endl;
+		stream << "<PointData Scalars=\"" << escaped(pointData.begin()->first) << "\">" << std::endl;
 	for(auto res : pointData)
 	{
-		stream << "<DataArray Name=\"" << res.first << "\" type=\"Float32\" format=\"ascii\">" << std::endl;
+		stream << "<DataArray Name=\"" << escaped(res.first) << "\" type=\"Float32\" format=\"ascii\">" << std::endl;
 		for(Index i = 0; i < res.second->size(); ++i)
 			stream << res.second->at(i) << " ";
 		stream << std::endl << "</DataArray>" << std::endl;
@@ -128,7 +146,7 @@ void VTKExporter<T,K>::write(const std::string& path,
 	stream << "<CellData>" << std::endl;
 	for(auto res : cellData)
 	{
-		stream << "<DataArray Name=\"" << res.first << "\" type=\"Float32\" format=\"ascii\">" << std::endl;
+		stream << "<DataArray Name=\"" << escaped(res.first) << "\" type=\"Float32\" format=\"ascii\">" << std::endl;
 		for(Index i = 0; i < res.second->size(); ++i)
 			stream << res.second->at(i) << " ";
 		stream << std::endl << "</DataArray>" << std::endl;
-- 
2.43.0


From 5d74ff4c4dbc4f68a6e5cd17a7bad64e1b35d396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 50/64] fix: negation of complex vectors compiles

---
 src/lib/Vector.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index bea9f6f..a4c0e9a 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -279,7 +279,7 @@ template<typename T, class DC>
 Vector<T,DC> operator -(const Vector<T,DC>& v)
 {
 	Vector<T,DC> tmp = v;
-	return (tmp *= -1);
+	return (tmp *= (T)-1);
 }
 
 template<typename T, class DC>
-- 
2.43.0


From 5e7bee13b7b6f89ad4fc97977db8dba6fd1d98cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 51/64] fix: cholesky factorises complex Hermitian matrices and
 rejects indefinite ones

The sums missed the conjugate, and no complex pivot was ever refused.
---
 src/lib/LU.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 30fd66a..ab11dfb 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -27,11 +27,11 @@ namespace LU {
 				for (Index k = 0; k < j; ++k)
 				{
 					T v = L.at(j, k);
-					s += v*v;
+					s += v*complex_conj(v);
 				}
 
 				s = m.at(j, j) - s;
-				if (!sqrt_allowed(s) || s == (T)0)
+				if (!(std::real(s) > 0))
 					throw NotPositiveDefiniteException();
 
 				for (Index i = 0; i < j; ++i)
@@ -42,7 +42,7 @@ namespace LU {
 				{
 					s = (T)0;
 					for (Index k = 0; k < j; ++k)
-						s += L.at(i, k)*L.at(j, k);
+						s += L.at(i, k)*complex_conj(L.at(j, k));
 					L.set(i, j, (m.at(i, j) - s) / L.at(j, j));
 				}
 			}
-- 
2.43.0


From 7046e99094cb86a12b93f8ee6a7bad7631ab10f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 52/64] fix: Jacobi and SOR measure the change of complex
 iterates

The unconjugated square of a complex change such as (1,i) is zero, which
was taken for convergence.
---
 src/lib/Iterative.inl | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/lib/Iterative.inl b/src/lib/Iterative.inl
index 7326826..5092e11 100644
--- a/src/lib/Iterative.inl
+++ b/src/lib/Iterative.inl
@@ -8,6 +8,17 @@ namespace Iterative
 {
 	namespace serial
 	{
+		// Squared length of the change, also for complex vectors
+		template<class V>
+		double changeSqr(const V& a, const V& b)
+		{
+			double s = 0;
+			for (Index i = 0; i < a.size(); ++i)
+				s += std::norm(a.at(i) - b.at(i));
+
+			return s;
+		}
+
 		template<class M, class V>
 		V jacobi(const M& a, const V& b, const V& x0,
 				size_t maxIter, double eps, size_t* it_stat)
@@ -45,7 +56,7 @@ namespace Iterative
 					xm.set(i, (b.at(i) - t) / mid);
 				}
 
-				auto conv = std::abs((xm - x).magSqr());
+				const double conv = changeSqr(xm, x);
 				if (std::isnan(conv))
 					throw MatrixHasZeroInDiagException();
 
@@ -108,7 +119,7 @@ namespace Iterative
 					xm.set(i, rweight*xm.at(i) + weight*t);
 				}
 
-				auto conv = std::abs((xm - x).magSqr());
+				const double conv = changeSqr(xm, x);
 				if (std::isnan(conv))
 					throw MatrixHasZeroInDiagException();
 
-- 
2.43.0


From 846534a2e78bf5c533136f86a690e452948d849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:46 +0000
Subject: [PATCH 53/64] fix: matrix converters compile

---
 src/lib/matrix/MatrixConverter.h   | 2 +-
 src/lib/matrix/MatrixConverter.inl | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/matrix/MatrixConverter.h b/src/lib/matrix/MatrixConverter.h
index 7742352..ead470c 100644
--- a/src/lib/matrix/MatrixConverter.h
+++ b/src/lib/matrix/MatrixConverter.h
@@ -20,7 +20,7 @@ namespace Convert
 	* @return The new dense matrix.
 	*/
 	template<typename T>
-	DynamicMatrix<T> toDenseMatrix(const SparseMatrix<T>& m);
+	DenseMatrix<T> toDenseMatrix(const SparseMatrix<T>& m);
 }
 
 NS_END_NAMESPACE
diff --git a/src/lib/matrix/MatrixConverter.inl b/src/lib/matrix/MatrixConverter.inl
index 1c38a06..0a45eae 100644
--- a/src/lib/matrix/MatrixConverter.inl
+++ b/src/lib/matrix/MatrixConverter.inl
@@ -24,9 +24,9 @@ namespace Convert
 	}
 
 	template<typename T>
-	DynamicMatrix<T> toDenseMatrix(const SparseMatrix<T>& m)
+	DenseMatrix<T> toDenseMatrix(const SparseMatrix<T>& m)
 	{
-		Matrix<T> res(m.rows(), m.columns());
+		DenseMatrix<T> res(m.rows(), m.columns());
 		for (auto it = m.begin(); it != m.end(); ++it)
 		{
 			res.set(it.row(), it.column(), *it);
-- 
2.43.0


From f9e0aec96b7abd7946d8e4023d6965a2dc96cdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:46 +0000
Subject: [PATCH 54/64] fix: Cuthill-McKee orders empty rows too

---
 src/lib/matrix/MatrixOrder.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib/matrix/MatrixOrder.inl b/src/lib/matrix/MatrixOrder.inl
index a665e96..a7e842a 100644
--- a/src/lib/matrix/MatrixOrder.inl
+++ b/src/lib/matrix/MatrixOrder.inl
@@ -29,8 +29,7 @@ DynamicVector<Index> cuthill_mckee(const SparseMatrix<T>& m)
 	for(Index i = 0; i < m.rows(); ++i)
 	{
 		Index mc = m.row_filled_count(i);
-		if(mc > 0)
-			Rows.insert(std::pair<Dimension, Index>(mc, i));
+		Rows.insert(std::pair<Dimension, Index>(mc, i));
 	}
 	
 	while(!Rows.empty())
-- 
2.43.0


From 0881c4833fe360a22f151d8a92d7585189ce481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:46 +0000
Subject: [PATCH 55/64] fix: the circumcenter of a triangle is right for every
 triangle

---
 src/lib/Simplex.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Simplex.inl b/src/lib/Simplex.inl
index 0dc69b0..c6550d8 100644
--- a/src/lib/Simplex.inl
+++ b/src/lib/Simplex.inl
@@ -83,7 +83,7 @@ typename Simplex<T,K>::vertex_t Simplex<T,K>::center() const
 	vertex_t v;
 	v[0] = b[1]*a.magSqr() - a[1]*b.magSqr();
 	v[1] = a[0]*b.magSqr() - b[0]*a.magSqr();
-	return v / (T)2 * mDeterminant;
+	return v / ((T)2 * mDeterminant) + mVertices[0];
 }
 
 template<typename T, Dimension K>
-- 
2.43.0


From 677aee3e5f44b0082275ff611b5d7aa7648d2317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:33 +0000
Subject: [PATCH 56/64] fix: PolyShapePolicy::DOF counts every node of every
 supported element

Tetrahedra of second and triangles of third order have ten nodes, but eight
and nine were assumed, so their node values were read past the end.
---
 src/lib/sf/PolyShapeFunction.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/sf/PolyShapeFunction.h b/src/lib/sf/PolyShapeFunction.h
index 8911902..07e5e3a 100644
--- a/src/lib/sf/PolyShapeFunction.h
+++ b/src/lib/sf/PolyShapeFunction.h
@@ -14,7 +14,10 @@ template<typename T, Dimension K, Dimension Order>
 class PolyShapePolicy
 {
 public:
-	static constexpr Dimension DOF = (K+1)*Order;// Wrong, but works for Order < 3
+	// Number of Lagrange nodes on the k-simplex
+	static constexpr Dimension DOF = (K == 1) ? (Order+1) :
+		(K == 2) ? ((Order+1)*(Order+2)/2) :
+		((Order+1)*(Order+2)*(Order+3)/6);
 
 	// For the standard k-simplex
 	T value(Index localComponent, const FixedVector<T,K>& local) const;
-- 
2.43.0


From 6a328f8cc7d65d1033651d2f831f6084b5708ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:33 +0000
Subject: [PATCH 57/64] fix: the weighted gradient of linear triangles is the
 derivative of their value

---
 src/lib/sf/PolyShapeFunction.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/sf/PolyShapeFunction.inl b/src/lib/sf/PolyShapeFunction.inl
index 2917acc..897a79d 100644
--- a/src/lib/sf/PolyShapeFunction.inl
+++ b/src/lib/sf/PolyShapeFunction.inl
@@ -211,8 +211,8 @@ FixedVector<T,K> PolyShapePolicy<T,K,Order>::gradient(Index localComponent, cons
         if(Order == 1)
         {
             NS_ASSERT(localComponent < 3);
-            g[0] = nodeValues[1]*nodeValues[0]*PSF_Coeff_2D_1[localComponent][1];
-            g[1] = nodeValues[2]*nodeValues[0]*PSF_Coeff_2D_1[localComponent][2];
+            g[0] = nodeValues[1]*PSF_Coeff_2D_1[localComponent][1];
+            g[1] = nodeValues[2]*PSF_Coeff_2D_1[localComponent][2];
         }
         else if(Order == 2)
         {
-- 
2.43.0


From eb426a21815eda507ac67c12357d25437d8f4b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:33 +0000
Subject: [PATCH 58/64] fix: the components of second order lines follow the
 documented node order

The second component belonged to the middle node, although the comment and
prepareMesh place it last.
---
 src/lib/sf/PolyShapeFunction.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sf/PolyShapeFunction.inl b/src/lib/sf/PolyShapeFunction.inl
index 897a79d..1b6c98f 100644
--- a/src/lib/sf/PolyShapeFunction.inl
+++ b/src/lib/sf/PolyShapeFunction.inl
@@ -13,7 +13,7 @@ NS_BEGIN_NAMESPACE
 constexpr float PSF_Coeff_1D_1[2][2] = {{1, -1}, {0,1}};
 
 // Second Order: x0 --x2-- x1
-constexpr float PSF_Coeff_1D_2[3][3] = {{1, -3, 2}, {0, 4, -4}, {0, -1, 2}};
+constexpr float PSF_Coeff_1D_2[3][3] = {{1, -3, 2}, {0, -1, 2}, {0, 4, -4}};
 
 // ----------- 2-Simplex (Triangle) [Multivariate Polynomial] -----------
 // First Order:
-- 
2.43.0


From 57b1de2b3b82b0885960a41ad15f642d0680261f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:56 +0000
Subject: [PATCH 59/64] fix: the second derivative of the x*y^2 term of cubic
 triangles is taken in y

---
 src/lib/sf/PolyShapeFunction.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sf/PolyShapeFunction.inl b/src/lib/sf/PolyShapeFunction.inl
index 1b6c98f..068193c 100644
--- a/src/lib/sf/PolyShapeFunction.inl
+++ b/src/lib/sf/PolyShapeFunction.inl
@@ -328,7 +328,7 @@ FixedVector<T,K> PolyShapePolicy<T,K,Order>::gradient2(Index localComponent, con
                 + nodeValues[6]*2*PSF_Coeff_2D_3[localComponent][6]*local[1]
                 + nodeValues[8]*6*PSF_Coeff_2D_3[localComponent][8]*local[0];
             g[1] = nodeValues[5]*2*PSF_Coeff_2D_3[localComponent][5]
-                + nodeValues[7]*2*PSF_Coeff_2D_3[localComponent][7]*local[1]
+                + nodeValues[7]*2*PSF_Coeff_2D_3[localComponent][7]*local[0]
                 + nodeValues[9]*6*PSF_Coeff_2D_3[localComponent][9]*local[1];
         }
     }
-- 
2.43.0


From e782ba706afbaf164954d0243bc00b6d1e2324a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:33 +0000
Subject: [PATCH 60/64] fix: keep the faces of an OBJ group which ends with a
 material change

---
 src/objloader/external/tiny_obj_loader.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 11dbf93..18dd0df 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -1194,7 +1194,7 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
       bool ret =
           exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup, tags,
                                  material, name, true, flags, err );
-      if (ret) {
+      if (ret || !shape.mesh.indices.empty()) {
         shapes.push_back(shape);
       }
 
@@ -1233,7 +1233,7 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
       bool ret =
           exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup, tags,
                                  material, name, true, flags, err );
-      if (ret) {
+      if (ret || !shape.mesh.indices.empty()) {
         shapes.push_back(shape);
       }
 
@@ -1323,7 +1323,7 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
 
   bool ret = exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup,
                                     tags, material, name, true, flags, err );
-  if (ret) {
+  if (ret || !shape.mesh.indices.empty()) {
     shapes.push_back(shape);
   }
   faceGroup.clear(); // for safety
-- 
2.43.0


From 033a5dab9ea7d6e1b485592011f20647e07a8da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:33 +0000
Subject: [PATCH 61/64] fix: keep the tags of an OBJ group when the material
 changes

---
 src/objloader/external/tiny_obj_loader.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 18dd0df..90bbc84 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -743,7 +743,8 @@ static bool exportFaceGroupToShape(
   }
 
   shape.name = name;
-  shape.mesh.tags.swap(tags);
+  shape.mesh.tags.insert(shape.mesh.tags.end(), tags.begin(), tags.end());
+  tags.clear();
 
   if (clearCache)
     vertexCache.clear();
-- 
2.43.0


From 99a1f774843b5440161b19f09574de1bf00fe70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:33 +0000
Subject: [PATCH 62/64] fix: share the vertices of an OBJ group across material
 changes

---
 src/objloader/external/tiny_obj_loader.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 90bbc84..3d4202e 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -650,7 +650,7 @@ static bool checkFaceGroup(
 }
 
 static bool exportFaceGroupToShape(
-    shape_t &shape, std::map<vertex_index, unsigned int> vertexCache,
+    shape_t &shape, std::map<vertex_index, unsigned int> &vertexCache,
     const std::vector<float> &in_positions,
     const std::vector<float> &in_normals,
     const std::vector<float> &in_texcoords,
@@ -1156,7 +1156,7 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
 
         // Create per-face material
         exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup, tags,
-                               material, name, true, flags, err );
+                               material, name, false, flags, err );
         faceGroup.clear();
         material = newMaterialId;
       }
@@ -1200,6 +1200,7 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
       }
 
       shape = shape_t();
+      vertexCache.clear();
 
       // material = -1;
       faceGroup.clear();
@@ -1241,6 +1242,7 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
       // material = -1;
       faceGroup.clear();
       shape = shape_t();
+      vertexCache.clear();
 
       // @todo { multiple object name? }
       char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE] = "";
-- 
2.43.0


From aa689b2d83ac2136bbaced5a2efe56eae4cf6d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:40 +0000
Subject: [PATCH 63/64] fix: end the name of an unknown material parameter at
 the first blank or tab

---
 src/objloader/external/tiny_obj_loader.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 3d4202e..3035f74 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -959,10 +959,7 @@ void LoadMtl(std::map<std::string, int> &material_map,
     }
 
     // unknown parameter
-    const char *_space = strchr(token, ' ');
-    if (!_space) {
-      _space = strchr(token, '\t');
-    }
+    const char *_space = strpbrk(token, " \t");
     if (_space) {
       std::ptrdiff_t len = _space - token;
       std::string key(token, static_cast<size_t>(len));
-- 
2.43.0


From a476ad48729e8c828dca174766f8c707e450852c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:06 +0000
Subject: [PATCH 64/64] fix: LoadObj refuses polygons with more vertices than
 it can count

---
 src/objloader/external/tiny_obj_loader.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 3035f74..dbf2d89 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -628,7 +628,8 @@ static void InitMaterial(material_t &material) {
 // Every face has to be a polygon build from available vertices
 static bool checkFaceGroup(
     const std::vector<std::vector<vertex_index> > &faceGroup,
-    const std::vector<float> &in_positions, std::string &err) {
+    const std::vector<float> &in_positions, unsigned int flags,
+    std::string &err) {
   for (size_t i = 0; i < faceGroup.size(); i++) {
     const std::vector<vertex_index> &face = faceGroup[i];
 
@@ -637,6 +638,12 @@ static bool checkFaceGroup(
       return false;
     }
 
+    // num_vertices can not hold more
+    if ((flags & triangulation) != triangulation && face.size() > 255) {
+      err += "Face with more than 255 vertices.\n";
+      return false;
+    }
+
     for (size_t k = 0; k < face.size(); k++) {
       if (face[k].v_idx < 0 ||
           static_cast<size_t>(face[k].v_idx) >= in_positions.size() / 3) {
@@ -1148,7 +1155,7 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
       }
 
       if (newMaterialId != material) {
-        if (!checkFaceGroup(faceGroup, v, err))
+        if (!checkFaceGroup(faceGroup, v, flags, err))
           return false;
 
         // Create per-face material
@@ -1185,7 +1192,7 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
 
     // group name
     if (token[0] == 'g' && IS_SPACE((token[1]))) {
-      if (!checkFaceGroup(faceGroup, v, err))
+      if (!checkFaceGroup(faceGroup, v, flags, err))
         return false;
 
       // flush previous face group.
@@ -1225,7 +1232,7 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
 
     // object name
     if (token[0] == 'o' && IS_SPACE((token[1]))) {
-      if (!checkFaceGroup(faceGroup, v, err))
+      if (!checkFaceGroup(faceGroup, v, flags, err))
         return false;
 
       // flush previous face group.
@@ -1318,7 +1325,7 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
     return false;
   }
 
-  if (!checkFaceGroup(faceGroup, v, err))
+  if (!checkFaceGroup(faceGroup, v, flags, err))
     return false;
 
   bool ret = exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup,
-- 
2.43.0

