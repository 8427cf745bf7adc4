From 57581c019aa9b6aa2c6da92476fe6f364d6131cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 01/39] fix: SetGravity wakes every sleeping component

---
 space.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/space.go b/space.go
index a3a1bfe..1170d1c 100644
--- a/space.go
+++ b/space.go
@@ -117,8 +117,9 @@ func (space *Space) SetGravity(gravity Vector) {
 	space.gravity = gravity
 
 	// Wake up all of the bodies since the gravity changed.
-	for _, component := range space.sleepingComponents {
-		component.Activate()
+	// Activate() removes the component from the list.
+	for len(space.sleepingComponents) > 0 {
+		space.sleepingComponents[0].Activate()
 	}
 }
 
-- 
2.43.0


From 6e1090a036a0b7e013bdcab0890952d51247bb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 02/39] fix: pass the handler's UserData to PostSolveFunc

---
 space.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/space.go b/space.go
index 1170d1c..dd5302c 100644
--- a/space.go
+++ b/space.go
@@ -776,7 +776,7 @@ func (space *Space) Step(dt float64) {
 
 		// run the post-solve callbacks
 		for _, arb := range space.arbiters {
-			arb.handler.PostSolveFunc(arb, space, arb.handler)
+			arb.handler.PostSolveFunc(arb, space, arb.handler.UserData)
 		}
 	}
 	space.Unlock(true)
-- 
2.43.0


From c6732dfcfb8c278d56fd4fb6c8ee17b72357e581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 03/39] fix: call both wildcard handlers from the default Begin
 and PreSolve

---
 arbiter.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/arbiter.go b/arbiter.go
index 3bca89c..9901ade 100644
--- a/arbiter.go
+++ b/arbiter.go
@@ -386,11 +386,17 @@ func DoNothing(_ *Arbiter, _ *Space, _ interface{}) {
 }
 
 func DefaultBegin(arb *Arbiter, space *Space, _ interface{}) bool {
-	return arb.CallWildcardBeginA(space) && arb.CallWildcardBeginB(space)
+	// Call both handlers even if the first one rejects the collision.
+	a := arb.CallWildcardBeginA(space)
+	b := arb.CallWildcardBeginB(space)
+	return a && b
 }
 
 func DefaultPreSolve(arb *Arbiter, space *Space, _ interface{}) bool {
-	return arb.CallWildcardPreSolveA(space) && arb.CallWildcardPreSolveB(space)
+	// Call both handlers even if the first one rejects the collision.
+	a := arb.CallWildcardPreSolveA(space)
+	b := arb.CallWildcardPreSolveB(space)
+	return a && b
 }
 
 func DefaultPostSolve(arb *Arbiter, space *Space, _ interface{}) {
-- 
2.43.0


From d6393380343b68e2710735e0a349215a2b6e785b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 04/39] fix: ShapeQuery result no longer depends on the order
 of the hits

---
 space.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/space.go b/space.go
index dd5302c..3987da7 100644
--- a/space.go
+++ b/space.go
@@ -1115,7 +1115,7 @@ func (space *Space) ShapeQuery(shape *Shape, callback func(shape *Shape, points
 			if callback != nil {
 				callback(b, &contactPointSet)
 			}
-			anyCollision = !(a.sensor || b.sensor)
+			anyCollision = anyCollision || !(a.sensor || b.sensor)
 		}
 
 		return collisionId
-- 
2.43.0


From 98ad3f6beb5e7955aafdafac460451dae3a11af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 05/39] fix: SimplifyCurves measures short stretches on the
 input polyline and terminates

---
 polyline.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/polyline.go b/polyline.go
index 81f7c52..b17ec0a 100644
--- a/polyline.go
+++ b/polyline.go
@@ -34,8 +34,7 @@ func (pl *PolyLine) IsClosed() bool {
 
 func (pl *PolyLine) IsShort(count, start, end int, min float64) bool {
 	var length float64
-	// Next doesn't have side effects and its return value is ignored (SA4017)go-staticcheck
-	for i := start; i != end; Next(i, count) {
+	for i := start; i != end; i = Next(i, count) {
 		length += pl.Verts[i].Distance(pl.Verts[Next(i, count)])
 		if length > min {
 			return false
@@ -77,7 +76,7 @@ func DouglasPeucker(verts []Vector, reduced *PolyLine, length, start, end int, m
 	b := verts[end]
 
 	// Check if the length is below the threshold
-	if a.Near(b, min) && reduced.IsShort(length, start, end, min) {
+	if a.Near(b, min) && (&PolyLine{Verts: verts}).IsShort(length, start, end, min) {
 		return reduced
 	}
 
-- 
2.43.0


From 9fa53bb9a193647faca0e290e4c717e7885cf151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 06/39] fix: SimplifyVertexes keeps a closed polyline closed
 when it drops the first vertex

---
 polyline.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polyline.go b/polyline.go
index b17ec0a..4efc93a 100644
--- a/polyline.go
+++ b/polyline.go
@@ -61,6 +61,7 @@ func (pl *PolyLine) SimplifyVertexes(tol float64) *PolyLine {
 
 	if pl.IsClosed() && Sharpness(reduced.Verts[len(reduced.Verts)-2], reduced.Verts[0], reduced.Verts[1]) < minSharp {
 		reduced.Verts[0] = reduced.Verts[len(reduced.Verts)-2]
+		reduced.Verts = reduced.Verts[:len(reduced.Verts)-1]
 	}
 	return &reduced
 }
-- 
2.43.0


From 187f78415fe141cd8ba88ea40612c9eedb3a7ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 07/39] fix: SetEndpoints gives the segment the same normal as
 NewSegment

---
 segment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segment.go b/segment.go
index 5f0fe87..bdcd74d 100644
--- a/segment.go
+++ b/segment.go
@@ -62,7 +62,7 @@ func (seg *Segment) TransformB() Vector {
 func (seg *Segment) SetEndpoints(a, b Vector) {
 	seg.a = a
 	seg.b = b
-	seg.n = b.Sub(a).Normalize().Perp()
+	seg.n = b.Sub(a).Normalize().ReversePerp()
 
 	mass := seg.massInfo.m
 	seg.massInfo = NewSegmentMassInfo(seg.massInfo.m, seg.a, seg.b, seg.r)
-- 
2.43.0


From 48dc04ebe0059a0e613c62ae2e10e8e6faf42845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 08/39] fix: Body.EachShape visits every shape when the
 callback removes shapes

---
 body.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/body.go b/body.go
index 308e868..a415380 100644
--- a/body.go
+++ b/body.go
@@ -593,8 +593,9 @@ func (body *Body) EachArbiter(f func(*Arbiter)) {
 
 // EachShape calls f once for each shape attached to this body
 func (body *Body) EachShape(f func(*Shape)) {
-	for i := 0; i < len(body.shapeList); i++ {
-		f(body.shapeList[i])
+	// f may remove the shape from the body.
+	for _, shape := range append([]*Shape{}, body.shapeList...) {
+		f(shape)
 	}
 }
 
-- 
2.43.0


From e62e8c8008b753fb9393dda15677bf1c8c11343d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 09/39] fix: run post-step callbacks added by a post-step
 callback

---
 space.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/space.go b/space.go
index 3987da7..e8715cf 100644
--- a/space.go
+++ b/space.go
@@ -804,16 +804,14 @@ func (space *Space) Unlock(runPostStep bool) {
 	if runPostStep && !space.skipPostStep {
 		space.skipPostStep = true
 
-		for _, callback := range space.postStepCallbacks {
-			f := callback.callback
+		// A callback may add further callbacks, which are run too.
+		for i := 0; i < len(space.postStepCallbacks); i++ {
+			callback := space.postStepCallbacks[i]
 
-			// Mark the func as NULL in case calling it calls cpSpaceRunPostStepCallbacks() again.
-			// TODO: need more tests around this case I think.
-			callback.callback = nil
+			// Forget the entry before calling it so that its key can be used again.
+			space.postStepCallbacks[i] = nil
 
-			if f != nil {
-				f(space, callback.key, callback.data)
-			}
+			callback.callback(space, callback.key, callback.data)
 		}
 
 		space.postStepCallbacks = space.postStepCallbacks[:0]
-- 
2.43.0


From 7b6a6f58a30757b094d6d44600a88d5346b06dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 10/39] fix: SetType wakes a sleeping body before changing its
 type

---
 body.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/body.go b/body.go
index a415380..ff75ed7 100644
--- a/body.go
+++ b/body.go
@@ -150,6 +150,9 @@ func (body *Body) SetType(newType int) {
 		return
 	}
 
+	// A sleeping body must be woken up while it is still dynamic.
+	body.Activate()
+
 	if newType == BODY_STATIC {
 		body.sleepingIdleTime = INFINITY
 	} else {
-- 
2.43.0


From a3677afb7ed0a0341d561e676da107fd38eb82e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 11/39] fix: SetType wakes the bodies resting on a static body

---
 body.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/body.go b/body.go
index ff75ed7..d2b26d8 100644
--- a/body.go
+++ b/body.go
@@ -150,8 +150,13 @@ func (body *Body) SetType(newType int) {
 		return
 	}
 
-	// A sleeping body must be woken up while it is still dynamic.
-	body.Activate()
+	if oldType == BODY_STATIC {
+		// Bodies sleeping on top of a static body must not stay asleep when it starts to move.
+		body.ActivateStatic(nil)
+	} else {
+		// A sleeping body must be woken up while it is still dynamic.
+		body.Activate()
+	}
 
 	if newType == BODY_STATIC {
 		body.sleepingIdleTime = INFINITY
-- 
2.43.0


From b9ac422ffc5e0c7a60f046e46eafa5fcbc4c636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 12/39] fix: EachBody visits every body exactly once when the
 callback wakes bodies

---
 space.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/space.go b/space.go
index e8715cf..eb3a874 100644
--- a/space.go
+++ b/space.go
@@ -896,23 +896,20 @@ func (space *Space) EachBody(f func(body *Body)) {
 	space.Lock()
 	defer space.Unlock(true)
 
-	for _, body := range space.dynamicBodies {
-		f(body)
+	// f may wake up sleeping bodies, so make the list before calling it.
+	bodies := append([]*Body{}, space.dynamicBodies...)
+	bodies = append(bodies, space.staticBodies...)
+	// Bodies woken up while the space is locked are in neither list yet.
+	bodies = append(bodies, space.rousedBodies...)
+	for _, root := range space.sleepingComponents {
+		for body := root; body != nil; body = body.sleepingNext {
+			bodies = append(bodies, body)
+		}
 	}
 
-	for _, body := range space.staticBodies {
+	for _, body := range bodies {
 		f(body)
 	}
-
-	for _, root := range space.sleepingComponents {
-		body := root
-
-		for body != nil {
-			next := body.sleepingNext
-			f(body)
-			body = next
-		}
-	}
 }
 
 func (space *Space) EachShape(f func(*Shape)) {
-- 
2.43.0


From 3fd458901044add0d45812c27a950fb4483b2f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 13/39] fix: no Separate for sensor and rejected pairs of a
 body woken during a step

---
 body.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/body.go b/body.go
index d2b26d8..cd10935 100644
--- a/body.go
+++ b/body.go
@@ -391,6 +391,18 @@ func (body *Body) Activate() {
 	if root != nil && root.IsSleeping() {
 		assert(root.GetType() == BODY_DYNAMIC, "Non-dynamic root")
 		space := root.space
+
+		// Sensor and rejected arbiters are not updated while the bodies are asleep.
+		// Mark them as current so that waking up in the middle of a step doesn't separate them.
+		space.cachedArbiters.Each(func(arb *Arbiter) {
+			a, b := arb.body_a, arb.body_b
+			if arb.state != CP_ARBITER_STATE_CACHED &&
+				(a.ComponentRoot() == root || b.ComponentRoot() == root) &&
+				(a.GetType() == BODY_STATIC || a.IsSleeping()) && (b.GetType() == BODY_STATIC || b.IsSleeping()) {
+				arb.stamp = space.stamp
+			}
+		})
+
 		// in the chipmunk code they shadow body, so here I am not
 		bodyToo := root
 		for bodyToo != nil {
-- 
2.43.0


From f6d3e58de67fc9c31494e640d4b4cb95c409e0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 14/39] fix: SpaceHash segment queries that start on a cell
 boundary visit every cell

---
 spacehash.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spacehash.go b/spacehash.go
index bd2f098..f7aa6e1 100644
--- a/spacehash.go
+++ b/spacehash.go
@@ -287,12 +287,13 @@ func (hash *SpaceHash) SegmentQuery(obj interface{}, a, b Vector, t_exit float64
 	}
 
 	var nextH, nextV float64
-	if tempH != 0 {
+	// A query starting on a cell boundary and going in the negative direction leaves the cell at once.
+	if tempH != 0 || dx != 0 {
 		nextH = tempH * dtdx
 	} else {
 		nextH = dtdx
 	}
-	if tempV != 0 {
+	if tempV != 0 || dy != 0 {
 		nextV = tempV * dtdy
 	} else {
 		nextV = dtdy
-- 
2.43.0


From 59f29e6d665305fda3af916600b9b1ab99d24a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 15/39] fix: thick segment queries find shapes that only the
 thickness reaches

---
 space.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/space.go b/space.go
index eb3a874..7f9a58e 100644
--- a/space.go
+++ b/space.go
@@ -1010,6 +1010,21 @@ type SegmentQueryContext struct {
 	f          SpaceSegmentQueryFunc
 }
 
+// queryIndex calls f for the shapes in the index that the segment may hit.
+func (context *SegmentQueryContext) queryIndex(index *SpatialIndex, t_exit float64, f SpatialIndexSegmentQuery, data interface{}) {
+	if context.radius <= 0 {
+		index.class.SegmentQuery(context, context.start, context.end, t_exit, f, data)
+		return
+	}
+
+	// The indexes test thin segments only, which would miss shapes that just the thickness reaches.
+	bb := NewBBForCircle(context.start, context.radius).Merge(NewBBForCircle(context.end, context.radius))
+	index.class.Query(context, bb, func(obj interface{}, shape *Shape, collisionId uint32, data interface{}) uint32 {
+		f(obj, shape, data)
+		return collisionId
+	}, data)
+}
+
 func segmentQuery(obj interface{}, shape *Shape, data interface{}) float64 {
 	context := obj.(*SegmentQueryContext)
 	var info SegmentQueryInfo
@@ -1040,8 +1055,8 @@ func (space *Space) SegmentQuery(start, end Vector, radius float64, filter Shape
 	context := SegmentQueryContext{start, end, radius, filter, f}
 	space.Lock()
 
-	space.staticShapes.class.SegmentQuery(&context, start, end, 1, segmentQuery, data)
-	space.dynamicShapes.class.SegmentQuery(&context, start, end, 1, segmentQuery, data)
+	context.queryIndex(space.staticShapes, 1, segmentQuery, data)
+	context.queryIndex(space.dynamicShapes, 1, segmentQuery, data)
 
 	space.Unlock(true)
 }
@@ -1049,8 +1064,8 @@ func (space *Space) SegmentQuery(start, end Vector, radius float64, filter Shape
 func (space *Space) SegmentQueryFirst(start, end Vector, radius float64, filter ShapeFilter) SegmentQueryInfo {
 	info := SegmentQueryInfo{nil, end, Vector{}, 1}
 	context := &SegmentQueryContext{start, end, radius, filter, nil}
-	space.staticShapes.class.SegmentQuery(context, start, end, 1, queryFirst, &info)
-	space.dynamicShapes.class.SegmentQuery(context, start, end, info.Alpha, queryFirst, &info)
+	context.queryIndex(space.staticShapes, 1, queryFirst, &info)
+	context.queryIndex(space.dynamicShapes, info.Alpha, queryFirst, &info)
 	return info
 }
 
-- 
2.43.0


From c2e6fdc94bf3c40da2430a45687840dbf201e8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 16/39] fix: SetSurfaceV wakes the shape's body like the other
 shape setters

---
 shape.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shape.go b/shape.go
index 51f7123..5792b21 100644
--- a/shape.go
+++ b/shape.go
@@ -146,6 +146,7 @@ func (s *Shape) SetFriction(u float64) {
 }
 
 func (s *Shape) SetSurfaceV(surfaceV Vector) {
+	s.body.Activate()
 	s.surfaceV = surfaceV
 }
 
-- 
2.43.0


From 206a223ed8446a5e06159de5457d1db9327ab020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 17/39] fix: don't thread the arbiters of a body woken by a
 collision callback twice

---
 space.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/space.go b/space.go
index 7f9a58e..8192f03 100644
--- a/space.go
+++ b/space.go
@@ -580,6 +580,8 @@ func (space *Space) ProcessComponents(dt float64) {
 			}
 		}
 
+		// The arbiters of bodies woken up by a callback are still in the lists.
+		arb.Unthread()
 		a.PushArbiter(arb)
 		b.PushArbiter(arb)
 	}
-- 
2.43.0


From 2256ef62d907e809dec692035de6236d00b63112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 18/39] fix: ShapesCollide reports the signed distance when it
 swaps the shapes

---
 shape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shape.go b/shape.go
index 5792b21..3442852 100644
--- a/shape.go
+++ b/shape.go
@@ -265,7 +265,7 @@ func ShapesCollide(a, b *Shape) ContactPointSet {
 			set.Points[i].PointA = p1
 			set.Points[i].PointB = p2
 		}
-		set.Points[i].Distance = p2.Sub(p1).Dot(set.Normal)
+		set.Points[i].Distance = p2.Sub(p1).Dot(info.n)
 	}
 
 	return set
-- 
2.43.0


From 042348004523e5dd35e5bd869ca36325e7a3419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 19/39] fix: contact point of a circle on a rounded polygon
 lies on the polygon's surface

---
 collision.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collision.go b/collision.go
index 58f03a1..d538271 100644
--- a/collision.go
+++ b/collision.go
@@ -170,7 +170,7 @@ func CircleToPoly(info *CollisionInfo) {
 
 	if points.d <= circle.r+poly.r {
 		info.n = points.n
-		info.PushContact(points.a.Add(info.n.Mult(circle.r)), points.b.Add(info.n.Mult(poly.r)), 0)
+		info.PushContact(points.a.Add(info.n.Mult(circle.r)), points.b.Sub(info.n.Mult(poly.r)), 0)
 	}
 }
 
-- 
2.43.0


From 76397f4ba02e8654e212dfb420424051892778e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 20/39] fix: GJK of shapes with coincident or collinear
 vertices, no contact at a distance and no zero normal

---
 collision.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/collision.go b/collision.go
index d538271..46299f1 100644
--- a/collision.go
+++ b/collision.go
@@ -238,13 +238,16 @@ func (v0 MinkowskiPoint) ClosestPoints(v1 MinkowskiPoint) ClosestPoints {
 	n := delta.ReversePerp().Normalize()
 	d := n.Dot(p)
 
-	if d <= 0 || (-1 < t && t < 1) {
+	// The edge's normal says nothing when the closest point is a vertex in line with the edge (d is 0 or a
+	// rounding error, but the vertex can be far away), and a coincident vertex has no direction of its own.
+	d2 := p.Length()
+
+	if (-1 < t && t < 1) || d < -1e-10*d2 || d2 < 1e-10 {
 		// If the shapes are overlapping, or we have a regular vertex/edge collision, we are done.
 		return ClosestPoints{pa, pb, n, d, id}
 	}
 
 	// Vertex/vertex collisions need special treatment since the MSA won't be shared with an axis of the minkowski difference.
-	d2 := p.Length()
 	n2 := p.Mult(1 / (d2 + 1e-15))
 
 	return ClosestPoints{pa, pb, n2, d2, id}
@@ -371,6 +374,14 @@ func GJK(ctx SupportContext, collisionId *uint32) ClosestPoints {
 		v1 = ctx.Support(axis.Neg())
 	}
 
+	// The two guesses can be the same point (concentric shapes, collinear segments): take another axis then.
+	for _, axis := range [2]Vector{{X: 1}, {Y: 1}} {
+		if v0.ab == v1.ab {
+			v0 = ctx.Support(axis)
+			v1 = ctx.Support(axis.Neg())
+		}
+	}
+
 	points := GJKRecurse(ctx, v0, v1, 1)
 	*collisionId = points.collisionId
 	return points
@@ -387,11 +398,12 @@ func GJKRecurse(ctx SupportContext, v0, v1 MinkowskiPoint, iteration int) Closes
 		return GJKRecurse(ctx, v1, v0, iteration)
 	}
 	t := v0.ab.ClosestT(v1.ab)
+	closest := v0.ab.LerpT(v1.ab, t)
 	var n Vector
-	if -1.0 < t && t < 1.0 {
+	if (-1.0 < t && t < 1.0) || closest.LengthSq() < 1e-20 {
 		n = v1.ab.Sub(v0.ab).Perp()
 	} else {
-		n = v0.ab.LerpT(v1.ab, t).Neg()
+		n = closest.Neg()
 	}
 	p := ctx.Support(n)
 
-- 
2.43.0


From fee4a1546826894a373631db2de4ec0bdf8e92e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 21/39] fix: contacts of an edge that is seen end-on

---
 collision.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/collision.go b/collision.go
index 46299f1..358963e 100644
--- a/collision.go
+++ b/collision.go
@@ -327,9 +327,14 @@ func ContactPoints(e1, e2 Edge, points ClosestPoints, info *CollisionInfo) {
 	dE2A := e2.a.p.Cross(n)
 	dE2B := e2.b.p.Cross(n)
 
-	// TODO + min isn't a complete fix
-	e1Denom := 1 / (dE1B - dE1A + 1e-15)
-	e2Denom := 1 / (dE2B - dE2A + 1e-15)
+	if math.Abs(dE1B-dE1A) < 1e-10 || math.Abs(dE2B-dE2A) < 1e-10 {
+		// An edge seen end-on has nothing to project onto.
+		info.PushContact(points.a.Add(n.Mult(e1.r)), points.b.Sub(n.Mult(e2.r)), HashPair(e1.a.hash, e2.a.hash))
+		return
+	}
+
+	e1Denom := 1 / (dE1B - dE1A)
+	e2Denom := 1 / (dE2B - dE2A)
 
 	// Project the endpoints of the two edges onto the opposing edge, clamping them as necessary.
 	// Compare the projected points to the collision normal to see if the shapes overlap there.
-- 
2.43.0


From 3bd4a58d6de6d8b3da5a40b4f5b44203244127a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 22/39] fix: SetType wakes the bodies attached to a static body
 by a constraint

---
 body.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/body.go b/body.go
index cd10935..9514188 100644
--- a/body.go
+++ b/body.go
@@ -153,6 +153,9 @@ func (body *Body) SetType(newType int) {
 	if oldType == BODY_STATIC {
 		// Bodies sleeping on top of a static body must not stay asleep when it starts to move.
 		body.ActivateStatic(nil)
+		for constraint := body.constraintList; constraint != nil; constraint = constraint.Next(body) {
+			constraint.ActivateBodies()
+		}
 	} else {
 		// A sleeping body must be woken up while it is still dynamic.
 		body.Activate()
-- 
2.43.0


From 8bd22e47469e6d76a10260241fbc748a1e893d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:36 +0000
Subject: [PATCH 23/39] fix: queries of a SpaceHash inside the callbacks of
 another query or of a step

---
 spacehash.go | 75 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 32 deletions(-)

diff --git a/spacehash.go b/spacehash.go
index f7aa6e1..994ca9d 100644
--- a/spacehash.go
+++ b/spacehash.go
@@ -138,22 +138,24 @@ func (hash *SpaceHash) removeOrphanedHandles(binPtr **SpaceHashBin) {
 	}
 }
 
-func (hash *SpaceHash) queryHelper(binPtr **SpaceHashBin, obj interface{}, f SpatialIndexQuery, data interface{}) {
+// collect appends the handles of a bin that were not found with this stamp before.
+func (hash *SpaceHash) collect(binPtr **SpaceHashBin, obj interface{}, stamp uint, found []*Handle) []*Handle {
 restart:
 	for bin := *binPtr; bin != nil; bin = bin.next {
 		hand := bin.handle
 		other := hand.obj
 
-		if hand.stamp == hash.stamp || obj == other {
+		if hand.stamp == stamp || obj == other {
 			continue
 		} else if other != nil {
-			f(obj, other, 0, data)
-			hand.stamp = hash.stamp
+			found = append(found, hand)
+			hand.stamp = stamp
 		} else {
 			hash.removeOrphanedHandles(binPtr)
 			goto restart
 		}
 	}
+	return found
 }
 
 func floor(f float64) int {
@@ -167,8 +169,14 @@ func floor(f float64) int {
 func (hash *SpaceHash) ReindexQuery(f SpatialIndexQuery, data interface{}) {
 	hash.clearTable()
 
+	// f may query the hash, so rehash everything before calling it.
+	var pairs [][2]*Shape
+	var found []*Handle
+
 	hash.handleSet.Each(func(hand *Handle) {
 		// queryRehash_helper
+		hash.stamp++
+		found = found[:0]
 
 		bb := hash.SpatialIndex.bbfunc(hand.obj)
 
@@ -187,7 +195,7 @@ func (hash *SpaceHash) ReindexQuery(f SpatialIndexQuery, data interface{}) {
 				}
 
 				hand.retain()
-				hash.queryHelper(&bin, hand.obj, f, data)
+				found = hash.collect(&bin, hand.obj, hash.stamp, found)
 
 				newBin := hash.getEmptyBin()
 				newBin.handle = hand
@@ -196,9 +204,15 @@ func (hash *SpaceHash) ReindexQuery(f SpatialIndexQuery, data interface{}) {
 			}
 		}
 
-		hash.stamp++
+		for _, other := range found {
+			pairs = append(pairs, [2]*Shape{hand.obj, other.obj})
+		}
 	})
 
+	for _, pair := range pairs {
+		f(pair[0], pair[1], 0, data)
+	}
+
 	hash.CollideStatic(hash.staticIndex, f, data)
 }
 
@@ -211,35 +225,18 @@ func (hash *SpaceHash) Query(obj interface{}, bb BB, f SpatialIndexQuery, data i
 
 	n := hash.numCells
 
+	// f may query the hash too, so find the shapes before calling it.
+	hash.stamp++
+	var found []*Handle
 	for i := l; i <= r; i++ {
 		for j := b; j <= t; j++ {
-			hash.queryHelper(&hash.table[hashFunc(HashValue(i), HashValue(j), HashValue(n))], obj, f, data)
+			found = hash.collect(&hash.table[hashFunc(HashValue(i), HashValue(j), HashValue(n))], obj, hash.stamp, found)
 		}
 	}
 
-	hash.stamp++
-}
-
-func (hash *SpaceHash) segmentQueryHelper(binPtr **SpaceHashBin, obj interface{}, f SpatialIndexSegmentQuery, data interface{}) float64 {
-	t := 1.0
-
-restart:
-	for bin := *binPtr; bin != nil; bin = bin.next {
-		hand := bin.handle
-		other := hand.obj
-
-		if hand.stamp == hash.stamp {
-			continue
-		} else if other != nil {
-			t = math.Min(t, f(obj, other, data))
-			hand.stamp = hash.stamp
-		} else {
-			hash.removeOrphanedHandles(binPtr)
-			goto restart
-		}
+	for _, hand := range found {
+		f(obj, hand.obj, 0, data)
 	}
-
-	return t
 }
 
 // modified from http://playtechs.blogspot.com/2007/03/raytracing-on-grid.html
@@ -299,9 +296,25 @@ func (hash *SpaceHash) SegmentQuery(obj interface{}, a, b Vector, t_exit float64
 		nextV = dtdy
 	}
 
+	hash.stamp++
+	stamp := hash.stamp
+	var found []*Handle
+
 	for t < t_exit {
 		idx := hashFunc(HashValue(cellX), HashValue(cellY), HashValue(hash.numCells))
-		t_exit = math.Min(t_exit, hash.segmentQueryHelper(&hash.table[idx], obj, f, data))
+		first := len(found)
+		found = hash.collect(&hash.table[idx], obj, stamp, found)
+
+		for _, hand := range found[first:] {
+			t_exit = math.Min(t_exit, f(obj, hand.obj, data))
+		}
+
+		if hash.stamp != stamp {
+			// f has queried the hash too, mark what this query has found again.
+			for _, hand := range found {
+				hand.stamp = stamp
+			}
+		}
 
 		if nextV < nextH {
 			cellY += yInc
@@ -313,8 +326,6 @@ func (hash *SpaceHash) SegmentQuery(obj interface{}, a, b Vector, t_exit float64
 			nextH += dtdx
 		}
 	}
-
-	hash.stamp++
 }
 
 type SpaceHashBin struct {
-- 
2.43.0


From 16dd035096928c6691511c51130c50f46667abbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:41 +0000
Subject: [PATCH 24/39] fix: point queries on the core of a shape give a point
 on the surface and its normal

---
 circle.go  |  3 ++-
 poly.go    |  6 +++---
 segment.go | 11 +++--------
 3 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/circle.go b/circle.go
index 11fce2d..5586b47 100644
--- a/circle.go
+++ b/circle.go
@@ -55,14 +55,15 @@ func (circle *Circle) PointQuery(p Vector, info *PointQueryInfo) {
 	r := circle.r
 
 	info.Shape = circle.Shape
-	info.Point = circle.tc.Add(delta.Mult(r / d))
 	info.Distance = d - r
 
+	// Use any direction at the center.
 	if d > MAGIC_EPSILON {
 		info.Gradient = delta.Mult(1 / d)
 	} else {
 		info.Gradient = Vector{0, 1}
 	}
+	info.Point = circle.tc.Add(info.Gradient.Mult(r))
 }
 
 func (circle *Circle) SegmentQuery(a, b Vector, radius float64, info *SegmentQueryInfo) {
diff --git a/poly.go b/poly.go
index fbc370b..fbb78f7 100644
--- a/poly.go
+++ b/poly.go
@@ -98,17 +98,17 @@ func (poly *PolyShape) PointQuery(p Vector, info *PointQueryInfo) {
 	} else {
 		dist = -minDist
 	}
-	g := p.Sub(closestPoint).Mult(1.0 / dist)
 
 	info.Shape = poly.Shape
-	info.Point = closestPoint.Add(g.Mult(r))
 	info.Distance = dist - r
 
+	// Use the edge's normal if the distance is very small.
 	if minDist > MAGIC_EPSILON {
-		info.Gradient = g
+		info.Gradient = p.Sub(closestPoint).Mult(1.0 / dist)
 	} else {
 		info.Gradient = closestNormal
 	}
+	info.Point = closestPoint.Add(info.Gradient.Mult(r))
 }
 
 func (poly *PolyShape) SegmentQuery(a, b Vector, r2 float64, info *SegmentQueryInfo) {
diff --git a/segment.go b/segment.go
index bdcd74d..080d139 100644
--- a/segment.go
+++ b/segment.go
@@ -89,22 +89,17 @@ func (seg *Segment) PointQuery(p Vector, info *PointQueryInfo) {
 	delta := p.Sub(closest)
 	d := delta.Length()
 	r := seg.r
-	g := delta.Mult(1 / d)
 
 	info.Shape = seg.Shape
-	if d != 0 {
-		info.Point = closest.Add(g.Mult(r))
-	} else {
-		info.Point = closest
-	}
 	info.Distance = d - r
 
 	// Use the segment's normal if the distance is very small.
 	if d > MAGIC_EPSILON {
-		info.Gradient = g
+		info.Gradient = delta.Mult(1 / d)
 	} else {
-		info.Gradient = seg.n
+		info.Gradient = seg.tn
 	}
+	info.Point = closest.Add(info.Gradient.Mult(r))
 }
 
 func (seg *Segment) SegmentQuery(a, b Vector, r2 float64, info *SegmentQueryInfo) {
-- 
2.43.0


From c18d9b8f3a0e61ce06d57ac6a733a49d0c4d65df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 25/39] fix: segment queries that start beyond the end of a
 thick segment hit its cap

---
 segment.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/segment.go b/segment.go
index 080d139..ba21bbe 100644
--- a/segment.go
+++ b/segment.go
@@ -1,5 +1,7 @@
 package cp
 
+import "math"
+
 type Segment struct {
 	*Shape
 
@@ -120,7 +122,8 @@ func (seg *Segment) SegmentQuery(a, b Vector, r2 float64, info *SegmentQueryInfo
 	segB := seg.tb.Add(segOffset)
 	delta := b.Sub(a)
 
-	if delta.Cross(segA)*delta.Cross(segB) <= 0 {
+	// A query that starts beyond an end but within the thickness of the segment can only hit the end.
+	if math.Abs(d) >= r && delta.Cross(segA)*delta.Cross(segB) <= 0 {
 		dOffset := d
 		if d > 0 {
 			dOffset -= r
-- 
2.43.0


From 9a705b41174a53a154ca72ef3717cf8a55a9ac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:47 +0000
Subject: [PATCH 26/39] fix: segment queries that start inside a shape report a
 point on its surface

---
 shape.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shape.go b/shape.go
index 3442852..b06b1c0 100644
--- a/shape.go
+++ b/shape.go
@@ -215,6 +215,7 @@ func (shape *Shape) SegmentQuery(a, b Vector, radius float64, info *SegmentQuery
 	shape.Class.PointQuery(a, &nearest)
 	if nearest.Distance <= radius {
 		info.Shape = shape
+		info.Point = nearest.Point
 		info.Alpha = 0
 		info.Normal = a.Sub(nearest.Point).Normalize()
 	} else {
-- 
2.43.0


From 00547123762802b1efd588238c45c944c27b772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:45 +0000
Subject: [PATCH 27/39] fix: normal of a circle whose centre lies on a segment

---
 collision.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collision.go b/collision.go
index 358963e..628e164 100644
--- a/collision.go
+++ b/collision.go
@@ -123,7 +123,8 @@ func CircleToSegment(info *CollisionInfo) {
 	distsq := delta.LengthSq()
 	if distsq < mindist*mindist {
 		dist := math.Sqrt(distsq)
-		if dist != 0 {
+		// Use the segment's normal if the distance is very small.
+		if dist > MAGIC_EPSILON {
 			info.n = delta.Mult(1 / dist)
 		} else {
 			info.n = segment.tn
-- 
2.43.0


From c34e5343a6e95fbbe64e33254dfef8d3a38f1cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:05 +0000
Subject: [PATCH 28/39] fix: segment queries that start on the surface of a
 polygon or enter it through a vertex

---
 poly.go  | 3 ++-
 shape.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/poly.go b/poly.go
index fbb78f7..fe665cb 100644
--- a/poly.go
+++ b/poly.go
@@ -136,7 +136,8 @@ func (poly *PolyShape) SegmentQuery(a, b Vector, r2 float64, info *SegmentQueryI
 		dtMin := n.Cross(planes[(i-1+count)%count].v0)
 		dtMax := n.Cross(planes[i].v0)
 
-		if dtMin <= dt && dt <= dtMax {
+		// Don't let a segment slip in through a vertex between two edges.
+		if dtMin-MAGIC_EPSILON <= dt && dt <= dtMax+MAGIC_EPSILON {
 			info.Shape = poly.Shape
 			info.Point = a.Lerp(b, t).Sub(n.Mult(r2))
 			info.Normal = n
diff --git a/shape.go b/shape.go
index b06b1c0..cd4a104 100644
--- a/shape.go
+++ b/shape.go
@@ -213,7 +213,8 @@ func (shape *Shape) SegmentQuery(a, b Vector, radius float64, info *SegmentQuery
 
 	var nearest PointQueryInfo
 	shape.Class.PointQuery(a, &nearest)
-	if nearest.Distance <= radius {
+	// A start on the surface counts, whichever way it is rounded.
+	if nearest.Distance <= radius+MAGIC_EPSILON {
 		info.Shape = shape
 		info.Point = nearest.Point
 		info.Alpha = 0
-- 
2.43.0


From 6bde1f9829535b6bcad31a08e36a462c1fe2717e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:55 +0000
Subject: [PATCH 29/39] fix: simplified curves stay within the tolerance of the
 original polyline

The distance of a vertex was measured to the line through the ends instead of the
segment between them (and not at all when the ends are the same point).
---
 polyline.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/polyline.go b/polyline.go
index 4efc93a..159f054 100644
--- a/polyline.go
+++ b/polyline.go
@@ -85,11 +85,12 @@ func DouglasPeucker(verts []Vector, reduced *PolyLine, length, start, end int, m
 	var max float64
 	maxi := start
 
-	n := b.Sub(a).Perp().Normalize()
-	d := n.Dot(a)
-
 	for i := Next(start, length); i != end; i = Next(i, length) {
-		dist := math.Abs(n.Dot(verts[i]) - d)
+		closest := a
+		if !a.Equal(b) {
+			closest = verts[i].ClosestPointOnSegment(a, b)
+		}
+		dist := verts[i].Distance(closest)
 
 		if dist > max {
 			max = dist
-- 
2.43.0


From bc3701207dd64d2701b7f112d075127ea869ec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:11 +0000
Subject: [PATCH 30/39] fix: do not carry over impulses of a contact that ended

When shapes touched again within the collision persistence, the impulse
accumulated by the old contact was taken over without being applied, so
the new contact could pull, or rub harder than its friction allows.
---
 arbiter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arbiter.go b/arbiter.go
index 9901ade..7b7eafa 100644
--- a/arbiter.go
+++ b/arbiter.go
@@ -207,7 +207,8 @@ func (arb *Arbiter) Update(info *CollisionInfo, space *Space) {
 		con.r1 = con.r1.Sub(a.body.p)
 		con.r2 = con.r2.Sub(b.body.p)
 
-		// Cached impulses are not zeroed at init time.
+		// Cached impulses are not zeroed at init time. Those of a contact that ended are gone:
+		// they are not applied when the shapes touch again.
 		con.jnAcc = 0
 		con.jtAcc = 0
 
@@ -215,7 +216,7 @@ func (arb *Arbiter) Update(info *CollisionInfo, space *Space) {
 			old := arb.contacts[j]
 
 			// This could trigger false positives, but is fairly unlikely nor serious if it does.
-			if con.hash == old.hash {
+			if con.hash == old.hash && arb.state != CP_ARBITER_STATE_CACHED {
 				// Copy the persistent contact information.
 				con.jnAcc = old.jnAcc
 				con.jtAcc = old.jtAcc
-- 
2.43.0


From 229937c4115b3b94e6cbe255a6e93b3afbf20fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:11 +0000
Subject: [PATCH 31/39] fix: add the damping impulse of a rotary spring with
 the right sign

The spring's impulse turns body b by +, the damping part is applied to
body b by -, so GetImpulse reported their difference instead of their sum.
---
 dampedrotaryspring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dampedrotaryspring.go b/dampedrotaryspring.go
index c29e960..5bb0ff9 100644
--- a/dampedrotaryspring.go
+++ b/dampedrotaryspring.go
@@ -58,7 +58,7 @@ func (spring *DampedRotarySpring) ApplyImpulse(dt float64) {
 	spring.targetWrn = wrn+wDamp
 
 	jDamp := wDamp*spring.iSum
-	spring.jAcc += jDamp
+	spring.jAcc -= jDamp
 
 	a.w += jDamp*a.i_inv
 	b.w -= jDamp*b.i_inv
-- 
2.43.0


From 459b84625d08bd76c54568e2f5d1773299a0efec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:42 +0000
Subject: [PATCH 32/39] fix: scale the accumulated contact impulses when the
 time step changes

The cached impulses were applied scaled by the ratio of the time steps, but the
unscaled ones were kept as the impulses applied so far: after a change of the
time step a contact could pull, and reported an impulse it had not applied.
---
 arbiter.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arbiter.go b/arbiter.go
index 7b7eafa..b99eb96 100644
--- a/arbiter.go
+++ b/arbiter.go
@@ -116,9 +116,11 @@ func (arbiter *Arbiter) ApplyCachedImpulse(dt_coef float64) {
 	}
 
 	for i := 0; i < arbiter.count; i++ {
-		contact := arbiter.contacts[i]
+		contact := &arbiter.contacts[i]
+		contact.jnAcc *= dt_coef
+		contact.jtAcc *= dt_coef
 		j := arbiter.n.Rotate(Vector{contact.jnAcc, contact.jtAcc})
-		apply_impulses(arbiter.body_a, arbiter.body_b, contact.r1, contact.r2, j.Mult(dt_coef))
+		apply_impulses(arbiter.body_a, arbiter.body_b, contact.r1, contact.r2, j)
 	}
 }
 
-- 
2.43.0


From 5bbc793db4b88b837806a50ee680622105be59a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:45 +0000
Subject: [PATCH 33/39] fix: scale the accumulated joint impulses when the time
 step changes

As for contacts: after a change of the time step joints could exceed their
maximum force, and reported an impulse they had not applied.
---
 gearjoint.go        | 3 ++-
 groovejoint.go      | 3 ++-
 pinjoint.go         | 3 ++-
 pivotjoint.go       | 3 ++-
 ratchetjoint.go     | 3 ++-
 rotarylimitjoint.go | 3 ++-
 simplemotor.go      | 3 ++-
 slidejoint.go       | 3 ++-
 8 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/gearjoint.go b/gearjoint.go
index 6afeeee..9ce2be5 100644
--- a/gearjoint.go
+++ b/gearjoint.go
@@ -40,7 +40,8 @@ func (joint *GearJoint) ApplyCachedImpulse(dt_coef float64) {
 	a := joint.a
 	b := joint.b
 
-	j := joint.jAcc * dt_coef
+	joint.jAcc *= dt_coef
+	j := joint.jAcc
 	a.w -= j * a.i_inv * joint.ratio_inv
 	b.w += j * b.i_inv
 }
diff --git a/groovejoint.go b/groovejoint.go
index 2025805..9f9ecf4 100644
--- a/groovejoint.go
+++ b/groovejoint.go
@@ -62,7 +62,8 @@ func (joint *GrooveJoint) ApplyCachedImpulse(dt_coef float64) {
 	a := joint.a
 	b := joint.b
 
-	apply_impulses(a, b, joint.r1, joint.r2, joint.jAcc.Mult(dt_coef))
+	joint.jAcc = joint.jAcc.Mult(dt_coef)
+	apply_impulses(a, b, joint.r1, joint.r2, joint.jAcc)
 }
 
 func (joint *GrooveJoint) grooveConstrain(j Vector, dt float64) Vector {
diff --git a/pinjoint.go b/pinjoint.go
index 40b1437..1bfd766 100644
--- a/pinjoint.go
+++ b/pinjoint.go
@@ -61,7 +61,8 @@ func (joint *PinJoint) PreStep(dt float64) {
 }
 
 func (joint *PinJoint) ApplyCachedImpulse(dt_coef float64) {
-	j := joint.n.Mult(joint.jnAcc*dt_coef)
+	joint.jnAcc *= dt_coef
+	j := joint.n.Mult(joint.jnAcc)
 	apply_impulses(joint.a, joint.b, joint.r1, joint.r2, j)
 }
 
diff --git a/pivotjoint.go b/pivotjoint.go
index d970921..557fadb 100644
--- a/pivotjoint.go
+++ b/pivotjoint.go
@@ -56,7 +56,8 @@ func (joint *PivotJoint) PreStep(dt float64) {
 }
 
 func (joint *PivotJoint) ApplyCachedImpulse(dt_coef float64) {
-	apply_impulses(joint.a, joint.b, joint.r1, joint.r2, joint.jAcc.Mult(dt_coef))
+	joint.jAcc = joint.jAcc.Mult(dt_coef)
+	apply_impulses(joint.a, joint.b, joint.r1, joint.r2, joint.jAcc)
 }
 
 func (joint *PivotJoint) ApplyImpulse(dt float64) {
diff --git a/ratchetjoint.go b/ratchetjoint.go
index 3ab0fc7..1cbf0fe 100644
--- a/ratchetjoint.go
+++ b/ratchetjoint.go
@@ -57,7 +57,8 @@ func (joint *RatchetJoint) ApplyCachedImpulse(dt_coef float64) {
 	a := joint.a
 	b := joint.b
 
-	j := joint.jAcc*dt_coef
+	joint.jAcc *= dt_coef
+	j := joint.jAcc
 	a.w -= j*a.i_inv
 	b.w += j*b.i_inv
 }
diff --git a/rotarylimitjoint.go b/rotarylimitjoint.go
index 7825343..dffe90a 100644
--- a/rotarylimitjoint.go
+++ b/rotarylimitjoint.go
@@ -45,7 +45,8 @@ func (joint *RotaryLimitJoint) ApplyCachedImpulse(dt_coef float64) {
 	a := joint.a
 	b := joint.b
 
-	j := joint.jAcc*dt_coef
+	joint.jAcc *= dt_coef
+	j := joint.jAcc
 	a.w -= j*a.i_inv
 	b.w += j*b.i_inv
 }
diff --git a/simplemotor.go b/simplemotor.go
index 65f3982..39f6294 100644
--- a/simplemotor.go
+++ b/simplemotor.go
@@ -30,7 +30,8 @@ func (motor *SimpleMotor) ApplyCachedImpulse(dt_coef float64) {
 	a := motor.a
 	b := motor.b
 
-	j := motor.jAcc * dt_coef
+	motor.jAcc *= dt_coef
+	j := motor.jAcc
 	a.w -= j * a.i_inv
 	b.w += j * b.i_inv
 }
diff --git a/slidejoint.go b/slidejoint.go
index 8a730c2..de38c2a 100644
--- a/slidejoint.go
+++ b/slidejoint.go
@@ -59,7 +59,8 @@ func (joint *SlideJoint) ApplyCachedImpulse(dt_coef float64) {
 	a := joint.a
 	b := joint.b
 
-	j := joint.n.Mult(joint.jnAcc * dt_coef)
+	joint.jnAcc *= dt_coef
+	j := joint.n.Mult(joint.jnAcc)
 	apply_impulses(a, b, joint.r1, joint.r2, j)
 }
 
-- 
2.43.0


From 378f673e7bbf78252d7aa5e984cfe63ec58f098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:39 +0000
Subject: [PATCH 34/39] fix: find cached arbiters by the ids of the shapes, not
 by their addresses

The order in which the cached arbiters are visited, and so the order of the
separate callbacks of a step, depended on where the shapes were in memory.
---
 space.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/space.go b/space.go
index 8192f03..790fc37 100644
--- a/space.go
+++ b/space.go
@@ -3,7 +3,6 @@ package cp
 import (
 	"math"
 	"sync"
-	"unsafe"
 )
 
 const MAX_CONTACTS_PER_ARBITER = 2
@@ -184,7 +183,7 @@ func (space *Space) Activate(body *Body) {
 			a := arbiter.a
 			b := arbiter.b
 			shapePair := ShapePair{a, b}
-			arbHashId := HashPair(HashValue(unsafe.Pointer(a)), HashValue(unsafe.Pointer(b)))
+			arbHashId := HashPair(a.hashid, b.hashid)
 			space.cachedArbiters.Insert(arbHashId, shapePair, func(_ ShapePair) *Arbiter {
 				return arbiter
 			})
@@ -440,7 +439,7 @@ func SpaceCollideShapesFunc(obj interface{}, b *Shape, collisionId uint32, vspac
 	// Get an arbiter from space->arbiterSet for the two shapes.
 	// This is where the persistent contact magic comes from.
 	shapePair := ShapePair{info.a, info.b}
-	arbHashId := HashPair(HashValue(unsafe.Pointer(info.a)), HashValue(unsafe.Pointer(info.b)))
+	arbHashId := HashPair(info.a.hashid, info.b.hashid)
 	arb := space.cachedArbiters.Insert(arbHashId, shapePair, func(shapes ShapePair) *Arbiter {
 		arb := space.pooledArbiters.Get().(*Arbiter)
 		arb.Init(shapes.a, shapes.b)
@@ -825,7 +824,7 @@ func (space *Space) UncacheArbiter(arb *Arbiter) {
 	a := arb.a
 	b := arb.b
 	shapePair := ShapePair{a, b}
-	arbHashId := HashPair(HashValue(unsafe.Pointer(a)), HashValue(unsafe.Pointer(b)))
+	arbHashId := HashPair(a.hashid, b.hashid)
 	space.cachedArbiters.Remove(arbHashId, shapePair)
 	for i, a := range space.arbiters {
 		if a == arb {
-- 
2.43.0


From 025151ed65770f43ca6cbd0aaf103b5f9967a78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:39 +0000
Subject: [PATCH 35/39] fix: draw only what the flags of the drawer ask for

---
 draw.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/draw.go b/draw.go
index 73973bd..958b7d0 100644
--- a/draw.go
+++ b/draw.go
@@ -157,15 +157,25 @@ func DrawConstraint(constraint *Constraint, options Drawer) {
 }
 
 func DrawSpace(space *Space, options Drawer) {
-	space.dynamicShapes.class.Each(func(obj *Shape) {
-		DrawShape(obj, options)
-	})
-	space.staticShapes.class.Each(func(obj *Shape) {
-		DrawShape(obj, options)
-	})
-
-	for _, constraint := range space.constraints {
-		DrawConstraint(constraint, options)
+	flags := options.Flags()
+
+	if flags&DRAW_SHAPES != 0 {
+		space.dynamicShapes.class.Each(func(obj *Shape) {
+			DrawShape(obj, options)
+		})
+		space.staticShapes.class.Each(func(obj *Shape) {
+			DrawShape(obj, options)
+		})
+	}
+
+	if flags&DRAW_CONSTRAINTS != 0 {
+		for _, constraint := range space.constraints {
+			DrawConstraint(constraint, options)
+		}
+	}
+
+	if flags&DRAW_COLLISION_POINTS == 0 {
+		return
 	}
 
 	drawSeg := options.DrawSegment
-- 
2.43.0


From fee1f4299f40c53fa9d1ebe7a0892a5265f27d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:24 +0000
Subject: [PATCH 36/39] fix: Clamp01 of 0/0, so that segments without length
 collide and answer queries as points

---
 vector.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vector.go b/vector.go
index cea4a8c..61a068c 100644
--- a/vector.go
+++ b/vector.go
@@ -110,7 +110,11 @@ func Clamp(f, min, max float64) float64 {
 }
 
 func Clamp01(f float64) float64 {
-	return math.Max(0, math.Min(f, 1))
+	// not math.Min and math.Max, which return NaN for the 0/0 of a segment without length
+	if f > 0 {
+		return math.Min(f, 1)
+	}
+	return 0
 }
 
 func Lerp(f1, f2, t float64) float64 {
-- 
2.43.0


From 3228703a98966aaebc5092264e9a75a2b0f01006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:27 +0000
Subject: [PATCH 37/39] fix: SlerpConst of vectors that point the same way

---
 vector.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vector.go b/vector.go
index 61a068c..82db6a7 100644
--- a/vector.go
+++ b/vector.go
@@ -128,7 +128,10 @@ func LerpConst(f1, f2, d float64) float64 {
 func (v Vector) SlerpConst(other Vector, a float64) Vector {
 	dot := v.Normalize().Dot(other.Normalize())
 	omega := math.Acos(Clamp(dot, -1, 1))
-	return v.SLerp(other, math.Min(a, omega)/omega)
+	if omega <= a {
+		return other // also when both point the same way, where omega is zero
+	}
+	return v.SLerp(other, a/omega)
 }
 
 func (v Vector) Clamp(length float64) Vector {
-- 
2.43.0


From d72f577f7389e0fb77eeb9d965bc6004ff2bbd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:16 +0000
Subject: [PATCH 38/39] fix: segments without length have a normal

---
 collision.go |  5 +++++
 segment.go   | 12 ++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/collision.go b/collision.go
index 628e164..50feb9e 100644
--- a/collision.go
+++ b/collision.go
@@ -243,6 +243,11 @@ func (v0 MinkowskiPoint) ClosestPoints(v1 MinkowskiPoint) ClosestPoints {
 	// rounding error, but the vertex can be far away), and a coincident vertex has no direction of its own.
 	d2 := p.Length()
 
+	// Neither has the edge between two equal vertices.
+	if delta == (Vector{}) && d2 < 1e-10 {
+		n = Vector{1, 0}
+	}
+
 	if (-1 < t && t < 1) || d < -1e-10*d2 || d2 < 1e-10 {
 		// If the shapes are overlapping, or we have a regular vertex/edge collision, we are done.
 		return ClosestPoints{pa, pb, n, d, id}
diff --git a/segment.go b/segment.go
index ba21bbe..a898952 100644
--- a/segment.go
+++ b/segment.go
@@ -64,7 +64,7 @@ func (seg *Segment) TransformB() Vector {
 func (seg *Segment) SetEndpoints(a, b Vector) {
 	seg.a = a
 	seg.b = b
-	seg.n = b.Sub(a).Normalize().ReversePerp()
+	seg.n = segmentNormal(a, b)
 
 	mass := seg.massInfo.m
 	seg.massInfo = NewSegmentMassInfo(seg.massInfo.m, seg.a, seg.b, seg.r)
@@ -73,6 +73,14 @@ func (seg *Segment) SetEndpoints(a, b Vector) {
 	}
 }
 
+// segmentNormal returns the normal of the segment from a to b. One without length gets some unit vector all the same.
+func segmentNormal(a, b Vector) Vector {
+	if a == b {
+		return Vector{1, 0}
+	}
+	return b.Sub(a).Normalize().ReversePerp()
+}
+
 func (seg *Segment) Normal() Vector {
 	return seg.n
 }
@@ -159,7 +167,7 @@ func NewSegment(body *Body, a, b Vector, r float64) *Shape {
 	segment := &Segment{
 		a: a,
 		b: b,
-		n: b.Sub(a).Normalize().ReversePerp(),
+		n: segmentNormal(a, b),
 
 		r:         r,
 		a_tangent: Vector{},
-- 
2.43.0


From 53cbbed79ea3413179d9a6a733697b55e87cb47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:50 +0000
Subject: [PATCH 39/39] fix: a contact that fell asleep in its first step was
 first again when woken

---
 space.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/space.go b/space.go
index 790fc37..c8923d9 100644
--- a/space.go
+++ b/space.go
@@ -190,6 +190,10 @@ func (space *Space) Activate(body *Body) {
 
 			// update arbiters state
 			arbiter.stamp = space.stamp
+			if arbiter.state == CP_ARBITER_STATE_FIRST_COLLISION {
+				// fell asleep in the first step of the contact, which is over
+				arbiter.state = CP_ARBITER_STATE_NORMAL
+			}
 			space.arbiters = append(space.arbiters, arbiter)
 		}
 	}
-- 
2.43.0

