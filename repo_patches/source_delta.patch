From 46387be895580828e6ab1cff6105a64f2b231032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:35 +0000
Subject: [PATCH 01/16] fix: emit every linear feature when the input holds
 skipped lines

groupPlnsAsGeoJSONS looked features up by their position in the sorted list
of line numbers instead of by the line number itself, so any input line that
yields no polyline (a point, a polygon) made the tool panic and write nothing.
---
 encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 20239a1..fe01c72 100644
--- a/encode.go
+++ b/encode.go
@@ -38,7 +38,7 @@ func groupPlnsAsGeoJSONS(plns []*geometry.Polyline) []string {
 	var dictionary = groupById(plns)
 	var indxs = indices(dictionary)
 	var jsons = make([]string, 0, len(plns))
-	for idx := range indxs {
+	for _, idx := range indxs {
 		var plns = dictionary[idx]
 		sort.SliceStable(plns, func(i, j int) bool {
 			return plns[i].pos < plns[j].pos
-- 
2.43.0


From e2bbca48fad3aa0b362b0ef3b9a110bcf097df24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:48 +0000
Subject: [PATCH 02/16] fix: keep planar junctions at the lexicographically
 last vertex

The scans that collect coincident vertices stop one point early and never
flush the group that ends the sorted list, so a self-intersection or a
junction between features at the largest vertex was not preserved.
---
 lnr/fc.go   | 9 ++++++---
 lnr/self.go | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/lnr/fc.go b/lnr/fc.go
index 505e9a6..1ce8842 100644
--- a/lnr/fc.go
+++ b/lnr/fc.go
@@ -34,9 +34,12 @@ func FCPlanarSelfIntersection(featureClass []*FC) map[int][]int {
 	var a, b *vertex
 
 	var bln bool
-	for i, n := 0, len(points); i < n-1; i++ { //O(n)
-		a, b = &points[i], &points[i+1]
-		bln = a.Equals2D(b.Point)
+	for i, n := 0, len(points); i < n; i++ { //O(n)
+		bln = false
+		if i < n-1 { //last point has no next, flush its group
+			a, b = &points[i], &points[i+1]
+			bln = a.Equals2D(b.Point)
+		}
 		if bln {
 			if d == 0 {
 				indexes = append(indexes, a, b)
diff --git a/lnr/self.go b/lnr/self.go
index b541027..4aca9df 100644
--- a/lnr/self.go
+++ b/lnr/self.go
@@ -35,9 +35,12 @@ func planarIntersects(polyline *geometry.Polyline) *ctx.ContextGeometries {
 	var results = ctx.NewContexts()
 
 	var bln bool
-	for i, n := 0, len(points); i < n-1; i++ { //O(n)
-		a, b = &points[i], &points[i+1]
-		bln = a.Equals2D(b.Point)
+	for i, n := 0, len(points); i < n; i++ { //O(n)
+		bln = false
+		if i < n-1 { //last point has no next, flush its group
+			a, b = &points[i], &points[i+1]
+			bln = a.Equals2D(b.Point)
+		}
 		if bln {
 			if d == 0 {
 				indices = append(indices, a.index, b.index)
-- 
2.43.0


From 4034e9615d7b02f47464cf061c8352c27e8ca085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:33 +0000
Subject: [PATCH 03/16] fix: validate collinear hulls whose line doubles back
 past its ends

A hull of collinear vertices was never validated against its context on the
assumption that its segment covers the same points. A spike that runs beyond
the end points and back does not, so collapsing it could lose the intersection
with a constraint while geometric_relation was on.
---
 constdp/simple_0.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/constdp/simple_0.go b/constdp/simple_0.go
index 5fc1b33..eea270d 100644
--- a/constdp/simple_0.go
+++ b/constdp/simple_0.go
@@ -39,8 +39,9 @@ func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency
 				continue
 			}
 
-			//if hull geometry is line then points are collinear
-			if _, ok := hull.Geom.(*geom.LineString); ok {
+			//if hull geometry is line then points are collinear, nothing
+			//changes unless the line doubles back beyond its end points
+			if ln, ok := hull.Geom.(*geom.LineString); ok && spansLine(hull, ln) {
 				continue
 			}
 
@@ -79,6 +80,13 @@ func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency
 	return results
 }
 
+//spansLine - do the end points of a collinear hull span its geometry
+func spansLine(hull *node.Node, ln *geom.LineString) bool {
+	var a, b = hull.SegmentPoints()
+	var i, j = ln.Coordinates.First(), ln.Coordinates.Last()
+	return (a.Equals2D(i) && b.Equals2D(j)) || (a.Equals2D(j) && b.Equals2D(i))
+}
+
 func chunkTasks(vals []*node.Node, concurrency int) [][]*node.Node {
 	var n = len(vals)
 	var chunkSize = n / concurrency
-- 
2.43.0


From 83e3fc0a89bb6d11d0ff74a47dc7820f918502ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:20 +0000
Subject: [PATCH 04/16] fix: deform hulls that a new segment crosses

A hull split down to a single segment was not checked against its neighbours,
and neighbours that were validated in an earlier round were not looked at
again. A neighbour whose segment crosses the new piece stayed simplified, so
the output could intersect itself, or another feature of the class, where the
input does not, with avoid_new_self_intersects on.
---
 constdp/simple_0.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/constdp/simple_0.go b/constdp/simple_0.go
index eea270d..d816d80 100644
--- a/constdp/simple_0.go
+++ b/constdp/simple_0.go
@@ -35,28 +35,21 @@ func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency
 			var hull = in[i]
 			var self = hull.Instance.(*ConstDP)
 
-			if hull.Range.Size() == 1 { //segment
-				continue
-			}
-
-			//if hull geometry is line then points are collinear, nothing
-			//changes unless the line doubles back beyond its end points
-			if ln, ok := hull.Geom.(*geom.LineString); ok && spansLine(hull, ln) {
-				continue
-			}
-
-			// self intersection constraint
+			// self intersection constraint - neighbours of a hull that is
+			// already a segment may still have to be deformed because of it
 			if self.Opts.AvoidNewSelfIntersects {
 				bln = constrain.ByFeatureClassIntersection(self.Opts, hull, db, &selections)
 			}
 
 			// short circuit, if invalid, skip context validation
-			if bln {
+			if bln && !isSegment(hull) {
 				bln = self.ValidateContextRelation(hull, &selections)
 			}
 
 			for _, o := range selections {
-				out <- o
+				if !isSegment(o) {
+					out <- o
+				}
 			}
 			selections = selections[:0]
 		}
@@ -80,6 +73,17 @@ func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency
 	return results
 }
 
+//isSegment - does hull stand for the same points as its segment
+func isSegment(hull *node.Node) bool {
+	if hull.Range.Size() == 1 {
+		return true
+	}
+	//if hull geometry is line then points are collinear, nothing
+	//changes unless the line doubles back beyond its end points
+	var ln, ok = hull.Geom.(*geom.LineString)
+	return ok && spansLine(hull, ln)
+}
+
 //spansLine - do the end points of a collinear hull span its geometry
 func spansLine(hull *node.Node, ln *geom.LineString) bool {
 	var a, b = hull.SegmentPoints()
-- 
2.43.0


From 11585b43c27fdc72370d6e330990a8e7c38bde83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:26 +0000
Subject: [PATCH 05/16] fix: tell hulls of different features apart in
 SelectFeatureClass

The hulls to deform were collected by vertex range alone, so of two hulls of
different features that span the same range only one (picked by neighbour
order) was deformed in a round, and a crossing between two features could
survive.
---
 deform/cls.go    | 6 +++---
 deform/common.go | 6 ++++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/deform/cls.go b/deform/cls.go
index 9c109be..a639aaf 100644
--- a/deform/cls.go
+++ b/deform/cls.go
@@ -26,7 +26,7 @@ func SelectFeatureClass(options *opts.Opts, hullDB *hdb.Hdb, hull *node.Node) []
 	var n int
 	var h *node.Node
 	var inters, contig bool
-	var dict = make(map[[2]int]*node.Node, 0)
+	var dict = make(map[[3]int]*node.Node, 0) // range and feature
 	var ctxHulls = knn.NodeNeighbours(hullDB, hull, knn.EpsilonDist)
 
 	ctxHulls = optimizeNeighbours(hull, ctxHulls)
@@ -64,10 +64,10 @@ func SelectFeatureClass(options *opts.Opts, hullDB *hdb.Hdb, hull *node.Node) []
 
 		// add candidate deformation hulls to selection list
 		if sa != nil {
-			dict[sa.Range.AsArray()] = sa
+			dict[featureRange(sa)] = sa
 		}
 		if sb != nil {
-			dict[sb.Range.AsArray()] = sb
+			dict[featureRange(sb)] = sb
 		}
 	}
 
diff --git a/deform/common.go b/deform/common.go
index 1c2d959..49f5d46 100644
--- a/deform/common.go
+++ b/deform/common.go
@@ -2,8 +2,14 @@ package deform
 
 import (
 	"github.com/TopoSimplify/plugin/lnr"
+	"github.com/TopoSimplify/plugin/node"
 )
 
+//range of a node within its feature
+func featureRange(o *node.Node) [3]int {
+	return [3]int{o.Instance.Id(), o.Range.I, o.Range.J}
+}
+
 func isSame(a, b lnr.Linegen) bool {
 	return a.Id() == b.Id()
 }
-- 
2.43.0


From 8c80bbaeaad517bbf16c2fd3752e29e733c4992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:43 +0000
Subject: [PATCH 06/16] fix: keep split hulls within the simplification
 threshold

---
 constdp/decompose.go | 27 +++++++++++++++++++++++++++
 constdp/simple_1.go  |  2 +-
 constdp/simplify.go  |  1 +
 3 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/constdp/decompose.go b/constdp/decompose.go
index 64a8d9e..c844a4a 100644
--- a/constdp/decompose.go
+++ b/constdp/decompose.go
@@ -5,6 +5,7 @@ import (
 	"github.com/TopoSimplify/plugin/decompose"
 	"github.com/TopoSimplify/plugin/node"
 	"github.com/TopoSimplify/plugin/offset"
+	"github.com/TopoSimplify/plugin/split"
 	"github.com/intdxdt/iter"
 )
 
@@ -26,3 +27,29 @@ func (self *ConstDP) Decompose(id *iter.Igen) []node.Node {
 		id, self.Polyline, decomp, common.Geometry, self,
 	)
 }
+
+//splitAtThreshold - splits hulls until their parts are within threshold.
+//parts of a hull have their own segments, these can be further away from
+//their vertices than the segment of the hull they are split from.
+func (self *ConstDP) splitAtThreshold(id *iter.Igen, hulls []node.Node) []node.Node {
+	var score = self.Score
+	var relation = self.ScoreRelation
+
+	if self.SquareScore != nil {
+		score = self.SquareScore
+		relation = self.SquareScoreRelation
+	}
+
+	var results = make([]node.Node, 0, len(hulls))
+	for len(hulls) > 0 {
+		var hull = hulls[0]
+		hulls = hulls[1:]
+		if _, val := score(hull.Coordinates()); hull.Range.Size() == 1 || relation(val) {
+			results = append(results, hull)
+			continue
+		}
+		var ha, hb = split.AtScoreSelection(id, &hull, score, common.Geometry)
+		hulls = append([]node.Node{ha, hb}, hulls...)
+	}
+	return results
+}
diff --git a/constdp/simple_1.go b/constdp/simple_1.go
index 306dc6b..4959c53 100644
--- a/constdp/simple_1.go
+++ b/constdp/simple_1.go
@@ -22,7 +22,7 @@ func deformNodes(id *iter.Igen, nodes map[*node.Node]struct{}) []node.Node {
 
 		if hull.Range.Size() > 1 {
 			ha, hb = split.AtScoreSelection(id, hull, scoreFn, common.Geometry)
-			results = append(results, ha, hb)
+			results = append(results, self.splitAtThreshold(id, []node.Node{ha, hb})...)
 			hull.Instance.State().MarkDirty() //after split mark instance as dirty
 		} else {
 			results = append(results, *hull)
diff --git a/constdp/simplify.go b/constdp/simplify.go
index 374a9a1..72f7d83 100644
--- a/constdp/simplify.go
+++ b/constdp/simplify.go
@@ -26,6 +26,7 @@ func (self *ConstDP) Simplify(id *iter.Igen, constVertices ...[]int) *ConstDP {
 	self.Hulls, _, constVertexSet = constrain.ToSelfIntersects(
 		id, self.Hulls, self.Polyline, self.Options(), constVerts,
 	)
+	self.Hulls = self.splitAtThreshold(id, self.Hulls)
 
 	var db = hdb.NewHdb()
 	var selections map[*node.Node]struct{}
-- 
2.43.0


From b2f3b9eace59675c72e01e59f965165e1cf08123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:47 +0000
Subject: [PATCH 07/16] fix: keep vertices of SED hulls that span no time

---
 offset/sed.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/offset/sed.go b/offset/sed.go
index af8da8a..3a32ae7 100644
--- a/offset/sed.go
+++ b/offset/sed.go
@@ -41,7 +41,10 @@ func maxSEDOffset(coordinates geom.Coords, hypotFn func(float64, float64) float6
 		pt = coordinates.Pt(k)
 		ptx, pty, ptt = pt[geom.X], pt[geom.Y], pt[geom.Z]
 
-		m = (mij / dt) * (ptt - at)
+		m = 0 // no time elapsed between a and b : position is at a
+		if dt != 0 {
+			m = (mij / dt) * (ptt - at)
+		}
 		px, py = ax+(m*vx), ay+(m*vy)
 		dist = hypotFn(ptx-px, pty-py)
 
-- 
2.43.0


From 910e500f7ef2c957d39d72e8e0d1f18460ab930e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:13 +0000
Subject: [PATCH 08/16] fix: terminate when the threshold is below zero

---
 decompose/decompose.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decompose/decompose.go b/decompose/decompose.go
index 4b831c3..82fe1ac 100644
--- a/decompose/decompose.go
+++ b/decompose/decompose.go
@@ -40,7 +40,8 @@ func DouglasPeucker(
 		k, val = decomp.ScoreFn(coordinates)
 		k = r.I + k //offset
 
-		if decomp.Relation(val) {
+		// a single segment can not be decomposed any further
+		if r.Size() <= 1 || decomp.Relation(val) {
 			hque = append(hque, node.CreateNode(id, coordinates, r, geomFn, instance))
 		} else {
 			stack = append(stack, rng.Range(k, r.J)) // right
-- 
2.43.0


From 825bac524775feb4f6521e269175a5fcba1a6f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:23 +0000
Subject: [PATCH 09/16] fix: report output that fails to close as not written

---
 io.go   | 14 ++++++++++++++
 main.go |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/io.go b/io.go
index 6532c02..617b353 100644
--- a/io.go
+++ b/io.go
@@ -112,6 +112,20 @@ func readlinesFromReader(reader *bufio.Reader, callback func(lnStr string)) erro
 	return err
 }
 
+//saveText - writes text to file, the file is not
+//saved until it is closed without an error
+func saveText(fname, text string) error {
+	var fid, err = os.Create(fname)
+	if err != nil {
+		return err
+	}
+	_, err = fid.WriteString(text)
+	if cerr := fid.Close(); err == nil {
+		err = cerr
+	}
+	return err
+}
+
 func writeCoords(fname string, coords []geom.Coords, writer func(*geom.WKTParserObj) string) error {
 	var baseDir, _ = filepath.Split(fname)
 	var err = fileutil.MakeDirs(baseDir)
diff --git a/main.go b/main.go
index b30bb9e..b393a12 100644
--- a/main.go
+++ b/main.go
@@ -95,7 +95,7 @@ func main() {
 	var t1 = time.Now()
 
 	var output = groupPlnsAsGeoJSONS(polylines)
-	var err = fileutil.SaveText(argObj.Output, strings.Join(output, "\n"))
+	var err = saveText(argObj.Output, strings.Join(output, "\n"))
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From b65574e33d676ca8610f75093432c1816a2fad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:44 +0000
Subject: [PATCH 10/16] fix: release the queue's lock when an empty queue
 panics

---
 node/queue.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/node/queue.go b/node/queue.go
index 0db23b6..765f9b6 100644
--- a/node/queue.go
+++ b/node/queue.go
@@ -32,16 +32,14 @@ func (q *Queue) AppendLeft(o Node) *Queue {
 
 func (q *Queue) Pop() Node {
 	q.Lock()
-	n := q.que.Pop().(Node)
-	q.Unlock()
-	return n
+	defer q.Unlock() // an empty queue panics
+	return q.que.Pop().(Node)
 }
 
 func (q *Queue) PopLeft() Node {
 	q.Lock()
-	n := q.que.PopLeft().(Node)
-	q.Unlock()
-	return n
+	defer q.Unlock() // an empty queue panics
+	return q.que.PopLeft().(Node)
 }
 
 func (q *Queue) Clear() *Queue {
@@ -60,14 +58,12 @@ func (q *Queue) Size() int {
 
 func (q *Queue) First() Node {
 	q.RLock()
-	n := q.que.First().(Node)
-	q.RUnlock()
-	return n
+	defer q.RUnlock() // an empty queue panics
+	return q.que.First().(Node)
 }
 
 func (q *Queue) Last() Node {
 	q.RLock()
-	n := q.que.Last().(Node)
-	q.RUnlock()
-	return n
+	defer q.RUnlock() // an empty queue panics
+	return q.que.Last().(Node)
 }
-- 
2.43.0


From 4e5d6b3e13624775de208cd11cd595306dd46135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:10 +0000
Subject: [PATCH 11/16] fix: keep the features of an input collection apart

---
 geometry/geojson.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/geometry/geojson.go b/geometry/geojson.go
index cd62b8b..45d1b81 100644
--- a/geometry/geojson.go
+++ b/geometry/geojson.go
@@ -49,7 +49,9 @@ func ReadInputConstraints(inputJsonFile string) []IGeometry {
 func parseInputLinearFeatures(inputs []string) []*Polyline {
 	var plns = make([]*Polyline, 0, len(inputs))
 
-	for idx, fjson := range inputs {
+	var idx = -1
+	for _, fjson := range inputs {
+		idx++
 		var jtype JSONType
 		var err = json.Unmarshal([]byte(fjson), &jtype)
 		checkError(err)
@@ -66,7 +68,10 @@ func parseInputLinearFeatures(inputs []string) []*Polyline {
 		} else if jtype.isFeatureCollectionType() {
 			feats, err := geojson.UnmarshalFeatureCollection([]byte(fjson))
 			checkError(err)
-			for _, feat := range feats.Features {
+			for i, feat := range feats.Features {
+				if i > 0 { // every feature of a collection is on its own
+					idx++
+				}
 				plns = append(plns, createPolylineGeoms(idx, feat)...)
 			}
 		}
-- 
2.43.0


From 8495b42f191a2f5354822a57020ca650ad874352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:55 +0000
Subject: [PATCH 12/16] fix: reject positions that lack x or y

---
 geometry/geojson.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/geometry/geojson.go b/geometry/geojson.go
index 45d1b81..402231a 100644
--- a/geometry/geojson.go
+++ b/geometry/geojson.go
@@ -140,11 +140,22 @@ func createIGeom(idx int, feat *geojson.Feature) []IGeometry {
 	return geometries
 }
 
+//checkPositions panics on a position that lacks x or y
+func checkPositions(positions ...[]float64) {
+	for _, v := range positions {
+		if len(v) < 2 {
+			checkError(fmt.Errorf("invalid position: %v", v))
+		}
+	}
+}
+
 func createPoint(jsonLine JSONPoint) Point {
+	checkPositions(jsonLine.Coordinates)
 	return CreatePoint(jsonLine.Id, jsonLine.Coordinates, jsonLine.Meta)
 }
 
 func createPolyline(jsonLine JSONLineString) *Polyline {
+	checkPositions(jsonLine.Coordinates...)
 	var coords = geom.AsCoordinates(jsonLine.Coordinates)
 	return CreatePolyline(jsonLine.Id, coords, jsonLine.Meta)
 }
@@ -152,6 +163,7 @@ func createPolyline(jsonLine JSONLineString) *Polyline {
 func createPolygon(jsonLine JSONPolygon) Polygon {
 	var coords = make([]geom.Coords, 0, len(jsonLine.Coordinates))
 	for _, array := range jsonLine.Coordinates {
+		checkPositions(array...)
 		coords = append(coords, geom.AsCoordinates(array))
 	}
 	return CreatePolygon(jsonLine.Id, coords, jsonLine.Meta)
-- 
2.43.0


From 79fc7eff538c546a5fbea1abdd3a71bc1f7d7c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:06 +0000
Subject: [PATCH 13/16] fix: keep numbers of properties as they are written

---
 encode.go           |  5 ++++-
 geometry/geojson.go | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index fe01c72..376e708 100644
--- a/encode.go
+++ b/encode.go
@@ -8,6 +8,7 @@ import (
 	"regexp"
 	"sort"
 	"strconv"
+	"strings"
 )
 
 var numRegx = regexp.MustCompile("[0-9]+")
@@ -79,7 +80,9 @@ func getMeta(g PolyGeom) map[string]interface{} {
 	if meta == "null" {
 		properties = make(map[string]interface{}, 0)
 	} else {
-		var err = json.Unmarshal([]byte(meta), &properties)
+		var decoder = json.NewDecoder(strings.NewReader(meta))
+		decoder.UseNumber() // keeps numbers as they are written
+		var err = decoder.Decode(&properties)
 		if err != nil {
 			panic(err)
 		}
diff --git a/geometry/geojson.go b/geometry/geojson.go
index 402231a..42e8c85 100644
--- a/geometry/geojson.go
+++ b/geometry/geojson.go
@@ -46,6 +46,18 @@ func ReadInputConstraints(inputJsonFile string) []IGeometry {
 	return parseConstraintFeatures(tokens)
 }
 
+//exactProperties - properties of a feature, with numbers as they are written
+type exactProperties struct {
+	Properties map[string]interface{} `json:"properties"`
+}
+
+//decodeExact decodes json without rounding numbers to float64
+func decodeExact(text string, v interface{}) {
+	var decoder = json.NewDecoder(strings.NewReader(text))
+	decoder.UseNumber()
+	checkError(decoder.Decode(v))
+}
+
 func parseInputLinearFeatures(inputs []string) []*Polyline {
 	var plns = make([]*Polyline, 0, len(inputs))
 
@@ -64,14 +76,20 @@ func parseInputLinearFeatures(inputs []string) []*Polyline {
 		} else if jtype.isFeatureType() {
 			feat, err := geojson.UnmarshalFeature([]byte(fjson))
 			checkError(err)
+			var exact exactProperties
+			decodeExact(fjson, &exact)
+			feat.Properties = exact.Properties
 			plns = append(plns, createPolylineGeoms(idx, feat)...)
 		} else if jtype.isFeatureCollectionType() {
 			feats, err := geojson.UnmarshalFeatureCollection([]byte(fjson))
 			checkError(err)
+			var exact struct{ Features []exactProperties }
+			decodeExact(fjson, &exact)
 			for i, feat := range feats.Features {
 				if i > 0 { // every feature of a collection is on its own
 					idx++
 				}
+				feat.Properties = exact.Features[i].Properties
 				plns = append(plns, createPolylineGeoms(idx, feat)...)
 			}
 		}
-- 
2.43.0


From 808c2d0b5b04c917bd00c6c9411ff63c4fb38b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:44 +0000
Subject: [PATCH 14/16] fix: skip features without a location

---
 geometry/geojson.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geometry/geojson.go b/geometry/geojson.go
index 42e8c85..48f8c88 100644
--- a/geometry/geojson.go
+++ b/geometry/geojson.go
@@ -128,6 +128,9 @@ func parseConstraintFeatures(inputs []string) []IGeometry {
 
 func createPolylineGeoms(idx int, feat *geojson.Feature) []*Polyline {
 	var geometries = make([]*Polyline, 0)
+	if feat.Geometry == nil { // unlocated feature
+		return geometries
+	}
 	if feat.Geometry.IsLineString() || feat.Geometry.IsMultiLineString() {
 		var objs = lineStringFromFeature(idx, feat)
 		for _, o := range objs {
@@ -139,6 +142,9 @@ func createPolylineGeoms(idx int, feat *geojson.Feature) []*Polyline {
 
 func createIGeom(idx int, feat *geojson.Feature) []IGeometry {
 	var geometries = make([]IGeometry, 0)
+	if feat.Geometry == nil { // unlocated feature
+		return geometries
+	}
 	if feat.Geometry.IsPoint() || feat.Geometry.IsMultiPoint() {
 		var objs = pointsFromFeature(idx, feat)
 		for _, o := range objs {
-- 
2.43.0


From b269b1d6d1bea2661be6a76e363f206a41b991ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:06 +0000
Subject: [PATCH 15/16] fix: a line does not come to fold back on itself

Two consecutive segments of a simplified line could come to lie on each
other although the stretches they replace meet at their common vertex only:
an end of the other within the segment of a hull is on its boundary, not
completely in its ring, and the hull was taken to be collapsible.
---
 node/collapse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node/collapse.go b/node/collapse.go
index ff900e0..de4177e 100644
--- a/node/collapse.go
+++ b/node/collapse.go
@@ -33,6 +33,10 @@ func (node *Node) Collapsible(other *Node) bool {
 	if c.Equals2D(t) {
 		t = bi
 	}
+	// other ends within the segment of node : they fold onto each other
+	if !t.Equals2D(ai) && !t.Equals2D(aj) && node.Segment().Intersects(t) {
+		return false
+	}
 	if ply, ok := node.Geom.Geometry().(*geom.Polygon); ok {
 		return !ply.Shell.PointCompletelyInRing(t)
 	}
-- 
2.43.0


From dfbd2848ae28330a823e018252ec135adc6078ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:06 +0000
Subject: [PATCH 16/16] fix: merging with prev is checked against next

A fragment that could not be merged with its next neighbour left that
neighbour out of the database while its merge with the previous one was
validated, and the merged hull could fold onto it.
---
 constdp/node_aggregates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/constdp/node_aggregates.go b/constdp/node_aggregates.go
index 891dce6..e6785b4 100644
--- a/constdp/node_aggregates.go
+++ b/constdp/node_aggregates.go
@@ -92,7 +92,7 @@ func (self *ConstDP) AggregateSimpleSegments(
 				merged = true
 			} else {
 				merged = false
-				insertList = append(insertList, *nxt)
+				db.Load([]node.Node{*nxt}) //a neighbour of the merge with prev
 			}
 		}
 
-- 
2.43.0

