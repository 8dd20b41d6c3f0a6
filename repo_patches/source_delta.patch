From 56b60467f3e93ef9cd80df0742cd51fe6908c3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 1/9] fix: keep the corner of the image in the Voronoi cell
 that contains it

A corner was only added to the clipped cell when the cell's outline crossed
both edges meeting at the corner (not counting crossings at its own vertices),
so cells reaching around a corner lost it and a single point had no cell.
---
 triangulation/incrdelaunay/voronoi.go | 48 +++++++++------------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/triangulation/incrdelaunay/voronoi.go b/triangulation/incrdelaunay/voronoi.go
index 913dac7..8cc1828 100644
--- a/triangulation/incrdelaunay/voronoi.go
+++ b/triangulation/incrdelaunay/voronoi.go
@@ -162,8 +162,6 @@ func (v *IVoronoi) processPoint(point Point) {
 	if clip {
 		v.newPolygon = v.newPolygon[:0]
 
-		intersections := [4]int{-1, -1, -1, -1}
-
 		for i := 0; i < len(v.points); i++ {
 			a := v.points[i]
 			b := v.points[(i+1)%len(v.points)]
@@ -174,7 +172,7 @@ func (v *IVoronoi) processPoint(point Point) {
 				v.newPolygon = append(v.newPolygon, a)
 			}
 
-			for j, e := range edges {
+			for _, e := range edges {
 				e0 := FloatPoint{
 					X: e[0].X * float64(v.w),
 					Y: e[0].Y * float64(v.h),
@@ -203,24 +201,18 @@ func (v *IVoronoi) processPoint(point Point) {
 					if new != e0 && new != e1 {
 						v.newPolygon = append(v.newPolygon, new)
 					}
-					intersections[j] += 1
 				}
 			}
 
 		}
 
-		for j, e := range edges {
-			i0 := intersections[j]
-			i1 := intersections[(j+1)%len(edges)]
-
-			if i0 != -1 && i1 != -1 {
-				corner := FloatPoint{
-					X: e[1].X * float64(v.w),
-					Y: e[1].Y * float64(v.h),
-				}
-				if polygonPointIntersect(v.points, corner) {
-					v.newPolygon = append(v.newPolygon, corner)
-				}
+		for _, e := range edges {
+			corner := FloatPoint{
+				X: e[1].X * float64(v.w),
+				Y: e[1].Y * float64(v.h),
+			}
+			if polygonPointIntersect(v.points, corner) {
+				v.newPolygon = append(v.newPolygon, corner)
 			}
 		}
 
@@ -378,8 +370,6 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 		if clip {
 			newPolygon = newPolygon[:0]
 
-			intersections := [4]int{-1, -1, -1, -1}
-
 			for i := 0; i < len(points); i++ {
 				a := points[i]
 				b := points[(i+1)%len(points)]
@@ -390,7 +380,7 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 					newPolygon = append(newPolygon, a)
 				}
 
-				for j, e := range edges {
+				for _, e := range edges {
 					e0 := FloatPoint{
 						X: e[0].X * float64(w),
 						Y: e[0].Y * float64(h),
@@ -419,24 +409,18 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 						if new != e0 && new != e1 {
 							newPolygon = append(newPolygon, new)
 						}
-						intersections[j] += 1
 					}
 				}
 
 			}
 
-			for j, e := range edges {
-				i0 := intersections[j]
-				i1 := intersections[(j+1)%len(edges)]
-
-				if i0 != -1 && i1 != -1 {
-					corner := FloatPoint{
-						X: e[1].X * float64(w),
-						Y: e[1].Y * float64(h),
-					}
-					if polygonPointIntersect(points, corner) {
-						newPolygon = append(newPolygon, corner)
-					}
+			for _, e := range edges {
+				corner := FloatPoint{
+					X: e[1].X * float64(w),
+					Y: e[1].Y * float64(h),
+				}
+				if polygonPointIntersect(points, corner) {
+					newPolygon = append(newPolygon, corner)
 				}
 			}
 
-- 
2.43.0


From 88cc21dad2dc67695b7449a742f75549fc6efa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 2/9] fix: copy the point counts in Delaunay.Set

NumPoints kept the count of the overwritten triangulation.
---
 triangulation/incrdelaunay/delaunay.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triangulation/incrdelaunay/delaunay.go b/triangulation/incrdelaunay/delaunay.go
index e40f55f..6e78178 100644
--- a/triangulation/incrdelaunay/delaunay.go
+++ b/triangulation/incrdelaunay/delaunay.go
@@ -299,6 +299,9 @@ func (d *Delaunay) Set(other *Delaunay) {
 
 	d.superTriangle = other.superTriangle
 
+	d.numPoints = other.numPoints
+	d.uniquePoints = other.uniquePoints
+
 	d.grid.Set(&other.grid)
 	d.pointMap.Set(&other.pointMap)
 }
-- 
2.43.0


From a79ef3a88ee096b96f74c73e9db53d10ebe8cc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 3/9] fix: convert images whose bounds do not start at the
 origin

ToData took the size and the pixels from (0, 0) to Bounds().Max.
---
 image/rgbdata.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/image/rgbdata.go b/image/rgbdata.go
index f422e87..ba44f6b 100644
--- a/image/rgbdata.go
+++ b/image/rgbdata.go
@@ -37,12 +37,13 @@ func NewData(w, h int) RGBData {
 
 // ToData converts an image.Image to a RGBData.
 func ToData(image image.Image) RGBData {
-	data := NewData(image.Bounds().Max.X, image.Bounds().Max.Y)
+	bounds := image.Bounds()
+	data := NewData(bounds.Dx(), bounds.Dy())
 
 	for y := range data.pixels {
 		for x := range data.pixels[y] {
 			col := &data.pixels[y][x]
-			r, g, b, _ := image.At(x, y).RGBA()
+			r, g, b, _ := image.At(bounds.Min.X+x, bounds.Min.Y+y).RGBA()
 
 			col.R = convertColor(r)
 			col.G = convertColor(g)
-- 
2.43.0


From c406f2b0b2359bff878cac69ab02d6ca8c5881d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 4/9] fix: widen the colour sums of pixel blocks

The 16-bit sums of an n by n block overflow for n of 17 and more.
---
 fitness/pixels.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fitness/pixels.go b/fitness/pixels.go
index 8a6360d..bdbefcd 100644
--- a/fitness/pixels.go
+++ b/fitness/pixels.go
@@ -61,7 +61,7 @@ type pixelDataN struct {
 
 // pixel stores RGB values of a pixel as well as the sum of their squares in a N*N block.
 type pixelN struct {
-	r, g, b uint16
+	r, g, b uint32
 	sq      uint32
 }
 
@@ -89,9 +89,9 @@ func fromImageN(image image.Data, n int) pixelDataN {
 			for i := 0; i < n; i++ {
 				for j := 0; j < n; j++ {
 					rgb := image.RGBAt(x+i, y+j)
-					col.r += uint16(rgb.R * 255)
-					col.g += uint16(rgb.G * 255)
-					col.b += uint16(rgb.B * 255)
+					col.r += uint32(rgb.R * 255)
+					col.g += uint32(rgb.G * 255)
+					col.b += uint32(rgb.B * 255)
 					col.sq += uint32(rgb.R*255*rgb.R*255 + rgb.G*255*rgb.G*255 + rgb.B*255*rgb.B*255)
 				}
 			}
-- 
2.43.0


From 237a65e6d1e17d6d7f61f2d9f5df5d35847cd513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:46 +0000
Subject: [PATCH 5/9] fix: accept images smaller than a pixel block

newPixelDataN panicked with a negative slice length when the image was more
than one pixel smaller than the block size.
---
 fitness/pixels.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fitness/pixels.go b/fitness/pixels.go
index bdbefcd..30b7c99 100644
--- a/fitness/pixels.go
+++ b/fitness/pixels.go
@@ -68,6 +68,10 @@ type pixelN struct {
 // newPixelDataN creates a new pixelDataN given a width and height.
 func newPixelDataN(w, h, n int) pixelDataN {
 	data := pixelDataN{}
+	if w < n || h < n {
+		return data // No block fits into the image
+	}
+
 	data.pixels = make([][]pixelN, h-n+1)
 
 	for i := range data.pixels {
-- 
2.43.0


From d63732ec312cc23ae9d7a3ff7da9dc09a478542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:46 +0000
Subject: [PATCH 6/9] fix: evaluate after a calculation that cached nothing

A calculation without triangles (collinear points, say) leaves an empty cache,
and the next calculation of the same function indexed into it.
---
 fitness/polygons.go  | 8 ++++++--
 fitness/triangles.go | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/fitness/polygons.go b/fitness/polygons.go
index a82df75..2560134 100644
--- a/fitness/polygons.go
+++ b/fitness/polygons.go
@@ -65,10 +65,14 @@ func (g *polygonsImageFunction) Calculate(data PointsData) float64 {
 
 	var difference float64
 
-	cacheMask := uint64(len(g.TriangleCache)) - 1
-
 	tris := g.TriangleCache
 
+	if len(tris) == 0 {
+		tris = make([]CacheData, 1) // The previous calculation had nothing to cache
+	}
+
+	cacheMask := uint64(len(tris)) - 1
+
 	var polygon geom.Polygon
 
 	var polygonData []int16
diff --git a/fitness/triangles.go b/fitness/triangles.go
index 648c7e8..08665ea 100644
--- a/fitness/triangles.go
+++ b/fitness/triangles.go
@@ -73,10 +73,14 @@ func (t *trianglesImageFunction) Calculate(data PointsData) float64 {
 
 	var difference float64
 
-	cacheMask := uint64(len(t.TriangleCache)) - 1
-
 	tris := t.TriangleCache
 
+	if len(tris) == 0 {
+		tris = make([]CacheData, 1) // The previous calculation had nothing to cache
+	}
+
+	cacheMask := uint64(len(tris)) - 1
+
 	area := 0.
 
 	t.Triangulation.IterTriangles(func(triangle incrdelaunay.Triangle) {
-- 
2.43.0


From 783a3ef32d02ed545f62f6f4de205126ceec691f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:23 +0000
Subject: [PATCH 7/9] fix: enclose 1x1 images in the super triangle

The super triangle of a 1x1 image touched the image, and its first vertex had
x = -1, the value that marks removed triangles: the first insertion panicked.
---
 triangulation/incrdelaunay/geom.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triangulation/incrdelaunay/geom.go b/triangulation/incrdelaunay/geom.go
index ec7a321..c32ec0d 100644
--- a/triangulation/incrdelaunay/geom.go
+++ b/triangulation/incrdelaunay/geom.go
@@ -34,6 +34,9 @@ func NewSuperTriangle(w, h int) Triangle {
 	if h > w {
 		max = int16(h)
 	}
+	if max < 2 {
+		max = 2 // With 1 the points of a 1x1 image would lie on an edge of the triangle
+	}
 	a := Point{hW - 2*max, hH - max}
 	b := Point{hW, hH + 2*max}
 	c := Point{hW + 2*max, hH - max}
-- 
2.43.0


From 9bf2a2ba1243dd7c6f1c916de1221551b3c3e1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:03 +0000
Subject: [PATCH 8/9] fix: keep cached shapes within caches smaller than the
 initial ones

---
 algorithm/evaluator/parallel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithm/evaluator/parallel.go b/algorithm/evaluator/parallel.go
index 67227bb..4320191 100644
--- a/algorithm/evaluator/parallel.go
+++ b/algorithm/evaluator/parallel.go
@@ -27,7 +27,7 @@ func (p *parallel) Update(i int) {
 
 	// Put triangles that have been calculated from the fitness function into the cache
 	for _, d := range eval.Cache() {
-		p.cache[d.CachedHash()] = d
+		p.cache[d.CachedHash()&uint32(len(p.cache)-1)] = d
 	}
 
 	eval.SetCache(p.cache)
-- 
2.43.0


From 5e6f1aa713d7ebdcb0f8d88f722f4c4a93a13748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:39 +0000
Subject: [PATCH 9/9] fix: members without combined mutations stay out of the
 next generation

A member without beneficial mutations was given fitness 0 to leave it out of the
next generation, but a fitness can be 0 (points that form no triangle). Such members
could then be sorted among the others, and their fitness function, which still uses
an older cache, read it while the evaluator was writing to it.
---
 algorithm/modifiedgenetic.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/algorithm/modifiedgenetic.go b/algorithm/modifiedgenetic.go
index 7d9d165..d483eab 100644
--- a/algorithm/modifiedgenetic.go
+++ b/algorithm/modifiedgenetic.go
@@ -6,6 +6,7 @@ import (
 	"github.com/RH12503/Triangula/mutation"
 	"github.com/RH12503/Triangula/normgeom"
 	"github.com/panjf2000/ants/v2"
+	"math"
 	"sort"
 	"time"
 )
@@ -199,8 +200,8 @@ func (g *modifiedGenetic) combineMutations() {
 			g.evaluator.Update(i)
 		} else {
 			// If there aren't any beneficial mutations, leave the member out of the next generation by setting
-			// its fitness to 0
-			g.fitnesses[i].Fitness = 0
+			// its fitness below that of every other member
+			g.fitnesses[i].Fitness = math.Inf(-1)
 		}
 	}
 }
@@ -262,6 +263,11 @@ func NewModifiedGenetic(newPointGroup func() normgeom.NormPointGroup, size int,
 
 	algo.fitnesses = make([]FitnessData, len(algo.population))
 
+	// The members for the combined mutations don't have a fitness yet, and they have to stay at the end
+	for i := size - cutoff; i < size; i++ {
+		algo.fitnesses[i].Fitness = math.Inf(-1)
+	}
+
 	algo.mutations = make([][]mutation.Mutation, len(algo.population))
 	algo.beneficialMutations = make([]MutationsData, cutoff)
 
-- 
2.43.0

