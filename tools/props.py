#!/usr/bin/env python3
"""Writes /verif/properties.jsonl, /verif/MANIFEST.json and /verif/engine/bounds.go from one table."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ID = "triangulation/incrdelaunay/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, level="model_checking", bounds=(), assume=(), note="", tech="symbolic execution of the Go SSA; SMT (z3) decides every assertion", na=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, level=level, bounds=list(bounds), assume=list(assume), note=note, tech=tech, na=na, state=state))

gen5 = "images from 1x1 to 3000x2000 pixels, up to 9 fixed points"
prop("C01", "Inserting any point yields the Delaunay triangulation",
 "After any insertion, the triangles reported by the incremental triangulation are a Delaunay triangulation of the distinct points inserted: every vertex is one of the points, no triangle is flat, no point lies strictly inside the circumcircle of a triangle, triangles never overlap, and no region that the points surround is left without a triangle. The number of points counts every insertion, duplicates included.",
 ["inputs"], "every point of an image inserted on top of every listed point set",
 "The tests insert one or two fixed sets of points; duplicates, collinear and cocircular points, points on the border and circumcircles that cross cells of the search grid are not sampled.",
 [ID+"delaunay.go", ID+"geom.go", ID+"grid.go"],
 [("Bowyer-Watson insertion: circumcircles that contain the point are removed, the hole is filled from its boundary", ID+"delaunay.go Insert"),
  ("search grid of circumcircles", ID+"grid.go"), ("circumcircle in integers and float32", ID+"geom.go NewTriangle")],
 ["(*Delaunay).IterTriangles", "(*Delaunay).NumPoints"],
 bounds=["one symbolic point: any pixel of 10x10, 7x3 and 1x1 images, lattices of up to 31x31 pixels (interior, both ends of the border, across a grid cell) of 640x480, 1000x1000 and 3000x2000 images", "prefixes of 0 to 9 fixed points: general, collinear, a square grid (cocircular), corners", "30 (thorough 200) generated configurations: images 18x23 to 5000x3000, 5 to 10 scattered points, the symbolic point anywhere in a 5x5 place, three more points after it", "150 to 400 fixed points and one anywhere on a lattice of a 1000x700 or larger image (thorough: more scripts)", "hundreds of insertions, removals and copies among a dozen points, then an arbitrary point", "an arbitrary point in the middle of a ring of 20 to 270 points, all of them neighbours"],
 assume=["coverage near the hull is claimed for circles that do not contain a corner of the enclosing triangle (the algorithm drops triangles that touch it)"],
 note="Bounded: one symbolic insertion after fixed prefixes; longer symbolic histories in C02.")
prop("C02", "The triangulation stays Delaunay through any history of changes",
 "Whatever sequence of insertions and removals (duplicates, points inserted again, removal down to nothing) led to it, the triangulation reported is a Delaunay triangulation of exactly the points inserted and not removed. A point inserted k times disappears only with its k-th removal.",
 ["histories", "inputs"], "sequences of up to four symbolic operations after fixed prefixes; every removal target; symbolic points",
 "The test for removal removes one fixed point; the ear clipping of the hole, the reuse of freed triangles and duplicates depend on the whole history.",
 [ID+"delaunay.go", ID+"pointmap.go", ID+"grid.go", ID+"geom.go"],
 [("removal by ear queue: the hole is closed ear by ear in order of the power of its circumcircle", ID+"delaunay.go Remove"), ("points counted with multiplicity", ID+"pointmap.go"), ("free list of triangle slots", ID+"delaunay.go addTriangle/markFreeTriangle")],
 ["(*Delaunay).IterTriangles", "(*Delaunay).NumPoints"],
 bounds=["7 configurations (10x10, 1000x700, 1000x1000 images; 0 to 9 fixed points: general, collinear, square grid, cross), one or two symbolic points on lattices of up to 121 pixels", "6 scripts: insert+remove; insert+remove any; two inserts+remove any; triple insertion and removal; remove, insert, remove; remove everything and rebuild", "12 (thorough 60) generated configurations of 5 to 10 scattered points, images up to 5000x3000", "removal of a point of degree 7 to 12 in the middle of an irregular ring turned by any of 16 angles", "removals and 300 copies of one point among 150 to 400 points", "hundreds of insertions, removals and copies among a dozen points, then an arbitrary point", "an arbitrary point in the middle of a ring of 20 to 270 points, all of them neighbours"],
 note="Bounded histories; unbounded histories are outside the claim.")
prop("C03", "Copies of a triangulation are equal and independent",
 "Setting one triangulation to another makes it report the same triangles and number of points, whatever it held before. From then on, any change to either leaves the other exactly as it was, and each stays a Delaunay triangulation of its own points.",
 ["histories", "inputs"], "scripts that copy between triangulations with different histories and change either side; symbolic points and removal targets",
 "The only test of Set copies a fresh triangulation once; shared backing arrays only show when a particular side is changed after a particular history.",
 [ID+"delaunay.go", ID+"grid.go", ID+"pointmap.go"],
 [("element-wise copy of triangles, grid, points and free list", ID+"delaunay.go Set"), ("grid copy with reuse of capacity", ID+"grid.go Set"), ("point map copy", ID+"pointmap.go Set")],
 ["(*Delaunay).Set", "(*Delaunay).IterTriangles"],
 bounds=["the 7 configurations of C02; 7 scripts: copy then change the copy / the original / both, over a fresh or a used target, back and forth, from an empty triangulation", "8 (thorough 40) generated configurations with 10 scripts", "a copy of a triangulation of 150 to 400 points", "hundreds of insertions, removals and copies among a dozen points, then an arbitrary point", "an arbitrary point in the middle of a ring of 20 to 270 points, all of them neighbours"],
 note="Bounded histories.")
prop("C04", "Point queries answer for exactly the points present",
 "After any history of insertions, removals and copies, the triangulation says that it has a point exactly when the point was inserted more often than removed, and the number of points is the number of insertions minus removals. The closest point it returns for a location is one of its points, and none of its points is closer.",
 ["histories", "inputs"], "any query location (of a lattice) after scripts with symbolic points and removals",
 "The tests ask for one location of one set; the search visits buckets ring by ring, so errors depend on where points and queries lie relative to the buckets.",
 [ID+"pointmap.go", ID+"grid.go", ID+"delaunay.go"],
 [("hash buckets of points", ID+"pointmap.go"), ("search for the closest point", ID+"delaunay.go GetClosestTo"), ("membership", ID+"delaunay.go HasPoint")],
 ["(*Delaunay).HasPoint", "(*Delaunay).GetClosestTo", "(*Delaunay).NumPoints"],
 bounds=["7 configurations x 4 scripts; query anywhere on a lattice of up to 121 pixels, one symbolic point, any removal target", "10 (thorough 60) generated configurations", "queries among 150 to 400 points, and with 300 copies of a point", "hundreds of insertions, removals and copies among a dozen points, then an arbitrary point"],
 note="Bounded histories.")
prop("C05", "Voronoi cells partition the image by nearest point",
 "The polygons reported for a triangulation are the Voronoi cells of its distinct points, clipped to the image: one cell for each point, no cell leaving the image, every corner of a cell at least as close to its own point as to any other, and together covering the image exactly once.",
 ["inputs", "histories"], "one or two symbolic points on top of fixed sets, removals included; border, corner, cocircular and collinear positions",
 "There is a single test with fixed points; clipping at the border depends on where the circumcenters fall relative to edges and corners of the image.",
 [ID+"voronoi.go", ID+"delaunay.go"],
 [("sorting circumcenters around the point, clipping at the four edges, adding corners", ID+"voronoi.go Voronoi")],
 ["Voronoi"],
 bounds=["7 configurations (10x8, 10x10, 300x200, 1000x700, 1000x1000 images; 0 to 9 fixed points), 3 scripts (insert; insert two, one twice; insert and remove any)", "20 (thorough 100) generated configurations of 5 to 13 scattered points", "140 fixed points and an arbitrary one", "an arbitrary point in the middle of a ring of 20 to 140 points, all of them neighbours"],
 assume=["distances are compared with a tolerance of 0.05*(w+h) squared pixels, areas with 0.01*(w+h): circumcenters are computed in float32"],
 note="Bounded; floating point computed exactly as the code does (no real-number abstraction).")
prop("C06", "The incremental Voronoi diagram stays correct through changes",
 "After any history of insertions, removals and copies, the cells reported by the incremental diagram are the Voronoi cells of exactly the points present, clipped to the image. A copy reports the cells of the original at the time of copying and is independent of it afterwards.",
 ["histories", "inputs"], "scripts of insertions, removals and copies with symbolic points and removal targets",
 "No test exercises removal or copying of the incremental diagram; stale cells only show for particular neighbours of a changed point.",
 [ID+"voronoi.go", ID+"polygonmap.go", ID+"delaunay.go"],
 [("cells of all points whose triangles change are recomputed", ID+"voronoi.go Insert/Remove"), ("cells by point", ID+"polygonmap.go")],
 ["(*IVoronoi).IterPolygons"],
 bounds=["7 configurations, 6 scripts (insert; insert two with a duplicate; insert and remove any; then insert another; copy and change either side)", "7 (thorough 40) generated configurations of 5 to 13 scattered points", "140 fixed points, one of them or an arbitrary one removed or copied", "hundreds of insertions, removals and copies among a dozen points, then an arbitrary point", "an arbitrary point in the middle of a ring of 20 to 140 points, all of them neighbours"],
 assume=["tolerances as in C05"], note="Bounded histories.")
prop("C07", "Block rasterization covers the same pixels as line rasterization",
 "For every triangle inside an image and every block size, the rows and blocks reported by the block rasterizer together cover exactly the pixels that the line rasterizer covers. No pixel is covered twice by either.",
 ["inputs", "configurations"], "all triangles with vertices on pixel corners of several images, block sizes 1 to 3 quick (5 thorough)",
 "The test compares one triangle; the block decomposition depends on slopes, on vertex order and on how rows divide by the block size.",
 ["rasterize/blocks.go", "rasterize/lines.go"],
 [("rows are grouped into blocks where the triangle is wide enough, the rest is filled with lines", "rasterize/blocks.go normalTriangleBlocks"), ("lines", "rasterize/lines.go")],
 ["rasterize.DDATriangleBlocks", "rasterize.DDATriangleLines"],
 bounds=["all triangles with vertices in [0,w]x[0,h]: images 8x6 (blocks 2), 9x5 (3), 6x6 (1), 12x7 (2), 13x9 (3), 16x9 (4)", "the x coordinates and the pixel compared are symbolic, the y coordinates are split into cases", "42 (thorough 201) generated configurations: two fixed vertices, the third anywhere in a 12x8 region, larger images, block sizes 1 to 8", "the pixel rasterizer against the line rasterizer for all triangles of three images", "images more than 256, 512 and 1024 pixels wide or high"],
 note="Complete for the listed sizes and block sizes.")
prop("C08", "Shapes that share edges cover every pixel exactly once",
 "When an image is cut into triangles or convex polygons that share edges, every pixel of the image is covered by exactly one of them, and none covers a pixel outside. The pixels of a triangle are those whose row it crosses, up to rounding of at most one pixel at its edges, whatever the order of its vertices.",
 ["inputs"], "images cut around an arbitrary point, with vertices in any order; all triangles of small images",
 "The tests rasterize a few triangles one at a time, so gaps and double coverage between neighbours are invisible to them.",
 ["rasterize/lines.go", "rasterize/pixels.go", "rasterize/polygon.go", "rasterize/blocks.go"],
 [("DDA with half-open rows and columns", "rasterize/lines.go"), ("polygons as fans of triangles", "rasterize/polygon.go")],
 ["rasterize.DDATriangleLines", "rasterize.DDATriangleBlocks", "rasterize.DDAPolygon", "rasterize.DDAPolygonBlocks"],
 bounds=["an image is cut into 8 triangles or 3 polygons around a symbolic point: images from 9x40 to 8000x3, block sizes 0 (lines), 2, 3, 8", "coverage against the exact triangle for all triangles of images up to 20x9", "14 (thorough 201) generated subdivisions each: an image cut by 2 to 5 fixed points and one anywhere in a 13x7 region; polygons of 4 to 10 corners cut around any point of a 9x5 region; block sizes 0 to 7", "images more than 256, 512 and 1024 pixels wide or high", "polygons of 36 corners"],
 note="Bounded sizes.")
prop("C09", "Triangle fitness is the stated measure of the image difference",
 "The fitness of a group of points is 1 minus the normalised difference between the image and its triangulation, where every triangle takes the mean colour of its pixels (squared differences summed over the three channels) and every pixel area outside the triangulation counts as the largest possible difference. It does not depend on the block size, and lies between 0 and 1.",
 ["inputs", "configurations"], "a symbolic point or symbolic colours on top of fixed points and images; several block sizes",
 "The tests check two constant images with one set of points; sums over blocks and partial blocks, blank area and rounding of points need not agree with the formula elsewhere.",
 ["fitness/triangles.go", "fitness/pixels.go", "fitness/util.go"],
 [("variance from sums and sums of squares per block and per pixel", "fitness/triangles.go Calculate"), ("block sums", "fitness/pixels.go fromImageN"), ("points rounded to pixel corners", "fitness/util.go createPoint")],
 ["fitness.NewTrianglesImageFunction", "fitness.TrianglesImageFunctions", "Calculate"],
 bounds=["8 images from 7x5 to 40x30, block sizes 1, 2, 3, 4, 9, 17, up to 6 fixed points and one symbolic point on a 17x17 or 12x12 lattice of normalised coordinates; or 3 symbolic colour channels", "40 (thorough 301) generated pictures of noise, black and white, flat and gradients with 3 to 8 points, one of them anywhere in a 13x13 region, one symbolic colour, block sizes 1 to 7", "three pictures whose sums need more than 32 bits", "images more than 256 to 1024 pixels wide or high, blocks of up to 34 pixels"],
 assume=["no four points (one of them possibly a corner of the enclosing triangle) on a circle: the triangulation is unique", "tolerance 6e-6 (the code rounds to float32 in places)"],
 note="The reference formula uses the repository's own triangulation and rasterizer, which C01-C08 decide.")
prop("C10", "Incremental and cached triangle fitness equals a fresh evaluation",
 "For every sequence of evaluations, the fitness computed from the base of a member and its mutations, with whatever earlier evaluations left in the shared cache and of whatever size the cache is, equals the fitness of the same points computed from scratch by a function never used before.",
 ["histories", "inputs", "configurations"], "scripts of evaluations over up to three generations with symbolic points, mutated indices and cache sizes",
 "No test evaluates twice with a base, mutations or a cache; stale or colliding cache entries need particular pairs of triangles.",
 ["fitness/triangles.go", "fitness/cache.go", "algorithm/evaluator/parallel.go"],
 [("triangulation copied from the base, mutated points moved", "fitness/triangles.go Calculate"), ("cache entries matched by all vertices", "fitness/cache.go Equals"), ("cache slots by masked hash", "algorithm/evaluator/parallel.go Update")],
 ["CacheFunction.Calculate", "evaluator.NewParallel"],
 bounds=["6 configurations (12x10 to 256x8 images, caches of 1 to 1024 slots), 4 scripts of up to 3 generations, symbolic points and mutated index", "32 (thorough 301) generated runs of three generations of five members with random bases, mutations, swaps and caches of 1 to 1024 slots, one symbolic mutation target and colour", "a cache with one shape of another evaluation, for 36 pairs of groups that differ in a single coordinate", "90 to 150 points over three generations; a cached shape that lies 256, 512 or 768 pixels away from the one evaluated, in one corner or in all", "300 to 530 generations of a few points, one mutation in the last arbitrary", "an arbitrary point in the middle of a ring of 18 to 70 points, all of them neighbours"],
 assume=["no four points on a circle (see C09)", "tolerance 1e-9"], note="Bounded histories.")
prop("C11", "Polygon fitness is the stated measure, also incrementally and cached",
 "The polygon fitness of a group of points is 1 minus the normalised difference between the image and its Voronoi cells, each filled with the mean colour of its pixels. Evaluating it incrementally from a base with mutations and with whatever the shared cache holds gives the same value as evaluating the points from scratch.",
 ["inputs", "histories", "configurations"], "as C09 and C10, for polygons",
 "No test covers the polygon fitness at all.",
 ["fitness/polygons.go", "fitness/cache.go", ID+"voronoi.go", "rasterize/polygon.go"],
 [("cells rounded to pixel corners, variance by blocks", "fitness/polygons.go Calculate"), ("cache entries matched by all corners", "fitness/cache.go Equals")],
 ["fitness.PolygonsImageFunctions", "Calculate"],
 bounds=["as C09 and C10", "generated pictures and runs as in C09 and C10", "a cache with a single polygon of another evaluation, among them polygons with the same hash and polygons that are a prefix of another", "90 to 150 points over three generations; a cached polygon that lies 256 pixels away", "300 to 530 generations of a few points, one mutation in the last arbitrary", "an arbitrary point in the middle of a ring of 18 to 70 points, all of them neighbours"], assume=["as C09 and C10"], note="Bounded.")
prop("C12", "The best points and fitness reported are the best evaluated, and never get worse",
 "After every generation of either algorithm, the best fitness reported is the largest fitness evaluated in that generation, it is the fitness of the best points reported, and it never decreases. The groups mutated next are the best groups of the previous generation (as many as the cutoff), each unchanged survivor and each child is evaluated again, and children are spread evenly over the survivors.",
 ["inputs", "schedules", "configurations"], "all fitness values (symbolic) of all groups, all completion orders of the workers in the generations listed, population sizes 3 to 7",
 "There are tests of sorting with fixed fitnesses only; the outcome depends on the order in which workers finish and on ties.",
 ["algorithm/simple.go", "algorithm/modifiedgenetic.go", "algorithm/data.go"],
 [("sorting by fitness together with population and evaluators", "algorithm/simple.go, algorithm/modifiedgenetic.go updateFitnesses/Swap"), ("survivors copied, children mutated from them", "newGeneration")],
 ["Best()", "Stats()"],
 bounds=["population 3 to 7, cutoff 1 or 2, 1 to 3 generations, 1 or 2 points per group; fitness of every possible group is one of 8 symbolic values; mutated points symbolic", "all completion orders of the workers in one generation per configuration", "population 24 with sorting by partition, two cutoffs, three generations, most fitnesses zero", "up to 40 generations and populations of up to 300 of which a few fitnesses are symbolic", "280 generations; groups of up to 300 points"],
 assume=["fitness functions are deterministic and not negative (the repository's are)", "size > 2*cutoff for the modified algorithm", "workers are interleaved at blocking points; a pool worker runs its task to completion (data races are C14)"],
 note="Bounded sizes and generations.")
prop("C13", "Beneficial mutations of a group are combined, best first",
 "In every generation of the modified genetic algorithm, for each surviving group with at least one child of higher fitness, a group is evaluated that is the survivor with, for every point that such a child moved, the move made by the fittest such child. Groups without better children contribute no combined group.",
 ["inputs", "schedules"], "all fitness values, all subsets of mutated points, all completion orders in the generations listed",
 "The only test of combining is with one fixed order of results; which move wins depends on the order in which results arrive.",
 ["algorithm/modifiedgenetic.go", "algorithm/data.go"],
 [("beneficial mutations collected as results arrive, replaced by fitter ones", "algorithm/modifiedgenetic.go setBeneficial"), ("combined member evaluated from its base", "combineMutations")],
 ["fitness functions' view: the groups evaluated in a generation"],
 bounds=["population 4 to 7, cutoff 1 or 2, 1 or 2 generations, 1 or 2 points per group, fitnesses of 8 symbolic values", "all completion orders in one generation of the configurations with one", "up to three points per group, all of them moved", "up to 40 generations and populations of up to 300 of which a few fitnesses are symbolic", "280 generations; groups of up to 300 points that move together in blocks"],
 assume=["as C12"], note="Bounded.")
prop("C14", "Members are evaluated from their own base, without data races",
 "Through every generation and every reordering of the population, each fitness function is asked to evaluate the group whose base and mutations it was told about: its base's last group with the mutations reported gives exactly the group to evaluate, and each is asked at most once per generation. No schedule of the workers lets two goroutines access the same memory without synchronisation, and none leaves a generation unfinished.",
 ["schedules", "histories"], "all completion orders of the listed generations, symbolic fitnesses and mutations; happens-before race detection on every path",
 "A mix-up between members only shows when sorting moves evaluators and groups differently, and races depend on schedules that a test run does not choose.",
 ["algorithm/simple.go", "algorithm/modifiedgenetic.go", "algorithm/evaluator/parallel.go"],
 [("evaluators swapped together with members", "algorithm/evaluator/parallel.go Swap"), ("two caches: one read by workers, one written by the collector", "algorithm/evaluator/parallel.go Prepare/Update"), ("buffered result channel", "calculateFitnesses")],
 ["CacheFunction calls", "Step()"],
 bounds=["as C12; caches of 1 to 8 slots; vector-clock race detection on all accesses of interpreted code", "populations of 24 and 32, three generations, most fitnesses zero (groups that form no triangle)", "up to 40 generations and populations of up to 300 of which a few fitnesses are symbolic", "280 generations; groups of up to 300 points"],
 assume=["the pool (ants) runs every submitted task exactly once, concurrently with the submitter", "as C12"], note="Bounded.")
prop("C15", "Mutations stay in the unit square and are reported exactly",
 "Every mutation method leaves all points inside the unit square and reports, exactly once for each point it changes, its index, its position before and its position after; points not reported are unchanged. A point is moved with the given probability, each coordinate on its own: by the random method uniformly up to half the amount either way, by the gaussian method by a normal deviate of half the amount (nothing at a rate or amount of zero, everything at a rate of one).",
 ["inputs"], "all random draws (symbolic) and symbolic positions of points",
 "The tests draw some random numbers; clamping at the border, draws at the ends of their range and rejections inside the normal generator are rare.",
 ["mutation/random.go", "mutation/gaussian.go", "normgeom/normpoint.go", "random/random.go"],
 [("clamping", "normgeom/normpoint.go Constrain"), ("old and new reported around the change", "mutation/*.go Mutate")],
 ["mutation.Method.Mutate"],
 bounds=["groups of 1 to 3 points; draws on a grid of 4 to 64 values (uniform) or 4 to 16 values of 32 bits (normal), all combinations; at most one rejected draw more than needed (two or three thorough)", "groups of 4 to 40 points of which one to three are decided by symbolic draws", "what must be possible: every point can move in each of the four diagonal directions by a fifth of the amount", "groups of 700 points of which a few are moved by symbolic draws"],
 assume=["the bound on the size of a normal move is 12 standard deviations"],
 note="Bounded draws.")
prop("C16", "Generated points are uniform draws, spaced ones never come closer",
 "The random generator returns exactly the number of points asked for, every coordinate an independent uniform draw inside the unit square. The spaced generator starts from such points and moves them, by steps that start at half the square and shrink, only so that the smallest distance between two points never decreases; normal deviates fall into the layers under the bell curve, as the ziggurat method prescribes. Integer draws lie below their bound and can take every value, fractions lie between zero and one.",
 ["inputs"], "all random draws (symbolic) for up to 3 points and 3 iterations; all layers and signs of the normal generator",
 "Tests only check the length of what is generated; the outcome depends on the draws.",
 ["generator/random.go", "generator/spaced.go", "random/random.go"],
 [("independent draws", "generator/random.go Generate"), ("a candidate replaces a point only when it lies farther from the others", "generator/spaced.go Generate"), ("ziggurat tables", "random/random.go NormFloat64")],
 ["Generator.Generate", "random.NormFloat64"],
 bounds=["1 to 4 points, draws on a grid of 2 to 16 values; spaced: up to 3 points and 3 iterations; ziggurat: every layer and sign, 6 positions within the layer", "5 to 64 points (spaced: up to 9 points, 6 iterations) of which some draws are symbolic", "the wedges of the ziggurat against the exact bell curve, the tail by its two exponential draws", "integer draws: bounds 1 to 2^31-1, all 32-bit values, at most two rejections", "groups of 900 points (random generator)"],
 note="Bounded draws.")
prop("C17", "Images are converted pixel by pixel, wherever their bounds start",
 "Converting an image gives data of the size of its bounds, in which the colour at (x, y) is the high byte of each channel of the image's pixel at that offset from the corner of its bounds, divided by 255. This holds for every image type and for parts of larger images, and nothing outside the bounds is read.",
 ["inputs"], "all colours (symbolic 8- or 16-bit channels) and positions of the bounds, for an arbitrary image and six types of the standard library",
 "No test converts an image; sub-images and 16-bit colours are unusual inputs.",
 ["image/rgbdata.go", "image/data.go"], [("conversion", "image/rgbdata.go ToData")], ["image.ToData", "RGBData.RGBAt", "RGBData.Size"],
 bounds=["images up to 3x2 pixels, bounds starting anywhere in [-2,1]x[-2,1], all channel values", "larger images (up to 300x1, 40x9) of fixed colours at four corners of their bounds, 13 types of the standard library", "images more than 1024 pixels wide or high of fixed colours"], note="Bounded image sizes.")
prop("C18", "Rendered shapes take the mean colour of the pixels they cover",
 "Rendering triangles or polygons onto an image returns one coloured shape for each, in order: its corners divided by the size of the image, and the mean colour of the pixels it covers. A shape that covers no pixel takes the mean colour of the pixels at its corners, and no pixel outside the image is ever read.",
 ["inputs"], "all triangles, and quadrilaterals with two arbitrary corners, of several images",
 "The test renders one triangle onto an empty image, so colours and shapes without pixels are never seen.",
 ["render/triangles.go", "render/polygons.go", "color/color.go", "geom/triangle.go", "geom/polygon.go", "rasterize/pixels.go"],
 [("average over the rasterized pixels, fallback to the corners", "render/triangles.go, render/polygons.go"), ("running average", "color/color.go")],
 ["render.TrianglesOnImage", "render.PolygonsOnImage"],
 bounds=["all triangles of images 4x3, 1x1, 7x2, 2x2, 1x6 (quick), 3x5, 5x4, 9x3 (thorough); polygons of 3 to 5 corners, one or two of them symbolic", "12 (thorough 121) generated lists of 3 to 6 triangles and 14 (121) of 2 to 4 polygons of 3 to 9 corners on pictures of noise, one corner symbolic", "the running average of up to four symbolic colours", "images more than 256 to 1024 pixels wide or high, one corner symbolic", "polygons of 30 to 59 corners"], assume=["tolerance 1e-9", "which pixels a shape covers is decided by C08"], note="Bounded image sizes.")
prop("C19", "Shapes shown for a group of points match the image exactly",
 "Triangulating a group of points for display gives a Delaunay triangulation of the points rounded to pixel corners that covers their convex hull. Polygonating it gives one polygon per distinct rounded point, with corners rounded to pixels, nearest to that point and together covering the image.",
 ["inputs"], "one to three symbolic points on top of fixed sets, duplicates, collinear and cocircular ones included, in either order",
 "The tests triangulate three fixed points; no test polygonates.",
 ["triangulation/triangulator.go", "polygonation/polygonate.go", ID+"voronoi.go"],
 [("rounding to pixels and triangulation by fogleman/delaunay", "triangulation/triangulator.go Triangulate"), ("Voronoi cells with rounded corners", "polygonation/polygonate.go Polygonate")],
 ["triangulation.Triangulate", "polygonation.Polygonate"],
 bounds=["10 configurations (1x1 to 2000x1999 images, 0 to 11 fixed points), one to three symbolic points on lattices of up to 289 positions, symbolic points first or last", "20 generated configurations (thorough 150)", "images more than 1000 pixels wide with tens of points"],
 assume=["area of the polygons up to half the longer side of the image, in pixels: an edge may be rounded in two ways"], note="Bounded.")
prop("C20", "Points and shapes keep their value when copied, scaled and cut",
 "A copy of a point group is equal to the original and independent of it, setting a group to another makes it equal (and is refused for another length), and constraining a point clamps it to the unit square. Normalised corners are the corners divided by the size of the image, the triangles a polygon is cut into have its corners and its area, the area of a polygon is what its corners enclose, rounded, and evaluators that hand out one function per member or one for all keep doing so whatever the algorithm reports to them.",
 ["inputs", "histories"], "symbolic coordinates; all sequences of three evaluator operations",
 "Tests check one value each.",
 ["normgeom/normpoint.go", "geom/point.go", "geom/triangle.go", "geom/polygon.go", "algorithm/evaluator/evaluators.go", "triangulation/triangulator.go"],
 [("copies", "normgeom/normpoint.go Copy/Set"), ("clamping", "normgeom/normpoint.go Constrain"), ("scaling", "geom/*.go ToNorm"), ("functions by member", "algorithm/evaluator/evaluators.go")],
 ["NormPointGroup", "geom.Polygon", "evaluator.NewOne", "evaluator.NewMany"],
 bounds=["groups of up to 3 points with coordinates in [-1,2] by eighths; shapes of 3 to 5 corners; up to 3 members", "polygons of 6 to 12 corners, one of them symbolic", "polygons of 20 to 70 corners, one of them symbolic"], note="Bounded.")
prop("C21", "A whole run reports the true fitness of its best points",
 "When either algorithm runs with the repository's own fitness functions, mutations and shared caches, then after every generation and for every order in which its workers finish, the best fitness it reports is what a fresh evaluation of the best points gives, and it never decreases. No two workers touch the same memory without synchronisation, and every generation ends.",
 ["schedules", "inputs", "configurations", "histories"], "all completion orders of the workers in the generations listed, symbolic colours of the picture, all choices of the mutator among listed moves",
 "The tests run the parts alone; stale caches, bases or triangulations show only through particular generations of the whole.",
 ["algorithm/simple.go", "algorithm/modifiedgenetic.go", "algorithm/evaluator/parallel.go", "fitness/triangles.go", "fitness/polygons.go", ID+"delaunay.go", ID+"voronoi.go"],
 [("evaluators and caches follow the population", "algorithm/evaluator/parallel.go"), ("incremental evaluation", "fitness/triangles.go, fitness/polygons.go")],
 ["Stats().BestFitness", "Best()"],
 bounds=["populations of 3 to 6 groups of 5 points, cutoff 1 or 2, 1 or 2 generations, images 9x7 and 13x8 with one symbolic colour (16 values), 2 to 4 places for mutated points, caches of 1 to 32 slots", "16 (thorough 201) generated runs of 2 or 3 generations: 3 to 8 points, populations 3 to 7, one symbolic colour and one symbolic mutation target", "the default algorithm of the package (400 members, 2^22 cache slots) on two pictures of 6x5 and 7x7 pixels (thorough six), 3 to 5 points, one symbolic draw, one generation"],
 assume=["equality with a fresh evaluation is claimed for best points no four of which lie on a circle", "the pool runs every task once"], note="Bounded.")
prop("C22", "The order in which workers finish does not change the result of a run",
 "Two runs of an algorithm with the same initial groups, the same mutations and the same fitness functions report the same best points, the same best fitness and the same number of generations after every generation, in whatever order the workers of either run finish. For the modified genetic algorithm this is claimed when no two different groups have the same fitness.",
 ["schedules", "inputs"], "all completion orders of the workers of the generations listed, all fitness values, all subsets of mutated points",
 "A test run sees one order of completion, usually the order of submission; a dependence on the order makes runs irreproducible only now and then.",
 ["algorithm/simple.go", "algorithm/modifiedgenetic.go"],
 [("results are stored by the index of the member", "algorithm/simple.go, algorithm/modifiedgenetic.go calculateFitnesses"), ("of two beneficial mutations of a point the fitter one is kept, whichever arrives first", "algorithm/modifiedgenetic.go setBeneficial")],
 ["Best()", "Stats()"],
 bounds=["population 3 to 6, cutoff 1 or 2, up to 2 generations, 1 or 2 points per group, fitnesses of 17 symbolic values", "all completion orders in one or two generations of each configuration, against a run whose workers finish in the order they were started in"],
 assume=["as C12; workers do not share state except through the results (C14 and C21 decide that)"], note="Bounded.")
prop("C23", "Saved output holds the best points of the last report",
 "While an algorithm runs with its output saved, after every given number of generations the file holds exactly the best points at that time, in a form that can be read back to the same points, replacing whatever the file held before; the statistics file has one line for each report so far, with its generation and best fitness. A run that only prints its progress prints such a line after every given number of generations.",
 ["histories", "inputs"], "all best points (symbolic coordinates) of up to seven generations, one to four generations per report, files that exist already",
 "No test writes output.", ["utils/output.go", "utils/fitness.go"],
 [("points written as JSON after every report, statistics appended and flushed", "utils/output.go GenerateAlgorithmOutput")], ["output file", "output file -stats", "standard output"],
 bounds=["up to 7 generations, 1 to 4 generations per report, 0 to 9 points (printed runs: 13 generations, 1 to 6 per report)", "a crash in the middle of a write is not claimed: the code does not promise it"],
 assume=["encoding/json and the file system are stand-ins that keep what they are given in symbolic runs; every path is replayed with the real ones in a scratch directory"], note="Bounded.")
prop("C90", "Runs approach the image as generations pass",
 "Given enough generations, the best fitness of a run on a picture exceeds that of the initial population and approaches what its number of points allows.",
 ["histories", "inputs"], "runs of thousands of generations on real pictures",
 "Tests run no algorithm for long enough.", ["algorithm/modifiedgenetic.go", "utils/default.go"], [("selection and mutation", "algorithm/*.go")], ["Stats().BestFitness"],
 na="a statistical statement about unbounded runs with random draws: no bounded symbolic execution says anything about it (C12 and C21 decide that the best never gets worse)")
prop("C92", "Work spreads over all cores",
 "A generation takes time inversely proportional to the number of cores.",
 ["schedules", "configurations"], "machines with any number of cores",
 "Tests do not measure time.", ["algorithm/simple.go", "algorithm/modifiedgenetic.go"], [("worker pool", "calculateFitnesses")], ["Stats().TimeForGen"],
 na="running time on hardware is not a property of the program's semantics that a solver can decide")

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
        "technique": p["tech"], "level": p["level"], "level_note": p["note"] + " Bounds: " + "; ".join(p["bounds"])})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
def g(xs): return "[]string{" + ", ".join(json.dumps(x, ensure_ascii=False) for x in xs) + "}"
with open(os.path.join(here, "engine", "bounds.go"), "w") as f:
    f.write("package main\n\n// Generated by tools/props.py: what the evidence says about every check.\n\nvar boundsOf = map[string][2][]string{\n")
    for p in P:
        if not p["na"]:
            f.write(f'\t{json.dumps(p["id"])}: {{{g(p["bounds"])}, {g(p["assume"])}}},\n')
    f.write("}\n\nfunc init() {\n\tfor i := range checks {\n\t\tb := boundsOf[checks[i].Prop]\n\t\tchecks[i].Bounds, checks[i].Assume = b[0], b[1]\n\t}\n}\n")
os.system("gofmt -w " + os.path.join(here, "engine", "bounds.go"))
