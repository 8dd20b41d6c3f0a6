package main

// Generated by tools/props.py: what the evidence says about every check.

var boundsOf = map[string][2][]string{
	"C01": {[]string{"one symbolic point: any pixel of 10x10, 7x3 and 1x1 images, lattices of up to 31x31 pixels (interior, both ends of the border, across a grid cell) of 640x480, 1000x1000 and 3000x2000 images", "prefixes of 0 to 9 fixed points: general, collinear, a square grid (cocircular), corners", "30 (thorough 200) generated configurations: images 18x23 to 5000x3000, 5 to 10 scattered points, the symbolic point anywhere in a 5x5 place, three more points after it", "150 to 400 fixed points and one anywhere on a lattice of a 1000x700 or larger image (thorough: more scripts)", "hundreds of insertions, removals and copies among a dozen points, then an arbitrary point", "an arbitrary point in the middle of a ring of 20 to 270 points, all of them neighbours"}, []string{"coverage near the hull is claimed for circles that do not contain a corner of the enclosing triangle (the algorithm drops triangles that touch it)"}},
	"C02": {[]string{"7 configurations (10x10, 1000x700, 1000x1000 images; 0 to 9 fixed points: general, collinear, square grid, cross), one or two symbolic points on lattices of up to 121 pixels", "6 scripts: insert+remove; insert+remove any; two inserts+remove any; triple insertion and removal; remove, insert, remove; remove everything and rebuild", "12 (thorough 60) generated configurations of 5 to 10 scattered points, images up to 5000x3000", "removal of a point of degree 7 to 12 in the middle of an irregular ring turned by any of 16 angles", "removals and 300 copies of one point among 150 to 400 points", "hundreds of insertions, removals and copies among a dozen points, then an arbitrary point", "an arbitrary point in the middle of a ring of 20 to 270 points, all of them neighbours"}, []string{}},
	"C03": {[]string{"the 7 configurations of C02; 7 scripts: copy then change the copy / the original / both, over a fresh or a used target, back and forth, from an empty triangulation", "8 (thorough 40) generated configurations with 10 scripts", "a copy of a triangulation of 150 to 400 points", "hundreds of insertions, removals and copies among a dozen points, then an arbitrary point", "an arbitrary point in the middle of a ring of 20 to 270 points, all of them neighbours"}, []string{}},
	"C04": {[]string{"7 configurations x 4 scripts; query anywhere on a lattice of up to 121 pixels, one symbolic point, any removal target", "10 (thorough 60) generated configurations", "queries among 150 to 400 points, and with 300 copies of a point", "hundreds of insertions, removals and copies among a dozen points, then an arbitrary point"}, []string{}},
	"C05": {[]string{"7 configurations (10x8, 10x10, 300x200, 1000x700, 1000x1000 images; 0 to 9 fixed points), 3 scripts (insert; insert two, one twice; insert and remove any)", "20 (thorough 100) generated configurations of 5 to 13 scattered points", "140 fixed points and an arbitrary one", "an arbitrary point in the middle of a ring of 20 to 140 points, all of them neighbours"}, []string{"distances are compared with a tolerance of 0.05*(w+h) squared pixels, areas with 0.01*(w+h): circumcenters are computed in float32"}},
	"C06": {[]string{"7 configurations, 6 scripts (insert; insert two with a duplicate; insert and remove any; then insert another; copy and change either side)", "7 (thorough 40) generated configurations of 5 to 13 scattered points", "140 fixed points, one of them or an arbitrary one removed or copied", "hundreds of insertions, removals and copies among a dozen points, then an arbitrary point", "an arbitrary point in the middle of a ring of 20 to 140 points, all of them neighbours"}, []string{"tolerances as in C05"}},
	"C07": {[]string{"all triangles with vertices in [0,w]x[0,h]: images 8x6 (blocks 2), 9x5 (3), 6x6 (1), 12x7 (2), 13x9 (3), 16x9 (4)", "the x coordinates and the pixel compared are symbolic, the y coordinates are split into cases", "42 (thorough 201) generated configurations: two fixed vertices, the third anywhere in a 12x8 region, larger images, block sizes 1 to 8", "the pixel rasterizer against the line rasterizer for all triangles of three images", "images more than 256, 512 and 1024 pixels wide or high"}, []string{}},
	"C08": {[]string{"an image is cut into 8 triangles or 3 polygons around a symbolic point: images from 9x40 to 8000x3, block sizes 0 (lines), 2, 3, 8", "coverage against the exact triangle for all triangles of images up to 20x9", "14 (thorough 201) generated subdivisions each: an image cut by 2 to 5 fixed points and one anywhere in a 13x7 region; polygons of 4 to 10 corners cut around any point of a 9x5 region; block sizes 0 to 7", "images more than 256, 512 and 1024 pixels wide or high", "polygons of 36 corners"}, []string{}},
	"C09": {[]string{"8 images from 7x5 to 40x30, block sizes 1, 2, 3, 4, 9, 17, up to 6 fixed points and one symbolic point on a 17x17 or 12x12 lattice of normalised coordinates; or 3 symbolic colour channels", "40 (thorough 301) generated pictures of noise, black and white, flat and gradients with 3 to 8 points, one of them anywhere in a 13x13 region, one symbolic colour, block sizes 1 to 7", "three pictures whose sums need more than 32 bits", "images more than 256 to 1024 pixels wide or high, blocks of up to 34 pixels"}, []string{"no four points (one of them possibly a corner of the enclosing triangle) on a circle: the triangulation is unique", "tolerance 6e-6 (the code rounds to float32 in places)"}},
	"C10": {[]string{"6 configurations (12x10 to 256x8 images, caches of 1 to 1024 slots), 4 scripts of up to 3 generations, symbolic points and mutated index", "32 (thorough 301) generated runs of three generations of five members with random bases, mutations, swaps and caches of 1 to 1024 slots, one symbolic mutation target and colour", "a cache with one shape of another evaluation, for 36 pairs of groups that differ in a single coordinate", "90 to 150 points over three generations; a cached shape that lies 256, 512 or 768 pixels away from the one evaluated, in one corner or in all", "300 to 530 generations of a few points, one mutation in the last arbitrary", "an arbitrary point in the middle of a ring of 18 to 70 points, all of them neighbours"}, []string{"no four points on a circle (see C09)", "tolerance 1e-9"}},
	"C11": {[]string{"as C09 and C10", "generated pictures and runs as in C09 and C10", "a cache with a single polygon of another evaluation, among them polygons with the same hash and polygons that are a prefix of another", "90 to 150 points over three generations; a cached polygon that lies 256 pixels away", "300 to 530 generations of a few points, one mutation in the last arbitrary", "an arbitrary point in the middle of a ring of 18 to 70 points, all of them neighbours"}, []string{"as C09 and C10"}},
	"C12": {[]string{"population 3 to 7, cutoff 1 or 2, 1 to 3 generations, 1 or 2 points per group; fitness of every possible group is one of 8 symbolic values; mutated points symbolic", "all completion orders of the workers in one generation per configuration", "population 24 with sorting by partition, two cutoffs, three generations, most fitnesses zero", "up to 40 generations and populations of up to 300 of which a few fitnesses are symbolic", "280 generations; groups of up to 300 points"}, []string{"fitness functions are deterministic and not negative (the repository's are)", "size > 2*cutoff for the modified algorithm", "workers are interleaved at blocking points; a pool worker runs its task to completion (data races are C14)"}},
	"C13": {[]string{"population 4 to 7, cutoff 1 or 2, 1 or 2 generations, 1 or 2 points per group, fitnesses of 8 symbolic values", "all completion orders in one generation of the configurations with one", "up to three points per group, all of them moved", "up to 40 generations and populations of up to 300 of which a few fitnesses are symbolic", "280 generations; groups of up to 300 points that move together in blocks"}, []string{"as C12"}},
	"C14": {[]string{"as C12; caches of 1 to 8 slots; vector-clock race detection on all accesses of interpreted code", "populations of 24 and 32, three generations, most fitnesses zero (groups that form no triangle)", "up to 40 generations and populations of up to 300 of which a few fitnesses are symbolic", "280 generations; groups of up to 300 points"}, []string{"the pool (ants) runs every submitted task exactly once, concurrently with the submitter", "as C12"}},
	"C15": {[]string{"groups of 1 to 3 points; draws on a grid of 4 to 64 values (uniform) or 4 to 16 values of 32 bits (normal), all combinations; at most one rejected draw more than needed (two or three thorough)", "groups of 4 to 40 points of which one to three are decided by symbolic draws", "what must be possible: every point can move in each of the four diagonal directions by a fifth of the amount", "groups of 700 points of which a few are moved by symbolic draws"}, []string{"the bound on the size of a normal move is 12 standard deviations"}},
	"C16": {[]string{"1 to 4 points, draws on a grid of 2 to 16 values; spaced: up to 3 points and 3 iterations; ziggurat: every layer and sign, 6 positions within the layer", "5 to 64 points (spaced: up to 9 points, 6 iterations) of which some draws are symbolic", "the wedges of the ziggurat against the exact bell curve, the tail by its two exponential draws", "integer draws: bounds 1 to 2^31-1, all 32-bit values, at most two rejections", "groups of 900 points (random generator)"}, []string{}},
	"C17": {[]string{"images up to 3x2 pixels, bounds starting anywhere in [-2,1]x[-2,1], all channel values", "larger images (up to 300x1, 40x9) of fixed colours at four corners of their bounds, 13 types of the standard library", "images more than 1024 pixels wide or high of fixed colours"}, []string{}},
	"C18": {[]string{"all triangles of images 4x3, 1x1, 7x2, 2x2, 1x6 (quick), 3x5, 5x4, 9x3 (thorough); polygons of 3 to 5 corners, one or two of them symbolic", "12 (thorough 121) generated lists of 3 to 6 triangles and 14 (121) of 2 to 4 polygons of 3 to 9 corners on pictures of noise, one corner symbolic", "the running average of up to four symbolic colours", "images more than 256 to 1024 pixels wide or high, one corner symbolic", "polygons of 30 to 59 corners"}, []string{"tolerance 1e-9", "which pixels a shape covers is decided by C08"}},
	"C19": {[]string{"10 configurations (1x1 to 2000x1999 images, 0 to 11 fixed points), one to three symbolic points on lattices of up to 289 positions, symbolic points first or last", "20 generated configurations (thorough 150)", "images more than 1000 pixels wide with tens of points"}, []string{"area of the polygons up to half the longer side of the image, in pixels: an edge may be rounded in two ways"}},
	"C20": {[]string{"groups of up to 3 points with coordinates in [-1,2] by eighths; shapes of 3 to 5 corners; up to 3 members", "polygons of 6 to 12 corners, one of them symbolic", "polygons of 20 to 70 corners, one of them symbolic"}, []string{}},
	"C21": {[]string{"populations of 3 to 6 groups of 5 points, cutoff 1 or 2, 1 or 2 generations, images 9x7 and 13x8 with one symbolic colour (16 values), 2 to 4 places for mutated points, caches of 1 to 32 slots", "16 (thorough 201) generated runs of 2 or 3 generations: 3 to 8 points, populations 3 to 7, one symbolic colour and one symbolic mutation target", "the default algorithm of the package (400 members, 2^22 cache slots) on two pictures of 6x5 and 7x7 pixels (thorough six), 3 to 5 points, one symbolic draw, one generation"}, []string{"equality with a fresh evaluation is claimed for best points no four of which lie on a circle", "the pool runs every task once"}},
	"C22": {[]string{"population 3 to 6, cutoff 1 or 2, up to 2 generations, 1 or 2 points per group, fitnesses of 17 symbolic values", "all completion orders in one or two generations of each configuration, against a run whose workers finish in the order they were started in"}, []string{"as C12; workers do not share state except through the results (C14 and C21 decide that)"}},
	"C23": {[]string{"up to 7 generations, 1 to 4 generations per report, 0 to 9 points (printed runs: 13 generations, 1 to 6 per report)", "a crash in the middle of a write is not claimed: the code does not promise it"}, []string{"encoding/json and the file system are stand-ins that keep what they are given in symbolic runs; every path is replayed with the real ones in a scratch directory"}},
}

func init() {
	for i := range checks {
		b := boundsOf[checks[i].Prop]
		checks[i].Bounds, checks[i].Assume = b[0], b[1]
	}
}
