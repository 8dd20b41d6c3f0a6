package main

func vs(xs ...int) []int { return xs }

// cross makes v = script + 10*configuration.
func cross(confs []int, scripts ...int) []int {
	var o []int
	for _, c := range confs {
		for _, s := range scripts {
			o = append(o, c*10+s)
		}
	}
	return o
}

func minus(xs []int, ys ...int) []int {
	var o []int
outer:
	for _, x := range xs {
		for _, y := range ys {
			if x == y {
				continue outer
			}
		}
		o = append(o, x)
	}
	return o
}

var checks = []Check{
	{Prop: "C01", Sets: []Set{{Pkg: "delaunay", Fn: "Ring", Quick: vs(11, 40), Thorough: vs(0, 20, 30, 41), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 400000000}},
		{Pkg: "delaunay", Fn: "Churn", Quick: vs(0), Thorough: vs(10, 20, 30), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 200000000}},
		{Pkg: "delaunay", Fn: "Big", Quick: vs(0), Thorough: vs(10, 20, 30), Opts: Opts{Join: 20000, Poly: true}},
		{Pkg: "delaunay", Fn: "Insert1", Quick: vs(0, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18), Thorough: vs(1, 2, 3, 5), Opts: Opts{Join: 20000, Poly: true}},
		{Pkg: "delaunay", Fn: "InsertMix", Quick: seq(0, 29), Thorough: seq(30, 199), Opts: Opts{Join: 20000, Poly: true}},
		{Pkg: "delaunay", Fn: "InsertMore", Quick: seq(12, 18), Thorough: vs(0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11), Opts: Opts{Join: 20000, Poly: true}}}},
	{Prop: "C02", Sets: []Set{{Pkg: "delaunay", Fn: "Ring", Quick: vs(10, 21, 40), Thorough: vs(1, 31, 41), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 400000000}},
		{Pkg: "delaunay", Fn: "Churn", Quick: vs(2, 10), Thorough: vs(12, 20, 22, 30, 32), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 200000000}},
		{Pkg: "delaunay", Fn: "Big", Quick: vs(11, 13), Thorough: vs(1, 3, 21, 23, 31, 33), Opts: Opts{Join: 20000, Poly: true}},
		{Pkg: "delaunay", Fn: "Hist", Quick: vs(0, 1, 3, 10, 11, 13, 20, 21, 22, 23, 50, 51, 53, 60, 61, 70, 71, 80, 81, 90, 91, 94, 100, 110, 130), Thorough: vs(2, 4, 5, 12, 14, 15, 24, 25, 30, 31, 33, 40, 41, 42, 43, 44, 45, 52, 54, 55, 62, 63, 64, 65, 72, 73, 74, 75, 82, 83, 84, 92, 93, 95, 101, 102, 111, 112, 114, 120, 121, 122, 131, 132, 133, 134), Opts: Opts{Join: 20000, Poly: true}},
		{Pkg: "delaunay", Fn: "HistMix", Quick: cross(seq(0, 11), 0, 1), Thorough: append(cross(seq(12, 59), 0, 1), cross(seq(0, 39), 2, 3, 4)...), Opts: Opts{Join: 20000, Poly: true}},
		{Pkg: "delaunay", Fn: "Hub", Quick: vs(7, 8, 12, 209), Thorough: vs(5, 6, 9, 10, 106, 107, 108, 109, 112, 206, 207, 208, 212, 309, 310, 311, 312, 409, 410, 411, 412), Opts: Opts{Join: 20000}},
	}},
	{Prop: "C03", Sets: []Set{{Pkg: "delaunay", Fn: "Ring", Quick: vs(12, 22), Thorough: vs(2, 32, 42), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 400000000}},
		{Pkg: "delaunay", Fn: "Churn", Quick: vs(1), Thorough: vs(11, 21, 31), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 200000000}},
		{Pkg: "delaunay", Fn: "Big", Quick: vs(12), Thorough: vs(2, 22, 32), Opts: Opts{Join: 20000, Poly: true}},
		{Pkg: "delaunay", Fn: "Copy", Quick: vs(2, 12, 20, 41, 51, 61, 62, 90, 91, 92, 94, 57, 58, 149), Thorough: vs(147, 148, 7, 9, 17, 59, 67, 97, 98, 99, 8, 18, 27, 28, 37, 38, 47, 48, 68, 77, 78, 84, 87, 95, 107, 0, 1, 3, 4, 5, 6, 10, 11, 13, 14, 15, 16, 21, 22, 23, 24, 25, 26, 30, 31, 32, 33, 34, 35, 36, 40, 42, 43, 44, 45, 46, 50, 52, 53, 54, 55, 56, 60, 63, 64, 65, 66), Opts: Opts{Join: 20000, Poly: true}},
		{Pkg: "delaunay", Fn: "CopyMix", Quick: cross(seq(0, 7), 0, 1, 2, 3, 5, 7, 9), Thorough: append(cross(seq(8, 39), 0, 1, 2, 3, 5, 7, 9), cross(seq(0, 39), 4, 6, 8)...), Opts: Opts{Join: 20000, Poly: true}}}},
	{Prop: "C04", Sets: []Set{{Pkg: "delaunay", Fn: "Churn", Quick: vs(3, 4, 5), Thorough: vs(13, 14, 15, 23, 24, 25, 33, 34, 35), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 200000000}},
		{Pkg: "delaunay", Fn: "Big", Quick: vs(13, 14, 4), Thorough: vs(3, 23, 24, 33, 34), Opts: Opts{Join: 20000, Poly: true}},
		{Pkg: "delaunay", Fn: "Query", Quick: minus(cross(seq(0, 6), 0, 1, 2, 3), 32, 33), Thorough: vs(32, 33), Opts: Opts{Join: 20000, Poly: true}},
		{Pkg: "delaunay", Fn: "QueryMix", Quick: cross(seq(0, 9), 0, 1, 2, 3), Thorough: cross(seq(10, 59), 0, 1, 2, 3), Opts: Opts{Join: 20000, Poly: true}}}},
	{Prop: "C05", Sets: []Set{{Pkg: "voronoi", Fn: "Ring", Quick: vs(0, 10, 20, 30), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 400000000}},
		{Pkg: "voronoi", Fn: "Many", Quick: vs(0, 10, 20, 30), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 90000000}},
		{Pkg: "voronoi", Fn: "Batch", Quick: append(minus(cross(seq(0, 6), 0, 1, 2), 1, 2, 11, 12, 32), cross(seq(7, 11), 0, 2)...), Thorough: append(vs(1, 2, 11, 12, 32), cross(seq(7, 11), 1)...), Opts: Opts{Join: 20000, Poly: true}},
		{Pkg: "voronoi", Fn: "BatchMix", Quick: append(cross(seq(0, 19), 0), cross(seq(0, 9), 2)...), Thorough: append(cross(seq(20, 99), 0), cross(seq(10, 39), 1, 2)...), Opts: Opts{Join: 20000, Poly: true}}}},
	{Prop: "C06", Sets: []Set{{Pkg: "voronoi", Fn: "Ring", Quick: vs(1, 12, 21, 22, 31), Thorough: vs(32), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 400000000}},
		{Pkg: "voronoi", Fn: "Churn", Quick: vs(0, 1), Thorough: vs(10, 11, 20, 21, 30, 31), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 200000000}},
		{Pkg: "voronoi", Fn: "Many", Quick: vs(1, 2, 11, 12, 21, 22, 31, 32), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 90000000}},
		{Pkg: "voronoi", Fn: "Incr", Quick: append(vs(0, 2, 5, 10, 15, 20, 22, 25, 40, 41, 45, 50, 52, 54, 55, 61, 62, 63, 65), cross(seq(7, 11), 0, 1, 2, 5)...), Thorough: append(vs(1, 3, 4, 11, 12, 13, 14, 21, 23, 24, 30, 31, 32, 33, 34, 35, 42, 43, 44, 51, 53, 60, 64), cross(seq(7, 11), 3, 4)...), Opts: Opts{Join: 20000, Poly: true}},
		{Pkg: "voronoi", Fn: "IncrMix", Quick: cross(seq(0, 6), 0, 1, 2, 5), Thorough: append(cross(seq(0, 6), 3, 4), cross(seq(7, 39), 0, 1, 2, 3, 4, 5)...), Opts: Opts{Join: 20000, Poly: true}}}},
	{Prop: "C07", Sets: []Set{{Pkg: "raster", Fn: "Blocks", Quick: seq(0, 5), Thorough: seq(6, 7)},
		{Pkg: "raster", Fn: "Pixels", Quick: vs(8, 9, 10), Opts: Opts{Join: 20000}},
		{Pkg: "raster", Fn: "BlocksMix", Quick: append(seq(0, 41), seq(300, 305)...), Thorough: seq(42, 200), Opts: Opts{Join: 20000}}}},
	{Prop: "C08", Sets: []Set{
		{Pkg: "raster", Fn: "Tile", Quick: seq(0, 7), Opts: Opts{Join: 9261}},
		{Pkg: "raster", Fn: "Cells", Quick: vs(0, 2, 3, 6), Opts: Opts{Join: 9261}},
		{Pkg: "raster", Fn: "Cover", Quick: seq(0, 6), Opts: Opts{Join: 9261}},
		{Pkg: "raster", Fn: "TileMix", Quick: append(seq(0, 13), seq(300, 305)...), Thorough: seq(14, 200), Opts: Opts{Join: 20000, MaxSteps: 60000000}},
		{Pkg: "raster", Fn: "CellMix", Quick: append(append(seq(0, 13), seq(300, 305)...), 405, 411, 480), Thorough: seq(14, 200), Opts: Opts{Join: 20000, MaxSteps: 60000000}},
	}},
	{Prop: "C09", Sets: []Set{
		{Pkg: "fit", Fn: "Tri", Quick: seq(0, 7), Opts: Opts{Join: 20000, Poly: true}},
		{Pkg: "fit", Fn: "FreshTri", Quick: seq(0, 39), Thorough: seq(40, 300), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 90000000}},
		{Pkg: "fit", Fn: "LargeTri", Quick: seq(0, 5), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 90000000}},
		{Pkg: "fit", Fn: "Pixels", Quick: seq(0, 7), Opts: Opts{Join: 20000, Poly: true}},
	}},
	{Prop: "C10", Sets: []Set{{Pkg: "fit", Fn: "RingTri", Quick: vs(0, 1, 2), Thorough: seq(3, 11), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 400000000}},
		{Pkg: "fit", Fn: "LongTri", Quick: vs(0), Thorough: seq(1, 40), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 200000000}},

		{Pkg: "fit", Fn: "ManyTri", Quick: vs(0, 2), Thorough: append(vs(1), seq(3, 40)...), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 400000000}},
		{Pkg: "fit", Fn: "MixTri", Quick: seq(0, 31), Thorough: seq(32, 300), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 60000000}},
		{Pkg: "fit", Fn: "SlotTri", Quick: append(seq(0, 35), 100, 101, 300, 302, 303, 304, 310, 312, 313, 314), Thorough: vs(301, 311, 102, 103), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 90000000}},
		{Pkg: "fit", Fn: "IncTri", Quick: vs(0, 3, 10, 11, 20, 21, 22, 23, 33, 50, 51, 53), Thorough: vs(1, 2, 12, 13, 30, 31, 32, 40, 41, 42, 43, 52), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 40000000}},
	}},
	{Prop: "C11", Sets: []Set{{Pkg: "fit", Fn: "RingPoly", Quick: vs(0, 1, 2), Thorough: seq(3, 11), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 400000000}},
		{Pkg: "fit", Fn: "LongPoly", Quick: vs(0), Thorough: seq(1, 40), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 200000000}},

		{Pkg: "fit", Fn: "Poly", Quick: seq(0, 5), Thorough: vs(6, 7), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 40000000}},
		{Pkg: "fit", Fn: "FreshPoly", Quick: seq(0, 39), Thorough: seq(40, 300), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 90000000}},
		{Pkg: "fit", Fn: "LargePoly", Quick: seq(0, 5), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 90000000}},
		{Pkg: "fit", Fn: "Pixels", Quick: seq(10, 17), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 40000000}},
		{Pkg: "fit", Fn: "ManyPoly", Quick: vs(0), Thorough: seq(1, 40), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 400000000}},
		{Pkg: "fit", Fn: "MixPoly", Quick: seq(0, 31), Thorough: seq(32, 300), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 60000000}},
		{Pkg: "fit", Fn: "SlotPoly", Quick: vs(0, 2, 4, 9, 12, 17, 20, 24, 27, 32, 100, 101, 200, 201, 202, 203, 300, 310), Thorough: append(minus(seq(0, 35), 0, 2, 4, 9, 12, 17, 20, 24, 27, 32), 102, 103, 301, 311), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 90000000}},
		{Pkg: "fit", Fn: "IncPoly", Quick: vs(0, 10, 13, 20, 23, 33, 50, 51, 53), Thorough: vs(1, 2, 3, 11, 12, 21, 22, 30, 31, 32, 40, 41, 42, 43, 52), Opts: Opts{Join: 20000, Poly: true, MaxSteps: 40000000}},
	}},
	{Prop: "C12", Sets: []Set{
		{Pkg: "algo", Fn: "Long", Quick: seq(0, 19), Opts: Opts{Join: 5000, MaxSteps: 90000000}},
		{Pkg: "algo", Fn: "Simple", Quick: seq(0, 7), Opts: Opts{Join: 5000}},
		{Pkg: "algo", Fn: "Genetic", Quick: vs(0, 1, 2, 5, 6, 8, 9, 19, 20), Thorough: vs(3, 4, 7, 10, 11, 12, 13, 14, 15), Opts: Opts{Join: 5000}},
	}},
	{Prop: "C13", Sets: []Set{
		{Pkg: "algo", Fn: "Long", Quick: seq(110, 119), Opts: Opts{Join: 5000, MaxSteps: 90000000}},
		{Pkg: "algo", Fn: "Genetic", Quick: vs(101, 102, 103, 104, 105, 106, 108, 116, 117, 118, 119, 120), Thorough: vs(107, 109, 110, 111, 112, 113, 114, 115), Opts: Opts{Join: 5000}},
	}},
	{Prop: "C14", Sets: []Set{
		{Pkg: "algo", Fn: "Long", Quick: seq(200, 219), Opts: Opts{Join: 5000, MaxSteps: 90000000}},
		{Pkg: "algo", Fn: "Simple", Quick: seq(200, 207), Opts: Opts{Join: 5000, Race: true}},
		{Pkg: "algo", Fn: "Genetic", Quick: vs(200, 201, 202, 203, 205, 206, 208, 219, 220, 221), Thorough: vs(204, 207), Opts: Opts{Join: 5000, Race: true}},
	}},
	{Prop: "C15", Sets: []Set{
		{Pkg: "gens", Fn: "Uniform", Quick: seq(0, 6), Opts: Opts{Join: 20000}},
		{Pkg: "gens", Fn: "Normal", Quick: seq(0, 6), Thorough: vs(10, 11, 12, 14, 15, 16, 20, 21, 22, 24, 25, 26), Opts: Opts{Join: 20000}},
		{Pkg: "gens", Fn: "Steady", Quick: seq(0, 2), Opts: Opts{Join: 20000}},
		{Pkg: "gens", Fn: "SteadyNormal", Quick: seq(0, 11), Opts: Opts{Join: 20000}},
		{Pkg: "gens", Fn: "UniformMix", Quick: append(seq(0, 17), 200, 201, 202), Thorough: seq(18, 120), Opts: Opts{Join: 20000}},
		{Pkg: "gens", Fn: "NormalMix", Quick: append(seq(0, 17), 200, 201, 202), Thorough: seq(18, 120), Opts: Opts{Join: 20000}},
		{Pkg: "gens", Fn: "Default", Quick: seq(0, 2), Thorough: vs(3), Opts: Opts{Join: 20000}},
	}},
	{Prop: "C16", Sets: []Set{
		{Pkg: "gens", Fn: "Random", Quick: seq(1, 4), Opts: Opts{Join: 20000}},
		{Pkg: "gens", Fn: "Spaced", Quick: seq(0, 7), Opts: Opts{Join: 20000}},
		{Pkg: "gens", Fn: "Ziggurat", Quick: seq(0, 5), Opts: Opts{Join: 20000}},
		{Pkg: "gens", Fn: "Draws", Quick: seq(0, 7), Opts: Opts{Join: 20000}},
		{Pkg: "gens", Fn: "RandomMix", Quick: append(seq(0, 5), 200), Thorough: seq(6, 30), Opts: Opts{Join: 20000}},
		{Pkg: "gens", Fn: "SpacedMix", Quick: seq(0, 17), Thorough: seq(18, 120), Opts: Opts{Join: 20000}},
		{Pkg: "gens", Fn: "Wedge", Quick: seq(0, 3), Opts: Opts{Join: 20000}},
		{Pkg: "gens", Fn: "Tail", Quick: seq(0, 1), Opts: Opts{Join: 20000}},
	}},
	{Prop: "C17", Sets: []Set{
		{Pkg: "pics", Fn: "ToData", Quick: seq(0, 29), Thorough: vs(30), Opts: Opts{Join: 20000}},
	}},
	{Prop: "C18", Sets: []Set{
		{Pkg: "pics", Fn: "Triangles", Quick: vs(0, 1, 3, 4, 6), Thorough: vs(2, 5, 7), Opts: Opts{Join: 20000}},
		{Pkg: "pics", Fn: "Polygons", Quick: vs(0, 2, 3, 5, 10, 12, 20, 22, 30, 32), Opts: Opts{Join: 20000}},
		{Pkg: "pics", Fn: "TriMix", Quick: append(seq(0, 11), seq(300, 302)...), Thorough: seq(12, 120), Opts: Opts{Join: 20000, MaxSteps: 60000000}},
		{Pkg: "pics", Fn: "PolyMix", Quick: append(append(seq(0, 13), seq(300, 302)...), 402), Thorough: seq(14, 120), Opts: Opts{Join: 20000, MaxSteps: 60000000}},
		{Pkg: "pics", Fn: "Average", Quick: seq(0, 3), Opts: Opts{Join: 20000}},
	}},
	{Prop: "C19", Sets: []Set{
		{Pkg: "mesh", Fn: "Triangles", Quick: append(append(seq(0, 19), seq(100, 119)...), 300, 301, 302, 303), Thorough: append(seq(120, 250), seq(304, 330)...), Opts: Opts{Join: 20000}},
		{Pkg: "mesh", Fn: "Polygons", Quick: append(seq(0, 19), 100, 101, 102, 104, 105, 108, 110, 111, 300, 301, 302), Thorough: append(append(vs(103, 106, 107, 109), seq(112, 250)...), seq(303, 330)...), Opts: Opts{Join: 20000, MaxSteps: 90000000}},
	}},
	{Prop: "C20", Sets: []Set{
		{Pkg: "mesh", Fn: "Groups", Quick: seq(0, 7), Opts: Opts{Join: 20000}},
		{Pkg: "mesh", Fn: "Scale", Quick: seq(0, 3), Opts: Opts{Join: 20000}},
		{Pkg: "mesh", Fn: "Fan", Quick: append(seq(0, 12), 20, 40, 70), Opts: Opts{Join: 20000}},
		{Pkg: "mesh", Fn: "Evaluators", Quick: seq(0, 2), Opts: Opts{Join: 20000}},
	}},
	{Prop: "C21", Sets: []Set{
		{Pkg: "whole", Fn: "Default", Quick: seq(0, 1), Thorough: seq(2, 5), Opts: Opts{Join: 20000, MaxSteps: 400000000}},
		{Pkg: "whole", Fn: "RunMix", Quick: seq(0, 15), Thorough: seq(16, 200), Opts: Opts{Join: 20000, Race: true, MaxSteps: 90000000}},
		{Pkg: "whole", Fn: "Run", Quick: vs(1, 2, 6, 8, 10, 11), Thorough: vs(0, 3, 4, 5, 7, 9), Opts: Opts{Join: 20000, Race: true, MaxSteps: 60000000}},
	}},
	{Prop: "C23", Sets: []Set{
		{Pkg: "saved", Fn: "Output", Quick: vs(0, 1, 2, 3, 4, 6, 10, 11, 12, 14, 19), Thorough: vs(5, 7, 8, 9, 13, 15, 16, 17, 18), Opts: Opts{Join: 5000}},
		{Pkg: "saved", Fn: "Printed", Quick: vs(0, 2), Opts: Opts{Join: 5000}},
	}},
	{Prop: "C22", Sets: []Set{
		{Pkg: "algo", Fn: "Repeat", Quick: append(seq(0, 5), 100, 101, 102, 103, 104, 105, 106, 107, 108, 110), Thorough: vs(6, 109, 111), Opts: Opts{Join: 5000}},
	}},
}

// Assertions are put to the solver as polynomials over the symbolic inputs.
func init() {
	for i := range checks {
		for j := range checks[i].Sets {
			checks[i].Sets[j].Opts.Poly = true
		}
	}
}
