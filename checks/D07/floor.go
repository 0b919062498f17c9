package dsp

//verif:bound power spectra of 10..24 (quick) / 10..34 (thorough) bins with any values 0..10^9, edge widths -1..12; real-number semantics
//verif:bound longer windows: spectra of 40 and 54 bins with edge widths 5 and 7, and (thorough) 512 bins with the default edge width 70
//verif:assume the spectrum is not empty and finite

func vNear(a, b float64) bool {
	return vAnd(a-b <= 1e-3, b-a <= 1e-3)
}

func vFloor(n, edge int, lo, hi float64) {
	psd := make(Block[float64], n)
	for i := range psd {
		psd[i] = vFloat64In("psd", lo, hi)
	}
	floor, variance := FindNoiseFloor(psd, edge)

	e := edge
	if e < 0 {
		e = 0
	}
	if n-2*e < 1 {
		// nothing is left between the edges
		in := false
		for i := range psd {
			in = vOr(in, floor == psd[i])
		}
		vAssert(in, "without a band between the edges, the noise floor is the level of some bin")
		return
	}
	w := (n - 2*e) / 10
	if w < 1 {
		w = 1
	}
	best := 0.0
	var means []float64
	for k := 0; e+(k+1)*w <= n-e; k++ {
		sum := 0.0
		for _, v := range psd[e+k*w : e+(k+1)*w] {
			sum += v
		}
		mean := sum / float64(w)
		if k == 0 {
			best = mean
		}
		best = vIteFloat(mean < best, mean, best)
		means = append(means, mean)
	}
	vAssert(vNear(floor, best), "the noise floor is the smallest mean of the windows")
	_ = variance
}

//verif:harness vHarness_variance mode=arith merge=0 budget=60/600 p.configs=4/7
func vHarness_variance() {
	c := [][2]int{{10, 0}, {15, 1}, {22, 1}, {24, 6}, {20, 0}, {36, 3}, {31, 0}}[vChoose("config", vParam("configs", 4))]
	n, e := c[0], c[1]
	psd := make(Block[float64], n)
	for i := range psd {
		psd[i] = vFloat64In("psd", 0, 1000)
	}
	w := (n - 2*e) / 10
	var means []float64
	for k := 0; e+(k+1)*w <= n-e; k++ {
		sum := 0.0
		for _, v := range psd[e+k*w : e+(k+1)*w] {
			sum += v
		}
		means = append(means, sum/float64(w))
	}
	quiet := vChoose("quiet", len(means))
	least := true
	for k, m := range means {
		least = vAnd(least, vOr(k == quiet, m > means[quiet]+0.01))
	}
	vAssume(least)
	floor, variance := FindNoiseFloor(psd, e)
	sq := 0.0
	for _, v := range psd[e+quiet*w : e+(quiet+1)*w] {
		sq += (v - means[quiet]) * (v - means[quiet])
	}
	vAssert(vNear(floor, means[quiet]), "the noise floor is the smallest mean of the windows")
	vAssert(vNear(variance, sq/float64(w)), "the variance is that of the quietest window")
	vReach("end")
}

//verif:harness vHarness_small mode=arith merge=2 p.n=14/24 budget=120/800
func vHarness_small() {
	n := 10 + vChoose("bins", vParam("n", 14)+1)
	edge := vChoose("edge", 14) - 1
	vFloor(n, edge, 0, 1000)
	vReach("end")
}

//verif:harness vHarness_windows mode=arith merge=2 budget=100/800
func vHarness_windows() {
	c := [][2]int{{40, 5}, {54, 7}, {30, 0}, {31, 0}, {45, 2}}[vChoose("config", 5)]
	vFloor(c[0], c[1], 0, 1000)
	vReach("end")
}

//verif:harness vHarness_tiny mode=arith merge=2 budget=30/100
func vHarness_tiny() {
	vFloor(1+vChoose("bins", 9), vChoose("edge", 9)-2, 0, 1000)
	vReach("end")
}

//verif:harness vHarness_carrier mode=arith merge=2 budget=30/400 p.n=42/512 p.e=6/70
func vHarness_carrier() {
	// a quiet window is found however strong the rest of the band and the edges are
	n, e := vParam("n", 42), vParam("e", 6)
	w := (n - 2*e) / 10
	psd := make(Block[float64], n)
	for i := range psd {
		psd[i] = vFloat64In("psd", 100, 1e9)
	}
	k := vChoose("quiet", 10)
	for i := e + k*w; i < e+(k+1)*w; i++ {
		psd[i] = 2
	}
	floor, variance := FindNoiseFloor(psd, e)
	vAssert(vAnd(vNear(floor, 2), vNear(variance, 0)), "carriers never raise the noise floor while a window is quiet")
	vReach("end")
}

//verif:harness vHarness_edges mode=arith merge=2 budget=30/400 p.n=42/512 p.e=6/70
func vHarness_edges() {
	n, e := vParam("n", 42), vParam("e", 6)
	psd, other := make(Block[float64], n), make(Block[float64], n)
	for i := range psd {
		psd[i] = float64(100 + i%7)
		other[i] = psd[i]
		if i < e || i >= n-e {
			psd[i], other[i] = vFloat64In("psd", 0, 1e9), vFloat64In("other", 0, 1e9)
		}
	}
	f1, v1 := FindNoiseFloor(psd, e)
	f2, v2 := FindNoiseFloor(other, e)
	vAssert(vAnd(f1 == f2, v1 == v2), "bins within the edges never influence the noise floor")
	vReach("end")
}
