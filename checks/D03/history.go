package dsp

//verif:bound history lengths 1..4 (quick) / 1..6 (thorough), up to 2*length+1 puts (the ring wraps twice), every index and every k, up to 3 chosen indexes; integer values with exact machine arithmetic within +-10^6, real-number semantics for mean and variance of fractional values

func vHist(n int, puts int) (*RollingHistory[int], []int) {
	h := NewRollingHistory[int](n)
	all := make([]int, 0, puts+n)
	for i := 0; i < n; i++ {
		all = append(all, 0)
	}
	for i := 0; i < puts; i++ {
		x := vInt("x", -1000000, 1000000)
		h.Put(x)
		all = append(all, x)
	}
	// newest first
	r := make([]int, n)
	for i := range r {
		r[i] = all[len(all)-1-i]
	}
	return h, r
}

func vPick(vals []int, idx int) int {
	r := 0
	for i, v := range vals {
		r = vIteInt(idx == i+1, v, r)
	}
	return r
}

//verif:harness vHarness_get mode=int merge=2 p.n=4/6 budget=40/600
func vHarness_get() {
	n := vChoose("n", vParam("n", 4)) + 1
	puts := vChoose("puts", 2*n+2)
	h, vals := vHist(n, puts)
	idx := vInt("index", 1, n)
	vAssert(h.Get(idx) == vPick(vals, idx), "Get(i) is the value put i puts ago")
	k := vChoose("reset", 2)
	if k == 1 {
		h.Reset()
		vAssert(h.Get(idx) == 0, "a reset history is empty")
		y := vInt("y", -1000000, 1000000)
		h.Put(y)
		vAssert(h.Get(1) == y, "the newest value has index 1")
	}
	vReach("end")
}

//verif:harness vHarness_queries mode=int merge=2 p.n=4/6 budget=60/600
func vHarness_queries() {
	n := vChoose("n", vParam("n", 4)) + 1
	puts := vChoose("puts", 2*n+2)
	h, vals := vHist(n, puts)
	k := vChoose("k", n) + 1
	sum, mx, mn := 0, vals[0], vals[0]
	for _, v := range vals[:k] {
		sum += v
		mx = vIteInt(v > mx, v, mx)
		mn = vIteInt(v < mn, v, mn)
	}
	vAssert(h.Sum(k) == sum, "Sum covers exactly the last k values")
	vAssert(h.Max(k) == mx, "Max covers exactly the last k values")
	vAssert(h.Min(k) == mn, "Min covers exactly the last k values")
	vReach("end")
}

//verif:harness vHarness_at mode=int merge=2 p.n=3/5 p.k=2/3 budget=60/600
func vHarness_at() {
	n := vChoose("n", vParam("n", 3)) + 1
	puts := vChoose("puts", 2*n+2)
	h, vals := vHist(n, puts)
	k := vChoose("k", vParam("k", 2)) + 1
	var idx []int
	sum, mx, mn := 0, 0, 0
	for i := 0; i < k; i++ {
		j := vInt("index", 1, n)
		idx = append(idx, j)
		v := vPick(vals, j)
		sum += v
		if i == 0 {
			mx, mn = v, v
		}
		mx = vIteInt(v > mx, v, mx)
		mn = vIteInt(v < mn, v, mn)
	}
	vAssert(h.SumAt(idx...) == sum, "SumAt covers exactly the chosen values")
	vAssert(h.MaxAt(idx...) == mx, "MaxAt covers exactly the chosen values")
	vAssert(h.MinAt(idx...) == mn, "MinAt covers exactly the chosen values")
	vReach("end")
}

//verif:harness vHarness_refuse mode=int merge=1 p.n=4/6 budget=40/300
func vHarness_refuse() {
	n := vChoose("n", vParam("n", 4)) + 1
	h, _ := vHist(n, vChoose("puts", n+2))
	bad := vInt("bad", n+1, n+1000)
	f := []func(){
		func() { h.Get(bad) },
		func() { h.Sum(bad) },
		func() { h.Max(bad) },
		func() { h.Min(bad) },
		func() { h.Mean(bad) },
		func() { h.Variance(bad) },
		func() { h.SDev(bad) },
		func() { h.SumAt(1, bad) },
		func() { h.MaxAt(1, bad) },
		func() { h.MinAt(bad, 1) },
	}[vChoose("query", 10)]
	refused, _ := vCatch(f)
	vAssert(refused, "asking for more than the history holds is refused")
	vReach("end")
}

//verif:harness vHarness_stat mode=arith merge=2 p.n=3/5 budget=60/600
func vHarness_stat() {
	n := vChoose("n", vParam("n", 3)) + 1
	puts := vChoose("puts", 2*n+2)
	h := NewRollingHistory[float64](n)
	vals := make([]float64, n)
	for i := 0; i < puts; i++ {
		x := vFloat64In("x", -1000, 1000)
		h.Put(x)
		vals = append([]float64{x}, vals...)
	}
	k := vChoose("k", n) + 1
	sum, sq := 0.0, 0.0
	mx, mn := vals[0], vals[0]
	for _, v := range vals[:k] {
		sum += v
		sq += v * v
		mx = vIteFloat(v > mx, v, mx)
		mn = vIteFloat(v < mn, v, mn)
	}
	mean := sum / float64(k)
	near := func(a, b float64) bool { return vAnd(a-b <= 1e-3, b-a <= 1e-3) }
	vAssert(near(h.Sum(k), sum), "Sum covers exactly the last k values")
	vAssert(near(h.Mean(k), mean), "Mean is the mean of the last k values")
	vAssert(near(h.Variance(k), sq/float64(k)-mean*mean), "Variance is the population variance of the last k values")
	vAssert(near(h.Max(k), mx), "Max covers exactly the last k values")
	vAssert(near(h.Min(k), mn), "Min covers exactly the last k values")
	vReach("end")
}
