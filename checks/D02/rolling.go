package dsp

import "math"

//verif:bound window sizes 1..3 (quick) / 1..5 (thorough), up to 2n+2 values of any magnitude, one reset at any position; real-number semantics for the arithmetic (rounding is outside the claim, counterexamples are replayed in float64)
//verif:bound integer instantiation: exact 64-bit machine arithmetic, values within +-1000000
//verif:bound values that are infinite or NaN: exact IEEE semantics, one such value at any of the first positions, window sizes 1..2 (quick) / 1..3 (thorough)

//verif:harness vHarness_meanReal mode=arith merge=2 p.n=3/5 budget=40/300
func vHarness_meanReal() {
	n := vChoose("n", vParam("n", 3)) + 1
	m := NewRollingMean[float64](n)
	var last []float64
	reset := vChoose("resetAt", 2*n+3)
	for i := 0; i < 2*n+2; i++ {
		if i == reset {
			m.Reset()
			last = nil
			vAssert(m.Get() == 0, "a reset mean is zero")
		}
		x := vFloat64In("x", -1e9, 1e9)
		last = append(last, x)
		if len(last) > n {
			last = last[1:]
		}
		got := m.Put(x)
		sum := 0.0
		for _, y := range last {
			sum += y
		}
		want := sum / float64(n)
		vAssert(vNear(got, want), "the rolling mean is the mean of the last n values")
		vAssert(m.Get() == got, "Get returns the current mean")
	}
	vReach("end")
}

func vNear(a, b float64) bool {
	return vAnd(a-b <= 1e-3, b-a <= 1e-3)
}

//verif:harness vHarness_varianceReal mode=arith merge=2 p.n=3/4 budget=60/600
func vHarness_varianceReal() {
	n := vChoose("n", vParam("n", 3)) + 1
	m := NewRollingVariance[float64](n)
	var last []float64
	reset := vChoose("resetAt", 2*n+2)
	for i := 0; i < 2*n+1; i++ {
		if i == reset {
			m.Reset()
			last = nil
			vAssert(m.Get() == 0, "a reset variance is zero")
		}
		x := vFloat64In("x", -1000, 1000)
		last = append(last, x)
		if len(last) > n {
			last = last[1:]
		}
		got := m.Put(x)
		sum, sq := 0.0, 0.0
		for _, y := range last {
			sum += y
			sq += y * y
		}
		mean := sum / float64(n)
		want := sq/float64(n) - mean*mean
		vAssert(vNear(got, want), "the rolling variance is the population variance of the last n values")
		vAssert(m.Get() == got, "Get returns the current variance")
	}
	vReach("end")
}

//verif:harness vHarness_meanInt mode=int merge=2 p.n=3/5 budget=40/300
func vHarness_meanInt() {
	n := vChoose("n", vParam("n", 3)) + 1
	m := NewRollingMean[int](n)
	var last []int
	reset := vChoose("resetAt", 2*n+3)
	for i := 0; i < 2*n+2; i++ {
		if i == reset {
			m.Reset()
			last = nil
		}
		x := vInt("x", -1000000, 1000000)
		last = append(last, x)
		if len(last) > n {
			last = last[1:]
		}
		got := m.Put(x)
		sum := 0
		for _, y := range last {
			sum += y
		}
		vAssert(got == sum/n, "the rolling mean is the mean of the last n values")
		vAssert(m.Get() == got, "Get returns the current mean")
	}
	vReach("end")
}

// One value that is not a finite number must be forgotten once it left the window.
//
//verif:harness vHarness_special mode=exact merge=2 p.n=2/3 budget=40/600
func vHarness_special() {
	n := vChoose("n", vParam("n", 2)) + 1
	variance := vChoose("what", 2) == 1
	special := []float64{math.Inf(1), math.Inf(-1), math.NaN()}[vChoose("special", 3)]
	put := NewRollingMean[float64](n).Put
	if variance {
		put = NewRollingVariance[float64](n).Put
	}
	at := vChoose("at", 2)
	if at == 1 {
		put(float64(int8(vInt("before", -4, 4))))
	}
	put(special)
	var got float64
	for i := 0; i < n; i++ {
		got = put(float64(int8(vInt("x", -4, 4))))
	}
	vAssert(vAnd(got >= -4, got <= 16), "values that left the window have no influence")
	vReach("end")
}
