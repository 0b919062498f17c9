package dsp

import "math"

//verif:bound exact IEEE semantics: every float32 triple of levels around the signal bin, including infinities, NaN and equal values, at one bin of a 48000/512 grid
//verif:bound real-number semantics: every bin of spectra of 3..5 bins, every centre frequency, every finite level within +-10^9, grids 48000/512 and 12000/512; and every triple of integer levels within +-10^6
//verif:assume the interpolated signal bin is at least as strong as its neighbours where the direction of the correction is concerned, as it is for every peak

//verif:harness vHarness_exact mode=exact merge=2 budget=200/800 p.wide=0/1
func vHarness_exact() {
	y := [3]float32{vFloat32("left"), vFloat32("signal"), vFloat32("right")}
	c := PeakCenterCorrection[float32, int](1, Block[float32](y[:]))
	vAssert(vAnd(c >= -0.5, c <= 0.5), "the correction stays within half a bin for every level whatsoever")
	if y[0] == y[2] {
		vAssert(c == 0, "equal neighbours give the bin centre")
	}
	vReach("end")
}

//verif:harness vHarness_special mode=exact merge=0 budget=100/300
func vHarness_special() {
	vals := []float32{float32(math.Inf(-1)), -3, 0, 3, 80, float32(math.Inf(1)), float32(math.NaN()), math.MaxFloat32, math.SmallestNonzeroFloat32}
	pick := func(n string) float32 { return vals[vChoose(n, len(vals))] }
	m := NewFrequencyMapping[int](48000, 512, vInt("center", 0, 30000000))
	s := Block[float32]{pick("left"), pick("signal"), pick("right")}
	f := SignalFrequency(1, s, m)
	from, to := m.BinToFrequency(1, BinFrom), m.BinToFrequency(1, BinTo)
	vAssert(vAnd(from <= f, f <= to), "the signal frequency lies within its bin")
	if s[0] == s[2] {
		vAssert(f == m.BinToFrequency(1, BinCenter), "equal neighbours give the bin centre")
	}
	vReach("end")
}

//verif:harness vHarness_real mode=arith merge=2 budget=60/600
func vHarness_real() {
	n := 1 + vChoose("bins", 5)
	s := make(Block[float64], n)
	for i := range s {
		s[i] = vFloat64In("level", -1e9, 1e9)
	}
	rate := 48000
	if vChoose("rate", 2) == 1 {
		rate = 12000
	}
	m := NewFrequencyMapping[int](rate, 512, vInt("center", 0, 100000000))
	bin := vChoose("bin", n)
	if bin > 0 && bin < n-1 {
		vAssume(2*s[bin]-s[bin-1]-s[bin+1] != 0) // levels on a straight line: see vHarness_exact
	}
	f := SignalFrequency(bin, s, m)
	from, at, to := m.BinToFrequency(bin, BinFrom), m.BinToFrequency(bin, BinCenter), m.BinToFrequency(bin, BinTo)
	vAssert(vAnd(from <= f, f <= to), "the signal frequency lies within its bin")
	if bin == 0 || bin == n-1 {
		vReach("edge")
		return
	}
	l, y, r := s[bin-1], s[bin], s[bin+1]
	vAssert(vOr(l != r, f == at), "equal neighbours give the bin centre")
	if vAnd(y >= l, y >= r) {
		vAssert(vOr(l <= r, f <= at), "the signal frequency leans towards a stronger lower neighbour")
		vAssert(vOr(r <= l, f >= at), "the signal frequency leans towards a stronger upper neighbour")
		// the vertex of the parabola through the three levels
		want := (r - l) / (2 * (2*y - l - r))
		binSize := float64(rate) / 512
		clear := vOr(r-l > 1e-3, l-r > 1e-3)
		d := float64(f) - float64(at) - want*binSize
		vAssert(vOr(vNot(clear), vAnd(d < 1.01, d > -1.01)), "the signal frequency is the vertex of the parabola through the levels")
	}
	vReach("end")
}

//verif:harness vHarness_int mode=arith merge=2 budget=60/600
func vHarness_int() {
	s := Block[int]{vInt("l", -1000000, 1000000), vInt("y", -1000000, 1000000), vInt("r", -1000000, 1000000)}
	vAssume(2*s[1]-s[0]-s[2] != 0)
	m := NewFrequencyMapping[int](48000, 512, 7020000)
	f := SignalFrequency(1, s, m)
	from, at, to := m.BinToFrequency(1, BinFrom), m.BinToFrequency(1, BinCenter), m.BinToFrequency(1, BinTo)
	vAssert(vAnd(from <= f, f <= to), "the signal frequency lies within its bin")
	vAssert(vOr(s[0] != s[2], f == at), "equal neighbours give the bin centre")
	vReach("end")
}

//verif:harness vHarness_search mode=arith merge=0 p.n=3/5 budget=60/600
func vHarness_search() {
	// the peak search reports the interpolated frequency of the peak's signal bin
	n := vParam("n", 3)
	s := make(Block[float64], n)
	for i := range s {
		s[i] = vFloat64In("level", -1e6, 1e6)
	}
	m := NewFrequencyMapping[int](48000, 512, 7020000)
	for _, p := range FindPeaks(nil, s, 2, vFloat64In("threshold", -1e5, 1e5), m) {
		from, to := m.BinToFrequency(p.SignalBin, BinFrom), m.BinToFrequency(p.SignalBin, BinTo)
		vAssert(vAnd(from <= p.SignalFrequency, p.SignalFrequency <= to), "the signal frequency lies within its bin")
		vAssert(p.SignalFrequency == SignalFrequency(p.SignalBin, s, m), "a peak carries the frequency of its signal bin")
		if p.SignalBin > 0 && p.SignalBin < n-1 {
			at := m.BinToFrequency(p.SignalBin, BinCenter)
			l, r := s[p.SignalBin-1], s[p.SignalBin+1]
			vAssert(vOr(l != r, p.SignalFrequency == at), "equal neighbours give the bin centre")
			vAssert(vOr(l <= r, p.SignalFrequency <= at), "the signal frequency leans towards a stronger lower neighbour")
			vAssert(vOr(r <= l, p.SignalFrequency >= at), "the signal frequency leans towards a stronger upper neighbour")
		}
	}
	vReach("end")
}
