package dsp

import "math"

//verif:bound detectors with block sizes 4..16 samples (8 kHz, pitches 2000, 1000, 500 Hz); up to 2 (quick) / 3 (thorough) blocks of any samples within full scale before the checked block, every threshold above zero, buffers of any length up to two blocks; real-number semantics
//verif:bound block sizes: every pitch 20..4000 Hz at 8000, 11025, 12000, 44100, 48000 and 96000 samples/s with the default ratio

type vGCase struct {
	pitch float64
	ratio float64
}

func vFilter(k int) *Goertzel {
	c := []vGCase{{2000, 0.0005}, {1000, 0.001}, {2000, 0.001}, {500, 0.002}}[k]
	return NewGoertzel(c.pitch, 8000, c.ratio)
}

func vBlock(n int) []float32 {
	r := make([]float32, n)
	for i := range r {
		r[i] = float32(vFloat64In("sample", -1, 1))
	}
	return r
}

func vNear(a, b float64) bool {
	return vAnd(a-b <= 1e-4, b-a <= 1e-4)
}

//verif:harness vHarness_short mode=arith merge=2 budget=30/200
func vHarness_short() {
	f := vFilter(vChoose("filter", 3))
	n := f.Blocksize()
	history := vChoose("history", 2)
	g := *f
	for i := 0; i < history; i++ {
		b := vBlock(n)
		f.Detect(b)
		g.Detect(b)
	}
	short := vChoose("short", n)
	mag, state, used, err := f.Detect(vBlock(short))
	vAssert(err != nil, "too few samples are an error")
	vAssert(vAnd(mag == 0, !state, used == 0), "too few samples are not evaluated")
	next := vBlock(n)
	m1, s1, _, _ := f.Detect(next)
	m2, s2, _, _ := g.Detect(next)
	vAssert(vAnd(m1 == m2, s1 == s2), "a failed detection changes nothing")
	vReach("end")
}

//verif:harness vHarness_first mode=arith merge=2 budget=30/200
func vHarness_first() {
	f := vFilter(vChoose("filter", 3))
	n := f.Blocksize()
	g := *f
	for i := vChoose("history", 2); i > 0; i-- {
		b := vBlock(n)
		f.Detect(b)
		g.Detect(b)
	}
	b := vBlock(n)
	m1, s1, used, err := f.Detect(append(append([]float32{}, b...), vBlock(1+vChoose("more", n+1))...))
	m2, s2, used2, err2 := g.Detect(b)
	vAssert(vAnd(err == nil, err2 == nil, used == n, used2 == n), "exactly one block is taken")
	vAssert(vAnd(m1 == m2, s1 == s2), "samples after the first block have no influence")
	vReach("end")
}

//verif:harness vHarness_level mode=arith merge=2 p.h=2/3 budget=60/600
func vHarness_level() {
	f := vFilter(vChoose("filter", 3))
	n := f.Blocksize()
	threshold := vFloat64In("threshold", 0.000001, 10)
	f.SetMagnitudeThreshold(threshold)
	vAssert(f.MagnitudeThreshold() == threshold, "the threshold is the one set")
	low := float64(n) / 2
	for i := 0; i < vParam("h", 2); i++ {
		// the level depends on the magnitude only, and one sample yields any magnitude
		b := make([]float32, n)
		b[n-1] = float32(vFloat64In("sample", -1e6, 1e6))
		mag := f.Magnitude(b)
		got, state, _, _ := f.Detect(b)
		vAssert(vAnd(got >= 0, got*low <= mag+1e-6), "the reference level never falls below its lower limit")
		vAssert(state == (got > threshold), "a block is detected when its level exceeds the threshold")
		vAssert(vOr(mag > 0.001, got < 0.001), "nothing is amplified out of silence")
	}
	got, state, _, _ := f.Detect(make([]float32, n))
	vAssert(vAnd(got == 0, !state), "silence is never detected")
	vReach("end")
}

//verif:harness vHarness_silence mode=exact merge=2 budget=60/200
func vHarness_silence() {
	// exact arithmetic: silence after one block of any single sample value
	f := vFilter(0)
	b := make([]float32, f.Blocksize())
	b[vChoose("at", len(b))] = []float32{1, -1, 0.3, 1e-30, float32(math.MaxFloat32)}[vChoose("value", 5)]
	f.SetMagnitudeThreshold(vFloat64In("threshold", 1e-9, 10))
	f.Detect(b)
	got, state, _, _ := f.Detect(make([]float32, f.Blocksize()))
	vAssert(vAnd(got == 0, !state), "silence is never detected")
	vReach("end")
}

//verif:harness vHarness_tone mode=arith merge=2 budget=60/400 p.f=3/4
func vHarness_tone() {
	// the magnitude is that of the pitch's frequency component (discrete Fourier transform)
	k := vChoose("filter", vParam("f", 3))
	f := vFilter(k)
	n := f.Blocksize()
	pitch := []float64{2000, 1000, 2000, 500}[k]
	// the squared magnitude is a quadratic form of the samples, so pairs of samples determine it
	i, j := vChoose("i", n), vChoose("j", n)
	b := make([]float32, n)
	b[i] = float32(vFloat64In("sample", -1, 1))
	b[j] = float32(vFloat64In("sample", -1, 1))
	re, im := 0.0, 0.0
	for i, s := range b {
		w := 2 * math.Pi * pitch * float64(i) / 8000
		re += float64(s) * math.Cos(w)
		im += float64(s) * math.Sin(w)
	}
	mag := f.Magnitude(b)
	vAssert(vAnd(mag >= 0, vNear(mag*mag, re*re+im*im)), "the magnitude is that of the pitch frequency in the block")
	vReach("end")
}

//verif:harness vHarness_blocksize mode=arith merge=0 budget=60/200
func vHarness_blocksize() {
	rate := []int{8000, 11025, 12000, 44100, 48000, 96000}[vChoose("rate", 6)]
	pitch := vFloat64In("pitch", 20, 4000)
	n := calculateBlocksize(pitch, rate, DefaultBlocksizeRatio)
	period := float64(rate) / pitch
	vAssert(n >= 1, "a block has at least one sample")
	vAssert(vOr(float64(n) < 1.51*DefaultBlocksizeRatio*float64(rate)+1, float64(n) < period+1), "a block is not longer than needed")
	vReach("end")
}
