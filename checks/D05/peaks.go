package dsp

//verif:bound spectra of 1..6 (quick) / 1..10 (thorough) bins with any values within +-10^6, every threshold, cumulation counts 1, 2, 4, 30, 100, a second search reusing the buffer; real-number semantics for the floating-point instantiation, exact 64-bit integers for the integer one
//verif:assume the spectrum and the threshold are finite

type vRun struct{ from, to int }

// vCheckPeaks compares the result with the maximal runs of bins above the threshold, deciding bin membership bin by bin.
func vCheckPeaks(peaks []Peak[float64, int], spectrum Block[float64], cum int, threshold float64, m *FrequencyMapping[int]) {
	n := len(spectrum)
	var runs []vRun
	for i := 0; i < n; i++ {
		above := spectrum[i]/float64(cum) > threshold
		if above { // decided by forking: afterwards the runs are concrete
			if len(runs) > 0 && runs[len(runs)-1].to == i-1 {
				runs[len(runs)-1].to = i
			} else {
				runs = append(runs, vRun{i, i})
			}
		}
	}
	vAssert(len(peaks) == len(runs), "there is one peak for each run of bins above the threshold")
	for k, r := range runs {
		p := peaks[k]
		vAssert(vAnd(p.From == r.from, p.To == r.to), "a peak covers exactly its run")
		vAssert(vAnd(r.from <= p.SignalBin, p.SignalBin <= r.to), "the signal bin belongs to the run")
		best := spectrum[r.from]
		at := 0.0
		for i := r.from; i <= r.to; i++ {
			best = vIteFloat(spectrum[i] > best, spectrum[i], best)
			at = vIteFloat(p.SignalBin == i, spectrum[i], at)
		}
		vAssert(at == best, "the signal bin is the strongest bin of the run")
		vAssert(vNear(p.SignalValue, best/float64(cum)), "the signal value is the averaged value of the strongest bin")
		vAssert(p.FromFrequency == m.BinToFrequency(r.from, BinFrom), "a peak's range begins with its first bin")
		vAssert(p.ToFrequency == m.BinToFrequency(r.to, BinTo), "a peak's range ends with its last bin")
		vAssert(vAnd(p.FromFrequency <= p.SignalFrequency, p.SignalFrequency <= p.ToFrequency), "the signal frequency lies within the peak")
		b := vInt("bin", -3, 15)
		vAssert(p.ContainsBin(b) == vAnd(r.from <= b, b <= r.to), "a peak contains exactly the bins of its run")
		vAssert(vAnd(p.Width() == r.to-r.from+1, p.WidthHz() == p.ToFrequency-p.FromFrequency), "the width covers the whole run")
		vAssert(vAnd(r.from <= p.Center(), p.Center() <= r.to), "the centre bin belongs to the run")
	}
}

func vNear(a, b float64) bool {
	return vAnd(a-b <= 1e-3, b-a <= 1e-3)
}

func vCum() int { return []int{1, 2, 4, 30, 100}[vChoose("cumulation", 5)] }

func vSpectrum(n int) Block[float64] {
	r := make(Block[float64], n)
	for i := range r {
		r[i] = vFloat64In("bin value", -1e6, 1e6)
	}
	return r
}

//verif:harness vHarness_runs mode=arith merge=0 p.n=5/8 budget=80/800
func vHarness_runs() {
	n := 1 + vChoose("bins", vParam("n", 5))
	m := NewFrequencyMapping[int](48000, 512, vInt("center", 0, 100000000))
	cum := 30
	if n < 5 {
		cum = vCum()
	}
	threshold := vFloat64In("threshold", -1e5, 1e5)
	s := vSpectrum(n)
	vCheckPeaks(FindPeaks(nil, s, cum, threshold, m), s, cum, threshold, m)
	vReach("end")
}

//verif:harness vHarness_reuse mode=arith merge=0 p.n=3/4 budget=60/600
func vHarness_reuse() {
	n := 1 + vChoose("bins", vParam("n", 3))
	m := NewFrequencyMapping[int](48000, 512, 7020000)
	buf := make([]Peak[float64, int], 0, vChoose("capacity", 2)*n)
	threshold := vFloat64In("threshold", -1e5, 1e5)
	s := vSpectrum(n)
	peaks := FindPeaks(buf, s, 2, threshold, m)
	vCheckPeaks(peaks, s, 2, threshold, m)
	s = vSpectrum(n)
	vCheckPeaks(FindPeaks(peaks, s, 2, threshold, m), s, 2, threshold, m)
	vReach("end")
}

//verif:harness vHarness_int mode=arith merge=0 p.n=4/6 budget=60/600
func vHarness_int() {
	n := 1 + vChoose("bins", vParam("n", 4))
	m := NewFrequencyMapping[int](48000, 512, 7020000)
	threshold := vInt("threshold", -1000000, 1000000)
	s := make(Block[int], n)
	var runs []vRun
	for i := range s {
		s[i] = vInt("value", -1000000, 1000000)
		if s[i] > threshold {
			if len(runs) > 0 && runs[len(runs)-1].to == i-1 {
				runs[len(runs)-1].to = i
			} else {
				runs = append(runs, vRun{i, i})
			}
		}
	}
	peaks := FindPeaks(nil, s, 1, threshold, m)
	vAssert(len(peaks) == len(runs), "there is one peak for each run of bins above the threshold")
	for k, r := range runs {
		p := peaks[k]
		vAssert(vAnd(p.From == r.from, p.To == r.to), "a peak covers exactly its run")
		vAssert(vAnd(r.from <= p.SignalBin, p.SignalBin <= r.to), "the signal bin belongs to the run")
		for i := r.from; i <= r.to; i++ {
			vAssert(s[i] <= p.SignalValue, "the signal value is that of the strongest bin")
			vAssert(vOr(p.SignalBin != i, s[i] == p.SignalValue), "the signal value is that of the signal bin")
		}
	}
	vReach("end")
}
