package dsp

import (
	"github.com/mjibson/go-dsp/fft"
)

//verif:bound spectrum order: block sizes 2..9 (quick) / 2..24 (thorough) plus 64, every FFT result; the FFT algorithm itself (go-dsp) is replaced by the identity, so every vector of results is covered
//verif:bound frequency mapping: sample rates and block sizes 12000/512, 12001/512, 48000/512, 96000/1024, 192000/2048, 8000/128, 44100/1024, 48000/480; every centre frequency 0..1 GHz, every bin, every integer frequency (and every real one for the floating-point instantiation), real-number semantics
//verif:assume bins are at least 2 Hz wide
//verif:stub github.com/mjibson/go-dsp/fft.FFT = vStubFFT

func vStubFFT(x []complex128) []complex128 {
	r := make([]complex128, len(x))
	copy(r, x)
	return r
}

func vSize() int {
	n := vChoose("size", vParam("n", 8)+1)
	if n == vParam("n", 8) {
		return 64
	}
	return n + 2
}

func vNear(a, b float64) bool {
	return vAnd(a-b <= 1e-3, b-a <= 1e-3)
}

//verif:harness vHarness_order mode=arith merge=2 p.n=8/23 budget=60/600
func vHarness_order() {
	n := vSize()
	f := NewFFT[float64]()
	proj := func(v complex128, k int) float64 { return real(v) - 2*imag(v) + float64(k) }
	rounds := 1 + vChoose("rounds", 2)
	for round := 0; round < rounds; round++ {
		iq := make([]float64, 2*n)
		samples := make([]complex128, n)
		for i := range samples {
			iq[2*i], iq[2*i+1] = vFloat64In("i", -100, 100), vFloat64In("q", -100, 100)
			samples[i] = complex(iq[2*i], iq[2*i+1])
		}
		res := fft.FFT(samples)
		spectrum := make([]float64, n)
		psd := make([]float64, n)
		withPSD := vChoose("psd", 2) == 1
		if withPSD {
			f.IQToSpectrumAndPSD(spectrum, psd, iq, proj)
		} else {
			f.IQToSpectrum(spectrum, iq, proj)
		}
		for k := 0; k < n; k++ {
			freq := k - n/2 // in bins, relative to the centre frequency
			v := res[(freq+n)%n]
			vAssert(vNear(spectrum[k], proj(v, n)), "bin k carries the result for frequency k-n/2")
			if withPSD {
				re, im := real(v), imag(v)
				vAssert(vNear(psd[k], re*re+im*im), "the power spectrum is in the order of the spectrum")
			}
		}
	}
	vReach("end")
}

//verif:harness vHarness_length mode=arith merge=2 budget=20/60
func vHarness_length() {
	n := 2 + vChoose("size", 6)
	m := vChoose("length", 10)
	if m == n {
		return
	}
	iq := make([]float64, 2*n)
	f := NewFFT[float64]()
	spectrum, psd := make([]float64, m), make([]float64, m)
	both := vChoose("psd", 2) == 1
	refused, _ := vCatch(func() {
		if both {
			f.IQToSpectrumAndPSD(spectrum, psd, iq, Magnitude[float64])
		} else {
			f.IQToSpectrum(spectrum, iq, Magnitude[float64])
		}
	})
	vAssert(refused, "a spectrum of another length is refused")
	vReach("end")
}

func vConfig() (int, int) {
	c := [][2]int{{12000, 512}, {12001, 512}, {48000, 512}, {96000, 1024}, {192000, 2048}, {8000, 128}, {44100, 1024}, {48000, 480}}[vChoose("config", 8)]
	return c[0], c[1]
}

//verif:harness vHarness_mapInt mode=arith merge=2 budget=60/300
func vHarness_mapInt() {
	rate, size := vConfig()
	center := vInt("center", 0, 1000000000)
	m := NewFrequencyMapping[int](rate, size, 7000000)
	if vChoose("new", 2) == 1 {
		m = NewFrequencyMapping[int](rate, size, center)
	} else {
		m.SetCenterFrequency(center)
	}
	bin := vInt("bin", 0, size-1)
	at := m.BinToFrequency(bin, BinCenter)
	from, to := m.BinToFrequency(bin, BinFrom), m.BinToFrequency(bin, BinTo)
	vAssert(m.FrequencyToBin(at) == bin, "a bin's centre frequency lies in the bin")
	f := vInt("f", -100000, 1000200000)
	if vAnd(from+1 <= f, f <= to-1) {
		vAssert(m.FrequencyToBin(f) == bin, "a frequency within a bin's range lies in the bin")
	}
	want := float64(center) + float64(bin-size/2)*float64(rate)/float64(size)
	vAssert(vAnd(float64(at)-want < 1.6, want-float64(at) < 1.6), "bins are centred on the grid around the centre frequency")
	half := 0.5 * float64(rate) / float64(size)
	vAssert(vAnd(want-half-float64(from) < 1.6, float64(from)-want+half < 1.6), "a bin begins half a bin below its centre")
	vAssert(vAnd(want+half-float64(to) < 1.6, float64(to)-want-half < 1.6), "a bin ends half a bin above its centre")
	vAssert(vAnd(from < at, at < to), "a bin's centre lies within its range")
	if bin < size-1 {
		vAssert(at < m.BinToFrequency(bin+1, BinCenter), "frequencies increase with the bin number")
	}
	if f <= center-rate/2 {
		vAssert(m.FrequencyToBin(f) == 0, "frequencies below the band belong to the first bin")
	}
	if f >= center+rate/2 {
		vAssert(m.FrequencyToBin(f) == size-1, "frequencies above the band belong to the last bin")
	}
	g := m.FrequencyToBin(f)
	vAssert(vAnd(0 <= g, g < size), "every frequency belongs to a bin")
	vAssert(m.FrequencyToBin(center) == size/2, "the centre frequency lies in the middle bin")
	vReach("end")
}

//verif:harness vHarness_mapFloat mode=arith merge=2 budget=60/300
func vHarness_mapFloat() {
	rate, size := vConfig()
	center := vInt("center", 0, 1000000000)
	m := NewFrequencyMapping[float64](rate, size, float64(center))
	bin := vInt("bin", 0, size-1)
	at := m.BinToFrequency(bin, BinCenter)
	vAssert(m.FrequencyToBin(at) == bin, "a bin's centre frequency lies in the bin")
	f := vFloat64In("f", -100000, 1000200000)
	if vAnd(m.BinToFrequency(bin, BinFrom)+1 <= f, f <= m.BinToFrequency(bin, BinTo)-1) {
		vAssert(m.FrequencyToBin(f) == bin, "a frequency within a bin's range lies in the bin")
	}
	g := m.FrequencyToBin(f)
	vAssert(vAnd(0 <= g, g < size), "every frequency belongs to a bin")
	if f <= float64(center-rate/2) {
		vAssert(g == 0, "frequencies below the band belong to the first bin")
	}
	if f >= float64(center+rate/2) {
		vAssert(g == size-1, "frequencies above the band belong to the last bin")
	}
	vReach("end")
}
