package rx

import (
	"strings"
	"time"

	"github.com/ftl/sdrainer/dsp"
)

//verif:include receiver.go
//verif:include listener.go
//verif:stub github.com/ftl/hamradio/dxcc.LocalFilename = vNoFile
//verif:stub github.com/ftl/hamradio/scp.LocalFilename = vNoFile
//verif:stub (*github.com/ftl/sdrainer/dsp.FFT[T]).IQToSpectrumAndPSD = vStubFFT
//verif:bound in decode mode: every bin of a block of 20, one letter keyed at any level above and below the threshold and anything beside it, before and after another bin was selected; in strain mode: up to 3 listeners and any of 20 bins, selected twice
//verif:assume the spectral analysis is replaced by a stand-in that delivers chosen spectra

//verif:harness vHarness_decode conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 timers=0 steps=40000000 budget=150/300
func vHarness_decode() {
	// in decode mode, what is keyed at the VFO's frequency reaches the console, and nothing else
	vQuiet(true)
	const blockSize, rate, center = 20, 1875, 7_000_000
	clock := new(manualClock)
	clock.Set(time.Now())
	reports, out := &vReports{}, &strings.Builder{}
	r := NewReceiver[float32, int]("x", DecodeMode, clock)
	r.out = NewChannelWriter(out)
	r.AddReporter(reports)
	r.SetEdgeWidth(0)
	r.SetCenterFrequency(center)
	r.Start(rate, blockSize)
	high, low, beside := vFloat32("high"), vFloat32("low"), vFloat32("beside")
	vAssume(vAnd(high > 150, high < 10000))
	vAssume(vAnd(low > -10000, low < 130))
	vAssume(vAnd(beside > -10000, beside < 10000))
	vNextPSD = make([]float32, blockSize)
	for i := range vNextPSD {
		vNextPSD[i] = float32(1 + i%2) // noise that varies
	}
	frames := func(n, bin int, value, others float32) {
		vNextSpectrum = make([]float32, blockSize)
		for i := range vNextSpectrum {
			vNextSpectrum[i] = others
		}
		vNextSpectrum[bin] = value
		frame := make([]float32, 2*blockSize)
		for ; n > 0; n -= 100 {
			for i := 0; i < min(n, 100); i++ {
				r.IQData(rate, frame)
			}
			vSettle()
		}
	}
	frames(100, 0, low, low)
	bin := vChoose("bin", blockSize)
	for i := 0; i < 2; i++ {
		r.SetVFOOffset(r.frequencyMapping.BinToFrequency(bin, 0) - center)
		vSettle()
		last := reports.all[len(reports.all)-1]
		vAssert(last.what == "activated" && last.frequency == r.frequencyMapping.BinToFrequency(bin, 0), "there is a listener at the VFO's frequency")
		vAssert(len(reports.all) == 2*i+1, "there is only one listener")
		frames(300, bin, low, beside)
		before := out.Len()
		frames(6, bin, high, beside)
		frames(300, bin, low, beside)
		vAssert(strings.TrimSpace(out.String()[before:]) == "e", "what is keyed at the VFO's frequency reaches the console")
		bin = (bin + 7) % blockSize
	}
	r.Stop()
	vReach("end")
}

//verif:harness vHarness_strain conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 timers=0 steps=40000000 budget=150/300
func vHarness_strain() {
	// in strain mode, the text of the listener on the VFO's frequency reaches the console
	vQuiet(true)
	const blockSize, rate, center = 20, 1875, 7_000_000
	clock := new(manualClock)
	clock.Set(time.Now())
	out := &strings.Builder{}
	r := NewReceiver[float32, int]("x", StrainMode, clock)
	r.out = NewChannelWriter(out)
	r.AddReporter(&vReports{})
	r.SetCenterFrequency(center)
	r.Start(rate, blockSize)
	n := vChoose("listeners", 4)
	var bound []*Listener[float32, int]
	for i := 0; i < n; i++ {
		r.do(func() {
			l, _ := r.listeners.BindNext()
			bin := 6*i + 2
			l.Attach(&dsp.Peak[float32, int]{From: bin - 2, To: bin + 2, SignalFrequency: r.frequencyMapping.BinToFrequency(bin, 0), SignalBin: bin})
			bound = append(bound, l)
		})
	}
	vSettle()
	for i := 0; i < 2; i++ {
		bin := vChoose("bin", blockSize)
		r.SetVFOOffset(r.frequencyMapping.BinToFrequency(bin, 0) - center)
		vSettle()
		before := out.Len()
		want := ""
		for j, l := range bound {
			text := []string{"ab", "cd", "ef"}[j]
			r.do(func() { l.textProcessor.Write([]byte(text)) })
			if bin >= 6*j && bin <= 6*j+4 {
				want = text
			}
		}
		vSettle()
		vAssert(out.String()[before:] == want, "the text of the listener on the VFO's frequency reaches the console, and nothing else")
	}
	r.Stop()
	vReach("end")
}
