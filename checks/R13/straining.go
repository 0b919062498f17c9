package rx

import (
	"strings"
	"time"
)

//verif:include receiver.go
//verif:include listener.go
//verif:stub github.com/ftl/hamradio/dxcc.LocalFilename = vNoFile
//verif:stub github.com/ftl/hamradio/scp.LocalFilename = vNoFile
//verif:stub (*github.com/ftl/sdrainer/dsp.FFT[T]).IQToSpectrumAndPSD = vStubFFT
//verif:stub math/rand.Intn = vDraw
//verif:bound blocks of 8 bins with up to 2 signals, 1 or 2 listeners, 3 (quick) / 4 (thorough) rounds of 100 frames, each after any period of up to 4.8 hours to the nanosecond; any attachment or silence timeout; for the decoded text: one letter on each of 20 bins, with any level above and below the threshold and anything beside it
//verif:assume signals of 0, 3.5, 6, 9.5, 20 and 66 dB over three noise levels for any threshold (0.05 dB beside it are left open); the spectral analysis is replaced by a stand-in that delivers chosen spectra; cleaning up is invoked between the rounds, not by its timer; one schedule (the schedules are the subject of R08 and R09)

const (
	vDay  = 1 << 44
	vBins = 8
	vHigh = 1000
)

// vDraw stands for the random choice of a bin, which is decided by R03.
func vDraw(n int) int { return 0 }

type vSignal struct {
	bin   int
	state peakState
	id    string // of its listener
	freq  int
	since time.Duration // of the detection
	begun time.Duration // of the attachment
}

func vStrainer(size int) (*Receiver[float32, int], *manualClock, *vReports, *strings.Builder) {
	clock := new(manualClock)
	clock.Set(time.Now())
	reports, out := &vReports{}, &strings.Builder{}
	r := NewReceiver[float32, int]("x", StrainMode, clock)
	r.listeners = NewListenerPool[float32, int](size, "x", r.newListener)
	r.out = NewChannelWriter(out)
	r.AddReporter(reports)
	r.SetEdgeWidth(0)
	r.SetCenterFrequency(7_000_000)
	return r, clock, reports, out
}

// vHz are the limits of a bin.
func vHz(r *Receiver[float32, int], bin int) (int, int) {
	return r.frequencyMapping.BinToFrequency(bin, -0.5), r.frequencyMapping.BinToFrequency(bin, 0.5)
}

func vFrameOf(bins ...int) {
	vNextSpectrum = make([]float32, vBins)
	for _, b := range bins {
		vNextSpectrum[b] = vHigh
	}
}

func vRound(r *Receiver[float32, int], n int) {
	frame := make([]float32, 2*vBins)
	for i := 0; i < n; i++ {
		r.IQData(48000, frame)
	}
	vSettle()
}

//verif:harness vHarness_rounds conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 timers=0 steps=40000000 p.n=3/4 budget=300/600
func vHarness_rounds() {
	vQuiet(true)
	size := 1 + vChoose("listeners", 2)
	r, clock, reports, _ := vStrainer(size)
	timeout := time.Duration(vInt("timeout", 0, vDay))
	if vChoose("kind", 2) == 0 {
		r.SetAttachmentTimeout(timeout)
		r.SetSilenceTimeout(1 << 60)
	} else {
		r.SetAttachmentTimeout(1 << 60)
		r.SetSilenceTimeout(timeout)
	}
	r.Start(48000, vBins)
	now := time.Duration(0)
	signals := []*vSignal{{bin: 2}, {bin: 5}}
	busy := 0
	for i := 0; i < vParam("n", 3); i++ {
		step := time.Duration(vInt("passed", 0, vDay))
		clock.Add(step)
		now += step
		if i > 0 && vBool("cleanup") {
			r.peaks.Cleanup()
			for _, s := range signals {
				if (s.state == peakNew || s.state == peakInactive) && now-s.since >= 2*time.Minute {
					s.state = peakNone
				}
			}
		}
		both := vBool("both")
		if both {
			vFrameOf(2, 5)
		} else {
			vFrameOf(2)
		}

		// the first frame ends what is due, and nothing else happens before the last one
		n := len(reports.all)
		vRound(r, 1)
		for _, s := range signals {
			if s.state == peakActive && now-s.begun > timeout {
				s.state = peakInactive
				busy--
				ended := 0
				for _, x := range reports.all[n:] {
					if x.what == "deactivated" && x.listener == s.id && x.frequency == s.freq {
						ended++
					}
				}
				vAssert(ended == 1, "a listener is released when its time is up, which is reported once")
				n++
			}
		}
		vAssert(len(reports.all) == n, "a listener is not released before its time is up")
		vAssert(len(r.listeners.listeners) == busy, "exactly the listeners that are not released remain")
		vRound(r, cumulationSize-2)
		vAssert(len(reports.all) == n, "nothing happens before a full round")
		vRound(r, 1)
		candidates := 0
		if busy < size {
			for _, s := range signals {
				if (s.bin == 2 || both) && (s.state == peakNone || s.state == peakNew) {
					s.state, s.since = peakNew, now
				}
				if s.state == peakNew {
					candidates++
				}
			}
		}
		if candidates == 0 {
			vAssert(len(reports.all) == n, "nobody listens twice to a signal, and nobody listens to nothing")
			continue
		}
		vAssert(len(reports.all) == n+1, "a signal gets a listener if one is free")
		x := reports.all[n]
		vAssert(x.what == "activated", "a signal gets a listener if one is free")
		found := false
		for _, s := range signals {
			from, to := vHz(r, s.bin)
			if s.state == peakNew && from <= x.frequency && x.frequency <= to {
				found = true
				s.state, s.id, s.freq, s.begun = peakActive, x.listener, x.frequency, now
				break
			}
		}
		vAssert(found, "the listener is on a signal that nobody has listened to")
		busy++
		vAssert(busy <= size && len(r.listeners.listeners) == busy, "there are not more listeners than there may be")
		for _, s := range signals {
			for _, t := range signals {
				vAssert(s == t || s.state != peakActive || t.state != peakActive || s.id != t.id, "the listeners have different identities")
			}
		}
	}
	n := len(reports.all)
	r.Stop()
	vAssert(len(reports.all) == n+busy, "stopping releases every listener once")
	vReach("end")
}

//verif:harness vHarness_text conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 timers=0 steps=40000000 budget=150/300
func vHarness_text() {
	// a listener decodes what is keyed on its own signal, whatever its level and whatever happens beside it
	vQuiet(true)
	const blockSize, rate = 20, 1875
	r, _, reports, out := vStrainer(1)
	r.Start(rate, blockSize)
	bin := vChoose("bin", blockSize)
	high, low, beside := vFloat32("high"), vFloat32("low"), vFloat32("beside")
	vAssume(vAnd(high > 150, high < 10000))
	vAssume(vAnd(low > -10000, low < 130))
	vAssume(vAnd(beside > -10000, beside < 10000))
	vNextPSD = make([]float32, blockSize)
	for i := range vNextPSD {
		vNextPSD[i] = float32(1 + i%2) // noise that varies
	}
	frames := func(n int, value, others float32) {
		vNextSpectrum = make([]float32, blockSize)
		for i := range vNextSpectrum {
			vNextSpectrum[i] = others
		}
		vNextSpectrum[bin] = value
		frame := make([]float32, 2*blockSize)
		for ; n > 0; n -= cumulationSize {
			for i := 0; i < min(n, cumulationSize); i++ {
				r.IQData(rate, frame)
			}
			vSettle()
		}
	}
	frames(cumulationSize, vHigh, 0)
	vAssert(len(reports.all) == 1 && reports.all[0].what == "activated", "the signal gets a listener")
	from, to := vHz(r, bin)
	vAssert(from <= reports.all[0].frequency && reports.all[0].frequency <= to, "the listener is on the signal")
	r.SetVFOOffset(reports.all[0].frequency - 7_000_000)
	vSettle()
	frames(3*cumulationSize, low, beside)
	before := out.Len()
	frames(6, high, beside)
	frames(3*cumulationSize, low, beside)
	vAssert(strings.TrimSpace(out.String()[before:]) == "e", "a listener decodes what is keyed on its own signal")
	r.Stop()
	vReach("end")
}

//verif:harness vHarness_threshold conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 timers=0 steps=40000000 budget=150/300
func vHarness_threshold() {
	// a signal is detected exactly if it exceeds the noise by more than the threshold
	vQuiet(true)
	r, _, reports, _ := vStrainer(1)
	threshold := vFloat32("threshold")
	vAssume(vAnd(threshold > 0, threshold < 100))
	r.SetPeakThreshold(threshold)
	r.Start(48000, vBins)
	noise := []complex128{1, 0.001i, 300 - 400i}[vChoose("noise", 3)]
	bin, level := vChoose("bin", vBins), vChoose("level", 6)
	vNextFFT = make([]complex128, vBins)
	for i := range vNextFFT {
		vNextFFT[i] = noise
	}
	vNextFFT[bin] = noise * []complex128{1, 1.5, 2, 3i, -10, 2000}[level]
	db := []float32{0, 3.5218, 6.0206, 9.5424, 20, 66.0206}[level]
	vAssume(vOr(threshold < db-0.05, threshold > db+0.05))
	vRound(r, cumulationSize)
	vAssert((len(reports.all) == 1) == (threshold < db), "a signal gets a listener exactly if it exceeds the noise by more than the threshold")
	if len(reports.all) > 0 {
		from, to := vHz(r, bin)
		vAssert(from <= reports.all[0].frequency && reports.all[0].frequency <= to, "the listener is on the signal")
	}
	r.Stop()
	vReach("end")
}
