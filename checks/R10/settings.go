package rx

import (
	"time"

	"github.com/ftl/sdrainer/dsp"
	"github.com/ftl/sdrainer/scope"
)

//verif:include receiver.go
//verif:include listener.go
//verif:stub github.com/ftl/hamradio/dxcc.LocalFilename = vNoFile
//verif:stub github.com/ftl/hamradio/scp.LocalFilename = vNoFile
//verif:stub (*github.com/ftl/sdrainer/dsp.FFT[T]).IQToSpectrumAndPSD = vStubFFT
//verif:stub (*github.com/ftl/sdrainer/dsp.FrequencyMapping[F]).FrequencyToBin = vStubBin
//verif:stub math/rand.Intn = vZero
//verif:bound every setting made before the start, after the start or after a listener was bound, with any value (timeouts of up to 4.8 hours, any centre frequency, debounce of 1 to 3, edge width of 0 to 5, any peak threshold), for two listeners bound one after the other, and for up to 3 (quick) / 4 (thorough) bound at once; all interleavings of settings, the processing loop and a stop with up to 3 (quick) / 4 (thorough) preemptions
//verif:assume the spectral analysis is replaced by a stand-in that delivers chosen spectra, the mapping of frequencies to bins is decided by D04; random draws are decided by R03

type vScope struct {
	demod    []*scope.TimeFrame
	spectral []*scope.SpectralFrame
}

func (s *vScope) Active() bool { return true }
func (s *vScope) ShowTimeFrame(f *scope.TimeFrame) {
	if f.Stream == "demod" {
		s.demod = append(s.demod, f)
	}
}
func (s *vScope) ShowSpectralFrame(f *scope.SpectralFrame) { s.spectral = append(s.spectral, f) }

// vStubBin stands for the mapping of frequencies to bins (decided by D04).
func vStubBin(m *dsp.FrequencyMapping[int], frequency int) int { return 3 }

func vZero(n int) int { return 0 }

const vDay = 1 << 44

//verif:harness vHarness_listeners conc=1 preempt=0 mode=exact merge=2 mapFork=1 native=0 timers=0 steps=3000000 budget=200/400
func vHarness_listeners() {
	clock := new(manualClock)
	clock.Set(time.Now())
	reports := &vReports{}
	r := NewReceiver[float32, int]("x", DecodeMode, clock)
	r.AddReporter(reports)
	silence, attachment := time.Duration(vInt("silence", 0, vDay)), time.Duration(vInt("attachment", 0, vDay))
	debounce := 1 + vChoose("debounce", 3)
	s := &vScope{}
	whenTimeouts, whenDebounce, whenScope := vChoose("timeouts at", 3), vChoose("debounce at", 3), vChoose("scope at", 3)
	phase := func(i int) {
		if i == whenTimeouts {
			r.SetSilenceTimeout(silence)
			r.SetAttachmentTimeout(attachment)
		}
		if i == whenDebounce {
			r.SetSignalDebounce(debounce)
		}
		if i == whenScope {
			r.SetScope(s)
		}
		vSettle()
	}
	check := func() {
		vSettle()
		l, ok := r.listeners.First()
		vAssert(ok && l.Attached(), "a listener is bound to the selected frequency")
		passed := time.Duration(vInt("passed", 0, vDay))
		clock.Add(passed)
		vAssert(l.TimeoutExceeded() == vOr(passed > silence, passed > attachment), "the timeouts apply to every listener")
		n := len(s.demod)
		for i := 1; i <= debounce; i++ {
			l.Listen(2, 1)
			vAssert(len(s.demod) == n+i, "the scope applies to every listener")
			high := s.demod[n+i-1].Values["debounced"] > 0
			vAssert(high == (i >= debounce), "the debounce applies to every listener")
		}
	}
	phase(0)
	r.Start(48000, 8)
	phase(1)
	r.SetVFOOffset(1000)
	phase(2)
	check()
	r.SetVFOOffset(2000)
	check()
	r.Stop()
	vReach("end")
}

//verif:harness vHarness_several conc=1 preempt=0 mode=exact merge=2 mapFork=1 native=0 timers=0 steps=3000000 p.n=3/4 budget=150/300
func vHarness_several() {
	// strain mode: several listeners are bound at once, some before and some after the settings are made
	clock := new(manualClock)
	clock.Set(time.Now())
	r := NewReceiver[float32, int]("x", StrainMode, clock)
	r.AddReporter(&vReports{})
	silence, attachment := time.Duration(vInt("silence", 0, vDay)), time.Duration(vInt("attachment", 0, vDay))
	debounce := 1 + vChoose("debounce", 3)
	s := &vScope{}
	n := vParam("n", 3)
	when := vChoose("settings after", n+1)
	released := -1
	var bound []*Listener[float32, int]
	r.Start(48000, 12)
	for i := 0; i <= n; i++ {
		if i == when {
			if vChoose("order", 2) == 0 {
				r.SetSilenceTimeout(silence)
				r.SetAttachmentTimeout(attachment)
			} else {
				r.SetAttachmentTimeout(attachment)
				r.SetSilenceTimeout(silence)
			}
			r.SetSignalDebounce(debounce)
			r.SetScope(s)
		}
		if i == n {
			break
		}
		r.do(func() {
			l, ok := r.listeners.BindNext()
			vAssert(ok, "a free listener is bound")
			l.Attach(&dsp.Peak[float32, int]{From: 2 * i, To: 2 * i, SignalFrequency: 1000 * i, SignalBin: 2 * i})
			bound = append(bound, l)
		})
		vSettle()
		if i == 1 && vChoose("release", 2) == 1 { // one of them has gone meanwhile
			r.do(func() {
				released = 0
				bound[0].Detach()
				r.listeners.Release(bound[0])
			})
			vSettle()
		}
	}
	vSettle()
	passed := time.Duration(vInt("passed", 0, vDay))
	clock.Add(passed)
	for i, l := range bound {
		if i == released {
			continue
		}
		vAssert(l.TimeoutExceeded() == vOr(passed > silence, passed > attachment), "the timeouts apply to every listener")
		for j := 1; j <= debounce; j++ {
			c := len(s.demod)
			l.Listen(2, 1)
			vAssert(len(s.demod) == c+1, "the scope applies to every listener")
			high := s.demod[c].Values["debounced"] > 0
			vAssert(high == (j >= debounce), "the debounce applies to every listener")
		}
	}
	r.Stop()
	vReach("end")
}

//verif:harness vHarness_center conc=1 preempt=0 mode=exact merge=2 mapFork=1 native=0 timers=0 steps=3000000 p.n=4/5 budget=100/300
func vHarness_center() {
	reports := &vReports{}
	r := NewReceiver[float32, int]("x", DecodeMode, new(manualClock))
	r.AddReporter(reports)
	center := 0
	started := false
	for i := 0; i < vParam("n", 4); i++ {
		switch vChoose("operation", 4) {
		case 0:
			center = vInt("center", 0, 1<<40)
			r.SetCenterFrequency(center)
		case 1:
			r.Start(48000, 8)
			started = true
		case 2:
			r.Stop()
			started = false
		case 3:
			n := reports.count("activated")
			offset := vInt("offset", 0, 1<<20)
			r.SetVFOOffset(offset)
			vSettle()
			if started {
				vAssert(reports.count("activated") == n+1, "a listener is bound to the selected frequency")
				vAssert(reports.all[len(reports.all)-1].frequency == center+offset, "the centre frequency applies to the listener")
			}
		}
		vAssert(r.CenterFrequency() == center, "reading the centre frequency returns the last one set")
	}
	r.Stop()
	vReach("end")
}

//verif:harness vHarness_threshold conc=1 preempt=0 mode=arith merge=2 mapFork=1 native=0 timers=0 steps=3000000 budget=100/300
func vHarness_threshold() {
	// the edge width and the peak threshold decide which signals are detected
	s := &vScope{}
	r := NewReceiver[float32, int]("x", StrainMode, new(manualClock))
	r.SetScope(s)
	threshold := float32(vFloat64In("threshold", -1000, 1000))
	edge := vChoose("edge width", 6)
	whenThreshold, whenEdge := vChoose("threshold at", 3), vChoose("edge at", 3)
	phase := func(i int) {
		if i == whenThreshold {
			r.SetPeakThreshold(threshold)
		}
		if i == whenEdge {
			r.SetEdgeWidth(edge)
		}
		vSettle()
	}
	vNextPSD = []float32{0.01, 0.1, 1, 10, 100, 1000, 100, 10, 1, 0.1, 0.01, 0.01}
	vNextSpectrum = []float32{0, 0, 0, 0, 0, 150, 0, 0, 0, 0, 0, 0}
	feed := func() {
		for i := 0; i < cumulationSize; i++ {
			r.IQData(48000, make([]float32, 24))
			vSettle()
		}
	}
	phase(0)
	r.Start(48000, 12)
	phase(1)
	feed()
	phase(2)
	r.listeners.Reset()
	r.peaks.Reset()
	feed()
	noise, _ := dsp.FindNoiseFloor(dsp.Block[float32](vNextPSD), edge)
	floor := dsp.PSDValueIndB(noise, 12) + dBmShift
	got := s.spectral[len(s.spectral)-1].MagnitudeMarkers["threshold"]
	want := float64(floor + threshold)
	vAssert(vAnd(got-want < 0.01, want-got < 0.01), "the edge width and the peak threshold apply to the running receiver")
	n := 0
	r.listeners.ForEach(func(l *Listener[float32, int]) { n++ })
	vAssert(n <= 1, "one signal is one listener")
	vAssert(vOr(threshold+floor > 149.9, n == 1), "a signal above the threshold is detected")
	vAssert(vOr(threshold+floor < 150.1, n == 0), "a signal below the threshold is not detected")
	r.Stop()
	vReach("end")
}

//verif:harness vHarness_hang conc=1 preempt=2/3 mode=exact merge=0 mapFork=1 native=0 timers=1 steps=3000000 budget=150/300
func vHarness_hang() {
	r := NewReceiver[float32, int]("x", DecodeMode, new(manualClock))
	r.Start(48000, 2)
	done := make(chan bool)
	go func() {
		switch vChoose("setting", 4) {
		case 0:
			r.SetPeakThreshold(1)
		case 1:
			r.SetCenterFrequency(5)
			vAssert(r.CenterFrequency() == 5, "reading the centre frequency returns the last one set")
		case 2:
			r.SetSilenceTimeout(time.Second)
			r.SetSignalDebounce(2)
		case 3:
			r.SetVFOOffset(1)
		}
		done <- true
	}()
	r.Stop()
	<-done
	r.SetEdgeWidth(3)
	vAssert(r.CenterFrequency() == 5 || r.CenterFrequency() == 0, "a setting after the stop returns")
	r.Stop()
	vReach("end")
}
