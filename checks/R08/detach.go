package rx

import (
	"strings"
	"time"

	"github.com/ftl/sdrainer/dsp"
)

//verif:include listener.go
//verif:stub github.com/ftl/hamradio/dxcc.LocalFilename = vNoFile
//verif:stub github.com/ftl/hamradio/scp.LocalFilename = vNoFile
//verif:bound one listener that receives up to four callsigns (12 characters more than the queue takes in one harness) and is detached, restarted and attached again at any moment; all interleavings of the text processing and the caller with up to 3 (quick) / 4 (thorough) preemptions
//verif:assume the reference data is not available (see R07)

func vListener() (*Listener[float32, int], *manualClock, *vReports) {
	clock := new(manualClock)
	clock.Set(time.Unix(1000, 0))
	reports := &vReports{}
	return NewListener[float32, int]("x7", &strings.Builder{}, clock, reports, 48000, 512), clock, reports
}

func vPeakAt(frequency int) *dsp.Peak[float32, int] {
	return &dsp.Peak[float32, int]{From: 3, To: 3, SignalBin: 3, SignalFrequency: frequency}
}

// vCheckReports checks that everything from the given report on was reported for the attachment at the frequency.
func vCheckReports(reports []vReport, frequency int) {
	vAssert(len(reports) >= 2 && reports[0].what == "activated", "the attachment is reported first")
	for i, r := range reports {
		vAssert(r.frequency == frequency, "every report carries the frequency of the listener")
		vAssert((r.what == "deactivated") == (i == len(reports)-1), "nothing is reported for a detached listener")
	}
}

//verif:harness vHarness_detach conc=1 preempt=3/4 mode=exact merge=0 mapFork=1 native=0 steps=2000000 budget=150/400
func vHarness_detach() {
	l, _, reports := vListener()
	l.Attach(vPeakAt(700))
	n := 1 + vChoose("callsigns", 4)
	for i := 0; i < n; i++ {
		l.textProcessor.Write([]byte(" dl1abc "))
	}
	l.Detach()
	vCheckReports(reports.all, 700)
	done := len(reports.all)
	vYield()
	vAssert(len(reports.all) == done, "nothing is reported for a detached listener")
	l.Detach()
	vAssert(len(reports.all) == done, "detaching again does nothing")
	// the listener is used for another signal
	l.Attach(vPeakAt(800))
	l.textProcessor.Write([]byte(" k1a "))
	vYield()
	l.Detach()
	vCheckReports(reports.all[done:], 800)
	for _, r := range reports.all[done:] {
		vAssert(r.callsign == "" || r.callsign == "K1A", "no callsign of the former signal is reported")
	}
	vAssert(vLiveGoroutines() <= 1, "the text processing ends")
	vReach("end")
}

//verif:harness vHarness_restart conc=1 preempt=3/4 mode=exact merge=0 mapFork=1 native=0 steps=2000000 budget=150/400
func vHarness_restart() {
	clock := new(manualClock)
	reports := &vReports{}
	p := NewTextProcessor(nil, clock, &vForward{reports})
	p.Start()
	p.Start()
	p.Write([]byte(" dl1abc "))
	clock.Add(time.Minute)
	p.CheckWriteTimeout()
	switch vChoose("operation", 3) {
	case 0:
		p.Stop()
		p.Stop()
	case 1:
		p.Restart()
		n := len(reports.all)
		p.Write([]byte(" k1a "))
		p.Stop()
		for _, r := range reports.all[n:] {
			vAssert(r.callsign == "K1A", "no callsign of the former text is reported")
		}
	case 2:
		p.Stop()
		p.Restart()
		p.Stop()
	}
	n := len(reports.all)
	vYield()
	vAssert(len(reports.all) == n, "nothing is reported after the end")
	vAssert(vLiveGoroutines() <= 1, "the text processing ends")
	vReach("end")
}

//verif:harness vHarness_full conc=1 preempt=2/3 mode=exact merge=0 mapFork=1 native=0 steps=2000000 budget=150/400
func vHarness_full() {
	// more text than the queue takes
	l, _, reports := vListener()
	l.Attach(vPeakAt(700))
	for i := 0; i < 12; i++ {
		l.textProcessor.Write([]byte("e"))
	}
	l.Detach()
	vCheckReports(reports.all, 700)
	vReach("end")
}

type vForward struct{ r *vReports }

func (f *vForward) CallsignDecoded(callsign string, count int, weight int) {
	f.r.CallsignDecoded("", callsign, 0, count, weight)
}
func (f *vForward) CallsignSpotted(callsign string) { f.r.CallsignSpotted("", callsign, 0) }
func (f *vForward) SpotTimeout(callsign string)     { f.r.SpotTimeout("", callsign, 0) }
