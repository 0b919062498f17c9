package rx

import (
	"strings"
	"time"

	"github.com/ftl/sdrainer/dsp"
)

//verif:include listener.go
//verif:stub github.com/ftl/hamradio/dxcc.LocalFilename = vNoFile
//verif:stub github.com/ftl/hamradio/scp.LocalFilename = vNoFile
//verif:bound times and timeouts of up to 2^44 ns (4.8 hours) to the nanosecond, up to three attachments, decoded characters and time steps in any order; any signal frequency
//verif:assume the reference data is not available (see R07)

const vDay = 1 << 44

func vListener() (*Listener[float32, int], *manualClock, *vReports, *strings.Builder) {
	clock := new(manualClock)
	clock.Set(time.Now())
	reports := &vReports{}
	out := &strings.Builder{}
	return NewListener[float32, int]("x7", out, clock, reports, 48000, 512), clock, reports, out
}

func vPeakAt(frequency int) *dsp.Peak[float32, int] {
	return &dsp.Peak[float32, int]{From: 3, To: 3, SignalBin: 3, SignalFrequency: frequency}
}

// vKeyE keys the letter e followed by a pause.
func vKeyE(l *Listener[float32, int]) {
	for i := 0; i < 250; i++ {
		value := float32(0)
		if i < 6 {
			value = 2
		}
		l.Listen(value, 1)
	}
}

//verif:harness vHarness_timeout conc=1 preempt=0 mode=exact merge=2 mapFork=1 p.n=3/4 budget=100/300
func vHarness_timeout() {
	l, clock, _, _ := vListener()
	attachment := time.Duration(vInt("attachment timeout", 0, vDay))
	silence := time.Duration(vInt("silence timeout", 0, vDay))
	l.SetAttachmentTimeout(attachment)
	l.SetSilenceTimeout(silence)
	l.Attach(vPeakAt(700))
	var sinceAttach, sinceWrite time.Duration
	for i := 0; i < vParam("n", 3); i++ {
		step := time.Duration(vInt("step", 0, vDay))
		clock.Add(step)
		sinceAttach += step
		sinceWrite += step
		vAssert(l.TimeoutExceeded() == vOr(sinceAttach > attachment, sinceWrite > silence), "the timeout is reported exactly when it is due")
		switch vChoose("event", 3) {
		case 1:
			l.Attach(vPeakAt(701))
			sinceAttach, sinceWrite = 0, 0
		case 2:
			l.textProcessor.Write([]byte("e"))
			sinceWrite = 0
		}
		vAssert(l.TimeoutExceeded() == vOr(sinceAttach > attachment, sinceWrite > silence), "the timeout is reported exactly when it is due")
	}
	l.Detach()
	vReach("end")
}

//verif:harness vHarness_decoded conc=1 preempt=0 mode=exact merge=2 mapFork=1 steps=2000000 budget=60
func vHarness_decoded() {
	// a decoded character ends the silence, keying alone and noise do not
	l, clock, _, out := vListener()
	l.SetAttachmentTimeout(vDay)
	l.SetSilenceTimeout(time.Second)
	l.Attach(vPeakAt(700))
	clock.Add(2 * time.Second)
	vAssert(l.TimeoutExceeded(), "the silence is noticed")
	what := vChoose("received", 3)
	switch what {
	case 0:
		vKeyE(l)
	case 1:
		for i := 0; i < 60; i++ {
			l.Listen(0.5, 1)
		}
	case 2:
		for i := 0; i < 6; i++ {
			l.Listen(2, 1)
		}
	}
	vAssert((out.Len() > 0) == (what == 0), "exactly the keyed character is decoded")
	vAssert(l.TimeoutExceeded() == (what != 0), "exactly a decoded character ends the silence")
	l.Detach()
	vReach("end")
}

//verif:harness vHarness_reports conc=1 preempt=0 mode=exact merge=2 mapFork=1 steps=2000000 p.n=3/4 budget=60
func vHarness_reports() {
	l, _, reports, out := vListener()
	attached := false
	var want []vReport
	frequency := 0
	for i := 0; i < vParam("n", 3); i++ {
		switch vChoose("operation", 3) {
		case 0:
			if attached {
				break // the receiver attaches only free listeners
			}
			frequency = vInt("frequency", -1<<40, 1<<40)
			l.Attach(vPeakAt(frequency))
			attached = true
			want = append(want, vReport{"activated", "x7", "", frequency, 0, 0})
		case 1:
			l.Detach()
			if attached {
				want = append(want, vReport{"deactivated", "x7", "", frequency, 0, 0})
			}
			attached = false
		case 2:
			n := out.Len()
			before := l.textProcessor.LastWrite()
			vKeyE(l)
			vAssert((out.Len() > n) == attached, "a listener decodes exactly while it is attached")
			vAssert(attached || l.textProcessor.LastWrite() == before, "a detached listener ignores all input")
		}
		vAssert(l.Attached() == attached, "a listener knows whether it is attached")
		vAssert(len(reports.all) == len(want), "attaching and detaching are each reported once")
		for j := range want {
			vAssert(reports.all[j].what == want[j].what && reports.all[j].listener == "x7", "attaching and detaching are reported with the identity")
			vAssert(reports.all[j].frequency == want[j].frequency, "attaching and detaching are reported with the frequency")
		}
	}
	vReach("end")
}
