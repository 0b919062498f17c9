package rx

import (
	"strings"
	"time"

	"github.com/ftl/sdrainer/dsp"
)

//verif:include listener.go
//verif:stub github.com/ftl/hamradio/dxcc.LocalFilename = vNoFile
//verif:stub github.com/ftl/hamradio/scp.LocalFilename = vNoFile
//verif:bound zero to three reporters, up to 4 (quick) / 5 (thorough) events of any kind with any frequency, counts and weights and callsigns of any three letters; the reports of a text with a callsign decoded four times

//verif:harness vHarness_fanout mode=exact merge=2 p.n=4/5 budget=100/300
func vHarness_fanout() {
	r := NewReceiver[float32, int]("x", StrainMode, new(manualClock))
	n := vChoose("reporters", 4)
	var reporters []*vReports
	for i := 0; i < n; i++ {
		reporters = append(reporters, &vReports{})
		r.AddReporter(reporters[i])
	}
	var want []vReport
	for i := 0; i < vParam("n", 4); i++ {
		call := vString("callsign", 3)
		e := vReport{"", "x1", call, vInt("frequency", -1<<40, 1<<40), 0, 0}
		switch vChoose("event", 5) {
		case 0:
			e.what, e.callsign = "activated", ""
			r.ListenerActivated(e.listener, e.frequency)
		case 1:
			e.what, e.callsign = "deactivated", ""
			r.ListenerDeactivated(e.listener, e.frequency)
		case 2:
			e.what, e.count, e.weight = "decoded", vInt("count", 0, 1<<40), vInt("weight", 0, 1<<40)
			r.CallsignDecoded(e.listener, call, e.frequency, e.count, e.weight)
		case 3:
			e.what = "spotted"
			r.CallsignSpotted(e.listener, call, e.frequency)
		case 4:
			e.what = "timeout"
			r.SpotTimeout(e.listener, call, e.frequency)
		}
		want = append(want, e)
		for _, p := range reporters {
			vAssert(len(p.all) == len(want), "every reporter sees every event once")
		}
	}
	for _, p := range reporters {
		for i, e := range want {
			g := p.all[i]
			vAssert(g.what == e.what && g.listener == e.listener, "the events are seen in order")
			vAssert(g.callsign == e.callsign, "the callsign is unchanged")
			vAssert(vAnd(g.frequency == e.frequency, g.count == e.count, g.weight == e.weight), "frequency and counts are unchanged")
		}
	}
	vReach("end")
}

//verif:harness vHarness_listener conc=1 preempt=0 mode=exact merge=2 mapFork=1 steps=2000000 budget=100/300
func vHarness_listener() {
	// a listener reports with its identity and frequency, and spots in upper case
	clock := new(manualClock)
	clock.Set(time.Now())
	reports := &vReports{}
	l := NewListener[float32, int]("x7", &strings.Builder{}, clock, reports, 48000, 512)
	frequency := vInt("frequency", -1<<40, 1<<40)
	l.Attach(&dsp.Peak[float32, int]{From: 3, To: 3, SignalBin: 3, SignalFrequency: frequency})
	for i := 0; i < 4; i++ {
		l.textProcessor.Write([]byte(" dl1abc/p "))
		vSettle()
	}
	for i := 0; i < 5; i++ {
		l.textProcessor.Write([]byte(" k1a "))
		vSettle()
	}
	l.Detach()
	vAssert(reports.count("decoded") == 9, "every decode is reported")
	vAssert(reports.count("spotted") == 7 && reports.count("timeout") == 1, "every spot and timeout is reported")
	for _, r := range reports.all {
		vAssert(vAnd(r.listener == "x7", r.frequency == frequency), "the reports carry identity and frequency")
		if r.what == "spotted" || r.what == "timeout" {
			vAssert(r.callsign == "DL1ABC/P" || r.callsign == "K1A", "callsigns are spotted in upper case")
		}
	}
	vReach("end")
}

//verif:harness vHarness_case mode=exact merge=2 mapFork=1 budget=60
func vHarness_case() {
	reports := &vReports{}
	l := NewListener[float32, int]("x7", nil, new(manualClock), reports, 48000, 512)
	l.peak = &dsp.Peak[float32, int]{SignalFrequency: 700}
	call := vString("callsign", 4)
	for i := 0; i < 4; i++ {
		vAssume(call[i] < 0x80)
	}
	l.CallsignSpotted(call)
	l.SpotTimeout(call)
	for _, r := range reports.all {
		vAssert(len(r.callsign) == 4, "a callsign keeps its length")
		for i := 0; i < 4; i++ {
			c := call[i]
			lower := vAnd(c >= 'a', c <= 'z')
			vAssert(vOr(vAnd(lower, r.callsign[i] == c-32), vAnd(!lower, r.callsign[i] == c)), "callsigns are spotted in upper case")
		}
	}
	vReach("end")
}
