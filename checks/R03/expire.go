package rx

import (
	"time"

	"github.com/ftl/sdrainer/dsp"
)

//verif:include peakstable.go
//verif:bound cleanup: one operation on every table of 4 bins, any arrangement of peaks in any state, peaks reaching beyond the table, each detected at any time of 2^40 ns before now, any timeout of up to 2^40 ns (18 minutes); offers: one operation on every table of 4 bins, every random draw

const vBins = 4

//verif:harness vHarness_cleanup mode=exact merge=2 budget=150/300
func vHarness_cleanup() {
	clock := new(manualClock)
	now := time.Now()
	clock.Set(now)
	t, before := vAnyTable(clock, true, func() time.Time {
		return now.Add(-time.Duration(vInt("age", 0, 1<<40)))
	})
	t.peakTimeout = time.Duration(vInt("timeout", 0, 1<<40))
	t.Cleanup()
	for i, p := range before {
		if p == nil {
			vAssert(t.Get(i) == nil, "cleaning up adds nothing")
			continue
		}
		got := t.Get(i)
		expired := vAnd(p.state != 1, now.Sub(p.since) >= t.peakTimeout)
		vAssert(vOr(!expired, got == nil), "an expired peak nobody listens to is removed completely")
		vAssert(vOr(expired, got == p.Peak), "a peak that is listened to or not expired stays")
	}
	vReach("end")
}

//verif:harness vHarness_offer mode=exact merge=2 budget=150/300
func vHarness_offer() {
	clock := new(manualClock)
	t, bins := vAnyTable(clock, false, clock.Now)
	fresh := false
	for _, p := range bins {
		if p != nil {
			fresh = vOr(fresh, p.state == 0)
		}
	}
	p := t.FindNext()
	if p == nil {
		vAssert(!fresh, "a peak is offered if there is a fresh one")
		vReach("nothing")
		return
	}
	offered := false
	for _, q := range bins {
		if q != nil {
			offered = vOr(offered, vAnd(q.Peak == p, q.state == 0))
		}
	}
	vAssert(offered, "only fresh peaks of the table are offered")
	t.Activate(p)
	if vChoose("left", 2) == 1 {
		t.Deactivate(p)
	}
	vAssert(t.FindNext() != p, "a peak that was assigned is not offered again")
	vReach("end")
}

//verif:harness vHarness_redetected mode=exact merge=2 budget=100/300
func vHarness_redetected() {
	// the age of a peak counts from its last detection; a peak detected again after it expired is offered again
	clock := new(manualClock)
	clock.Set(time.Now())
	t := NewPeaksTable[float32, int](2, clock)
	at := vChoose("bin", 2)
	first := &dsp.Peak[float32, int]{From: at, To: at}
	t.Put(first)
	wait := time.Duration(vInt("wait", 0, 1<<40))
	clock.Add(wait)
	again := &dsp.Peak[float32, int]{From: at, To: at}
	t.Put(again)
	vAssert(t.Get(at) == again, "a fresh peak is detected again")
	vAssert(t.FindNext() == again, "a fresh peak is offered")
	t.Activate(again)
	t.Put(&dsp.Peak[float32, int]{From: at, To: at})
	vAssert(t.FindNext() == nil, "a peak that is listened to is not offered")
	age := time.Duration(vInt("age", 0, 1<<40))
	clock.Add(age)
	t.Cleanup()
	vAssert(t.Get(at) == again, "a peak that is listened to does not expire")
	t.Deactivate(again)
	vAssert(t.FindNext() == nil, "a peak that was listened to is not offered")
	t.Cleanup()
	vAssert((t.Get(at) == nil) == (age >= defaultPeakTimeout), "a peak expires the timeout after its last detection")
	t.Put(first)
	vAssert((t.FindNext() == first) == (age >= defaultPeakTimeout), "an expired peak is offered when it is detected again")
	vReach("end")
}
