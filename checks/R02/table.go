package rx

import (
	"time"

	"github.com/ftl/sdrainer/dsp"
)

//verif:include peakstable.go
//verif:bound one operation on every table of 4 bins: any arrangement of peaks in any state, peaks reaching one bin beyond the table; operations with any range from -2 to 5

const vBins = 4

func vOld() time.Time { return time.Unix(1000, 0) }

func vClock() *manualClock {
	c := new(manualClock)
	c.Set(time.Unix(2000, 0))
	return c
}

//verif:harness vHarness_put mode=exact merge=2 budget=150/300
func vHarness_put() {
	clock := vClock()
	t, before := vAnyTable(clock, true, vOld)
	from := vChoose("from", vBins+4) - 2
	to := from + vChoose("length", vBins+4)
	vAssume(to <= vBins+1)
	force := vChoose("force", 2) == 1
	p := &dsp.Peak[float32, int]{From: from, To: to}
	busy := false
	hit := map[*vPeak]bool{}
	for i := max(0, from); i <= min(to, vBins-1); i++ {
		if q := before[i]; q != nil {
			hit[q] = true
			busy = vOr(busy, q.state != 0)
		}
	}
	if force {
		t.ForcePut(p)
	} else {
		t.Put(p)
	}
	ignored := vAnd(busy, !force)
	for i, q := range before {
		got := t.Get(i)
		same := got == nil
		if q != nil {
			same = got == q.Peak
		}
		switch {
		case from <= i && i <= to:
			vAssert(vOr(!ignored, same), "a peak overlapping a busy one is ignored")
			vAssert(vOr(ignored, got == p), "a new peak takes its range")
		case q != nil && hit[q]:
			vAssert(vOr(!ignored, same), "a peak overlapping a busy one is ignored")
			vAssert(vOr(ignored, got == nil), "an overlapped peak is removed completely")
		default:
			vAssert(same, "a peak that is not overlapped stays")
		}
	}
	vReach("end")
}

//verif:harness vHarness_state mode=exact merge=2 budget=100/300
func vHarness_state() {
	// a peak is busy from the time it is listened to, whatever happens to other peaks
	clock := vClock()
	t, before := vAnyTable(clock, true, vOld)
	at := vChoose("bin", vBins)
	q := before[at]
	vAssume(q != nil)
	// operations for another peak with the same range, for one outside the table, or for the peak itself
	p := q.Peak
	switch vChoose("peak", 3) {
	case 0:
		copied := *q.Peak
		p = &copied
	case 1:
		p = &dsp.Peak[float32, int]{From: vBins + 1, To: vBins + 1}
	}
	activate := vChoose("activate", 2) == 1
	if activate {
		t.Activate(p)
	} else {
		t.Deactivate(p)
	}
	for i, q := range before {
		if q == nil {
			vAssert(t.Get(i) == nil, "assigning a listener moves nothing")
		} else {
			vAssert(t.Get(i) == q.Peak, "assigning a listener moves nothing")
		}
	}
	n := &dsp.Peak[float32, int]{From: at, To: at}
	t.Put(n)
	busy := vOr(q.state != 0, vAnd(activate, p == q.Peak))
	vAssert((t.Get(at) == n) != busy, "a peak is displaced exactly if it was never listened to")
	vReach("end")
}

//verif:harness vHarness_get mode=exact merge=2 budget=60
func vHarness_get() {
	t, before := vAnyTable(vClock(), true, vOld)
	i := vChoose("bin", vBins+6) - 3
	p := t.Get(i)
	if i < 0 || i >= vBins {
		vAssert(p == nil, "there is no peak outside of the table")
	} else if before[i] != nil {
		vAssert(p == before[i].Peak, "the peak found covers the bin")
	} else {
		vAssert(p == nil, "a bin without a peak has no peak")
	}
	t.Reset()
	for i := 0; i < vBins; i++ {
		vAssert(t.Get(i) == nil, "a reset table is empty")
	}
	vReach("end")
}

//verif:harness vHarness_history mode=exact merge=2 p.n=3/4 budget=150/300
func vHarness_history() {
	// every sequence of operations leaves every bin to at most one peak
	clock := vClock()
	t := NewPeaksTable[float32, int](vBins, clock)
	var peaks []*dsp.Peak[float32, int]
	for i := 0; i < vParam("n", 3); i++ {
		switch op := vChoose("operation", 3+2*len(peaks)); op {
		case 0, 1:
			from := vChoose("from", vBins)
			p := &dsp.Peak[float32, int]{From: from, To: from + vChoose("length", 3)}
			peaks = append(peaks, p)
			if op == 0 {
				t.Put(p)
			} else {
				t.ForcePut(p)
				vAssert(t.Get(from) == p, "a forced peak always takes its range")
			}
		case 2:
			clock.Add(3 * time.Minute)
			t.Cleanup()
		default:
			p := peaks[(op-3)/2]
			if op%2 == 0 {
				t.Activate(p)
			} else {
				t.Deactivate(p)
			}
		}
		for i := 0; i < vBins; i++ {
			p := t.Get(i)
			if p == nil {
				continue
			}
			vAssert(p.From <= i && i <= p.To, "a peak occupies only bins of its range")
			for j := max(0, p.From); j <= min(p.To, vBins-1); j++ {
				vAssert(t.Get(j) == p, "a peak occupies its whole range")
			}
		}
	}
	vReach("end")
}
