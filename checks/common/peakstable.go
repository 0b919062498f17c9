package rx

import (
	"time"

	"github.com/ftl/sdrainer/dsp"
)

type vPeak struct {
	*dsp.Peak[float32, int]
	state int // 0 new, 1 listened to, 2 was listened to
	since time.Time
}

// vAnyTable builds a table with an arbitrary arrangement of peaks in arbitrary states;
// the result tells which peak is in which bin.
func vAnyTable(clock *manualClock, beyond bool, since func() time.Time) (*PeaksTable[float32, int], [vBins]*vPeak) {
	var bins [vBins]*vPeak
	t := NewPeaksTable[float32, int](vBins, clock)
	now := clock.Now()
	for i := 0; i < vBins; {
		n := vChoose("width", min(4, vBins-i+1))
		if n == 0 {
			i++
			continue
		}
		p := &vPeak{&dsp.Peak[float32, int]{From: i, To: i + n - 1}, vInt("state", 0, 2), since()}
		if beyond && i == 0 {
			p.From -= vChoose("from beyond", 2)
		}
		if beyond && i+n == vBins {
			p.To += vChoose("to beyond", 2)
		}
		for j := i; j < i+n; j++ {
			bins[j] = p
		}
		i += n
		clock.Set(p.since)
		t.ForcePut(p.Peak)
		if p.state != 0 {
			t.Activate(p.Peak)
		}
		if p.state == 2 {
			t.Deactivate(p.Peak)
		}
	}
	clock.Set(now)
	return t, bins
}

