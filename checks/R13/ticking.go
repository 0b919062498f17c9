package rx

import (
	"time"

	"github.com/ftl/sdrainer/dsp"
)

//verif:stub time.NewTicker = vNewTicker
//verif:stub (*time.Ticker).Stop = vStopTicker
//verif:bound for the regular checks: up to 3 listeners whose text ends with a callsign at different times, any time that passes before the check and between two checks
//verif:assume the ticker of the receiver is replaced by one that ticks when the harness says so

var (
	vTicker     = make(chan time.Time)
	vTickerUsed bool
)

func vNewTicker(d time.Duration) *time.Ticker {
	vTickerUsed = true
	vAssert(d > 0 && d <= 5*time.Second, "the regular checks are made every few seconds")
	return &time.Ticker{C: vTicker}
}

func vStopTicker(t *time.Ticker) {}

//verif:harness vHarness_tick conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 timers=0 steps=40000000 budget=150/300
func vHarness_tick() {
	vQuiet(true)
	r, clock, reports, _ := vStrainer(4)
	r.Start(48000, 16)
	vSettle()
	if !vTickerUsed {
		return // there are other means to check regularly
	}
	calls := []string{"DL1ABC", "K1A", "OE3XYZ"}
	n := 1 + vChoose("listeners", 3)
	now := time.Duration(0)
	var written []time.Duration
	pass := func() {
		d := time.Duration(vInt("passed", 0, vDay))
		clock.Add(d)
		now += d
	}
	var idle *dsp.Peak[float32, int]
	r.do(func() {
		idle = &dsp.Peak[float32, int]{From: 14, To: 15, SignalFrequency: 14000, SignalBin: 14}
		r.peaks.Put(idle)
	})
	for i := 0; i < n; i++ {
		r.do(func() {
			l, ok := r.listeners.BindNext()
			vAssert(ok, "a free listener is bound")
			peak := &dsp.Peak[float32, int]{From: 3 * i, To: 3*i + 1, SignalFrequency: 1000 * i, SignalBin: 3 * i}
			r.peaks.Put(peak)
			r.peaks.Activate(peak)
			l.Attach(peak)
			l.textProcessor.Write([]byte(" de " + []string{"dl1abc", "k1a", "oe3xyz"}[i]))
		})
		written = append(written, now)
		vSettle()
		if i < n-1 {
			pass()
		}
	}
	vAssert(reports.count("decoded") == 0, "a callsign is not complete before something follows or the silence is long enough")
	for c := 0; c < 2; c++ {
		pass()
		vTicker <- time.Time{}
		vSettle()
		for i, call := range calls[:n] {
			decoded := 0
			for _, x := range reports.all {
				if x.what == "decoded" && x.callsign == call {
					vAssert(x.frequency == 1000*i, "the callsign is reported with the frequency of its listener")
					decoded++
				}
			}
			if now-written[i] > 5*time.Second {
				vAssert(decoded == 1, "a callsign at the end of the text is recognised for every listener when nothing follows")
			} else {
				vAssert(decoded == 0, "a callsign is not complete before something follows or the silence is long enough")
			}
			vAssert(r.peaks.Get(3*i) != nil, "a signal that is listened to does not expire")
		}
		vAssert((r.peaks.Get(14) == nil) == (now >= 2*time.Minute), "a signal without a listener expires when its time is up")
		if now >= 2*time.Minute {
			break
		}
	}
	r.Stop()
	vReach("end")
}
