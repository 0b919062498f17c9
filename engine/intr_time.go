package main

import (
	"fmt"
	"time"
)

const baseSec = int64(4481481600) // 2027-01-05 since 1885-01-01, roughly; only a fixed wall reading

func init() {
	// fixed wall clock: 2027-01-05 12:00:00 UTC
	t := time.Date(2027, 1, 5, 12, 0, 0, 0, time.UTC)
	_ = t
}

func wallBase() int64 {
	const wallToInternal = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
	const unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	sec := time.Date(2027, 1, 5, 12, 0, 0, 0, time.UTC).Unix() + unixToInternal - wallToInternal
	return hasMono | sec<<30
}

func (w *Worker) mkTime(ext value) value {
	return structure{wallBase(), ext, (*value)(nil)}
}

func (w *Worker) timeNow() value {
	if w.cfg.clock == "sym" && w.inInit == 0 {
		prev := w.side["lastnow"]
		if prev == nil {
			prev = int64(1000000000)
		}
		t := w.newInput("now", "int", w.intSort(kInt64), kInt64)
		lo := w.toInt(prev, kInt64)
		w.assumeDef(t, prev)
		w.assume(w.intCmp(OSLe, kInt64, lo, t))
		w.assume(w.intCmp(OSLt, kInt64, t, int64(1)<<55))
		w.side["lastnow"] = value(t)
		return w.mkTime(t)
	}
	return w.mkTime(int64(1000000000) + w.now)
}

// assumeDef extends the model for a fresh input with the value of another term.
func (w *Worker) assumeDef(t *Term, v value) {
	if !w.modelOK {
		return
	}
	c := w.toInt(v, kInt64)
	w.tt.eval(c)
	w.defaultVal(t, mval{u: c.eu, r: c.er})
}

func (w *Worker) intSort(k kind) Sort {
	if w.cfg.intMode {
		return SInt
	}
	return BV(k.w)
}

func (w *Worker) newTimer(dur value, repeat bool, fire func(t *timerObj)) *timerObj {
	t := &timerObj{id: len(w.timersL) + 1, active: true, repeat: repeat, left: 1, dur: dur}
	if repeat {
		t.left = w.cfg.timers
	}
	t.fire = func() {
		if d, ok := dur.(int64); ok {
			w.now += d
		}
		fire(t)
	}
	w.timersL = append(w.timersL, t)
	return t
}

func initTimeIntrinsics() {
	I := intrinsics
	I["time.Now"] = func(fr *frame, args []value) value { return fr.w.timeNow() }
	I["time.now"] = func(fr *frame, args []value) value { return tuple{int64(1799150400), int64(0), int64(0)} }
	I["time.runtimeNano"] = func(fr *frame, args []value) value { return int64(1000000000) + fr.w.now }
	I["time.initLocal"] = nop
	I["time.Since"] = func(fr *frame, args []value) value {
		n := fr.w.timeNow().(structure)
		return fr.w.callFn(fr, fr.w.eng.lookupMethod(fr.w.eng.namedType("time", "Time"), "Sub"), []value{n, args[0]}, nil)
	}
	I["time.Until"] = func(fr *frame, args []value) value {
		n := fr.w.timeNow()
		return fr.w.callFn(fr, fr.w.eng.lookupMethod(fr.w.eng.namedType("time", "Time"), "Sub"), []value{args[0], n}, nil)
	}
	// monotonic readings: addition only moves the monotonic part (the wall part is not used by any property)
	tryIntrinsics["(time.Time).Add"] = func(fr *frame, args []value) (value, bool) {
		t := args[0].(structure)
		wall, ok := t[0].(int64)
		if !ok || wall&hasMono == 0 {
			return nil, false
		}
		return structure{wall, fr.w.intBin(tokADD, kInt64, t[1], args[1], kInt64), t[2]}, true
	}
	I["time.Sleep"] = func(fr *frame, args []value) value {
		w := fr.w
		if w.inInit > 0 {
			return nil
		}
		done := false
		w.newTimer(args[0], false, func(*timerObj) { done = true })
		w.block(fr, "sleep", func() bool { return done })
		return nil
	}
	chTimer := func(fr *frame, d value, repeat bool) (*timerObj, *chanObj) {
		w := fr.w
		c := w.newChan(1)
		vc := w.snapVC()
		t := w.newTimer(d, repeat, func(t *timerObj) {
			now := w.timeNow()
			if r := popWaiter(&c.recvq); r != nil {
				r.val, r.ok = now, true
				r.vc = vc
				r.complete()
			} else if len(c.buf) < 1 {
				c.buf = append(c.buf, chanItem{now, vc})
			}
		})
		t.ch = c
		return t, c
	}
	mk := func(fr *frame, c value, t *timerObj) value {
		p := new(value)
		*p = structure{c, true}
		fr.w.side[[2]any{"timer", p}] = t
		return p
	}
	get := func(fr *frame, v value) *timerObj {
		t, _ := fr.w.side[[2]any{"timer", ptrOf(fr, v)}].(*timerObj)
		if t == nil {
			panic(targetPanic{fr.w.rtError("time: Stop called on uninitialized Timer")})
		}
		return t
	}
	I["time.NewTicker"] = func(fr *frame, args []value) value {
		if d, ok := args[0].(int64); ok && d <= 0 {
			panic(targetPanic{fr.w.mkError("non-positive interval for NewTicker")})
		}
		t, c := chTimer(fr, args[0], true)
		return mk(fr, c, t)
	}
	I["time.Tick"] = func(fr *frame, args []value) value { _, c := chTimer(fr, args[0], true); return c }
	I["time.NewTimer"] = func(fr *frame, args []value) value {
		t, c := chTimer(fr, args[0], false)
		return mk(fr, c, t)
	}
	I["time.After"] = func(fr *frame, args []value) value { _, c := chTimer(fr, args[0], false); return c }
	I["time.AfterFunc"] = func(fr *frame, args []value) value {
		w := fr.w
		f := args[1]
		t := w.newTimer(args[0], false, func(t *timerObj) {
			w.spawn(&frame{w: w, g: w.curG(), code: &fnCode{name: "timer"}}, f, nil)
		})
		return mk(fr, (*chanObj)(nil), t)
	}
	stop := func(fr *frame, args []value) value {
		t := get(fr, args[0])
		fr.w.yield(fr, "timer stop")
		was := t.active
		t.active = false
		if t.ch != nil {
			t.ch.buf = nil
		}
		return was
	}
	I["(*time.Timer).Stop"] = stop
	I["(*time.Ticker).Stop"] = func(fr *frame, args []value) value { stop(fr, args); return nil }
	I["(*time.Timer).Reset"] = func(fr *frame, args []value) value {
		t := get(fr, args[0])
		was := t.active
		t.active = true
		if t.left < 1 {
			t.left = 1
		}
		return was
	}
	I["(*time.Ticker).Reset"] = func(fr *frame, args []value) value { get(fr, args[0]).active = true; return nil }
}

var _ = fmt.Sprint
