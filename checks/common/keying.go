package cw

import "github.com/ftl/digimodes/cw"

// vText collects everything a decoder writes.
type vText struct{ s string }

func (o *vText) Write(p []byte) (int, error) {
	o.s += string(p)
	return len(p), nil
}

type vKeyer struct {
	d   *Decoder
	out *vText
}

func vNewKeyer(sampleRate, blockSize int) *vKeyer {
	k := &vKeyer{out: &vText{}}
	k.d = NewDecoder(k.out, sampleRate, blockSize)
	return k
}

// run keeps the key in one state for n >= 2 ticks. Ticks without an edge only advance the clock and
// check for the abort, so only the first and the last one are executed (see C02, vHarness_idle).
func (k *vKeyer) run(state bool, n ticks) {
	k.d.Tick(state)
	k.d.ticks += n - 2
	k.d.Tick(state)
}

// vChar is what the Morse table says about a sequence of symbols (true: da).
func vChar(symbols []bool) string {
	for r, code := range cw.Code {
		if len(code) != len(symbols) {
			continue
		}
		same := true
		for i, s := range code {
			if (s == cw.Da) != symbols[i] {
				same = false
			}
		}
		if same {
			return string(r)
		}
	}
	return "\u00a6"
}

func vTicks(name string, lo, hi ticks) ticks {
	t := ticks(vFloat64In(name, 1, 100000))
	vAssume(vAnd(lo <= t, t <= hi))
	return t
}
