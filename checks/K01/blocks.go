package kiwi

import (
	"github.com/ftl/sdrainer/rx"
)

//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).IQData = vRecordIQ
//verif:bound blocks of any length up to three parts of 1024 values and 3 more, with symbolic values at the borders of the parts

var vParts [][]float32

func vRecordIQ(r *rx.Receiver[float32, int], sampleRate int, data []float32) {
	vParts = append(vParts, append([]float32{}, data...))
}

//verif:harness vHarness_parts mode=exact merge=0 conc=1 preempt=0 native=0 mapFork=1 budget=60/200
func vHarness_parts() {
	vParts = nil
	const part = 1024
	parts := vChoose("parts", 4)
	data := make([]float32, parts*part+vChoose("more", 3))
	for i := range data {
		if m := i % part; m == 0 || m == 1 || m == part-1 {
			data[i] = vFloat32("value")
		}
	}
	p := &Process{receiver: rx.NewReceiver[float32, int]("", rx.StrainMode, rx.WallClock)}
	p.IQData(12000, data)
	if len(data)%part == 0 {
		vAssert(len(vParts) == parts, "all data is passed on")
	}
	for i, p := range vParts {
		vAssert(len(p) == part, "the data is passed on in blocks of 512 samples")
		for j := range p {
			vAssert(vOr(p[j] == data[i*part+j], p[j] != p[j]), "the data is passed on in order")
		}
	}
	vReach("end")
}
