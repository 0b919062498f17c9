package cw

//verif:include keying.go
//verif:include detect.go
//verif:stub (*github.com/ftl/sdrainer/dsp.Goertzel).Detect = vStubDetect
//verif:bound one block of 4 samples of any value up to 1000, any scale from 0.001 to 1000; real-number semantics (rounding of single samples is not covered)

func vScaleBlock(scale float32, samples []float32) []float32 {
	d := NewAudioDemodulator(&vText{}, 100, 400, 64)
	vAssume(d.Blocksize() == 4)
	d.SetScale(float64(scale))
	d.Write(samples)
	vSettle()
	d.Close()
	return vBlocks[0]
}

func vSamples() []float32 {
	var r []float32
	for i := 0; i < 4; i++ {
		s := float32(vFloat64In("sample", -1000, 1000))
		r = append(r, s)
	}
	return r
}

func vClip(s float32) float32 {
	if s > 1 {
		return 1
	}
	if s < -1 {
		return -1
	}
	return s
}

//verif:harness vHarness_scale conc=1 preempt=0 mode=arith merge=2 mapFork=1 native=0 budget=100/300
func vHarness_scale() {
	scale := float32(vFloat64In("scale", 0.001, 1000))
	samples := vSamples()
	for j, s := range vScaleBlock(scale, samples) {
		vAssert(vOr(s == vClip(samples[j]*scale), vAnd(scale == 1, s == samples[j])), "every sample is scaled and limited to full scale")
	}
	vReach("end")
}

//verif:harness vHarness_autoscale conc=1 preempt=0 mode=arith merge=2 mapFork=1 native=0 budget=100/300
func vHarness_autoscale() {
	samples := vSamples()
	var top float32
	for _, s := range samples {
		abs := float32(vIteFloat(s < 0, float64(-s), float64(s)))
		top = float32(vIteFloat(abs > top, float64(abs), float64(top)))
	}
	vAssume(top > 0.0001)
	for j, s := range vScaleBlock(0, samples) {
		vAssert(vAnd(s >= -1.000001, s <= 1.000001), "a scaled sample is limited to full scale")
		strongest := vOr(samples[j] == top, samples[j] == -top)
		vAssert(vOr(top < 1.0/12, !strongest, s > 0.999999, s < -0.999999), "the automatic factor brings the strongest sample to full scale")
		d := s - samples[j]*12
		vAssert(vOr(top > 1.0/12, vAnd(d < 0.000001, d > -0.000001)), "the automatic factor is limited")
	}
	vReach("end")
}

//verif:harness vHarness_silence conc=1 preempt=0 mode=exact merge=2 mapFork=1 native=0 budget=60
func vHarness_silence() {
	for _, s := range vScaleBlock(0, make([]float32, 4)) {
		vAssert(s == 0, "silence stays silence")
	}
	vAssert(len(vBlocks) == 1, "silence is evaluated")
	vReach("end")
}
