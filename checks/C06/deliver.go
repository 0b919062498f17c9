package cw

import "github.com/ftl/sdrainer/dsp"

//verif:include keying.go
//verif:include detect.go
//verif:stub (*github.com/ftl/sdrainer/dsp.Goertzel).Detect = vStubDetect
//verif:bound blocks of 4 samples (400 Hz sample rate, 100 Hz pitch), streams of up to 9 frames of one or two channels, cut into up to three writes at every place, any finite sample values and any scale
//verif:assume the tone detector is replaced by a recorder of the blocks it is given (the detector itself is decided by D08)

// vDeliver writes frames of the given number of channels in up to three parts and returns the first channel.
func vDeliver(d *AudioDemodulator, frames, channels int) []float32 {
	var stream, first []float32
	for i := 0; i < frames*channels; i++ {
		s := vFloat32("sample")
		vAssume(vAnd(s >= -1e6, s <= 1e6))
		stream = append(stream, s)
		if i%channels == 0 {
			first = append(first, s)
		}
	}
	a := vChoose("cut", frames+1)
	b := a + vChoose("cut", frames+1-a)
	for _, part := range [][]float32{stream[:a*channels], stream[a*channels : b*channels], stream[b*channels:]} {
		n, err := d.Write(part)
		vAssert(n == len(part) && err == nil, "a write reports all its samples as consumed")
	}
	vSettle()
	return first
}

//verif:harness vHarness_deliver conc=1 preempt=0 mode=exact merge=2 mapFork=1 native=0 p.n=9/9 budget=150/300
func vHarness_deliver() {
	d := NewAudioDemodulator(&vText{}, 100, 400, 64)
	vAssume(d.Blocksize() == 4)
	channels := 1 + vChoose("channels", 2)
	d.SetChannelCount(channels)
	n := vParam("n", 9) - 2 + vChoose("frames", 3)
	first := vDeliver(d, n, channels)
	vAssert(len(vBlocks) == n/4, "every complete block is evaluated once")
	for i, block := range vBlocks {
		for j, s := range block {
			vAssert(s == first[4*i+j], "every sample of the first channel is evaluated, in order")
		}
	}
	d.Close()
	vReach("end")
}

//verif:harness vHarness_keying conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 p.n=4/6 budget=100/300
func vHarness_keying() {
	// what the detector finds in a block keys the decoder, debounced
	d := NewAudioDemodulator(&vText{}, 100, 400, 64)
	debounce := vChoose("debounce", 4)
	d.SetDebounceThreshold(debounce)
	want := dsp.NewBoolDebouncer(debounce)
	for i := 1; i <= vParam("n", 4); i++ {
		vSignal = vBool("signal")
		d.Write(make([]float32, 4))
		vSettle()
		vAssert(d.decoder.lastState == want.Debounce(vSignal), "every block keys the decoder with its debounced state")
		vAssert(d.decoder.ticks == ticks(i), "every block is one sample of the keying")
	}
	d.Close()
	vReach("end")
}
