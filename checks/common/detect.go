package cw

import "github.com/ftl/sdrainer/dsp"

var vBlocks [][]float32
var vSignal bool // what the detector finds next

// vStubDetect records the blocks given to the tone detector.
func vStubDetect(f *dsp.Goertzel, buf []float32) (float64, bool, int, error) {
	vBlocks = append(vBlocks, append([]float32(nil), buf...))
	return 0, vSignal, len(buf), nil
}
