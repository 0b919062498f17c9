package rx

import (
	"github.com/ftl/sdrainer/dsp"
)

var vFrames [][]float32 // the frames given to the spectral analysis
var vNextSpectrum, vNextPSD []float32
var vNextFFT []complex128 // instead of the spectrum

// vStubFFT records the frames that are analysed; the spectrum is what the harness wants it to be.
func vStubFFT(f *dsp.FFT[float32], spectrum, psd dsp.Block[float32], iq []float32, projection func(complex128, int) float32) {
	vFrames = append(vFrames, append([]float32(nil), iq...))
	for i := range spectrum {
		spectrum[i], psd[i] = 0, 1
		if i < len(vNextSpectrum) {
			spectrum[i] = vNextSpectrum[i]
		}
		if i < len(vNextFFT) {
			spectrum[i], psd[i] = projection(vNextFFT[i], len(vNextFFT)), dsp.PSD[float32](vNextFFT[i], len(vNextFFT))
		}
		if i < len(vNextPSD) {
			psd[i] = vNextPSD[i]
		}
	}
}
