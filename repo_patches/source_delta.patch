From e38ea047051b22be30c1e1c3e63a31eb6c30c585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:12 +0000
Subject: [PATCH 01/42] fix: track the raw state also while the debouncer
 passes it through

---
 dsp/dsp.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/dsp/dsp.go b/dsp/dsp.go
index 56015cb..abe4c6f 100644
--- a/dsp/dsp.go
+++ b/dsp/dsp.go
@@ -162,10 +162,6 @@ func (d *BoolDebouncer) Threshold() int {
 // Debounce is periodically called with the raw signal state. It returns the debounced signal state.
 // The signal must be stable for threshold calls of Debounce until a state change is propagated by Debounce.
 func (d *BoolDebouncer) Debounce(rawState bool) bool {
-	if d.threshold < 2 {
-		return rawState
-	}
-
 	if rawState != d.lastRawState {
 		d.stateCount = 1
 	} else {
-- 
2.43.0


From 79adeb43678318a53df30bf942319a9245776022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 02/42] fix: compute the rolling mean and variance from the
 values in the window

---
 dsp/dsp.go | 46 ++++++++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/dsp/dsp.go b/dsp/dsp.go
index abe4c6f..aac47f7 100644
--- a/dsp/dsp.go
+++ b/dsp/dsp.go
@@ -183,10 +183,7 @@ type RollingVariance[T Number] struct {
 	n      T
 	next   int
 
-	sumForMean     T
-	mean           T
-	sumForVariance T
-	variance       T
+	variance T
 }
 
 // NewRollingVariance with size n.
@@ -199,19 +196,21 @@ func NewRollingVariance[T Number](n int) *RollingVariance[T] {
 
 // Put a new value into the rolling window and get the new variance back.
 func (v *RollingVariance[T]) Put(value T) T {
-	v.sumForMean -= v.values[v.next]
-	oldSummand := (v.values[v.next] - v.mean)
-	v.sumForVariance -= oldSummand * oldSummand
-
 	v.values[v.next] = value
+	v.next = (v.next + 1) % len(v.values)
 
-	v.sumForMean += v.values[v.next]
-	v.mean = v.sumForMean / v.n
-	newSummand := (v.values[v.next] - v.mean)
-	v.sumForVariance += newSummand * newSummand
-	v.variance = v.sumForVariance / v.n
+	var sum T
+	for _, value := range v.values {
+		sum += value
+	}
+	mean := float64(sum) / float64(v.n)
 
-	v.next = (v.next + 1) % len(v.values)
+	var sumOfSquares float64
+	for _, value := range v.values {
+		diff := float64(value) - mean
+		sumOfSquares += diff * diff
+	}
+	v.variance = T(sumOfSquares / float64(v.n))
 
 	return v.variance
 }
@@ -225,9 +224,6 @@ func (v *RollingVariance[T]) Get() T {
 func (v *RollingVariance[T]) Reset() {
 	clear(v.values)
 	v.next = 0
-	v.sumForMean = 0
-	v.mean = 0
-	v.sumForVariance = 0
 	v.variance = 0
 }
 
@@ -237,8 +233,7 @@ type RollingMean[T Number] struct {
 	n      T
 	next   int
 
-	sumForMean T
-	mean       T
+	mean T
 }
 
 // NewRollingMean with size n.
@@ -251,15 +246,15 @@ func NewRollingMean[T Number](n int) *RollingMean[T] {
 
 // Put a new value into the rolling window and get the new mean back.
 func (v *RollingMean[T]) Put(value T) T {
-	v.sumForMean -= v.values[v.next]
-
 	v.values[v.next] = value
-
-	v.sumForMean += v.values[v.next]
-	v.mean = v.sumForMean / v.n
-
 	v.next = (v.next + 1) % len(v.values)
 
+	var sum T
+	for _, value := range v.values {
+		sum += value
+	}
+	v.mean = sum / v.n
+
 	return v.mean
 }
 
@@ -272,7 +267,6 @@ func (v *RollingMean[T]) Get() T {
 func (v *RollingMean[T]) Reset() {
 	clear(v.values)
 	v.next = 0
-	v.sumForMean = 0
 	v.mean = 0
 }
 
-- 
2.43.0


From 11fcac878adc98a9b0f60d330ad1998367953ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 03/42] fix: map a frequency to the bin whose range contains it

---
 dsp/fft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 2ee36ec..0fb7970 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -130,7 +130,7 @@ func (m *FrequencyMapping[F]) BinToFrequency(bin int, location BinLocation) F {
 }
 
 func (m *FrequencyMapping[F]) FrequencyToBin(frequency F) int {
-	bin := int((float64(frequency) - float64(m.fromFrequency)) / m.binSize)
+	bin := int(math.Floor((float64(frequency)-float64(m.fromFrequency))/m.binSize + 0.5))
 	return max(0, min(bin, m.blockSize-1))
 }
 
-- 
2.43.0


From ddfc65c4fc2fc1eb978d5468cdab8da25d2e7a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 04/42] fix: a peak contains all bins of its range

---
 dsp/fft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 0fb7970..cbe2227 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -209,7 +209,7 @@ func (p Peak[T, F]) WidthHz() F {
 
 // ContainsBin indicates if the given bin is within this peak.
 func (p Peak[T, F]) ContainsBin(bin int) bool {
-	return p.From >= bin && p.To <= bin
+	return p.From <= bin && bin <= p.To
 }
 
 func FindNoiseFloor[T Number](psd Block[T], edgeWidth int) (T, float64) {
-- 
2.43.0


From b2d7535a5ab2c0e515f35b4d414a5e51de4f1222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 05/42] fix: keep the interpolated signal frequency within its
 bin

---
 dsp/fft.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index cbe2227..71a0fe4 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -295,15 +295,19 @@ func PeakCenterCorrection[T, F Number](bin int, spectrum Block[T]) BinLocation {
 		return 0
 	}
 
-	value := func(i int) float64 {
-		return math.Abs(float64(spectrum[i]))
-	}
-
 	// quadratic interpolation
-	y1 := value(bin - 1)
-	y2 := value(bin)
-	y3 := value(bin + 1)
-	result := (y3 - y1) / (2 * (2*y2 - y1 - y3))
-
-	return BinLocation(result)
+	y1 := float64(spectrum[bin-1])
+	y2 := float64(spectrum[bin])
+	y3 := float64(spectrum[bin+1])
+	result := BinLocation((y3 - y1) / (2 * (2*y2 - y1 - y3)))
+	switch {
+	case y1 == y3 || result != result: // also for a plateau, where the interpolation is not defined
+		return BinCenter
+	case result < BinFrom:
+		return BinFrom
+	case result > BinTo:
+		return BinTo
+	default:
+		return result
+	}
 }
-- 
2.43.0


From 97bdfa3f897e6637c208b41115818389d8bd378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 06/42] fix: find the noise floor and its variance in the same,
 complete windows

---
 dsp/fft.go | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 71a0fe4..2e89c9d 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -213,38 +213,28 @@ func (p Peak[T, F]) ContainsBin(bin int) bool {
 }
 
 func FindNoiseFloor[T Number](psd Block[T], edgeWidth int) (T, float64) {
-	windowSize := (len(psd) - 2*edgeWidth) / 10
+	edgeWidth = max(0, min(edgeWidth, (len(psd)-1)/2))
+	windowSize := max(1, (len(psd)-2*edgeWidth)/10)
 	minValue := float64(psd[0])
 	var sum float64
-	count := 0
 	first := true
-	from := 0
-	var resultMean float64
 	resultFrom := 0
-	resultTo := 0
-	for i := edgeWidth; i < len(psd)-edgeWidth; i++ {
-		if count == 0 {
-			from = i
+	for from := edgeWidth; from+windowSize <= len(psd)-edgeWidth; from += windowSize {
+		sum = 0
+		for i := from; i < from+windowSize; i++ {
+			sum += float64(psd[i])
 		}
-		if count == windowSize {
-			count = 0
-			mean := sum / float64(windowSize)
-			if mean < minValue || first {
-				minValue = mean
-				first = false
-				resultMean = mean
-				resultFrom = from
-				resultTo = i
-			}
-			sum = 0
+		mean := sum / float64(windowSize)
+		if mean < minValue || first {
+			minValue = mean
+			first = false
+			resultFrom = from
 		}
-		sum += float64(psd[i])
-		count++
 	}
 
 	sum = 0
-	for i := resultFrom; i <= resultTo; i++ {
-		sum += math.Pow(float64(psd[i])-resultMean, 2)
+	for i := resultFrom; i < resultFrom+windowSize; i++ {
+		sum += math.Pow(float64(psd[i])-minValue, 2)
 	}
 	variance := sum / float64(windowSize)
 
-- 
2.43.0


From 68117a62dc5fa67beaf7ec91e115e84fbb12f6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 07/42] fix: use at least one period of a low pitch as filter
 block

---
 dsp/dsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/dsp.go b/dsp/dsp.go
index aac47f7..bd03019 100644
--- a/dsp/dsp.go
+++ b/dsp/dsp.go
@@ -71,7 +71,7 @@ func NewGoertzel(pitch float64, sampleRate int, blocksizeRatio float64) *Goertze
 
 func calculateBlocksize(pitch float64, sampleRate int, blocksizeRatio float64) int {
 	minBlocksize := math.Round(float64(sampleRate) / pitch)
-	return int(math.Round((blocksizeRatio*float64(sampleRate))/minBlocksize)) * int(minBlocksize)
+	return max(1, int(math.Round((blocksizeRatio*float64(sampleRate))/minBlocksize))) * int(minBlocksize)
 }
 
 // SetMagnitudeThreshold sets the magnitude threshold.
-- 
2.43.0


From 70490d2b0a3737d7bb68050494c0afe166d6d485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:59 +0000
Subject: [PATCH 08/42] fix: an overlong mark on its own does not spoil the
 next character

---
 cw/decode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cw/decode.go b/cw/decode.go
index ed9c763..121c20f 100644
--- a/cw/decode.go
+++ b/cw/decode.go
@@ -315,6 +315,7 @@ func (d *Decoder) appendSymbol(s cw.Symbol) {
 func (d *Decoder) decodeCurrentChar() {
 	if d.currentChar.empty() {
 		// fmt.Print("X") // TODO REMOVE THIS
+		d.currentCharInvalid = false
 		return
 	}
 	if d.currentCharInvalid {
-- 
2.43.0


From 55e01b4892056a1ae8355248d52c907b647f7795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:59 +0000
Subject: [PATCH 09/42] fix: reset the complete state of the decoder and the
 demodulator

---
 cw/decode.go   | 2 ++
 cw/spectral.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/cw/decode.go b/cw/decode.go
index 121c20f..f3196b1 100644
--- a/cw/decode.go
+++ b/cw/decode.go
@@ -171,7 +171,9 @@ func (d *Decoder) Reset() {
 
 func (d *Decoder) Clear() {
 	d.decoding = false
+	d.lastState = false
 	d.currentChar.clear()
+	d.currentCharInvalid = false
 	d.ticks = 0
 	d.onStart = 0
 	d.offStart = 0
diff --git a/cw/spectral.go b/cw/spectral.go
index 086fa0a..e48dbfc 100644
--- a/cw/spectral.go
+++ b/cw/spectral.go
@@ -42,6 +42,7 @@ func (d *SpectralDemodulator[M, F]) SetScope(scope scope.Scope) {
 }
 
 func (d *SpectralDemodulator[M, F]) Reset() {
+	d.signalDebouncer = dsp.NewBoolDebouncer(d.signalDebouncer.Threshold())
 	d.decoder.Reset()
 }
 
-- 
2.43.0


From d24e91eb5f29a85f07be34c7d3ea51c33193a85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 10/42] fix: calls of the audio demodulator wait for their
 effect and never outlast its close

A query returned before the value was read, concurrent closes closed the
channel twice, and a call or write racing with the close blocked forever.
---
 cw/audio.go | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/cw/audio.go b/cw/audio.go
index a75cfa8..509da1c 100644
--- a/cw/audio.go
+++ b/cw/audio.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"log"
 	"math"
+	"sync"
 	"time"
 
 	"github.com/ftl/sdrainer/dsp"
@@ -26,10 +27,11 @@ type AudioDemodulator struct {
 	scale        float32
 	channelCount int
 
-	in     chan float32
-	op     chan func()
-	close  chan struct{}
-	closed chan struct{}
+	in        chan float32
+	op        chan func()
+	close     chan struct{}
+	closeOnce sync.Once
+	closed    chan struct{}
 
 	scope scope.Scope
 }
@@ -58,13 +60,10 @@ func NewAudioDemodulator(out io.Writer, pitch float64, sampleRate int, bufferSiz
 }
 
 func (d *AudioDemodulator) Close() {
-	select {
-	case <-d.close:
-		return
-	default:
+	d.closeOnce.Do(func() {
 		close(d.close)
-		<-d.closed
-	}
+	})
+	<-d.closed
 }
 
 func (d *AudioDemodulator) SetScope(scope scope.Scope) {
@@ -150,7 +149,11 @@ func (d *AudioDemodulator) Write(buf []float32) (int, error) {
 	n := 0
 	for i, sample := range buf {
 		if (i % d.channelCount) == 0 {
-			d.in <- sample
+			select {
+			case d.in <- sample:
+			case <-d.closed:
+				return n, io.ErrClosedPipe
+			}
 		}
 		n++
 	}
@@ -158,11 +161,15 @@ func (d *AudioDemodulator) Write(buf []float32) (int, error) {
 }
 
 func (d *AudioDemodulator) do(f func()) {
+	done := make(chan struct{})
+	op := func() {
+		defer close(done)
+		f()
+	}
 	select {
+	case d.op <- op:
+		<-done
 	case <-d.closed:
-		return
-	default:
-		d.op <- f
 	}
 }
 
-- 
2.43.0


From 918178779eb08f052ef375f8ff2918d8a1e4f496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 11/42] fix: release only the listener that was given

Releasing a listener twice freed another listener that was bound with
the same ID in the meantime.
---
 rx/listener.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/listener.go b/rx/listener.go
index 8c1ef9d..caa0b40 100644
--- a/rx/listener.go
+++ b/rx/listener.go
@@ -249,7 +249,7 @@ func (p *ListenerPool[T, F]) release(listener *Listener[T, F]) {
 
 func (p *ListenerPool[T, F]) indexOf(listener *Listener[T, F]) int {
 	for i, l := range p.listeners {
-		if l.id == listener.ID() {
+		if l == listener {
 			return i
 		}
 	}
-- 
2.43.0


From 494eb07cf8708b0ae6409fcf8c35fb6e1a3e41de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 12/42] fix: a peak that was replaced in the table can be
 activated and deactivated safely

It is ignored instead of crashing, or of changing the state of the peak
that replaced it.
---
 rx/peaks.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rx/peaks.go b/rx/peaks.go
index b468200..cb192a3 100644
--- a/rx/peaks.go
+++ b/rx/peaks.go
@@ -152,6 +152,9 @@ func (t *PeaksTable[T, F]) Reset() {
 
 func (t *PeaksTable[T, F]) Activate(p *dsp.Peak[T, F]) {
 	internalPeak := t.getInternal(p)
+	if internalPeak == nil {
+		return
+	}
 	if internalPeak.state != peakNew && internalPeak.state != peakInactive {
 		return
 	}
@@ -160,11 +163,15 @@ func (t *PeaksTable[T, F]) Activate(p *dsp.Peak[T, F]) {
 }
 
 func (t *PeaksTable[T, F]) getInternal(p *dsp.Peak[T, F]) *peak[T, F] {
-	internalPeak := t.bins[p.From]
+	from := max(0, p.From)
+	if from >= len(t.bins) {
+		return nil
+	}
+	internalPeak := t.bins[from]
 	if internalPeak == nil {
 		return nil
 	}
-	if internalPeak.To != p.To {
+	if internalPeak.Peak != p {
 		return nil
 	}
 
@@ -173,6 +180,9 @@ func (t *PeaksTable[T, F]) getInternal(p *dsp.Peak[T, F]) *peak[T, F] {
 
 func (t *PeaksTable[T, F]) Deactivate(p *dsp.Peak[T, F]) {
 	internalPeak := t.getInternal(p)
+	if internalPeak == nil {
+		return
+	}
 	if internalPeak.state != peakActive {
 		return
 	}
-- 
2.43.0


From de51c8e42b0898a6b166f954349b015cb2556f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 13/42] fix: detach a listener only after its text processing
 has ended

A callsign that was just being processed crashed when the peak was gone.
---
 rx/listener.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rx/listener.go b/rx/listener.go
index caa0b40..cd337fa 100644
--- a/rx/listener.go
+++ b/rx/listener.go
@@ -97,10 +97,14 @@ func (l *Listener[T, F]) Attached() bool {
 }
 
 func (l *Listener[T, F]) Detach() {
+	if !l.Attached() {
+		return
+	}
 	frequency := l.peak.SignalFrequency
+
+	l.textProcessor.Stop() // it still reports with the current peak
 	l.peak = nil
 
-	l.textProcessor.Stop()
 	l.reporter.ListenerDeactivated(l.id, frequency)
 	// log.Printf("\ndemodulation stopped\n")
 }
-- 
2.43.0


From 5e100148d1dd2e2f27900d65906fc96780f483fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 14/42] fix: a restarted text processor forgets the old text
 completely

The search point and the operations still waiting survived the restart.
---
 rx/text_processor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 822106c..40bab5f 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -180,6 +180,7 @@ func (p *TextProcessor) sync() {
 
 func (p *TextProcessor) Restart() {
 	p.Stop()
+	p.op = make(chan func(), cap(p.op)) // whatever is still waiting belongs to the old text
 	p.lastWrite = p.clock.Now()
 	p.lastBestMatch = callsign.NoCallsign
 	p.window.Reset()
@@ -365,6 +366,7 @@ func (w *textWindow) Reset() {
 		w.window[i] = w.window[i][:0]
 		w.currentWindow = 0
 	}
+	w.searchPoint = 0
 }
 
 func (w *textWindow) Write(bytes []byte) (n int, err error) {
-- 
2.43.0


From f8bd3401ea24c8f0a420d7f7d09ff5a7c1ffbaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 15/42] fix: recognize the suffix of a callsign that is
 received character by character

The callsign was taken as complete as soon as the slash arrived.
---
 rx/text_processor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 40bab5f..db72bd2 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -21,7 +21,7 @@ const (
 )
 
 var (
-	callsignExp = regexp.MustCompile(`\s(?:([a-z0-9]+)/)?(([a-z]|[a-z][a-z]|[0-9][a-z]|[0-9][a-z][a-z])[0-9][a-z0-9]*[a-z])(?:/([a-z0-9]+))?(?:/(p|a|m|mm|am))?`)
+	callsignExp = regexp.MustCompile(`\s(?:([a-z0-9]+)/)?(([a-z]|[a-z][a-z]|[0-9][a-z]|[0-9][a-z][a-z])[0-9][a-z0-9]*[a-z])(?:/([a-z0-9]*))?(?:/(p|a|m|mm|am)?)?`) // the suffixes may still be incomplete
 )
 
 type CallsignReporter interface {
@@ -244,7 +244,7 @@ func (p *TextProcessor) findNextCallsign(bytes []byte) {
 }
 
 func (p *TextProcessor) collectCallsign(candidate string) {
-	candidate = strings.ToLower(strings.TrimSpace(candidate))
+	candidate = strings.ToLower(strings.TrimRight(strings.TrimSpace(candidate), "/"))
 	if isFalsePositive(candidate) {
 		return
 	}
-- 
2.43.0


From 70e5330e94a43e145573cf6d26474e1afef45b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 16/42] fix: keep the spotted callsign until another one has
 more evidence

With equal evidence the random order of the map decided.
---
 rx/text_processor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index db72bd2..c004180 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -305,6 +305,13 @@ func (p *TextProcessor) bestMatch() callsign.Callsign {
 	var bestMatch callsign.Callsign
 	maxCount := spottingThreshold - 1
 
+	lastBest, ok := p.collectedCallsigns[p.lastBestMatch.String()]
+	if ok && maxCount < lastBest.count+lastBest.weight {
+		// keep the last best match unless there is a better one
+		maxCount = lastBest.count + lastBest.weight
+		bestMatch = lastBest.call
+	}
+
 	for _, collected := range p.collectedCallsigns {
 		weightedCount := collected.count + collected.weight
 		if maxCount < weightedCount {
-- 
2.43.0


From ddb700dd916a2d917a1d1ee938ca04ac9bf2a841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 17/42] fix: work without the country prefixes or the contest
 callsigns

The nil pointers were wrapped in interfaces that are not nil.
---
 rx/text_processor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index c004180..0f7539c 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -91,7 +91,7 @@ func NewTextProcessor(out io.Writer, clock Clock, reporter CallsignReporter) *Te
 	return result
 }
 
-func setupDXCCFinder() *dxcc.Prefixes {
+func setupDXCCFinder() dxccFinder {
 	localFilename, err := dxcc.LocalFilename()
 	if err != nil {
 		log.Print(err)
@@ -113,7 +113,7 @@ func setupDXCCFinder() *dxcc.Prefixes {
 	return result
 }
 
-func setupSCPFinder() *scp.Database {
+func setupSCPFinder() scpFinder {
 	localFilename, err := scp.LocalFilename()
 	if err != nil {
 		log.Print(err)
-- 
2.43.0


From e5bfd7ba4824696eec39959901f0454e6d8b8187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 18/42] fix: read the center frequency of a receiver that is
 not started

---
 rx/receiver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/receiver.go b/rx/receiver.go
index 71516e4..59b5dd4 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -262,7 +262,7 @@ func (r *Receiver[T, F]) SetCenterFrequency(frequency F) {
 }
 
 func (r *Receiver[T, F]) CenterFrequency() F {
-	result := make(chan F)
+	result := make(chan F, 1)
 	r.do(func() {
 		result <- r.centerFrequency
 	})
-- 
2.43.0


From b549fc87ca2da8cfc1d000b2a8a91e22410e99ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 19/42] fix: apply the debounce setting to listeners that are
 bound later

---
 rx/receiver.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rx/receiver.go b/rx/receiver.go
index 59b5dd4..16239d9 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -86,6 +86,7 @@ type Receiver[T, F dsp.Number] struct {
 	listeners         *ListenerPool[T, F]
 	silenceTimeout    time.Duration
 	attachmentTimeout time.Duration
+	signalDebounce    int
 
 	scope scope.Scope
 }
@@ -123,6 +124,9 @@ func (r *Receiver[T, F]) newListener(id string) *Listener[T, F] {
 	result := NewListener[T, F](id, r.out.Channel(id), r.clock, r, r.sampleRate, r.blockSize)
 	result.SetAttachmentTimeout(r.attachmentTimeout)
 	result.SetSilenceTimeout(r.silenceTimeout)
+	if r.signalDebounce > 0 {
+		result.SetSignalDebounce(r.signalDebounce)
+	}
 	result.SetScope(r.scope)
 	return result
 }
@@ -246,6 +250,7 @@ func (r *Receiver[T, F]) SetAttachmentTimeout(timeout time.Duration) {
 
 func (r *Receiver[T, F]) SetSignalDebounce(debounce int) {
 	r.do(func() {
+		r.signalDebounce = debounce
 		r.listeners.ForEach(func(l *Listener[T, F]) {
 			l.SetSignalDebounce(debounce)
 		})
-- 
2.43.0


From e979488fc1478896a8cf6bb1d84a4f26a28c0924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 20/42] fix: keep waiting IQ data intact when the source reuses
 its buffer

---
 rx/receiver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rx/receiver.go b/rx/receiver.go
index 16239d9..93de0e1 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"math"
 	"os"
+	"slices"
 	"time"
 
 	"github.com/ftl/sdrainer/dsp"
@@ -331,7 +332,7 @@ func (r *Receiver[T, F]) IQData(sampleRate int, data []T) {
 	}
 
 	select {
-	case r.in <- data:
+	case r.in <- slices.Clone(data): // the source may reuse its buffer
 		return
 	default:
 		log.Printf("IQ data skipped on receiver %s", r.id)
-- 
2.43.0


From 3409e6269beaf80a8d60750ff76813dd0592c588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 21/42] fix: stop the receiver before its listeners are
 detached

The processing loop still used the listeners that were being detached,
and data or settings coming in at that moment hit a closed channel.
---
 rx/receiver.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/rx/receiver.go b/rx/receiver.go
index 93de0e1..4109c07 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -155,12 +155,10 @@ func (r *Receiver[T, F]) Stop() {
 		return
 	}
 
-	r.listeners.Reset()
-
 	close(r.stop)
 	<-r.stopped
-	close(r.in)
-	close(r.op)
+
+	r.listeners.Reset()
 
 	r.stop = nil
 	r.stopped = nil
@@ -169,10 +167,15 @@ func (r *Receiver[T, F]) Stop() {
 }
 
 func (r *Receiver[T, F]) do(f func()) {
-	if r.op == nil {
+	op, stopped := r.op, r.stopped
+	if op == nil {
+		f()
+		return
+	}
+	select {
+	case op <- f:
+	case <-stopped:
 		f()
-	} else {
-		r.op <- f
 	}
 }
 
@@ -319,7 +322,8 @@ func (r *Receiver[T, F]) SetVFOOffset(offset F) {
 }
 
 func (r *Receiver[T, F]) IQData(sampleRate int, data []T) {
-	if r.in == nil {
+	in := r.in
+	if in == nil {
 		return
 	}
 	if r.sampleRate != sampleRate {
@@ -332,7 +336,7 @@ func (r *Receiver[T, F]) IQData(sampleRate int, data []T) {
 	}
 
 	select {
-	case r.in <- slices.Clone(data): // the source may reuse its buffer
+	case in <- slices.Clone(data): // the source may reuse its buffer
 		return
 	default:
 		log.Printf("IQ data skipped on receiver %s", r.id)
-- 
2.43.0


From 905c0cba595406fe04c30fb22650fffe570e50e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:01 +0000
Subject: [PATCH 22/42] fix: clear a replaced peak that begins before the table
 completely

---
 rx/peaks.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rx/peaks.go b/rx/peaks.go
index cb192a3..5003086 100644
--- a/rx/peaks.go
+++ b/rx/peaks.go
@@ -53,7 +53,7 @@ func (t *PeaksTable[T, F]) ForcePut(p *dsp.Peak[T, F]) {
 			continue
 		}
 		if clearFrom == -1 {
-			clearFrom = existingPeak.From
+			clearFrom = max(0, existingPeak.From)
 		}
 		clearTo = existingPeak.To
 	}
@@ -83,7 +83,7 @@ func (t *PeaksTable[T, F]) Put(p *dsp.Peak[T, F]) {
 			return
 		}
 		if clearFrom == -1 {
-			clearFrom = existingPeak.From
+			clearFrom = max(0, existingPeak.From)
 		}
 		clearTo = existingPeak.To
 	}
-- 
2.43.0


From 1bc490fc687b93172dfc4f73c15013b4ee7150f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 23/42] fix: settings that are made while the receiver stops
 never hang or crash

---
 rx/receiver.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/rx/receiver.go b/rx/receiver.go
index 4109c07..fd9a4f6 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -7,6 +7,7 @@ import (
 	"math"
 	"os"
 	"slices"
+	"sync"
 	"time"
 
 	"github.com/ftl/sdrainer/dsp"
@@ -75,6 +76,7 @@ type Receiver[T, F dsp.Number] struct {
 	centerFrequency F
 	vfoOffset       F
 
+	lifecycle        sync.Mutex // start, stop, and everything that is done while the receiver is not running
 	in               chan []T
 	op               chan func()
 	stop             chan struct{}
@@ -133,6 +135,8 @@ func (r *Receiver[T, F]) newListener(id string) *Listener[T, F] {
 }
 
 func (r *Receiver[T, F]) Start(sampleRate int, blockSize int) {
+	r.lifecycle.Lock()
+	defer r.lifecycle.Unlock()
 	if r.in != nil {
 		return
 	}
@@ -151,6 +155,8 @@ func (r *Receiver[T, F]) Start(sampleRate int, blockSize int) {
 }
 
 func (r *Receiver[T, F]) Stop() {
+	r.lifecycle.Lock()
+	defer r.lifecycle.Unlock()
 	if r.in == nil {
 		return
 	}
@@ -167,15 +173,21 @@ func (r *Receiver[T, F]) Stop() {
 }
 
 func (r *Receiver[T, F]) do(f func()) {
-	op, stopped := r.op, r.stopped
-	if op == nil {
-		f()
-		return
-	}
-	select {
-	case op <- f:
-	case <-stopped:
-		f()
+	for {
+		r.lifecycle.Lock()
+		op, stopped := r.op, r.stopped
+		if op == nil {
+			defer r.lifecycle.Unlock()
+			f()
+			return
+		}
+		r.lifecycle.Unlock()
+
+		select {
+		case op <- f:
+			return
+		case <-stopped:
+		}
 	}
 }
 
-- 
2.43.0


From 7e1e1afd42539e3f89ee675d68b753184cf3ef7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 24/42] fix: a KiwiSDR message of unexpected length never
 crashes the client

---
 kiwi/client.go | 9 ++++++++-
 kiwi/kiwi.go   | 3 ++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index 4bb27cb..f639beb 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -54,6 +54,9 @@ const (
 	downMessage        = "down"
 )
 
+// iqHeaderSize is the number of bytes before the samples in an IQ message
+const iqHeaderSize = 17
+
 var (
 	ErrTooBusy     = errors.New("kiwi too busy")
 	ErrBadPassword = errors.New("bad password")
@@ -289,7 +292,11 @@ func decodeIQMessage(iqData []float32, payload []byte) ([]float32, error) {
 	// rssi := 0.1*float32(smeter) - 127
 	// 10 more bytes of GPS information are ignored
 
-	iqBytes := payload[17:]
+	if len(payload) < iqHeaderSize {
+		return iqData, fmt.Errorf("IQ message too short: %d bytes", len(payload))
+	}
+
+	iqBytes := payload[iqHeaderSize:]
 	iqData = decodeIQBytes(iqData, iqBytes)
 
 	return iqData, nil
diff --git a/kiwi/kiwi.go b/kiwi/kiwi.go
index 2df24c2..da4d690 100644
--- a/kiwi/kiwi.go
+++ b/kiwi/kiwi.go
@@ -94,7 +94,8 @@ func (p *Process) Connected(sampleRate int) {
 func (p *Process) IQData(sampleRate int, data []float32) {
 	const partSize = blockSize * 2
 	if len(data)%partSize != 0 {
-		panic(fmt.Errorf("data must be transferred in blocks of %d samples instead of %d", partSize, len(data)))
+		log.Printf("data must be transferred in blocks of %d samples instead of %d", partSize, len(data))
+		return
 	}
 	count := len(data) / partSize
 	for i := 0; i < count; i++ {
-- 
2.43.0


From 6c8e3ef2fea00ae2193d759e42d12f8c62676cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 25/42] fix: an invalid audio rate from the KiwiSDR never
 replaces the current one

---
 kiwi/client.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index f639beb..e63109c 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -269,7 +269,14 @@ func (c *Client) decodeConfigurationMessage(payload []byte) error {
 		var err error
 		switch {
 		case key == "audio_rate":
-			c.audioRate, err = strconv.Atoi(value)
+			var audioRate int
+			audioRate, err = strconv.Atoi(value)
+			if err == nil && audioRate <= 0 {
+				err = fmt.Errorf("invalid audio rate: %s", value)
+			}
+			if err == nil {
+				c.audioRate = audioRate
+			}
 		case key == "compression":
 			c.compression = (value == "1")
 		case strings.HasPrefix(key, "load_"):
-- 
2.43.0


From dcb896357bd8f81d2890e18247a637170364fa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 26/42] fix: losing the KiwiSDR connection never crashes the
 client or blocks a sender

---
 kiwi/client.go | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index e63109c..91bfd8b 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -10,6 +10,7 @@ import (
 	"net/url"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/ftl/sdrainer/cli"
@@ -87,9 +88,10 @@ type Client struct {
 	iqBuffer    []float32
 	kiwiHandler KiwiHandler
 
-	out    chan string
-	close  chan struct{}
-	closed chan struct{}
+	out       chan string
+	close     chan struct{}
+	closeOnce sync.Once
+	closed    chan struct{}
 }
 
 func Open(host string, username string, password string, centerFrequency float64, bandwidth int, kiwiHandler KiwiHandler) (*Client, error) {
@@ -176,7 +178,7 @@ func (c *Client) readLoop(conn clientConn) {
 			msgType, msgBytes, err := conn.ReadMessage()
 			if err != nil {
 				log.Printf("cannot read next message from websocket: %v", err)
-				close(c.close)
+				c.requestClose()
 				return
 			}
 			if msgType != websocket.BinaryMessage {
@@ -215,7 +217,7 @@ func (c *Client) readLoop(conn clientConn) {
 			if err == ErrTooBusy || err == ErrBadPassword || err == ErrDown {
 				log.Printf("error message: %s", payload)
 				log.Print(err)
-				close(c.close)
+				c.requestClose()
 				return
 			}
 
@@ -323,6 +325,7 @@ func decodeIQBytes(iqData []float32, iqBytes []byte) []float32 {
 
 func (c *Client) writeLoop(conn clientConn) {
 	defer close(c.closed)
+	defer conn.Close()
 
 	keepaliveMessage := []byte("SET keepalive")
 	keepalive := time.NewTicker(5 * time.Second)
@@ -342,7 +345,7 @@ func (c *Client) writeLoop(conn clientConn) {
 		}
 		if err != nil {
 			log.Printf("cannot write message to websocket: %v", err)
-			close(c.close)
+			c.requestClose()
 			return
 		}
 	}
@@ -372,22 +375,24 @@ func (c *Client) setVFO(mode kiwiMode, lowCut int, highCut int, centerFrequency
 }
 
 func (c *Client) send(format string, args ...any) error {
-	c.out <- fmt.Sprintf(format, args...)
-	return nil
-}
-
-func (c *Client) Close() {
 	select {
-	case <-c.close:
-		return
+	case c.out <- fmt.Sprintf(format, args...):
+		return nil
 	case <-c.closed:
-		return
-	default:
-		close(c.close)
-		<-c.closed
+		return net.ErrClosed
 	}
 }
 
+// requestClose asks the write loop to close the connection. It may be called any number of times.
+func (c *Client) requestClose() {
+	c.closeOnce.Do(func() { close(c.close) })
+}
+
+func (c *Client) Close() {
+	c.requestClose()
+	<-c.closed
+}
+
 func nextClientNumber() int64 {
 	return time.Now().Unix()
 }
-- 
2.43.0


From 858605e4d357823f80ee025fe90f51b9d72d9eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 27/42] fix: telnet output is complete even if the connection
 splits the writes

---
 telnet/telnet.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 4b11e48..95f8db3 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -299,17 +299,12 @@ func (c *Connection) readLoop() {
 }
 
 func (c *Connection) writeAll(bytes []byte) error {
-	n := 0
-	buffer := bytes
-	for n < len(buffer) {
-		var err error
-		n, err = c.conn.Write(buffer)
+	for len(bytes) > 0 {
+		n, err := c.conn.Write(bytes)
 		if err != nil {
 			return err
 		}
-		if n < len(buffer) {
-			buffer = buffer[n:]
-		}
+		bytes = bytes[n:]
 	}
 	return nil
 }
-- 
2.43.0


From deffdb16527985a63090e0e9e008c8cd195249e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 28/42] fix: the telnet login takes the bytes of the user name
 as they are

---
 telnet/telnet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 95f8db3..bb0834f 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -324,7 +324,7 @@ func (c *Connection) parseAnswerByte(answerByte byte) (string, *Prompt) {
 		c.currentAnswer = ""
 		return response, nextPrompt
 	default:
-		c.currentAnswer += string(answerByte)
+		c.currentAnswer += string([]byte{answerByte})
 		return "", nil
 	}
 }
-- 
2.43.0


From 19781ccd68103f3169e100bb80bf157e7df90c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 29/42] fix: writing to or closing a failing telnet connection
 always returns

---
 telnet/telnet.go | 48 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index bb0834f..9f76381 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -9,6 +9,7 @@ import (
 	"log"
 	"net"
 	"os"
+	"sync"
 	"time"
 )
 
@@ -192,10 +193,12 @@ type Connection struct {
 	currentPrompt *Prompt
 	currentAnswer string
 
-	close  chan struct{}
-	closed chan struct{}
+	close     chan struct{}
+	closeOnce sync.Once
+	closed    chan struct{}
 
-	user string
+	user     string
+	userLock sync.Mutex
 }
 
 func NewConnection(conn io.ReadWriteCloser, welcome string) *Connection {
@@ -223,7 +226,7 @@ func (c *Connection) run() {
 	defer func() {
 		err := c.conn.Close()
 		if err != nil {
-			log.Printf("close %s: %v", c.user, err)
+			log.Printf("close %s: %v", c, err)
 		}
 	}()
 
@@ -236,14 +239,14 @@ func (c *Connection) run() {
 	inputCallsignPrompt := &Prompt{
 		Question: "Enter your callsign: ",
 		Answer: func(answer string) (string, *Prompt) {
-			c.user = answer
-			return fmt.Sprintf("welcome %s\n", c.user), ignoreInputPrompt
+			c.setUser(answer)
+			return fmt.Sprintf("welcome %s\n", answer), ignoreInputPrompt
 		},
 	}
 
 	err := c.startPrompt(inputCallsignPrompt)
 	if err != nil {
-		log.Printf("%s: %v", c.user, err)
+		log.Printf("%s: %v", c, err)
 	}
 
 	for {
@@ -253,7 +256,7 @@ func (c *Connection) run() {
 		case bytes := <-c.msg:
 			err := c.writeAll(bytes)
 			if err != nil {
-				log.Printf("%s: %v", c.user, err)
+				log.Printf("%s: %v", c, err)
 				return
 			}
 		case bytes := <-c.input:
@@ -262,14 +265,14 @@ func (c *Connection) run() {
 				if response != "" {
 					err := c.writeAll([]byte(response))
 					if err != nil {
-						log.Printf("%s: %v", c.user, err)
+						log.Printf("%s: %v", c, err)
 						return
 					}
 				}
 
 				err := c.startPrompt(nextPrompt)
 				if err != nil {
-					log.Printf("%s: %v", c.user, err)
+					log.Printf("%s: %v", c, err)
 					continue
 				}
 			}
@@ -284,7 +287,7 @@ func (c *Connection) readLoop() {
 		if errors.Is(err, os.ErrClosed) || errors.Is(err, net.ErrClosed) || errors.Is(err, io.EOF) {
 			return
 		} else if err != nil {
-			log.Printf("%s: %v", c.user, err)
+			log.Printf("%s: %v", c, err)
 			return
 		}
 
@@ -294,7 +297,11 @@ func (c *Connection) readLoop() {
 
 		bytes := make([]byte, n)
 		copy(bytes, readBuffer[:n])
-		c.input <- bytes
+		select {
+		case c.input <- bytes:
+		case <-c.closed:
+			return
+		}
 	}
 }
 
@@ -334,7 +341,7 @@ func (c *Connection) Close() {
 	case <-c.closed:
 		return
 	default:
-		close(c.close)
+		c.closeOnce.Do(func() { close(c.close) })
 		<-c.closed
 	}
 }
@@ -344,11 +351,24 @@ func (c *Connection) Write(bytes []byte) (int, error) {
 	case <-c.closed:
 		return 0, net.ErrClosed
 	default:
-		c.msg <- bytes
+	}
+
+	select {
+	case c.msg <- bytes:
 		return len(bytes), nil
+	case <-c.closed:
+		return 0, net.ErrClosed
 	}
 }
 
 func (c *Connection) String() string {
+	c.userLock.Lock()
+	defer c.userLock.Unlock()
 	return c.user
 }
+
+func (c *Connection) setUser(user string) {
+	c.userLock.Lock()
+	defer c.userLock.Unlock()
+	c.user = user
+}
-- 
2.43.0


From c44c99f9e14e63a0d09927037a73f9ac30341772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 30/42] fix: a telnet client that takes no more data is dropped
 after a while

---
 telnet/telnet.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 9f76381..b54fe40 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -16,6 +16,7 @@ import (
 const (
 	newConnectionDeadline     = 100 * time.Millisecond
 	connectionKeepAlivePeriod = 30 * time.Second
+	connectionWriteTimeout    = 5 * time.Second
 	readBufferSize            = 1024
 	defaultSpotSilencePeriod  = 4 * time.Minute
 )
@@ -306,6 +307,9 @@ func (c *Connection) readLoop() {
 }
 
 func (c *Connection) writeAll(bytes []byte) error {
+	if conn, ok := c.conn.(interface{ SetWriteDeadline(time.Time) error }); ok {
+		conn.SetWriteDeadline(time.Now().Add(connectionWriteTimeout))
+	}
 	for len(bytes) > 0 {
 		n, err := c.conn.Write(bytes)
 		if err != nil {
-- 
2.43.0


From c2fe4da9331fe59943addb041baf66fc5e400b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 31/42] fix: spots never block after the telnet server was
 stopped

---
 telnet/telnet.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index b54fe40..1b6e47d 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -40,9 +40,10 @@ type Server struct {
 	lastSpots     map[spotHash]time.Time
 	silencePeriod time.Duration
 
-	msg    chan []byte
-	close  chan struct{}
-	closed chan struct{}
+	msg       chan []byte
+	close     chan struct{}
+	closeOnce sync.Once
+	closed    chan struct{}
 }
 
 func NewServer(address string, mycall string, version string) (*Server, error) {
@@ -84,6 +85,7 @@ func (s *Server) run() {
 			for _, conn := range s.connections {
 				conn.Close()
 			}
+			s.listener.Close()
 			return
 		case bytes := <-s.msg:
 			removeConnections = removeConnections[:0]
@@ -145,7 +147,7 @@ func (s *Server) Stop() {
 	case <-s.closed:
 		return
 	default:
-		close(s.close)
+		s.closeOnce.Do(func() { close(s.close) })
 		<-s.closed
 	}
 }
@@ -157,8 +159,11 @@ func (s *Server) SetSilencePeriod(silencePeriod time.Duration) {
 func (s *Server) Spot(callsign string, frequency float64, msg string, timestamp time.Time) {
 	hash := newSpotHash(callsign, frequency)
 	if s.shouldAnnounce(hash, timestamp) {
-		s.msg <- []byte(s.formatSpotMessage(callsign, frequency, msg, timestamp))
-		s.registerSpot(hash, timestamp)
+		select {
+		case s.msg <- []byte(s.formatSpotMessage(callsign, frequency, msg, timestamp)):
+			s.registerSpot(hash, timestamp)
+		case <-s.closed:
+		}
 	}
 }
 
-- 
2.43.0


From 10565b3a538c0e50e97469d92689ac6f1aa35d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 32/42] fix: several stuck scope viewers never crash the scope
 server

---
 scope/server_grpc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scope/server_grpc.go b/scope/server_grpc.go
index e6ee85e..35e5e20 100644
--- a/scope/server_grpc.go
+++ b/scope/server_grpc.go
@@ -75,7 +75,9 @@ func (s *grpcServer) removeStream(i int) {
 }
 
 func (s *grpcServer) sendFrameToStreams(frame *pb.Frame) {
-	for i, out := range s.out {
+	// removeStream moves the last stream into the gap, so go backwards
+	for i := len(s.out) - 1; i >= 0; i-- {
+		out := s.out[i]
 		select {
 		case out <- frame:
 		default:
-- 
2.43.0


From 23b3beb6144f99a74a0bcde511d9d35526061485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:03 +0000
Subject: [PATCH 33/42] fix: stopping the scope server never crashes or blocks
 those who send or wait for frames

---
 scope/server_grpc.go | 56 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/scope/server_grpc.go b/scope/server_grpc.go
index 35e5e20..addf6c3 100644
--- a/scope/server_grpc.go
+++ b/scope/server_grpc.go
@@ -3,6 +3,7 @@ package scope
 import (
 	"fmt"
 	"net"
+	"sync"
 
 	"google.golang.org/grpc"
 
@@ -12,8 +13,9 @@ import (
 const defaultOutBufferSize = 10
 
 type grpcServer struct {
-	address *net.TCPAddr
-	server  *grpc.Server
+	address    *net.TCPAddr
+	server     *grpc.Server
+	serverLock sync.Mutex
 
 	outBufferSize int
 	in            chan *pb.Frame
@@ -42,9 +44,6 @@ func newGRPCServer(address string, outBufferSize int) (*grpcServer, error) {
 }
 
 func (s *grpcServer) run() {
-	defer close(s.in)
-	defer close(s.register)
-
 	for {
 		select {
 		case <-s.shutdown:
@@ -89,39 +88,65 @@ func (s *grpcServer) sendFrameToStreams(frame *pb.Frame) {
 
 func (s *grpcServer) getFrameStream() chan *pb.Frame {
 	result := make(chan *pb.Frame, s.outBufferSize)
-	s.register <- result
+	select {
+	case s.register <- result:
+	case <-s.shutdown:
+		close(result)
+	}
 	return result
 }
 
 func (s *grpcServer) Start() error {
+	server := grpc.NewServer()
+	s.serverLock.Lock()
 	if s.server != nil {
+		s.serverLock.Unlock()
 		return fmt.Errorf("server already running")
 	}
-	s.server = grpc.NewServer()
-	pb.RegisterScopeServer(s.server, s)
+	s.server = server
+	s.serverLock.Unlock()
+	defer s.finish()
+
+	pb.RegisterScopeServer(server, s)
 
 	listener, err := net.Listen("tcp", s.address.String())
 	if err != nil {
 		return fmt.Errorf("cannot listen on address %s: %w", s.address, err)
 	}
+	s.serverLock.Lock()
 	s.activeAddress = listener.Addr()
+	s.serverLock.Unlock()
 
 	go s.run()
 
-	err = s.server.Serve(listener)
+	return server.Serve(listener)
+}
+
+// finish releases everybody who waits for the server.
+func (s *grpcServer) finish() {
+	s.serverLock.Lock()
 	s.server = nil
+	s.serverLock.Unlock()
 	close(s.shutdown)
-	return err
+}
+
+func (s *grpcServer) activeServer() *grpc.Server {
+	s.serverLock.Lock()
+	defer s.serverLock.Unlock()
+	return s.server
 }
 
 func (s *grpcServer) Stop() {
-	if s.server == nil {
+	server := s.activeServer()
+	if server == nil {
 		return
 	}
-	s.server.Stop()
+	server.Stop()
 }
 
 func (s *grpcServer) Addr() net.Addr {
+	s.serverLock.Lock()
+	defer s.serverLock.Unlock()
 	return s.activeAddress
 }
 
@@ -143,8 +168,11 @@ func (s *grpcServer) GetFrames(_ *pb.GetScopeRequest, stream pb.Scope_GetFramesS
 }
 
 func (s *grpcServer) SendFrame(frame *pb.Frame) {
-	if s.server == nil {
+	if s.activeServer() == nil {
 		return
 	}
-	s.in <- frame
+	select {
+	case s.in <- frame:
+	case <-s.shutdown:
+	}
 }
-- 
2.43.0


From 7020e93f0261c3dbe4202ac4466489c9d17400cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 34/42] fix: showing a frame or stopping never crashes while
 the scope server ends

---
 scope/server.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/scope/server.go b/scope/server.go
index b65c4c7..f1d5259 100644
--- a/scope/server.go
+++ b/scope/server.go
@@ -29,9 +29,13 @@ func NewScopeServer(address string) *ScopeServer {
 }
 
 func (s *ScopeServer) Active() bool {
+	return s.activeServer() != nil
+}
+
+func (s *ScopeServer) activeServer() *grpcServer {
 	s.serverLock.Lock()
 	defer s.serverLock.Unlock()
-	return s.server != nil
+	return s.server
 }
 
 func (s *ScopeServer) Addr() net.Addr {
@@ -62,7 +66,7 @@ func (s *ScopeServer) Start() error {
 		s.server = server
 		s.serverLock.Unlock()
 
-		err := s.server.Start()
+		err := server.Start()
 		if err != nil {
 			log.Printf("Scope server failed: %v", err)
 		}
@@ -76,15 +80,17 @@ func (s *ScopeServer) Start() error {
 }
 
 func (s *ScopeServer) Stop() {
-	if !s.Active() {
+	server := s.activeServer()
+	if server == nil {
 		return
 	}
 
-	s.server.Stop()
+	server.Stop()
 }
 
 func (s *ScopeServer) ShowTimeFrame(timeFrame *TimeFrame) {
-	if !s.Active() {
+	server := s.activeServer()
+	if server == nil {
 		return
 	}
 
@@ -102,11 +108,12 @@ func (s *ScopeServer) ShowTimeFrame(timeFrame *TimeFrame) {
 			TimeFrame: grpcTimeFrame,
 		},
 	}
-	s.server.SendFrame(frame)
+	server.SendFrame(frame)
 }
 
 func (s *ScopeServer) ShowSpectralFrame(spectralFrame *SpectralFrame) {
-	if !s.Active() {
+	server := s.activeServer()
+	if server == nil {
 		return
 	}
 
@@ -134,5 +141,5 @@ func (s *ScopeServer) ShowSpectralFrame(spectralFrame *SpectralFrame) {
 			SpectralFrame: grpcSpectralFrame,
 		},
 	}
-	s.server.SendFrame(frame)
+	server.SendFrame(frame)
 }
-- 
2.43.0


From bb62808d32b47fbca6b5cce50eb0a2d5ca1766ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 35/42] fix: a bracketed IPv6 literal is a valid host argument

---
 cli/cli.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cli/cli.go b/cli/cli.go
index 6813cf2..8694042 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -1,7 +1,6 @@
 package cli
 
 import (
-	"fmt"
 	"net"
 	"strconv"
 	"strings"
@@ -18,7 +17,7 @@ func ParseTCPAddrArg(arg string, defaultHost string, defaultPort int) (*net.TCPA
 		port = strconv.Itoa(defaultPort)
 	}
 
-	return net.ResolveTCPAddr("tcp", fmt.Sprintf("%s:%s", host, port))
+	return net.ResolveTCPAddr("tcp", net.JoinHostPort(host, port))
 }
 
 func splitHostPort(hostport string) (host, port string) {
-- 
2.43.0


From 45d6d41935bcb2e1ca44cd7c50cc5a003cc4cb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 36/42] fix: closing the TCI process never hangs when many
 reports are waiting

---
 tci/tci.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tci/tci.go b/tci/tci.go
index a624187..f341155 100644
--- a/tci/tci.go
+++ b/tci/tci.go
@@ -103,8 +103,14 @@ func (p *Process) doAsync(f func()) {
 	select {
 	case <-p.closed:
 		f()
+		return
 	default:
-		p.opAsync <- f
+	}
+
+	select {
+	case p.opAsync <- f:
+	case <-p.close:
+		f()
 	}
 }
 
-- 
2.43.0


From f49a20f9ede5c077a2fd48fd3dccff249f8fc9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:08 +0000
Subject: [PATCH 37/42] fix: spot lines keep their columns on every band

---
 telnet/telnet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 1b6e47d..dddc28d 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -181,7 +181,7 @@ func (s *Server) registerSpot(hash spotHash, timestamp time.Time) {
 
 func (s *Server) formatSpotMessage(callsign string, frequency float64, msg string, timestamp time.Time) string {
 	prefix := fmt.Sprintf("DX de %s:", s.mycall)
-	return fmt.Sprintf("%-16s% 6.1f  %-13s%-31s%-4sz\n", prefix, frequency/1000.0, callsign, msg, timestamp.Format("1504"))
+	return fmt.Sprintf("%-16s%8.1f  %-13s%-31s%-4sz\n", prefix, frequency/1000.0, callsign, msg, timestamp.Format("1504"))
 }
 
 var ErrClosed = errors.New("connection already closed")
-- 
2.43.0


From 0f82f21e0f24f681375f97ac2cfc3b05b8d9c2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:19 +0000
Subject: [PATCH 38/42] fix: a KiwiSDR with an IPv6 address can be connected to

---
 kiwi/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index 91bfd8b..90cd61d 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -155,7 +155,7 @@ func newClient(host string, keepalive bool, kiwiHandler KiwiHandler) (*Client, e
 }
 
 func (c *Client) connect() (clientConn, error) {
-	hostUrl, err := url.Parse(fmt.Sprintf("ws://%s:%d/%d/SND", c.host.IP.String(), c.host.Port, nextClientNumber()))
+	hostUrl, err := url.Parse(fmt.Sprintf("ws://%s/%d/SND", net.JoinHostPort(c.host.IP.String(), strconv.Itoa(c.host.Port)), nextClientNumber()))
 	if err != nil {
 		return nil, fmt.Errorf("cannot build KiwiSDR URL: %v", err)
 	}
-- 
2.43.0


From 77c5356247c1e9456344a2675b56fb08be7f33b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:41 +0000
Subject: [PATCH 39/42] fix: the maximum of a section of a block is within the
 section

---
 dsp/fft.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 2e89c9d..4de024b 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -163,8 +163,8 @@ func (b Block[T]) Mean(from, to int) T {
 
 // Max imum value in the given section of this block.
 func (b Block[T]) Max(from, to int) (T, int) {
-	maxValue := b[0]
-	maxI := 0
+	maxValue := b[from]
+	maxI := from
 	for i := from; i <= to; i++ {
 		if maxValue < b[i] {
 			maxValue = b[i]
-- 
2.43.0


From 8faac58d67571917d72cff6876ab33601ecb0d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:14 +0000
Subject: [PATCH 40/42] fix: strain kiwi has the --threshold option that its
 receiver is configured with

---
 cmd/kiwi.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/kiwi.go b/cmd/kiwi.go
index 61d73d6..aae23ab 100644
--- a/cmd/kiwi.go
+++ b/cmd/kiwi.go
@@ -36,6 +36,7 @@ func init() {
 	strainKiwiCmd.Flags().Float64Var(&kiwiFlags.centerFrequency, "center", 7_020_000, "the center frequency")
 	strainKiwiCmd.Flags().Float64Var(&kiwiFlags.rxFrequency, "rx", 0, "the rx frequency")
 	strainKiwiCmd.Flags().IntVar(&kiwiFlags.bandwidth, "bandwidth", 10_000, "the bandwidth that is observed to find CW signals (max 12000)")
+	strainKiwiCmd.Flags().IntVar(&kiwiFlags.threshold, "threshold", 15, "the threshold in dB over noise that a signal must exceed to be detected")
 }
 
 func runStrainKiwi(ctx context.Context, scope scope.Scope, cmd *cobra.Command, args []string) {
-- 
2.43.0


From e2698f65267f239f38a83627bb8a10a5f3393b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:14 +0000
Subject: [PATCH 41/42] fix: decode pulse applies the --wpm option

---
 cmd/pulse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/pulse.go b/cmd/pulse.go
index 4d3940b..b24aae6 100644
--- a/cmd/pulse.go
+++ b/cmd/pulse.go
@@ -58,6 +58,7 @@ func runPulse(ctx context.Context, scope scope.Scope, cmd *cobra.Command, args [
 	defer demodulator.Close()
 	demodulator.SetScale(pulseFlags.scale)
 	demodulator.SetDebounceThreshold(decodeFlags.debounce)
+	demodulator.PresetWPM(pulseFlags.wpm)
 	demodulator.SetMagnitudeThreshold(pulseFlags.magnitudeThreshold)
 	demodulator.SetScope(scope)
 
-- 
2.43.0


From fc2cde3ca9906ee4ba7475eda21e5cf03ac89980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:15 +0000
Subject: [PATCH 42/42] fix: decode pulse records from the selected source, at
 the rate its demodulator works with

---
 cmd/pulse.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/pulse.go b/cmd/pulse.go
index b24aae6..7196a8e 100644
--- a/cmd/pulse.go
+++ b/cmd/pulse.go
@@ -62,7 +62,12 @@ func runPulse(ctx context.Context, scope scope.Scope, cmd *cobra.Command, args [
 	demodulator.SetMagnitudeThreshold(pulseFlags.magnitudeThreshold)
 	demodulator.SetScope(scope)
 
-	stream, err := client.NewRecord(pulse.Float32Writer(demodulator.Write), pulse.RecordBufferFragmentSize(2*uint32(demodulator.Blocksize())))
+	stream, err := client.NewRecord(
+		pulse.Float32Writer(demodulator.Write),
+		pulse.RecordSource(source),
+		pulse.RecordSampleRate(source.SampleRate()),
+		pulse.RecordBufferFragmentSize(2*uint32(demodulator.Blocksize())),
+	)
 	if err != nil {
 		log.Fatal(err)
 	}
-- 
2.43.0

