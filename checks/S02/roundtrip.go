package scope

import (
	"time"
)

//verif:include scope.go
//verif:stub net.ResolveTCPAddr = vResolve
//verif:stub net.Listen = vListen
//verif:stub google.golang.org/grpc.NewServer = vNewServer
//verif:stub (*google.golang.org/grpc.Server).RegisterService = vRegister
//verif:stub (*google.golang.org/grpc.Server).Serve = vServe
//verif:stub (*google.golang.org/grpc.Server).Stop = vHalt
//verif:stub (*google.golang.org/grpc.Server).GracefulStop = vHalt
//verif:stub github.com/golang/protobuf/proto.RegisterType = vRegisterMessage
//verif:stub github.com/golang/protobuf/proto.RegisterMapType = vRegisterType
//verif:stub github.com/golang/protobuf/proto.RegisterFile = vRegisterFile
//verif:stub google.golang.org/grpc.NewClient = vDial
//verif:stub google.golang.org/grpc/credentials/insecure.NewCredentials = vCredentials
//verif:stub (*google.golang.org/grpc.ClientConn).Close = vDialClose
//verif:stub (*google.golang.org/grpc.ClientConn).NewStream = vNewClientStream
//verif:bound up to 3 (quick) / 6 (thorough) spectrum values, up to 3 / 4 channels and 2 markers of each kind of any names of up to 2 bytes, any double precision numbers, any nanosecond within 100 years from 1990 on in any of two time zones; two frames of each kind
//verif:assume the network is a stand-in that delivers every message as it is (serialisation is part of the protobuf library)

func vSame(got, want float64) {
	want = float64(float32(want))
	vAssert(vOr(got == want, vAnd(got != got, want != want)), "the number is the original one in single precision")
}

// vConnected starts a server and a client.
func vConnected() (*ScopeServer, chan *TimeFrame, chan *SpectralFrame) {
	vQuiet(true)
	vNetwork()
	s := NewScopeServer("localhost:")
	vAssert(s.Start() == nil, "the server starts")
	vSettle()
	c := NewClient("localhost:")
	vAssert(c.Open() == nil, "the client connects")
	times, spectra, err := c.GetFrames()
	vAssert(err == nil, "the client gets the frames")
	vSettle()
	return s, times, spectra
}

func vStamp() time.Time {
	zone := time.UTC
	if vBool("zone") {
		zone = time.FixedZone("x", 3600)
	}
	return time.Date(1990, 1, 1, 0, 0, 0, 0, zone).Add(time.Duration(vInt("seconds", 0, 100*366*86400)) * time.Second).Add(time.Duration(vInt("nanoseconds", 0, 999999999)))
}

// vKeys returns different names.
func vKeys(name string, max int) []string {
	keys := make([]string, vChoose(name, max+1))
	for i := range keys {
		keys[i] = string(vBytes(name, 2)[:1+vChoose("length", 2)])
		for j := 0; j < i; j++ {
			vAssume(keys[i] != keys[j])
		}
	}
	return keys
}

func vFrameHead() Frame {
	return Frame{Stream: StreamID(vBytes("stream", 2)), Timestamp: vStamp()}
}

func vCheckHead(got, want Frame) {
	vAssert(got.Stream == want.Stream, "the stream is the same")
	vAssert(got.Timestamp.Equal(want.Timestamp), "the instant is the same")
}

//verif:harness vHarness_time conc=1 preempt=0 mode=int merge=0 mapFork=1 native=0 timers=0 p.n=3/4 steps=2000000 budget=100/300
func vHarness_time() {
	s, times, spectra := vConnected()
	for i := 0; i < 2; i++ {
		frame := &TimeFrame{Frame: vFrameHead(), Values: map[ChannelID]float64{}}
		for _, k := range vKeys("channels", vParam("n", 2)) {
			frame.Values[ChannelID(k)] = vFloat64("value")
		}
		s.ShowTimeFrame(frame)
		vSettle()
		vAssert(len(times) == 1 && len(spectra) == 0, "the frame arrives")
		got := <-times
		vCheckHead(got.Frame, frame.Frame)
		vAssert(len(got.Values) == len(frame.Values), "all channels arrive")
		for k, v := range frame.Values {
			g, ok := got.Values[k]
			vAssert(ok, "the channel arrives")
			vSame(g, v)
		}
	}
	vReach("end")
}

//verif:harness vHarness_spectrum conc=1 preempt=0 mode=int merge=0 mapFork=1 native=0 timers=0 p.n=2/2 p.v=3/6 steps=2000000 budget=100/300
func vHarness_spectrum() {
	s, times, spectra := vConnected()
	for i := 0; i < 2; i++ {
		frame := &SpectralFrame{Frame: vFrameHead(), FromFrequency: vFloat64("from"), ToFrequency: vFloat64("to"),
			FrequencyMarkers: map[MarkerID]float64{}, MagnitudeMarkers: map[MarkerID]float64{}}
		for j := vChoose("values", vParam("v", 3)+1); j > 0; j-- {
			frame.Values = append(frame.Values, vFloat64("value"))
		}
		for _, k := range vKeys("frequencies", vParam("n", 1)) {
			frame.FrequencyMarkers[MarkerID(k)] = vFloat64("frequency")
		}
		for _, k := range vKeys("magnitudes", vParam("n", 1)) {
			frame.MagnitudeMarkers[MarkerID(k)] = vFloat64("magnitude")
		}
		s.ShowSpectralFrame(frame)
		vSettle()
		vAssert(len(times) == 0 && len(spectra) == 1, "the frame arrives")
		got := <-spectra
		vCheckHead(got.Frame, frame.Frame)
		vSame(got.FromFrequency, frame.FromFrequency)
		vSame(got.ToFrequency, frame.ToFrequency)
		vAssert(len(got.Values) == len(frame.Values), "all values arrive")
		for j, v := range frame.Values {
			vSame(got.Values[j], v)
		}
		vAssert(len(got.FrequencyMarkers) == len(frame.FrequencyMarkers), "all frequency markers arrive")
		for k, v := range frame.FrequencyMarkers {
			g, ok := got.FrequencyMarkers[k]
			vAssert(ok, "the frequency marker arrives")
			vSame(g, v)
		}
		vAssert(len(got.MagnitudeMarkers) == len(frame.MagnitudeMarkers), "all magnitude markers arrive")
		for k, v := range frame.MagnitudeMarkers {
			g, ok := got.MagnitudeMarkers[k]
			vAssert(ok, "the magnitude marker arrives")
			vSame(g, v)
		}
	}
	vReach("end")
}
