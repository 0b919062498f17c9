package kiwi

import (
	"errors"
	"fmt"
	"net"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/gorilla/websocket"

	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/scope"
)

//verif:stub net.ResolveTCPAddr = vResolveHost
//verif:stub (*github.com/gorilla/websocket.Dialer).Dial = vDial
//verif:stub (*github.com/gorilla/websocket.Conn).ReadMessage = vRead
//verif:stub (*github.com/gorilla/websocket.Conn).WriteMessage = vWrite
//verif:stub (*github.com/gorilla/websocket.Conn).Close = vCloseConn
//verif:stub (*github.com/gorilla/websocket.Conn).RemoteAddr = vRemote
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).AddReporter = vAddReporter
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).Start = vStart
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).Stop = vStopReceiver
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetEdgeWidth = vEdgeWidth
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetPeakThreshold = vThreshold
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetSignalDebounce = vDebounce
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetSilenceTimeout = vSilence
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetAttachmentTimeout = vAttachment
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetScope = vSetScope
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetCenterFrequency = vCenter
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetVFOOffset = vOffset
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).IQData = vIQData
//verif:bound every port of seven kinds of IPv4 and IPv6 addresses; every sequence of 4 (quick) / 5 (thorough) settings, one of which may be the connection's first audio rate, with any positive values; messages of 0 to 3 blocks of samples, each block with up to 4 arbitrary samples at its ends, and of any other length from a list; any user name or password of 1 (quick) / 2 (thorough) bytes; any centre frequency up to 32 MHz in Hz and any even bandwidth up to 12 kHz
//verif:assume the websocket and the receiver are stand-ins that record what they are given; one schedule (the schedules are the subject of K03)

type vReceiver = rx.Receiver[float32, int]

var (
	vHost     *net.TCPAddr
	vURL      string
	vFail     bool
	vMessages chan []byte
	vDone     chan struct{}
	vIsClosed bool

	vStartedAt int
	vBlocks    [][]float32
	vOffsetNow int
	vOffsetSet bool
	vSettings  [4]int // threshold, debounce, silence and attachment timeout
	vScope     scope.Scope
	vWritten   []string
	vEdge      int
)

func vReset() {
	vURL, vFail, vMessages, vDone, vIsClosed = "", false, make(chan []byte, 8), make(chan struct{}), false
	vStartedAt, vBlocks, vOffsetNow, vOffsetSet, vSettings, vScope = 0, nil, 0, false, [4]int{}, nil
	vWritten, vEdge = nil, 0
	vHost = &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 8073}
}

func vResolveHost(network, address string) (*net.TCPAddr, error) { return vHost, nil }

func vDial(d *websocket.Dialer, url string, header http.Header) (*websocket.Conn, *http.Response, error) {
	vURL = url
	if vFail {
		return nil, nil, errors.New("nobody is there")
	}
	return &websocket.Conn{}, nil, nil
}

func vRead(c *websocket.Conn) (int, []byte, error) {
	select {
	case m := <-vMessages:
		return websocket.BinaryMessage, m, nil
	case <-vDone:
		return 0, nil, net.ErrClosed
	}
}
func vWrite(c *websocket.Conn, messageType int, data []byte) error {
	vWritten = append(vWritten, string(data))
	return nil
}
func vCloseConn(c *websocket.Conn) error {
	if !vIsClosed {
		vIsClosed = true
		close(vDone)
	}
	return nil
}
func vRemote(c *websocket.Conn) net.Addr { return vHost }

func vAddReporter(r *vReceiver, reporter rx.Reporter[int]) {}
func vStart(r *vReceiver, sampleRate int, blockSize int)   { vStartedAt = sampleRate }
func vStopReceiver(r *vReceiver)                           { vStartedAt = 0 }
func vEdgeWidth(r *vReceiver, width int)                   { vEdge = width }
func vThreshold(r *vReceiver, threshold float32)           { vSettings[0] = int(threshold) }
func vDebounce(r *vReceiver, debounce int)                 { vSettings[1] = debounce }
func vSilence(r *vReceiver, timeout time.Duration)         { vSettings[2] = int(timeout) }
func vAttachment(r *vReceiver, timeout time.Duration)      { vSettings[3] = int(timeout) }
func vSetScope(r *vReceiver, s scope.Scope)                { vScope = s }
func vCenter(r *vReceiver, frequency int)                  {}
func vOffset(r *vReceiver, frequency int)                  { vOffsetNow, vOffsetSet = frequency, true }
func vIQData(r *vReceiver, sampleRate int, data []float32) {
	vAssert(sampleRate == vStartedAt, "the sample rate is passed on")
	vBlocks = append(vBlocks, append([]float32{}, data...))
}

//verif:harness vHarness_address mode=exact merge=0 native=0 steps=2000000 budget=60/100
func vHarness_address() {
	vReset()
	vFail = true
	ip := []net.IP{
		net.IPv4(127, 0, 0, 1), net.IPv4(192, 168, 178, 255), net.IPv4(8, 8, 8, 8).To4(),
		net.ParseIP("::1"), net.ParseIP("fe80::1:2"), net.ParseIP("2001:db8:1:2:3:4:5:6"), net.ParseIP("::ffff:10.0.0.1"),
	}[vChoose("ip", 7)]
	port := vInt("port", 0, 65535)
	vHost = &net.TCPAddr{IP: ip, Port: port}
	_, err := New("host", "user", "password", 7020000, 10000, nil)
	vAssert(err != nil, "a failure to connect is reported")
	u, err := url.Parse(vURL)
	vAssert(err == nil, "the URL is valid")
	host, p, err := net.SplitHostPort(u.Host)
	vAssert(err == nil, "the address is valid")
	vAssert(host == ip.String(), "the client connects to the given host")
	if port == 0 {
		port = 8073
	}
	vAssert(p == strconv.Itoa(port), "the client connects to the given port, or to the default one")
	vReach("end")
}

func vOpenProcess() *Process {
	p, err := New("host", "user", "password", 7020000, 10000, nil)
	vAssert(err == nil, "the process is created")
	return p
}

//verif:harness vHarness_settings conc=1 preempt=0 mode=arith merge=0 mapFork=1 native=0 timers=0 p.n=4/5 steps=2000000 budget=150/300
func vHarness_settings() {
	vQuiet(true)
	vReset()
	p := vOpenProcess()
	var want [4]int
	var wantScope scope.Scope
	wantOffset, offset := 0, false
	connected := false
	for i, n := 0, vParam("n", 4); i < n; i++ {
		what := vChoose("what", 7)
		switch v := vInt("value", 1, 1000000); what {
		case 0:
			p.SetThreshold(v)
			want[0] = v
		case 1:
			p.SetSignalDebounce(v)
			want[1] = v
		case 2:
			p.SetSilenceTimeout(time.Duration(v))
			want[2] = v
		case 3:
			p.SetAttachmentTimeout(time.Duration(v))
			want[3] = v
		case 4:
			wantScope = scope.NewNullScope()
			p.SetScope(wantScope)
		case 5:
			p.SetRXFrequency(float64(7020000 - 5000 + v))
			wantOffset, offset = v-5000, true
		case 6:
			if connected {
				continue
			}
			connected = true
			vMessages <- []byte("MSG audio_rate=12000")
		}
		vSettle()
		if connected {
			vAssert(vStartedAt == 12000, "the receiver is started with the audio rate")
			for j := range want {
				vAssert(vSettings[j] == want[j], "every setting is applied")
			}
			vAssert(wantScope == nil || vScope == wantScope, "the scope is applied")
			vAssert(!offset || vOffsetSet && vOffsetNow == wantOffset, "the frequency is applied")
		}
	}
	p.Close()
	p.Close()
	vAssert(vIsClosed && vStartedAt == 0, "the connection and the receiver are closed")
	vSettle()
	vAssert(vLiveGoroutines() == 0, "nothing is left behind")
	vReach("end")
}

//verif:harness vHarness_data conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 timers=0 steps=20000000 budget=150/300
func vHarness_data() {
	vQuiet(true)
	vReset()
	p := vOpenProcess()
	vMessages <- []byte("MSG audio_rate=12000")
	vSettle()
	var want []float32
	for m := 0; m < 2; m++ {
		length := []int{0, 1, 2, 3, 1, 1023, 1025, 512}[vChoose("length", 8)]
		if length <= 3 {
			length *= 1024
		}
		data := make([]float32, length)
		for i := range data {
			data[i] = float32(i)
			if i%1024 < 2 || i%1024 >= 1022 {
				data[i] = vFloat32("sample")
			}
		}
		if len(data)%1024 == 0 {
			want = append(want, data...)
		}
		p.IQData(12000, data)
	}
	for _, b := range vBlocks {
		vAssert(len(b) == 1024, "the receiver gets complete blocks")
		vAssert(len(b) <= len(want), "no data is passed on twice")
		for i, v := range b {
			vAssert(vOr(v == want[i], vAnd(v != v, want[i] != want[i])), "the samples are passed on in order")
		}
		want = want[1024:]
	}
	vAssert(len(want) == 0, "all data is passed on")
	p.Close()
	vReach("end")
}

// vTail is the rest of the only message with the given beginning.
func vTail(prefix string) string {
	tail, found := "", 0
	for _, m := range vWritten {
		if strings.HasPrefix(m, prefix) {
			tail = m[len(prefix):]
			found++
		}
	}
	vAssert(found == 1, "the device is told once: "+prefix)
	return tail
}

//verif:harness vHarness_login conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 timers=0 p.n=1/2 steps=20000000 budget=100/300
func vHarness_login() {
	// the device gets the user name and the password, whatever is in them
	vQuiet(true)
	vReset()
	username, password := "user", "secret"
	if vBool("user name") {
		username = vString("username", vParam("n", 1))
	} else {
		password = vString("password", vParam("n", 1))
	}
	p, err := New("host", username, password, 7020000, 10000, nil)
	vAssert(err == nil, "the process is created")
	vSettle()
	got, err := url.QueryUnescape(vTail("SET auth t=kiwi p="))
	vAssert(err == nil && got == password, "the device gets the password")
	got, err = url.QueryUnescape(vTail("SET ident_user="))
	vAssert(err == nil && got == username, "the device gets the user name")
	p.Close()
	vReach("end")
}

//verif:harness vHarness_tune conc=1 preempt=0 mode=arith merge=0 mapFork=1 native=0 timers=0 steps=20000000 budget=100/300
func vHarness_tune() {
	// the device is tuned to the given frequency and bandwidth, and only what is within the bandwidth is observed
	vQuiet(true)
	vReset()
	center, half := vInt("center", 0, 32000000), vInt("half of the bandwidth", 1, 6000)
	p, err := New("host", "user", "password", float64(center), 2*half, nil)
	vAssert(err == nil, "the process is created")
	vSettle()
	fields := strings.Split(vTail("SET mod=iq "), " ")
	vAssert(len(fields) == 3, "the device is tuned")
	vAssert(fields[0] == fmt.Sprintf("low_cut=%d", -half), "the lower end of the band is right")
	vAssert(fields[1] == fmt.Sprintf("high_cut=%d", half), "the upper end of the band is right")
	vAssert(fields[2] == fmt.Sprintf("freq=%.3f", float64(center)/1000), "the centre frequency is given in kHz")
	edge := vEdge * 12000 // in bins of 12000/512 Hz
	vAssert(vAnd(edge <= (6000-half)*512, edge >= (6000-half)*512-2*12000), "what is beside the bandwidth is not observed")
	p.Close()
	vReach("end")
}
