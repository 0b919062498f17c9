package cmd

import (
	"io"
	"net"
	"os"
	"syscall"
	"time"

	"github.com/jfreymuth/pulse/proto"

	"github.com/ftl/sdrainer/cw"
	"github.com/ftl/sdrainer/kiwi"
	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/scope"
	"github.com/ftl/sdrainer/tci"
	"github.com/ftl/sdrainer/telnet"
)

//verif:stub os/signal.Notify = vNotify
//verif:stub log.SetOutput = vSetOutput
//verif:stub os.Getpid = vPid
//verif:stub os.Getenv = vEnv
//verif:stub github.com/ftl/sdrainer/telnet.NewServer = vNewServer
//verif:stub (*github.com/ftl/sdrainer/telnet.Server).SetSilencePeriod = vSilencePeriod
//verif:stub (*github.com/ftl/sdrainer/telnet.Server).Stop = vStopServer
//verif:stub github.com/ftl/sdrainer/tci.New = vNewTCI
//verif:stub (*github.com/ftl/sdrainer/tci.Process).SetThreshold = vThreshold
//verif:stub (*github.com/ftl/sdrainer/tci.Process).SetSignalDebounce = vDebounce
//verif:stub (*github.com/ftl/sdrainer/tci.Process).SetSilenceTimeout = vSilence
//verif:stub (*github.com/ftl/sdrainer/tci.Process).SetAttachmentTimeout = vAttachment
//verif:stub (*github.com/ftl/sdrainer/tci.Process).SetShow = vShow
//verif:stub (*github.com/ftl/sdrainer/tci.Process).SetScope = vSetScope
//verif:stub (*github.com/ftl/sdrainer/tci.Process).Close = vCloseTCI
//verif:stub github.com/ftl/sdrainer/kiwi.New = vNewKiwi
//verif:stub (*github.com/ftl/sdrainer/kiwi.Process).SetThreshold = vThresholdK
//verif:stub (*github.com/ftl/sdrainer/kiwi.Process).SetSignalDebounce = vDebounceK
//verif:stub (*github.com/ftl/sdrainer/kiwi.Process).SetSilenceTimeout = vSilenceK
//verif:stub (*github.com/ftl/sdrainer/kiwi.Process).SetAttachmentTimeout = vAttachmentK
//verif:stub (*github.com/ftl/sdrainer/kiwi.Process).SetRXFrequency = vRXFrequency
//verif:stub (*github.com/ftl/sdrainer/kiwi.Process).SetScope = vSetScopeK
//verif:stub (*github.com/ftl/sdrainer/kiwi.Process).Close = vCloseKiwi
//verif:stub github.com/jfreymuth/pulse/proto.Connect = vPulse
//verif:stub (*github.com/jfreymuth/pulse/proto.Client).Request = vRequest
//verif:stub github.com/ftl/sdrainer/cw.NewAudioDemodulator = vNewDemodulator
//verif:stub (*github.com/ftl/sdrainer/cw.AudioDemodulator).SetScale = vScale
//verif:stub (*github.com/ftl/sdrainer/cw.AudioDemodulator).SetMaxScale = vMaxScale
//verif:stub (*github.com/ftl/sdrainer/cw.AudioDemodulator).SetDebounceThreshold = vDebounceA
//verif:stub (*github.com/ftl/sdrainer/cw.AudioDemodulator).SetMagnitudeThreshold = vMagnitude
//verif:stub (*github.com/ftl/sdrainer/cw.AudioDemodulator).SetScope = vSetScopeA
//verif:stub (*github.com/ftl/sdrainer/cw.AudioDemodulator).SetChannelCount = vChannels
//verif:stub (*github.com/ftl/sdrainer/cw.AudioDemodulator).PresetWPM = vWPM
//verif:stub (*github.com/ftl/sdrainer/cw.AudioDemodulator).Blocksize = vBlocksize
//verif:stub (*github.com/ftl/sdrainer/cw.AudioDemodulator).Close = vCloseDemodulator
//verif:stub github.com/ftl/sdrainer/scope.NewScopeServer = vNewScope
//verif:stub (*github.com/ftl/sdrainer/scope.ScopeServer).Start = vStartScope
//verif:stub (*github.com/ftl/sdrainer/scope.ScopeServer).Stop = vStopScope
//verif:bound each of the commands strain tci, strain kiwi, decode tci and decode pulse with no option, with any single option, and with all of them; whole numbers of 1 to 3 digits without a leading zero, periods of 1 to 3 digits in seconds or minutes, strings of 1 or 2 letters or digits, fractional numbers from a list
//verif:assume the command-line library and the commands are executed as they are; the network servers, the two SDR connections, the demodulator and the PulseAudio connection are stand-ins that record what they are given; the interrupt arrives when the command has nothing left to do but wait; one schedule

// What the parts of the program have been told.
type vConfig struct {
	telnet, process, demodulator, scopeServer int // how many there are
	telnetAddress, telnetCall                 string
	spotEvery                                 time.Duration

	host, username, password string
	trx                      int
	mode                     rx.ReceiverMode
	spotter, reporter, trace bool
	center, rx               float64
	bandwidth                int

	threshold, debounce   int
	silence, attachment   time.Duration
	listeners, spots      bool
	scopeSet, scopeActive bool
	scopeAddress          string

	pitch, scale, magnitude     float64
	sampleRate, wpm, channels   int
	sourceName                  string
	sourceIndex, recordRate     uint32
	recordChannels              int
	recording                   bool
	telnetStopped, scopeStopped bool
	processClosed, audioClosed  bool
	recordStopped, disconnected bool
}

const (
	vSourceIndex  = 7
	vDefaultIndex = 3
)

var (
	vNow     vConfig
	vWaiting *vConfig // when the interrupt arrives
	vSpotter *telnet.Server
	vServer  *scope.ScopeServer
)

// vInterrupt stands for the user who interrupts the program once it is up and running.
func vNotify(c chan<- os.Signal, sig ...os.Signal) {
	interrupt, terminate := false, false
	for _, s := range sig {
		interrupt = interrupt || s == syscall.SIGINT
		terminate = terminate || s == syscall.SIGTERM
	}
	vAssert(len(sig) == 0 || (interrupt && terminate), "the program handles interrupt and termination")
	vAssert(cap(c) > 0, "a signal is not lost")
	go func() {
		now := vNow
		vWaiting = &now
		c <- syscall.SIGINT
	}()
}

func vSetOutput(w io.Writer)  {}
func vPid() int               { return 1234 }
func vEnv(name string) string { return "" }

func vNewServer(address string, mycall string, version string) (*telnet.Server, error) {
	vNow.telnet++
	vNow.telnetAddress, vNow.telnetCall = address, mycall
	vSpotter = new(telnet.Server)
	return vSpotter, nil
}
func vSilencePeriod(s *telnet.Server, d time.Duration) { vNow.spotEvery = d }
func vStopServer(s *telnet.Server)                     { vNow.telnetStopped = true }

func vNewTCI(host string, trx int, mode rx.ReceiverMode, spotter tci.Spotter, reporter rx.Reporter[int], traceTCI bool) (*tci.Process, error) {
	vNow.process++
	vNow.host, vNow.trx, vNow.mode, vNow.trace = host, trx, mode, traceTCI
	vNow.spotter = spotter != nil && spotter == tci.Spotter(vSpotter)
	vNow.reporter = reporter != nil
	return new(tci.Process), nil
}
func vThreshold(p *tci.Process, v int)            { vNow.threshold = v }
func vDebounce(p *tci.Process, v int)             { vNow.debounce = v }
func vSilence(p *tci.Process, d time.Duration)    { vNow.silence = d }
func vAttachment(p *tci.Process, d time.Duration) { vNow.attachment = d }
func vShow(p *tci.Process, listeners bool, spots bool) {
	vNow.listeners, vNow.spots = listeners, spots
}
func vSetScope(p *tci.Process, s scope.Scope) { vTakeScope(s) }
func vCloseTCI(p *tci.Process)                { vNow.processClosed = true }

func vTakeScope(s scope.Scope) {
	vNow.scopeSet = s != nil
	vNow.scopeActive = s != nil && vServer != nil && s == scope.Scope(vServer)
}

func vNewKiwi(host string, username string, password string, centerFrequency float64, bandwidth int, spotter kiwi.Spotter) (*kiwi.Process, error) {
	vNow.process++
	vNow.host, vNow.username, vNow.password = host, username, password
	vNow.center, vNow.rx, vNow.bandwidth = centerFrequency, centerFrequency, bandwidth
	vNow.spotter = spotter != nil && spotter == kiwi.Spotter(vSpotter)
	return new(kiwi.Process), nil
}
func vThresholdK(p *kiwi.Process, v int)            { vNow.threshold = v }
func vDebounceK(p *kiwi.Process, v int)             { vNow.debounce = v }
func vSilenceK(p *kiwi.Process, d time.Duration)    { vNow.silence = d }
func vAttachmentK(p *kiwi.Process, d time.Duration) { vNow.attachment = d }
func vRXFrequency(p *kiwi.Process, f float64)       { vNow.rx = f }
func vSetScopeK(p *kiwi.Process, s scope.Scope)     { vTakeScope(s) }
func vCloseKiwi(p *kiwi.Process)                    { vNow.processClosed = true }

type vConn struct{ net.Conn }

func (c vConn) Close() error { vNow.disconnected = true; return nil }

func vPulse(addr string) (*proto.Client, net.Conn, error) { return new(proto.Client), vConn{}, nil }

// vRequest stands for the PulseAudio server: it has a default source and any other source it is asked for, with different rates.
func vRequest(c *proto.Client, req proto.RequestArgs, rpl proto.Reply) error {
	switch r := req.(type) {
	case *proto.GetSourceInfo:
		reply := rpl.(*proto.GetSourceInfoReply)
		if r.SourceIndex == proto.Undefined && r.SourceName != "" {
			vNow.sourceName = r.SourceName
			reply.SourceIndex, reply.SourceName, reply.Rate, reply.Channels = vSourceIndex, r.SourceName, 48000, 2
		} else {
			reply.SourceIndex, reply.Rate, reply.Channels = vDefaultIndex, 96000, 2
		}
	case *proto.CreateRecordStream:
		vNow.sourceIndex, vNow.recordRate, vNow.recordChannels = r.SourceIndex, r.Rate, int(r.Channels)
		if r.SourceIndex == proto.Undefined && r.SourceName != "" {
			vNow.sourceIndex = vSourceIndex
			vAssert(r.SourceName == vNow.sourceName, "the recording is made from the chosen source")
		}
		reply := rpl.(*proto.CreateRecordStreamReply)
		reply.StreamIndex, reply.Channels, reply.Rate = 1, r.Channels, r.Rate
	case *proto.CorkRecordStream:
		vNow.recording = !r.Corked
		if r.Corked {
			vNow.recordStopped = true
		}
	case *proto.DeleteRecordStream:
		vNow.recording, vNow.recordStopped = false, true
	}
	return nil
}

func vNewDemodulator(out io.Writer, pitch float64, sampleRate int, bufferSize int) *cw.AudioDemodulator {
	vNow.demodulator++
	vNow.pitch, vNow.sampleRate = pitch, sampleRate
	return new(cw.AudioDemodulator)
}
func vScale(d *cw.AudioDemodulator, v float64)         { vNow.scale = v }
func vMaxScale(d *cw.AudioDemodulator, v float64)      {}
func vDebounceA(d *cw.AudioDemodulator, v int)         { vNow.debounce = v }
func vMagnitude(d *cw.AudioDemodulator, v float64)     { vNow.magnitude = v }
func vSetScopeA(d *cw.AudioDemodulator, s scope.Scope) { vTakeScope(s) }
func vChannels(d *cw.AudioDemodulator, v int)          { vNow.channels = v }
func vWPM(d *cw.AudioDemodulator, v int)               { vNow.wpm = v }
func vBlocksize(d *cw.AudioDemodulator) int            { return 100 }
func vCloseDemodulator(d *cw.AudioDemodulator)         { vNow.audioClosed = true }

func vNewScope(address string) *scope.ScopeServer {
	vNow.scopeServer++
	vNow.scopeAddress = address
	vServer = new(scope.ScopeServer)
	return vServer
}
func vStartScope(s *scope.ScopeServer) error { return nil }
func vStopScope(s *scope.ScopeServer)        { vNow.scopeStopped = true }

// vLine is a command line: the options that are given, with any values.
type vLine struct {
	args  []string
	given int // the only option that is given, -1: none, -2: all
	next  int
}

func vCommand(options int, words ...string) *vLine {
	vQuiet(true)
	return &vLine{args: append([]string{}, words...), given: vChoose("given", options+2) - 2}
}

func (l *vLine) has() bool {
	l.next++
	return l.given == -2 || l.given == l.next-1
}

// numeral is any number of 1 to 3 digits without a leading zero (2 digits if all options are given).
func (l *vLine) numeral(name string) (string, int) {
	digits := vBytes(name, 3)
	n := 2
	if l.given != -2 {
		n = vChoose(name+".digits", 3) + 1
	}
	value := 0
	for i := 0; i < n; i++ {
		vAssume(vAnd(digits[i] >= '0', digits[i] <= '9'))
		value = 10*value + int(digits[i]-'0')
	}
	vAssume(digits[0] != '0')
	return string(digits[:n]), value
}

func (l *vLine) number(name string, value int) int {
	if l.has() {
		var text string
		text, value = l.numeral(name)
		l.args = append(l.args, "--"+name, text)
	}
	return value
}

func (l *vLine) period(name string, value time.Duration) time.Duration {
	if l.has() {
		text, n := l.numeral(name)
		if l.given != -2 && vBool(name+".minutes") {
			l.args = append(l.args, "--"+name, text+"m")
			return time.Duration(n) * time.Minute
		}
		l.args = append(l.args, "--"+name, text+"s")
		return time.Duration(n) * time.Second
	}
	return value
}

func (l *vLine) text(name string, value string) string {
	if l.has() {
		chars := vBytes(name, 2)
		for _, c := range chars {
			vAssume(vOr(vAnd(c >= '0', c <= '9'), vAnd(c >= 'A', c <= 'Z'), vAnd(c >= 'a', c <= 'z')))
		}
		value = string(chars)
		if l.given != -2 && vBool(name+".short") {
			value = value[:1]
		}
		l.args = append(l.args, "--"+name, value)
	}
	return value
}

func (l *vLine) flag(name string) bool {
	if l.has() {
		l.args = append(l.args, "--"+name)
		return true
	}
	return false
}

func (l *vLine) fraction(name string, value float64, texts []string, values []float64) float64 {
	if l.has() {
		i := 0
		if l.given != -2 {
			i = vChoose(name, len(texts))
		}
		l.args = append(l.args, "--"+name, texts[i])
		return values[i]
	}
	return value
}

func (l *vLine) run() *vConfig {
	os.Args = []string{"sdrainer"}
	rootCmd.SilenceUsage, rootCmd.SilenceErrors = true, true
	rootCmd.SetArgs(l.args)
	err := rootCmd.Execute()
	vAssert(err == nil, "the command line is accepted")
	vAssert(vWaiting != nil, "the command runs until it is interrupted")
	return vWaiting
}

func (l *vLine) scope() (bool, string) {
	return l.flag("scope"), l.text("scope-address", ":35369")
}

func vCheckScope(c *vConfig, on bool, address string) {
	vAssert((c.scopeServer == 1) == on && c.scopeServer <= 1, "--scope starts the scope server, and nothing else does")
	vAssert(c.scopeSet == true || !on, "there is a scope")
	vAssert(c.scopeActive == on, "the scope server gets what there is to see")
	vAssert(!on || c.scopeAddress == address, "--scope-address is where the scope server listens")
	vAssert(!c.scopeStopped, "the scope server works until the interrupt")
	vAssert(vNow.scopeStopped == on, "the scope server is stopped at the interrupt")
}

// vStrain gives the options of the strain command.
func (l *vLine) strain() (debounce int, silence, busy time.Duration, port int, call string, every time.Duration) {
	debounce = l.number("debounce", 1)
	silence = l.period("silence", 10*time.Second)
	busy = l.period("busy", time.Minute)
	port = l.number("telnet_port", 7373)
	call = l.text("telnet_call", "local-#")
	every = l.period("spot_every", time.Minute)
	return
}

func vCheckStrain(c *vConfig, debounce int, silence, busy time.Duration, port int, call string, every time.Duration) {
	vAssert(c.telnet == 1 && c.process == 1, "there is one telnet server and one connection to the SDR")
	vAssert(c.debounce == debounce, "--debounce is the debounce threshold")
	vAssert(c.silence == silence, "--silence is the silence timeout")
	vAssert(c.attachment == busy, "--busy is the attachment timeout")
	vAssert(vPortOf(c.telnetAddress) == port, "--telnet_port is where the telnet server listens")
	vAssert(c.telnetCall == call, "--telnet_call is the reporter of the spots")
	vAssert(c.spotEvery == every, "--spot_every is the period of the spots")
	vAssert(c.spotter, "the spots go to the telnet server")
	vAssert(!c.telnetStopped && !c.processClosed, "the command works until the interrupt")
	vAssert(vNow.telnetStopped && vNow.processClosed, "everything is closed at the interrupt")
}

// vPortOf is the port of an address without a host.
func vPortOf(address string) int {
	if len(address) < 2 || address[0] != ':' {
		return -1
	}
	port := 0
	for i := 1; i < len(address); i++ {
		port = 10*port + int(address[i]-'0')
	}
	return port
}

//verif:harness vHarness_strain_tci conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 timers=0 steps=80000000 budget=200/400
func vHarness_strain_tci() {
	l := vCommand(14, "strain", "tci")
	host := l.text("host", "localhost:40001")
	trx := l.number("trx", 0)
	threshold := l.number("threshold", 15)
	spots := l.flag("show_spots")
	listeners := l.flag("show_listeners")
	trace := l.flag("trace_tci")
	debounce, silence, busy, port, call, every := l.strain()
	scope, address := l.scope()

	c := l.run()

	vAssert(c.host == host && c.trx == trx, "--host and --trx select the SDR")
	vAssert(c.threshold == threshold, "--threshold is the peak threshold")
	vAssert(c.spots == spots, "--show_spots shows the spots")
	vAssert(c.listeners == listeners, "--show_listeners shows the listeners")
	vAssert(c.trace == trace, "--trace_tci traces")
	vAssert(c.mode == rx.StrainMode, "the command strains")
	vCheckStrain(c, debounce, silence, busy, port, call, every)
	vCheckScope(c, scope, address)
	vReach("end")
}

//verif:harness vHarness_strain_kiwi conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 timers=0 steps=80000000 budget=200/400
func vHarness_strain_kiwi() {
	l := vCommand(15, "strain", "kiwi")
	host := l.text("host", "localhost:8073")
	username := l.text("username", "")
	password := l.text("password", "")
	center := l.fraction("center", 7_020_000, []string{"7010000", "14020000.5", "0"}, []float64{7_010_000, 14_020_000.5, 0})
	rx := l.fraction("rx", 0, []string{"7012000", "14021000.5", "0"}, []float64{7_012_000, 14_021_000.5, 0})
	bandwidth := l.number("bandwidth", 10_000)
	threshold := l.number("threshold", 15)
	debounce, silence, busy, port, call, every := l.strain()
	scope, address := l.scope()

	c := l.run()

	vAssert(c.host == host && c.username == username && c.password == password, "--host, --username and --password select the SDR")
	vAssert(c.center == center, "--center is the center frequency")
	vAssert(c.rx == rx, "--rx is the rx frequency")
	vAssert(c.bandwidth == bandwidth, "--bandwidth is the observed bandwidth")
	vAssert(c.threshold == threshold, "--threshold is the peak threshold")
	vCheckStrain(c, debounce, silence, busy, port, call, every)
	vCheckScope(c, scope, address)
	vReach("end")
}

//verif:harness vHarness_decode_tci conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 timers=0 steps=80000000 budget=200/400
func vHarness_decode_tci() {
	l := vCommand(7, "decode", "tci")
	host := l.text("host", "localhost:40001")
	trx := l.number("trx", 0)
	threshold := l.number("threshold", 15)
	trace := l.flag("trace_tci")
	debounce := l.number("debounce", 1)
	scope, address := l.scope()

	c := l.run()

	vAssert(c.process == 1 && c.host == host && c.trx == trx, "--host and --trx select the SDR")
	vAssert(c.threshold == threshold, "--threshold is the peak threshold")
	vAssert(c.trace == trace, "--trace_tci traces")
	vAssert(c.debounce == debounce, "--debounce is the debounce threshold")
	vAssert(c.mode == rx.DecodeMode, "the command decodes")
	vAssert(!c.processClosed && vNow.processClosed, "the connection is closed at the interrupt, and not before")
	vCheckScope(c, scope, address)
	vReach("end")
}

//verif:harness vHarness_decode_pulse conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 timers=0 steps=80000000 budget=200/400
func vHarness_decode_pulse() {
	l := vCommand(8, "decode", "pulse")
	source := l.text("source", "")
	pitch := l.number("pitch", 700)
	scale := l.fraction("scale", 0, []string{"1", "0.5", "0", "12"}, []float64{1, 0.5, 0, 12})
	magnitude := l.fraction("magnitude", 0.75, []string{"1", "0.5", "2.25"}, []float64{1, 0.5, 2.25})
	wpm := l.number("wpm", 20)
	debounce := l.number("debounce", 1)
	scope, address := l.scope()

	c := l.run()

	vAssert(c.demodulator == 1 && c.recording, "the audio is recorded")
	vAssert(c.pitch == float64(pitch), "--pitch is the pitch")
	vAssert(c.scale == scale, "--scale is the scale")
	vAssert(c.magnitude == magnitude, "--magnitude is the magnitude threshold")
	vAssert(c.wpm == wpm, "--wpm is the preset speed")
	vAssert(c.debounce == debounce, "--debounce is the debounce threshold")
	vAssert(c.sourceName == source, "--source is looked up")
	if source != "" {
		vAssert(c.sourceIndex == vSourceIndex, "the recording is made from the chosen source")
	} else {
		vAssert(c.sourceIndex == vDefaultIndex || c.sourceIndex == proto.Undefined, "the recording is made from the default source")
	}
	vAssert(int(c.recordRate) == c.sampleRate, "the demodulator works at the rate of the recording")
	vAssert(c.recordChannels == c.channels, "the demodulator knows the channels of the recording")
	vAssert(!c.audioClosed && !c.recordStopped && !c.disconnected, "the command works until the interrupt")
	vAssert(vNow.audioClosed && vNow.disconnected, "everything is closed at the interrupt")
	vCheckScope(c, scope, address)
	vReach("end")
}
