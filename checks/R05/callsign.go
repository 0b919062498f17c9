package rx

import (
	"strings"
	"time"
)

//verif:include listener.go
//verif:stub github.com/ftl/hamradio/dxcc.LocalFilename = vNoFile
//verif:stub github.com/ftl/hamradio/scp.LocalFilename = vNoFile
//verif:bound callsigns of every usual structure of up to nine characters (prefix of a letter, two letters, a digit and one or two letters; one digit; one to three letters; optional leading prefix; optional suffix) with any letters and digits, at every position in a text after 0 to 21 (quick) / 0 to 45 (thorough) other characters, letters and up to two blanks, received character by character
//verif:assume the reference data is not available (see R07); the false positive "tu5nn" is excluded as documented

type vCalls struct {
	decoded []string
	counts  []int
}

func (c *vCalls) CallsignDecoded(callsign string, count int, weight int) {
	c.decoded = append(c.decoded, callsign)
	c.counts = append(c.counts, count)
}
func (c *vCalls) CallsignSpotted(callsign string) {}
func (c *vCalls) SpotTimeout(callsign string)     {}

// vFrom returns a string whose characters are in the given classes: a any letter, 0 any digit, others stand for themselves.
func vFrom(pattern string) []byte {
	var r []byte
	for i := 0; i < len(pattern); i++ {
		c := pattern[i]
		switch c {
		case 'a':
			c = vUint8("letter")
			vAssume(vAnd(c >= 'a', c <= 'z'))
		case '0':
			c = vUint8("digit")
			vAssume(vAnd(c >= '0', c <= '9'))
		}
		r = append(r, c)
	}
	return r
}

func vCallsign() []byte {
	prefix := []string{"a0", "aa0", "0a0", "0aa0"}[vChoose("prefix", 4)]
	pattern := prefix + "aaa"[:1+vChoose("letters", 3)]
	switch vChoose("extra", 7) {
	case 1:
		pattern += "/p"
	case 2:
		pattern += "/mm"
	case 3:
		pattern += "/0"
	case 4:
		pattern = "a/" + pattern
	case 5:
		pattern = "aa/" + pattern
	case 6:
		pattern = "a/" + pattern + "/p"
	}
	vAssume(len(pattern) <= 9)
	return vFrom(pattern)
}

func vBlank() byte { return " \n"[vChoose("blank", 2)] }

func vSame(a string, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for i := range b {
		c := b[i]
		upper := vAnd(c >= 'a', c <= 'z')
		same = vAnd(same, vOr(a[i] == c, vAnd(upper, a[i] == c-'a'+'A')))
	}
	return same
}

func vProcessor() (*TextProcessor, *vCalls, *manualClock) {
	clock := new(manualClock)
	clock.Set(time.Now())
	calls := &vCalls{}
	p := NewTextProcessor(nil, clock, calls)
	p.Restart()
	return p, calls, clock
}

func vReceive(p *TextProcessor, text []byte) {
	for i := range text {
		p.Write(text[i : i+1])
		vSettle()
	}
}

func vRecognised(calls *vCalls, call []byte) {
	vAssert(len(calls.decoded) == 1, "the callsign is recognised exactly once")
	vAssert(calls.counts[0] == 1, "the callsign is counted once")
	vAssert(vSame(calls.decoded[0], call), "the callsign is recognised as it was received")
}

// vNoFalsePositive excludes the callsign that is taken for "tu 5nn".
func vNoFalsePositive(call []byte) {
	if len(call) >= 5 {
		vAssume(vNot(vAnd(call[0] == 't', call[1] == 'u', call[2] == '5', call[3] == 'n', call[4] == 'n')))
	}
}

//verif:harness vHarness_position conc=1 preempt=0 mode=exact merge=2 mapFork=1 steps=20000000 p.n=22/46 budget=200/600
func vHarness_position() {
	// the position is every one, the structure of the callsign is one of the longest
	n := vChoose("before", vParam("n", 22))
	before := []byte(strings.Repeat("q", n))
	if blank := vChoose("blank", 4); blank > 0 && n >= blank {
		before[n-blank] = ' '
		before[(n-blank)/2] = ' '
	}
	call := vFrom([]string{"aa0aaa", "a0a", "aa0aa/p", "aa/aa0aaa", "0aa0aaa/p"}[vChoose("callsign", 5)])
	vNoFalsePositive(call)
	text := append(append(append(before, ' '), call...), ' ')
	text = append(text, []byte("rst tnx qsl ")[:5*vChoose("after", 3)]...)
	p, calls, _ := vProcessor()
	vReceive(p, text)
	p.Stop()
	vRecognised(calls, call)
	vReach("end")
}

//verif:harness vHarness_structure conc=1 preempt=0 mode=exact merge=2 mapFork=1 steps=20000000 budget=200/600
func vHarness_structure() {
	// every structure, at some positions
	n := []int{0, 5, 10, 13, 18}[vChoose("before", 5)]
	call := vCallsign()
	vNoFalsePositive(call)
	before := []byte(strings.Repeat("q", n))
	text := append(append(append(before, vBlank()), call...), vBlank())
	p, calls, _ := vProcessor()
	vReceive(p, text)
	p.Stop()
	vRecognised(calls, call)
	vReach("end")
}

//verif:harness vHarness_restart conc=1 preempt=0 mode=exact merge=2 mapFork=1 steps=20000000 budget=200/600
func vHarness_restart() {
	// text before a restart has no effect
	old := []byte("cq cq cq de dl1abc dl1abc k")
	n := vChoose("old", vParam("old", len(old)+1))
	p, calls, _ := vProcessor()
	vReceive(p, old[:n])
	calls.decoded, calls.counts = nil, nil
	p.Restart()
	switch vChoose("new", 3) {
	case 0:
		vReceive(p, []byte("bc k k"))
		vAssert(len(calls.decoded) == 0, "text before the restart does not become part of a callsign")
	case 1:
		call := vFrom("aa0aaa")
		vNoFalsePositive(call)
		vReceive(p, append(append([]byte(" "), call...), ' '))
		vRecognised(calls, call)
	case 2:
		vReceive(p, []byte(" dl1abc "))
		vRecognised(calls, []byte("dl1abc"))
	}
	p.Stop()
	vReach("end")
}

//verif:harness vHarness_repeated conc=1 preempt=0 mode=exact merge=2 mapFork=1 steps=20000000 p.n=12/24 budget=200/600
func vHarness_repeated() {
	// a callsign that is received several times is recognised every time
	n := vChoose("between", vParam("n", 12))
	text := []byte(strings.Repeat("k", vChoose("before", vParam("n", 12))))
	for i := 0; i < 3; i++ {
		text = append(text, []byte(" dl1abc ")...)
		text = append(text, []byte(strings.Repeat("v", n))...)
	}
	p, calls, _ := vProcessor()
	vReceive(p, text)
	p.Stop()
	vAssert(len(calls.decoded) == 3, "a callsign is recognised every time it is received")
	vAssert(calls.counts[2] == 3, "a callsign is counted every time it is received")
	vReach("end")
}

//verif:harness vHarness_neighbours conc=1 preempt=0 mode=exact merge=2 mapFork=1 steps=20000000 p.n=22/34 budget=200/600
func vHarness_neighbours() {
	// two callsigns that follow each other are both recognised
	before := strings.Repeat("q", vChoose("before", vParam("n", 22)))
	patterns := []string{"a0a", "aa0aa", "aa0aaa", "0a0aa/p"}
	first := vFrom(patterns[vChoose("first", 4)])
	second := vFrom(patterns[vChoose("second", 4)])
	vNoFalsePositive(first)
	vNoFalsePositive(second)
	text := append([]byte(before), ' ')
	text = append(append(text, first...), vBlank())
	text = append(append(text, second...), vBlank())
	p, calls, _ := vProcessor()
	vReceive(p, text)
	p.Stop()
	vAssert(len(calls.decoded) == 2, "both callsigns are recognised exactly once")
	vAssert(vSame(calls.decoded[0], first), "the first callsign is recognised as it was received")
	vAssert(vSame(calls.decoded[1], second), "the second callsign is recognised as it was received")
	vReach("end")
}
