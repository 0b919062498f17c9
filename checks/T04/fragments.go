package telnet

import "strings"

//verif:include telnet.go
//verif:bound a login of up to 3 (quick) / 5 (thorough) arbitrary bytes, followed by 4 / 5 arbitrary bytes of further input, delivered in up to 3 reads split at any position; a greeting and two messages of together up to 9 / 11 bytes, written to a connection that takes any number of bytes at a time
//verif:assume the connection is a stand-in; two schedules: every part of the input is handled before the next one is read, and all parts are read while the connection is busy writing (the schedules are the subject of T05)

//verif:harness vHarness_login conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 timers=0 p.n=3/5 p.k=4/5 steps=2000000 budget=200/500
func vHarness_login() {
	vQuiet(true)
	n, k := vParam("n", 2), vParam("k", 3)
	name := vBytes("name", n)[:vChoose("length", n+1)]
	for i := range name {
		vAssume(name[i] != '\n' && name[i] != '\r')
	}
	end := []byte{'\n'}
	if vChoose("end", 2) == 1 {
		end[0] = '\r'
	}
	more := vBytes("more", k)
	var input []byte
	input = append(input, name...)
	input = append(input, end...)
	input = append(input, more...)
	first := vChoose("first", len(input)+1)
	second := first + vChoose("second", len(input)+1-first)

	p := vNewPeer()
	c := NewConnection(p, "hi\n")
	vSettle()
	logged := 0
	for _, part := range [][]byte{input[:first], input[first:second], input[second:]} {
		if len(part) == 0 {
			continue
		}
		p.input <- part
		vSettle()
		logged += len(part)
		if logged <= len(name) {
			vAssert(c.String() == "", "there is no user before the line ends")
		} else {
			vAssert(c.String() == string(name), "the user name is the first line of the input")
		}
	}
	c.Write([]byte("spot\n"))
	vSettle()
	want := "hi\nEnter your callsign: welcome " + string(name) + "\n"
	text := p.text()
	vAssert(len(text) >= len(want)+5, "the client gets the greeting, the welcome and the spot")
	vAssert(text[:len(want)] == want, "the client is welcomed with its name")
	vAssert(text[len(text)-5:] == "spot\n", "the client gets the spot")
	vAssert(strings.Trim(text[len(want):], "\n") == "spot", "further input has no effect but line ends")
	vAssert(!p.closed(), "the connection stays")
	vReach("end")
}

//verif:harness vHarness_writes conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 timers=0 p.n=3/4 p.m=3/4 steps=2000000 budget=200/500
func vHarness_writes() {
	vQuiet(true)
	p := vNewPeer()
	prompted := false
	step := 0 // the prompt is taken in equal steps, everything else in any steps
	p.split = func(n int) int {
		switch {
		case n <= 1:
			return n
		case n <= 8 && (step == 0 || prompted):
			return 1 + vChoose("split", n)
		case step == 0:
			step = 1 + vChoose("step", 21)
		}
		if step < n {
			return step
		}
		return n
	}
	n, m := vParam("n", 2), vParam("m", 2)
	first, second := vBytes("first", n), vBytes("second", m)
	c := NewConnection(p, "hey")
	vSettle()
	greeting := p.text()
	vAssert(greeting == "heyEnter your callsign: ", "the greeting and the prompt arrive")
	prompted = true
	begin := len(p.received)
	c.Write(first)
	vSettle()
	c.Write(second)
	vSettle()
	vAssert(p.text()[begin:] == string(first)+string(second), "everything arrives in order")
	vReach("end")
}

// The input arrives while the connection is still busy writing.
//
//verif:harness vHarness_busy conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 timers=0 p.n=3/5 steps=2000000 budget=200/500
func vHarness_busy() {
	vQuiet(true)
	n := vParam("n", 3)
	name := vBytes("name", n)[:vChoose("length", n+1)]
	for i := range name {
		vAssume(name[i] != '\n' && name[i] != '\r')
	}
	input := append(append([]byte{}, name...), '\n')
	first := vChoose("first", len(input)+1)
	second := first + vChoose("second", len(input)+1-first)

	p := vNewPeer()
	c := NewConnection(p, "hi\n")
	p.gate = make(chan struct{})
	for _, part := range [][]byte{input[:first], input[first:second], input[second:]} {
		if len(part) > 0 {
			p.input <- part
		}
	}
	vSettle()
	close(p.gate)
	vSettle()
	vAssert(c.String() == string(name), "the user name is the first line of the input")
	vAssert(p.text() == "hi\nEnter your callsign: welcome "+string(name)+"\n", "the client is welcomed with its name")
	vReach("end")
}
