package kiwi

import "errors"

//verif:include kiwi.go
//verif:stub net.ResolveTCPAddr = vResolve
//verif:bound names of 4, 8 and up to 3 (quick) / 5 (thorough) arbitrary printable characters, values of up to 2 (quick) / 3 (thorough) arbitrary printable characters, alone, before and behind another parameter; audio rates of up to 4 (quick) / 6 (thorough) arbitrary characters and of 18 to 22 digits

// vWord returns n printable characters, none of which separates parameters or names and values.
func vWord(name string, n int) string {
	b := vBytes(name, n)
	for _, c := range b {
		vAssume(vAnd(c > ' ', c <= '~', c != '='))
	}
	return string(b)
}

func vIs(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	result := true
	for i := range a {
		result = vAnd(result, a[i] == b[i])
	}
	return result
}

func vStatusError(err error) bool {
	return errors.Is(err, ErrTooBusy) || errors.Is(err, ErrBadPassword) || errors.Is(err, ErrDown)
}

//verif:harness vHarness_flags mode=exact merge=0 conc=1 preempt=0 mapFork=1 p.n=3/5 p.v=2/3 budget=120/600
func vHarness_flags() {
	c := vClient(&vHandler{})
	length := vChoose("nameLength", vParam("n", 3)+2) + 1
	if length == vParam("n", 3)+1 {
		length = 8
	} else if length > vParam("n", 3)+1 {
		length = 4
	}
	name := vWord("name", length)
	value := vWord("value", vChoose("valueLength", vParam("v", 2)+1))
	if length > 5 {
		vAssume(!vIs(name[:5], "load_"))
	}
	other := vChoose("other", 3)
	message := name + "=" + value
	switch other {
	case 1:
		message = "zz=9 " + message
	case 2:
		message += " zz=9"
	}
	vAssume(!vIs(name, "zz"))
	err := c.decodeConfigurationMessage([]byte(message))
	set := vIs(value, "1")
	busy, badPassword, down := vAnd(set, vIs(name, "too_busy")), vAnd(set, vIs(name, "badp")), vAnd(set, vIs(name, "down"))
	vAssert(errors.Is(err, ErrTooBusy) == busy, "the busy error is reported exactly if the busy flag is set")
	vAssert(errors.Is(err, ErrBadPassword) == badPassword, "the password error is reported exactly if the password flag is set")
	vAssert(errors.Is(err, ErrDown) == down, "the down error is reported exactly if the down flag is set")
	if !vOr(busy, badPassword, down) {
		vAssert(err == nil, "any other parameter is accepted")
		got, ok := c.configuration[name]
		vAssert(ok, "the parameter is recorded under its name")
		vAssert(vIs(got, value), "the parameter is recorded with its value")
		want := 1
		if other != 0 {
			vAssert(c.configuration["zz"] == "9", "every parameter of the message is recorded")
			want = 2
		}
		vAssert(len(c.configuration) == want, "nothing else is recorded")
	}
	vReach("end")
}

//verif:harness vHarness_rate mode=exact merge=0 conc=1 preempt=0 mapFork=1 p.n=4/6 budget=120/600
func vHarness_rate() {
	h := &vHandler{}
	c := vClient(h)
	iq := append([]byte("SND"), make([]byte, 17+4)...)
	length := vChoose("length", vParam("n", 4)+2)
	want := 12000
	var value string
	if length <= vParam("n", 4) {
		value = vWord("value", length)
		number, digits := 0, length > 0
		for i := range value {
			digits = vAnd(digits, value[i] >= '0', value[i] <= '9')
			number = number*10 + int(value[i]-'0')
		}
		if length > 0 {
			vAssume(value[0] != '+')
		}
		want = vIteInt(vAnd(digits, number > 0), number, want)
	} else {
		for i := vChoose("digits", 5); i >= 0; i-- {
			value += "9"
		}
		value += "99999999999999999"
		if len(value) == 18 {
			want = 999999999999999999
		}
	}
	conn := &vConn{
		messages: [][]byte{[]byte("MSG audio_rate=" + value), iq, []byte("MSG audio_rate=12000"), iq, []byte("MSG audio_rate=" + value), iq},
		types:    []int{2, 2, 2, 2, 2, 2},
	}
	valid := want != 12000
	if !valid && length == 5 {
		valid = vIs(value, "12000")
	}
	if !valid && length == 6 {
		valid = vIs(value, "012000")
	}
	err := c.decodeConfigurationMessage([]byte("audio_rate=" + value))
	vAssert((err == nil) == valid, "exactly the valid rates are accepted")
	vAssert(!vStatusError(err), "an invalid rate is not taken for another problem")

	c = vClient(h)
	c.readLoop(conn)
	vAssert(len(h.rates) == 1, "the handler is told about the connection exactly once")
	if valid {
		vAssert(len(h.blockRates) == 3 && h.blockRates[0] == want, "the samples are passed on as soon as the rate is known")
		vAssert(h.rates[0] == want, "the handler is told the rate")
	} else {
		vAssert(len(h.blockRates) == 2 && h.rates[0] == 12000, "an invalid rate is ignored")
	}
	last := len(h.blockRates) - 1
	vAssert(h.blockRates[last-1] == 12000, "a new valid rate is taken")
	vAssert(h.blockRates[last] == want, "a valid rate replaces the former one, an invalid one does not")
	vReach("end")
}

//verif:harness vHarness_end mode=exact merge=0 conc=1 preempt=0 mapFork=1 p.v=2/3 budget=60/300
func vHarness_end() {
	// a busy, bad-password or down message ends the connection, anything else does not
	h := &vHandler{}
	c := vClient(h)
	flag := []string{"too_busy", "badp", "down", "compression", "freq_offset"}[vChoose("flag", 5)]
	value := vWord("value", vChoose("valueLength", vParam("v", 2)+1))
	iq := append([]byte("SND"), make([]byte, 17+4)...)
	conn := &vConn{
		messages: [][]byte{[]byte("MSG audio_rate=12000"), []byte("MSG " + flag + "=" + value), iq},
		types:    []int{2, 2, 2},
	}
	c.readLoop(conn)
	ends := vIs(value, "1") && flag != "compression" && flag != "freq_offset"
	if ends {
		vAssert(len(h.blocks) == 0, "the connection is given up")
	} else {
		vAssert(len(h.blocks) == 1, "the connection goes on")
	}
	vAssert(conn.closed, "the connection is closed in the end")
	vReach("end")
}
