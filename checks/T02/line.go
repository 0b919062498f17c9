package telnet

import (
	"time"
)

//verif:bound every reporter call of up to 9, callsign of up to 12 and comment of up to 30 printable ASCII characters; every frequency of whole hertz from 1 kHz to 1 GHz; every second of 400 days
//verif:assume the arithmetic is exact: a frequency in the middle between two steps of 100 Hz may be rounded to either of them

// vColumns checks the layout of the line and returns the frequency in 100 Hz.
func vColumns(line, reporter, callsign, comment string, hour, minute int) int {
	vAssert(len(line) == 76, "the line has its full length")
	vAssert(line[75] == '\n', "the line ends in a newline")
	vAssert(line[:6] == "DX de ", "the line announces a spot")
	text := func(s string, begin, end int, what string) {
		vAssert(line[begin:begin+len(s)] == s, what)
		for i := begin + len(s); i < end; i++ {
			vAssert(line[i] == ' ', "the columns are filled up with blanks")
		}
	}
	text(reporter+":", 6, 16, "the reporter is in its column")
	text("", 24, 26, "")
	text(callsign, 26, 39, "the callsign is in its column")
	text(comment, 39, 70, "the comment is in its column")
	vAssert(vAnd(int(line[70]-'0')*10+int(line[71]-'0') == hour, int(line[72]-'0')*10+int(line[73]-'0') == minute), "the time is in its column")
	for i := 70; i < 74; i++ {
		vAssert(vAnd(line[i] >= '0', line[i] <= '9'), "the time has only digits")
	}
	vAssert(line[74] == 'z', "the time zone follows the time")
	vAssert(line[22] == '.', "the decimal point is in its column")
	value, digits := 0, false
	for i := 16; i < 24; i++ {
		if i == 22 {
			continue
		}
		if line[i] == ' ' {
			vAssert(vAnd(!digits, i < 21), "the frequency is a number aligned right")
			continue
		}
		digits = true
		vAssert(vAnd(line[i] >= '0', line[i] <= '9'), "the frequency is a number")
		value = value*10 + int(line[i]-'0')
	}
	return value
}

func vText(name string, n int, low byte) string {
	b := vBytes(name, n)
	for i := range b {
		vAssume(vAnd(b[i] >= low, b[i] <= '~'))
	}
	return string(b)
}

//verif:harness vHarness_texts mode=exact merge=0 steps=2000000 budget=150/400
func vHarness_texts() {
	reporter := vText("reporter", vChoose("reporter", 10), '!')
	callsign := vText("callsign", vChoose("callsign", 13), '!')
	comment := vText("comment", vChoose("comment", 31), ' ')
	s := &Server{mycall: reporter}
	line := s.formatSpotMessage(callsign, 14035000, comment, time.Date(2024, 1, 2, 3, 45, 6, 0, time.UTC))
	vAssert(vColumns(line, reporter, callsign, comment, 3, 45) == 140350, "the frequency is exact")
	vReach("end")
}

//verif:harness vHarness_frequency mode=arith merge=0 steps=2000000 budget=150/400
func vHarness_frequency() {
	hz := vInt("frequency", 1000, 999999949)
	s := &Server{mycall: "n0call"}
	line := s.formatSpotMessage("dl0abc", float64(hz), "cq", time.Date(2024, 1, 2, 3, 45, 6, 0, time.UTC))
	d := 100*vColumns(line, "n0call", "dl0abc", "cq", 3, 45) - hz
	vAssert(vAnd(d >= -50, d <= 50), "the frequency is exact to 100 Hz")
	vReach("end")
}

//verif:harness vHarness_time mode=arith merge=0 steps=2000000 budget=150/400
func vHarness_time() {
	day := vInt("day", 0, 400)
	hour, minute, second := vInt("hour", 0, 23), vInt("minute", 0, 59), vInt("second", 0, 59)
	s := &Server{mycall: "n0call"}
	at := time.Date(2024, 2, 28, 0, 0, 0, 0, time.UTC)
	at = at.Add(time.Duration(24*day)*time.Hour + time.Duration(hour)*time.Hour + time.Duration(minute)*time.Minute + time.Duration(second)*time.Second)
	line := s.formatSpotMessage("dl0abc", 7035000, "cq", at)
	vAssert(vColumns(line, "n0call", "dl0abc", "cq", hour, minute) == 70350, "the frequency is exact")
	vReach("end")
}
