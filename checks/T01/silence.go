package telnet

import (
	"strings"
	"time"
)

//verif:include telnet.go
//verif:stub net.ResolveTCPAddr = vResolve
//verif:stub net.ListenTCP = vListen
//verif:stub (*net.TCPListener).SetDeadline = vSetDeadline
//verif:stub (*net.TCPListener).AcceptTCP = vAccept
//verif:stub (*net.TCPListener).Close = vListenerClose
//verif:stub (*net.TCPConn).SetKeepAlive = vKeepAlive
//verif:stub (*net.TCPConn).SetKeepAlivePeriod = vKeepAlivePeriod
//verif:stub (*net.conn).RemoteAddr = vConnAddr
//verif:stub (*net.conn).Read = vConnRead
//verif:stub (*net.conn).Write = vConnWrite
//verif:stub (*net.conn).Close = vConnClose
//verif:stub (*net.conn).SetWriteDeadline = vConnWriteDeadline
//verif:stub crypto/md5.Sum = vSum
//verif:bound every sequence of 3 (quick) / 4 (thorough) spots with callsigns of up to 2 arbitrary letters or digits, frequencies of whole hertz from 1 MHz to 1 GHz and whole seconds within a day in any order; every silence period of whole seconds up to a day
//verif:assume the arithmetic is exact; frequencies in the middle between two full kilohertz are excluded; different texts have different MD5 sums; one client, one schedule (the schedules are the subject of T05)

var vTexts []string

// vSum stands for the MD5 sum: different texts have different sums.
func vSum(data []byte) [16]byte {
	text := string(data)
	i := 0
	for i < len(vTexts) && vTexts[i] != text {
		i++
	}
	if i == len(vTexts) {
		vTexts = append(vTexts, text)
	}
	return [16]byte{byte(i)}
}

//verif:harness vHarness_silence conc=1 preempt=0 mode=arith merge=0 mapFork=1 native=0 timers=0 p.n=3/4 steps=2000000 budget=250/500
func vHarness_silence() {
	vQuiet(true)
	vTexts = nil
	vNetwork()
	s, err := NewServer(":7373", "call", "1")
	vAssert(err == nil, "the server starts")
	period := vInt("period", 0, 86400)
	s.SetSilencePeriod(time.Duration(period) * time.Second)
	p := vNewPeer()
	vIncoming <- p
	vSettle()

	n := vParam("n", 3)
	calls := make([]string, n)
	khz := make([]int, n)
	at := make([]int, n)
	announced := make([]bool, n)
	begin := time.Date(2024, 1, 2, 0, 0, 0, 0, time.UTC)
	for i := 0; i < n; i++ {
		call := vBytes("call", 2)[:1+vChoose("length", 2)]
		for _, b := range call {
			vAssume(vOr(vAnd(b >= 'a', b <= 'z'), vAnd(b >= '0', b <= '9')))
		}
		khz[i] = vInt("kilohertz", 1000, 999999)
		hz := 1000*khz[i] + vInt("hertz", -499, 499)
		at[i] = vInt("at", 0, 86399)
		calls[i] = string(call)

		before := strings.Count(p.text(), "\n")
		s.Spot(calls[i], float64(hz), "", begin.Add(time.Duration(at[i])*time.Second))
		vPass()
		got := strings.Count(p.text(), "\n") - before

		want := true
		for j := i - 1; j >= 0; j-- {
			if announced[j] && calls[j] == calls[i] && khz[j] == khz[i] {
				want = at[i]-at[j] > period
				break
			}
		}
		announced[i] = want
		if want {
			vAssert(got == 1, "a spot that was not announced within the silence period is announced")
		} else {
			vAssert(got == 0, "a spot that was announced within the silence period is not announced again")
		}
	}
	vReach("end")
}
