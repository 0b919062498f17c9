package telnet

import (
	"strings"
	"time"
)

//verif:include telnet.go
//verif:bound up to 3 clients that connect before any of 3 (quick) / 4 (thorough) spots, each of which fails at any moment between the spots or not at all, logs in or not; one spot after the server was stopped
//verif:assume the clients, the listener and the clock are stand-ins for package net; the schedules are the subject of T05
//verif:stub net.ResolveTCPAddr = vResolve
//verif:stub net.ListenTCP = vListen
//verif:stub (*net.TCPListener).SetDeadline = vSetDeadline
//verif:stub (*net.TCPListener).AcceptTCP = vAccept
//verif:stub (*net.TCPListener).Close = vListenerClose
//verif:stub (*net.TCPConn).SetKeepAlive = vKeepAlive
//verif:stub (*net.TCPConn).SetKeepAlivePeriod = vKeepAlivePeriod
//verif:stub (*net.conn).RemoteAddr = vConnAddr
//verif:stub (*net.conn).Read = vConnRead
//verif:stub (*net.conn).Write = vConnWrite
//verif:stub (*net.conn).Close = vConnClose
//verif:stub (*net.conn).SetWriteDeadline = vConnWriteDeadline

//verif:harness vHarness_deliver conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 timers=0 p.n=3/3 p.k=3/4 steps=2000000 budget=150/400
func vHarness_deliver() {
	vQuiet(true)
	vNetwork()
	s, err := NewServer(":7373", "call", "1")
	vAssert(err == nil, "the server starts")
	n, k := vParam("n", 3), vParam("k", 3)
	peers := make([]*vPeer, n)
	joins := make([]int, n) // the first spot for the client
	fails := make([]int, n) // the first spot that the client does not get any more
	joined := 0
	for j := range peers {
		joined += vChoose("joins", k+1-joined)
		joins[j] = joined
		fails[j] = joined + vChoose("fails", k+1-joined)
		peers[j] = vNewPeer()
	}
	at := time.Date(2024, 1, 2, 12, 34, 0, 0, time.UTC)
	calls := []string{"aa1a", "bb2b", "cc3c", "dd4d"}[:k]
	for i, call := range calls {
		for j, p := range peers {
			if joins[j] == i {
				vIncoming <- p
				vSettle()
				if j == 1 {
					p.input <- []byte("n0call\r\n")
					vSettle()
				}
			}
			if fails[j] == i {
				p.fail()
			}
		}
		s.Spot(call, 7000000, "", at)
		vPass()
	}
	for j, p := range peers {
		if joins[j] == k {
			continue
		}
		text := p.text()
		vAssert(strings.HasPrefix(text, "SDRainer Version 1\nEnter your callsign: "), "every client is welcomed")
		vAssert(j != 1 || strings.Contains(text, "welcome n0call\n"), "the client is logged in")
		last := 0
		for i, call := range calls {
			want := 1
			if i < joins[j] || i >= fails[j] {
				want = 0
			}
			vAssert(strings.Count(text, " "+call+" ") == want, "every connected client gets every spot once, nobody else does")
			if at := strings.Index(text, " "+call+" "); at >= 0 {
				vAssert(at > last, "the spots arrive in order")
				last = at
			}
		}
		vAssert(p.closed() == (fails[j] < k), "exactly the failed connections are closed")
	}
	go s.Stop()
	vPass()
	for j, p := range peers {
		vAssert(joins[j] == k || p.closed(), "all connections are closed when the server stops")
	}
	vAssert(vListenerClosed, "nobody can connect any more")
	s.Stop()
	s.Spot("ff6f", 7000000, "", at)
	s.Spot("gg7g", 7000000, "", at)
	vReach("end")
}
