package kiwi

//verif:include kiwi.go
//verif:stub net.ResolveTCPAddr = vResolve
//verif:bound up to 3 messages of any content in a row: with any tag and up to 6 (quick) / 8 (thorough) bytes (the content of status messages is the subject of K02); IQ messages with up to 24 (quick) / 28 (thorough) bytes, i.e. up to 2 (quick) / 4 (thorough) samples and every incomplete header

const vHeader = 17

//verif:harness vHarness_iq mode=exact merge=0 conc=1 preempt=0 mapFork=1 p.n=24/28 p.k=2/3 budget=120/600
func vHarness_iq() {
	h := &vHandler{}
	c := vClient(h)
	conn := &vConn{messages: [][]byte{[]byte("MSG audio_rate=12000")}, types: []int{2}}
	var want [][]float32
	for i := 0; i < vParam("k", 2); i++ {
		payload := vBytes("payload", vChoose("length", vParam("n", 24)+1))
		conn.messages = append(conn.messages, append([]byte("SND"), payload...))
		conn.types = append(conn.types, 2)
		if len(payload) < vHeader {
			continue
		}
		block := []float32{}
		for j := vHeader; j+1 < len(payload); j += 2 {
			block = append(block, float32(int16(uint16(payload[j+1])|uint16(payload[j])<<8))/32767)
		}
		want = append(want, block)
	}
	c.readLoop(conn)
	vAssert(len(h.rates) == 1 && h.rates[0] == 12000, "the handler is told about the connection once")
	for _, rate := range h.blockRates {
		vAssert(rate == 12000, "the data is passed on with the audio rate")
	}
	vAssert(len(h.blocks) == len(want), "every complete message is passed on, every incomplete one is rejected")
	for i := range want {
		vAssert(len(h.blocks[i]) == len(want[i]), "one value per sample")
		for j := range want[i] {
			vAssert(h.blocks[i][j] == want[i][j], "each value is the sample divided by the largest positive sample value, in order")
		}
	}
	vAssert(conn.closed, "the connection is closed")
	vReach("end")
}

//verif:harness vHarness_any mode=exact merge=0 conc=1 preempt=0 mapFork=1 p.n=6/8 budget=120/600
func vHarness_any() {
	h := &vHandler{}
	c := vClient(h)
	message := vBytes("message", vChoose("length", vParam("n", 8)+1))
	kind := vChoose("type", 4) // 1 is a text message, 2 a binary message
	iq := append([]byte("SND"), make([]byte, vHeader+2)...)
	iq[len(iq)-1] = 1
	conn := &vConn{
		messages: [][]byte{[]byte("MSG audio_rate=12000"), message, iq},
		types:    []int{2, kind, 2},
	}
	c.readLoop(conn)
	vAssert(len(h.blocks) == 1, "a message that contains no samples does not disturb the samples of the next message")
	vAssert(len(h.blocks[0]) == 1 && h.blocks[0][0] == float32(1)/32767, "the samples do not depend on the former messages")
	vReach("end")
}
