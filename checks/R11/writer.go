package rx

import (
	"bytes"
	"errors"
)

//verif:bound up to 5 (quick) / 6 (thorough) writes and selections in any order, three listeners and nobody to select, up to three bytes of any content per write, a console that may fail

type vConsole struct {
	bytes.Buffer
	fail bool
}

var vErr = errors.New("console failed")

func (c *vConsole) Write(b []byte) (int, error) {
	if c.fail {
		return 0, vErr
	}
	return c.Buffer.Write(b)
}

//verif:harness vHarness_select mode=exact merge=0 p.n=5/6 budget=100/300
func vHarness_select() {
	console := &vConsole{}
	w := NewChannelWriter(console)
	names := []string{"x1", "x2", "x11"}
	channels := []WriterFunc{w.Channel(names[0]), w.Channel(names[1]), w.Channel(names[2])}
	active := -1
	var want []byte
	for i := 0; i < vParam("n", 5); i++ {
		switch op := vChoose("operation", 8); op {
		case 0, 1, 2:
			w.SetActive(names[op])
			active = op
		case 3:
			w.SetActive("")
			active = -1
		case 4:
			console.fail = !console.fail
		default:
			ch := op - 5
			text := vBytes("text", 3)
			n, err := channels[ch].Write(text)
			switch {
			case ch != active:
				vAssert(n == len(text) && err == nil, "the writer of a listener that is not selected sees success")
			case console.fail:
				vAssert(err == vErr, "the writer of the selected listener sees the failure")
			default:
				vAssert(n == len(text) && err == nil, "the writer of the selected listener sees success")
				want = append(want, text...)
			}
		}
		vAssert(console.Len() == len(want), "exactly the text of the selected listener is written")
	}
	got := console.Bytes()
	for i := range want {
		vAssert(got[i] == want[i], "the text of the selected listener is written unaltered and in order")
	}
	vReach("end")
}
