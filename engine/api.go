package main

// The harness API: symbolic side (intrinsics) and the native side (source template).

import (
	"fmt"
	"go/types"
)

var harnessAPI map[string]intrinsic

func str1(v value) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported("symbolic label"))
	}
	return s
}

func init() {
	harnessAPI = map[string]intrinsic{}
	H := harnessAPI
	intIn := func(k kind) intrinsic {
		return func(fr *frame, args []value) value {
			return fr.w.intInput(str1(args[0]), k)
		}
	}
	H["vUint8"] = intIn(kind{kInt, 8, false})
	H["vInt8"] = intIn(kind{kInt, 8, true})
	H["vUint16"] = intIn(kind{kInt, 16, false})
	H["vInt16"] = intIn(kind{kInt, 16, true})
	H["vUint32"] = intIn(kind{kInt, 32, false})
	H["vInt32"] = intIn(kind{kInt, 32, true})
	H["vUint64"] = intIn(kind{kInt, 64, false})
	H["vInt64"] = intIn(kInt64)
	H["vInt"] = func(fr *frame, args []value) value {
		w := fr.w
		lo, ok1 := args[1].(int64)
		hi, ok2 := args[2].(int64)
		if ok1 && ok2 && lo == hi {
			nm := w.inputName(str1(args[0]))
			w.inputs = append(w.inputs, &inputVar{name: nm, kind: "choice", val: int(lo)})
			return lo
		}
		var t value
		if w.cfg.intMode && ok1 && ok2 {
			t = w.newInputB(str1(args[0]), "int", SInt, kInt64, w.tt.Intc(lo).r, w.tt.Intc(hi).r)
		} else {
			t = w.intInput(str1(args[0]), kInt64)
		}
		if tm, ok := t.(*Term); ok && ok1 && ok2 {
			d := int64(0)
			if lo > 0 {
				d = lo
			}
			if hi < 0 {
				d = hi
			}
			c := w.toInt(d, kInt64)
			w.tt.eval(c)
			w.defaultVal(tm, mval{u: c.eu, r: c.er})
		}
		if tm, ok := t.(*Term); ok && tm.lo != nil {
			w.assumeBounds(tm)
		} else {
			w.assume(w.intCmp(OSLe, kInt64, args[1], t))
			w.assume(w.intCmp(OSLe, kInt64, t, args[2]))
		}
		return t
	}
	H["vBool"] = func(fr *frame, args []value) value {
		t := fr.w.newInput(str1(args[0]), "bool", SBool, kind{c: kBool})
		fr.w.defaultVal(t, mval{})
		return t
	}
	H["vFloat64"] = func(fr *frame, args []value) value {
		w := fr.w
		if w.cfg.realMode {
			t := w.newInput(str1(args[0]), "f64", SReal, kind{kFloat, 64, true})
			w.defaultVal(t, mval{r: ratZero})
			return t
		}
		b := w.newInput(str1(args[0]), "f64", BV(64), kind{kInt, 64, false})
		w.defaultVal(b, mval{})
		return w.tt.FFromBits(b)
	}
	H["vFloat32"] = func(fr *frame, args []value) value {
		w := fr.w
		if w.cfg.realMode {
			t := w.newInput(str1(args[0]), "f32", SReal, kind{kFloat, 32, true})
			w.defaultVal(t, mval{r: ratZero})
			return t
		}
		b := w.newInput(str1(args[0]), "f32", BV(32), kind{kInt, 32, false})
		w.defaultVal(b, mval{})
		return w.tt.FFromBits(b)
	}
	H["vFloat64In"] = func(fr *frame, args []value) value {
		w := fr.w
		lo, hi := args[1].(float64), args[2].(float64)
		if w.cfg.realMode {
			l, h := w.toFloat(lo, 64), w.toFloat(hi, 64)
			t := w.newInputB(str1(args[0]), "f64", SReal, kind{kFloat, 64, true}, l.r, h.r)
			d := l.r
			if l.r.Sign() < 0 && h.r.Sign() > 0 {
				d = ratZero
			}
			w.defaultVal(t, mval{r: d})
			w.assumeBounds(t)
			return t
		}
		b := w.newInput(str1(args[0]), "f64", BV(64), kind{kInt, 64, false})
		w.defaultVal(b, mval{u: f64bits(lo)})
		f := w.tt.FFromBits(b)
		w.assume(w.floatCmp(OFLe, lo, f, 64))
		w.assume(w.floatCmp(OFLe, f, hi, 64))
		return f
	}
	H["vChoose"] = func(fr *frame, args []value) value {
		w := fr.w
		n := int(w.concInt(args[1]))
		nm := w.inputName(str1(args[0]))
		c := w.choose(n, nm)
		w.inputs = append(w.inputs, &inputVar{name: nm, kind: "choice", val: c})
		return int64(c)
	}
	H["vBytes"] = func(fr *frame, args []value) value {
		n := int(fr.w.concInt(args[1]))
		r := make([]value, n)
		for i := range r {
			r[i] = fr.w.intInput(str1(args[0]), kind{kInt, 8, false})
		}
		return r
	}
	H["vString"] = func(fr *frame, args []value) value {
		n := int(fr.w.concInt(args[1]))
		r := make([]value, n)
		for i := range r {
			r[i] = fr.w.intInput(str1(args[0]), kind{kInt, 8, false})
		}
		return mkStr(r)
	}
	H["vAssume"] = func(fr *frame, args []value) value { fr.w.assume(args[0]); return nil }
	H["vAssert"] = func(fr *frame, args []value) value { fr.w.assert(fr, args[0], str1(args[1])); return nil }
	H["vReach"] = func(fr *frame, args []value) value { fr.w.reach[str1(args[0])]++; return nil }
	H["vObserve"] = func(fr *frame, args []value) value {
		v := args[1]
		if x, ok := v.(iface); ok {
			v = iface{x.t, copyVal(x.v)}
		}
		fr.w.observe = append(fr.w.observe, v)
		fr.w.obsTxt = append(fr.w.obsTxt, str1(args[0]))
		return nil
	}
	H["vParam"] = func(fr *frame, args []value) value {
		if v, ok := fr.w.cfg.params[str1(args[0])]; ok {
			return v
		}
		return args[1]
	}
	H["vSettle"] = func(fr *frame, args []value) value {
		w := fr.w
		w.curG().settle = true
		w.block(fr, "settle", func() bool { return false })
		return nil
	}
	H["vQuiet"] = func(fr *frame, args []value) value { fr.w.quiet = args[0].(bool); return nil }
	H["vYield"] = func(fr *frame, args []value) value { fr.w.yield(fr, "yield"); return nil }
	H["vMayBlock"] = func(fr *frame, args []value) value { fr.w.side["mayblock"] = true; return nil }
	H["vExitOK"] = func(fr *frame, args []value) value { fr.w.side["exitok"] = true; return nil }
	H["vSymbolic"] = func(fr *frame, args []value) value { return true }
	H["vLiveGoroutines"] = func(fr *frame, args []value) value {
		n := int64(0)
		for _, g := range fr.w.gors {
			if !g.done && g != fr.w.curG() {
				n++
			}
		}
		return n
	}
	// vAnd/vOr/vIte build conditions without forking.
	H["vAnd"] = func(fr *frame, args []value) value {
		var r value = true
		for _, a := range args[0].([]value) {
			r = fr.w.andVal(r, a)
		}
		return r
	}
	H["vOr"] = func(fr *frame, args []value) value {
		var r value = false
		for _, a := range args[0].([]value) {
			r = fr.w.orVal(r, a)
		}
		return r
	}
	H["vNot"] = func(fr *frame, args []value) value { return fr.w.notVal(args[0]) }
	H["vIteInt"] = func(fr *frame, args []value) value {
		w := fr.w
		switch c := args[0].(type) {
		case bool:
			if c {
				return args[1]
			}
			return args[2]
		case *Term:
			return w.tt.Ite(c, w.toInt(args[1], kInt64), w.toInt(args[2], kInt64))
		}
		panic("vIteInt")
	}
	H["vIteFloat"] = func(fr *frame, args []value) value {
		w := fr.w
		switch c := args[0].(type) {
		case bool:
			if c {
				return args[1]
			}
			return args[2]
		case *Term:
			return w.tt.Ite(c, w.toFloat(args[1], 64), w.toFloat(args[2], 64))
		}
		panic("vIteFloat")
	}
	// vConc forks over the feasible values of an integer.
	H["vConc"] = func(fr *frame, args []value) value { return fr.w.concInt(args[0]) }
}

func (w *Worker) intInput(name string, k kind) value {
	if w.cfg.intMode {
		lo, hi := w.intRange(k)
		t := w.newInputB(name, "int", SInt, k, lo.r, hi.r)
		w.defaultVal(t, mval{u: 0, r: ratZero})
		w.assumeBounds(t)
		return t
	}
	t := w.newInput(name, "int", w.intSort(k), k)
	w.defaultVal(t, mval{u: 0, r: ratZero})
	return t
}

// assumeBounds states the bounds of a variable as raw assertions (the simplifier would drop them).
func (w *Worker) assumeBounds(t *Term) {
	c1 := w.tt.mk(OILe, SBool, 0, "", nil, w.tt.Ratc(t.lo, t.sort), t)
	c2 := w.tt.mk(OILe, SBool, 0, "", nil, t, w.tt.Ratc(t.hi, t.sort))
	w.addPC(c1)
	w.addPC(c2)
	if w.pos >= len(w.prefix) && w.modelOK && !w.modelStale && !(w.tt.evalBool(c1) && w.tt.evalBool(c2)) {
		w.modelStale = true
	}
}

func (w *Worker) intRange(k kind) (*Term, *Term) {
	if k.signed {
		lo := int64(-1) << (k.w - 1)
		return w.tt.Intc(lo), w.tt.Intc(-(lo + 1))
	}
	if k.w == 64 {
		return w.tt.Intc(0), w.toInt(int64(-1), k)
	}
	return w.tt.Intc(0), w.tt.Intc(int64(1)<<k.w - 1)
}

var _ = fmt.Sprint
var _ types.Type

const apiTemplate = `package %PKG%

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

var vState struct {
	mu     sync.Mutex
	vals   map[string]string
	occ    map[string]int
	params map[string]int64
	live0  int
}

type vCase struct {
	Harness string
	Inputs  []struct{ Name, V string }
	Params  map[string]int64
}

func vNext(name string) string {
	vState.mu.Lock()
	defer vState.mu.Unlock()
	k := fmt.Sprintf("%s#%d", name, vState.occ[name])
	vState.occ[name]++
	return vState.vals[k]
}

func vLoad(c vCase) {
	vState.mu.Lock()
	defer vState.mu.Unlock()
	vState.vals, vState.occ, vState.params = map[string]string{}, map[string]int{}, c.Params
	for _, in := range c.Inputs {
		vState.vals[in.Name] = in.V
	}
	vState.live0 = runtime.NumGoroutine()
}

func vReadCases(f string) (r []vCase) {
	b, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	return r
}

func vI(name string) int64 {
	s := vNext(name)
	if s == "" {
		return 0
	}
	if i, err := strconv.ParseInt(s, 10, 64); err == nil {
		return i
	}
	u, _ := strconv.ParseUint(s, 10, 64)
	return int64(u)
}

func vUint8(name string) uint8   { return uint8(vI(name)) }
func vInt8(name string) int8     { return int8(vI(name)) }
func vUint16(name string) uint16 { return uint16(vI(name)) }
func vInt16(name string) int16   { return int16(vI(name)) }
func vUint32(name string) uint32 { return uint32(vI(name)) }
func vInt32(name string) int32   { return int32(vI(name)) }
func vUint64(name string) uint64 { return uint64(vI(name)) }
func vInt64(name string) int64   { return vI(name) }
func vInt(name string, lo, hi int) int {
	v := int(vI(name))
	if v < lo || v > hi {
		vAssume(false)
	}
	return v
}
func vBool(name string) bool { return vI(name) == 1 }
func vFloat64(name string) float64 {
	s := vNext(name)
	if !strings.HasPrefix(s, "f") {
		return 0
	}
	u, _ := strconv.ParseUint(s[1:], 16, 64)
	return math.Float64frombits(u)
}
func vFloat32(name string) float32 { return float32(vFloat64(name)) }
func vFloat64In(name string, lo, hi float64) float64 {
	v := vFloat64(name)
	if !(lo <= v && v <= hi) {
		vAssume(false)
	}
	return v
}
func vChoose(name string, n int) int { return int(vI(name)) }
func vBytes(name string, n int) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = vUint8(name)
	}
	return r
}
func vString(name string, n int) string { return string(vBytes(name, n)) }

type vStopped struct{}

func vAssume(c bool) {
	if !c {
		fmt.Println("VERIF-ASSUME-FAILED")
		panic(vStopped{})
	}
}
func vAssert(c bool, msg string) {
	if !c {
		fmt.Println("VERIF-VIOLATION: " + msg)
		os.Exit(3)
	}
}
func vReach(label string) {}
func vObserve(label string, v any) {
	var s string
	switch x := v.(type) {
	case string:
		s = fmt.Sprintf("%q", x)
	case float32:
		s = fmt.Sprintf("%v", float64(x))
	default:
		s = fmt.Sprintf("%v", x)
	}
	fmt.Println("VERIF-OBSERVE: " + label + "=" + s)
}
func vParam(name string, def int) int {
	if v, ok := vState.params[name]; ok {
		return int(v)
	}
	return def
}
func vSettle()         { time.Sleep(60 * time.Millisecond) }
func vYield()          { runtime.Gosched() }
func vQuiet(on bool)   {}
func vMayBlock()       { vState.mu.Lock(); vState.mu.Unlock() }
func vExitOK()         {}
func vSymbolic() bool  { return false }
func vLiveGoroutines() int {
	for i := 0; i < 100 && runtime.NumGoroutine() > vState.live0; i++ {
		time.Sleep(5 * time.Millisecond)
	}
	return runtime.NumGoroutine() - vState.live0
}
func vAnd(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}
func vOr(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}
func vNot(c bool) bool { return !c }
func vIteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func vIteFloat(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}
func vConc(x int) int { return x }

// vCatch runs f and reports whether it panicked.
func vCatch(f func()) (panicked bool, val any) {
	panicked = true
	defer func() {
		if panicked {
			val = recover()
			if _, ok := val.(vStopped); ok {
				panic(val)
			}
		}
	}()
	f()
	panicked = false
	return
}

var vSchedOn = os.Getenv("VERIF_DELAYS")

// vDelay is inserted into instrumented copies of the source for schedule replay.
func vDelay(where string, n int) {
	for _, d := range strings.Split(vSchedOn, ",") {
		if d == where {
			time.Sleep(time.Duration(n) * time.Millisecond)
			return
		}
	}
}

var _ = time.Now
`

const testTemplate = `package %PKG%

import (
	"fmt"
	"os"
	"testing"
)

func TestVerifReplay(t *testing.T) {
	fs := map[string]func(){
%FUNCS%
	}
	for i, c := range vReadCases(os.Getenv("VERIF_REPLAY")) {
		fmt.Printf("VERIF-CASE: %d\n", i)
		vLoad(c)
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(vStopped); ok {
						return
					}
					fmt.Printf("VERIF-PANIC: %v\n", r)
					panic(r)
				}
			}()
			fs[c.Harness]()
			fmt.Println("VERIF-DONE")
		}()
	}
}
`
