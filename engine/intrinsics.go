package main

// Models of runtime, sync, time, fmt, ... functions that are not interpreted from source.

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics map[string]intrinsic

// tryIntrinsics may decline (ok == false), in which case the body is interpreted.
var tryIntrinsics map[string]func(fr *frame, args []value) (value, bool)

func nop(fr *frame, args []value) value { return nil }

func ptrStruct(v value) structure {
	p, ok := v.(*value)
	if !ok {
		panic(unsupported(fmt.Sprintf("struct pointer %T", v)))
	}
	s, ok := (*p).(structure)
	if !ok {
		panic(unsupported(fmt.Sprintf("not a struct: %T", *p)))
	}
	return s
}

func ptrOf(fr *frame, v value) *value {
	switch p := v.(type) {
	case *value:
		if p == nil {
			panic(fr.w.nilDeref())
		}
		return p
	case *symPtr:
		return p.resolve()
	}
	panic(unsupported(fmt.Sprintf("pointer %T", v)))
}

func f1(name string, host func(float64) float64, op func(w *Worker, t *Term) value) {
	intrinsics[name] = func(fr *frame, args []value) value {
		if x, ok := args[0].(float64); ok {
			return host(x)
		}
		t, ok := args[0].(*Term)
		if !ok || op == nil {
			panic(unsupported(name + " of a symbolic value"))
		}
		return op(fr.w, t)
	}
}

const hasMono = int64(math.MinInt64) // 1<<63

func init() {
	intrinsics = map[string]intrinsic{}
	tryIntrinsics = map[string]func(fr *frame, args []value) (value, bool){}
	I := intrinsics

	// ---- runtime
	I["runtime.Gosched"] = func(fr *frame, args []value) value { fr.w.yield(fr, "gosched"); return nil }
	I["runtime.GC"] = nop
	I["runtime.KeepAlive"] = nop
	I["runtime.SetFinalizer"] = nop
	I["internal/abi.NoEscape"] = func(fr *frame, args []value) value { return args[0] }
	I["internal/abi.Escape"] = func(fr *frame, args []value) value { return args[0] }
	I["strings.noescape"] = func(fr *frame, args []value) value { return args[0] }
	I["(runtime.errorString).Error"] = func(fr *frame, args []value) value { return strConcat("runtime error: ", args[0]) }
	I["(runtime.plainError).Error"] = func(fr *frame, args []value) value { return args[0] }
	I["internal/godebug.New"] = func(fr *frame, args []value) value { return new(value) }
	I["(*internal/godebug.Setting).Value"] = func(fr *frame, args []value) value { return "" }
	I["(*internal/godebug.Setting).IncNonDefault"] = nop
	I["internal/race.Acquire"] = nop
	I["internal/race.Release"] = nop
	I["internal/race.Enable"] = nop
	I["internal/race.Disable"] = nop
	I["internal/testlog.Getenv"] = nop
	I["internal/testlog.Open"] = nop

	// ---- bytealg
	I["internal/bytealg.IndexByteString"] = func(fr *frame, args []value) value { return fr.w.indexByte(args[0], args[1]) }
	I["internal/bytealg.IndexByte"] = func(fr *frame, args []value) value {
		return fr.w.indexByte(&symStr{args[0].([]value)}, args[1])
	}
	I["internal/bytealg.LastIndexByteString"] = func(fr *frame, args []value) value { return fr.w.lastIndexByte(args[0], args[1]) }
	I["internal/bytealg.LastIndexByte"] = func(fr *frame, args []value) value {
		return fr.w.lastIndexByte(&symStr{args[0].([]value)}, args[1])
	}
	I["internal/bytealg.CountString"] = func(fr *frame, args []value) value { return fr.w.countByte(args[0], args[1]) }
	I["internal/bytealg.Count"] = func(fr *frame, args []value) value {
		return fr.w.countByte(&symStr{args[0].([]value)}, args[1])
	}
	I["internal/bytealg.Equal"] = func(fr *frame, args []value) value {
		return fr.w.eqStr(mkStr(args[0].([]value)), mkStr(args[1].([]value)))
	}
	I["bytes.Equal"] = I["internal/bytealg.Equal"]
	I["internal/bytealg.Compare"] = func(fr *frame, args []value) value {
		a, b := mkStr(args[0].([]value)), mkStr(args[1].([]value))
		if fr.w.cond(fr.w.eqStr(a, b)) {
			return int64(0)
		}
		if fr.w.cond(fr.w.ltStr(a, b)) {
			return int64(-1)
		}
		return int64(1)
	}
	I["internal/bytealg.CompareString"] = func(fr *frame, args []value) value {
		if fr.w.cond(fr.w.eqStr(args[0], args[1])) {
			return int64(0)
		}
		if fr.w.cond(fr.w.ltStr(args[0], args[1])) {
			return int64(-1)
		}
		return int64(1)
	}
	I["strings.Compare"] = I["internal/bytealg.CompareString"]
	I["cmp.Compare"] = nil
	delete(I, "cmp.Compare")
	I["internal/bytealg.MakeNoZero"] = func(fr *frame, args []value) value {
		n := int(fr.w.concInt(args[0]))
		return makeSlice(types.Typ[types.Uint8], n, n)
	}
	I["strings.Index"] = func(fr *frame, args []value) value { return fr.w.indexStr(args[0], args[1]) }
	I["internal/stringslite.Index"] = I["strings.Index"]
	I["internal/bytealg.IndexString"] = I["strings.Index"]
	I["bytes.Index"] = func(fr *frame, args []value) value {
		return fr.w.indexStr(mkStr(args[0].([]value)), mkStr(args[1].([]value)))
	}
	I["internal/bytealg.Index"] = I["bytes.Index"]
	tryIntrinsics["strings.ToUpper"] = func(fr *frame, args []value) (value, bool) { return fr.w.caseMap(args[0], 'a', 'z', -32) }
	tryIntrinsics["strings.ToLower"] = func(fr *frame, args []value) (value, bool) { return fr.w.caseMap(args[0], 'A', 'Z', 32) }

	// ---- strconv on concrete values uses the host
	tryIntrinsics["strconv.Itoa"] = func(fr *frame, args []value) (value, bool) {
		if x, ok := args[0].(int64); ok {
			return fmt.Sprint(x), true
		}
		return fr.w.symItoa(args[0], kInt64), true
	}
	tryIntrinsics["strconv.FormatInt"] = func(fr *frame, args []value) (value, bool) {
		if args[1] == int64(10) {
			if x, ok := args[0].(int64); ok {
				return fmt.Sprint(x), true
			}
			return fr.w.symItoa(args[0], kInt64), true
		}
		return nil, false
	}
	I["internal/stringslite.Clone"] = func(fr *frame, args []value) value { return args[0] }
	I["strings.Clone"] = func(fr *frame, args []value) value { return args[0] }

	// ---- math
	f1("math.Abs", math.Abs, func(w *Worker, t *Term) value {
		if w.cfg.realMode {
			z := w.tt.Ratc(ratZero, SReal)
			return w.tt.Ite(w.tt.ICmp(OILe, z, t), t, w.tt.INeg(t))
		}
		return w.normFloat(w.tt.F1(OFAbs, t, 0))
	})
	f1("math.Sqrt", math.Sqrt, func(w *Worker, t *Term) value {
		if w.cfg.realMode {
			return w.sqrtReal(t)
		}
		return w.normFloat(w.tt.F1(OFSqrt, t, 0))
	})
	I["math.sqrt"] = I["math.Sqrt"]
	rnd := func(name string, host func(float64) float64, rm uint64, real func(w *Worker, t *Term) *Term) {
		f1(name, host, func(w *Worker, t *Term) value {
			if w.cfg.realMode {
				return real(w, t)
			}
			return w.normFloat(w.tt.F1(OFRTI, t, rm))
		})
	}
	floor := func(w *Worker, t *Term) *Term { return w.tt.ToReal(w.tt.ToIntFloor(t)) }
	half := func(w *Worker) *Term { return w.toFloat(0.5, 64) }
	rnd("math.Floor", math.Floor, rmRTN, floor)
	rnd("math.Ceil", math.Ceil, rmRTP, func(w *Worker, t *Term) *Term { return w.tt.INeg(floor(w, w.tt.INeg(t))) })
	rnd("math.Trunc", math.Trunc, rmRTZ, func(w *Worker, t *Term) *Term {
		z := w.tt.Ratc(ratZero, SReal)
		return w.tt.Ite(w.tt.ICmp(OILe, z, t), floor(w, t), w.tt.INeg(floor(w, w.tt.INeg(t))))
	})
	rnd("math.Round", math.Round, rmRNA, func(w *Worker, t *Term) *Term {
		z := w.tt.Ratc(ratZero, SReal)
		return w.tt.Ite(w.tt.ICmp(OILe, z, t), floor(w, w.tt.IAdd(t, half(w))), w.tt.INeg(floor(w, w.tt.IAdd(w.tt.INeg(t), half(w)))))
	})
	rnd("math.RoundToEven", math.RoundToEven, rmRNE, func(w *Worker, t *Term) *Term { panic(unsupported("RoundToEven in real mode")) })
	for _, n := range []string{"floor", "ceil", "trunc"} {
		I["math."+n] = I["math."+strings.ToUpper(n[:1])+n[1:]]
	}
	f1("math.Sin", math.Sin, nil)
	f1("math.Cos", math.Cos, nil)
	f1("math.Tan", math.Tan, nil)
	f1("math.Atan", math.Atan, nil)
	f1("math.Exp", math.Exp, nil)
	f1("math.Log", math.Log, func(w *Worker, t *Term) value { return w.ufLog("log", t) })
	f1("math.Log10", math.Log10, func(w *Worker, t *Term) value { return w.ufLog("log10", t) })
	f1("math.Log2", math.Log2, func(w *Worker, t *Term) value { return w.ufLog("log2", t) })
	I["math.Pow"] = func(fr *frame, args []value) value {
		x, ok1 := args[0].(float64)
		y, ok2 := args[1].(float64)
		if ok1 && ok2 {
			return math.Pow(x, y)
		}
		if ok2 && y == 2 {
			return fr.w.floatBin(tokMUL, 64, args[0], args[0])
		}
		if ok2 && y == 1 {
			return args[0]
		}
		panic(unsupported("math.Pow of a symbolic value"))
	}
	I["math.pow"] = I["math.Pow"]
	I["math.Mod"] = func(fr *frame, args []value) value {
		x, ok1 := args[0].(float64)
		y, ok2 := args[1].(float64)
		if ok1 && ok2 {
			return math.Mod(x, y)
		}
		panic(unsupported("math.Mod of a symbolic value"))
	}
	I["math.Hypot"] = func(fr *frame, args []value) value {
		x, ok1 := args[0].(float64)
		y, ok2 := args[1].(float64)
		if ok1 && ok2 {
			return math.Hypot(x, y)
		}
		panic(unsupported("math.Hypot of a symbolic value"))
	}
	mm := func(isMin bool) intrinsic {
		return func(fr *frame, args []value) value {
			return fr.w.minmax(isMin, kind{kFloat, 64, true}, args[0], args[1])
		}
	}
	I["math.Min"], I["math.Max"] = mm(true), mm(false)
	I["math.IsNaN"] = func(fr *frame, args []value) value {
		if x, ok := args[0].(float64); ok {
			return x != x
		}
		if fr.w.cfg.realMode {
			return false
		}
		return fr.w.norm(fr.w.tt.FIs(OFIsNaN, args[0].(*Term)))
	}
	I["math.IsInf"] = func(fr *frame, args []value) value {
		w := fr.w
		sign := w.concInt(args[1])
		if x, ok := args[0].(float64); ok {
			return math.IsInf(x, int(sign))
		}
		if w.cfg.realMode {
			return false
		}
		t := args[0].(*Term)
		isinf := w.norm(w.tt.FIs(OFIsInf, t))
		pos := w.floatCmp(OFLt, 0.0, t, 64)
		switch {
		case sign > 0:
			return w.andVal(isinf, pos)
		case sign < 0:
			return w.andVal(isinf, w.notVal(pos))
		}
		return isinf
	}
	I["math.Float64bits"] = func(fr *frame, args []value) value {
		if x, ok := args[0].(float64); ok {
			return int64(math.Float64bits(x))
		}
		return fr.w.floatBits(args[0].(*Term), 64)
	}
	I["math.Float32bits"] = func(fr *frame, args []value) value {
		if x, ok := args[0].(float32); ok {
			return int64(math.Float32bits(x))
		}
		return fr.w.floatBits(args[0].(*Term), 32)
	}
	I["math.Float64frombits"] = func(fr *frame, args []value) value {
		if x, ok := args[0].(int64); ok {
			return math.Float64frombits(uint64(x))
		}
		return fr.w.normFloat(fr.w.tt.FFromBits(args[0].(*Term)))
	}
	I["math.Float32frombits"] = func(fr *frame, args []value) value {
		if x, ok := args[0].(int64); ok {
			return math.Float32frombits(uint32(x))
		}
		return fr.w.normFloat(fr.w.tt.FFromBits(args[0].(*Term)))
	}

	// ---- errors / reflectlite
	I["errors.Is"] = func(fr *frame, args []value) value { return fr.w.errorsIs(fr, args[0].(iface), args[1].(iface)) }
	I["errors.As"] = func(fr *frame, args []value) value { panic(unsupported("errors.As")) }

	// ---- log: output is not a subject of any property
	for _, n := range []string{"Print", "Printf", "Println"} {
		I["log."+n] = func(fr *frame, args []value) value {
			fr.w.fmtTouch(fr, args)
			return nil
		}
		I["(*log.Logger)."+n] = nop
	}
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln"} {
		I["log."+n] = func(fr *frame, args []value) value { return fr.w.exitProcess(fr, "log.Fatal") }
	}
	for _, n := range []string{"Panic", "Panicf", "Panicln"} {
		I["log."+n] = func(fr *frame, args []value) value {
			panic(targetPanic{iface{types.Typ[types.String], "log.Panic"}})
		}
	}
	I["log.SetOutput"], I["log.SetFlags"], I["log.SetPrefix"] = nop, nop, nop
	I["os.Exit"] = func(fr *frame, args []value) value { return fr.w.exitProcess(fr, "os.Exit") }
	I["os.Getenv"] = func(fr *frame, args []value) value { return "" }

	initSyncIntrinsics()
	initTimeIntrinsics()
	initFmtIntrinsics()
	initMiscIntrinsics()
}

func (w *Worker) exitProcess(fr *frame, what string) value {
	if b, ok := w.side["exitok"].(bool); ok && b {
		panic(pathEnd{kind: endExit})
	}
	w.violation(fr, "exit", "the process is terminated by "+what)
	panic(pathEnd{kind: endViolation})
}

func (w *Worker) sqrtReal(t *Term) value {
	if t.isConst() {
		f, _ := t.r.Float64()
		return math.Sqrt(f)
	}
	z := w.tt.Ratc(ratZero, SReal)
	if !w.cond(w.norm(w.tt.ICmp(OILe, z, t))) {
		return math.NaN()
	}
	return w.tt.Sqrt(t)
}

// ufLog models a logarithm by an arbitrary value that is strictly monotone with earlier calls.
func (w *Worker) ufLog(name string, t *Term) value {
	panic(unsupported("math." + name + " of a symbolic value"))
}

func (w *Worker) floatBits(t *Term, bits int) value {
	if t.op == OFFromBits {
		return t.args[0]
	}
	b := w.freshVar("bits", BV(bits))
	w.addPC(w.tt.Eq(w.tt.FFromBits(b), t))
	w.modelStale = true
	return b
}

// ---- byte searches

func (w *Worker) indexByte(s, c value) value {
	n := strLen(s)
	if str, ok := s.(string); ok {
		if b, ok := c.(int64); ok {
			return int64(strings.IndexByte(str, byte(b)))
		}
	}
	for i := 0; i < n; i++ {
		if w.cond(w.eqVal(strAt(s, i), c)) {
			return int64(i)
		}
	}
	return int64(-1)
}

func (w *Worker) lastIndexByte(s, c value) value {
	for i := strLen(s) - 1; i >= 0; i-- {
		if w.cond(w.eqVal(strAt(s, i), c)) {
			return int64(i)
		}
	}
	return int64(-1)
}

func (w *Worker) countByte(s, c value) value {
	n := int64(0)
	for i := 0; i < strLen(s); i++ {
		if w.cond(w.eqVal(strAt(s, i), c)) {
			n++
		}
	}
	return n
}

func (w *Worker) indexStr(s, sub value) value {
	if a, ok := s.(string); ok {
		if b, ok := sub.(string); ok {
			return int64(strings.Index(a, b))
		}
	}
	n, m := strLen(s), strLen(sub)
	for i := 0; i+m <= n; i++ {
		if w.cond(w.eqStr(strSlice(s, i, i+m), sub)) {
			return int64(i)
		}
	}
	return int64(-1)
}

func (w *Worker) caseMap(s value, lo, hi, d int64) (value, bool) {
	if str, ok := s.(string); ok {
		if d < 0 {
			return strings.ToUpper(str), true
		}
		return strings.ToLower(str), true
	}
	b := strBytes(s)
	k8 := kind{kInt, 8, false}
	for _, x := range b {
		switch y := x.(type) {
		case int64:
			if y >= 0x80 {
				return nil, false
			}
		case *Term:
			c := w.intCmp(OULt, k8, y, int64(0x80))
			if t, ok := c.(*Term); ok {
				if !w.mustHold(t) {
					return nil, false
				}
			} else if c == false {
				return nil, false
			}
		}
	}
	out := make([]value, len(b))
	for i, x := range b {
		in := w.andVal(w.intCmp(OULe, k8, lo, x), w.intCmp(OULe, k8, x, hi))
		mapped := w.intBin(tokADD, k8, x, wrapInt(k8, d), k8)
		switch c := in.(type) {
		case bool:
			out[i] = x
			if c {
				out[i] = mapped
			}
		case *Term:
			out[i] = w.normInt(w.tt.Ite(c, w.toInt(mapped, k8), w.toInt(x, k8)), k8)
		}
	}
	return mkStr(out), true
}

// numeral is the decimal text of a non-negative number with exactly as many digits.
type numeral struct {
	n      value
	k      kind
	digits []value
}

// numeralAt tells whether a numeral begins at b.
func (w *Worker) numeralAt(b []value) (numeral, bool) {
	if t, ok := b[0].(*Term); ok {
		if n, ok := w.numerals[t]; ok && len(n.digits) <= len(b) {
			for i, d := range n.digits {
				if b[i] != d {
					return numeral{}, false
				}
			}
			return n, true
		}
	}
	return numeral{}, false
}

// eqNumerals compares the numerals at the beginning of a and b and returns their length.
func (w *Worker) eqNumerals(a, b []value) (value, int) {
	n, ok := w.numeralAt(a)
	if !ok {
		if n, ok = w.numeralAt(b); !ok {
			return nil, 0
		}
		a, b = b, a
	}
	if m, ok := w.numeralAt(b); ok {
		if len(m.digits) == len(n.digits) && m.k == n.k {
			return w.eqVal(n.n, m.n), len(n.digits)
		}
		return nil, 0
	}
	if len(n.digits) > 18 || len(n.digits) > len(b) {
		return nil, 0
	}
	number := int64(0)
	for i := range n.digits {
		d, ok := b[i].(int64)
		if !ok || d < '0' || d > '9' {
			return nil, 0
		}
		number = number*10 + d - '0'
	}
	return w.eqVal(n.n, number), len(n.digits)
}

// symItoa renders a symbolic integer in decimal, forking on the number of digits.
func (w *Worker) symItoa(v value, k kind) value {
	if x, ok := v.(int64); ok {
		if !k.signed {
			return fmt.Sprint(uint64(x))
		}
		return fmt.Sprint(x)
	}
	k64 := kind{kInt, 64, k.signed}
	v = w.convNum(v, k, k64)
	neg := false
	if k.signed && w.cond(w.intBin(tokLSS, k64, v, int64(0), k64)) {
		neg = true
		v = w.intBin(tokSUB, k64, int64(0), v, k64)
	}
	ku := kind{kInt, 64, false}
	digits := 1
	p := int64(10)
	for digits < 19 && !w.cond(w.intBin(tokLSS, ku, v, p, ku)) {
		digits++
		p *= 10
	}
	out := make([]value, digits)
	number := v
	for i := digits - 1; i >= 0; i-- {
		d := w.intBin(tokREM, ku, v, int64(10), ku)
		v = w.intBin(tokQUO, ku, v, int64(10), ku)
		out[i] = w.convNum(w.intBin(tokADD, ku, d, int64('0'), ku), ku, kind{kInt, 8, false})
	}
	if t, ok := out[0].(*Term); ok && w.cfg.merge == 0 {
		if w.numerals == nil {
			w.numerals = map[*Term]numeral{}
		}
		w.numerals[t] = numeral{number, ku, out}
	}
	if neg {
		out = append([]value{int64('-')}, out...)
	}
	return mkStr(out)
}

func (w *Worker) errorsIs(fr *frame, err, target iface) value {
	for depth := 0; depth < 20; depth++ {
		if err.t == nil || target.t == nil {
			return err.t == nil && target.t == nil
		}
		if types.Identical(err.t, target.t) && types.Comparable(err.t) && w.cond(w.eqVal(err, target)) {
			return true
		}
		if f := w.eng.lookupMethod(err.t, "Is"); f != nil && f.Signature.Params().Len() == 1 {
			if w.cond(w.callFn(fr, f, []value{err.v, target}, nil)) {
				return true
			}
		}
		f := w.eng.lookupMethod(err.t, "Unwrap")
		if f == nil {
			return false
		}
		switch r := w.callFn(fr, f, []value{err.v}, nil).(type) {
		case iface:
			err = r
		case []value:
			for _, e := range r {
				if w.cond(w.errorsIs(fr, e.(iface), target)) {
					return true
				}
			}
			return false
		}
	}
	return false
}

type lmKey struct {
	t types.Type
	n string
}

var lmCache = map[lmKey]*ssa.Function{}

func (e *Engine) lookupMethod(t types.Type, name string) *ssa.Function {
	e.methMu.Lock()
	defer e.methMu.Unlock()
	k := lmKey{t, name}
	if f, ok := lmCache[k]; ok {
		return f
	}
	f := e.methodByName(t, name)
	lmCache[k] = f
	return f
}
