package main

// A model of fmt for the values that occur in the code under test.

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func initFmtIntrinsics() {
	I := intrinsics
	I["fmt.Sprintf"] = func(fr *frame, args []value) value { return fr.w.sprintf(fr, args[0], args[1].([]value)) }
	I["fmt.Sprint"] = func(fr *frame, args []value) value { return fr.w.sprint(fr, args[0].([]value), false) }
	I["fmt.Sprintln"] = func(fr *frame, args []value) value { return fr.w.sprint(fr, args[0].([]value), true) }
	I["fmt.Errorf"] = func(fr *frame, args []value) value {
		w := fr.w
		as := args[1].([]value)
		msg := w.sprintf(fr, args[0], as)
		f, _ := args[0].(string)
		if strings.Count(f, "%w") == 1 {
			n := strings.Count(f[:strings.Index(f, "%w")], "%") - 2*strings.Count(f[:strings.Index(f, "%w")], "%%")
			if t := w.eng.namedType("fmt", "wrapError"); t != nil && n < len(as) {
				c := new(value)
				*c = structure{msg, as[n]}
				return iface{types.NewPointer(t), c}
			}
		}
		return w.mkError(msg)
	}
	wr := func(fr *frame, dst value, s value) value {
		d := dst.(iface)
		if d.t == nil {
			panic(fr.w.nilDeref())
		}
		if isOSFile(d) {
			return tuple{int64(strLen(s)), iface{}}
		}
		f := fr.w.eng.lookupMethod(d.t, "Write")
		b := append([]value{}, strBytes(s)...)
		return fr.w.callFn(fr, f, []value{d.v, b}, nil)
	}
	I["fmt.Fprintf"] = func(fr *frame, args []value) value {
		return wr(fr, args[0], fr.w.sprintf(fr, args[1], args[2].([]value)))
	}
	I["fmt.Fprint"] = func(fr *frame, args []value) value {
		return wr(fr, args[0], fr.w.sprint(fr, args[1].([]value), false))
	}
	I["fmt.Fprintln"] = func(fr *frame, args []value) value {
		return wr(fr, args[0], fr.w.sprint(fr, args[1].([]value), true))
	}
	out := func(fr *frame, s value) value { return tuple{int64(0), iface{}} }
	I["fmt.Printf"] = func(fr *frame, args []value) value { fr.w.fmtTouch(fr, args); return out(fr, "") }
	I["fmt.Print"] = I["fmt.Printf"]
	I["fmt.Println"] = I["fmt.Printf"]
}

func isOSFile(d iface) bool { return d.t.String() == "*os.File" }

// fmtTouch evaluates the Error/String methods of logged values (they may panic), ignoring the text.
func (w *Worker) fmtTouch(fr *frame, args []value) {
	if len(args) == 0 {
		return
	}
	as, ok := args[len(args)-1].([]value)
	if !ok {
		return
	}
	for _, a := range as {
		x, ok := a.(iface)
		if !ok || x.t == nil || !strings.Contains(x.t.String(), "ftl/sdrainer") {
			continue
		}
		if f := w.stringer(x.t); f != nil {
			w.safeString(fr, f, x)
		}
	}
}

func (w *Worker) stringer(t types.Type) *ssa.Function {
	for _, n := range []string{"Error", "String"} {
		if f := w.eng.lookupMethod(t, n); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
			return f
		}
	}
	return nil
}

// safeString calls String/Error; fmt catches panics of such methods.
func (w *Worker) safeString(fr *frame, f *ssa.Function, x iface) (r value) {
	defer func() {
		if e := recover(); e != nil {
			if t, ok := e.(targetPanic); ok {
				_ = t
				r = "%!v(PANIC)"
				return
			}
			panic(e)
		}
	}()
	return w.callFn(fr, f, []value{x.v}, nil)
}

type fspec struct {
	minus, plus, sharp, space, zero bool
	wid, prec                       int
	hasW, hasP                      bool
	verb                            byte
}

func (s fspec) String() string {
	var sb strings.Builder
	sb.WriteByte('%')
	if s.minus {
		sb.WriteByte('-')
	}
	if s.plus {
		sb.WriteByte('+')
	}
	if s.sharp {
		sb.WriteByte('#')
	}
	if s.space {
		sb.WriteByte(' ')
	}
	if s.zero {
		sb.WriteByte('0')
	}
	if s.hasW {
		sb.WriteString(strconv.Itoa(s.wid))
	}
	if s.hasP {
		sb.WriteByte('.')
		sb.WriteString(strconv.Itoa(s.prec))
	}
	sb.WriteByte(s.verb)
	return sb.String()
}

func (w *Worker) sprintf(fr *frame, format value, args []value) value {
	f, ok := format.(string)
	if !ok {
		panic(unsupported("symbolic format string"))
	}
	var r value = ""
	an := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			r = strConcat(r, f[i:])
			break
		}
		r = strConcat(r, f[i:i+j])
		i += j + 1
		var s fspec
	flags:
		for ; i < len(f); i++ {
			switch f[i] {
			case '-':
				s.minus = true
			case '+':
				s.plus = true
			case '#':
				s.sharp = true
			case ' ':
				s.space = true
			case '0':
				s.zero = true
			default:
				break flags
			}
		}
		star := func() int {
			i++
			if an < len(args) {
				n := w.concInt(args[an].(iface).v)
				an++
				return int(n)
			}
			return 0
		}
		if i < len(f) && f[i] == '*' {
			s.wid, s.hasW = star(), true
			if s.wid < 0 {
				s.wid, s.minus = -s.wid, true
			}
		} else {
			for ; i < len(f) && f[i] >= '0' && f[i] <= '9'; i++ {
				s.wid, s.hasW = s.wid*10+int(f[i]-'0'), true
			}
		}
		if i < len(f) && f[i] == '.' {
			i++
			s.hasP = true
			if i < len(f) && f[i] == '*' {
				s.prec = star()
			} else {
				for ; i < len(f) && f[i] >= '0' && f[i] <= '9'; i++ {
					s.prec = s.prec*10 + int(f[i]-'0')
				}
			}
		}
		if i >= len(f) {
			r = strConcat(r, "%!(NOVERB)")
			break
		}
		s.verb = f[i]
		i++
		if s.verb == '%' {
			r = strConcat(r, "%")
			continue
		}
		if an >= len(args) {
			r = strConcat(r, "%!"+string(s.verb)+"(MISSING)")
			continue
		}
		a := args[an].(iface)
		an++
		r = strConcat(r, w.fmtArg(fr, s, a))
	}
	if an < len(args) {
		r = strConcat(r, "%!(EXTRA)")
	}
	return r
}

func (w *Worker) sprint(fr *frame, args []value, ln bool) value {
	var r value = ""
	prevStr := false
	for i, a := range args {
		x := a.(iface)
		isStr := x.t != nil && kindOf(x.t).c == kString
		if i > 0 && (ln || !isStr && !prevStr) {
			r = strConcat(r, " ")
		}
		r = strConcat(r, w.fmtArg(fr, fspec{verb: 'v'}, x))
		prevStr = isStr
	}
	if ln {
		r = strConcat(r, "\n")
	}
	return r
}

// hostVal converts a concrete basic value to its Go value.
func hostVal(v value, k kind) (any, bool) {
	switch x := v.(type) {
	case int64:
		if k.c != kInt {
			return nil, false
		}
		switch {
		case k.signed && k.w == 64:
			return x, true
		case k.signed && k.w == 32:
			return int32(x), true
		case k.signed && k.w == 16:
			return int16(x), true
		case k.signed && k.w == 8:
			return int8(x), true
		case k.w == 64:
			return uint64(x), true
		case k.w == 32:
			return uint32(x), true
		case k.w == 16:
			return uint16(x), true
		}
		return uint8(x), true
	case bool, string, float64, float32:
		return x, true
	case complex128:
		if k.w == 64 {
			return complex64(x), true
		}
		return x, true
	}
	return nil, false
}

func (w *Worker) fmtArg(fr *frame, s fspec, a iface) value {
	if s.verb == 'T' {
		if a.t == nil {
			return "<nil>"
		}
		return a.t.String()
	}
	if a.t == nil {
		if s.verb == 'v' || s.verb == 's' {
			return w.pad(s, "<nil>")
		}
		return "%!" + string(s.verb) + "(<nil>)"
	}
	if s.verb == 'w' {
		s.verb = 'v'
	}
	k := kindOf(a.t)
	v := a.v
	if (s.verb == 'v' || s.verb == 's' || s.verb == 'q' || s.verb == 'x') && !s.sharp {
		if f := w.stringer(a.t); f != nil {
			if p, isP := a.v.(*value); isP && p == nil {
				return w.pad(s, "<nil>")
			}
			v = w.safeString(fr, f, a)
			k = kind{c: kString}
		}
	}
	if h, ok := hostVal(v, k); ok {
		return fmt.Sprintf(s.String(), h)
	}
	switch x := v.(type) {
	case *symStr:
		if s.verb == 's' || s.verb == 'v' {
			if s.hasP {
				panic(unsupported("precision with a symbolic string"))
			}
			return w.pad(s, x)
		}
		if s.verb == 'q' {
			return &symStr{append(append([]value{int64('"')}, x.b...), int64('"'))}
		}
	case *Term:
		if x.sort == SBool {
			if w.branch(x) {
				return w.pad(s, "true")
			}
			return w.pad(s, "false")
		}
		if k.c == kInt && (s.verb == 'd' || s.verb == 'v') {
			t := w.symItoa(x, k)
			if s.plus || s.space {
				if b, ok := strAt(t, 0).(int64); !ok || b != '-' {
					p := "+"
					if !s.plus {
						p = " "
					}
					t = strConcat(p, t)
				}
			}
			if s.zero && s.hasW && !s.minus {
				for strLen(t) < s.wid {
					t = strConcat("0", t)
				}
			}
			return w.pad(s, t)
		}
		if k.c == kInt && s.verb == 'c' {
			return w.pad(s, w.encodeRune(w.convNum(x, k, kind{kInt, 32, true})))
		}
		if k.c == kFloat && s.verb == 'f' && s.hasP {
			return w.fmtFloat(s, x, k)
		}
		if k.c == kFloat {
			w.note("symbolic float in formatted text rendered opaquely")
			return w.pad(s, "<float>")
		}
	case []value:
		if sl, ok := a.t.Underlying().(*types.Slice); ok && kindOf(sl.Elem()).w == 8 && (s.verb == 's' || s.verb == 'x') {
			b := mkStr(x)
			if str, ok := b.(string); ok {
				return fmt.Sprintf(s.String(), []byte(str))
			}
			if s.verb == 's' {
				return w.pad(s, b)
			}
		}
		if sl, ok := a.t.Underlying().(*types.Slice); ok {
			var r value = "["
			for i, e := range x {
				if i > 0 {
					r = strConcat(r, " ")
				}
				r = strConcat(r, w.fmtElem(fr, s, e, sl.Elem()))
			}
			return strConcat(r, "]")
		}
	case structure:
		if st, ok := a.t.Underlying().(*types.Struct); ok {
			var r value = "{"
			for i, e := range x {
				if i > 0 {
					r = strConcat(r, " ")
				}
				if s.plus {
					r = strConcat(r, st.Field(i).Name()+":")
				}
				r = strConcat(r, w.fmtElem(fr, s, e, st.Field(i).Type()))
			}
			return strConcat(r, "}")
		}
	case *value:
		if x == nil {
			return w.pad(s, "<nil>")
		}
		return "0xc000000000"
	}
	return "<" + a.t.String() + ">"
}

func (w *Worker) fmtElem(fr *frame, s fspec, e value, t types.Type) value {
	if i, ok := e.(iface); ok {
		return w.fmtArg(fr, s, i)
	}
	return w.fmtArg(fr, s, iface{t, e})
}

func (w *Worker) runeCount(s value) int {
	if str, ok := s.(string); ok {
		return len([]rune(str))
	}
	n := 0
	for i := 0; i < strLen(s); {
		_, sz := w.decodeRune(s, i)
		i += sz
		n++
	}
	return n
}

func (w *Worker) pad(s fspec, v value) value {
	if !s.hasW {
		return v
	}
	n := w.runeCount(v)
	if n >= s.wid {
		return v
	}
	p := strings.Repeat(" ", s.wid-n)
	if s.minus {
		return strConcat(v, p)
	}
	return strConcat(p, v)
}

// fmtFloat renders a symbolic float of real arithmetic with a fixed number of decimals, correctly rounded (half to
// even); the number of digits is forked on.
func (w *Worker) fmtFloat(s fspec, x *Term, k kind) value {
	if x.sort != SReal || s.prec > 9 {
		panic(unsupported("formatting a symbolic float"))
	}
	tt := w.tt
	k64 := kind{kInt, 64, true}
	neg := w.cond(tt.ICmp(OILt, x, tt.Ratc(new(big.Rat), SReal)))
	if neg {
		x = tt.INeg(x)
	}
	scale := new(big.Rat).SetInt64(1)
	for i := 0; i < s.prec; i++ {
		scale.Mul(scale, big.NewRat(10, 1))
	}
	y := tt.IAdd(tt.IMul(x, tt.Ratc(scale, SReal)), tt.Ratc(big.NewRat(1, 2), SReal))
	m, tie := tt.FloorFrac(y)
	tie = tt.And(tie, tt.Eq(tt.IModF(m, tt.Intc(2)), tt.Intc(1)))
	m = tt.ISub(m, tt.Ite(tie, tt.Intc(1), tt.Intc(0)))
	if !w.cond(w.norm(tt.ICmp(OILt, m, tt.Intc(1<<53)))) {
		panic(unsupported("formatting a large symbolic float"))
	}
	t := w.symItoa(w.normInt(m, k64), k64)
	if s.prec > 0 {
		for strLen(t) <= s.prec {
			t = strConcat("0", t)
		}
		n := strLen(t) - s.prec
		t = strConcat(strConcat(strSlice(t, 0, n), "."), strSlice(t, n, strLen(t)))
	}
	sign := ""
	switch {
	case neg:
		sign = "-"
	case s.plus:
		sign = "+"
	case s.space:
		sign = " "
	}
	if s.zero && s.hasW && !s.minus {
		for strLen(t)+len(sign) < s.wid {
			t = strConcat("0", t)
		}
	}
	return w.pad(s, strConcat(sign, t))
}
