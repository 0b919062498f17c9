package main

import (
	"crypto/md5"
	"fmt"
	"go/types"
	"net"
	"strconv"
)

type md5Call struct {
	in  []value
	out []value
}

func initMiscIntrinsics() {
	I := intrinsics
	// md5 as a collision-free function: concrete inputs use the real digest
	I["crypto/md5.Sum"] = func(fr *frame, args []value) value {
		w := fr.w
		b := args[0].([]value)
		calls, _ := w.side["md5"].([]*md5Call)
		if s, ok := mkStr(b).(string); ok {
			sum := md5.Sum([]byte(s))
			out := make(arrayV, 16)
			for i := range sum {
				out[i] = int64(sum[i])
			}
			// still must agree with an earlier symbolic call on the same input
			for _, c := range calls {
				if len(c.in) == len(b) && w.cond(w.eqStr(mkStr(c.in), s)) {
					return copyVal(arrayV(c.out))
				}
			}
			w.side["md5"] = append(calls, &md5Call{append([]value(nil), b...), out})
			return copyVal(out)
		}
		for _, c := range calls {
			if len(c.in) == len(b) && w.cond(w.eqStr(mkStr(c.in), mkStr(b))) {
				return copyVal(arrayV(c.out))
			}
		}
		sum := md5.Sum([]byte(fmt.Sprintf("symbolic digest %d", len(calls))))
		out := make(arrayV, 16)
		for i := range sum {
			out[i] = int64(sum[i])
		}
		w.side["md5"] = append(calls, &md5Call{append([]value(nil), b...), out})
		w.approx = true // digests differ from the real ones
		return copyVal(out)
	}
	rnd := func(fr *frame, n value) value {
		w := fr.w
		k := kInt64
		if x, ok := n.(int64); ok && x <= 0 {
			panic(targetPanic{iface{types.Typ[types.String], "invalid argument to Intn"}})
		}
		t := w.newInput("rand", "int", w.intSort(k), k)
		w.defaultVal(t, mval{u: 0, r: ratZero})
		w.assume(w.intCmp(OSLe, k, int64(0), t))
		w.assume(w.intCmp(OSLt, k, t, n))
		w.approx = true // the native run draws its own numbers
		return t
	}
	for _, p := range []string{"math/rand", "math/rand/v2"} {
		for _, n := range []string{"Intn", "IntN", "Int63n", "Int64N"} {
			I[p+"."+n] = func(fr *frame, args []value) value { return rnd(fr, args[0]) }
		}
		I[p+".Int"] = func(fr *frame, args []value) value { return rnd(fr, int64(1)<<62) }
		I[p+".Int63"] = I[p+".Int"]
		I[p+".Seed"] = nop
		I[p+".Shuffle"] = func(fr *frame, args []value) value {
			w := fr.w
			n := w.concInt(args[0])
			for i := n - 1; i > 0; i-- {
				j := int64(w.choose(int(i+1), "shuffle"))
				w.call(fr, args[1], []value{i, j}, nil)
			}
			w.approx = true
			return nil
		}
		I[p+".Perm"] = func(fr *frame, args []value) value {
			w := fr.w
			n := int(w.concInt(args[0]))
			r := make([]value, n)
			for i := range r {
				j := w.choose(i+1, "perm")
				r[i] = r[j]
				r[j] = int64(i)
			}
			w.approx = true
			return r
		}
	}
	// number parsing of concrete text
	tryIntrinsics["strconv.ParseFloat"] = func(fr *frame, args []value) (value, bool) {
		s, ok := args[0].(string)
		bits, ok2 := args[1].(int64)
		if !ok || !ok2 {
			return nil, false
		}
		f, err := strconv.ParseFloat(s, int(bits))
		if err != nil {
			return tuple{f, fr.w.mkError(err.Error())}, true
		}
		return tuple{f, iface{}}, true
	}
	tryIntrinsics["strconv.FormatFloat"] = func(fr *frame, args []value) (value, bool) {
		f, ok := args[0].(float64)
		if !ok {
			return nil, false
		}
		return strconv.FormatFloat(f, byte(args[1].(int64)), int(args[2].(int64)), int(args[3].(int64))), true
	}
	bytesOf := func(b []byte) value {
		if b == nil {
			return []value(nil)
		}
		out := make([]value, len(b))
		for i, c := range b {
			out[i] = int64(c)
		}
		return out
	}
	I["net.IPv4"] = func(fr *frame, args []value) value {
		out := make([]value, 16)
		for i := range out {
			out[i] = int64(0)
		}
		out[10], out[11] = int64(255), int64(255)
		copy(out[12:], args)
		return out
	}
	I["net.ParseIP"] = func(fr *frame, args []value) value {
		s, ok := args[0].(string)
		if !ok {
			panic(unsupportedErr{"net.ParseIP of a symbolic text"})
		}
		return bytesOf(net.ParseIP(s))
	}
	I["(net.IP).String"] = func(fr *frame, args []value) value {
		v, _ := args[0].([]value)
		s, ok := mkStr(v).(string)
		if !ok {
			panic(unsupportedErr{"text of a symbolic IP address"})
		}
		return net.IP(s).String()
	}
	I["strconv.cloneString"] = func(fr *frame, args []value) value { return args[0] }
	// sort.Slice needs reflection for the swapper
	I["internal/reflectlite.Swapper"] = func(fr *frame, args []value) value {
		s := args[0].(iface).v.([]value)
		return &boundNative{"swapper", func(fr *frame, a []value) value {
			i, j := fr.w.concInt(a[0]), fr.w.concInt(a[1])
			x, y := copyVal(s[i]), copyVal(s[j])
			storeTo(&s[i], y)
			storeTo(&s[j], x)
			return nil
		}}
	}
	I["sort.Slice"] = func(fr *frame, args []value) value { sortSlice(fr, args); return nil }
	I["sort.SliceStable"] = I["sort.Slice"]
	initRegexp()
}

// sortSlice is an insertion sort driven by the interpreted less function.
func sortSlice(fr *frame, args []value) {
	s := args[0].(iface).v.([]value)
	less := func(i, j int) bool {
		return fr.w.cond(fr.w.call(fr, args[1], []value{int64(i), int64(j)}, nil))
	}
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			x, y := copyVal(s[j]), copyVal(s[j-1])
			storeTo(&s[j], y)
			storeTo(&s[j-1], x)
		}
	}
}
