package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type value = any

type structure []value
type arrayV []value
type tuple []value

type iface struct {
	t types.Type
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

type boundNative struct {
	name string
	f    func(fr *frame, args []value) value
}

type symStr struct{ b []value } // bytes: int64 or *Term

type symPtr struct {
	base []value
	idx  *Term // element index, in range
	elem types.Type
	w    *Worker
}

type symComplex struct{ re, im value }

// unsafe data handles
type sliceData struct{ s []value }
type strData struct{ s value }

type hostObj struct{ v any } // native object behind a pointer

type fatalErr struct{ msg string }

// kinds
type kclass uint8

const (
	kOther kclass = iota
	kBool
	kInt
	kFloat
	kString
	kComplex
	kIface
)

type kind struct {
	c      kclass
	w      int // bits
	signed bool
}

func kindOf(t types.Type) kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return kind{c: kBool}
		case types.Int, types.Int64, types.UntypedInt:
			return kind{kInt, 64, true}
		case types.Int8:
			return kind{kInt, 8, true}
		case types.Int16:
			return kind{kInt, 16, true}
		case types.Int32, types.UntypedRune:
			return kind{kInt, 32, true}
		case types.Uint, types.Uint64, types.Uintptr:
			return kind{kInt, 64, false}
		case types.Uint8:
			return kind{kInt, 8, false}
		case types.Uint16:
			return kind{kInt, 16, false}
		case types.Uint32:
			return kind{kInt, 32, false}
		case types.Float32:
			return kind{kFloat, 32, true}
		case types.Float64, types.UntypedFloat:
			return kind{kFloat, 64, true}
		case types.Complex64:
			return kind{kComplex, 64, true}
		case types.Complex128, types.UntypedComplex:
			return kind{kComplex, 128, true}
		case types.String, types.UntypedString:
			return kind{c: kString}
		}
	case *types.Interface:
		return kind{c: kIface}
	}
	return kind{}
}

func wrapInt(k kind, x int64) int64 {
	switch k.w {
	case 64:
		return x
	case 32:
		if k.signed {
			return int64(int32(x))
		}
		return int64(uint32(x))
	case 16:
		if k.signed {
			return int64(int16(x))
		}
		return int64(uint16(x))
	case 8:
		if k.signed {
			return int64(int8(x))
		}
		return int64(uint8(x))
	}
	return x
}

func zero(t types.Type) value {
	switch u := t.(type) {
	case *types.Named, *types.Alias:
		return zero(t.Underlying())
	case *types.Basic:
		switch k := kindOf(u); k.c {
		case kBool:
			return false
		case kInt:
			return int64(0)
		case kFloat:
			if k.w == 32 {
				return float32(0)
			}
			return float64(0)
		case kString:
			return ""
		case kComplex:
			return complex128(0)
		}
		if u.Kind() == types.UnsafePointer {
			return (*value)(nil)
		}
		if u.Kind() == types.UntypedNil {
			return nil
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		n := u.Len()
		a := make(arrayV, n)
		if n > 0 {
			if isScalar(u.Elem()) {
				z := zero(u.Elem())
				for i := range a {
					a[i] = z
				}
			} else {
				for i := range a {
					a[i] = zero(u.Elem())
				}
			}
		}
		return a
	case *types.Struct:
		s := make(structure, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Interface:
		return iface{}
	case *types.Slice:
		return []value(nil)
	case *types.Map:
		return (*mapObj)(nil)
	case *types.Chan:
		return (*chanObj)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Tuple:
		if u.Len() == 1 {
			return zero(u.At(0).Type())
		}
		s := make(tuple, u.Len())
		for i := range s {
			s[i] = zero(u.At(i).Type())
		}
		return s
	case *types.TypeParam:
		panic(unsupported("zero of type parameter"))
	}
	panic(unsupported(fmt.Sprintf("zero value of %v", t)))
}

func isScalar(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return false
	}
	return true
}

// copyVal makes a copy of aggregates (value semantics).
func copyVal(v value) value {
	switch x := v.(type) {
	case structure:
		c := make(structure, len(x))
		for i, e := range x {
			switch e.(type) {
			case structure, arrayV:
				c[i] = copyVal(e)
			default:
				c[i] = e
			}
		}
		return c
	case arrayV:
		c := make(arrayV, len(x))
		for i, e := range x {
			switch e.(type) {
			case structure, arrayV:
				c[i] = copyVal(e)
			default:
				c[i] = e
			}
		}
		return c
	}
	return v
}

// storeTo keeps the identity of nested cells.
func storeTo(p *value, v value) {
	switch x := v.(type) {
	case structure:
		if d, ok := (*p).(structure); ok && len(d) == len(x) {
			for i := range x {
				storeTo(&d[i], x[i])
			}
			return
		}
		*p = copyVal(v)
	case arrayV:
		if d, ok := (*p).(arrayV); ok && len(d) == len(x) {
			for i := range x {
				storeTo(&d[i], x[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

// ---- strings

func strLen(v value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *symStr:
		return len(s.b)
	}
	panic(unsupported(fmt.Sprintf("strLen %T", v)))
}

func strBytes(v value) []value {
	switch s := v.(type) {
	case string:
		b := make([]value, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = int64(s[i])
		}
		return b
	case *symStr:
		return s.b
	}
	panic(unsupported(fmt.Sprintf("strBytes %T", v)))
}

func strAt(v value, i int) value {
	switch s := v.(type) {
	case string:
		return int64(s[i])
	case *symStr:
		return s.b[i]
	}
	panic("strAt")
}

// mkStr normalises to a Go string if every byte is concrete.
func mkStr(b []value) value {
	for _, x := range b {
		if _, ok := x.(int64); !ok {
			return &symStr{b: append([]value(nil), b...)}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.(int64))
	}
	return string(bs)
}

func strSlice(v value, lo, hi int) value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *symStr:
		return mkStr(s.b[lo:hi])
	}
	panic("strSlice")
}

func strConcat(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	return mkStr(append(append([]value(nil), strBytes(a)...), strBytes(b)...))
}

// ---- equality

// eqVal returns bool or *Term.
func (w *Worker) eqVal(x, y value) value {
	switch a := x.(type) {
	case int64:
		switch b := y.(type) {
		case int64:
			return a == b
		case *Term:
			return w.norm(w.tt.Eq(b, w.constLike(a, b.sort)))
		}
	case bool:
		switch b := y.(type) {
		case bool:
			return a == b
		case *Term:
			return w.norm(w.tt.Eq(b, w.tt.Bool(a)))
		}
	case string:
		switch b := y.(type) {
		case string:
			return a == b
		case *symStr:
			return w.eqStr(a, b)
		}
	case *symStr:
		return w.eqStr(a, y)
	case float64:
		switch b := y.(type) {
		case float64:
			return a == b
		case *Term:
			return w.floatCmp(OFEq, x, y, 64)
		}
	case float32:
		switch b := y.(type) {
		case float32:
			return a == b
		case *Term:
			return w.floatCmp(OFEq, x, y, 32)
		}
	case *Term:
		if a.sort.isFP() || a.sort == SReal {
			k := 64
			if a.sort == SF32 {
				k = 32
			}
			return w.floatCmp(OFEq, x, y, k)
		}
		switch b := y.(type) {
		case int64:
			return w.norm(w.tt.Eq(a, w.constLike(b, a.sort)))
		case bool:
			return w.norm(w.tt.Eq(a, w.tt.Bool(b)))
		case *Term:
			return w.norm(w.tt.Eq(a, b))
		}
	case complex128:
		if b, ok := y.(complex128); ok {
			return a == b
		}
		return w.eqComplex(x, y)
	case *symComplex:
		return w.eqComplex(x, y)
	case structure:
		b := y.(structure)
		var r value = true
		for i := range a {
			r = w.andVal(r, w.eqVal(a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case arrayV:
		b := y.(arrayV)
		var r value = true
		for i := range a {
			r = w.andVal(r, w.eqVal(a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case iface:
		b, ok := y.(iface)
		if !ok {
			panic(unsupported("iface compare"))
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if !types.Identical(a.t, b.t) {
			return false
		}
		if !types.Comparable(a.t) {
			panic(targetPanic{w.rtError("runtime error: comparing uncomparable type " + a.t.String())})
		}
		return w.eqVal(a.v, b.v)
	case *value:
		switch b := y.(type) {
		case *value:
			return a == b
		case *symPtr:
			return w.eqVal(b.resolve(), a)
		}
		return false
	case *symPtr:
		return w.eqVal(a.resolve(), y)
	case *mapObj:
		return a == y.(*mapObj)
	case *chanObj:
		return a == y.(*chanObj)
	case []value:
		if b, ok := y.([]value); ok {
			if a == nil || b == nil {
				return a == nil && b == nil
			}
		}
		if y == nil {
			return a == nil
		}
	case *ssa.Function:
		switch b := y.(type) {
		case *ssa.Function:
			return a == b
		}
		return a == nil && isNilFunc(y)
	case *closure, *boundNative, *ssa.Builtin:
		return isNilFunc(y) && isNilFunc(x)
	case nil:
		return isNilVal(y)
	}
	if y == nil {
		return isNilVal(x)
	}
	panic(unsupported(fmt.Sprintf("equality of %T and %T", x, y)))
}

func isNilFunc(v value) bool {
	switch f := v.(type) {
	case *ssa.Function:
		return f == nil
	case nil:
		return true
	}
	return false
}

func isNilVal(v value) bool {
	switch f := v.(type) {
	case *ssa.Function:
		return f == nil
	case nil:
		return true
	case *value:
		return f == nil
	case []value:
		return f == nil
	case *mapObj:
		return f == nil
	case *chanObj:
		return f == nil
	case iface:
		return f.t == nil
	}
	return false
}

func (w *Worker) eqComplex(x, y value) value {
	a, b := toSymComplex(x), toSymComplex(y)
	return w.andVal(w.eqVal(a.re, b.re), w.eqVal(a.im, b.im))
}

func toSymComplex(x value) *symComplex {
	switch c := x.(type) {
	case complex128:
		return &symComplex{real(c), imag(c)}
	case *symComplex:
		return c
	}
	panic(unsupported("complex"))
}

func normComplex(re, im value) value {
	a, ok1 := re.(float64)
	b, ok2 := im.(float64)
	if ok1 && ok2 {
		return complex(a, b)
	}
	return &symComplex{re, im}
}

func (w *Worker) eqStr(x, y value) value {
	if strLen(x) != strLen(y) {
		return false
	}
	a, b := strBytes(x), strBytes(y)
	var r value = true
	for i := 0; i < len(a); {
		e, n := w.eqNumerals(a[i:], b[i:])
		if n == 0 {
			e, n = w.eqVal(a[i], b[i]), 1
		}
		r = w.andVal(r, e)
		if r == false {
			return false
		}
		i += n
	}
	return r
}

// ltStr: lexicographic x < y
func (w *Worker) ltStr(x, y value) value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a < b
		}
	}
	a, b := strBytes(x), strBytes(y)
	n := min(len(a), len(b))
	var r value = len(a) < len(b)
	k := kind{kInt, 8, false}
	for i := n - 1; i >= 0; i-- {
		lt := w.intCmp(OULt, k, a[i], b[i])
		eq := w.eqVal(a[i], b[i])
		r = w.orVal(lt, w.andVal(eq, r))
	}
	return r
}

func (w *Worker) andVal(a, b value) value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return w.norm(w.tt.And(a.(*Term), b.(*Term)))
}

func (w *Worker) orVal(a, b value) value {
	if x, ok := a.(bool); ok {
		if x {
			return true
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if y {
			return true
		}
		return a
	}
	return w.norm(w.tt.Or(a.(*Term), b.(*Term)))
}

func (w *Worker) notVal(a value) value {
	if x, ok := a.(bool); ok {
		return !x
	}
	return w.norm(w.tt.Not(a.(*Term)))
}

// norm turns constant terms of sort Bool into Go bools.
func (w *Worker) norm(t *Term) value {
	if t.op == OConst && t.sort == SBool {
		return t.k == 1
	}
	return t
}

// normInt turns constant terms back into canonical int64.
func (w *Worker) normInt(t *Term, k kind) value {
	if t.op == OConst {
		if t.sort == SInt {
			return wrapInt(k, t.r.Num().Int64())
		}
		if k.signed {
			return sext(t.k, t.sort.width())
		}
		return int64(t.k)
	}
	return t
}

func (w *Worker) normFloat(t *Term) value {
	if t.op == OConst {
		switch t.sort {
		case SF32:
			return math.Float32frombits(uint32(t.k))
		case SF64:
			return math.Float64frombits(t.k)
		case SReal:
			f, exact := t.r.Float64()
			if exact {
				return f
			}
		}
	}
	return t
}

// ---- maps

type mapEntry struct {
	k, v value
	dead bool
}

type mapObj struct {
	ents  []*mapEntry
	index map[any]int
	sym   int // number of live entries with symbolic keys
	live  int
	cell  value // identity for race detection
}

func newMap() *mapObj { return &mapObj{index: map[any]int{}} }

type ifaceKey struct {
	t string
	k any
}

// keyOf returns a comparable Go key for a fully concrete value.
func keyOf(v value) (any, bool) {
	switch x := v.(type) {
	case int64, bool, string, float64, float32, complex128, *value, *chanObj:
		return x, true
	case structure:
		return aggKey(x)
	case arrayV:
		return aggKey(x)
	case iface:
		if x.t == nil {
			return nil, true
		}
		k, ok := keyOf(x.v)
		if !ok {
			return nil, false
		}
		return ifaceKey{x.t.String(), k}, true
	case *hostObj:
		return x, true
	}
	return nil, false
}

func aggKey(x []value) (any, bool) {
	var sb strings.Builder
	for _, e := range x {
		k, ok := keyOf(e)
		if !ok {
			return nil, false
		}
		fmt.Fprintf(&sb, "%T:%v|", k, k)
	}
	return "agg:" + sb.String(), true
}

func (w *Worker) mapFind(m *mapObj, k value) int {
	if m == nil {
		return -1
	}
	key, ok := keyOf(k)
	if ok {
		if f, isF := k.(float64); isF && f != f {
			return -1
		}
		if i, found := m.index[key]; found {
			return i
		}
		if m.sym == 0 {
			return -1
		}
	}
	for i, e := range m.ents {
		if e.dead {
			continue
		}
		if ok {
			if _, conc := keyOf(e.k); conc {
				continue
			}
		}
		if w.cond(w.eqVal(k, e.k)) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapSet(m *mapObj, k, v value) {
	if i := w.mapFind(m, k); i >= 0 {
		m.ents[i].v = v
		return
	}
	k = copyVal(k)
	m.ents = append(m.ents, &mapEntry{k: k, v: v})
	m.live++
	if key, ok := keyOf(k); ok {
		m.index[key] = len(m.ents) - 1
	} else {
		m.sym++
	}
}

func (w *Worker) mapDelete(m *mapObj, k value) {
	if m == nil {
		return
	}
	i := w.mapFind(m, k)
	if i < 0 {
		return
	}
	e := m.ents[i]
	e.dead = true
	m.live--
	if key, ok := keyOf(e.k); ok {
		delete(m.index, key)
	} else {
		m.sym--
	}
}

// ---- symbolic pointers

func (p *symPtr) resolve() *value {
	i := p.w.concretize(p.idx, kind{kInt, 64, true}).(int64)
	return &p.base[i]
}

// tableRuns splits a table of concrete values into runs of equal values: the ends of the runs.
// The result is nil when the table is not concrete or has too many runs.
func tableRuns(s []value) []int {
	if len(s) < 2 || len(s) > 4096 {
		return nil
	}
	var r []int
	for i, v := range s {
		switch v.(type) {
		case int64, bool:
		default:
			return nil
		}
		if i > 0 && v != s[i-1] {
			if r = append(r, i); len(r) > 24 {
				return nil
			}
		}
	}
	return append(r, len(s))
}

func (w *Worker) loadSym(p *symPtr) value {
	if runs := tableRuns(p.base); runs != nil {
		r := p.base[len(p.base)-1]
		ok := true
		for i := len(runs) - 2; i >= 0 && ok; i-- {
			var c value = w.intCmp(OSLt, kInt64, p.idx, int64(runs[i]))
			if b, conc := c.(bool); conc {
				c = w.tt.Bool(b)
			}
			r, ok = w.iteTyped(c.(*Term), p.base[runs[i]-1], r, p.elem)
		}
		if ok {
			return r
		}
	}
	// ite chain over scalars; falls back to concretisation when not mergeable
	if len(p.base) > 0 {
		r := p.base[len(p.base)-1]
		ok := true
		for i := len(p.base) - 2; i >= 0 && ok; i-- {
			c := w.tt.Eq(p.idx, w.constLike(int64(i), p.idx.sort))
			r, ok = w.iteTyped(c, p.base[i], r, p.elem)
		}
		if ok {
			return r
		}
	}
	return copyVal(*p.resolve())
}

func (w *Worker) storeSym(p *symPtr, v value) {
	nv := make([]value, len(p.base))
	ok := true
	for i := range p.base {
		c := w.tt.Eq(p.idx, w.constLike(int64(i), p.idx.sort))
		nv[i], ok = w.iteTyped(c, v, p.base[i], p.elem)
		if !ok {
			storeTo(p.resolve(), v)
			return
		}
	}
	if w.regionDepth > 0 {
		for i := range p.base {
			w.logStore(&p.base[i], nv[i], p.elem)
		}
		return
	}
	copy(p.base, nv)
}

// iteVal merges two scalar values; ok is false when they cannot be merged.
func (w *Worker) iteVal(c *Term, a, b value) (value, bool) {
	if c.isConst() {
		if c.k == 1 {
			return a, true
		}
		return b, true
	}
	switch x := a.(type) {
	case int64:
		switch y := b.(type) {
		case int64:
			if x == y {
				return x, true
			}
			return nil, false // width unknown
		case *Term:
			if y.sort == SBool {
				return nil, false
			}
			return w.tt.Ite(c, w.constLike(x, y.sort), y), true
		}
	case bool:
		switch y := b.(type) {
		case bool:
			if x == y {
				return x, true
			}
			return w.norm(w.tt.Ite(c, w.tt.Bool(x), w.tt.Bool(y))), true
		case *Term:
			return w.norm(w.tt.Ite(c, w.tt.Bool(x), y)), true
		}
	case float64:
		switch b.(type) {
		case float64, *Term:
			if x == b {
				return x, true
			}
			return w.tt.Ite(c, w.toFloat(a, 64), w.toFloat(b, 64)), true
		}
	case float32:
		switch b.(type) {
		case float32, *Term:
			if x == b {
				return x, true
			}
			return w.tt.Ite(c, w.toFloat(a, 32), w.toFloat(b, 32)), true
		}
	case string:
		if y, ok := b.(string); ok && x == y {
			return x, true
		}
	case *Term:
		switch y := b.(type) {
		case int64:
			return w.tt.Ite(c, x, w.constLike(y, x.sort)), true
		case bool:
			return w.norm(w.tt.Ite(c, x, w.tt.Bool(y))), true
		case float64:
			return w.tt.Ite(c, x, w.toFloat(b, 64)), true
		case float32:
			return w.tt.Ite(c, x, w.toFloat(b, 32)), true
		case *Term:
			if x.sort == y.sort {
				if x.sort == SBool {
					return w.norm(w.tt.Ite(c, x, y)), true
				}
				return w.tt.Ite(c, x, y), true
			}
		}
	case structure:
		if y, ok := b.(structure); ok && len(x) == len(y) {
			r := make(structure, len(x))
			for i := range x {
				var ok bool
				if r[i], ok = w.iteVal(c, x[i], y[i]); !ok {
					return nil, false
				}
			}
			return r, true
		}
	case *value:
		if y, ok := b.(*value); ok && x == y {
			return x, true
		}
	case iface:
		if y, ok := b.(iface); ok && x.t == nil && y.t == nil {
			return x, true
		}
	}
	return nil, false
}

// iteTyped merges two values of a known type (int widths are known).
func (w *Worker) iteTyped(c *Term, a, b value, t types.Type) (value, bool) {
	k := kindOf(t)
	if k.c == kInt {
		x, ok1 := a.(int64)
		y, ok2 := b.(int64)
		if ok1 && ok2 && x != y {
			return w.tt.Ite(c, w.toInt(x, k), w.toInt(y, k)), true
		}
	}
	return w.iteVal(c, a, b)
}
