package main

// regexp: compiled on the host; matching concrete text uses the host, symbolic text a backtracking
// matcher with leftmost-first semantics over the compiled program, forking on undecided characters.

import (
	"go/types"
	"regexp"
	"regexp/syntax"
)

type hostRegexp struct {
	re   *regexp.Regexp
	prog *syntax.Prog
	ncap int
}

func initRegexp() {
	I := intrinsics
	compile := func(fr *frame, s value) (*value, error) {
		str, ok := s.(string)
		if !ok {
			panic(unsupported("symbolic regular expression"))
		}
		re, err := regexp.Compile(str)
		if err != nil {
			return nil, err
		}
		p, err := syntax.Parse(str, syntax.Perl)
		if err != nil {
			return nil, err
		}
		n := p.MaxCap()
		prog, err := syntax.Compile(p.Simplify())
		if err != nil {
			return nil, err
		}
		c := new(value)
		*c = &hostObj{&hostRegexp{re, prog, n}}
		return c, nil
	}
	I["regexp.MustCompile"] = func(fr *frame, args []value) value {
		c, err := compile(fr, args[0])
		if err != nil {
			panic(targetPanic{iface{types.Typ[types.String], err.Error()}})
		}
		return c
	}
	I["regexp.Compile"] = func(fr *frame, args []value) value {
		c, err := compile(fr, args[0])
		if err != nil {
			return tuple{(*value)(nil), fr.w.mkError(err.Error())}
		}
		return tuple{c, iface{}}
	}
	I["regexp.QuoteMeta"] = func(fr *frame, args []value) value { return regexp.QuoteMeta(args[0].(string)) }
	get := func(fr *frame, v value) *hostRegexp { return (*ptrOf(fr, v)).(*hostObj).v.(*hostRegexp) }
	type mode struct {
		bytes, all, sub, index, match bool
	}
	reg := func(name string, m mode) {
		I["(*regexp.Regexp)."+name] = func(fr *frame, args []value) value {
			w := fr.w
			h := get(fr, args[0])
			var s value = args[1]
			if m.bytes {
				if w.raceOn {
					w.raceSlice(fr, args[1].([]value), false)
				}
				s = mkStr(args[1].([]value))
			}
			n := 1
			if m.all {
				n = int(w.concInt(args[2]))
				if n < 0 {
					n = strLen(s) + 1
				}
			}
			ms := w.regexAll(h, s, n)
			if m.match {
				return len(ms) > 0
			}
			sub := func(l, r int) value {
				if m.bytes {
					if l < 0 {
						return []value(nil)
					}
					return args[1].([]value)[l:r:r]
				}
				if l < 0 {
					return ""
				}
				return strSlice(s, l, r)
			}
			one := func(loc []int) value {
				switch {
				case m.index:
					k := 2
					if m.sub {
						k = len(loc)
					}
					r := make([]value, k)
					for i := range r {
						r[i] = int64(loc[i])
					}
					return r
				case m.sub:
					r := make([]value, len(loc)/2)
					for i := range r {
						r[i] = sub(loc[2*i], loc[2*i+1])
					}
					return r
				}
				return sub(loc[0], loc[1])
			}
			if !m.all {
				if len(ms) == 0 {
					if m.index || m.sub || m.bytes {
						return []value(nil)
					}
					return ""
				}
				return one(ms[0])
			}
			if len(ms) == 0 {
				return []value(nil)
			}
			r := make([]value, len(ms))
			for i := range r {
				r[i] = one(ms[i])
			}
			return r
		}
	}
	reg("MatchString", mode{match: true})
	reg("Match", mode{match: true, bytes: true})
	reg("FindString", mode{})
	reg("Find", mode{bytes: true})
	reg("FindStringIndex", mode{index: true})
	reg("FindIndex", mode{index: true, bytes: true})
	reg("FindStringSubmatch", mode{sub: true})
	reg("FindSubmatch", mode{sub: true, bytes: true})
	reg("FindStringSubmatchIndex", mode{sub: true, index: true})
	reg("FindSubmatchIndex", mode{sub: true, index: true, bytes: true})
	reg("FindAllString", mode{all: true})
	reg("FindAll", mode{all: true, bytes: true})
	reg("FindAllStringIndex", mode{all: true, index: true})
	reg("FindAllIndex", mode{all: true, index: true, bytes: true})
	reg("FindAllStringSubmatch", mode{all: true, sub: true})
	reg("FindAllSubmatch", mode{all: true, sub: true, bytes: true})
	reg("FindAllStringSubmatchIndex", mode{all: true, sub: true, index: true})
	reg("FindAllSubmatchIndex", mode{all: true, sub: true, index: true, bytes: true})
	I["(*regexp.Regexp).String"] = func(fr *frame, args []value) value { return get(fr, args[0]).re.String() }
}

func (w *Worker) regexAll(h *hostRegexp, s value, n int) [][]int {
	if n == 0 {
		return nil
	}
	if str, ok := s.(string); ok {
		return h.re.FindAllStringSubmatchIndex(str, n)
	}
	var out [][]int
	pos, prevEnd := 0, -1
	for len(out) < n && pos <= strLen(s) {
		m := w.regexFrom(h, s, pos)
		if m == nil {
			break
		}
		accept := true
		if m[1] == pos {
			if m[0] == prevEnd {
				accept = false
			}
			pos = m[1] + 1
		} else {
			pos = m[1]
		}
		if m[1] > m[0] {
			pos = m[1]
		}
		prevEnd = m[1]
		if accept {
			out = append(out, m)
		}
	}
	return out
}

// regexFrom finds the leftmost-first match starting at or after pos.
func (w *Worker) regexFrom(h *hostRegexp, s value, pos int) []int {
	n := strLen(s)
	for start := pos; start <= n; start++ {
		type key struct{ pc, i int }
		visited := map[key]bool{}
		caps := make([]int, 2*(h.ncap+1))
		for i := range caps {
			caps[i] = -1
		}
		caps[0] = start
		var run func(pc, i int) []int
		run = func(pc, i int) []int {
			for {
				k := key{pc, i}
				if visited[k] {
					return nil
				}
				visited[k] = true
				in := &h.prog.Inst[pc]
				switch in.Op {
				case syntax.InstFail:
					return nil
				case syntax.InstMatch:
					r := append([]int(nil), caps...)
					r[1] = i
					return r
				case syntax.InstNop:
					pc = int(in.Out)
				case syntax.InstCapture:
					c := int(in.Arg)
					if c < len(caps) {
						old := caps[c]
						caps[c] = i
						if r := run(int(in.Out), i); r != nil {
							return r
						}
						caps[c] = old
						return nil
					}
					pc = int(in.Out)
				case syntax.InstAlt, syntax.InstAltMatch:
					if r := run(int(in.Out), i); r != nil {
						return r
					}
					pc = int(in.Arg)
				case syntax.InstEmptyWidth:
					if !w.regexEmpty(syntax.EmptyOp(in.Arg), s, i) {
						return nil
					}
					pc = int(in.Out)
				case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
					if i >= n {
						return nil
					}
					c, sz := w.decodeRune(s, i)
					if !w.regexRune(in, c) {
						return nil
					}
					pc = int(in.Out)
					i += sz
				}
			}
		}
		if r := run(h.prog.Start, start); r != nil {
			return r
		}
	}
	return nil
}

func (w *Worker) regexRune(in *syntax.Inst, c value) bool {
	if r, ok := c.(int64); ok {
		switch in.Op {
		case syntax.InstRuneAny:
			return true
		case syntax.InstRuneAnyNotNL:
			return r != '\n'
		}
		return in.MatchRune(rune(r))
	}
	k := kind{kInt, 32, true}
	switch in.Op {
	case syntax.InstRuneAny:
		return true
	case syntax.InstRuneAnyNotNL:
		return w.cond(w.notVal(w.eqVal(c, int64('\n'))))
	}
	if len(in.Rune) == 1 && syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
		panic(unsupported("case folding in a symbolic regular expression match"))
	}
	var r value = false
	if len(in.Rune) == 1 {
		r = w.eqVal(c, int64(in.Rune[0]))
	} else {
		for i := 0; i+1 < len(in.Rune); i += 2 {
			lo, hi := int64(in.Rune[i]), int64(in.Rune[i+1])
			r = w.orVal(r, w.andVal(w.intCmp(OSLe, k, lo, c), w.intCmp(OSLe, k, c, hi)))
		}
	}
	return w.cond(r)
}

func (w *Worker) regexEmpty(op syntax.EmptyOp, s value, i int) bool {
	n := strLen(s)
	isWord := func(j int) value {
		if j < 0 || j >= n {
			return false
		}
		k := kind{kInt, 8, false}
		c := strAt(s, j)
		rg := func(lo, hi int64) value { return w.andVal(w.intCmp(OULe, k, lo, c), w.intCmp(OULe, k, c, hi)) }
		return w.orVal(w.orVal(rg('0', '9'), rg('A', 'Z')), w.orVal(rg('a', 'z'), w.eqVal(c, int64('_'))))
	}
	isNL := func(j int) bool { return w.cond(w.eqVal(strAt(s, j), int64('\n'))) }
	for _, o := range []syntax.EmptyOp{syntax.EmptyBeginLine, syntax.EmptyEndLine, syntax.EmptyBeginText, syntax.EmptyEndText, syntax.EmptyWordBoundary, syntax.EmptyNoWordBoundary} {
		if op&o == 0 {
			continue
		}
		ok := false
		switch o {
		case syntax.EmptyBeginText:
			ok = i == 0
		case syntax.EmptyEndText:
			ok = i == n
		case syntax.EmptyBeginLine:
			ok = i == 0 || isNL(i-1)
		case syntax.EmptyEndLine:
			ok = i == n || isNL(i)
		case syntax.EmptyWordBoundary, syntax.EmptyNoWordBoundary:
			a, b := w.cond(isWord(i-1)), w.cond(isWord(i))
			ok = (a != b) == (o == syntax.EmptyWordBoundary)
		}
		if !ok {
			return false
		}
	}
	return true
}
