package main

import (
	"fmt"
	"go/token"
	"go/types"
)

const (
	tokADD = token.ADD
	tokSUB = token.SUB
	tokMUL = token.MUL
	tokQUO = token.QUO
	tokREM = token.REM
	tokLSS = token.LSS
)

type wgSt struct{ n int64 }
type condSt struct{ waiters []*waiter }

func initSyncIntrinsics() {
	I := intrinsics
	I["(*sync.Mutex).Lock"] = func(fr *frame, args []value) value { fr.w.lock(fr, ptrOf(fr, args[0])); return nil }
	I["(*sync.Mutex).Unlock"] = func(fr *frame, args []value) value { fr.w.unlock(fr, ptrOf(fr, args[0])); return nil }
	I["(*sync.Mutex).TryLock"] = func(fr *frame, args []value) value {
		w := fr.w
		p := ptrOf(fr, args[0])
		w.yield(fr, "trylock")
		m := w.mutex(p)
		if m.locked || m.readers > 0 {
			return false
		}
		m.locked = true
		w.acquire(p)
		return true
	}
	I["(*sync.RWMutex).Lock"] = func(fr *frame, args []value) value {
		w := fr.w
		if w.inInit > 0 {
			return nil
		}
		p := ptrOf(fr, args[0])
		w.yield(fr, "lock")
		m := w.mutex(p)
		m.waitW++
		w.block(fr, "lock", func() bool { return !m.locked && m.readers == 0 })
		m.waitW--
		m.locked = true
		w.acquire(p)
		return nil
	}
	I["(*sync.RWMutex).Unlock"] = I["(*sync.Mutex).Unlock"]
	I["(*sync.RWMutex).RLock"] = func(fr *frame, args []value) value {
		w := fr.w
		if w.inInit > 0 {
			return nil
		}
		p := ptrOf(fr, args[0])
		w.yield(fr, "rlock")
		m := w.mutex(p)
		w.block(fr, "rlock", func() bool { return !m.locked && m.waitW == 0 })
		m.readers++
		w.acquire(p)
		return nil
	}
	I["(*sync.RWMutex).RUnlock"] = func(fr *frame, args []value) value {
		w := fr.w
		if w.inInit > 0 {
			return nil
		}
		p := ptrOf(fr, args[0])
		m := w.mutex(p)
		if m.readers == 0 {
			panic(targetPanic{iface{types.Typ[types.String], "fatal error: sync: RUnlock of unlocked RWMutex"}})
		}
		w.release(p)
		m.readers--
		w.yield(fr, "runlock")
		return nil
	}
	// Once: serialised by a lock on the Once itself
	I["(*sync.Once).Do"] = func(fr *frame, args []value) value {
		w := fr.w
		p := ptrOf(fr, args[0])
		key := [2]any{"once", p}
		if w.inInit > 0 {
			if w.side[key] == nil {
				w.side[key] = true
				w.call(fr, args[1], nil, nil)
			}
			return nil
		}
		w.lock(fr, p)
		defer w.unlock(fr, p)
		if w.side[key] == nil {
			w.side[key] = true
			w.call(fr, args[1], nil, nil)
		}
		return nil
	}
	I["(*sync.Once).doSlow"] = I["(*sync.Once).Do"]
	wg := func(w *Worker, p *value) *wgSt {
		key := [2]any{"wg", p}
		s, _ := w.side[key].(*wgSt)
		if s == nil {
			s = &wgSt{}
			w.side[key] = s
		}
		return s
	}
	add := func(fr *frame, p *value, d int64) {
		w := fr.w
		w.yield(fr, "waitgroup")
		s := wg(w, p)
		s.n += d
		if s.n < 0 {
			panic(targetPanic{iface{types.Typ[types.String], "sync: negative WaitGroup counter"}})
		}
		if d < 0 {
			w.release(p)
		}
	}
	I["(*sync.WaitGroup).Add"] = func(fr *frame, args []value) value {
		add(fr, ptrOf(fr, args[0]), fr.w.concInt(args[1]))
		return nil
	}
	I["(*sync.WaitGroup).Done"] = func(fr *frame, args []value) value { add(fr, ptrOf(fr, args[0]), -1); return nil }
	I["(*sync.WaitGroup).Wait"] = func(fr *frame, args []value) value {
		w := fr.w
		p := ptrOf(fr, args[0])
		w.yield(fr, "wait")
		s := wg(w, p)
		w.block(fr, "WaitGroup.Wait", func() bool { return s.n == 0 })
		w.acquire(p)
		return nil
	}
	// Cond: field L is looked up by the interpreted NewCond
	I["(*sync.Cond).Wait"] = func(fr *frame, args []value) value {
		w := fr.w
		p := ptrOf(fr, args[0])
		l := condLocker(p)
		key := [2]any{"cond", p}
		s, _ := w.side[key].(*condSt)
		if s == nil {
			s = &condSt{}
			w.side[key] = s
		}
		wt := &waiter{g: w.curG()}
		s.waiters = append(s.waiters, wt)
		w.callFn(fr, w.eng.lookupMethod(l.t, "Unlock"), []value{l.v}, nil)
		w.block(fr, "Cond.Wait", func() bool { return wt.done })
		w.acquire(p)
		w.callFn(fr, w.eng.lookupMethod(l.t, "Lock"), []value{l.v}, nil)
		return nil
	}
	sig := func(all bool) intrinsic {
		return func(fr *frame, args []value) value {
			w := fr.w
			p := ptrOf(fr, args[0])
			w.yield(fr, "signal")
			w.release(p)
			if s, _ := w.side[[2]any{"cond", p}].(*condSt); s != nil {
				for len(s.waiters) > 0 {
					s.waiters[0].done = true
					s.waiters = s.waiters[1:]
					if !all {
						break
					}
				}
			}
			return nil
		}
	}
	I["(*sync.Cond).Signal"], I["(*sync.Cond).Broadcast"] = sig(false), sig(true)
	// Pool: never reuses
	I["(*sync.Pool).Get"] = func(fr *frame, args []value) value {
		p := ptrOf(fr, args[0])
		s := (*p).(structure)
		nf := s[len(s)-1]
		if isNilFunc(nf) {
			return iface{}
		}
		return fr.w.call(fr, nf, nil, nil)
	}
	I["(*sync.Pool).Put"] = nop
	// sync.Map: key -> value with the interpreter's map
	smap := func(fr *frame, v value) *mapObj {
		w := fr.w
		p := ptrOf(fr, v)
		w.yield(fr, "sync.Map")
		w.acquire(p)
		w.release(p)
		key := [2]any{"smap", p}
		m, _ := w.side[key].(*mapObj)
		if m == nil {
			m = newMap()
			w.side[key] = m
		}
		return m
	}
	I["(*sync.Map).Load"] = func(fr *frame, args []value) value {
		m := smap(fr, args[0])
		if i := fr.w.mapFind(m, args[1]); i >= 0 {
			return tuple{m.ents[i].v, true}
		}
		return tuple{iface{}, false}
	}
	I["(*sync.Map).Store"] = func(fr *frame, args []value) value {
		fr.w.mapSet(smap(fr, args[0]), args[1], args[2])
		return nil
	}
	I["(*sync.Map).LoadOrStore"] = func(fr *frame, args []value) value {
		m := smap(fr, args[0])
		if i := fr.w.mapFind(m, args[1]); i >= 0 {
			return tuple{m.ents[i].v, true}
		}
		fr.w.mapSet(m, args[1], args[2])
		return tuple{args[2], false}
	}
	I["(*sync.Map).Delete"] = func(fr *frame, args []value) value { fr.w.mapDelete(smap(fr, args[0]), args[1]); return nil }
	I["(*sync.Map).LoadAndDelete"] = func(fr *frame, args []value) value {
		m := smap(fr, args[0])
		if i := fr.w.mapFind(m, args[1]); i >= 0 {
			v := m.ents[i].v
			fr.w.mapDelete(m, args[1])
			return tuple{v, true}
		}
		return tuple{iface{}, false}
	}
	I["(*sync.Map).Range"] = func(fr *frame, args []value) value {
		m := smap(fr, args[0])
		for _, e := range append([]*mapEntry(nil), m.ents...) {
			if e.dead {
				continue
			}
			if !fr.w.cond(fr.w.call(fr, args[1], []value{e.k, e.v}, nil)) {
				break
			}
		}
		return nil
	}

	// ---- atomics
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		k := map[string]kind{"Int32": {kInt, 32, true}, "Int64": kInt64, "Uint32": {kInt, 32, false}, "Uint64": {kInt, 64, false}, "Uintptr": {kInt, 64, false}}[ty]
		fns(ty, k)
	}
	I["sync/atomic.LoadPointer"] = atomicLoad(plainCell)
	I["sync/atomic.StorePointer"] = atomicStore(plainCell)
	I["(*sync/atomic.Bool).Load"] = func(fr *frame, args []value) value {
		v := atomicLoad(lastField)(fr, args)
		if x, ok := v.(int64); ok {
			return x != 0
		}
		return v
	}
	b2v := func(v value) value {
		if b, ok := v.(bool); ok {
			if b {
				return int64(1)
			}
			return int64(0)
		}
		return v
	}
	I["(*sync/atomic.Bool).Store"] = func(fr *frame, args []value) value {
		return atomicStore(lastField)(fr, []value{args[0], b2v(args[1])})
	}
	I["(*sync/atomic.Bool).Swap"] = func(fr *frame, args []value) value {
		return atomicSwap(lastField)(fr, []value{args[0], b2v(args[1])}) == int64(1)
	}
	I["(*sync/atomic.Bool).CompareAndSwap"] = func(fr *frame, args []value) value {
		return atomicCAS(lastField)(fr, []value{args[0], b2v(args[1]), b2v(args[2])})
	}
	I["(*sync/atomic.Pointer[T]).Load"] = atomicLoad(lastField)
	I["(*sync/atomic.Pointer[T]).Store"] = atomicStore(lastField)
	I["(*sync/atomic.Pointer[T]).Swap"] = atomicSwap(lastField)
	I["(*sync/atomic.Pointer[T]).CompareAndSwap"] = atomicCAS(lastField)
	I["(*sync/atomic.Value).Load"] = func(fr *frame, args []value) value {
		p := ptrOf(fr, args[0])
		fr.w.atomicSync(fr, p)
		if v, ok := fr.w.side[[2]any{"aval", p}]; ok {
			return v
		}
		return iface{}
	}
	I["(*sync/atomic.Value).Store"] = func(fr *frame, args []value) value {
		p := ptrOf(fr, args[0])
		fr.w.atomicSync(fr, p)
		fr.w.side[[2]any{"aval", p}] = args[1]
		return nil
	}
}

func condLocker(p *value) iface {
	for _, f := range (*p).(structure) {
		if i, ok := f.(iface); ok {
			return i
		}
	}
	panic(unsupported("sync.Cond without locker"))
}

func plainCell(fr *frame, v value) *value { return ptrOf(fr, v) }
func lastField(fr *frame, v value) *value {
	p := ptrOf(fr, v)
	s := (*p).(structure)
	return &s[len(s)-1]
}

func (w *Worker) atomicSync(fr *frame, p *value) {
	if w.inInit > 0 {
		return
	}
	w.yield(fr, "atomic")
	w.acquire(p)
	w.release(p)
}

type cellFn func(fr *frame, v value) *value

func atomicLoad(c cellFn) intrinsic {
	return func(fr *frame, args []value) value {
		p := c(fr, args[0])
		fr.w.atomicSync(fr, p)
		return *p
	}
}
func atomicStore(c cellFn) intrinsic {
	return func(fr *frame, args []value) value {
		p := c(fr, args[0])
		fr.w.atomicSync(fr, p)
		*p = args[1]
		return nil
	}
}
func atomicSwap(c cellFn) intrinsic {
	return func(fr *frame, args []value) value {
		p := c(fr, args[0])
		fr.w.atomicSync(fr, p)
		o := *p
		*p = args[1]
		return o
	}
}
func atomicCAS(c cellFn) intrinsic {
	return func(fr *frame, args []value) value {
		p := c(fr, args[0])
		fr.w.atomicSync(fr, p)
		if fr.w.cond(fr.w.eqVal(*p, args[1])) {
			*p = args[2]
			return true
		}
		return false
	}
}
func atomicAdd(c cellFn, k kind) intrinsic {
	return func(fr *frame, args []value) value {
		p := c(fr, args[0])
		fr.w.atomicSync(fr, p)
		*p = fr.w.intBin(tokADD, k, *p, args[1], k)
		return *p
	}
}

func fns(ty string, k kind) {
	I := intrinsics
	I["sync/atomic.Load"+ty] = atomicLoad(plainCell)
	I["sync/atomic.Store"+ty] = atomicStore(plainCell)
	I["sync/atomic.Swap"+ty] = atomicSwap(plainCell)
	I["sync/atomic.CompareAndSwap"+ty] = atomicCAS(plainCell)
	I["sync/atomic.Add"+ty] = atomicAdd(plainCell, k)
	pre := fmt.Sprintf("(*sync/atomic.%s).", ty)
	I[pre+"Load"] = atomicLoad(lastField)
	I[pre+"Store"] = atomicStore(lastField)
	I[pre+"Swap"] = atomicSwap(lastField)
	I[pre+"CompareAndSwap"] = atomicCAS(lastField)
	I[pre+"Add"] = atomicAdd(lastField, k)
}
