package rt

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// Channels stay real Go channels. Operations on them go through the functions
// below: values travel through the real buffer when there is one, and are
// handed over directly between parked tasks when the channel is unbuffered.

type chanState struct {
	id     int
	keep   any
	closed bool
	sendq  []*sel // parked selects/sends that could send (unbuffered channels only)
	recvq  []*sel
}

type sel struct {
	t      *Task
	done   bool
	idx    int
	cases  []Caser
	ra, rb byte // race annotation addresses
}

// Caser is one case of a select.
type Caser interface {
	chptr() uintptr
	unbuf() bool
	isSend() bool
	// now reports whether the case can proceed without a parked partner.
	now(peek bool) bool
	// fire performs the case on the real channel; only valid if now().
	fire()
	// pass moves a value between a sending and a receiving case.
	val() unsafe.Pointer
	setOK()
	state() *chanState
}

func (s *Sim) chanOf(p uintptr, keep any) *chanState {
	cs, _ := s.chans.get(p)
	if cs == nil {
		s.chanID++
		cs = &chanState{id: s.chanID, keep: keep}
		*s.chans.at(p) = cs
	}
	return cs
}

//go:norace
func ptrOfRecv[T any](ch <-chan T) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }

//go:norace
func ptrOfSend[T any](ch chan<- T) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }

// Reg registers a freshly made channel.
//
//go:norace
func Reg[T any](ch chan T) chan T {
	if s := S; s != nil && ch != nil {
		s.chanOf(*(*uintptr)(unsafe.Pointer(&ch)), ch)
	}
	return ch
}

// RCase is a receive.
type RCase[T any] struct {
	ch  <-chan T
	st  *chanState
	Val T
	Ok  bool
}

// CaseRecv prepares a receive case.
//
//go:norace
func CaseRecv[T any](ch <-chan T) *RCase[T] {
	c := &RCase[T]{ch: ch}
	if s := S; s != nil && ch != nil {
		c.st = s.chanOf(ptrOfRecv(ch), ch)
	}
	return c
}

//go:norace
func (c *RCase[T]) chptr() uintptr { return ptrOfRecv(c.ch) }

//go:norace
func (c *RCase[T]) unbuf() bool { return cap(c.ch) == 0 }

//go:norace
func (c *RCase[T]) isSend() bool { return false }

//go:norace
func (c *RCase[T]) val() unsafe.Pointer { return unsafe.Pointer(&c.Val) }

//go:norace
func (c *RCase[T]) setOK() { c.Ok = true }

//go:norace
func (c *RCase[T]) state() *chanState { return c.st }

//go:norace
func (c *RCase[T]) now(peek bool) bool {
	if c.ch == nil {
		return false
	}
	if len(c.ch) > 0 {
		return true
	}
	if c.st.closed {
		return true
	}
	// Nobody else can be sending right now, so a successful receive on an
	// empty channel means that it is closed.
	raceDisable()
	defer raceEnable()
	select {
	case _, ok := <-c.ch:
		if ok {
			panic("sim: value appeared on a channel from outside of the simulation")
		}
		c.st.closed = true
		return true
	default:
		return false
	}
}

//go:norace
func (c *RCase[T]) fire() {
	select {
	case c.Val, c.Ok = <-c.ch:
	default:
		panic("sim: receive was not ready")
	}
}

// SCase is a send.
type SCase[T any] struct {
	ch chan<- T
	st *chanState
	v  T
}

// CaseSend prepares a send case.
//
//go:norace
func CaseSend[T any](ch chan<- T) func(T) *SCase[T] {
	return func(v T) *SCase[T] {
		c := &SCase[T]{ch: ch, v: v}
		if s := S; s != nil && ch != nil {
			c.st = s.chanOf(ptrOfSend(ch), ch)
		}
		return c
	}
}

//go:norace
func (c *SCase[T]) chptr() uintptr { return ptrOfSend(c.ch) }

//go:norace
func (c *SCase[T]) unbuf() bool { return cap(c.ch) == 0 }

//go:norace
func (c *SCase[T]) isSend() bool { return true }

//go:norace
func (c *SCase[T]) val() unsafe.Pointer { return unsafe.Pointer(&c.v) }

//go:norace
func (c *SCase[T]) setOK() {}

//go:norace
func (c *SCase[T]) state() *chanState { return c.st }

//go:norace
func (c *SCase[T]) now(peek bool) bool {
	if c.ch == nil {
		return false
	}
	return c.st.closed || len(c.ch) < cap(c.ch)
}

//go:norace
func (c *SCase[T]) fire() {
	select {
	case c.ch <- c.v: // panics if closed
	default:
		panic("sim: send was not ready")
	}
}

// partner finds a parked counterpart for the case.
func partner(c Caser, self *sel) (*sel, int) {
	st := c.state()
	if st == nil || !c.unbuf() || st.closed {
		return nil, 0
	}
	q := st.recvq
	if !c.isSend() {
		q = st.sendq
	}
	for _, w := range q {
		if w.done || w == self {
			continue
		}
		for i, wc := range w.cases {
			if wc.state() == st && wc.isSend() != c.isSend() {
				return w, i
			}
		}
	}
	return nil, 0
}

type mover interface{ move(snd Caser) }

//go:norace
func (c *RCase[T]) move(snd Caser) {
	c.Val = *(*T)(snd.val())
	c.Ok = true
}

func drop(q []*sel, w *sel) []*sel {
	o := q[:0]
	for _, x := range q {
		if x != w && !x.done {
			o = append(o, x)
		}
	}
	return o
}

// Select performs one of the ready cases, chosen by the scheduler; -1 is the
// default case.
func Select(hasDefault bool, cases ...Caser) int {
	s := S
	if s == nil {
		for i, c := range cases {
			if c.state() == nil { // outside of runs: plain channel semantics without blocking
				if tryOutside(c) {
					return i
				}
			}
		}
		if hasDefault {
			return -1
		}
		panic("sim: channel operation would block outside of a run")
	}
	if s.dying {
		if hasDefault {
			return -1
		}
		Block("dying", nil)
	}
	SyncPoint(2)
	var self *sel
	for {
		ready := make([]int, 0, len(cases))
		for i, c := range cases {
			if c.state() == nil {
				continue
			}
			if c.now(false) {
				ready = append(ready, i)
			} else if w, _ := partner(c, self); w != nil {
				ready = append(ready, i)
			}
		}
		if len(ready) > 0 {
			i := ready[0]
			if len(ready) > 1 {
				i = ready[Choose(TagSelect, len(ready))]
			}
			c := cases[i]
			if c.now(false) {
				c.fire()
			} else {
				w, wi := partner(c, self)
				RaceAcquire(unsafe.Pointer(&w.ra))
				wc := w.cases[wi]
				if c.isSend() {
					wc.(mover).move(c)
				} else {
					c.(mover).move(wc)
				}
				w.done = true
				w.idx = wi
				RaceRelease(unsafe.Pointer(&w.rb))
				for _, x := range w.cases {
					if st := x.state(); st != nil {
						st.sendq, st.recvq = drop(st.sendq, w), drop(st.recvq, w)
					}
				}
			}
			s.recheck = true
			SyncPoint(3)
			return i
		}
		if hasDefault {
			return -1
		}
		self = &sel{t: s.cur, cases: cases}
		RaceRelease(unsafe.Pointer(&self.ra))
		for _, c := range cases {
			st := c.state()
			if st == nil || !c.unbuf() {
				continue
			}
			if c.isSend() {
				st.sendq = append(st.sendq, self)
			} else {
				st.recvq = append(st.recvq, self)
			}
		}
		me := self
		Block("chan", func() bool {
			if me.done {
				return true
			}
			for _, c := range cases {
				if c.state() != nil && c.now(true) {
					return true
				}
			}
			return false
		})
		for _, c := range cases {
			if st := c.state(); st != nil && c.unbuf() {
				st.sendq, st.recvq = drop(st.sendq, me), drop(st.recvq, me)
			}
		}
		if me.done {
			RaceAcquire(unsafe.Pointer(&me.rb))
			return me.idx
		}
		self = nil
	}
}

func tryOutside(c Caser) (ok bool) {
	switch {
	case c.chptr() == 0:
		return false
	}
	if t, is := c.(interface{ outside() bool }); is {
		return t.outside()
	}
	return false
}

//go:norace
func (c *RCase[T]) outside() bool {
	select {
	case c.Val, c.Ok = <-c.ch:
		return true
	default:
		return false
	}
}

//go:norace
func (c *SCase[T]) outside() bool {
	select {
	case c.ch <- c.v:
		return true
	default:
		return false
	}
}

// Recv receives from ch.
//
//go:norace
func Recv[T any](ch <-chan T) T {
	c := CaseRecv(ch)
	Select(false, c)
	return c.Val
}

// Recv2 receives from ch with the ok flag.
//
//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	c := CaseRecv(ch)
	Select(false, c)
	return c.Val, c.Ok
}

// To returns a function sending to ch.
//
//go:norace
func To[T any](ch chan<- T) func(T) {
	return func(v T) { Select(false, CaseSend(ch)(v)) }
}

// Close closes ch.
//
//go:norace
func Close[T any](ch chan<- T) {
	SyncPoint(4)
	close(ch)
	if s := S; s != nil && !s.dying {
		s.chanOf(ptrOfSend(ch), ch).closed = true
		s.recheck = true
	}
	SyncPoint(5)
}

// BlockForever is an empty select.
func BlockForever() {
	Block("forever", func() bool { return false })
	panic("unreachable")
}

// Ch iterates over received values.
type Ch[T any] struct{ ch <-chan T }

// ChanIter supports range loops over channels.
//
//go:norace
func ChanIter[T any](ch <-chan T) (*Ch[T], T) {
	var z T
	return &Ch[T]{ch}, z
}

// Next receives the next value.
//
//go:norace
func (c *Ch[T]) Next(v *T) bool {
	x, ok := Recv2(c.ch)
	if ok {
		*v = x
	}
	return ok
}

// Iter iterates over a map in an order chosen by the scheduler.
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// MapIter supports range loops over maps.
//
//go:norace
func MapIter[M ~map[K]V, K comparable, V any](m M) (*Iter[K, V], K, V) {
	var (
		k K
		v V
	)
	it := &Iter[K, V]{m: m}
	if len(m) > 0 {
		it.keys = make([]K, 0, len(m))
		for k := range m {
			it.keys = append(it.keys, k)
		}
		sortKeys(it.keys)
		// Seeded order: one decision per loop, 0 being the sorted order.
		if n := len(it.keys); n > 1 {
			x := Choose(TagMap, 16)
			if x > 0 {
				var r Rand
				r.Seed(uint64(x))
				for i := n - 1; i > 0; i-- {
					j := r.Intn(i + 1)
					it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
				}
			}
		}
	}
	return it, k, v
}

// Next advances to an entry which is still in the map.
//
//go:norace
func (it *Iter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		if val, ok := it.m[key]; ok {
			*k, *v = key, val
			return true
		}
	}
	return false
}

//go:norace
func sortKeys[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	if ks, ok := any(keys).([]string); ok {
		sort.Strings(ks)
		return
	}
	strs := make([]string, len(keys))
	idx := make([]int, len(keys))
	for i, k := range keys {
		strs[i] = keyString(reflect.ValueOf(&k).Elem())
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return strs[idx[a]] < strs[idx[b]] })
	out := make([]K, len(keys))
	for i, j := range idx {
		out[i] = keys[j]
	}
	copy(keys, out)
}

func keyString(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return ""
		}
		return v.Elem().Type().String() + ":" + keyString(v.Elem())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", uint64(v.Int())+1<<63)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("%020d", v.Uint())
	case reflect.Chan:
		if s := S; s != nil {
			if cs, _ := s.chans.get(v.Pointer()); cs != nil {
				return fmt.Sprintf("%010d", cs.id)
			}
			return fmt.Sprintf("%010d", s.chanOf(v.Pointer(), keepOf(v)).id)
		}
		return ""
	case reflect.Pointer:
		return fmt.Sprintf("%010d", ptrID(v.Pointer(), keepOf(v)))
	case reflect.Struct:
		var r string
		for i := 0; i < v.NumField(); i++ {
			r += keyString(v.Field(i)) + ";"
		}
		return r
	case reflect.Array:
		var r string
		for i := 0; i < v.Len(); i++ {
			r += keyString(v.Index(i)) + ";"
		}
		return r
	default:
		return fmt.Sprint(v)
	}
}

// Pointer keys get numbers in the order in which the simulation first sees
// them. Iterating a map with several pointers not seen before would make that
// order depend on addresses, so MapKey registers keys as they are inserted.
func ptrID(p uintptr, keep any) int {
	s := S
	if s == nil {
		return 0
	}
	e, ok := s.ptrs.get(p)
	if !ok {
		e = ptrEntry{s.ptrs.n + 1, keep}
		*s.ptrs.at(p) = e
	}
	return e.id
}

type ptrEntry struct {
	id   int
	keep any // so that the address is not reused within the run
}

func keepOf(v reflect.Value) any {
	if v.CanInterface() {
		return v.Interface()
	}
	return nil
}

// MapKey notes a key about to be inserted into a map.
//
//go:norace
func MapKey[K comparable](k K) K {
	if s := S; s != nil {
		noteKey(reflect.ValueOf(&k).Elem())
	}
	return k
}

func noteKey(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			noteKey(v.Elem())
		}
	case reflect.Pointer:
		ptrID(v.Pointer(), keepOf(v))
	case reflect.Chan:
		S.chanOf(v.Pointer(), keepOf(v))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			noteKey(v.Field(i))
		}
	}
}
