package rt

import (
	"reflect"
	"runtime"
	"unsafe"
)

// vchan is the model of one channel: the real channel only serves as its identity
// (and is really closed when the program closes it).
type vchan struct {
	o      obj
	cap    int
	buf    []citem
	slots  []VC // clocks of the receives that freed each slot
	sendx  int
	recvx  int
	closed bool
	cvc    VC
	real   any
}

type citem struct {
	v  any
	vc VC
}

type scase struct {
	c    *vchan // nil: never ready
	send bool
	val  any
}

func chPtr[T any](ch chan T) unsafe.Pointer    { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func chPtrR[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func chPtrS[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func (x *exec) vch(p unsafe.Pointer, capacity int, real any) *vchan {
	if p == nil {
		return nil
	}
	c := x.chans[p]
	if c == nil {
		c = &vchan{cap: capacity, real: real}
		x.chans[p] = c
		// closed before the execution began, or by code that is not instrumented?
		rv := reflect.ValueOf(real)
		if rv.Type().ChanDir()&reflect.RecvDir != 0 && rv.Len() == 0 {
			if v, ok := rv.TryRecv(); !ok && v.IsValid() {
				c.closed = true
			}
		}
	}
	return c
}

func (x *exec) caseReady(g *G, s *scase) bool {
	c := s.c
	if c == nil {
		return false
	}
	if s.send {
		if c.closed {
			return true // will panic
		}
		if len(c.buf) < c.cap {
			return true
		}
		if c.cap == 0 {
			p, _ := x.partner(g, c, false)
			return p != nil
		}
		return false
	}
	if len(c.buf) > 0 || c.closed {
		return true
	}
	if c.cap == 0 {
		p, _ := x.partner(g, c, true)
		return p != nil
	}
	return false
}

// partner finds a goroutine blocked on the other side of an unbuffered channel.
func (x *exec) partner(g *G, c *vchan, wantSend bool) (*G, int) {
	for _, o := range x.gs {
		if o == g || o.done || o.hand || o.pd.kind != opChan {
			continue
		}
		if o.pd.hasD {
			continue // a select with default never waits
		}
		for i := range o.pd.cases {
			k := &o.pd.cases[i]
			if k.c == c && k.send == wantSend {
				return o, i
			}
		}
	}
	return nil, -1
}

// doCase performs a ready case. It returns the received value.
func (x *exec) doCase(g *G, s *scase) (any, bool) {
	c := s.c
	if s.send || len(c.buf) > 0 || !c.closed {
		x.effect()
	}
	if s.send {
		if c.closed {
			x.evW(g, &c.o, 11)
			panic(plainError("send on closed channel"))
		}
		if c.cap == 0 {
			p, i := x.partner(g, c, false)
			p.hand, p.handIdx, p.handVal, p.handOK = true, i, s.val, true
			p.vc.join(g.vc)
			g.vc.join(p.vc)
			g.tick()
			p.tick()
			x.evW(g, &c.o, 12)
			x.evW(p, &c.o, 13)
			return nil, true
		}
		if len(c.slots) == 0 {
			c.slots = make([]VC, c.cap)
		}
		g.acquire(c.slots[c.sendx])
		it := citem{v: s.val}
		g.release(&it.vc)
		c.sendx = (c.sendx + 1) % c.cap
		c.buf = append(c.buf, it)
		x.evW(g, &c.o, 14)
		return nil, true
	}
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf[0] = citem{}
		c.buf = c.buf[1:]
		g.acquire(it.vc)
		if c.cap > 0 {
			if len(c.slots) == 0 {
				c.slots = make([]VC, c.cap)
			}
			c.slots[c.recvx] = nil
			g.release(&c.slots[c.recvx])
			c.recvx = (c.recvx + 1) % c.cap
		}
		x.evW(g, &c.o, 15)
		return it.v, true
	}
	if c.closed {
		g.acquire(c.cvc)
		x.evR(g, &c.o, 16)
		return nil, false
	}
	p, i := x.partner(g, c, true)
	v := p.pd.cases[i].val
	p.hand, p.handIdx, p.handOK = true, i, true
	g.vc.join(p.vc)
	p.vc.join(g.vc)
	g.tick()
	p.tick()
	x.evW(g, &c.o, 17)
	x.evW(p, &c.o, 18)
	return v, true
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

// chanOp runs a channel operation with the given cases; it returns the index of the case
// performed (-1: default), and the received value.
func (x *exec) chanOp(cases []scase, hasD bool, site uint32, sel bool) (int, any, bool) {
	g := x.cur
	g.pd = pend{kind: opChan, cases: cases, hasD: hasD, what: SiteName(site)}
	g.hand = false
	x.point(g)
	if g.hand {
		g.hand = false
		v := g.handVal
		g.handVal = nil
		g.pd = pend{}
		if sel {
			g.used(site, g.handIdx)
		}
		return g.handIdx, v, g.handOK
	}
	var rbuf [8]int
	ready := rbuf[:0]
	for i := range cases {
		if x.caseReady(g, &cases[i]) {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		if !hasD {
			panic("rt: chanOp scheduled while not ready")
		}
		for i := range cases {
			if cases[i].c != nil {
				x.evR(g, &cases[i].c.o, 19)
			}
		}
		g.pd = pend{}
		return -1, nil, false
	}
	k := ready[0]
	if len(ready) > 1 {
		// default: the case of this select that was taken least recently
		ready = g.lruOrder(site, ready)
		if g.noeff < spinYield {
			k = ready[x.choose(len(ready), clsSched, 1)]
		} else {
			k = ready[0] // spinning: only a fair choice
		}
	}
	if sel && len(cases) > 1 {
		g.used(site, k)
		x.evLocal(g, uint64(k)+1000)
	}
	g.pd = pend{}
	v, ok := x.doCase(g, &cases[k])
	return k, v, ok
}

func (g *G) used(site uint32, k int) {
	if g.lru == nil {
		g.lru = map[uint32][]int{}
	}
	l := g.lru[site]
	for i, e := range l {
		if e == k {
			l = append(l[:i], l[i+1:]...)
			break
		}
	}
	g.lru[site] = append(l, k)
}

func (g *G) lruOrder(site uint32, ready []int) []int {
	l := g.lru[site]
	pos := func(k int) int {
		for i, e := range l {
			if e == k {
				return i
			}
		}
		return -1
	}
	out := append([]int(nil), ready...)
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && pos(out[j]) < pos(out[j-1]); j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// ---------------------------------------------------------------- entry points

// SendTo implements ch <- v.
func SendTo[T any](ch chan<- T, site uint32) func(T) {
	return func(v T) {
		x := cx
		if x == nil {
			ch <- v
			return
		}
		if x.abort {
			runtime.Goexit()
		}
		x.chanOp([]scase{{c: x.vch(chPtrS(ch), cap(ch), ch), send: true, val: v}}, false, site, false)
	}
}

// Recv implements <-ch.
func Recv[T any](ch <-chan T, site uint32) T {
	v, _ := Recv2(ch, site)
	return v
}

// Recv2 implements v, ok := <-ch.
func Recv2[T any](ch <-chan T, site uint32) (T, bool) {
	x := cx
	if x == nil {
		v, ok := <-ch
		return v, ok
	}
	if x.abort {
		runtime.Goexit()
	}
	_, v, ok := x.chanOp([]scase{{c: x.vch(chPtrR(ch), cap(ch), ch)}}, false, site, false)
	var z T
	if v != nil {
		z = v.(T)
	}
	return z, ok
}

// Close implements close(ch).
func Close[T any](ch chan<- T, site uint32) {
	x := cx
	if x == nil {
		close(ch)
		return
	}
	if x.abort {
		runtime.Goexit()
	}
	if ch == nil {
		panic(plainError("close of nil channel"))
	}
	c := x.vch(chPtrS(ch), cap(ch), ch)
	g := x.cur
	g.pd = pend{kind: opStep, what: SiteName(site)}
	x.point(g)
	x.effect()
	if c.closed {
		x.evW(g, &c.o, 20)
		panic(plainError("close of closed channel"))
	}
	x.evW(g, &c.o, 21)
	g.release(&c.cvc)
	c.closed = true
	close(ch)
}

func (x *exec) closeInternal(c *vchan) {
	c.closed = true
}

// Len implements len(ch); Cap needs nothing.
func Len[T any](ch <-chan T, site uint32) int {
	x := cx
	if x == nil {
		return len(ch)
	}
	if x.abort {
		runtime.Goexit()
	}
	if ch == nil {
		return 0
	}
	c := x.vch(chPtrR(ch), cap(ch), ch)
	g := x.cur
	g.pd = pend{kind: opStep, what: SiteName(site)}
	x.point(g)
	x.evR(g, &c.o, 22)
	return len(c.buf)
}

// LenS is Len for send-only channels.
func LenS[T any](ch chan<- T, site uint32) int {
	x := cx
	if x == nil || ch == nil {
		return len(ch)
	}
	c := x.vch(chPtrS(ch), cap(ch), ch)
	g := x.cur
	g.pd = pend{kind: opStep, what: SiteName(site)}
	x.point(g)
	x.evR(g, &c.o, 22)
	return len(c.buf)
}

// SCase is one case of a select.
type SCase interface {
	sc(x *exec) scase
	native() reflect.SelectCase
	set(v any, ok bool)
	setNative(v reflect.Value, ok bool)
}

type RCase[T any] struct {
	ch <-chan T
	v  T
	ok bool
}

func RecvCase[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }

func (c *RCase[T]) sc(x *exec) scase {
	if c.ch == nil {
		return scase{}
	}
	return scase{c: x.vch(chPtrR(c.ch), cap(c.ch), c.ch)}
}
func (c *RCase[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}
func (c *RCase[T]) set(v any, ok bool) {
	if v != nil {
		c.v = v.(T)
	}
	c.ok = ok
}
func (c *RCase[T]) setNative(v reflect.Value, ok bool) {
	if ok {
		c.v, _ = v.Interface().(T)
	}
	c.ok = ok
}
func (c *RCase[T]) Val() T          { return c.v }
func (c *RCase[T]) Val2() (T, bool) { return c.v, c.ok }

type sndCase[T any] struct {
	ch chan<- T
	v  T
}

func SendCase[T any](ch chan<- T) func(T) SCase {
	return func(v T) SCase { return &sndCase[T]{ch, v} }
}

func (c *sndCase[T]) sc(x *exec) scase {
	if c.ch == nil {
		return scase{send: true}
	}
	return scase{c: x.vch(chPtrS(c.ch), cap(c.ch), c.ch), send: true, val: c.v}
}
func (c *sndCase[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}
func (c *sndCase[T]) set(any, bool)                 {}
func (c *sndCase[T]) setNative(reflect.Value, bool) {}

// Select runs a select statement and returns the index of the chosen case, -1 for default.
func Select(site uint32, hasD bool, cs ...SCase) int {
	x := cx
	if x == nil {
		var rc []reflect.SelectCase
		for _, c := range cs {
			rc = append(rc, c.native())
		}
		if hasD {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i == len(cs) {
			return -1
		}
		cs[i].setNative(v, ok)
		return i
	}
	if x.abort {
		runtime.Goexit()
	}
	scs := make([]scase, len(cs))
	for i, c := range cs {
		scs[i] = c.sc(x)
	}
	i, v, ok := x.chanOp(scs, hasD, site, true)
	if i >= 0 {
		cs[i].set(v, ok)
	}
	return i
}
