package rt

import (
	"fmt"
	"reflect"
	"runtime"
	"sync"
)

// rwcore is the state shared by Mutex and RWMutex.
type rwcore struct {
	o  obj
	w  bool
	r  int
	rv VC // clocks of read unlocks
}

type Mutex struct {
	c   rwcore
	nat sync.Mutex
}

func (m *Mutex) Lock() {
	x := cx
	if x == nil {
		m.nat.Lock()
		return
	}
	if x.abort {
		runtime.Goexit()
	}
	lockW(x, &m.c)
}

func lockW(x *exec, c *rwcore) {
	g := x.cur
	g.pd = pend{kind: opLock, rw: c}
	x.point(g)
	c.w = true
	g.acquire(c.o.vc)
	g.acquire(c.rv)
	x.evW(g, &c.o, 31)
}

func (m *Mutex) TryLock() bool {
	x := cx
	if x == nil {
		return m.nat.TryLock()
	}
	if x.abort {
		runtime.Goexit()
	}
	return tryLockW(x, &m.c)
}

func tryLockW(x *exec, c *rwcore) bool {
	g := x.cur
	g.pd = pend{kind: opStep, what: "TryLock"}
	x.point(g)
	if c.w || c.r > 0 {
		x.evR(g, &c.o, 32)
		return false
	}
	c.w = true
	g.acquire(c.o.vc)
	g.acquire(c.rv)
	x.evW(g, &c.o, 31)
	return true
}

func (m *Mutex) Unlock() {
	x := cx
	if x == nil {
		m.nat.Unlock()
		return
	}
	if x.abort {
		runtime.Goexit()
	}
	unlockW(x, &m.c, "sync: unlock of unlocked mutex")
}

func unlockW(x *exec, c *rwcore, msg string) {
	g := x.cur
	if !c.w {
		x.fail("crash:"+msg, "fatal error: "+msg+" by "+g.label())
	}
	// releasing is not a scheduling point: whoever waits becomes enabled and may be
	// chosen at the next point of this goroutine, which is before its next visible operation
	c.w = false
	g.release(&c.o.vc)
	x.evW(g, &c.o, 33)
}

type RWMutex struct {
	c   rwcore
	nat sync.RWMutex
}

func (m *RWMutex) Lock() {
	x := cx
	if x == nil {
		m.nat.Lock()
		return
	}
	if x.abort {
		runtime.Goexit()
	}
	lockW(x, &m.c)
}

func (m *RWMutex) TryLock() bool {
	x := cx
	if x == nil {
		return m.nat.TryLock()
	}
	if x.abort {
		runtime.Goexit()
	}
	return tryLockW(x, &m.c)
}

func (m *RWMutex) Unlock() {
	x := cx
	if x == nil {
		m.nat.Unlock()
		return
	}
	if x.abort {
		runtime.Goexit()
	}
	unlockW(x, &m.c, "sync: Unlock of unlocked RWMutex")
}

func (m *RWMutex) RLock() {
	x := cx
	if x == nil {
		m.nat.RLock()
		return
	}
	if x.abort {
		runtime.Goexit()
	}
	g := x.cur
	g.pd = pend{kind: opRLock, rw: &m.c}
	x.point(g)
	m.c.r++
	g.acquire(m.c.o.vc)
	x.evR(g, &m.c.o, 34)
}

func (m *RWMutex) TryRLock() bool {
	x := cx
	if x == nil {
		return m.nat.TryRLock()
	}
	if x.abort {
		runtime.Goexit()
	}
	g := x.cur
	g.pd = pend{kind: opStep, what: "TryRLock"}
	x.point(g)
	if m.c.w {
		x.evR(g, &m.c.o, 32)
		return false
	}
	m.c.r++
	g.acquire(m.c.o.vc)
	x.evR(g, &m.c.o, 34)
	return true
}

func (m *RWMutex) RUnlock() {
	x := cx
	if x == nil {
		m.nat.RUnlock()
		return
	}
	if x.abort {
		runtime.Goexit()
	}
	g := x.cur
	if m.c.r <= 0 {
		x.fail("crash:sync: RUnlock of unlocked RWMutex", "by "+g.label())
	}
	m.c.r--
	g.release(&m.c.rv)
	x.evR(g, &m.c.o, 35)
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

// WaitGroup models sync.WaitGroup, including its misuse panics.
type WaitGroup struct {
	o       obj
	n       int
	waiters int
	nat     sync.WaitGroup
}

func (w *WaitGroup) Add(d int) {
	x := cx
	if x == nil {
		w.nat.Add(d)
		return
	}
	if x.abort {
		runtime.Goexit()
	}
	g := x.cur
	g.pd = pend{kind: opStep, what: "WaitGroup.Add"}
	x.point(g)
	x.effect()
	w.n += d
	x.evW(g, &w.o, uint64(40+d))
	if d < 0 {
		g.release(&w.o.vc)
	}
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for _, o := range x.gs {
			if !o.done && o.arrived && o.pd.kind == opWG && o.pd.wg == w {
				o.flag = true
			}
		}
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	x := cx
	if x == nil {
		w.nat.Wait()
		return
	}
	if x.abort {
		runtime.Goexit()
	}
	g := x.cur
	g.flag = false
	g.pd = pend{kind: opWG, wg: w}
	x.point(g)
	if g.flag {
		g.flag = false
		if w.n != 0 {
			panic("sync: WaitGroup is reused before previous Wait has returned")
		}
	}
	g.acquire(w.o.vc)
	x.evR(g, &w.o, 45)
}

// Go is WaitGroup.Go (newer Go versions).
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(0, func() { defer w.Done(); f() })
}

// Once models sync.Once.
type Once struct {
	m    Mutex
	done bool
	o    obj
}

func (o *Once) Do(f func()) {
	if cx == nil {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// onceState is the state of a function of OnceFunc, OnceValue or OnceValues. That of one made
// while the program is initialised starts anew in every execution.
type onceState[A, B any] struct {
	o    Once
	a    A
	b    B
	bad  bool
	what any
	x    *exec
}

func onceOf[A, B any](f func() (A, B)) func() (A, B) {
	born := cx
	s := &onceState[A, B]{x: born}
	return func() (A, B) {
		if born == nil && s.x != cx {
			s = &onceState[A, B]{x: cx}
		}
		t := s
		t.o.Do(func() {
			t.bad = true
			defer func() {
				if t.bad {
					t.what = recover()
				}
			}()
			t.a, t.b = f()
			t.bad = false
		})
		if t.bad {
			panic(t.what)
		}
		return t.a, t.b
	}
}

func OnceFunc(f func()) func() {
	g := onceOf(func() (int, int) { f(); return 0, 0 })
	return func() { g() }
}

func OnceValue[T any](f func() T) func() T {
	g := onceOf(func() (T, int) { return f(), 0 })
	return func() T { v, _ := g(); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return onceOf(f) }

// Cond models sync.Cond.
type Cond struct {
	L  sync.Locker
	o  obj
	ws []*G
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	x := cx
	if x.abort {
		runtime.Goexit()
	}
	g := x.cur
	g.flag = false
	c.ws = append(c.ws, g)
	x.evW(g, &c.o, 50)
	c.L.Unlock()
	g.pd = pend{kind: opFlag, what: "Cond.Wait"}
	x.point(g)
	g.flag = false
	g.acquire(c.o.vc)
	x.evR(g, &c.o, 51)
	c.L.Lock()
}

func (c *Cond) Signal()    { c.wake(1) }
func (c *Cond) Broadcast() { c.wake(1 << 30) }

func (c *Cond) wake(n int) {
	x := cx
	if x.abort {
		runtime.Goexit()
	}
	g := x.cur
	g.pd = pend{kind: opStep, what: "Cond.Signal"}
	x.point(g)
	x.effect()
	g.release(&c.o.vc)
	x.evW(g, &c.o, 52)
	for n > 0 && len(c.ws) > 0 {
		c.ws[0].flag = true
		c.ws = c.ws[1:]
		n--
	}
}

// Map models sync.Map.
type Map struct {
	o    obj
	m    map[any]any
	keys []any
	nmu  sync.Mutex
}

func (m *Map) op(what string, write bool) func() {
	x := cx
	if x == nil {
		m.nmu.Lock()
		return m.nmu.Unlock
	}
	if x.abort {
		runtime.Goexit()
	}
	g := x.cur
	g.pd = pend{kind: opStep, what: "sync.Map." + what}
	x.point(g)
	g.acquire(m.o.vc)
	if write {
		x.effect()
		g.release(&m.o.vc)
		x.evW(g, &m.o, hashStr(what))
	} else {
		x.evR(g, &m.o, hashStr(what))
	}
	return func() {}
}

func (m *Map) Load(k any) (any, bool) {
	defer m.op("Load", false)()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) put(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, e := range m.keys {
			if e == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}

func (m *Map) Store(k, v any) { defer m.op("Store", true)(); m.put(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	defer m.op("LoadOrStore", true)()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.put(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	defer m.op("LoadAndDelete", true)()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Delete(k any) { defer m.op("Delete", true)(); m.del(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	defer m.op("Swap", true)()
	o, ok := m.m[k]
	m.put(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, a, b any) bool {
	defer m.op("CompareAndSwap", true)()
	if o, ok := m.m[k]; ok && o == a {
		m.m[k] = b
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, a any) bool {
	defer m.op("CompareAndDelete", true)()
	if o, ok := m.m[k]; ok && o == a {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Clear() { defer m.op("Clear", true)(); m.m, m.keys = nil, nil }
func (m *Map) Range(f func(k, v any) bool) {
	m.op("Range", false)()
	for _, k := range append([]any(nil), m.keys...) {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

// Pool models sync.Pool.
type Pool struct {
	New func() any
	l   []any
	x   *exec
}

// fresh empties a pool that holds values of an earlier execution.
func (p *Pool) fresh() {
	if p.x != cx {
		p.x, p.l = cx, nil
	}
}

func (p *Pool) Get() any {
	p.fresh()
	if n := len(p.l); n > 0 {
		v := p.l[n-1]
		p.l = p.l[:n-1]
		if cx != nil && reflect.TypeOf(v).Kind() == reflect.Pointer {
			delete(cx.pooled, v)
		}
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) {
	p.fresh()
	if v != nil {
		p.l = append(p.l, v)
		if cx != nil && reflect.TypeOf(v).Kind() == reflect.Pointer {
			if cx.pooled == nil {
				cx.pooled = map[any]bool{}
			}
			cx.pooled[v] = true
		}
	}
}

// ---------------------------------------------------------------- goroutines

// Go implements the go statement.
func Go(site uint32, f func()) {
	x := cx
	if x == nil {
		go f()
		return
	}
	if x.abort {
		runtime.Goexit()
	}
	if len(x.all) > 5000 {
		x.fail("goroutine-leak", fmt.Sprintf("more than 5000 goroutines created\n%s", x.dump()))
	}
	g := x.cur
	g.pd = pend{kind: opStep, what: "go"}
	n := x.newG(g, "", site)
	x.evLocal(g, 98)
	x.effect()
	x.start(n, f)
	// the new goroutine may run before the creator's next step
	x.point(g)
}

// GoNamed is Go with a name, for harness threads.
func GoNamed(name string, f func()) {
	x := cx
	if x.abort {
		runtime.Goexit()
	}
	g := x.cur
	g.pd = pend{kind: opStep, what: "go"}
	n := x.newG(g, name, 0)
	x.evLocal(g, 98)
	x.effect()
	x.start(n, f)
	x.point(g)
}

func Gosched() {
	x := cx
	if x == nil {
		runtime.Gosched()
		return
	}
	if x.abort {
		runtime.Goexit()
	}
	g := x.cur
	g.yielded = true
	g.yieldEff = x.effects
	g.pd = pend{kind: opStep, what: "Gosched"}
	x.point(g)
}
