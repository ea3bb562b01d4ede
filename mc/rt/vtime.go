package rt

import (
	"runtime"
	"time"
	"unsafe"
)

// Epoch is the virtual time at which every execution starts.
var Epoch = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

type vtimer struct {
	when   int64
	period int64
	seq    int
	active bool
	idh    uint64
	h      uint64
	vc     VC
	ch     *vchan                   // deliver the time here
	f      func(x *exec, t *vtimer) // or run this, atomically, at expiry
	gf     func()                   // or start a goroutine running this
	o      obj
	owner  *G
	ng     int32
	path   []int32
}

func (x *exec) nextTimer() *vtimer {
	var b *vtimer
	for _, t := range x.timers {
		if t.when > int64(x.cfg.MaxTime) {
			continue
		}
		if b == nil || t.when < b.when || (t.when == b.when && t.seq < b.seq) {
			b = t
		}
	}
	return b
}

// advance moves the clock to the next deadline and fires every timer due then.
func (x *exec) advance() {
	t := x.nextTimer()
	if t.when > x.now {
		x.now = t.when
	}
	x.effects++
	for {
		t := x.nextTimer()
		if t == nil || t.when > x.now {
			return
		}
		x.fire(t)
	}
}

func (x *exec) fire(t *vtimer) {
	if t.period > 0 {
		t.when += t.period
	} else {
		x.dropTimer(t)
	}
	x.sum -= mix(t.idh, t.h)
	if t.ch != nil {
		e := mix(mix(t.h, t.ch.o.w), t.ch.o.rd)
		e = mix(e, uint64(x.now))
		t.h = e
		t.ch.o.w, t.ch.o.rd = e, 0
		if len(t.ch.buf) < t.ch.cap {
			t.ch.buf = append(t.ch.buf, citem{v: Epoch.Add(time.Duration(x.now)), vc: t.vc.clone()})
		}
	} else {
		t.h = mix(mix(t.h, t.o.w), uint64(x.now))
	}
	x.sum += mix(t.idh, t.h)
	if t.f != nil {
		t.f(x, t)
	}
	if t.gf != nil {
		g := &G{id: len(x.all), wake: make(chan struct{}, 1), name: "AfterFunc"}
		t.ng++
		g.path = append(append([]int32(nil), t.path...), -t.ng)
		g.idh = mix(t.idh, uint64(t.ng)+500)
		g.h = t.h
		g.vc = t.vc.clone()
		g.tick()
		x.sum += mix(g.idh, g.h)
		x.all = append(x.all, g)
		i := 0
		for i < len(x.gs) && pathLess(x.gs[i].path, g.path) {
			i++
		}
		x.gs = append(x.gs, nil)
		copy(x.gs[i+1:], x.gs[i:])
		x.gs[i] = g
		x.start(g, t.gf)
	}
}

func (x *exec) dropTimer(t *vtimer) {
	t.active = false
	for i, o := range x.timers {
		if o == t {
			x.timers = append(x.timers[:i:i], x.timers[i+1:]...)
			return
		}
	}
}

func (x *exec) addTimer(g *G, t *vtimer, d time.Duration) {
	if d < 0 {
		d = 0
	}
	x.tseq++
	t.seq = x.tseq
	t.when = x.now + int64(d)
	t.active = true
	if t.idh == 0 {
		g.nchild++
		t.idh = mix(g.idh, uint64(g.nchild)+7000)
		t.path = append(append([]int32(nil), g.path...), g.nchild)
	} else {
		x.sum -= mix(t.idh, t.h)
	}
	x.evW(g, &t.o, mix(uint64(x.now), uint64(d)))
	t.h = t.o.w
	x.sum += mix(t.idh, t.h)
	t.vc.join(g.vc)
	g.tick()
	x.timers = append(x.timers, t)
}

func virt(x *exec) time.Time { return Epoch.Add(time.Duration(x.now)) }

func Now() time.Time {
	x := cx
	if x == nil {
		return time.Now()
	}
	if x.abort {
		return virt(x)
	}
	x.evLocal(x.cur, uint64(x.now)^0xabcdef)
	return virt(x)
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	x := cx
	if x == nil {
		time.Sleep(d)
		return
	}
	if x.abort {
		runtime.Goexit()
	}
	g := x.cur
	if d <= 0 {
		g.pd = pend{kind: opStep, what: "Sleep(0)"}
		x.point(g)
		return
	}
	g.flag = false
	t := &vtimer{f: func(x *exec, t *vtimer) { g.flag = true }}
	x.addTimer(g, t, d)
	g.pd = pend{kind: opFlag, what: "Sleep " + d.String()}
	x.point(g)
	g.flag = false
	x.evLocal(g, uint64(x.now))
}

// Timer and Ticker stand in for time.Timer and time.Ticker.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	t  *vtimer
	nt *time.Timer
}

type Ticker struct {
	C  <-chan time.Time
	c  chan time.Time
	t  *vtimer
	nt *time.Ticker
}

func timePoint(x *exec, what string) *G {
	if x.abort {
		runtime.Goexit()
	}
	g := x.cur
	g.pd = pend{kind: opStep, what: what}
	x.point(g)
	x.effect()
	return g
}

func NewTimer(d time.Duration) *Timer {
	x := cx
	if x == nil {
		t := time.NewTimer(d)
		return &Timer{C: t.C, nt: t}
	}
	if x.abort {
		runtime.Goexit()
	}
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c, t: &vtimer{}}
	t.t.ch = x.vch(chPtr(c), 1, c)
	x.addTimer(x.cur, t.t, d)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	x := cx
	if x == nil || t.t == nil {
		if t.nt != nil {
			return t.nt.Stop()
		}
		return false
	}
	g := timePoint(x, "Timer.Stop")
	was := t.t.active
	x.dropTimer(t.t)
	x.evW(g, &t.t.o, 70)
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	x := cx
	if x == nil || t.t == nil {
		if t.nt != nil {
			return t.nt.Reset(d)
		}
		return false
	}
	g := timePoint(x, "Timer.Reset")
	was := t.t.active
	x.dropTimer(t.t)
	x.addTimer(g, t.t, d)
	return was
}

func AfterFunc(d time.Duration, f func()) *Timer {
	x := cx
	if x == nil {
		return &Timer{nt: time.AfterFunc(d, f)}
	}
	if x.abort {
		runtime.Goexit()
	}
	t := &Timer{t: &vtimer{gf: f}}
	x.addTimer(x.cur, t.t, d)
	return t
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	x := cx
	if x == nil {
		t := time.NewTicker(d)
		return &Ticker{C: t.C, nt: t}
	}
	if x.abort {
		runtime.Goexit()
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, t: &vtimer{period: int64(d)}}
	t.t.ch = x.vch(chPtr(c), 1, c)
	x.addTimer(x.cur, t.t, d)
	return t
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func (t *Ticker) Stop() {
	x := cx
	if t.t == nil || x == nil {
		t.nt.Stop() // panics like the original on a zero Ticker
		return
	}
	g := timePoint(x, "Ticker.Stop")
	x.dropTimer(t.t)
	x.evW(g, &t.t.o, 71)
}

func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	x := cx
	if t.t == nil || x == nil {
		if t.nt == nil {
			panic("time: Reset called on uninitialized Ticker")
		}
		t.nt.Reset(d)
		return
	}
	g := timePoint(x, "Ticker.Reset")
	x.dropTimer(t.t)
	t.t.period = int64(d)
	x.addTimer(g, t.t, d)
}

var _ = unsafe.Pointer(nil)
