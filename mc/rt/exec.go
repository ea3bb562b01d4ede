// Package rt is the runtime of the model checker: instrumented code calls it for
// every synchronisation operation, every clock read and every shared memory
// access. It runs the goroutines of one execution one at a time, decides at every
// scheduling point who runs next, and keeps a virtual clock.
package rt

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------- goroutines

type opKind uint8

const (
	opStep    opKind = iota // always enabled
	opLock                  // mutex / rwmutex write lock
	opRLock                 // rwmutex read lock
	opWG                    // waitgroup wait
	opChan                  // send, receive, select
	opFlag                  // enabled once g.flag is set (sleep, cond, handed-off)
	opCustom                // enabled when cond() holds
	opQuiesce               // enabled when nobody else is
)

type pend struct {
	kind  opKind
	rw    *rwcore
	wg    *WaitGroup
	cases []scase
	hasD  bool // select with default
	cond  func() bool
	what  string
}

type G struct {
	id      int
	path    []int32
	idh     uint64
	h       uint64
	wake    chan struct{}
	pd      pend
	arrived bool // known blocked at its pending op
	flag    bool
	done    bool
	nchild  int32
	vc      VC
	// completion of a channel op by a partner
	hand    bool
	handIdx int
	handVal any
	handOK  bool
	// spin detection
	noeff    int
	seenEff  uint64
	yielded  bool
	yieldEff uint64
	lru      map[uint32][]int
	uuids    uint64
	name     string
	site     uint32
}

// ---------------------------------------------------------------- execution

type Config struct {
	Sched     int  // deviation budget of the schedule
	Fault     int  // fault budget
	Mem       bool // plain memory instrumentation active
	TimeDev   bool // offer "time passes now" as a deviation
	BlockFree bool // choosing another goroutine when the current one blocks is free
	MaxOps    int
	MaxTime   time.Duration // virtual horizon
}

type choicePoint struct {
	n     int    // number of alternatives
	pick  int    // chosen
	cls   uint8  // class
	cost  uint8  // cost of any non-zero pick
	hash  uint64 // state hash before the choice
	sused uint8  // sched budget used before
	fused uint8  // fault budget used before
}

const (
	clsSched = iota
	clsFault
	clsFree
)

// Violation is what one execution found.
type Violation struct {
	Label  string
	Detail string
	Trace  []string
}

type Dev struct {
	Idx  int    `json:"i"`
	Pick int    `json:"p"`
	Hash uint64 `json:"h"`
}

type exec struct {
	cfg    Config
	gs     []*G // canonical order
	all    []*G // creation order
	cur    *G
	main   *G
	abort  bool
	doneCh chan struct{}
	deadCh chan struct{}

	now    int64
	timers []*vtimer
	tseq   int

	devs     []Dev
	di       int
	points   []choicePoint
	sused    int
	fused    int
	diverged string

	sum     uint64 // state hash (goroutines)
	nops    int
	effects uint64
	pruned  bool
	viol    *Violation
	trace   []string
	tobj    obj

	objs     map[unsafe.Pointer]*obj
	chans    map[unsafe.Pointer]*vchan
	shadow   map[unsafe.Pointer]*shadow
	mapser   map[any]int
	promo    map[uint32]bool
	newSites map[uint32]bool
	pooled   map[any]bool // pointers that are in a sync.Pool
	outcome  uint64
	kept     []any

	seen      func(h uint64, sused, fused int) bool // reports "prune"
	cleanup   []func()
	vals      map[string]any
	end       bool
	racyMapOK bool
	lockOps   bool
}

// cx is the execution in progress; nil outside executions.
var cx *exec

func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 ^ (b + 0x7F4A7C159E3779B9 + (a << 6) + (a >> 2))
	x ^= x >> 32
	x *= 0xD6E8FEB86659FD93
	x ^= x >> 29
	return x
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return mix(h, uint64(len(s)))
}

// ---------------------------------------------------------------- vector clocks

type VC []uint32

func (v VC) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *VC) set(i int, c uint32) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i] = c
}

func (v *VC) join(o VC) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	d := *v
	for i, c := range o {
		if c > d[i] {
			d[i] = c
		}
	}
}

func (v VC) clone() VC { return append(VC(nil), v...) }

func (g *G) tick() { g.vc.set(g.id, g.vc.get(g.id)+1) }

// release publishes g's clock into *v; acquire joins it.
func (g *G) release(v *VC) { v.join(g.vc); g.tick() }
func (g *G) acquire(v VC)  { g.vc.join(v) }

// ---------------------------------------------------------------- objects and events

type obj struct {
	w, rd uint64
	vc    VC
}

func (x *exec) objAt(p unsafe.Pointer) *obj {
	o := x.objs[p]
	if o == nil {
		o = &obj{}
		x.objs[p] = o
	}
	return o
}

func (x *exec) setH(g *G, h uint64) {
	x.sum -= mix(g.idh, g.h)
	g.h = h
	x.sum += mix(g.idh, g.h)
}

// evW records that g performed a state-changing operation on o.
func (x *exec) evW(g *G, o *obj, k uint64) {
	e := mix(mix(g.h, o.w), mix(o.rd, k))
	x.setH(g, e)
	o.w, o.rd = e, 0
}

// evR records an operation of g that only observes o.
func (x *exec) evR(g *G, o *obj, k uint64) {
	e := mix(mix(g.h, o.w), k^0x5555)
	x.setH(g, e)
	o.rd += mix(e, 77)
}

func (x *exec) evLocal(g *G, k uint64) { x.setH(g, mix(g.h, k)) }

// effect notes that something visible to others changed.
func (x *exec) effect() {
	x.effects++
	if x.cur != nil {
		x.cur.noeff = 0
		x.cur.seenEff = x.effects
	}
}

func (x *exec) stateHash() uint64 {
	return mix(mix(x.sum, x.cur.idh), uint64(x.now))
}

// ---------------------------------------------------------------- scheduling

func (x *exec) enabled(g *G) bool {
	if g.done {
		return false
	}
	if g.hand {
		return true
	}
	switch g.pd.kind {
	case opStep:
		return true
	case opLock:
		return !g.pd.rw.w && g.pd.rw.r == 0
	case opRLock:
		if g.pd.rw.w {
			return false
		}
		return !x.writerWaits(g.pd.rw)
	case opWG:
		return g.flag || g.pd.wg.n == 0
	case opChan:
		if g.pd.hasD {
			return true
		}
		for i := range g.pd.cases {
			if x.caseReady(g, &g.pd.cases[i]) {
				return true
			}
		}
		return false
	case opFlag:
		return g.flag
	case opCustom:
		return g.pd.cond()
	case opQuiesce:
		for _, o := range x.gs {
			if o != g && o.pd.kind != opQuiesce && x.enabled(o) && !x.isYielded(o) {
				return false
			}
		}
		return true
	}
	return false
}

func (x *exec) writerWaits(rw *rwcore) bool {
	for _, o := range x.gs {
		if !o.done && o.arrived && o.pd.kind == opLock && o.pd.rw == rw {
			return true
		}
	}
	return false
}

func (x *exec) isYielded(g *G) bool {
	if !g.yielded {
		return false
	}
	if x.effects != g.yieldEff {
		g.yielded = false
		g.noeff = 0
		return false
	}
	return true
}

const (
	spinYield = 16
	spinStuck = 64
	spinFail  = 8192
)

// point is a scheduling point: g is about to perform the operation in g.pd.
// When it returns, the operation is enabled and g holds the token.
func (x *exec) point(g *G) {
	if x.abort {
		runtime.Goexit()
	}
	x.nops++
	if x.nops > x.cfg.MaxOps {
		x.fail("livelock", fmt.Sprintf("no end after %d operations (virtual time %v); current: %s\n%s", x.nops, time.Duration(x.now), x.describe(g), x.dump()))
	}
	if g.seenEff != x.effects {
		g.noeff = 0
		g.seenEff = x.effects
	}
	g.noeff++
	if g.noeff >= spinYield && !g.yielded {
		g.yielded = true
		g.yieldEff = x.effects
	}
	g.arrived = false
	next := x.pick(g)
	if next == g {
		return
	}
	x.switchTo(g, next)
}

func (x *exec) switchTo(g, next *G) {
	x.cur = next
	next.wake <- struct{}{}
	<-g.wake
	if x.abort {
		runtime.Goexit()
	}
}

// pick chooses the goroutine to run next; cur may be blocked or done.
func (x *exec) pick(cur *G) *G {
	for {
		var buf [48]*G
		en := buf[:0]
		curEn := false
		var yl *G
		start := 0
		for i, g := range x.gs {
			if g == cur {
				start = i
			}
		}
		n := len(x.gs)
		for k := 0; k < n; k++ {
			g := x.gs[(start+k)%n]
			if g.done || !x.enabled(g) {
				if g == cur && !g.done {
					g.arrived = true
				}
				continue
			}
			if x.isYielded(g) {
				if yl == nil || yl.noeff >= spinStuck || (g == cur && g.noeff < spinStuck) {
					yl = g
				}
				continue
			}
			if g == cur {
				curEn = true
			}
			en = append(en, g)
		}
		if len(en) == 0 && yl != nil {
			// only spinners can run: let them go on for a while, then let time pass
			if yl.noeff < spinStuck {
				yl.yielded = false
				x.checkSeen()
				return yl
			}
			if x.nextTimer() != nil {
				x.advance()
				continue
			}
			if yl.noeff < spinFail { // a long loop over what nobody else sees
				x.checkSeen()
				return yl
			}
			x.fail("livelock", "only spinning goroutines can run and no timer is pending: "+x.describe(yl)+"\n"+x.dump())
		}
		if len(en) == 0 {
			if x.nextTimer() != nil {
				x.advance()
				continue
			}
			x.fail("deadlock", "no goroutine can run and no timer is pending\n"+x.dump())
		}
		nalt := len(en)
		timeAlt := x.cfg.TimeDev && x.nextTimer() != nil && x.nextTimer().when <= int64(x.cfg.MaxTime)
		if timeAlt {
			nalt++
		}
		if nalt == 1 {
			x.checkSeen()
			return en[0]
		}
		cost := uint8(1)
		cls := uint8(clsSched)
		if !curEn && x.cfg.BlockFree {
			// choosing among others after a block is free; time is still a deviation
			if timeAlt {
				nalt--
				timeAlt = false
			}
			cost = 0
			cls = clsFree
			if nalt == 1 {
				x.checkSeen()
				return en[0]
			}
		}
		c := x.choose(nalt, cls, cost)
		if timeAlt && c == nalt-1 {
			x.advance()
			continue
		}
		return en[c]
	}
}

func (x *exec) checkSeen() {
	if x.seen != nil && x.di >= len(x.devs) {
		if x.seen(x.stateHash(), x.sused, x.fused) {
			x.pruned = true
			x.finish()
		}
	}
}

// choose takes one of n alternatives, 0 being the default.
func (x *exec) choose(n int, cls, cost uint8) int {
	idx := len(x.points)
	h := x.stateHash()
	pick := 0
	if x.di < len(x.devs) {
		d := x.devs[x.di]
		if d.Idx == idx {
			if d.Pick >= n || (d.Hash != 0 && d.Hash != h) {
				x.diverged = fmt.Sprintf("replay diverged at choice %d: pick %d of %d, state %x want %x", idx, d.Pick, n, h, d.Hash)
				x.finish()
			}
			pick = d.Pick
			x.di++
		}
	} else if x.seen != nil && cls != clsFree {
		if x.seen(h, x.sused, x.fused) {
			x.pruned = true
			x.finish()
		}
	}
	x.points = append(x.points, choicePoint{n: n, pick: pick, cls: cls, cost: cost, hash: h, sused: uint8(x.sused), fused: uint8(x.fused)})
	if pick != 0 {
		if cls == clsSched {
			x.sused += int(cost)
		} else if cls == clsFault {
			x.fused += int(cost)
		}
	}
	return pick
}

// Choose lets the explorer pick one of n inputs; every one of them is explored.
func Choose(n int, what string) int {
	x := cx
	if x == nil || n <= 1 {
		return 0
	}
	progress()
	c := x.choose(n, clsFree, 0)
	x.evLocal(x.cur, mix(hashStr(what), uint64(c)))
	return c
}

// Fault lets the explorer pick one of n outcomes, 0 = normal; others use up the fault budget.
func Fault(n int, what string) int {
	x := cx
	if x == nil || n <= 1 || x.cfg.Fault == 0 {
		return 0
	}
	c := x.choose(n, clsFault, 1)
	x.evLocal(x.cur, mix(hashStr(what), uint64(c)))
	return c
}

// Deviate lets the explorer pick one of n outcomes of an internal nondeterministic
// choice (map order, random member), 0 = default; others use up the schedule budget.
func Deviate(n int, what string) int {
	x := cx
	if x == nil || n <= 1 {
		return 0
	}
	c := x.choose(n, clsSched, 1)
	x.evLocal(x.cur, mix(hashStr(what), uint64(c)))
	return c
}

// fail records a violation and ends the execution. It does not return.
func (x *exec) fail(label, detail string) {
	if x.viol == nil && !x.abort {
		x.viol = &Violation{Label: label, Detail: detail, Trace: append([]string(nil), x.trace...)}
	}
	x.finish()
}

// finish ends the execution from the token holder. It does not return.
func (x *exec) finish() {
	if x.abort {
		runtime.Goexit()
	}
	x.abort = true
	x.end = true
	g := x.cur
	exiting := g.done
	x.doneCh <- struct{}{}
	if exiting {
		runtime.Goexit() // already past its last deferred call
	}
	// The controller now owns the token; wait to be told to die.
	<-g.wake
	runtime.Goexit()
}

func (x *exec) newG(parent *G, name string, site uint32) *G {
	g := &G{id: len(x.all), wake: make(chan struct{}, 1), name: name, site: site}
	if parent != nil {
		parent.nchild++
		g.path = append(append([]int32(nil), parent.path...), parent.nchild)
		g.idh = mix(parent.idh, uint64(parent.nchild))
		g.vc = parent.vc.clone()
		g.h = mix(parent.h, 99)
		parent.tick()
	} else {
		g.path = []int32{0}
		g.idh = 12345
		g.h = 1
	}
	g.tick()
	x.sum += mix(g.idh, g.h)
	x.all = append(x.all, g)
	i := sort.Search(len(x.gs), func(i int) bool { return pathLess(g.path, x.gs[i].path) })
	x.gs = append(x.gs, nil)
	copy(x.gs[i+1:], x.gs[i:])
	x.gs[i] = g
	return g
}

func pathLess(a, b []int32) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

func (x *exec) start(g *G, f func()) {
	go func() {
		<-g.wake
		defer x.exited(g)
		if x.abort {
			return
		}
		f()
	}()
}

// exited is the last deferred call of every managed goroutine.
func (x *exec) exited(g *G) {
	if x.abort {
		_ = recover()
		g.done = true
		x.deadCh <- struct{}{}
		return
	}
	if r := recover(); r != nil {
		if x.viol == nil {
			st := string(debug.Stack())
			x.viol = &Violation{Label: "crash:" + normPanic(r), Detail: fmt.Sprintf("unrecovered panic in goroutine %s: %v\n%s", g.label(), r, trimStack(st)), Trace: append([]string(nil), x.trace...)}
		}
		x.abort, x.end = true, true
		g.done = true
		x.remove(g)
		x.doneCh <- struct{}{}
		return
	}
	g.done = true
	if g == x.main {
		x.abort, x.end = true, true
		x.remove(g)
		x.doneCh <- struct{}{}
		return
	}
	// hand the token on (pick may end the execution through Goexit)
	next := x.pick(g)
	x.remove(g)
	x.cur = next
	next.wake <- struct{}{}
}

func (x *exec) remove(g *G) {
	for i, o := range x.gs {
		if o == g {
			x.gs = append(x.gs[:i], x.gs[i+1:]...)
			return
		}
	}
}

func normPanic(r any) string {
	s := fmt.Sprint(r)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 100 {
		s = s[:100]
	}
	return s
}

func trimStack(s string) string {
	ls := strings.Split(s, "\n")
	var out []string
	for i := 0; i < len(ls); i++ {
		if strings.Contains(ls[i], "pojol/braid") || strings.Contains(ls[i], "/repo/") || strings.Contains(ls[i], "/out/") {
			out = append(out, strings.TrimSpace(ls[i]))
		}
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (g *G) label() string {
	if g.name != "" {
		return g.name
	}
	s := fmt.Sprintf("g%d", g.id)
	if g.site != 0 {
		s += "(" + SiteName(g.site) + ")"
	}
	return s
}

func (x *exec) describe(g *G) string {
	w := ""
	switch g.pd.kind {
	case opStep:
		w = "runnable"
	case opLock:
		w = "waiting for a lock"
	case opRLock:
		w = "waiting for a read lock"
	case opWG:
		w = "waiting for a wait group"
	case opChan:
		w = "waiting on a channel"
	case opFlag:
		w = "sleeping/waiting"
	case opCustom:
		w = "waiting: " + g.pd.what
	case opQuiesce:
		w = "waiting for quiescence"
	}
	return g.label() + " " + w + " " + g.pd.what
}

func (x *exec) dump() string {
	var b strings.Builder
	n := 0
	for _, g := range x.gs {
		if n++; n > 40 {
			fmt.Fprintf(&b, "  ... %d in all\n", len(x.gs))
			break
		}
		if !g.done {
			b.WriteString("  " + x.describe(g) + "\n")
		}
	}
	return b.String()
}

// ---------------------------------------------------------------- running one execution

type Result struct {
	Points   []choicePoint
	Ops      int
	Viol     *Violation
	Pruned   bool
	Diverged string
	NewSites []uint32
	Trace    []string
	Outcome  uint64
	Vtime    time.Duration
	Gs       int
}

func runExec(cfg Config, body func(), devs []Dev, promo map[uint32]bool, seen func(uint64, int, int) bool) Result {
	if cfg.MaxOps == 0 {
		cfg.MaxOps = 20000
	}
	if cfg.MaxTime == 0 {
		cfg.MaxTime = 10 * time.Minute
	}
	x := &exec{
		cfg: cfg, devs: devs, promo: promo, seen: seen,
		doneCh: make(chan struct{}), deadCh: make(chan struct{}),
		objs: map[unsafe.Pointer]*obj{}, chans: map[unsafe.Pointer]*vchan{},
		shadow: map[unsafe.Pointer]*shadow{}, mapser: map[any]int{}, newSites: map[uint32]bool{},
		vals: map[string]any{},
	}
	resetGlobals()
	cx = x
	x.main = x.newG(nil, "main", 0)
	x.cur = x.main
	x.start(x.main, body)
	x.main.wake <- struct{}{}
	<-x.doneCh
	// kill what is left, one at a time
	for i := 0; i < len(x.all); i++ {
		g := x.all[i]
		if g.done {
			continue
		}
		x.cur = g
		g.wake <- struct{}{}
		<-x.deadCh
	}
	cx = nil
	for i := len(x.cleanup) - 1; i >= 0; i-- {
		x.cleanup[i]()
	}
	r := Result{Points: x.points, Ops: x.nops, Viol: x.viol, Pruned: x.pruned, Diverged: x.diverged, Trace: x.trace, Outcome: x.outcome, Vtime: time.Duration(x.now), Gs: len(x.all)}
	for s := range x.newSites {
		r.NewSites = append(r.NewSites, s)
	}
	if x.di < len(devs) && r.Diverged == "" && r.Viol == nil {
		r.Diverged = fmt.Sprintf("replay used %d of %d deviations", x.di, len(devs))
	}
	return r
}

// ---------------------------------------------------------------- package state reset

var globals []reflect.Value // pointers to the package-level variables
var globalRestore []func()
var globalModule string

// RegisterGlobal is called by every instrumented package, with a pointer to each of its
// package-level variables.
func RegisterGlobal(module string, p any) {
	globalModule = module
	globals = append(globals, reflect.ValueOf(p))
}

// SnapshotGlobals must be called once before the first execution. It saves the variables and
// what they lead to through maps, slices and pointers to types of the module; every execution
// finds it as it was, at the same addresses.
func SnapshotGlobals() {
	globalRestore = nil
	seen := map[any]bool{}
	for _, p := range globals {
		saveAt(p.Elem(), seen)
	}
}

func resetGlobals() {
	for _, r := range globalRestore {
		r()
	}
}

// ours reports whether memory of this type, behind a pointer, belongs to the module.
func ours(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Struct, reflect.Array:
	default:
		if t.PkgPath() == "" {
			return true // a plain value
		}
	}
	pkg := t.PkgPath()
	return pkg == "" || strings.HasPrefix(pkg, globalModule)
}

// saveAt saves the variable v, which is addressable.
func saveAt(v reflect.Value, seen map[any]bool) {
	v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	key := struct {
		p unsafe.Pointer
		t reflect.Type
	}{unsafe.Pointer(v.UnsafeAddr()), v.Type()}
	if seen[key] {
		return
	}
	seen[key] = true
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	globalRestore = append(globalRestore, func() { v.Set(c) })
	follow(v, seen)
}

// follow saves what v leads to.
func follow(v reflect.Value, seen map[any]bool) {
	switch v.Kind() {
	case reflect.Struct:
		if !ours(v.Type()) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.CanAddr() {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			follow(f, seen)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			follow(v.Index(i), seen)
		}
	case reflect.Pointer:
		if !v.IsNil() && ours(v.Type().Elem()) {
			saveAt(v.Elem(), seen)
		}
	case reflect.Interface:
		if !v.IsNil() && v.CanInterface() {
			follow(reflect.ValueOf(v.Interface()), seen)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			saveAt(v.Index(i), seen)
		}
	case reflect.Map:
		key := struct {
			p unsafe.Pointer
			t reflect.Type
		}{v.UnsafePointer(), v.Type()}
		if v.IsNil() || seen[key] || !v.CanInterface() {
			return
		}
		seen[key] = true
		var ks, vs []reflect.Value
		for it := v.MapRange(); it.Next(); {
			ks, vs = append(ks, it.Key()), append(vs, it.Value())
			follow(it.Value(), seen)
		}
		globalRestore = append(globalRestore, func() {
			if v.Len() == 0 && len(ks) == 0 {
				return
			}
			v.Clear()
			for i := range ks {
				v.SetMapIndex(ks[i], vs[i])
			}
		})
	}
}

// OnCleanup registers f to run after the execution (outside of it).
func OnCleanup(f func()) {
	if cx != nil {
		cx.cleanup = append(cx.cleanup, f)
	}
}

// Val returns a per-execution value, creating it on first use.
func Val(key string, mk func() any) any {
	x := cx
	if x == nil {
		panic("rt.Val outside an execution")
	}
	v, ok := x.vals[key]
	if !ok {
		v = mk()
		x.vals[key] = v
	}
	return v
}

// Active reports whether an execution is in progress.
func Active() bool { return cx != nil && !cx.abort }
