package rt

import (
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	crand "crypto/rand"
	"github.com/google/uuid"
)

func (x *exec) unique() uint64 {
	g := x.cur
	g.uuids++
	return mix(g.idh, g.uuids)
}

func UUIDNew() uuid.UUID {
	x := cx
	if x == nil {
		return uuid.New()
	}
	var u uuid.UUID
	a := x.unique()
	binary.BigEndian.PutUint64(u[:8], a)
	binary.BigEndian.PutUint64(u[8:], mix(a, 5))
	return u
}

func UUIDNewString() string { return UUIDNew().String() }

func CryptoRead(b []byte) (int, error) {
	x := cx
	if x == nil {
		return crand.Read(b)
	}
	v := x.unique()
	for i := range b {
		if i%8 == 0 {
			v = mix(v, uint64(i))
		}
		b[i] = byte(v >> (8 * (uint(i) % 8)))
	}
	return len(b), nil
}

func RandSeed(int64) {}

func RandIntn(n int) int {
	if cx == nil {
		return mrand.Intn(n)
	}
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	k := n
	if k > 4 {
		k = 4
	}
	c := Deviate(k, "rand.Intn")
	if c == k-1 && n > k {
		return n - 1
	}
	return c
}
func RandInt31n(n int32) int32    { return int32(RandIntn(int(n))) }
func RandInt63n(n int64) int64    { return int64(RandIntn(int(n))) }
func RandInt() int                { return RandIntn(1 << 30) }
func RandFloat64() float64        { return float64(RandIntn(4)) / 4 }
func RandInt31() int32            { return int32(RandIntn(1 << 30)) }
func RandInt63() int64            { return int64(RandIntn(1 << 30)) }
func RandUint32() uint32          { return uint32(RandIntn(1 << 30)) }
func RandUint64() uint64          { return uint64(RandIntn(1 << 30)) }
func RandUint() uint              { return uint(RandIntn(1 << 30)) }
func RandUintN(n uint) uint       { return uint(RandIntn(int(n))) }
func RandUint32N(n uint32) uint32 { return uint32(RandIntn(int(n))) }
func RandUint64N(n uint64) uint64 { return uint64(RandIntn(int(n))) }
func RandFloat32() float32        { return float32(RandFloat64()) }
func RandNorm() float64           { return RandFloat64() }
func RandN[T interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n T) T {
	return T(RandIntn(int(n)))
}

// CryptoReader is crypto/rand.Reader.
var CryptoReader io.Reader = cryptoReader{}

type cryptoReader struct{}

func (cryptoReader) Read(b []byte) (int, error) { return CryptoRead(b) }

func CryptoText() string {
	b := make([]byte, 16)
	CryptoRead(b)
	return fmt.Sprintf("%X", b)[:26]
}

func CryptoInt(_ io.Reader, max *big.Int) (*big.Int, error) { return crand.Int(CryptoReader, max) }

func UUIDNewRandom() (uuid.UUID, error) { return UUIDNew(), nil }

func RandPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	return p
}
func RandShuffle(n int, swap func(i, j int)) {}

func Print(a ...any) (int, error)            { return 0, nil }
func Println(a ...any) (int, error)          { return 0, nil }
func Printf(f string, a ...any) (int, error) { _ = fmt.Sprintf(f, a...); return 0, nil }
func Fprintf(w io.Writer, f string, a ...any) (int, error) {
	if w == io.Writer(os.Stdout) || w == io.Writer(os.Stderr) {
		return 0, nil
	}
	return fmt.Fprintf(w, f, a...)
}

// Stack and DebugStack keep executions deterministic.
func Stack(buf []byte, all bool) int {
	if cx == nil {
		return runtime.Stack(buf, all)
	}
	return copy(buf, "stack")
}

func DebugStack() []byte {
	if cx == nil {
		return debug.Stack()
	}
	return []byte("stack")
}

// OSExit stands in for os.Exit and log.Fatal.
func OSExit(code int) {
	x := cx
	if x == nil {
		os.Exit(code)
	}
	x.fail("crash:os.Exit", fmt.Sprintf("the process exits with code %d", code))
}

type sigReg struct {
	c   chan<- os.Signal
	sig []os.Signal
}

// SignalNotify registers c for Raise.
func SignalNotify(c chan<- os.Signal, sig ...os.Signal) {
	x := cx
	if x == nil {
		return
	}
	l := Val("signals", func() any { return new([]sigReg) }).(*[]sigReg)
	*l = append(*l, sigReg{c, append([]os.Signal{}, sig...)})
	x.effect()
}

// SignalStop undoes SignalNotify.
func SignalStop(c chan<- os.Signal) {
	x := cx
	if x == nil {
		return
	}
	l := Val("signals", func() any { return new([]sigReg) }).(*[]sigReg)
	var keep []sigReg
	for _, r := range *l {
		if r.c != c {
			keep = append(keep, r)
		}
	}
	*l = keep
	x.effect()
}

// SignalNotifyContext is that of os/signal.
func SignalNotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := WithCancel(parent)
	ch := make(chan os.Signal, 1)
	SignalNotify(ch, sig...)
	Go(0, func() {
		Select(0, false, RecvCase(ch), RecvCase(ctx.Done()))
		cancel()
	})
	return ctx, func() { cancel(); SignalStop(ch) }
}

// Raise delivers a signal to every channel registered for it; one nobody waits for ends
// the process.
func Raise(s os.Signal) {
	l := Val("signals", func() any { return new([]sigReg) }).(*[]sigReg)
	caught := false
	for _, r := range *l {
		hit := len(r.sig) == 0
		for _, g := range r.sig {
			hit = hit || g == s
		}
		if hit {
			caught = true
			Select(0, true, SendCase(r.c)(s))
		}
	}
	if !caught {
		Fail("crash:signal", "nobody waits for %v: the process ends on the spot", s)
	}
}

// ---------------------------------------------------------------- harness API

// Fail records a violation of the property; it does not return.
func Fail(label, format string, a ...any) {
	if cx == nil {
		panic("rt.Fail outside an execution: " + fmt.Sprintf(format, a...))
	}
	if cx.abort {
		runtime.Goexit()
	}
	cx.fail(label, fmt.Sprintf(format, a...))
}

// Trace appends an event to the global trace; the order of events is part of the state.
func Trace(format string, a ...any) int {
	x := cx
	if x == nil || x.abort {
		return 0
	}
	s := fmt.Sprintf(format, a...)
	x.trace = append(x.trace, fmt.Sprintf("%8s %s: %s", time.Duration(x.now), x.cur.label(), s))
	x.evW(x.cur, &x.tobj, hashStr(s))
	x.effect()
	return len(x.trace)
}

// Note appends to the trace without making it part of the state (for the report only).
func Note(format string, a ...any) {
	x := cx
	if x == nil || x.abort {
		return
	}
	x.trace = append(x.trace, fmt.Sprintf("%8s %s: %s", time.Duration(x.now), x.cur.label(), fmt.Sprintf(format, a...)))
}

// Outcome distinguishes what executions ended in.
func Outcome(s string) {
	if cx != nil {
		cx.outcome = mix(cx.outcome, hashStr(s))
	}
}

// Step is an operation on a shared object of a fake environment: a scheduling point,
// then an event on the object with that name.
func Step(name string, write bool) {
	x := cx
	if x == nil {
		return
	}
	if x.abort {
		runtime.Goexit()
	}
	g := x.cur
	g.pd = pend{kind: opStep, what: name}
	x.point(g)
	Touch(name, write)
}

// Touch is Step without the scheduling point. It also orders memory accesses.
func Touch(name string, write bool) {
	x := cx
	if x == nil || x.abort {
		return
	}
	g := x.cur
	o := Val("obj:"+name, func() any { return &obj{} }).(*obj)
	g.acquire(o.vc)
	if write {
		x.effect()
		g.release(&o.vc)
		x.evW(g, o, hashStr(name))
	} else {
		x.evR(g, o, hashStr(name))
	}
}

// ObserveTouch orders the goroutine after writers of name, without hash dependence changes.
func WaitUntil(what string, cond func() bool) {
	x := cx
	if x.abort {
		runtime.Goexit()
	}
	g := x.cur
	g.pd = pend{kind: opCustom, cond: cond, what: what}
	x.point(g)
}

// WaitTimeout waits for cond, at most d of virtual time; it reports whether cond held.
func WaitTimeout(what string, d time.Duration, cond func() bool) bool {
	x := cx
	if x.abort {
		runtime.Goexit()
	}
	g := x.cur
	fired := false
	t := &vtimer{f: func(x *exec, t *vtimer) { fired = true }}
	x.addTimer(g, t, d)
	g.pd = pend{kind: opCustom, cond: func() bool { return fired || cond() }, what: what}
	x.point(g)
	x.dropTimer(t)
	ok := cond()
	x.evLocal(g, uint64(x.now))
	return ok
}

// Quiesce waits until nothing else can run without time passing.
func Quiesce() {
	x := cx
	if x.abort {
		runtime.Goexit()
	}
	g := x.cur
	g.pd = pend{kind: opQuiesce}
	x.point(g)
	x.evLocal(g, 97)
	// everything that happened is ordered before what the harness looks at next
	for _, o := range x.all {
		if o != g {
			g.vc.join(o.vc)
			x.evLocal(g, o.h)
		}
	}
}

// Alive lists where the goroutines of the code under test were started that have not ended.
func Alive() []string {
	x := cx
	var l []string
	for _, g := range x.gs {
		if n := SiteName(g.site); !g.done && g != x.cur && g.site != 0 && g.name == "" && !strings.Contains(n, "zzmc/") {
			l = append(l, n)
		}
	}
	sort.Strings(l)
	return l
}

// Threads starts the named functions as goroutines and waits for all of them.
func Threads(fs ...func()) {
	var wg WaitGroup
	wg.Add(len(fs))
	for i, f := range fs {
		f := f
		GoNamed(fmt.Sprintf("T%d", i+1), func() {
			defer wg.Done()
			f()
		})
	}
	wg.Wait()
}

// Elapsed is the virtual time since the start.
func Elapsed() time.Duration {
	if cx == nil {
		return 0
	}
	return time.Duration(cx.now)
}

// Thread returns the identity of the current goroutine.
func Thread() int {
	if cx == nil || cx.cur == nil {
		return 0
	}
	return cx.cur.id
}

// TraceLines returns the trace so far.
func TraceLines() []string { return cx.trace }

// CloneMap and CloneSlice copy package-level variables for the reset between executions.
func CloneMap[M ~map[K]V, K comparable, V any](m M) M {
	if m == nil {
		return nil
	}
	c := make(M, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}

func CloneSlice[S ~[]E, E any](s S) S {
	if s == nil {
		return nil
	}
	return append(make(S, 0, len(s)), s...)
}
