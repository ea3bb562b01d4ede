package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/golang-jwt/jwt"
	"github.com/opentracing/opentracing-go"
	"github.com/opentracing/opentracing-go/mocktracer"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/node"
	"github.com/pojol/braid/lib/span"
	"github.com/pojol/braid/lib/timer"
	"github.com/pojol/braid/lib/token"
	"github.com/pojol/braid/lib/tracer"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/zzmc/rt"
)

// runsAt lists the virtual times, in ms since base, at which runs of a task began.
func runsAt(name string) []int {
	var l []int
	for _, s := range rt.Logged(name) {
		var n int
		fmt.Sscan(s, &n)
		l = append(l, n)
	}
	return l
}

func nowMs() int { return int(rt.Elapsed() / time.Millisecond) }

// every lists due, due+i, due+2i ... up to and including last.
func every(due, i, last int) []int {
	var l []int
	for t := due; t <= last; t += i {
		l = append(l, t)
	}
	return l
}

func sameInts(a, b []int) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

// mockTracer counts the spans that were started.
type mockTracer struct {
	*mocktracer.MockTracer
	started int
}

func (m *mockTracer) StartSpan(op string, opts ...opentracing.StartSpanOption) opentracing.Span {
	m.started++
	return m.MockTracer.StartSpan(op, opts...)
}

type fakeTracer struct {
	t       *mockTracer
	factory tracer.SpanFactory
}

func (f *fakeTracer) GetSpan(strategy string) (tracer.ISpan, error) {
	if f.factory == nil || strategy != span.SystemCall {
		return nil, tracer.ErrFactoryNotExist
	}
	return f.factory(f.t)
}
func (f *fakeTracer) GetTracing() interface{} { return f.t }

// tracedCluster builds two nodes that share a recording tracer.
func tracedCluster(callSpans bool, specs ...spec) ([]core.ISystem, *mockTracer) {
	redisUp()
	t := &mockTracer{MockTracer: mocktracer.New()}
	var r []core.ISystem
	for i := 1; i <= 2; i++ {
		f := newFactory(specs...)
		ft := &fakeTracer{t: t}
		if callSpans {
			ft.factory = span.CreateCallSpan(span.WithNodeID(fmt.Sprintf("n%d", i)))
		}
		r = append(r, node.BuildProcessWithOption(
			core.NodeWithID(fmt.Sprintf("n%d", i)), core.NodeWithIP("127.0.0.1"), core.NodeWithPort(9000+i),
			core.NodeWithLoader(&loader{f}), core.NodeWithFactory(f), core.NodeWithTracer(ft)).System())
	}
	settle()
	return r, t
}

// shape checks that the finished spans are exactly those of the given chains, each one trace:
// a chain is the operations from the root down, each the only child of the one before.
func shape(t *mockTracer, chains ...[]string) {
	fin := t.FinishedSpans()
	byID := map[int]*mocktracer.MockSpan{}
	for _, s := range fin {
		if byID[s.SpanContext.SpanID] != nil {
			rt.Fail("span-twice", "%s is finished twice", s.OperationName)
		}
		byID[s.SpanContext.SpanID] = s
	}
	if t.started != len(fin) {
		rt.Fail("span-open", "%d spans are started, %d finished", t.started, len(fin))
	}
	kids := map[int][]int{}
	var got []string
	for id, s := range byID {
		kids[s.ParentID] = append(kids[s.ParentID], id)
		if s.ParentID != 0 {
			p := byID[s.ParentID]
			if p == nil {
				rt.Fail("trace-broken", "%s has a parent that is no span of any trace", s.OperationName)
			}
			if p.SpanContext.TraceID != s.SpanContext.TraceID {
				rt.Fail("trace-broken", "%s is in another trace than its parent %s", s.OperationName, p.OperationName)
			}
		}
	}
	for id, s := range byID {
		if len(kids[id]) != 0 {
			continue
		}
		var path []string
		for x := s; x != nil; x = byID[x.ParentID] {
			path = append([]string{strings.ToLower(x.OperationName)}, path...)
		}
		got = append(got, strings.Join(path, " > "))
	}
	var want []string
	for _, c := range chains {
		want = append(want, strings.Join(c, " > "))
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		rt.Fail("trace-shape", "the traces are %q, want %q", got, want)
	}
}

type fieldCase struct {
	name string
	ok   func(set func(v any), get func() *msg.Wrapper, res bool) string
}

// field makes a case that writes v and reads it back as a T.
func field[T comparable](v T) fieldCase {
	return fieldCase{fmt.Sprintf("%T(%v)", v, v), func(set func(any), get func() *msg.Wrapper, res bool) string {
		set(v)
		var got T
		if res {
			got = msg.GetResCustomField[T](get(), "k")
		} else {
			got = msg.GetReqCustomField[T](get(), "k")
		}
		if got != v {
			return fmt.Sprintf("%T %v is read back as %v", v, v, got)
		}
		return ""
	}}
}

type prefixSerialize struct{ msg.CustomJsonSerialize }

func (p *prefixSerialize) Encode(v any) ([]byte, error) {
	b, err := p.CustomJsonSerialize.Encode(v)
	return append([]byte("P"), b...), err
}
func (p *prefixSerialize) Decode(b []byte, v any) error {
	if len(b) == 0 || b[0] != 'P' {
		return errors.New("not this serializer's")
	}
	return p.CustomJsonSerialize.Decode(b[1:], v)
}

func init() {
	// L04: the tick timers.
	register("L04", func(tier string) []rt.Scenario {
		d := pick(tier, 2, 3)
		const I = 10
		run := func(name string) timer.TimerHandleFunc {
			return func(c *timer.TimerContext) error {
				if c.TimerData != nil {
					rt.Check(c.TimerData == "of "+c.TimerID, "timer-data", "%s has data %v", c.TimerID, c.TimerData)
				}
				if rt.Enter("run "+name) > 1 {
					rt.Fail("overlap", "two runs of %s at once", name)
				}
				rt.Log(name, "%d", nowMs())
				rt.Leave("run " + name)
				return nil
			}
		}
		svc := func() *timer.TimerService {
			s := timer.Init()
			s.SetExceptionHandler(func(c *timer.TimerContext, err error) { rt.Log("exception", "%s:%v", c.TimerID, err) })
			return s
		}
		addWith := func(s *timer.TimerService, id string, isRun bool, due, interval int64, h timer.TimerHandleFunc, data any) {
			if _, err := s.NewTickTask(id, isRun, due, interval, h, data); err != nil {
				rt.Fail("refused", "%v", err)
			}
		}
		add := func(s *timer.TimerService, id string, isRun bool, due, interval int64, h timer.TimerHandleFunc) {
			addWith(s, id, isRun, due, interval, h, nil)
		}
		is := func(name string, want []int) {
			if got := runsAt(name); !sameInts(got, want) {
				rt.Fail("schedule", "%s ran at %v ms, want %v", name, got, want)
			}
		}
		return []rt.Scenario{
			S("ticks", "the first run comes after the due time, the others at the interval; tasks do not disturb each other", d, func() {
				s := svc()
				due := []int64{0, 5, 23}[rt.Choose(3, "due")]
				add(s, "a", true, due, I, run("a"))
				add(s, "b", true, 0, 2*I, run("b"))
				add(s, "off", false, 0, I, run("off"))
				if rt.Choose(2, "all") == 0 {
					s.StartAllTask()
				} else {
					s.StartTask("a")
					s.StartTask("b")
					s.StartTask("off")
					s.StartTask("none")
				}
				sleepMs(58)
				is("a", every(int(due), I, 57))
				is("b", every(0, 2*I, 57))
				is("off", nil)
			}, noMem),
			S("matrix", "short and long due times and intervals, stopped and started again", 0, func() {
				s := svc()
				due := []int64{0, 1, 10, 999, 70000}[rt.Choose(5, "due")]
				iv := []int64{1, 7, 1000, 60000, 100000}[rt.Choose(5, "interval")]
				var want []int
				n := 0
				addWith(s, "a", true, due, iv, run("a"), "of a")
				for i := 0; i < 2; i++ {
					s.StartTask("a")
					for k, d := 0, n+int(due); k < 4; k, d = k+1, d+int(iv) {
						want = append(want, d)
					}
					ms := int(due + 3*iv)
					sleepMs(ms)
					rt.Quiesce()
					s.StopTask("a")
					n += ms
					sleepMs(2000)
					n += 2000
				}
				is("a", want)
			}, noMem, ops(200000), horizon(time.Hour)),
			S("removed", "a task that is removed, or replaced by one of the same name, runs no more", d, func() {
				s := svc()
				due := []int64{0, 15}[rt.Choose(2, "due")]
				data := []any{nil, "of a"}[rt.Choose(2, "data")]
				addWith(s, "a", true, due, I, run("a"), data)
				addWith(s, "keep", true, 0, I, run("keep"), "of keep")
				s.StartAllTask()
				at := []int{1, 3, 33}[rt.Choose(3, "when")]
				sleepMs(at)
				rt.Quiesce()
				addWith(s, "a1", true, 0, I, run("a1"), nil) // names that begin alike
				addWith(s, "", true, 0, I, run("empty"), nil)
				switch rt.Choose(3, "operation") {
				case 0:
					s.RemoveTask("a")
				case 1:
					addWith(s, "a", true, 0, I, run("new"), data)
					s.StartTask("a")
				case 2:
					s.RemoveTask("a")
					s.RemoveTask("a")
					s.StartTask("a")
					add(s, "a", true, 0, I, run("new"))
				}
				n := len(runsAt("a"))
				sleepMs(50)
				rt.Check(len(runsAt("a")) == n, "runs-on", "the task ran %d times before and %d times after it was removed", n, len(runsAt("a"))-n)
				is("keep", every(0, I, at+50))
				s.StopTask("a")
				n = len(runsAt("a1")) + len(runsAt("empty"))
				rt.Check(n == 0, "runs-on", "tasks that were not started ran %d times", n)
				s.StartTask("a1")
				s.StartTask("")
				sleepMs(5)
				rt.Check(len(runsAt("a1")) == 1 && len(runsAt("empty")) == 1, "lost", "the removal of a task took others along: ran at %v and %v", runsAt("a1"), runsAt("empty"))
			}, noMem),
			S("outcomes", "runs that fail or panic reach the exception handler, and the next run comes at the interval", 0, func() {
				s := svc()
				due := []int64{0, 5}[rt.Choose(2, "due")]
				var want []string
				n := 0
				add(s, "a", true, due, I, func(c *timer.TimerContext) error {
					rt.Log("a", "%d", nowMs())
					n++
					switch rt.Choose(3, "outcome") {
					case 1:
						want = append(want, fmt.Sprintf("a:e%d", n))
						return fmt.Errorf("e%d", n)
					case 2:
						want = append(want, fmt.Sprintf("a:p%d", n))
						panic(fmt.Sprintf("p%d", n))
					}
					return nil
				})
				s.StartTask("a")
				sleepMs(int(due) + 38)
				s.StopTask("a")
				sleepMs(30)
				is("a", every(int(due), I, int(due)+37))
				rt.Check(fmt.Sprint(rt.Logged("exception")) == fmt.Sprint(want), "exception", "the exception handler saw %v, want %v", rt.Logged("exception"), want)
			}, noMem),
			S("hooks", "the hooks surround each run, and one that sets IsEnd skips the runs until it is cleared", 0, func() {
				s := svc()
				s.SetOnBeforeHandler(func(c *timer.TimerContext) error {
					rt.Log("seq", "before")
					c.IsEnd = rt.Choose(2, "end") == 1
					if c.IsEnd {
						rt.Log("seq", "skip")
					}
					return nil
				})
				s.SetOnEndHandler(func(c *timer.TimerContext) error { rt.Log("seq", "end"); return nil })
				add(s, "a", true, 0, I, func(*timer.TimerContext) error { rt.Log("seq", "run"); return nil })
				s.StartTask("a")
				sleepMs(35)
				if rt.Choose(2, "how") == 0 {
					s.StopTask("a")
				} else {
					s.StopAllTask()
				}
				s.SetOnBeforeHandler(func(c *timer.TimerContext) error { rt.Log("seq", "before"); c.IsEnd = false; return nil })
				sleepMs(30)
				l := rt.Logged("seq")
				rt.Check(len(l) == 12, "hooks", "%v", l)
				for i := 0; i+2 < len(l); i += 3 {
					rt.Check(l[i] == "before" && (l[i+1] == "run" || l[i+1] == "skip") && l[i+2] == "end", "hooks", "%v", l)
				}
			}, noMem),
			S("sequences", "every sequence of start, stop and waiting: the runs are those of the last start that was not stopped", 0, func() {
				s := svc()
				due := []int{0, 15}[rt.Choose(2, "due")]
				add(s, "a", true, int64(due), I, run("a"))
				var want []int
				started := -1
				for i := 0; i < pick(tier, 5, 6); i++ {
					switch rt.Choose(3, "op") {
					case 0:
						s.StartTask("a")
						if started < 0 {
							started = nowMs()
						}
						rt.Quiesce()
					case 1:
						if rt.Choose(2, "how") == 0 {
							s.StopTask("a")
						} else {
							rt.Check(s.Stop("a") == nil, "refused", "Stop of a known task fails")
						}
						if started >= 0 {
							want = append(want, every(started+due, I, nowMs())...)
							started = -1
						}
					case 2:
						sleepMs(13)
					}
				}
				sleepMs(41)
				rt.Quiesce()
				if started >= 0 {
					want = append(want, every(started+due, I, nowMs())...)
				}
				is("a", want)
				rt.Check(s.Stop("none") != nil, "refused", "Stop of an unknown task succeeds")
			}, noMem),
			S("slow", "runs that take longer than the interval never overlap", d, func() {
				s := svc()
				add(s, "a", true, 0, I, func(c *timer.TimerContext) error {
					run("a")(c)
					if rt.Enter("slow") > 1 {
						rt.Fail("overlap", "two runs at once")
					}
					sleepMs(25)
					rt.Leave("slow")
					return nil
				})
				s.StartTask("a")
				sleepMs(60)
				s.StopTask("a")
				s.StartTask("a")
				sleepMs(60)
				s.StopTask("a")
				sleepMs(100)
				n := len(runsAt("a"))
				rt.Check(n >= 4 && n <= 7, "schedule", "%v", runsAt("a"))
			}, noMem),
			S("own", "a run that stops, or stops and starts, its own task", d, func() {
				s := svc()
				again := rt.Choose(2, "again") == 1
				add(s, "a", true, 0, I, func(c *timer.TimerContext) error {
					run("a")(c)
					if len(runsAt("a")) == 2 {
						s.StopTask("a")
						if again {
							s.StartTask("a")
						}
					}
					return nil
				})
				s.StartTask("a")
				sleepMs(45)
				want := []int{0, 10}
				if again {
					want = []int{0, 10, 10, 20, 30, 40}
				}
				is("a", want)
			}),
			S("stop-race", "a stop at the moment of a tick: at most the run that is due", d, func() {
				s := svc()
				due := []int64{0, 10}[rt.Choose(2, "due")]
				add(s, "a", true, due, I, run("a"))
				s.StartTask("a")
				sleepMs(10)
				s.StopTask("a")
				rt.Quiesce()
				n := len(runsAt("a"))
				sleepMs(50)
				rt.Check(len(runsAt("a")) == n && n <= 2, "schedule", "%v", runsAt("a"))
			}),
			S("start-race", "two starts at once are one", d, func() {
				s := svc()
				add(s, "a", true, 0, I, run("a"))
				rt.Threads(func() { s.StartTask("a") }, func() { s.StartTask("a") })
				sleepMs(25)
				is("a", []int{0, 10, 20})
			}),
			S("service", "the service is used by several goroutines at once", d, func() {
				s := svc()
				add(s, "a", true, 0, I, run("a"))
				rt.Threads(func() { s.StartAllTask() }, func() {
					add(s, "b", true, 0, I, run("b"))
					s.StartTask("b")
				}, func() { s.RemoveTask("c"); s.StopTask("c") })
				sleepMs(25)
				is("a", []int{0, 10, 20})
				is("b", []int{0, 10, 20})
				s.StopAllTask()
				sleepMs(50)
				is("a", []int{0, 10, 20})
				is("b", []int{0, 10, 20})
			}),
			S("interval", "a task without an interval is refused or never started, and brings nothing down", 0, func() {
				s := svc()
				_, err := s.NewTickTask("a", true, 0, int64(-rt.Choose(2, "interval")), run("a"), nil)
				s.StartTask("a")
				sleepMs(50)
				rt.Check(err != nil && len(runsAt("a")) == 0, "interval", "%v, runs %v", err, runsAt("a"))
			}),
		}
	})

	// L07: tokens.
	register("L07", func(tier string) []rt.Scenario {
		alphabet := []string{"a", "Z", "0", "\"", "\\", "<", " ", ".", "\x00", "é", "\xff", "界", "\u2028"}
		ids := func() string {
			id := ""
			for i, n := 0, 1+rt.Choose(pick(tier, 3, 4), "length"); i < n; i++ {
				id += alphabet[rt.Choose(len(alphabet), "char")]
			}
			return id
		}
		few := []string{"a", "user-1", "\"", "é"}
		// wrong accepts an error or the id itself, and nothing else.
		wrong := func(tok, id, what string) {
			got, err := token.Parse(tok)
			if err == nil && got != id {
				rt.Fail("forged", "the token of %q, %s, is accepted as %q", id, what, got)
			}
			if err != nil && got != "" {
				rt.Fail("forged", "an error comes with the id %q", got)
			}
		}
		return []rt.Scenario{
			S("round-trip", "every id over a small alphabet comes back, or no token is made for it", 0, func() {
				id := ids()
				tok, err := token.Create(id)
				if err != nil {
					rt.Check(strings.Contains(id, "\xff"), "refused", "no token for %q: %v", id, err)
					rt.Check(tok == "", "refused", "an error and a token")
					return
				}
				got, err := token.Parse(tok)
				rt.Check(err == nil && got == id, "round-trip", "the token of %q is read as %q, %v", id, got, err)
			}, noMem, ops(1<<20)),
			S("empty", "the empty id has no token", 0, func() {
				tok, err := token.Create("")
				rt.Check(err != nil && tok == "", "empty", "%q", tok)
				_, err = token.Parse("")
				rt.Check(err != nil, "empty", "the empty token is accepted")
			}, noMem),
			S("mutations", "every token with one byte replaced, removed or doubled", 0, func() {
				id := few[rt.Choose(len(few), "id")]
				tok, _ := token.Create(id)
				i := rt.Choose(len(tok), "position")
				for b := 0; b < 256; b++ {
					wrong(tok[:i]+string([]byte{byte(b)})+tok[i+1:], id, "a byte replaced")
				}
				wrong(tok[:i]+tok[i+1:], id, "a byte removed")
				wrong(tok[:i]+tok[i:i+1]+tok[i:], id, "a byte doubled")
				wrong(tok[:i], id, "cut off")
			}, noMem, ops(1<<20)),
			S("splices", "header, claims and signature of different tokens", 0, func() {
				a, b := few[rt.Choose(len(few), "a")], few[rt.Choose(len(few), "b")]
				ta, _ := token.Create(a)
				tb, _ := token.Create(b)
				pa, pb := strings.Split(ta, "."), strings.Split(tb, ".")
				for m := 0; m < 8; m++ {
					p := make([]string, 3)
					for i := range p {
						p[i] = pa[i]
						if m>>i&1 == 1 {
							p[i] = pb[i]
						}
					}
					got, err := token.Parse(strings.Join(p, "."))
					if err == nil && (p[1] != pa[1] || got != a || p[2] != pa[2]) && (p[1] != pb[1] || got != b || p[2] != pb[2]) {
						rt.Fail("forged", "the claims of %q with the signature of another are accepted as %q", a, got)
					}
				}
			}, noMem),
			S("foreign", "tokens signed with another key or not at all, and claims without an id", 0, func() {
				sign := func(m jwt.SigningMethod, key any, c jwt.Claims) string {
					s, err := jwt.NewWithClaims(m, c).SignedString(key)
					if err != nil {
						rt.Fail("setup", "%v", err)
					}
					return s
				}
				c := token.Claims{EntityID: "a"}
				tok := []string{
					sign(jwt.SigningMethodHS256, []byte("other"), c),
					sign(jwt.SigningMethodHS256, []byte(""), c),
					sign(jwt.SigningMethodNone, jwt.UnsafeAllowNoneSignatureType, c),
					sign(jwt.SigningMethodHS256, []byte("token"), token.Claims{}),
					sign(jwt.SigningMethodHS256, []byte("token"), jwt.MapClaims{"EntityID": 1}),
					sign(jwt.SigningMethodHS256, []byte("token"), jwt.MapClaims{}),
				}[rt.Choose(6, "token")]
				got, err := token.Parse(tok)
				rt.Check(err != nil && got == "", "forged", "accepted as %q", got)
			}, noMem),
		}
	})

	// L08: the custom fields of a message.
	register("L08", func(tier string) []rt.Scenario {
		const big = 1 << 53
		cases := []fieldCase{
			field(""), field("x"), field("é\"\\<\x00"), field(true), field(false),
			field(int(0)), field(int(-big)), field(int(big)), field(int8(-128)), field(int8(127)), field(int16(-32768)), field(int16(32767)),
			field(int32(-1 << 31)), field(int32(1<<31 - 1)), field(int64(-big)), field(int64(big)), field(int64(big - 1)),
			field(uint(big)), field(uint8(255)), field(uint16(65535)), field(uint32(1<<32 - 1)), field(uint64(big)), field(uint64(0)),
			field(int(-70000)), field(int8(-1)), field(int8(100)), field(int16(-300)), field(int16(300)), field(int32(-70000)), field(int32(1<<24 + 1)), field(int64(1<<32 + 1)), field(int64(-1<<31 - 1)),
			field(uint(1<<32 + 1)), field(uint8(128)), field(uint8(200)), field(uint16(300)), field(uint16(40000)), field(uint32(1<<31 + 5)), field(uint32(70000)), field(uint64(1<<31 + 5)), field(uint64(1<<40 + 1)),
			field(float32(16777217)), field(float64(16777217)), field(float64(1 << 60)), field(true), field("true"), field("1"),
			field(float32(1.5)), field(float32(3.4028235e38)), field(float64(-0.1)), field(float64(1e300)), field(float64(5e-324)),
		}
		return []rt.Scenario{
			S("round-trip", "a value of every scalar type at its bounds, in requests and responses, alone or among other fields, in any order of writing", 0, func() {
				c := cases[rt.Choose(len(cases), "value")]
				res := rt.Choose(2, "response") == 1
				b := msg.NewBuilder(context.Background())
				put := func(at ...msg.Attr) {
					if res {
						b = b.WithResCustomFields(at...)
					} else {
						b = b.WithReqCustomFields(at...)
					}
				}
				other := msg.Attr{Key: "other", Value: "o"}
				how := rt.Choose(5, "order")
				set := func(v any) {
					k := msg.Attr{Key: "k", Value: v}
					switch how {
					case 0:
						put(k)
					case 1:
						put(k, other)
					case 2:
						put(other)
						put(k)
					case 3:
						put(k)
						put(other)
					case 4:
						put(msg.Attr{Key: "k", Value: "old"}, other)
						put(k)
					}
				}
				if e := c.ok(set, b.Build, res); e != "" {
					rt.Fail("round-trip", "%s", e)
				}
				mw := b.Build()
				rt.Check(mw.Err == nil, "round-trip", "%v", mw.Err)
				if how > 0 {
					o := msg.GetReqCustomField[string](mw, "other")
					if res {
						o = msg.GetResCustomField[string](mw, "other")
					}
					rt.Check(o == "o", "field-lost", "another field is %q", o)
				}
				if res {
					rt.Check(len(mw.Req.Header.Custom) == 0, "leak", "the request has the response's fields")
				} else {
					rt.Check(len(mw.Res.Header.Custom) == 0, "leak", "the response has the request's fields")
				}
			}, noMem),
			S("many", "a hundred fields of up to 3000 bytes, one or ten in each step, some of them written twice", 0, func() {
				size := []int{0, 10, 3000}[rt.Choose(3, "size")]
				step := []int{1, 10}[rt.Choose(2, "fields in a step")]
				res := rt.Choose(2, "response") == 1
				b := msg.NewBuilder(context.Background())
				put, get := b.WithReqCustomFields, msg.GetReqCustomField[string]
				if res {
					put, get = b.WithResCustomFields, msg.GetResCustomField[string]
				}
				want := map[string]string{}
				var at []msg.Attr
				for i := 0; i < 100; i++ {
					k, v := fmt.Sprint("k", i%90), fmt.Sprint(i)+strings.Repeat("v", size)
					want[k] = v
					at = append(at, msg.Attr{Key: k, Value: v})
					if len(at) == step {
						put(at...)
						at = nil
					}
				}
				mw := b.Build()
				rt.Check(mw.Err == nil, "round-trip", "%v", mw.Err)
				for k, v := range want {
					rt.Check(get(mw, k) == v, "round-trip", "field %s of %d bytes reads as %d bytes", k, len(v), len(get(mw, k)))
				}
			}, noMem),
			S("absent", "a missing field, a field of another type and a message without fields read as zero", 0, func() {
				b := msg.NewBuilder(context.Background())
				if rt.Choose(2, "any") == 1 {
					b.WithReqCustomFields(msg.Attr{Key: "s", Value: "x"}, msg.Attr{Key: "n", Value: 7})
					b.WithResCustomFields(msg.Attr{Key: "s", Value: "x"}, msg.Attr{Key: "n", Value: 7})
				}
				mw := b.Build()
				rt.Check(msg.GetReqCustomField[int](mw, "z") == 0 && msg.GetResCustomField[string](mw, "z") == "" && msg.GetReqCustomField[int](mw, "s") == 0 &&
					msg.GetResCustomField[string](mw, "n") == "" && !msg.GetReqCustomField[bool](mw, "s") && msg.GetResCustomField[uint64](mw, "s") == 0, "absent", "not zero")
			}, noMem),
			S("invalid", "a value that cannot be written is reported and leaves the other fields", 0, func() {
				res := rt.Choose(2, "response") == 1
				b := msg.NewBuilder(context.Background())
				put, get := b.WithReqCustomFields, msg.GetReqCustomField[string]
				if res {
					put, get = b.WithResCustomFields, msg.GetResCustomField[string]
				}
				put(msg.Attr{Key: "s", Value: "x"})
				put(msg.Attr{Key: "f", Value: func() {}})
				mw := b.Build()
				rt.Check(mw.Err != nil && get(mw, "s") == "x", "invalid", "%v %q", mw.Err, get(mw, "s"))
			}, noMem),
			S("objects", "custom objects", 0, func() {
				type obj struct {
					A int64
					B string
					C []uint8
					D map[string]int
					E *float64
				}
				f := 1.5
				in := []obj{{}, {A: -1 << 63, B: "x", C: []uint8{0, 255}, D: map[string]int{"k": 1 << 62}, E: &f}}[rt.Choose(2, "object")]
				b := msg.NewBuilder(context.Background())
				var out obj
				var err error
				rt.Check(b.GetReqCustomObject(&out) != nil && b.GetResCustomObject(&out) != nil, "absent", "an object is read from nothing")
				if rt.Choose(2, "response") == 1 {
					err = b.WithResCustomObject(in).GetResCustomObject(&out)
				} else {
					err = b.WithReqCustomObject(in).GetReqCustomObject(&out)
				}
				eq := err == nil && out.A == in.A && out.B == in.B && string(out.C) == string(in.C) && out.D["k"] == in.D["k"] && (in.E == nil) == (out.E == nil)
				if eq && in.E != nil {
					eq = *in.E == *out.E
				}
				rt.Check(eq, "round-trip", "%+v is read back as %+v, %v", in, out, err)
			}, noMem),
			S("serializer", "a message that is built with other serializers writes and reads with them", 0, func() {
				o := func(p *msg.WrapperParm) {
					p.CustomMapSerialize = &prefixSerialize{}
					p.CustomObjSerialize = &prefixSerialize{}
				}
				b := msg.NewBuilder(context.Background(), o).WithReqCustomFields(msg.Attr{Key: "a", Value: 1}).WithReqCustomFields(msg.Attr{Key: "b", Value: "x"})
				b.WithResCustomFields(msg.Attr{Key: "a", Value: 1}).WithResCustomFields(msg.Attr{Key: "b", Value: "x"})
				mw := b.Build()
				rt.Check(mw.Err == nil && mw.Req.Header.Custom[0] == 'P' && mw.Res.Header.Custom[0] == 'P', "serializer", "%v %s", mw.Err, mw.Req.Header.Custom)
				rt.Check(msg.GetReqCustomField[int](mw, "a") == 1 && msg.GetReqCustomField[string](mw, "b") == "x" &&
					msg.GetResCustomField[int](mw, "a") == 1 && msg.GetResCustomField[string](mw, "b") == "x", "serializer", "not read back: %s", mw.Req.Header.Custom)
				b = msg.NewBuilder(context.Background(), o).WithReqCustomObject(7)
				var n int
				rt.Check(b.Build().Req.Header.Custom[0] == 'P' && b.GetReqCustomObject(&n) == nil && n == 7, "serializer", "object: %d", n)
			}, noMem),
			S("remote", "what a request carries reaches a remote handler, and what the response carries comes back", 0, func() {
				c := cases[rt.Choose(len(cases), "value")]
				n := cluster(2, spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ev", func(mw *msg.Wrapper) error {
						mw.ToBuilder().WithResCustomFields(msg.Attr{Key: "seen", Value: string(mw.Req.Header.Custom)})
						rt.Log("req", "%s", mw.Req.Header.Custom)
						mw.Res.Header.Custom = mw.Req.Header.Custom
						return nil
					})
				}})
				settle()
				spawn(n[1], "t", "x")
				b := msg.NewBuilder(context.Background())
				e := c.ok(func(v any) { b.WithReqCustomFields(msg.Attr{Key: "k", Value: v}) }, func() *msg.Wrapper {
					mw := b.Build()
					if err := n[0].Call("x", "t", "ev", mw); err != nil {
						rt.Fail("setup", "%v", err)
					}
					rt.Check(string(mw.Req.Header.Custom) == rt.Logged("req")[0], "field-lost", "sent %s, the handler sees %v", mw.Req.Header.Custom, rt.Logged("req"))
					return mw
				}, true)
				rt.Check(e == "", "round-trip", "%s", e)
			}, noMem),
		}
	})

	// L09: the entity version strategies.
	register("L09", func(tier string) []rt.Scenario {
		base := func() int { entityBase += 100; return entityBase }
		model := func(b int, reg []int) {
			for v := b; v <= b+6; v++ {
				next, known := v, false
				for _, r := range reg {
					if r > v && (next == v || r < next) {
						next = r
					}
					known = known || r == v
				}
				rt.Check(core.GetNextVersion(v) == next, "next", "after %d, with %v registered in this order: %d, want %d", v-b, minus(reg, b), core.GetNextVersion(v)-b, next-b)
				s, err := core.GetVerStrategy(v)
				rt.Check((err == nil) == known && (!known || s.Version == v && s.Reason == fmt.Sprint(v)), "strategy", "strategy %d: %+v %v", v-b, s, err)
				rt.Check(known || isErr(err, core.ErrNotfoundVersion), "strategy", "%v", err)
			}
		}
		add := func(v int) { core.RegisterVersionStrategy(core.VerStrategy{Version: v, Reason: fmt.Sprint(v)}) }
		return []rt.Scenario{
			S("orders", "every set of up to four versions in every order of registration", 0, func() {
				b := base()
				var reg []int
				for i, n := 0, rt.Choose(5, "count"); i < n; i++ {
					v := b + 1 + rt.Choose(5, "version")
					dup := false
					for _, r := range reg {
						dup = dup || r == v
					}
					if dup {
						return
					}
					add(v)
					reg = append(reg, v)
				}
				model(b, reg)
			}, noMem),
			S("upgrade", "following the next version runs every strategy once, in ascending order", 0, func() {
				b := base()
				perm := [][]int{{1, 2, 3}, {1, 3, 2}, {2, 1, 3}, {2, 3, 1}, {3, 1, 2}, {3, 2, 1}}[rt.Choose(6, "order")]
				for _, p := range perm {
					add(b + p)
				}
				var got []int
				for v := b + rt.Choose(4, "from"); ; {
					n := core.GetNextVersion(v)
					if n == v {
						break
					}
					got = append(got, n-b)
					v = n
				}
				want := []int{1, 2, 3}[3-len(got):]
				rt.Check(sameInts(got, want), "next", "%v", got)
				model(b, []int{b + 1, b + 2, b + 3})
			}, noMem),
			S("register-race", "registrations at once and lookups meanwhile", pick(tier, 3, 4), func() {
				b := base()
				rt.Threads(func() { add(b + 1) }, func() { add(b + 2) }, func() {
					n := core.GetNextVersion(b)
					rt.Check(n >= b && n <= b+2, "next", "%d", n)
				})
				model(b, []int{b + 1, b + 2})
			}),
		}
	})

	// T01: tracing.
	register("T01", func(tier string) []rt.Scenario {
		d := pick(tier, 1, 2)
		const R, C, G = "system.call.root", "system.call", "/router.acceptor/routing"
		specs := spec{ty: "t", weight: 1, init: func(a *tActor) {
			a.on("ev", func(mw *msg.Wrapper) error { mw.Res.Body = append([]byte("re:"), mw.Req.Body...); return nil })
			a.on("err", func(mw *msg.Wrapper) error { return errors.New("no") })
			a.on("panic", func(mw *msg.Wrapper) error { panic("x") })
			a.on("stuck", func(mw *msg.Wrapper) error { sleepMs(20000); return nil })
			a.on("fwd", func(mw *msg.Wrapper) error { return a.Call(string(mw.Req.Body), "t", "ev", mw) })
			a.on("fwd2", func(mw *msg.Wrapper) error { return a.Call("y", "t", "fwd", mw) })
		}}
		return []rt.Scenario{
			S("hops", "a call to a local or remote actor that may pass it on: one trace, one span per call and two per hop", d, func() {
				n, t := tracedCluster(true, specs)
				spawn(n[0], "t", "x")
				spawn(n[1], "t", "y")
				spawn(n[0], "t", "z")
				hop := []string{C, G, G, C}
				from := n[0]
				var ev, to, body string
				var want []string
				switch rt.Choose(5, "path") {
				case 0:
					ev, to, want = "ev", "x", []string{R}
				case 1:
					ev, to, want = "ev", "y", append([]string{R}, hop[1:]...)
				case 2: // n1 -> y on n2 -> x on n1
					ev, to, body, want = "fwd", "y", "x", append(append([]string{R}, hop[1:]...), hop...)
				case 3: // local, then remote
					ev, to, body, want = "fwd", "x", "y", append([]string{R}, hop...)
				case 4: // x, y, z
					ev, to, body, want = "fwd2", "x", "z", append(append([]string{R}, hop...), hop...)
				}
				mw := bodyMsg(body)
				err := from.Call(to, "t", ev, mw)
				rt.Check(err == nil && mw.Err == nil, "changed", "%v %v", err, mw.Err)
				rt.Quiesce()
				shape(t, want)
				for _, s := range t.FinishedSpans() {
					if s.ParentID == 0 {
						g := s.Tags()
						rt.Check(g["event"] == ev && g["id"] == to && g["tarActor"] == "t" && g["method"] == "call" && g["node"] == "n1", "tags", "%v", g)
					}
				}
			}),
			S("outcomes", "calls and sends that fail in every way: every span is finished once", 0, func() {
				n, t := tracedCluster(true, specs)
				spawn(n[0], "t", "x")
				spawn(n[1], "t", "y")
				to := []string{"x", "y", "gone", "", "?", "~"}[rt.Choose(6, "target")]
				ev := []string{"ev", "err", "panic", "stuck", "none"}[rt.Choose(5, "event")]
				send := rt.Choose(2, "send") == 1
				ctx, cancel := ctxT(time.Second)
				defer cancel()
				mw := msg.NewBuilder(ctx).Build()
				if rt.Choose(2, "origin") == 1 {
					mw.Req.Header.OrgActorID, mw.Req.Header.OrgActorType = "o", "u"
				}
				var err error
				if send {
					err = n[0].Send(to, "t", ev, mw)
				} else {
					err = n[0].Call(to, "t", ev, mw)
				}
				known := to != "gone" && to != ""
				rt.Check(send || (err == nil) == (known && ev == "ev") || known && ev != "ev" && ev != "stuck", "changed", "%s %s: %v", to, ev, err)
				rt.Check(known || err != nil, "changed", "%q: no error", to)
				sleepMs(30000)
				rt.Quiesce()
				roots := 0
				seen := map[int]bool{}
				for _, s := range t.FinishedSpans() {
					rt.Check(!seen[s.SpanContext.SpanID], "span-twice", "%s is finished twice", s.OperationName)
					seen[s.SpanContext.SpanID] = true
					if s.ParentID == 0 {
						roots++
					}
				}
				rt.Check(roots == 1, "trace-broken", "%d roots", roots)
				rt.Check(t.started == len(t.FinishedSpans()), "span-open", "%d spans are started, %d finished", t.started, len(t.FinishedSpans()))
			}, noMem, horizon(2*time.Minute)),
			S("two", "two calls at once are two traces", d, func() {
				n, t := tracedCluster(true, specs)
				spawn(n[1], "t", "y")
				f := func() {
					mw := bodyMsg("q")
					err := n[0].Call("y", "t", "ev", mw)
					rt.Check(err == nil && string(mw.Res.Body) == "re:q", "changed", "%v %s", err, mw.Res.Body)
				}
				rt.Threads(f, f)
				rt.Quiesce()
				shape(t, []string{R, G, G, C}, []string{R, G, G, C})
			}),
			S("send", "a send to a busy actor of another node does not wait for it, traced or not", pick(tier, 1, 2), func() {
				n, t := tracedCluster(rt.Choose(2, "call-spans") == 1, specs)
				spawn(n[1], "t", "y")
				ctx := context.Background()
				if rt.Choose(2, "outer") == 1 {
					ctx = opentracing.ContextWithSpan(ctx, t.StartSpan("outer"))
				}
				for i := 0; i < 2; i++ {
					err := n[0].Send("y", "t", "stuck", msg.NewBuilder(ctx).Build())
					rt.Check(err == nil, "changed", "%v", err)
				}
				rt.Check(rt.Elapsed() < time.Second, "changed", "the send takes %v", rt.Elapsed())
			}, horizon(time.Minute)),
			S("outer", "a span that the caller has opened is the parent of the call", 0, func() {
				n, t := tracedCluster(rt.Choose(2, "call-spans") == 1, specs)
				spawn(n[1], "t", "y")
				sp := t.StartSpan("outer")
				mw := msg.NewBuilder(opentracing.ContextWithSpan(context.Background(), sp)).Build()
				send := rt.Choose(2, "send") == 1
				var err error
				if send {
					err = n[0].Send("y", "t", "ev", mw)
				} else {
					err = n[0].Call("y", "t", "ev", mw)
				}
				rt.Check(err == nil, "changed", "%v", err)
				rt.Quiesce()
				sp.Finish()
				if t.started == 3 {
					shape(t, []string{"outer", G, G})
				} else {
					shape(t, []string{"outer", C, G, G, C})
				}
			}),
			S("off", "without call spans the hops are traced alone, and nothing else changes", 0, func() {
				n, t := tracedCluster(false, specs)
				spawn(n[1], "t", "y")
				mw := bodyMsg("q")
				err := n[0].Call("y", "t", "ev", mw)
				rt.Check(err == nil && string(mw.Res.Body) == "re:q", "changed", "%v %s", err, mw.Res.Body)
				shape(t, []string{G, G})
			}),
		}
	})
}

var entityBase int

func minus(l []int, b int) []int {
	var r []int
	for _, x := range l {
		r = append(r, x-b)
	}
	return r
}
