package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	bgrpc "github.com/pojol/braid/lib/grpc"
	"github.com/pojol/braid/lib/grpc/mock"
	"github.com/pojol/braid/lib/timer"
	"github.com/pojol/braid/lib/tracer"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/zzmc/rt"
)

func init() {
	// A13: what has ended leaves no goroutine behind.
	register("A13", func(tier string) []rt.Scenario {
		d := pick(tier, 1, 2)
		long := horizon(10 * time.Minute)
		// alive compares what runs with what ran before.
		alive := func(when string, before []string) {
			sleepMs(60000)
			rt.Quiesce()
			if after := rt.Alive(); strings.Join(after, "\n") != strings.Join(before, "\n") {
				n := map[string]int{}
				for _, s := range after {
					n[s]++
				}
				for _, s := range before {
					n[s]--
				}
				for s, k := range n {
					if k > 0 {
						rt.Fail("left-behind", "%s: %d goroutines started at %s are still there", when, k, s)
					}
				}
				rt.Fail("ended-early", "%s: there were %v, now %v", when, before, after)
			}
		}
		user := func(work func(a *tActor)) spec {
			return spec{ty: "t", weight: 1, init: func(a *tActor) {
				if a.ID() == "keep" || a.ID() == "far" {
					a.on("ev", func(mw *msg.Wrapper) error { mw.Res.Body = []byte("ok"); return nil })
					a.on("slow", func(*msg.Wrapper) error { sleepMs(7000); return nil })
					a.on("bad", func(*msg.Wrapper) error { panic("bad") })
					return
				}
				work(a)
			}}
		}
		gone := func(sys core.ISystem, id string) {
			rt.Check(sys.Unregister(id, "t") == nil, "unregister", "Unregister fails")
		}
		// one runs an actor with the given work while another, keep, stays, and unregisters it after ms.
		one := func(work func(a *tActor), do func(sys core.ISystem), ms int) {
			sys := single(user(work))
			spawn(sys, "t", "keep")
			rt.Quiesce()
			before := rt.Alive()
			for i := 0; i < 2; i++ {
				spawn(sys, "t", "a")
				do(sys)
				sleepMs(ms)
				gone(sys, "a")
				alive("after Unregister", before)
			}
		}
		nothing := func(core.ISystem) {}
		return []rt.Scenario{
			S("timers", "an actor with timers of every kind, stopped before and after they are due", d, func() {
				due, every := []int64{0, 100}[rt.Choose(2, "due")], []int64{0, 70}[rt.Choose(2, "every")]
				op := rt.Choose(3, "operation")
				one(func(a *tActor) {
					t := a.OnTimer(due, every, func(interface{}) error { return nil }, nil)
					switch op {
					case 1:
						a.CancelTimer(t)
					case 2:
						t.Stop()
						t.Reset(50 * time.Millisecond)
					}
				}, nothing, []int{0, 30, 250}[rt.Choose(3, "when")])
			}, long),
			S("timer-busy", "an actor stopped while its handler runs and its timers wait for it", d, func() {
				one(func(a *tActor) {
					for i := 0; i < 3; i++ {
						a.OnTimer(0, 1, func(interface{}) error { return nil }, nil)
					}
					a.on("ev", func(*msg.Wrapper) error { sleepMs(1500); return nil })
				}, func(sys core.ISystem) { sys.Send("a", "t", "ev", newMsg()) }, 5)
			}, long),
			S("calls", "calls, sends and reentrant calls, answered, refused, timed out and cancelled", 0, func() {
				ev := []string{"ev", "slow", "bad", "none"}[rt.Choose(4, "event")]
				to := []string{"keep", "ghost"}[rt.Choose(2, "target")]
				how := rt.Choose(5, "how")
				one(func(a *tActor) {
					a.on("go", func(mw *msg.Wrapper) error {
						switch how {
						case 0:
							a.Call(to, "t", ev, newMsg())
						case 1:
							a.Call(to, "t", ev, mw)
						case 2:
							a.Sys.Send(to, "t", ev, newMsg())
						case 3:
							a.ReenterCall(to, "t", ev, newMsg()).Then(func(*msg.Wrapper) {})
						case 4:
							ctx, cancel := context.WithCancel(context.Background())
							a.ReenterCall(to, "t", ev, msg.NewBuilder(ctx).Build())
							cancel()
						}
						return nil
					})
				}, func(sys core.ISystem) {
					switch rt.Choose(3, "call") {
					case 0:
						sys.Call("a", "t", "go", newMsg())
					case 1:
						sys.Send("a", "t", "go", newMsg())
					case 2:
						ctx, cancel := ctxT(100 * time.Millisecond)
						defer cancel()
						sys.Call("a", "t", "go", msg.NewBuilder(ctx).Build())
					}
				}, []int{0, 20000}[rt.Choose(2, "when")])
			}, noMem, long),
			S("calls-vs-stop", "an actor stops while calls of it and to it are under way", d, func() {
				ev := []string{"ev", "slow"}[rt.Choose(2, "event")]
				one(func(a *tActor) {
					a.on("go", func(mw *msg.Wrapper) error {
						a.ReenterCall("keep", "t", ev, newMsg()).Then(func(*msg.Wrapper) {})
						return nil
					})
				}, func(sys core.ISystem) {
					rt.Threads(func() { sys.Call("a", "t", "go", newMsg()) }, func() { sys.Unregister("a", "t") })
				}, 0)
			}, long),
			S("subscriptions", "an actor with subscriptions, stopped between, before and after messages", d, func() {
				n := 1 + rt.Choose(2, "subscriptions")
				one(func(a *tActor) {
					for i := 0; i < n; i++ {
						subscribe(a, "top", fmt.Sprint("ch", i))
					}
				}, func(sys core.ISystem) {
					if rt.Choose(2, "publish") == 1 {
						pub(sys, "top", "ch0", "x")
						pub(sys, "top", "ch0", "y")
					}
				}, []int{0, 50}[rt.Choose(2, "when")])
			}, long),
			S("refused", "registrations that are refused", d, func() {
				sys := single(spec{ty: "t", weight: 1, limit: 2, init: func(a *tActor) {
					a.OnTimer(0, 1000, func(interface{}) error { return nil }, nil)
				}}, spec{ty: "u", weight: 1, unique: true})
				spawn(sys, "t", "keep")
				spawn(sys, "t", "b")
				spawn(sys, "u", "c")
				rt.Quiesce()
				before := rt.Alive()
				try := func(ty, id string) {
					if _, err := sys.Loader(ty).WithID(id).Register(context.Background()); err == nil {
						rt.Fail("accepted", "a registration of %s is accepted", id)
					}
				}
				rt.Threads(func() { try("t", "keep"); try("t", "x") }, func() { try("u", "b"); try("t", "y") })
				alive("after the registrations", before)
			}, long),
			S("channels", "channel objects that are stopped and closed", d, func() {
				sys := single(spec{ty: "t", weight: 1})
				rt.Quiesce()
				before := rt.Alive()
				for i := 0; i < 2; i++ {
					ch, err := sys.Sub("top", "ch")
					rt.Check(err == nil, "sub", "%v", err)
					op := rt.Choose(3, "end")
					if op > 0 {
						pub(sys, "top", "ch", "x")
					}
					switch op {
					case 0, 1:
						ch.Stop()
					case 2:
						ch.Close()
					}
				}
				alive("after Stop and Close", before)
			}, long),
			S("futures", "futures with callbacks", d, func() {
				before := rt.Alive()
				f := actor.NewFuture()
				g := f.Then(func(*msg.Wrapper) {}).Then(func(*msg.Wrapper) {})
				rt.Threads(func() { f.Complete(newMsg()) }, func() { f.Then(func(*msg.Wrapper) {}) })
				g.Then(func(*msg.Wrapper) {})
				alive("after completion", before)
			}, long),
			S("libraries", "tick tasks that are stopped, removed and replaced, span reporters and servers that are closed", d, func() {
				serve(9001, func(ctx context.Context, m string) (string, error) { return m, nil }).Close()
				settle()
				rt.Quiesce()
				before := rt.Alive()
				var end func()
				switch rt.Choose(3, "what") {
				case 0:
					s := timer.Init()
					h := func(*timer.TimerContext) error { sleepMs(7); return nil }
					due := []int64{0, 50}[rt.Choose(2, "due")]
					s.NewTickTask("a", true, due, 10, h, nil)
					s.NewTickTask("b", true, due, 10, h, nil)
					s.StartAllTask()
					end = func() {
						s.StopTask("b")
						if rt.Choose(2, "remove") == 1 {
							s.RemoveTask("a")
						} else {
							s.NewTickTask("a", true, due, 10, h, nil)
						}
						s.StartTask("b")
						s.StopAllTask()
					}
				case 1:
					r := tracer.NewSlowReporter(&sink{}, nil, 1)
					end = func() { r.Close(); r.Close() }
				case 2:
					var o []bgrpc.ServerOption
					if rt.Choose(2, "graceful") == 1 {
						o = append(o, bgrpc.WithServerGracefulStop())
					}
					s := serve(9001, func(ctx context.Context, m string) (string, error) { sleepMs(1000); return m, nil }, o...)
					c := bgrpc.BuildClientWithOption()
					rt.Threads(func() {
						c.CallWait(context.Background(), "127.0.0.1:9001", mockMethod, &mock.MockRequest{Message: "x"}, &mock.MockResponse{})
					}, func() { sleepMs(500); s.Close() })
					end = func() {}
				}
				sleepMs([]int{0, 25}[rt.Choose(2, "when")])
				end()
				alive("at the end", before)
			}, long),
			S("node", "a node with actors that do all of it leaves; the other one keeps what it had", 0, func() {
				how := rt.Choose(5, "how")
				n := cluster(1, user(func(*tActor) {}))
				spawn(n[0], "t", "keep")
				n[0].Call("keep", "t", "ev", newMsg())
				settle()
				rt.Quiesce()
				before := rt.Alive()
				p := newNode("n2", 9002, newFactory(user(func(a *tActor) {
					a.OnTimer(0, 70, func(interface{}) error { return nil }, nil)
					a.OnTimer(100, 0, func(interface{}) error { return nil }, nil)
					subscribe(a, "top", "ch")
					a.on("go", func(mw *msg.Wrapper) error {
						switch how {
						case 0:
							a.Call("keep", "t", "ev", mw)
						case 1:
							a.Call("keep", "t", "slow", mw)
						case 2:
							a.Sys.Send("keep", "t", "slow", newMsg())
						case 3:
							a.ReenterCall("keep", "t", "slow", newMsg()).Then(func(*msg.Wrapper) {})
						}
						return nil
					})
				})))
				settle()
				spawn(p.System(), "t", "a")
				settle()
				switch rt.Choose(3, "call") {
				case 0:
					n[0].Call("a", "t", "go", newMsg())
				case 1:
					n[0].Send("a", "t", "go", newMsg())
				case 2:
					pub(n[0], "top", "ch", "x")
				}
				sleepMs([]int{0, 200}[rt.Choose(2, "when")])
				exit(p.System())
				alive("after the node has left", before)
			}, noMem, long),
		}
	})
}
