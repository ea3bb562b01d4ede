package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/core/node"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/zzmc/rt"
)

const callTimeout = 5 * time.Second

// forwardTo makes a handler that passes the same wrapper on and records its own run.
func (a *tActor) forwardTo(ev, target, tev string) {
	a.on(ev, func(mw *msg.Wrapper) error {
		rt.Yield("before forward")
		if err := a.Call(target, "t", tev, mw); err != nil {
			rt.Fail("nested-refused", "%s -> %s: %v", a.ID(), target, err)
		}
		rt.Yield("after forward")
		rt.Count("ran "+a.ID()+" "+string(mw.Req.Body), 1)
		return nil
	})
}

func init() {
	// A03: a successful synchronous call means the whole chain of handlers ran.
	register("A03", func(tier string) []rt.Scenario {
		chain := func(n, callers int) func() {
			return func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					var i int
					fmt.Sscanf(a.ID(), "a%d", &i)
					if i < n {
						a.forwardTo("ev", fmt.Sprintf("a%d", i+1), "ev")
						return
					}
					a.on("ev", func(mw *msg.Wrapper) error {
						work(2)
						rt.Count("ran "+a.ID()+" "+string(mw.Req.Body), 1)
						mw.Res.Body = append([]byte("re:"), mw.Req.Body...)
						return nil
					})
				}})
				for i := 1; i <= n; i++ {
					spawn(sys, "t", fmt.Sprintf("a%d", i))
				}
				var fs []func()
				for c := 0; c < callers; c++ {
					b := fmt.Sprintf("c%d", c)
					fs = append(fs, func() {
						mw := bodyMsg(b)
						if err := sys.Call("a1", "t", "ev", mw); err != nil {
							rt.Fail("call-failed", "%v", err)
						}
						for i := 1; i <= n; i++ {
							if k := rt.Counted(fmt.Sprintf("ran a%d %s", i, b)); k != 1 {
								rt.Fail("early-return", "the call returned and handler a%d of its chain had run %d times", i, k)
							}
						}
						if string(mw.Res.Body) != "re:"+b {
							rt.Fail("response", "response is %q", mw.Res.Body)
						}
					})
				}
				rt.Threads(fs...)
				rt.Check(rt.Elapsed() == 0, "slow", "took %v of virtual time", rt.Elapsed())
			}
		}
		return []rt.Scenario{
			S("direct-2", "two callers, one handler", pick(tier, 3, 4), chain(1, 2)),
			S("chain-2", "one caller, a chain of two actors", pick(tier, 4, 5), chain(2, 1)),
			S("chain-3", "one caller, a chain of three actors", pick(tier, 3, 4), chain(3, 1)),
			S("chain-2x2", "two callers, a chain of two actors", pick(tier, 2, 3), chain(2, 2)),
			S("fan-out", "a handler forwards to two actors", pick(tier, 3, 4), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					switch a.ID() {
					case "a1":
						a.on("ev", func(mw *msg.Wrapper) error {
							for _, t := range []string{"a2", "a3"} {
								if err := a.Call(t, "t", "ev", mw); err != nil {
									rt.Fail("nested-refused", "%v", err)
								}
							}
							rt.Count("ran", 1)
							return nil
						})
					default:
						a.on("ev", func(mw *msg.Wrapper) error { work(1); rt.Count("ran", 1); return nil })
					}
				}})
				for i := 1; i <= 3; i++ {
					spawn(sys, "t", fmt.Sprintf("a%d", i))
				}
				if err := sys.Call("a1", "t", "ev", newMsg()); err != nil {
					rt.Fail("call-failed", "%v", err)
				}
				rt.Check(rt.Counted("ran") == 3, "early-return", "the call returned after %d of 3 handlers", rt.Counted("ran"))
			}),
			S("reuse", "one wrapper used for two calls in a row", pick(tier, 3, 4), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ev", func(mw *msg.Wrapper) error { work(1); rt.Count("ran", 1); return nil })
				}})
				spawn(sys, "t", "a1")
				mw := newMsg()
				for i := 1; i <= 2; i++ {
					if err := sys.Call("a1", "t", "ev", mw); err != nil {
						rt.Fail("call-failed", "%v", err)
					}
					rt.Check(rt.Counted("ran") == i, "early-return", "call %d returned after %d handlers", i, rt.Counted("ran"))
				}
			}),
			S("nested-root", "a handler makes a call of its own and uses the answer", pick(tier, 3, 4), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					if a.ID() == "a1" {
						a.on("ev", func(mw *msg.Wrapper) error {
							in := bodyMsg("x")
							if err := a.Call("a2", "t", "ev", in); err != nil {
								rt.Fail("nested-failed", "%v", err)
							}
							mw.Res.Body = append([]byte("1"), in.Res.Body...)
							return nil
						})
					} else {
						a.on("ev", func(mw *msg.Wrapper) error { work(1); mw.Res.Body = []byte("2"); return nil })
					}
				}})
				spawn(sys, "t", "a1")
				spawn(sys, "t", "a2")
				mw := newMsg()
				if err := sys.Call("a1", "t", "ev", mw); err != nil {
					rt.Fail("call-failed", "%v", err)
				}
				rt.Check(string(mw.Res.Body) == "12", "response", "response is %q", mw.Res.Body)
			}),
		}
	})

	// A04: a call always comes back: with an error once its time is up.
	register("A04", func(tier string) []rt.Scenario {
		return []rt.Scenario{
			S("unknown-event", "a call for an event nobody registered returns at once", pick(tier, 3, 4), func() {
				sys := single(spec{ty: "t", weight: 1})
				spawn(sys, "t", "a")
				rt.Threads(func() { sys.Call("a", "t", "nope", newMsg()) }, func() { sys.Call("a", "t", "nope2", newMsg()) })
				rt.Check(rt.Elapsed() == 0, "hang", "took %v", rt.Elapsed())
			}),
			S("unknown-actor", "a call to an unknown id, type or wildcard fails at once", pick(tier, 2, 3), func() {
				sys := single(spec{ty: "t", weight: 1})
				for _, c := range [][2]string{{"ghost", "t"}, {"?", "t"}, {"~", "t"}, {"", "t"}, {"ghost", "nosuch"}, {"?", "nosuch"}, {"~", "nosuch"}, {"", ""}} {
					if err := sys.Call(c[0], c[1], "ev", newMsg()); err == nil {
						rt.Fail("no-error", "call to %q of type %q reports success", c[0], c[1])
					}
					if err := sys.Send(c[0], c[1], "ev", newMsg()); err == nil {
						rt.Fail("no-error", "send to %q of type %q reports success", c[0], c[1])
					}
				}
				rt.Check(rt.Elapsed() == 0, "hang", "took %v", rt.Elapsed())
			}),
			S("slow-handler", "a handler that takes longer than the call timeout", pick(tier, 3, 4), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ev", func(mw *msg.Wrapper) error { sleepMs(7000); rt.Count("ran", 1); return nil })
				}})
				spawn(sys, "t", "a")
				err := sys.Call("a", "t", "ev", newMsg())
				if rt.Counted("ran") == 0 && err == nil {
					rt.Fail("timeout-success", "the call returned without error after %v, its handler still running", rt.Elapsed())
				}
				rt.Check(rt.Elapsed() <= callTimeout+time.Millisecond, "late", "came back after %v", rt.Elapsed())
				rt.Check(err != nil, "timeout-success", "no error after %v", rt.Elapsed())
			}),
			S("slow-after-error", "a handler notes an error on the message and then takes longer than the call timeout", pick(tier, 2, 3), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ev", func(mw *msg.Wrapper) error { mw.Err = errors.New("noted"); sleepMs(7000); return nil })
				}})
				spawn(sys, "t", "a")
				err := sys.Call("a", "t", "ev", newMsg())
				rt.Check(rt.Elapsed() <= callTimeout+time.Millisecond, "late", "came back after %v", rt.Elapsed())
				rt.Check(err != nil, "timeout-success", "no error after %v", rt.Elapsed())
			}),
			S("long-backlog", "100 calls wait for a handler that takes 60 ms each: the early ones are answered, the late ones fail in time", 0, func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ev", func(mw *msg.Wrapper) error { sleepMs(60); rt.Count("ran "+string(mw.Req.Body), 1); return nil })
				}})
				spawn(sys, "t", "a")
				var fs []func()
				for i := 0; i < 100; i++ {
					b := fmt.Sprint(i)
					fs = append(fs, func() {
						err := sys.Call("a", "t", "ev", bodyMsg(b))
						rt.Check(rt.Elapsed() <= callTimeout+time.Millisecond, "late", "came back after %v", rt.Elapsed())
						rt.Check(err != nil || rt.Counted("ran "+b) == 1, "timeout-success", "call %s reports success after %v, its handler has not run", b, rt.Elapsed())
						if err == nil {
							rt.Count("ok", 1)
						}
					})
				}
				rt.Threads(fs...)
				rt.Check(rt.Counted("ok") >= 80, "unanswered", "%d calls are answered in 5 s by a handler that takes 60 ms", rt.Counted("ok"))
			}, ops(2000000), noMem),
			S("slow-chain", "the second handler of a chain takes longer than the call timeout", pick(tier, 2, 3), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					if a.ID() == "a1" {
						a.forwardTo("ev", "a2", "ev")
					} else {
						a.on("ev", func(mw *msg.Wrapper) error { sleepMs(7000); rt.Count("ran", 1); return nil })
					}
				}})
				spawn(sys, "t", "a1")
				spawn(sys, "t", "a2")
				err := sys.Call("a1", "t", "ev", newMsg())
				rt.Check(rt.Elapsed() <= callTimeout+time.Millisecond, "late", "came back after %v", rt.Elapsed())
				rt.Check(err != nil, "timeout-success", "no error after %v", rt.Elapsed())
			}),
			S("busy-actor", "a call queued behind a long handler", pick(tier, 2, 3), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("long", func(mw *msg.Wrapper) error { sleepMs(20000); return nil })
					a.on("ev", func(mw *msg.Wrapper) error { return nil })
				}})
				spawn(sys, "t", "a")
				sys.Send("a", "t", "long", newMsg())
				rt.Threads(func() {
					err := sys.Call("a", "t", "ev", newMsg())
					rt.Check(err != nil, "timeout-success", "no error after %v", rt.Elapsed())
				}, func() {
					err := sys.Call("a", "t", "ev", newMsg())
					rt.Check(err != nil, "timeout-success", "no error after %v", rt.Elapsed())
				})
				rt.Check(rt.Elapsed() <= callTimeout+time.Millisecond, "late", "came back after %v", rt.Elapsed())
			}),
			S("ctx-deadline", "the caller's deadline comes before the handler ends", pick(tier, 3, 4), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ev", func(mw *msg.Wrapper) error { sleepMs(3000); return nil })
				}})
				spawn(sys, "t", "a")
				ctx, cancel := ctxT(time.Second)
				defer cancel()
				mw := msg.NewBuilder(ctx).Build()
				err := sys.Call("a", "t", "ev", mw)
				rt.Check(err != nil, "timeout-success", "no error after %v", rt.Elapsed())
				rt.Check(rt.Elapsed() == time.Second, "late", "came back after %v", rt.Elapsed())
				sleepMs(10000)
				rt.Quiesce()
			}),
			S("ctx-cancel", "the caller cancels while the handler runs", pick(tier, 3, 4), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ev", func(mw *msg.Wrapper) error { sleepMs(3000); rt.Count("ran", 1); return nil })
				}})
				spawn(sys, "t", "a")
				ctx, cancel := context.WithCancel(context.Background())
				mw := msg.NewBuilder(ctx).Build()
				rt.Threads(func() {
					err := sys.Call("a", "t", "ev", mw)
					rt.Check(err != nil || rt.Counted("ran") == 1, "timeout-success", "no error after %v", rt.Elapsed())
					rt.Check(rt.Elapsed() <= 3*time.Second, "late", "%v", rt.Elapsed())
				}, func() { sleepMs(500); cancel() })
			}),
			S("deadline-met", "a handler that ends before every deadline", pick(tier, 3, 4), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ev", func(mw *msg.Wrapper) error { sleepMs(900); rt.Count("ran", 1); return nil })
				}})
				spawn(sys, "t", "a")
				ctx, cancel := ctxT(time.Second)
				defer cancel()
				if err := sys.Call("a", "t", "ev", msg.NewBuilder(ctx).Build()); err != nil {
					rt.Fail("call-failed", "%v", err)
				}
				rt.Check(rt.Counted("ran") == 1 && rt.Elapsed() == 900*time.Millisecond, "early-return", "back after %v", rt.Elapsed())
				if err := sys.Call("a", "t", "ev", newMsg()); err != nil {
					rt.Fail("call-failed", "%v", err)
				}
				rt.Check(rt.Counted("ran") == 2, "early-return", "back after %v", rt.Elapsed())
			}),
			S("limits", "handlers and deadlines shorter and longer than the call timeout, near and far", 0, func() {
				n := cluster(2, spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ev", func(mw *msg.Wrapper) error {
						ms := 0
						fmt.Sscan(string(mw.Req.Body), &ms)
						sleepMs(ms)
						mw.Res.Body = mw.Req.Body
						return nil
					})
				}})
				spawn(n[0], "t", "a")
				spawn(n[1], "t", "b")
				settle()
				for i := 0; i < 2; i++ {
					takes := []int{500, 3000, 7000, 20000}[rt.Choose(4, "handler")]
					limit := []int{0, 1000, 4000, 8000, 30000}[rt.Choose(5, "deadline")]
					ctx, cancel := context.Background(), context.CancelFunc(func() {})
					most := int(callTimeout / time.Millisecond)
					if limit > 0 {
						ctx, cancel = ctxT(time.Duration(limit) * time.Millisecond)
						most = min(most, limit)
					}
					mw := msg.NewBuilder(ctx).WithReqBody([]byte(fmt.Sprint(takes))).Build()
					to := []string{"a", "b"}[rt.Choose(2, "target")]
					t0 := rt.Elapsed()
					err := n[0].Call(to, "t", "ev", mw)
					took := int((rt.Elapsed() - t0) / time.Millisecond)
					cancel()
					rt.Check(took == min(takes, most), "late", "handler %d ms, deadline %d ms: back after %d", takes, limit, took)
					rt.Check((err == nil) == (takes < most), "timeout-success", "handler %d ms, deadline %d ms: %v", takes, limit, err)
					if err == nil {
						rt.Check(string(mw.Res.Body) == fmt.Sprint(takes), "answer", "%q", mw.Res.Body)
					}
					sleepMs(25000)
				}
			}, noMem, horizon(120*time.Second)),
			S("mutual", "two actors call each other with calls of their own", pick(tier, 2, 3), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					other := map[string]string{"a1": "a2", "a2": "a1"}[a.ID()]
					a.on("ev", func(mw *msg.Wrapper) error {
						if err := a.Call(other, "t", "end", newMsg()); err == nil {
							rt.Count("ok", 1)
						}
						return nil
					})
					a.on("end", func(mw *msg.Wrapper) error { rt.Count("end", 1); return nil })
				}})
				spawn(sys, "t", "a1")
				spawn(sys, "t", "a2")
				rt.Threads(func() { sys.Call("a1", "t", "ev", newMsg()) }, func() { sys.Call("a2", "t", "ev", newMsg()) })
				rt.Check(rt.Elapsed() <= 2*callTimeout, "hang", "took %v", rt.Elapsed())
				rt.Quiesce()
				rt.Check(rt.Counted("ok") <= rt.Counted("end"), "false-success", "%d calls reported success, %d handlers ran", rt.Counted("ok"), rt.Counted("end"))
			}),
		}
	})

	// A05: a call chain that comes back to its origin is refused instead of deadlocking.
	register("A05", func(tier string) []rt.Scenario {
		ring := func(n int) func() {
			return func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					var i int
					fmt.Sscanf(a.ID(), "a%d", &i)
					next := fmt.Sprintf("a%d", i%n+1)
					a.on("ev", func(mw *msg.Wrapper) error {
						rt.Count("ran", 1)
						err := a.Call(next, "t", "ev", mw)
						if i == n {
							if !errors.Is(err, node.ErrSelfCall) {
								rt.Fail("cycle-accepted", "closing a ring of %d actors: %v", n, err)
							}
							rt.Count("refused", 1)
						} else if err != nil {
							rt.Fail("nested-refused", "%v", err)
						}
						return err
					})
					a.on("ok", func(mw *msg.Wrapper) error { rt.Count("ok", 1); return nil })
				}})
				for i := 1; i <= n; i++ {
					spawn(sys, "t", fmt.Sprintf("a%d", i))
				}
				sys.Call("a1", "t", "ev", newMsg())
				rt.Quiesce()
				rt.Check(rt.Elapsed() == 0, "hang", "took %v", rt.Elapsed())
				rt.Check(rt.Counted("ran") == n && rt.Counted("refused") == 1, "cycle", "%d handlers ran, %d refusals", rt.Counted("ran"), rt.Counted("refused"))
				for i := 1; i <= n; i++ {
					if err := sys.Call(fmt.Sprintf("a%d", i), "t", "ok", newMsg()); err != nil {
						rt.Fail("stuck", "%v", err)
					}
				}
				rt.Check(rt.Counted("ok") == n && rt.Elapsed() == 0, "stuck", "%d of %d answered after %v", rt.Counted("ok"), n, rt.Elapsed())
			}
		}
		// a ring whose actors have a type each, or run on two nodes
		mixed := func(n, types, nodes int, entry bool) func() {
			return func() {
				ty := func(i int) string { return fmt.Sprint("t", i%types) }
				var specs []spec
				for i := 0; i < types; i++ {
					specs = append(specs, spec{ty: ty(i), weight: 1, init: func(a *tActor) {
						var i int
						fmt.Sscanf(a.ID(), "a%d", &i)
						next := i%n + 1
						a.on("ev", func(mw *msg.Wrapper) error {
							rt.Count("ran", 1)
							err := a.Call(fmt.Sprint("a", next), ty(next), "ev", mw)
							if i == n {
								rt.Check(err != nil, "cycle-accepted", "closing a ring of %d actors succeeds", n)
								rt.Count("refused", 1)
							}
							return err
						})
						a.on("ok", func(mw *msg.Wrapper) error { rt.Count("ok", 1); return nil })
					}})
				}
				var sys []core.ISystem
				if nodes == 1 {
					sys = []core.ISystem{single(specs...)}
				} else {
					sys = cluster(nodes, specs...)
					rt.Quiesce()
				}
				for i := 1; i <= n; i++ {
					spawn(sys[i%nodes], ty(i), fmt.Sprint("a", i))
				}
				mw := newMsg()
				if entry {
					// the first actor starts the chain from a send
					sys[0].Send("a1", ty(1), "ev", mw)
				} else {
					sys[0].Call("a1", ty(1), "ev", mw)
				}
				rt.Quiesce()
				rt.Check(rt.Elapsed() == 0, "hang", "took %v", rt.Elapsed())
				rt.Check(rt.Counted("ran") == n && rt.Counted("refused") == 1, "cycle", "%d handlers ran, %d refusals", rt.Counted("ran"), rt.Counted("refused"))
				for i := 1; i <= n; i++ {
					if err := sys[0].Call(fmt.Sprint("a", i), ty(i), "ok", newMsg()); err != nil {
						rt.Fail("stuck", "%v", err)
					}
				}
				rt.Check(rt.Counted("ok") == n && rt.Elapsed() == 0, "stuck", "%d of %d answered after %v", rt.Counted("ok"), n, rt.Elapsed())
			}
		}
		return []rt.Scenario{
			S("self", "an actor calls itself from its handler", pick(tier, 4, 5), ring(1)),
			S("ring-types", "a chain of two actors of different types that comes back", pick(tier, 2, 3), mixed(2, 2, 1, false)),
			S("ring-types-3", "a chain over three types that comes back, started by a send", pick(tier, 2, 3), mixed(3, 3, 1, true)),
			S("ring-nodes", "a chain over two nodes that comes back", pick(tier, 1, 2), mixed(2, 1, 2, false)),
			S("ring-nodes-types", "a chain of three actors of three types over two nodes that comes back", pick(tier, 1, 2), mixed(3, 3, 2, false)),
			S("ring-2", "a chain of two that comes back", pick(tier, 3, 4), ring(2)),
			S("ring-3", "a chain of three that comes back", pick(tier, 3, 4), ring(3)),
			S("origin-id-only", "a message whose header names its origin by id alone, or with a type of its own, comes back to that actor", pick(tier, 2, 3), func() {
				ty := []string{"", "other", "t"}[rt.Choose(3, "type in the header")]
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ev", func(mw *msg.Wrapper) error { rt.Count("ran", 1); return a.Call("a1", "t", "ev", mw) })
				}})
				a1 := spawn(sys, "t", "a1")
				spawn(sys, "t", "a2")
				mw := newMsg()
				mw.Req.Header.OrgActorID, mw.Req.Header.OrgActorType = "a1", ty
				sys.Call("a2", "t", "ev", mw)
				rt.Quiesce()
				rt.Check(rt.Counted("ran") == 1 && rt.Elapsed() == 0, "cycle-accepted", "a chain of a1 comes back to a1 and %d handlers run", rt.Counted("ran"))
				mw = newMsg()
				mw.Req.Header.OrgActorID, mw.Req.Header.OrgActorType = "a1", ty
				if err := a1.Received(mw); !errors.Is(err, node.ErrSelfCall) {
					rt.Fail("cycle-accepted", "%v", err)
				}
			}),
			S("reenter-origin", "a reentrant call inside a chain keeps the origin of the chain", pick(tier, 1, 2), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ev", func(mw *msg.Wrapper) error {
						rt.Count("ran", 1)
						if a.ID() == "a1" {
							return a.Call("a2", "t", "ev", mw)
						}
						a.ReenterCall("a1", "t", "ev", mw).Then(func(mw *msg.Wrapper) {
							rt.Check(errors.Is(mw.Err, node.ErrSelfCall), "cycle-accepted", "%v", mw.Err)
							rt.Count("refused", 1)
						})
						return nil
					})
				}})
				spawn(sys, "t", "a1")
				spawn(sys, "t", "a2")
				sys.Call("a1", "t", "ev", newMsg())
				rt.Quiesce()
				rt.Check(rt.Elapsed() == 0, "hang", "took %v", rt.Elapsed())
				rt.Check(rt.Counted("ran") == 2 && rt.Counted("refused") == 1, "cycle-accepted", "%d handlers, %d refusals", rt.Counted("ran"), rt.Counted("refused"))
			}),
			S("self-by-type", "an actor reaches itself through a symbol", pick(tier, 3, 4), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ev", func(mw *msg.Wrapper) error {
						sym := []string{"~", "?"}[rt.Choose(2, "symbol")]
						if err := a.Call(sym, "t", "ev", mw); !errors.Is(err, node.ErrSelfCall) {
							rt.Fail("cycle-accepted", "%v", err)
						}
						return nil
					})
				}})
				spawn(sys, "t", "a1")
				sys.Call("a1", "t", "ev", newMsg())
				rt.Quiesce()
				rt.Check(rt.Elapsed() == 0, "hang", "took %v", rt.Elapsed())
			}),
			S("two-rings", "two call chains over the same ring from both ends", pick(tier, 2, 3), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					other := map[string]string{"a1": "a2", "a2": "a1"}[a.ID()]
					a.on("ev", func(mw *msg.Wrapper) error {
						err := a.Call(other, "t", "ev", mw)
						if errors.Is(err, node.ErrSelfCall) {
							rt.Count("refused", 1)
						} else if err != nil {
							rt.Fail("nested-refused", "%v", err)
						}
						return nil
					})
				}})
				spawn(sys, "t", "a1")
				spawn(sys, "t", "a2")
				rt.Threads(func() { sys.Call("a1", "t", "ev", newMsg()) }, func() { sys.Call("a2", "t", "ev", newMsg()) })
				rt.Quiesce()
				rt.Check(rt.Elapsed() == 0, "hang", "took %v", rt.Elapsed())
				rt.Check(rt.Counted("refused") == 2, "cycle", "%d refusals", rt.Counted("refused"))
			}),
		}
	})

	// A12: a handler chain runs its parts in order and stops at the first error.
	register("A12", func(tier string) []rt.Scenario {
		max := pick(tier, 2, 3)
		return []rt.Scenario{
			S("chains", "every chain of up to 2+1+2 (3+1+3) parts with every pattern of errors and panics", 0, func() {
				nb, na := rt.Choose(max+1, "before"), rt.Choose(max+1, "after")
				total := nb + 1 + na
				bad := rt.Choose(total+1, "which part fails") // total = none
				how := 0
				if bad < total {
					how = rt.Choose(3, "error, panic or an error noted on the message as well")
				}
				e := errors.New("part failed")
				part := func(i int) actor.EventHandler {
					return func(mw *msg.Wrapper) error {
						rt.Log("parts", "%d", i)
						if i == bad {
							if how == 1 {
								panic("part panics")
							}
							if how == 2 {
								mw.Err = errors.New("noted")
							}
							return e
						}
						return nil
					}
				}
				var c actor.DefaultChain
				for i := 0; i < nb; i++ {
					c.Before = append(c.Before, part(i))
				}
				c.Handler = part(nb)
				for i := 0; i < na; i++ {
					c.After = append(c.After, part(nb+1+i))
				}
				want := ""
				for i := 0; i < total; i++ {
					want += fmt.Sprintf("%d ", i)
					if i == bad {
						break
					}
				}
				// directly
				var err error
				func() {
					defer func() { recover() }()
					err = c.Execute(newMsg())
				}()
				if got := join(rt.Logged("parts")) + " "; got != want {
					rt.Fail("chain-order", "ran %s, want %s", got, want)
				}
				if how != 1 && (err != nil) != (bad < total) || (err != nil && err != e) {
					rt.Fail("chain-error", "part %d of %d fails, Execute returns %v", bad, total, err)
				}
				// in an actor, with another message behind it
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.OnEvent("ev", func(core.ActorContext) core.IChain { return &c })
					a.on("end", func(*msg.Wrapper) error { rt.Count("end", 1); return nil })
				}})
				spawn(sys, "t", "a")
				sys.Call("a", "t", "ev", newMsg())
				if got := join(rt.Logged("parts")) + " "; got != want+want {
					rt.Fail("chain-order", "ran %s, want %s", got, want+want)
				}
				if err := sys.Call("a", "t", "end", newMsg()); err != nil || rt.Counted("end") != 1 || rt.Elapsed() != 0 {
					rt.Fail("stuck", "%v", err)
				}
				rt.Outcome(fmt.Sprint(nb, na, bad, how))
			}),
			S("repeat-event", "an event name registers once", 0, func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ev", func(*msg.Wrapper) error { rt.Count("first", 1); return nil })
					if err := a.OnEvent("ev", func(core.ActorContext) core.IChain {
						return &actor.DefaultChain{Handler: func(*msg.Wrapper) error { rt.Count("second", 1); return nil }}
					}); err == nil {
						rt.Fail("repeat", "second registration of an event succeeds")
					}
				}})
				spawn(sys, "t", "a")
				sys.Call("a", "t", "ev", newMsg())
				rt.Check(rt.Counted("first") == 1 && rt.Counted("second") == 0, "repeat", "first %d second %d", rt.Counted("first"), rt.Counted("second"))
			}),
		}
	})
}
