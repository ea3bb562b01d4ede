package main

import (
	"errors"
	"fmt"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/zzmc/rt"
)

// exclusive marks a region in which one actor's code runs: two at once is a violation.
func exclusive(name string, f func()) {
	if n := rt.Enter(name); n != 1 {
		rt.Fail("overlap", "%d handlers of actor %s run at the same time", n, name)
	}
	f()
	if n := rt.Inside(name); n != 1 {
		rt.Fail("overlap", "%d handlers of actor %s run at the same time", n, name)
	}
	rt.Leave(name)
}

func init() {
	// A01: one actor's handlers never overlap, and messages of one sender keep their order.
	register("A01", func(tier string) []rt.Scenario {
		body := func(senders, per int) func() {
			return func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ev", func(mw *msg.Wrapper) error {
						exclusive("a", func() {
							rt.Log("handled", "%s", mw.Req.Body)
							work(1)
						})
						return nil
					})
				}})
				spawn(sys, "t", "a")
				var fs []func()
				for s := 0; s < senders; s++ {
					s := s
					fs = append(fs, func() {
						for i := 0; i < per; i++ {
							if err := sys.Send("a", "t", "ev", bodyMsg(fmt.Sprintf("%d.%d", s, i))); err != nil {
								rt.Fail("send-refused", "send to a live local actor: %v", err)
							}
						}
					})
				}
				rt.Threads(fs...)
				rt.Quiesce()
				checkFIFO(senders, per)
			}
		}
		return []rt.Scenario{
			S("send-2x2", "two senders, two messages each, one actor", pick(tier, 2, 3), body(2, 2)),
			S("send-3x1", "three senders, one message each, one actor", pick(tier, 2, 3), body(3, 1)),
			S("send-1x4", "one sender, four messages", pick(tier, 3, 4), body(1, 4)),
			S("timer-vs-msg", "a periodic timer and messages of the same actor", pick(tier, 2, 3), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ev", func(mw *msg.Wrapper) error {
						exclusive("a", func() { rt.Count("ev", 1); work(2) })
						return nil
					})
					a.OnTimer(0, 1000, func(interface{}) error {
						exclusive("a", func() { rt.Count("tick", 1); work(2) })
						return nil
					}, nil)
				}})
				spawn(sys, "t", "a")
				rt.Threads(func() {
					sleepMs(999)
					sys.Send("a", "t", "ev", newMsg())
					sleepMs(1)
					sys.Send("a", "t", "ev", newMsg())
				}, func() { sleepMs(1000); sys.Send("a", "t", "ev", newMsg()) })
				sleepMs(10)
				rt.Quiesce()
				rt.Check(rt.Counted("ev") == 3 && rt.Counted("tick") == 1, "lost", "ev %d tick %d", rt.Counted("ev"), rt.Counted("tick"))
			}),
			S("backlog", "1100 messages of three senders pile up behind a slow handler", 0, func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("slow", func(mw *msg.Wrapper) error {
						exclusive("a", func() { sleepMs(1000) })
						return nil
					})
					a.on("ev", func(mw *msg.Wrapper) error {
						exclusive("a", func() { rt.Log("handled", "%s", mw.Req.Body); rt.Yield("work") })
						return nil
					})
				}})
				spawn(sys, "t", "a")
				sys.Send("a", "t", "slow", newMsg())
				sleepMs(1)
				var fs []func()
				per := []int{500, 300, 300}
				for s := range per {
					s := s
					fs = append(fs, func() {
						for i := 0; i < per[s]; i++ {
							if err := sys.Send("a", "t", "ev", bodyMsg(fmt.Sprintf("%d.%d", s, i))); err != nil {
								rt.Fail("send-refused", "send to a live local actor: %v", err)
							}
						}
					})
				}
				rt.Threads(fs...)
				rt.Check(rt.Elapsed() < 2*1000*1000, "send-waits", "sending took %v", rt.Elapsed())
				sleepMs(1000)
				rt.Quiesce()
				next := map[int]int{}
				for _, e := range rt.Logged("handled") {
					var s, i int
					fmt.Sscanf(e, "%d.%d", &s, &i)
					rt.Check(i == next[s], "order", "message %d of sender %d is handled after %d of its messages", i, s, next[s])
					next[s]++
				}
				for s := range per {
					rt.Check(next[s] == per[s], "lost", "%d of %d messages of sender %d are handled", next[s], per[s], s)
				}
			}, ops(2000000), noMem),
			S("call-vs-send", "synchronous calls and sends to the same actor", pick(tier, 1, 2), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ev", func(mw *msg.Wrapper) error {
						exclusive("a", func() { rt.Log("handled", "%s", mw.Req.Body); work(1) })
						return nil
					})
				}})
				spawn(sys, "t", "a")
				rt.Threads(func() {
					for i := 0; i < 2; i++ {
						if err := sys.Call("a", "t", "ev", bodyMsg(fmt.Sprintf("0.%d", i))); err != nil {
							rt.Fail("call-failed", "%v", err)
						}
					}
				}, func() {
					for i := 0; i < 2; i++ {
						sys.Send("a", "t", "ev", bodyMsg(fmt.Sprintf("1.%d", i)))
					}
				})
				rt.Quiesce()
				checkFIFO(2, 2)
			}),
		}
	})

	// A02: every accepted message is handled exactly once, also around handlers that fail.
	register("A02", func(tier string) []rt.Scenario {
		boom := func(kind string) func() {
			return func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ok", func(mw *msg.Wrapper) error { rt.Log("handled", "%s", mw.Req.Body); return nil })
					a.on("bad", func(mw *msg.Wrapper) error {
						rt.Log("handled", "%s", mw.Req.Body)
						switch kind {
						case "panic":
							panic("handler panic")
						case "nil":
							var m map[string]int
							m["x"] = 1
						}
						return errors.New("handler error")
					})
				}})
				spawn(sys, "t", "a")
				evs := []string{"ok", "bad", "none"}
				rt.Threads(func() {
					for i := 0; i < 3; i++ {
						sys.Send("a", "t", evs[i], bodyMsg(fmt.Sprintf("0.%d", i)))
					}
				}, func() {
					for i := 0; i < 2; i++ {
						sys.Send("a", "t", evs[1-i], bodyMsg(fmt.Sprintf("1.%d", i)))
					}
				})
				rt.Quiesce()
				checkOnce([]string{"0.0", "0.1", "1.0", "1.1"})
			}
		}
		return []rt.Scenario{
			S("handler-panic", "a panicking handler between good ones", pick(tier, 2, 3), boom("panic")),
			S("handler-error", "a failing handler between good ones", pick(tier, 2, 3), boom("error")),
			S("handler-runtime-error", "a handler that writes to a nil map", pick(tier, 1, 2), boom("nil")),
			S("received-3", "three goroutines push straight into the mailbox", pick(tier, 3, 4), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ok", func(mw *msg.Wrapper) error { rt.Log("handled", "%s", mw.Req.Body); return nil })
				}})
				a := spawn(sys, "t", "a")
				var fs []func()
				for s := 0; s < 3; s++ {
					s := s
					fs = append(fs, func() {
						mw := bodyMsg(fmt.Sprintf("%d.0", s))
						mw.Req.Header.Event = "ok"
						if err := a.Received(mw); err != nil {
							rt.Fail("refused", "%v", err)
						}
					})
				}
				rt.Threads(fs...)
				rt.Quiesce()
				checkOnce([]string{"0.0", "1.0", "2.0"})
			}),
			S("panic-in-call-chain", "a call into a panicking handler returns, and the actor lives on", pick(tier, 2, 3), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("bad", func(mw *msg.Wrapper) error { panic("x") })
					a.on("ok", func(mw *msg.Wrapper) error { rt.Log("handled", "%s", mw.Req.Body); return nil })
				}})
				spawn(sys, "t", "a")
				sys.Call("a", "t", "bad", newMsg())
				rt.Check(rt.Elapsed() == 0, "call-waits", "the call into a panicking handler took %v", rt.Elapsed())
				if err := sys.Call("a", "t", "ok", bodyMsg("x")); err != nil {
					rt.Fail("dead-after-panic", "%v", err)
				}
				rt.Quiesce()
				checkOnce([]string{"x"})
			}),
			S("panic-in-timer", "a panicking timer callback leaves the actor working", pick(tier, 1, 2), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ok", func(mw *msg.Wrapper) error { rt.Log("handled", "%s", mw.Req.Body); return nil })
					a.OnTimer(0, 100, func(interface{}) error { rt.Count("tick", 1); panic("timer") }, nil)
				}})
				spawn(sys, "t", "a")
				sleepMs(250)
				rt.Quiesce()
				rt.Check(rt.Counted("tick") == 2, "timer-dead", "%d ticks after 250 ms of a 100 ms timer whose callback panics", rt.Counted("tick"))
				sys.Send("a", "t", "ok", bodyMsg("x"))
				rt.Quiesce()
				checkOnce([]string{"x"})
			}),
		}
	})
	_ = core.ErrActorRegisterRepeat
}

// checkFIFO: every message "s.i" was handled exactly once, and per sender in order.
func checkFIFO(senders, per int) {
	var want []string
	next := map[string]int{}
	for _, e := range rt.Logged("handled") {
		var s, i int
		fmt.Sscanf(e, "%d.%d", &s, &i)
		k := fmt.Sprint(s)
		if i != next[k] {
			rt.Fail("order", "messages of sender %d handled out of order (or one of them lost or repeated): %v", s, rt.Logged("handled"))
		}
		next[k]++
	}
	for s := 0; s < senders; s++ {
		for i := 0; i < per; i++ {
			want = append(want, fmt.Sprintf("%d.%d", s, i))
		}
	}
	checkOnce(want)
}

func checkOnce(want []string) {
	n := map[string]int{}
	for _, e := range rt.Logged("handled") {
		n[e]++
	}
	for _, w := range want {
		if n[w] == 0 {
			rt.Fail("lost", "message %s was accepted and never handled; handled: %v", w, rt.Logged("handled"))
		}
		if n[w] > 1 {
			rt.Fail("duplicate", "message %s was handled %d times", w, n[w])
		}
		delete(n, w)
	}
	if len(n) != 0 {
		rt.Fail("phantom", "handled but never sent: %v", n)
	}
	rt.Outcome(join(rt.Logged("handled")))
}
