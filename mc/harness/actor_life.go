package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/zzmc/rt"
)

func init() {
	// A07: stopping an actor drains what it accepted and then nothing of it runs any more.
	register("A07", func(tier string) []rt.Scenario {
		counting := spec{ty: "t", weight: 1, init: func(a *tActor) {
			a.on("ev", func(mw *msg.Wrapper) error {
				if rt.Counted("stopped") != 0 {
					rt.Fail("runs-after-exit", "a handler starts after Unregister returned")
				}
				rt.Enter("h")
				work(1)
				rt.Log("handled", "%s", mw.Req.Body)
				rt.Leave("h")
				return nil
			})
			a.on("slow", func(mw *msg.Wrapper) error {
				rt.Enter("h")
				sleepMs(200)
				rt.Log("handled", "%s", mw.Req.Body)
				rt.Leave("h")
				return nil
			})
			a.on("long", func(mw *msg.Wrapper) error {
				rt.Enter("h")
				sleepMs(7000)
				rt.Log("handled", "%s", mw.Req.Body)
				rt.Leave("h")
				return nil
			})
		}}
		stop := func(sys core.ISystem) {
			if err := sys.Unregister("a", "t"); err != nil {
				rt.Fail("unregister", "%v", err)
			}
			if rt.Inside("h") != 0 {
				rt.Fail("runs-after-exit", "Unregister returned while a handler was running")
			}
			rt.Count("stopped", 1)
		}
		gone := func(sys core.ISystem) {
			if _, err := sys.FindActor(context.Background(), "a"); err == nil {
				rt.Fail("still-there", "the actor is found after Unregister")
			}
			if err := sys.Send("a", "t", "ev", newMsg()); err == nil {
				rt.Fail("accepts-after-exit", "a send after Unregister is accepted")
			}
			if err := sys.Call("a", "t", "ev", newMsg()); err == nil {
				rt.Fail("accepts-after-exit", "a call after Unregister is accepted")
			}
		}
		return []rt.Scenario{
			S("drain", "three accepted messages, then Unregister", pick(tier, 3, 4), func() {
				sys := single(counting)
				spawn(sys, "t", "a")
				for i := 0; i < 3; i++ {
					if err := sys.Send("a", "t", "ev", bodyMsg(fmt.Sprint(i))); err != nil {
						rt.Fail("refused", "%v", err)
					}
				}
				stop(sys)
				checkOnce([]string{"0", "1", "2"})
				gone(sys)
				rt.Quiesce()
				sleepMs(30000)
				rt.Quiesce()
				checkOnce([]string{"0", "1", "2"})
			}),
			S("drain-slow", "Unregister while a slow handler runs", pick(tier, 2, 3), func() {
				sys := single(counting)
				spawn(sys, "t", "a")
				sys.Send("a", "t", "slow", bodyMsg("0"))
				sys.Send("a", "t", "ev", bodyMsg("1"))
				rt.Threads(func() { stop(sys) }, func() { work(1) })
				checkOnce([]string{"0", "1"})
				gone(sys)
			}),
			S("drain-long", "Unregister while a handler that takes seconds runs, with messages behind it", 0, func() {
				sys := single(counting)
				spawn(sys, "t", "a")
				sys.Send("a", "t", "long", bodyMsg("0"))
				sys.Send("a", "t", "slow", bodyMsg("1"))
				sys.Send("a", "t", "ev", bodyMsg("2"))
				stop(sys)
				checkOnce([]string{"0", "1", "2"})
				gone(sys)
			}),
			S("drain-last", "the last message accepted takes seconds: Unregister waits for it too", 1, func() {
				sys := single(counting)
				spawn(sys, "t", "a")
				sys.Send("a", "t", "slow", bodyMsg("0"))
				sys.Send("a", "t", "long", bodyMsg("1"))
				stop(sys)
				checkOnce([]string{"0", "1"})
				gone(sys)
			}),
			S("timers-vs-stop", "a handler sets and cancels timers while Unregister runs: nothing of it runs afterwards", pick(tier, 2, 3), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ev", func(mw *msg.Wrapper) error {
						fire := func(any) error {
							rt.Check(rt.Counted("stopped") == 0, "runs-after-exit", "a timer callback runs after Unregister returned")
							return nil
						}
						x := a.OnTimer(0, 10, fire, nil)
						a.OnTimer(5, 0, fire, nil)
						a.CancelTimer(x)
						a.OnTimer(20, 20, fire, nil)
						rt.Log("handled", "%s", mw.Req.Body)
						return nil
					})
				}})
				spawn(sys, "t", "a")
				sys.Send("a", "t", "ev", bodyMsg("0"))
				rt.Threads(func() { stop(sys) }, func() { sys.Send("a", "t", "ev", bodyMsg("1")) })
				sleepMs(100)
				l := rt.Logged("handled")
				rt.Check(has(l, "0") && len(l) <= 2, "drained", "handled %v", l)
			}),
			S("drain-limit", "a backlog of more seconds than Unregister waits for: it returns, and nothing is handled afterwards", 0, func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ev", func(mw *msg.Wrapper) error {
						sleepMs(1000)
						exclusive("a", func() { rt.Log("handled", "%s", mw.Req.Body) })
						return nil
					})
				}})
				spawn(sys, "t", "a")
				n := []int{1, 5, 9, 12, 25}[rt.Choose(5, "messages")]
				for i := 0; i < n; i++ {
					sys.Send("a", "t", "ev", bodyMsg(fmt.Sprint(i)))
				}
				stop(sys)
				took := rt.Elapsed()
				l := rt.Logged("handled")
				for i, m := range l {
					rt.Check(m == fmt.Sprint(i), "order", "%v", l)
				}
				rt.Check(len(l) == n && took <= time.Duration(n)*time.Second+20*time.Millisecond || n > 9 && len(l) >= 9 && took >= 10*time.Second && took <= 21*time.Second, "drained", "%d of %d handled after %v", len(l), n, took)
				sleepMs(30000)
				rt.Check(len(rt.Logged("handled")) == len(l) || took >= 20*time.Second, "handled-after-exit", "%v then %v", l, rt.Logged("handled"))
			}, horizon(90*time.Second)),
			S("send-vs-stop", "a send races with Unregister: accepted means handled", pick(tier, 3, 4), func() {
				sys := single(counting)
				a := spawn(sys, "t", "a")
				rt.Threads(func() { stop(sys) }, func() {
					for i := 0; i < 2; i++ {
						mw := bodyMsg(fmt.Sprint(i))
						mw.Req.Header.Event = "ev"
						if a.Received(mw) == nil {
							rt.Count(fmt.Sprint("ok", i), 1)
						}
					}
				})
				sleepMs(30000)
				rt.Quiesce()
				var want []string
				for i := 0; i < 2; i++ {
					if rt.Counted(fmt.Sprint("ok", i)) == 1 {
						want = append(want, fmt.Sprint(i))
					}
				}
				checkOnce(want)
			}),
			S("call-vs-stop", "a call races with Unregister: success means handled, and it never hangs", pick(tier, 3, 4), func() {
				sys := single(counting)
				spawn(sys, "t", "a")
				rt.Threads(func() { stop(sys) }, func() {
					if err := sys.Call("a", "t", "ev", bodyMsg("0")); err == nil {
						rt.Count("ok", 1)
						if len(rt.Logged("handled")) != 1 {
							rt.Fail("false-success", "the call reports success and its handler has not run")
						}
					}
				})
				rt.Check(rt.Elapsed() < callTimeout, "hang", "took %v", rt.Elapsed())
			}),
			S("stop-twice", "two goroutines unregister the same actor", pick(tier, 3, 4), func() {
				sys := single(counting)
				spawn(sys, "t", "a")
				sys.Send("a", "t", "ev", bodyMsg("0"))
				rt.Threads(func() { sys.Unregister("a", "t") }, func() { sys.Unregister("a", "t") })
				rt.Quiesce()
				checkOnce([]string{"0"})
				gone(sys)
			}),
			S("exit-twice", "Exit called twice in a row and concurrently", pick(tier, 3, 4), func() {
				sys := single(counting)
				a := spawn(sys, "t", "a")
				rt.Threads(func() { a.Exit() }, func() { a.Exit() })
				a.Exit()
				rt.Check(rt.Elapsed() < time.Second, "hang", "took %v", rt.Elapsed())
			}),
			S("timer-vs-stop", "an actor with a periodic timer stops", pick(tier, 2, 3), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.OnTimer(0, 100, func(interface{}) error {
						if rt.Counted("stopped") != 0 {
							rt.Fail("timer-after-exit", "a timer callback runs after Unregister returned")
						}
						rt.Enter("h")
						work(1)
						rt.Leave("h")
						return nil
					}, nil)
				}})
				spawn(sys, "t", "a")
				rt.Threads(func() { sleepMs(200); stop(sys) })
				sleepMs(1000)
				rt.Quiesce()
			}),
			S("due-timer-vs-stop", "an actor stops before its timer is due", pick(tier, 3, 4), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.OnTimer(500, 100, func(interface{}) error {
						rt.Fail("timer-after-exit", "the timer of a stopped actor fires")
						return nil
					}, nil)
				}})
				spawn(sys, "t", "a")
				rt.Threads(func() { stop(sys) })
				sleepMs(5000)
				rt.Quiesce()
			}),
			S("restart", "the same id registers again after Unregister", pick(tier, 2, 3), func() {
				sys := single(counting)
				spawn(sys, "t", "a")
				sys.Send("a", "t", "ev", bodyMsg("0"))
				if err := sys.Unregister("a", "t"); err != nil {
					rt.Fail("unregister", "%v", err)
				}
				spawn(sys, "t", "a")
				sys.Send("a", "t", "ev", bodyMsg("1"))
				rt.Quiesce()
				checkOnce([]string{"0", "1"})
			}),
		}
	})

	// A08: timers fire when they should, as often as they should.
	register("A08", func(tier string) []rt.Scenario {
		// fire times of a timer, in ms, while the actor is otherwise idle
		times := func(due, interval int64, upto time.Duration, want ...int) func() {
			return func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.OnTimer(due, interval, func(arg interface{}) error {
						rt.Log("fired", "%d", rt.Elapsed()/time.Millisecond)
						if arg != "arg" {
							rt.Fail("timer-arg", "%v", arg)
						}
						return nil
					}, "arg")
				}})
				spawn(sys, "t", "a")
				time.Sleep(upto)
				rt.Quiesce()
				w := ""
				for _, x := range want {
					w += fmt.Sprint(x, " ")
				}
				g := ""
				for _, x := range rt.Logged("fired") {
					g += x + " "
				}
				rt.Check(w == g, "timer-times", "due %d interval %d: fired at [%s], want [%s]", due, interval, g, w)
			}
		}
		d := pick(tier, 3, 5)
		return []rt.Scenario{
			S("every", "no due time: fires at every interval", d, times(0, 100, 350*time.Millisecond, 100, 200, 300)),
			S("due-then-every", "due time, then every interval", d, times(250, 100, 500*time.Millisecond, 250, 350, 450)),
			S("once-due", "due time, no interval: fires once", d, times(150, 0, 2*time.Second, 150)),
			S("once-now", "no due time, no interval: fires once, at once", d, times(0, 0, 2*time.Second, 0)),
			S("matrix", "short and long due times and intervals, and none: fires at its times, with its argument, and NextTrigger names the next", 0, func() {
				due := []int64{0, 1, 30, 100, 250, 1500, 70000}[rt.Choose(7, "due")]
				every := []int64{0, 1, 100, 1000, 70000}[rt.Choose(5, "interval")]
				arg := []any{nil, "arg", 7}[rt.Choose(3, "argument")]
				next, left := due, 20
				if due == 0 {
					next = every
				}
				if every == 0 {
					left = 1
				}
				var ti core.ITimer
				tell := func() {
					n := int64((rt.Elapsed() + time.Until(ti.NextTrigger())) / time.Millisecond)
					rt.Check(n == next, "timer-tells", "due %d every %d: NextTrigger names %d, it fires at %d", due, every, n, next)
				}
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					ti = a.OnTimer(due, every, func(x interface{}) error {
						now := int64(rt.Elapsed() / time.Millisecond)
						rt.Check(x == arg, "timer-arg", "the argument is %v, not %v", x, arg)
						rt.Check(left > 0 && now == next, "timer-times", "due %d every %d: fires at %d, expected at %d", due, every, now, next)
						left--
						if every > 0 {
							next += every
							tell()
							if left == 0 {
								a.CancelTimer(ti)
							}
						}
						return nil
					}, arg)
					tell()
				}})
				spawn(sys, "t", "a")
				time.Sleep(time.Duration(due+21*every+1000) * time.Millisecond)
				rt.Quiesce()
				rt.Check(left == 0, "timer-times", "due %d every %d: fired %d times too few", due, every, left)
			}, noMem, ops(200000), horizon(time.Hour)),
			S("two-timers", "two timers of one actor", pick(tier, 3, 4), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					for i, p := range []int64{100, 150} {
						i := i
						a.OnTimer(0, p, func(interface{}) error {
							exclusive("a", func() { rt.Log(fmt.Sprint("t", i), "%d", rt.Elapsed()/time.Millisecond) })
							return nil
						}, nil)
					}
				}})
				spawn(sys, "t", "a")
				sleepMs(310)
				rt.Quiesce()
				rt.Check(join(rt.Logged("t0")) == "100 200 300" && join(rt.Logged("t1")) == "150 300", "timer-times", "%v %v", rt.Logged("t0"), rt.Logged("t1"))
			}),
			S("from-handler", "a timer started in a handler", d, func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ev", func(*msg.Wrapper) error {
						a.OnTimer(50, 100, func(interface{}) error { rt.Log("fired", "%d", rt.Elapsed()/time.Millisecond); return nil }, nil)
						return nil
					})
				}})
				spawn(sys, "t", "a")
				sleepMs(1000)
				sys.Call("a", "t", "ev", newMsg())
				sleepMs(200)
				rt.Quiesce()
				rt.Check(join(rt.Logged("fired")) == "1050 1150", "timer-times", "%v", rt.Logged("fired"))
			}),
			S("next", "NextTrigger, Interval and IsActive tell when the timer fires, before and after a Reset or Stop at any moment", pick(tier, 2, 3), func() {
				due, op := []int64{0, 250, 40, 100}[rt.Choose(4, "due")], rt.Choose(6, "operation")
				at := []int64{30, 130, 300, 360, 0, -1}[rt.Choose(6, "when")] // -1: where it is made
				next := due                                                   // in ms
				if due == 0 {
					next = 100
				}
				step, stopped := int64(100), false
				var ti core.ITimer
				tell := func(when string) {
					if stopped {
						rt.Check(!ti.IsActive(), "timer-tells", "%s: active", when)
						return
					}
					n := int64((rt.Elapsed() + time.Until(ti.NextTrigger())) / time.Millisecond)
					rt.Check(ti.IsActive() && n == next && ti.Interval() == time.Duration(step)*time.Millisecond, "timer-tells",
						"%s: active %v, next at %d, every %v; it fires at %d every %d", when, ti.IsActive(), n, ti.Interval(), next, step)
				}
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					ti = a.OnTimer(due, 100, func(interface{}) error {
						now := int64(rt.Elapsed() / time.Millisecond)
						rt.Check(!stopped && now == next, "timer-times", "fires at %d, expected at %d, stopped %v", now, next, stopped)
						next += step
						tell("in the callback")
						return nil
					}, nil)
					tell("at the start")
					do := func(*msg.Wrapper) error {
						now := int64(rt.Elapsed() / time.Millisecond)
						waits := now < due
						switch op {
						case 0:
							ti.Reset(70 * time.Millisecond)
							step = 70
							if !waits {
								next = now + 70
							}
						case 1:
							a.CancelTimer(ti)
							stopped = true
						case 2: // the same interval changes nothing
							ti.Reset(100 * time.Millisecond)
						case 3, 4, 5: // it starts again with the interval it has
							if op == 4 {
								rt.Check(ti.Stop() && !ti.IsActive() && !ti.Stop(), "timer-tells", "Stop")
							}
							rt.Check(ti.Reset([]time.Duration{0, 0, -time.Second}[op-3]), "timer-tells", "Reset refused")
							if !waits {
								next = now + step
							}
						}
						tell("after the operation")
						return nil
					}
					a.on("op", do)
					if at < 0 {
						do(nil)
					}
				}})
				spawn(sys, "t", "a")
				tell("before the operation")
				if at >= 0 {
					sleepMs(int(at))
					rt.Quiesce()
					sys.Call("a", "t", "op", newMsg())
				}
				sleepMs(15)
				tell("later")
				sleepMs(330)
				rt.Quiesce()
			}),
			S("at-due", "Reset, cancel and looking at a timer at the very moment it is due", pick(tier, 2, 3), func() {
				due := []int64{0, 100}[rt.Choose(2, "due")]
				op := rt.Choose(3, "operation")
				at := int64(100) // when it fires first, either way
				var fired []int64
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					ti := a.OnTimer(due, 100, func(interface{}) error {
						fired = append(fired, int64(rt.Elapsed()/time.Millisecond))
						return nil
					}, nil)
					a.on("op", func(*msg.Wrapper) error {
						switch op {
						case 0:
							rt.Check(ti.Reset(70*time.Millisecond), "reset", "refused")
						case 1:
							a.CancelTimer(ti)
						}
						rt.Check(ti.IsActive() == (op != 1) && ti.Interval() == time.Duration([]int{70, 100, 100}[op])*time.Millisecond, "timer-tells",
							"active %v, interval %v", ti.IsActive(), ti.Interval())
						ti.NextTrigger()
						return nil
					})
				}})
				spawn(sys, "t", "a")
				rt.Check(rt.Elapsed() == 0, "scenario", "%v", rt.Elapsed())
				rt.Threads(func() { sleepMs(int(at)); sys.Call("a", "t", "op", newMsg()) })
				sleepMs(250)
				rt.Quiesce()
				got := fmt.Sprint(fired)
				ok := map[int][]string{0: {"[100 170 240 310]"}, 1: {"[]", "[100]"}, 2: {"[100 200 300]"}}[op]
				if op == 0 && due == 0 { // the reset may come first
					ok = append(ok, "[170 240 310]")
				}
				rt.Check(has(ok, got), "timer-times", "fired at %s, allowed %v", got, ok)
				rt.Outcome(got)
			}),
			S("one-shot", "a timer without an interval: Stop, Reset and IsActive say whether and when it fires", 0, func() {
				due := []int{0, 100}[rt.Choose(2, "due")]
				var fired, want []int
				var ti core.ITimer
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					ti = a.OnTimer(int64(due), 0, func(interface{}) error {
						fired = append(fired, int(rt.Elapsed()/time.Millisecond))
						return nil
					}, nil)
				}})
				spawn(sys, "t", "a")
				armed, dead, next, every := true, false, due, 0
				until := func(at int) {
					for ; next < at && armed; next += every {
						want = append(want, next)
						if every == 0 {
							armed, dead = false, true
							break
						}
					}
					if at > due && every == 0 {
						dead = true
					}
					sleepMs(at - int(rt.Elapsed()/time.Millisecond))
					rt.Quiesce()
					rt.Check(fmt.Sprint(fired) == fmt.Sprint(want), "timer-times", "fired at %v, expected %v", fired, want)
					rt.Check(ti.IsActive() == armed, "timer-tells", "at %d: active %v, fires %v", at, ti.IsActive(), armed)
				}
				for _, at := range []int{50, 120, 310} {
					until(at)
					op := rt.Choose(5, "operation")
					switch op {
					case 1:
						s := ti.Stop()
						rt.Check(s == armed, "timer-tells", "at %d: Stop tells %v, the timer was to fire: %v", at, s, armed)
						armed = false
					case 2, 3, 4:
						i := []int{0, 50, -1}[op-2]
						r := ti.Reset(time.Duration(i) * time.Millisecond)
						ok := !dead && (i > 0 || every > 0)
						rt.Check(r == ok, "timer-tells", "at %d: Reset(%d) tells %v", at, i, r)
						if !ok || armed && i == every {
							break
						}
						if i > 0 {
							every = i
						}
						armed = true
						if at >= due {
							next = at + every
						}
					}
				}
				until(515)
			}),
			S("long-due", "a timer due in two hours", pick(tier, 1, 2), times(7200000, 0, 5*time.Hour, 7200000), horizon(200*time.Hour)),
			S("long-interval", "a timer due in 90 minutes that then fires every 25 hours", pick(tier, 1, 2), times(5400000, 90000000, 60*time.Hour, 5400000, 95400000, 185400000), horizon(200*time.Hour)),
			S("short", "a timer of one millisecond", pick(tier, 1, 2), times(1, 1, 5500*time.Microsecond, 1, 2, 3, 4, 5)),
			S("ragged", "thirty timers of different intervals in one actor", 0, func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					for i := 1; i <= 30; i++ {
						i := i
						a.OnTimer(0, int64(10*i), func(interface{}) error { rt.Count(fmt.Sprint("t", i), 1); return nil }, nil)
					}
				}})
				spawn(sys, "t", "a")
				sleepMs(1005)
				rt.Quiesce()
				for i := 1; i <= 30; i++ {
					rt.Check(rt.Counted(fmt.Sprint("t", i)) == 100/i, "timer-times", "the timer of %d ms fired %d times in a second", 10*i, rt.Counted(fmt.Sprint("t", i)))
				}
			}, noMem, ops(500000)),
			S("error-beside", "of three timers one reports an error every time, one panics every time", pick(tier, 1, 2), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					for i := 0; i < 3; i++ {
						i := i
						a.OnTimer(0, int64(100+10*i), func(interface{}) error {
							rt.Count(fmt.Sprint("t", i), 1)
							switch i {
							case 0:
								return errors.New("x")
							case 1:
								panic("x")
							}
							return nil
						}, nil)
					}
				}})
				spawn(sys, "t", "a")
				sleepMs(750)
				rt.Quiesce()
				for i, want := range []int{7, 6, 6} {
					rt.Check(rt.Counted(fmt.Sprint("t", i)) == want, "timer-times", "timer %d fired %d times, want %d", i, rt.Counted(fmt.Sprint("t", i)), want)
				}
			}),
			S("error-callback", "a callback that reports an error fires again", d, func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.OnTimer(0, 100, func(interface{}) error { rt.Count("n", 1); return errors.New("x") }, nil)
				}})
				spawn(sys, "t", "a")
				sleepMs(350)
				rt.Quiesce()
				rt.Check(rt.Counted("n") == 3, "timer-times", "fired %d times", rt.Counted("n"))
			}),
		}
	})

	// A09: a cancelled timer is silent, a reset one follows its new interval.
	register("A09", func(tier string) []rt.Scenario {
		d := pick(tier, 3, 4)
		// ctl runs f inside the actor at each given time
		type act struct {
			at int
			f  func(a *tActor, t core.ITimer)
		}
		scen := func(due, interval int64, acts []act, upto int, want string) func() {
			return func() {
				var tm core.ITimer
				cancelled := func() bool { return rt.Counted("cancelled") != 0 }
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					tm = a.OnTimer(due, interval, func(interface{}) error {
						if cancelled() {
							rt.Fail("fires-after-cancel", "the callback runs at %v, after the actor cancelled the timer", rt.Elapsed())
						}
						rt.Log("fired", "%d", rt.Elapsed()/time.Millisecond)
						return nil
					}, nil)
					for i, x := range acts {
						x := x
						a.on(fmt.Sprint("act", i), func(*msg.Wrapper) error { x.f(a, tm); return nil })
					}
				}})
				spawn(sys, "t", "a")
				var fs []func()
				for i, x := range acts {
					i, x := i, x
					fs = append(fs, func() { sleepMs(x.at); sys.Call("a", "t", fmt.Sprint("act", i), newMsg()) })
				}
				rt.Threads(fs...)
				sleepMs(upto - int(rt.Elapsed()/time.Millisecond))
				rt.Quiesce()
				if want != "*" {
					rt.Check(join(rt.Logged("fired")) == want, "timer-times", "fired at %v, want %s", rt.Logged("fired"), want)
				}
			}
		}
		cancel := func(a *tActor, t core.ITimer) {
			a.CancelTimer(t)
			rt.Count("cancelled", 1)
			rt.Check(!t.IsActive(), "active-after-cancel", "IsActive after CancelTimer")
		}
		return []rt.Scenario{
			S("cancel", "cancel between two ticks", d, scen(0, 100, []act{{250, cancel}}, 1000, "100 200")),
			S("cancel-at-tick", "cancel at the instant of a tick", pick(tier, 4, 5), scen(0, 100, []act{{200, cancel}}, 1000, "*")),
			S("cancel-before-due", "cancel while the timer waits for its due time", d, scen(300, 100, []act{{100, cancel}}, 1000, "")),
			S("cancel-at-due", "cancel at the instant the timer is due", pick(tier, 4, 5), scen(300, 100, []act{{300, cancel}}, 1000, "*")),
			S("cancel-at-start", "cancel as soon as the actor runs", pick(tier, 4, 5), scen(0, 100, []act{{0, cancel}}, 1000, "")),
			S("cancel-twice", "cancel twice and a nil timer", d, scen(0, 100, []act{{150, func(a *tActor, t core.ITimer) {
				cancel(a, t)
				a.CancelTimer(t)
				a.CancelTimer(nil)
			}}}, 1000, "100")),
			S("reset", "a longer interval from 150 ms on", d, scen(0, 100, []act{{150, func(a *tActor, t core.ITimer) {
				rt.Check(t.Reset(300*time.Millisecond) && t.Interval() == 300*time.Millisecond && t.IsActive(), "reset", "Reset refused")
			}}}, 1100, "100 450 750 1050")),
			S("reset-before-due", "reset while the timer waits for its due time", d, scen(300, 100, []act{{100, func(a *tActor, t core.ITimer) {
				rt.Check(t.Reset(200*time.Millisecond), "reset", "Reset refused")
			}}}, 800, "300 500 700")),
			S("stop-reset", "stopped, then reset to another interval", d, scen(0, 100, []act{{150, func(a *tActor, t core.ITimer) {
				rt.Check(t.Stop(), "stop", "Stop reports false")
				rt.Check(!t.Stop(), "stop", "second Stop reports true")
			}}, {450, func(a *tActor, t core.ITimer) {
				rt.Check(t.Reset(200*time.Millisecond) && t.IsActive(), "reset", "Reset of a stopped timer refused")
			}}}, 900, "100 650 850")),
			S("stop-reset-same", "stopped, then reset to the same interval", d, scen(0, 100, []act{{150, func(a *tActor, t core.ITimer) {
				t.Stop()
			}}, {450, func(a *tActor, t core.ITimer) {
				if t.Reset(100*time.Millisecond) && !t.IsActive() {
					rt.Fail("reset-inactive", "Reset reports success and leaves the timer stopped")
				}
			}}}, 700, "100 550 650")),
			S("busy-cancel", "ticks pile up behind a long handler that then cancels", d, scen(0, 100, []act{{150, func(a *tActor, t core.ITimer) {
				sleepMs(320)
				cancel(a, t)
			}}}, 1000, "100")),
		}
	})

	// A10: futures.
	register("A10", func(tier string) []rt.Scenario {
		d := pick(tier, 5, 7)
		return []rt.Scenario{
			S("then-complete", "callbacks registered before, during and after completion run once each", d, func() {
				f := actor.NewFuture()
				mw := bodyMsg("r")
				cb := func(n string) func(*msg.Wrapper) {
					return func(w *msg.Wrapper) {
						if w != mw {
							rt.Fail("future-value", "callback got another wrapper")
						}
						rt.Count(n, 1)
					}
				}
				f.Then(cb("before"))
				rt.Threads(func() { f.Complete(mw) }, func() { f.Then(cb("during")) })
				rt.Check(f.IsCompleted(), "future-state", "not completed")
				f.Then(cb("after"))
				rt.Quiesce()
				for _, n := range []string{"before", "during", "after"} {
					rt.Check(rt.Counted(n) == 1, "callback-count", "callback %s ran %d times", n, rt.Counted(n))
				}
			}),
			S("complete-twice", "two completions: the first wins, callbacks run once", d, func() {
				f := actor.NewFuture()
				a, b := bodyMsg("a"), bodyMsg("b")
				f.Then(func(w *msg.Wrapper) { rt.Log("got", "%s", w.Req.Body) })
				f.Then(func(w *msg.Wrapper) { rt.Log("got2", "%s", w.Req.Body) })
				rt.Threads(func() { f.Complete(a) }, func() { f.Complete(b) })
				rt.Quiesce()
				rt.Check(len(rt.Logged("got")) == 1 && len(rt.Logged("got2")) == 1, "callback-count", "%v %v", rt.Logged("got"), rt.Logged("got2"))
				rt.Check(rt.Logged("got")[0] == rt.Logged("got2")[0], "future-value", "callbacks saw different results")
				f.Then(func(w *msg.Wrapper) { rt.Log("late", "%s", w.Req.Body) })
				rt.Quiesce()
				rt.Check(join(rt.Logged("late")) == rt.Logged("got")[0], "future-value", "late callback saw %v, first %v", rt.Logged("late"), rt.Logged("got"))
				rt.Outcome(rt.Logged("got")[0])
			}),
			S("chain", "chained futures complete in order, each once", d, func() {
				f := actor.NewFuture()
				mw := bodyMsg("r")
				f.Then(func(*msg.Wrapper) { rt.Log("c", "1") }).Then(func(*msg.Wrapper) { rt.Log("c", "2") }).Then(func(*msg.Wrapper) { rt.Log("c", "3") })
				rt.Threads(func() { f.Complete(mw) }, func() { f.Complete(mw) })
				rt.Quiesce()
				rt.Check(join(rt.Logged("c")) == "1 2 3", "chain", "%v", rt.Logged("c"))
			}),
			S("chain-late", "a chain attached around and after completion still runs", d, func() {
				f := actor.NewFuture()
				mw := bodyMsg("r")
				rt.Threads(func() { f.Complete(mw) }, func() {
					f.Then(func(*msg.Wrapper) { rt.Log("c", "1") }).Then(func(w *msg.Wrapper) {
						rt.Check(w == mw, "future-value", "wrong wrapper")
						rt.Log("c", "2")
					})
				})
				rt.Quiesce()
				rt.Check(join(rt.Logged("c")) == "1 2", "chain", "%v", rt.Logged("c"))
				f.Then(func(*msg.Wrapper) { rt.Log("d", "1") }).Then(func(*msg.Wrapper) { rt.Log("d", "2") })
				rt.Quiesce()
				rt.Check(join(rt.Logged("d")) == "1 2", "chain", "after completion: %v", rt.Logged("d"))
			}),
			S("nil-result", "a future that completes without a result runs its callbacks all the same", d, func() {
				f := actor.NewFuture()
				cb := func(w *msg.Wrapper) {
					rt.Check(w == nil, "future-value", "%v", w)
					rt.Count("n", 1)
				}
				f.Then(cb).Then(cb)
				rt.Threads(func() { f.Complete(nil) }, func() { f.Complete(nil) })
				f.Then(cb).Then(cb)
				rt.Quiesce()
				rt.Check(rt.Counted("n") == 4 && f.IsCompleted(), "callback-count", "%d callbacks ran, want 4", rt.Counted("n"))
			}),
			S("many", "forty callbacks, registered before and after completion, and a chain of twenty", 1, func() {
				f := actor.NewFuture()
				var l core.IFuture = f
				mw := bodyMsg("r")
				cb := func(n string) func(*msg.Wrapper) {
					return func(w *msg.Wrapper) {
						rt.Check(w == mw, "future-value", "callback got another wrapper")
						rt.Count(n, 1)
					}
				}
				for i := 0; i < 20; i++ {
					f.Then(cb(fmt.Sprint("a", i)))
					l = l.Then(cb(fmt.Sprint("c", i)))
				}
				f.Complete(mw)
				for i := 0; i < 20; i++ {
					f.Then(cb(fmt.Sprint("b", i)))
				}
				rt.Quiesce()
				for i := 0; i < 60; i++ {
					n := fmt.Sprint("abc"[i%3:i%3+1], i/3)
					rt.Check(rt.Counted(n) == 1, "callback-count", "callback %s ran %d times", n, rt.Counted(n))
				}
			}),
			S("in-callback", "callbacks that use their own future: Then, Complete and IsCompleted, before and after completion", d, func() {
				f := actor.NewFuture()
				mw := bodyMsg("r")
				cb := func(n string) func(*msg.Wrapper) {
					return func(w *msg.Wrapper) {
						rt.Check(w == mw && f.IsCompleted(), "future-state", "in callback %s", n)
						f.Complete(bodyMsg("again"))
						f.Then(func(w *msg.Wrapper) {
							rt.Check(w == mw, "future-value", "nested callback of %s", n)
							rt.Count(n, 1)
						}).Then(func(w *msg.Wrapper) {
							rt.Check(w == mw, "future-value", "chained callback of %s", n)
							rt.Count(n, 1)
						})
					}
				}
				f.Then(cb("a")).Then(cb("b"))
				rt.Threads(func() { f.Complete(mw) }, func() { f.Then(cb("c")).Then(cb("d")) })
				f.Then(cb("e")).Then(cb("f"))
				rt.Quiesce()
				for _, n := range []string{"a", "b", "c", "d", "e", "f"} {
					rt.Check(rt.Counted(n) == 2, "callback-count", "callbacks registered by %s ran %d times, want 2", n, rt.Counted(n))
				}
			}),
			S("then-in-callback", "a callback registers another", d, func() {
				f := actor.NewFuture()
				f.Then(func(*msg.Wrapper) { f.Then(func(*msg.Wrapper) { rt.Count("inner", 1) }) })
				rt.Threads(func() { f.Complete(newMsg()) }, func() { f.Then(func(*msg.Wrapper) { rt.Count("other", 1) }) })
				rt.Quiesce()
				rt.Check(rt.Counted("inner") == 1 && rt.Counted("other") == 1, "callback-count", "inner %d other %d", rt.Counted("inner"), rt.Counted("other"))
			}),
		}
	})

	// A11: reentrant calls.
	register("A11", func(tier string) []rt.Scenario {
		d := pick(tier, 2, 3)
		return []rt.Scenario{
			S("result", "the future of a reentrant call completes once, with the callee's answer", pick(tier, 3, 4), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("go", func(mw *msg.Wrapper) error {
						out := bodyMsg("q")
						a.ReenterCall("b", "t", "ans", out).Then(func(w *msg.Wrapper) {
							rt.Log("done", "%s %v", w.Res.Body, w.Err)
						})
						return nil
					})
					a.on("ans", func(mw *msg.Wrapper) error {
						mw.Res.Body = append([]byte("a:"), mw.Req.Body...)
						return nil
					})
				}})
				spawn(sys, "t", "a")
				spawn(sys, "t", "b")
				sys.Send("a", "t", "go", newMsg())
				rt.Quiesce()
				rt.Check(join(rt.Logged("done")) == "a:q <nil>", "reenter-result", "%v", rt.Logged("done"))
			}),
			S("remote", "a reentrant call to an actor on another node", pick(tier, 1, 2), func() {
				n := cluster(2, spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("go", func(mw *msg.Wrapper) error {
						out := bodyMsg("q")
						a.ReenterCall([]string{"b", "none"}[rt.Choose(2, "target")], "t", "ans", out).Then(func(w *msg.Wrapper) {
							if w.Err != nil {
								rt.Log("done", "error")
								return
							}
							rt.Log("done", "%s", w.Res.Body)
						})
						return nil
					})
					a.on("ans", func(mw *msg.Wrapper) error {
						rt.Count("ran", 1)
						mw.Res.Body = append([]byte("a:"), mw.Req.Body...)
						return nil
					})
				}})
				rt.Quiesce()
				spawn(n[0], "t", "a")
				spawn(n[1], "t", "b")
				n[0].Send("a", "t", "go", newMsg())
				rt.Quiesce()
				want := "error"
				if rt.Counted("ran") == 1 {
					want = "a:q"
				}
				rt.Check(join(rt.Logged("done")) == want, "reenter-result", "%v, want %s", rt.Logged("done"), want)
			}),
			S("not-blocked", "the caller handles other messages while it waits", d, func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("go", func(mw *msg.Wrapper) error {
						a.ReenterCall("b", "t", "slow", newMsg()).Then(func(w *msg.Wrapper) {
							rt.Log("order", "reenter")
						})
						return nil
					})
					a.on("ev", func(mw *msg.Wrapper) error { rt.Log("order", "ev"); return nil })
					a.on("slow", func(mw *msg.Wrapper) error { sleepMs(1000); return nil })
				}})
				spawn(sys, "t", "a")
				spawn(sys, "t", "b")
				sys.Send("a", "t", "go", newMsg())
				if err := sys.Call("a", "t", "ev", newMsg()); err != nil {
					rt.Fail("call-failed", "%v", err)
				}
				rt.Check(rt.Elapsed() == 0, "blocked", "the other message waited %v", rt.Elapsed())
				sleepMs(1500)
				rt.Quiesce()
				rt.Check(join(rt.Logged("order")) == "ev reenter", "reenter-order", "%v", rt.Logged("order"))
			}),
			S("back-and-forth", "the callee calls the caller back while it waits", d, func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("go", func(mw *msg.Wrapper) error {
						a.ReenterCall("b", "t", "ask", newMsg()).Then(func(w *msg.Wrapper) {
							rt.Log("done", "%s", w.Res.Body)
						})
						return nil
					})
					a.on("ask", func(mw *msg.Wrapper) error {
						in := newMsg()
						if err := a.Call("a", "t", "val", in); err != nil {
							rt.Fail("callback-failed", "%v", err)
						}
						mw.Res.Body = append([]byte("got "), in.Res.Body...)
						return nil
					})
					a.on("val", func(mw *msg.Wrapper) error { mw.Res.Body = []byte("v"); return nil })
				}})
				spawn(sys, "t", "a")
				spawn(sys, "t", "b")
				sys.Send("a", "t", "go", newMsg())
				rt.Quiesce()
				rt.Check(join(rt.Logged("done")) == "got v", "reenter-result", "%v", rt.Logged("done"))
				rt.Check(rt.Elapsed() == 0, "blocked", "%v", rt.Elapsed())
			}),
			S("unknown", "the callee does not exist: the future completes once, with an error", pick(tier, 3, 4), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("go", func(mw *msg.Wrapper) error {
						a.ReenterCall("ghost", "t", "x", newMsg()).Then(func(w *msg.Wrapper) {
							rt.Check(w.Err != nil, "reenter-error", "no error")
							rt.Count("done", 1)
						})
						return nil
					})
				}})
				spawn(sys, "t", "a")
				sys.Send("a", "t", "go", newMsg())
				rt.Quiesce()
				rt.Check(rt.Counted("done") == 1, "callback-count", "ran %d times", rt.Counted("done"))
			}),
			S("timeout", "the callee takes longer than the call timeout: once, with an error", d, func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("go", func(mw *msg.Wrapper) error {
						a.ReenterCall("b", "t", "slow", newMsg()).Then(func(w *msg.Wrapper) {
							rt.Check(w.Err != nil, "reenter-error", "no error after %v", rt.Elapsed())
							rt.Count("done", 1)
						})
						return nil
					})
					a.on("slow", func(mw *msg.Wrapper) error { sleepMs(60000); return nil })
				}})
				spawn(sys, "t", "a")
				spawn(sys, "t", "b")
				sys.Send("a", "t", "go", newMsg())
				sleepMs(31000)
				rt.Quiesce()
				rt.Check(rt.Counted("done") == 1, "callback-count", "ran %d times after %v", rt.Counted("done"), rt.Elapsed())
			}),
			S("cancel", "the caller's context ends: once, and only with an error before the answer", d, func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("go", func(mw *msg.Wrapper) error {
						ctx, cancel := context.WithTimeout(context.Background(), 500*time.Millisecond)
						out := msg.NewBuilder(ctx).Build()
						a.ReenterCall("b", "t", "slow", out).Then(func(w *msg.Wrapper) {
							cancel()
							if w.Err == nil && string(w.Res.Body) != "late" {
								rt.Fail("reenter-result", "no error and no answer")
							}
							rt.Count("done", 1)
						})
						return nil
					})
					a.on("slow", func(mw *msg.Wrapper) error { sleepMs(500); mw.Res.Body = []byte("late"); return nil })
					a.on("ev", func(mw *msg.Wrapper) error { return nil })
				}})
				spawn(sys, "t", "a")
				spawn(sys, "t", "b")
				sys.Send("a", "t", "go", newMsg())
				sleepMs(10000)
				rt.Quiesce()
				rt.Check(rt.Counted("done") == 1, "callback-count", "ran %d times", rt.Counted("done"))
				if err := sys.Call("a", "t", "ev", newMsg()); err != nil {
					rt.Fail("stuck", "%v", err)
				}
			}),
			S("two", "two reentrant calls of one handler both complete with their own answer", d, func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("go", func(mw *msg.Wrapper) error {
						for _, q := range []string{"x", "y"} {
							q := q
							a.ReenterCall("b", "t", "ans", bodyMsg(q)).Then(func(w *msg.Wrapper) {
								rt.Check(string(w.Res.Body) == "a:"+q && w.Err == nil, "reenter-result", "asked %s got %s %v", q, w.Res.Body, w.Err)
								rt.Count("done "+q, 1)
							})
						}
						return nil
					})
					a.on("ans", func(mw *msg.Wrapper) error {
						mw.Res.Body = append([]byte("a:"), mw.Req.Body...)
						return nil
					})
				}})
				spawn(sys, "t", "a")
				spawn(sys, "t", "b")
				sys.Send("a", "t", "go", newMsg())
				rt.Quiesce()
				rt.Check(rt.Counted("done x") == 1 && rt.Counted("done y") == 1, "callback-count", "x %d y %d", rt.Counted("done x"), rt.Counted("done y"))
			}),
			S("twenty", "twenty reentrant calls at once complete with their own answer", 0, func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("go", func(mw *msg.Wrapper) error {
						for i := 0; i < 20; i++ {
							q := fmt.Sprint(i)
							a.ReenterCall("b", "t", "ans", bodyMsg(q)).Then(func(w *msg.Wrapper) {
								rt.Check(string(w.Res.Body) == "a:"+q && w.Err == nil, "reenter-result", "asked %s got %s %v", q, w.Res.Body, w.Err)
								rt.Count("done "+q, 1)
							})
						}
						return nil
					})
					a.on("ans", func(mw *msg.Wrapper) error {
						sleepMs(10)
						mw.Res.Body = append([]byte("a:"), mw.Req.Body...)
						return nil
					})
				}})
				spawn(sys, "t", "a")
				spawn(sys, "t", "b")
				sys.Send("a", "t", "go", newMsg())
				sleepMs(300)
				rt.Quiesce()
				for i := 0; i < 20; i++ {
					rt.Check(rt.Counted(fmt.Sprint("done ", i)) == 1, "callback-count", "callback %d ran %d times", i, rt.Counted(fmt.Sprint("done ", i)))
				}
			}, noMem, ops(200000)),
			S("stop", "the actor stops after the answer has come, while a handler keeps it busy: the callback runs before Unregister returns", pick(tier, 4, 5), func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("go", func(mw *msg.Wrapper) error {
						a.ReenterCall("b", "t", "ans", newMsg()).Then(func(w *msg.Wrapper) { rt.Count("done", 1) })
						sleepMs(500)
						return nil
					})
					a.on("ans", func(mw *msg.Wrapper) error { return nil })
				}})
				spawn(sys, "t", "a")
				spawn(sys, "t", "b")
				sys.Send("a", "t", "go", newMsg())
				sleepMs(100)
				if err := sys.Unregister("a", "t"); err != nil {
					rt.Fail("unregister", "%v", err)
				}
				rt.Check(rt.Counted("done") == 1, "callback-count", "ran %d times", rt.Counted("done"))
			}),
			S("panic-callee", "the callee panics: the future still completes once", d, func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("go", func(mw *msg.Wrapper) error {
						a.ReenterCall("b", "t", "bad", newMsg()).Then(func(w *msg.Wrapper) { rt.Count("done", 1) })
						return nil
					})
					a.on("bad", func(mw *msg.Wrapper) error { panic("x") })
				}})
				spawn(sys, "t", "a")
				spawn(sys, "t", "b")
				sys.Send("a", "t", "go", newMsg())
				sleepMs(40000)
				rt.Quiesce()
				rt.Check(rt.Counted("done") == 1, "callback-count", "ran %d times", rt.Counted("done"))
			}),
			S("called", "a handler that is itself waited for makes a reentrant call with its own message's context", d, func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("go", func(mw *msg.Wrapper) error {
						out := msg.NewBuilder(mw.Ctx).WithReqBody([]byte("q")).Build()
						a.ReenterCall("b", "t", "ans", out).Then(func(w *msg.Wrapper) {
							rt.Log("done", "%s %v", w.Res.Body, w.Err)
						})
						mw.Res.Body = []byte("own")
						work(1)
						return nil
					})
					a.on("ans", func(mw *msg.Wrapper) error {
						work(1)
						mw.Res.Body = append([]byte("a:"), mw.Req.Body...)
						return nil
					})
				}})
				spawn(sys, "t", "a")
				spawn(sys, "t", "b")
				mw := newMsg()
				if err := sys.Call("a", "t", "go", mw); err != nil || string(mw.Res.Body) != "own" {
					rt.Fail("call", "%v %s", err, mw.Res.Body)
				}
				rt.Quiesce()
				rt.Check(join(rt.Logged("done")) == "a:q <nil>", "reenter-result", "%v", rt.Logged("done"))
				rt.Check(rt.Elapsed() == 0, "blocked", "%v", rt.Elapsed())
			}),
			S("alone", "the callback of a reentrant call never runs beside another handler of its actor, and shares its state without locks", d, func() {
				n := 0
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("go", func(mw *msg.Wrapper) error {
						f := a.ReenterCall("b", "t", "ans", newMsg())
						f.Then(func(w *msg.Wrapper) { alone("a", func() { n++ }) }).Then(func(w *msg.Wrapper) { alone("a", func() { n++ }) })
						f.Then(func(w *msg.Wrapper) { alone("a", func() { n++ }) })
						return nil
					})
					a.on("ev", func(mw *msg.Wrapper) error { alone("a", func() { n++ }); return nil })
					a.on("ans", func(mw *msg.Wrapper) error { return nil })
				}})
				spawn(sys, "t", "a")
				spawn(sys, "t", "b")
				sys.Send("a", "t", "go", newMsg())
				sys.Send("a", "t", "ev", newMsg())
				sys.Send("a", "t", "ev", newMsg())
				rt.Quiesce()
				rt.Check(rt.Counted("alone a") == 5, "callback-count", "%d callbacks and handlers ran, want 5", rt.Counted("alone a"))
			}),
			S("cancel-alone", "neither does the callback of a cancelled one", d, func() {
				n := 0
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("go", func(mw *msg.Wrapper) error {
						ctx, cancel := context.WithCancel(context.Background())
						a.ReenterCall("b", "t", "slow", msg.NewBuilder(ctx).Build()).Then(func(w *msg.Wrapper) {
							rt.Check(w.Err != nil, "reenter-error", "no error")
							alone("a", func() { n++ })
						})
						cancel()
						return nil
					})
					a.on("ev", func(mw *msg.Wrapper) error { alone("a", func() { n++ }); return nil })
					a.on("slow", func(mw *msg.Wrapper) error { sleepMs(1000); return nil })
				}})
				spawn(sys, "t", "a")
				spawn(sys, "t", "b")
				sys.Send("a", "t", "go", newMsg())
				sys.Send("a", "t", "ev", newMsg())
				sleepMs(2000)
				rt.Quiesce()
				rt.Check(rt.Counted("alone a") == 2, "callback-count", "%d callbacks and handlers ran, want 2", rt.Counted("alone a"))
			}),
			S("panic-callback", "a panicking callback harms neither the process nor its actor", d, func() {
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("go", func(mw *msg.Wrapper) error {
						a.ReenterCall("b", "t", "ans", newMsg()).Then(func(w *msg.Wrapper) { rt.Count("done", 1); panic("callback") })
						return nil
					})
					a.on("ev", func(mw *msg.Wrapper) error { mw.Res.Body = []byte("ok"); return nil })
					a.on("ans", func(mw *msg.Wrapper) error { return nil })
				}})
				spawn(sys, "t", "a")
				spawn(sys, "t", "b")
				sys.Send("a", "t", "go", newMsg())
				rt.Quiesce()
				mw := newMsg()
				if err := sys.Call("a", "t", "ev", mw); err != nil || string(mw.Res.Body) != "ok" {
					rt.Fail("stuck", "%v %s", err, mw.Res.Body)
				}
				rt.Check(rt.Counted("done") == 1, "callback-count", "ran %d times", rt.Counted("done"))
			}),
		}
	})
}
