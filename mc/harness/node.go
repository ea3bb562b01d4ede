package main

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/def"
	"github.com/pojol/braid/zzmc/mcgrpc"
	"github.com/pojol/braid/zzmc/mcredis"
	"github.com/pojol/braid/zzmc/rt"
)

// nothing checks that the store holds no record of a node.
func nothing(when, node string) {
	w := mcredis.Get()
	if r := records(w, node); len(r) != 0 {
		rt.Fail("records-left", "%s: the address book still lists %v for %s", when, r, node)
	}
	if r := typeRecords(w, node); len(r) != 0 {
		rt.Fail("records-left", "%s: the type sets still list %v for %s", when, r, node)
	}
	if h := w.Hash("{node:" + node + "}"); len(h) != 0 {
		rt.Fail("records-left", "%s: the weights of %s are still there: %v", when, node, h)
	}
	if _, ok := w.Hash(def.RedisAddressbookNodesField)[node]; ok {
		rt.Fail("records-left", "%s: %s is still listed as a node", when, node)
	}
}

func exit(sys core.ISystem) {
	var wg sync.WaitGroup
	sys.Exit(&wg)
	wg.Wait()
}

func init() {
	W := map[string]int{"t": 3, "u": 5}

	// S09: a node that leaves.
	register("S09", func(tier string) []rt.Scenario {
		d := pick(tier, 1, 2)
		pair := func() []core.ISystem {
			n := cluster(2, tell("t", 3), tell("u", 5))
			settle()
			return n
		}
		other := func(n []core.ISystem) {
			consistent("at rest", W, map[string]core.ISystem{"n2": n[1]})
			for _, a := range n[1].Actors() {
				mw := bodyMsg("after")
				err := n[1].Call(a.ID(), a.Type(), "ev", mw)
				rt.Check(err == nil && string(mw.Res.Body) == a.ID(), "node-damaged", "the node that stays does not answer: %v", err)
			}
		}
		gone := func(n []core.ISystem, id, ty string) {
			for _, s := range n {
				rt.Check(s.Call(id, ty, "ev", bodyMsg("late")) != nil, "false-success", "a call to %s of the node that left succeeds", id)
				rt.Check(s.Send(id, ty, "ev", bodyMsg("late")) != nil, "false-success", "a send to %s of the node that left succeeds", id)
			}
			for _, h := range rt.Logged("handled") {
				rt.Check(!strings.HasPrefix(h, ty+"/"+id+"@") || !strings.HasSuffix(h, ":late"), "accepts-after-exit", "%s", h)
			}
		}
		return []rt.Scenario{
			S("layouts", "a node leaves, whatever ran where", 0, func() {
				n := pair()
				var mine [][2]string
				for i, y := range []string{"t", "u", "t"} {
					id := fmt.Sprint("a", i)
					switch rt.Choose(3, "place") {
					case 0:
						spawn(n[0], y, id)
						mine = append(mine, [2]string{id, y})
					case 1:
						spawn(n[1], y, id)
					}
				}
				if len(mine) > 0 && rt.Choose(2, "stop-one") == 1 {
					n[0].Unregister(mine[0][0], mine[0][1])
				}
				if rt.Choose(2, "warm") == 1 {
					for _, a := range n[0].Actors() {
						n[1].Call(a.ID(), a.Type(), "ev", bodyMsg("warm"))
					}
				}
				exit(n[0])
				nothing("after Exit", "n1")
				other(n)
				for _, a := range mine {
					gone(n, a[0], a[1])
				}
				other(n)
			}, noMem),
			S("drain", "what was accepted before Exit is handled before its wait group is released", pick(tier, 2, 3), func() {
				n := pair()
				spawn(n[0], "t", "a")
				spawn(n[0], "u", "b")
				for i := 0; i < 2; i++ {
					n[0].Send("a", "t", "ev", bodyMsg(fmt.Sprint(i)))
					n[0].Send("b", "u", "ev", bodyMsg(fmt.Sprint(i)))
				}
				exit(n[0])
				h := rt.Logged("handled")
				rt.Check(len(h) == 4, "drain", "handled %v", h)
				nothing("after Exit", "n1")
			}),
			S("drain-slow", "Exit during a handler that takes seconds", d, func() {
				n := pair()
				spawn(n[0], "t", "a")
				spawn(n[1], "t", "b")
				n[0].Send("a", "t", "slow", bodyMsg("0"))
				rt.Quiesce()
				exit(n[0])
				rt.Check(join(rt.Logged("handled")) == "t/a@n1:0", "drain", "handled %v", rt.Logged("handled"))
				nothing("after Exit", "n1")
				other(n)
			}),
			S("exit-vs-call", "a remote call arrives while the node leaves", d, func() {
				n := pair()
				spawn(n[0], "t", "a")
				n[1].Call("a", "t", "ev", bodyMsg("warm"))
				rt.Threads(func() { exit(n[0]) }, func() {
					mw := bodyMsg("x")
					err := n[1].Call("a", "t", "ev", mw)
					ran := has(rt.Logged("handled"), "t/a@n1:x")
					rt.Check(err != nil || (ran && string(mw.Res.Body) == "a"), "false-success", "success, handled: %v, answer %q", ran, mw.Res.Body)
				})
				nothing("after Exit", "n1")
			}),
			S("exit-vs-send", "local and remote sends while the node leaves", d, func() {
				n := pair()
				spawn(n[0], "t", "a")
				n[1].Call("a", "t", "ev", bodyMsg("warm"))
				var sent []string
				rt.Threads(func() { exit(n[0]) },
					func() {
						if n[0].Send("a", "t", "ev", bodyMsg("l")) == nil {
							sent = append(sent, "l")
						}
					},
					func() {
						if n[1].Send("a", "t", "ev", bodyMsg("r")) == nil {
							sent = append(sent, "r")
						}
					})
				rt.Quiesce()
				for _, m := range sent {
					rt.Check(has(rt.Logged("handled"), "t/a@n1:"+m), "lost", "the accepted send %s is not handled: %v", m, rt.Logged("handled"))
				}
				nothing("after Exit", "n1")
			}, noMem),
			S("exit-vs-unregister", "an actor stops while its node leaves", d, func() {
				n := pair()
				spawn(n[0], "t", "a")
				spawn(n[0], "u", "b")
				spawn(n[1], "t", "c")
				rt.Threads(func() { exit(n[0]) }, func() { n[0].Unregister("a", "t") })
				nothing("after Exit", "n1")
				other(n)
			}),
			S("exit-vs-register", "another node registers actors of the same types meanwhile", d, func() {
				n := pair()
				spawn(n[0], "t", "a")
				spawn(n[1], "t", "b")
				rt.Threads(func() { exit(n[0]) }, func() { reg(n[1], "t", "c"); reg(n[1], "u", "e") })
				rt.Check(len(n[1].Actors()) == 3, "node-damaged", "%v", live(n[1]))
				nothing("after Exit", "n1")
				other(n)
			}),
			S("both-leave", "both nodes leave at once", d, func() {
				n := pair()
				spawn(n[0], "t", "a")
				spawn(n[1], "t", "b")
				spawn(n[1], "u", "c")
				rt.Threads(func() { exit(n[0]) }, func() { exit(n[1]) })
				nothing("after Exit", "n1")
				nothing("after Exit", "n2")
			}),
			S("restart", "a node leaves, comes back and runs the same actors again", 1, func() {
				n := pair()
				spawn(n[0], "t", "a")
				spawn(n[1], "u", "b")
				n[1].Call("a", "t", "ev", bodyMsg("0"))
				exit(n[0])
				n[0] = newNode("n1", 9001, newFactory(tell("t", 3), tell("u", 5))).System()
				settle()
				rt.Check(n[1].Call("a", "t", "ev", bodyMsg("1")) != nil, "false-success", "success")
				spawn(n[0], "t", "a")
				consistent("after the restart", W, map[string]core.ISystem{"n1": n[0], "n2": n[1]})
				mw := bodyMsg("2")
				err := n[1].Call("a", "t", "ev", mw)
				rt.Check(err == nil && string(mw.Res.Body) == "a", "unroutable", "%v", err)
			}),
			S("names", "types and ids of which one is part of another: the records of the node that leaves go, the others stay", 0, func() {
				var specs []spec
				W := map[string]int{}
				for i, ty := range oddTypes {
					specs = append(specs, tell(ty, i))
					W[ty] = i
				}
				k, o := 1+rt.Choose(3, "step"), rt.Choose(2, "node")
				ids := [][2]string{{"n1", "n2"}, {"n1", "n10"}, {"n1", "1"}, {"N1", "n1"}}[rt.Choose(4, "ids")]
				redisUp()
				var n []core.ISystem
				for i, id := range ids {
					n = append(n, newNode(id, 9001+i, newFactory(specs...)).System())
				}
				settle()
				for i, id := range oddIDs {
					spawn(n[(i/k+o)%2], oddTypes[i%len(oddTypes)], id)
				}
				var there []core.IActor
				there = append(there, n[0].Actors()...)
				exit(n[0])
				nothing("after Exit", ids[0])
				consistent("at rest", W, map[string]core.ISystem{ids[1]: n[1]})
				for _, a := range n[1].Actors() {
					answersTell(n[1], a.Type(), a.ID())
				}
				for _, a := range there {
					rt.Check(n[1].Call(a.ID(), a.Type(), "ev", newMsg()) != nil, "false-success", "a call to %s of the node that left succeeds", a.ID())
				}
			}, noMem, ops(200000)),
			S("crowd", "a node with thirty actors of two types leaves, each with work to do", 0, func() {
				n := cluster(2, tell("t", 3), tell("u", 5))
				settle()
				for i := 0; i < 30; i++ {
					ty := []string{"t", "u"}[i/3%2]
					spawn(n[0], ty, fmt.Sprint("a", i))
					spawn(n[1], ty, fmt.Sprint("b", i))
					n[0].Send(fmt.Sprint("a", i), ty, "slow", bodyMsg("0"))
				}
				exit(n[0])
				rt.Check(len(rt.Logged("handled")) == 30, "drain", "%d of 30 handled", len(rt.Logged("handled")))
				nothing("after Exit", "n1")
				consistent("at rest", W, map[string]core.ISystem{"n2": n[1]})
			}, noMem, ops(500000)),
			S("weightless", "a node with actors of weight zero leaves", 0, func() {
				n := cluster(2, tell("t", 0), tell("u", 5))
				settle()
				for i, y := range []string{"t", "u", "t"} {
					if at := rt.Choose(3, "place"); at < 2 {
						spawn(n[at], y, fmt.Sprint("a", i))
					}
				}
				exit(n[0])
				nothing("after Exit", "n1")
				consistent("at rest", map[string]int{"t": 0, "u": 5}, map[string]core.ISystem{"n2": n[1]})
			}, noMem),
			S("signals", "WaitClose returns for each of the three signals", 0, func() {
				pair()
				p := newNode("n3", 9003, newFactory(tell("t", 3)))
				settle()
				spawn(p.System(), "t", "a")
				rt.Threads(p.WaitClose, func() {
					rt.Quiesce()
					p.System().Send("a", "t", "slow", bodyMsg("0"))
					p.System().Send("a", "t", "ev", bodyMsg("1"))
					rt.Raise([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGQUIT}[rt.Choose(3, "signal")])
				})
				rt.Check(join(rt.Logged("handled")) == "t/a@n3:0 t/a@n3:1", "drain", "handled %v", rt.Logged("handled"))
				rt.Check(rt.Elapsed() <= 5*time.Second, "shutdown-time", "took %v", rt.Elapsed())
				nothing("after WaitClose", "n3")
			}),
			S("signal", "WaitClose returns once everything is drained", 1, func() {
				n := pair()
				p := newNode("n3", 9003, newFactory(tell("t", 3)))
				settle()
				spawn(p.System(), "t", "a")
				spawn(n[1], "t", "b")
				rt.Threads(p.WaitClose, func() {
					rt.Quiesce()
					p.System().Send("a", "t", "slow", bodyMsg("0"))
					p.System().Send("a", "t", "ev", bodyMsg("1"))
					rt.Quiesce()
					rt.Raise(syscall.SIGTERM)
				})
				rt.Check(join(rt.Logged("handled")) == "t/a@n3:0 t/a@n3:1", "drain", "handled %v", rt.Logged("handled"))
				rt.Check(rt.Elapsed() <= 5*time.Second, "shutdown-time", "took %v", rt.Elapsed())
				nothing("after WaitClose", "n3")
				other(n)
			}),
			S("signal-early", "the signal arrives before, during or after the first messages", d, func() {
				pair()
				p := newNode("n3", 9003, newFactory(tell("t", 3)))
				settle()
				spawn(p.System(), "t", "a")
				var ok bool
				rt.Threads(p.WaitClose, func() {
					rt.Quiesce()
					rt.Threads(func() { ok = p.System().Send("a", "t", "ev", bodyMsg("0")) == nil }, func() { rt.Raise(syscall.SIGINT) })
				})
				rt.Quiesce()
				rt.Check(!ok || has(rt.Logged("handled"), "t/a@n3:0"), "lost", "the accepted send is not handled")
				nothing("after WaitClose", "n3")
			}),
			S("signal-stuck", "WaitClose gives up on a stuck handler after thirty seconds", 0, func() {
				pair()
				p := newNode("n3", 9003, newFactory(tell("t", 3)))
				settle()
				spawn(p.System(), "t", "a")
				p.System().Send("a", "t", "stuck", bodyMsg("0"))
				rt.Quiesce()
				rt.Threads(p.WaitClose, func() { rt.Quiesce(); rt.Raise(syscall.SIGQUIT) })
				rt.Check(rt.Elapsed() <= 31*time.Second, "shutdown-time", "took %v", rt.Elapsed())
				nothing("after WaitClose", "n3")
			}, horizon(90*time.Second)),
			S("store-faults", "the store fails while a node leaves: it leaves all the same", 0, func() {
				n := pair()
				spawn(n[0], "t", "a")
				spawn(n[1], "t", "b")
				n[0].Send("a", "t", "ev", bodyMsg("0"))
				mcredis.EnableFaults(nil)
				exit(n[0])
				mcredis.DisableFaults()
				rt.Check(join(rt.Logged("handled")) == "t/a@n1:0", "drain", "handled %v", rt.Logged("handled"))
				other(n)
			}, faults(pick(tier, 2, 3)), horizon(90*time.Second)),
		}
	})

	// S10: registrations and a store that fails or a node that dies.
	register("S10", func(tier string) []rt.Scenario {
		pair := func() []core.ISystem {
			n := cluster(2, echo("t", 3), echo("u", 5))
			settle()
			spawn(n[1], "u", "z")
			return n
		}
		nodes := func(n []core.ISystem) map[string]core.ISystem {
			return map[string]core.ISystem{"n1": n[0], "n2": n[1]}
		}
		runs := func(s core.ISystem, id string) bool {
			_, err := s.FindActor(context.Background(), id)
			return err == nil
		}
		again := func(s core.ISystem, ty, id string) {
			if err := reg(s, ty, id); err != nil {
				rt.Fail("stuck-id", "%s cannot be registered although nothing runs under that id and the store works: %v", id, err)
			}
		}
		limited := func(l int) spec { s := echo("t", 3); s.limit = l; return s }
		return []rt.Scenario{
			S("register", "a registration meets store faults and is repeated", 0, func() {
				n := pair()
				mcredis.EnableFaults(nil)
				err := reg(n[0], "t", "a")
				mcredis.DisableFaults()
				rt.Check((err == nil) == runs(n[0], "a"), "half-registered", "error %v, running: %v", err, runs(n[0], "a"))
				if err == nil {
					consistent("after the registration", W, nodes(n))
				} else {
					rt.Check(n[0].Call("a", "t", "ev", newMsg()) != nil, "false-success", "a call succeeds")
					rt.Check(n[1].Call("a", "t", "ev", newMsg()) != nil, "false-success", "a remote call succeeds")
					again(n[0], "t", "a")
					consistent("after the second attempt", W, nodes(n))
				}
				answers(n[1], "t", "a")
			}, faults(pick(tier, 2, 3))),
			S("register-retry", "the registration is repeated at once, the store still failing", 0, func() {
				n := pair()
				mcredis.EnableFaults(nil)
				for i := 0; i < 3 && !runs(n[0], "a"); i++ {
					reg(n[0], "t", "a")
				}
				mcredis.DisableFaults()
				if !runs(n[0], "a") {
					again(n[0], "t", "a")
				}
				consistent("at rest", W, nodes(n))
				answers(n[1], "t", "a")
			}, faults(pick(tier, 2, 3))),
			S("register-limit", "the same with a quantity limit of one", 0, func() {
				n := cluster(2, limited(1), echo("u", 5))
				settle()
				mcredis.EnableFaults(nil)
				err := reg(n[0], "t", "a")
				mcredis.DisableFaults()
				rt.Check((err == nil) == runs(n[0], "a"), "half-registered", "error %v, running: %v", err, runs(n[0], "a"))
				if err != nil {
					again(n[0], "t", "a")
				}
				consistent("at rest", W, nodes(n))
				rt.Check(reg(n[1], "t", "b") != nil, "limit", "a second one is accepted")
			}, faults(1)),
			S("register-cancelled", "the context of a registration ends at any point of it, with and without a quantity limit", pick(tier, 2, 3), func() {
				lim := rt.Choose(2, "limit")
				n := cluster(2, limited(lim), echo("u", 5))
				settle()
				ctx, cancel := context.WithCancel(context.Background())
				var err error
				rt.Threads(func() { _, err = n[0].Loader("t").WithID("a").Register(ctx) }, func() { cancel() })
				rt.Check((err == nil) == runs(n[0], "a"), "half-registered", "error %v, running: %v", err, runs(n[0], "a"))
				if err != nil {
					again(n[lim], "t", "a")
				}
				consistent("at rest", W, nodes(n))
				rt.Check(lim == 0 || reg(n[1], "t", "b") != nil, "limit", "a second one is accepted")
			}),
			S("unregister", "the removal meets store faults; the id is free afterwards", 0, func() {
				n := pair()
				spawn(n[0], "t", "a")
				mcredis.EnableFaults(nil)
				n[0].Unregister("a", "t")
				mcredis.DisableFaults()
				rt.Check(!runs(n[0], "a"), "still-there", "the actor still runs")
				rt.Check(n[1].Call("a", "t", "ev", newMsg()) != nil, "false-success", "a call succeeds")
				rt.Check(rt.Counted("ran a") == 0, "false-success", "the stopped actor handled a call")
				if rt.Choose(2, "call-first") == 1 {
					n[0].Call("a", "t", "ev", newMsg())
					consistent("after the calls", W, nodes(n))
				}
				again(n[0], "t", "a")
				consistent("after the second registration", W, nodes(n))
				answers(n[1], "t", "a")
			}, faults(pick(tier, 2, 3))),
			S("unregister-register", "the removal meets store faults and the id is registered at once", 0, func() {
				n := pair()
				spawn(n[0], "t", "a")
				mcredis.EnableFaults(nil)
				n[0].Unregister("a", "t")
				mcredis.DisableFaults()
				again(n[0], "t", "a")
				consistent("after the second registration", W, nodes(n))
				answers(n[1], "t", "a")
			}, faults(pick(tier, 2, 3))),
			S("other-actors", "store faults during one actor's life leave the others alone", 0, func() {
				n := pair()
				spawn(n[0], "t", "b")
				mcredis.EnableFaults(nil)
				reg(n[0], "t", "a")
				n[0].Unregister("a", "t")
				mcredis.DisableFaults()
				answers(n[0], "t", "b")
				answers(n[1], "t", "b")
				answers(n[0], "u", "z")
				for _, s := range n {
					rt.Check(s.Call("a", "t", "ev", newMsg()) != nil, "false-success", "a call to the stopped actor succeeds")
				}
				n[0].Call("a", "t", "ev", newMsg())
				consistent("at rest", W, nodes(n))
			}, faults(pick(tier, 2, 3))),
			S("crash-restart", "the node dies at any point of register and unregister and comes back with the same actors", 0, func() {
				n := pair()
				spawn(n[0], "t", "b")
				dead, done := false, false
				rt.GoNamed("n1", func() {
					mcredis.EnableCrash(func() { dead = true; mcgrpc.Crash(9001) })
					reg(n[0], "u", "a")
					n[0].Unregister("b", "t")
					reg(n[0], "t", "b")
					done = true
				})
				rt.Quiesce()
				if !dead {
					rt.Check(done, "hang", "neither dead nor done")
					mcgrpc.Crash(9001)
				}
				for _, id := range []string{"a", "b"} {
					ty := map[string]string{"a": "u", "b": "t"}[id]
					rt.Check(n[1].Call(id, ty, "ev", newMsg()) != nil, "false-success", "a call to a dead node succeeds")
				}
				answers(n[1], "u", "z")
				n[0] = newNode("n1", 9001, newFactory(echo("t", 3), echo("u", 5))).System()
				settle()
				again(n[0], "t", "b")
				again(n[0], "u", "a")
				consistent("after the restart", W, nodes(n))
				answers(n[1], "t", "b")
				answers(n[1], "u", "a")
			}, faults(1)),
			S("crash-stale", "the node dies at any point and comes back empty: calls clean up", 0, func() {
				n := pair()
				dead := false
				rt.GoNamed("n1", func() {
					mcredis.EnableCrash(func() { dead = true; mcgrpc.Crash(9001) })
					reg(n[0], "t", "a")
					n[0].Unregister("a", "t")
					reg(n[0], "t", "a")
				})
				rt.Quiesce()
				if !dead {
					mcgrpc.Crash(9001)
				}
				n[0] = newNode("n1", 9001, newFactory(echo("t", 3), echo("u", 5))).System()
				settle()
				who := n[rt.Choose(2, "who")]
				if rt.Choose(2, "how") == 0 {
					rt.Check(who.Call("a", "t", "ev", newMsg()) != nil, "false-success", "success")
				} else {
					rt.Check(who.Send("a", "t", "ev", newMsg()) != nil, "false-success", "success")
				}
				consistent("after the call", W, nodes(n))
			}, faults(1)),
			S("crash-exit", "the node dies while it leaves: the other node is untouched, its own return is clean", 0, func() {
				n := pair()
				spawn(n[0], "t", "a")
				spawn(n[0], "u", "b")
				dead := false
				rt.GoNamed("n1", func() {
					mcredis.EnableCrash(func() { dead = true; mcgrpc.Crash(9001) })
					exit(n[0])
				})
				sleepMs(100)
				rt.Quiesce()
				_ = dead
				answers(n[1], "u", "z")
				n[0] = newNode("n1", 9001, newFactory(echo("t", 3), echo("u", 5))).System()
				settle()
				sleepMs(20000)
				again(n[0], "t", "a")
				again(n[0], "u", "b")
				consistent("after the restart", W, nodes(n))
				exit(n[0])
				nothing("after a clean exit", "n1")
			}, faults(1), horizon(90*time.Second)),
		}
	})
}
