package main

import (
	"context"
	"fmt"
	"sync/atomic"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/zzmc/mcredis"
	"github.com/pojol/braid/zzmc/rt"
)

var _ atomic.Bool

// echo is an actor type that counts its constructions and answers with its id.
func echo(ty string, weight int) spec {
	return spec{ty: ty, weight: weight, init: func(a *tActor) {
		rt.Count("init "+a.ID(), 1)
		a.on("ev", func(mw *msg.Wrapper) error {
			rt.Count("ran "+a.ID(), 1)
			mw.Res.Body = []byte(a.ID() + ":" + string(mw.Req.Body))
			return nil
		})
	}}
}

func reg(sys core.ISystem, ty, id string) error {
	_, err := sys.Loader(ty).WithID(id).Register(context.Background())
	return err
}

// answers checks that an actor that is registered can be called.
func answers(sys core.ISystem, ty, id string) {
	mw := bodyMsg("q")
	if err := sys.Call(id, ty, "ev", mw); err != nil {
		rt.Fail("unreachable", "a call to the registered actor %s fails: %v", id, err)
	}
	rt.Check(string(mw.Res.Body) == id+":q", "response", "actor %s answers %q", id, mw.Res.Body)
}

func init() {
	W := map[string]int{"t": 3, "u": 5}

	// S01: the address book and the node agree on what runs.
	register("S01", func(tier string) []rt.Scenario {
		one := func() (core.ISystem, map[string]core.ISystem) {
			sys := cluster(1, echo("t", 3), echo("u", 5))[0]
			return sys, map[string]core.ISystem{"n1": sys}
		}
		seq := func(depth int) func() {
			return func() {
				sys, nodes := one()
				model := map[string]bool{}
				ids := []string{"a", "b"}
				ty := map[string]string{"a": "t", "b": "u"}
				for i := 0; i < depth; i++ {
					c := rt.Choose(6, "operation")
					id := ids[c%2]
					switch c / 2 {
					case 0:
						err := reg(sys, ty[id], id)
						rt.Check((err == nil) == !model[id], "register-result", "register %s, registered before: %v: error %v", id, model[id], err)
						model[id] = true
					case 1:
						err := sys.Unregister(id, ty[id])
						rt.Check(err == nil, "unregister-result", "unregister %s: %v", id, err)
						delete(model, id)
					case 2:
						err := sys.Call(id, ty[id], "ev", newMsg())
						rt.Check((err == nil) == model[id], "call-result", "call %s, registered: %v: error %v", id, model[id], err)
					}
					for _, x := range ids {
						_, err := sys.FindActor(context.Background(), x)
						rt.Check((err == nil) == model[x], "find-result", "FindActor %s, registered: %v: error %v", x, model[x], err)
						_, err = sys.AddressBook().GetByID(context.Background(), x)
						rt.Check((err == nil) == model[x], "lookup", "GetByID %s, registered: %v: error %v", x, model[x], err)
					}
					for _, x := range []string{"t", "u", "", "A", "a "} {
						_, err := sys.FindActor(context.Background(), x)
						rt.Check(err != nil, "find-result", "FindActor(%q) finds an actor, none has that id", x)
					}
					rt.Check(len(sys.Actors()) == len(model), "actors", "Actors lists %d of %d", len(sys.Actors()), len(model))
					consistent(fmt.Sprintf("after step %d", i+1), W, nodes)
				}
			}
		}
		d := pick(tier, 2, 3)
		race := func(setup func(sys core.ISystem), fs ...func(sys core.ISystem)) func() {
			return func() {
				sys, nodes := one()
				if setup != nil {
					setup(sys)
				}
				var th []func()
				for _, f := range fs {
					f := f
					th = append(th, func() { f(sys) })
				}
				rt.Threads(th...)
				rt.Quiesce()
				consistent("at rest", W, nodes)
				for _, a := range sys.Actors() {
					answers(sys, a.Type(), a.ID())
				}
				consistent("after a call to each", W, nodes)
				rt.Outcome(join(live(sys)))
			}
		}
		R := func(id string) func(core.ISystem) { return func(s core.ISystem) { reg(s, "t", id) } }
		U := func(id string) func(core.ISystem) { return func(s core.ISystem) { s.Unregister(id, "t") } }
		C := func(id string) func(core.ISystem) {
			return func(s core.ISystem) {
				mw := bodyMsg("x")
				if s.Call(id, "t", "ev", mw) == nil {
					rt.Check(string(mw.Res.Body) == id+":x", "false-success", "the call to %s succeeds with answer %q", id, mw.Res.Body)
				}
			}
		}
		X := func(id string) func(core.ISystem) {
			return func(s core.ISystem) { s.Send(id, "t", "ev", newMsg()) }
		}
		return []rt.Scenario{
			S("sequences", "every sequence of register, unregister and call on two ids", 0, seq(pick(tier, 4, 5)), noMem),
			S("init-panic", "the Init of an actor panics during its registration, then the id is registered properly", pick(tier, 1, 2), func() {
				bad := true
				var n []core.ISystem
				n = cluster(2, spec{ty: "t", weight: 3, limit: 1, init: func(a *tActor) {
					if bad {
						panic("init of " + a.ID())
					}
					a.on("ev", func(mw *msg.Wrapper) error {
						mw.Res.Body = []byte(a.ID() + ":" + string(mw.Req.Body))
						return nil
					})
				}}, spec{ty: "u", weight: 5, init: func(a *tActor) {
					a.on("reg", func(mw *msg.Wrapper) error { return reg(n[0], "t", "a") })
				}})
				nodes := map[string]core.ISystem{"n1": n[0], "n2": n[1]}
				where := rt.Choose(3, "registered by an actor, or the node first used again")
				if where == 0 {
					spawn(n[0], "u", "w")
					n[0].Call("w", "u", "reg", newMsg())
				} else {
					func() {
						defer func() { recover() }()
						reg(n[0], "t", "a")
					}()
				}
				consistent("after the panic", W, nodes)
				bad = false
				s := n[where%2]
				rt.Check(reg(s, "t", "a") == nil, "register-result", "the id of an actor whose Init panicked cannot be registered")
				answers(s, "t", "a")
				consistent("at the end", W, nodes)
			}, noMem),
			S("context-ends", "the context of a registration ends in the middle of it", pick(tier, 2, 3), func() {
				lim := rt.Choose(3, "limit of the type, or the Init panics")
				s := spec{ty: "t", weight: 3, limit: lim % 2, init: echo("t", 3).init}
				bad := lim == 2
				s.init = func(a *tActor) {
					if bad {
						panic("init of " + a.ID())
					}
					echo("t", 3).init(a)
				}
				n := cluster(2, s)
				nodes := map[string]core.ISystem{"n1": n[0], "n2": n[1]}
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				rt.Threads(func() {
					defer func() { recover() }()
					n[0].Loader("t").WithID("a").Register(ctx)
				}, cancel)
				rt.Quiesce()
				consistent("after the registration", W, nodes)
				for _, a := range n[0].Actors() {
					answers(n[0], "t", a.ID())
					n[0].Unregister(a.ID(), "t")
				}
				bad = false
				rt.Check(reg(n[1], "t", "b") == nil, "register-result", "no actor of the type can be registered after a registration was cancelled")
				consistent("at the end", W, nodes)
			}, noMem),
			S("two-ids", "two different actors register at once", d, race(nil, R("a"), R("b"))),
			S("register-vs-unregister", "an actor registers while its id is unregistered", d, race(nil, R("a"), U("a"))),
			S("reregister", "an id is unregistered and registered again while another unregisters it", d, race(R("a"), func(s core.ISystem) { U("a")(s); R("a")(s) }, U("a"))),
			S("unregister-other", "one actor leaves while another registers", d, race(R("a"), U("a"), R("b"))),
			S("call-vs-register", "a call to an id that is being registered", d, race(nil, R("a"), C("a"))),
			S("send-vs-register", "a send to an id that is being registered", d, race(nil, R("a"), X("a"))),
			S("call-vs-unregister", "a call to an id that is being unregistered", d, race(R("a"), U("a"), C("a"))),
			S("call-vs-restart", "a call while its target is replaced", pick(tier, 2, 2), race(R("a"), func(s core.ISystem) { U("a")(s); R("a")(s) }, C("a"))),
			S("actors-vs-register", "Actors is called while actors come and go", d, race(R("a"), R("b"), func(s core.ISystem) {
				n := len(s.Actors())
				rt.Check(n <= 2, "actors", "Actors lists %d", n)
			}, U("a"))),
			S("wildcard-vs-unregister", "a wildcard call while the only actor of the type leaves", d, race(R("a"), U("a"), func(s core.ISystem) {
				mw := bodyMsg("x")
				if s.Call("?", "t", "ev", mw) == nil {
					rt.Check(string(mw.Res.Body) == "a:x", "false-success", "answer %q", mw.Res.Body)
				}
			})),
			S("first-vs-unregister", "a local-first call while the only actor of the type leaves", d, race(R("a"), U("a"), func(s core.ISystem) {
				mw := bodyMsg("x")
				if s.Call("~", "t", "ev", mw) == nil {
					rt.Check(string(mw.Res.Body) == "a:x", "false-success", "answer %q", mw.Res.Body)
				}
			})),
		}
	})

	// S02: one id, one actor.
	register("S02", func(tier string) []rt.Scenario {
		return []rt.Scenario{
			S("same-id", "the same id registers twice at once: one succeeds, one instance", pick(tier, 2, 3), func() {
				sys := cluster(1, echo("t", 3))[0]
				for i := 0; i < 2; i++ {
					_ = i
				}
				f := func() {
					if reg(sys, "t", "a") == nil {
						rt.Count("ok", 1)
					}
				}
				rt.Threads(f, f)
				rt.Check(rt.Counted("ok") == 1, "same-id-twice", "%d registrations of one id succeed", rt.Counted("ok"))
				rt.Check(rt.Counted("init a") == 1, "same-id-twice", "%d instances of one id were started", rt.Counted("init a"))
				rt.Check(len(sys.Actors()) == 1, "actors", "%d actors", len(sys.Actors()))
				consistent("at rest", map[string]int{"t": 3}, map[string]core.ISystem{"n1": sys})
				answers(sys, "t", "a")
			}),
			S("same-id-types", "the same id registers with two types at once", pick(tier, 2, 3), func() {
				sys := cluster(1, echo("t", 3), echo("u", 5))[0]
				f := func(ty string) func() {
					return func() {
						if reg(sys, ty, "a") == nil {
							rt.Count("ok", 1)
						}
					}
				}
				rt.Threads(f("t"), f("u"))
				rt.Check(rt.Counted("ok") == 1, "same-id-twice", "%d registrations of one id succeed", rt.Counted("ok"))
				consistent("at rest", map[string]int{"t": 3, "u": 5}, map[string]core.ISystem{"n1": sys})
			}),
			S("three", "three registrations of one id at once, of one type or two, with a limit or without, one of which panics", pick(tier, 1, 2), func() {
				lim, bad := rt.Choose(2, "limit"), rt.Choose(2, "panic") == 1
				n := 0
				s := echo("t", 3)
				s.limit = lim * 2
				init := s.init
				s.init = func(a *tActor) {
					if n++; bad && n == 1 {
						panic("init")
					}
					init(a)
				}
				sys := cluster(1, s, echo("u", 5))[0]
				f := func(ty string) func() {
					return func() {
						defer func() { recover() }()
						if reg(sys, ty, "a") == nil {
							rt.Count("ok", 1)
						}
					}
				}
				rt.Threads(f("t"), f([]string{"t", "u"}[rt.Choose(2, "type")]), f("t"))
				ok := rt.Counted("ok")
				rt.Check(ok == 1 || bad && ok == 0, "same-id-twice", "%d registrations of one id succeed", ok)
				rt.Check(rt.Counted("init a") == ok, "same-id-twice", "%d instances of one id were started", rt.Counted("init a"))
				nodes := map[string]core.ISystem{"n1": sys}
				consistent("at rest", map[string]int{"t": 3, "u": 5}, nodes)
				bad = false
				err := reg(sys, "t", "a")
				rt.Check((err == nil) == (ok == 0), "register-result", "registered: %v, registering the id again: %v", ok == 1, err)
				consistent("at the end", map[string]int{"t": 3, "u": 5}, nodes)
			}, noMem),
			S("nameless", "registrations without id or type among others, and with one builder for all", 0, func() {
				sys := cluster(1, echo("t", 3), echo("u", 5))[0]
				W := map[string]int{"t": 3, "u": 5}
				nodes := map[string]core.ISystem{"n1": sys}
				var one core.IActorBuilder
				shared := rt.Choose(2, "one builder") == 1
				is := map[string]string{}
				for i := 0; i < pick(tier, 3, 4); i++ {
					ty := []string{"t", "u", ""}[rt.Choose(3, "type")]
					id := []string{"a", "b", ""}[rt.Choose(3, "id")]
					from := ty
					if ty == "" {
						from = "t"
					}
					b := sys.Loader(from)
					if shared && ty != "u" {
						if one == nil {
							one = b
						}
						b = one
					}
					ab, ok := b.(*actor.ActorLoaderBuilder)
					rt.Check(ok, "builder", "builder is a %T", b)
					ab.ID = id
					b.WithType(ty)
					var err error
					func() {
						defer func() {
							if r := recover(); r != nil {
								err = fmt.Errorf("%v", r)
							}
						}()
						_, err = b.Register(context.Background())
					}()
					_, taken := is[id]
					rt.Check((err != nil) == (taken || id == "" || ty == ""), "register-result", "register %q as %q, it runs: %v: %v", id, ty, taken, err)
					if err == nil {
						is[id] = ty
					}
					consistent(fmt.Sprintf("after step %d", i+1), W, nodes)
					for _, id := range sortedKeys(is) {
						answers(sys, is[id], id)
					}
				}
				for _, id := range sortedKeys(is) {
					rt.Check(sys.Unregister(id, is[id]) == nil, "unregister", "unregister %s fails", id)
				}
				consistent("at the end", W, nodes)
			}, noMem),
			S("sequences", "every sequence of registering two ids under two types and of removing them", 0, func() {
				sys := cluster(1, echo("t", 3), echo("u", 5))[0]
				W := map[string]int{"t": 3, "u": 5}
				is := map[string]string{}
				for i := 0; i < pick(tier, 5, 6); i++ {
					id := []string{"a", "b"}[rt.Choose(2, "id")]
					ty := []string{"t", "u", ""}[rt.Choose(3, "type")]
					if ty == "" {
						sys.Unregister(id, "t")
						delete(is, id)
					} else {
						before := rt.Counted("init " + id)
						err := reg(sys, ty, id)
						was, taken := is[id]
						rt.Check((err != nil) == taken, "register-result", "register %s as %s, it runs as %q: %v", id, ty, was, err)
						if !taken {
							is[id] = ty
							before++
						}
						rt.Check(rt.Counted("init "+id) == before, "same-id-twice", "%d instances of %s were started, want %d", rt.Counted("init "+id), id, before)
					}
					consistent(fmt.Sprintf("after step %d", i+1), W, map[string]core.ISystem{"n1": sys})
					for id, ty := range is {
						a, err := sys.FindActor(context.Background(), id)
						rt.Check(err == nil && a.ID() == id && a.Type() == ty, "find-result", "FindActor(%s): %v %v", id, a, err)
					}
				}
				for _, id := range sortedKeys(is) {
					answers(sys, is[id], id)
				}
			}, noMem, ops(200000)),
			S("draining", "an id is registered again, once or by two at once, while the actor that has it handles its last messages", pick(tier, 1, 2), func() {
				inst, sent, done := 0, 0, 0
				two := rt.Choose(2, "two") == 1
				tys := []string{"t", []string{"t", "u"}[rt.Choose(2, "type")]}
				mk := func(ty string, w int) spec {
					return spec{ty: ty, weight: w, init: func(a *tActor) {
						inst++
						rt.Check(done == sent, "same-id-twice", "an instance of the id starts while another one has %d of %d messages to handle", sent-done, sent)
						a.on("ev", func(mw *msg.Wrapper) error {
							sleepMs(300)
							done++
							return nil
						})
					}}
				}
				sys := cluster(1, mk("t", 3), mk("u", 5))[0]
				spawn(sys, "t", "a")
				for i := 0; i < 2; i++ {
					if sys.Send("a", "t", "ev", newMsg()) == nil {
						sent++
					}
				}
				f := func(ty string) func() {
					return func() {
						for i := 0; i < 5; i++ {
							sleepMs(150)
							if reg(sys, ty, "a") == nil {
								rt.Count("ok", 1)
								return
							}
						}
					}
				}
				th := []func(){func() { sys.Unregister("a", "t") }, f(tys[1])}
				if two {
					th = append(th, f(tys[0]))
				}
				rt.Threads(th...)
				rt.Check(rt.Counted("ok") == 1 && inst == 2, "same-id-twice", "%d registrations of the id succeed, %d instances", rt.Counted("ok"), inst)
				consistent("at rest", map[string]int{"t": 3, "u": 5}, map[string]core.ISystem{"n1": sys})
			}),
			S("repeat", "a second registration is refused with ErrActorRegisterRepeat and changes nothing", 1, func() {
				sys := cluster(1, echo("t", 3))[0]
				spawn(sys, "t", "a")
				err := reg(sys, "t", "a")
				rt.Check(isErr(err, core.ErrActorRegisterRepeat), "register-result", "%v", err)
				consistent("after the refusal", map[string]int{"t": 3}, map[string]core.ISystem{"n1": sys})
				rt.Check(rt.Counted("init a") == 1, "same-id-twice", "started twice")
				answers(sys, "t", "a")
			}),
		}
	})

	// S03: quantity limits.
	register("S03", func(tier string) []rt.Scenario {
		lim := func(limit int, unique bool) spec {
			s := echo("t", 3)
			s.limit, s.unique = limit, unique
			return s
		}
		return []rt.Scenario{
			S("sequential", "registrations one after the other on two nodes, limit 2", 1, func() {
				sp := lim(2, false)
				sp.weight = []int{3, 0, 1000}[rt.Choose(3, "weight")]
				n := cluster(2, sp)
				for i := 0; i < 5; i++ {
					c := rt.Choose(3, "operation")
					if c == 2 {
						for _, s := range n {
							if l := s.Actors(); len(l) > 0 {
								s.Unregister(l[0].ID(), "t")
								break
							}
						}
						continue
					}
					total := len(n[0].Actors()) + len(n[1].Actors())
					err := reg(n[c], "t", fmt.Sprint("a", i))
					rt.Check((err == nil) == (total < 2), "limit", "with %d of 2 registered: error %v", total, err)
				}
				consistent("at the end", map[string]int{"t": sp.weight}, map[string]core.ISystem{"n1": n[0], "n2": n[1]})
			}, noMem),
			S("limits", "two nodes fill a limit of one to five or twelve, one actor leaves, one more is admitted", 0, func() {
				limit := []int{1, 2, 3, 4, 5, 12}[rt.Choose(6, "limit")]
				n := cluster(2, lim(limit, false), echo("tt", 1))
				settle()
				spawn(n[0], "tt", "other")
				for i := 0; i < limit+2; i++ {
					err := reg(n[i%2], "t", fmt.Sprint("a", i))
					rt.Check((err == nil) == (i < limit), "limit", "with %d of %d registered: error %v", i, limit, err)
				}
				n[0].Unregister("a0", "t")
				rt.Check(reg(n[1], "t", "b") == nil, "limit", "refused although one of %d left", limit)
				rt.Check(reg(n[0], "t", "c") != nil, "limit", "accepted above the limit of %d", limit)
				consistent("at the end", map[string]int{"t": 3, "tt": 1}, map[string]core.ISystem{"n1": n[0], "n2": n[1]})
			}, noMem),
			S("last-place", "two nodes race for the last place of a limit of two to four", pick(tier, 2, 3), func() {
				limit := 2 + rt.Choose(3, "limit")
				n := cluster(2, lim(limit, false))
				settle()
				for i := 0; i < limit-1; i++ {
					spawn(n[i%2], "t", fmt.Sprint("a", i))
				}
				rt.Threads(func() { reg(n[0], "t", "x") }, func() { reg(n[1], "t", "y") })
				c := len(n[0].Actors()) + len(n[1].Actors())
				rt.Check(c <= limit, "limit", "%d actors, global limit %d", c, limit)
				consistent("at rest", map[string]int{"t": 3}, map[string]core.ISystem{"n1": n[0], "n2": n[1]})
			}, noMem),
			S("same-node", "two registrations at once on one node, limit 1", pick(tier, 2, 3), func() {
				sys := cluster(1, lim(1, false))[0]
				rt.Threads(func() { reg(sys, "t", "a") }, func() { reg(sys, "t", "b") })
				rt.Check(len(sys.Actors()) <= 1, "limit", "%d actors, limit 1", len(sys.Actors()))
				consistent("at rest", map[string]int{"t": 3}, map[string]core.ISystem{"n1": sys})
			}),
			S("two-nodes", "two nodes register at once, limit 1", pick(tier, 2, 3), func() {
				n := cluster(2, lim(1, false))
				rt.Threads(func() { reg(n[0], "t", "a") }, func() { reg(n[1], "t", "b") })
				c := len(n[0].Actors()) + len(n[1].Actors())
				rt.Check(c <= 1, "limit", "%d actors, global limit 1", c)
				consistent("at rest", map[string]int{"t": 3}, map[string]core.ISystem{"n1": n[0], "n2": n[1]})
			}),
			S("node-unique", "two registrations at once of a node-unique type with a limit", pick(tier, 2, 3), func() {
				sys := cluster(1, lim(5, true))[0]
				rt.Threads(func() { reg(sys, "t", "a") }, func() { reg(sys, "t", "b") })
				rt.Check(len(sys.Actors()) == 1, "node-unique", "%d actors of a node-unique type", len(sys.Actors()))
				rt.Check(reg(sys, "t", "c") != nil, "node-unique", "a second one is accepted")
			}),
			S("node-unique-nolimit", "a node-unique type without a quantity limit", 1, func() {
				n := cluster(2, lim(0, true))
				rt.Check(reg(n[0], "t", "a") == nil && reg(n[1], "t", "b") == nil, "node-unique", "one per node is refused")
				rt.Check(reg(n[0], "t", "c") != nil, "node-unique", "a second one on the same node is accepted")
				n[0].Unregister("a", "t")
				rt.Check(reg(n[0], "t", "d") == nil, "node-unique", "refused although the first one left")
			}),
		}
	})

	// S04: weights.
	register("S04", func(tier string) []rt.Scenario {
		d := pick(tier, 2, 3)
		seq := func(depth int, ws ...[2]int) func() {
			return func() {
				w := ws[rt.Choose(len(ws), "weights")]
				n := cluster(2, echo("t", w[0]), echo("u", w[1]))
				nodes := map[string]core.ISystem{"n1": n[0], "n2": n[1]}
				owner := map[string]int{}
				ty := map[string]string{"a": "t", "b": "u", "c": "t"}
				for i := 0; i < depth; i++ {
					c := rt.Choose(6, "operation")
					s, id := n[c%2], []string{"a", "b", "c"}[c/2]
					if o, ok := owner[id]; !ok {
						rt.Check(reg(s, ty[id], id) == nil, "register-result", "refused")
						owner[id] = c % 2
					} else if o == c%2 {
						s.Unregister(id, ty[id])
						delete(owner, id)
					}
					consistent(fmt.Sprintf("weights %v, after step %d", w, i+1), map[string]int{"t": w[0], "u": w[1]}, nodes)
				}
			}
		}
		two := func() ([]core.ISystem, map[string]core.ISystem) {
			n := cluster(2, echo("t", 3), echo("u", 5))
			return n, map[string]core.ISystem{"n1": n[0], "n2": n[1]}
		}
		return []rt.Scenario{
			S("sequences", "every sequence of registrations and removals over two nodes and types", 0, func() {
				n, nodes := two()
				owner := map[string]int{}
				ty := map[string]string{"a": "t", "b": "u"}
				for i := 0; i < pick(tier, 4, 5); i++ {
					c := rt.Choose(8, "operation")
					s, id := n[c%2], []string{"a", "b"}[c/2%2]
					if c < 4 {
						if _, taken := owner[id]; !taken {
							rt.Check(reg(s, ty[id], id) == nil, "register-result", "refused")
							owner[id] = c % 2
						}
					} else if o, ok := owner[id]; ok && o == c%2 {
						s.Unregister(id, ty[id])
						delete(owner, id)
					}
					consistent(fmt.Sprintf("after step %d", i+1), W, nodes)
				}
			}, noMem),
			S("weights", "every sequence over three actors, with small, large and no weights", 0,
				seq(pick(tier, 4, 5), [2]int{1, 5}, [2]int{0, 2}, [2]int{0, 0}, [2]int{1, 1}, [2]int{10, 100}, [2]int{1000000, 7}, [2]int{1 << 33, 3}), noMem),
			S("names", "two nodes whose ids are alike", 0, func() {
				l := [][2]string{{"n", "N"}, {"n", "nn"}, {"n1", "n10"}, {"1n", "n"}, {"n", "n "}, {"n.1", "n-1"}, {"n 1", "n1"}, {"a:b", "a"}, {"{n}", "n"}, {"節", "節点"}, {"total_weight", "t"}, {"n\n", "n"}, {"%s", "%v"}}
				p := l[rt.Choose(len(l), "ids")]
				redisUp()
				f := newFactory(echo("t", 3), echo("u", 5))
				nodes := map[string]core.ISystem{}
				for _, id := range p {
					nodes[id] = newNode(id, 0, f).System()
				}
				for i, id := range []string{p[0], p[1], p[0]} {
					spawn(nodes[id], "t", fmt.Sprint("a", i))
				}
				spawn(nodes[p[1]], "u", "b")
				consistent(fmt.Sprintf("nodes %q", p), W, nodes)
				k := rt.Choose(2, "node that goes")
				nodes[p[k]].AddressBook().Clear(context.Background())
				total, _ := nodeWeight(mcredis.Get(), p[1-k])
				rt.Check(total == []int{6, 8}[1-k], "weight", "after %q cleared its records %q has weight %d", p[k], p[1-k], total)
				consistent(fmt.Sprintf("%q cleared its records", p[k]), W, map[string]core.ISystem{p[1-k]: nodes[p[1-k]]})
			}, noMem),
			S("own-weight", "actors of one type made by the builders of several, with weights of their own, among them none", 0, func() {
				w := [][2]int{{0, 5}, {5, 0}, {2, 7}}[rt.Choose(3, "weights")]
				n := cluster(2, echo("t", w[0]), echo("u", w[1]))
				sum := [2]int{}
				type a struct {
					node   int
					id     string
					weight int
				}
				var live []a
				check := func(when string) {
					for i := range n {
						total, _ := nodeWeight(mcredis.Get(), fmt.Sprint("n", i+1))
						rt.Check(total == sum[i], "weight", "%s: n%d carries weight %d, its actors weigh %d", when, i+1, total, sum[i])
					}
				}
				for i := 0; i < 4; i++ {
					k, by := i%2, i/2
					id := fmt.Sprint("a", i)
					_, err := n[k].Loader([]string{"t", "u"}[by]).WithID(id).WithType("u").Register(context.Background())
					rt.Check(err == nil, "register-result", "%v", err)
					live = append(live, a{k, id, w[by]})
					sum[k] += w[by]
					check(id + " registered")
				}
				for len(live) > 0 {
					j := rt.Choose(len(live), "next to go")
					x := live[j]
					live = append(live[:j:j], live[j+1:]...)
					n[x.node].Unregister(x.id, []string{"t", "u", ""}[rt.Choose(3, "named type")])
					sum[x.node] -= x.weight
					check(x.id + " gone")
				}
			}, noMem),
			S("with-type", "actors registered under a type of the builder's, one the factory knows or not", 0, func() {
				n, nodes := two()
				ty := []string{"t", "u", "x"}[rt.Choose(3, "type")]
				id := func(s core.ISystem, id string) error {
					_, err := s.Loader("t").WithID(id).WithType(ty).Register(context.Background())
					return err
				}
				rt.Check(id(n[0], "a") == nil && id(n[1], "b") == nil, "register-result", "refused")
				spawn(n[0], "t", "c")
				for i, want := range []int{6, 3} {
					total, _ := nodeWeight(mcredis.Get(), fmt.Sprint("n", i+1))
					rt.Check(total == want, "weight", "n%d carries weight %d, its actors weigh %d", i+1, total, want)
				}
				answers(n[1], ty, "a")
				consistent("all registered", nil, nodes)
				named := []string{ty, "", "t"}[rt.Choose(3, "named type")]
				err := n[0].Unregister("a", named)
				rt.Check(err == nil, "unregister-result", "%v", err)
				consistent("a has left", nil, nodes)
				n[1].Unregister("b", named)
				consistent("b has left", W, nodes)
			}),
			S("named-type", "an actor is unregistered under whatever type the caller names", 0, func() {
				n, nodes := two()
				spawn(n[0], "t", "a")
				spawn(n[0], "u", "b")
				spawn(n[1], "t", "c")
				id := []string{"a", "b"}[rt.Choose(2, "id")]
				n[0].Unregister(id, []string{"t", "u", "", "none"}[rt.Choose(4, "named type")])
				consistent("after Unregister", W, nodes)
				rt.Check(len(n[0].Actors()) == 1, "still-there", "%d actors", len(n[0].Actors()))
			}),
			S("remote-unregister", "a node removes the record of an actor that is gone from another node", d, func() {
				n, _ := two()
				spawn(n[0], "t", "a")
				spawn(n[1], "u", "b")
				rt.Check(n[1].AddressBook().Unregister(context.Background(), "a", 3) == nil, "unregister-result", "refused")
				w := mcredis.Get()
				t1, _ := nodeWeight(w, "n1")
				t2, _ := nodeWeight(w, "n2")
				rt.Check(t1 == 0 && t2 == 5, "weight", "n1 weighs %d, want 0; n2 weighs %d, want 5", t1, t2)
			}),
			S("unregister-twice", "the same record is removed twice at once", pick(tier, 3, 4), func() {
				n, _ := two()
				spawn(n[0], "t", "a")
				spawn(n[0], "t", "b")
				u := func() { n[0].AddressBook().Unregister(context.Background(), "a", 3) }
				rt.Threads(u, u)
				t1, _ := nodeWeight(mcredis.Get(), "n1")
				rt.Check(t1 == 3, "weight", "n1 weighs %d, want 3", t1)
			}),
			S("stop-twice", "an actor is unregistered twice at once, another registers", d, func() {
				n, nodes := two()
				spawn(n[0], "t", "a")
				rt.Threads(func() { n[0].Unregister("a", "t") }, func() { n[0].Unregister("a", "t") }, func() { reg(n[0], "u", "b") })
				consistent("at rest", W, nodes)
			}),
			S("both-nodes", "both nodes register and remove at once", pick(tier, 2, 2), func() {
				n, nodes := two()
				spawn(n[0], "t", "a")
				rt.Threads(func() { n[0].Unregister("a", "t"); reg(n[0], "u", "c") }, func() { reg(n[1], "t", "b"); n[1].Unregister("b", "t") })
				consistent("at rest", W, nodes)
			}),
		}
	})
}
