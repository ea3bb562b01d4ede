package main

import (
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/addressbook"
	"github.com/pojol/braid/def"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/zzmc/mcgrpc"
	"github.com/pojol/braid/zzmc/mcredis"
	"github.com/pojol/braid/zzmc/rt"
)

func init() {
	// S11: dead nodes and stale records.
	register("S11", func(tier string) []rt.Scenario {
		d := pick(tier, 1, 2)
		specs := []spec{tell("t", 3), tell("u", 5)}
		pair := func() []core.ISystem {
			n := cluster(2, specs...)
			settle()
			return n
		}
		back := func() core.ISystem {
			s := newNode("n2", 9002, newFactory(specs...)).System()
			settle()
			return s
		}
		stale := func(id, ty, node string, port int) {
			c := mcredis.Client()
			js, _ := json.Marshal(core.AddressInfo{Node: node, ActorId: id, ActorTy: ty, Ip: "127.0.0.1", Port: port})
			c.HSet(context.Background(), def.RedisAddressbookIDField, id, js)
			c.SAdd(context.Background(), def.RedisAddressbookTyField+ty, js)
			w := map[string]int64{"t": 3, "u": 5}[ty]
			c.HIncrBy(context.Background(), "{node:"+node+"}", "actor:"+ty, w)
			c.HIncrBy(context.Background(), "{node:"+node+"}", "total_weight", w)
		}
		W := map[string]int{"t": 3, "u": 5}
		return []rt.Scenario{
			S("dead", "calls and sends to a node that died are errors at once, the caller goes on", 0, func() {
				n := pair()
				spawn(n[0], "t", "a")
				spawn(n[1], "u", "b")
				if rt.Choose(2, "warm") == 1 {
					n[0].Call("b", "u", "ev", bodyMsg("w"))
				}
				mcgrpc.Crash(9002)
				for i := 0; i < 2; i++ {
					tgt := []string{"b", "?", "~"}[rt.Choose(3, "target")]
					t0 := rt.Elapsed()
					var err error
					if rt.Choose(2, "how") == 0 {
						err = n[0].Call(tgt, "u", "ev", bodyMsg("x"))
					} else {
						err = n[0].Send(tgt, "u", "ev", bodyMsg("x"))
					}
					rt.Check(err != nil, "false-success", "%s of a dead node succeeds", tgt)
					rt.Check(rt.Elapsed()-t0 <= 10*time.Second, "hang", "took %v", rt.Elapsed()-t0)
				}
				rt.Check(n[0].Call("a", "t", "ev", newMsg()) == nil, "node-damaged", "the caller's own actor does not answer")
			}, noMem),
			S("return", "calls reach the node again when it comes back, from a caller that saw it die", d, func() {
				n := pair()
				spawn(n[1], "u", "b")
				n[0].Call("b", "u", "ev", bodyMsg("0"))
				mcgrpc.Crash(9002)
				for i := 0; i < 1+rt.Choose(2, "tries"); i++ {
					rt.Check(n[0].Call("b", "u", "ev", bodyMsg("1")) != nil, "false-success", "success")
				}
				n[1] = back()
				rt.Check(n[0].Call("b", "u", "ev", bodyMsg("2")) != nil, "false-success", "success although b does not run")
				consistent("after the call", nil, map[string]core.ISystem{"n2": n[1]})
				spawn(n[1], "u", "b")
				mw := bodyMsg("3")
				err := n[0].Call("b", "u", "ev", mw)
				rt.Check(err == nil && string(mw.Res.Body) == "b", "unroutable", "%v", err)
				rt.Check(n[0].Send("b", "u", "ev", bodyMsg("4")) == nil, "unroutable", "send refused")
				rt.Quiesce()
				rt.Check(join(rt.Logged("handled")) == "u/b@n2:0 u/b@n2:3 u/b@n2:4", "delivery-count", "handled %v", rt.Logged("handled"))
				consistent("at rest", W, map[string]core.ISystem{"n2": n[1]})
			}),
			S("dies-in-call", "the node dies while it handles a call", d, func() {
				n := pair()
				spawn(n[1], "u", "b")
				spawn(n[0], "t", "a")
				n[0].Call("b", "u", "ev", bodyMsg("0"))
				rt.Threads(func() {
					mw := bodyMsg("1")
					err := n[0].Call("b", "u", "ev", mw)
					ran := has(rt.Logged("handled"), "u/b@n2:1")
					rt.Check(err != nil || (ran && string(mw.Res.Body) == "b"), "false-success", "success, handled: %v, answer %q", ran, mw.Res.Body)
				}, func() { mcgrpc.Crash(9002) })
				rt.Check(n[0].Call("a", "t", "ev", newMsg()) == nil, "node-damaged", "the caller does not answer")
				c := 0
				for _, h := range rt.Logged("handled") {
					if h == "u/b@n2:1" {
						c++
					}
				}
				rt.Check(c <= 1, "delivery-count", "handled %d times", c)
			}),
			S("dies-in-slow", "the node dies during a slow handler: the caller does not wait for its timeout", 0, func() {
				n := pair()
				spawn(n[1], "u", "b")
				t0 := rt.Elapsed()
				rt.Threads(func() {
					rt.Check(n[0].Call("b", "u", "stuck", bodyMsg("1")) != nil, "false-success", "success")
				}, func() { sleepMs(1000); mcgrpc.Crash(9002) })
				rt.Check(rt.Elapsed()-t0 <= 2*time.Second, "hang", "took %v", rt.Elapsed()-t0)
			}),
			S("moved", "an actor that is registered elsewhere after its node died is reached there", 0, func() {
				n := pair()
				spawn(n[1], "u", "b")
				n[0].Call("b", "u", "ev", bodyMsg("0"))
				mcgrpc.Crash(9002)
				n3 := newNode("n3", 9003, newFactory(specs...)).System()
				settle()
				spawn(n3, "u", "b")
				for _, s := range []core.ISystem{n[0], n3} {
					mw := bodyMsg("1")
					err := s.Call("b", "u", "ev", mw)
					rt.Check(err == nil && string(mw.Res.Body) == "b", "unroutable", "%v", err)
				}
				rt.Check(n[0].Send("b", "u", "ev", bodyMsg("2")) == nil, "unroutable", "send refused")
				rt.Quiesce()
				rt.Check(join(rt.Logged("handled")) == "u/b@n2:0 u/b@n3:1 u/b@n3:1 u/b@n3:2", "delivery-count", "handled %v", rt.Logged("handled"))
			}),
			S("bad-address", "records whose address cannot be dialed: an error, for that actor only", 0, func() {
				n := pair()
				spawn(n[1], "u", "b")
				js, _ := json.Marshal(core.AddressInfo{Node: "n9", ActorId: "g", ActorTy: "u", Ip: []string{"%zz", "", "no such host"}[rt.Choose(3, "ip")], Port: []int{9009, 0, -1}[rt.Choose(3, "port")]})
				c := mcredis.Client()
				c.HSet(context.Background(), def.RedisAddressbookIDField, "g", js)
				c.SAdd(context.Background(), def.RedisAddressbookTyField+"u", js)
				for i := 0; i < 2; i++ {
					t0 := rt.Elapsed()
					var err error
					if rt.Choose(2, "how") == 0 {
						err = n[0].Call("g", "u", "ev", bodyMsg("x"))
					} else {
						err = n[0].Send("g", "u", "ev", bodyMsg("x"))
					}
					rt.Check(err != nil, "false-success", "an actor at no address answers")
					rt.Check(rt.Elapsed()-t0 <= 10*time.Second, "hang", "took %v", rt.Elapsed()-t0)
				}
				mw := bodyMsg("1")
				err := n[0].Call("b", "u", "ev", mw)
				rt.Check(err == nil && string(mw.Res.Body) == "b", "unroutable", "%v", err)
			}, noMem),
			S("stale", "records of actors that do not run: an error, and the record is gone", 0, func() {
				n := pair()
				ty := []string{"t", "u"}[rt.Choose(2, "type")]
				other := map[string]string{"t": "u", "u": "t"}[ty]
				spawn(n[1], other, "keep")
				stale("g", ty, "n2", 9002)
				if rt.Choose(2, "two") == 1 {
					stale("h", ty, "n2", 9002)
				}
				who := n[rt.Choose(2, "who")]
				tgt := []string{"g", "?", "~"}[rt.Choose(3, "target")]
				send := rt.Choose(2, "how") == 1
				as := ty // by id, the caller need not know the type
				if tgt == "g" {
					as = []string{ty, other, "", "none"}[rt.Choose(4, "named type")]
				}
				for i := 0; i < 2; i++ {
					var err error
					if send {
						err = who.Send(tgt, as, "ev", newMsg())
					} else {
						err = who.Call(tgt, as, "ev", newMsg())
					}
					rt.Check(err != nil, "false-success", "success")
				}
				if tgt == "g" {
					who.Call("h", as, "ev", newMsg())
				}
				consistent("after the calls", W, map[string]core.ISystem{"n2": n[1]})
				answersTell(n[0], other, "keep")
			}, noMem),
			S("stale-vs-register", "a call finds a stale record while the id is registered again", pick(tier, 2, 3), func() {
				n := pair()
				stale("g", "t", "n2", 9002)
				rt.Threads(func() { n[0].Call("g", "t", "ev", newMsg()) }, func() { reg(n[1], "t", "g") })
				consistent("at rest", W, map[string]core.ISystem{"n1": n[0], "n2": n[1]})
				if len(n[1].Actors()) == 1 {
					answersTell(n[0], "t", "g")
				}
			}),
		}
	})

	// S12: what the address book answers.
	register("S12", func(tier string) []rt.Scenario {
		type placed struct {
			id, ty string
			at     int
		}
		setup := func(k int, ws []int) ([]core.ISystem, []placed, []int) {
			n := cluster(k, echo("t", ws[0]), echo("u", ws[1]))
			settle()
			var ps []placed
			sum := make([]int, k)
			for i, y := range []string{"t", "u", "t"} {
				c := rt.Choose(k+1, "place")
				if c == k {
					continue
				}
				id := fmt.Sprint("a", i)
				spawn(n[c], y, id)
				ps = append(ps, placed{id, y, c})
				sum[c] += ws[i%2]
			}
			if len(ps) > 0 && rt.Choose(2, "leave") == 1 {
				p := ps[0]
				n[p.at].Unregister(p.id, p.ty)
				sum[p.at] -= map[string]int{"t": ws[0], "u": ws[1]}[p.ty]
				ps = ps[1:]
			}
			return n, ps, sum
		}
		ctx := context.Background()
		weights := [][]int{{3, 5}, {1200, 2500}, {0, 1}, {9, 10}, {100, 99}, {40000, 32000}, {5 << 31, 3 << 31}}
		return []rt.Scenario{
			S("by-type", "lookups by type and counts, for every placement of up to three actors on two nodes", 0, func() {
				n, ps, _ := setup(2, []int{3, 5})
				for _, s := range n {
					for _, ty := range []string{"t", "u", "none"} {
						var want []string
						for _, p := range ps {
							if p.ty == ty {
								want = append(want, fmt.Sprintf("%s@n%d:%d", p.id, p.at+1, 9001+p.at))
							}
						}
						l, err := s.AddressBook().GetByType(ctx, ty)
						var got []string
						for _, a := range l {
							rt.Check(a.ActorTy == ty && a.Ip == "127.0.0.1", "lookup", "GetByType(%s): %+v", ty, a)
							got = append(got, fmt.Sprintf("%s@%s:%d", a.ActorId, a.Node, a.Port))
						}
						sort.Strings(got)
						sort.Strings(want)
						rt.Check(err == nil && join(got) == join(want), "lookup", "GetByType(%s): %v, registered are %v, error %v", ty, got, want, err)
						c, err := s.AddressBook().GetActorTypeCount(ctx, ty)
						rt.Check(err == nil && int(c) == len(want), "count", "GetActorTypeCount(%s): %d, registered are %v, error %v", ty, c, want, err)
					}
				}
			}, noMem),
			S("crowd", "lookups by type and counts of twenty-five actors, beside types that its name is part of", 0, func() {
				n := cluster(2, echo("t", 1), echo("tt", 1), echo("t1", 1))
				settle()
				left := rt.Choose(3, "left")
				for i := 0; i < 25; i++ {
					spawn(n[i%2], "t", fmt.Sprint("a", i))
				}
				for i := 0; i < 12; i++ {
					spawn(n[0], "tt", fmt.Sprint("b", i))
				}
				for i := 0; i < left; i++ {
					n[i%2].Unregister(fmt.Sprint("a", i), "t")
				}
				for _, s := range n {
					for ty, want := range map[string]int{"t": 25 - left, "tt": 12, "t1": 0} {
						l, err := s.AddressBook().GetByType(ctx, ty)
						seen := map[string]bool{}
						for _, a := range l {
							rt.Check(a.ActorTy == ty && !seen[a.ActorId], "lookup", "GetByType(%s) lists %+v", ty, a)
							seen[a.ActorId] = true
						}
						rt.Check(err == nil && len(seen) == want, "lookup", "GetByType(%s) lists %d of %d, error %v", ty, len(seen), want, err)
						c, err := s.AddressBook().GetActorTypeCount(ctx, ty)
						rt.Check(err == nil && int(c) == want, "count", "GetActorTypeCount(%s): %d of %d, error %v", ty, c, want, err)
					}
				}
			}, noMem, ops(200000)),
			S("names", "lookups where types and ids are parts of one another", 0, func() {
				var specs []spec
				for _, ty := range oddTypes {
					specs = append(specs, echo(ty, 1))
				}
				n := cluster(2, specs...)
				settle()
				miss := rt.Choose(len(oddIDs)+1, "missing")
				want := map[string][]string{}
				for i, id := range oddIDs {
					if i != miss {
						ty := oddTypes[i%len(oddTypes)]
						spawn(n[i%2], ty, id)
						want[ty] = append(want[ty], id)
					}
				}
				for _, s := range n {
					for i, id := range oddIDs {
						a, err := s.AddressBook().GetByID(ctx, id)
						rt.Check((err == nil) == (i != miss), "lookup", "GetByID(%q), there: %v: %+v %v", id, i != miss, a, err)
						rt.Check(err != nil || a.ActorId == id && a.Node == fmt.Sprint("n", i%2+1), "lookup", "GetByID(%q): %+v", id, a)
					}
					for _, ty := range oddTypes {
						l, err := s.AddressBook().GetByType(ctx, ty)
						var got []string
						for _, a := range l {
							got = append(got, a.ActorId)
						}
						sort.Strings(got)
						sort.Strings(want[ty])
						rt.Check(err == nil && fmt.Sprintf("%q", got) == fmt.Sprintf("%q", want[ty]), "lookup", "GetByType(%q): %q, want %q, %v", ty, got, want[ty], err)
						c, err := s.AddressBook().GetActorTypeCount(ctx, ty)
						rt.Check(err == nil && int(c) == len(want[ty]), "count", "GetActorTypeCount(%q): %d %v", ty, c, err)
						a, err := s.AddressBook().(*addressbook.AddressBook).GetWildcardActor(ctx, ty)
						rt.Check((err == nil) == (len(want[ty]) > 0), "wildcard", "GetWildcardActor(%q): %+v %v", ty, a, err)
						rt.Check(err != nil || a.ActorTy == ty && has(want[ty], a.ActorId), "wildcard", "GetWildcardActor(%q): %+v", ty, a)
					}
				}
			}, noMem, ops(200000)),
			S("by-id", "lookups by id", 0, func() {
				n, ps, _ := setup(2, []int{3, 5})
				for _, s := range n {
					for _, id := range []string{"a0", "a1", "a2", "none", ""} {
						var p *placed
						for i := range ps {
							if ps[i].id == id {
								p = &ps[i]
							}
						}
						a, err := s.AddressBook().GetByID(ctx, id)
						if p == nil {
							rt.Check(err != nil, "lookup", "GetByID(%q): %+v", id, a)
							continue
						}
						rt.Check(err == nil && a.ActorId == id && a.Node == fmt.Sprint("n", p.at+1) && a.Port == 9001+p.at && a.Ip == "127.0.0.1", "lookup", "GetByID(%s): %+v %v, it runs on n%d", id, a, err, p.at+1)
					}
				}
			}, noMem),
			S("changes", "every series of two ids coming and going on three nodes, asked for everything in between", 0, func() {
				n := cluster(3, echo("t", 3), echo("u", 5))
				settle()
				at := map[string]int{}
				tys := map[string]string{"x": "t", "y": "t"}
				look := func() {
					sum := make([]int, len(n))
					for _, id := range sortedKeys(at) {
						sum[at[id]] += map[string]int{"t": 3, "u": 5}[tys[id]]
					}
					for _, s := range n {
						b := s.AddressBook()
						ids := map[string][]string{}
						for _, id := range []string{"x", "y"} {
							a, err := b.GetByID(ctx, id)
							p, ok := at[id]
							if !ok {
								rt.Check(err != nil, "lookup", "GetByID(%s): %+v, it does not run", id, a)
								continue
							}
							ids[tys[id]] = append(ids[tys[id]], fmt.Sprint(id, "@n", p+1))
							rt.Check(err == nil && a.ActorId == id && a.Node == fmt.Sprint("n", p+1) && a.Port == 9001+p, "lookup", "GetByID(%s): %+v %v, it runs on n%d", id, a, err, p+1)
						}
						for _, ty := range []string{"t", "u"} {
							l, err := b.GetByType(ctx, ty)
							var got []string
							for _, a := range l {
								got = append(got, fmt.Sprint(a.ActorId, "@", a.Node))
							}
							sort.Strings(got)
							rt.Check(err == nil && join(got) == join(ids[ty]), "lookup", "GetByType(%s): %v %v, there are %v", ty, got, err, ids[ty])
							c, err := b.GetActorTypeCount(ctx, ty)
							rt.Check(err == nil && int(c) == len(ids[ty]), "lookup", "GetActorTypeCount(%s): %d %v, there are %v", ty, c, err, ids[ty])
							a, err := b.(*addressbook.AddressBook).GetWildcardActor(ctx, ty)
							rt.Check((err == nil) == (len(ids[ty]) > 0) && (err != nil || has(ids[ty], fmt.Sprint(a.ActorId, "@", a.Node))), "wildcard", "GetWildcardActor(%s): %+v %v, there are %v", ty, a, err, ids[ty])
							if err == nil {
								for _, id := range sortedKeys(at) {
									p, _ := strconv.Atoi(a.Node[1:])
									rt.Check(tys[id] != ty || sum[p-1] <= sum[at[id]], "wildcard", "GetWildcardActor(%s): %+v, the nodes carry %v", ty, a, sum)
								}
							}
						}
						known := mcredis.Get().Hash(def.RedisAddressbookNodesField)
						best := -1
						for i := range sum {
							if _, ok := known[fmt.Sprint("n", i+1)]; ok && (best < 0 || sum[i] < best) {
								best = sum[i]
							}
						}
						a, err := b.GetLowWeightNodeForActor(ctx, "t")
						rt.Check((err == nil) == (best >= 0), "low-weight", "%+v %v, the nodes carry %v", a, err, sum)
						if err == nil {
							p, _ := strconv.Atoi(a.Node[1:])
							rt.Check(sum[p-1] == best, "low-weight", "%+v, the nodes carry %v", a, sum)
						}
					}
				}
				for i := 0; i < pick(tier, 4, 5); i++ {
					id := []string{"x", "y"}[rt.Choose(2, "id")]
					if p, ok := at[id]; ok {
						n[p].Unregister(id, tys[id])
						delete(at, id)
					} else {
						at[id] = rt.Choose(3, "node")
						if id == "y" {
							tys[id] = []string{"t", "u"}[rt.Choose(2, "type")]
						}
						spawn(n[at[id]], tys[id], id)
					}
					look()
				}
			}, noMem, ops(100000)),
			S("ended", "every lookup in a context that has ended", 0, func() {
				n, ps, _ := setup(2, []int{3, 5})
				end, cancel := context.WithCancel(ctx)
				cancel()
				for _, s := range n {
					b := s.AddressBook()
					for _, id := range []string{"a0", "a1", "a2", "none"} {
						a, err := b.GetByID(end, id)
						if err != nil {
							continue
						}
						ok := false
						for _, p := range ps {
							ok = ok || p.id == id && a.ActorId == id && a.Node == fmt.Sprint("n", p.at+1) && a.Port == 9001+p.at
						}
						rt.Check(ok, "lookup", "GetByID(%s) in an ended context: %+v", id, a)
					}
					for _, ty := range []string{"t", "u"} {
						l, err := b.GetByType(end, ty)
						rt.Check(err != nil, "lookup", "GetByType(%s) in an ended context: %v, no error", ty, l)
						c, err := b.GetActorTypeCount(end, ty)
						rt.Check(err != nil, "count", "GetActorTypeCount(%s) in an ended context: %v, no error", ty, c)
						a, err := b.(*addressbook.AddressBook).GetWildcardActor(end, ty)
						rt.Check(err != nil, "wildcard", "GetWildcardActor(%s) in an ended context: %+v, no error", ty, a)
						a, err = b.GetLowWeightNodeForActor(end, ty)
						rt.Check(err != nil, "low-weight", "GetLowWeightNodeForActor(%s) in an ended context: %+v, no error", ty, a)
					}
				}
				for _, p := range ps {
					a, err := n[0].AddressBook().GetByID(ctx, p.id)
					rt.Check(err == nil && a.Node == fmt.Sprint("n", p.at+1), "lookup", "GetByID(%s) later: %+v %v", p.id, a, err)
				}
			}, noMem),
			S("low-weight", "the lightest node, for every placement and every iteration order", pick(tier, 1, 2), func() {
				ws := weights[rt.Choose(len(weights), "weights")]
				k := 2 + rt.Choose(2, "nodes")
				n, _, sum := setup(k, ws)
				known := mcredis.Get().Hash(def.RedisAddressbookNodesField)
				best := -1
				for i := range sum {
					if _, ok := known[fmt.Sprint("n", i+1)]; ok && (best < 0 || sum[i] < best) {
						best = sum[i]
					}
				}
				a, err := n[0].AddressBook().GetLowWeightNodeForActor(ctx, "t")
				if best < 0 {
					rt.Check(err != nil, "low-weight", "no node has registered anything: %+v", a)
					return
				}
				rt.Check(err == nil, "low-weight", "%v", err)
				var at int
				fmt.Sscanf(a.Node, "n%d", &at)
				rt.Check(at >= 1 && at <= k && a.Ip == "127.0.0.1" && a.Port == 9000+at, "low-weight", "%+v", a)
				rt.Check(sum[at-1] == best, "low-weight", "weights %v: picked n%d", sum, at)
			}, noMem),
			S("wildcard", "the wildcard pick is an actor of the type on a lightest node that has one", pick(tier, 1, 2), func() {
				ws := weights[rt.Choose(len(weights), "weights")]
				n, ps, sum := setup(2, ws)
				for _, ty := range []string{"t", "u"} {
					best := -1
					for _, p := range ps {
						if p.ty == ty && (best < 0 || sum[p.at] < best) {
							best = sum[p.at]
						}
					}
					a, err := n[1].AddressBook().(*addressbook.AddressBook).GetWildcardActor(ctx, ty)
					rt.Check((err == nil) == (best >= 0), "wildcard", "GetWildcardActor(%s): %+v %v, lightest %d", ty, a, err, best)
					if err != nil {
						continue
					}
					ok := false
					for _, p := range ps {
						if p.id == a.ActorId {
							ok = p.ty == ty && a.Node == fmt.Sprint("n", p.at+1) && a.Port == 9001+p.at && sum[p.at] == best
						}
					}
					rt.Check(ok, "wildcard", "GetWildcardActor(%s): %+v, weights %v", ty, a, sum)
				}
			}, noMem),
			S("stale", "a record whose node has no weight is not picked, alone or beside others", 0, func() {
				n, ps, sum := setup(2, []int{3, 5})
				dead := rt.Choose(2, "dead")
				other := false
				for _, p := range ps {
					other = other || p.ty == "t" && p.at != dead
				}
				mcredis.Client().Del(ctx, fmt.Sprintf("{node:n%d}", dead+1))
				a, err := n[1-dead].AddressBook().(*addressbook.AddressBook).GetWildcardActor(ctx, "t")
				rt.Check((err == nil) == other, "wildcard", "an actor on the other node: %v: %+v %v", other, a, err)
				rt.Check(err != nil || a.Node == fmt.Sprintf("n%d", 2-dead), "wildcard", "%+v is on the node without a weight", a)
				_ = sum
			}, noMem),
			S("low-stale", "the lightest node where one that is listed has no weight", pick(tier, 1, 2), func() {
				k := 2 + rt.Choose(2, "nodes")
				n := cluster(k, echo("t", 3))
				for i, s := range n {
					spawn(s, "t", fmt.Sprint("a", i))
				}
				dead := rt.Choose(k, "dead")
				mcredis.Client().Del(ctx, fmt.Sprintf("{node:n%d}", dead+1))
				a, err := n[0].AddressBook().GetLowWeightNodeForActor(ctx, "t")
				rt.Check(err == nil && a.Node != fmt.Sprintf("n%d", dead+1) && a.Node != "", "low-weight", "n%d has no weight: %+v %v", dead+1, a, err)
			}, noMem),
			S("low-leaves", "the lightest node is looked up, and an actor by wildcard, while a node leaves", pick(tier, 2, 3), func() {
				n := cluster(2, echo("t", 3))
				for i, s := range n {
					spawn(s, "t", fmt.Sprint("a", i))
				}
				low := rt.Choose(2, "look up a node or an actor") == 0
				rt.Threads(func() { n[1].AddressBook().Clear(ctx) }, func() {
					if low {
						a, err := n[0].AddressBook().GetLowWeightNodeForActor(ctx, "t")
						rt.Check(err == nil && (a.Node == "n1" || a.Node == "n2"), "low-weight", "while n2 leaves: %+v %v", a, err)
						return
					}
					a, err := n[0].AddressBook().(*addressbook.AddressBook).GetWildcardActor(ctx, "t")
					rt.Check(err == nil && (a.ActorId == "a0" || a.ActorId == "a1"), "wildcard", "while n2 leaves: %+v %v", a, err)
				})
			}, noMem),
			S("faults", "a failing store is an error, never a wrong answer", 0, func() {
				n, ps, sum := setup(2, []int{3, 5})
				mcredis.EnableFaults(nil)
				c, err := n[0].AddressBook().GetActorTypeCount(ctx, "t")
				want := 0
				for _, p := range ps {
					if p.ty == "t" {
						want++
					}
				}
				rt.Check(err != nil || int(c) == want, "count", "%d, want %d", c, want)
				l, err := n[0].AddressBook().GetByType(ctx, "t")
				rt.Check(err != nil || len(l) == want, "lookup", "%v, want %d", l, want)
				for _, p := range ps {
					a, err := n[0].AddressBook().GetByID(ctx, p.id)
					rt.Check(err != nil || a.Node == fmt.Sprint("n", p.at+1), "lookup", "%+v", a)
				}
				a, err := n[0].AddressBook().GetLowWeightNodeForActor(ctx, "t")
				if err == nil {
					var at int
					fmt.Sscanf(a.Node, "n%d", &at)
					rt.Check(at >= 1 && at <= 2, "low-weight", "%+v", a)
				}
				_ = sum
			}, noMem, faults(1)),
		}
	})
}

// answersTell checks that a registered tell actor can be called.
func answersTell(sys core.ISystem, ty, id string) {
	mw := msg.NewBuilder(context.Background()).WithReqBody([]byte("q")).Build()
	if err := sys.Call(id, ty, "ev", mw); err != nil {
		rt.Fail("unreachable", "a call to the registered actor %s fails: %v", id, err)
	}
	rt.Check(string(mw.Res.Body) == id, "response", "actor %s answers %q", id, mw.Res.Body)
}
