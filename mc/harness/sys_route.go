package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/addressbook"
	"github.com/pojol/braid/core/node"
	"github.com/pojol/braid/def"
	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/zzmc/mcgrpc"
	"github.com/pojol/braid/zzmc/mcredis"
	"github.com/pojol/braid/zzmc/netconf"
	"github.com/pojol/braid/zzmc/rt"
	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
)

// settle gives connections and servers time to come up.
func settle() { rt.Quiesce() }

// tell is an actor type that records who handled what.
func tell(ty string, weight int) spec {
	return spec{ty: ty, weight: weight, init: func(a *tActor) {
		node := a.Sys.AddressBook().(*addressbook.AddressBook).NodeID
		a.on("ev", func(mw *msg.Wrapper) error {
			rt.Log("handled", "%s/%s@%s:%s", a.Type(), a.ID(), node, mw.Req.Body)
			mw.Res.Body = []byte(a.ID())
			return nil
		})
		a.on("slow", func(mw *msg.Wrapper) error {
			sleepMs(3000)
			rt.Log("handled", "%s/%s@%s:%s", a.Type(), a.ID(), node, mw.Req.Body)
			mw.Res.Body = []byte(a.ID())
			return nil
		})
		a.on("stuck", func(mw *msg.Wrapper) error { sleepMs(60000); return nil })
		a.on("panic", func(mw *msg.Wrapper) error { panic("handler") })
	}}
}

func (a *tActor) node() string { return a.Sys.AddressBook().(*addressbook.AddressBook).NodeID }

func init() {
	// S05: routing.
	register("S05", func(tier string) []rt.Scenario {
		// every placement of up to three actors of two types over two nodes, every target, Call or Send
		layouts := func() {
			n := cluster(2, tell("t", 3), tell("u", 5), tell("v", 4))
			settle()
			ty := []string{"t", "t", "u"}
			at := map[string]int{}
			byType := map[string][]string{}
			weight := []int{0, 0}
			W := map[string]int{"t": 3, "u": 5, "v": 4}
			for i, y := range ty {
				c := rt.Choose(3, "place")
				if c == 2 {
					continue
				}
				id := fmt.Sprint("a", i)
				spawn(n[c], y, id)
				at[id] = c
				weight[c] += W[y]
				byType[y] = append(byType[y], id)
			}
			if rt.Choose(2, "ballast") == 1 {
				spawn(n[0], "v", "x")
				weight[0] += 4
			}
			from := rt.Choose(2, "from")
			tgt := []string{"?", "~", "a0", "a2", "zz", ""}[rt.Choose(6, "target")]
			want := []string{"t", "u"}[rt.Choose(2, "type")]
			if tgt == "a0" {
				want = "t"
			}
			if tgt == "a2" {
				want = "u"
			}
			send := rt.Choose(2, "send") == 1
			var cand []string // who may handle it
			switch tgt {
			case "?":
				best := 1 << 30
				for _, id := range byType[want] {
					if w := weight[at[id]]; w < best {
						best = w
					}
				}
				for _, id := range byType[want] {
					if weight[at[id]] == best {
						cand = append(cand, id)
					}
				}
			case "~":
				for _, id := range byType[want] {
					if at[id] == from {
						cand = append(cand, id)
					}
				}
				if cand == nil {
					cand = byType[want]
				}
			case "", "zz":
			default:
				if _, ok := at[tgt]; ok {
					cand = []string{tgt}
				}
			}
			mw := bodyMsg("q")
			var err error
			if send {
				err = n[from].Send(tgt, want, "ev", mw)
			} else {
				err = n[from].Call(tgt, want, "ev", mw)
			}
			rt.Quiesce()
			h := rt.Logged("handled")
			what := fmt.Sprintf("placed %v weights %v, from n%d to %q type %s send %v", at, weight, from+1, tgt, want, send)
			if len(cand) == 0 {
				rt.Check(err != nil, "routed-nowhere", "%s: reports success, handled %v", what, h)
				rt.Check(len(h) == 0, "misrouted", "%s: handled by %v", what, h)
				return
			}
			rt.Check(err == nil, "unroutable", "%s: %v", what, err)
			rt.Check(len(h) == 1, "delivery-count", "%s: handled %d times: %v", what, len(h), h)
			ok := false
			for _, id := range cand {
				if h[0] == fmt.Sprintf("%s/%s@n%d:q", want, id, at[id]+1) {
					ok = send || string(mw.Res.Body) == id
				}
			}
			rt.Check(ok, "misrouted", "%s: handled by %v, response %q, candidates %v", what, h, mw.Res.Body, cand)
			rt.Outcome(h[0])
		}
		return []rt.Scenario{
			S("layouts", "every placement of three actors on two nodes, every kind of target, from either node, Call and Send", 0, layouts, noMem),
			S("lowest-of-three", "a wildcard call takes the lightest of three nodes, whatever order the store answers in", 0, func() {
				n := cluster(3, tell("t", 1), tell("v", 1))
				settle()
				lo := rt.Choose(3, "lightest")
				for i := range n {
					spawn(n[i], "t", fmt.Sprint("a", i))
					for j := 0; i != lo && j <= i; j++ {
						spawn(n[i], "v", fmt.Sprint("v", i, j))
					}
				}
				mw := bodyMsg("q")
				err := n[rt.Choose(3, "from")].Call("?", "t", "ev", mw)
				rt.Check(err == nil && string(mw.Res.Body) == fmt.Sprint("a", lo), "not-lowest", "node %d is the lightest, %q answered, error %v", lo+1, mw.Res.Body, err)
				rt.Check(len(rt.Logged("handled")) == 1, "delivery-count", "%v", rt.Logged("handled"))
			}, noMem),
			S("first-else-lightest", "a local-first call takes a local actor of the type, and the lightest one of the others when there is none", 0, func() {
				n := cluster(3, tell("t", 1), tell("v", 1), tell("tv", 1))
				settle()
				from := rt.Choose(3, "from")
				lo := rt.Choose(3, "lightest")
				local := rt.Choose(2, "local") == 1
				if from == lo && !local {
					return
				}
				for i := range n {
					if i != from || local {
						spawn(n[i], "t", fmt.Sprint("a", i))
					}
					spawn(n[i], "tv", fmt.Sprint("w", i))
					for j := 0; i != lo && j <= i; j++ {
						spawn(n[i], "v", fmt.Sprint("v", i, j))
					}
				}
				want := fmt.Sprint("a", lo)
				if local {
					want = fmt.Sprint("a", from)
				}
				mw := bodyMsg("q")
				var err error
				if rt.Choose(2, "how") == 0 {
					err = n[from].Call("~", "t", "ev", mw)
					rt.Check(string(mw.Res.Body) == want, "not-lowest", "%q answered, want %s", mw.Res.Body, want)
				} else {
					err = n[from].Send("~", "t", "ev", mw)
				}
				rt.Quiesce()
				h := rt.Logged("handled")
				rt.Check(err == nil && len(h) == 1 && strings.HasPrefix(h[0], "t/"+want+"@"), "not-lowest", "from n%d, lightest n%d, local %v: handled %v, error %v", from+1, lo+1, local, h, err)
			}, noMem),
			S("names", "ids and types of which one is part of another: each is reached under its own name", 0, func() {
				var specs []spec
				for _, ty := range oddTypes {
					specs = append(specs, tell(ty, 1))
				}
				n := cluster(2, specs...)
				settle()
				miss := rt.Choose(len(oddIDs)+1, "missing")
				for i, id := range oddIDs {
					if i != miss {
						spawn(n[i%2], oddTypes[i%len(oddTypes)], id)
					}
				}
				want := 0
				for i, id := range oddIDs {
					ty := oddTypes[i%len(oddTypes)]
					for from := range n {
						mw := bodyMsg("q")
						err := n[from].Call(id, ty, "ev", mw)
						if i == miss {
							rt.Check(err != nil, "routed-nowhere", "%q is not there: %v, %q answers", id, err, mw.Res.Body)
							rt.Check(n[from].Send(id, ty, "ev", bodyMsg("q")) != nil, "routed-nowhere", "%q is not there", id)
							continue
						}
						want++
						rt.Check(err == nil && string(mw.Res.Body) == id, "misrouted", "a call to %q: %v, %q answers", id, err, mw.Res.Body)
					}
				}
				rt.Quiesce()
				rt.Check(len(rt.Logged("handled")) == want, "delivery-count", "%d handled of %d", len(rt.Logged("handled")), want)
				for i, ty := range oddTypes {
					there := 0
					for j := i; j < len(oddIDs); j += len(oddTypes) {
						if j != miss {
							there++
						}
					}
					for _, tgt := range []string{"?", "~"} {
						before := len(rt.Logged("handled"))
						err := n[0].Call(tgt, ty, "ev", bodyMsg("w"))
						h := rt.Logged("handled")[before:]
						rt.Check((err == nil) == (there > 0), "unroutable", "%s of type %q, of which there are %d: %v", tgt, ty, there, err)
						rt.Check(err != nil || len(h) == 1 && strings.HasPrefix(h[0], ty+"/"), "misrouted", "%s of type %q: %v", tgt, ty, h)
					}
				}
			}, noMem, ops(200000)),
			S("crowd", "fourteen actors of one type: every one is reached by id, a wildcard reaches one of the type", 0, func() {
				n := cluster(2, tell("t", 1), tell("tt", 1))
				settle()
				for i := 0; i < 14; i++ {
					spawn(n[i%2], "t", fmt.Sprint("a", i))
					spawn(n[1], "tt", fmt.Sprint("b", i))
				}
				for i := 0; i < 14; i++ {
					for from := range n {
						mw := bodyMsg("q")
						err := n[from].Call(fmt.Sprint("a", i), "t", "ev", mw)
						rt.Check(err == nil && string(mw.Res.Body) == fmt.Sprint("a", i), "misrouted", "a%d: %v %q", i, err, mw.Res.Body)
					}
				}
				mw := bodyMsg("w")
				err := n[0].Call("~", "t", "ev", mw)
				h := rt.Logged("handled")
				rt.Check(err == nil && len(h) == 29 && strings.HasPrefix(h[28], "t/") && strings.Contains(h[28], "@n1:"), "misrouted", "%v %v", err, h)
			}, noMem, ops(200000)),
			S("machines", "nodes on different machines use the same port: every target from every node", 0, func() {
				redisUp()
				f := newFactory(tell("t", 3), tell("u", 5))
				ips := []string{"10.0.0.1", "10.0.0.2", "10.0.0.3"}
				var n []core.ISystem
				for i, ip := range ips {
					n = append(n, newNodeAt(fmt.Sprint("n", i+1), ip, 9000, f).System())
				}
				settle()
				at := []int{rt.Choose(3, "place"), rt.Choose(3, "place")}
				spawn(n[at[0]], "t", "a")
				spawn(n[at[1]], "u", "b")
				if rt.Choose(2, "moved") == 1 {
					rt.Check(n[0].Call("a", "t", "ev", bodyMsg("first")) == nil, "unroutable", "the first call fails")
					n[at[0]].Unregister("a", "t")
					at[0] = (at[0] + 1) % 3
					spawn(n[at[0]], "t", "a")
				}
				for i := range n {
					for j, y := range []string{"t", "u"} {
						id := []string{"a", "b"}[j]
						for _, tgt := range []string{id, "?"} {
							mw := bodyMsg(fmt.Sprint(i, tgt))
							err := n[i].Call(tgt, y, "ev", mw)
							rt.Check(err == nil && string(mw.Res.Body) == id, "unroutable", "from n%d to %s %s on n%d: %q %v", i+1, y, tgt, at[j]+1, mw.Res.Body, err)
							rt.Check(has(rt.Logged("handled"), fmt.Sprintf("%s/%s@n%d:%d%s", y, id, at[j]+1, i, tgt)), "misrouted", "%v", rt.Logged("handled"))
						}
						err := n[i].Send(id, y, "ev", bodyMsg(fmt.Sprint("s", i)))
						rt.Quiesce()
						rt.Check(err == nil && has(rt.Logged("handled"), fmt.Sprintf("%s/%s@n%d:s%d", y, id, at[j]+1, i)), "misrouted", "send from n%d: %v %v", i+1, err, rt.Logged("handled"))
					}
				}
			}, noMem),
			S("moved", "an actor that moved to another node is reached there", pick(tier, 2, 3), func() {
				n := cluster(2, tell("t", 1))
				settle()
				spawn(n[0], "t", "a")
				mw := bodyMsg("1")
				rt.Check(n[1].Call("a", "t", "ev", mw) == nil, "unroutable", "first call fails")
				n[0].Unregister("a", "t")
				rt.Check(n[1].Call("a", "t", "ev", bodyMsg("2")) != nil, "routed-nowhere", "success without an actor")
				spawn(n[1], "t", "a")
				for i := range n {
					err := n[i].Call("a", "t", "ev", bodyMsg(fmt.Sprint(3+i)))
					rt.Check(err == nil, "unroutable", "from n%d: %v", i+1, err)
				}
				rt.Check(join(rt.Logged("handled")) == "t/a@n1:1 t/a@n2:3 t/a@n2:4", "misrouted", "%v", rt.Logged("handled"))
			}),
			S("wildcard-race", "two wildcard calls from different nodes at once", pick(tier, 1, 2), func() {
				n := cluster(2, tell("t", 1))
				settle()
				spawn(n[0], "t", "a")
				spawn(n[1], "t", "b")
				f := func(s core.ISystem, b string) func() {
					return func() {
						mw := bodyMsg(b)
						err := s.Call("?", "t", "ev", mw)
						rt.Check(err == nil, "unroutable", "%v", err)
					}
				}
				rt.Threads(f(n[0], "1"), f(n[1], "2"))
				h := rt.Logged("handled")
				rt.Check(len(h) == 2 && h[0][len(h[0])-1] != h[1][len(h[1])-1], "delivery-count", "%v", h)
			}),
		}
	})

	// S06: remote calls.
	register("S06", func(tier string) []rt.Scenario {
		d := pick(tier, 2, 3)
		pair := func() []core.ISystem {
			n := cluster(2, tell("t", 1))
			settle()
			spawn(n[1], "t", "a")
			return n
		}
		return []rt.Scenario{
			S("payload", "every combination of request and response fields arrives unchanged", 0, func() {
				bodies := [][]byte{nil, {}, []byte("x"), {0, 255, 10, 13, 0}, bytes.Repeat([]byte{7}, 70000), bytes.Repeat([]byte{8}, 1<<20)}
				cust := [][]byte{nil, []byte("c"), {0, 1, 2}}
				str := []string{"", "x", "é\x00ü"}
				b, rb := bodies[rt.Choose(len(bodies), "body")], bodies[rt.Choose(len(bodies), "response body")]
				c, rc := cust[rt.Choose(3, "custom")], cust[rt.Choose(3, "response custom")]
				tok := str[rt.Choose(3, "token")]
				got := false
				n := cluster(2, spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ev", func(mw *msg.Wrapper) error {
						h := mw.Req.Header
						rt.Check(bytes.Equal(mw.Req.Body, b) && bytes.Equal(h.Custom, c) && h.Token == tok && h.ID == "id-1" && h.Event == "ev" && h.OrgActorID == "org" && h.OrgActorType == "ot" && h.TargetActorID == "a" && h.TargetActorType == "t",
							"request-changed", "the handler sees header %+v body %d bytes", h, len(mw.Req.Body))
						mw.Res.Body = rb
						mw.Res.Header.Custom = rc
						mw.Res.Header.Token = "rt"
						got = true
						return nil
					})
				}})
				settle()
				spawn(n[1], "t", "a")
				mw := msg.NewBuilder(context.Background()).WithReqHeader(&router.Header{ID: "id-1", Token: tok, OrgActorID: "org", OrgActorType: "ot", Custom: c}).WithReqBody(b).Build()
				err := n[0].Call("a", "t", "ev", mw)
				rt.Check(err == nil && got, "call-failed", "%v", err)
				rt.Check(bytes.Equal(mw.Res.Body, rb) && mw.Res.Header != nil && bytes.Equal(mw.Res.Header.Custom, rc) && mw.Res.Header.Token == "rt", "response-changed", "header %+v body %d bytes, want %d", mw.Res.Header, len(mw.Res.Body), len(rb))
			}, noMem),
			S("concurrent", "two callers on one node, each gets its own answer", d, func() {
				n := cluster(2, echo("t", 1))
				settle()
				spawn(n[1], "t", "a")
				f := func(b string) func() {
					return func() {
						mw := bodyMsg(b)
						err := n[0].Call("a", "t", "ev", mw)
						rt.Check(err == nil && string(mw.Res.Body) == "a:"+b, "response-changed", "%s: %q %v", b, mw.Res.Body, err)
					}
				}
				rt.Threads(f("1"), f("2"))
				rt.Check(rt.Counted("ran a") == 2, "delivery-count", "%d", rt.Counted("ran a"))
			}),
			S("chain", "a remote handler forwards back to the first node", d, func() {
				n := cluster(2, spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ev", func(mw *msg.Wrapper) error {
						if a.ID() == "a" {
							if err := a.Call("b", "t", "ev", mw); err != nil {
								rt.Fail("nested-refused", "%v", err)
							}
							mw.Res.Body = append(mw.Res.Body, 'a')
						} else {
							mw.Res.Body = []byte("b")
						}
						rt.Count("ran", 1)
						return nil
					})
				}})
				settle()
				spawn(n[0], "t", "b")
				spawn(n[1], "t", "a")
				mw := newMsg()
				err := n[0].Call("a", "t", "ev", mw)
				rt.Check(err == nil && string(mw.Res.Body) == "ba" && rt.Counted("ran") == 2, "response-changed", "%q %v, %d handlers", mw.Res.Body, err, rt.Counted("ran"))
			}),
			S("gone", "the record names a remote actor that is not there: an error, nobody runs", d, func() {
				n := pair()
				js, _ := json.Marshal(core.AddressInfo{Node: "n2", ActorId: "z", ActorTy: "t", Ip: "127.0.0.1", Port: 9002})
				mcredis.Client().HSet(context.Background(), def.RedisAddressbookIDField, "z", js)
				err := n[0].Call("z", "t", "ev", newMsg())
				rt.Check(err != nil, "error-swallowed", "a call to an actor its node does not run reports success")
				rt.Check(len(rt.Logged("handled")) == 0, "misrouted", "%v", rt.Logged("handled"))
			}),
			S("timeout", "the remote handler does not finish in time: an error", d, func() {
				n := pair()
				err := n[0].Call("a", "t", "stuck", newMsg())
				rt.Check(err != nil, "error-swallowed", "success although the handler has not finished (%v)", rt.Elapsed())
				rt.Check(rt.Elapsed() <= callTimeout, "slow", "%v", rt.Elapsed())
			}),
			S("deadline", "the caller's deadline passes during a remote call", d, func() {
				n := pair()
				ctx, cancel := ctxT(time.Second)
				defer cancel()
				err := n[0].Call("a", "t", "slow", msg.NewBuilder(ctx).Build())
				rt.Check(err != nil && rt.Elapsed() <= time.Second, "error-swallowed", "error %v at %v", err, rt.Elapsed())
			}),
			S("deadline-travels", "the caller's deadline is the handler's, and the caller's cancellation reaches it", pick(tier, 1, 2), func() {
				var dl time.Time
				var ok, ended bool
				n := cluster(2, spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ev", func(mw *msg.Wrapper) error {
						dl, ok = mw.Ctx.Deadline()
						return nil
					})
					a.on("wait", func(mw *msg.Wrapper) error {
						rt.Recv(mw.Ctx.Done(), 0)
						ended = true
						return mw.Ctx.Err()
					})
				}})
				settle()
				spawn(n[1], "t", "a")
				ctx, cancel := ctxT(2 * time.Second)
				want, _ := ctx.Deadline()
				err := n[0].Call("a", "t", "ev", msg.NewBuilder(ctx).Build())
				rt.Check(err == nil && ok && dl.Equal(want), "deadline-lost", "the handler sees deadline %v (%v), the caller set %v; error %v", dl, ok, want, err)
				rt.Threads(func() {
					err := n[0].Call("a", "t", "wait", msg.NewBuilder(ctx).Build())
					rt.Check(err != nil, "error-swallowed", "a cancelled call succeeds")
				}, func() { rt.Quiesce(); sleepMs(100); cancel() })
				rt.Quiesce()
				rt.Check(ended && rt.Elapsed() <= 200*time.Millisecond, "cancel-lost", "the handler has ended: %v, at %v", ended, rt.Elapsed())
				// the actor is free again
				err = n[0].Call("a", "t", "ev", newMsg())
				rt.Check(err == nil && rt.Elapsed() <= 200*time.Millisecond, "stuck", "%v at %v", err, rt.Elapsed())
			}),
			S("back-after-long", "the remote node is away for a minute: soon after it is back calls reach it", 0, func() {
				n := pair()
				rt.Check(n[0].Call("a", "t", "ev", bodyMsg("0")) == nil, "unroutable", "first call")
				mcgrpc.Crash(9002)
				rt.Quiesce()
				for i := 0; i < 12; i++ {
					rt.Check(n[0].Call("a", "t", "ev", bodyMsg("x")) != nil, "error-swallowed", "success without a server")
					sleepMs(5000)
				}
				n2 := newNode("n2", 9002, newFactory(tell("t", 1))).System()
				settle()
				_ = n2
				spawn(n2, "t", "b")
				n[0].Call("b", "t", "ev", bodyMsg("1"))
				sleepMs(1000)
				mw := bodyMsg("2")
				err := n[0].Call("b", "t", "ev", mw)
				rt.Check(err == nil && string(mw.Res.Body) == "b", "unroutable", "a second after the node is back: %v", err)
			}, noMem, horizon(200*time.Second)),
			S("exiting", "the remote actor stops while it is called: success means handled", d, func() {
				n := pair()
				rt.Threads(func() { n[1].Unregister("a", "t") }, func() {
					mw := bodyMsg("q")
					if n[0].Call("a", "t", "ev", mw) == nil {
						rt.Check(string(mw.Res.Body) == "a" && len(rt.Logged("handled")) == 1, "false-success", "success with %q, handled %v", mw.Res.Body, rt.Logged("handled"))
					} else {
						rt.Check(len(rt.Logged("handled")) == 0, "false-error", "an error, and handled")
					}
				})
			}),
			S("down", "the remote node is not there: an error, and the call works once it is", 1, func() {
				n := cluster(1, tell("t", 1))
				js, _ := json.Marshal(core.AddressInfo{Node: "n2", ActorId: "a", ActorTy: "t", Ip: "127.0.0.1", Port: 9002})
				mcredis.Client().HSet(context.Background(), def.RedisAddressbookIDField, "a", js)
				rt.Check(n[0].Call("a", "t", "ev", newMsg()) != nil, "error-swallowed", "success without a server")
				n2 := newNode("n2", 9002, newFactory(tell("t", 1))).System()
				settle()
				spawn(n2, "t", "a")
				mw := newMsg()
				rt.Check(n[0].Call("a", "t", "ev", mw) == nil && string(mw.Res.Body) == "a", "unroutable", "the call fails once the node is up")
			}),
			S("network-model", "the series of calls whose results with grpc-go are known (netconf, replayed there too) gives the same on the model of the network", 0, func() {
				got := netconf.Outcomes(9500)
				for i, w := range netconf.Want {
					rt.Check(i < len(got) && got[i] == w, "network-model", "%q, want %q", append(got, "nothing")[min(i, len(got))], w)
				}
			}, noMem, horizon(200*time.Second)),
			S("network-faults", "the request or the response is lost: an error, at most one execution", 1, func() {
				n := pair()
				mcgrpc.EnableFaults(true)
				var errs [3]error
				for i := range errs {
					mw := bodyMsg(fmt.Sprint(i))
					errs[i] = n[0].Call("a", "t", "ev", mw)
					rt.Check(errs[i] != nil || string(mw.Res.Body) == "a", "false-success", "success without an answer")
				}
				h := rt.Logged("handled")
				for i := range errs {
					c := 0
					for _, x := range h {
						if x == fmt.Sprintf("t/a@n2:%d", i) {
							c++
						}
					}
					rt.Check(c == 1 || (c == 0 && errs[i] != nil), "delivery-count", "call %d: error %v, handled %d times", i, errs[i], c)
				}
			}, faults(pick(tier, 2, 3))),
		}
	})

	// S07: sends.
	register("S07", func(tier string) []rt.Scenario {
		d := pick(tier, 2, 3)
		pair := func() []core.ISystem {
			n := cluster(2, tell("t", 1))
			settle()
			spawn(n[1], "t", "a")
			return n
		}
		target := func() string { return []string{"a", "?", "~"}[rt.Choose(3, "target")] }
		// a message with a body, and with an empty header or one that is filled in
		headed := func() func(b string) *msg.Wrapper {
			full := rt.Choose(2, "header") == 1
			return func(b string) *msg.Wrapper {
				mw := bodyMsg(b)
				if full {
					mw.ToBuilder().WithReqHeader(&router.Header{ID: "i" + b, Event: "x", OrgActorID: "o", OrgActorType: "t", Token: "tok", PrevActorType: "p",
						TargetActorID: "x", TargetActorType: "x", Timestamp: 7}).WithReqCustomFields(msg.Attr{Key: "k", Value: "v"})
				}
				return mw
			}
		}
		once := func(s core.ISystem, target string) {
			for i := 0; i < 3; i++ {
				err := s.Send(target, "t", "ev", bodyMsg(fmt.Sprint(i)))
				rt.Check(err == nil, "unroutable", "send %d: %v", i, err)
			}
			rt.Quiesce()
			rt.Check(join(rt.Logged("handled")) == "t/a@n2:0 t/a@n2:1 t/a@n2:2", "delivery-count", "handled %v", rt.Logged("handled"))
		}
		return []rt.Scenario{
			S("local", "sends on one node", d, func() { once(pair()[1], "a") }),
			S("remote", "sends from a node that has not called before", d, func() { once(pair()[0], "a") }),
			S("remote-after-call", "sends from a node that is connected", 1, func() {
				n := pair()
				n[0].Call("a", "t", "ev", bodyMsg("c"))
				for i := 0; i < 2; i++ {
					err := n[0].Send("a", "t", "ev", bodyMsg(fmt.Sprint(i)))
					rt.Check(err == nil, "unroutable", "send %d: %v", i, err)
				}
				rt.Quiesce()
				rt.Check(join(rt.Logged("handled")) == "t/a@n2:c t/a@n2:0 t/a@n2:1", "delivery-count", "handled %v", rt.Logged("handled"))
			}),
			S("remote-wildcard", "wildcard sends", 1, func() { once(pair()[0], "?") }),
			S("remote-local-first", "local-first sends without a local actor", 1, func() { once(pair()[0], "~") }),
			S("two-senders", "two nodes send to one actor at once", d, func() {
				n := pair()
				f := func(s core.ISystem, b string) func() {
					return func() { rt.Check(s.Send("a", "t", "ev", bodyMsg(b)) == nil, "unroutable", "send fails") }
				}
				rt.Threads(f(n[0], "0"), f(n[1], "1"))
				rt.Quiesce()
				h := rt.Logged("handled")
				rt.Check(len(h) == 2 && has(h, "t/a@n2:0") && has(h, "t/a@n2:1"), "delivery-count", "handled %v", h)
			}),
			S("no-reply", "a local send, by id or symbol, does not wait for its handler, whatever that does", d, func() {
				n := pair()
				t0 := rt.Elapsed()
				to, m := target(), headed()
				for _, x := range [][2]string{{"slow", "s"}, {"panic", "p"}, {"none", "n"}, {"err", "r"}, {"ev", "e"}} {
					err := n[1].Send(to, "t", x[0], m(x[1]))
					rt.Check(err == nil && rt.Elapsed() == t0, "send-waits", "%s to %s: %v, took %v", x[0], to, err, rt.Elapsed()-t0)
				}
				sleepMs(4000)
				rt.Quiesce()
				rt.Check(join(rt.Logged("handled")) == "t/a@n2:s t/a@n2:e", "delivery-count", "handled %v", rt.Logged("handled"))
			}),
			S("remote-no-reply", "a remote send does not wait for its handler, whatever that does", d, func() {
				n := pair()
				to, m := target(), headed()
				for _, x := range [][2]string{{"slow", "s"}, {"panic", "p"}, {"none", "n"}, {"err", "r"}, {"ev", "e"}} {
					err := n[0].Send(to, "t", x[0], m(x[1]))
					rt.Check(err == nil && rt.Elapsed() == 0, "send-waits", "%s to %s: %v, took %v", x[0], to, err, rt.Elapsed())
				}
				sleepMs(8000)
				rt.Quiesce()
				rt.Check(join(rt.Logged("handled")) == "t/a@n2:s t/a@n2:e", "delivery-count", "handled %v", rt.Logged("handled"))
			}),
			S("one-object", "one message object is sent and used for calls, here and to another node, in every order", 0, func() {
				n := cluster(2, tell("t", 1), tell("u", 1))
				settle()
				spawn(n[1], "t", "a")
				spawn(n[0], "t", "b")
				spawn(n[1], "u", "c")
				mw, want := headed()("m"), ""
				for i := 0; i < pick(tier, 3, 4); i++ {
					c := rt.Choose(6, "operation")
					to, ty, at := []string{"a", "b", "c"}[c/2], []string{"t", "t", "u"}[c/2], []string{"n2", "n1", "n2"}[c/2]
					var err error
					if c%2 == 0 {
						t0 := rt.Elapsed()
						err = n[0].Send(to, ty, "slow", mw)
						rt.Check(rt.Elapsed() == t0, "send-waits", "the send to %s took %v", to, rt.Elapsed()-t0)
						sleepMs(4000)
						rt.Quiesce()
					} else {
						err = n[0].Call(to, ty, "ev", mw)
						rt.Check(string(mw.Res.Body) == to, "response", "the call to %s is answered %q", to, mw.Res.Body)
					}
					rt.Check(err == nil, "unroutable", "operation %d on %s: %v", c%2, to, err)
					want += fmt.Sprintf(" %s/%s@%s:m", ty, to, at)
					rt.Check(" "+join(rt.Logged("handled")) == want, "delivery-count", "handled %v, want%s", rt.Logged("handled"), want)
				}
			}, noMem),
			S("remote-context", "the context of a message sent to another node outlives the request", d, func() {
				n := cluster(2, spec{ty: "t", weight: 1, init: func(a *tActor) {
					a.on("ev", func(mw *msg.Wrapper) error {
						sleepMs(1000)
						rt.Check(mw.Ctx.Err() == nil, "send-context", "the handler's context has ended: %v", mw.Ctx.Err())
						if err := a.Call("b", "t", "sub", mw); err != nil {
							rt.Fail("nested-refused", "%v", err)
						}
						rt.Count("ran", 1)
						return nil
					})
					a.on("sub", func(mw *msg.Wrapper) error { rt.Count("sub", 1); return nil })
				}})
				settle()
				spawn(n[1], "t", "a")
				spawn(n[1], "t", "b")
				ctx, cancel := ctxT(500 * time.Millisecond)
				err := n[0].Send("a", "t", "ev", msg.NewBuilder(ctx).Build())
				cancel()
				rt.Check(err == nil, "unroutable", "%v", err)
				sleepMs(2000)
				rt.Quiesce()
				rt.Check(rt.Counted("ran") == 1 && rt.Counted("sub") == 1, "delivery-count", "%d %d", rt.Counted("ran"), rt.Counted("sub"))
			}),
			S("remote-gone", "a send to an actor its node does not run is an error", d, func() {
				n := pair()
				js, _ := json.Marshal(core.AddressInfo{Node: "n2", ActorId: "z", ActorTy: "t", Ip: "127.0.0.1", Port: 9002})
				mcredis.Client().HSet(context.Background(), def.RedisAddressbookIDField, "z", js)
				rt.Check(n[0].Send("z", "t", "ev", newMsg()) != nil, "error-swallowed", "success")
				rt.Check(len(rt.Logged("handled")) == 0, "misrouted", "%v", rt.Logged("handled"))
			}),
			S("faults", "lost requests and responses: an error, at most one execution", 1, func() {
				n := pair()
				n[0].Call("a", "t", "ev", bodyMsg("c"))
				mcgrpc.EnableFaults(true)
				for i := 0; i < 3; i++ {
					err := n[0].Send("a", "t", "ev", bodyMsg(fmt.Sprint(i)))
					rt.Quiesce()
					c := 0
					for _, x := range rt.Logged("handled") {
						if x == fmt.Sprintf("t/a@n2:%d", i) {
							c++
						}
					}
					rt.Check(c == 1 || (c == 0 && err != nil), "delivery-count", "send %d: error %v, handled %d times", i, err, c)
				}
			}, faults(pick(tier, 2, 3))),
		}
	})

	// S08: whatever arrives at the acceptor, the node stays up and answers.
	register("S08", func(tier string) []rt.Scenario {
		shapes := func() {
			n := cluster(2, tell("t", 1))
			settle()
			spawn(n[1], "t", "a")
			cc, err := grpcDial("127.0.0.1:9002")
			if err != nil {
				rt.Fail("dial", "%v", err)
			}
			ids := []string{"", "a", "zz", "?", "~", "#", "*"}
			tys := []string{"", "t", "zz"}
			evs := []string{"", "ev", "zz", "panic"}
			req := &router.RouteReq{}
			good := false
			switch rt.Choose(3, "shape") {
			case 1:
				req.Msg = &router.Message{}
			case 2:
				h := &router.Header{TargetActorID: ids[rt.Choose(len(ids), "id")], TargetActorType: tys[rt.Choose(len(tys), "type")], Event: evs[rt.Choose(len(evs), "event")]}
				if rt.Choose(2, "origin") == 1 {
					h.OrgActorID = "a"
				}
				req.Msg = &router.Message{Header: h, Body: []byte("m")}
				reaches := h.TargetActorID == "a" || ((h.TargetActorID == "?" || h.TargetActorID == "~") && h.TargetActorType == "t")
				good = reaches && h.OrgActorID == "" && h.Event == "ev"
				if !reaches {
					defer func() {
						rt.Check(len(rt.Logged("handled")) == 1, "misrouted", "%+v handled: %v", h, rt.Logged("handled"))
					}()
				}
			}
			res := &router.RouteRes{}
			ctx := context.Background()
			if rt.Choose(2, "send") == 1 {
				ctx = metadata.AppendToOutgoingContext(ctx, "braid-send", "1")
				good = false
			}
			err = cc.Invoke(ctx, "/router.Acceptor/routing", req, res)
			rt.Quiesce()
			if good {
				rt.Check(err == nil && res.Msg != nil && string(res.Msg.Body) == "a", "unroutable", "a good request: %v %v", err, res.Msg)
			}
			// the actor and the node still work
			mw := bodyMsg("after")
			err = n[0].Call("a", "t", "ev", mw)
			rt.Check(err == nil && string(mw.Res.Body) == "a", "node-damaged", "after %v the node does not answer: %v", req, err)
		}
		return []rt.Scenario{
			S("shapes", "every combination of missing and odd header fields", 0, shapes, noMem),
			S("burst", "an ill-formed request at the same time as a good one", pick(tier, 2, 3), func() {
				n := cluster(2, tell("t", 1))
				settle()
				spawn(n[1], "t", "a")
				cc, _ := grpcDial("127.0.0.1:9002")
				rt.Threads(func() {
					cc.Invoke(context.Background(), "/router.Acceptor/routing", &router.RouteReq{}, &router.RouteRes{})
				}, func() {
					mw := bodyMsg("x")
					err := n[0].Call("a", "t", "ev", mw)
					rt.Check(err == nil && string(mw.Res.Body) == "a", "node-damaged", "%v", err)
				})
			}),
			S("unknown-method", "a method the acceptor does not have", 0, func() {
				n := cluster(1, tell("t", 1))
				settle()
				cc, _ := grpcDial("127.0.0.1:9001")
				err := cc.Invoke(context.Background(), "/router.Acceptor/none", &router.RouteReq{}, &router.RouteRes{})
				rt.Check(err != nil, "error-swallowed", "success")
				spawn(n[0], "t", "a")
				rt.Check(n[0].Call("a", "t", "ev", newMsg()) == nil, "node-damaged", "no answer")
			}),
		}
	})
}

func grpcDial(addr string) (*grpc.ClientConn, error) { return mcgrpc.Dial(addr) }

var _ = node.ErrSelfCall
