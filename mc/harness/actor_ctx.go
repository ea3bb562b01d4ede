package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/zzmc/rt"
)

// headerLine shows what of a message its handler is to see.
func headerLine(m *router.Message) string {
	h := m.Header
	return fmt.Sprintf("id=%s org=%s/%s ev=%s tok=%s to=%s/%s time=%d custom=%s body=%s", h.ID, h.OrgActorID, h.OrgActorType, h.Event, h.Token,
		h.TargetActorID, h.TargetActorType, h.Timestamp, h.Custom, m.Body)
}

func init() {
	// A06: messages carry their header, actors have their own context and options.
	register("A06", func(tier string) []rt.Scenario {
		d := pick(tier, 2, 3)
		bg := context.Background()
		type key struct{ n int }
		seen := func(a *tActor) {
			a.on("ev", func(mw *msg.Wrapper) error {
				rt.Log("saw", "%s: %s", a.ID(), headerLine(mw.Req))
				rt.Log("prev", "%s: %s", a.ID(), mw.Req.Header.PrevActorType)
				mw.ToBuilder().WithResHeader(&router.Header{ID: "ri", Event: "re", Token: "rt", OrgActorID: "ro", Custom: []byte{0, 'c', 255}, Timestamp: -1}).WithResBody([]byte("rb"))
				return nil
			})
			a.on("fwd", func(mw *msg.Wrapper) error { // passes the message on to x, by the way its body says
				rt.Log("prev", "%s: %s", a.ID(), mw.Req.Header.PrevActorType)
				switch string(mw.Req.Body) {
				case "call":
					return a.Context().Call("x", "u", "ev", mw)
				case "runtime":
					return a.Call("x", "u", "ev", mw)
				case "reenter-own":
					nm := msg.NewBuilder(bg).WithReqHeader(&router.Header{ID: "i", OrgActorID: "o", OrgActorType: "ot"}).Build()
					a.Context().ReenterCall("x", "u", "ev", nm).Then(func(r *msg.Wrapper) { rt.Count("then", 1) })
					return nil
				case "call-own":
					nm := msg.NewBuilder(mw.Ctx).WithReqHeader(&router.Header{ID: "i", OrgActorID: "o", OrgActorType: "ot"}).Build()
					return a.Context().Call("x", "u", "ev", nm)
				case "fresh":
					nm := msg.NewBuilder(mw.Ctx).WithReqHeader(&router.Header{ID: "i2"}).Build()
					return a.Context().Call("x", "u", "ev", nm)
				}
				nm := msg.NewBuilder(bg).WithReqHeader(mw.Req.Header).Build()
				a.Context().ReenterCall("x", "u", "ev", nm).Then(func(r *msg.Wrapper) { rt.Count("then", 1) })
				return nil
			})
		}
		return []rt.Scenario{
			S("header", "every part of the header, any subset set, to a local or remote actor, by id or symbol, called or sent: the handler sees it, the caller sees the response's", 0, func() {
				n := cluster(2, spec{ty: "t", weight: 1, init: seen})
				settle()
				spawn(n[rt.Choose(2, "where")], "t", "x")
				h := &router.Header{}
				bits := rt.Choose(64, "fields")
				set := func(i int, f func()) {
					if bits>>i&1 == 1 {
						f()
					}
				}
				set(0, func() { h.ID = "i" })
				set(1, func() { h.OrgActorID, h.OrgActorType = "o", "ot" })
				set(2, func() { h.Token = "tok" })
				set(3, func() { h.Custom = []byte("c\x00") })
				set(4, func() { h.Timestamp = 1 << 60 })
				var body []byte
				set(5, func() { body = []byte("b\x00\xff") })
				mw := msg.NewBuilder(bg).WithReqHeader(h).WithReqBody(body).Build()
				to := []string{"x", "?", "~"}[rt.Choose(3, "target")]
				h.Event, h.TargetActorID, h.TargetActorType = "ev", to, "t"
				want := "x: " + headerLine(&router.Message{Header: h, Body: body})
				send := rt.Choose(2, "send") == 1
				var err error
				if send {
					err = n[0].Send(to, "t", "ev", mw)
				} else {
					err = n[0].Call(to, "t", "ev", mw)
				}
				rt.Quiesce()
				saw := rt.Logged("saw")
				rt.Check(err == nil && len(saw) == 1 && saw[0] == want, "header-lost", "sent %q, the handler sees %q (%v)", want, saw, err)
				if !send {
					r := mw.Res.Header
					rt.Check(r.ID == "ri" && r.Event == "re" && r.Token == "rt" && r.OrgActorID == "ro" && string(r.Custom) == "\x00c\xff" && r.Timestamp == -1 && string(mw.Res.Body) == "rb",
						"response-lost", "the response is %v %q", r, mw.Res.Body)
				}
			}, noMem),
			S("one-header", "messages built from one header that are on their way at the same time", d, func() {
				n := cluster(2, spec{ty: "t", weight: 1, init: func(a *tActor) {
					for _, e := range []string{"one", "two", "three"} {
						a.on(e, func(mw *msg.Wrapper) error {
							rt.Log("ran", "%s.%s", a.ID(), e)
							h := mw.Req.Header
							rt.Check(h.Event == e && h.TargetActorID == a.ID() && h.Token == "x", "header-shared", "%s.%s sees %v", a.ID(), e, h)
							mw.ToBuilder().WithReqHeader(&router.Header{Token: "y"})
							rt.Yield("handler")
							return nil
						})
					}
				}})
				settle()
				spawn(n[0], "t", "a")
				spawn(n[rt.Choose(2, "where")], "t", "b")
				h := &router.Header{Token: "x"}
				send := func(to, ev string) func() {
					mw := msg.NewBuilder(bg).WithReqHeader(h).Build()
					return func() { rt.Check(n[0].Send(to, "t", ev, mw) == nil, "unroutable", "%s", to) }
				}
				x, y, z := send("a", "one"), send("a", "two"), send("b", "three")
				rt.Threads(x, func() { z(); y() })
				rt.Quiesce()
				rt.Check(join(sorted(rt.Logged("ran"))) == "a.one a.two b.three", "misrouted", "ran %v", rt.Logged("ran"))
				rt.Check(h.Token == "x" && h.Event == "" && h.TargetActorID == "", "header-shared", "the caller's header is now %v", h)
			}),
			S("origin", "a message that is passed on names the first actor of its chain and the type of the last", d, func() {
				n := cluster(2, spec{ty: "t", weight: 1, init: seen}, spec{ty: "u", weight: 1, init: seen})
				settle()
				far := rt.Choose(2, "remote")
				spawn(n[0], "t", "f")
				spawn(n[far], "u", "x")
				how := []string{"call", "runtime", "fresh", "reenter", "reenter-own", "call-own"}[rt.Choose(6, "how")]
				org := rt.Choose(2, "origin") == 1
				b := msg.NewBuilder(bg).WithReqBody([]byte(how))
				if org {
					b.WithReqHeader(&router.Header{ID: "i", OrgActorID: "o", OrgActorType: "ot", PrevActorType: "pt"})
				}
				err := n[0].Call("f", "t", "fwd", b.Build())
				rt.Check(err == nil, "setup", "%v", err)
				rt.Quiesce()
				saw, prev := join(rt.Logged("saw")), join(rt.Logged("prev"))
				want := "org=f/t"
				if org && how != "fresh" || strings.HasSuffix(how, "-own") {
					want = "org=o/ot"
				}
				rt.Check(strings.Count(saw, "org=") == 1 && strings.Contains(saw, want+" "), "origin", "%s: the handler sees %s", how, saw)
				first, last := "", "t"
				if org {
					first = "pt"
				}
				if far == 1 {
					last = "GrpcAcceptor"
				}
				rt.Check(prev == "f: "+first+" x: "+last, "previous", "%s: the handlers see %s", how, prev)
				rt.Check(rt.Counted("then") == map[bool]int{true: 1}[strings.HasPrefix(how, "reenter")], "then", "")
			}),
			S("context", "two actors made with one context: each has its own values, id, type and system", d, func() {
				ctx := context.WithValue(context.WithValue(bg, key{0}, "base"), key{1}, "old")
				sys := single(spec{ty: "t", weight: 1, init: func(a *tActor) {
					c := a.Context()
					rt.Check(c.GetValue(key{1}) == "old", "base-value", "%v", c.GetValue(key{1}))
					c.WithValue(key{1}, a.ID())
					a.on("ev", func(mw *msg.Wrapper) error {
						if c.GetValue(key{2}) == nil {
							c.WithValue(key{2}, 0)
						}
						c.WithValue(key{2}, c.GetValue(key{2}).(int)+1)
						rt.Yield("handler")
						rt.Check(c.GetValue(key{0}) == "base" && c.GetValue(key{1}) == a.ID() && c.GetValue(key{3}) == nil, "value", "%v %v %v", c.GetValue(key{0}), c.GetValue(key{1}), c.GetValue(key{3}))
						rt.Check(c.ID() == a.ID() && c.Type() == "t" && c.System() == a.Sys && c.AddressBook() == a.Sys.AddressBook(), "self", "%s %s", c.ID(), c.Type())
						rt.Log("n", "%s%d", a.ID(), c.GetValue(key{2}))
						return nil
					})
				}})
				for _, id := range []string{"a", "b"} {
					if _, err := sys.Loader("t").WithID(id).Register(ctx); err != nil {
						rt.Fail("setup", "%v", err)
					}
				}
				rt.Threads(func() { sys.Send("a", "t", "ev", newMsg()); sys.Send("b", "t", "ev", newMsg()) }, func() { sys.Send("b", "t", "ev", newMsg()); sys.Send("a", "t", "ev", newMsg()) })
				rt.Quiesce()
				got := sorted(rt.Logged("n"))
				rt.Check(join(got) == "a1 a2 b1 b2", "value", "%v", got)
				rt.Check(ctx.Value(key{1}) == "old", "base-value", "the context of the registration changes")
			}),
			S("context-calls", "the calls of a context go out in its actor's name, its errors come back", 0, func() {
				n := cluster(2, spec{ty: "t", weight: 1, init: seen}, spec{ty: "u", weight: 1, init: seen})
				settle()
				a := spawn(n[0], "t", "f").(*tActor)
				spawn(n[rt.Choose(2, "where")], "u", "x")
				c := a.Context()
				to := []string{"x", "gone", ""}[rt.Choose(3, "target")]
				mw := newMsg()
				var err error
				switch rt.Choose(4, "op") {
				case 0:
					err = c.Call(to, "u", "ev", mw)
				case 1:
					err = c.Send(to, "u", "ev", mw)
				case 2:
					c.ReenterCall(to, "u", "ev", mw).Then(func(r *msg.Wrapper) { rt.Count("then", 1); err = r.Err })
				case 3:
					_, err = c.Loader("u").WithID("y").Register(bg)
					if err == nil {
						err = c.Send("y", "u", "ev", mw)
					}
					if err == nil {
						rt.Quiesce()
						err = c.Unregister("y", "u")
					}
					rt.Check(err == nil && len(rt.Logged("saw")) == 1 && n[0].Call("y", "u", "ev", newMsg()) != nil, "loader", "%v", err)
					return
				}
				sleepMs(100)
				rt.Check((err == nil) == (to == "x") && len(rt.Logged("saw")) == map[bool]int{true: 1}[to == "x"], "context-call", "to %q: %v %v", to, err, rt.Logged("saw"))
			}, noMem),
			S("options", "builders of one type, configured at the same time: each actor gets the options of its own", d, func() {
				redisUp()
				f := newFactory(spec{ty: "t", weight: 1})
				c := f.m["t"]
				base := rt.Choose(3, "base")
				c.Options = []map[string]string{nil, {}, {"k": "base", "z": "base"}}[base]
				c.Constructor = func(b core.IActorBuilder) core.IActor {
					var l []string
					for k, v := range b.GetOptions() {
						l = append(l, k+"="+v)
						rt.Check(b.GetOpt(k) == v, "options", "GetOpt(%s)=%s", k, b.GetOpt(k))
					}
					rt.Log("opts", "%s:%s", b.GetID(), strings.Join(sorted(l), ","))
					return &tActor{Runtime: &actor.Runtime{Id: b.GetID(), Ty: b.GetType(), Sys: b.GetSystem()}}
				}
				sys := newNode("n1", 0, f).System()
				mk := func(id, k string) func() {
					return func() {
						_, err := sys.Loader("t").WithID(id).WithOpt(k, id).WithOpt("own"+id, "1").Register(bg)
						rt.Check(err == nil, "setup", "%v", err)
					}
				}
				rt.Threads(mk("a", "k"), mk("b", "k"))
				mk("c", "l")()
				_, err := sys.Loader("t").WithID("d").Register(bg)
				rt.Check(err == nil, "setup", "%v", err)
				_, err = sys.Loader("t").WithID("e").WithOpt("k", "1").WithOpt("e", "=").WithOpt("k", "").Register(bg)
				rt.Check(err == nil, "setup", "%v", err)
				got := join(sorted(rt.Logged("opts")))
				want := []string{"a:k=a,owna=1 b:k=b,ownb=1 c:l=c,ownc=1 d: e:e==,k=", "", "a:k=a,owna=1,z=base b:k=b,ownb=1,z=base c:k=base,l=c,ownc=1,z=base d:k=base,z=base e:e==,k=,z=base"}
				want[1] = want[0]
				rt.Check(got == want[base], "options", "the actors get %s", got)
			}),
		}
	})
}

func sorted(l []string) []string {
	sort.Strings(l)
	return l
}
