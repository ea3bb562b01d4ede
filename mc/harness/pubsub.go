package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	trdredis "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/lib/mpsc"
	"github.com/pojol/braid/lib/pubsub"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/zzmc/mcredis"
	"github.com/pojol/braid/zzmc/rt"
)

// listener is an actor type that subscribes when it starts: to topic, one channel each.
func listener(ty, topic string, channels ...string) spec {
	return spec{ty: ty, weight: 1, init: func(a *tActor) {
		for _, c := range channels {
			subscribe(a, topic, c)
		}
	}}
}

func subscribe(a *tActor, topic, channel string, opts ...pubsub.TopicOption) {
	err := a.Sub(topic, channel, func(core.ActorContext) core.IChain {
		return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error {
			if rt.Enter("in "+a.ID()) > 1 {
				rt.Fail("overlap", "two handlers of %s at once", a.ID())
			}
			rt.Log("got "+a.ID(), "%s", mw.Req.Body)
			rt.Log("got", "%s", mw.Req.Body)
			rt.Check(mw.Req.Header.Event == channel, "event", "the handler of %s runs for event %q", channel, mw.Req.Header.Event)
			work(1)
			rt.Leave("in " + a.ID())
			return nil
		}}
	}, opts...)
	rt.Check(err == nil, "sub", "Sub %s/%s: %v", topic, channel, err)
}

func pub(sys core.ISystem, topic, event, body string) {
	if err := sys.Pub(topic, event, []byte(body)); err != nil {
		rt.Fail("pub", "Pub %s/%s: %v", topic, event, err)
	}
}

// delivered waits until everything is quiet and compares what arrived, per list.
func delivered(list string, want ...string) {
	sleepMs(300)
	got := rt.Logged(list)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		rt.Fail("delivery", "%s: handled %v, published %v", list, got, want)
	}
}

// interleaving checks that list holds exactly the given sequences, each in order.
func interleaving(list string, seqs ...[]string) {
	got := rt.Logged(list)
	n := 0
	pos := map[string]int{}
	for i, g := range got {
		if _, dup := pos[g]; dup {
			rt.Fail("twice", "%s: %s handled twice: %v", list, g, got)
		}
		pos[g] = i
	}
	for _, s := range seqs {
		last := -1
		for _, m := range s {
			p, ok := pos[m]
			if !ok {
				rt.Fail("lost", "%s: %s never handled: %v", list, m, got)
			}
			if p < last {
				rt.Fail("order", "%s: %v handled as %v", list, s, got)
			}
			last = p
			n++
		}
	}
	if n != len(got) {
		rt.Fail("extra", "%s: handled %v, published %v", list, got, seqs)
	}
}

// flood publishes more than a thousand messages.
func flood(away bool) func() {
	return func() {
		sys := single(listener("l", "top", "ev"))
		spawn(sys, "l", "a")
		if away {
			sleepMs(20)
			sys.Unregister("a", "l")
		}
		var want []string
		for i := 0; i < 1050; i++ {
			pub(sys, "top", "ev", fmt.Sprint(i))
			want = append(want, fmt.Sprint(i))
		}
		if away {
			spawn(sys, "l", "a")
		}
		sleepMs(2000)
		delivered("got", want...)
	}
}

func init() {
	long := horizon(60 * time.Second)
	// P01: one channel, one subscriber.
	register("P01", func(tier string) []rt.Scenario {
		d := pick(tier, 1, 2)
		return []rt.Scenario{
			S("one-publisher", "three messages of one publisher", d, func() {
				sys := single(listener("l", "top", "ev"))
				spawn(sys, "l", "a")
				rt.Threads(func() {
					for i := 0; i < 3; i++ {
						pub(sys, "top", "ev", fmt.Sprint(i))
					}
				})
				delivered("got", "0", "1", "2")
			}, long),
			S("spread", "messages published at different times", d, func() {
				sys := single(listener("l", "top", "ev"))
				spawn(sys, "l", "a")
				for i := 0; i < 4; i++ {
					pub(sys, "top", "ev", fmt.Sprint(i))
					sleepMs(4 * i)
				}
				delivered("got", "0", "1", "2", "3")
			}, long),
			S("burst", "more messages than one read of the store returns", 0, func() {
				sys := single(listener("l", "top", "ev"))
				spawn(sys, "l", "a")
				var want []string
				for i := 0; i < 25; i++ {
					pub(sys, "top", "ev", fmt.Sprint(i))
					want = append(want, fmt.Sprint(i))
				}
				delivered("got", want...)
			}, long),
			S("flood", "1050 messages", 0, flood(false), long, noMem, ops(200000)),
			S("two-publishers", "two publishers at once", d, func() {
				sys := single(listener("l", "top", "ev"))
				spawn(sys, "l", "a")
				rt.Threads(func() { pub(sys, "top", "ev", "a0"); pub(sys, "top", "ev", "a1") },
					func() { pub(sys, "top", "ev", "b0"); pub(sys, "top", "ev", "b1") })
				sleepMs(300)
				interleaving("got", []string{"a0", "a1"}, []string{"b0", "b1"})
			}, long),
			S("other-node", "a publisher on a node that has not subscribed", d, func() {
				c := cluster(2, listener("l", "top", "ev"))
				spawn(c[0], "l", "a")
				rt.Threads(func() { pub(c[1], "top", "ev", "0"); pub(c[1], "top", "ev", "1") })
				delivered("got", "0", "1")
			}, long),
			S("with-sends", "published messages and sends to the same actor", d, func() {
				sys := single(listener("l", "top", "ev"))
				spawn(sys, "l", "a")
				rt.Threads(func() { pub(sys, "top", "ev", "p0"); pub(sys, "top", "ev", "p1") },
					func() {
						for i := 0; i < 2; i++ {
							err := sys.Send("a", "l", "ev", bodyMsg(fmt.Sprint("s", i)))
							rt.Check(err == nil, "send", "%v", err)
						}
					})
				sleepMs(300)
				interleaving("got", []string{"p0", "p1"}, []string{"s0", "s1"})
			}, long),
			S("store-faults", "a command of the store is lost, before or after it took effect: in order, at most once, and the subscription survives", 1, func() {
				sys := single(listener("l", "top", "ev"))
				spawn(sys, "l", "a")
				mcredis.EnableFaults(func([]string) bool { return true })
				var ok []string
				for i := 0; i < 3; i++ {
					if sys.Pub("top", "ev", []byte(fmt.Sprint(i))) == nil {
						ok = append(ok, fmt.Sprint(i))
					}
					sleepMs(15)
				}
				sleepMs(100)
				mcredis.DisableFaults()
				last := -1
				for _, m := range rt.Logged("got") {
					n := int(m[0] - '0')
					rt.Check(n > last, "order", "handled %v", rt.Logged("got"))
					last = n
				}
				rt.Check(len(rt.Logged("got")) >= len(ok)-1, "lost", "one fault, published %v, handled %v", ok, rt.Logged("got"))
				pub(sys, "top", "ev", "8") // may still meet the fault: it may be read by the command that was under way
				sleepMs(100)
				pub(sys, "top", "ev", "9")
				sleepMs(100)
				rt.Check(has(rt.Logged("got"), "9"), "dead", "a message published after the fault is not handled")
			}, long, faults(1)),
			S("outage", "the store forgets the topic: the subscription goes on with what is published then", d, func() {
				sys := single(listener("l", "top", "ev"))
				spawn(sys, "l", "a")
				pub(sys, "top", "ev", "0")
				sleepMs(50)
				trdredis.GetClient().Del(context.Background(), "top")
				sleepMs(50)
				pub(sys, "top", "ev", "1")
				sleepMs(5)
				pub(sys, "top", "ev", "2")
				delivered("got", "0", "1", "2")
			}, long),
			S("bodies", "bodies of any bytes arrive unchanged", 0, func() {
				sys := single(listener("l", "top", "ev"))
				spawn(sys, "l", "a")
				bodies := []string{"", "x", "\x00\xff\r\n", "a b", strings.Repeat("z", 5000)}
				b := bodies[rt.Choose(len(bodies), "body")]
				pub(sys, "top", "ev", b)
				pub(sys, "top", "ev", "next")
				delivered("got", b, "next")
				err := sys.Pub("top", "", []byte("x"))
				rt.Check(err != nil, "no-event", "a message without an event is accepted")
			}, long),
		}
	})

	// P02: several channels and subscribers.
	register("P02", func(tier string) []rt.Scenario {
		d := pick(tier, 1, 2)
		two := func() core.ISystem {
			sys := single(listener("l1", "top", "c1"), listener("l2", "top", "c2"))
			spawn(sys, "l1", "a")
			spawn(sys, "l2", "b")
			return sys
		}
		return []rt.Scenario{
			S("two-channels", "two actors, a channel of one topic each", d, func() {
				sys := two()
				rt.Threads(func() { pub(sys, "top", "c1", "x0"); pub(sys, "top", "c2", "y0"); pub(sys, "top", "c1", "x1") })
				sleepMs(300)
				interleaving("got a", []string{"x0", "x1"})
				interleaving("got b", []string{"y0"})
			}, long),
			S("two-nodes", "two nodes, a channel of one topic each", d, func() {
				c := cluster(2, listener("l1", "top", "c1"), listener("l2", "top", "c2"))
				rt.Threads(func() { spawn(c[0], "l1", "a") }, func() { spawn(c[1], "l2", "b") })
				pub(c[0], "top", "c1", "x0")
				pub(c[0], "top", "c2", "y0")
				sleepMs(300)
				interleaving("got a", []string{"x0"})
				interleaving("got b", []string{"y0"})
			}, long),
			S("queues", "two channels without actors: each gets every message, whatever its event", d, func() {
				redisUp()
				ps := pubsub.BuildWithOption()
				t := ps.GetOrCreateTopic("top")
				q := []*mpsc.Queue{mpsc.New(), mpsc.New()}
				for i, n := range []string{"c1", "c2"} {
					c, err := t.Sub(context.Background(), n)
					rt.Check(err == nil, "sub", "%v", err)
					c.Arrived(q[i])
				}
				rt.Threads(func() {
					for i := 0; i < 3; i++ {
						err := t.Pub(context.Background(), fmt.Sprint("e", i), []byte(fmt.Sprint(i)))
						rt.Check(err == nil, "pub", "%v", err)
					}
				})
				sleepMs(300)
				for i := range q {
					for k := 0; k < 3; k++ {
						m, _ := q[i].Pop().(*msg.Wrapper)
						if m == nil || string(m.Req.Body) != fmt.Sprint(k) || m.Req.Header.Event != fmt.Sprint("e", k) {
							rt.Fail("queue", "channel %d, message %d: %v", i, k, m)
						}
					}
					rt.Check(q[i].Pop() == nil, "queue-extra", "channel %d has more", i)
				}
				rt.Check(mcredis.Get().StreamLen("top") == 0, "not-deleted", "%d handled messages stay in the store", mcredis.Get().StreamLen("top"))
			}, long),
			S("bursts", "bursts of every size one after the other, for two channels, one of which is handled only later", 0, func() {
				redisUp()
				t := pubsub.BuildWithOption().GetOrCreateTopic("top")
				q := []*mpsc.Queue{mpsc.New(), mpsc.New()}
				late := rt.Choose(2, "late channel")
				var c [2]*pubsub.Channel
				for i := range c {
					var err error
					c[i], err = t.Sub(context.Background(), []string{"c1", "c2"}[i])
					rt.Check(err == nil, "sub", "%v", err)
				}
				c[1-late].Arrived(q[1-late])
				n, when := 0, rt.Choose(4, "handled from")
				for b := 0; b < 3; b++ {
					if b == when {
						c[late].Arrived(q[late])
					}
					for k := []int{1, 3, 12}[rt.Choose(3, "burst")]; k > 0; k-- {
						err := t.Pub(context.Background(), "ev", []byte(fmt.Sprint(n)))
						rt.Check(err == nil, "pub", "%v", err)
						n++
					}
					sleepMs([]int{0, 7, 995}[rt.Choose(3, "pause")])
				}
				if when == 3 {
					c[late].Arrived(q[late])
				}
				sleepMs(300)
				for i := range q {
					for k := 0; k < n; k++ {
						m, _ := q[i].Pop().(*msg.Wrapper)
						if m == nil || string(m.Req.Body) != fmt.Sprint(k) {
							rt.Fail("queue", "channel %d, message %d of %d: %v", i, k, n, m)
						}
					}
					rt.Check(q[i].Pop() == nil, "queue-extra", "channel %d has more", i)
				}
				rt.Check(mcredis.Get().StreamLen("top") == 0, "not-deleted", "%d of %d handled messages stay in the store", mcredis.Get().StreamLen("top"), n)
			}, long, noMem),
			S("stopped-behind", "a channel has stopped without taking what it read, another handles everything: what the first has not handled stays in the store", 0, func() {
				redisUp()
				ctx := context.Background()
				t := pubsub.BuildWithOption().GetOrCreateTopic("top")
				a, err := t.Sub(ctx, "c1")
				rt.Check(err == nil, "sub", "%v", err)
				b, err := t.Sub(ctx, "c2")
				rt.Check(err == nil, "sub", "%v", err)
				q := mpsc.New()
				b.Arrived(q)
				sleepMs(20)
				read := rt.Choose(3, "read")
				for i := 0; i < read; i++ {
					rt.Check(t.Pub(ctx, "ev", []byte(fmt.Sprint(i))) == nil, "pub", "")
					sleepMs(10 * rt.Choose(2, "pause"))
				}
				sleepMs(50)
				a.Stop()
				unread := rt.Choose(2, "unread") * 12
				for i := read; i < read+unread; i++ {
					rt.Check(t.Pub(ctx, "ev", []byte(fmt.Sprint(i))) == nil, "pub", "")
				}
				sleepMs(100)
				for i := 0; i < read+unread; i++ {
					m, _ := q.Pop().(*msg.Wrapper)
					if m == nil || string(m.Req.Body) != fmt.Sprint(i) {
						rt.Fail("queue", "message %d: %v", i, m)
					}
				}
				rt.Check(mcredis.Get().StreamLen("top") == read+unread, "deleted", "%d of %d messages that one of two channels has not handled are in the store", mcredis.Get().StreamLen("top"), read+unread)
				c, err := t.Sub(ctx, "c1")
				rt.Check(err == nil, "sub", "%v", err)
				r := mpsc.New()
				c.Arrived(r)
				sleepMs(100)
				for i := read; i < read+unread; i++ {
					m, _ := r.Pop().(*msg.Wrapper)
					if m == nil || string(m.Req.Body) != fmt.Sprint(i) {
						rt.Fail("queue", "message %d of the channel that stopped: %v", i, m)
					}
				}
				rt.Check(mcredis.Get().StreamLen("top") == read, "not-deleted", "%d messages are in the store, %d are not handled", mcredis.Get().StreamLen("top"), read)
			}, long),
			S("stops-in-between", "a channel stops with a part of a burst read, another handles all of it: everything stays in the store, and the rest of it waits", d, func() {
				redisUp()
				ctx := context.Background()
				t := pubsub.BuildWithOption().GetOrCreateTopic("top")
				a, err := t.Sub(ctx, "c1")
				rt.Check(err == nil, "sub", "%v", err)
				b, err := t.Sub(ctx, "c2")
				rt.Check(err == nil, "sub", "%v", err)
				q := mpsc.New()
				b.Arrived(q)
				n := []int{3, 12, 22}[rt.Choose(3, "burst")]
				for i := 0; i < n; i++ {
					rt.Check(t.Pub(ctx, "ev", []byte(fmt.Sprint(i))) == nil, "pub", "")
				}
				a.Stop()
				sleepMs(100)
				for i := 0; i < n; i++ {
					m, _ := q.Pop().(*msg.Wrapper)
					if m == nil || string(m.Req.Body) != fmt.Sprint(i) {
						rt.Fail("queue", "message %d: %v", i, m)
					}
				}
				rt.Check(mcredis.Get().StreamLen("top") == n, "deleted", "%d of %d messages that one of two channels has not handled are in the store", mcredis.Get().StreamLen("top"), n)
				c, err := t.Sub(ctx, "c1")
				rt.Check(err == nil, "sub", "%v", err)
				r := mpsc.New()
				c.Arrived(r)
				sleepMs(100)
				rest := mcredis.Get().PendingCount("top", "c1")
				for i := rest; i < n; i++ {
					m, _ := r.Pop().(*msg.Wrapper)
					if m == nil || string(m.Req.Body) != fmt.Sprint(i) {
						rt.Fail("queue", "message %d of the channel that stopped: %v", i, m)
					}
				}
				rt.Check(mcredis.Get().StreamLen("top") == rest, "not-deleted", "%d messages are in the store, %d are not handled", mcredis.Get().StreamLen("top"), rest)
			}, long),
			S("sub-vs-pub", "a second channel starts while messages of the first are handled", d, func() {
				sys := single(listener("l1", "top", "c1"), listener("l2", "top", "c2"))
				spawn(sys, "l1", "a")
				rt.Threads(func() { spawn(sys, "l2", "b"); pub(sys, "top", "c2", "y0") }, func() { pub(sys, "top", "c1", "x0"); pub(sys, "top", "c1", "x1") })
				sleepMs(300)
				interleaving("got a", []string{"x0", "x1"})
				interleaving("got b", []string{"y0"})
			}, long),
			S("shared-channel", "two actors share a channel: each message goes to one of them", d, func() {
				sys := single(listener("l", "top", "ev"))
				spawn(sys, "l", "a")
				spawn(sys, "l", "b")
				rt.Threads(func() {
					for i := 0; i < 3; i++ {
						pub(sys, "top", "ev", fmt.Sprint(i))
					}
				})
				sleepMs(300)
				got := map[string]int{}
				for _, m := range rt.Logged("got") {
					got[m]++
				}
				for i := 0; i < 3; i++ {
					rt.Check(got[fmt.Sprint(i)] == 1, "shared", "message %d handled %d times", i, got[fmt.Sprint(i)])
				}
			}, long),
			S("two-topics", "one actor, two topics", d, func() {
				sys := single(spec{ty: "l", weight: 1, init: func(a *tActor) {
					subscribe(a, "t1", "e1")
					subscribe(a, "t2", "e2")
				}})
				spawn(sys, "l", "a")
				rt.Threads(func() { pub(sys, "t1", "e1", "x0"); pub(sys, "t1", "e1", "x1") }, func() { pub(sys, "t2", "e2", "y0") })
				sleepMs(300)
				interleaving("got", []string{"x0", "x1"}, []string{"y0"})
			}, long),
		}
	})

	// P03: subscribers that come and go.
	register("P03", func(tier string) []rt.Scenario {
		d := pick(tier, 1, 2)
		gone := func(sys core.ISystem) {
			if err := sys.Unregister("a", "l"); err != nil {
				rt.Fail("unregister", "%v", err)
			}
		}
		return []rt.Scenario{
			S("offline", "messages published while the subscriber is away wait for its return", d, func() {
				sys := single(listener("l", "top", "ev"))
				spawn(sys, "l", "a")
				pub(sys, "top", "ev", "0")
				sleepMs(50)
				gone(sys)
				sleepMs(50)
				pub(sys, "top", "ev", "1")
				pub(sys, "top", "ev", "2")
				sleepMs(50)
				rt.Check(len(rt.Logged("got")) <= 1, "handled-after-exit", "handled %v while the actor is away", rt.Logged("got"))
				spawn(sys, "l", "a")
				pub(sys, "top", "ev", "3")
				delivered("got", "0", "1", "2", "3")
			}, long),
			S("stop-vs-pub", "messages published while the subscriber stops", d, func() {
				sys := single(listener("l", "top", "ev"))
				spawn(sys, "l", "a")
				rt.Threads(func() { gone(sys) }, func() { pub(sys, "top", "ev", "0"); pub(sys, "top", "ev", "1") })
				sleepMs(50)
				n := len(rt.Logged("got"))
				sleepMs(50)
				rt.Check(len(rt.Logged("got")) == n, "handled-after-exit", "handled %v", rt.Logged("got"))
				rt.Check(mcredis.Get().StreamLen("top") == 2-n, "retained", "%d of 2 messages handled before the subscriber stopped, %d kept", n, mcredis.Get().StreamLen("top"))
				spawn(sys, "l", "a")
				delivered("got", "0", "1")
			}, long),
			S("flood", "1050 messages while the subscriber is away", 0, flood(true), long, noMem, ops(200000)),
			S("moves", "the subscriber stops on one node and starts on another", d, func() {
				c := cluster(2, listener("l", "top", "ev"))
				spawn(c[0], "l", "a")
				rt.Threads(func() { gone(c[0]); spawn(c[1], "l", "a") }, func() { pub(c[0], "top", "ev", "0"); pub(c[1], "top", "ev", "1") })
				sleepMs(300)
				interleaving("got", []string{"0", "1"})
			}, long),
			S("backlog", "an actor that starts with a backlog, with two subscriptions", 2, func() {
				sys := single(spec{ty: "l", weight: 1, init: func(a *tActor) {
					subscribe(a, "t1", "e1")
					subscribe(a, "t2", "e2")
				}})
				spawn(sys, "l", "a")
				sleepMs(20)
				gone(sys)
				sleepMs(20)
				pub(sys, "t1", "e1", "x")
				pub(sys, "t2", "e2", "y")
				spawn(sys, "l", "a")
				sleepMs(300)
				interleaving("got", []string{"x"}, []string{"y"})
			}, long),
			S("three", "an actor with three or four subscriptions stops and starts again, with messages to each before and after", 0, func() {
				k := 3 + rt.Choose(2, "subscriptions")
				sys := single(spec{ty: "l", weight: 1, init: func(a *tActor) {
					for i := 0; i < k; i++ {
						subscribe(a, fmt.Sprint("t", i), fmt.Sprint("e", i))
					}
				}})
				spawn(sys, "l", "a")
				sleepMs(20)
				var want [][]string
				send := func(m string) {
					for i := 0; i < k; i++ {
						pub(sys, fmt.Sprint("t", i), fmt.Sprint("e", i), fmt.Sprint(m, i))
					}
				}
				send("a")
				sleepMs(50)
				gone(sys)
				n := len(rt.Logged("got"))
				rt.Check(n == k, "lost", "handled %v", rt.Logged("got"))
				send("b")
				sleepMs(50)
				rt.Check(len(rt.Logged("got")) == n, "handled-after-exit", "handled %v", rt.Logged("got"))
				spawn(sys, "l", "a")
				send("c")
				sleepMs(300)
				for i := 0; i < k; i++ {
					want = append(want, []string{fmt.Sprint("a", i), fmt.Sprint("b", i), fmt.Sprint("c", i)})
				}
				interleaving("got", want...)
			}, long),
			S("late-handler", "a running actor subscribes to a channel with a backlog while more is published", d, func() {
				sys := single(spec{ty: "l", weight: 1})
				a := spawn(sys, "l", "a").(*tActor)
				ch, err := sys.Sub("top", "ev")
				rt.Check(err == nil, "sub", "%v", err)
				ch.Stop()
				n := rt.Choose(3, "backlog")
				var want []string
				for i := 0; i <= n; i++ {
					want = append(want, fmt.Sprint(i))
				}
				for _, b := range want[:n] {
					pub(sys, "top", "ev", b)
				}
				rt.Threads(func() { subscribe(a, "top", "ev") }, func() { pub(sys, "top", "ev", want[n]) })
				delivered("got", want...)
			}, long),
			S("new-only", "a new channel gets what is published from then on", d, func() {
				sys := single(listener("l", "top", "ev"))
				pub(sys, "top", "ev", "early")
				rt.Threads(func() { spawn(sys, "l", "a"); pub(sys, "top", "ev", "0") }, func() { pub(sys, "top", "ev", "during") })
				sleepMs(300)
				got := rt.Logged("got")
				rt.Check(!has(got, "early"), "early", "a message from before the subscription arrives")
				rt.Check(has(got, "0"), "lost", "handled %v", got)
			}, long),
			S("refill", "the subscriber stops and starts twice, with messages before, between and after", d, func() {
				sys := single(listener("l", "top", "ev"))
				var want []string
				n := 0
				for round := 0; round < 3; round++ {
					spawn(sys, "l", "a")
					for i := 0; i < 2; i++ {
						pub(sys, "top", "ev", fmt.Sprint(n))
						want = append(want, fmt.Sprint(n))
						n++
					}
					sleepMs(rt.Choose(2, "pause") * 30)
					gone(sys)
					pub(sys, "top", "ev", fmt.Sprint(n))
					want = append(want, fmt.Sprint(n))
					n++
				}
				spawn(sys, "l", "a")
				delivered("got", want...)
			}, long),
		}
	})

	// P04: topics.
	register("P04", func(tier string) []rt.Scenario {
		d := pick(tier, 2, 3)
		return []rt.Scenario{
			S("pub-unknown", "publishing to a topic nobody has created", d, func() {
				sys := single(listener("l", "top", "ev"))
				rt.Threads(func() { pub(sys, "top", "ev", "0") }, func() { pub(sys, "top", "ev", "1") })
				rt.Check(mcredis.Get().StreamLen("top") == 2, "stored", "the stream holds %d messages", mcredis.Get().StreamLen("top"))
			}, long),
			S("create-once", "the same topic is created by several users of a node at once", d, func() {
				redisUp()
				ps := pubsub.BuildWithOption()
				var t [3]*pubsub.Topic
				rt.Threads(func() { t[0] = ps.GetOrCreateTopic("top") }, func() { t[1] = ps.CreateTopic("top") }, func() { t[2] = ps.GetOrCreateTopic("top") })
				rt.Check(t[0] != nil && t[0] == t[1] && t[1] == t[2], "same", "different objects for one topic")
				rt.Check(ps.GetTopic("top") == t[0], "get", "GetTopic")
				rt.Check(ps.GetTopic("none") == nil, "get", "GetTopic of an unknown topic")
				rt.Check(mcredis.Get().StreamLen("top") == 0, "stray", "the new stream holds %d messages", mcredis.Get().StreamLen("top"))
				rt.Check(has(mcredis.Get().Set(pubsub.BraidPubsubTopic), "top"), "listed", "the topic is not listed")
			}, long),
			S("create-two-nodes", "two nodes create and use the same topic at once", pick(tier, 1, 2), func() {
				c := cluster(2, listener("l1", "top", "c1"), listener("l2", "top", "c2"))
				rt.Threads(func() { spawn(c[0], "l1", "a") }, func() { spawn(c[1], "l2", "b") })
				sleepMs(100)
				rt.Check(len(rt.Logged("got")) == 0, "stray", "handled %v", rt.Logged("got"))
			}, long),
			S("ttl", "the first subscription sets the life time of the topic", 0, func() {
				ttl := []time.Duration{time.Second, 10 * time.Second, 1500 * time.Millisecond}[rt.Choose(3, "ttl")]
				sys := single(spec{ty: "l", weight: 1, init: func(a *tActor) { subscribe(a, "top", "ev", pubsub.WithTTL(ttl)) }})
				spawn(sys, "l", "a")
				pub(sys, "top", "ev", "0")
				delivered("got", "0")
				rt.Check(mcredis.Get().Exists("top"), "ttl-early", "the topic is gone early")
				sleepMs(int(ttl/time.Millisecond) - 600)
				rt.Check(ttl < 10*time.Second || mcredis.Get().Exists("top"), "ttl-early", "the topic is gone early")
				sleepMs(1100)
				rt.Check(!mcredis.Get().Exists("top"), "ttl", "the topic outlives its time")
			}, long),
			S("ttl-once", "what is created later with another life time does not change the topic", 0, func() {
				redisUp()
				ttl := []time.Duration{0, 4 * time.Second}[rt.Choose(2, "first")]
				later := []time.Duration{time.Second, 20 * time.Second}[rt.Choose(2, "later")]
				var opts []pubsub.TopicOption
				if ttl > 0 {
					opts = append(opts, pubsub.WithTTL(ttl))
				}
				ps := pubsub.BuildWithOption()
				ps.CreateTopic("top", opts...)
				switch rt.Choose(3, "how") {
				case 0:
					ps.CreateTopic("top", pubsub.WithTTL(later))
				case 1:
					ps.GetOrCreateTopic("top", pubsub.WithTTL(later))
				case 2:
					pubsub.BuildWithOption().GetOrCreateTopic("top", pubsub.WithTTL(later))
				}
				sleepMs(3000)
				rt.Check(mcredis.Get().Exists("top"), "ttl-early", "the topic is gone early")
				sleepMs(3000)
				rt.Check(mcredis.Get().Exists("top") == (ttl == 0), "ttl", "first life time %v: exists %v after 6 s", ttl, mcredis.Get().Exists("top"))
			}, long),
			S("expired", "a topic whose time is over is created again by whoever needs it next", 0, func() {
				redisUp()
				ctx := context.Background()
				pubsub.BuildWithOption().CreateTopic("top", pubsub.WithTTL(2*time.Second))
				sleepMs(2500)
				rt.Check(!mcredis.Get().Exists("top"), "ttl", "the topic outlives its time")
				ttl := []time.Duration{0, 3 * time.Second}[rt.Choose(2, "life time")]
				var opts []pubsub.TopicOption
				if ttl > 0 {
					opts = append(opts, pubsub.WithTTL(ttl))
				}
				t := pubsub.BuildWithOption().GetOrCreateTopic("top", opts...)
				rt.Check(mcredis.Get().Exists("top") && mcredis.Get().StreamLen("top") == 0, "created", "exists: %v, %d messages", mcredis.Get().Exists("top"), mcredis.Get().StreamLen("top"))
				rt.Check(has(mcredis.Get().Set(pubsub.BraidPubsubTopic), "top"), "listed", "the topic is not listed")
				c, err := t.Sub(ctx, "ch")
				rt.Check(err == nil, "sub", "%v", err)
				q := mpsc.New()
				c.Arrived(q)
				rt.Check(t.Pub(ctx, "ev", []byte("x")) == nil, "pub", "")
				sleepMs(100)
				m, _ := q.Pop().(*msg.Wrapper)
				rt.Check(m != nil && string(m.Req.Body) == "x", "queue", "%v", m)
				sleepMs(3500)
				rt.Check(mcredis.Get().Exists("top") == (ttl == 0), "ttl", "life time %v: exists %v", ttl, mcredis.Get().Exists("top"))
			}, long),
			S("close", "closing a topic removes it only when it is unused and empty", 0, func() {
				redisUp()
				ps := pubsub.BuildWithOption()
				t := ps.GetOrCreateTopic("top")
				msgs, sub := rt.Choose(2, "message"), rt.Choose(2, "subscriber")
				ctx := context.Background()
				if sub == 1 {
					_, err := t.Sub(ctx, "ch")
					rt.Check(err == nil, "sub", "%v", err)
				}
				if msgs == 1 {
					rt.Check(t.Pub(ctx, "ev", []byte("x")) == nil, "pub", "")
				}
				err := t.Close()
				rt.Check(err == nil, "close", "%v", err)
				keep := msgs == 1 || sub == 1
				rt.Check(mcredis.Get().Exists("top") == keep, "close", "messages %d, subscribers %d: exists %v", msgs, sub, mcredis.Get().Exists("top"))
				rt.Check(has(mcredis.Get().Set(pubsub.BraidPubsubTopic), "top") == keep, "close-list", "messages %d, subscribers %d", msgs, sub)
			}, long),
		}
	})

	// P05: channels that are closed.
	register("P05", func(tier string) []rt.Scenario {
		d := pick(tier, 2, 3)
		ctx := context.Background()
		open := func(t *pubsub.Topic, name string) (*pubsub.Channel, *mpsc.Queue) {
			c, err := t.Sub(ctx, name)
			rt.Check(err == nil, "sub", "%v", err)
			q := mpsc.New()
			c.Arrived(q)
			return c, q
		}
		take := func(qs ...*mpsc.Queue) []string {
			var l []string
			for _, q := range qs {
				for m, _ := q.Pop().(*msg.Wrapper); m != nil; m, _ = q.Pop().(*msg.Wrapper) {
					l = append(l, string(m.Req.Body))
				}
			}
			sort.Strings(l)
			return l
		}
		p := func(t *pubsub.Topic, body string) {
			rt.Check(t.Pub(ctx, "ev", []byte(body)) == nil, "pub", "%s", body)
		}
		topic := func() *pubsub.Topic {
			redisUp()
			return pubsub.BuildWithOption().GetOrCreateTopic("top")
		}
		groups := func() int { g, _ := mcredis.Client().XInfoGroups(ctx, "top").Result(); return len(g) }
		closeOK := func(c *pubsub.Channel) {
			err := c.Close()
			rt.Check(err == nil, "close", "%v", err)
		}
		return []rt.Scenario{
			S("alone", "the only subscriber of a channel closes it: nothing is passed on afterwards, the channel is gone and the topic can go", d, func() {
				t := topic()
				c, q := open(t, "ch")
				p(t, "0")
				sleepMs(rt.Choose(2, "pause") * 50)
				closeOK(c)
				got := take(q)
				rt.Check(len(got) <= 1, "extra", "%v", got)
				rt.Check(groups() == 0, "channel-left", "the channel is still there")
				sleepMs(200)
				p(t, "1")
				sleepMs(200)
				rt.Check(len(take(q)) == 0, "passed-after-close", "a message is passed on after Close returned")
				rt.Check(groups() == 0, "channel-left", "the channel is there again")
			}, long),
			S("alone-vs-pub", "messages are published while the only subscriber closes its channel", d, func() {
				t := topic()
				c, q := open(t, "ch")
				rt.Threads(func() { closeOK(c) }, func() { p(t, "0"); p(t, "1") })
				first := take(q)
				rt.Check(mcredis.Get().StreamLen("top") == 2-len(first), "retained", "%d of 2 messages passed on before Close returned, %d kept", len(first), mcredis.Get().StreamLen("top"))
				sleepMs(200)
				rt.Check(len(take(q)) == 0, "passed-after-close", "a message is passed on after Close returned (before: %v)", first)
				rt.Check(groups() == 0, "channel-left", "the channel is still there")
			}, long),
			S("shared", "one of two subscribers of a channel closes: the other gets what comes", d, func() {
				t := topic()
				a, qa := open(t, "ch")
				_, qb := open(t, "ch")
				sleepMs(20)
				p(t, "0")
				sleepMs(50)
				closeOK(a)
				rt.Check(groups() == 1, "channel-gone", "the channel of the other subscriber is gone")
				rt.Check(join(take(qa, qb)) == "0", "delivery", "message 0")
				p(t, "1")
				p(t, "2")
				sleepMs(200)
				rt.Check(len(take(qa)) == 0, "passed-after-close", "a message is passed on after Close returned")
				got := take(qb)
				rt.Check(join(got) == "1 2", "delivery", "the other subscriber gets %v", got)
			}, long),
			S("shared-vs-pub", "one of two subscribers of a channel closes while messages are published: each is passed on once", d, func() {
				t := topic()
				a, qa := open(t, "ch")
				_, qb := open(t, "ch")
				sleepMs(20)
				rt.Threads(func() { closeOK(a) }, func() { p(t, "0"); p(t, "1") })
				sleepMs(200)
				got := take(qa, qb)
				rt.Check(join(got) == "0 1", "delivery", "passed on: %v", got)
			}, long),
			S("others", "the other channels of the topic get every message", d, func() {
				t := topic()
				a, qa := open(t, "c1")
				_, qb := open(t, "c2")
				sleepMs(20)
				rt.Threads(func() { closeOK(a) }, func() { p(t, "0"); p(t, "1") })
				sleepMs(200)
				got := take(qb)
				rt.Check(join(got) == "0 1", "delivery", "the other channel gets %v", got)
				rt.Check(groups() == 1, "channel-left", "%d channels", groups())
				rt.Check(len(take(qa)) <= 2, "extra", "more than was published")
			}, long),
			S("both", "both subscribers of a channel close at once", d, func() {
				t := topic()
				a, qa := open(t, "ch")
				b, qb := open(t, "ch")
				sleepMs(20)
				rt.Threads(func() { a.Close() }, func() { b.Close() })
				rt.Check(groups() == 0, "channel-left", "the channel is still there")
				p(t, "0")
				sleepMs(200)
				rt.Check(len(take(qa, qb)) == 0, "passed-after-close", "a message is passed on")
			}, long),
			S("twice", "Close after Stop, and after Close", d, func() {
				t := topic()
				c, q := open(t, "ch")
				p(t, "0")
				if rt.Choose(2, "stop first") == 1 {
					c.Stop()
				}
				closeOK(c)
				c.Close()
				rt.Check(len(take(q)) <= 1 && groups() == 0, "channel-left", "%d channels", groups())
				rt.Check(rt.Elapsed() < time.Second, "hang", "took %v", rt.Elapsed())
			}, long),
			S("two-queues", "a channel object with two queues: each message goes to one of them, and Close ends both", d, func() {
				t := topic()
				c, q := open(t, "ch")
				r := mpsc.New()
				c.Arrived(r)
				p(t, "0")
				p(t, "1")
				sleepMs(100)
				got := take(q, r)
				rt.Check(join(got) == "0 1", "delivery", "%v", got)
				closeOK(c)
				rt.Check(rt.Elapsed() < time.Second && groups() == 0, "hang", "took %v, %d channels", rt.Elapsed(), groups())
				p(t, "2")
				sleepMs(100)
				rt.Check(len(take(q, r)) == 0, "passed-after-close", "a message is passed on after Close returned")
			}, long),
			S("store-faults", "the store fails while the channel is closed: nothing is passed on afterwards all the same", 0, func() {
				t := topic()
				c, q := open(t, "ch")
				p(t, "0")
				mcredis.EnableFaults(nil)
				err := c.Close()
				mcredis.DisableFaults()
				take(q)
				rt.Check(err != nil || groups() == 0, "channel-left", "Close reports success, the channel is still there")
				p(t, "1")
				sleepMs(200)
				rt.Check(len(take(q)) == 0, "passed-after-close", "a message is passed on after Close returned")
			}, faults(pick(tier, 1, 2)), long),
			S("again", "a channel is opened again after it was closed: it gets what is published from then on", d, func() {
				t := topic()
				c, q := open(t, "ch")
				sleepMs(20)
				closeOK(c)
				p(t, "missed")
				_, r := open(t, "ch")
				p(t, "0")
				sleepMs(200)
				got := take(r)
				rt.Check(join(got) == "0" && len(take(q)) == 0, "delivery", "%v", got)
			}, long),
		}
	})
}
