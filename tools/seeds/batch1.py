RTI="core/actor/actor_runtime_impl.go"; SYS="core/node/system_impl.go"; ACC="core/node/system_acceptor.go"
AB="core/addressbook/addressbook_impl.go"; RE="core/actor/actor_reenter_impl.go"; CH="core/actor/actor_chain.go"
PC="lib/pubsub/ps_channel.go"; MPSC="lib/mpsc/mpsc.go"
HEAD='''
package zzdemo

import (
	"context"
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/core/addressbook"
	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"
)

var _ = errors.New
var _ = fmt.Sprint
var _ addressbook.AddressBook
var _ context.Context
var _ core.ISystem
var _ actor.Future
var _ router.Message
var _ *msg.Wrapper
var _ time.Time
'''
BUGS=[]
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what_it_breaks=breaks, edits=edits, demo=HEAD+demo))

bug("mpsc-first-signal", "A01",
 "three or more messages queued while the actor is busy, and none afterwards",
 "The queue wakes its consumer only when the count becomes one, so with several messages pending the consumer goes to sleep after the first of them; the rest is handled only when something else arrives.",
 [(MPSC, "	if count > 0 {", "	if count == 1 {")],
 '''
func TestDemo(t *testing.T) {
	sys := newNode("n", 0, spec{ty: "t", weight: 1, init: func(a *demoActor) {}})
	var j journal
	gate := make(chan struct{})
	a := spawn(t, sys, "t", "a").(*demoActor)
	a.on("ev", func(mw *msg.Wrapper) error {
		if string(mw.Req.Body) == "0" {
			<-gate
		}
		j.add(string(mw.Req.Body))
		return nil
	})
	for i := 0; i < 5; i++ {
		m := msg.NewBuilder(context.Background()).WithReqBody([]byte(fmt.Sprint(i))).Build()
		if err := sys.Send("a", "t", "ev", m); err != nil {
			t.Fatal(err)
		}
	}
	time.Sleep(100 * time.Millisecond)
	close(gate)
	if !j.wait("0 1 2 3 4", 2*time.Second) {
		t.Fatalf("handled %v", j.String())
	}
}
''')

bug("panic-skips-done", "A02",
 "a handler that panics while a synchronous caller waits for it",
 "The message is marked as finished after the handler returned instead of in the deferred function, so the caller of a panicking handler waits until the call timeout.",
 [(RTI, '''						a.recovery(r)
					}

					mw.GetWg().Done()
				}()
''', '''						a.recovery(r)
					}
				}()
'''), (RTI, '''					log.WarnF("actor %v No handlers for message type: %s", a.Id, mw.Req.Header.Event)
				}
''', '''					log.WarnF("actor %v No handlers for message type: %s", a.Id, mw.Req.Header.Event)
				}
				mw.GetWg().Done()
''')],
 '''
func TestDemo(t *testing.T) {
	sys := newNode("n", 0, spec{ty: "t", weight: 1, init: func(a *demoActor) {
		a.on("bad", func(mw *msg.Wrapper) error { panic("bad") })
	}})
	spawn(t, sys, "t", "a")
	within(t, 2*time.Second, "a call of a panicking handler", func() { sys.Call("a", "t", "bad", newMsg()) })
}
''')

bug("done-kept", "A03",
 "one message object used for a second call after its first one has returned",
 "The completion channel of a message is created only once, so a second call with the same message object finds it closed and returns before its handler has run.",
 [(SYS, "		mw.Done = make(chan struct{})\n", "		if mw.Done == nil {\n			mw.Done = make(chan struct{})\n		}\n"),
  (SYS, "			close(mw.Done)\n		}()\n", "			select {\n			case <-mw.Done: // already released\n			default:\n				close(mw.Done)\n			}\n		}()\n")],
 '''
func TestDemo(t *testing.T) {
	sys := newNode("n", 0, spec{ty: "t", weight: 1, init: func(a *demoActor) {
		a.on("slow", func(mw *msg.Wrapper) error {
			time.Sleep(200 * time.Millisecond)
			mw.Res.Body = append([]byte("re "), mw.Req.Body...)
			return nil
		})
	}})
	spawn(t, sys, "t", "a")
	mw := newMsg()
	for _, b := range []string{"1", "2"} {
		mw.Req.Body = []byte(b)
		if err := sys.Call("a", "t", "slow", mw); err != nil {
			t.Fatal(err)
		}
		if got := string(mw.Res.Body); got != "re "+b {
			t.Fatalf("call %s returned with %q", b, got)
		}
	}
}
''')

bug("cancel-not-reported", "A04",
 "the caller's context ends before a slow handler does",
 "When the caller's context ends first, the call returns the error the message already had, which is none.",
 [(SYS, '''			if mw.Err != nil {
				timeoutErr = fmt.Errorf("%w: %v", mw.Err, timeoutErr)
			}
			mw.Err = timeoutErr
			return timeoutErr
''', '''			if mw.Err != nil {
				timeoutErr = fmt.Errorf("%w: %v", mw.Err, timeoutErr)
			}
			err := mw.Err
			mw.Err = timeoutErr
			return err
''')],
 '''
func TestDemo(t *testing.T) {
	sys := newNode("n", 0, spec{ty: "t", weight: 1, init: func(a *demoActor) {
		a.on("slow", func(mw *msg.Wrapper) error { time.Sleep(500 * time.Millisecond); return nil })
	}})
	spawn(t, sys, "t", "a")
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
	defer cancel()
	if err := sys.Call("a", "t", "slow", msg.NewBuilder(ctx).Build()); err == nil {
		t.Fatal("the call succeeded although its handler is still running")
	}
}
''')

bug("sender-overwritten", "A05",
 "a synchronous chain of three actors that comes back to its first one",
 "Every hop of a call records itself as the original sender, so the first actor of the chain no longer recognises that the chain has come back to it and the chain deadlocks.",
 [(RTI, '''	if mw.Req.Header.OrgActorID == "" { // Only record the original sender
		mw.Req.Header.OrgActorID = a.Id''', '''	if mw.Req.Header.OrgActorID != a.Id {
		mw.Req.Header.OrgActorID = a.Id''')],
 '''
func TestDemo(t *testing.T) {
	next := map[string]string{"a": "b", "b": "c", "c": "a"}
	errs := make(chan error, 10)
	sys := newNode("n", 0, spec{ty: "t", weight: 1, init: func(a *demoActor) {
		a.on("go", func(mw *msg.Wrapper) error {
			err := a.Call(next[a.ID()], "t", "go", mw)
			if err != nil {
				errs <- err
			}
			return err
		})
	}})
	for _, id := range []string{"a", "b", "c"} {
		spawn(t, sys, "t", id)
	}
	go sys.Call("a", "t", "go", newMsg())
	select {
	case <-errs:
	case <-time.After(2 * time.Second):
		t.Fatal("the ring was not refused")
	}
}
''')

bug("exit-not-awaited", "A07",
 "an actor is removed while one of its handlers runs",
 "Unregister starts the exit of the actor in the background and returns while its handler is still running.",
 [(SYS, "		actor.Exit()\n", "		go actor.Exit()\n")],
 '''
func TestDemo(t *testing.T) {
	var j journal
	started := make(chan struct{})
	sys := newNode("n", 0, spec{ty: "t", weight: 1, init: func(a *demoActor) {
		a.on("slow", func(mw *msg.Wrapper) error {
			close(started)
			time.Sleep(300 * time.Millisecond)
			j.add("handled")
			return nil
		})
	}})
	spawn(t, sys, "t", "a")
	sys.Send("a", "t", "slow", newMsg())
	<-started
	if err := sys.Unregister("a", "t"); err != nil {
		t.Fatal(err)
	}
	if j.String() != "handled" {
		t.Fatal("Unregister returned while a handler was running")
	}
}
''')

bug("timer-dies-on-error", "A08",
 "a timer callback that returns an error once",
 "A timer whose callback returns an error is stopped.",
 [(RTI, "if err := timerInfo.Execute(); err != nil {", "if err := timerInfo.Execute(); err != nil && timerInfo.Stop() {")],
 '''
func TestDemo(t *testing.T) {
	fired := make(chan int, 100)
	sys := newNode("n", 0, spec{ty: "t", weight: 1, init: func(a *demoActor) {
		n := 0
		a.OnTimer(0, 20, func(interface{}) error {
			n++
			fired <- n
			if n == 2 {
				return errors.New("once")
			}
			return nil
		}, nil)
	}})
	spawn(t, sys, "t", "a")
	for i := 0; i < 5; i++ {
		select {
		case <-fired:
		case <-time.After(2 * time.Second):
			t.Fatalf("the timer stopped after %d ticks", i)
		}
	}
}
''')

bug("reset-keeps-ticker", "A09",
 "a timer is stopped and then reset to a longer interval between its ticks",
 "Reset activates the timer without storing its new interval, so a stopped timer goes on with its old one.",
 [("core/actor/actor_timer.go", '''		t.interval = interval
	}
''', '''		if t.active.Load() {
			t.interval = interval
		}
	}
''')],
 '''
func TestDemo(t *testing.T) {
	var tm core.ITimer
	fired := make(chan time.Time, 100)
	sys := newNode("n", 0, spec{ty: "t", weight: 1, init: func(a *demoActor) {
		tm = a.OnTimer(0, 50, func(interface{}) error { fired <- time.Now(); return nil }, nil)
	}})
	spawn(t, sys, "t", "a")
	<-fired
	tm.Stop()
	time.Sleep(100 * time.Millisecond)
	for len(fired) > 0 {
		<-fired
	}
	tm.Reset(400 * time.Millisecond)
	start := time.Now()
	select {
	case at := <-fired:
		if d := at.Sub(start); d < 300*time.Millisecond {
			t.Fatalf("fired %v after it was reset to 400ms", d)
		}
	case <-time.After(3 * time.Second):
		t.Fatal("the timer never fired after Reset")
	}
}
''')

bug("future-chain-order", "A10",
 "a chain of callbacks whose first one takes time",
 "A chained future is completed before the callback it depends on has run, so the second callback of a chain runs during or before the first.",
 [(RE, '''		callback(mw)
		newFuture.Complete(mw)
''', '''		newFuture.Complete(mw)
		callback(mw)
''')],
 '''
func TestDemo(t *testing.T) {
	var j journal
	f := actor.NewFuture()
	f.Then(func(*msg.Wrapper) { time.Sleep(200 * time.Millisecond); j.add("first") }).Then(func(*msg.Wrapper) { j.add("second") })
	f.Complete(newMsg())
	j.wait("first second", 2*time.Second)
	if j.String() != "first second" {
		t.Fatalf("ran as %q", j.String())
	}
}
''')

bug("reenter-shares-group", "A11",
 "a reentrant call made by a handler that is itself waited for, with a message built from its context",
 "The reentrant call keeps the wait group of the message it was made from, so it counts as part of the running call, returns before the callee has answered and completes its future without a response.",
 [("router/msg/msg.go", "	ctx := context.WithValue(mw.Ctx, WaitGroupKey{}, &warpwaitgroup.WrapWaitGroup{})\n\n	return &Wrapper{",
   "	ctx := mw.Ctx\n	if mw.GetWg() == nil {\n		ctx = context.WithValue(mw.Ctx, WaitGroupKey{}, &warpwaitgroup.WrapWaitGroup{})\n	}\n\n	return &Wrapper{")],
 '''
func TestDemo(t *testing.T) {
	got := make(chan string, 1)
	sys := newNode("n", 0,
		spec{ty: "callee", weight: 1, init: func(a *demoActor) {
			a.on("ask", func(mw *msg.Wrapper) error {
				time.Sleep(200 * time.Millisecond)
				mw.Res.Body = []byte("answer")
				return nil
			})
		}},
		spec{ty: "caller", weight: 1, init: func(a *demoActor) {
			a.on("go", func(mw *msg.Wrapper) error {
				a.ReenterCall("b", "callee", "ask", msg.NewBuilder(mw.Ctx).Build()).Then(func(ret *msg.Wrapper) {
					s := ""
					if ret.Res != nil {
						s = string(ret.Res.Body)
					}
					got <- s
				})
				time.Sleep(100 * time.Millisecond)
				return nil
			})
		}})
	spawn(t, sys, "callee", "b")
	spawn(t, sys, "caller", "a")
	sys.Call("a", "caller", "go", newMsg())
	select {
	case s := <-got:
		if s != "answer" {
			t.Fatalf("the future completed with %q", s)
		}
	case <-time.After(3 * time.Second):
		t.Fatal("the future never completed")
	}
}
''')

bug("after-goes-on", "A12",
 "two middlewares after the handler, the first of which fails",
 "The middlewares after the handler all run even when one of them returned an error.",
 [(CH, '''		err = after(mw)
		if err != nil {
			goto ext
		}
''', '''		if aerr := after(mw); aerr != nil {
			err = aerr
		}
''')],
 '''
func TestDemo(t *testing.T) {
	var j journal
	c := &actor.DefaultChain{
		Handler: func(*msg.Wrapper) error { j.add("handler"); return nil },
		After: []actor.EventHandler{
			func(*msg.Wrapper) error { j.add("after1"); return errors.New("stop") },
			func(*msg.Wrapper) error { j.add("after2"); return nil },
		},
	}
	if err := c.Execute(newMsg()); err == nil {
		t.Fatal("no error")
	}
	if j.String() != "handler after1" {
		t.Fatalf("ran %q", j.String())
	}
}
''')

bug("pick-limit", "S05",
 "actors of a type on at least three nodes of different weight, addressed by wildcard",
 "A wildcard looks at two randomly chosen actors of the type only, so the message often does not go to the lightest node.",
 [(AB, "	PickLimit          = 10\n", "	PickLimit          = 2\n")],
 '''
func TestDemo(t *testing.T) {
	var nodes []core.ISystem
	for i := 0; i < 5; i++ {
		nodes = append(nodes, newNode(fmt.Sprint("n", i), 0, spec{ty: "t", weight: 1}, spec{ty: "heavy", weight: 100 * (5 - i)}))
		spawn(t, nodes[i], "t", fmt.Sprint("a", i))
		spawn(t, nodes[i], "heavy", fmt.Sprint("h", i))
	}
	for i := 0; i < 60; i++ {
		ai, err := nodes[0].AddressBook().(*addressbook.AddressBook).GetWildcardActor(context.Background(), "t")
		if err != nil {
			t.Fatal(err)
		}
		if ai.ActorId != "a4" {
			t.Fatalf("picked %s, the lightest node has a4", ai.ActorId)
		}
	}
}
''')

bug("response-body-only", "S06",
 "a remote handler that answers in the header of the response",
 "Only the body of a remote response reaches the caller; custom fields of its header are lost.",
 [(SYS, "	mw.Res = res.Msg\n", "	mw.Res.Body = res.Msg.Body\n")],
 '''
func TestDemo(t *testing.T) {
	sp := spec{ty: "t", weight: 1, init: func(a *demoActor) {
		a.on("ask", func(mw *msg.Wrapper) error {
			mw.Res.Header.Custom = []byte("custom")
			mw.Res.Body = []byte("body")
			return nil
		})
	}}
	n1, n2 := newNode("n1", freePort(), sp), newNode("n2", freePort(), sp)
	time.Sleep(100 * time.Millisecond)
	spawn(t, n2, "t", "a")
	mw := newMsg()
	if err := n1.Call("a", "t", "ask", mw); err != nil {
		t.Fatal(err)
	}
	if string(mw.Res.Body) != "body" || string(mw.Res.Header.Custom) != "custom" {
		t.Fatalf("response %q %q", mw.Res.Body, mw.Res.Header.Custom)
	}
}
''')

bug("empty-body-skipped", "P01",
 "a published message with an empty body",
 "A subscription skips messages whose body is empty.",
 [(PC, '''					val := msg.Values["msg"].(string)
''', '''					val, _ := msg.Values["msg"].(string)
					if val == "" {
						continue
					}
''')],
 '''
func TestDemo(t *testing.T) {
	var j journal
	sys := newNode("n", 0, spec{ty: "t", weight: 1, init: func(a *demoActor) {
		a.Sub("top", "ev", func(core.ActorContext) core.IChain {
			return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error { j.add("[" + string(mw.Req.Body) + "]"); return nil }}
		})
	}})
	spawn(t, sys, "t", "a")
	for _, b := range []string{"x", "", "y"} {
		if err := sys.Pub("top", "ev", []byte(b)); err != nil {
			t.Fatal(err)
		}
	}
	if !j.wait("[x] [] [y]", 3*time.Second) {
		t.Fatalf("handled %v", j.String())
	}
}
''')

bug("close-with-messages", "P04",
 "a topic that holds messages but has no subscriber is closed",
 "Closing a topic without subscribers removes it together with the messages that wait in it.",
 [("lib/pubsub/ps_topic.go", "CLOSE_OLD", "CLOSE_NEW")],
 '''
func TestDemo(t *testing.T) {}
''')
BUGS.pop()
