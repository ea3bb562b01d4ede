import os
exec(open(os.path.join("/verif/tools/seeds", "batch1.py")).read().split("BUGS=[]")[0])
HEAD = HEAD.replace('''	"testing"
''','''	"sync"
	"testing"
''').replace('''	"github.com/pojol/braid/core"
''', '''	trdredis "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/core"
''').replace('''	"github.com/pojol/braid/router"
''', '''	"github.com/pojol/braid/lib/dismutex"
	"github.com/pojol/braid/lib/grpc"
	"github.com/pojol/braid/lib/mpsc"
	"github.com/pojol/braid/lib/pubsub"
	"github.com/pojol/braid/lib/unbounded"
	"github.com/pojol/braid/router"
''') + '''
var _ = trdredis.Get
var _ = dismutex.Lock
var _ *grpc.Client
var _ *mpsc.Queue
var _ sync.Mutex
var _ *pubsub.Pubsub
var _ *unbounded.Unbounded
'''
PM="lib/pubsub/ps_mgr.go"; PT="lib/pubsub/ps_topic.go"; GC="lib/grpc/client.go"; DM="lib/dismutex/dismutex.go"; UB="lib/unbounded/unbounded.go"; MSG="router/msg/msg.go"; CM="router/msg/msg_custom_map.go"
BUGS=[]
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what_it_breaks=breaks, edits=edits, demo=HEAD+demo))

bug("clear-by-address", "S09",
 "two nodes on one machine, one of which leaves while the other runs an actor of a type both have",
 "A node that leaves removes the records of all nodes with its address, so the actors of its neighbours cannot be found any more.",
 [(AB, "if actor.Node == ab.NodeID {\n				log", "if actor.Ip == ab.Ip {\n				log")],
 '''
func TestDemo(t *testing.T) {
	sp := spec{ty: "t", weight: 1, init: func(a *demoActor) {}}
	n1, n2 := newNode("n1", freePort(), sp), newNode("n2", freePort(), sp)
	spawn(t, n1, "t", "a")
	spawn(t, n2, "t", "b")
	if err := n1.AddressBook().(*addressbook.AddressBook).Clear(context.Background()); err != nil {
		t.Fatal(err)
	}
	if ai, err := n1.AddressBook().GetByID(context.Background(), "b"); err != nil || ai.Node != "n2" {
		t.Fatalf("b runs on n2, the address book says %v %v", ai, err)
	}
}
''')

bug("weights-as-text", "S12",
 "nodes whose weights have a different number of digits",
 "A wildcard compares the weights of the nodes as texts, so a node of weight 10 is taken to be lighter than one of weight 9.",
 [(AB, '''		if nodeWeight < lowestWeight {
''', '''		if strconv.Itoa(nodeWeight) < strconv.Itoa(lowestWeight) || lowestWeightAddr.Node == "" {
''')],
 '''
func TestDemo(t *testing.T) {
	n1, n2 := newNode("n1", 0, spec{ty: "t", weight: 9}), newNode("n2", 0, spec{ty: "t", weight: 10})
	spawn(t, n1, "t", "a")
	spawn(t, n2, "t", "b")
	for i := 0; i < 10; i++ {
		ai, err := n1.AddressBook().(*addressbook.AddressBook).GetWildcardActor(context.Background(), "t")
		if err != nil || ai.ActorId != "a" {
			t.Fatalf("picked %v %v, the lighter node has a", ai, err)
		}
	}
}
''')

bug("wildcard-send-waits", "S07",
 "a send by wildcard whose pick runs on the sender's own node and is busy",
 "A send by wildcard waits for the handler if the actor happens to be local.",
 [(SYS, '''		if ok {
			return actor.Received(mw)
		}
	case def.SymbolLocalFirst:''', '''		if ok {
			return sys.localCall(actor, mw)
		}
	case def.SymbolLocalFirst:''')],
 '''
func TestDemo(t *testing.T) {
	sys := newNode("n", 0, spec{ty: "t", weight: 1, init: func(a *demoActor) {
		a.on("slow", func(mw *msg.Wrapper) error { time.Sleep(time.Second); return nil })
	}})
	spawn(t, sys, "t", "a")
	s := time.Now()
	if err := sys.Send("?", "t", "slow", newMsg()); err != nil {
		t.Fatal(err)
	}
	if d := time.Since(s); d > 500*time.Millisecond {
		t.Fatalf("the send takes %v", d)
	}
}
''')

bug("recovery-when-traced", "S08",
 "a request without message or header that reaches a node which is not traced",
 "The acceptor recovers from panics only if the node has a tracer; without one a malformed request ends the process.",
 [(ACC, '''	unaryInterceptors = append(unaryInterceptors,
		grpc_recovery.UnaryServerInterceptor(grpc_recovery.WithRecoveryHandler(recoverHandler)))

	if trac != nil && trac.GetTracing() != nil {
''', '''	if trac != nil && trac.GetTracing() != nil {
		unaryInterceptors = append(unaryInterceptors,
			grpc_recovery.UnaryServerInterceptor(grpc_recovery.WithRecoveryHandler(recoverHandler)))
''')],
 '''
func TestDemo(t *testing.T) {
	sp := spec{ty: "t", weight: 1, init: func(a *demoActor) { a.on("ev", func(mw *msg.Wrapper) error { return nil }) }}
	port := freePort()
	n := newNode("n", port, sp)
	spawn(t, n, "t", "a")
	time.Sleep(100 * time.Millisecond)
	c := grpc.BuildClientWithOption()
	addr := fmt.Sprintf("127.0.0.1:%d", port)
	for _, m := range []*router.Message{nil, {}} {
		if err := c.CallWait(context.Background(), addr, "/router.Acceptor/routing", &router.RouteReq{Msg: m}, &router.RouteRes{}); err == nil {
			t.Fatal("a request without header is accepted")
		}
	}
	h := &router.Header{TargetActorID: "a", TargetActorType: "t", Event: "ev"}
	if err := c.CallWait(context.Background(), addr, "/router.Acceptor/routing", &router.RouteReq{Msg: &router.Message{Header: h}}, &router.RouteRes{}); err != nil {
		t.Fatal(err)
	}
}
''')

bug("backoff-kept", "S11",
 "a node that was away for several seconds and comes back",
 "The connection to a node that was away keeps its backoff, so calls go on failing for seconds or minutes after the node is back.",
 [(GC, '''	if conn.GetState() == connectivity.TransientFailure {
''', '''	if conn.GetState() == connectivity.Shutdown {
''')],
 '''
func TestDemo(t *testing.T) {
	sp := spec{ty: "t", weight: 1, init: func(a *demoActor) { a.on("ev", func(mw *msg.Wrapper) error { return nil }) }}
	port := freePort()
	n1 := newNode("n1", freePort(), sp)
	start := func() (stop func()) {
		n := newNode("n2", port, sp)
		spawn(t, n, "t", "a")
		time.Sleep(100 * time.Millisecond)
		return func() { n.Exit(new(sync.WaitGroup)) }
	}
	stop := start()
	if err := n1.Call("a", "t", "ev", newMsg()); err != nil {
		t.Fatal(err)
	}
	stop()
	c := grpc.BuildClientWithOption()
	call := func() error {
		ctx, cancel := context.WithTimeout(context.Background(), 500*time.Millisecond)
		defer cancel()
		h := &router.Header{TargetActorID: "a", TargetActorType: "t", Event: "ev"}
		return c.CallWait(ctx, fmt.Sprintf("127.0.0.1:%d", port), "/router.Acceptor/routing", &router.RouteReq{Msg: &router.Message{Header: h}}, &router.RouteRes{})
	}
	// away for a while, nobody calls
	for i := 0; i < 2; i++ {
		if call() == nil {
			t.Fatal("the node is away")
		}
	}
	time.Sleep(12 * time.Second)
	start()
	end := time.Now().Add(1500 * time.Millisecond)
	for {
		err := call()
		if err == nil {
			return
		}
		if time.Now().After(end) {
			t.Fatalf("the node has been back for 1.5 s: %v", err)
		}
		time.Sleep(50 * time.Millisecond)
	}
}
''')

bug("consumer-named-like-channel", "P05",
 "two subscribers of one channel of which one closes",
 "All subscribers of a channel are one consumer, so closing one of them removes the channel under the others.",
 [(PC, "consumer: uuid.New().String(),", "consumer: channel,"), (PC, '	"github.com/google/uuid"\n', '')],
 '''
func TestDemo(t *testing.T) {
	ps := pubsub.BuildWithOption()
	top := ps.GetOrCreateTopic("demo-topic")
	sub := func() (*pubsub.Channel, *mpsc.Queue) {
		c, err := top.Sub(context.Background(), "ch")
		if err != nil {
			t.Fatal(err)
		}
		q := mpsc.New()
		c.Arrived(q)
		return c, q
	}
	a, qa := sub()
	_, q := sub()
	has := func(q *mpsc.Queue) bool { return q.Count() > 0 }
	for i := 0; i < 2000 && !(has(qa) && has(q)); i++ { // the store knows a consumer once it has read something
		top.Pub(context.Background(), "ev", []byte("x"))
		time.Sleep(3 * time.Millisecond)
	}
	time.Sleep(100 * time.Millisecond)
	for q.Pop() != nil {
	}
	a.Close()
	if gs, err := trdredis.XInfoGroups(context.Background(), "demo-topic").Result(); err != nil || len(gs) != 1 {
		t.Fatalf("the channel of the other subscriber is gone: %v %v", gs, err)
	}
	if err := top.Pub(context.Background(), "ev", []byte("x")); err != nil {
		t.Fatal(err)
	}
	time.Sleep(500 * time.Millisecond)
	if q.Pop() == nil {
		t.Fatal("the other subscriber gets nothing")
	}
}
''')

bug("topic-created-twice", "P04",
 "two goroutines of a node that create one topic at the same time",
 "A topic that two goroutines create at once gets two objects, the second of which replaces the first.",
 [(PM, '''	nps.Lock()
	defer nps.Unlock()

	// Check again in case another goroutine created the topic
	if t, ok := nps.topicMap[name]; ok {
		return t
	}

	t := newTopic(name, nps, opts...)
''', '''	if t := nps.GetTopic(name); t != nil {
		return t
	}

	t := newTopic(name, nps, opts...) // talks to the store, not under the lock

	nps.Lock()
	defer nps.Unlock()
''')],
 '''
func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		ps := pubsub.BuildWithOption()
		var r [8]*pubsub.Topic
		gate := make(chan struct{})
		var wg sync.WaitGroup
		for k := range r {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				r[k] = ps.GetOrCreateTopic(fmt.Sprint("demo", i))
			}()
		}
		close(gate)
		wg.Wait()
		for _, x := range r {
			if x != r[0] {
				t.Fatalf("two objects for one topic (round %d)", i)
			}
		}
	}
}
''')

bug("put-passes-backlog", "L02",
 "a value put after the reader has received one and before it has loaded the next",
 "Put prefers the empty channel to the backlog, so a later value overtakes earlier ones.",
 [(UB, '''	if len(b.backlog) == 0 {
		select {
		case b.c <- t:
			b.Unlock()
			return
		default:
		}
	}
''', '''	select {
	case b.c <- t:
		b.Unlock()
		return
	default:
	}
''')],
 '''
func TestDemo(t *testing.T) {
	u := unbounded.NewUnbounded()
	u.Put(1)
	u.Put(2)
	got := []interface{}{<-u.Get()}
	u.Put(3)
	u.Load()
	for len(got) < 3 {
		select {
		case v := <-u.Get():
			got = append(got, v)
			u.Load()
		case <-time.After(time.Second):
			t.Fatalf("only %v", got)
		}
	}
	if fmt.Sprint(got) != "[1 2 3]" {
		t.Fatalf("received %v", got)
	}
}
''')

bug("unlock-any", "L03",
 "a holder whose lock expired and was taken by another before it unlocks",
 "Unlock releases the lock whoever holds it now.",
 [(DM, 'if redis.call("get", KEYS[1]) == ARGV[1] then', 'if redis.call("exists", KEYS[1]) == 1 then')],
 '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	a, err := dismutex.Lock(ctx, "demo-lock")
	if err != nil {
		t.Fatal(err)
	}
	store.FastForward(time.Hour)
	b, err := dismutex.Lock(ctx, "demo-lock")
	if err != nil {
		t.Fatal(err)
	}
	if dismutex.Unlock(ctx, "demo-lock", a) {
		t.Fatal("the former holder releases the lock of the new one")
	}
	if !dismutex.Unlock(ctx, "demo-lock", b) {
		t.Fatal("the holder cannot release its lock")
	}
}
''')

bug("slot-lost-on-error", "L05",
 "as many calls to unknown addresses as the client has slots",
 "A call that finds no connection keeps its slot, so after enough of them every call blocks.",
 [(GC, '''		defer func() { <-c.workers }() // 释放工作槽
''', ''), (GC, '''	g, gCtx := errgroup.WithContext(ctx)
''', '''	defer func() { <-c.workers }() // 释放工作槽
	g, gCtx := errgroup.WithContext(ctx)
''')],
 '''
func TestDemo(t *testing.T) {
	port := freePort()
	sp := spec{ty: "t", weight: 1, init: func(a *demoActor) { a.on("ev", func(mw *msg.Wrapper) error { return nil }) }}
	n := newNode("n", port, sp)
	spawn(t, n, "t", "a")
	time.Sleep(100 * time.Millisecond)
	addr := fmt.Sprintf("127.0.0.1:%d", port)
	c := grpc.BuildClientWithOption(grpc.WithClientConns([]string{addr}))
	c.Init()
	call := func(addr string) error {
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		defer cancel()
		h := &router.Header{TargetActorID: "a", TargetActorType: "t", Event: "ev"}
		return c.Call(ctx, addr, "/router.Acceptor/routing", &router.RouteReq{Msg: &router.Message{Header: h}}, &router.RouteRes{})
	}
	if err := call(addr); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 5000; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Millisecond)
		c.Call(ctx, "nowhere:1", "/router.Acceptor/routing", &router.RouteReq{}, &router.RouteRes{})
		cancel()
	}
	if err := call(addr); err != nil {
		t.Fatal(err)
	}
}
''')

bug("request-header-shared", "A06",
 "two messages built from one header, the second sent before the first is handled",
 "A message takes over the header it is built with instead of copying it, so routing the one changes the event and target of the other.",
 [(MSG, "	if b.wrapper.Req.Header != nil && h != nil {\n", "	if b.wrapper.Req.Header != nil && h == nil {\n		h = &router.Header{}\n")],
 '''
func TestDemo(t *testing.T) {
	var j journal
	gate := make(chan struct{})
	sys := newNode("n", 0, spec{ty: "t", weight: 1, init: func(a *demoActor) {
		a.on("one", func(mw *msg.Wrapper) error { <-gate; j.add("one"); return nil })
		a.on("two", func(mw *msg.Wrapper) error { j.add("two"); return nil })
	}})
	spawn(t, sys, "t", "a")
	h := &router.Header{Token: "x"}
	sys.Send("a", "t", "one", newMsg())
	for i := 0; i < 2; i++ {
		ev := []string{"one", "two"}[i]
		if err := sys.Send("a", "t", ev, msg.NewBuilder(context.Background()).WithReqHeader(h).Build()); err != nil {
			t.Fatal(err)
		}
	}
	close(gate)
	if !j.wait("one one two", 2*time.Second) {
		t.Fatal("handled: ", j.String())
	}
}
''')

bug("fields-of-last-step", "L08",
 "custom fields written to a response in more than one step",
 "Fields that are added to a response replace the ones that are there.",
 [(CM, '''	if len(b.wrapper.Res.Header.Custom) > 0 {
		if err''', '''	if len(b.wrapper.Res.Header.Custom) > 0 && len(attrs) == 0 {
		if err''')],
 '''
func TestDemo(t *testing.T) {
	b := msg.NewBuilder(context.Background()).WithResCustomFields(msg.Attr{Key: "a", Value: 1})
	mw := b.WithResCustomFields(msg.Attr{Key: "b", Value: "x"}).Build()
	if msg.GetResCustomField[int](mw, "a") != 1 || msg.GetResCustomField[string](mw, "b") != "x" {
		t.Fatal("a field is lost")
	}
}
''')
