// Package netconf is a series of calls over grpc whose results are known. It is compiled
// twice: instrumented, where it talks to the model of the network, and plainly, where it
// talks to grpc-go over the loopback interface. Both have to give the same results.
package netconf

import (
	"context"
	"errors"
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/pojol/braid/router"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
)

type srv struct {
	router.UnimplementedAcceptorServer
	mu    sync.Mutex
	log   []string
	enter chan struct{} // told when a "wait" handler begins
	leave chan struct{} // lets "hold" handlers go
	ended chan string   // what ended a "wait" handler
}

type key struct{}

func (s *srv) Routing(ctx context.Context, req *router.RouteReq) (*router.RouteRes, error) {
	if req.Msg == nil {
		return nil, errors.New("no message")
	}
	switch ev := string(req.Msg.Body); {
	case ev == "plain error":
		return nil, errors.New("it failed")
	case ev == "status error":
		return nil, status.Error(codes.NotFound, "not there")
	case ev == "context error":
		return nil, context.DeadlineExceeded
	case ev == "wrapped":
		return nil, fmt.Errorf("outer: %w", status.Error(codes.NotFound, "inner"))
	case ev == "empty":
		return &router.RouteRes{}, nil
	case ev == "metadata":
		md, _ := metadata.FromIncomingContext(ctx)
		_, dl := ctx.Deadline()
		out, _ := metadata.FromOutgoingContext(ctx)
		return echo(fmt.Sprint(md.Get("k"), md.Get("K2"), dl, ctx.Value(key{}) != nil, len(out))), nil
	case ev == "wait":
		s.enter <- struct{}{}
		<-ctx.Done()
		s.ended <- ctx.Err().Error()
		return nil, ctx.Err()
	case ev == "hold":
		s.enter <- struct{}{}
		<-s.leave
		return echo("held"), nil
	case ev == "panic":
		panic("boom")
	case strings.HasPrefix(ev, "big"):
		return echo(strings.Repeat("x", 5<<20)), nil
	default:
		return echo(ev), nil
	}
}

func echo(s string) *router.RouteRes {
	return &router.RouteRes{Msg: &router.Message{Body: []byte(s)}}
}

func show(err error) string {
	if err == nil {
		return "ok"
	}
	s := status.Convert(err)
	m := s.Message()
	if s.Code() == codes.Unavailable || s.Code() == codes.Canceled || s.Code() == codes.DeadlineExceeded || s.Code() == codes.Unimplemented || s.Code() == codes.ResourceExhausted || s.Code() == codes.Internal {
		m = "" // worded differently by the model
	}
	return strings.TrimSpace(s.Code().String() + " " + m)
}

// Want is what both have to give.
var Want = []string{
	"refused: Unavailable",
	"port in use: error",
	"hello: hello ok",
	": ok",
	"plain error: Unknown it failed",
	"status error: NotFound not there",
	"context error: DeadlineExceeded",
	"wrapped: NotFound outer: rpc error: code = NotFound desc = inner",
	"empty: ok",
	"panic: Unknown recovered boom",
	"big: ResourceExhausted",
	"order: c1 /router.Acceptor/routing s1 /router.Acceptor/Routing 18",
	"metadata: [a b] [c] true false 0 ok",
	"no deadline: [a] [] false false 0 ok",
	"unknown method: Unimplemented",
	"unknown service: Unimplemented",
	"empty request: Unknown no message",
	"not a message: Internal",
	"no reply object: Internal",
	"reply reset: true ok",
	"too long: ResourceExhausted",
	"deadline: DeadlineExceeded true",
	"cancelled: Canceled context canceled",
	"cancelled before: Canceled",
	"deadline before: DeadlineExceeded",
	"meanwhile: quick ok",
	"stop waits: true",
	"while stopping: Unavailable",
	"held: held ok",
	"serve ends: <nil>",
	"stopped: Unavailable",
	"again: again ok",
	"hard stop: Unavailable",
	"handler: context canceled",
	"serve ends: <nil>",
	"closed connection: Canceled",
	"serve on a stopped server: true",
}

// Outcomes runs the calls against servers on two consecutive free ports.
func Outcomes(port int) (out []string) {
	say := func(name string, v ...interface{}) {
		out = append(out, name+": "+strings.TrimSpace(fmt.Sprintln(v...)))
	}
	addr := fmt.Sprintf("127.0.0.1:%d", port)
	var order []string
	var omu sync.Mutex
	step := func(s string) { omu.Lock(); order = append(order, s); omu.Unlock() }
	si := func(n string) grpc.UnaryServerInterceptor {
		return func(ctx context.Context, req interface{}, info *grpc.UnaryServerInfo, h grpc.UnaryHandler) (r interface{}, err error) {
			step("s" + n + " " + info.FullMethod)
			defer func() {
				if p := recover(); p != nil {
					err = fmt.Errorf("recovered %v", p)
				}
			}()
			return h(ctx, req)
		}
	}
	ci := func(n string) grpc.UnaryClientInterceptor {
		return func(ctx context.Context, m string, req, rep interface{}, cc *grpc.ClientConn, inv grpc.UnaryInvoker, o ...grpc.CallOption) error {
			step("c" + n + " " + m)
			return inv(ctx, m, req, rep, cc, o...)
		}
	}
	start := func(opts ...grpc.ServerOption) (*grpc.Server, *srv, chan error) {
		h := &srv{enter: make(chan struct{}, 8), leave: make(chan struct{}, 8), ended: make(chan string, 8)}
		l, err := net.Listen("tcp", addr)
		if err != nil {
			panic(err)
		}
		g := grpc.NewServer(opts...)
		router.RegisterAcceptorServer(g, h)
		done := make(chan error, 1)
		go func() { done <- g.Serve(l) }()
		return g, h, done
	}
	dial := func(opts ...grpc.DialOption) *grpc.ClientConn {
		cc, err := grpc.DialContext(context.Background(), addr, append(opts, grpc.WithTransportCredentials(insecure.NewCredentials()))...)
		if err != nil {
			panic(err)
		}
		return cc
	}
	call := func(cc *grpc.ClientConn, ctx context.Context, ev string) (string, error) {
		res := &router.RouteRes{}
		err := cc.Invoke(ctx, "/router.Acceptor/routing", &router.RouteReq{Msg: &router.Message{Header: &router.Header{ID: "1"}, Body: []byte(ev)}}, res)
		if err != nil || res.Msg == nil {
			return "", err
		}
		return string(res.Msg.Body), err
	}
	ctx := context.Background()
	long, cl := context.WithTimeout(ctx, 20*time.Second)
	defer cl()

	// nobody listens
	cc := dial()
	_, err := call(cc, long, "x")
	say("refused", show(err))
	cc.Close()

	g, h, done := start(grpc.UnaryInterceptor(si("1")))
	if _, err := net.Listen("tcp", addr); err != nil {
		say("port in use", "error")
	}
	cc = dial(grpc.WithUnaryInterceptor(ci("1")))
	for _, ev := range []string{"hello", "", "plain error", "status error", "context error", "wrapped", "empty", "panic", "big"} {
		r, err := call(cc, long, ev)
		say(ev, r, show(err))
	}
	say("order", order[0], order[1], len(order))

	r, err := call(cc, metadata.AppendToOutgoingContext(context.WithValue(long, key{}, 1), "k", "a", "k", "b", "K2", "c"), "metadata")
	say("metadata", r, show(err))
	r, err = call(cc, metadata.AppendToOutgoingContext(ctx, "k", "a"), "metadata")
	say("no deadline", r, show(err))

	say("unknown method", show(cc.Invoke(long, "/router.Acceptor/other", &router.RouteReq{}, &router.RouteRes{})))
	say("unknown service", show(cc.Invoke(long, "/other.Acceptor/routing", &router.RouteReq{}, &router.RouteRes{})))
	say("empty request", show(cc.Invoke(long, "/router.Acceptor/routing", &router.RouteReq{}, &router.RouteRes{})))
	say("not a message", show(cc.Invoke(long, "/router.Acceptor/routing", 7, &router.RouteRes{})))
	say("no reply object", show(cc.Invoke(long, "/router.Acceptor/routing", &router.RouteReq{Msg: &router.Message{Body: []byte("x")}}, nil)))
	res := &router.RouteRes{Msg: &router.Message{Body: []byte("old")}}
	err = cc.Invoke(long, "/router.Acceptor/routing", &router.RouteReq{Msg: &router.Message{Body: []byte("empty")}}, res)
	say("reply reset", res.Msg == nil, show(err))
	say("too long", show(cc.Invoke(long, "/router.Acceptor/routing", &router.RouteReq{Msg: &router.Message{Body: make([]byte, 5<<20)}}, &router.RouteRes{})))

	// the caller gives up: it returns at once, the handler sees it
	c1, cancel := context.WithTimeout(ctx, 300*time.Millisecond)
	_, err = call(cc, c1, "wait")
	<-h.enter
	e := <-h.ended
	say("deadline", show(err), e == context.DeadlineExceeded.Error() || e == context.Canceled.Error())
	cancel()
	c2, cancel := context.WithCancel(ctx)
	go func() { <-h.enter; cancel() }()
	_, err = call(cc, c2, "wait")
	say("cancelled", show(err), <-h.ended)
	_, err = call(cc, c2, "x")
	say("cancelled before", show(err))
	c3, cancel := context.WithDeadline(ctx, time.Now().Add(-time.Second))
	_, err = call(cc, c3, "x")
	say("deadline before", show(err))
	cancel()

	// two calls at once, answered in the other order
	type ans struct {
		r   string
		err error
	}
	a := make(chan ans, 4)
	go func() { r, err := call(cc, long, "hold"); a <- ans{r, err} }()
	<-h.enter
	r, err = call(cc, long, "quick")
	say("meanwhile", r, show(err))

	// graceful stop: waits for the call, refuses others
	stopped := make(chan struct{})
	go func() { g.GracefulStop(); close(stopped) }()
	time.Sleep(20 * time.Millisecond)
	select {
	case <-stopped:
		say("stop waits", false)
	case <-time.After(100 * time.Millisecond):
		say("stop waits", true)
	}
	cc2 := dial()
	_, err = call(cc2, long, "x")
	say("while stopping", show(err))
	h.leave <- struct{}{}
	x := <-a
	say("held", x.r, show(x.err))
	<-stopped
	say("serve ends", <-done)
	_, err = call(cc, long, "x")
	say("stopped", show(err))
	cc2.Close()

	// the address can be used again, and an old connection finds the new server
	g, h, done = start()
	ok := false
	for i := 0; i < 100 && !ok; i++ {
		r, err = call(cc, long, "again")
		if ok = err == nil; !ok {
			cc.ResetConnectBackoff()
			time.Sleep(50 * time.Millisecond)
		}
	}
	say("again", r, show(err))
	// hard stop: the call in progress fails, its handler is cancelled
	go func() { r, err := call(cc, long, "wait"); a <- ans{r, err} }()
	<-h.enter
	go func() { g.Stop() }()
	x = <-a
	say("hard stop", show(x.err))
	say("handler", <-h.ended)
	say("serve ends", <-done)
	cc.Close()
	_, err = call(cc, long, "x")
	say("closed connection", show(err))
	say("serve on a stopped server", func() error {
		l, err := net.Listen("tcp", addr)
		if err != nil {
			return err
		}
		return g.Serve(l)
	}() == grpc.ErrServerStopped)
	return out
}
