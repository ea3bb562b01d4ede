// Package mcgrpc stands in for the transport of google.golang.org/grpc: connections are
// real *grpc.ClientConn objects (with the real interceptor chain and the real codec), but
// instead of the network a call is handed to the server registered for its port inside the
// model checker, in a goroutine of its own.
package mcgrpc

import (
	"context"
	"errors"
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/pojol/braid/zzmc/rt"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/connectivity"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/encoding"
	_ "google.golang.org/grpc/encoding/proto"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
)

const maxRecv = 4 << 20

// network is the state of one execution's network.
type network struct {
	lis    map[string]*listener // by host and port
	faults bool
	host   string
	// Calls counts requests that reached a handler, per address.
	calls  map[string]int
	conns  map[*grpc.ClientConn]*backoff
	dialed []*grpc.ClientConn
}

// backoff is the state of a connection whose server could not be reached.
type backoff struct {
	n     int       // attempts so far
	until time.Time // the next attempt
}

func (b *backoff) next() {
	d := float64(time.Second)
	for i := 0; i < b.n && d < float64(120*time.Second); i++ {
		d *= 1.6
	}
	b.n++
	b.until = b.until.Add(min(time.Duration(d), 120*time.Second))
}

func world() *network {
	return rt.Val("grpc", func() any {
		return &network{lis: map[string]*listener{}, calls: map[string]int{}, host: "127.0.0.1", conns: map[*grpc.ClientConn]*backoff{}}
	}).(*network)
}

// EnableFaults makes every call a fault point: it may fail before delivery, or be
// delivered and lose its response.
func EnableFaults(on bool) { world().faults = on }

// SetHost says on which machine the next listener opens.
func SetHost(ip string) { world().host = ip }

// keyOf is the address of a target or listener, with its host made explicit.
func keyOf(addr, host string) string {
	if i := strings.LastIndex(addr, "/"); i >= 0 {
		addr = addr[i+1:]
	}
	h, p, ok := strings.Cut(addr, ":")
	if !ok {
		p = addr
	}
	switch h {
	case "", "0.0.0.0", "localhost":
		h = host
	}
	return h + ":" + p
}

type listener struct {
	key    string
	since  time.Time
	open   bool
	server *Server // serving on it
	done   chan struct{}
}

type lisAddr string

func (a lisAddr) Network() string { return "tcp" }
func (a lisAddr) String() string  { return string(a) }

func (l *listener) Accept() (net.Conn, error) { return nil, errors.New("mcgrpc: no raw accept") }
func (l *listener) Addr() net.Addr            { return lisAddr(l.key) }
func (l *listener) Close() error {
	if !rt.Active() {
		return nil
	}
	rt.Touch("port:"+l.key, true)
	if !l.open {
		return net.ErrClosed
	}
	l.open = false
	if w := world(); w.lis[l.key] == l {
		delete(w.lis, l.key)
	}
	return nil
}

// Listen stands in for net.Listen.
func Listen(nw, addr string) (net.Listener, error) {
	if !rt.Active() {
		return net.Listen(nw, addr)
	}
	w := world()
	p := keyOf(addr, w.host)
	rt.Step("port:"+p, true)
	if l := w.lis[p]; l != nil {
		return nil, fmt.Errorf("listen %s %s: bind: address already in use", nw, addr)
	}
	l := &listener{key: p, since: rt.Now(), open: true, done: make(chan struct{})}
	w.lis[p] = l
	return l, nil
}

// ---------------------------------------------------------------- server

// option is a server option that means something here; the others are accepted and ignored.
type option struct {
	grpc.EmptyServerOption
	set func(*Server)
}

type method struct {
	desc *grpc.MethodDesc
	srv  any
}

// Server stands in for grpc.Server.
type Server struct {
	ints     []grpc.UnaryServerInterceptor
	methods  map[string]method
	lis      []*listener
	stopped  bool
	hard     bool
	inflight int
	cancels  map[int]context.CancelFunc
	seq      int
	quit     chan struct{}
	done     chan struct{} // closed when the server has stopped
	over     bool
	dead     chan struct{} // closed by Stop: every connection breaks
	name     string
	maxRecv  int
	maxSend  int
	streams  uint32
	slots    map[*grpc.ClientConn]chan struct{}
}

func UnaryInterceptor(i grpc.UnaryServerInterceptor) grpc.ServerOption {
	return option{set: func(s *Server) { s.ints = append(s.ints, i) }}
}

func ChainUnaryInterceptor(is ...grpc.UnaryServerInterceptor) grpc.ServerOption {
	return option{set: func(s *Server) { s.ints = append(s.ints, is...) }}
}

func MaxRecvMsgSize(n int) grpc.ServerOption { return option{set: func(s *Server) { s.maxRecv = n }} }
func MaxMsgSize(n int) grpc.ServerOption     { return MaxRecvMsgSize(n) }
func MaxSendMsgSize(n int) grpc.ServerOption { return option{set: func(s *Server) { s.maxSend = n }} }

// MaxConcurrentStreams limits the calls under way on one connection; further ones wait.
func MaxConcurrentStreams(n uint32) grpc.ServerOption {
	return option{set: func(s *Server) { s.streams = n }}
}

// slot returns the channel that holds the free places of a connection.
func (s *Server) slot(cc *grpc.ClientConn) chan struct{} {
	if s.slots[cc] == nil {
		s.slots[cc] = make(chan struct{}, s.streams)
		for i := uint32(0); i < s.streams; i++ {
			rt.SendTo(s.slots[cc], 0)(struct{}{})
		}
	}
	return s.slots[cc]
}

func NewServer(opts ...grpc.ServerOption) *Server {
	s := &Server{maxRecv: maxRecv, slots: map[*grpc.ClientConn]chan struct{}{}, methods: map[string]method{}, cancels: map[int]context.CancelFunc{}, quit: make(chan struct{}), done: make(chan struct{}), dead: make(chan struct{})}
	for _, o := range opts {
		if x, ok := o.(option); ok {
			x.set(s)
		}
	}
	return s
}

func (s *Server) RegisterService(sd *grpc.ServiceDesc, ss any) {
	for i := range sd.Methods {
		d := &sd.Methods[i]
		s.methods["/"+sd.ServiceName+"/"+d.MethodName] = method{d, ss}
	}
}

// Serve blocks until the server is stopped.
func (s *Server) Serve(l net.Listener) error {
	fl := l.(*listener) // panics on a nil listener, like the original
	rt.Step("port:"+fl.key, true)
	if s.stopped {
		fl.Close()
		return grpc.ErrServerStopped
	}
	s.name = "server:" + fl.key
	fl.server = s
	s.lis = append(s.lis, fl)
	rt.Close(fl.done, 0)
	rt.Recv(s.quit, 0)
	rt.Recv(s.done, 0)
	return nil
}

func (s *Server) stop() {
	for _, l := range s.lis {
		l.Close()
	}
	if !s.stopped {
		s.stopped = true
		rt.Close(s.quit, 0)
	}
}

// GracefulStop stops accepting calls and waits for those in progress.
func (s *Server) GracefulStop() {
	rt.Step("srv", true)
	s.stop()
	rt.WaitUntil("in-flight calls", func() bool { return s.inflight == 0 })
	rt.Touch("srv", true)
	s.end()
}

// Stop cancels what is in progress.
func (s *Server) Stop() {
	rt.Step("srv", true)
	s.stop()
	if !s.hard {
		s.hard = true
		rt.Close(s.dead, 0)
	}
	for i := 1; i <= s.seq; i++ {
		if c := s.cancels[i]; c != nil {
			c()
		}
	}
	s.end()
}

func (s *Server) end() {
	if !s.over {
		s.over = true
		rt.Close(s.done, 0)
	}
}

// Crash ends the process that listens on port: nothing is accepted any more and calls in
// progress fail. (The goroutines of the process are the harness's business.)
func Crash(port int) {
	w := world()
	l := w.lis[fmt.Sprint("127.0.0.1:", port)]
	if l == nil {
		return
	}
	if s := l.server; s != nil {
		s.Stop()
		rt.Touch("srv", true)
		return
	}
	l.Close()
}

// Calls is the number of requests that have reached the server on port.
func Calls(port int) int { return world().calls[fmt.Sprint("127.0.0.1:", port)] }

// Open is the number of connections to addr that were made and not closed.
func Open(addr string) int {
	w, n := world(), 0
	for _, cc := range w.dialed {
		if cc.GetState() != connectivity.Shutdown && keyOf(cc.Target(), w.host) == keyOf(addr, w.host) {
			n++
		}
	}
	return n
}

func (s *Server) GetServiceInfo() map[string]grpc.ServiceInfo { return nil }

// ---------------------------------------------------------------- client

// DialContext stands in for grpc.DialContext (non-blocking dial, as the original by default).
func DialContext(ctx context.Context, target string, opts ...grpc.DialOption) (*grpc.ClientConn, error) {
	return NewClient(target, opts...)
}

func Dial(target string, opts ...grpc.DialOption) (*grpc.ClientConn, error) {
	return NewClient(target, opts...)
}

func NewClient(target string, opts ...grpc.DialOption) (*grpc.ClientConn, error) {
	if !rt.Active() {
		return grpc.NewClient(target, opts...)
	}
	rt.Step("dial", true)
	opts = append(append([]grpc.DialOption{}, opts...),
		grpc.WithTransportCredentials(insecure.NewCredentials()),
		grpc.WithIdleTimeout(0),
		grpc.WithChainUnaryInterceptor(transport))
	cc, err := grpc.NewClient("passthrough:///"+target, opts...)
	if err == nil {
		w := world()
		w.dialed = append(w.dialed, cc)
		rt.OnCleanup(func() { cc.Close() })
	}
	return cc, err
}

type outcome struct {
	b   []byte
	err error
}

// transport is the last interceptor: it never calls the real invoker.
func transport(ctx context.Context, method string, req, reply any, cc *grpc.ClientConn, _ grpc.UnaryInvoker, opts ...grpc.CallOption) error {
	w := world()
	most, mostSent, ready := maxRecv, 1<<31-1, false
	for _, o := range opts {
		switch x := o.(type) {
		case nil:
			panic("runtime error: invalid memory address or nil pointer dereference (nil grpc.CallOption)")
		case grpc.MaxRecvMsgSizeCallOption:
			most = x.MaxRecvMsgSize
		case grpc.MaxSendMsgSizeCallOption:
			mostSent = x.MaxSendMsgSize
		case grpc.FailFastCallOption:
			ready = !x.FailFast
		}
	}
	port := keyOf(cc.Target(), w.host)
	rt.Step("port:"+port, true)
	if cc.GetState() == connectivity.Shutdown {
		return status.Error(codes.Canceled, "grpc: the client connection is closing")
	}
	if err := ctx.Err(); err != nil {
		return status.FromContextError(err).Err()
	}
	codec := encoding.GetCodec("proto")
	rt.ReadDeep(req)
	b, err := codec.Marshal(req)
	if err != nil {
		return status.Errorf(codes.Internal, "grpc: error while marshaling: %v", err)
	}
	if len(b) > mostSent {
		return status.Errorf(codes.ResourceExhausted, "trying to send message larger than max (%d vs. %d)", len(b), mostSent)
	}
	fault := 0
	if w.faults {
		fault = rt.Fault(3, "rpc")
		if fault == 1 {
			return status.Error(codes.Unavailable, "connection error: injected before delivery")
		}
	}
again:
	l := w.lis[port]
	if b := w.conns[cc]; b != nil {
		// attempts are made when they are due, whether there are calls or not
		for now := rt.Now(); !b.until.After(now); b.next() {
			if l != nil && !l.since.After(b.until) {
				delete(w.conns, cc)
				break
			}
		}
		if w.conns[cc] != nil {
			if ready { // the call waits for the connection
				tm := rt.NewTimer(b.until.Sub(rt.Now()))
				if rt.Select(0, false, rt.RecvCase(ctx.Done()), rt.RecvCase(tm.C)) == 0 {
					return status.FromContextError(ctx.Err()).Err()
				}
				goto again
			}
			return status.Error(codes.Unavailable, "connection error: desc = \"transport: Error while dialing: dial tcp: connect: connection refused\"")
		}
	}
	if l == nil {
		b := &backoff{until: rt.Now()}
		b.next()
		w.conns[cc] = b
		if ready {
			goto again
		}
		return status.Error(codes.Unavailable, "connection error: desc = \"transport: Error while dialing: dial tcp: connect: connection refused\"")
	}
	if l.server == nil {
		// bound but not serving yet: the connection attempt hangs
		tm := rt.NewTimer(20 * time.Second)
		switch rt.Select(0, false, rt.RecvCase(l.done), rt.RecvCase(ctx.Done()), rt.RecvCase(tm.C)) {
		case 1:
			return status.FromContextError(ctx.Err()).Err()
		case 2:
			return status.Error(codes.Unavailable, "connection error: desc = \"context deadline exceeded\"")
		}
		tm.Stop()
	}
	s := l.server
	if s.stopped {
		return status.Error(codes.Unavailable, "connection error: server stopped")
	}
	if s.streams > 0 {
		places := s.slot(cc)
		switch rt.Select(0, false, rt.RecvCase(places), rt.RecvCase(ctx.Done()), rt.RecvCase(s.dead)) {
		case 1:
			return status.FromContextError(ctx.Err()).Err()
		case 2:
			return status.Error(codes.Unavailable, "error reading from server: EOF")
		}
		defer func() { rt.SendTo(places, 0)(struct{}{}) }()
	}
	w.calls[port]++
	m, ok := s.methods[method]
	if !ok {
		return status.Errorf(codes.Unimplemented, "unknown method %s", method)
	}
	if len(b) > s.maxRecv {
		return status.Errorf(codes.ResourceExhausted, "grpc: received message larger than max (%d vs. %d)", len(b), s.maxRecv)
	}
	// the server's context: deadline and metadata travel, values do not
	sctx := context.Context(context.Background())
	md, _ := metadata.FromOutgoingContext(ctx)
	if md == nil {
		md = metadata.MD{}
	}
	sctx = metadata.NewIncomingContext(sctx, md.Copy())
	var cancel context.CancelFunc
	if dl, ok := ctx.Deadline(); ok {
		sctx, cancel = rt.WithDeadline(sctx, dl)
	} else {
		sctx, cancel = rt.WithCancel(sctx)
	}
	s.inflight++
	s.seq++
	id := s.seq
	s.cancels[id] = cancel
	res := make(chan *outcome, 1)
	rt.GoNamed("rpc:"+port, func() {
		o := &outcome{}
		func() {
			dec := func(v any) error {
				if err := codec.Unmarshal(b, v); err != nil {
					return status.Errorf(codes.Internal, "grpc: error unmarshalling request: %v", err)
				}
				return nil
			}
			v, err := m.desc.Handler(m.srv, sctx, dec, chain(s.ints))
			if err != nil {
				st, ok := status.FromError(err)
				if !ok {
					st = status.FromContextError(err)
				}
				o.err = st.Err()
				return
			}
			rt.ReadDeep(v)
			o.b, err = codec.Marshal(v)
			if err != nil {
				o.err = status.Errorf(codes.Internal, "grpc: error while marshaling: %v", err)
			} else if s.maxSend > 0 && len(o.b) > s.maxSend {
				o.err = status.Errorf(codes.ResourceExhausted, "grpc: trying to send message larger than max (%d vs. %d)", len(o.b), s.maxSend)
			}
		}()
		cancel()
		delete(s.cancels, id)
		rt.Touch("srv", true)
		s.inflight--
		rt.SendTo(res, 0)(o)
	})
	rc := rt.RecvCase(res)
	switch rt.Select(0, false, rc, rt.RecvCase(ctx.Done()), rt.RecvCase(s.dead)) {
	case 2:
		return status.Error(codes.Unavailable, "error reading from server: EOF")
	case 0:
		o := rc.Val()
		if s.hard {
			return status.Error(codes.Unavailable, "error reading from server: EOF")
		}
		if fault == 2 {
			return status.Error(codes.Unavailable, "connection error: injected response loss")
		}
		if o.err != nil {
			return o.err
		}
		if len(o.b) > most {
			return status.Errorf(codes.ResourceExhausted, "grpc: received message larger than max (%d vs. %d)", len(o.b), most)
		}
		if err := codec.Unmarshal(o.b, reply); err != nil {
			return status.Errorf(codes.Internal, "grpc: failed to unmarshal the received message: %v", err)
		}
		return nil
	default:
		cancel()
		return status.FromContextError(ctx.Err()).Err()
	}
}

func chain(ints []grpc.UnaryServerInterceptor) grpc.UnaryServerInterceptor {
	if len(ints) == 0 {
		return nil
	}
	return func(ctx context.Context, req any, info *grpc.UnaryServerInfo, handler grpc.UnaryHandler) (any, error) {
		return next(ints, 0, info, handler)(ctx, req)
	}
}

func next(ints []grpc.UnaryServerInterceptor, i int, info *grpc.UnaryServerInfo, h grpc.UnaryHandler) grpc.UnaryHandler {
	if i == len(ints) {
		return h
	}
	return func(ctx context.Context, req any) (any, error) {
		return ints[i](ctx, req, info, next(ints, i+1, info, h))
	}
}

// GetState stands in for (*grpc.ClientConn).GetState.
func GetState(cc *grpc.ClientConn) connectivity.State {
	if !rt.Active() {
		return cc.GetState()
	}
	w := world()
	rt.Step("port:"+keyOf(cc.Target(), w.host), false)
	switch st := cc.GetState(); {
	case st == connectivity.Shutdown:
		return st
	case w.conns[cc] != nil:
		return connectivity.TransientFailure
	}
	return connectivity.Ready
}

// ResetConnectBackoff stands in for (*grpc.ClientConn).ResetConnectBackoff: the next
// attempt is made at once.
func ResetConnectBackoff(cc *grpc.ClientConn) {
	if !rt.Active() {
		cc.ResetConnectBackoff()
		return
	}
	w := world()
	rt.Step("port:"+keyOf(cc.Target(), w.host), true)
	if b := w.conns[cc]; b != nil {
		b.n, b.until = 0, rt.Now()
	}
}
