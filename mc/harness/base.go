// Command harness holds the scenarios: closed programs over the repository's packages,
// with monitors and final checks, each explored exhaustively within its bounds.
package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	trdredis "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/core/node"
	"github.com/pojol/braid/lib/log"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/zzmc/mcgrpc"
	"github.com/pojol/braid/zzmc/mcredis"
	"github.com/pojol/braid/zzmc/rt"
	"go.uber.org/zap/zapcore"
)

// ---------------------------------------------------------------- registry

type builder func(tier string) []rt.Scenario

var registry = map[string]builder{}
var order []string

func register(prop string, b builder) {
	registry[prop] = b
	order = append(order, prop)
}

func main() {
	log.SetSLog(&log.ServerLog{Helper: quiet{}})
	sort.Strings(order)
	rt.Main(func(prop, tier string) []rt.Scenario {
		b := registry[prop]
		if b == nil {
			return nil
		}
		return b(tier)
	}, conformance, order)
}

type quiet struct{}

func (quiet) SystemReqInfo(log.LogAccID, log.LogPath, log.LogToken, log.LogRealIP, string, ...interface{}) {
}
func (quiet) SystemLog(zapcore.Level, log.LogECode, log.LogAccID, log.LogPath, log.LogToken, log.LogRealIP, string, ...interface{}) {
}
func (quiet) Log(level zapcore.Level, format string, v ...interface{}) {
	if level == zapcore.PanicLevel {
		panic(fmt.Sprintf(format, v...))
	}
	if level == zapcore.FatalLevel {
		rt.OSExit(1)
	}
}
func (quiet) Sync() {}

// thorough picks by tier.
func pick(tier string, q, t int) int {
	if tier == "thorough" {
		return t
	}
	return q
}

// S makes a scenario.
func S(name, about string, sched int, body func(), opt ...func(*rt.Config)) rt.Scenario {
	c := rt.Config{Sched: sched, Mem: true}
	for _, o := range opt {
		o(&c)
	}
	return rt.Scenario{Name: name, About: about, Cfg: c, Body: body}
}

func faults(n int) func(*rt.Config) { return func(c *rt.Config) { c.Fault = n } }
func timeDev(c *rt.Config)          { c.TimeDev = true }
func noMem(c *rt.Config)            { c.Mem = false }
func blockFree(c *rt.Config)        { c.BlockFree = true }
func horizon(d time.Duration) func(*rt.Config) {
	return func(c *rt.Config) { c.MaxTime = d }
}
func ops(n int) func(*rt.Config) { return func(c *rt.Config) { c.MaxOps = n } }

// ---------------------------------------------------------------- a small actor system

type spec struct {
	ty     string
	weight int
	limit  int
	unique bool
	init   func(a *tActor)
}

// tActor is the test actor: its event handlers come from the spec.
type tActor struct {
	*actor.Runtime
	setup func(a *tActor)
}

func (a *tActor) Init(ctx context.Context) {
	a.Runtime.Init(ctx)
	if a.setup != nil {
		a.setup(a)
	}
}

// on registers a plain handler.
func (a *tActor) on(ev string, h func(mw *msg.Wrapper) error) {
	a.OnEvent(ev, func(core.ActorContext) core.IChain { return &actor.DefaultChain{Handler: h} })
}

type factory struct {
	m map[string]*core.ActorConstructor
}

func newFactory(specs ...spec) *factory {
	f := &factory{m: map[string]*core.ActorConstructor{}}
	for _, s := range specs {
		s := s
		f.m[s.ty] = &core.ActorConstructor{
			ID: s.ty, Name: s.ty, Weight: s.weight, NodeUnique: s.unique, GlobalQuantityLimit: s.limit, Dynamic: true,
			Options: map[string]string{},
			Constructor: func(b core.IActorBuilder) core.IActor {
				return &tActor{Runtime: &actor.Runtime{Id: b.GetID(), Ty: b.GetType(), Sys: b.GetSystem()}, setup: s.init}
			},
		}
	}
	return f
}

func (f *factory) Get(ty string) *core.ActorConstructor { return f.m[ty] }
func (f *factory) GetActors() []*core.ActorConstructor {
	var r []*core.ActorConstructor
	for _, c := range f.m {
		r = append(r, c)
	}
	return r
}

type loader struct{ f core.IActorFactory }

func (l *loader) Builder(ty string, sys core.ISystem) core.IActorBuilder {
	ac := l.f.Get(ty)
	if ac == nil {
		return nil
	}
	return &actor.ActorLoaderBuilder{ISystem: sys, ActorConstructor: *ac, IActorLoader: l}
}
func (l *loader) Pick(ctx context.Context, b core.IActorBuilder) error { return nil }
func (l *loader) AssignToNode(n core.INode)                            {}

// redisUp connects the repository's redis package to a fresh in-memory store.
func redisUp() *mcredis.World {
	trdredis.MockClient(mcredis.Client())
	return mcredis.Get()
}

// newNode builds a node; port 0 means no acceptor.
func newNode(id string, port int, f core.IActorFactory) core.INode {
	return newNodeAt(id, "127.0.0.1", port, f)
}

// newNodeAt builds a node on the machine with the given address.
func newNodeAt(id, ip string, port int, f core.IActorFactory) core.INode {
	mcgrpc.SetHost(ip)
	defer mcgrpc.SetHost("127.0.0.1")
	return node.BuildProcessWithOption(
		core.NodeWithID(id), core.NodeWithIP(ip), core.NodeWithPort(port),
		core.NodeWithLoader(&loader{f}), core.NodeWithFactory(f),
	)
}

// spawn registers an actor and fails the execution when that fails.
func spawn(sys core.ISystem, ty, id string) core.IActor {
	a, err := sys.Loader(ty).WithID(id).Register(context.Background())
	if err != nil {
		rt.Fail("setup-register", "register %s/%s: %v", ty, id, err)
	}
	return a
}

// single builds one node without acceptor.
func single(specs ...spec) core.ISystem {
	redisUp()
	return newNode("n1", 0, newFactory(specs...)).System()
}

func newMsg() *msg.Wrapper { return msg.NewBuilder(context.Background()).Build() }

func bodyMsg(b string) *msg.Wrapper {
	return msg.NewBuilder(context.Background()).WithReqBody([]byte(b)).Build()
}

// work is a handler body with scheduling points in it.
func work(n int) {
	for i := 0; i < n; i++ {
		rt.Yield("work")
	}
}

// alone runs the body of a handler or callback of actor id, which nothing else of that actor may overlap.
func alone(id string, f func()) {
	if rt.Enter("alone "+id) > 1 {
		rt.Fail("overlap", "two handlers or callbacks of %s at once", id)
	}
	rt.Count("alone "+id, 1)
	work(1)
	f()
	rt.Leave("alone " + id)
}

func isErr(err, target error) bool { return errors.Is(err, target) }

func join(l []string) string { return strings.Join(l, " ") }

func ctxT(d time.Duration) (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), d)
}

// conformance replays traces against the models of the environment a property rests on and
// against independent implementations: the store against miniredis, the network against
// grpc-go over the loopback interface.
func conformance(prop, tier string) (n int64, err error) {
	store := strings.HasPrefix(prop, "S") || strings.HasPrefix(prop, "P") || prop == "L03" || prop == "R01" || prop == "A13"
	network := strings.HasPrefix(prop, "S") || prop == "L05" || prop == "A13"
	run := func(args ...string) error {
		exe, _ := os.Executable()
		b, err := exec.Command(filepath.Join(filepath.Dir(exe), "conform"), args...).CombinedOutput()
		if err != nil {
			return fmt.Errorf("%v: %v\n%s", args, err, b)
		}
		var c int64
		fmt.Sscanf(string(b), "traces %d", &c)
		n += c
		return nil
	}
	if store {
		less := "1"
		if tier == "thorough" {
			less = "0"
		}
		if err := run("-what", "redis", "-less", less); err != nil {
			return n, err
		}
	}
	if network {
		return n, run("-what", "grpc")
	}
	return n, nil
}
