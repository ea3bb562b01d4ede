package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/pojol/braid/lib/dismutex"
	bgrpc "github.com/pojol/braid/lib/grpc"
	"github.com/pojol/braid/lib/grpc/mock"
	"github.com/pojol/braid/lib/mpsc"
	"github.com/pojol/braid/lib/tracer"
	"github.com/pojol/braid/lib/unbounded"
	"github.com/pojol/braid/lib/warpwaitgroup"
	"github.com/pojol/braid/zzmc/mcgrpc"
	"github.com/pojol/braid/zzmc/mcredis"
	"github.com/pojol/braid/zzmc/rt"
	"github.com/uber/jaeger-client-go"
	"google.golang.org/grpc"
)

// inOrder checks that got holds the elements of each producer ("p:i") once and in order.
func inOrder(got []string, producers, each int) {
	next := make([]int, producers)
	for _, g := range got {
		var p, i int
		if n, _ := fmt.Sscanf(g, "%d:%d", &p, &i); n != 2 || p >= producers {
			rt.Fail("corrupt", "%q in %v", g, got)
		}
		if i != next[p] {
			rt.Fail("order", "producer %d: %d where %d was due, in %v", p, i, next[p], got)
		}
		next[p]++
	}
	for p, n := range next {
		if n != each {
			rt.Fail("lost", "producer %d: %d of %d arrived: %v", p, n, each, got)
		}
	}
}

type mockService struct {
	f func(ctx context.Context, m string) (string, error)
}

func (s *mockService) Process(ctx context.Context, r *mock.MockRequest) (*mock.MockResponse, error) {
	o, err := s.f(ctx, r.Message)
	return &mock.MockResponse{Message: o}, err
}

const mockMethod = "/mock.MockService/Process"

// serve starts a server of lib/grpc.
func serve(port int, f func(ctx context.Context, m string) (string, error), opts ...bgrpc.ServerOption) *bgrpc.Server {
	opts = append(opts, bgrpc.WithServerListen(fmt.Sprintf("127.0.0.1:%d", port)), bgrpc.ServerRegisterHandler(func(s *grpc.Server) {
		mock.RegisterMockServiceServer(s, &mockService{f})
	}))
	s := bgrpc.BuildServerWithOption(opts...)
	if err := s.Init(); err != nil {
		rt.Fail("listen", "%v", err)
	}
	s.Run()
	settle()
	return s
}

// sink is a jaeger transport that records what it is given.
type sink struct{ slow bool }

func (s *sink) Append(sp *jaeger.Span) (int, error) {
	if rt.Counted("sender closed") != 0 {
		rt.Fail("append-after-close", "a span is appended after the sender was closed")
	}
	if rt.Enter("sender") > 1 {
		rt.Fail("overlap", "the sender is used by two goroutines")
	}
	work(1)
	if s.slow {
		sleepMs(60000)
	}
	rt.Log("appended", "%s", sp.OperationName())
	rt.Leave("sender")
	return 0, nil
}
func (s *sink) Flush() (int, error) {
	if rt.Enter("sender") > 1 {
		rt.Fail("overlap", "the sender is used by two goroutines")
	}
	work(1)
	rt.Count("flushed", len(rt.Logged("appended"))-rt.Counted("flushed"))
	rt.Leave("sender")
	return 1, nil
}
func (s *sink) Close() error { rt.Count("sender closed", 1); return nil }

func init() {
	// L01: the actor mailbox queue.
	register("L01", func(tier string) []rt.Scenario {
		run := func(producers, each int) func() {
			return func() {
				q := mpsc.New()
				var got []string
				var th []func()
				for p := 0; p < producers; p++ {
					p := p
					th = append(th, func() {
						for i := 0; i < each; i++ {
							q.Push(fmt.Sprintf("%d:%d", p, i))
						}
					})
				}
				th = append(th, func() {
					for len(got) < producers*each {
						rt.Recv(q.C, 0)
						for {
							v := q.Pop()
							if v == nil {
								break
							}
							got = append(got, v.(string))
						}
					}
				})
				rt.Threads(th...)
				inOrder(got, producers, each)
				rt.Check(q.Empty() && q.Pop() == nil && q.Count() == 0, "empty", "empty: %v, count %d", q.Empty(), q.Count())
			}
		}
		return []rt.Scenario{
			S("one", "one producer, three elements, a consumer that sleeps until it is signalled", pick(tier, 4, 6), run(1, 3)),
			S("two", "two producers, two elements each", pick(tier, 3, 4), run(2, 2)),
			S("three", "three producers, one element each", pick(tier, 3, 4), run(3, 1)),
			S("many", "two producers, 150 elements each", 0, run(2, 150)),
			S("waves", "runs of Push and of Pop of very different lengths, against a list", 0, func() {
				q := mpsc.New()
				next, head := 0, 0
				for i := 0; i < pick(tier, 5, 6); i++ {
					n := []int{1, 3, 70, 1100}[rt.Choose(4, "length")]
					if i%2 == 0 {
						for ; n > 0; n-- {
							q.Push(next)
							next++
							rt.Check(int(q.Count()) == next-head && !q.Empty(), "count", "%d, empty: %v, holds %d", q.Count(), q.Empty(), next-head)
						}
					} else {
						for ; n > 0; n-- {
							v := q.Pop()
							if head == next {
								rt.Check(v == nil, "order", "popped %v, the queue is empty", v)
								break
							}
							rt.Check(v == head, "order", "popped %v, want %d", v, head)
							head++
							rt.Check(int(q.Count()) == next-head && q.Empty() == (head == next), "count", "%d, empty: %v, holds %d", q.Count(), q.Empty(), next-head)
						}
					}
				}
			}, noMem, ops(200000)),
			S("poll", "a consumer that polls sees each element once, in order, and Empty agrees with Pop", pick(tier, 3, 4), func() {
				q := mpsc.New()
				var got []string
				done := 0
				rt.Threads(func() { q.Push("0:0"); q.Push("0:1"); done++ }, func() { q.Push("1:0"); q.Push("1:1"); done++ }, func() {
					for i := 0; i < 3; i++ {
						e := q.Empty()
						if v := q.Pop(); v != nil {
							got = append(got, v.(string))
						} else {
							rt.Check(e, "empty", "Empty said false, then Pop returned nothing")
						}
					}
				})
				for v := q.Pop(); v != nil; v = q.Pop() {
					got = append(got, v.(string))
				}
				inOrder(got, 2, 2)
				rt.Check(q.Count() == 0 && q.Empty(), "empty", "count %d", q.Count())
			}),
			S("sequences", "every sequence of pushes and pops, against a list", 0, func() {
				q := mpsc.New()
				var model []int
				for i := 0; i < pick(tier, 7, 10); i++ {
					if rt.Choose(2, "op") == 0 {
						q.Push(i)
						model = append(model, i)
					} else {
						v := q.Pop()
						if len(model) == 0 {
							rt.Check(v == nil, "corrupt", "popped %v from an empty queue", v)
						} else {
							rt.Check(v == model[0], "order", "popped %v, want %v", v, model[0])
							model = model[1:]
						}
					}
					rt.Check(q.Empty() == (len(model) == 0) && int(q.Count()) == len(model), "empty", "empty %v count %d, holds %v", q.Empty(), q.Count(), model)
				}
			}, noMem),
		}
	})

	// L02: the unbounded channel.
	register("L02", func(tier string) []rt.Scenario {
		run := func(producers, each int) func() {
			return func() {
				b := unbounded.NewUnbounded()
				var got []string
				var th []func()
				for p := 0; p < producers; p++ {
					p := p
					th = append(th, func() {
						for i := 0; i < each; i++ {
							b.Put(fmt.Sprintf("%d:%d", p, i))
						}
					})
				}
				th = append(th, func() {
					for len(got) < producers*each {
						v, _ := rt.Recv2(b.Get(), 0)
						got = append(got, v.(string))
						b.Load()
					}
				})
				rt.Threads(th...)
				inOrder(got, producers, each)
				rt.Check(b.Len() == 0, "empty", "%d left", b.Len())
			}
		}
		return []rt.Scenario{
			S("one", "one producer, four elements", pick(tier, 4, 6), run(1, 4)),
			S("two", "two producers, two elements each", pick(tier, 3, 4), run(2, 2)),
			S("three", "three producers, one element each", pick(tier, 3, 4), run(3, 1)),
			S("many", "two producers, 150 elements each", 0, run(2, 150)),
			S("waves", "runs of Put and of receiving of very different lengths, with extra Loads, against a list", 0, func() {
				b := unbounded.NewUnbounded()
				next, head := 0, 0
				for i := 0; i < pick(tier, 5, 6); i++ {
					n := []int{1, 3, 70, 1100}[rt.Choose(4, "length")]
					if i%2 == 0 {
						for ; n > 0; n-- {
							b.Put(next)
							next++
						}
					} else {
						for ; n > 0 && head < next; n-- {
							v, ok := rt.Recv2(b.Get(), 0)
							b.Load()
							if n == 2 {
								b.Load()
							}
							rt.Check(ok && v == head, "order", "received %v, want %d", v, head)
							head++
						}
					}
					b.Load()
					rt.Check(b.Len() == max(0, next-head-1), "len", "%d, %d can be received", b.Len(), next-head)
				}
			}, noMem, ops(200000)),
			S("len", "Len is asked while elements come and go", pick(tier, 3, 4), func() {
				b := unbounded.NewUnbounded()
				rt.Threads(func() { b.Put("a"); b.Put("b") }, func() {
					for i := 0; i < 2; i++ {
						rt.Recv2(b.Get(), 0)
						b.Load()
					}
				}, func() {
					n := b.Len()
					rt.Check(n >= 0 && n <= 1, "len", "%d", n)
				})
			}),
			S("sequences", "every sequence of Put and receive, against a list", 0, func() {
				b := unbounded.NewUnbounded()
				var model []int
				for i := 0; i < pick(tier, 8, 10); i++ {
					if rt.Choose(2, "op") == 0 {
						b.Put(i)
						model = append(model, i)
					} else if len(model) > 0 {
						v, _ := rt.Recv2(b.Get(), 0)
						b.Load()
						rt.Check(v == model[0], "order", "received %v, want %v", v, model[0])
						model = model[1:]
					}
					want := len(model) - 1
					if want < 0 {
						want = 0
					}
					rt.Check(b.Len() == want, "len", "%d, holds %v", b.Len(), model)
				}
			}, noMem),
		}
	})

	// L03: the distributed mutex.
	register("L03", func(tier string) []rt.Scenario {
		d := pick(tier, 2, 3)
		bg := context.Background()
		hold := func(key string, f func()) bool {
			v, err := dismutex.Lock(bg, key)
			if err != nil {
				rt.Check(isErr(err, dismutex.ErrFailed), "lock-error", "%v", err)
				return false
			}
			if rt.Enter("lock "+key) > 1 {
				rt.Fail("two-holders", "two holders of %s at once", key)
			}
			f()
			rt.Leave("lock " + key)
			rt.Check(dismutex.Unlock(bg, key, v), "unlock", "the holder cannot unlock")
			return true
		}
		return []rt.Scenario{
			S("two", "two lockers at once, short critical sections: both get it in turn", d, func() {
				redisUp()
				f := func() {
					rt.Check(hold("k", func() { work(2) }), "starved", "not acquired within the tries")
				}
				rt.Threads(f, f)
				rt.Check(rt.Elapsed() <= 2*time.Second, "slow", "took %v", rt.Elapsed())
			}),
			S("three", "three lockers", pick(tier, 1, 2), func() {
				redisUp()
				f := func() { hold("k", func() { work(1); sleepMs(100) }) }
				rt.Threads(f, f, f)
			}),
			S("long", "the holder keeps it for longer than the other one tries", d, func() {
				redisUp()
				rt.Threads(func() { hold("k", func() { sleepMs(5000) }) }, func() {
					sleepMs(10)
					t0 := rt.Elapsed()
					v, err := dismutex.Lock(bg, "k")
					rt.Check(isErr(err, dismutex.ErrFailed) && v == "", "two-holders", "%q %v", v, err)
					rt.Check(rt.Elapsed()-t0 <= 3*time.Second, "slow", "gave up after %v", rt.Elapsed()-t0)
				})
				rt.Check(hold("k", func() {}), "starved", "a free lock is not acquired")
			}),
			S("expired", "a lock that is never released is free after its expiry, and its late holder cannot release the next one's", d, func() {
				redisUp()
				v, err := dismutex.Lock(bg, "k")
				rt.Check(err == nil, "starved", "%v", err)
				sleepMs(7000)
				_, err = dismutex.Lock(bg, "k")
				rt.Check(err != nil, "two-holders", "acquired before the expiry")
				sleepMs(1000)
				w, err := dismutex.Lock(bg, "k")
				rt.Check(err == nil && w != v, "starved", "%v", err)
				rt.Check(!dismutex.Unlock(bg, "k", v), "unlock-foreign", "the late holder releases the lock")
				_, err = dismutex.Lock(bg, "k")
				rt.Check(err != nil, "two-holders", "acquired while held")
				rt.Check(dismutex.Unlock(bg, "k", w), "unlock", "the holder cannot unlock")
			}, horizon(90*time.Second)),
			S("foreign", "values that are not the holder's release nothing", 0, func() {
				redisUp()
				v, _ := dismutex.Lock(bg, "k")
				x, _ := dismutex.Lock(bg, "other")
				bad := []string{"", "x", v + "x", x, "'; return 1 --"}[rt.Choose(5, "value")]
				rt.Check(!dismutex.Unlock(bg, "k", bad), "unlock-foreign", "%q releases the lock", bad)
				rt.Check(mcredis.Get().Exists("k"), "unlock-foreign", "%q removed the lock", bad)
				rt.Check(!dismutex.Unlock(bg, "free", v), "unlock", "a free lock is unlocked")
				rt.Check(dismutex.Unlock(bg, "k", v), "unlock", "the holder cannot unlock")
				rt.Check(!dismutex.Unlock(bg, "k", v), "unlock", "unlocked twice")
				rt.Check(mcredis.Get().Exists("other"), "unlock-foreign", "another lock is gone")
				_, err := dismutex.Lock(bg, "")
				rt.Check(err != nil, "lock-error", "the empty token is locked")
			}),
			S("keys", "locks of different keys do not interfere", d, func() {
				redisUp()
				f := func(k string) func() { return func() { rt.Check(hold(k, func() { sleepMs(100) }), "starved", k) } }
				rt.Threads(f("a"), f("b"))
				rt.Check(rt.Elapsed() <= 200*time.Millisecond, "slow", "took %v", rt.Elapsed())
			}),
			S("faults", "store failures: never two holders, and the lock is free again after its expiry", pick(tier, 1, 2), func() {
				redisUp()
				mcredis.EnableFaults(nil)
				f := func() {
					v, err := dismutex.Lock(bg, "k")
					if err != nil {
						return
					}
					if rt.Enter("lock") > 1 {
						rt.Fail("two-holders", "two holders at once")
					}
					work(1)
					rt.Leave("lock")
					dismutex.Unlock(bg, "k", v)
				}
				rt.Threads(f, f)
				mcredis.DisableFaults()
				sleepMs(10100)
				rt.Check(hold("k", func() {}), "starved", "the lock is never free again")
			}, faults(pick(tier, 2, 3)), horizon(90*time.Second)),
			S("unlock-result", "Unlock says it released the lock only if it did", 0, func() {
				redisUp()
				v, err := dismutex.Lock(bg, "k")
				rt.Check(err == nil, "starved", "%v", err)
				mcredis.EnableFaults(nil)
				ok := dismutex.Unlock(bg, "k", v)
				mcredis.DisableFaults()
				held, _ := mcredis.Client().Exists(bg, "k").Result()
				rt.Check(!ok || held == 0, "unlock", "Unlock reports success, the lock is still held")
				rt.Check(!dismutex.Unlock(bg, "k", v) == (held == 0), "unlock", "a second Unlock, the lock was held: %v", held == 1)
			}, faults(1)),
			S("ended", "a context that ends while its caller tries, holds or releases", pick(tier, 1, 2), func() {
				redisUp()
				ctx, cancel := context.WithCancel(bg)
				defer cancel()
				held := rt.Choose(2, "held before") == 1
				var v string
				if held {
					v, _ = dismutex.Lock(bg, "k")
				}
				rt.Threads(func() {
					x, err := dismutex.Lock(ctx, "k")
					if err == nil {
						rt.Check(!held, "two-holders", "acquired while held")
						ok := dismutex.Unlock(ctx, "k", x)
						rt.Check(ok == !mcredis.Get().Exists("k"), "unlock", "Unlock says %v", ok)
						if !ok {
							rt.Check(ctx.Err() != nil, "unlock", "the holder cannot unlock")
							rt.Check(dismutex.Unlock(bg, "k", x), "unlock", "the holder cannot unlock")
						}
					} else {
						rt.Check(isErr(err, dismutex.ErrFailed) || isErr(err, context.Canceled), "lock-error", "%v", err)
						rt.Check(x == "", "lock-error", "a value with the error")
					}
				}, func() { sleepMs(rt.Choose(2, "later") * 800); cancel() })
				if held {
					rt.Check(dismutex.Unlock(bg, "k", v), "unlock", "the holder cannot unlock")
				}
				rt.Check(hold("k", func() {}), "starved", "a free lock is not acquired")
			}),
			S("crash", "a holder that dies blocks the others no longer than the expiry", 0, func() {
				redisUp()
				rt.GoNamed("victim", func() {
					mcredis.EnableCrash(func() {})
					hold("k", func() {})
				})
				rt.Quiesce()
				t0 := rt.Elapsed()
				for !hold("k", func() {}) {
					rt.Check(rt.Elapsed()-t0 <= 11*time.Second, "starved", "not free after %v", rt.Elapsed()-t0)
				}
			}, faults(1), horizon(90*time.Second)),
		}
	})

	// L05: the RPC client and server.
	register("L05", func(tier string) []rt.Scenario {
		d := pick(tier, 2, 3)
		bg := context.Background()
		echo := func(ctx context.Context, m string) (string, error) {
			rt.Log("served", "%s", m)
			switch {
			case m == "err":
				return "", errors.New("service says no")
			case m == "panic":
				return "never", nil
			case strings.HasPrefix(m, "slow"):
				if rt.Enter("slow") > rt.Counted("max") {
					rt.Count("max", 1)
				}
				work(1)
				sleepMs(1000)
				rt.Leave("slow")
			}
			return "re:" + m, nil
		}
		client := func(max int, addrs ...string) *bgrpc.Client {
			c := bgrpc.BuildClientWithOption(bgrpc.WithMaxConcurrentCalls(max), bgrpc.WithClientConns(addrs))
			rt.Check(c.Init() == nil, "init", "Init fails")
			return c
		}
		call := func(c *bgrpc.Client, wait bool, ctx context.Context, addr, m string) (string, error) {
			r := &mock.MockResponse{}
			var err error
			if wait {
				err = c.CallWait(ctx, addr, mockMethod, &mock.MockRequest{Message: m}, r)
			} else {
				err = c.Call(ctx, addr, mockMethod, &mock.MockRequest{Message: m}, r)
			}
			return r.Message, err
		}
		ok := func(c *bgrpc.Client, wait bool, addr, m string) {
			r, err := call(c, wait, bg, addr, m)
			rt.Check(err == nil && r == "re:"+m, "response", "%s: %q %v", m, r, err)
		}
		const A, B = "127.0.0.1:9001", "127.0.0.1:9002"
		return []rt.Scenario{
			S("answers", "concurrent calls to two servers get their own answers", d, func() {
				serve(9001, func(ctx context.Context, m string) (string, error) { return "re:" + m, nil })
				serve(9002, func(ctx context.Context, m string) (string, error) { return "re:" + m, nil })
				c := client(8, A, B)
				w := rt.Choose(2, "kind") == 1
				rt.Threads(func() { ok(c, w, A, "1"); ok(c, w, B, "2") }, func() { ok(c, w, B, "3"); ok(c, w, A, "4") })
			}),
			S("first-use", "two first calls to an address at once", d, func() {
				serve(9001, echo)
				c := client(8)
				rt.Threads(func() { ok(c, true, A, "1") }, func() { ok(c, true, A, "2") })
				l := rt.Logged("served")
				rt.Check(len(l) == 2 && has(l, "1") && has(l, "2"), "delivery-count", "served %v", l)
			}),
			S("outcomes", "every sequence of good and failing calls: errors are reported, slots come back", 0, func() {
				srv := serve(9001, echo)
				c := client(1, A)
				up := true
				for i := 0; i < pick(tier, 4, 5); i++ {
					w := rt.Choose(2, "kind") == 1
					switch rt.Choose(5, "op") {
					case 0:
						if up {
							ok(c, w, A, "x")
						} else {
							_, err := call(c, w, bg, A, "x")
							rt.Check(err != nil, "error-swallowed", "a call to a stopped server succeeds")
						}
					case 1:
						_, err := call(c, w, bg, A, "err")
						rt.Check(err != nil && (!up || strings.Contains(err.Error(), "service says no")), "error-swallowed", "%v", err)
					case 2:
						ctx, cancel := ctxT(100 * time.Millisecond)
						t0 := rt.Elapsed()
						_, err := call(c, w, ctx, A, "slow")
						cancel()
						rt.Check(err != nil && rt.Elapsed()-t0 <= 100*time.Millisecond, "deadline", "%v after %v", err, rt.Elapsed()-t0)
					case 3:
						ctx, cancel := context.WithCancel(bg)
						cancel()
						_, err := call(c, w, ctx, A, "x")
						rt.Check(err != nil, "error-swallowed", "a cancelled call succeeds")
					case 4:
						if up {
							srv.Close()
						} else {
							srv = serve(9001, echo)
						}
						up = !up
					}
				}
				if !up {
					serve(9001, echo)
				}
				ok(c, false, A, "last")
				ok(c, true, A, "last")
			}, noMem, horizon(90*time.Second)),
			S("call-options", "every number of call options: the slot of each call comes back", 0, func() {
				serve(9001, echo)
				c := client(1, A)
				for i := 0; i < 3; i++ {
					n := rt.Choose(5, "options")
					opts := []any{grpc.WaitForReady(true), grpc.MaxCallRecvMsgSize(1 << 20), grpc.WaitForReady(false), grpc.MaxCallSendMsgSize(1 << 20)}[:n:n]
					m := []string{"x", "err", "bad"}[rt.Choose(3, "message")]
					if m == "bad" {
						opts = append(opts, "not an option")
					}
					r := &mock.MockResponse{}
					ctx, cancel := ctxT(time.Second)
					var err error
					if rt.Choose(2, "kind") == 1 {
						err = c.CallWait(ctx, A, mockMethod, &mock.MockRequest{Message: m}, r, opts...)
					} else {
						err = c.Call(ctx, A, mockMethod, &mock.MockRequest{Message: m}, r, opts...)
					}
					cancel()
					switch m {
					case "x":
						rt.Check(err == nil && r.Message == "re:x", "response", "with %d options: %q %v", n, r.Message, err)
					case "bad":
						rt.Check(err != nil && !has(rt.Logged("served"), "bad"), "error-swallowed", "a call with something else among its options: %v", err)
					default:
						rt.Check(err != nil && strings.Contains(err.Error(), "service says no"), "error-swallowed", "with %d options: %v", n, err)
					}
				}
			}, noMem),
			S("limit", "no more than the allowed number of calls at once, and every call is made", pick(tier, 1, 2), func() {
				serve(9001, echo)
				max := 1 + rt.Choose(2, "limit")
				c := client(max, A)
				f := func(m string) func() { return func() { ok(c, false, A, m) } }
				rt.Threads(f("slow1"), f("slow2"), f("slow3"))
				rt.Check(rt.Counted("max") <= max, "limit", "%d at once, limit %d", rt.Counted("max"), max)
				rt.Check(len(rt.Logged("served")) == 3, "delivery-count", "served %v", rt.Logged("served"))
				rt.Check(rt.Elapsed() <= time.Duration(4/max)*time.Second, "limit", "%v for three calls, limit %d", rt.Elapsed(), max)
			}),
			S("limit-cancel", "a call that gives up waiting for a slot is an error and is never made", d, func() {
				serve(9001, echo)
				c := client(1, A)
				rt.Threads(func() { ok(c, false, A, "slow1") }, func() {
					ctx, cancel := ctxT(300 * time.Millisecond)
					defer cancel()
					sleepMs(10)
					_, err := call(c, false, ctx, A, "late")
					rt.Check(err != nil && rt.Elapsed() <= 400*time.Millisecond, "deadline", "%v", err)
				})
				ok(c, false, A, "after")
				rt.Check(!has(rt.Logged("served"), "late"), "delivery-count", "served %v", rt.Logged("served"))
			}),
			S("unknown", "an address that nothing listens on", 0, func() {
				serve(9001, echo)
				c := client(1, A)
				for i := 0; i < 3; i++ {
					w := rt.Choose(2, "kind") == 1
					to := []string{"127.0.0.1:9999", "nowhere:1", ""}[rt.Choose(3, "address")]
					ctx, cancel := ctxT(30 * time.Second)
					_, err := call(c, w, ctx, to, "x")
					rt.Check(err != nil && ctx.Err() == nil, "error-swallowed", "%v", err)
					cancel()
					ok(c, w, A, "y")
				}
			}),
			S("options", "call options: those of grpc are passed on, anything else is an error, and the slot comes back", 0, func() {
				serve(9001, echo)
				c := client(1, A)
				for i := 0; i < 3; i++ {
					f := c.Call
					if rt.Choose(2, "kind") == 1 {
						f = c.CallWait
					}
					r := &mock.MockResponse{}
					var o []interface{}
					good := true
					for j := 0; j < 2; j++ {
						switch rt.Choose(4, "option") {
						case 1:
							o = append(o, grpc.WaitForReady(true))
						case 2:
							o, good = append(o, "text"), false
						case 3:
							o, good = append(o, nil), false
						}
					}
					before := len(rt.Logged("served"))
					err := f(bg, A, mockMethod, &mock.MockRequest{Message: "x"}, r, o...)
					rt.Check((err == nil) == good && (!good || r.Message == "re:x"), "options", "%v: %v %q", o, err, r.Message)
					rt.Check((len(rt.Logged("served")) > before) == good, "options", "%v: served %v", o, rt.Logged("served")[before:])
				}
				ok(c, false, A, "last")
			}, noMem),
			S("reuse", "however many calls go to an address, one connection to it is kept", d, func() {
				serve(9001, echo)
				serve(9002, echo)
				c := client(4, [][]string{nil, {A}, {A, A}, {B, A, B}}[rt.Choose(4, "listed")]...)
				f := func(m string) func() {
					return func() {
						for _, a := range []string{A, B} {
							ok(c, true, a, m)
							rt.Check(mcgrpc.Open(a) >= 1, "connections", "none to %s after a call", a)
						}
					}
				}
				rt.Threads(f("1"), f("2"))
				for i := 0; i < 3; i++ {
					ok(c, rt.Choose(2, "kind") == 1, []string{A, B}[rt.Choose(2, "address")], "3")
				}
				rt.Check(mcgrpc.Open(A) == 1 && mcgrpc.Open(B) == 1, "connections", "%d and %d kept", mcgrpc.Open(A), mcgrpc.Open(B))
			}),
			S("dial", "dial options are used, and an address that cannot be dialed is an error and no more", 0, func() {
				serve(9001, echo)
				var o []bgrpc.ClientOption
				opts := rt.Choose(3, "dial options")
				for i := 0; i < opts; i++ {
					o = append(o, bgrpc.WithDialOptions(grpc.WithChainUnaryInterceptor(func(ctx context.Context, m string, req, rep interface{}, cc *grpc.ClientConn, inv grpc.UnaryInvoker, o ...grpc.CallOption) error {
						rt.Count("dialed", 1)
						return inv(ctx, m, req, rep, cc, o...)
					})))
				}
				const bad = "%zz:1"
				listed := rt.Choose(2, "bad address listed") == 1
				if listed {
					o = append(o, bgrpc.WithClientConns([]string{bad}))
				}
				o = append(o, bgrpc.WithClientConns([]string{A}))
				c := bgrpc.BuildClientWithOption(o...)
				c.Init()
				n := 0
				for i := 0; i < 3; i++ {
					w := rt.Choose(2, "kind") == 1
					switch rt.Choose(2, "address") {
					case 0:
						ok(c, w, A, "x")
						n++
					case 1:
						_, err := call(c, w, bg, bad, "x")
						rt.Check(err != nil, "error-swallowed", "a call to %s succeeds", bad)
					}
				}
				rt.Check(rt.Counted("dialed") == n*opts, "dial-options", "%d calls, %d options, used %d times", n, opts, rt.Counted("dialed"))
			}, noMem),
			S("interceptors", "interceptors of both sides run once per call, in order", 0, func() {
				ci := func(n string) grpc.UnaryClientInterceptor {
					return func(ctx context.Context, m string, req, rep interface{}, cc *grpc.ClientConn, inv grpc.UnaryInvoker, o ...grpc.CallOption) error {
						rt.Log("order", "c%s", n)
						return inv(ctx, m, req, rep, cc, o...)
					}
				}
				si := func(n string) grpc.UnaryServerInterceptor {
					return func(ctx context.Context, req interface{}, info *grpc.UnaryServerInfo, h grpc.UnaryHandler) (interface{}, error) {
						rt.Log("order", "s%s", n)
						return h(ctx, req)
					}
				}
				serve(9001, echo, bgrpc.ServerAppendUnaryInterceptors(si("1")), bgrpc.ServerAppendUnaryInterceptors(si("2")))
				c := bgrpc.BuildClientWithOption(bgrpc.ClientAppendUnaryInterceptors(ci("1")), bgrpc.ClientAppendUnaryInterceptors(ci("2")), bgrpc.WithClientConns([]string{A}))
				c.Init()
				ok(c, rt.Choose(2, "kind") == 1, A, "x")
				rt.Check(join(rt.Logged("order")) == "c1 c2 s1 s2", "interceptors", "%v", rt.Logged("order"))
			}),
			S("close", "a graceful Close waits for the calls in progress, answers them and accepts no more", pick(tier, 1, 2), func() {
				g := rt.Choose(2, "graceful") == 1
				var o []bgrpc.ServerOption
				if g {
					o = append(o, bgrpc.WithServerGracefulStop())
				}
				srv := serve(9001, echo, o...)
				c := client(4, A)
				rt.Threads(func() {
					r, err := call(c, false, bg, A, "slow1")
					rt.Check(err != nil && !g || err == nil && r == "re:slow1", "response", "graceful %v: %q %v", g, r, err)
				}, func() {
					rt.Quiesce()
					sleepMs(100)
					srv.Close()
					_, err := call(c, false, bg, A, "late")
					rt.Check(err != nil, "error-swallowed", "a call after Close succeeds")
				})
				l := rt.Logged("served")
				rt.Check(!has(l, "late"), "delivery-count", "served %v", l)
			}),
			S("faults", "lost requests and responses: an error, at most one execution", 0, func() {
				serve(9001, echo)
				c := client(1, A)
				mcgrpc.EnableFaults(true)
				for i := 0; i < 3; i++ {
					m := fmt.Sprint(i)
					r, err := call(c, rt.Choose(2, "kind") == 1, bg, A, m)
					rt.Quiesce()
					n := 0
					for _, x := range rt.Logged("served") {
						if x == m {
							n++
						}
					}
					rt.Check(n <= 1 && (err != nil || (n == 1 && r == "re:"+m)), "delivery-count", "call %d: %q %v, served %d times", i, r, err, n)
				}
			}, faults(2)),
		}
	})

	// L06: the span reporter.
	register("L06", func(tier string) []rt.Scenario {
		d := pick(tier, 2, 3)
		mk := func(rate float64) (jaeger.Reporter, func(name string)) {
			r := tracer.NewSlowReporter(&sink{}, nil, rate)
			tr, cl := jaeger.NewTracer("x", jaeger.NewConstSampler(true), jaeger.NewNullReporter())
			_ = cl
			return r, func(name string) {
				r.Report(tr.StartSpan(name).(*jaeger.Span))
			}
		}
		all := func(n int) {
			l := rt.Logged("appended")
			s := append([]string{}, l...)
			sort.Strings(s)
			for i := 1; i < len(s); i++ {
				rt.Check(s[i] != s[i-1], "twice", "%v", l)
			}
			rt.Check(len(l) == n, "lost", "%d of %d reported spans arrive: %v", len(l), n, l)
			rt.Check(rt.Counted("flushed") == n, "not-flushed", "%d of %d are flushed before the sender closes", rt.Counted("flushed"), n)
		}
		return []rt.Scenario{
			S("drain", "what is reported before Close is sent and flushed before the sender closes", d, func() {
				r, rep := mk(1)
				rt.Threads(func() { rep("a"); rep("b") }, func() { rep("c") })
				r.Close()
				rt.Check(rt.Counted("sender closed") == 1, "sender-close", "closed %d times", rt.Counted("sender closed"))
				all(3)
			}),
			S("order", "the spans of one goroutine arrive in order", d, func() {
				r, rep := mk(1)
				rep("a")
				rep("b")
				rep("c")
				r.Close()
				rt.Check(join(rt.Logged("appended")) == "a b c", "order", "%v", rt.Logged("appended"))
			}),
			S("full", "a full queue drops, and blocks neither Report nor Close", 0, func() {
				r, rep := mk(1)
				for i := 0; i < 130; i++ {
					rep(fmt.Sprint("s", i))
				}
				rt.Check(rt.Elapsed() == 0, "report-blocks", "took %v", rt.Elapsed())
				r.Close()
				n := len(rt.Logged("appended"))
				rt.Check(n >= 100 && n <= 130, "lost", "%d of 130 arrive, the queue holds 100", n)
				all(n)
			}, noMem),
			S("stuck-sender", "a sender that hangs blocks nobody who reports", 0, func() {
				r := tracer.NewSlowReporter(&sink{slow: true}, nil, 1)
				tr, _ := jaeger.NewTracer("x", jaeger.NewConstSampler(true), jaeger.NewNullReporter())
				for i := 0; i < 110; i++ {
					r.Report(tr.StartSpan("s").(*jaeger.Span))
				}
				rt.Quiesce()
				for i := 0; i < 10; i++ {
					r.Report(tr.StartSpan("s").(*jaeger.Span))
				}
				rt.Check(rt.Elapsed() == 0, "report-blocks", "took %v", rt.Elapsed())
			}, noMem),
			S("close-twice", "Close twice, one after the other and at once", d, func() {
				r, rep := mk(1)
				rep("a")
				rt.Threads(func() { r.Close() }, func() { r.Close() })
				r.Close()
				rt.Check(rt.Counted("sender closed") == 1, "sender-close", "closed %d times", rt.Counted("sender closed"))
				all(1)
			}),
			S("report-vs-close", "spans reported while the reporter closes do no harm", d, func() {
				r, rep := mk(1)
				rt.Threads(func() { rep("a"); rep("b") }, func() { r.Close() })
				rep("late")
				rt.Quiesce()
				l := rt.Logged("appended")
				rt.Check(len(l) <= 2 && !has(l, "late"), "twice", "%v", l)
				rt.Check(rt.Counted("flushed") == len(l), "not-flushed", "%d of %d", rt.Counted("flushed"), len(l))
			}),
			S("periodic", "spans are flushed within a second or so without a Close", 0, func() {
				_, rep := mk(1)
				for i := 0; i < 3; i++ {
					rep(fmt.Sprint(i))
					sleepMs(rt.Choose(3, "pause") * 700)
				}
				sleepMs(1100)
				all(3)
			}),
			S("rate-zero", "with rate zero nothing is sent", 0, func() {
				r, rep := mk(0)
				rep("a")
				rep("b")
				r.Close()
				all(0)
			}),
		}
	})

	// L11: the counted wait group.
	register("L11", func(tier string) []rt.Scenario {
		return []rt.Scenario{
			S("wait", "Wait returns exactly when the count is back at zero", pick(tier, 3, 4), func() {
				w := &warpwaitgroup.WrapWaitGroup{}
				w.Add(2)
				rt.Check(w.Count() == 2, "count", "%d", w.Count())
				f := func() {
					work(1)
					rt.Count("done", 1)
					w.Done()
				}
				rt.Threads(f, f, func() {
					w.Wait()
					rt.Check(rt.Counted("done") == 2 && w.Count() == 0, "early", "Wait returns with %d of 2 done, count %d", rt.Counted("done"), w.Count())
				})
			}),
			S("nested", "work that adds work before it is done", pick(tier, 3, 4), func() {
				w := &warpwaitgroup.WrapWaitGroup{}
				w.Add(1)
				var f func(d int)
				f = func(d int) {
					if d > 0 {
						w.Add(1)
						rt.GoNamed("n", func() { f(d - 1) })
					}
					work(1)
					rt.Count("done", 1)
					w.Done()
				}
				rt.Threads(func() { f(2) }, func() {
					w.Wait()
					rt.Check(rt.Counted("done") == 3 && w.Count() == 0, "early", "Wait returns with %d of 3 done, count %d", rt.Counted("done"), w.Count())
				})
			}),
			S("reuse", "the group is used again after it reached zero", 1, func() {
				w := &warpwaitgroup.WrapWaitGroup{}
				for i := 0; i < 2; i++ {
					w.Add(1)
					rt.Threads(func() { rt.Count("done", 1); w.Done() }, func() {
						w.Wait()
						rt.Check(rt.Counted("done") == i+1, "early", "round %d", i)
					})
				}
				rt.Check(w.Count() == 0, "count", "%d", w.Count())
			}),
		}
	})
}
