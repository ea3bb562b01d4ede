// Package mcredis is an in-memory Redis inside the model checker: the real go-redis client
// talks to it over a fake connection, every command is one scheduling point, the clock is
// virtual, and command failures are explorable faults.
package mcredis

import (
	"errors"
	"fmt"
	"net"
	"sort"
	"strconv"
	"strings"
	"time"

	"context"

	"github.com/pojol/braid/zzmc/rt"
	"github.com/redis/go-redis/v9"
)

type streamID struct{ ms, seq uint64 }

func (a streamID) less(b streamID) bool { return a.ms < b.ms || (a.ms == b.ms && a.seq < b.seq) }
func (a streamID) String() string       { return fmt.Sprintf("%d-%d", a.ms, a.seq) }

type entry struct {
	id streamID
	kv []string
}

type pending struct {
	id       streamID
	consumer string
	at       time.Duration
	n        int
}

type group struct {
	last      streamID
	pel       []*pending
	consumers []string
	read      int
}

func (g *group) consumer(n string) bool {
	for _, c := range g.consumers {
		if c == n {
			return true
		}
	}
	return false
}

func (g *group) addConsumer(n string) {
	if !g.consumer(n) {
		g.consumers = append(g.consumers, n)
	}
}

type stream struct {
	entries []entry
	last    streamID
	groups  map[string]*group
	order   []string
	added   int
}

type value struct {
	kind string // string set hash list zset stream
	str  string
	set  map[string]bool
	hash map[string]string
	list []string
	zset map[string]float64
	st   *stream
	exp  time.Duration // 0 = none
}

// World is the store of one execution.
type World struct {
	keys    map[string]*value
	scripts map[string]string
	now     func() time.Duration
	mc      bool
	faults  bool
	fixed   bool // random picks are not
	filter  func(args []string) bool
	down    bool
	crash   func(stop func())
	mortal  int // goroutine whose commands are crash points
	// Log of executed commands (for the harness).
	ncmd   int
	nfault int
}

// NewWorld returns an empty store outside the model checker (for conformance replay).
func NewWorld(now func() time.Duration) *World {
	return &World{keys: map[string]*value{}, scripts: map[string]string{}, now: now}
}

// Get returns the store of the current execution.
func Get() *World {
	return rt.Val("redis", func() any {
		w := NewWorld(rt.Elapsed)
		w.mc = true
		return w
	}).(*World)
}

// FixRandom makes every random pick the first candidate.
func FixRandom() { Get().fixed = true }

// EnableFaults makes every command accepted by filter (nil = all) a fault point.
func EnableFaults(filter func(args []string) bool) { w := Get(); w.faults, w.filter = true, filter }
func DisableFaults()                               { Get().faults = false }

// EnableCrash makes every command of the calling goroutine a crash point: the process that
// issues it may die just before or just after the store executes it. When it does, crashed
// runs and the goroutine never continues.
func EnableCrash(crashed func()) {
	w := Get()
	w.mortal = rt.Thread()
	w.crash = func(stop func()) {
		w.mortal = 0
		crashed()
		stop()
	}
}

// Client returns a go-redis client connected to the store of this execution.
func Client() *redis.Client {
	w := Get()
	c := redis.NewClient(&redis.Options{
		Addr:             "mc:6379",
		Dialer:           func(ctx context.Context, network, addr string) (net.Conn, error) { return &conn{w: w}, nil },
		MaxRetries:       -1,
		PoolSize:         200,
		DisableIndentity: true,
		ReadTimeout:      -1,
		WriteTimeout:     -1,
	})
	rt.OnCleanup(func() { c.Close() })
	return c
}

// RawClient connects to w outside the model checker.
func RawClient(w *World) *redis.Client {
	return redis.NewClient(&redis.Options{
		Addr:             "mc:6379",
		Dialer:           func(ctx context.Context, network, addr string) (net.Conn, error) { return &conn{w: w}, nil },
		MaxRetries:       -1,
		DisableIndentity: true,
	})
}

// ---------------------------------------------------------------- harness view (no scheduling point)

func (w *World) live(k string) *value {
	v := w.keys[k]
	if v != nil && v.exp != 0 && w.now() >= v.exp {
		delete(w.keys, k)
		return nil
	}
	return v
}

func (w *World) Hash(k string) map[string]string {
	r := map[string]string{}
	if v := w.live(k); v != nil {
		for f, x := range v.hash {
			r[f] = x
		}
	}
	return r
}

func (w *World) Set(k string) []string {
	var r []string
	if v := w.live(k); v != nil {
		for m := range v.set {
			r = append(r, m)
		}
	}
	sort.Strings(r)
	return r
}

func (w *World) Exists(k string) bool { return w.live(k) != nil }

func (w *World) StreamLen(k string) int {
	if v := w.live(k); v != nil && v.st != nil {
		return len(v.st.entries)
	}
	return 0
}

// PendingCount is the number of entries delivered but not acknowledged in a group.
func (w *World) PendingCount(k, g string) int {
	if v := w.live(k); v != nil && v.st != nil && v.st.groups[g] != nil {
		return len(v.st.groups[g].pel)
	}
	return 0
}

func (w *World) Keys() []string {
	var r []string
	for k := range w.keys {
		if w.live(k) != nil {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// Dump describes the whole store.
func (w *World) Dump() string {
	var b strings.Builder
	for _, k := range w.Keys() {
		v := w.keys[k]
		switch v.kind {
		case "string":
			fmt.Fprintf(&b, "%s=%q ", k, v.str)
		case "set":
			fmt.Fprintf(&b, "%s=%v ", k, w.Set(k))
		case "hash":
			var fs []string
			for f, x := range v.hash {
				fs = append(fs, f+":"+x)
			}
			sort.Strings(fs)
			fmt.Fprintf(&b, "%s=%v ", k, fs)
		case "stream":
			fmt.Fprintf(&b, "%s=stream(%d) ", k, len(v.st.entries))
		default:
			fmt.Fprintf(&b, "%s=%s ", k, v.kind)
		}
	}
	return b.String()
}

// ---------------------------------------------------------------- connection

type conn struct {
	w      *World
	in     []byte
	out    []byte
	cmds   [][]string
	multi  bool
	dirty  bool
	queued [][]string
	watch  map[string]string
	closed bool
}

var errReset = errors.New("connection reset by peer")

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func (c *conn) Write(b []byte) (int, error) {
	if c.closed {
		return 0, net.ErrClosed
	}
	c.in = append(c.in, b...)
	for {
		cmd, n, ok := parse(c.in)
		if !ok {
			break
		}
		c.in = c.in[n:]
		c.cmds = append(c.cmds, cmd)
	}
	return len(b), nil
}

func parse(b []byte) ([]string, int, bool) {
	line := func(p int) (string, int, bool) {
		for i := p; i+1 < len(b); i++ {
			if b[i] == '\r' && b[i+1] == '\n' {
				return string(b[p:i]), i + 2, true
			}
		}
		return "", 0, false
	}
	l, p, ok := line(0)
	if !ok || len(l) == 0 || l[0] != '*' {
		return nil, 0, false
	}
	n, _ := strconv.Atoi(l[1:])
	var out []string
	for i := 0; i < n; i++ {
		l, q, ok := line(p)
		if !ok || len(l) == 0 || l[0] != '$' {
			return nil, 0, false
		}
		k, _ := strconv.Atoi(l[1:])
		if q+k+2 > len(b) {
			return nil, 0, false
		}
		out = append(out, string(b[q:q+k]))
		p = q + k + 2
	}
	return out, p, true
}

func (c *conn) Read(b []byte) (int, error) {
	for len(c.out) == 0 {
		if c.closed {
			return 0, net.ErrClosed
		}
		if c.w.mc && !rt.Active() {
			return 0, net.ErrClosed
		}
		if len(c.cmds) == 0 {
			return 0, timeoutErr{}
		}
		cmd := c.cmds[0]
		c.cmds = c.cmds[1:]
		if err := c.exec(cmd); err != nil {
			c.closed = true
			return 0, err
		}
	}
	n := copy(b, c.out)
	c.out = c.out[n:]
	return n, nil
}

func (c *conn) Close() error                     { c.closed = true; return nil }
func (c *conn) LocalAddr() net.Addr              { return addr{} }
func (c *conn) RemoteAddr() net.Addr             { return addr{} }
func (c *conn) SetDeadline(time.Time) error      { return nil }
func (c *conn) SetReadDeadline(time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(time.Time) error { return nil }

type addr struct{}

func (addr) Network() string { return "tcp" }
func (addr) String() string  { return "mc:6379" }

// ---------------------------------------------------------------- replies

type status string
type rerr string
type nilBulk struct{}
type nilArray struct{}

func render(out []byte, v any) []byte {
	switch v := v.(type) {
	case status:
		return append(out, "+"+string(v)+"\r\n"...)
	case rerr:
		return append(out, "-"+string(v)+"\r\n"...)
	case nilBulk:
		return append(out, "$-1\r\n"...)
	case nilArray:
		return append(out, "*-1\r\n"...)
	case int:
		return append(out, ":"+strconv.Itoa(v)+"\r\n"...)
	case bool:
		if v {
			return append(out, ":1\r\n"...)
		}
		return append(out, ":0\r\n"...)
	case string:
		return append(append(append(out, "$"+strconv.Itoa(len(v))+"\r\n"...), v...), "\r\n"...)
	case []string:
		out = append(out, "*"+strconv.Itoa(len(v))+"\r\n"...)
		for _, s := range v {
			out = render(out, s)
		}
		return out
	case []any:
		out = append(out, "*"+strconv.Itoa(len(v))+"\r\n"...)
		for _, s := range v {
			out = render(out, s)
		}
		return out
	}
	panic(fmt.Sprintf("mcredis: cannot render %T", v))
}

const wrongType = rerr("WRONGTYPE Operation against a key holding the wrong kind of value")

var noStep = map[string]bool{"hello": true, "ping": true, "client": true, "select": true, "multi": true, "auth": true, "watch": false, "discard": true, "script": true}

var readOnly = map[string]bool{"get": true, "mget": true, "exists": true, "smembers": true, "scard": true, "sismember": true, "srandmember": true,
	"hget": true, "hgetall": true, "hmget": true, "hkeys": true, "hvals": true, "hlen": true, "hexists": true, "xlen": true, "xrange": true, "xrevrange": true,
	"xinfo": true, "xpending": true, "ttl": true, "pttl": true, "type": true, "zscore": true, "zcard": true, "zrange": true, "zrangebyscore": true, "zrevrange": true, "zrevrank": true, "zrank": true, "strlen": true, "keys": true, "llen": true, "lrange": true, "watch": true, "scan": true, "sscan": true, "hscan": true, "smismember": true, "dbsize": true}

// keysOf lists the keys a command touches.
func keysOf(a []string) []string {
	switch strings.ToLower(a[0]) {
	case "del", "exists", "mget", "watch", "unlink", "touch":
		return a[1:]
	case "xgroup", "xinfo":
		if len(a) > 2 {
			return a[2:3]
		}
	case "xreadgroup", "xread":
		for i := range a {
			if strings.EqualFold(a[i], "streams") {
				n := (len(a) - i - 1) / 2
				return a[i+1 : i+1+n]
			}
		}
	case "eval", "evalsha":
		if len(a) > 2 {
			n, _ := strconv.Atoi(a[2])
			if 3+n <= len(a) {
				return a[3 : 3+n]
			}
		}
	case "keys", "scan", "dbsize", "flushall", "flushdb":
		return []string{"*"}
	case "script", "ping", "hello", "multi", "exec", "discard", "unwatch", "client", "select", "auth":
		return nil
	}
	if len(a) > 1 {
		return a[1:2]
	}
	return nil
}

func (c *conn) step(cmds [][]string) {
	if !c.w.mc {
		return
	}
	first := true
	for _, a := range cmds {
		wr := !readOnly[strings.ToLower(a[0])]
		for _, k := range keysOf(a) {
			if first {
				rt.Step("redis:"+k, wr)
				first = false
			} else {
				rt.Touch("redis:"+k, wr)
			}
		}
	}
	if first {
		rt.Step("redis:", false)
	}
}

func (c *conn) exec(a []string) error {
	if len(a) == 0 {
		return errReset
	}
	name := strings.ToLower(a[0])
	if c.multi && name != "exec" && name != "discard" {
		c.queued = append(c.queued, a)
		c.out = render(c.out, status("QUEUED"))
		return nil
	}
	switch name {
	case "hello":
		c.out = render(c.out, rerr("ERR unknown command 'HELLO'"))
		return nil
	case "ping":
		c.out = render(c.out, status("PONG"))
		return nil
	case "client", "select", "auth":
		c.out = render(c.out, status("OK"))
		return nil
	case "multi":
		c.multi = true
		c.out = render(c.out, status("OK"))
		return nil
	case "discard":
		c.multi, c.queued, c.watch = false, nil, nil
		c.out = render(c.out, status("OK"))
		return nil
	case "unwatch":
		c.watch = nil
		c.out = render(c.out, status("OK"))
		return nil
	}
	batch := [][]string{a}
	if name == "exec" {
		batch = c.queued
		for k := range c.watch {
			batch = append([][]string{{"get", k}}, batch...)
		}
	}
	c.step(batch)
	fault := 0
	w := c.w
	if w.mc && w.faults && (w.filter == nil || w.filter(a)) {
		n := 3
		if name != "exec" && readOnly[name] {
			n = 2
		}
		fault = rt.Fault(n, "redis "+name)
		if fault != 0 {
			w.nfault++
		}
		if fault == 1 {
			rt.Note("redis %s fails (not applied)", strings.Join(a, " "))
			return errReset
		}
	}
	die := 0
	if w.mc && w.mortal != 0 && w.mortal == rt.Thread() {
		die = rt.Fault(3, "crash at redis "+name)
	}
	stop := func() {
		rt.WaitUntil("crashed", func() bool { return false })
	}
	if die == 1 {
		rt.Note("crash before redis %s", strings.Join(a, " "))
		w.crash(stop)
	}
	w.ncmd++
	if die == 2 {
		defer func() {
			rt.Note("crash after redis %s", strings.Join(a, " "))
			w.crash(stop)
		}()
	}
	if name == "exec" {
		q := c.queued
		c.multi, c.queued = false, nil
		ok := true
		for k, s := range c.watch {
			if w.fingerprint(k) != s {
				ok = false
			}
		}
		c.watch = nil
		if !ok {
			c.out = render(c.out, nilArray{})
			return nil
		}
		res := make([]any, 0, len(q))
		for _, a := range q {
			res = append(res, w.apply(a, false))
		}
		if fault == 2 {
			rt.Note("redis EXEC applied, reply lost")
			return errReset
		}
		c.out = render(c.out, res)
		return nil
	}
	if name == "watch" {
		if c.watch == nil {
			c.watch = map[string]string{}
		}
		for _, k := range a[1:] {
			c.watch[k] = w.fingerprint(k)
		}
		c.out = render(c.out, status("OK"))
		return nil
	}
	r := w.apply(a, true)
	if fault == 2 {
		rt.Note("redis %s applied, reply lost", strings.Join(a, " "))
		return errReset
	}
	c.out = render(c.out, r)
	return nil
}

// Faults counts the faults injected so far.
func (w *World) Faults() int { return w.nfault }

// Describe is the kind, content and time to live of one key.
func (w *World) Describe(k string) string {
	v := w.live(k)
	if v == nil {
		return "nothing"
	}
	ttl := time.Duration(0)
	if v.exp != 0 {
		ttl = v.exp - w.now()
	}
	s := fmt.Sprintf("%s %q %v %v %v %v ttl %v", v.kind, v.str, v.set, v.hash, v.list, v.zset, ttl)
	if v.st != nil {
		s += fmt.Sprintf(" entries %d", len(v.st.entries))
		for _, n := range v.st.order {
			g := v.st.groups[n]
			s += fmt.Sprintf(" group %s consumers %v pending %d", n, g.consumers, len(g.pel))
		}
	}
	return s
}

func (w *World) fingerprint(k string) string {
	v := w.live(k)
	if v == nil {
		return ""
	}
	sub := &World{keys: map[string]*value{k: v}, now: w.now}
	return sub.Dump()
}
