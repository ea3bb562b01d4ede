// Command conform replays traces against the environment models and against independent
// implementations (miniredis, the repository's own test store, and grpc-go over loopback)
// and compares every reply.
package main

import (
	"context"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/pojol/braid/zzmc/mcredis"
	"github.com/redis/go-redis/v9"
)

// A family is an alphabet: every sequence of its commands up to the depth is replayed.
type family struct {
	name  string
	depth int
	cmds  []string
}

const regScript = `redis.call("hset", KEYS[1], ARGV[1], ARGV[2])
if redis.call("sadd", KEYS[2], ARGV[2]) == 1 then
	redis.call("hincrby", KEYS[3], ARGV[3], ARGV[4])
end
return 1`

const unregScript = `if redis.call("hget", KEYS[1], ARGV[1]) ~= ARGV[2] then
	return 0
end
redis.call("hdel", KEYS[1], ARGV[1])
redis.call("srem", KEYS[2], ARGV[2])
redis.call("hincrby", KEYS[3], ARGV[3], ARGV[4])
return 1`

const delScript = `if redis.call("get", KEYS[1]) == ARGV[1] then
	return redis.call("del", KEYS[1])
else
	return 0
end`

var families = []family{
	{"lock", 4, []string{"SET k a NX EX 10", "SET k b NX EX 10", "SETNX k c", "EVAL unlock 1 k a", "EVAL unlock 1 k b", "GET k", "DEL k", "@6000", "EXISTS k", "EXPIRE k 3"}},
	{"string", 3, []string{"SET k 1", "SET k x", "SETEX k 5 v", "GET k", "INCR k", "DEL k", "DEL k l", "EXISTS k l", "SADD k m", "HSET k f v", "RPUSH k v", "EXPIRE k 5", "@5000", "TYPE k", "KEYS *", "MGET k l", "SET l 2", "FLUSHALL", "SETNX k y", "TTL k"}},
	{"string2", 3, []string{"SET k 1", "SET k xy", "APPEND k z", "STRLEN k", "GETDEL k", "GET k", "SADD k m", "SET l 2", "SCAN 0", "SCAN 0 MATCH k*", "SCAN 0 TYPE set", "EXISTS k"}},
	{"scans", 3, []string{"SADD s a", "SADD s a b", "SREM s a", "SMISMEMBER s a b", "SSCAN s 0", "SSCAN s 0 MATCH a*", "HSET s f 1", "HSET s f x g 2", "HSCAN s 0", "HSCAN s 0 MATCH g", "DEL s"}},
	{"scores", 4, []string{"ZADD z 1 a", "ZADD z 2 b", "ZINCRBY z 3 a", "ZINCRBY z -1 b", "ZSCORE z a", "ZREVRANGE z 0 -1", "ZREM z a", "SADD z m"}},
	{"hash", 4, []string{"HSET h f 1", "HSET h f x g 2", "HGET h f", "HGETALL h", "HDEL h f", "HDEL h f g", "HINCRBY h f 3", "HINCRBY h g -2", "HLEN h", "HEXISTS h f", "HKEYS h", "DEL h"}},
	{"set", 4, []string{"SADD s a", "SADD s a b", "SREM s a", "SMEMBERS s", "SCARD s", "SISMEMBER s a", "DEL s", "EXISTS s", "SRANDMEMBER s 5", "GET s"}},
	{"list", 4, []string{"RPUSH l a", "RPUSH l b c", "LPUSH l z", "LRANGE l 0 -1", "LRANGE l 1 1", "LPOP l", "RPOP l", "LLEN l", "DEL l"}},
	{"zset", 4, []string{"ZADD z 1 a", "ZADD z 2 a 1 b", "ZADD z 3 c", "ZREM z a", "ZSCORE z a", "ZCARD z", "ZREVRANK z a", "ZREVRANGE z 0 -1", "ZRANGEBYSCORE z 1 2", "ZREVRANGE z 0 0"}},
	{"book", 4, []string{"EVAL reg 3 ids ty node a r1 t 2", "EVAL reg 3 ids ty node a r2 t 2", "EVAL reg 3 ids ty node b r3 t 5", "EVAL unreg 3 ids ty node a r1 t -2", "EVAL unreg 3 ids ty node b r3 t -5", "HGET ids a", "HGETALL node", "SMEMBERS ty", "SCARD ty", "MULTI;SREM ty r1;HDEL ids a;DEL node;EXEC"}},
	{"stream", 5, []string{"XADD s 1-1 msg a event e", "XADD s 2-1 msg b event e", "XGROUP CREATE s g $", "XGROUP CREATE s g 0-0", "XREADGROUP GROUP g c COUNT 1 STREAMS s >", "XREADGROUP GROUP g d COUNT 10 STREAMS s >", "XACK s g 1-1", "XDEL s 1-1", "XLEN s", "XINFO GROUPS s", "XPENDING s g 1-1 1-1 1"}},
	{"groups", 4, []string{"XADD s 1-1 msg a event e", "XGROUP CREATE s g 0-0", "XGROUP CREATE s h $", "XREADGROUP GROUP g c COUNT 1 STREAMS s >", "XREADGROUP GROUP h c COUNT 1 STREAMS s >", "XGROUP DELCONSUMER s g c", "XGROUP DESTROY s g", "XINFO CONSUMERS s g", "XINFO GROUPS s", "DEL s", "EXISTS s", "XLEN s", "XACK s g 1-1 2-1"}},
}

var scripts = map[string]string{"reg": regScript, "unreg": unregScript, "unlock": delScript}

func args(c string) []any {
	f := strings.Fields(c)
	r := make([]any, len(f))
	for i, s := range f {
		r[i] = s
		if i == 1 && f[0] == "EVAL" {
			r[i] = scripts[s]
		}
	}
	return r
}

var unordered = regexp.MustCompile(`^(SMEMBERS|HGETALL|HKEYS|KEYS|SRANDMEMBER)`)
var pairs = regexp.MustCompile(`^HGETALL`)

func norm(cmd string, v any, err error) string {
	if strings.HasPrefix(cmd, "XPENDING") && err == redis.Nil {
		return "[]" // Redis answers with an empty list
	}
	if err == redis.Nil {
		return "nil"
	}
	if err != nil {
		s := strings.ToUpper(err.Error())
		return "error " + strings.Fields(s + " ?")[0] // the class of the error
	}
	if l, ok := v.([]any); ok && unordered.MatchString(cmd) {
		var p []string
		step := 1
		if pairs.MatchString(cmd) {
			step = 2
		}
		for i := 0; i+step <= len(l); i += step {
			p = append(p, fmt.Sprint(l[i:i+step]...))
		}
		sort.Strings(p)
		return fmt.Sprint(p)
	}
	if l, ok := v.([]any); ok && strings.HasPrefix(cmd, "XINFO CONSUMERS") {
		var p []string
		for _, c := range l {
			if s := fmt.Sprint(clean(cmd, c)); !strings.Contains(s, "pending 0") && !strings.Contains(s, "pending:0") {
				p = append(p, s)
			}
		}
		sort.Strings(p)
		return fmt.Sprint(p)
	}
	if l, ok := v.([]any); ok && strings.HasPrefix(cmd, "XINFO GROUPS") { // miniredis reports them in the order of a Go map
		var p []string
		for _, g := range l {
			p = append(p, fmt.Sprint(clean(cmd, g)))
		}
		sort.Strings(p)
		return fmt.Sprint(p)
	}
	return fmt.Sprint(clean(cmd, v))
}

// clean drops what depends on real time (idle times), fields other versions do not report,
// and the number of consumers, which miniredis counts differently.
func clean(cmd string, v any) any {
	switch x := v.(type) {
	case []any:
		var r []any
		for i := 0; i < len(x); i++ {
			if s, ok := x[i].(string); ok && i+1 < len(x) && (s == "idle" || s == "inactive" || s == "entries-read" || s == "lag" || s == "consumers") {
				i++
				continue
			}
			r = append(r, clean(cmd, x[i]))
		}
		if strings.HasPrefix(cmd, "XPENDING") && len(r) == 4 {
			r[2] = "idle"
		}
		return r
	case map[any]any:
		ks := map[string]any{}
		for k, v := range x {
			if s := fmt.Sprint(k); s != "idle" && s != "inactive" && s != "entries-read" && s != "lag" && s != "consumers" {
				ks[s] = clean(cmd, v)
			}
		}
		return ks
	}
	return v
}

func replay(c *redis.Client, advance func(time.Duration), seq []string) []string {
	ctx := context.Background()
	var out []string
	for _, cmd := range seq {
		if cmd[0] == '@' {
			var ms int
			fmt.Sscanf(cmd[1:], "%d", &ms)
			advance(time.Duration(ms) * time.Millisecond)
			continue
		}
		if strings.HasPrefix(cmd, "MULTI;") {
			p := c.TxPipeline()
			l := strings.Split(cmd, ";")
			for _, q := range l[1 : len(l)-1] {
				p.Do(ctx, args(q)...)
			}
			cs, err := p.Exec(ctx)
			var r []string
			for _, q := range cs {
				v, e := q.(*redis.Cmd).Result()
				r = append(r, norm("", v, e))
			}
			out = append(out, fmt.Sprint(r, err != nil))
			continue
		}
		v, err := c.Do(ctx, args(cmd)...).Result()
		out = append(out, norm(cmd, v, err))
	}
	return out
}

// same compares the replies of one trace. miniredis departs from Redis in two places the
// families reach: after an XDEL it takes the last id that is left for the last id of the stream, so
// that an id can be added again and a group created at "$" starts too early, and it takes
// the deleted entry off the pending lists (after that the two streams differ, so the rest
// of the trace says nothing); and it does not create a consumer whose read finds nothing
// (see clean).
func same(seq, model, mini []string) bool {
	k := 0
	for _, c := range seq {
		if c[0] == '@' {
			continue
		}
		if model[k] != mini[k] {
			if strings.HasPrefix(c, "XADD") && strings.HasPrefix(model[k], "error ERR") {
				return has(seq[:k], "XDEL")
			}
			if strings.HasPrefix(c, "XACK") || strings.HasPrefix(c, "XINFO") || strings.HasPrefix(c, "XPENDING") {
				return has(seq[:k], "XDEL")
			}
			return has(seq[:k], "XDEL") && has(seq[:k], "XGROUP CREATE s g $")
		}
		k++
	}
	return true
}

func has(l []string, prefix string) bool {
	for _, s := range l {
		if strings.HasPrefix(s, prefix) {
			return true
		}
	}
	return false
}

func redisConform(max, less int) (n int64, bad []string) {
	const workers = 8
	var mu sync.Mutex
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			mr, err := miniredis.Run()
			if err != nil {
				mu.Lock()
				bad = append(bad, err.Error())
				mu.Unlock()
				return
			}
			defer mr.Close()
			rc := redis.NewClient(&redis.Options{Addr: mr.Addr(), Protocol: 2, DisableIndentity: true})
			defer rc.Close()
			for _, f := range families {
				c, b := part(f, mr, rc, k, workers, max, f.depth-less)
				mu.Lock()
				n += c
				bad = append(bad, b...)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return n, bad
}

// part replays the sequences of a family whose number is k modulo of.
func part(f family, mr *miniredis.Miniredis, rc *redis.Client, k, of, max, depth int) (n int64, bad []string) {
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(f.cmds)
	}
	for t := k; t < total; t += of {
		seq := make([]string, depth)
		for i, x := 0, t; i < depth; i++ {
			seq[i] = f.cmds[x%len(f.cmds)]
			x /= len(f.cmds)
		}
		var now time.Duration
		w := mcredis.NewWorld(func() time.Duration { return now })
		c := mcredis.RawClient(w)
		got := replay(c, func(d time.Duration) { now += d }, seq)
		c.Close()
		mr.FlushAll()
		want := replay(rc, mr.FastForward, seq)
		n++
		if !same(seq, got, want) && len(bad) < max {
			bad = append(bad, fmt.Sprintf("%s %q\n   model     %q\n   miniredis %q", f.name, seq, got, want))
		}
	}
	return n, bad
}
