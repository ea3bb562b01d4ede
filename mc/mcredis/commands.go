package mcredis

import (
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"math"
	"path"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/pojol/braid/zzmc/rt"
	lua "github.com/yuin/gopher-lua"
)

var epochMs = uint64(rt.Epoch.UnixMilli())

func (w *World) get(k, kind string, create bool) (*value, bool) {
	v := w.live(k)
	if v == nil {
		if !create {
			return nil, true
		}
		v = &value{kind: kind}
		switch kind {
		case "set":
			v.set = map[string]bool{}
		case "hash":
			v.hash = map[string]string{}
		case "zset":
			v.zset = map[string]float64{}
		case "stream":
			v.st = &stream{groups: map[string]*group{}}
		}
		w.keys[k] = v
		return v, true
	}
	if v.kind != kind {
		return nil, false
	}
	return v, true
}

func (w *World) drop(k string, v *value) {
	empty := false
	switch v.kind {
	case "set":
		empty = len(v.set) == 0
	case "hash":
		empty = len(v.hash) == 0
	case "zset":
		empty = len(v.zset) == 0
	case "list":
		empty = len(v.list) == 0
	}
	if empty {
		delete(w.keys, k)
	}
}

func argc(a []string) any {
	return rerr("ERR wrong number of arguments for '" + strings.ToLower(a[0]) + "' command")
}

func sorted[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func parseID(s string, seqDefault uint64) (streamID, bool) {
	switch s {
	case "-":
		return streamID{}, true
	case "+":
		return streamID{math.MaxUint64, math.MaxUint64}, true
	}
	p := strings.SplitN(s, "-", 2)
	ms, err := strconv.ParseUint(p[0], 10, 64)
	if err != nil {
		return streamID{}, false
	}
	seq := seqDefault
	if len(p) == 2 {
		seq, err = strconv.ParseUint(p[1], 10, 64)
		if err != nil {
			return streamID{}, false
		}
	}
	return streamID{ms, seq}, true
}

const notInt = rerr("ERR value is not an integer or out of range")

// apply executes one command.
func (w *World) apply(a []string, mayBlock bool) any {
	name := strings.ToLower(a[0])
	n := len(a)
	need := func(k int) bool { return n >= k }
	switch name {
	case "get":
		if n != 2 {
			return argc(a)
		}
		v, ok := w.get(a[1], "string", false)
		if !ok {
			return wrongType
		}
		if v == nil {
			return nilBulk{}
		}
		return v.str
	case "mget":
		var r []any
		for _, k := range a[1:] {
			if v := w.live(k); v != nil && v.kind == "string" {
				r = append(r, v.str)
			} else {
				r = append(r, nilBulk{})
			}
		}
		return r
	case "set", "setnx", "setex", "psetex", "getset":
		if !need(3) {
			return argc(a)
		}
		nv := &value{kind: "string", str: a[2]}
		nx, xx, keep, get := name == "setnx", false, false, name == "getset"
		if name == "setex" || name == "psetex" {
			k, err := strconv.Atoi(a[2])
			if err != nil || n != 4 {
				return notInt
			}
			if k <= 0 {
				return rerr("ERR invalid expire time in '" + name + "' command")
			}
			u := time.Second
			if name == "psetex" {
				u = time.Millisecond
			}
			nv.str = a[3]
			nv.exp = w.now() + time.Duration(k)*u
		} else if name == "set" {
			for i := 3; i < n; i++ {
				switch strings.ToLower(a[i]) {
				case "nx":
					nx = true
				case "xx":
					xx = true
				case "keepttl":
					keep = true
				case "get":
					get = true
				case "ex", "px":
					if i+1 >= n {
						return rerr("ERR syntax error")
					}
					k, err := strconv.Atoi(a[i+1])
					if err != nil {
						return notInt
					}
					if k <= 0 {
						return rerr("ERR invalid expire time in 'set' command")
					}
					u := time.Second
					if strings.ToLower(a[i]) == "px" {
						u = time.Millisecond
					}
					nv.exp = w.now() + time.Duration(k)*u
					i++
				default:
					return rerr("ERR syntax error")
				}
			}
		}
		old := w.live(a[1])
		var ret any = status("OK")
		if get {
			ret = nilBulk{}
			if old != nil {
				if old.kind != "string" {
					return wrongType
				}
				ret = old.str
			}
		}
		if (nx && old != nil) || (xx && old == nil) {
			if name == "setnx" {
				return 0
			}
			if get {
				return ret
			}
			return nilBulk{}
		}
		if keep && old != nil {
			nv.exp = old.exp
		}
		w.keys[a[1]] = nv
		if name == "setnx" {
			return 1
		}
		return ret
	case "del", "unlink":
		c := 0
		for _, k := range a[1:] {
			if w.live(k) != nil {
				delete(w.keys, k)
				c++
			}
		}
		return c
	case "exists":
		c := 0
		for _, k := range a[1:] {
			if w.live(k) != nil {
				c++
			}
		}
		return c
	case "type":
		if v := w.live(a[1]); v != nil {
			return status(v.kind)
		}
		return status("none")
	case "keys":
		var r []string
		for _, k := range w.Keys() {
			if a[1] == "*" || k == a[1] || (strings.HasSuffix(a[1], "*") && strings.HasPrefix(k, strings.TrimSuffix(a[1], "*"))) {
				r = append(r, k)
			}
		}
		return r
	case "dbsize":
		return len(w.Keys())
	case "flushall", "flushdb":
		w.keys = map[string]*value{}
		return status("OK")
	case "expire", "pexpire":
		if !need(3) {
			return argc(a)
		}
		k, err := strconv.Atoi(a[2])
		if err != nil {
			return notInt
		}
		v := w.live(a[1])
		if v == nil {
			return 0
		}
		u := time.Second
		if name == "pexpire" {
			u = time.Millisecond
		}
		if k <= 0 {
			delete(w.keys, a[1])
			return 1
		}
		v.exp = w.now() + time.Duration(k)*u
		return 1
	case "persist":
		if v := w.live(a[1]); v != nil && v.exp != 0 {
			v.exp = 0
			return 1
		}
		return 0
	case "ttl", "pttl":
		v := w.live(a[1])
		if v == nil {
			return -2
		}
		if v.exp == 0 {
			return -1
		}
		if name == "ttl" {
			return int((v.exp - w.now() + time.Second/2) / time.Second)
		}
		return int((v.exp - w.now()) / time.Millisecond)
	case "incr", "decr", "incrby", "decrby":
		d := 1
		if name == "incrby" || name == "decrby" {
			if !need(3) {
				return argc(a)
			}
			k, err := strconv.Atoi(a[2])
			if err != nil {
				return notInt
			}
			d = k
		}
		if name[0] == 'd' {
			d = -d
		}
		v, ok := w.get(a[1], "string", false)
		if !ok {
			return wrongType
		}
		cur := 0
		if v != nil {
			k, err := strconv.Atoi(v.str)
			if err != nil {
				return notInt
			}
			cur = k
		} else {
			v, _ = w.get(a[1], "string", true)
		}
		v.str = strconv.Itoa(cur + d)
		return cur + d

	case "strlen", "getdel", "append":
		if name == "append" && !need(3) {
			return argc(a)
		}
		v, ok := w.get(a[1], "string", name == "append")
		if !ok {
			return wrongType
		}
		switch {
		case name == "append":
			v.str += a[2]
			return len(v.str)
		case name == "strlen" && v == nil:
			return 0
		case name == "strlen":
			return len(v.str)
		case v == nil:
			return nilBulk{}
		}
		delete(w.keys, a[1])
		return v.str
	case "scan", "sscan", "hscan":
		i, pattern := 2, "*"
		kind := map[string]string{"sscan": "set", "hscan": "hash"}[name]
		if name == "sscan" || name == "hscan" {
			i = 3
		}
		if n < i {
			return argc(a)
		}
		for ; i+1 < n; i += 2 {
			switch strings.ToLower(a[i]) {
			case "match":
				pattern = a[i+1]
			case "type":
				kind = strings.ToLower(a[i+1])
			}
		}
		fits := func(k string) bool {
			ok, _ := path.Match(pattern, k)
			return ok || pattern == "*"
		}
		r := []string{}
		if name == "scan" {
			for _, k := range w.Keys() {
				if fits(k) && (kind == "" || w.live(k).kind == kind) {
					r = append(r, k)
				}
			}
			return []any{"0", r}
		}
		v, ok := w.get(a[1], kind, false)
		if !ok {
			return wrongType
		}
		if v != nil {
			for _, k := range sorted(v.set) {
				if fits(k) {
					r = append(r, k)
				}
			}
			for _, k := range sorted(v.hash) {
				if fits(k) {
					r = append(r, k, v.hash[k])
				}
			}
		}
		return []any{"0", r}

	// ---- sets
	case "smismember":
		if !need(3) {
			return argc(a)
		}
		v, ok := w.get(a[1], "set", false)
		if !ok {
			return wrongType
		}
		r := []any{}
		for _, m := range a[2:] {
			if v != nil && v.set[m] {
				r = append(r, 1)
			} else {
				r = append(r, 0)
			}
		}
		return r
	case "sadd":
		if !need(3) {
			return argc(a)
		}
		v, ok := w.get(a[1], "set", true)
		if !ok {
			return wrongType
		}
		c := 0
		for _, m := range a[2:] {
			if !v.set[m] {
				v.set[m] = true
				c++
			}
		}
		return c
	case "srem":
		if !need(3) {
			return argc(a)
		}
		v, ok := w.get(a[1], "set", false)
		if !ok {
			return wrongType
		}
		if v == nil {
			return 0
		}
		c := 0
		for _, m := range a[2:] {
			if v.set[m] {
				delete(v.set, m)
				c++
			}
		}
		w.drop(a[1], v)
		return c
	case "smembers", "scard", "sismember", "srandmember", "spop":
		v, ok := w.get(a[1], "set", false)
		if !ok {
			return wrongType
		}
		var ms []string
		if v != nil {
			ms = sorted(v.set)
		}
		switch name {
		case "smembers":
			return ms
		case "scard":
			return len(ms)
		case "sismember":
			return v != nil && v.set[a[2]]
		}
		pop := name == "spop"
		rm := func(m string) {
			if pop {
				delete(v.set, m)
				w.drop(a[1], v)
			}
		}
		if n == 2 {
			if len(ms) == 0 {
				return nilBulk{}
			}
			m := ms[w.rand(len(ms))]
			rm(m)
			return m
		}
		k, err := strconv.Atoi(a[2])
		if err != nil {
			return notInt
		}
		r := []string{}
		if k < 0 && !pop { // with repetitions
			for ; k < 0 && len(ms) > 0; k++ {
				r = append(r, ms[w.rand(len(ms))])
			}
			return r
		}
		for k > 0 && len(ms) > 0 {
			i := w.rand(len(ms))
			r = append(r, ms[i])
			rm(ms[i])
			ms = append(ms[:i:i], ms[i+1:]...)
			k--
		}
		for k < 0 && len(ms) > 0 {
			r = append(r, ms[w.rand(len(ms))])
			k++
		}
		return r

	// ---- hashes
	case "hset", "hmset":
		if n < 4 || n%2 != 0 {
			return argc(a)
		}
		v, ok := w.get(a[1], "hash", true)
		if !ok {
			return wrongType
		}
		c := 0
		for i := 2; i < n; i += 2 {
			if _, ok := v.hash[a[i]]; !ok {
				c++
			}
			v.hash[a[i]] = a[i+1]
		}
		if name == "hmset" {
			return status("OK")
		}
		return c
	case "hsetnx":
		v, ok := w.get(a[1], "hash", true)
		if !ok {
			return wrongType
		}
		if _, ok := v.hash[a[2]]; ok {
			return 0
		}
		v.hash[a[2]] = a[3]
		return 1
	case "hget", "hexists", "hgetall", "hkeys", "hvals", "hlen", "hmget", "hdel", "hstrlen":
		v, ok := w.get(a[1], "hash", false)
		if !ok {
			return wrongType
		}
		h := map[string]string{}
		if v != nil {
			h = v.hash
		}
		switch name {
		case "hget":
			if !need(3) {
				return argc(a)
			}
			if x, ok := h[a[2]]; ok {
				return x
			}
			return nilBulk{}
		case "hexists":
			_, ok := h[a[2]]
			return ok
		case "hgetall":
			r := []string{}
			for _, k := range sorted(h) {
				r = append(r, k, h[k])
			}
			return r
		case "hkeys":
			return sorted(h)
		case "hvals":
			r := []string{}
			for _, k := range sorted(h) {
				r = append(r, h[k])
			}
			return r
		case "hlen":
			return len(h)
		case "hstrlen":
			return len(h[a[2]])
		case "hmget":
			r := []any{}
			for _, k := range a[2:] {
				if x, ok := h[k]; ok {
					r = append(r, x)
				} else {
					r = append(r, nilBulk{})
				}
			}
			return r
		case "hdel":
			if !need(3) {
				return argc(a)
			}
			c := 0
			for _, k := range a[2:] {
				if _, ok := h[k]; ok {
					delete(h, k)
					c++
				}
			}
			if v != nil {
				w.drop(a[1], v)
			}
			return c
		}
	case "hincrby":
		if n != 4 {
			return argc(a)
		}
		d, err := strconv.Atoi(a[3])
		if err != nil {
			return notInt
		}
		v, ok := w.get(a[1], "hash", true)
		if !ok {
			return wrongType
		}
		cur := 0
		if s, ok := v.hash[a[2]]; ok {
			k, err := strconv.Atoi(s)
			if err != nil {
				return rerr("ERR hash value is not an integer")
			}
			cur = k
		}
		v.hash[a[2]] = strconv.Itoa(cur + d)
		return cur + d

	// ---- lists
	case "lpush", "rpush", "lpop", "rpop", "llen", "lrange":
		create := name == "lpush" || name == "rpush"
		v, ok := w.get(a[1], "list", create)
		if !ok {
			return wrongType
		}
		if v == nil {
			switch name {
			case "llen":
				return 0
			case "lrange":
				return []string{}
			}
			return nilBulk{}
		}
		switch name {
		case "lpush":
			for _, x := range a[2:] {
				v.list = append([]string{x}, v.list...)
			}
			return len(v.list)
		case "rpush":
			v.list = append(v.list, a[2:]...)
			return len(v.list)
		case "llen":
			return len(v.list)
		case "lpop":
			x := v.list[0]
			v.list = v.list[1:]
			w.drop(a[1], v)
			return x
		case "rpop":
			x := v.list[len(v.list)-1]
			v.list = v.list[:len(v.list)-1]
			w.drop(a[1], v)
			return x
		case "lrange":
			s, _ := strconv.Atoi(a[2])
			e, _ := strconv.Atoi(a[3])
			return slice(v.list, s, e)
		}

	// ---- sorted sets
	case "zincrby":
		if !need(4) {
			return argc(a)
		}
		f, err := strconv.ParseFloat(a[2], 64)
		if err != nil {
			return rerr("ERR value is not a valid float")
		}
		v, ok := w.get(a[1], "zset", true)
		if !ok {
			return wrongType
		}
		v.zset[a[3]] += f
		return strconv.FormatFloat(v.zset[a[3]], 'f', -1, 64)
	case "zadd":
		v, ok := w.get(a[1], "zset", true)
		if !ok {
			return wrongType
		}
		i, c := 2, 0
		nx, xx := false, false
		for ; i < n; i++ {
			s := strings.ToLower(a[i])
			if s == "nx" {
				nx = true
			} else if s == "xx" {
				xx = true
			} else if s != "ch" && s != "gt" && s != "lt" {
				break
			}
		}
		for ; i+1 < n; i += 2 {
			f, err := strconv.ParseFloat(a[i], 64)
			if err != nil {
				return rerr("ERR value is not a valid float")
			}
			_, had := v.zset[a[i+1]]
			if (nx && had) || (xx && !had) {
				continue
			}
			if !had {
				c++
			}
			v.zset[a[i+1]] = f
		}
		w.drop(a[1], v)
		return c
	case "zrem", "zscore", "zcard", "zrange", "zrevrange", "zrank", "zrevrank", "zrangebyscore":
		v, ok := w.get(a[1], "zset", false)
		if !ok {
			return wrongType
		}
		z := map[string]float64{}
		if v != nil {
			z = v.zset
		}
		ms := sorted(z)
		sort.SliceStable(ms, func(i, j int) bool { return z[ms[i]] < z[ms[j]] })
		fm := func(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }
		switch name {
		case "zrem":
			c := 0
			for _, m := range a[2:] {
				if _, ok := z[m]; ok {
					delete(z, m)
					c++
				}
			}
			if v != nil {
				w.drop(a[1], v)
			}
			return c
		case "zscore":
			if f, ok := z[a[2]]; ok {
				return fm(f)
			}
			return nilBulk{}
		case "zcard":
			return len(z)
		case "zrank", "zrevrank":
			for i, m := range ms {
				if m == a[2] {
					if name == "zrevrank" {
						return len(ms) - 1 - i
					}
					return i
				}
			}
			return nilBulk{}
		case "zrange", "zrevrange":
			if name == "zrevrange" {
				for i, j := 0, len(ms)-1; i < j; i, j = i+1, j-1 {
					ms[i], ms[j] = ms[j], ms[i]
				}
			}
			s, _ := strconv.Atoi(a[2])
			e, _ := strconv.Atoi(a[3])
			r := slice(ms, s, e)
			if n > 4 && strings.EqualFold(a[4], "withscores") {
				var o []string
				for _, m := range r {
					o = append(o, m, fm(z[m]))
				}
				return o
			}
			return r
		case "zrangebyscore":
			lim := func(s string, d float64) (float64, bool) {
				ex := strings.HasPrefix(s, "(")
				s = strings.TrimPrefix(s, "(")
				if s == "-inf" {
					return math.Inf(-1), ex
				}
				if s == "+inf" || s == "inf" {
					return math.Inf(1), ex
				}
				f, _ := strconv.ParseFloat(s, 64)
				return f, ex
			}
			lo, lx := lim(a[2], 0)
			hi, hx := lim(a[3], 0)
			r := []string{}
			for _, m := range ms {
				f := z[m]
				if f < lo || f > hi || (lx && f == lo) || (hx && f == hi) {
					continue
				}
				r = append(r, m)
			}
			return r
		}

	case "eval", "evalsha":
		if !need(3) {
			return argc(a)
		}
		src := a[1]
		if name == "evalsha" {
			s, ok := w.scripts[strings.ToLower(a[1])]
			if !ok {
				return rerr("NOSCRIPT No matching script. Please use EVAL.")
			}
			src = s
		} else {
			h := sha1.Sum([]byte(src))
			w.scripts[hex.EncodeToString(h[:])] = src
		}
		return w.script(src, a[2:])
	case "script":
		if n == 3 && strings.EqualFold(a[1], "load") {
			h := sha1.Sum([]byte(a[2]))
			x := hex.EncodeToString(h[:])
			w.scripts[x] = a[2]
			return x
		}
		if strings.EqualFold(a[1], "exists") {
			r := []any{}
			for _, s := range a[2:] {
				_, ok := w.scripts[strings.ToLower(s)]
				r = append(r, ok)
			}
			return r
		}
		return status("OK")
	}
	if strings.HasPrefix(name, "x") {
		return w.stream(name, a, mayBlock)
	}
	return rerr(fmt.Sprintf("ERR unknown command '%s'", a[0]))
}

func slice(l []string, s, e int) []string {
	if s < 0 {
		s += len(l)
	}
	if e < 0 {
		e += len(l)
	}
	if s < 0 {
		s = 0
	}
	if e >= len(l) {
		e = len(l) - 1
	}
	if s > e {
		return []string{}
	}
	return append([]string{}, l[s:e+1]...)
}

func (w *World) rand(n int) int {
	if w.fixed {
		return 0
	}
	if !w.mc {
		return 0
	}
	return rt.Deviate(n, "redis random member")
}

// ---------------------------------------------------------------- streams

const noGroupF = "NOGROUP No such key '%s' or consumer group '%s' in XREADGROUP with GROUP option"

func entryReply(e entry) any { return []any{e.id.String(), append([]string{}, e.kv...)} }

func (w *World) stream(name string, a []string, mayBlock bool) any {
	n := len(a)
	switch name {
	case "xadd":
		if n < 5 {
			return argc(a)
		}
		i := 2
		mk := true
		maxlen, minid := -1, ""
	opts:
		for i < n {
			switch strings.ToLower(a[i]) {
			case "nomkstream":
				mk = false
				i++
			case "maxlen", "minid":
				k := strings.ToLower(a[i])
				i++
				if i < n && (a[i] == "~" || a[i] == "=") {
					i++
				}
				if i >= n {
					return rerr("ERR syntax error")
				}
				if k == "maxlen" {
					v, err := strconv.Atoi(a[i])
					if err != nil {
						return notInt
					}
					maxlen = v
				} else {
					minid = a[i]
				}
				i++
			case "limit":
				i += 2
			default:
				break opts
			}
		}
		if i >= n || (n-i-1)%2 != 0 || n-i-1 == 0 {
			return argc(a)
		}
		v, ok := w.get(a[1], "stream", false)
		if !ok {
			return wrongType
		}
		if v == nil {
			if !mk {
				return nilBulk{}
			}
			v, _ = w.get(a[1], "stream", true)
		}
		st := v.st
		id := streamID{epochMs + uint64(w.now()/time.Millisecond), 0}
		if a[i] != "*" {
			p, ok := parseID(strings.TrimSuffix(a[i], "-*"), 0)
			if !ok {
				return rerr("ERR Invalid stream ID specified as stream command argument")
			}
			id = p
			if !st.last.less(id) {
				return rerr("ERR The ID specified in XADD is equal or smaller than the target stream top item")
			}
		} else if !st.last.less(id) {
			id = streamID{st.last.ms, st.last.seq + 1}
		}
		st.entries = append(st.entries, entry{id, append([]string{}, a[i+1:]...)})
		st.last = id
		st.added++
		if maxlen >= 0 && len(st.entries) > maxlen {
			st.entries = append([]entry{}, st.entries[len(st.entries)-maxlen:]...)
		}
		if minid != "" {
			if p, ok := parseID(minid, 0); ok {
				for len(st.entries) > 0 && st.entries[0].id.less(p) {
					st.entries = st.entries[1:]
				}
			}
		}
		return id.String()
	case "xlen":
		v, ok := w.get(a[1], "stream", false)
		if !ok {
			return wrongType
		}
		if v == nil {
			return 0
		}
		return len(v.st.entries)
	case "xdel":
		v, ok := w.get(a[1], "stream", false)
		if !ok {
			return wrongType
		}
		c := 0
		for _, s := range a[2:] {
			id, ok := parseID(s, 0)
			if !ok {
				return rerr("ERR Invalid stream ID specified as stream command argument")
			}
			if v == nil {
				continue
			}
			for i, e := range v.st.entries {
				if e.id == id {
					v.st.entries = append(v.st.entries[:i:i], v.st.entries[i+1:]...)
					c++
					break
				}
			}
		}
		return c
	case "xtrim":
		v, ok := w.get(a[1], "stream", false)
		if !ok {
			return wrongType
		}
		if v == nil {
			return 0
		}
		k, err := strconv.Atoi(a[n-1])
		if err != nil {
			return notInt
		}
		c := len(v.st.entries) - k
		if c <= 0 {
			return 0
		}
		v.st.entries = append([]entry{}, v.st.entries[c:]...)
		return c
	case "xrange", "xrevrange":
		v, ok := w.get(a[1], "stream", false)
		if !ok {
			return wrongType
		}
		r := []any{}
		if v == nil || n < 4 {
			return r
		}
		s, e := a[2], a[3]
		if name == "xrevrange" {
			s, e = e, s
		}
		lo, _ := parseID(strings.TrimPrefix(s, "("), 0)
		hi, _ := parseID(strings.TrimPrefix(e, "("), math.MaxUint64)
		for _, x := range v.st.entries {
			if x.id.less(lo) || hi.less(x.id) || (s[0] == '(' && x.id == lo) || (e[0] == '(' && x.id == hi) {
				continue
			}
			r = append(r, entryReply(x))
		}
		if name == "xrevrange" {
			for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
				r[i], r[j] = r[j], r[i]
			}
		}
		for i := 4; i+1 < n; i++ {
			if strings.EqualFold(a[i], "count") {
				if k, _ := strconv.Atoi(a[i+1]); k < len(r) {
					r = r[:k]
				}
			}
		}
		return r
	case "xack":
		v, ok := w.get(a[1], "stream", false)
		if !ok {
			return wrongType
		}
		if v == nil || v.st.groups[a[2]] == nil {
			return 0
		}
		g := v.st.groups[a[2]]
		c := 0
		for _, s := range a[3:] {
			id, _ := parseID(s, 0)
			for i, p := range g.pel {
				if p.id == id {
					g.pel = append(g.pel[:i:i], g.pel[i+1:]...)
					c++
					break
				}
			}
		}
		return c
	case "xgroup":
		return w.xgroup(a)
	case "xinfo":
		if n < 3 {
			return argc(a)
		}
		v, ok := w.get(a[2], "stream", false)
		if !ok {
			return wrongType
		}
		if v == nil {
			return rerr("ERR no such key")
		}
		st := v.st
		switch strings.ToLower(a[1]) {
		case "stream":
			return []any{"length", len(st.entries), "radix-tree-keys", 1, "radix-tree-nodes", 2, "last-generated-id", st.last.String(), "groups", len(st.groups), "first-entry", nilBulk{}, "last-entry", nilBulk{}}
		case "groups":
			r := []any{}
			for _, gn := range st.order {
				g := st.groups[gn]
				r = append(r, []any{"name", gn, "consumers", len(g.consumers), "pending", len(g.pel), "last-delivered-id", g.last.String(), "entries-read", g.read, "lag", st.added - g.read})
			}
			return r
		case "consumers":
			g := st.groups[a[3]]
			if g == nil {
				return rerr(fmt.Sprintf("NOGROUP No such consumer group '%s' for key name '%s'", a[3], a[2]))
			}
			r := []any{}
			for _, c := range g.consumers {
				k := 0
				for _, p := range g.pel {
					if p.consumer == c {
						k++
					}
				}
				r = append(r, []any{"name", c, "pending", k, "idle", 0, "inactive", 0})
			}
			return r
		}
	case "xpending":
		v, ok := w.get(a[1], "stream", false)
		if !ok {
			return wrongType
		}
		if v == nil || v.st.groups[a[2]] == nil {
			return rerr(fmt.Sprintf("NOGROUP No such key '%s' or consumer group '%s'", a[1], a[2]))
		}
		g := v.st.groups[a[2]]
		if n == 3 {
			if len(g.pel) == 0 {
				return []any{0, nilBulk{}, nilBulk{}, nilArray{}}
			}
			cs := []any{}
			for _, c := range g.consumers {
				k := 0
				for _, p := range g.pel {
					if p.consumer == c {
						k++
					}
				}
				if k > 0 {
					cs = append(cs, []any{c, strconv.Itoa(k)})
				}
			}
			return []any{len(g.pel), g.pel[0].id.String(), g.pel[len(g.pel)-1].id.String(), cs}
		}
		r := []any{}
		args := a[3:]
		idle := time.Duration(0)
		if strings.EqualFold(args[0], "idle") && len(args) > 2 {
			k, _ := strconv.Atoi(args[1])
			idle, args = time.Duration(k)*time.Millisecond, args[2:]
		}
		if len(args) < 3 {
			return rerr("ERR syntax error")
		}
		lo, ok1 := parseID(strings.TrimPrefix(args[0], "("), 0)
		hi, ok2 := parseID(strings.TrimPrefix(args[1], "("), math.MaxUint64)
		count, err := strconv.Atoi(args[2])
		if !ok1 || !ok2 || err != nil {
			return rerr("ERR Invalid stream ID specified as stream command argument")
		}
		for _, p := range g.pel {
			if p.id.less(lo) || hi.less(p.id) || (args[0][0] == '(' && p.id == lo) || (args[1][0] == '(' && p.id == hi) ||
				w.now()-p.at < idle || (len(args) > 3 && p.consumer != args[3]) {
				continue
			}
			if len(r) == count {
				break
			}
			r = append(r, []any{p.id.String(), p.consumer, int((w.now() - p.at) / time.Millisecond), p.n})
		}
		return r
	case "xclaim", "xautoclaim":
		v, ok := w.get(a[1], "stream", false)
		if !ok {
			return wrongType
		}
		if v == nil || v.st.groups[a[2]] == nil {
			return rerr(fmt.Sprintf("NOGROUP No such key '%s' or consumer group '%s'", a[1], a[2]))
		}
		g := v.st.groups[a[2]]
		idle, _ := strconv.Atoi(a[4])
		g.addConsumer(a[3])
		r := []any{}
		for _, p := range g.pel {
			sel := name == "xautoclaim"
			for _, s := range a[5:] {
				if id, ok := parseID(s, 0); ok && id == p.id && name == "xclaim" {
					sel = true
				}
			}
			if !sel || w.now()-p.at < time.Duration(idle)*time.Millisecond {
				continue
			}
			for _, e := range v.st.entries {
				if e.id == p.id {
					p.consumer, p.at = a[3], w.now()
					p.n++
					r = append(r, entryReply(e))
				}
			}
		}
		if name == "xautoclaim" {
			return []any{"0-0", r, []any{}}
		}
		return r
	case "xreadgroup":
		return w.xreadgroup(a, mayBlock)
	case "xread":
		return rerr("ERR XREAD is not modelled")
	}
	return rerr(fmt.Sprintf("ERR unknown command '%s'", a[0]))
}

func (w *World) xgroup(a []string) any {
	n := len(a)
	if n < 4 {
		return argc(a)
	}
	sub := strings.ToLower(a[1])
	v, ok := w.get(a[2], "stream", false)
	if !ok {
		return wrongType
	}
	if v == nil {
		mk := sub == "create" && n > 5 && strings.EqualFold(a[5], "mkstream")
		if !mk {
			return rerr("ERR The XGROUP subcommand requires the key to exist. Note that for CREATE you may want to use the MKSTREAM option to create an empty stream automatically.")
		}
		v, _ = w.get(a[2], "stream", true)
	}
	st := v.st
	g := st.groups[a[3]]
	noGroup := rerr(fmt.Sprintf("NOGROUP No such consumer group '%s' for key name '%s'", a[3], a[2]))
	switch sub {
	case "create":
		if g != nil {
			return rerr("BUSYGROUP Consumer Group name already exists")
		}
		id := st.last
		if a[4] != "$" {
			p, ok := parseID(a[4], 0)
			if !ok {
				return rerr("ERR Invalid stream ID specified as stream command argument")
			}
			id = p
		}
		st.groups[a[3]] = &group{last: id}
		st.order = append(st.order, a[3])
		return status("OK")
	case "setid":
		if g == nil {
			return noGroup
		}
		if a[4] == "$" {
			g.last = st.last
		} else if p, ok := parseID(a[4], 0); ok {
			g.last = p
		}
		return status("OK")
	case "destroy":
		if g == nil {
			return 0
		}
		delete(st.groups, a[3])
		for i, o := range st.order {
			if o == a[3] {
				st.order = append(st.order[:i:i], st.order[i+1:]...)
			}
		}
		return 1
	case "createconsumer":
		if g == nil {
			return noGroup
		}
		had := g.consumer(a[4])
		g.addConsumer(a[4])
		return !had
	case "delconsumer":
		if g == nil {
			return noGroup
		}
		c := 0
		var keep []*pending
		for _, p := range g.pel {
			if p.consumer == a[4] {
				c++
			} else {
				keep = append(keep, p)
			}
		}
		g.pel = keep
		for i, o := range g.consumers {
			if o == a[4] {
				g.consumers = append(g.consumers[:i:i], g.consumers[i+1:]...)
				break
			}
		}
		return c
	}
	return rerr("ERR unknown subcommand")
}

func (w *World) xreadgroup(a []string, mayBlock bool) any {
	n := len(a)
	var gname, cname string
	count, block, noack := 0, -1, false
	var keys, ids []string
	for i := 1; i < n; i++ {
		switch strings.ToLower(a[i]) {
		case "group":
			if i+2 >= n {
				return rerr("ERR syntax error")
			}
			gname, cname = a[i+1], a[i+2]
			i += 2
		case "count":
			count, _ = strconv.Atoi(a[i+1])
			i++
		case "block":
			block, _ = strconv.Atoi(a[i+1])
			i++
		case "noack":
			noack = true
		case "streams":
			r := a[i+1:]
			if len(r)%2 != 0 || len(r) == 0 {
				return rerr("ERR Unbalanced 'xreadgroup' list of streams: for each stream key an ID or '>' must be specified.")
			}
			keys, ids = r[:len(r)/2], r[len(r)/2:]
			i = n
		default:
			return rerr("ERR syntax error")
		}
	}
	// attempt returns a reply, or nil when nothing is there
	attempt := func() any {
		var res []any
		for i, k := range keys {
			v, ok := w.get(k, "stream", false)
			if !ok {
				return wrongType
			}
			if v == nil || v.st.groups[gname] == nil {
				return rerr(fmt.Sprintf(noGroupF, k, gname))
			}
			st, g := v.st, v.st.groups[gname]
			g.addConsumer(cname)
			var es []any
			if ids[i] == ">" {
				for _, e := range st.entries {
					if !g.last.less(e.id) {
						continue
					}
					if count > 0 && len(es) >= count {
						break
					}
					es = append(es, entryReply(e))
					g.last = e.id
					g.read++
					if !noack {
						g.pel = append(g.pel, &pending{id: e.id, consumer: cname, at: w.now(), n: 1})
					}
				}
				if len(es) > 0 {
					res = append(res, []any{k, es})
				}
			} else {
				from, ok := parseID(ids[i], 0)
				if !ok {
					return rerr("ERR Invalid stream ID specified as stream command argument")
				}
				es = []any{}
				for _, p := range g.pel {
					if p.consumer != cname || !from.less(p.id) {
						continue
					}
					if count > 0 && len(es) >= count {
						break
					}
					found := false
					for _, e := range st.entries {
						if e.id == p.id {
							es = append(es, entryReply(e))
							found = true
						}
					}
					if !found {
						es = append(es, []any{p.id.String(), nilArray{}})
					}
				}
				res = append(res, []any{k, es})
			}
		}
		if res == nil {
			return nil
		}
		return res
	}
	if r := attempt(); r != nil {
		return r
	}
	if block < 0 || !mayBlock || !w.mc {
		return nilArray{}
	}
	ready := func() bool {
		for _, k := range keys {
			v := w.live(k)
			if v == nil || v.st == nil || v.st.groups[gname] == nil {
				return true
			}
			g := v.st.groups[gname]
			for _, e := range v.st.entries {
				if g.last.less(e.id) {
					return true
				}
			}
		}
		return false
	}
	got := true
	what := "XREADGROUP " + strings.Join(keys, ",") + " " + gname
	if block == 0 {
		rt.WaitUntil(what, ready)
	} else {
		got = rt.WaitTimeout(what, time.Duration(block)*time.Millisecond, ready)
	}
	for _, k := range keys {
		rt.Touch("redis:"+k, got)
	}
	if !got {
		return nilArray{}
	}
	if r := attempt(); r != nil {
		return r
	}
	return nilArray{}
}

// ---------------------------------------------------------------- scripts

func (w *World) script(src string, a []string) any {
	nk, err := strconv.Atoi(a[0])
	if err != nil || nk < 0 || 1+nk > len(a) {
		return rerr("ERR Number of keys can't be greater than number of args")
	}
	L := lua.NewState()
	defer L.Close()
	keys, argv := L.NewTable(), L.NewTable()
	for _, k := range a[1 : 1+nk] {
		keys.Append(lua.LString(k))
	}
	for _, k := range a[1+nk:] {
		argv.Append(lua.LString(k))
	}
	L.SetGlobal("KEYS", keys)
	L.SetGlobal("ARGV", argv)
	call := func(protect bool) lua.LGFunction {
		return func(l *lua.LState) int {
			var c []string
			for i := 1; i <= l.GetTop(); i++ {
				c = append(c, l.Get(i).String())
			}
			if len(c) == 0 {
				l.RaiseError("Please specify at least one argument for this redis.call()")
			}
			r := w.apply(c, false)
			if e, ok := r.(rerr); ok && !protect {
				l.RaiseError("%s", string(e))
			}
			l.Push(toLua(l, r))
			return 1
		}
	}
	tb := L.NewTable()
	L.SetFuncs(tb, map[string]lua.LGFunction{
		"call": call(false), "pcall": call(true),
		"error_reply": func(l *lua.LState) int {
			t := l.NewTable()
			t.RawSetString("err", l.Get(1))
			l.Push(t)
			return 1
		},
		"status_reply": func(l *lua.LState) int {
			t := l.NewTable()
			t.RawSetString("ok", l.Get(1))
			l.Push(t)
			return 1
		},
	})
	L.SetGlobal("redis", tb)
	if err := L.DoString(src); err != nil {
		return rerr("ERR " + strings.SplitN(err.Error(), "\n", 2)[0])
	}
	if L.GetTop() == 0 {
		return nilBulk{}
	}
	return fromLua(L.Get(1))
}

func toLua(l *lua.LState, v any) lua.LValue {
	switch v := v.(type) {
	case string:
		return lua.LString(v)
	case int:
		return lua.LNumber(v)
	case bool:
		if v {
			return lua.LNumber(1)
		}
		return lua.LNumber(0)
	case nilBulk, nilArray:
		return lua.LFalse
	case status:
		t := l.NewTable()
		t.RawSetString("ok", lua.LString(v))
		return t
	case rerr:
		t := l.NewTable()
		t.RawSetString("err", lua.LString(v))
		return t
	case []string:
		t := l.NewTable()
		for _, s := range v {
			t.Append(lua.LString(s))
		}
		return t
	case []any:
		t := l.NewTable()
		for _, s := range v {
			t.Append(toLua(l, s))
		}
		return t
	}
	return lua.LNil
}

func fromLua(v lua.LValue) any {
	switch v := v.(type) {
	case lua.LString:
		return string(v)
	case lua.LNumber:
		return int(v)
	case lua.LBool:
		if v {
			return 1
		}
		return nilBulk{}
	case *lua.LTable:
		if e := v.RawGetString("err"); e != lua.LNil {
			return rerr(e.String())
		}
		if e := v.RawGetString("ok"); e != lua.LNil {
			return status(e.String())
		}
		r := []any{}
		for i := 1; i <= v.Len(); i++ {
			r = append(r, fromLua(v.RawGetInt(i)))
		}
		return r
	}
	return nilBulk{}
}
