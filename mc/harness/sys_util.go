package main

import (
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/addressbook"
	"github.com/pojol/braid/def"
	"github.com/pojol/braid/zzmc/mcredis"
	"github.com/pojol/braid/zzmc/rt"
)

// cluster builds n nodes n1..nn with acceptors on ports 9001.., all with the same actor types.
func cluster(n int, specs ...spec) []core.ISystem {
	redisUp()
	var r []core.ISystem
	for i := 1; i <= n; i++ {
		r = append(r, newNode(fmt.Sprintf("n%d", i), 9000+i, newFactory(specs...)).System())
	}
	return r
}

// addrOf is the address of node i (from 1) of a cluster.
func addrOf(i int) core.AddressInfo {
	return core.AddressInfo{Node: fmt.Sprintf("n%d", i), Ip: "127.0.0.1", Port: 9000 + i}
}

func live(sys core.ISystem) []string {
	var l []string
	for _, a := range sys.Actors() {
		l = append(l, a.Type()+"/"+a.ID())
	}
	sort.Strings(l)
	return l
}

// records lists what the address book says about a node: sorted type/id.
func records(w *mcredis.World, node string) []string {
	var l []string
	for id, js := range w.Hash(def.RedisAddressbookIDField) {
		var ai core.AddressInfo
		if json.Unmarshal([]byte(js), &ai) != nil {
			rt.Fail("record-garbage", "record of %s: %q", id, js)
		}
		if ai.ActorId != id {
			rt.Fail("record-garbage", "record of %s names %s", id, ai.ActorId)
		}
		if ai.Node == node {
			l = append(l, ai.ActorTy+"/"+id)
		}
	}
	sort.Strings(l)
	return l
}

// typeRecords lists what the per-type sets say about a node.
func typeRecords(w *mcredis.World, node string) []string {
	var l []string
	for _, k := range w.Keys() {
		if !strings.HasPrefix(k, def.RedisAddressbookTyField) {
			continue
		}
		for _, js := range w.Set(k) {
			var ai core.AddressInfo
			if json.Unmarshal([]byte(js), &ai) != nil {
				rt.Fail("record-garbage", "member of %s: %q", k, js)
			}
			if ai.Node == node {
				l = append(l, strings.TrimPrefix(k, def.RedisAddressbookTyField)+"/"+ai.ActorId)
			}
		}
	}
	sort.Strings(l)
	return l
}

func nodeWeight(w *mcredis.World, node string) (total int, per map[string]int) {
	per = map[string]int{}
	for f, v := range w.Hash("{node:" + node + "}") {
		x, err := strconv.Atoi(v)
		if err != nil {
			rt.Fail("record-garbage", "node %s %s=%q", node, f, v)
		}
		if f == "total_weight" {
			total = x
		} else {
			per[strings.TrimPrefix(f, "actor:")] = x
		}
	}
	return
}

// consistent checks, at rest, that the address book describes exactly the actors the nodes run.
func consistent(when string, weights map[string]int, nodes map[string]core.ISystem) {
	w := mcredis.Get()
	for _, n := range sortedKeys(nodes) {
		sys := nodes[n]
		l := live(sys)
		if r := records(w, n); join(r) != join(l) {
			rt.Fail("records-differ", "%s: node %s runs %v, the address book lists %v", when, n, l, r)
		}
		if r := typeRecords(w, n); join(r) != join(l) {
			rt.Fail("type-records-differ", "%s: node %s runs %v, the type sets list %v", when, n, l, r)
		}
		if weights != nil {
			want, sum := map[string]int{}, 0
			for _, a := range sys.Actors() {
				want[a.Type()] += weights[a.Type()]
				sum += weights[a.Type()]
			}
			total, per := nodeWeight(w, n)
			if total != sum {
				rt.Fail("weight", "%s: node %s carries weight %d, its actors weigh %d (%v)", when, n, total, sum, l)
			}
			for _, ty := range sortedKeys(per) {
				if per[ty] != want[ty] {
					rt.Fail("weight", "%s: node %s records weight %d for type %s, its actors weigh %d", when, n, per[ty], ty, want[ty])
				}
			}
		}
		for _, a := range sys.Actors() {
			ai, err := sys.AddressBook().GetByID(context.Background(), a.ID())
			if err != nil || ai.Node != n {
				rt.Fail("lookup", "%s: GetByID(%s) on its own node: %+v %v", when, a.ID(), ai, err)
			}
		}
		// what the book of every node answers agrees
		for _, m := range sortedKeys(nodes) {
			if m == n {
				continue
			}
			for _, a := range sys.Actors() {
				ai, err := nodes[m].AddressBook().GetByID(context.Background(), a.ID())
				if err != nil || ai.Node != n || ai.ActorTy != a.Type() {
					rt.Fail("lookup", "%s: GetByID(%s) on node %s: %+v %v", when, a.ID(), m, ai, err)
				}
			}
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

var _ = addressbook.ErrUnknownActor

// Types and ids of which one is part of another, or that hold characters with a meaning elsewhere.
var (
	oddTypes = []string{"t", "tt", "t1", "T", "user", "user_vip", "t:1", "{t}", "类型", "total_weight", "weight", "actor", "actor:t", "rotor"}
	oddIDs   = []string{"a", "aa", "A", "a1", "abc", "abcd", "abcdefg", "a:b", "{a}", "a b", "用户", "a?", "~a", "n1", "0", "a ", " a", "a,b", "a\"b"}
)

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
