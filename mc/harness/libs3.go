package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	trd "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/utils/algorithms"
	"github.com/pojol/braid/utils/file"
	"github.com/pojol/braid/zzmc/mcredis"
	"github.com/pojol/braid/zzmc/rt"
	"github.com/redis/go-redis/v9"
)

func rs[T any](v T, err error) string {
	if err != nil {
		return fmt.Sprintf("error %v", err)
	}
	return fmt.Sprintf("%v", v)
}

// redisOp is a helper of 3rd/redis on a key, and the client's own method it stands for.
type redisOp struct {
	name string
	wrap func(k string) string
	raw  func(c *redis.Client, k string) string
}

func redisOps() []redisOp { return redisOpsIn(context.Background()) }

func redisOpsIn(bg context.Context) []redisOp {
	sum := redis.NewScript(`local n = redis.call('HINCRBY', KEYS[1], ARGV[1], ARGV[2])
return n`)
	arr := redis.NewScript(`return {redis.call('HLEN', KEYS[1]), redis.call('EXISTS', KEYS[1])}`)
	pipe := func(k string) func(p redis.Pipeliner) error {
		return func(p redis.Pipeliner) error {
			p.SAdd(bg, k, "p")
			p.SCard(bg, k)
			return nil
		}
	}
	cmds := func(l []redis.Cmder, err error) string {
		var s []string
		for _, c := range l {
			s = append(s, fmt.Sprint(c.Name(), c.Args()[2:], c.Err()))
		}
		return fmt.Sprint(s, err)
	}
	xa := func(k string) *redis.XAddArgs { return &redis.XAddArgs{Stream: k, Values: []string{"f", "v"}, ID: "*"} }
	xr := func(k string) *redis.XReadGroupArgs {
		return &redis.XReadGroupArgs{Group: "g", Consumer: "c", Streams: []string{k, ">"}, Count: 1, Block: -1}
	}
	// ids of streams count from the time, and differ between the twins
	noID := func(s string) string { return strings.Split(s, "-")[0] }
	streams := func(l []redis.XStream, err error) string {
		n := 0
		for _, s := range l {
			n += len(s.Messages)
		}
		return fmt.Sprint(n, err)
	}
	groups := func(l []redis.XInfoGroup, err error) string {
		s := ""
		for _, g := range l {
			s += fmt.Sprint(g.Name, g.Consumers, g.Pending)
		}
		return s + fmt.Sprint(err)
	}
	consumers := func(l []redis.XInfoConsumer, err error) string {
		s := ""
		for _, g := range l {
			s += fmt.Sprint(g.Name, g.Pending)
		}
		return s + fmt.Sprint(err)
	}
	return []redisOp{
		{"Set", func(k string) string { return rs(trd.Set(bg, k, "v").Result()) }, func(c *redis.Client, k string) string { return rs(c.Set(bg, k, "v", 0).Result()) }},
		{"Get", func(k string) string { return rs(trd.Get(bg, k).Result()) }, func(c *redis.Client, k string) string { return rs(c.Get(bg, k).Result()) }},
		{"Del", func(k string) string { return rs(trd.Del(bg, k, k+"2").Result()) }, func(c *redis.Client, k string) string { return rs(c.Del(bg, k, k+"2").Result()) }},
		{"SetEx", func(k string) string { return rs(trd.SetEx(bg, k, "e", time.Second).Result()) }, func(c *redis.Client, k string) string { return rs(c.SetEx(bg, k, "e", time.Second).Result()) }},
		{"SetNx", func(k string) string { return rs(trd.SetNx(bg, k, "n", 3*time.Second).Result()) }, func(c *redis.Client, k string) string { return rs(c.SetNX(bg, k, "n", 3*time.Second).Result()) }},
		{"Incr", func(k string) string { return rs(trd.Incr(bg, k).Result()) }, func(c *redis.Client, k string) string { return rs(c.Incr(bg, k).Result()) }},
		{"Expire", func(k string) string { return rs(trd.Expire(bg, k, time.Second).Result()) }, func(c *redis.Client, k string) string { return rs(c.Expire(bg, k, time.Second).Result()) }},
		{"Exists", func(k string) string { return rs(trd.Exists(bg, k).Result()) }, func(c *redis.Client, k string) string { return rs(c.Exists(bg, k).Result()) }},
		{"Keys", func(k string) string {
			l, err := trd.Keys(bg, k+"*").Result()
			return rs(len(l), err)
		}, func(c *redis.Client, k string) string {
			l, err := c.Keys(bg, k+"*").Result()
			return rs(len(l), err)
		}},
		{"SAdd", func(k string) string { return rs(trd.SAdd(bg, k, "a", "b").Result()) }, func(c *redis.Client, k string) string { return rs(c.SAdd(bg, k, "a", "b").Result()) }},
		{"SIsMember", func(k string) string { return rs(trd.SIsMember(bg, k, "a").Result()) }, func(c *redis.Client, k string) string { return rs(c.SIsMember(bg, k, "a").Result()) }},
		{"SMembers", func(k string) string { return rs(trd.SMembers(bg, k).Result()) }, func(c *redis.Client, k string) string { return rs(c.SMembers(bg, k).Result()) }},
		{"SRandMember", func(k string) string { return rs(trd.SRandMember(bg, k).Result()) }, func(c *redis.Client, k string) string { return rs(c.SRandMember(bg, k).Result()) }},
		{"SRandMemberN", func(k string) string { return rs(trd.SRandMemberN(bg, k, 2).Result()) }, func(c *redis.Client, k string) string { return rs(c.SRandMemberN(bg, k, 2).Result()) }},
		{"SPop", func(k string) string { return rs(trd.SPop(bg, k).Result()) }, func(c *redis.Client, k string) string { return rs(c.SPop(bg, k).Result()) }},
		{"SCard", func(k string) string { return rs(trd.SCard(bg, k).Result()) }, func(c *redis.Client, k string) string { return rs(c.SCard(bg, k).Result()) }},
		{"ZAdd", func(k string) string {
			return rs(trd.ZAdd(bg, k, redis.Z{Score: 2, Member: "a"}, redis.Z{Score: 1, Member: "b"}, redis.Z{Score: 3, Member: "c"}).Result())
		}, func(c *redis.Client, k string) string {
			return rs(c.ZAdd(bg, k, redis.Z{Score: 2, Member: "a"}, redis.Z{Score: 1, Member: "b"}, redis.Z{Score: 3, Member: "c"}).Result())
		}},
		{"ZScore", func(k string) string { return rs(trd.ZScore(bg, k, "a").Result()) }, func(c *redis.Client, k string) string { return rs(c.ZScore(bg, k, "a").Result()) }},
		{"ZRevRank", func(k string) string { return rs(trd.ZRevRank(bg, k, "b").Result()) }, func(c *redis.Client, k string) string { return rs(c.ZRevRank(bg, k, "b").Result()) }},
		{"ZRevRange", func(k string) string { return rs(trd.ZRevRange(bg, k, 0, 1).Result()) }, func(c *redis.Client, k string) string { return rs(c.ZRevRange(bg, k, 0, 1).Result()) }},
		{"ZCard", func(k string) string { return rs(trd.ZCard(bg, k).Result()) }, func(c *redis.Client, k string) string { return rs(c.ZCard(bg, k).Result()) }},
		{"ZRangeByScore", func(k string) string {
			return rs(trd.ZRangeByScore(bg, k, redis.ZRangeBy{Min: "1", Max: "2"}).Result())
		}, func(c *redis.Client, k string) string {
			return rs(c.ZRangeByScore(bg, k, &redis.ZRangeBy{Min: "1", Max: "2"}).Result())
		}},
		{"ZRem", func(k string) string { return rs(trd.ZRem(bg, k, "a", "c").Result()) }, func(c *redis.Client, k string) string { return rs(c.ZRem(bg, k, "a", "c").Result()) }},
		{"HSet", func(k string) string { return rs(trd.HSet(bg, k, "f", "1", "g", "2").Result()) }, func(c *redis.Client, k string) string { return rs(c.HSet(bg, k, "f", "1", "g", "2").Result()) }},
		{"HGet", func(k string) string { return rs(trd.HGet(bg, k, "f").Result()) }, func(c *redis.Client, k string) string { return rs(c.HGet(bg, k, "f").Result()) }},
		{"HGetAll", func(k string) string { return rs(trd.HGetAll(bg, k).Result()) }, func(c *redis.Client, k string) string { return rs(c.HGetAll(bg, k).Result()) }},
		{"HDel", func(k string) string { return rs(trd.HDel(bg, k, "f", "h").Result()) }, func(c *redis.Client, k string) string { return rs(c.HDel(bg, k, "f", "h").Result()) }},
		{"HLen", func(k string) string { return rs(trd.HLen(bg, k).Result()) }, func(c *redis.Client, k string) string { return rs(c.HLen(bg, k).Result()) }},
		{"HIncrBy", func(k string) string { return rs(trd.HIncrBy(bg, k, "f", 5).Result()) }, func(c *redis.Client, k string) string { return rs(c.HIncrBy(bg, k, "f", 5).Result()) }},
		{"HKeys", func(k string) string { return rs(trd.HKeys(bg, k).Result()) }, func(c *redis.Client, k string) string { return rs(c.HKeys(bg, k).Result()) }},
		{"HExists", func(k string) string { return rs(trd.HExists(bg, k, "g").Result()) }, func(c *redis.Client, k string) string { return rs(c.HExists(bg, k, "g").Result()) }},
		{"RPush", func(k string) string { return rs(trd.RPush(bg, k, "x", "y", "z").Result()) }, func(c *redis.Client, k string) string { return rs(c.RPush(bg, k, "x", "y", "z").Result()) }},
		{"LRange", func(k string) string { return rs(trd.LRange(bg, k, 1, -1).Result()) }, func(c *redis.Client, k string) string { return rs(c.LRange(bg, k, 1, -1).Result()) }},
		{"XAdd", func(k string) string { return noID(rs(trd.XAdd(bg, xa(k)).Result())) }, func(c *redis.Client, k string) string { return noID(rs(c.XAdd(bg, xa(k)).Result())) }},
		{"XLen", func(k string) string { return rs(trd.XLen(bg, k).Result()) }, func(c *redis.Client, k string) string { return rs(c.XLen(bg, k).Result()) }},
		{"XDel", func(k string) string { return rs(trd.XDel(bg, k, "1-1").Result()) }, func(c *redis.Client, k string) string { return rs(c.XDel(bg, k, "1-1").Result()) }},
		{"XGroupCreate", func(k string) string { return rs(trd.XGroupCreate(bg, k, "g", "0").Result()) }, func(c *redis.Client, k string) string { return rs(c.XGroupCreate(bg, k, "g", "0").Result()) }},
		{"XGroupDestroy", func(k string) string { return rs(trd.XGroupDestroy(bg, k, "g").Result()) }, func(c *redis.Client, k string) string { return rs(c.XGroupDestroy(bg, k, "g").Result()) }},
		{"XGroupDelConsumer", func(k string) string { return rs(trd.XGroupDelConsumer(bg, k, "g", "c").Result()) }, func(c *redis.Client, k string) string { return rs(c.XGroupDelConsumer(bg, k, "g", "c").Result()) }},
		{"XReadGroup", func(k string) string { return streams(trd.XReadGroup(bg, xr(k)).Result()) }, func(c *redis.Client, k string) string { return streams(c.XReadGroup(bg, xr(k)).Result()) }},
		{"XInfoGroups", func(k string) string { return groups(trd.XInfoGroups(bg, k).Result()) }, func(c *redis.Client, k string) string { return groups(c.XInfoGroups(bg, k).Result()) }},
		{"XInfoConsumers", func(k string) string { return consumers(trd.XInfoConsumers(bg, k, "g").Result()) }, func(c *redis.Client, k string) string { return consumers(c.XInfoConsumers(bg, k, "g").Result()) }},
		{"ScriptRun", func(k string) string { return rs(trd.ScriptRun(bg, sum, []string{k}, "f", 2)) }, func(c *redis.Client, k string) string { return rs(sum.Run(bg, c, []string{k}, "f", 2).Result()) }},
		{"ScriptRunInt64s", func(k string) string { return rs(trd.ScriptRunInt64s(bg, arr, []string{k})) }, func(c *redis.Client, k string) string { return rs(arr.Run(bg, c, []string{k}).Int64Slice()) }},
		{"TxPipelined", func(k string) string { return cmds(trd.TxPipelined(bg, "x", pipe(k))) }, func(c *redis.Client, k string) string { return cmds(c.TxPipelined(bg, pipe(k))) }},
		{"Pipelined", func(k string) string { return cmds(trd.Pipelined(bg, "x", pipe(k))) }, func(c *redis.Client, k string) string { return cmds(c.Pipelined(bg, pipe(k))) }},
		{"Pipeline", func(k string) string {
			p := trd.Pipeline()
			pipe(k)(p)
			return cmds(p.Exec(bg))
		}, func(c *redis.Client, k string) string {
			p := c.Pipeline()
			pipe(k)(p)
			return cmds(p.Exec(bg))
		}},
		{"FlushDB", func(k string) string { return rs(trd.FlushDB(bg).Result()) }, func(c *redis.Client, k string) string { return "OK" }},
		{"FlushAll", func(k string) string { return rs(trd.FlushAll(bg).Result()) }, func(c *redis.Client, k string) string { return "OK" }},
		{"wait", func(k string) string { sleepMs(1100); return "" }, func(c *redis.Client, k string) string { return "" }},
	}
}

// redisValues are helpers with uncommon arguments.
func redisValues() []redisOp {
	bg := context.Background()
	return []redisOp{
		{`Set("")`, func(k string) string { return rs(trd.Set(bg, k, "").Result()) }, func(c *redis.Client, k string) string { return rs(c.Set(bg, k, "", 0).Result()) }},
		{`Set("\x00\xff\r\n$3")`, func(k string) string { return rs(trd.Set(bg, k, "\x00\xff\r\n$3").Result()) }, func(c *redis.Client, k string) string { return rs(c.Set(bg, k, "\x00\xff\r\n$3", 0).Result()) }},
		{`Set(strings.Repeat("x", 70000))`, func(k string) string { return rs(trd.Set(bg, k, strings.Repeat("x", 70000)).Result()) }, func(c *redis.Client, k string) string {
			return rs(c.Set(bg, k, strings.Repeat("x", 70000), 0).Result())
		}},
		{`SetEx("e", 0)`, func(k string) string { return rs(trd.SetEx(bg, k, "e", 0).Result()) }, func(c *redis.Client, k string) string { return rs(c.SetEx(bg, k, "e", 0).Result()) }},
		{`SetEx("e", -time.Second)`, func(k string) string { return rs(trd.SetEx(bg, k, "e", -time.Second).Result()) }, func(c *redis.Client, k string) string { return rs(c.SetEx(bg, k, "e", -time.Second).Result()) }},
		{`SetEx("e", 500*time.Millisecond)`, func(k string) string { return rs(trd.SetEx(bg, k, "e", 500*time.Millisecond).Result()) }, func(c *redis.Client, k string) string { return rs(c.SetEx(bg, k, "e", 500*time.Millisecond).Result()) }},
		{`SetEx("e", 1500*time.Millisecond)`, func(k string) string { return rs(trd.SetEx(bg, k, "e", 1500*time.Millisecond).Result()) }, func(c *redis.Client, k string) string { return rs(c.SetEx(bg, k, "e", 1500*time.Millisecond).Result()) }},
		{`SetEx(3, 2*time.Second)`, func(k string) string { return rs(trd.SetEx(bg, k, 3, 2*time.Second).Result()) }, func(c *redis.Client, k string) string { return rs(c.SetEx(bg, k, 3, 2*time.Second).Result()) }},
		{`SetEx([]byte("b"), time.Hour)`, func(k string) string { return rs(trd.SetEx(bg, k, []byte("b"), time.Hour).Result()) }, func(c *redis.Client, k string) string { return rs(c.SetEx(bg, k, []byte("b"), time.Hour).Result()) }},
		{`SetEx(1.5, time.Minute)`, func(k string) string { return rs(trd.SetEx(bg, k, 1.5, time.Minute).Result()) }, func(c *redis.Client, k string) string { return rs(c.SetEx(bg, k, 1.5, time.Minute).Result()) }},
		{`SetEx(true, time.Minute)`, func(k string) string { return rs(trd.SetEx(bg, k, true, time.Minute).Result()) }, func(c *redis.Client, k string) string { return rs(c.SetEx(bg, k, true, time.Minute).Result()) }},
		{`SetEx(nil, time.Minute)`, func(k string) string { return rs(trd.SetEx(bg, k, nil, time.Minute).Result()) }, func(c *redis.Client, k string) string { return rs(c.SetEx(bg, k, nil, time.Minute).Result()) }},
		{`SetEx(struct{}{}, time.Minute)`, func(k string) string { return rs(trd.SetEx(bg, k, struct{}{}, time.Minute).Result()) }, func(c *redis.Client, k string) string { return rs(c.SetEx(bg, k, struct{}{}, time.Minute).Result()) }},
		{`SetNx("e", 0)`, func(k string) string { return rs(trd.SetNx(bg, k, "e", 0).Result()) }, func(c *redis.Client, k string) string { return rs(c.SetNX(bg, k, "e", 0).Result()) }},
		{`SetNx("e", 500*time.Millisecond)`, func(k string) string { return rs(trd.SetNx(bg, k, "e", 500*time.Millisecond).Result()) }, func(c *redis.Client, k string) string { return rs(c.SetNX(bg, k, "e", 500*time.Millisecond).Result()) }},
		{`SetNx("e", 1500*time.Millisecond)`, func(k string) string { return rs(trd.SetNx(bg, k, "e", 1500*time.Millisecond).Result()) }, func(c *redis.Client, k string) string { return rs(c.SetNX(bg, k, "e", 1500*time.Millisecond).Result()) }},
		{`SetNx(3, time.Second)`, func(k string) string { return rs(trd.SetNx(bg, k, 3, time.Second).Result()) }, func(c *redis.Client, k string) string { return rs(c.SetNX(bg, k, 3, time.Second).Result()) }},
		{`SetNx(struct{}{}, time.Minute)`, func(k string) string { return rs(trd.SetNx(bg, k, struct{}{}, time.Minute).Result()) }, func(c *redis.Client, k string) string { return rs(c.SetNX(bg, k, struct{}{}, time.Minute).Result()) }},
		{`Expire(0)`, func(k string) string { return rs(trd.Expire(bg, k, 0).Result()) }, func(c *redis.Client, k string) string { return rs(c.Expire(bg, k, 0).Result()) }},
		{`Expire(-time.Second)`, func(k string) string { return rs(trd.Expire(bg, k, -time.Second).Result()) }, func(c *redis.Client, k string) string { return rs(c.Expire(bg, k, -time.Second).Result()) }},
		{`Expire(500*time.Millisecond)`, func(k string) string { return rs(trd.Expire(bg, k, 500*time.Millisecond).Result()) }, func(c *redis.Client, k string) string { return rs(c.Expire(bg, k, 500*time.Millisecond).Result()) }},
		{`Expire(1500*time.Millisecond)`, func(k string) string { return rs(trd.Expire(bg, k, 1500*time.Millisecond).Result()) }, func(c *redis.Client, k string) string { return rs(c.Expire(bg, k, 1500*time.Millisecond).Result()) }},
		{`Expire(time.Hour)`, func(k string) string { return rs(trd.Expire(bg, k, time.Hour).Result()) }, func(c *redis.Client, k string) string { return rs(c.Expire(bg, k, time.Hour).Result()) }},
		{`SRandMemberN(0)`, func(k string) string { return rs(trd.SRandMemberN(bg, k, 0).Result()) }, func(c *redis.Client, k string) string { return rs(c.SRandMemberN(bg, k, 0).Result()) }},
		{`SRandMemberN(1)`, func(k string) string { return rs(trd.SRandMemberN(bg, k, 1).Result()) }, func(c *redis.Client, k string) string { return rs(c.SRandMemberN(bg, k, 1).Result()) }},
		{`SRandMemberN(-3)`, func(k string) string { return rs(trd.SRandMemberN(bg, k, -3).Result()) }, func(c *redis.Client, k string) string { return rs(c.SRandMemberN(bg, k, -3).Result()) }},
		{`SRandMemberN(100)`, func(k string) string { return rs(trd.SRandMemberN(bg, k, 100).Result()) }, func(c *redis.Client, k string) string { return rs(c.SRandMemberN(bg, k, 100).Result()) }},
		{`SIsMember("none")`, func(k string) string { return rs(trd.SIsMember(bg, k, "none").Result()) }, func(c *redis.Client, k string) string { return rs(c.SIsMember(bg, k, "none").Result()) }},
		{`SIsMember(1)`, func(k string) string { return rs(trd.SIsMember(bg, k, 1).Result()) }, func(c *redis.Client, k string) string { return rs(c.SIsMember(bg, k, 1).Result()) }},
		{`SIsMember("")`, func(k string) string { return rs(trd.SIsMember(bg, k, "").Result()) }, func(c *redis.Client, k string) string { return rs(c.SIsMember(bg, k, "").Result()) }},
		{`SAdd(1, 2.5, true)`, func(k string) string { return rs(trd.SAdd(bg, k, 1, 2.5, true).Result()) }, func(c *redis.Client, k string) string { return rs(c.SAdd(bg, k, 1, 2.5, true).Result()) }},
		{`SAdd([]string{"l", "m"})`, func(k string) string { return rs(trd.SAdd(bg, k, []string{"l", "m"}).Result()) }, func(c *redis.Client, k string) string { return rs(c.SAdd(bg, k, []string{"l", "m"}).Result()) }},
		{`SAdd()`, func(k string) string { return rs(trd.SAdd(bg, k).Result()) }, func(c *redis.Client, k string) string { return rs(c.SAdd(bg, k).Result()) }},
		{`ZScore("none")`, func(k string) string { return rs(trd.ZScore(bg, k, "none").Result()) }, func(c *redis.Client, k string) string { return rs(c.ZScore(bg, k, "none").Result()) }},
		{`ZScore("")`, func(k string) string { return rs(trd.ZScore(bg, k, "").Result()) }, func(c *redis.Client, k string) string { return rs(c.ZScore(bg, k, "").Result()) }},
		{`ZRevRank("none")`, func(k string) string { return rs(trd.ZRevRank(bg, k, "none").Result()) }, func(c *redis.Client, k string) string { return rs(c.ZRevRank(bg, k, "none").Result()) }},
		{`ZRevRank("c")`, func(k string) string { return rs(trd.ZRevRank(bg, k, "c").Result()) }, func(c *redis.Client, k string) string { return rs(c.ZRevRank(bg, k, "c").Result()) }},
		{`ZRem("none")`, func(k string) string { return rs(trd.ZRem(bg, k, "none").Result()) }, func(c *redis.Client, k string) string { return rs(c.ZRem(bg, k, "none").Result()) }},
		{`ZRem()`, func(k string) string { return rs(trd.ZRem(bg, k).Result()) }, func(c *redis.Client, k string) string { return rs(c.ZRem(bg, k).Result()) }},
		{`ZRevRange(0, -1)`, func(k string) string { return rs(trd.ZRevRange(bg, k, 0, -1).Result()) }, func(c *redis.Client, k string) string { return rs(c.ZRevRange(bg, k, 0, -1).Result()) }},
		{`ZRevRange(-2, -1)`, func(k string) string { return rs(trd.ZRevRange(bg, k, -2, -1).Result()) }, func(c *redis.Client, k string) string { return rs(c.ZRevRange(bg, k, -2, -1).Result()) }},
		{`ZRevRange(1, 0)`, func(k string) string { return rs(trd.ZRevRange(bg, k, 1, 0).Result()) }, func(c *redis.Client, k string) string { return rs(c.ZRevRange(bg, k, 1, 0).Result()) }},
		{`ZRevRange(5, 9)`, func(k string) string { return rs(trd.ZRevRange(bg, k, 5, 9).Result()) }, func(c *redis.Client, k string) string { return rs(c.ZRevRange(bg, k, 5, 9).Result()) }},
		{`ZRevRange(-9, 9)`, func(k string) string { return rs(trd.ZRevRange(bg, k, -9, 9).Result()) }, func(c *redis.Client, k string) string { return rs(c.ZRevRange(bg, k, -9, 9).Result()) }},
		{`ZAdd(redis.Z{Score: -1.5, Member: "a"}, redis.Z{Score: -1.5, Member: 7})`, func(k string) string {
			return rs(trd.ZAdd(bg, k, redis.Z{Score: -1.5, Member: "a"}, redis.Z{Score: -1.5, Member: 7}).Result())
		}, func(c *redis.Client, k string) string {
			return rs(c.ZAdd(bg, k, redis.Z{Score: -1.5, Member: "a"}, redis.Z{Score: -1.5, Member: 7}).Result())
		}},
		{`ZAdd()`, func(k string) string { return rs(trd.ZAdd(bg, k).Result()) }, func(c *redis.Client, k string) string { return rs(c.ZAdd(bg, k).Result()) }},
		{`ZRangeByScore(redis.ZRangeBy{Min: "-inf", Max: "+inf"})`, func(k string) string {
			return rs(trd.ZRangeByScore(bg, k, redis.ZRangeBy{Min: "-inf", Max: "+inf"}).Result())
		}, func(c *redis.Client, k string) string {
			return rs(c.ZRangeByScore(bg, k, &redis.ZRangeBy{Min: "-inf", Max: "+inf"}).Result())
		}},
		{`ZRangeByScore(redis.ZRangeBy{Min: "(1", Max: "3"})`, func(k string) string {
			return rs(trd.ZRangeByScore(bg, k, redis.ZRangeBy{Min: "(1", Max: "3"}).Result())
		}, func(c *redis.Client, k string) string {
			return rs(c.ZRangeByScore(bg, k, &redis.ZRangeBy{Min: "(1", Max: "3"}).Result())
		}},
		{`ZRangeByScore(redis.ZRangeBy{Min: "1", Max: "3", Offset: 1, Count: 1})`, func(k string) string {
			return rs(trd.ZRangeByScore(bg, k, redis.ZRangeBy{Min: "1", Max: "3", Offset: 1, Count: 1}).Result())
		}, func(c *redis.Client, k string) string {
			return rs(c.ZRangeByScore(bg, k, &redis.ZRangeBy{Min: "1", Max: "3", Offset: 1, Count: 1}).Result())
		}},
		{`ZRangeByScore(redis.ZRangeBy{Min: "x", Max: "3"})`, func(k string) string {
			return rs(trd.ZRangeByScore(bg, k, redis.ZRangeBy{Min: "x", Max: "3"}).Result())
		}, func(c *redis.Client, k string) string {
			return rs(c.ZRangeByScore(bg, k, &redis.ZRangeBy{Min: "x", Max: "3"}).Result())
		}},
		{`HGet("none")`, func(k string) string { return rs(trd.HGet(bg, k, "none").Result()) }, func(c *redis.Client, k string) string { return rs(c.HGet(bg, k, "none").Result()) }},
		{`HGet("")`, func(k string) string { return rs(trd.HGet(bg, k, "").Result()) }, func(c *redis.Client, k string) string { return rs(c.HGet(bg, k, "").Result()) }},
		{`HSet("f", "")`, func(k string) string { return rs(trd.HSet(bg, k, "f", "").Result()) }, func(c *redis.Client, k string) string { return rs(c.HSet(bg, k, "f", "").Result()) }},
		{`HSet(map[string]interface{}{"f": 9})`, func(k string) string { return rs(trd.HSet(bg, k, map[string]interface{}{"f": 9}).Result()) }, func(c *redis.Client, k string) string {
			return rs(c.HSet(bg, k, map[string]interface{}{"f": 9}).Result())
		}},
		{`HSet([]string{"f", "1", "x", "y"})`, func(k string) string { return rs(trd.HSet(bg, k, []string{"f", "1", "x", "y"}).Result()) }, func(c *redis.Client, k string) string {
			return rs(c.HSet(bg, k, []string{"f", "1", "x", "y"}).Result())
		}},
		{`HSet("f")`, func(k string) string { return rs(trd.HSet(bg, k, "f").Result()) }, func(c *redis.Client, k string) string { return rs(c.HSet(bg, k, "f").Result()) }},
		{`HDel("none")`, func(k string) string { return rs(trd.HDel(bg, k, "none").Result()) }, func(c *redis.Client, k string) string { return rs(c.HDel(bg, k, "none").Result()) }},
		{`HDel("f", "f", "g")`, func(k string) string { return rs(trd.HDel(bg, k, "f", "f", "g").Result()) }, func(c *redis.Client, k string) string { return rs(c.HDel(bg, k, "f", "f", "g").Result()) }},
		{`HDel()`, func(k string) string { return rs(trd.HDel(bg, k).Result()) }, func(c *redis.Client, k string) string { return rs(c.HDel(bg, k).Result()) }},
		{`HIncrBy("f", -3)`, func(k string) string { return rs(trd.HIncrBy(bg, k, "f", -3).Result()) }, func(c *redis.Client, k string) string { return rs(c.HIncrBy(bg, k, "f", -3).Result()) }},
		{`HIncrBy("g", 0)`, func(k string) string { return rs(trd.HIncrBy(bg, k, "g", 0).Result()) }, func(c *redis.Client, k string) string { return rs(c.HIncrBy(bg, k, "g", 0).Result()) }},
		{`HIncrBy("new", 1<<40)`, func(k string) string { return rs(trd.HIncrBy(bg, k, "new", 1<<40).Result()) }, func(c *redis.Client, k string) string { return rs(c.HIncrBy(bg, k, "new", 1<<40).Result()) }},
		{`HExists("none")`, func(k string) string { return rs(trd.HExists(bg, k, "none").Result()) }, func(c *redis.Client, k string) string { return rs(c.HExists(bg, k, "none").Result()) }},
		{`RPush(1, 2.5)`, func(k string) string { return rs(trd.RPush(bg, k, 1, 2.5).Result()) }, func(c *redis.Client, k string) string { return rs(c.RPush(bg, k, 1, 2.5).Result()) }},
		{`RPush([]string{"l", "m"})`, func(k string) string { return rs(trd.RPush(bg, k, []string{"l", "m"}).Result()) }, func(c *redis.Client, k string) string { return rs(c.RPush(bg, k, []string{"l", "m"}).Result()) }},
		{`RPush()`, func(k string) string { return rs(trd.RPush(bg, k).Result()) }, func(c *redis.Client, k string) string { return rs(c.RPush(bg, k).Result()) }},
		{`LRange(0, 0)`, func(k string) string { return rs(trd.LRange(bg, k, 0, 0).Result()) }, func(c *redis.Client, k string) string { return rs(c.LRange(bg, k, 0, 0).Result()) }},
		{`LRange(-2, -1)`, func(k string) string { return rs(trd.LRange(bg, k, -2, -1).Result()) }, func(c *redis.Client, k string) string { return rs(c.LRange(bg, k, -2, -1).Result()) }},
		{`LRange(2, 1)`, func(k string) string { return rs(trd.LRange(bg, k, 2, 1).Result()) }, func(c *redis.Client, k string) string { return rs(c.LRange(bg, k, 2, 1).Result()) }},
		{`LRange(0, 99)`, func(k string) string { return rs(trd.LRange(bg, k, 0, 99).Result()) }, func(c *redis.Client, k string) string { return rs(c.LRange(bg, k, 0, 99).Result()) }},
		{`XDel("x")`, func(k string) string { return rs(trd.XDel(bg, k, "x").Result()) }, func(c *redis.Client, k string) string { return rs(c.XDel(bg, k, "x").Result()) }},
		{`XGroupCreate("g", "$")`, func(k string) string { return rs(trd.XGroupCreate(bg, k, "g", "$").Result()) }, func(c *redis.Client, k string) string { return rs(c.XGroupCreate(bg, k, "g", "$").Result()) }},
		{`XGroupCreate("g", "x")`, func(k string) string { return rs(trd.XGroupCreate(bg, k, "g", "x").Result()) }, func(c *redis.Client, k string) string { return rs(c.XGroupCreate(bg, k, "g", "x").Result()) }},
		{`XGroupDelConsumer("none", "c")`, func(k string) string { return rs(trd.XGroupDelConsumer(bg, k, "none", "c").Result()) }, func(c *redis.Client, k string) string { return rs(c.XGroupDelConsumer(bg, k, "none", "c").Result()) }},
		{`XGroupDestroy("none")`, func(k string) string { return rs(trd.XGroupDestroy(bg, k, "none").Result()) }, func(c *redis.Client, k string) string { return rs(c.XGroupDestroy(bg, k, "none").Result()) }},
		{`XInfoConsumers("none")`, func(k string) string { return rs(trd.XInfoConsumers(bg, k, "none").Result()) }, func(c *redis.Client, k string) string { return rs(c.XInfoConsumers(bg, k, "none").Result()) }},
		{`Keys()`, func(k string) string { return rs(trd.Keys(bg, k).Result()) }, func(c *redis.Client, k string) string { return rs(c.Keys(bg, k).Result()) }},
		{`Del()`, func(k string) string { return rs(trd.Del(bg).Result()) }, func(c *redis.Client, k string) string { return rs(c.Del(bg).Result()) }},
		{`Del(k, k)`, func(k string) string { return rs(trd.Del(bg, k, k).Result()) }, func(c *redis.Client, k string) string { return rs(c.Del(bg, k, k).Result()) }},
		{`XAdd(NoMkStream)`, func(k string) string {
			return strings.Split(rs(trd.XAdd(bg, &redis.XAddArgs{Stream: k, NoMkStream: true, Values: []string{"a", "b"}}).Result()), "-")[0]
		}, func(c *redis.Client, k string) string {
			return strings.Split(rs(c.XAdd(bg, &redis.XAddArgs{Stream: k, NoMkStream: true, Values: []string{"a", "b"}}).Result()), "-")[0]
		}},
		{`XAdd(9-9)`, func(k string) string {
			return rs(trd.XAdd(bg, &redis.XAddArgs{Stream: k, ID: "9-9", Values: []string{"a", "b"}}).Result())
		}, func(c *redis.Client, k string) string {
			return rs(c.XAdd(bg, &redis.XAddArgs{Stream: k, ID: "9-9", Values: []string{"a", "b"}}).Result())
		}},
	}
}

func init() {
	// R01: the redis helpers.
	register("R01", func(tier string) []rt.Scenario {
		bg := context.Background()
		twin := func(n int, first func(ops []redisOp) []redisOp) func() {
			return func() {
				redisUp()
				mcredis.FixRandom() // the helper and the command pick alike
				c := trd.GetClient()
				ops := redisOps()
				var done []string
				for i := 0; i < n; i++ {
					l := ops
					if first != nil && i == 0 {
						l = first(ops)
					}
					o := l[rt.Choose(len(l), "op")]
					// the helper acts on w:k, the client on r:k
					w := mcredis.Get()
					done = append(done, o.name)
					var a, b string
					b = o.raw(c, "r:k")
					a = o.wrap("w:k")
					if strings.ReplaceAll(a, "w:k", "r:k") != b {
						rt.Fail("differs", "after %v: the helper says %s, the command %s", done, a, b)
					}
					x, y := w.Describe("w:k"), w.Describe("r:k")
					if strings.HasPrefix(o.name, "Flush") {
						rt.Check(len(w.Keys()) == 0, "differs", "after %v there is %v", done, w.Keys())
						continue
					}
					rt.Check(x == y, "differs", "after %v the helper leaves %s, the command %s", done, x, y)
				}
			}
		}
		return []rt.Scenario{
			S("pairs", "every sequence of two helpers, compared with the commands they are named after, in results and effects", 0, twin(pick(tier, 2, 3), nil), noMem, ops(1<<20)),
			S("triples", "sequences of three on a set, a hash, a sorted set, a list, a stream", 0, twin(3, func(l []redisOp) []redisOp {
				var r []redisOp
				for _, o := range l {
					switch o.name {
					case "SAdd", "ZAdd", "HSet", "RPush", "XAdd", "SetEx":
						r = append(r, o)
					}
				}
				return r
			}), noMem, ops(1<<20)),
			S("ended", "every helper with a context that has ended, on a key that is there or not", 0, func() {
				redisUp()
				mcredis.FixRandom()
				c := trd.GetClient()
				ctx, cancel := context.WithCancel(bg)
				if rt.Choose(2, "deadline") == 1 {
					cancel()
					ctx, cancel = context.WithDeadline(bg, time.Unix(1, 0))
				}
				cancel()
				ops := redisOps()
				if k := rt.Choose(len(ops)+1, "before"); k < len(ops) && !strings.HasPrefix(ops[k].name, "Flush") {
					ops[k].raw(c, "r:k")
					ops[k].wrap("w:k")
				}
				ended := redisOpsIn(ctx)
				o := ended[rt.Choose(len(ended), "op")]
				w := mcredis.Get()
				b := o.raw(c, "r:k")
				a := o.wrap("w:k")
				if strings.HasPrefix(o.name, "Flush") {
					b = rs(c.FlushDB(ctx).Result())
				}
				rt.Check(strings.ReplaceAll(a, "w:k", "r:k") == b, "differs", "%s in a context that has ended: the helper says %s, the command %s", o.name, a, b)
				x, y := w.Describe("w:k"), w.Describe("r:k")
				rt.Check(x == y, "differs", "%s in a context that has ended: the helper leaves %s, the command %s", o.name, x, y)
			}, noMem, ops(1<<20)),
			S("values", "helpers with uncommon arguments, on every type of key", 0, func() {
				redisUp()
				mcredis.FixRandom()
				c := trd.GetClient()
				var first []redisOp
				for _, o := range redisOps() {
					switch o.name {
					case "Set", "SAdd", "ZAdd", "HSet", "RPush", "XAdd", "XDel":
						first = append(first, o)
					}
				}
				p := first[rt.Choose(len(first), "key")]
				p.raw(c, "r:k")
				p.wrap("w:k")
				l := redisValues()
				o := l[rt.Choose(len(l), "op")]
				b := o.raw(c, "r:k")
				a := o.wrap("w:k")
				rt.Check(strings.ReplaceAll(a, "w:k", "r:k") == b, "differs", "%s after %s: the helper says %s, the command %s", o.name, p.name, a, b)
				x, y := mcredis.Get().Describe("w:k"), mcredis.Get().Describe("r:k")
				rt.Check(x == y, "differs", "%s after %s: the helper leaves %s, the command %s", o.name, p.name, x, y)
			}, noMem),
			S("errors", "store failures come back as errors", 0, func() {
				redisUp()
				ops := redisOps()
				ops = ops[:len(ops)-1]
				o := ops[rt.Choose(len(ops), "op")]
				mcredis.EnableFaults(nil)
				s := o.wrap("w:k")
				mcredis.DisableFaults()
				n := mcredis.Get().Faults()
				rt.Check(n == 0 || strings.Contains(s, "error") || strings.Contains(s, "fault") || strings.Contains(s, "refused") || strings.Contains(s, "reset") || strings.Contains(s, "EOF"), "error-swallowed", "%s with a failing store: %s", o.name, s)
			}, faults(1), noMem),
			S("transaction", "a TxPipelined is seen by others as a whole", pick(tier, 2, 3), func() {
				redisUp()
				f := func(v string) func() {
					return func() {
						_, err := trd.TxPipelined(bg, "x", func(p redis.Pipeliner) error {
							p.Set(bg, "a", v, 0)
							p.Set(bg, "b", v, 0)
							return nil
						})
						rt.Check(err == nil, "refused", "%v", err)
					}
				}
				rt.Threads(f("1"), f("2"), func() {
					v, err := trd.GetClient().MGet(bg, "a", "b").Result()
					rt.Check(err == nil && fmt.Sprint(v[0]) == fmt.Sprint(v[1]), "torn", "%v", v)
				})
				rt.Check(trd.Get(bg, "a").Val() == trd.Get(bg, "b").Val(), "torn", "%v %v", trd.Get(bg, "a"), trd.Get(bg, "b"))
			}),
			S("conn", "ConnHGet, and GetCmdsByteSlice of good and failed results", 0, func() {
				redisUp()
				trd.HSet(bg, "h", "f", "1")
				_, err := trd.ConnHGet(nil, bg, "h", "f")
				rt.Check(err != nil, "error-swallowed", "ConnHGet without connection succeeds")
				var l []redis.Cmder
				bad := -1
				for i, n := 0, 1+rt.Choose(3, "count"); i < n; i++ {
					c := redis.NewStringCmd(bg, "get", "x")
					if rt.Choose(2, "fails") == 1 {
						c.SetErr(errors.New("no"))
						if bad < 0 {
							bad = i
						}
					} else {
						c.SetVal(fmt.Sprint("v", i))
					}
					l = append(l, c)
				}
				b, err := trd.GetCmdsByteSlice(l)
				rt.Check((err != nil) == (bad >= 0), "error-swallowed", "result %d of %d failed: %v", bad, len(l), err)
				if bad < 0 {
					bad = len(l)
				}
				for i, x := range b {
					rt.Check(string(x) == fmt.Sprint("v", i), "differs", "%q", b)
				}
				rt.Check(len(b) == bad, "differs", "%d results before the first failed one of %d", len(b), bad)
			}, noMem),
		}
	})

	// L10: files.
	register("L10", func(tier string) []rt.Scenario {
		return []rt.Scenario{
			S("sequences", "every sequence of writes to two files: each reads as what was last written", 0, func() {
				dir, err := os.MkdirTemp("", "mc-files-")
				if err != nil {
					rt.Fail("setup", "%v", err)
				}
				defer os.RemoveAll(dir)
				model := map[string]string{}
				for i := 0; i < pick(tier, 3, 4); i++ {
					f := filepath.Join(dir, []string{"a", "b.json"}[rt.Choose(2, "file")])
					data := []string{"", "{}", "{\"key\": 1}", "\x00\xff\n"}[rt.Choose(4, "data")]
					if rt.Choose(2, "how") == 0 {
						if err := file.SaveFile([]byte(data), f); err != nil {
							rt.Fail("refused", "%v", err)
						}
					} else {
						file.WriteJSON(f, []byte(data))
					}
					model[f] = data
					for _, n := range []string{"a", "b.json", "c"} {
						p := filepath.Join(dir, n)
						want, ok := model[p]
						got, err := file.ReadFile(p)
						rt.Check((err == nil) == ok && string(got) == want, "content", "%s reads as %q (%v), want %q", n, got, err, want)
						rt.Check(file.Exist(p) == ok, "exist", "%s: %v", n, !ok)
					}
				}
			}, noMem, ops(1<<20)),
			S("refused", "a file that cannot be written is an error", 0, func() {
				dir, _ := os.MkdirTemp("", "mc-files-")
				defer os.RemoveAll(dir)
				rt.Check(file.SaveFile([]byte("x"), filepath.Join(dir, "no", "a")) != nil, "refused", "no error")
				_, err := file.ReadFile(dir)
				rt.Check(err != nil, "refused", "a directory is read")
			}, noMem),
			S("names", "every name over a small alphabet is its stem and its extension", 0, func() {
				n := ""
				for i, l := 0, rt.Choose(pick(tier, 5, 6), "length"); i < l; i++ {
					n += []string{"a", ".", "/", "é"}[rt.Choose(4, "char")]
				}
				e, r := file.GetFileExt(n), file.GetFileRealName(n)
				if strings.Contains(n, ".") {
					rt.Check(r+e == n && strings.HasPrefix(e, ".") && strings.Count(e, ".") == 1, "names", "%q is %q and %q", n, r, e)
				} else {
					rt.Check(r == "" && e == "", "names", "%q is %q and %q", n, r, e)
				}
			}, noMem),
			S("contains", "every small list contains what it contains", 0, func() {
				var l []string
				in := false
				x := []string{"", "a", "b"}[rt.Choose(3, "item")]
				for i, n := 0, rt.Choose(5, "length"); i < n; i++ {
					y := []string{"", "a", "ab"}[rt.Choose(3, "element")]
					l = append(l, y)
					in = in || x == y
				}
				rt.Check(algorithms.ContainsInSlice(l, x) == in, "contains", "%q in %q: %v", x, l, !in)
			}, noMem),
		}
	})
}
