package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/pojol/braid/3rd/mgo"
	"github.com/pojol/braid/lib/tracer"
	"github.com/pojol/braid/zzmc/mcmongo"
	"github.com/pojol/braid/zzmc/rt"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/mongo"
	"go.mongodb.org/mongo-driver/mongo/options"
)

// mongoTracer counts the spans of the commands, if it has any to give.
type mongoTracer struct {
	give         bool
	begun, ended int
	tags         map[string]any
}

func (t *mongoTracer) GetTracing() interface{} { return nil }
func (t *mongoTracer) GetSpan(string) (tracer.ISpan, error) {
	if !t.give {
		return nil, errors.New("no spans")
	}
	return &mongoSpan{t}, nil
}

type mongoSpan struct{ t *mongoTracer }

func (s *mongoSpan) Begin(ctx interface{}) context.Context {
	s.t.begun++
	return ctx.(context.Context)
}
func (s *mongoSpan) SetTag(k string, v interface{}) { s.t.tags[k] = v }
func (s *mongoSpan) GetID() string                  { return "" }
func (s *mongoSpan) End(interface{})                { s.t.ended++ }

// the connections of a process are made once
var mongos struct {
	made bool
	f    [2]*mcmongo.Server
	raw  [2]*mongo.Client
	tr   mongoTracer
}

func mongoSetup() {
	if !mongos.made {
		mongos.made = true
		opts := []mgo.Option{mgo.WithTracer(&mongos.tr), mgo.WithConnTimeout(20 * time.Second), mgo.WithConnPoolSize(4)}
		for i := range mongos.f {
			mongos.f[i] = mcmongo.New()
			c, err := mongo.Connect(context.Background(), options.Client().ApplyURI("mongodb://"+mongos.f[i].Addr))
			if err != nil {
				rt.Fail("setup", "%v", err)
			}
			mongos.raw[i] = c
			opts = append(opts, mgo.AppendConn(mgo.ConnInfo{Addr: "mongodb://" + mongos.f[i].Addr, Name: fmt.Sprintf("db%d", i)}))
		}
		// another database of the first server, and a connection that is there already
		opts = append(opts, mgo.AppendConn(mgo.ConnInfo{Addr: "mongodb://" + mongos.f[0].Addr, Name: "more"}))
		opts = append(opts, mgo.AppendConn(mgo.ConnInfo{Addr: "mongodb://" + mongos.f[1].Addr, Name: "db1"}))
		if err := mgo.Build(opts...); err != nil {
			rt.Fail("setup", "%v", err)
		}
	}
	for _, f := range mongos.f {
		f.Failing("")
		f.Taken()
	}
	mongos.tr = mongoTracer{tags: map[string]any{}}
}

// mongoOp is a helper and the driver's own method it stands for; filter and document vary.
type mongoOp struct {
	name   string
	traced bool
	wrap   func(c *mgo.LCollection, q, d bson.D) string
	raw    func(c *mongo.Collection, q, d bson.D) string
}

func mongoOps() []mongoOp { return mongoOpsIn(context.Background()) }

func mongoOpsIn(bg context.Context) []mongoOp {
	cur := func(c *mongo.Cursor, err error) string {
		if err != nil {
			return fmt.Sprintf("error %v", err)
		}
		var l []bson.M
		err = c.All(bg, &l)
		return fmt.Sprint(l, err)
	}
	one := func(r *mongo.SingleResult) string {
		b, err := r.Raw()
		return fmt.Sprint(b, err)
	}
	idx := func(k string) mongo.IndexModel {
		return mongo.IndexModel{Keys: bson.D{{Key: k, Value: 1}}, Options: options.Index().SetExpireAfterSeconds(60)}
	}
	set := func(d bson.D) bson.M { return bson.M{"$set": d} }
	res := func(v any, err error) string { return fmt.Sprintf("%+v %v", v, err) }
	pipe := func(q bson.D) bson.A { return bson.A{bson.M{"$match": q}} }
	models := func(q, d bson.D) []mongo.WriteModel {
		return []mongo.WriteModel{mongo.NewInsertOneModel().SetDocument(d), mongo.NewDeleteOneModel().SetFilter(q)}
	}
	bulk := func(r *mongo.BulkWriteResult, err error) string {
		if r == nil {
			return res(nil, err)
		}
		return res(*r, err)
	}
	upd := func(r *mongo.UpdateResult, err error) string {
		if r == nil {
			return res(nil, err)
		}
		return res(*r, err)
	}
	del := func(r *mongo.DeleteResult, err error) string {
		if r == nil {
			return res(nil, err)
		}
		return res(*r, err)
	}
	ins := func(r *mongo.InsertOneResult, err error) string {
		if r == nil {
			return res(nil, err)
		}
		return res(*r, err)
	}
	insm := func(r *mongo.InsertManyResult, err error) string {
		if r == nil {
			return res(nil, err)
		}
		return res(*r, err)
	}
	type C = mgo.LCollection
	type R = mongo.Collection
	lim := options.Find().SetLimit(3).SetSkip(1)
	sk := options.FindOne().SetSkip(2)
	up := options.Update().SetUpsert(true)
	rep := options.Replace().SetUpsert(true)
	fau := options.FindOneAndUpdate().SetReturnDocument(options.After)
	cnt := options.Count().SetLimit(9)
	agg := options.Aggregate().SetAllowDiskUse(true)
	return []mongoOp{
		{"Find", true, func(c *C, q, d bson.D) string { return cur(c.Find(bg, q, lim)) }, func(c *R, q, d bson.D) string { return cur(c.Find(bg, q, lim)) }},
		{"Count", true, func(c *C, q, d bson.D) string { return res(c.Count(bg, q, cnt)) }, func(c *R, q, d bson.D) string { return res(c.CountDocuments(bg, q, cnt)) }},
		{"CountDocuments", false, func(c *C, q, d bson.D) string { return res(c.CountDocuments(bg, q, cnt)) }, func(c *R, q, d bson.D) string { return res(c.CountDocuments(bg, q, cnt)) }},
		{"FindOne", true, func(c *C, q, d bson.D) string { return one(c.FindOne(bg, q, sk)) }, func(c *R, q, d bson.D) string { return one(c.FindOne(bg, q, sk)) }},
		{"UpdateOne", true, func(c *C, q, d bson.D) string { return upd(c.UpdateOne(bg, q, set(d), up)) }, func(c *R, q, d bson.D) string { return upd(c.UpdateOne(bg, q, set(d), up)) }},
		{"InsertOne", true, func(c *C, q, d bson.D) string { return ins(c.InsertOne(bg, d)) }, func(c *R, q, d bson.D) string { return ins(c.InsertOne(bg, d)) }},
		{"InsertMany", true, func(c *C, q, d bson.D) string {
			return insm(c.InsertMany(bg, []interface{}{d, bson.M{"_id": 9}}))
		}, func(c *R, q, d bson.D) string {
			return insm(c.InsertMany(bg, []interface{}{d, bson.M{"_id": 9}}))
		}},
		{"DeleteOne", true, func(c *C, q, d bson.D) string { return del(c.DeleteOne(bg, q)) }, func(c *R, q, d bson.D) string { return del(c.DeleteOne(bg, q)) }},
		{"DeleteMany", true, func(c *C, q, d bson.D) string { return del(c.DeleteMany(bg, q)) }, func(c *R, q, d bson.D) string { return del(c.DeleteMany(bg, q)) }},
		{"SetTTL", true, func(c *C, q, d bson.D) string { return res(c.SetTTL(bg, idx("t"))) }, func(c *R, q, d bson.D) string { return res(c.Indexes().CreateOne(bg, idx("t"))) }},
		{"CreateIndexes", true, func(c *C, q, d bson.D) string {
			return res(c.CreateIndexes(bg, []mongo.IndexModel{idx("u"), idx("v")}))
		}, func(c *R, q, d bson.D) string {
			return res(c.Indexes().CreateMany(bg, []mongo.IndexModel{idx("u"), idx("v")}))
		}},
		{"IndexList", true, func(c *C, q, d bson.D) string { return cur(c.IndexList(bg)) }, func(c *R, q, d bson.D) string { return cur(c.Indexes().List(bg)) }},
		{"DeleteOneIndex", true, func(c *C, q, d bson.D) string { return res(c.DeleteOneIndex(bg, "u_1")) }, func(c *R, q, d bson.D) string { return res(c.Indexes().DropOne(bg, "u_1")) }},
		{"ReplaceOne", true, func(c *C, q, d bson.D) string { return upd(c.ReplaceOne(bg, q, d, rep)) }, func(c *R, q, d bson.D) string { return upd(c.ReplaceOne(bg, q, d, rep)) }},
		{"FindOneAndUpdate", true, func(c *C, q, d bson.D) string { return one(c.FindOneAndUpdate(bg, q, set(d), fau)) }, func(c *R, q, d bson.D) string { return one(c.FindOneAndUpdate(bg, q, set(d), fau)) }},
		{"Aggregate", false, func(c *C, q, d bson.D) string { return cur(c.Aggregate(bg, pipe(q), agg)) }, func(c *R, q, d bson.D) string { return cur(c.Aggregate(bg, pipe(q), agg)) }},
		{"BulkWrite", true, func(c *C, q, d bson.D) string {
			return bulk(c.BulkWrite(bg, models(q, d), options.BulkWrite().SetOrdered(false)))
		}, func(c *R, q, d bson.D) string {
			return bulk(c.BulkWrite(bg, models(q, d), options.BulkWrite().SetOrdered(false)))
		}},
	}
}

func init() {
	register("R02", func(tier string) []rt.Scenario {
		big := func(c *rt.Config) { c.MaxOps = 1 << 20 }
		step := func(ctx context.Context) {
			ops := mongoOpsIn(ctx)
			op := ops[rt.Choose(len(ops), "helper")]
			q := []bson.D{{}, {{Key: "a", Value: "x"}}, {{Key: "n", Value: bson.M{"$gt": 3}}}}[rt.Choose(3, "filter")]
			d := []bson.D{{{Key: "_id", Value: 1}}, {{Key: "_id", Value: "é"}, {Key: "b", Value: bson.A{1, "2"}}}}[rt.Choose(2, "document")]
			fail := []string{"", "error", "write"}[rt.Choose(3, "reply")]
			name := []string{"db0", "db1", "more"}[rt.Choose(3, "database")]
			on := map[string]int{"db0": 0, "db1": 1, "more": 0}[name]
			mongos.tr = mongoTracer{give: rt.Choose(2, "spans") == 1, tags: map[string]any{}}
			f := mongos.f[on]
			f.Failing(fail)
			got := op.wrap(mgo.Collection(name, "c"), q, d)
			sent := f.Taken()
			other := mongos.f[1-on].Taken()
			want := op.raw(mongos.raw[on].Database(name).Collection("c"), q, d)
			exp := f.Taken()
			if c := "context canceled"; ctx.Err() != nil && strings.Contains(got, c) && strings.Contains(want, c) {
				got, want = c, c // the driver says where it noticed, and after how long
			}
			rt.Check(got == want, "result", "%s returns %s, want %s", op.name, got, want)
			rt.Check(fmt.Sprint(sent) == fmt.Sprint(exp) && (len(sent) > 0 || ctx.Err() != nil), "command", "%s sends %s, want %s", op.name, sent, exp)
			rt.Check(len(other) == 0, "server", "%s of %s goes to another server", op.name, name)
			n := 0
			if op.traced && mongos.tr.give {
				n = 1
				rt.Check(mongos.tr.tags["collection"] == "c", "tags", "%s: %v", op.name, mongos.tr.tags)
			}
			if op.traced {
				rt.Check(mongos.tr.begun == n && mongos.tr.ended == n, "spans", "%s: %d spans begun, %d ended, want %d", op.name, mongos.tr.begun, mongos.tr.ended, n)
			}
		}
		return []rt.Scenario{
			S("commands", "every helper, filter, document, kind of reply and database: the command sent and the result are the driver's own", 0, func() {
				mongoSetup()
				step(context.Background())
			}, noMem, big),
			S("ended", "the same in a context that has ended", 0, func() {
				mongoSetup()
				ctx, cancel := context.WithCancel(context.Background())
				cancel()
				step(ctx)
			}, noMem, big),
			S("unknown", "a database nobody connected to is refused, and the others still answer", 0, func() {
				mongoSetup()
				func() {
					defer func() { rt.Check(recover() != nil, "unknown", "a collection of an unknown database") }()
					mgo.Collection("none", "c")
				}()
				if _, err := mgo.Collection("db0", "c").Count(context.Background(), bson.M{}); err != nil {
					rt.Fail("after", "%v", err)
				}
			}, noMem, big),
		}
	})
}
