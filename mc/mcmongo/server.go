// Package mcmongo is a stand-in for a MongoDB server, for the checks of the mongo helpers.
package mcmongo

import (
	"encoding/binary"
	"io"
	"net"
	"strings"
	"sync"

	"go.mongodb.org/mongo-driver/bson"
)

// Server records the commands it gets over the loopback and answers each in a fixed way.
type Server struct {
	Addr string
	mu   sync.Mutex
	seen []string
	fail string // how commands fail: "", "error" or "write"
}

func New() *Server {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	f := &Server{Addr: l.Addr().String()}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go f.serve(c)
		}
	}()
	return f
}

func (f *Server) serve(c net.Conn) {
	defer c.Close()
	for {
		h := make([]byte, 16)
		if _, err := io.ReadFull(c, h); err != nil {
			return
		}
		le := binary.LittleEndian
		b := make([]byte, le.Uint32(h)-16)
		if _, err := io.ReadFull(c, b); err != nil {
			return
		}
		switch le.Uint32(h[12:]) {
		case 2004: // OP_QUERY, the first hello
			r, _ := bson.Marshal(f.answer(nil, nil))
			m := make([]byte, 36, 36+len(r))
			le.PutUint32(m, uint32(36+len(r)))
			copy(m[8:12], h[4:8])
			le.PutUint32(m[12:], 1)
			le.PutUint32(m[32:], 1)
			if _, err := c.Write(append(m, r...)); err != nil {
				return
			}
		case 2013: // OP_MSG
			var cmd bson.D
			seqs := bson.D{}
			for p := b[4:]; len(p) > 0; {
				kind := p[0]
				n := le.Uint32(p[1:])
				if kind == 0 {
					bson.Unmarshal(p[1:1+n], &cmd)
				} else {
					q := p[5 : 1+n]
					i := strings.IndexByte(string(q), 0)
					name := string(q[:i])
					var docs bson.A
					for q = q[i+1:]; len(q) > 0; q = q[le.Uint32(q):] {
						docs = append(docs, bson.Raw(q[:le.Uint32(q)]))
					}
					seqs = append(seqs, bson.E{Key: name, Value: docs})
				}
				p = p[1+n:]
			}
			r, err := bson.Marshal(f.answer(cmd, seqs))
			if err != nil {
				panic(err)
			}
			m := make([]byte, 21, 21+len(r))
			le.PutUint32(m, uint32(21+len(r)))
			copy(m[8:12], h[4:8])
			le.PutUint32(m[12:], 2013)
			if _, err := c.Write(append(m, r...)); err != nil {
				return
			}
		}
	}
}

func (f *Server) answer(cmd, seqs bson.D) any {
	ok := bson.E{Key: "ok", Value: 1}
	name := "hello"
	if len(cmd) > 0 {
		name = cmd[0].Key
	}
	if strings.EqualFold(name, "hello") || strings.EqualFold(name, "ismaster") {
		return bson.D{{Key: "isWritablePrimary", Value: true}, {Key: "ismaster", Value: true}, {Key: "helloOk", Value: true}, {Key: "maxBsonObjectSize", Value: 16777216},
			{Key: "maxMessageSizeBytes", Value: 48000000}, {Key: "maxWriteBatchSize", Value: 100000}, {Key: "minWireVersion", Value: 0}, {Key: "maxWireVersion", Value: 17}, ok}
	}
	if name == "ping" || name == "endSessions" {
		return bson.D{ok}
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	s, _ := bson.MarshalExtJSON(append(append(bson.D{}, cmd...), seqs...), false, false)
	f.seen = append(f.seen, string(s))
	if f.fail == "error" {
		return bson.D{{Key: "ok", Value: 0}, {Key: "code", Value: 26}, {Key: "codeName", Value: "NamespaceNotFound"}, {Key: "errmsg", Value: "no such thing"}}
	}
	docs := 1
	for _, e := range seqs {
		docs = len(e.Value.(bson.A))
	}
	var coll string
	if len(cmd) > 0 {
		coll, _ = cmd[0].Value.(string)
	}
	cursor := func(d ...any) bson.D {
		return bson.D{{Key: "cursor", Value: bson.D{{Key: "id", Value: int64(0)}, {Key: "ns", Value: "d." + coll}, {Key: "firstBatch", Value: bson.A(d)}}}, ok}
	}
	if f.fail == "write" && (name == "insert" || name == "update" || name == "delete") {
		return bson.D{{Key: "n", Value: 0}, {Key: "writeErrors", Value: bson.A{bson.D{{Key: "index", Value: 0}, {Key: "code", Value: 11000}, {Key: "errmsg", Value: "duplicate"}}}}, ok}
	}
	switch name {
	case "find":
		return cursor(bson.D{{Key: "_id", Value: 1}, {Key: "a", Value: "x"}}, bson.D{{Key: "_id", Value: 2}})
	case "aggregate":
		return cursor(bson.D{{Key: "n", Value: 5}})
	case "listIndexes":
		return cursor(bson.D{{Key: "v", Value: 2}, {Key: "name", Value: "_id_"}, {Key: "key", Value: bson.D{{Key: "_id", Value: 1}}}})
	case "insert", "delete":
		return bson.D{{Key: "n", Value: docs}, ok}
	case "update":
		return bson.D{{Key: "n", Value: 2}, {Key: "nModified", Value: 1}, ok}
	case "findAndModify":
		return bson.D{{Key: "value", Value: bson.D{{Key: "_id", Value: 1}, {Key: "a", Value: "old"}}}, ok}
	case "dropIndexes":
		return bson.D{{Key: "nIndexesWas", Value: 2}, ok}
	}
	return bson.D{ok}
}

func (f *Server) Taken() []string {
	f.mu.Lock()
	defer f.mu.Unlock()
	s := f.seen
	f.seen = nil
	return s
}

func (f *Server) Failing(how string) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.fail = how
}
