package lib

import (
	le "encoding/binary"
	"fmt"
	"io"
	"net"
	"sync"

	"go.mongodb.org/mongo-driver/bson"
)

// FakeMongo answers the search tool as a MongoDB server would, remembers what
// it was asked and gives the documents it was told to.
type FakeMongo struct {
	mu     sync.Mutex
	ln     net.Listener
	Docs   []bson.Raw // of the last insertion
	Filter bson.Raw   // of the last search
	Where  string     // collection searched
	Put    string     // collection filled
	Give   []int      // places of the documents to give (from 1)
	Finds  int
	Drops  int
}

func StartMongo() (*FakeMongo, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	f := &FakeMongo{ln: ln}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go f.serve(c)
		}
	}()
	return f, nil
}

func (f *FakeMongo) URL() string { return "mongodb://" + f.ln.Addr().String() }
func (f *FakeMongo) Stop()       { f.ln.Close() }

func (f *FakeMongo) serve(c net.Conn) {
	defer c.Close()
	for {
		head := make([]byte, 16)
		if _, err := io.ReadFull(c, head); err != nil {
			return
		}
		size := int(le.LittleEndian.Uint32(head))
		if size < 16 || size > 1<<26 {
			return
		}
		body := make([]byte, size-16)
		if _, err := io.ReadFull(c, body); err != nil {
			return
		}
		id, op := le.LittleEndian.Uint32(head[4:]), le.LittleEndian.Uint32(head[12:])
		var reply []byte
		switch op {
		case 2004: // a query, as used for the first message
			at := 4
			for at < len(body) && body[at] != 0 {
				at++
			}
			at += 1 + 8
			d, _ := bson.Marshal(f.command(doc(body[at:]), nil))
			reply = append(make([]byte, 20), d...)
			reply[16] = 1
			reply = message(id, 1, reply)
		case 2013:
			var cmd bson.Raw
			var more []bson.Raw
			for at := 4; at < len(body); {
				kind := body[at]
				at++
				if kind == 0 {
					cmd = doc(body[at:])
					at += len(cmd)
					continue
				}
				end := at + int(le.LittleEndian.Uint32(body[at:]))
				at += 4
				for body[at] != 0 {
					at++
				}
				for at++; at < end; {
					d := doc(body[at:])
					more = append(more, d)
					at += len(d)
				}
			}
			d, _ := bson.Marshal(f.command(cmd, more))
			reply = message(id, 2013, append(make([]byte, 5), d...))
		default:
			return
		}
		if _, err := c.Write(reply); err != nil {
			return
		}
	}
}

func doc(b []byte) bson.Raw {
	n := int(le.LittleEndian.Uint32(b))
	return append(bson.Raw{}, b[:n]...)
}

func message(to, op uint32, body []byte) []byte {
	m := make([]byte, 16, 16+len(body))
	le.LittleEndian.PutUint32(m, uint32(16+len(body)))
	le.LittleEndian.PutUint32(m[8:], to)
	le.LittleEndian.PutUint32(m[12:], op)
	return append(m, body...)
}

func (f *FakeMongo) command(cmd bson.Raw, more []bson.Raw) bson.D {
	f.mu.Lock()
	defer f.mu.Unlock()
	var d bson.D
	if bson.Unmarshal(cmd, &d) != nil || len(d) == 0 {
		return bson.D{{Key: "ok", Value: 0.0}, {Key: "errmsg", Value: "what?"}}
	}
	ok := bson.E{Key: "ok", Value: 1.0}
	db := fmt.Sprint(cmd.Lookup("$db").String())
	switch d[0].Key {
	case "isMaster", "ismaster", "hello":
		return bson.D{{Key: "ismaster", Value: true}, {Key: "maxBsonObjectSize", Value: int32(1 << 24)}, {Key: "maxMessageSizeBytes", Value: int32(48000000)},
			{Key: "maxWriteBatchSize", Value: int32(100000)}, {Key: "minWireVersion", Value: int32(0)}, {Key: "maxWireVersion", Value: int32(8)}, ok}
	case "drop":
		f.Drops++
		f.Docs = nil
		return bson.D{ok}
	case "insert":
		if a, err := cmd.LookupErr("documents"); err == nil {
			if l, err := a.Array().Values(); err == nil {
				for _, v := range l {
					more = append(more, v.Document())
				}
			}
		}
		f.Put = db + "." + fmt.Sprint(d[0].Value)
		f.Docs = append(f.Docs, more...)
		return bson.D{{Key: "n", Value: int32(len(more))}, ok}
	case "find":
		f.Finds++
		f.Where = db + "." + fmt.Sprint(d[0].Value)
		f.Filter = bson.Raw{5, 0, 0, 0, 0}
		if v, err := cmd.LookupErr("filter"); err == nil {
			f.Filter = append(bson.Raw{}, v.Document()...)
		}
		batch := bson.A{}
		for _, i := range f.Give {
			if i <= len(f.Docs) {
				batch = append(batch, f.Docs[i-1])
			}
		}
		return bson.D{{Key: "cursor", Value: bson.D{{Key: "id", Value: int64(0)}, {Key: "ns", Value: "tsl.books"}, {Key: "firstBatch", Value: batch}}}, ok}
	}
	return bson.D{ok}
}
