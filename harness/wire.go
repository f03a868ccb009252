package main

import (
	"bytes"
	"encoding/binary"
	"reflect"

	"gotor/bf"
	"gotor/p2p"
)

func init() { domains["wire"] = runWire }

func u4(v interface{}) uint32 { return binary.BigEndian.Uint32(bytesOf(v)) }

func b4(u uint32) []int {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, u)
	return ints(b)
}

// message makes the message that a script describes.
func message(m M) p2p.Message {
	switch str(m["t"]) {
	case "choke":
		return p2p.NewMsgChoke()
	case "unchoke":
		return p2p.NewMsgUnchoke()
	case "interested":
		return p2p.NewMsgInterested()
	case "uninterested":
		return p2p.NewMsgNotInterested()
	case "keepalive":
		ka := p2p.KeepAliveSingleton
		return &ka
	case "have":
		return p2p.NewMsgHave(u4(m["a"]))
	case "request":
		return p2p.NewMsgRequest(u4(m["a"]), u4(m["b"]), u4(m["c"]))
	case "piece":
		return p2p.NewMsgPiece(u4(m["a"]), u4(m["b"]), bytesOf(m["block"]))
	case "bitfield":
		block := bytesOf(m["block"])
		b := bf.NewBitfield(int64(8 * len(block)))
		for i := range block {
			for j := 0; j < 8; j++ {
				b.Set(int64(8*i+j), block[i]&(128>>uint(j)) != 0)
			}
		}
		return p2p.NewMsgBitfield(b)
	}
	fatal("bad message")
	return nil
}

// told writes down what a message says.
func told(m p2p.Message) M {
	d := M{"t": "?", "a": b4(0), "b": b4(0), "c": b4(0), "block": []int{}}
	r := M{"m": d, "length": b4(m.Length()), "mtype": m.Mtype(), "bytes": ints(append([]byte{}, m.Encode()...)), "nbits": 0}
	switch x := m.(type) {
	case *p2p.MsgChoke:
		d["t"] = "choke"
	case *p2p.MsgUnchoke:
		d["t"] = "unchoke"
	case *p2p.MsgInterested:
		d["t"] = "interested"
	case *p2p.MsgNotInterested:
		d["t"] = "uninterested"
	case *p2p.MsgKeepAlive:
		d["t"] = "keepalive"
	case *p2p.MsgHave:
		d["t"], d["a"] = "have", b4(x.Index())
	case *p2p.MsgRequest:
		d["t"], d["a"], d["b"], d["c"] = "request", b4(x.Index()), b4(x.Begin()), b4(x.ReqLen())
	case *p2p.MsgPiece:
		d["t"], d["a"], d["b"], d["block"] = "piece", b4(x.Index()), b4(x.Begin()), ints(x.Block())
	case *p2p.MsgBitfield:
		d["t"], d["block"] = "bitfield", ints(append([]byte{}, x.Bitfield().Data()...))
		r["nbits"] = x.Bitfield().Nbits()
	}
	return r
}

func none(m p2p.Message) bool {
	if m == nil {
		return true
	}
	v := reflect.ValueOf(m)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

// runRepeated decodes some messages repeated many times.
func runRepeated(s M) {
	unit, n := []byte{}, int(num(s["n"]))
	want := []M{}
	for _, x := range list(s["ms"]) {
		m := message(obj(x))
		unit = append(unit, m.Encode()...)
		want = append(want, told(m))
	}
	buf := bytes.Repeat(unit, n)
	s["size"] = len(unit)
	dar := p2p.DecodeAll(buf)
	right := 0
	for i, m := range dar.Msgs {
		if !none(m) && reflect.DeepEqual(told(m), want[i%len(want)]) {
			right++
		}
	}
	s["out"] = M{"n": len(dar.Msgs), "right": right, "read": dar.Read}
}

func runWire(s M) {
	if s["n"] != nil {
		runRepeated(s)
		return
	}
	encs := []M{}
	data := []byte{}
	at := []int{}
	msgs := []p2p.Message{}
	for _, x := range list(s["ms"]) {
		at = append(at, 0)
		msgs = append(msgs, message(obj(x)))
	}
	for i, m := range msgs { // all exist before the first is encoded
		at[i] = len(data)
		b := m.Encode()
		encs = append(encs, M{"bytes": ints(b), "length": b4(m.Length()), "mtype": m.Mtype()})
		data = append(data, b...)
	}
	at = append(at, len(data))
	s["enc"] = encs
	data = append(data, bytesOf(s["tail"])...)

	ones := []M{}
	for _, p := range at {
		buf := append([]byte{}, data[p:]...)
		buf = buf[:len(buf):len(buf)]
		dr, e := p2p.Decode(buf)
		now, later := []M{}, []M{}
		if !none(dr.Msg) {
			now = append(now, told(dr.Msg))
		}
		for i := range buf {
			buf[i] ^= 0x5a
		}
		if !none(dr.Msg) {
			later = append(later, told(dr.Msg))
		}
		n := uint64(0)
		if e == nil {
			n = dr.Read
		}
		ones = append(ones, M{"at": p, "ok": e == nil, "n": n, "now": now, "later": later})
	}
	s["ones"] = ones

	buf := append([]byte{}, data...)
	dar := p2p.DecodeAll(buf)
	now, later := []M{}, []M{}
	for _, m := range dar.Msgs {
		if !none(m) {
			now = append(now, told(m))
		}
	}
	for i := range buf {
		buf[i] ^= 0x5a
	}
	for _, m := range dar.Msgs {
		if !none(m) {
			later = append(later, told(m))
		}
	}
	s["all"] = M{"now": now, "later": later, "read": dar.Read}
}
