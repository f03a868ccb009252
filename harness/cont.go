package main

import (
	"gotor/bf"
	"gotor/utils"
	"gotor/utils/ds"
)

func init() {
	domains["bits"] = runBits
	domains["cont"] = runCont
}

func seen(b *bf.Bitfield) M {
	if b == nil {
		return M{"nbits": -1}
	}
	get := []bool{}
	for i := int64(0); i < b.Nbits(); i++ {
		get = append(get, b.Get(i))
	}
	d5 := b.Data5()
	tail := []byte{}
	if len(d5) >= 5 {
		tail = d5[5:]
	}
	return M{"nbits": b.Nbits(), "nbytes": b.Nbytes(), "nset": b.Nset(), "complete": b.Complete(), "data": ints(b.Data()),
		"tail": ints(tail), "get": get}
}

func runBits(s M) {
	var b *bf.Bitfield
	for _, x := range list(s["evs"]) {
		ev := obj(x)
		ok := true
		switch str(ev["e"]) {
		case "new":
			b = bf.NewBitfield(num(ev["n"]))
		case "adopt":
			b2, e := bf.FromBytes(append(make([]byte, 0, 64), bytesOf(ev["b"])...), num(ev["n"]))
			ok = e == nil
			if ok {
				b = b2
			}
		case "set":
			b.Set(num(ev["i"]), boolean(ev["v"]))
		case "fill":
			b.Fill()
		case "nbits":
			ok = !caught(func() { b.SetNbits(num(ev["n"])) })
		default:
			fatal("bad event")
		}
		ev["ok"] = ok
		ev["see"] = seen(b)
	}
}

type member struct {
	key string
	id  int
}

func (m *member) Key() string { return m.key }

func runCont(s M) {
	switch str(s["op"]) {
	case "list":
		lists := make([]ds.LinkedList[int], int(num(s["n"])))
		for i := range lists {
			lists[i] = ds.Make[int]()
		}
		nodes := map[int]*ds.Node[int]{}
		for k, x := range list(s["evs"]) {
			ev := obj(x)
			l := &lists[int(num(ev["l"]))-1]
			switch str(ev["e"]) {
			case "data":
				nodes[k+1] = l.AddDataFront(k + 1)
				ev["node"] = k + 1
			case "node":
				l.AddNodeFront(nodes[int(num(ev["node"]))])
			case "remove":
				l.Remove(nodes[int(num(ev["node"]))])
			case "clear":
				l.Clear()
			default:
				fatal("bad event")
			}
			fw, bw := []interface{}{}, []interface{}{}
			for i := range lists {
				f, b := []int{}, []int{}
				var last *ds.Node[int]
				for n := lists[i].Head(); n != nil && len(f) < 3000; n = n.Next() {
					f = append(f, n.Data)
					last = n
				}
				for n := last; n != nil && len(b) < 3000; n = n.Prev() {
					b = append(b, n.Data)
				}
				fw, bw = append(fw, f), append(bw, b)
			}
			ev["fw"], ev["bw"] = fw, bw
		}
	case "set":
		set := ds.MakeSet[*member]()
		for k, x := range list(s["evs"]) {
			ev := obj(x)
			m := &member{string(bytesOf(ev["key"])), k + 1}
			switch str(ev["e"]) {
			case "add":
				ev["ok"] = set.Add(m)
			case "remove":
				ev["ok"] = set.Remove(m)
			case "has":
				ev["ok"] = set.Has(m)
			default:
				fatal("bad event")
			}
			items := []M{}
			for _, i := range set.Items() {
				it := M{"id": 0, "key": []int{}}
				if i != nil {
					it = M{"id": i.id, "key": ints([]byte(i.key))}
				}
				items = append(items, it)
			}
			ev["size"] = set.Size()
			ev["items"] = items
		}
	case "segment":
		segs := []interface{}{}
		data := bytesOf(s["data"])
		for _, p := range utils.SegmentData(data, num(s["size"])) {
			segs = append(segs, ints(p))
		}
		s["segs"] = segs
		s["hashes"] = len(utils.HashSlices(utils.SegmentData(data, num(s["size"]))))
	case "swap":
		in := []int64{}
		for _, v := range list(s["data"]) {
			in = append(in, num(v))
		}
		s["res"] = utils.RemoveSwap(in, num(s["i"]))
	default:
		fatal("bad op")
	}
}
