package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"gotor/bencode"
)

func init() { domains["ben"] = runBen }

// valOut describes a decoded value.
func valOut(v interface{}) M {
	switch x := v.(type) {
	case int64:
		b := bigint(x)
		return M{"t": "i", "neg": b["neg"], "d": b["d"]}
	case string:
		return M{"t": "s", "b": ints([]byte(x))}
	case bencode.List:
		l := make([]M, 0, len(x))
		for _, e := range x {
			l = append(l, valOut(e))
		}
		return M{"t": "l", "v": l}
	case bencode.Dict:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		l := make([]M, 0, len(x))
		for _, k := range keys {
			l = append(l, M{"k": ints([]byte(k)), "v": valOut(x[k])})
		}
		return M{"t": "d", "kv": l}
	default:
		return M{"t": "x", "kind": fmt.Sprintf("%T", v)}
	}
}

// valIn makes the Go value that a script describes.
func valIn(v interface{}) interface{} {
	m := obj(v)
	switch str(m["t"]) {
	case "i":
		i := parseBig(v)
		switch m["go"] {
		case "int":
			return int(i)
		case "int8":
			return int8(i)
		case "int16":
			return int16(i)
		case "int32":
			return int32(i)
		}
		return i
	case "s":
		return string(bytesOf(m["b"]))
	case "l":
		l := make(bencode.List, 0)
		for _, e := range list(m["v"]) {
			l = append(l, valIn(e))
		}
		return l
	case "d":
		d := make(bencode.Dict)
		for _, e := range list(m["kv"]) {
			d[string(bytesOf(obj(e)["k"]))] = valIn(obj(e)["v"])
		}
		return d
	case "x":
		switch str(m["kind"]) {
		case "bool":
			return true
		case "nil":
			return nil
		case "uint":
			return uint(7)
		case "uint8":
			return uint8(7)
		case "uint16":
			return uint16(7)
		case "uint32":
			return uint32(7)
		case "uint64":
			return uint64(7)
		case "float64":
			return float64(1)
		case "bytes":
			return []byte("ab")
		case "strings":
			return []string{"ab"}
		case "map":
			return map[string]string{"a": "b"}
		case "struct":
			return struct{}{}
		case "ptr":
			i := int64(1)
			return &i
		}
	}
	fatal("bad value", v)
	return nil
}

func decOut(b []byte) M {
	v, e := bencode.Decode(b)
	if e != nil {
		return M{"ok": false}
	}
	return M{"ok": true, "v": valOut(v)}
}

func runBen(s M) {
	switch str(s["op"]) {
	case "dec":
		in := bytesOf(s["in"])
		keep := string(in)
		s["out"] = decOut(in)
		s["same"] = keep == string(in)
	case "enc":
		b, e := bencode.Encode(valIn(s["v"]))
		if e != nil {
			s["out"] = M{"ok": false}
		} else {
			s["out"] = M{"ok": true, "b": ints(b)}
			s["back"] = decOut(b)
		}
	case "get":
		d, _ := valIn(s["v"]).(bencode.Dict)
		k := string(bytesOf(s["key"]))
		var v interface{}
		var e error
		switch str(s["getter"]) {
		case "string":
			v, e = d.GetString(k)
		case "int":
			v, e = d.GetInt(k)
		case "uint":
			var u uint64
			u, e = d.GetUint(k)
			if e == nil {
				s["out"] = M{"ok": true, "v": M{"t": "i", "neg": false, "d": digits(u)}}
				return
			}
		case "dict":
			v, e = d.GetDict(k)
		case "list":
			v, e = d.GetList(k)
		}
		if e != nil {
			_ = e.Error()
			s["out"] = M{"ok": false}
		} else {
			s["out"] = M{"ok": true, "v": valOut(v)}
		}
	case "wide":
		// one container with n elements, all alike
		n, inner := int(num(s["n"])), bytesOf(s["in"])
		text := strings.Builder{}
		text.WriteString(str(s["kind"]))
		for i := 0; i < n; i++ {
			if str(s["kind"]) == "d" {
				text.WriteString(fmt.Sprintf("6:%06d", i))
			}
			text.Write(inner)
		}
		text.WriteString("e")
		v, e := bencode.Decode([]byte(text.String()))
		if e != nil {
			s["out"] = M{"ok": false}
			return
		}
		elems := []interface{}{}
		switch x := v.(type) {
		case bencode.List:
			elems = append(elems, x...)
		case bencode.Dict:
			for i := 0; i < n; i++ {
				if y, ok := x[fmt.Sprintf("%06d", i)]; ok {
					elems = append(elems, y)
				}
			}
			if len(x) != len(elems) {
				elems = nil
			}
		}
		same := true
		for _, y := range elems {
			same = same && reflect.DeepEqual(y, elems[0])
		}
		b, e := bencode.Encode(v)
		s["out"] = M{"ok": true, "n": len(elems), "same": same, "again": e == nil && string(b) == text.String()}
		if len(elems) > 0 {
			s["out"].(M)["v"] = valOut(elems[0])
		}
	case "long":
		// a string of n bytes, alone or in a container
		b := make([]byte, num(s["n"]))
		for i := range b {
			b[i] = byteAt(int64(i))
		}
		text := fmt.Sprintf("%d:%s", len(b), b)
		var want interface{} = string(b)
		switch str(s["kind"]) {
		case "l":
			text, want = "li1e"+text+"1:xe", bencode.List{int64(1), want, "x"}
		case "d":
			text, want = "d1:a"+text+"1:bi-5ee", bencode.Dict{"a": want, "b": int64(-5)}
		case "k":
			text, want = "d"+text+"i7ee", bencode.Dict{string(b): int64(7)}
		}
		v, e := bencode.Decode([]byte(text))
		b, e2 := bencode.Encode(want)
		s["out"] = M{"decoded": e == nil && reflect.DeepEqual(v, want), "encoded": e2 == nil && string(b) == text}
	case "deep":
		// n nested containers of one kind, closed by m ends
		n, m := int(num(s["n"])), int(num(s["m"]))
		open := "l"
		if str(s["kind"]) == "d" {
			open = "d1:a"
		}
		text := strings.Repeat(open, n)
		if str(s["kind"]) == "d" {
			text += "i7e"
		}
		text += strings.Repeat("e", m)
		v, e := bencode.Decode([]byte(text))
		if e != nil {
			s["out"] = M{"ok": false}
			return
		}
		depth := 0
		for v != nil {
			var next interface{}
			switch x := v.(type) {
			case bencode.List:
				depth++
				if len(x) > 0 {
					next = x[0]
				}
			case bencode.Dict:
				depth++
				next = x["a"]
			}
			v = next
		}
		s["out"] = M{"ok": true, "depth": depth}
	default:
		fatal("bad op")
	}
}
