package main

import (
	"net"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"sync/atomic"

	"gotor/bf"
	"gotor/peer"
	"gotor/swarm"
	"gotor/torrent"
)

func init() { domains["picker"] = runPicker }

var pickTors = map[int64]*torrent.Torrent{}

// pickTor is a torrent of n pieces of one byte.
func pickTor(n int64) *torrent.Torrent {
	if t := pickTors[n]; t != nil {
		return t
	}
	dir, e := os.MkdirTemp(".", "pick-")
	if e != nil {
		fatal(e)
	}
	defer os.RemoveAll(dir)
	files := []interface{}{M{"path": "f", "len": float64(n)}}
	tf := filepath.Join(dir, "t")
	putFile(tf, []byte(torrentText("http://127.0.0.1:1/", "t", files, 1, 1, make([]byte, n))))
	t, e := torrent.FromTorrentFile(tf, dir)
	if e != nil {
		fatal(e)
	}
	pickTors[n] = t
	return t
}

func runPicker(s M) {
	n := num(s["n"])
	tor := pickTor(n)
	have := bf.NewBitfield(n)
	for _, i := range list(s["have"]) {
		have.Set(num(i), true)
	}
	sw := &swarm.Swarm{Tor: tor, Bf: have, ChErr: make(chan error)}
	ppt := swarm.NewPeerPieceTracker(uint32(n), have)
	sw.PPT = ppt
	hs := []*swarm.PeerHandler{}
	for p := 1; p <= int(num(s["peers"])); p++ {
		// some share their id, some their address, none their port
		info := peer.MakePeer([]string{"-XX0000-aaaaaaaaaaaa", "-XX0000-bbbbbbbbbbbb", ""}[p%3], net.IPv4(127, 0, 0, byte(1+p%2)), uint16(1000+p))
		hs = append(hs, swarm.NewPeerHandler(info, sw, nil))
	}
	// the bitfields, which hold all that the peer announced so far
	announced := make([][]int64, len(hs)+1)
	fields := map[float64]*bf.Bitfield{}
	for _, evs := range list(s["th"]) {
		for _, x := range list(evs) {
			ev := obj(x)
			p := int(num(ev["p"]))
			if str(ev["e"]) != "bf" && str(ev["e"]) != "reg" {
				continue
			}
			for _, i := range list(ev["i"]) {
				announced[p] = append(announced[p], num(i))
			}
			if str(ev["e"]) == "bf" {
				b := bf.NewBitfield(n)
				for _, i := range announced[p] {
					b.Set(i, true)
				}
				ev["f"] = float64(len(fields))
				fields[ev["p"].(float64)*1e6+ev["f"].(float64)] = b
			}
		}
	}
	var clock int64
	exec := func(ev M) {
		p := int(num(ev["p"])) - 1
		var idx []uint32
		for _, i := range list(ev["i"]) {
			idx = append(idx, uint32(num(i)))
		}
		ev["res"] = -1
		switch str(ev["e"]) {
		case "reg":
			ev["from"] = atomic.AddInt64(&clock, 1)
			ppt.Register(hs[p], idx...)
		case "bf":
			b := fields[ev["p"].(float64)*1e6+ev["f"].(float64)]
			ev["from"] = atomic.AddInt64(&clock, 1)
			ppt.RegisterBF(hs[p], b)
		case "unreg":
			ev["from"] = atomic.AddInt64(&clock, 1)
			ppt.Unregister(hs[p])
		case "got":
			ev["from"] = atomic.AddInt64(&clock, 1)
			have.Set(int64(idx[0]), true)
		case "next":
			ev["from"] = atomic.AddInt64(&clock, 1)
			i, ok := ppt.NextPiece(hs[p])
			if ok {
				ev["res"] = i
			}
		default:
			fatal("bad event")
		}
		ev["to"] = atomic.AddInt64(&clock, 1)
	}
	// threads run one after the other, except that those marked par run together
	th := list(s["th"])
	var par []int
	for t := range th {
		if t < len(list(s["par"])) && boolean(list(s["par"])[t]) {
			par = append(par, t)
			continue
		}
		runPar(th, par, exec)
		par = nil
		for _, x := range list(th[t]) {
			exec(obj(x))
		}
	}
	runPar(th, par, exec)
	order := []int{}
	for _, t := range th {
		for range list(t) {
			order = append(order, 0)
		}
	}
	s["order"] = order
	if boolean(s["bulk"]) {
		bulk(s, n, sw, ppt)
	}
}

func runPar(th []interface{}, par []int, exec func(M)) {
	if len(par) == 0 {
		return
	}
	bar := newBarrier(len(par))
	var wg sync.WaitGroup
	for _, t := range par {
		wg.Add(1)
		go func(evs []interface{}) {
			defer wg.Done()
			bar.wait(0)
			for k, x := range evs {
				if k%3 == 1 {
					runtime.Gosched()
				}
				exec(obj(x))
			}
		}(list(th[t]))
	}
	wg.Wait()
}

// bulk lets all peers choose at once until nothing is left for them.
func bulk(s M, n int64, sw *swarm.Swarm, ppt *swarm.PeerPieceTracker) {
	peers := list(s["bulkann"])
	got := make([][]int, len(peers))
	hs := []*swarm.PeerHandler{}
	for p := range peers {
		hs = append(hs, swarm.NewPeerHandler(peer.MakePeer("b", net.IPv4(127, 0, 1, 1), uint16(3000+p)), sw, nil))
	}
	bar := newBarrier(len(peers))
	var wg sync.WaitGroup
	for p := range peers {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			got[p] = []int{}
			bar.wait(0)
			for _, i := range list(peers[p]) {
				ppt.Register(hs[p], uint32(num(i)))
			}
			for {
				i, ok := ppt.NextPiece(hs[p])
				if !ok {
					return
				}
				got[p] = append(got[p], int(i))
				if len(got[p]) > 4*int(n) {
					return
				}
			}
		}(p)
	}
	wg.Wait()
	s["bulkgot"] = got
}
