package main

import (
	"bufio"
	"crypto/sha1"
	"fmt"
	"net"
	"os"
	"strconv"
	"strings"
	"time"

	"gotor/torrent"
	"gotor/tracker"
)

func init() { domains["tracker"] = runTracker }

// asked is a request as it came over the wire.
type asked struct {
	method, target string
}

// rawTracker answers every HTTP request on a fresh port with the given bytes, written in
// pieces of at most seg bytes; cut leaves the last bytes away.
func rawTracker(body []byte, seg int, chunked, cut bool) (l net.Listener, got func() []asked) {
	l, e := net.Listen("tcp", "127.0.0.1:0")
	if e != nil {
		fatal(e)
	}
	ch := make(chan asked, 100)
	go func() {
		for {
			c, e := l.Accept()
			if e != nil {
				return
			}
			go func() {
				defer c.Close()
				r := bufio.NewReader(c)
				line, e := r.ReadString('\n')
				if e != nil {
					return
				}
				for {
					h, e := r.ReadString('\n')
					if e != nil {
						return
					}
					if strings.TrimRight(h, "\r\n") == "" {
						break
					}
				}
				f := strings.SplitN(strings.TrimRight(line, "\r\n"), " ", 2)
				a := asked{method: f[0]}
				if len(f) == 2 {
					a.target = strings.TrimSuffix(strings.TrimSuffix(f[1], " HTTP/1.1"), " HTTP/1.0")
				}
				ch <- a
				out := "HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nConnection: close\r\n"
				if chunked {
					out += "Transfer-Encoding: chunked\r\n\r\n"
					for i := 0; i < len(body); {
						n := seg
						if n > len(body)-i {
							n = len(body) - i
						}
						out += fmt.Sprintf("%x\r\n%s\r\n", n, body[i:i+n])
						i += n
					}
					if !cut {
						out += "0\r\n\r\n"
					}
				} else {
					out += fmt.Sprintf("Content-Length: %d\r\n\r\n", len(body)) + string(body)
					if cut {
						out = out[:len(out)-1]
					}
				}
				for i := 0; i < len(out); {
					n := seg * 8
					if n > len(out)-i {
						n = len(out) - i
					}
					if _, e := c.Write([]byte(out[i : i+n])); e != nil {
						return
					}
					i += n
				}
			}()
		}
	}()
	return l, func() (res []asked) {
		for {
			select {
			case a := <-ch:
				res = append(res, a)
			default:
				return res
			}
		}
	}
}

// announced makes a torrent with this announce URL, and tells its infohash.
func announced(announce, name string) (*torrent.Torrent, []byte, error) {
	t := torrentText(announce, name, []interface{}{M{"len": 1.0, "path": name}}, 1, 1, []byte{7})
	i := strings.Index(t, benStr("info")) + len(benStr("info"))
	h := sha1.Sum([]byte(t[i : len(t)-1]))
	const path = "a.torrent"
	if e := os.WriteFile(path, []byte(t), 0666); e != nil {
		fatal(e)
	}
	tor, e := torrent.FromTorrentFile(path, "wd")
	return tor, h[:], e
}

func runTracker(s M) {
	body := []byte("d8:completei1e10:incompletei2e8:intervali3e5:peers0:e")
	seg, chunked, cut := 1<<20, false, false
	if s["op"] == "answer" {
		body = bytesOf(s["body"])
		seg, chunked, cut = int(num(s["seg"])), boolean(s["chunked"]), boolean(s["cut"])
	}
	l, got := rawTracker(body, seg, chunked, cut)
	defer l.Close()

	url := "http://" + l.Addr().String()
	st := tracker.NewStats(0, 0, 0)
	port, pid := uint16(6881), "-GO0000-abcdefghijkl"
	switch s["op"] {
	case "announce":
		url += string(bytesOf(s["own"]))
		o := obj(s["st"])
		st = tracker.NewStats(parseUint(o["dn"]), parseUint(o["up"]), parseUint(o["left"]))
		trail := []M{}
		see := func() {
			trail = append(trail, M{"up": digits(st.Uploaded()), "dn": digits(st.Dnloaded()), "left": digits(st.Left())})
		}
		see()
		for _, x := range list(s["ops"]) {
			n := parseUint(obj(x)["n"])
			switch obj(x)["k"] {
			case "up":
				st.IncUploaded(n)
			case "dn":
				st.IncDnloaded(n)
			case "left":
				st.DecLeft(n)
			}
			see()
		}
		s["trail"] = trail
		port, pid = uint16(num(s["port"])), string(bytesOf(s["pid"]))
	case "unusable":
		url = strings.ReplaceAll(string(bytesOf(s["url"])), "PORT", strconv.Itoa(l.Addr().(*net.TCPAddr).Port))
		if boolean(s["dead"]) {
			l.Close()
		}
	}
	tor, ih, e := announced(url, str(s["name"]))
	if e != nil {
		s["out"] = M{"ok": false, "peers": []M{}}
		s["noload"] = true
		return
	}
	s["ih"] = ints(ih)
	type result struct {
		r *tracker.Response
		e error
	}
	done := make(chan result, 1)
	go func() {
		r, e := tracker.Get(tor, st, port, pid)
		done <- result{r, e}
	}()
	var res result
	select {
	case res = <-done:
	case <-time.After(20 * time.Second):
		s["out"] = M{"ok": false, "peers": []M{{"stuck": true}}}
		return
	}
	gots := []M{}
	for _, a := range got() {
		gots = append(gots, M{"method": ints([]byte(a.method)), "target": ints([]byte(a.target))})
	}
	s["got"] = gots
	out := M{"ok": res.e == nil, "peers": []M{}}
	if res.r != nil && (res.e != nil || res.r.State == nil) {
		out["ok"] = false
		if len(res.r.Peers) > 0 {
			out["peers"] = len(res.r.Peers)
		}
	} else if res.r != nil {
		_ = res.r.String()
		_ = res.r.Peers.String()
		t := res.r.State
		out["interval"], out["seeders"], out["leechers"] = digits(t.Interval()), digits(t.Seeders()), digits(t.Leechers())
		out["mininterval"], out["warning"] = digits(t.MinInterval()), ints([]byte(t.Warning()))
		ps := []M{}
		for _, p := range res.r.Peers {
			m := M{"id": ints([]byte(p.Id())), "ip": ints(p.Ip().To16()), "port": p.Port(), "dial": M{"ip": []int{}, "port": 0}}
			if a, e := net.ResolveTCPAddr("tcp", p.Addr()); e == nil {
				ip := a.IP
				if ip == nil {
					ip = net.IPv4zero
				}
				m["dial"] = M{"ip": ints(ip.To16()), "port": a.Port}
			}
			ps = append(ps, m)
		}
		out["peers"] = ps
	}
	s["out"] = out
}
