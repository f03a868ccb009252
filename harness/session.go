package main

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() { domains["session"] = runSession }

// A session script starts a client on a disk, and talks to it on connections that
// the script opens, or that the client opens to the peers its tracker names. The lanes of a
// stage run at once, a lane is a list of acts.

// now orders what happens on all the connections of a script.
var now int64

func moment() int64 { return atomic.AddInt64(&now, 1) }

type link struct {
	mu      sync.Mutex
	cond    *sync.Cond
	opt     M
	l       net.Listener // of a peer that the client is to connect to
	c       net.Conn
	sent    []byte
	nsent   int
	got     []byte
	ngot    int
	first   time.Time
	last    time.Time
	marks   []M // what has been got, sent, and when, after each read
	over    bool
	by      string // who ended it
	overAt  int64
	closing int32
	late    bool // what had to come did not come in time
	stays   bool // to the end of the script
}

func (k *link) attach(c net.Conn) {
	k.mu.Lock()
	k.c = c
	k.first = time.Now()
	k.mu.Unlock()
	if !boolean(k.opt["noread"]) {
		go k.reader()
	}
}

func (k *link) reader() {
	buf := make([]byte, 65536)
	for {
		n, e := k.c.Read(buf)
		t := moment()
		k.mu.Lock()
		if n > 0 {
			k.last = time.Now()
			k.ngot += n
			if !boolean(k.opt["count"]) || len(k.got) < 4096 {
				k.got = append(k.got, buf[:n]...)
				k.marks = append(k.marks, M{"got": len(k.got), "sent": k.nsent, "t": t})
			}
		}
		if e != nil {
			if !k.over {
				k.over, k.by, k.overAt = true, "them", t
				if atomic.LoadInt32(&k.closing) != 0 {
					k.by = "us"
				}
			}
		}
		k.mu.Unlock()
		k.cond.Broadcast()
		if e != nil {
			return
		}
	}
}

// end ends the connection from our side.
func (k *link) end(how string) {
	k.mu.Lock()
	c := k.c
	if c == nil || k.over {
		k.mu.Unlock()
		if c != nil {
			_ = c.Close()
		}
		return
	}
	atomic.StoreInt32(&k.closing, 1)
	k.over, k.by, k.overAt = true, "us", moment()
	k.mu.Unlock()
	if how == "reset" {
		if t, ok := c.(*net.TCPConn); ok {
			_ = t.SetLinger(0)
		}
	}
	_ = c.Close()
}

func (k *link) send(b []byte, cuts []int, gap time.Duration) {
	from := 0
	for _, to := range append(cuts, len(b)) {
		if to > len(b) {
			to = len(b)
		}
		if to <= from {
			continue
		}
		k.mu.Lock()
		k.nsent += to - from
		if !boolean(k.opt["count"]) {
			k.sent = append(k.sent, b[from:to]...)
		}
		c := k.c
		k.mu.Unlock()
		if c == nil {
			return
		}
		_ = c.SetWriteDeadline(time.Now().Add(10 * time.Second))
		if _, e := c.Write(b[from:to]); e != nil {
			return
		}
		from = to
		if from < len(b) && gap > 0 {
			time.Sleep(gap)
		}
	}
}

// frames lists the whole messages after the handshake.
func (k *link) frames() (fs [][]byte) {
	if len(k.got) < 68 {
		return nil
	}
	b := k.got[68:]
	for len(b) >= 4 {
		n := int(binary.BigEndian.Uint32(b))
		if n < 0 || n > len(b)-4 {
			return fs
		}
		fs = append(fs, b[4:4+n])
		b = b[4+n:]
	}
	return fs
}

// met tells whether what an act waits for has come.
func (k *link) met(a M) bool {
	if boolean(a["closed"]) {
		return k.over
	}
	if k.over {
		return true
	}
	if n, ok := a["bytes"]; ok {
		return k.ngot >= int(num(n))
	}
	if w := list(a["last"]); w != nil {
		fs := k.frames()
		for i := len(fs) - 1; i >= 0; i-- {
			f := fs[i]
			if len(f) >= 9 && f[0] == 7 && int64(binary.BigEndian.Uint32(f[1:])) == num(w[0]) &&
				int64(binary.BigEndian.Uint32(f[5:])) == num(w[1]) && int64(len(f)-9) == num(w[2]) {
				return true
			}
		}
		return false
	}
	if n, ok := a["nreq"]; ok { // that many requests, and pieces requested from end to end
		plen, total := orZero(a["plen"]), orZero(a["total"])
		sums := map[int64]int64{}
		c := int64(0)
		for _, f := range k.frames() {
			if len(f) == 13 && f[0] == 6 {
				sums[int64(binary.BigEndian.Uint32(f[1:]))] += int64(binary.BigEndian.Uint32(f[9:]))
				c++
			}
		}
		for i, s := range sums {
			want := plen
			if r := total - i*plen; r < want {
				want = r
			}
			if s < want {
				return false
			}
		}
		if boolean(a["pieces"]) {
			return int64(len(sums)) >= num(n)
		}
		return c >= num(n)
	}
	if n, ok := a["nmsg"]; ok {
		c := int64(0)
		for _, f := range k.frames() {
			if len(f) > 0 && f[0] != 6 {
				c++
			}
		}
		return c >= num(n)
	}
	return true
}

func (k *link) wait(a M) bool {
	d := 5 * time.Second
	if ms, ok := a["ms"]; ok {
		d = time.Duration(num(ms)) * time.Millisecond
	} else {
		if patience(d) < d {
			d = 1500 * time.Millisecond
		}
	}
	until := time.Now().Add(d)
	t := time.AfterFunc(d, k.cond.Broadcast)
	defer t.Stop()
	k.mu.Lock()
	defer k.mu.Unlock()
	for !k.met(a) {
		if !time.Now().Before(until) {
			if a["ms"] == nil {
				disappoint()
				k.late = true
			}
			return false
		}
		k.cond.Wait()
	}
	return true
}

type client struct {
	cmd    *exec.Cmd
	in     *bufio.Writer
	tell   *bufio.Reader
	dead   chan struct{}
	port   int
	stderr *tailBuf
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 20000 {
		t.b = append(t.b, b...)
	}
	return len(b), nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func (c *client) alive() bool {
	select {
	case <-c.dead:
		return false
	default:
		return true
	}
}

func (c *client) kill() {
	_ = c.cmd.Process.Kill()
	<-c.dead
}

// startClient starts a client, and waits for its port to be open.
func startClient(s M, torrent, wd string, real bool) *client {
	for try := 0; ; try++ {
		port := 10000 + rand.Intn(20000)
		if l, e := net.Listen("tcp", fmt.Sprintf(":%d", port)); e != nil {
			continue
		} else {
			l.Close()
		}
		args := []string{"-i", torrent, "-w", wd, "-p", fmt.Sprint(port)}
		if v, ok := s["up"]; ok {
			args = append(args, "-u", str(v))
		}
		if v, ok := s["dn"]; ok {
			args = append(args, "-d", str(v))
		}
		c := &client{dead: make(chan struct{}), port: port, stderr: &tailBuf{}}
		if real {
			c.cmd = exec.Command(os.Getenv("GOTOR"), args...)
		} else {
			c.cmd = exec.Command(os.Args[0], append([]string{"client"}, args...)...)
		}
		r, w, e := os.Pipe()
		if e != nil {
			fatal(e)
		}
		c.cmd.ExtraFiles = []*os.File{w}
		in, e := c.cmd.StdinPipe()
		if e != nil {
			fatal(e)
		}
		c.in = bufio.NewWriter(in)
		c.tell = bufio.NewReader(r)
		c.cmd.Stderr = c.stderr
		c.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=98")
		if n, ok := s["nofile"]; ok {
			c.cmd.Env = append(c.cmd.Env, fmt.Sprintf("NOFILE=%d", num(n)))
		}
		if e := c.cmd.Start(); e != nil {
			fatal(e)
		}
		w.Close()
		go func() {
			_ = c.cmd.Wait()
			close(c.dead)
		}()
		until := time.Now().Add(20 * time.Second)
		for time.Now().Before(until) && c.alive() {
			if x, e := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port)); e == nil {
				x.Close()
				return c
			}
			time.Sleep(2 * time.Millisecond)
		}
		if !c.alive() && strings.Contains(c.stderr.String(), "address already in use") && try < 20 {
			continue
		}
		return c
	}
}

func (c *client) stats() M {
	fmt.Fprintln(c.in, "stats")
	_ = c.in.Flush()
	ch := make(chan M, 1)
	go func() {
		for {
			line, e := c.tell.ReadBytes('\n')
			if e != nil {
				ch <- nil
				return
			}
			m := M{}
			if json.Unmarshal(line, &m) == nil && m["goroutines"] != nil {
				ch <- m
				return
			}
		}
	}()
	select {
	case m := <-ch:
		return m
	case <-time.After(20 * time.Second):
		return nil
	}
}

func orZero(v interface{}) int64 {
	if v == nil {
		return 0
	}
	return num(v)
}

// byteAt is the payload of the scripts.
func byteAt(o int64) byte { return byte(7*o + 13*(o/256) + 5) }

func runSession(s M) {
	dir, e := os.MkdirTemp(".", "s")
	if e != nil {
		fatal(e)
	}
	defer os.RemoveAll(dir)
	dir, _ = filepath.Abs(dir)
	wd := filepath.Join(dir, "wd")
	if e := os.MkdirAll(wd, 0777); e != nil {
		fatal(e)
	}
	tor := obj(s["tor"])
	plen := num(tor["plen"])
	base := wd
	if boolean(tor["multi"]) {
		base = filepath.Join(wd, str(tor["name"]))
	}
	// The disk: the payload with some bytes changed, cut, or missing
	at := int64(0)
	disk := []byte{}
	for _, x := range list(tor["files"]) {
		f := obj(x)
		n := num(f["len"])
		b := make([]byte, n)
		for i := range b {
			b[i] = byteAt(at + int64(i))
		}
		for _, y := range list(f["flip"]) {
			b[num(y)] ^= 0x55
		}
		if y, ok := f["cut"]; ok && y != nil {
			if k := num(y); k < n {
				b = b[:k]
			} else {
				b = append(b, bytes.Repeat([]byte{9}, int(k-n))...)
			}
		}
		if !boolean(f["missing"]) {
			putFile(filepath.Join(base, str(f["path"])), b)
		} else {
			b = nil
		}
		b = append(b, make([]byte, n)...)[:n] // a file that is too short ends in zeros, or will
		disk = append(disk, b...)
		at += n
	}
	total := at

	// What is held: the pieces that are right on the disk
	held := []int64{}
	for i := int64(0); i*plen < total; i++ {
		j := (i + 1) * plen
		if j > total {
			j = total
		}
		right := true
		for o := i * plen; o < j && right; o++ {
			right = disk[o] == byteAt(o)
		}
		if right {
			held = append(held, i)
		}
	}

	// The links, and the tracker that names those that the client is to open
	links := []*link{}
	compact := []byte{}
	for _, x := range list(s["conns"]) {
		k := &link{opt: obj(x)}
		k.cond = sync.NewCond(&k.mu)
		if boolean(k.opt["out"]) {
			l, e := net.Listen("tcp", "127.0.0.1:0")
			if e != nil {
				fatal(e)
			}
			k.l = l
			p := l.Addr().(*net.TCPAddr).Port
			compact = append(compact, 127, 0, 0, 1, byte(p>>8), byte(p))
		}
		links = append(links, k)
	}
	tl, asked := rawTracker([]byte("d8:completei0e10:incompletei0e8:intervali1800e"+benStr("peers")+benStr(string(compact))+"e"), 1<<20, false, false)
	defer tl.Close()
	text := "d" + benStr("announce") + benStr("http://"+tl.Addr().String()+"/announce") + benStr("info") + string(bytesOf(tor["info"])) + "e"
	tpath := filepath.Join(dir, "t.torrent")
	if e := os.WriteFile(tpath, []byte(text), 0666); e != nil {
		fatal(e)
	}
	stats := []interface{}{}
	if boolean(s["base"]) { // how a client without any connection is doing
		bl, _ := rawTracker([]byte("d8:completei0e10:incompletei0e8:intervali1800e"+benStr("peers")+benStr("")+"e"), 1<<20, false, false)
		text := "d" + benStr("announce") + benStr("http://"+bl.Addr().String()+"/announce") + benStr("info") + string(bytesOf(tor["info"])) + "e"
		bpath := filepath.Join(dir, "b.torrent")
		if e := os.WriteFile(bpath, []byte(text), 0666); e != nil {
			fatal(e)
		}
		b := startClient(s, bpath, wd, false)
		time.Sleep(300 * time.Millisecond)
		if m := b.stats(); m != nil {
			stats = append(stats, m)
		}
		b.kill()
		bl.Close()
	}
	c := startClient(s, tpath, wd, boolean(s["real"]))
	s["started"] = c.alive()
	s["port"] = c.port
	var smu sync.Mutex

	do := func(a M) {
		var k *link
		if a["c"] != nil {
			k = links[num(a["c"])]
		}
		switch str(a["a"]) {
		case "open":
			d := net.Dialer{Timeout: 5 * time.Second}
			x, e := d.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", c.port))
			if e == nil {
				k.attach(x)
			}
		case "accept":
			_ = k.l.(*net.TCPListener).SetDeadline(time.Now().Add(patience(5 * time.Second)))
			x, e := k.l.Accept()
			if e == nil {
				k.attach(x)
			} else {
				disappoint()
			}
		case "send":
			cuts := []int{}
			for _, y := range list(a["cuts"]) {
				cuts = append(cuts, int(num(y)))
			}
			gap := time.Duration(0)
			if g, ok := a["gap"]; ok {
				gap = time.Duration(num(g)) * time.Microsecond
			}
			b := bytesOf(a["b"])
			if r, ok := a["repeat"]; ok {
				b = bytes.Repeat(b, int(num(r)))
			}
			if n, ok := a["junk"]; ok {
				r := rand.New(rand.NewSource(num(a["seed"])))
				j := make([]byte, num(n))
				r.Read(j)
				b = append(b, j...)
			}
			k.send(b, cuts, gap)
		case "until":
			k.wait(a)
		case "quiet":
			quietFor := time.Duration(num(a["ms"])) * time.Millisecond
			limit := time.Now().Add(5 * time.Second)
			for time.Now().Before(limit) {
				k.mu.Lock()
				since := time.Since(k.last)
				if k.last.IsZero() {
					since = time.Since(k.first)
				}
				over := k.over
				k.mu.Unlock()
				if over || since >= quietFor {
					break
				}
				time.Sleep(quietFor - since)
			}
		case "churn": // many that come, shake hands, and go; one after the other
			for i := int64(0); i < num(a["n"]); i++ {
				d := net.Dialer{Timeout: 5 * time.Second}
				x, e := d.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", c.port))
				if e != nil {
					continue
				}
				_ = x.SetDeadline(time.Now().Add(2 * time.Second))
				_, _ = x.Write(bytesOf(a["b"]))
				_, _ = io.ReadFull(x, make([]byte, 68))
				_ = x.Close()
			}
		case "sleep":
			time.Sleep(time.Duration(num(a["ms"])) * time.Millisecond)
		case "close", "reset":
			k.end(str(a["a"]))
		case "shut":
			atomic.StoreInt32(&k.closing, 1) // it is we who end it
			k.mu.Lock()
			if t, ok := k.c.(*net.TCPConn); ok {
				_ = t.CloseWrite()
			}
			k.mu.Unlock()
		case "stats": // as low as they get
			var m M
			until := time.Now().Add(patience(5 * time.Second))
			for {
				m = c.stats()
				if m == nil {
					break
				}
				g, want := num(m["goroutines"]), int64(-1)
				f := num(m["fds"])
				smu.Lock()
				if len(stats) > 0 && stats[0] != nil {
					want = num(obj(stats[0])["goroutines"])
				}
				if want < 0 || g <= want && f <= num(obj(stats[0])["fds"]) {
					smu.Unlock()
					break
				}
				smu.Unlock()
				if time.Now().After(until) {
					disappoint()
					break
				}
				time.Sleep(20 * time.Millisecond)
			}
			smu.Lock()
			if m != nil {
				stats = append(stats, m)
			}
			smu.Unlock()
		default:
			fatal("bad act", a["a"])
		}
	}
	if c.alive() {
		for _, st := range list(s["stages"]) {
			wg := sync.WaitGroup{}
			for _, ln := range list(st) {
				acts := list(ln)
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, a := range acts {
						do(obj(a))
					}
				}()
			}
			wg.Wait()
		}
	}
	time.Sleep(10 * time.Millisecond)
	if t := c.stderr.String(); strings.Contains(t, "DATA RACE") || strings.Contains(t, "panic:") || strings.Contains(t, "fatal error:") {
		select { // it is on its way out
		case <-c.dead:
		case <-time.After(3 * time.Second):
		}
	}
	s["alive"] = c.alive()
	if !c.alive() {
		t := c.stderr.String()
		if len(t) > 3000 {
			t = t[:1500] + " ... " + t[len(t)-1500:]
		}
		s["died"] = t
	}
	for _, k := range links {
		k.mu.Lock()
		k.stays = k.c != nil && !k.over
		k.mu.Unlock()
	}
	for _, k := range links {
		k.end("close")
		if k.l != nil {
			k.l.Close()
		}
	}
	c.kill()

	h := sha1.New()
	h.Write(bytesOf(tor["info"]))
	gots := []M{}
	for _, a := range asked() {
		gots = append(gots, M{"method": ints([]byte(a.method)), "target": ints([]byte(a.target))})
	}
	rec := []M{}
	for _, k := range links {
		k.mu.Lock()
		m := M{"late": k.late, "stays": k.stays, "out": boolean(k.opt["out"]), "open": k.c != nil, "by": k.by, "t": k.overAt, "count": boolean(k.opt["count"]), "noread": boolean(k.opt["noread"]),
			"loose": boolean(k.opt["loose"]), "atleast": orZero(k.opt["atleast"]), "ngot": k.ngot, "nsent": k.nsent, "sent": []int{}, "got": []int{}, "marks": []M{}, "ms": 0}
		if k.marks != nil {
			m["marks"] = k.marks
		}
		if !k.last.IsZero() {
			m["ms"] = k.last.Sub(k.first).Milliseconds()
		}
		if !boolean(k.opt["count"]) {
			m["sent"], m["got"] = ints(k.sent), ints(k.got)
		}
		k.mu.Unlock()
		rec = append(rec, m)
	}
	sc := s["tor"]
	for k := range s {
		switch k {
		case "op", "alive", "started", "died", "port", "kind", "allowkb", "limit", "unit", "nstats", "rarest":
		default:
			delete(s, k)
		}
	}
	s["tor"] = M{"plen": plen, "total": total, "held": held, "ih": ints(h.Sum(nil))}
	_ = sc
	s["asked"], s["links"], s["stats"] = gots, rec, stats
}
