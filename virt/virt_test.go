// Package verifvirt drives gotor in virtual time: everything runs in a bubble of
// testing/synctest, whose clock goes on when nothing can happen any more. Minutes of a
// session, or hours of a limited transfer, take no time, and what is due at an instant happens
// at that instant however busy the machine is.
//
//	virt.test -test.run=TestVirt SCRIPT RECORD
//
// No verdict is taken here: the record is judged by the TLA+ specifications in ../spec.
package verifvirt

import (
	"crypto/sha1"
	"encoding/json"
	"flag"
	"fmt"
	stdio "io"
	"log"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"gotor/io"
	"gotor/swarm"
	"gotor/utils"
)

type M = map[string]interface{}

var record string

func fatal(args ...interface{}) {
	fmt.Fprintln(os.Stderr, args...)
	os.Exit(96)
}

type act struct {
	T  int64  `json:"t"`
	A  string `json:"a"`
	B  []int  `json:"b"`
	D  string `json:"d"`
	V  int64  `json:"v"`
	N  int    `json:"n"`
	Id int    `json:"id"`
}

type conn struct {
	Win  int   `json:"win"`
	Acts []act `json:"acts"`
}

type script struct {
	Op  string `json:"op"`
	Tor struct {
		Plen  int64 `json:"plen"`
		Info  []int `json:"info"`
		Multi bool  `json:"multi"`
		Name  string
		Files []struct {
			Path string  `json:"path"`
			Len  int64   `json:"len"`
			Flip []int64 `json:"flip"`
		} `json:"files"`
	} `json:"tor"`
	Conns []conn `json:"conns"`
	Until int64  `json:"until"`
	Evs   []act  `json:"evs"`
}

func TestVirt(t *testing.T) {
	a := flag.Args()
	if len(a) != 2 {
		t.Skip("no script")
	}
	text, e := os.ReadFile(a[0])
	if e != nil {
		fatal(e)
	}
	s := script{}
	if e := json.Unmarshal(text, &s); e != nil {
		fatal(e)
	}
	record, _ = filepath.Abs(a[1])
	log.SetOutput(stdio.Discard)
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = null
	switch s.Op {
	case "idle":
		dir := disk(s)
		synctest.Test(t, func(t *testing.T) { idle(s, dir) })
	case "vrate":
		synctest.Test(t, func(t *testing.T) { rates(s) })
	default:
		fatal("bad op", s.Op)
	}
}

func finish(m M) {
	b, e := json.Marshal(m)
	if e != nil {
		fatal(e)
	}
	if e := os.WriteFile(record, b, 0666); e != nil {
		fatal(e)
	}
	os.Exit(0)
}

func raw(b []int) []byte {
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x)
	}
	return r
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

// ----------------------------------------------------------------------------
// connections

// pipe is one direction of a connection.
type pipe struct {
	mu   sync.Mutex
	cond *sync.Cond
	buf  []byte
	win  int
	eof  bool // the writer is done
	dead bool // the reader is
	seen func(b []byte)
}

func newPipe(win int) *pipe {
	p := &pipe{win: win}
	p.cond = sync.NewCond(&p.mu)
	return p
}

type end struct {
	in, out  *pipe
	me, peer net.Addr
	mu       sync.Mutex
	closed   bool
	rd, wd   time.Time
	timers   []*time.Timer
	once     sync.Once
	onClose  func()
}

func (c *end) state() (bool, time.Time, time.Time) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed, c.rd, c.wd
}

func passed(d time.Time) bool { return !d.IsZero() && !time.Now().Before(d) }

func (c *end) Read(b []byte) (int, error) {
	p := c.in
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		closed, rd, _ := c.state()
		switch {
		case closed:
			return 0, net.ErrClosed
		case passed(rd):
			return 0, os.ErrDeadlineExceeded
		case len(p.buf) > 0 && len(b) > 0:
			n := copy(b, p.buf)
			p.buf = append([]byte{}, p.buf[n:]...)
			p.cond.Broadcast()
			return n, nil
		case p.eof:
			return 0, stdio.EOF
		}
		p.cond.Wait()
	}
}

func (c *end) Write(b []byte) (int, error) {
	p := c.out
	p.mu.Lock()
	defer p.mu.Unlock()
	n := 0
	for {
		closed, _, wd := c.state()
		switch {
		case closed:
			return n, net.ErrClosed
		case passed(wd):
			return n, os.ErrDeadlineExceeded
		case p.dead:
			return n, fmt.Errorf("broken pipe")
		case n == len(b):
			return n, nil
		}
		if k := p.win - len(p.buf); k > 0 {
			if k > len(b)-n {
				k = len(b) - n
			}
			p.buf = append(p.buf, b[n:n+k]...)
			if p.seen != nil {
				p.seen(b[n : n+k])
			}
			n += k
			p.cond.Broadcast()
			continue
		}
		p.cond.Wait()
	}
}

func (c *end) Close() error {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return net.ErrClosed
	}
	c.closed = true
	for _, t := range c.timers {
		t.Stop()
	}
	c.mu.Unlock()
	if c.onClose != nil {
		c.onClose()
	}
	c.out.mu.Lock()
	c.out.eof = true
	c.out.mu.Unlock()
	c.out.cond.Broadcast()
	c.in.mu.Lock()
	c.in.dead = true
	c.in.mu.Unlock()
	c.in.cond.Broadcast()
	return nil
}

func (c *end) LocalAddr() net.Addr  { return c.me }
func (c *end) RemoteAddr() net.Addr { return c.peer }

func (c *end) wake(t time.Time, p *pipe) {
	if t.IsZero() {
		return
	}
	d := time.Until(t)
	if d < 0 {
		d = 0
	}
	c.timers = append(c.timers, time.AfterFunc(d, func() {
		p.mu.Lock()
		p.mu.Unlock()
		p.cond.Broadcast()
	}))
	if len(c.timers) > 8 {
		c.timers = c.timers[len(c.timers)-4:]
	}
}

func (c *end) set(r, w bool, t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	if r {
		c.rd = t
		c.wake(t, c.in)
	}
	if w {
		c.wd = t
		c.wake(t, c.out)
	}
	return nil
}

func (c *end) SetDeadline(t time.Time) error      { return c.set(true, true, t) }
func (c *end) SetReadDeadline(t time.Time) error  { return c.set(true, false, t) }
func (c *end) SetWriteDeadline(t time.Time) error { return c.set(false, true, t) }

// ----------------------------------------------------------------------------
// sessions

func byteAt(o int64) byte { return byte(7*o + 13*(o/256) + 5) }

func benStr(s string) string { return fmt.Sprintf("%d:%s", len(s), s) }

// disk prepares the files, the torrent and the tracker.
func disk(s script) string {
	dir, e := os.Getwd()
	if e != nil {
		fatal(e)
	}
	base := filepath.Join(dir, "wd")
	if s.Tor.Multi {
		base = filepath.Join(base, "t")
	}
	at := int64(0)
	for _, f := range s.Tor.Files {
		b := make([]byte, f.Len)
		for i := range b {
			b[i] = byteAt(at + int64(i))
		}
		for _, x := range f.Flip {
			b[x] ^= 0x55
		}
		p := filepath.Join(base, f.Path)
		_ = os.MkdirAll(filepath.Dir(p), 0777)
		if e := os.WriteFile(p, b, 0666); e != nil {
			fatal(e)
		}
		at += f.Len
	}
	l, e := net.Listen("tcp", "127.0.0.1:0")
	if e != nil {
		fatal(e)
	}
	go func() {
		_ = http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			w.Header().Set("Connection", "close")
			_, _ = w.Write([]byte("d8:completei0e10:incompletei0e8:intervali1800e5:peers0:e"))
		}))
	}()
	text := "d" + benStr("announce") + benStr("http://"+l.Addr().String()+"/announce") + benStr("info") + string(raw(s.Tor.Info)) + "e"
	if e := os.WriteFile(filepath.Join(dir, "t.torrent"), []byte(text), 0666); e != nil {
		fatal(e)
	}
	return dir
}

var moments int64

type link struct {
	mu           sync.Mutex
	sent, got    []byte
	marks        []M
	ins, outs    []int64
	by           string
	at           int64
	overAt       int64
	opened       int64
	deaf         int64 // since when nothing is read
	stop         bool
	cond         *sync.Cond
	mine, theirs *end
}

func idle(s script, dir string) {
	os.Args = []string{"gotor", "-i", filepath.Join(dir, "t.torrent"), "-w", filepath.Join(dir, "wd"), "-p", "23456"}
	sw, e := swarm.NewSwarm(utils.GetOpts())
	if e != nil {
		fatal("no swarm:", e)
	}
	go sw.RLIO.Run()
	synctest.Wait()
	base := alive()
	start := time.Now()
	ms := func() int64 { return time.Since(start).Milliseconds() }
	links := []*link{}
	lanes := sync.WaitGroup{}
	for i, c := range s.Conns {
		k := &link{deaf: -1}
		k.cond = sync.NewCond(&k.mu)
		links = append(links, k)
		win := c.Win
		if win == 0 {
			win = 1 << 16
		}
		lanes.Add(1)
		go func(i int, c conn) {
			defer lanes.Done()
			for _, a := range c.Acts {
				if d := a.T - ms(); d > 0 {
					time.Sleep(time.Duration(d) * time.Millisecond)
				}
				k.do(i, a, win, sw, ms)
			}
		}(i, c)
	}
	lanes.Wait()
	if d := s.Until - ms(); d > 0 {
		time.Sleep(time.Duration(d) * time.Millisecond)
	}
	synctest.Wait()
	total := int64(0)
	for _, f := range s.Tor.Files {
		total += f.Len
	}
	h := sha1.Sum(raw(s.Tor.Info))
	rec := []M{}
	for _, k := range links {
		k.mu.Lock()
		rec = append(rec, M{"late": false, "stays": k.opened >= 0 && k.by == "" && k.deaf < 0, "out": false, "open": true, "by": k.by, "t": k.overAt, "count": false, "noread": k.deaf >= 0,
			"loose": k.deaf >= 0, "atleast": 0, "ngot": len(k.got), "nsent": len(k.sent), "sent": ints(k.sent), "got": ints(k.got), "marks": append([]M{}, k.marks...), "ms": 0,
			"opened": k.opened, "ins": append([]int64{}, k.ins...), "outs": append([]int64{}, k.outs...), "at": k.at, "deaf": k.deaf})
		k.mu.Unlock()
	}
	// All that is left is ended
	for _, k := range links {
		k.leave(ms, "us")
	}
	time.Sleep(20 * time.Second)
	synctest.Wait()
	left := alive() - base
	for try := 0; left > 0 && try < 50; try++ {
		for i := 0; i < 100; i++ {
			runtime.Gosched()
		}
		time.Sleep(time.Second)
		synctest.Wait()
		left = alive() - base
	}
	held := []int64{}
	for i := int64(0); i*s.Tor.Plen < total; i++ {
		if sw.Bf.Get(i) {
			held = append(held, i)
		}
	}
	finish(M{"tor": M{"plen": s.Tor.Plen, "total": total, "held": held, "ih": ints(h[:])}, "pid": ints([]byte(sw.Id)), "links": rec, "until": s.Until, "left": left})
}

// alive counts the goroutines of the bubble. (runtime.NumGoroutine counts some that have ended.)
func alive() int {
	b := make([]byte, 1<<20)
	for {
		n := runtime.Stack(b, true)
		if n < len(b) {
			return strings.Count(string(b[:n]), "synctest bubble")
		}
		b = make([]byte, 2*len(b))
	}
}

func (k *link) over(by string, at int64) {
	k.mu.Lock()
	if k.by == "" {
		k.by, k.at, k.overAt = by, at, atomic.AddInt64(&moments, 1)
	}
	k.mu.Unlock()
}

func (k *link) leave(ms func() int64, by string) {
	if k.mine != nil {
		k.over(by, ms())
		k.mu.Lock()
		k.stop = false
		k.mu.Unlock()
		k.cond.Broadcast()
		_ = k.mine.Close()
	}
}

func (k *link) do(i int, a act, win int, sw *swarm.Swarm, ms func() int64) {
	switch a.A {
	case "open":
		up, down := newPipe(1<<24), newPipe(win)
		x, y := &net.TCPAddr{IP: net.IPv4(10, 0, byte(i/250), byte(1+i%250)), Port: 4000 + i}, &net.TCPAddr{IP: net.IPv4(10, 9, 9, 9), Port: 23456}
		k.mine = &end{in: down, out: up, me: x, peer: y}
		k.theirs = &end{in: up, out: down, me: y, peer: x}
		down.seen = func(b []byte) {
			k.mu.Lock()
			k.outs = append(k.outs, ms())
			k.mu.Unlock()
		}
		k.theirs.onClose = func() { k.over("them", ms()) }
		k.opened = ms()
		go func() {
			buf := make([]byte, 65536)
			for {
				k.mu.Lock()
				for k.stop {
					k.cond.Wait()
				}
				k.mu.Unlock()
				n, e := k.mine.Read(buf)
				k.mu.Lock()
				if n > 0 {
					k.got = append(k.got, buf[:n]...)
					k.marks = append(k.marks, M{"got": len(k.got), "sent": len(k.sent), "t": atomic.AddInt64(&moments, 1)})
				}
				k.mu.Unlock()
				if e != nil {
					return
				}
			}
		}()
		go func() {
			ph, e := swarm.FromIncoming(k.theirs, sw)
			if e == nil {
				ph.Loop()
			}
		}()
	case "send":
		b := raw(a.B)
		k.mu.Lock()
		if k.by != "" {
			k.mu.Unlock()
			return
		}
		k.sent = append(k.sent, b...)
		k.ins = append(k.ins, ms())
		k.mu.Unlock()
		_, _ = k.mine.Write(b)
	case "deaf": // reads nothing from now on
		k.mu.Lock()
		k.stop, k.deaf = true, ms()
		k.mu.Unlock()
	case "close":
		k.leave(ms, "us")
	default:
		fatal("bad act", a.A)
	}
}

// ----------------------------------------------------------------------------
// rates

type tap struct {
	f func(n int)
}

func (t tap) Write(b []byte) (int, error) {
	t.f(len(b))
	return len(b), nil
}

func (t tap) Read(b []byte) (int, error) {
	t.f(len(b))
	return len(b), nil
}

func rates(s script) {
	rl := io.NewRateLimitIO()
	stopped := make(chan bool)
	go func() {
		rl.Run()
		close(stopped)
	}()
	synctest.Wait()
	start := time.Now()
	ms := func() int64 { return time.Since(start).Milliseconds() }
	mu := sync.Mutex{}
	passes, asks := []M{}, []M{}
	type todo struct {
		m int64
		r M
	}
	lanes := map[string]chan todo{}
	for _, d := range []string{"r", "w"} { // one after the other in each direction
		lanes[d] = make(chan todo, 100000)
		go func(d string) {
			for x := range lanes[d] {
				mu.Lock()
				x.r["from"] = ms()
				mu.Unlock()
				t := tap{func(n int) {
					mu.Lock()
					passes = append(passes, M{"d": d, "n": n, "t": ms()})
					mu.Unlock()
				}}
				var e error
				if d == "w" {
					e = rl.Write(t, make([]byte, x.m))
				} else {
					e = rl.Read(t, make([]byte, x.m))
				}
				mu.Lock()
				x.r["to"], x.r["ok"] = ms(), e == nil
				mu.Unlock()
			}
		}(d)
	}
	for _, a := range s.Evs {
		if d := a.T - ms(); d > 0 {
			time.Sleep(time.Duration(d) * time.Millisecond)
		}
		switch a.A {
		case "set":
			if a.D == "w" {
				rl.SetWriteRate(a.V)
			} else {
				rl.SetReadRate(a.V)
			}
		case "ask":
			for j := 0; j < a.N; j++ {
				r := M{"d": a.D, "m": a.V, "from": -1, "to": -1, "ok": false}
				asks = append(asks, r)
				lanes[a.D] <- todo{a.V, r}
			}
		default:
			fatal("bad event", a.A)
		}
	}
	if d := s.Until - ms(); d > 0 {
		time.Sleep(time.Duration(d) * time.Millisecond)
	}
	synctest.Wait()
	at := ms()
	go rl.Stop()
	time.Sleep(10 * time.Second)
	synctest.Wait()
	done := false
	select {
	case <-stopped:
		done = true
	default:
	}
	mu.Lock()
	finish(M{"asks": asks, "passes": passes, "until": at, "stopped": done})
}
