package main

import (
	stdio "io"
	"net"
	"os"
	"sync"
	"time"

	"gotor/io"
)

func init() { domains["rloop"] = runRloop }

// fakeConn is a connection on which exactly what a script says arrives.
type fakeConn struct {
	mu       sync.Mutex
	cond     *sync.Cond
	chunks   []chunk
	deadline time.Time
	timer    *time.Timer
	lag      time.Duration // moving the deadline ahead takes this long
}

type chunk struct {
	b []byte
	e error
}

func newFakeConn() *fakeConn {
	c := &fakeConn{}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *fakeConn) push(b []byte, e error) {
	c.mu.Lock()
	c.chunks = append(c.chunks, chunk{b, e})
	c.mu.Unlock()
	c.cond.Broadcast()
}

func (c *fakeConn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if !c.deadline.IsZero() && !time.Now().Before(c.deadline) {
			return 0, os.ErrDeadlineExceeded
		}
		if len(c.chunks) > 0 {
			ch := &c.chunks[0]
			n := copy(b, ch.b)
			ch.b = ch.b[n:]
			if len(ch.b) > 0 {
				return n, nil
			}
			e := ch.e
			if e == nil {
				c.chunks = c.chunks[1:]
				if n == 0 {
					continue
				}
			}
			return n, e
		}
		c.cond.Wait()
	}
}

func (c *fakeConn) SetReadDeadline(t time.Time) error {
	if c.lag > 0 && time.Until(t) > 0 {
		time.Sleep(c.lag)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.deadline = t
	if c.timer != nil {
		c.timer.Stop()
		c.timer = nil
	}
	if d := time.Until(t); !t.IsZero() && d > 0 {
		c.timer = time.AfterFunc(d, c.cond.Broadcast)
	}
	c.cond.Broadcast()
	return nil
}

func (c *fakeConn) Write(b []byte) (int, error)        { return len(b), nil }
func (c *fakeConn) Close() error                       { return nil }
func (c *fakeConn) LocalAddr() net.Addr                { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }
func (c *fakeConn) RemoteAddr() net.Addr               { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 2} }
func (c *fakeConn) SetDeadline(t time.Time) error      { return c.SetReadDeadline(t) }
func (c *fakeConn) SetWriteDeadline(t time.Time) error { return nil }

// tcpPair makes the two ends of a connection.
func tcpPair() (*net.TCPConn, *net.TCPConn) {
	l, e := net.Listen("tcp", "127.0.0.1:0")
	if e != nil {
		fatal(e)
	}
	defer l.Close()
	a, e := net.Dial("tcp", l.Addr().String())
	if e != nil {
		fatal(e)
	}
	b, e := l.Accept()
	if e != nil {
		fatal(e)
	}
	return a.(*net.TCPConn), b.(*net.TCPConn)
}

const loopPatience = 5 * time.Second

// within tells whether f returns in time.
func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(patience(d)):
		disappoint()
		return false
	}
}

// runDeliveries has very many bytes arrive, one after the other or many at once.
func runDeliveries(s M, loop *io.ReadLoop, push func([]byte, error)) {
	n, right := int(num(s["n"])), 0
	ended := make(chan struct{})
	go func() { loop.Run(); close(ended) }()
	out := M{"got": 0, "right": 0, "err": false, "ended": false, "over": false}
	s["out"] = out
	got, alone := 0, boolean(s["alone"])
	if !alone {
		b := make([]byte, n)
		for i := range b {
			b[i] = byteAt(int64(i))
		}
		go push(b, stdio.EOF)
	}
	for {
		if alone && got < n {
			push([]byte{byteAt(int64(got))}, nil)
		} else if alone {
			push(nil, stdio.EOF)
		}
		select {
		case d := <-loop.ReadData():
			for _, b := range d {
				if b == byteAt(int64(got)) {
					right++
				}
				got++
			}
			if !within(loopPatience, loop.Ready) {
				return
			}
			out["got"], out["right"] = got, right
			continue
		case e := <-loop.ReadError():
			out["err"] = e != nil
		case <-time.After(patience(loopPatience)):
			disappoint()
		}
		break
	}
	out["over"] = within(loopPatience, loop.Finish)
	out["ended"] = within(loopPatience, func() { <-ended })
}

func runRloop(s M) {
	var conn net.Conn
	var push func(b []byte, e error)
	fake := newFakeConn()
	if boolean(s["lag"]) {
		fake.lag = 500 * time.Microsecond
	}
	if boolean(s["tcp"]) {
		a, b := tcpPair()
		defer a.Close()
		defer b.Close()
		conn = b
		push = func(d []byte, e error) {
			if len(d) > 0 {
				_, _ = a.Write(d)
			}
			if e != nil {
				_ = a.CloseWrite()
			}
		}
	} else {
		conn, push = fake, fake.push
	}
	timeout := time.Minute
	if str(s["op"]) == "timeout" {
		timeout = 30 * time.Millisecond
	}
	loop := io.NewReadLoop(num(s["buf"]), conn, timeout)
	if str(s["op"]) == "many" {
		runDeliveries(s, loop, push)
		return
	}
	ended := make(chan struct{})
	go func() { loop.Run(); close(ended) }()
	end := func() bool {
		select {
		case <-ended:
			return true
		case <-time.After(patience(loopPatience)):
			disappoint()
			return false
		}
	}
	if str(s["op"]) == "timeout" {
		s["told"] = false
		select {
		case e := <-loop.ReadError():
			s["told"] = e != nil
		case <-loop.ReadData():
		case <-time.After(patience(loopPatience)):
			disappoint()
		}
		s["returned"] = within(loopPatience, loop.Finish)
		s["ended"] = end()
		return
	}

	var held []byte
	pushed, taken, over, told, fin := 0, 0, false, false, false
	due := func() bool { return held == nil && !told && !fin && (taken < pushed || over) }
	do := func(ev M) {
		ev["got"], ev["data"], ev["returned"], ev["ended"] = "", []int{}, true, true
		b := bytesOf(ev["b"])
		switch str(ev["e"]) {
		case "data":
			pushed += len(b)
			push(b, nil)
		case "dataerr", "err":
			pushed += len(b)
			over = true
			push(b, errStream)
		case "dataeof", "eof":
			pushed += len(b)
			over = true
			push(b, stdio.EOF)
		case "take", "idle":
			wait := 1500 * time.Microsecond
			if str(ev["e"]) == "take" && due() {
				wait = patience(loopPatience)
			}
			select {
			case d := <-loop.ReadData():
				ev["got"], ev["data"] = "data", ints(d)
				held = d
				taken += len(d)
			case e := <-loop.ReadError():
				ev["got"] = "err"
				if e == nil {
					ev["got"] = "nil"
				}
				told = true
			case <-time.After(wait):
				ev["got"] = "none"
				if wait > 10*time.Millisecond {
					disappoint()
				}
			}
		case "ready":
			if held == nil || fin {
				ev["e"] = "nothing"
				break
			}
			held = nil
			ev["returned"] = within(loopPatience, loop.Ready)
		case "finish":
			fin = true
			ev["returned"] = within(loopPatience, loop.Finish)
			ev["ended"] = end()
		case "burst": // finish while something arrives
			fin = true
			go push(b, nil)
			ev["returned"] = within(loopPatience, loop.Finish)
			ev["ended"] = end()
		default:
			fatal("bad event")
		}
		ev["held"] = ints(held)
	}
	evs := []M{}
	for _, x := range list(s["evs"]) {
		ev := obj(x)
		do(ev)
		evs = append(evs, ev)
		if r, ok := ev["returned"].(bool); !ok || !r {
			break
		}
	}
	auto := func(e string) bool {
		ev := M{"e": e, "b": []interface{}{}}
		do(ev)
		evs = append(evs, ev)
		return ev["got"] != "none" && ev["got"] != "nil" && ev["returned"].(bool)
	}
	if boolean(s["drain"]) && !fin {
		for {
			if held != nil && !auto("ready") {
				break
			}
			if !due() || !auto("take") {
				break
			}
		}
	}
	if !fin {
		auto("finish")
	}
	auto("finish") // once more
	s["evs"] = evs
}
