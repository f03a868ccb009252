package main

import (
	"bytes"
	"errors"
	stdio "io"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"gotor/io"
)

func init() { domains["rate"] = runRate }

// patt is the data of transfer id.
func patt(id, n int) []byte {
	b := make([]byte, n)
	for j := range b {
		b[j] = byte(id*37 + j*11 + j/256*7 + 1) // each byte tells id
	}
	return b
}

// sink records each write it gets.
type sink struct {
	mu     sync.Mutex
	chunks [][]byte
	err    error
}

func (s *sink) Write(b []byte) (int, error) {
	if s.err != nil {
		return 0, s.err
	}
	s.mu.Lock()
	s.chunks = append(s.chunks, append([]byte{}, b...))
	s.mu.Unlock()
	return len(b), nil
}

// source gives at most k bytes at once, and e when it is out of data (along with the last of it, if eager).
type source struct {
	data  []byte
	k     int
	e     error
	eager bool
}

func (s *source) Read(b []byte) (int, error) {
	if len(s.data) == 0 {
		return 0, s.e
	}
	n := len(b)
	if s.k > 0 && n > s.k {
		n = s.k
	}
	n = copy(b[:n], s.data)
	s.data = s.data[n:]
	if len(s.data) == 0 && s.eager {
		return n, s.e
	}
	return n, nil
}

type limited struct {
	rl    *io.RateLimitIO
	snk   *sink
	mu    sync.Mutex
	done  map[string]int
	fin   []M
	total int
}

// ask starts n transfers at once.
func (l *limited) ask(d string, m int, n int) {
	bar := newBarrier(n)
	for i := 0; i < n; i++ {
		l.askOne(d, m, bar)
	}
}

func (l *limited) askOne(d string, m int, bar *barrier) {
	l.mu.Lock()
	l.total++
	id := l.total
	l.mu.Unlock()
	go func() {
		r := M{"id": id, "d": d, "m": m}
		if d == "w" {
			data := patt(id, m)
			bar.wait(0)
			e := l.rl.Write(l.snk, data)
			r["ok"], r["same"] = e == nil, bytes.Equal(data, patt(id, m))
		} else {
			src := &source{data: append(patt(id, m), 1, 2, 3), k: []int{0, 1, 2}[id%3], e: stdio.EOF}
			buf := make([]byte, m)
			bar.wait(0)
			e := l.rl.Read(src, buf)
			r["ok"], r["same"] = e == nil, bytes.Equal(buf, patt(id, m)) && len(src.data) == 3
		}
		l.mu.Lock()
		l.done[d]++
		l.fin = append(l.fin, r)
		l.mu.Unlock()
	}()
}

func (l *limited) count() (int, int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.done["r"], l.done["w"]
}

// await waits until so many transfers are done, for at most a while.
func (l *limited) await(want int, most time.Duration) {
	end := time.Now().Add(patience(most))
	for time.Now().Before(end) {
		if r, w := l.count(); r+w >= want {
			return
		}
		time.Sleep(100 * time.Microsecond)
	}
	disappoint()
}

func (l *limited) set(d string, v int64) {
	if d == "w" {
		l.rl.SetWriteRate(v)
	} else {
		l.rl.SetReadRate(v)
	}
}

// chunkIds tells which transfers' data the sink got, 0 for anything else. All that are
// written have the same size; how many calls a transfer makes is its own matter.
func (l *limited) chunkIds() []int {
	ids := []int{}
	l.snk.mu.Lock()
	defer l.snk.mu.Unlock()
	size, all, parts := 0, []byte{}, [][]byte{}
	for _, f := range l.fin {
		if f["d"].(string) == "w" {
			size = f["m"].(int)
		}
	}
	for _, c := range l.snk.chunks {
		all = append(all, c...)
	}
	for size > 0 && len(all) >= size {
		parts, all = append(parts, all[:size]), all[size:]
	}
	if len(all) > 0 {
		parts = append(parts, all)
	}
	for _, c := range parts {
		id := 0
		for k := 1; k <= l.total && id == 0; k++ {
			if len(c) > 0 && bytes.Equal(c, patt(k, len(c))) {
				id = k
			}
		}
		for _, f := range l.fin {
			if f["id"].(int) == id && f["m"].(int) != len(c) {
				id = 0
			}
		}
		ids = append(ids, id)
	}
	return ids
}

func newLimited() *limited {
	return &limited{rl: io.NewRateLimitIO(), snk: &sink{}, done: map[string]int{}, fin: []M{}}
}

func runRate(s M) {
	switch str(s["op"]) {
	case "seq":
		start := time.Now()
		l := newLimited()
		for _, x := range list(s["evs"]) {
			ev := obj(x)
			if str(ev["e"]) == "set" {
				l.set(str(ev["d"]), num(ev["v"]))
			} else {
				l.ask(str(ev["d"]), int(num(ev["v"])), int(num(ev["n"])))
			}
			l.await(int(num(ev["want"])), 8*time.Second)
			time.Sleep(3 * time.Millisecond)
			ev["r"], ev["w"] = l.count()
			ev["late"] = time.Since(start) > 900*time.Millisecond
		}
		l.rl.SetReadRate(-1)
		l.rl.SetWriteRate(-1)
		l.await(l.total, 8*time.Second)
		l.mu.Lock()
		s["fin"], s["total"] = append([]M{}, l.fin...), l.total
		l.mu.Unlock()
		s["chunks"] = l.chunkIds()
	case "timed":
		var wg sync.WaitGroup
		for _, x := range list(s["lanes"]) {
			wg.Add(1)
			go func(lane M) {
				defer wg.Done()
				runLane(lane)
			}(obj(x))
		}
		wg.Wait()
	case "data":
		runData(s)
	default:
		fatal("bad op")
	}
}

// runLane lets threads transfer n messages of m bytes altogether under a rate.
func runLane(lane M) {
	rate, m, n, threads, d := num(lane["rate"]), int(num(lane["m"])), num(lane["n"]), int(num(lane["threads"])), str(lane["d"])
	start := time.Now()
	rl := io.NewRateLimitIO()
	set := rl.SetWriteRate
	if d == "r" {
		set = rl.SetReadRate
	}
	set(rate)
	if boolean(lane["other"]) { // the other direction is stuck
		if d == "r" {
			rl.SetWriteRate(0)
		} else {
			rl.SetReadRate(0)
		}
		go rl.Write(stdio.Discard, make([]byte, 5))
		go rl.Read(&source{data: make([]byte, 5), e: stdio.EOF}, make([]byte, 5))
	}
	go rl.Run()
	var mu sync.Mutex
	ms := []int{}
	var todo = n
	var fin sync.WaitGroup
	data := make([]byte, m)
	for t := 0; t < threads; t++ {
		fin.Add(1)
		go func() {
			defer fin.Done()
			for atomic.AddInt64(&todo, -1) >= 0 {
				if d == "w" {
					_ = rl.Write(stdio.Discard, data)
				} else {
					_ = rl.Read(&source{data: data, k: 1 + m/2, e: stdio.EOF}, make([]byte, m))
				}
				mu.Lock()
				ms = append(ms, int(time.Since(start)/time.Millisecond))
				mu.Unlock()
			}
		}()
	}
	all := make(chan struct{})
	go func() { fin.Wait(); close(all) }()
	need := time.Duration(0)
	if rate > 0 {
		need = time.Duration(n*int64(m)/rate+1) * time.Second
	}
	done := true
	select {
	case <-all:
	case <-time.After(need + patience(2*need+15*time.Second)):
		done = false
		disappoint()
	}
	if boolean(lane["other"]) {
		rl.SetWriteRate(-1)
		rl.SetReadRate(-1)
	}
	stopped := make(chan struct{})
	go func() { rl.Stop(); close(stopped) }()
	select {
	case <-stopped:
		lane["stopped"] = true
	case <-time.After(patience(10 * time.Second)):
		lane["stopped"] = false
		disappoint()
	}
	mu.Lock()
	sort.Ints(ms)
	lane["ms"], lane["done"] = append([]int{}, ms...), done
	mu.Unlock()
}

var errStream = errors.New("the stream broke")

// runData makes single transfers that may fail.
func runData(s M) {
	rl := io.NewRateLimitIO()
	rl.SetReadRate(num(s["rate"]))
	rl.SetWriteRate(num(s["rate"]))
	m := int(num(s["m"]))
	out := M{"err": false, "sent": []int{}, "got": []int{}, "left": 0}
	s["out"] = out
	if str(s["d"]) == "w" {
		snk := &sink{}
		if boolean(s["fail"]) {
			snk.err = errStream
		}
		e := rl.Write(snk, bytesOf(s["data"]))
		out["err"], out["sent"] = e != nil, ints(bytes.Join(snk.chunks, nil))
		return
	}
	src := &source{data: bytesOf(s["data"]), k: int(num(s["k"])), e: stdio.EOF, eager: boolean(s["eager"])}
	if boolean(s["fail"]) {
		src.e = errStream
	}
	buf := bytes.Repeat([]byte{0xEE}, m)
	e := rl.Read(src, buf)
	out["err"], out["got"], out["left"] = e != nil, ints(buf), len(src.data)
}
