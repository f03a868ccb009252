// Command verifharness drives the public API of gotor with scripts and records
// what the code did. It takes no verdict: the records are judged by the TLA+
// specifications in ../spec.
//
//	verifharness run DOMAIN IN OUT CUR START CASE_TIMEOUT_MS
//
// IN holds one JSON script per line. For each line k >= START, in order, the
// index k is first stored in CUR, then the script is executed, and a record is
// appended to OUT: the script's own fields plus what was observed, and
// "x":"ok". If the script makes the process crash, or it does not end in time, the
// process ends; whoever started it reads CUR to know which script did it.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"strconv"
	"sync/atomic"
	"time"
)

type M = map[string]interface{}

// runner executes one script and adds what it observed to it.
type runner func(s M)

var domains = map[string]runner{}

const (
	exitHang = 97
)

func fatal(args ...interface{}) {
	fmt.Fprintln(os.Stderr, args...)
	os.Exit(96)
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage")
	}
	switch os.Args[1] {
	case "run":
		runFile()
	case "client":
		clientMain()
	case "opts":
		optsMain()
	case "ocat":
		ocatMain()
	default:
		fatal("unknown command", os.Args[1])
	}
}

func runFile() {
	if len(os.Args) != 8 {
		fatal("usage: run DOMAIN IN OUT CUR START CASE_TIMEOUT_MS")
	}
	run, ok := domains[os.Args[2]]
	if !ok {
		fatal("unknown domain", os.Args[2])
	}
	log.SetOutput(io.Discard)

	in, e := os.Open(os.Args[3])
	if e != nil {
		fatal(e)
	}
	out, e := os.OpenFile(os.Args[4], os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0666)
	if e != nil {
		fatal(e)
	}
	cur, e := os.OpenFile(os.Args[5], os.O_CREATE|os.O_WRONLY, 0666)
	if e != nil {
		fatal(e)
	}
	start, _ := strconv.Atoi(os.Args[6])
	tmo, _ := strconv.Atoi(os.Args[7])
	timeout := time.Duration(tmo) * time.Millisecond

	sc := bufio.NewReaderSize(in, 1<<20)
	for k := 0; ; k++ {
		line, e := sc.ReadBytes('\n')
		if len(line) == 0 && e != nil {
			break
		}
		if k < start {
			continue
		}
		_, _ = cur.WriteAt([]byte(fmt.Sprintf("%12d", k)), 0)
		s := M{}
		if e := json.Unmarshal(line, &s); e != nil {
			fatal("bad script", e)
		}
		done := make(chan struct{})
		t := time.AfterFunc(timeout, func() {
			select {
			case <-done:
			default:
				fmt.Fprintln(os.Stderr, "case did not end")
				os.Exit(exitHang)
			}
		})
		run(s)
		close(done)
		t.Stop()
		s["x"] = "ok"
		b, e := json.Marshal(s)
		if e != nil {
			fatal("cannot record", e)
		}
		b = append(b, '\n')
		if _, e := out.Write(b); e != nil {
			fatal(e)
		}
	}
}

// ----------------------------------------------------------------------------
// helpers to read scripts and to write records

func num(v interface{}) int64 {
	f, ok := v.(float64)
	if !ok {
		fatal("not a number:", v)
	}
	return int64(f)
}

func str(v interface{}) string {
	s, ok := v.(string)
	if !ok {
		fatal("not a string:", v)
	}
	return s
}

func boolean(v interface{}) bool {
	b, ok := v.(bool)
	return ok && b
}

func list(v interface{}) []interface{} {
	if v == nil {
		return nil
	}
	l, ok := v.([]interface{})
	if !ok {
		fatal("not a list:", v)
	}
	return l
}

func obj(v interface{}) M {
	m, ok := v.(map[string]interface{})
	if !ok {
		fatal("not an object:", v)
	}
	return m
}

// bytesOf reads a list of numbers 0-255.
func bytesOf(v interface{}) []byte {
	l := list(v)
	b := make([]byte, len(l))
	for i, x := range l {
		b[i] = byte(num(x))
	}
	return b
}

// ints turns bytes into something that is marshalled as a list of numbers.
func ints(b []byte) []int {
	l := make([]int, len(b))
	for i, x := range b {
		l[i] = int(x)
	}
	return l
}

// digits writes a number as a list of decimal digits.
func digits(u uint64) []int {
	s := strconv.FormatUint(u, 10)
	l := make([]int, len(s))
	for i := range s {
		l[i] = int(s[i] - '0')
	}
	return l
}

// bigint writes a signed number as sign and digits.
func bigint(i int64) M {
	if i < 0 {
		return M{"neg": true, "d": digits(uint64(-(i + 1)) + 1)}
	}
	return M{"neg": false, "d": digits(uint64(i))}
}

// parseBig is the inverse of bigint for numbers that fit.
func parseBig(v interface{}) int64 {
	m := obj(v)
	s := ""
	if boolean(m["neg"]) {
		s = "-"
	}
	for _, d := range list(m["d"]) {
		s += strconv.Itoa(int(num(d)))
	}
	i, e := strconv.ParseInt(s, 10, 64)
	if e != nil {
		fatal(e)
	}
	return i
}

func parseUint(v interface{}) uint64 {
	s := ""
	for _, d := range list(v) {
		s += strconv.Itoa(int(num(d)))
	}
	i, e := strconv.ParseUint(s, 10, 64)
	if e != nil {
		fatal(e)
	}
	return i
}

// caught runs f, and tells whether it panicked.
func caught(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			panicked = true
		}
	}()
	f()
	return false
}

// patience is how long to wait for what has to happen. After a few disappointments, that will
// be judged, not much is expected any more.
var disappointed int32

func patience(d time.Duration) time.Duration {
	if atomic.LoadInt32(&disappointed) >= 20 && d > 50*time.Millisecond {
		return 50 * time.Millisecond
	}
	if atomic.LoadInt32(&disappointed) >= 3 && d > 300*time.Millisecond {
		return 300 * time.Millisecond
	}
	return d
}

func disappoint() { atomic.AddInt32(&disappointed, 1) }
