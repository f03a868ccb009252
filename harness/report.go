package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"time"
)

func init() { domains["report"] = runReport }

// around lists what lies in a directory.
func around(dir string) []M {
	res := []M{}
	_ = filepath.Walk(dir, func(p string, i os.FileInfo, e error) error {
		if e != nil {
			fatal(e)
		}
		m := M{"p": ints([]byte(p)), "d": i.IsDir(), "b": []int{}, "n": "0"}
		if i.Mode().IsRegular() {
			m["n"] = fmt.Sprint(i.Size())
		}
		if i.Mode().IsRegular() && i.Size() < 100 {
			b, e := os.ReadFile(p)
			if e != nil {
				fatal(e)
			}
			m["b"] = ints(b)
		}
		res = append(res, m)
		return nil
	})
	return res
}

var saidHash = regexp.MustCompile(`(?m)^ *Infohash: \[([0-9a-f]{40})\]$`)

// runReport runs the info command on a torrent file.
func runReport(s M) {
	dir, e := os.MkdirTemp(".", "report-")
	if e != nil {
		fatal(e)
	}
	defer os.RemoveAll(dir)
	dir, _ = filepath.Abs(dir)
	data := bytesOf(s["in"])
	// with a file in the place of the torrent's, if there can be one
	_ = os.MkdirAll(filepath.Join(dir, "wd"), 0777)
	if n := string(bytesOf(s["there"])); n != "" {
		_ = os.WriteFile(filepath.Join(dir, "wd", n), []byte("old"), 0666)
	}
	before := around(dir)
	tor := filepath.Join(dir, "..", filepath.Base(dir)+".torrent")
	if e := os.WriteFile(tor, data, 0666); e != nil {
		fatal(e)
	}
	defer os.Remove(tor)
	// it should write nothing: should it try, not much
	lim, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	c := exec.CommandContext(lim, "/bin/sh", "-c", "ulimit -f 8; exec \"$0\" \"$@\"", os.Getenv("GOTOR"), "-cmd", "info", "-i", tor, "-w", str(s["wd"]))
	c.Dir = dir
	var out, err bytes.Buffer
	c.Stdout, c.Stderr = &out, &err
	e = c.Run()
	if e != nil {
		if _, ok := e.(*exec.ExitError); !ok {
			fatal(e)
		}
	}
	hash, sp := "", [][]int{}
	if m := saidHash.FindStringSubmatch(out.String()); m != nil {
		hash = m[1]
		raw, _ := hex.DecodeString(hash)
		sp = spans(data, string(raw))
	}
	s["out"] = M{"ok": e == nil, "text": ints(out.Bytes()), "hex": ints([]byte(hash)), "spans": sp, "before": before, "after": around(dir)}
}
