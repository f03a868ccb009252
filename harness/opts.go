package main

import (
	"bytes"
	"encoding/json"
	"os"
	"os/exec"

	"gotor/utils"
)

func init() { domains["opts"] = runOpts }

// optsMain reads its command line with gotor's options and tells what they are.
func optsMain() {
	os.Args = append(os.Args[:1], os.Args[2:]...)
	o := utils.GetOpts()
	again := utils.GetOpts()
	b, _ := json.Marshal(M{
		"ok": true, "i": ints([]byte(o.Input())), "w": ints([]byte(o.WorkingDir())), "cmd": ints([]byte(o.Cmd())), "p": again.Port(),
		"u": bigint(o.UpLimit()), "d": bigint(again.DnLimit()),
	})
	os.Stdout.Write(b)
}

func runOpts(s M) {
	g := obj(s["g"])
	args := []string{"opts"}
	for _, x := range list(s["order"]) {
		k := str(x)
		o := obj(g[k])
		if !boolean(o["there"]) {
			continue
		}
		v := string(bytesOf(o["b"]))
		if boolean(s["eq"]) {
			args = append(args, "-"+k+"="+v)
		} else {
			args = append(args, "-"+k, v)
		}
	}
	c := exec.Command(os.Args[0], args...)
	var out, err bytes.Buffer
	c.Stdout, c.Stderr = &out, &err
	e := c.Run()
	if e != nil {
		s["out"] = M{"ok": false}
		if _, ok := e.(*exec.ExitError); !ok {
			fatal(e)
		}
		return
	}
	m := M{}
	if e := json.Unmarshal(out.Bytes(), &m); e != nil {
		s["out"] = M{"ok": false} // it ended without saying what the options are
		return
	}
	s["out"] = m
}
