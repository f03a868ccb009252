package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"gotor/swarm"
	"gotor/torrent"
	"gotor/torrent/fileio"
	"gotor/torrent/filesd"
	"gotor/torrent/info"
	"gotor/utils"
)

func init() { domains["store"] = runStore }

func runStore(s M) {
	dir, e := os.MkdirTemp(".", "store-")
	if e != nil {
		fatal(e)
	}
	defer os.RemoveAll(dir)
	switch str(s["op"]) {
	case "hist":
		runHist(s, dir)
	case "prep":
		runPrep(s, dir)
	case "startup":
		runStartup(s, dir)
	case "conc":
		runConc(s, dir)
	default:
		fatal("bad op")
	}
}

// torInfoOf makes the metainfo of content cut into the given files, that lie in dir.
func torInfoOf(dir string, files []interface{}, plen int64, content []byte) *info.TorInfo {
	entries := []filesd.EntryBase{}
	for _, f := range files {
		fe := filesd.MakeFileEntry(str(obj(f)["path"]), num(obj(f)["len"]))
		fe.SetLocalPath(filepath.Join(dir, str(obj(f)["path"])))
		entries = append(entries, fe)
	}
	hashes := strings.Builder{}
	for i := int64(0); i < int64(len(content)); i += plen {
		j := i + plen
		if j > int64(len(content)) {
			j = int64(len(content))
		}
		h := sha1.Sum(content[i:j])
		hashes.Write(h[:])
	}
	ti, e := info.NewTorInfo("name", plen, hashes.String(), entries)
	if e != nil {
		fatal("metainfo refused:", e)
	}
	return ti
}

// putFile puts a file where the script says, without the code under test.
func putFile(path string, data []byte) {
	if e := os.MkdirAll(filepath.Dir(path), 0777); e != nil {
		fatal(e)
	}
	if e := os.WriteFile(path, data, 0666); e != nil {
		fatal(e)
	}
}

// files lists the regular files below dir.
func filesBelow(dir string) []string {
	res := []string{}
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, e error) error {
		if e == nil && fi.Mode().IsRegular() {
			res = append(res, p)
		}
		return nil
	})
	sort.Strings(res)
	return res
}

func snapshot(dir string) []M {
	res := []M{}
	for _, p := range filesBelow(dir) {
		b, e := os.ReadFile(p)
		if e != nil {
			fatal(e)
		}
		rel, _ := filepath.Rel(dir, p)
		res = append(res, M{"name": rel, "b": ints(b)})
	}
	return res
}

func runHist(s M, dir string) {
	ti := torInfoOf(dir, list(s["files"]), num(s["plen"]), bytesOf(s["content"]))
	for _, f := range list(s["init"]) {
		putFile(filepath.Join(dir, str(obj(f)["name"])), bytesOf(obj(f)["b"]))
	}
	for _, d := range list(s["dirs"]) {
		_ = os.MkdirAll(filepath.Join(dir, str(d)), 0777)
	}
	fio := fileio.NewFileIO(ti)
	defer func() {
		// Handles closed by the script make this stop early; the rest is collected.
		_ = fio.CloseAll()
		runtime.GC()
	}()
	for _, x := range list(s["evs"]) {
		ev := obj(x)
		path := func(k string) string { return filepath.Join(dir, str(ev[k])) }
		ok := true
		switch str(ev["e"]) {
		case "write":
			data := bytesOf(ev["data"])
			keep := append([]byte{}, data...)
			n, e := fio.WritePiece(farIndex(ev), data)
			ok = e == nil
			ev["n"] = n
			if !bytes.Equal(keep, data) {
				ev["n"] = -1
			}
		case "read":
			buf := bytes.Repeat([]byte{byte(num(ev["fill"]))}, int(num(ev["cap"])))
			n, e := fio.ReadPiece(farIndex(ev), buf)
			ok = e == nil
			ev["n"] = n
			ev["buf"] = ints(buf)
		case "move":
			ok = fio.Move(path("from"), path("to")) == nil
		case "close":
			ok = fio.Close(path("path")) == nil
		case "closeall":
			ok = fio.CloseAll() == nil
		case "ocat":
			ok = fio.OCAT(path("path"), num(ev["len"])) == nil
		case "ocatall":
			ok = fio.OCATAll(ti.Files()) == nil
		case "put": // somebody else writes over the file
			f, e := os.OpenFile(path("path"), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
			if e != nil {
				fatal(e)
			}
			_, _ = f.Write(bytesOf(ev["b"]))
			f.Close()
		case "del":
			_ = os.Remove(path("path"))
		default:
			fatal("bad event")
		}
		ev["ok"] = ok
		ev["disk"] = snapshot(dir)
	}
}

// ----------------------------------------------------------------------------
// preparation of files of any size; contents as runs of equal bytes

func runs(path string) [][]int64 {
	f, e := os.Open(path)
	if e != nil {
		fatal(e)
	}
	defer f.Close()
	res := [][]int64{}
	buf := make([]byte, 1<<20)
	for {
		n, e := f.Read(buf)
		for i := 0; i < n; {
			j := i
			for j < n && buf[j] == buf[i] {
				j++
			}
			if k := len(res); k > 0 && res[k-1][0] == int64(buf[i]) {
				res[k-1][1] += int64(j - i)
			} else if k < 200 {
				res = append(res, []int64{int64(buf[i]), int64(j - i)})
			}
			i = j
		}
		if e == io.EOF {
			return res
		}
		if e != nil {
			fatal(e)
		}
	}
}

func runSnapshot(dir string) []M {
	res := []M{}
	for _, p := range filesBelow(dir) {
		rel, _ := filepath.Rel(dir, p)
		res = append(res, M{"name": rel, "r": runs(p)})
	}
	return res
}

func prepInfo(dir string, files []interface{}) filesd.FileList {
	entries := []filesd.EntryBase{}
	for _, f := range files {
		fe := filesd.MakeFileEntry(str(obj(f)["path"]), num(obj(f)["len"]))
		fe.SetLocalPath(filepath.Join(dir, str(obj(f)["path"])))
		entries = append(entries, fe)
	}
	return filesd.MakeFileList(entries, 1<<20)
}

func runPrep(s M, dir string) {
	for _, x := range list(s["init"]) {
		f := obj(x)
		p := filepath.Join(dir, str(f["name"]))
		putFile(p, nil)
		w, _ := os.OpenFile(p, os.O_WRONLY, 0666)
		for _, r := range list(f["r"]) {
			if _, e := w.Write(bytes.Repeat([]byte{byte(num(list(r)[0]))}, int(num(list(r)[1])))); e != nil {
				fatal(e)
			}
		}
		w.Close()
	}
	for _, x := range list(s["evs"]) {
		ev := obj(x)
		switch str(ev["e"]) {
		case "prep":
			fl := prepInfo(dir, list(s["files"]))
			ti, _ := info.NewTorInfo("n", 1<<20, "", nil)
			fio := fileio.NewFileIO(ti)
			ev["ok"] = fio.OCATAll(fl) == nil
			_ = fio.CloseAll()
		case "cut": // a process preparing the files is stopped by a limit on file sizes or killed
			args := []string{"ocat", dir, strconv.FormatInt(num(ev["limit"]), 10), str(ev["how"])}
			for _, f := range list(s["files"]) {
				args = append(args, str(obj(f)["path"]), strconv.FormatInt(num(obj(f)["len"]), 10))
			}
			cmd := exec.Command(os.Args[0], args...)
			_ = cmd.Run()
			ev["ok"] = cmd.ProcessState.Success()
		default:
			fatal("bad event")
		}
		ev["disk"] = runSnapshot(dir)
	}
}

// ocatMain prepares files until it meets the limit on their size: it then crashes,
// or gets an error, as said.
func ocatMain() {
	lim, _ := strconv.ParseUint(os.Args[3], 10, 64)
	switch os.Args[4] {
	case "crowd":
		crowdMain()
		return
	case "error":
		ignoreXFSZ()
		fallthrough
	case "crash":
		if e := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: lim, Max: lim}); e != nil {
			fatal(e)
		}
	}
	files := []interface{}{}
	for i := 5; i+1 < len(os.Args); i += 2 {
		n, _ := strconv.ParseInt(os.Args[i+1], 10, 64)
		files = append(files, M{"path": os.Args[i], "len": float64(n)})
	}
	fl := prepInfo(os.Args[2], files)
	ti, _ := info.NewTorInfo("n", 1<<20, "", nil)
	if e := fileio.NewFileIO(ti).OCATAll(fl); e != nil {
		os.Exit(1)
	}
}

// crowdMain prepares the files again and again while others take and give back
// the last file descriptors. It stops at a success after some attempts.
func crowdMain() {
	files := []interface{}{}
	for i := 5; i+1 < len(os.Args); i += 2 {
		n, _ := strconv.ParseInt(os.Args[i+1], 10, 64)
		files = append(files, M{"path": os.Args[i], "len": float64(n)})
	}
	fl := prepInfo(os.Args[2], files)
	ti, _ := info.NewTorInfo("n", 1<<20, "", nil)
	if e := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: 64, Max: 64}); e != nil {
		fatal(e)
	}
	taken := []int{}
	for {
		fd, e := syscall.Open("/dev/null", syscall.O_RDONLY, 0)
		if e != nil {
			break
		}
		taken = append(taken, fd)
	}
	for i := 0; i < len(files); i++ { // as many as are needed
		_ = syscall.Close(taken[i])
	}
	for k := 0; k < 3; k++ {
		go func() {
			for {
				if fd, e := syscall.Open("/dev/null", syscall.O_RDONLY, 0); e == nil {
					runtime.Gosched()
					_ = syscall.Close(fd)
				}
				runtime.Gosched()
			}
		}()
	}
	until := time.Now().Add(3 * time.Second)
	for i := 0; time.Now().Before(until); i++ {
		fio := fileio.NewFileIO(ti)
		e := fio.OCATAll(fl)
		_ = fio.CloseAll()
		if i >= 1500 && e == nil {
			return
		}
	}
	os.Exit(1)
}

// ----------------------------------------------------------------------------
// startup

var (
	trackerOnce sync.Once
	trackerAddr string
	trackerLast atomic.Value
)

// quietTracker is a tracker that answers every announcement with no peers.
func quietTracker() string {
	trackerOnce.Do(func() {
		l, e := net.Listen("tcp", "127.0.0.1:0")
		if e != nil {
			fatal(e)
		}
		trackerAddr = "http://" + l.Addr().String() + "/announce"
		go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			trackerLast.Store(r.URL.Query())
			_, _ = w.Write([]byte("d8:completei0e10:incompletei0e8:intervali60e5:peers0:e"))
		}))
	})
	return trackerAddr
}

func setOpts(input, wd string) *utils.Opts {
	os.Args = []string{os.Args[0], "-i", "x"}
	o := utils.GetOpts()
	if e := flag.Set("i", input); e != nil {
		fatal(e)
	}
	if e := flag.Set("w", wd); e != nil {
		fatal(e)
	}
	return o
}

func benInt(n int64) string  { return fmt.Sprintf("i%de", n) }
func benStr(s string) string { return fmt.Sprintf("%d:%s", len(s), s) }

// torrentText writes the torrent of content cut into files (more than one: below name).
func torrentText(announce, name string, files []interface{}, plen, said int64, content []byte) string {
	hashes := strings.Builder{}
	for i := int64(0); i < int64(len(content)); i += plen {
		j := i + plen
		if j > int64(len(content)) {
			j = int64(len(content))
		}
		h := sha1.Sum(content[i:j])
		hashes.Write(h[:])
	}
	inf := "d"
	if len(files) > 1 {
		inf += benStr("files") + "l"
		for _, f := range files {
			inf += "d" + benStr("length") + benInt(num(obj(f)["len"])) + benStr("path") + "l"
			for _, c := range strings.Split(str(obj(f)["path"]), "/") {
				inf += benStr(c)
			}
			inf += "ee"
		}
		inf += "e"
	} else {
		inf += benStr("length") + benInt(num(obj(files[0])["len"]))
		name = str(obj(files[0])["path"])
	}
	inf += benStr("name") + benStr(name) + benStr("piece length") + benInt(said) + benStr("pieces") + benStr(hashes.String()) + "e"
	return "d" + benStr("announce") + benStr(announce) + benStr("info") + inf + "e"
}

// blob is a file or a content of a script: literal bytes, or random ones.
func blob(v interface{}) []byte {
	if m, ok := v.(map[string]interface{}); ok {
		return contentOf(m)
	}
	return bytesOf(v)
}

func runStartup(s M, dir string) {
	files := list(s["files"])
	plen := num(s["plen"])
	content := blob(s["content"])
	base := dir
	if len(files) > 1 {
		base = filepath.Join(dir, "tor")
	}
	for _, x := range list(s["init"]) {
		f := obj(x)
		putFile(filepath.Join(base, str(f["name"])), bytesOf(f["b"]))
	}
	// Files given as the right content with some bytes changed
	at := int64(0)
	for _, x := range files {
		f := obj(x)
		n := num(f["len"])
		if f["cut"] != nil {
			c := append([]byte{}, content[at:at+n]...)
			if k := num(f["cut"]); k < n {
				c = c[:k]
			} else if k > n {
				c = append(c, bytes.Repeat([]byte{7}, int(k-n))...)
			}
			for _, y := range list(f["flip"]) {
				if num(y) < int64(len(c)) {
					c[num(y)] ^= 1
				}
			}
			putFile(filepath.Join(base, str(f["path"])), c)
		}
		at += n
	}
	tf := filepath.Join(dir, ".torrent")
	said := plen
	if s["exp"] != nil { // one piece, said to be far longer than all there is
		said = int64(1)<<uint(num(s["exp"])) - 1
	}
	putFile(tf, []byte(torrentText(quietTracker(), "tor", files, plen, said, content)))
	out := M{"ok": false, "held": []int{}, "verified": []int{}, "complete": false, "left": -1, "disk": []M{}}
	s["out"] = out
	run := func() *swarm.Swarm {
		sw, e := swarm.NewSwarm(setOpts(tf, dir))
		if e != nil {
			return nil
		}
		return sw
	}
	if boolean(s["direct"]) {
		run = func() *swarm.Swarm {
			tor, e := torrent.FromTorrentFile(tf, dir)
			if e != nil {
				return nil
			}
			fio := fileio.NewFileIO(tor.Info())
			if fio.OCATAll(tor.Info().Files()) != nil {
				return nil
			}
			sw := &swarm.Swarm{Tor: tor, Fileio: fio, Bf: newBf(tor.Info().NumPieces())}
			before := snapHash(base)
			if sw.Validate() != nil {
				return nil
			}
			if before != snapHash(base) {
				out["altered"] = true
			}
			return sw
		}
	}
	out["altered"] = false
	sw := run()
	if sw == nil {
		return
	}
	defer sw.Fileio.CloseAll()
	out["ok"] = true
	held := []int64{}
	for i := int64(0); i < sw.Bf.Nbits(); i++ {
		if sw.Bf.Get(i) {
			held = append(held, i)
		}
	}
	out["nbits"] = sw.Bf.Nbits()
	out["nset"] = sw.Bf.Nset()
	out["held"] = held
	out["complete"] = sw.Bf.Complete()
	if sw.Stats != nil {
		out["left"] = int64(sw.Stats.Left())
	}
	if boolean(s["big"]) {
		// The files are too large to hand over: say which pieces are right
		out["verified"] = verifiedOn(base, files, plen, content)
	} else {
		out["disk"] = snapshot(base)
		for _, f := range out["disk"].([]M) {
			if f["name"] == ".torrent" {
				f["b"] = []int{}
			}
		}
	}
}

func snapHash(dir string) string {
	h := sha1.New()
	for _, p := range filesBelow(dir) {
		b, _ := os.ReadFile(p)
		fmt.Fprintln(h, p, len(b))
		h.Write(b)
	}
	return hex.EncodeToString(h.Sum(nil))
}

// verifiedOn reads the disk and tells which pieces equal the content there.
func verifiedOn(base string, files []interface{}, plen int64, content []byte) []int64 {
	all := []byte{}
	for _, x := range files {
		b, e := os.ReadFile(filepath.Join(base, str(obj(x)["path"])))
		if e != nil || int64(len(b)) != num(obj(x)["len"]) {
			return []int64{-1}
		}
		all = append(all, b...)
	}
	res := []int64{}
	for i := int64(0); i*plen < int64(len(content)); i++ {
		j := (i + 1) * plen
		if j > int64(len(content)) {
			j = int64(len(content))
		}
		if bytes.Equal(all[i*plen:j], content[i*plen:j]) {
			res = append(res, i)
		}
	}
	return res
}

// ----------------------------------------------------------------------------
// concurrent use

func runConc(s M, dir string) {
	files := list(s["files"])
	plen := num(s["plen"])
	content := blob(s["content"])
	rng := rand.New(rand.NewSource(num(s["seed"])))
	ti := torInfoOf(dir, files, plen, content)
	old := make([]byte, len(content))
	for i := range old {
		old[i] = content[i] ^ byte(1+i%255)
	}
	at := int64(0)
	for _, x := range files {
		n := num(obj(x)["len"])
		putFile(filepath.Join(dir, str(obj(x)["path"])), old[at:at+n])
		at += n
	}
	fio := fileio.NewFileIO(ti)
	if e := fio.OCATAll(ti.Files()); e != nil {
		fatal(e)
	}
	defer fio.CloseAll()
	np := ti.NumPieces()
	piece := func(b []byte, i int64) []byte {
		j := (i + 1) * plen
		if j > int64(len(b)) {
			j = int64(len(b))
		}
		return b[i*plen : j]
	}
	// what a segment holds
	kind := func(got []byte, i int64, from int64) string {
		o, n := piece(old, i)[from:from+int64(len(got))], piece(content, i)[from:from+int64(len(got))]
		switch {
		case bytes.Equal(got, n):
			return "new"
		case bytes.Equal(got, o):
			return "old"
		}
		for k := range got {
			if got[k] != o[k] && got[k] != n[k] {
				return "foreign"
			}
		}
		return "mixed"
	}
	describe := func(buf []byte, i int64) []string {
		res := []string{}
		locs, _ := ti.PieceLookup(i)
		off := int64(0)
		for _, l := range locs {
			if l.ReadAmnt() > 0 {
				res = append(res, kind(buf[off:off+l.ReadAmnt()], i, off))
			}
			off += l.ReadAmnt()
		}
		return res
	}
	threads := list(s["threads"])
	var clock int64
	evs := make([][]M, len(threads))
	var wg sync.WaitGroup
	start := make(chan struct{})
	lockstep := boolean(s["lockstep"]) // all threads have equally many operations then
	bar := newBarrier(len(threads))
	for t := range threads {
		wg.Add(1)
		ops := list(threads[t])
		r := rand.New(rand.NewSource(rng.Int63()))
		go func(t int) {
			defer wg.Done()
			<-start
			for k, x := range ops {
				op := obj(x)
				if lockstep {
					bar.wait(k)
				}
				i := int64(0)
				if op["i"] != nil {
					i = num(op["i"])
				}
				ev := M{"t": t, "e": op["e"], "i": i, "segs": []string{}}
				if r.Intn(4) == 0 {
					runtime.Gosched()
				}
				switch str(op["e"]) {
				case "read":
					buf := bytes.Repeat([]byte{0xEE}, int(plen))
					ev["from"] = atomic.AddInt64(&clock, 1)
					n, e := fio.ReadPiece(i, buf)
					ev["to"] = atomic.AddInt64(&clock, 1)
					ev["ok"] = e == nil && n == int64(len(piece(content, i)))
					if e == nil {
						ev["segs"] = describe(buf, i)
					}
				case "write":
					data := append([]byte{}, piece(content, i)...)
					ev["from"] = atomic.AddInt64(&clock, 1)
					_, e := fio.WritePiece(i, data)
					ev["to"] = atomic.AddInt64(&clock, 1)
					ev["ok"] = e == nil
				case "bad": // data that is not the piece
					ev["from"] = atomic.AddInt64(&clock, 1)
					_, e := fio.WritePiece(i, append([]byte{}, piece(old, i)...))
					ev["to"] = atomic.AddInt64(&clock, 1)
					ev["ok"] = e == nil
				case "move": // away and back
					p := filepath.Join(dir, str(obj(files[int(i)])["path"]))
					ev["from"] = atomic.AddInt64(&clock, 1)
					e := fio.Move(p, p+".moved")
					_ = os.Rename(p+".moved", p)
					ev["to"] = atomic.AddInt64(&clock, 1)
					ev["ok"] = e == nil
				}
				evs[t] = append(evs[t], ev)
			}
		}(t)
	}
	close(start)
	wg.Wait()
	all := []M{}
	for _, e := range evs {
		all = append(all, e...)
	}
	s["evs"] = all
	// what is on disk in the end
	data := []byte{}
	for _, x := range files {
		b, e := os.ReadFile(filepath.Join(dir, str(obj(x)["path"])))
		if e != nil || int64(len(b)) != num(obj(x)["len"]) {
			b = make([]byte, num(obj(x)["len"]))
		}
		data = append(data, b...)
	}
	final := []interface{}{}
	for i := int64(0); i < np; i++ {
		final = append(final, describe(piece(data, i), i))
	}
	s["final"] = final
}

// barrier lets n goroutines start each of their rounds together.
type barrier struct {
	n      int64
	came   int64
	opened int64
}

func newBarrier(n int) *barrier { return &barrier{n: int64(n), opened: -1} }

func (b *barrier) wait(round int) {
	if atomic.AddInt64(&b.came, 1) == b.n*int64(round+1) {
		atomic.StoreInt64(&b.opened, int64(round))
	}
	for atomic.LoadInt64(&b.opened) < int64(round) {
		runtime.Gosched()
	}
}

// farIndex is an index that may be too large for the numbers of the specification.
func farIndex(ev M) int64 {
	i := num(ev["i"])
	if ev["hi"] != nil {
		i += num(ev["hi"]) << 32
	}
	return i
}
