package main

import (
	"crypto/sha1"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"gotor/bencode"
	"gotor/bf"
	"gotor/swarm"
	"gotor/torrent"
	"gotor/torrent/fileio"
	"gotor/torrent/filesd"
	"gotor/torrent/info"
)

func init() { domains["tor"] = runTor }

const pairBase = 1 << 20

// pair writes a number as two that fit the specification's integers.
func pair(v int64) []int64 {
	lo := ((v % pairBase) + pairBase) % pairBase
	return []int64{(v - lo) / pairBase, lo}
}

func unpair(v interface{}) int64 {
	l := list(v)
	return num(l[0])*pairBase + num(l[1])
}

// spans lists where in data a slice from a 'd' to an 'e' has the given hash.
func spans(data []byte, hash string) [][]int {
	res := [][]int{}
	for i := range data {
		if data[i] != 'd' {
			continue
		}
		for j := i + 1; j < len(data); j++ {
			if data[j] != 'e' {
				continue
			}
			h := sha1.Sum(data[i : j+1])
			if string(h[:]) == hash {
				res = append(res, []int{i + 1, j + 1}) // as in SubSeq
			}
		}
	}
	return res
}

func runTor(s M) {
	switch str(s["op"]) {
	case "load":
		data := bytesOf(s["in"])
		path := "t.torrent"
		text := data
		if s["grow"] != nil {
			// the file has, at one place, something more, too large for the record
			g := obj(s["grow"])
			at, n := int(num(g["at"])), int(num(g["n"]))
			text = []byte(string(data[:at]) + string(bytesOf(g["pre"])) + strings.Repeat(string(bytesOf(g["open"])), n) +
				string(bytesOf(g["mid"])) + strings.Repeat(string(bytesOf(g["close"])), n) + string(data[at:]))
		}
		if e := os.WriteFile(path, text, 0666); e != nil {
			fatal(e)
		}
		cwd, _ := os.Getwd()
		s["cwd"] = ints([]byte(cwd))
		tor, e := torrent.FromTorrentFile(path, string(bytesOf(s["wd"])))
		if e != nil {
			s["out"] = M{"ok": false}
			return
		}
		_ = tor.String()
		ti := tor.Info()
		files := []M{}
		for _, f := range ti.Files() {
			files = append(files, M{"tor": ints([]byte(f.TorPath())), "local": ints([]byte(f.LocalPath())), "len": bigint(f.Length())})
		}
		s["out"] = M{
			"ok": true, "announce": ints([]byte(tor.Announce())), "name": ints([]byte(ti.Name())),
			"plen": bigint(ti.PieceLen()), "length": bigint(ti.Length()), "hashes": ints([]byte(ti.Hashes())),
			"npieces": ti.NumPieces(), "files": files, "spans": spans(data, tor.Infohash()),
			"hashlen": len(tor.Infohash()),
		}
	case "many":
		runMany(s)
	case "layout":
		runLayout(s)
	case "create":
		runCreate(s)
	default:
		fatal("bad op")
	}
}

// runMany loads a torrent of many pieces, or of files that lie deep.
func runMany(s M) {
	n, plen, length, nf, deep := int(num(s["n"])), num(s["plen"]), num(s["length"]), int(num(s["nf"])), int(num(s["deep"]))
	inf, paths := "d", []string{}
	if nf == 0 {
		inf += benStr("length") + benInt(length)
	} else {
		inf += benStr("files") + "l"
		for i := 0; i < nf; i++ {
			l := length / int64(nf)
			if i == nf-1 {
				l = length - l*int64(nf-1)
			}
			comps, text := []string{}, ""
			for j := 0; j < deep; j++ {
				comps = append(comps, fmt.Sprintf("c%d", j))
			}
			comps = append(comps, fmt.Sprintf("f%d", i))
			for _, c := range comps {
				text += benStr(c)
			}
			paths = append(paths, strings.Join(comps, "/"))
			inf += "d" + benStr("length") + benInt(l) + benStr("path") + "l" + text + "ee"
		}
		inf += "e"
	}
	hashes := make([]byte, 20*n)
	rand.New(rand.NewSource(int64(n))).Read(hashes)
	inf += benStr("name") + benStr("n") + benStr("piece length") + benInt(plen) + benStr("pieces") + benStr(string(hashes)) + "e"
	putFile("m.torrent", []byte("d"+benStr("announce")+benStr("http://x")+benStr("info")+inf+"e"))
	tor, e := torrent.FromTorrentFile("m.torrent", "wd")
	if e != nil {
		s["out"] = M{"ok": false}
		return
	}
	ti := tor.Info()
	right := 0
	for i, f := range ti.Files() {
		if i < len(paths) && f.TorPath() == paths[i] && f.LocalPath() == filepath.Join("wd", "n", paths[i]) {
			right++
		}
	}
	ih := sha1.Sum([]byte(inf))
	s["out"] = M{"ok": true, "np": ti.NumPieces(), "plen": ti.PieceLen(), "length": ti.Length(), "last": ti.LastPieceLen(), "nf": len(ti.Files()), "right": right,
		"hashes": ti.Hashes() == string(hashes), "ih": tor.Infohash() == string(ih[:])}
}

func fileIndex(torPath string) int {
	i, e := strconv.Atoi(strings.TrimPrefix(torPath, "f"))
	if e != nil {
		return -1
	}
	return i
}

func runLayout(s M) {
	lens := list(s["lens"])
	plen := unpair(s["plen"])
	entries := []filesd.EntryBase{}
	for i, l := range lens {
		entries = append(entries, filesd.MakeFileEntry(fmt.Sprintf("f%d", i+1), unpair(l)))
	}
	n := int(num(s["n"]))
	hashes := strings.Builder{}
	for i := 0; i < n; i++ {
		hashes.WriteString(fmt.Sprintf("%020d", i))
	}
	ti, e := info.NewTorInfo("name", plen, hashes.String(), entries)
	if e != nil {
		s["out"] = M{"ok": false}
		return
	}
	pieces := []interface{}{}
	hs := []int{}
	at, around := []int64{}, []int64{}
	if s["at"] != nil { // only these pieces
		for _, i := range list(s["at"]) {
			at = append(at, num(i))
		}
		around = at
	} else {
		for i := int64(-1); i <= int64(n)+1; i++ {
			around = append(around, i)
		}
		at = around[1 : n+1]
	}
	for _, i := range at {
		locs, e := ti.PieceLookup(i)
		if e != nil {
			pieces = append(pieces, []M{{"f": -1, "seek": pair(0), "n": pair(0)}})
			continue
		}
		segs := []M{}
		for _, l := range locs {
			segs = append(segs, M{"f": fileIndex(l.Entry.TorPath()), "seek": pair(l.SeekAmnt()), "n": pair(l.ReadAmnt())})
		}
		pieces = append(pieces, segs)
		h, e2 := strconv.Atoi(ti.PieceHash(i))
		if e2 != nil {
			h = -1
		}
		hs = append(hs, h)
	}
	refused := []bool{}
	for _, i := range []int64{-1, int64(n), int64(n) + 1, 1 << 40, -1 << 63} {
		_, e := ti.PieceLookup(i)
		refused = append(refused, e != nil)
	}
	files := []M{}
	for i := range ti.Files() {
		f := &ti.Files()[i]
		files = append(files, M{"f": fileIndex(f.TorPath()), "len": pair(f.Length()),
			"sp": f.StartPiece(), "ep": f.EndPiece(), "so": pair(f.StartPieceOff()), "eo": pair(f.EndPieceOff())})
	}
	get := []interface{}{}
	for _, i := range around {
		fs := []int{}
		for _, f := range ti.Files().GetFiles(i) {
			fs = append(fs, fileIndex(f.TorPath()))
		}
		get = append(get, fs)
	}
	s["out"] = M{"ok": true, "np": ti.NumPieces(), "last": pair(ti.LastPieceLen()), "length": pair(ti.Length()), "plen": pair(ti.PieceLen()),
		"pieces": pieces, "hashes": hs, "refused": refused, "files": files, "get": get}
}

// contentOf gives a file's bytes: literal ones, or n pseudo-random ones.
func contentOf(f M) []byte {
	if f["seed"] != nil {
		b := make([]byte, num(f["n"]))
		rand.New(rand.NewSource(num(f["seed"]))).Read(b)
		return b
	}
	return bytesOf(f["b"])
}

func describe(tor *torrent.Torrent) M {
	ti := tor.Info()
	files := []M{}
	for _, f := range ti.Files() {
		files = append(files, M{"tor": ints([]byte(f.TorPath())), "local": ints([]byte(filepath.Clean(f.LocalPath()))), "len": f.Length()})
	}
	locs := []interface{}{}
	for i := int64(0); i < ti.NumPieces(); i++ {
		pl, e := ti.PieceLookup(i)
		if e != nil {
			locs = append(locs, []interface{}{})
			continue
		}
		segs := []interface{}{}
		for _, l := range pl {
			if l.ReadAmnt() != 0 {
				segs = append(segs, []interface{}{l.Entry.TorPath(), l.SeekAmnt(), l.ReadAmnt()})
			}
		}
		locs = append(locs, segs)
	}
	return M{"infohash": ints([]byte(tor.Infohash())), "announce": tor.Announce(), "name": ti.Name(), "plen": ti.PieceLen(),
		"hashes": ints([]byte(ti.Hashes())), "length": ti.Length(), "np": ti.NumPieces(), "last": ti.LastPieceLen(), "files": files, "locs": locs}
}

func runCreate(s M) {
	dir, e := os.MkdirTemp(".", "create-")
	if e != nil {
		fatal(e)
	}
	defer os.RemoveAll(dir)
	wd := dir
	if boolean(s["abs"]) {
		wd, _ = filepath.Abs(dir)
	}
	name := str(s["name"])
	plen := num(s["plen"])
	if s["exp"] != nil { // one piece, said to be far longer than all there is
		plen = int64(1)<<uint(num(s["exp"])) - 1
	}
	said := func(d M) M {
		if s["exp"] != nil && d["plen"] == plen {
			d["plen"] = num(s["plen"])
		}
		return d
	}
	paths := []string{}
	all := []byte{}
	base := wd
	if len(list(s["files"])) > 1 {
		base = filepath.Join(wd, name)
	}
	for _, f := range list(s["files"]) {
		p := str(obj(f)["path"])
		paths = append(paths, p)
		full := filepath.Join(base, p)
		obj(f)["tor"], obj(f)["local"] = ints([]byte(p)), ints([]byte(full))
		if e := os.MkdirAll(filepath.Dir(full), 0777); e != nil {
			fatal(e)
		}
		c := contentOf(obj(f))
		if e := os.WriteFile(full, c, 0666); e != nil {
			fatal(e)
		}
		all = append(all, c...)
	}
	s["missing"] = false
	if m, ok := s["drop"]; ok && num(m) < int64(len(paths)) {
		os.Remove(filepath.Join(base, paths[num(m)]))
		s["missing"] = true
	}
	ti, e := info.CreateTorInfo(paths, wd, name, plen)
	if e != nil {
		s["out"] = M{"ok": false}
		return
	}
	tor, e := torrent.NewTorrent(ti, "http://127.0.0.1:1/announce")
	if e != nil {
		s["out"] = M{"ok": false}
		return
	}
	out := M{"ok": true, "held": []int{-1}, "complete": false}
	s["out"] = out

	// Which slices of the content have the hashes found
	where := map[string][][]int{}
	add := func(i, j int) {
		h := sha1.Sum(all[i:j])
		where[string(h[:])] = append(where[string(h[:])], []int{i, j})
	}
	if len(all) <= 120 {
		for i := 0; i < len(all); i++ {
			for j := i + 1; j <= len(all); j++ {
				add(i, j)
			}
		}
	} else {
		for i := 0; i < len(all); i += int(plen) {
			j := i + int(plen)
			if j > len(all) || j < i {
				j = len(all)
			}
			add(i, j)
		}
	}
	hs := []interface{}{}
	for i := 0; i+20 <= len(ti.Hashes()); i += 20 {
		w := where[ti.Hashes()[i:i+20]]
		if w == nil {
			w = [][]int{}
		}
		hs = append(hs, w)
	}
	out["spans"] = hs
	out["created"] = said(describe(tor))

	// Write it as a torrent file and load it
	enc, e := bencode.Encode(bencode.Dict{"announce": tor.Announce(), "info": ti.Bencode()})
	if e != nil {
		out["loaded"] = M{"ok": false}
		return
	}
	tf := filepath.Join(dir, ".t.torrent")
	if e := os.WriteFile(tf, enc, 0666); e != nil {
		fatal(e)
	}
	tor2, e := torrent.FromTorrentFile(tf, wd)
	if e != nil {
		out["loaded"] = M{"ok": false}
		return
	}
	out["loaded"] = said(describe(tor2))

	// Over the same files, every piece must verify
	fio := fileio.NewFileIO(tor2.Info())
	defer fio.CloseAll()
	if e := fio.OCATAll(tor2.Info().Files()); e != nil {
		out["held"] = []int{-1}
		return
	}
	sw := &swarm.Swarm{Tor: tor2, Fileio: fio, Bf: bf.NewBitfield(tor2.Info().NumPieces())}
	if e := sw.Validate(); e != nil {
		out["held"] = []int{-1}
		return
	}
	held := []int64{}
	for i := int64(0); i < sw.Bf.Nbits(); i++ {
		if sw.Bf.Get(i) {
			held = append(held, i)
		}
	}
	out["held"] = held
	out["complete"] = sw.Bf.Complete()
}
