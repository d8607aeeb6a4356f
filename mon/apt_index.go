package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/cybozu-go/aptutil/apt"
)

func watchdogAfter(sec int) <-chan time.Time { return time.After(time.Duration(sec) * time.Second) }

func init() {
	register("A02", &checkDef{fn: checkA02, level: "exploration", minDistinct: 200,
		rule:  "random Release/InRelease/Index/Packages/Sources files rendered from a model in every supported compression, extracted and compared entry by entry; then malformed and damaged variants which must give an error. Non-trivial: at least one listed file",
		assum: []string{"each file is listed once per index with consistent sizes; listed hashes have the right length"}})
	register("A04", &checkDef{fn: checkA04, level: "exploration", minDistinct: 200,
		rule: "random FileInfo pairs (near-equal, missing, empty, boundary sizes) compared with a model of Same, JSON round trip, AddPrefix, by-hash names; arguments re-serialised before and after every call. Non-trivial: distinct pair"})
	register("A05", &checkDef{fn: checkA05, level: "exploration", minDistinct: 200,
		rule: "random streams copied through chunked, failing, EOF-with-data, WriterTo/ReaderFrom sources and destinations that fail or write short at random offsets. Non-trivial: distinct (content, source kind, destination kind, fault offset)"})
	register("A06", &checkDef{fn: checkA06, level: "exploration", minDistinct: 200,
		rule: "every base name x suffix chain x directory, decided against a reference classification and, for recognised names, against actual extraction of a valid file of that format. Non-trivial: distinct path"})
}

// fiView is a FileInfo as seen through its public API.
type fiView struct {
	Path string
	L    Listing
}

func viewOf(fi *apt.FileInfo) (fiView, error) {
	j, err := json.Marshal(fi)
	if err != nil {
		return fiView{}, err
	}
	var v struct {
		Path                       string
		Size                       int64
		MD5Sum, SHA1Sum, SHA256Sum string
	}
	if err := json.Unmarshal(j, &v); err != nil {
		return fiView{}, err
	}
	o := fiView{v.Path, Listing{uint64(v.Size), v.MD5Sum, v.SHA1Sum, v.SHA256Sum}}
	if fi.Path() != v.Path || fi.Size() != uint64(v.Size) {
		return o, fmt.Errorf("accessors and JSON disagree: %q %d vs %s", fi.Path(), fi.Size(), j)
	}
	for _, h := range []struct{ p, hx, d string }{{fi.MD5SumPath(), v.MD5Sum, "MD5Sum"}, {fi.SHA1Path(), v.SHA1Sum, "SHA1"}, {fi.SHA256Path(), v.SHA256Sum, "SHA256"}} {
		want := ""
		if h.hx != "" {
			want = path.Join(path.Dir(v.Path), "by-hash", h.d, h.hx)
		}
		if h.p != want {
			return o, fmt.Errorf("by-hash path %q, want %q (checksum %q)", h.p, want, h.hx)
		}
	}
	return o, nil
}

type genIndex struct {
	kind string
	path string // without extension
	data []byte
	want map[string]Listing
}

func randHex(rng *rand.Rand, n int) string {
	b := make([]byte, n)
	rng.Read(b)
	return fmt.Sprintf("%x", b)
}

func randListing(rng *rand.Rand, s Sums) Listing {
	l := Listing{Size: uint64(rng.Int63n(1 << uint(1+rng.Intn(40))))}
	if rng.Intn(10) == 0 {
		l.Size = 0
	}
	if rng.Intn(30) == 0 {
		l.Size = 1<<63 - 1
	}
	if s.MD5 {
		l.MD5 = randHex(rng, 16)
	}
	if s.SHA1 {
		l.SHA1 = randHex(rng, 20)
	}
	if s.SHA256 {
		l.SHA256 = randHex(rng, 32)
	}
	return l
}

func randName(rng *rand.Rand) string {
	n := fmt.Sprintf("f%d", rng.Intn(100000))
	switch rng.Intn(6) {
	case 0:
		n = strings.ReplaceAll(weirdNames[rng.Intn(len(weirdNames))], " ", "_") + n
	case 1:
		n = n + ".gz"
	case 2:
		n = "Packages" + []string{"", ".gz", ".xz", ".diff"}[rng.Intn(4)]
	}
	return n
}

func genAnyIndex(rng *rand.Rand) genIndex {
	g := genIndex{want: map[string]Listing{}}
	n := rng.Intn(12)
	if rng.Intn(20) == 0 {
		n = 300
	}
	var b bytes.Buffer
	noise := func() {
		if rng.Intn(3) == 0 {
			b.WriteString("X-Noise: " + randVal(rng, 60) + "\n")
		}
		if rng.Intn(6) == 0 {
			b.WriteString("Description: multi\n line: one\n .\n SHA256: " + randHex(rng, 32) + "\n")
		}
	}
	switch rng.Intn(5) {
	case 0, 1, 2: // Release, InRelease, Index
		g.kind = []string{"Release", "InRelease", "Index"}[rng.Intn(3)]
		dir := []string{"", "dists/s", "dists/a/updates", "dists/s/main/i18n", "flat"}[rng.Intn(5)]
		g.path = path.Join(dir, g.kind)
		type ent struct {
			rel string
			l   Listing
			s   Sums
		}
		var es []ent
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			rel := path.Join([]string{"", "main", "main/binary-amd64", "contrib/source", "a.b/c"}[rng.Intn(5)], randName(rng))
			if seen[rel] {
				continue
			}
			seen[rel] = true
			s := randSums(rng)
			es = append(es, ent{rel, randListing(rng, s), s})
		}
		if g.kind != "Index" && rng.Intn(3) == 0 { // of other directories
			for _, rel := range []string{"main/binary-amd64/Release", "main/InRelease"} {
				s := randSums(rng)
				es = append(es, ent{rel, randListing(rng, s), s})
			}
		}
		for _, e := range es {
			g.want[path.Join(dir, e.rel)] = e.l
		}
		if g.kind != "Index" && rng.Intn(2) == 0 { // itself: to be ignored
			for _, rel := range []string{"Release", "Release.gpg", "InRelease"} {
				if rng.Intn(2) == 0 {
					s := randSums(rng)
					es = append(es, ent{rel, randListing(rng, s), s})
				}
			}
		}
		b.WriteString("Origin: o\n")
		noise()
		b.WriteString("Suite: s\n")
		sec := func(name string, get func(l Listing) string) {
			var body bytes.Buffer
			for _, i := range rng.Perm(len(es)) {
				if v := get(es[i].l); v != "" {
					if rng.Intn(8) == 0 {
						v = strings.ToUpper(v)
					}
					pre := ""
					if rng.Intn(6) == 0 {
						pre = "./"
					}
					fmt.Fprintf(&body, "%s%s%s%d %s%s\n", []string{" ", "\t", "  "}[rng.Intn(3)], v, []string{" ", "\t", "          "}[rng.Intn(3)], es[i].l.Size, pre, es[i].rel)
				}
			}
			if body.Len() > 0 {
				b.WriteString(name + ":\n" + body.String())
			}
		}
		secs := []func(){
			func() { sec("MD5Sum", func(l Listing) string { return l.MD5 }) },
			func() { sec("SHA1", func(l Listing) string { return l.SHA1 }) },
			func() { sec("SHA256", func(l Listing) string { return l.SHA256 }) },
			func() { b.WriteString("Components: main\n") },
		}
		for _, i := range rng.Perm(len(secs)) {
			secs[i]()
		}
		d := b.Bytes()
		if rng.Intn(3) == 0 {
			d = append(d, '\n')
		}
		if g.kind == "InRelease" {
			d = clearsign(d)
		}
		g.data = d
	case 3:
		g.kind = "Packages"
		g.path = path.Join([]string{"dists/s/main/binary-amd64", "", "flat"}[rng.Intn(3)], "Packages")
		for i := 0; i < n; i++ {
			p := path.Join([]string{"pool/main/a", "x", "", "pool/a b"}[rng.Intn(4)], randName(rng)+".deb")
			if _, ok := g.want[p]; ok {
				continue
			}
			l := randListing(rng, randSums(rng))
			g.want[p] = l
			if rng.Intn(3) == 0 {
				p = "./" + p
			}
			b.WriteString("Package: x\n")
			noise()
			lines := []string{"Filename: " + p + "\n", fmt.Sprintf("Size: %d\n", l.Size)}
			if l.MD5 != "" {
				lines = append(lines, "MD5sum: "+l.MD5+"\n")
			}
			if l.SHA1 != "" {
				lines = append(lines, "SHA1: "+l.SHA1+"\n")
			}
			if l.SHA256 != "" {
				lines = append(lines, "SHA256: "+l.SHA256+"\n")
			}
			for _, k := range rng.Perm(len(lines)) {
				b.WriteString(lines[k])
			}
			b.WriteString("\n")
			if rng.Intn(10) == 0 {
				b.WriteString("\n")
			}
		}
		g.data = b.Bytes()
		if rng.Intn(3) == 0 {
			g.data = bytes.TrimRight(g.data, "\n")
		}
	default:
		g.kind = "Sources"
		g.path = path.Join([]string{"dists/s/main/source", "", "flat"}[rng.Intn(3)], "Sources")
		for i := 0; i < n; i++ {
			dir := path.Join([]string{"pool/main/s", "y"}[rng.Intn(2)], fmt.Sprintf("src%d", i))
			if rng.Intn(10) == 0 {
				dir = "." // a source package in the root
			}
			type ent struct {
				n string
				l Listing
			}
			var es []ent
			for k := 1 + rng.Intn(4); k > 0; k-- {
				nm := randName(rng)
				fp := path.Join(dir, nm)
				if _, ok := g.want[fp]; ok {
					continue
				}
				l := randListing(rng, randSums(rng))
				g.want[fp] = l
				es = append(es, ent{nm, l})
			}
			if len(es) == 0 {
				continue
			}
			b.WriteString("Package: s\n")
			noise()
			sec := func(name string, get func(l Listing) string) {
				var body bytes.Buffer
				for _, i := range rng.Perm(len(es)) {
					if v := get(es[i].l); v != "" {
						fmt.Fprintf(&body, " %s %d %s\n", v, es[i].l.Size, es[i].n)
					}
				}
				if body.Len() > 0 {
					b.WriteString(name + ":\n" + body.String())
				}
			}
			secs := []func(){
				func() { sec("Files", func(l Listing) string { return l.MD5 }) },
				func() { sec("Checksums-Sha1", func(l Listing) string { return l.SHA1 }) },
				func() { sec("Checksums-Sha256", func(l Listing) string { return l.SHA256 }) },
				func() { b.WriteString("Directory: " + dir + "\n") },
			}
			for _, i := range rng.Perm(len(secs)) {
				secs[i]()
			}
			b.WriteString("\n")
		}
		g.data = b.Bytes()
	}
	return g
}

func diffExtract(want map[string]Listing, fil []*apt.FileInfo) string {
	seen := map[string]bool{}
	for _, fi := range fil {
		v, err := viewOf(fi)
		if err != nil {
			return err.Error()
		}
		w, ok := want[v.Path]
		if !ok {
			return fmt.Sprintf("%q is not listed in the file", v.Path)
		}
		if seen[v.Path] {
			return fmt.Sprintf("%q is returned twice", v.Path)
		}
		seen[v.Path] = true
		if v.L != w {
			return fmt.Sprintf("%q: got %+v, listed %+v", v.Path, v.L, w)
		}
	}
	for p := range want {
		if !seen[p] {
			return fmt.Sprintf("%q is listed but not returned (%d of %d returned)", p, len(fil), len(want))
		}
	}
	return ""
}

func checkA02(c *Ctx) {
	a02Scale(c)
	n := c.N(1500, 60000)
	c.Parallel(n, 8, func(i int) {
		rng := c.Rng(fmt.Sprint("g", i))
		g := genAnyIndex(rng)
		exts := []string{"", ".gz"}
		if i%3 == 0 {
			exts = append(exts, ".xz")
		}
		if i%6 == 1 {
			exts = append(exts, ".bz2")
		}
		if rng.Intn(2) == 0 {
			exts = append(exts, ".gz+multi")
		}
		for _, e := range exts {
			ext := strings.TrimSuffix(e, "+multi")
			p := g.path + ext
			var cd []byte
			if e == ".gz+multi" && len(g.data) > 0 {
				k := rng.Intn(len(g.data))
				cd = append(append([]byte{}, compress(".gz", g.data[:k])...), compress(".gz", g.data[k:])...)
			} else {
				cd = compress(ext, g.data)
			}
			w := map[string]interface{}{"path": p, "kind": g.kind, "compression": e, "content": head(string(g.data), 3000)}
			var r io.Reader = bytes.NewReader(cd)
			if rng.Intn(2) == 0 {
				r = &chunkReader{b: cd, rng: rng, max: 1 + rng.Intn(3000), eof: rng.Intn(2) == 0}
			}
			empty := len(bytes.TrimSpace(g.data)) == 0
			fil, para, err := apt.ExtractFileInfo(p, r)
			if err != nil {
				c.Violate(w, "well-formed index refused: %v", err)
				return
			}
			if d := diffExtract(g.want, fil); d != "" {
				c.Violate(w, "extraction differs from the file: %s", d)
				return
			}
			if (g.kind == "Release" || g.kind == "InRelease" || g.kind == "Index") && !empty && len(para["Suite"]) != 1 {
				c.Violate(w, "paragraph data of the index is missing")
				return
			}
			key := ""
			if len(g.want) > 0 {
				key = g.kind + e + sha(g.data)[:16]
				c.Count("extracted_"+g.kind+e, 1)
				c.Count("entries_compared", len(g.want))
			}
			c.Eval(key)

			// damage: truncation and flips inside compressed data
			if ext != "" && len(cd) > 1 {
				for k := 0; k < 6; k++ {
					cut := rng.Intn(len(cd))
					if ext == ".xz" && k >= 4 { // before or inside the block header, and before the index
						cut = []int{13, xzIndexAt(cd)}[k-4]
					}
					if k == 0 {
						cut = len(cd) - 1 - rng.Intn(min(8, len(cd)-1))
					}
					if e == ".gz+multi" {
						// a cut at a member boundary is a valid shorter file
						zr := cut
						if d, err := gunzipAll(cd[:zr]); err == nil {
							_ = d
							continue
						}
					}
					fil, _, err := apt.ExtractFileInfo(p, bytes.NewReader(cd[:cut]))
					if err == nil && ext == ".xz" && xzBoundary(cd, cut) {
						c.ViolateKeyed("xz-ends-in-block-header", w, ".xz index cut before or inside a block header or just before the xz index (%d of %d bytes) gives %d of %d entries and no error", cut, len(cd), len(fil), len(g.want))
						continue
					}
					if err == nil {
						c.Violate(w, "index truncated to %d of %d bytes gives %d entries and no error (complete: %d)", cut, len(cd), len(fil), len(g.want))
						return
					}
					c.Count("damaged_truncated", 1)
				}
				for k := 0; k < 3; k++ {
					bad := append([]byte{}, cd...)
					pos := rng.Intn(len(bad))
					bad[pos] ^= byte(1 << uint(rng.Intn(8)))
					fil, _, err := apt.ExtractFileInfo(p, bytes.NewReader(bad))
					if err == nil {
						if d := diffExtract(g.want, fil); d != "" && ext == ".xz" && pos == 12 && 12+4*(int(bad[12])+1) > len(bad) {
							c.ViolateKeyed("xz-ends-in-block-header", w, ".xz index whose block header claims more than the rest of the file (byte 12 of %d damaged) gives %d of %d entries and no error", len(cd), len(fil), len(g.want))
						} else if d != "" {
							c.Violate(w, "index with byte %d of %d damaged gives a wrong list and no error: %s", pos, len(cd), d)
							return
						}
						c.Count("damaged_harmless", 1)
					} else {
						c.Count("damaged_refused", 1)
					}
				}
				// reader failure
				fil, _, err = apt.ExtractFileInfo(p, io.MultiReader(bytes.NewReader(cd[:rng.Intn(len(cd))]), errReader{readErrors[rng.Intn(len(readErrors))]}))
				if err == nil {
					c.Violate(w, "failing reader gave %d entries and no error", len(fil))
					return
				}
			}
			if ext == "" && len(g.data) > 0 {
				cut := rng.Intn(len(g.data))
				fil, _, err := apt.ExtractFileInfo(p, io.MultiReader(bytes.NewReader(g.data[:cut]), errReader{readErrors[rng.Intn(len(readErrors))]}))
				if err == nil && len(fil) != len(g.want) {
					c.Violate(w, "read error after %d bytes gave %d of %d entries and no error", cut, len(fil), len(g.want))
					return
				}
			}
		}
		if i < 3 {
			c.Sample(map[string]interface{}{"path": g.path, "entries": len(g.want), "content": head(string(g.data), 400)})
		}
		malformedIndex(c, rng, g)
	})
	// fixed malformed files
	h := strings.Repeat("ab", 16)
	bad := []struct{ p, d string }{
		{"Packages", "Package: a\nSize: 3\nMD5sum: " + h + "\n"},
		{"Packages", "Package: a\nFilename: x\nMD5sum: " + h + "\n"},
		{"Packages", "Package: a\nFilename: x\nSize: abc\n"},
		{"Packages", "Package: a\nFilename: x\nSize: -3\n"},
		{"Packages", "Package: a\nFilename: x\nSize: 3\nSHA256: zz\n"},
		{"Packages", "Filename: x\nSize: 3\n\nPackage: b\n"},
		{"Packages", "Filename: x\nSize: 3\nnonsense\n"},
		{"Packages", "Filename:\nSize: 3\n"},
		{"Packages", "Filename: x\nSize:\n"},
		{"Sources", "Package: a\nFiles:\n " + h + " 3 x\n"},
		{"Sources", "Directory: d\nFiles:\n " + h + " 3\n"},
		{"Sources", "Directory: d\nFiles:\n " + h + " q x\n"},
		{"Sources", "Directory: d\nChecksums-Sha256:\n xyz 3 x\n"},
		{"Sources", "Directory: d\nChecksums-Sha1:\n " + h + " 3 x y\n"},
		{"Release", "Suite: s\nMD5Sum:\n " + h + " 3\n"},
		{"Release", "Suite: s\nSHA1:\n zz 3 x\n"},
		{"Release", "Suite: s\nSHA256:\n " + h + " 3.5 x\n"},
		{"InRelease", "Suite: s\nSHA256:\n " + h + " -1 x\n"},
		{"Index", "SHA1:\n q\n"},
		{"Packages.gz", "Filename: x\nSize: 3\n"},
		{"Packages.bz2", "Filename: x\nSize: 3\n"},
		{"Packages.xz", "Filename: x\nSize: 3\n"},
		{"Sources.gz", ""},
		{"Sources.bz2", ""},
		{"Packages.xz", ""},
	}
	for _, b := range bad {
		b := b
		c.Guard(fmt.Sprintf("malformed %s %q", b.p, b.d), func() {
			fil, _, err := apt.ExtractFileInfo(b.p, strings.NewReader(b.d))
			if err == nil {
				c.Violate(b, "malformed %s accepted with %d entries: %q", b.p, len(fil), b.d)
			}
		})
		c.Eval("fixed" + b.p + b.d)
	}
}

// xzIndexAt returns where the index of a one-stream .xz file begins.
func xzIndexAt(cd []byte) int {
	return len(cd) - 12 - 4*(int(binary.LittleEndian.Uint32(cd[len(cd)-8:]))+1)
}

// xzBoundary tells if cut lies before or inside the only block's header or
// exactly where the index begins.
func xzBoundary(cd []byte, cut int) bool {
	return (cut >= 12 && cut < 12+4*(int(cd[12])+1)) || cut == xzIndexAt(cd)
}

type errReader struct{ err error }

func (e errReader) Read([]byte) (int, error) { return 0, e.err }

// readErrors are what readers of all kinds may fail with.
var readErrors = []error{errInjected, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, context.Canceled, context.DeadlineExceeded, os.ErrDeadlineExceeded, os.ErrClosed,
	&net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}, syscall.EIO, http.ErrBodyReadAfterClose}

// malformedIndex breaks one entry of a well-formed index.
func malformedIndex(c *Ctx, rng *rand.Rand, g genIndex) {
	lines := strings.Split(string(g.data), "\n")
	var cand []int
	inSec := false
	for i, l := range lines {
		switch g.kind {
		case "Packages":
			if strings.HasPrefix(l, "Filename:") || strings.HasPrefix(l, "Size:") || strings.HasPrefix(l, "SHA1:") || strings.HasPrefix(l, "MD5sum:") {
				cand = append(cand, i)
			}
		default:
			if l != "" && l[0] != ' ' && l[0] != '\t' {
				n := strings.SplitN(l, ":", 2)[0]
				inSec = n == "MD5Sum" || n == "SHA1" || n == "SHA256" || n == "Files" || n == "Checksums-Sha1" || n == "Checksums-Sha256"
			} else if inSec && l != "" {
				cand = append(cand, i)
			}
		}
	}
	if len(cand) == 0 {
		return
	}
	i := cand[rng.Intn(len(cand))]
	l := lines[i]
	what := ""
	if g.kind == "Packages" {
		switch {
		case strings.HasPrefix(l, "Filename:"):
			lines[i] = "Xfilename: gone"
			what = "Filename missing"
		case strings.HasPrefix(l, "Size:"):
			lines[i] = []string{"Size: 12x", "Xsize: 1", "Size: -1", "Size: 99999999999999999999999"}[rng.Intn(4)]
			what = "Size malformed"
		default:
			lines[i] = l + "g"
			what = "checksum not hexadecimal"
		}
	} else {
		f := strings.Fields(l)
		switch rng.Intn(4) {
		case 0:
			lines[i] = " " + f[0] + " " + f[1]
			what = "name missing"
		case 1:
			lines[i] = " " + f[0] + " x" + f[1] + " " + f[2]
			what = "size malformed"
		case 2:
			lines[i] = " " + f[0][:len(f[0])-1] + "q " + f[1] + " " + f[2]
			what = "checksum not hexadecimal"
		default:
			lines[i] = l + " extra"
			what = "too many columns"
		}
	}
	d := strings.Join(lines, "\n")
	fil, _, err := apt.ExtractFileInfo(g.path, strings.NewReader(d))
	if err == nil {
		c.Violate(map[string]interface{}{"path": g.path, "content": head(d, 3000), "line": lines[i]}, "malformed index (%s) accepted with %d entries", what, len(fil))
	}
	c.Count("malformed_refused", 1)
}

// ------------------------------------------------------------------ A04

func randSumHex(rng *rand.Rand, n int) string {
	if rng.Intn(3) == 0 {
		return ""
	}
	return randHex(rng, n)
}

func fiJSON(p string, l Listing) string {
	b, _ := json.Marshal(struct {
		Path                       string
		Size                       int64
		MD5Sum, SHA1Sum, SHA256Sum string
	}{p, int64(l.Size), l.MD5, l.SHA1, l.SHA256})
	return string(b)
}

func mkFI(p string, l Listing) *apt.FileInfo {
	fi := new(apt.FileInfo)
	must(json.Unmarshal([]byte(fiJSON(p, l)), fi))
	return fi
}

// mkFIx makes a FileInfo through index extraction, so absent checksums are
// really absent (no JSON involved). The path must be clean.
func mkFIx(p string, l Listing) *apt.FileInfo {
	var b bytes.Buffer
	fmt.Fprintf(&b, "Filename: %s\nSize: %d\n", p, l.Size)
	if l.MD5 != "" {
		fmt.Fprintf(&b, "MD5sum: %s\n", l.MD5)
	}
	if l.SHA1 != "" {
		fmt.Fprintf(&b, "SHA1: %s\n", l.SHA1)
	}
	if l.SHA256 != "" {
		fmt.Fprintf(&b, "SHA256: %s\n", l.SHA256)
	}
	fil, _, err := apt.ExtractFileInfo("Packages", &b)
	must(err)
	if len(fil) != 1 {
		giveUp("extraction of one entry gave %d", len(fil))
	}
	return fil[0]
}

func modelSame(ap string, a Listing, bp string, b Listing) bool {
	return ap == bp && a.Size == b.Size && (a.MD5 == "" || a.MD5 == b.MD5) && (a.SHA1 == "" || a.SHA1 == b.SHA1) && (a.SHA256 == "" || a.SHA256 == b.SHA256)
}

func checkA04(c *Ctx) {
	n := c.N(60000, 2000000)
	c.Parallel(n/100, 8, func(blk int) {
		rng := c.Rng(fmt.Sprint("b", blk))
		for k := 0; k < 100; k++ {
			p := path.Join([]string{"a", "a/b", "pool/main/x.y"}[rng.Intn(3)], randName(rng))
			sizes := []uint64{0, 1, 5, 1 << 31, 1<<32 + 7, 1<<53 + 1, 1<<63 - 1}
			la := Listing{Size: sizes[rng.Intn(len(sizes))], MD5: randSumHex(rng, 16), SHA1: randSumHex(rng, 20), SHA256: randSumHex(rng, 32)}
			lb := la
			bp := p
			if rng.Intn(2) == 0 { // full actual file
				full := Listing{la.Size, randHex(rng, 16), randHex(rng, 20), randHex(rng, 32)}
				if la.MD5 != "" {
					full.MD5 = la.MD5
				}
				if la.SHA1 != "" {
					full.SHA1 = la.SHA1
				}
				if la.SHA256 != "" {
					full.SHA256 = la.SHA256
				}
				lb = full
			}
			flip := func(s string, n int) string {
				switch {
				case s == "":
					return randHex(rng, n)
				case rng.Intn(3) == 0:
					return ""
				}
				b := mustHex(s)
				b[[]int{0, len(b) - 1, rng.Intn(len(b))}[rng.Intn(3)]] ^= 1 << uint(rng.Intn(8))
				return fmt.Sprintf("%x", b)
			}
			switch rng.Intn(8) {
			case 0:
				lb.MD5 = flip(lb.MD5, 16)
			case 1:
				lb.SHA1 = flip(lb.SHA1, 20)
			case 2:
				lb.SHA256 = flip(lb.SHA256, 32)
			case 3:
				lb.Size = lb.Size + 1
				if lb.Size > 1<<63-1 {
					lb.Size = 3
				}
			case 4:
				bp = p + "x"
			case 5:
				bp = path.Join("z", p)
			}
			var a, b *apt.FileInfo
			mk := rng.Intn(4)
			if mk&1 == 0 {
				a = mkFI(p, la)
			} else {
				a = mkFIx(p, la)
			}
			if mk&2 == 0 {
				b = mkFI(bp, lb)
			} else {
				b = mkFIx(bp, lb)
			}
			w := map[string]interface{}{"wanted": fiJSON(p, la), "actual": fiJSON(bp, lb), "made_by": []string{"json", "extract"}[mk&1] + "/" + []string{"json", "extract"}[mk>>1]}
			check := func(x *apt.FileInfo, xp string, xl Listing, when string) bool {
				v, err := viewOf(x)
				if err != nil {
					c.Violate(w, "%s: %v", when, err)
					return false
				}
				if v.Path != xp || v.L != xl {
					c.Violate(w, "%s: FileInfo reads %+v, want %q %+v", when, v, xp, xl)
					return false
				}
				if x.HasChecksum() != (xl.MD5 != "") && x.HasChecksum() != (xl.MD5 != "" || xl.SHA1 != "" || xl.SHA256 != "") {
					c.Violate(w, "%s: HasChecksum=%v for %+v", when, x.HasChecksum(), xl)
					return false
				}
				return true
			}
			if !check(a, p, la, "constructed") || !check(b, bp, lb, "constructed") {
				return
			}
			exp := modelSame(p, la, bp, lb)
			if got := a.Same(b); got != exp {
				c.Violate(w, "Same = %v, want %v", got, exp)
				return
			}
			if got := b.Same(a); got != modelSame(bp, lb, p, la) {
				c.Violate(w, "reverse Same = %v, want %v", got, !got)
				return
			}
			if !a.Same(a) {
				c.Violate(w, "Same is not reflexive")
				return
			}
			// JSON round trip, including through a map and into a used value
			m := map[string]*apt.FileInfo{"k": a}
			j, err := json.Marshal(m)
			must(err)
			m2 := map[string]*apt.FileInfo{}
			if err := json.Unmarshal(j, &m2); err != nil {
				c.Violate(w, "JSON of a FileInfo cannot be read back: %v", err)
				return
			}
			rt := m2["k"]
			if !check(rt, p, la, "JSON round trip") {
				return
			}
			if rt.Same(b) != exp || a.Same(rt) != true || rt.Same(a) != true {
				c.Violate(w, "after a JSON round trip Same(actual)=%v want %v; orig.Same(rt)=%v rt.Same(orig)=%v want true", rt.Same(b), exp, a.Same(rt), rt.Same(a))
				return
			}
			used := mkFI(bp, lb)
			if err := json.Unmarshal([]byte(fiJSON(p, la)), used); err != nil || !check(used, p, la, "JSON into a used value") {
				if err != nil {
					c.Violate(w, "unmarshal: %v", err)
				}
				return
			}
			// prefix
			pre := []string{"ubuntu", "x/y", "./u", "u/"}[rng.Intn(4)]
			ap := a.AddPrefix(pre)
			if !check(ap, path.Join(pre, p), la, "AddPrefix") || !check(a, p, la, "receiver of AddPrefix") {
				return
			}
			if !ap.Same(b.AddPrefix(pre)) == exp {
				c.Violate(w, "Same changes under a common prefix")
				return
			}
			if !check(a, p, la, "after all calls") || !check(b, bp, lb, "after all calls") {
				return
			}
			// CalcChecksums
			if rng.Intn(4) == 0 {
				data := blob(rng, p, rng.Intn(300))
				x := apt.MakeFileInfoNoChecksum(p, uint64(rng.Intn(500)))
				if x.HasChecksum() || x.MD5SumPath() != "" || x.SHA1Path() != "" || x.SHA256Path() != "" {
					c.Violate(w, "MakeFileInfoNoChecksum has checksums")
					return
				}
				cp := append([]byte{}, data...)
				x.CalcChecksums(data)
				if !bytes.Equal(cp, data) || !check(x, p, ListingOf(data, allSums), "CalcChecksums") {
					return
				}
				x2 := x.AddPrefix("q")
				x.CalcChecksums([]byte("other"))
				if !check(x2, path.Join("q", p), ListingOf(data, allSums), "copy made by AddPrefix after its origin changed") {
					return
				}
			}
			c.Eval(fiJSON(p, la) + fiJSON(bp, lb))
			if exp {
				c.Count("same_true", 1)
			} else {
				c.Count("same_false", 1)
			}
			if blk == 0 && k < 2 {
				c.Sample(w)
			}
		}
	})
	for _, s := range []string{`{"Path":"a","Size":1,"MD5Sum":"zz"}`, `{"Path":"a","Size":1,"SHA1Sum":"0"}`, `{"Path":"a","Size":1,"SHA256Sum":"qq"}`, `{"Path":1}`, `[]`, `{"Size":"x"}`} {
		fi := new(apt.FileInfo)
		if err := json.Unmarshal([]byte(s), fi); err == nil {
			c.Violate(s, "malformed serialised FileInfo accepted: %s", s)
		}
		c.Eval("bad" + s)
	}
}

// ------------------------------------------------------------------ A05

type faultWriter struct {
	buf   bytes.Buffer
	limit int // <0: none
	short bool
	per   int
}

var errWrite = errors.New("injected write error")

func (f *faultWriter) Write(p []byte) (int, error) {
	if f.limit >= 0 && f.buf.Len()+len(p) > f.limit {
		n := f.limit - f.buf.Len()
		f.buf.Write(p[:n])
		if f.short {
			return n, nil // violates io.Writer; must surface as ErrShortWrite
		}
		return n, errWrite
	}
	return f.buf.Write(p)
}

type faultRF struct{ faultWriter }

func (f *faultRF) ReadFrom(r io.Reader) (int64, error) {
	var n int64
	b := make([]byte, 97)
	for {
		k, err := r.Read(b)
		w, werr := f.Write(b[:k])
		n += int64(w)
		if werr != nil {
			return n, werr
		}
		if w < k {
			return n, io.ErrShortWrite
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

type wtReader struct {
	*chunkReader
	fail int
	err  error
}

// Read fails at the same place as WriteTo.
func (w *wtReader) Read(p []byte) (int, error) {
	if w.fail < 0 {
		return w.chunkReader.Read(p)
	}
	if w.fail == 0 {
		return 0, w.err
	}
	if len(p) > w.fail {
		p = p[:w.fail]
	}
	n, err := w.chunkReader.Read(p)
	w.fail -= n
	return n, err
}

func (w *wtReader) WriteTo(d io.Writer) (int64, error) {
	var n int64
	for len(w.b) > 0 {
		k := 1 + w.rng.Intn(w.max)
		if k > len(w.b) {
			k = len(w.b)
		}
		if w.fail >= 0 && int(n)+k > w.fail {
			k = w.fail - int(n)
			m, err := d.Write(w.b[:k])
			n += int64(m)
			if err != nil {
				return n, err
			}
			return n, w.err
		}
		m, err := d.Write(w.b[:k])
		n += int64(m)
		if err != nil {
			return n, err
		}
		if m < k {
			return n, io.ErrShortWrite
		}
		w.b = w.b[k:]
	}
	if w.fail >= 0 {
		return n, w.err
	}
	return n, nil
}

func checkA05(c *Ctx) {
	a05Scale(c)
	n := c.N(12000, 400000)
	c.Parallel(n, 8, func(i int) {
		rng := c.Rng(fmt.Sprint("s", i))
		size := rng.Intn(400)
		switch rng.Intn(10) {
		case 0:
			size = 0
		case 1:
			size = 32*1024 + rng.Intn(3) - 1
		case 2:
			size = rng.Intn(300000)
		}
		if i%400 == 399 {
			size = rng.Intn(6 << 20)
		}
		if i == 1 || i == 2 {
			size = 20<<20 + rng.Intn(1000)
		}
		rerr := readErrors[rng.Intn(len(readErrors))]
		data := make([]byte, size)
		rng.Read(data)
		p := "some/" + randName(rng)
		rfail, wfail := -1, -1
		fails := rng.Intn(4)
		if i == 2 {
			fails = 0
		}
		switch fails {
		case 0:
			rfail = rng.Intn(size + 1)
			if size > 1<<20 {
				rfail = size - rng.Intn(100000)
			}
		case 1:
			if size > 0 {
				wfail = rng.Intn(size)
			}
		}
		max := []int{1, 7, 500, 40000, 1 << 20}[rng.Intn(5)]
		if size > 50000 && max < 500 {
			max = 500
		}
		if size > 300000 && max < 40000 {
			max = 40000
		}
		var src io.Reader
		kind := rng.Intn(3)
		cut := data
		if rfail >= 0 {
			cut = data[:rfail]
		}
		switch kind {
		case 0:
			src = &chunkReader{b: cut, rng: rng, max: max, eof: rng.Intn(2) == 0 && rfail < 0}
			if rfail >= 0 {
				src = io.MultiReader(src, errReader{rerr})
			}
		case 1: // data together with the error
			if rfail >= 0 {
				src = &dataErrReader{b: cut, err: rerr}
			} else {
				src = &dataErrReader{b: cut, err: io.EOF}
			}
		case 2:
			src = &wtReader{&chunkReader{b: append([]byte{}, data...), rng: rng, max: max}, rfail, rerr}
		}
		var dst io.Writer
		var out *bytes.Buffer
		dk := rng.Intn(3)
		switch dk {
		case 0, 1:
			f := &faultWriter{limit: wfail, short: dk == 1}
			dst, out = f, &f.buf
		case 2:
			f := &faultRF{faultWriter{limit: wfail}}
			dst, out = f, &f.buf
		}
		w := map[string]interface{}{"size": size, "read_fail_at": rfail, "write_fail_at": wfail, "src": kind, "dst": dk, "chunk": max, "error": fmt.Sprint(rerr)}
		fi, err := apt.CopyWithFileInfo(dst, src, p)
		if rfail >= 0 || wfail >= 0 {
			if err == nil || fi != nil {
				c.Violate(w, "a failing copy returned info=%v err=%v", fi != nil, err)
				return
			}
			if !bytes.HasPrefix(data, out.Bytes()) {
				c.Violate(w, "a failing copy wrote bytes that are not in the source")
				return
			}
			c.Count("faults_injected", 1)
		} else {
			if err != nil || fi == nil {
				c.Violate(w, "copy failed: %v", err)
				return
			}
			if !bytes.Equal(out.Bytes(), data) {
				c.Violate(w, "destination differs from the source (%d vs %d bytes)", out.Len(), size)
				return
			}
			v, verr := viewOf(fi)
			if verr != nil || v.Path != p || v.L != ListingOf(data, allSums) {
				c.Violate(w, "file information %+v (%v) does not describe the bytes", v, verr)
				return
			}
		}
		c.Eval(fmt.Sprint(size, rfail, wfail, kind, dk, max))
		c.Max("largest_stream", size)
		if i < 3 {
			c.Sample(w)
		}
	})
}

type dataErrReader struct {
	b   []byte
	err error
}

func (d *dataErrReader) Read(p []byte) (int, error) {
	n := copy(p, d.b)
	d.b = d.b[n:]
	if len(d.b) == 0 {
		return n, d.err
	}
	return n, nil
}

// ------------------------------------------------------------------ A06

func checkA06(c *Ctx) {
	bases := []string{"Release", "Release.gpg", "InRelease", "Packages", "Sources", "Index",
		"release", "Package", "Packages2", "XRelease", "InReleases", "Contents-amd64", "Translation-en", "x.deb", "", ".", "Index.html", "Release.sig", "Sources.diff", "Packages.diff", "PackagesXgz", "RELEASE", "Release ", "MyPackages", "Packages~"}
	sfx := []string{"", ".gz", ".bz2", ".xz", ".lzma", ".lz", ".zst", ".gpg", ".Z", ".GZ", ".gz.gz", ".gz.xz", ".xz.gz", ".bz2.bz2", ".gzip", "gz", ".gz.", ".tar", ".lzma.gz", ".lz.xz", ".bz"}
	dirs := []string{"", "dists/trusty/", "/", "dists/trusty/main/binary-amd64/", "a.gz/", "Release/", "Packages.gz/x/", "../", "x.lzma/", "by-hash/SHA256/", "a.b.c/"}
	metaBase := map[string]bool{"Release": true, "Release.gpg": true, "InRelease": true, "Packages": true, "Sources": true, "Index": true}
	comp := map[string]bool{".gz": true, ".bz2": true, ".xz": true, ".lzma": true, ".lz": true}
	content := map[string][]byte{}
	rng := c.Rng("content")
	for _, b := range []string{"Release", "InRelease", "Index"} {
		content[b] = []byte("Suite: s\nMD5Sum:\n " + randHex(rng, 16) + " 10 main/x\n")
	}
	content["Packages"] = []byte("Package: a\nFilename: p\nSize: 10\nMD5sum: " + randHex(rng, 16) + "\n")
	content["Sources"] = []byte("Package: a\nDirectory: d\nFiles:\n " + randHex(rng, 16) + " 10 p\n")
	content["Release.gpg"] = []byte("-----BEGIN PGP SIGNATURE-----\nabc\n-----END PGP SIGNATURE-----\n")
	for _, d := range dirs {
		for _, b := range bases {
			for _, s := range sfx {
				p := d + b + s
				c.Guard(p, func() {
					base := path.Base(p)
					want := metaBase[base]
					root, ext := base, ""
					if !want {
						if e := path.Ext(base); comp[e] && metaBase[strings.TrimSuffix(base, e)] {
							want, root, ext = true, strings.TrimSuffix(base, e), e
						}
					}
					if got := apt.IsMeta(p); got != want {
						c.Violate(p, "IsMeta(%q) = %v, want %v", p, got, want)
						return
					}
					c.Eval(p)
					if !want {
						_, _, err := apt.ExtractFileInfo(p, bytes.NewReader(nil))
						if err == nil {
							c.Violate(p, "extraction accepts %q which is not an index", p)
						}
						return
					}
					plain := content[root]
					var ok, garbageOK bool
					switch ext {
					case ".lzma", ".lz":
						// no encoder here: any content must be refused, since the format is unsupported
						_, _, err := apt.ExtractFileInfo(p, bytes.NewReader(lzmaSample))
						ok = err == nil
					default:
						fil, _, err := apt.ExtractFileInfo(p, bytes.NewReader(compress(ext, plain)))
						ok = err == nil && (root == "Release.gpg" || len(fil) == 1)
						if ext != "" && root != "Release.gpg" {
							_, _, err = apt.ExtractFileInfo(p, bytes.NewReader(plain))
							garbageOK = err == nil
						}
					}
					if garbageOK {
						c.Violate(p, "%q: uncompressed content accepted as compressed", p)
					}
					if got := apt.IsSupported(p); got != ok {
						c.Violate(p, "IsSupported(%q) = %v but extraction of a valid file succeeds: %v", p, got, ok)
					}
					c.Count("recognised_indices", 1)
					if ok {
						c.Count("extracted", 1)
					}
				})
			}
		}
	}
	// random directories and names
	for i := 0; i < c.N(20000, 500000); i++ {
		d := ""
		for k := rng.Intn(4); k > 0; k-- {
			d += randName(rng) + "/"
		}
		b := []string{"Release", "Packages", "Sources", "Index", "InRelease"}[rng.Intn(5)]
		mut := b
		if rng.Intn(2) == 0 {
			k := rng.Intn(len(b))
			mut = b[:k] + string(byte('a'+rng.Intn(26))) + b[k+rng.Intn(2):]
		}
		e := []string{"", ".gz", ".xz", ".bz2", ".lz", ".lzma"}[rng.Intn(6)]
		want := metaBase[mut]
		if got := apt.IsMeta(d + mut + e); got != want {
			c.Violate(d+mut+e, "IsMeta(%q) = %v, want %v", d+mut+e, got, want)
			break
		}
		c.Eval(d + mut + e)
	}
	c.Sample([]string{dirs[1] + bases[0] + sfx[1], dirs[4] + bases[3]})
}

// a real .lzma header (alone format) with a few bytes
var lzmaSample = []byte{0x5d, 0x00, 0x00, 0x80, 0x00, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x00, 0x29, 0x19, 0x48, 0x87}

func sortedStrings(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
