package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() {
	register("G02", &checkDef{fn: checkG02, level: "exploration", minDistinct: 16,
		rule:  "files (and indices with few entries) much larger than the memory the programs need are downloaded, verified, rejected, cut short, served, re-verified after a restart, mirrored, reused: the peak resident size of the process, read from the kernel, must stay below a fixed bound that a buffered file would exceed several times. Then thousands of requests of every kind and outcome in rounds: open files, goroutines (dump of the process at the end), live heap (GC trace) and temporary files after the last round must be as after the first ones; a mirror run over many files under a low limit of open files must succeed. Non-trivial: distinct (program, kind of file, way of handling) and (kind of request)",
		assum: []string{"memory grows with the number of listed files by design; only its independence of file sizes and of the number of requests is checked"}})
}

// peakRSS reads the peak resident size in MiB of a child process.
func peakRSS(pid int) int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/status", pid))
	if err != nil {
		return -1
	}
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) >= 2 && f[0] == "VmHWM:" {
			n, _ := strconv.Atoi(f[1])
			return n / 1024
		}
	}
	return -1
}

// openFiles counts the descriptors of a child process.
func openFiles(pid int) int {
	l, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", pid))
	if err != nil {
		return -1
	}
	return len(l)
}

const (
	g02Big   = 256 << 20
	g02Bound = 110 // MiB
)

var (
	g02Once sync.Once
	g02Data []byte
)

// g02Body is a large body; files of different kinds are parts of it.
func g02Body(n int) []byte {
	g02Once.Do(func() {
		g02Data = make([]byte, g02Big+1024)
		rng := rand.New(rand.NewSource(11))
		rng.Read(g02Data[:1<<20])
		for i := 1 << 20; i < len(g02Data); i *= 2 {
			copy(g02Data[i:], g02Data[:i])
		}
		for i := 0; i < len(g02Data); i += 1 << 16 {
			rng.Read(g02Data[i : i+8])
		}
	})
	return g02Data[:n]
}

// fetchSum performs a request and hashes the body without keeping it.
func (p *CacherProc) fetchSum(method, path string, hdr map[string]string) (status int, n int64, sum string, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	req, err := http.NewRequestWithContext(ctx, method, "http://"+p.Addr+escapePath(path), nil)
	must(err)
	for k, v := range hdr {
		req.Header.Set(k, v)
	}
	resp, err := p.Client.Do(req)
	if err != nil {
		return 0, 0, "", err
	}
	defer resp.Body.Close()
	h := sha256.New()
	n, err = io.Copy(h, resp.Body)
	return resp.StatusCode, n, hex.EncodeToString(h.Sum(nil)), err
}

// bigIndex returns a Packages file of many megabytes with few entries.
func bigIndex(path string, l Listing) []byte {
	var b bytes.Buffer
	for i := 0; i < 500; i++ {
		fmt.Fprintf(&b, "Package: p%d\nVersion: 1\nArchitecture: amd64\n", i)
		if i == 250 {
			fmt.Fprintf(&b, "Filename: %s\nSize: %d\nSHA256: %s\n", path, l.Size, l.SHA256)
		} else {
			fmt.Fprintf(&b, "Filename: pool/p%d_1_amd64.deb\nSize: %d\nSHA256: %s\n", i, len(fmt.Sprint(i)), hexSHA256([]byte(fmt.Sprint(i))))
		}
		b.WriteString("Description: long\n")
		line := " " + strings.Repeat("lorem ipsum ", 80) + "\n"
		for n := 0; n < 400; n++ {
			b.WriteString(line)
		}
		b.WriteString("\n")
	}
	return b.Bytes()
}

func checkG02(c *Ctx) {
	g02Body(1)
	var jobs []func()
	for v := 0; v < 6; v++ {
		v := v
		jobs = append(jobs, func() { g02CacherBig(c, v) })
	}
	for v := 0; v < 3; v++ {
		v := v
		jobs = append(jobs, func() { g02MirrorBig(c, v) })
	}
	for i, n := 0, c.N(3, 8); i < n; i++ {
		i := i
		jobs = append(jobs, func() { g02Rounds(c, i) })
	}
	c.Parallel(len(jobs), 4, func(i int) { jobs[i]() })
	for v := 0; v < 2 && !c.Failed(); v++ {
		g02MirrorFiles(c, v)
	}
}

func (c *Ctx) g02Peak(what string, pid int) {
	m := peakRSS(pid)
	if m < 0 {
		return
	}
	c.Max("peak_rss_MiB", m)
	if m > g02Bound {
		c.Violate(map[string]interface{}{"peak_rss_MiB": m, "bound_MiB": g02Bound, "file_MiB": g02Big >> 20}, "%s: memory grows with the size of the file: peak %d MiB", what, m)
	}
}

// g02CacherBig has a large file downloaded and served in several ways.
func g02CacherBig(c *Ctx, v int) {
	o := NewOrigin()
	defer o.Close()
	data := g02Body(g02Big - v*4096)
	want := hexSHA256(data)
	l := ListingOf(data, Sums{SHA256: true})
	idx := bytes.Buffer{}
	fmt.Fprintf(&idx, "Package: big\nVersion: 1\nArchitecture: amd64\nFilename: pool/big.deb\nSize: %d\nSHA256: %s\n\n", l.Size, l.SHA256)
	tree := map[string][]byte{"pool/big.deb": data, "dists/s/main/binary-amd64/Packages": idx.Bytes(), "pool/other.deb": g02Body(g02Big/2 + v)}
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.Plain, cc.MaxConns, cc.CachePeriod = true, 4, 1
	get := func(p *CacherProc, what, path string, hdr map[string]string, status int, n int64, sum string) bool {
		s, m, d, err := p.fetchSum("GET", path, hdr)
		if !p.Alive() {
			c.Violate(nil, "%s: go-apt-cacher ended: %s", what, tail(p.stderr.String(), 400))
			return false
		}
		if err != nil || s != status || sum != "" && (m != n || d != sum) {
			c.Violate(map[string]interface{}{"status": s, "bytes": m, "error": fmt.Sprint(err)}, "%s: a large file is not served correctly", what)
			return false
		}
		c.g02Peak(what, p.cmd.Process.Pid)
		c.Count("bytes_served_MiB", int(m>>20))
		return true
	}
	o.SetTree(tree)
	p := c.StartCacher(cc)
	defer func() { p.Kill() }()
	switch v {
	case 0: // not listed anywhere
		if !get(p, "download of an unlisted file", "/u/pool/big.deb", nil, 200, int64(len(data)), want) ||
			!get(p, "unlisted file from the cache", "/u/pool/big.deb", nil, 200, int64(len(data)), want) {
			return
		}
		r := data[1000 : len(data)-1000]
		if !get(p, "range of a large file", "/u/pool/big.deb", map[string]string{"Range": fmt.Sprintf("bytes=1000-%d", len(data)-1001)}, 206, int64(len(r)), hexSHA256(r)) {
			return
		}
		s, _, _, err := p.fetchSum("HEAD", "/u/pool/other.deb", nil)
		if err != nil || s != 200 {
			c.Violate(nil, "HEAD of a large file fails: %d %v", s, err)
		}
		c.g02Peak("HEAD of a large file", p.cmd.Process.Pid)
		c.Eval("cacher unlisted")
		c.Eval("cacher range")
		c.Eval("cacher head")
	case 1: // listed, then a restart
		if !get(p, "index", "/u/dists/s/main/binary-amd64/Packages", nil, 200, int64(idx.Len()), hexSHA256(idx.Bytes())) ||
			!get(p, "download of a listed file", "/u/pool/big.deb", nil, 200, int64(len(data)), want) ||
			!get(p, "listed file from the cache", "/u/pool/big.deb", nil, 200, int64(len(data)), want) {
			return
		}
		c.Eval("cacher listed")
		for i := 0; i < 2; i++ {
			if i == 0 {
				p.Kill()
			} else if !p.Term(60 * time.Second) {
				p.Kill()
			}
			n := o.Hits("/pool/big.deb")
			p = c.StartCacher(cc)
			c.g02Peak("start with a large file in the cache", p.cmd.Process.Pid)
			if !get(p, "large file after a restart", "/u/pool/big.deb", nil, 200, int64(len(data)), want) {
				return
			}
			if o.Hits("/pool/big.deb") != n {
				c.Violate(nil, "a large cached file is fetched again after a restart")
			}
			c.Eval("cacher restart")
		}
	case 2: // does not match its listing, or is cut short
		tree["pool/big.deb"] = append(append([]byte{}, data[:len(data)-1]...), data[len(data)-1]^1)
		if !get(p, "index", "/u/dists/s/main/binary-amd64/Packages", nil, 200, int64(idx.Len()), "") {
			return
		}
		if !get(p, "rejected large file", "/u/pool/big.deb", nil, 500, 0, "") {
			return
		}
		c.Eval("cacher rejected")
		o.Handle(func(path string, n int, r *http.Request) *Resp {
			if path == "/pool/other.deb" {
				return &Resp{Body: tree["pool/other.deb"], Trunc: true, TruncAt: len(tree["pool/other.deb"]) - 5}
			}
			return nil
		})
		if !get(p, "truncated large file", "/u/pool/other.deb", nil, 500, 0, "") {
			return
		}
		c.Eval("cacher truncated")
		if s := leftovers(cc.Dir); s != "" {
			c.Violate(nil, "left after failed downloads of large files: %s", s)
		}
	case 3: // several at once, to several clients
		var wg sync.WaitGroup
		for i := 0; i < 6; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				f := []string{"pool/big.deb", "pool/other.deb"}[i%2]
				get(p, "concurrent large files", "/u/"+f, nil, 200, int64(len(tree[f])), hexSHA256(tree[f]))
			}()
		}
		wg.Wait()
		c.Eval("cacher concurrent")
	case 4, 5: // large indices with few entries
		small := []byte("small content")
		ix := bigIndex("pool/small.deb", ListingOf(small, Sums{SHA256: true}))
		ext := []string{"", ".gz"}[v-4]
		body := compress(ext, ix)
		f := "dists/s/main/binary-amd64/Packages" + ext
		o.SetTree(map[string][]byte{f: body, "pool/small.deb": small})
		c.Count("index_MiB", len(ix)>>20)
		if !get(p, "large index", "/u/"+f, nil, 200, int64(len(body)), hexSHA256(body)) ||
			!get(p, "file of a large index", "/u/pool/small.deb", nil, 200, int64(len(small)), hexSHA256(small)) {
			return
		}
		p.Kill()
		p = c.StartCacher(cc)
		if !get(p, "large index after a restart", "/u/"+f, nil, 200, int64(len(body)), hexSHA256(body)) {
			return
		}
		c.Eval("cacher index" + ext)
	}
	if s := leftovers(cc.Dir); s != "" {
		c.Violate(nil, "left behind when all requests are answered: %s", s)
	}
}

// leftovers waits for the files other than cached ones to vanish.
func leftovers(dir string) string {
	var s string
	waitFor(15*time.Second, func() bool {
		s = ""
		for _, d := range []string{"meta", "cache"} {
			filepath.Walk(filepath.Join(dir, d), func(p string, fi os.FileInfo, err error) error {
				if err == nil && fi.Mode().IsRegular() && !strings.HasSuffix(p, ".cache") {
					s = filepath.Join(d, fi.Name())
				}
				return nil
			})
		}
		return s == ""
	})
	return s
}

// watch samples the peak resident size and the open files of a run until it
// ends.
func (p *MirrorProc) watch() (peak, fds int) {
	for {
		if m := peakRSS(p.cmd.Process.Pid); m > peak {
			peak = m
		}
		if n := openFiles(p.cmd.Process.Pid); n > fds {
			fds = n
		}
		select {
		case <-p.exited:
			return
		case <-time.After(5 * time.Millisecond):
		}
	}
}

// g02MirrorBig mirrors a large file or a large index.
func g02MirrorBig(c *Ctx, v int) {
	o := NewOrigin()
	defer o.Close()
	dir := c.Dir("mirror")
	mc := MirrorConf{Dir: dir, MaxConns: 4, Plain: true, Mirrors: map[string]MirrDef{"m": {URL: o.URL, Suites: []string{"s"}, Sections: []string{"main"}, Archs: []string{"amd64"}}}}
	publish := func(data []byte, ext string, ix []byte, bad bool) {
		pk := compress(ext, ix)
		f := "dists/s/main/binary-amd64/Packages" + ext
		rel := fmt.Sprintf("Suite: s\nSHA256:\n %s %d main/binary-amd64/Packages%s\n", hexSHA256(pk), len(pk), ext)
		body := data
		if bad {
			body = append(append([]byte{}, data[:len(data)-1]...), data[len(data)-1]^1)
		}
		o.SetTree(map[string][]byte{"dists/s/Release": []byte(rel), f: pk, "pool/big.deb": body})
	}
	one := func(data []byte) []byte {
		return []byte(fmt.Sprintf("Package: big\nVersion: 1\nArchitecture: amd64\nFilename: pool/big.deb\nSize: %d\nSHA256: %s\n\n", len(data), hexSHA256(data)))
	}
	run := func(what string, wantCode bool) {
		p := c.StartMirror(mc)
		peak, _ := p.watch()
		r := p.Result(o)
		c.Max("mirror_peak_rss_MiB", peak)
		if (r.Code == 0) != wantCode || r.Stuck != "" {
			c.Violate(r.String(), "%s: unexpected outcome", what)
			return
		}
		if peak > g02Bound {
			c.Violate(map[string]interface{}{"peak_rss_MiB": peak, "bound_MiB": g02Bound}, "%s: memory grows with the size of the file: peak %d MiB", what, peak)
		}
		c.Eval("mirror " + what)
		nextSecond()
	}
	switch v {
	case 0:
		d := g02Body(g02Big)
		publish(d, ".gz", one(d), false)
		run("large file", true)
		run("large file reused", true)
	case 1:
		d := g02Body(g02Big - 77)
		publish(d, "", one(d), true)
		run("large file rejected", false)
		o.Handle(func(path string, n int, r *http.Request) *Resp {
			if path == "/pool/big.deb" && n == 1 {
				return &Resp{Body: d, Trunc: true, TruncAt: len(d) - 3}
			}
			return nil
		})
		publish(d, "", one(d), false)
		run("large file retried", true)
	case 2:
		small := g02Body(1000)
		ix := bigIndex("pool/big.deb", ListingOf(small, Sums{SHA256: true}))
		publish(small, ".gz", ix, false)
		t := o.Tree()
		for i := 0; i < 500; i++ {
			t[fmt.Sprintf("pool/p%d_1_amd64.deb", i)] = []byte(fmt.Sprint(i))
		}
		o.SetTree(t)
		run("large index", true)
		run("large index reused", true)
	}
}

// g02MirrorFiles mirrors many files with few descriptors, from an upstream
// that is faster than the disk.
func g02MirrorFiles(c *Ctx, v int) {
	n, conns := c.N(6000, 20000), 10+20*v
	// a connection and a temporary file for each transfer, and some
	limit := 3*conns + 30
	var mu sync.RWMutex
	tree := map[string][]byte{}
	cut := map[string]bool{}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	srv := &http.Server{ErrorLog: log.New(io.Discard, "", 0), Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		d, ok := tree[r.URL.Path[1:]]
		bad := cut[r.URL.Path[1:]]
		delete(cut, r.URL.Path[1:])
		mu.Unlock()
		switch {
		case !ok:
			http.NotFound(w, r)
		case bad:
			w.Header().Set("Content-Length", fmt.Sprint(len(d)))
			w.Write(d[:len(d)-1])
			panic(http.ErrAbortHandler)
		default:
			w.Write(d)
		}
	})}
	go srv.Serve(ln)
	defer srv.Close()
	mc := MirrorConf{Dir: c.Dir("mirror"), MaxConns: conns, Plain: true, Files: limit, Mirrors: map[string]MirrDef{"m": {URL: "http://" + ln.Addr().String(), Suites: []string{"s"}, Sections: []string{"main"}, Archs: []string{"amd64"}}}}
	for gen := 0; gen < 2; gen++ {
		mu.Lock()
		var ix bytes.Buffer
		for i := 0; i < n; i++ {
			d := []byte(fmt.Sprintf("content %d %d", i, gen*(i%2)))
			f := fmt.Sprintf("pool/f%d.deb", i)
			tree[f] = d
			if gen == 1 && i%500 == 1 {
				cut[f] = true
			}
			fmt.Fprintf(&ix, "Package: f%d\nVersion: 1\nArchitecture: amd64\nFilename: %s\nSize: %d\nMD5sum: %s\n\n", i, f, len(d), hexMD5(d))
		}
		tree["dists/s/main/binary-amd64/Packages"] = ix.Bytes()
		tree["dists/s/Release"] = []byte(fmt.Sprintf("Suite: s\nMD5Sum:\n %s %d main/binary-amd64/Packages\n", hexMD5(ix.Bytes()), ix.Len()))
		mu.Unlock()
		p := c.StartMirror(mc)
		_, fds := p.watch()
		r := p.Result()
		c.Max("mirror_open_files", fds)
		if r.Code != 0 {
			c.Violate(r.String(), "a mirror of %d files needs more than %d open files with max_conns %d (seen: %d)", n, limit, conns, fds)
			return
		}
		c.Eval(fmt.Sprintf("mirror many files %d", gen))
		nextSecond()
	}
}

var (
	gcLine  = regexp.MustCompile(`(?m)^gc \d+ @.* (\d+)->(\d+)->(\d+) MB`)
	gorLine = regexp.MustCompile(`(?m)^goroutine \d+ .*\[([^\],]*)`)
)

// g02Rounds performs rounds of all kinds of requests and compares what the
// process holds after the first rounds with what it holds in the end.
func g02Rounds(c *Ctx, i int) {
	rng := c.Rng(fmt.Sprintf("rounds%d", i))
	o := NewOrigin()
	defer o.Close()
	rounds, per := c.N(5, 20), 1500
	tree := map[string][]byte{}
	deb := blob(rng, "deb", 3000)
	bad := blob(rng, "bad", 3000)
	ix0 := []byte(fmt.Sprintf("Package: a\nVersion: 1\nArchitecture: all\nFilename: pool/a.deb\nSize: %d\nSHA256: %s\n\nPackage: b\nVersion: 1\nArchitecture: all\nFilename: pool/b.deb\nSize: %d\nSHA256: %s\n\n",
		len(deb), hexSHA256(deb), len(bad), flipHex(hexSHA256(bad))))
	tree["pool/a.deb"], tree["pool/b.deb"] = deb, bad
	// publish replaces the contents of the files pool/vN.deb.
	const updated = 60
	publish := func(ver int) {
		t := map[string][]byte{}
		for p, d := range tree {
			t[p] = d
		}
		ix := append([]byte(nil), ix0...)
		for n := 0; n < updated; n++ {
			d := blob(rng, fmt.Sprintf("v%d.%d", ver, n), 300+n)
			t[fmt.Sprintf("pool/v%d.deb", n)] = d
			ix = append(ix, fmt.Sprintf("Package: v%d\nVersion: %d\nArchitecture: all\nFilename: pool/v%d.deb\nSize: %d\nSHA256: %s\n\n", n, ver, n, len(d), hexSHA256(d))...)
		}
		t["dists/s/main/binary-amd64/Packages"] = ix
		t["dists/s/Release"] = []byte(fmt.Sprintf("Suite: s\nSHA256:\n %s %d main/binary-amd64/Packages\n", hexSHA256(ix), len(ix)))
		t["dists/s/Release.gpg"] = []byte(fmt.Sprint("sig", ver))
		o.SetTree(t)
	}
	publish(0)
	o.Handle(func(path string, n int, r *http.Request) *Resp {
		b := []byte("some body")
		switch {
		case strings.HasPrefix(path, "/e404/"):
			return &Resp{Status: 404, Body: b}
		case strings.HasPrefix(path, "/e500/"):
			return &Resp{Status: 500, Body: b}
		case strings.HasPrefix(path, "/e302/"):
			return &Resp{Status: 304}
		case strings.HasPrefix(path, "/cut/"):
			return &Resp{Body: b, Trunc: true, TruncAt: 3}
		case strings.HasPrefix(path, "/reset/"):
			return &Resp{Reset: true}
		case strings.HasPrefix(path, "/dir/"):
			return &Resp{Body: b}
		}
		return nil
	})
	cc := c.DefaultConf(map[string]string{"u": o.URL, "w": o.URL + "/dists"})
	cc.Plain, cc.MaxConns, cc.CachePeriod, cc.CheckInterval = true, 8, 1, 1+i%2
	cc.LogMax = 256 << 20
	cc.Env = []string{"GODEBUG=gctrace=1", "GOGC=30", "GOTRACEBACK=all"}
	p := c.StartCacher(cc)
	defer p.Kill()
	p.Get("/u/dists/s/Release", o)
	p.Get("/u/dists/s/main/binary-amd64/Packages", o)
	kinds := []string{"hit", "head", "range", "index", "prefix", "method", "404", "500", "304", "cut", "reset", "invalid", "abort", "badname", "conditional"}
	rng.Shuffle(len(kinds), func(a, b int) { kinds[a], kinds[b] = kinds[b], kinds[a] })
	var seq int64
	var mu sync.Mutex
	fresh := func(d string) string {
		mu.Lock()
		seq++
		n := seq
		mu.Unlock()
		return fmt.Sprintf("/u/%s/n%d.deb", d, n)
	}
	do := func(kind string) {
		switch kind {
		case "hit":
			p.fetchSum("GET", "/u/pool/a.deb", nil)
		case "head":
			p.fetchSum("HEAD", "/u/pool/a.deb", nil)
		case "range":
			p.fetchSum("GET", "/u/pool/a.deb", map[string]string{"Range": "bytes=5-60"})
		case "conditional":
			p.fetchSum("GET", "/u/pool/a.deb", map[string]string{"If-None-Match": `"x"`, "If-Modified-Since": "Mon, 02 Jan 2090 15:04:05 GMT"})
		default:
			p.fetchSum("GET", "/u/pool/"+kind+".deb", nil)
		case "index":
			p.fetchSum("GET", "/u/dists/s/main/binary-amd64/Packages", nil)
		case "prefix":
			p.fetchSum("GET", fresh("none")[2:], nil)
		case "method":
			p.fetchSum("DELETE", "/u/pool/a.deb", nil)
		case "404", "500", "304":
			p.fetchSum("GET", fresh("e"+strings.Replace(kind, "304", "302", 1)), nil)
		case "cut":
			p.fetchSum("GET", fresh("cut"), nil)
		case "reset":
			p.fetchSum("GET", fresh("reset"), nil)
		case "invalid":
			p.fetchSum("GET", "/u/pool/b.deb", nil)
		case "badname":
			p.fetchSum("GET", "/u/dir/"+strings.Repeat("n", 255)+fmt.Sprint(seq), nil)
		case "abort":
			conn, err := net.DialTimeout("tcp", p.Addr, 5*time.Second)
			if err == nil {
				fmt.Fprintf(conn, "GET /u/pool/a.deb HTTP/1.1\r\nHost: x\r\n\r\n")
				bufio.NewReader(conn).ReadByte()
				if tc, ok := conn.(*net.TCPConn); ok {
					tc.SetLinger(0)
				}
				conn.Close()
			}
		}
	}
	pid := p.cmd.Process.Pid
	settle := func() {
		p.Client.CloseIdleConnections()
		time.Sleep(2200 * time.Millisecond) // cache_period and a re-check
		p.Client.CloseIdleConnections()
	}
	fds := func() int {
		// the least number seen within a while: re-checks come and go
		best := 1 << 30
		waitFor(3*time.Second, func() bool {
			if n := openFiles(pid); n < best {
				best = n
			}
			return false
		})
		return best
	}
	var fd []int
	var heap []int
	for r := 0; r < rounds && p.Alive(); r++ {
		mark := len(p.stderr.String())
		// the files are downloaded again as their contents change
		h0 := o.Hits("/pool/v7.deb")
		for ver := 1; ver <= 2; ver++ {
			publish(r*2 + ver)
			waitFor(10*time.Second, func() bool {
				r := p.Get("/u/dists/s/Release", o)
				time.Sleep(50 * time.Millisecond)
				return string(r.Body) == string(o.Tree()["dists/s/Release"])
			})
			do("index")
			for n := 0; n < updated; n++ {
				do(fmt.Sprintf("v%d", n))
			}
		}
		c.Count("downloads_of_changed_files", updated*(o.Hits("/pool/v7.deb")-h0))
		c2 := make(chan string)
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := range c2 {
					do(k)
				}
			}()
		}
		for n := 0; n < per; n++ {
			c2 <- kinds[n%len(kinds)]
		}
		close(c2)
		wg.Wait()
		settle()
		// garbage for the collector to run on
		for n := 0; n < 300; n++ {
			do("hit")
		}
		p.Client.CloseIdleConnections()
		fd = append(fd, fds())
		live := -1
		for _, m := range gcLine.FindAllStringSubmatch(p.stderr.String()[mark:], -1) {
			if n, _ := strconv.Atoi(m[3]); live < 0 || n < live {
				live = n
			}
		}
		heap = append(heap, live)
		c.Count("requests", per+300)
	}
	if !p.Alive() {
		c.Violate(tail(p.stderr.String(), 500), "go-apt-cacher ended during rounds of requests")
		return
	}
	c.Sample(map[string]interface{}{"open_files": fd, "live_heap_MB": heap})
	last := len(fd) - 1
	if fd[last] > fd[0]+12 && fd[last] > fd[1]+8 {
		c.Violate(fd, "open files grow with the number of requests: %v after each round of %d", fd, per)
	}
	if heap[last] > heap[1]+6 {
		c.Violate(heap, "live heap grows with the number of requests: %v MB after each round of %d", heap, per)
	}
	if s := leftovers(cc.Dir); s != "" {
		c.Violate(nil, "left behind when all requests are answered: %s", s)
	}
	mark := len(p.stderr.String())
	p.cmd.Process.Signal(syscall.SIGQUIT)
	if !waitFor(60*time.Second, func() bool { return !p.Alive() }) {
		c.Inconclusive("no goroutine dump")
		return
	}
	states := map[string]int{}
	total := 0
	for _, m := range gorLine.FindAllStringSubmatch(p.stderr.String()[mark:], -1) {
		states[m[1]]++
		total++
	}
	c.Max("goroutines_at_the_end", total)
	c.Sample(map[string]interface{}{"goroutines": states})
	if total == 0 {
		c.Inconclusive("empty goroutine dump")
	}
	if total > 120 {
		c.Violate(map[string]interface{}{"goroutines": states, "dump": head(p.stderr.String()[mark:], 3000)}, "goroutines grow with the number of requests: %d after %d requests", total, rounds*(per+300))
	}
	for _, k := range kinds {
		c.Eval("round " + k)
	}
}
