package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/cybozu-go/aptutil/apt"
)

// The workloads of this file are about size: nothing about the guarantees
// depends on how large, how long or how many something is.

// bigBlob is like blob, but cheap for large sizes.
func bigBlob(rng *rand.Rand, name string, size int) []byte {
	unit := blob(rng, name, min(size, 1<<16+17))
	b := make([]byte, size)
	for n := 0; n < size; {
		n += copy(b[n:], unit)
	}
	return b
}

// longName makes a file name of n bytes.
func longName(rng *rand.Rand, n int, suffix string) string {
	b := make([]byte, n-len(suffix))
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789-+.~"[rng.Intn(40)]
	}
	b[0] = 'l'
	return string(b) + suffix
}

// deepDir makes a directory path of the given depth.
func deepDir(rng *rand.Rand, depth, width int) string {
	l := make([]string, depth)
	for i := range l {
		l[i] = longName(rng, width, "")
	}
	return strings.Join(l, "/")
}

// c01Large: the checks hold for large files, too.
func c01Large(c *Ctx) {
	rng := c.Rng("large")
	o := NewOrigin()
	defer o.Close()
	p := c.StartCacher(c.DefaultConf(map[string]string{"u": o.URL}))
	defer p.Kill()
	tree := map[string][]byte{}
	var pkgs []PkgFile
	type job struct {
		path string
		what string
		good bool
	}
	var jobs []job
	sizes := []int{1 << 20, 5<<20 + 1, 12 << 20, 40<<20 + 3}
	if c.Thorough() {
		sizes = append(sizes, 150<<20, 400<<20)
	}
	for i, size := range sizes {
		good := bigBlob(rng, fmt.Sprint("large", i), size)
		for k, what := range []string{"right", "one wrong byte", "one byte short", "one byte more"} {
			if k > 1 && i != 2 {
				continue
			}
			pp := fmt.Sprintf("pool/large%d-%d.deb", i, k)
			l := ListingOf(good, Sums{MD5: (i+k)%3 == 0, SHA1: (i+k)%3 == 1, SHA256: (i+k)%3 == 2})
			d := good
			switch k {
			case 1:
				d = append([]byte{}, good...)
				d[[]int{len(d) - 1, rng.Intn(len(d)), len(d) / 2, 0}[i%4]] ^= 1
			case 2:
				d = good[:len(good)-1]
			case 3:
				d = append(append([]byte{}, good...), 'x')
			}
			tree[pp] = d
			pkgs = append(pkgs, PkgFile{Path: pp, List: &l})
			jobs = append(jobs, job{pp, fmt.Sprintf("%d bytes, %s", size, what), k == 0})
		}
	}
	var b bytes.Buffer
	writePackages(&b, pkgs, allSums, map[string]Listing{})
	tree["dists/t/main/binary-amd64/Packages.gz"] = compress(".gz", b.Bytes())
	o.SetTree(tree)
	if r := p.Get("u/dists/t/main/binary-amd64/Packages.gz", o); r.Status != 200 {
		c.Violate(nil, "an index of large files is not served: %s", r)
		return
	}
	c.Parallel(len(jobs), 4, func(i int) {
		j := jobs[i]
		for _, when := range []string{"first", "again"} {
			r := p.Get("u/"+j.path, o)
			if r.Stuck != "" || j.good && (r.Status != 200 || r.Err != nil || !bytes.Equal(r.Body, tree[j.path])) {
				c.Violate(r.String(), "a listed file (%s) is not served (%s request): %s", j.what, when, r)
				return
			}
			if !j.good && r.Status == 200 && r.Err == nil {
				c.Violate(r.String(), "a file that does not match its listing (%s) is served (%s request): %s", j.what, when, r)
				return
			}
		}
		c.Eval("large file " + j.what)
	})
}

// c02Sizes: long names, deep directories and very large files.
func c02Sizes(c *Ctx) {
	rng := c.Rng("sizes")
	o := NewOrigin()
	defer o.Close()
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.Capacity = 8
	p := c.StartCacher(cc)
	defer p.Kill()
	var mu sync.Mutex
	bodies := map[string][]byte{}
	o.Handle(func(pp string, n int, r *http.Request) *Resp {
		mu.Lock()
		defer mu.Unlock()
		if b, ok := bodies[pp]; ok {
			return &Resp{Body: b, Chunked: strings.Contains(pp, "chunked")}
		}
		return nil
	})
	type job struct{ pp, what string }
	var jobs []job
	add := func(pp, what string, b []byte) {
		bodies[pp] = b
		jobs = append(jobs, job{pp, what})
	}
	for _, n := range []int{100, 128, 129, 180, 200, 201, 230, 240, 249} {
		pp := "/pool/" + longName(rng, n, ".deb")
		add(pp, fmt.Sprintf("name of %d bytes", n), blob(rng, pp, 500))
		pp = "/dists/" + longName(rng, n, "") + "/main/binary-amd64/Packages"
		add(pp, fmt.Sprintf("index in a directory with a name of %d bytes", n), nil)
	}
	for _, d := range []int{5, 13, 33, 65, 130, 300} {
		pp := "/pool/" + deepDir(rng, d, 5) + "/x.deb"
		add(pp, fmt.Sprintf("directory depth %d", d), blob(rng, pp, 500))
	}
	for _, d := range []int{3, 6, 14} {
		pp := "/pool/" + deepDir(rng, d, 230) + "/" + longName(rng, 240, ".deb")
		add(pp, fmt.Sprintf("path of %d bytes", len(pp)), blob(rng, pp, 500))
	}
	big := []int{70 << 20, 300<<20 + 7}
	if c.Thorough() {
		big = append(big, 1100<<20, 2200<<20)
	}
	for _, n := range big {
		add(fmt.Sprintf("/pool/big%d.deb", n), fmt.Sprintf("%d bytes", n), bigBlob(rng, fmt.Sprint(n), n))
		if n < 1<<30 {
			add(fmt.Sprintf("/pool/chunked%d.deb", n), fmt.Sprintf("%d bytes, chunked", n), bigBlob(rng, fmt.Sprint("c", n), n))
		}
	}
	c.Parallel(len(jobs), 4, func(i int) {
		j := jobs[i]
		for _, when := range []string{"first", "again"} {
			r := p.Get("u"+j.pp, o)
			if r.Stuck != "" || r.Err != nil || r.Status != 200 || !bytes.Equal(r.Body, bodies[j.pp]) {
				c.Violate(map[string]interface{}{"path": head(j.pp, 300), "reply": r.String()}, "a file (%s) which the upstream sends completely is not served (%s request): %s", j.what, when, r)
				return
			}
		}
		c.Eval("size " + j.what)
	})
}

// c03Many has very many downloads in progress at once.
func c03Many(c *Ctx) {
	n := c.N(700, 2500)
	o := NewOrigin()
	defer o.Close()
	gate := make(chan struct{})
	o.Handle(func(pp string, k int, r *http.Request) *Resp {
		return &Resp{Body: []byte("body of " + pp), Gate: gate}
	})
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.MaxConns = 0
	p := c.StartCacher(cc)
	defer p.Kill()
	var wg sync.WaitGroup
	start := func(k string) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := p.Get("u"+k, o)
			if r.Stuck != "" || r.Status != 200 || string(r.Body) != "body of "+k {
				c.Violate(r.String(), "%d downloads in progress: %s answered %s", n, k, r)
			}
		}()
	}
	name := func(i int) string { return fmt.Sprintf("/pool/many%d.deb", i) }
	for i := 0; i < n; i++ {
		start(name(i))
	}
	full := waitFor(30*time.Second, func() bool { return o.Inflight() >= n })
	// everybody has company
	for i := 0; i < n; i++ {
		start(name(i))
	}
	time.Sleep(500 * time.Millisecond)
	close(gate)
	wg.Wait()
	if c.Failed() {
		return
	}
	for i := 0; i < n; i++ {
		if h := o.Hits(name(i)); h != 1 {
			c.Violate(map[string]interface{}{"downloads": n, "requests": h}, "%d downloads in progress: %s was requested %d times from the upstream", n, name(i), h)
			return
		}
	}
	if full {
		c.Max("downloads_in_progress_at_once", n)
		c.Eval(fmt.Sprintf("%d downloads at once", n))
	}
}

// c04Many: every failure is remembered, however many there are.
func c04Many(c *Ctx) {
	n := c.N(1500, 10000)
	o := NewOrigin()
	defer o.Close()
	o.Handle(func(pp string, k int, r *http.Request) *Resp {
		return &Resp{Status: []int{404, 403, 410}[len(pp)%3], Body: []byte("no")}
	})
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	p := c.StartCacher(cc)
	defer p.Kill()
	name := func(i int) string { return fmt.Sprintf("/pool/%s/f%d.deb", strings.Repeat("x", i%3), i) }
	for _, when := range []string{"first", "again", "again"} {
		c.Parallel(n, 16, func(i int) {
			pp := name(i)
			clean := path.Clean(pp)
			want := []int{404, 403, 410}[len(clean)%3]
			if r := p.Get("u"+pp, o); r.Stuck != "" || r.Status != want {
				c.Violate(r.String(), "%d failures: %s (%s request) answered %s instead of %d", n, pp, when, r, want)
			} else if h := o.Hits(clean); h != 1 && !c.Failed() {
				c.Violate(map[string]interface{}{"requests": h}, "%d failures within cache_period: the upstream was contacted %d times for %s", n, h, pp)
			}
		})
		if c.Failed() {
			return
		}
	}
	c.Eval(fmt.Sprintf("%d failures remembered", n))
}

// c09Large: large files and many files survive a restart.
func c09Large(c *Ctx) {
	rng := c.Rng("large")
	o := NewOrigin()
	defer o.Close()
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	tree := map[string][]byte{}
	var pkgs []PkgFile
	put := func(pp string, d []byte) {
		tree[pp] = d
		pkgs = append(pkgs, PkgFile{Path: pp, Data: d})
	}
	put("pool/l/large1.deb", bigBlob(rng, "1", 20<<20))
	put("pool/l/large2.deb", bigBlob(rng, "2", 70<<20+1))
	put("pool/l/large3.deb", bigBlob(rng, "3", 140<<20))
	put("pool/"+longName(rng, 245, ".deb"), blob(rng, "n", 1000))
	put("pool/"+deepDir(rng, 40, 6)+"/deep.deb", blob(rng, "d", 1000))
	put("pool/empty.deb", []byte{})
	for i := 0; i < c.N(1200, 6000); i++ {
		pp := fmt.Sprintf("pool/m%d/many%d.deb", i%7, i)
		put(pp, blob(rng, pp, 30))
	}
	var b bytes.Buffer
	writePackages(&b, pkgs, Sums{SHA256: true}, map[string]Listing{})
	index := "dists/t/main/binary-amd64/Packages.xz"
	tree[index] = compress(".xz", b.Bytes())
	var rel bytes.Buffer
	writeRelease(&rel, &Suite{Name: "t", Marker: "1"}, []relEntry{{"main/binary-amd64/Packages.xz", ListingOf(tree[index], allSums)}})
	tree["dists/t/Release"] = rel.Bytes()
	o.SetTree(tree)
	order := []string{"dists/t/Release", index}
	for _, f := range pkgs {
		order = append(order, f.Path)
	}
	visit := func(p *CacherProc, when string) bool {
		for _, k := range order[:2] {
			if r := p.Get("u/"+k, o); r.Status != 200 || !bytes.Equal(r.Body, tree[k]) {
				c.Violate(r.String(), "%s: %s answered %s", when, k, r)
				return false
			}
		}
		c.Parallel(len(order)-2, 12, func(i int) {
			k := order[2+i]
			if r := p.Get("u/"+k, o); r.Stuck != "" || r.Status != 200 || r.Err != nil || !bytes.Equal(r.Body, tree[k]) {
				c.Violate(r.String(), "%s: %s (%d bytes) answered %s", when, head(k, 100), len(tree[k]), r)
			}
		})
		return !c.Failed()
	}
	p := c.StartCacher(cc)
	ok := visit(p, "before the restart")
	p.Kill()
	if !ok {
		return
	}
	// wait for the last requests of the one killed
	o.Settle()
	before := map[string]int{}
	for _, k := range order {
		before[k] = o.Hits("/" + k)
	}
	p, err := c.TryStartCacher(cc)
	if err != nil {
		c.Violate(nil, "go-apt-cacher with many files in its cache does not start again: %v", err)
		return
	}
	defer p.Kill()
	if !visit(p, "after the restart") {
		return
	}
	for _, k := range order[1:] {
		if h := o.Hits("/" + k); h != before[k] {
			c.Violate(map[string]interface{}{"requests": h - before[k]}, "%s (%d bytes), completely cached and listed, is fetched again after a restart", head(k, 100), len(tree[k]))
			return
		}
	}
	c.Eval(fmt.Sprintf("restart with %d files of up to %d bytes", len(pkgs), 140<<20))
}

// c11Many has many prefixes.
func c11Many(c *Ctx) {
	rng := c.Rng("many")
	A, B := NewOrigin(), NewOrigin()
	defer A.Close()
	defer B.Close()
	A.Handle(identity("A"))
	B.Handle(identity("B"))
	n := c.N(300, 2000)
	mapping := map[string]string{}
	for i := 0; i < n; i++ {
		u := A.URL
		if i%2 == 1 {
			u = B.URL
		}
		pre := fmt.Sprintf("p%d", i)
		if i%50 == 7 {
			pre = fmt.Sprintf("p%d.", i) + strings.Repeat("z", 100)
		}
		mapping[pre] = u + fmt.Sprintf("/base%d", i)
	}
	cc := c.DefaultConf(mapping)
	p := c.StartCacher(cc)
	defer p.Kill()
	for pre, u := range mapping {
		rest := fmt.Sprintf("pool/x%d.deb", rng.Intn(1000))
		o, tag := A, "A"
		if strings.HasPrefix(u, B.URL) {
			o, tag = B, "B"
		}
		base := u[len(o.URL):]
		r := p.Get(pre+"/"+rest, A, B)
		want := identity(tag)(base+"/"+rest, 0, nil)
		if r.Stuck != "" || r.Status != 200 || !bytes.Equal(r.Body, want.Body) {
			c.Violate(map[string]interface{}{"prefix": pre, "url": u, "answer": head(string(r.Body), 300)}, "%d mappings: /%s/%s is not answered with the file of %s: %s", n, head(pre, 20), rest, base, r)
			return
		}
	}
	for _, pre := range []string{"p", "p300000", "base1", "pool"} {
		before := A.Hits("") + B.Hits("")
		if r := p.Get(pre+"/pool/x.deb", A, B); r.Status != 404 || A.Hits("")+B.Hits("") != before {
			c.Violate(nil, "%d mappings: the unregistered prefix %s is answered %s", n, pre, r)
			return
		}
	}
	c.Eval(fmt.Sprintf("%d mappings", n))
}

// c14Big: offsets beyond 2 GiB.
func c14Big(c *Ctx) {
	o := NewOrigin()
	defer o.Close()
	sizes := []int64{1<<31 + 70000}
	if c.Thorough() {
		sizes = append(sizes, 1<<32+70000)
	}
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.Capacity = 20
	dir := filepath.Join(cc.Dir, "cache/u/pool")
	must(os.MkdirAll(dir, 0755))
	var pkgs []PkgFile
	for _, n := range sizes {
		name := filepath.Join(dir, fmt.Sprintf("big%d.deb.cache", n))
		f, err := os.Create(name)
		must(err)
		must(f.Truncate(n))
		for _, off := range []int64{0, 1<<31 - 8, n - 16} {
			_, err = f.WriteAt([]byte(fmt.Sprintf("%016x", off)), off)
			must(err)
		}
		_, err = f.Seek(0, io.SeekStart)
		must(err)
		h := sha256.New()
		_, err = io.Copy(h, f)
		must(err)
		f.Close()
		pkgs = append(pkgs, PkgFile{Path: fmt.Sprintf("pool/big%d.deb", n), List: &Listing{Size: uint64(n), SHA256: hex.EncodeToString(h.Sum(nil))}})
	}
	var b bytes.Buffer
	writePackages(&b, pkgs, allSums, map[string]Listing{})
	index := "dists/t/main/binary-amd64/Packages"
	o.SetTree(map[string][]byte{index: b.Bytes()})
	p := c.StartCacher(cc)
	defer p.Kill()
	if r := p.Get("u/"+index, o); r.Status != 200 {
		c.Violate(nil, "the index is not served: %s", r)
		return
	}
	for i, n := range sizes {
		k := pkgs[i].Path
		r := p.Do("HEAD", "u/"+k, nil, o)
		if cl := r.Header.Get("Content-Length"); r.Status != 200 || cl != fmt.Sprint(n) || len(r.Body) > 0 {
			c.Violate(r.String(), "HEAD of a cached file of %d bytes: %s, Content-Length %q", n, r, cl)
			return
		}
		for _, x := range []struct {
			spec string
			a, b int64
		}{{"bytes=0-15", 0, 15}, {fmt.Sprintf("bytes=%d-%d", 1<<31-8, 1<<31+7), 1<<31 - 8, 1<<31 + 7}, {fmt.Sprintf("bytes=%d-", n-16), n - 16, n - 1}, {"bytes=-16", n - 16, n - 1}, {fmt.Sprintf("bytes=%d-%d", n-16, n+5000), n - 16, n - 1}} {
			r := p.Do("GET", "u/"+k, map[string]string{"Range": x.spec}, o)
			want := fmt.Sprintf("%016x", x.a)
			if cr := r.Header.Get("Content-Range"); r.Status != 206 || cr != fmt.Sprintf("bytes %d-%d/%d", x.a, x.b, n) || string(r.Body) != want {
				c.Violate(map[string]interface{}{"range": x.spec, "reply": r.String(), "content-range": cr, "body": head(string(r.Body), 50)}, "%s of a cached file of %d bytes: %s, Content-Range %q", x.spec, n, r, cr)
				return
			}
		}
		resp, err := p.Client.Get("http://" + p.Addr + "/u/" + k)
		if err != nil {
			c.Violate(nil, "GET of a cached file of %d bytes: %v", n, err)
			return
		}
		h := sha256.New()
		got, err := io.Copy(h, resp.Body)
		resp.Body.Close()
		if err != nil || got != n || resp.ContentLength != n || hex.EncodeToString(h.Sum(nil)) != pkgs[i].List.SHA256 {
			c.Violate(nil, "GET of a cached file of %d bytes: %d bytes read, error %v, Content-Length %d", n, got, err, resp.ContentLength)
			return
		}
		if o.Hits("/"+k) != 0 {
			c.Violate(nil, "a cached file of %d bytes that its index vouches for is fetched", n)
			return
		}
		c.Eval(fmt.Sprintf("file of %d bytes", n))
	}
}

// scaleRepo makes a repository with what is large, long and plenty.
func scaleRepo(c *Ctx, rng *rand.Rand, kind string, n int) *scene {
	fam := Sums{SHA256: true}
	g := GenOpts{Suites: []string{"t"}, Sections: []string{"main"}, Archs: []string{"amd64"}, PkgsPer: 2, MaxSize: 300, Exts: []string{".gz"}, Sums: &fam}
	switch kind {
	case "many suites":
		g.Suites = nil
		for i := 0; i < n; i++ {
			g.Suites = append(g.Suites, fmt.Sprintf("s%d", i))
		}
	case "many flat suites":
		g.Suites = nil
		for i := 0; i < n; i++ {
			g.Suites = append(g.Suites, fmt.Sprintf("f%d/", i))
		}
	case "many sections":
		g.Sections, g.PkgsPer = nil, 1
		g.Archs = []string{"amd64", "i386", "arm64", "armhf"}
		for i := 0; i < n; i++ {
			g.Sections = append(g.Sections, fmt.Sprintf("c%d", i))
		}
	case "many architectures":
		g.Archs = nil
		g.Source = true
		for i := 0; i < n; i++ {
			g.Archs = append(g.Archs, fmt.Sprintf("arch%d", i))
		}
	case "many sources":
		g.Source = true
	case "long names":
		g.Suites = []string{longName(rng, 200, ""), "a/" + longName(rng, 230, "")}
		g.Sections = []string{longName(rng, 180, ""), "x/" + longName(rng, 210, "")}
		g.Archs = []string{longName(rng, 150, "")}
		g.ByHash = true
		g.Source = true
	}
	s := c.newScene(rng, g)
	cp := s.repo.Suites[0].Comps[0]
	add := func(pp string, d []byte) { cp.Pkgs = append(cp.Pkgs, PkgFile{Path: pp, Data: d}) }
	switch kind {
	case "many items":
		for i := 0; i < n; i++ {
			pp := fmt.Sprintf("pool/d%d/many%d_1.deb", i%97, i)
			add(pp, []byte("content of "+pp))
		}
	case "many sources":
		for _, cp := range s.repo.Suites[0].Comps {
			if cp.Arch != "source" {
				continue
			}
			for i := 0; i < n; i++ {
				sp := SrcPkg{Dir: fmt.Sprintf("pool/main/s/src%d", i)}
				for k := 0; k < 3; k++ {
					f := fmt.Sprintf("src%d_%d.tar", i, k)
					sp.Files = append(sp.Files, PkgFile{Path: f, Data: []byte("content of " + f)})
				}
				cp.Srcs = append(cp.Srcs, sp)
			}
		}
	case "long names", "deep":
		for _, n := range []int{100, 128, 200, 201, 240, 255} {
			pp := "pool/" + longName(rng, n, ".deb")
			add(pp, blob(rng, "long", 100))
		}
		for _, d := range []int{8, 13, 33, 70, 200} {
			pp := "pool/" + deepDir(rng, d, 4) + "/deep.deb"
			add(pp, blob(rng, "deep", 100))
		}
		for _, d := range []int{4, 14} {
			pp := "pool/" + deepDir(rng, d, 230) + "/" + longName(rng, 240, ".deb")
			add(pp, blob(rng, "longpath", 100))
		}
	case "large items":
		for i, n := range []int{1 << 20, 9<<20 + 1, 40 << 20} {
			add(fmt.Sprintf("pool/large%d.deb", i), bigBlob(rng, fmt.Sprint(i), n))
		}
	}
	s.setRepo(s.repo)
	return s
}

var scaleKinds = []string{"many items", "many suites", "many flat suites", "many sections", "many architectures", "many sources", "long names", "deep", "large items"}

func scaleCount(c *Ctx, kind string) int {
	switch kind {
	case "many items":
		return c.N(22000, 100000)
	case "many suites", "many flat suites", "many sections":
		return c.N(40, 300)
	case "many architectures":
		return c.N(30, 100)
	case "many sources":
		return c.N(1000, 10000)
	}
	return 0
}

func m05Scale(c *Ctx) {
	c.Parallel(len(scaleKinds), 5, func(i int) {
		kind := scaleKinds[i]
		s := scaleRepo(c, c.Rng("scale "+kind), kind, scaleCount(c, kind))
		defer s.o.Close()
		if c.expectRun(s, "repository with "+kind) {
			c.Count("published_files_compared", len(s.want))
			c.Eval("scale " + kind)
		}
	})
}

// m06Scale: what is large, long and plenty is reused as well.
func m06Scale(c *Ctx) {
	kinds := []string{"many items", "many suites", "many sections", "long names", "deep", "large items"}
	c.Parallel(len(kinds), 6, func(i int) {
		kind := kinds[i]
		rng := c.Rng("scale " + kind)
		n := scaleCount(c, kind)
		if !c.Thorough() && n > 3000 {
			n = 3000
		}
		s := scaleRepo(c, rng, kind, n)
		defer s.o.Close()
		if !c.expectRun(s, "first run, repository with "+kind) {
			return
		}
		old, before := s.want, len(s.o.Log())
		oldTree, _, _, err := published(s.mc.Dir, s.id)
		must(err)
		// one package more
		su := s.repo.Suites[len(s.repo.Suites)-1]
		dir := suiteDir(su.Name)
		if !isFlatName(su.Name) {
			dir = "pool"
		}
		su.Comps[0].Pkgs = append(su.Comps[0].Pkgs, PkgFile{Path: path.Join(dir, "new_1.deb"), Data: blob(rng, "new", 200)})
		s.setRepo(s.repo)
		if !c.expectRun(s, "update, repository with "+kind) {
			return
		}
		tree, _, _, err := published(s.mc.Dir, s.id)
		must(err)
		for _, h := range s.o.Log()[before:] {
			p := strings.TrimPrefix(h.Path, "/")
			base := path.Base(p)
			if sum, ok := s.want[p]; ok && old[p] == sum && !strings.HasPrefix(base, "Release") && !strings.HasPrefix(base, "InRelease") {
				c.Violate(map[string]interface{}{"path": head(p, 300), "size": len(s.b.Tree[p])}, "repository with %s: unchanged %s (%d bytes) is transferred again", kind, head(p, 100), len(s.b.Tree[p]))
				return
			}
		}
		for p, sum := range s.want {
			base := path.Base(p)
			if old[p] == sum && !strings.HasPrefix(base, "Release") && !strings.HasPrefix(base, "InRelease") && tree[p].Ino != oldTree[p].Ino {
				c.Violate(map[string]interface{}{"path": head(p, 300)}, "repository with %s: unchanged %s is not a hard link to the previous version", kind, head(p, 100))
				return
			}
		}
		c.Eval("scale " + kind)
	})
}

// m04Large: a wrong byte in a large file is noticed.
func m04Large(c *Ctx) {
	names := []string{"pool/large0.deb", "pool/large1.deb", "pool/large2.deb"}
	c.Parallel(6, 6, func(i int) {
		rng := c.Rng(fmt.Sprint("large", i))
		s := scaleRepo(c, rng, "large items", 0)
		defer s.o.Close()
		p := names[i%3]
		var old map[string]string
		if i >= 3 {
			for k := range s.repo.Suites[0].Comps[0].Pkgs {
				f := &s.repo.Suites[0].Comps[0].Pkgs[k]
				if f.Path == p {
					d := f.Data
					f.Data = append([]byte("old"), d[3:]...)
					s.setRepo(s.repo)
					if !c.expectRun(s, "first run") {
						return
					}
					old = s.want
					f.Data = d
					s.setRepo(s.repo)
				}
			}
		}
		s.serve(p, func(d []byte) *Resp { return &Resp{Body: flip(rng, d)} })
		c.m03Judge(s, fmt.Sprintf("a wrong byte in a file of %d bytes", len(s.b.Tree[p])), i < 3, old, c.RunMirror(s.mc, nil, s.o), true)
	})
}

// a01Scale: paragraphs, fields and values in any number.
func a01Scale(c *Ctx) {
	big := c.N(120000, 1500000)
	mk := func(paras, fields, vals int) []ctlPara {
		var ps []ctlPara
		for i := 0; i < paras; i++ {
			var p ctlPara
			for j := 0; j < fields; j++ {
				f := ctlField{Name: fmt.Sprintf("Field%d", j)}
				for k := 0; k < vals; k++ {
					f.Vals = append(f.Vals, fmt.Sprintf("value %d %d %d", i, j, k))
				}
				p = append(p, f)
			}
			ps = append(ps, p)
		}
		return ps
	}
	cases := []struct {
		what string
		ps   []ctlPara
	}{{"paragraphs", mk(big, 1, 1)}, {"fields", mk(1, big, 1)}, {"values", mk(1, 1, big)}, {"values of the second of two paragraphs", mk(2, 2, big/4)}}
	c.Parallel(len(cases), 4, func(i int) {
		var b bytes.Buffer
		for _, p := range cases[i].ps {
			for _, f := range p {
				b.WriteString(f.Name + ": " + f.Vals[0] + "\n")
				for _, v := range f.Vals[1:] {
					b.WriteString(" " + v + "\n")
				}
			}
			b.WriteString("\n")
		}
		got, err := readAllParas(&b)
		if err != nil {
			c.Violate(nil, "control file with %d %s: %v", big, cases[i].what, err)
			return
		}
		if d := diffParas(cases[i].ps, got); d != "" {
			c.Violate(nil, "control file with %d %s: %s", big, cases[i].what, d)
			return
		}
		c.Eval("scale " + cases[i].what)
	})
}

// a02Scale: indices with very many entries.
func a02Scale(c *Ctx) {
	n := c.N(30000, 400000)
	kinds := []string{"Packages", "Sources", "Release", "InRelease", "Index"}
	c.Parallel(len(kinds), 5, func(i int) {
		rng := c.Rng("scale " + kinds[i])
		want := map[string]Listing{}
		var b bytes.Buffer
		p := "dists/t/main/binary-amd64/Packages"
		l := func() Listing {
			return Listing{Size: uint64(rng.Intn(1 << 30)), MD5: randHex(rng, 32), SHA1: randHex(rng, 40), SHA256: randHex(rng, 64)}
		}
		switch kinds[i] {
		case "Packages":
			var pk []PkgFile
			for k := 0; k < n; k++ {
				ll := l()
				pk = append(pk, PkgFile{Path: fmt.Sprintf("pool/p%d_1.deb", k), List: &ll})
			}
			writePackages(&b, pk, allSums, want)
		case "Sources":
			p = "dists/t/main/source/Sources"
			var sp []SrcPkg
			for k := 0; k < n/3; k++ {
				s := SrcPkg{Dir: fmt.Sprintf("pool/s%d", k)}
				for x := 0; x < 3; x++ {
					ll := l()
					s.Files = append(s.Files, PkgFile{Path: fmt.Sprintf("f%d", x), List: &ll})
				}
				sp = append(sp, s)
			}
			// and one with very many files
			s := SrcPkg{Dir: "pool/huge"}
			for x := 0; x < n/3; x++ {
				ll := l()
				s.Files = append(s.Files, PkgFile{Path: fmt.Sprintf("f%d", x), List: &ll})
			}
			writeSources(&b, append(sp, s), allSums, want)
		default:
			p = "dists/t/" + kinds[i]
			var es []relEntry
			for k := 0; k < n; k++ {
				e := relEntry{fmt.Sprintf("main/binary-a%d/Packages", k), l()}
				es = append(es, e)
				want[path.Join("dists/t", e.rel)] = e.l
			}
			writeRelease(&b, &Suite{Name: "t", Marker: "1"}, es)
		}
		data := b.Bytes()
		if kinds[i] == "InRelease" {
			data = clearsign(data)
		}
		for _, ext := range []string{"", ".gz", ".xz"} {
			if ext != "" && kinds[i] == "InRelease" {
				continue
			}
			fil, _, err := apt.ExtractFileInfo(p+ext, bytes.NewReader(compress(ext, data)))
			if err != nil {
				c.Violate(nil, "%s%s with %d entries refused: %v", kinds[i], ext, len(want), err)
				return
			}
			if d := diffExtract(want, fil); d != "" {
				c.Violate(nil, "%s%s with %d entries: %s", kinds[i], ext, len(want), d)
				return
			}
			c.Eval(fmt.Sprintf("scale %s%s", kinds[i], ext))
			c.Count("entries_compared", len(want))
		}
	})
}

// patReader delivers n bytes of a pattern.
type patReader struct {
	pat []byte
	n   int64
	off int64
}

func (r *patReader) Read(p []byte) (int, error) {
	if r.off >= r.n {
		return 0, io.EOF
	}
	k := copy(p, r.pat[r.off%int64(len(r.pat)):])
	if int64(k) > r.n-r.off {
		k = int(r.n - r.off)
	}
	r.off += int64(k)
	return k, nil
}

// countHash notes what is written.
type countHash struct {
	h io.Writer
	n int64
}

func (w *countHash) Write(p []byte) (int, error) {
	w.n += int64(len(p))
	return w.h.Write(p)
}

// a05Scale: streams of any length.
func a05Scale(c *Ctx) {
	sizes := []int64{1<<30 + 5, 70 << 20, 300<<20 + 1}
	if c.Thorough() {
		sizes = append(sizes, 1<<31+5, 1<<32+5)
	}
	c.Parallel(len(sizes), 4, func(i int) {
		n := sizes[i]
		pat := blob(c.Rng(fmt.Sprint("pat", i)), "pattern", 1<<16+3)
		m, s1, s2 := md5.New(), sha1.New(), sha256.New()
		_, err := io.Copy(io.MultiWriter(m, s1, s2), &patReader{pat: pat, n: n})
		must(err)
		h := sha256.New()
		w := &countHash{h: h}
		fi, err := apt.CopyWithFileInfo(w, &patReader{pat: pat, n: n}, "some/large")
		if err != nil {
			c.Violate(nil, "copying %d bytes: %v", n, err)
			return
		}
		v, err := viewOf(fi)
		must(err)
		want := Listing{uint64(n), hex.EncodeToString(m.Sum(nil)), hex.EncodeToString(s1.Sum(nil)), hex.EncodeToString(s2.Sum(nil))}
		if w.n != n || hex.EncodeToString(h.Sum(nil)) != want.SHA256 || v.L != want {
			c.Violate(fmt.Sprintf("%+v, want %+v", v.L, want), "copying %d bytes: %d bytes written, file information %+v", n, w.n, v.L)
			return
		}
		c.Eval(fmt.Sprintf("stream of %d bytes", n))
	})
}
