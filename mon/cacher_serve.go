package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() {
	register("C01", &checkDef{fn: checkC01, level: "exploration", minDistinct: 150,
		rule:  "a real go-apt-cacher in front of a scripted upstream; indices of every kind and compression list files with exactly one wrong attribute (size, MD5, SHA1, SHA256) or none; each file is requested before, while (transfer gated open across the arrival of the index) or after the index is stored, after the index lists new values, and after a restart with bit-flipped, cut and extended files and stale indices on disk. Oracle: a 200 answer given after the index was stored carries exactly the listed size and checksums. Non-trivial: (index kind, compression, families, wrong attribute, timing) that was actually exercised",
		assum: []string{"an index counts as stored once a client received it with status 200"}})
	register("C02", &checkDef{fn: checkC02, level: "exploration", minDistinct: 60,
		rule:  "concurrent and slow clients against an upstream that replaces, cuts, resets and delays files, with refreshes every second, eviction pressure, aborting clients and kill/restart; every complete 200 body is looked up in the log of bodies the upstream completely sent for that path. Non-trivial: distinct (path, body) pairs observed",
		assum: []string{"bodies are unique per path and version"}})
	register("C03", &checkDef{fn: checkC03, level: "exploration", minDistinct: 30,
		rule: "bursts of concurrent GET/HEAD requests in several spellings for the same path while the upstream holds the transfer; gauges at the upstream count transfers in progress per path; repeated with failing transfers, during refreshes, after restart and with the upstream shut down. Non-trivial: distinct (kind of path, outcome, number of waiting clients)"})
	register("C04", &checkDef{fn: checkC04, level: "exploration", minDistinct: 60,
		rule:  "every error status and transfer failure on plain, listed and index paths; answers, upstream request counts within and after cache_period and recovery are checked. Non-trivial: distinct (failure, path kind, phase)",
		assum: []string{"'within the period' is decided only when the measured request times prove it"}})
	register("C05", &checkDef{fn: checkC05, level: "exploration", minDistinct: 25,
		rule: "more requests than max_conns for several limits and hosts against an upstream that holds all transfers; gauges give the number in progress; then every kind of failure, and the same again to find lost or surplus slots. Non-trivial: distinct (limit, failure kind, host constellation)"})
}

// ------------------------------------------------------------------ C01

type c01Case struct {
	kind   string // packages sources index release
	ext    string
	fam    Sums
	wrong  string // "", size+, size-, md5, sha1, sha256
	timing string // before inflight after
	path   string
	data   []byte
	l      Listing
}

func flipHex(s string) string {
	b := []byte(s)
	if b[len(b)-1] == '0' {
		b[len(b)-1] = '1'
	} else {
		b[len(b)-1] = '0'
	}
	return string(b)
}

func wrongListing(l Listing, wrong string) Listing {
	switch wrong {
	case "size+":
		l.Size++
	case "size-":
		l.Size--
	case "md5":
		l.MD5 = flipHex(l.MD5)
	case "sha1":
		l.SHA1 = flipHex(l.SHA1)
	case "sha256":
		l.SHA256 = flipHex(l.SHA256)
	}
	return l
}

func wrongKinds(f Sums) []string {
	k := []string{"", "size+", "size-"}
	if f.MD5 {
		k = append(k, "md5")
	}
	if f.SHA1 {
		k = append(k, "sha1")
	}
	if f.SHA256 {
		k = append(k, "sha256")
	}
	return k
}

// c01Index renders one index of the kind at base directory dir listing the
// cases, and returns its path and content.
func c01Index(kind, ext, dir string, fam Sums, cases []*c01Case) (string, []byte) {
	var b bytes.Buffer
	rel := func(p string) string { return strings.TrimPrefix(p, dir+"/") }
	switch kind {
	case "packages":
		var l []PkgFile
		for _, k := range cases {
			ll := k.l
			l = append(l, PkgFile{Path: k.path, List: &ll})
		}
		writePackages(&b, l, fam, map[string]Listing{})
		return path.Join(dir, "main/binary-amd64/Packages"+ext), compress(ext, b.Bytes())
	case "sources":
		var l []SrcPkg
		for _, k := range cases {
			ll := k.l
			l = append(l, SrcPkg{Dir: path.Dir(k.path), Files: []PkgFile{{Path: path.Base(k.path), List: &ll}}})
		}
		writeSources(&b, l, fam, map[string]Listing{})
		return path.Join(dir, "main/source/Sources"+ext), compress(ext, b.Bytes())
	case "release", "inrelease", "index":
		s := &Suite{Name: "x", Marker: "m"}
		var es []relEntry
		for _, k := range cases {
			es = append(es, relEntry{rel(k.path), k.l})
		}
		writeRelease(&b, s, es)
		switch kind {
		case "release":
			return path.Join(dir, "Release"+ext), compress(ext, b.Bytes())
		case "index":
			return path.Join(dir, "Index"+ext), compress(ext, b.Bytes())
		}
		return path.Join(dir, "InRelease"), clearsign(b.Bytes())
	}
	panic(kind)
}

func checkC01(c *Ctx) {
	kinds := []string{"packages", "sources", "release", "inrelease", "index"}
	exts := []string{"", ".gz", ".bz2", ".xz"}
	n := c.N(96, 800)
	workers := 8
	c.Parallel(workers, workers, func(w int) {
		o := NewOrigin()
		defer o.Close()
		cc := c.DefaultConf(map[string]string{"u": o.URL})
		cc.MaxConns = 0
		p := c.StartCacher(cc)
		defer func() { p.Kill() }()
		for i := w; i < n && !c.Failed(); i += workers {
			rng := c.Rng(fmt.Sprint("case", i))
			kind := kinds[i%len(kinds)]
			ext := exts[(i/len(kinds))%len(exts)]
			if kind == "inrelease" {
				ext = ""
			}
			c01Run(c, rng, o, p, i, kind, ext)
			if !p.Alive() {
				c.Violate(tail(p.stderr.String(), 3000), "go-apt-cacher died")
				return
			}
		}
	})
	if c.Failed() {
		return
	}
	m := c.N(12, 80)
	c.Parallel(m, 6, func(i int) { c01Versions(c, c.Rng(fmt.Sprint("ver", i)), i) })
	if c.Failed() {
		return
	}
	m = c.N(12, 80)
	c.Parallel(m, 6, func(i int) { c01Restart(c, c.Rng(fmt.Sprint("restart", i)), i) })
	if c.Failed() {
		return
	}
	m = c.N(8, 32)
	c.Parallel(m, 8, func(i int) { c01Stale(c, c.Rng(fmt.Sprint("stale", i)), i) })
	if !c.Failed() {
		c01Large(c)
	}
}

func c01Run(c *Ctx, rng *rand.Rand, o *Origin, p *CacherProc, i int, kind, ext string) {
	dir := fmt.Sprintf("dists/s%d", i)
	fam := randSums(rng)
	var cases []*c01Case
	for j, t := range []string{"before", "inflight", "after", "before", "inflight", "after", "after"} {
		wk := wrongKinds(fam)
		k := &c01Case{kind: kind, ext: ext, fam: fam, timing: t, wrong: wk[(rng.Intn(len(wk))+j)%len(wk)]}
		switch kind {
		case "packages", "sources":
			k.path = fmt.Sprintf("pool/s%d/f%d_1.deb", i, j)
		default:
			k.path = fmt.Sprintf("%s/main/f%d/Contents-%d", dir, j, j)
			if rng.Intn(3) == 0 {
				// an index listed by an index
				k.path = fmt.Sprintf("%s/main/f%d/Packages", dir, j)
			}
		}
		k.data = blob(rng, k.path, 1+rng.Intn(3000))
		if path.Base(k.path) == "Packages" {
			k.data = []byte(fmt.Sprintf("Package: p%d\nFilename: pool/none%d\nSize: 3\nMD5sum: %s\n\n", j, rng.Int63(), randHex(rng, 16)))
		}
		k.l = wrongListing(ListingOf(k.data, fam), k.wrong)
		cases = append(cases, k)
	}
	ip, idata := c01Index(kind, ext, dir, fam, cases)
	tree := map[string][]byte{ip: idata}
	gates := map[string]chan struct{}{}
	for _, k := range cases {
		tree[k.path] = k.data
		if k.timing == "inflight" {
			gates["/"+k.path] = make(chan struct{})
		}
	}
	mid := rng.Intn(2) == 0
	o.Handle(func(pp string, n int, r *http.Request) *Resp {
		b, ok := tree[strings.TrimPrefix(pp, "/")]
		if !ok {
			return nil
		}
		resp := &Resp{Status: 200, Body: b}
		if g := gates[pp]; g != nil && n == 0 {
			if mid {
				resp.MidGate = g
			} else {
				resp.Gate = g
			}
		}
		return resp
	})
	key := func(k *c01Case) string {
		return fmt.Sprintf("%s%s fam=%v wrong=%s %s", k.kind, k.ext, k.fam, k.wrong, k.timing)
	}
	check := func(k *c01Case, r *Reply, what string) {
		if r.Stuck != "" {
			c.Violate(nil, "%s: request for %s (%s) was never answered: %s", what, k.path, key(k), r.Stuck)
			return
		}
		if r.Status == 200 && r.Err == nil && r.Header.Get("Verif-Head") == "" && !k.l.Matches(r.Body) {
			c.Violate(map[string]interface{}{"listing": k.l, "got_size": len(r.Body), "got_sha256": sha(r.Body), "index": ip},
				"%s: %s answered 200 with content that does not match its index entry (%s)", what, k.path, key(k))
		}
		if r.Status == 200 {
			c.Count("answers_200", 1)
		} else {
			c.Count("answers_refused", 1)
		}
	}
	for _, k := range cases {
		if k.timing == "before" {
			r := p.Get("u/"+k.path, o)
			if r.Status != 200 {
				c.Count("unlisted_not_200", 1)
			}
		}
	}
	var wg sync.WaitGroup
	early := map[*c01Case]*Reply{}
	var mu sync.Mutex
	for _, k := range cases {
		if k.timing == "inflight" {
			wg.Add(1)
			go func(k *c01Case) {
				defer wg.Done()
				r := p.Get("u/"+k.path, o)
				mu.Lock()
				early[k] = r
				mu.Unlock()
			}(k)
		}
	}
	for g := range gates {
		if !waitFor(20*time.Second, func() bool { return o.Hits(g) > 0 }) {
			for _, ch := range gates {
				close(ch)
			}
			wg.Wait()
			giveUp("upstream did not see the request for %s", g)
		}
	}
	ir := p.Get("u/"+ip, o)
	stored := ir.Status == 200 && bytes.Equal(ir.Body, idata)
	for _, ch := range gates {
		close(ch)
	}
	wg.Wait()
	if !stored {
		c.Count("index_not_200", 1)
		return
	}
	for k, r := range early {
		check(k, r, "transfer in progress when the index was stored")
		c.Eval(key(k))
	}
	for _, k := range cases {
		if rng.Intn(3) == 0 {
			h := p.Do("HEAD", "u/"+k.path, nil, o)
			if h.Status == 200 && h.Err == nil && k.wrong != "" {
				c.Violate(map[string]interface{}{"listing": k.l, "index": ip}, "HEAD %s answered 200 although the upstream file does not match its index entry (%s)", k.path, key(k))
			}
		}
		for try := 0; try < 2; try++ {
			r := p.Get("u/"+k.path, o)
			check(k, r, "after the index was stored")
			if k.wrong == "" && r.Status == 200 {
				c.Count("matching_served", 1)
			}
		}
		c.Eval(key(k))
	}
	if i < 3 {
		c.Sample(map[string]interface{}{"index": ip, "families": fam.String(), "first": key(cases[0])})
	}
}

// c01Versions: the index comes to list new values.
func c01Versions(c *Ctx, rng *rand.Rand, i int) {
	o := NewOrigin()
	defer o.Close()
	fam := randSums(rng)
	mode := i % 3
	ext := []string{"", ".gz", ".xz", ".bz2"}[i%4]
	build := func(v int, files []PkgFile) *Built {
		s := &Suite{Name: "t", Exts: []string{ext}, RelSums: fam, PkgSums: fam, Marker: fmt.Sprint("v", v), NoRelease: i%2 == 0, NoInRel: i%2 == 1}
		s.Comps = []*Comp{{Section: "main", Arch: "amd64", Pkgs: files}}
		return (&Repo{Suites: []*Suite{s}}).Build()
	}
	var f1, f2 []PkgFile
	for j := 0; j < 6; j++ {
		p := fmt.Sprintf("pool/f%d.deb", j)
		d := blob(rng, p, 200+rng.Intn(2000))
		f1 = append(f1, PkgFile{Path: p, Data: d})
		d2 := append([]byte{}, d...)
		d2[rng.Intn(len(d2))] ^= 0x40 // same size, other content
		if j%3 == 2 {
			d2 = append(d2, 'x')
		}
		f2 = append(f2, PkgFile{Path: p, Data: d2})
	}
	b1, b2 := build(1, f1), build(2, f2)
	o.SetTree(b1.Tree)
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.CheckInterval, cc.CachePeriod = 1, 1
	p := c.StartCacher(cc)
	defer p.Kill()
	rel := b1.Releases["t"][0]
	ip := "dists/t/main/binary-amd64/Packages" + ext
	p.Get("u/"+rel, o)
	if r := p.Get("u/"+ip, o); r.Status != 200 {
		c.Count("index_not_200", 1)
		return
	}
	check := func(b *Built, when string) {
		for _, f := range f1 {
			r := p.Get("u/"+f.Path, o)
			l := b.Listed[f.Path]
			if r.Stuck != "" {
				c.Violate(nil, "%s: %s was never answered: %s", when, f.Path, r.Stuck)
			} else if r.Status == 200 && !l.Matches(r.Body) {
				c.Violate(map[string]interface{}{"listing": l, "got": sha(r.Body), "v1": sha(b1.Tree[f.Path]), "v2": sha(b2.Tree[f.Path])},
					"%s: %s answered 200 with content that does not match the stored index", when, f.Path)
			} else if r.Status == 200 {
				c.Count("version_answers_200", 1)
			}
			c.Eval(fmt.Sprintf("versions mode=%d ext=%s fam=%v %s %d", mode, ext, fam, when, r.Status))
		}
	}
	check(b1, "first version")
	// publish version 2; depending on mode the pool lags behind
	t := map[string][]byte{}
	for k, v := range b2.Tree {
		t[k] = v
	}
	gate := make(chan struct{})
	if mode == 1 {
		for _, f := range f1 {
			t[f.Path] = f.Data // upstream still has old files
		}
	}
	o.SetTree(t)
	_ = gate
	if !waitFor(60*time.Second, func() bool {
		r := p.Get("u/"+rel, o)
		return bytes.Equal(r.Body, b2.Tree[rel])
	}) {
		c.Count("release_not_refreshed", 1)
		return
	}
	// the index itself is listed with new values now: never the old one
	r := p.Get("u/"+ip, o)
	if r.Status == 200 && !b2.Listed[ip].Matches(r.Body) {
		c.Violate(nil, "index %s answered 200 with content that does not match the refreshed Release", ip)
	}
	if r.Status != 200 {
		waitFor(30*time.Second, func() bool { r = p.Get("u/"+ip, o); return r.Status == 200 })
	}
	if r.Status != 200 || !bytes.Equal(r.Body, b2.Tree[ip]) {
		c.Count("index_not_200", 1)
		return
	}
	check(b2, "second version")
	if mode == 2 { // roll on with the upstream serving garbage of the right size
		for _, f := range f2 {
			g := append([]byte{}, f.Data...)
			g[0] ^= 1
			t[f.Path] = g
		}
		p.Kill()
		for _, f := range f2 {
			os.Remove(filepath.Join(cc.Dir, "cache/u", f.Path+".cache"))
		}
		p = c.StartCacher(cc)
		check(b2, "restart with damaged upstream")
	}
}

// c01Restart: files found on disk are damaged.
func c01Restart(c *Ctx, rng *rand.Rand, i int) {
	o := NewOrigin()
	defer o.Close()
	fam := randSums(rng)
	g := GenOpts{Suites: []string{"t"}, Sections: []string{"main"}, Archs: []string{"amd64"}, Source: true, PkgsPer: 5, MaxSize: 3000,
		Exts: []string{[]string{"", ".gz", ".xz", ".bz2"}[i%4]}, Sums: &fam}
	b := GenRepo(rng, g).Build()
	o.SetTree(b.Tree)
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.CachePeriod = 0
	p := c.StartCacher(cc)
	defer func() { p.Kill() }()
	var all []string
	for _, k := range sortedKeys(b.Tree) {
		all = append(all, k)
	}
	// indices first so that the listing is in force
	sort.SliceStable(all, func(x, y int) bool { return rankPath(all[x]) < rankPath(all[y]) })
	for _, k := range all {
		if r := p.Get("u/"+k, o); r.Status != 200 {
			c.Count("not_200", 1)
		}
	}
	if rng.Intn(2) == 0 {
		p.Kill()
	} else if !p.Term(60 * time.Second) {
		giveUp("cacher does not stop")
	}
	// damage
	damaged := map[string]string{}
	for _, k := range all {
		l, ok := b.Listed[k]
		if !ok || strings.HasSuffix(k, "Release") && !strings.Contains(k, "binary") {
			continue
		}
		_ = l
		if rng.Intn(3) == 0 {
			continue
		}
		sub := "cache"
		if rankPath(k) < 2 {
			sub = "meta"
		}
		fp := filepath.Join(cc.Dir, sub, "u", k+".cache")
		data, err := os.ReadFile(fp)
		if err != nil {
			continue
		}
		how := []string{"flip", "cut", "extend", "empty", "swap"}[rng.Intn(5)]
		switch how {
		case "flip":
			if len(data) == 0 {
				continue
			}
			data = append([]byte{}, data...)
			data[rng.Intn(len(data))] ^= 1 << uint(rng.Intn(8))
		case "cut":
			if len(data) == 0 {
				continue
			}
			data = data[:rng.Intn(len(data))]
		case "extend":
			data = append(append([]byte{}, data...), 0)
		case "empty":
			data = nil
		case "swap":
			data = blob(rng, "other", len(data))
		}
		must(os.WriteFile(fp, data, 0644))
		damaged[k] = how
	}
	if rng.Intn(3) == 0 {
		o.Handle(func(string, int, *http.Request) *Resp { return &Resp{Status: 503} })
	}
	p2, err := c.TryStartCacher(cc)
	if err != nil {
		c.Violate(damaged, "go-apt-cacher does not start on a cache with damaged files: %v", err)
		return
	}
	p = p2
	order := append([]string{}, all...)
	rng.Shuffle(len(order), func(x, y int) { order[x], order[y] = order[y], order[x] })
	// the top Release files are intact, so every index they list is guarded;
	// a package is guarded when its index is intact or has been answered 200.
	guarded := map[string]bool{}
	intactIdx := map[string]bool{}
	for ix, lists := range b.By {
		if b.Tree[ix] != nil && damaged[ix] == "" {
			intactIdx[ix] = true
			for k := range lists {
				guarded[k] = true
			}
		}
	}
	for ix := range b.Indices {
		guarded[ix] = true
	}
	for round := 0; round < 2; round++ {
		for _, k := range order {
			l, ok := b.Listed[k]
			if !ok {
				continue
			}
			r := p.Get("u/"+k, o)
			if r.Stuck != "" {
				c.Violate(nil, "after restart: %s was never answered: %s", k, r.Stuck)
				return
			}
			if r.Status == 200 && guarded[k] && !l.Matches(r.Body) {
				c.Violate(map[string]interface{}{"damage": damaged[k], "listing": l, "got": sha(r.Body)},
					"after restart: damaged cache file for %s (%s) was served as valid", k, damaged[k])
			}
			if r.Status == 200 {
				for kk := range b.By[k] {
					guarded[kk] = true
				}
			}
			if damaged[k] != "" {
				c.Eval(fmt.Sprintf("restart %s fam=%v rank=%d ext=%s %d", damaged[k], fam, rankPath(k), path.Ext(k), r.Status))
			} else {
				c.Eval("")
			}
		}
	}
}

// rankPath orders Release files, indices, items.
func rankPath(p string) int {
	switch b := path.Base(p); {
	case b == "InRelease" || b == "Release" || b == "Release.gpg":
		return 0
	case strings.HasPrefix(b, "Packages") || strings.HasPrefix(b, "Sources") || b == "Index":
		return 1
	}
	return 2
}

// c01Stale: a stale variant of an index lies on disk beside the current one.
func c01Stale(c *Ctx, rng *rand.Rand, i int) {
	o := NewOrigin()
	defer o.Close()
	old := []string{".xz", ".gz", "", ".xz"}[i%4]
	cur := []string{".gz", "", ".xz", ".bz2"}[i%4]
	fam := allSums
	build := func(v int, files []PkgFile) *Built {
		s := &Suite{Name: "t", Exts: []string{"", ".gz", ".bz2", ".xz"}, RelSums: fam, PkgSums: fam, Marker: fmt.Sprint("v", v)}
		s.NoRelease = i%2 == 0
		s.NoInRel = i%2 == 1
		s.Comps = []*Comp{{Section: "main", Arch: "amd64", Pkgs: files}}
		return (&Repo{Suites: []*Suite{s}}).Build()
	}
	var f1, f2 []PkgFile
	for j := 0; j < 4; j++ {
		p := fmt.Sprintf("pool/f%d.deb", j)
		f1 = append(f1, PkgFile{Path: p, Data: blob(rng, p, 500)})
		f2 = append(f2, PkgFile{Path: p, Data: blob(rng, p, 500)})
	}
	b1, b2 := build(1, f1), build(2, f2)
	o.SetTree(b1.Tree)
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.CheckInterval, cc.CachePeriod = 1, 1
	p := c.StartCacher(cc)
	defer func() { p.Kill() }()
	rel := b1.Releases["t"][0]
	base := "dists/t/main/binary-amd64/Packages"
	for _, k := range []string{rel, base + old, base + cur} {
		p.Get("u/"+k, o)
	}
	for _, f := range f1 {
		p.Get("u/"+f.Path, o)
	}
	o.SetTree(b2.Tree)
	if !waitFor(60*time.Second, func() bool { return bytes.Equal(p.Get("u/"+rel, o).Body, b2.Tree[rel]) }) {
		c.Count("release_not_refreshed", 1)
		return
	}
	if !waitFor(30*time.Second, func() bool { return bytes.Equal(p.Get("u/"+base+cur, o).Body, b2.Tree[base+cur]) }) {
		c.Count("index_not_200", 1)
		return
	}
	skip := rng.Intn(2)
	for round := 0; round < 2; round++ {
		for j, f := range f2 {
			if round == 0 && j%2 == skip {
				continue // stays in the old version on disk
			}
			var r *Reply
			ok := waitFor(30*time.Second, func() bool {
				r = p.Get("u/"+f.Path, o)
				return r.Stuck != "" || r.Status == 200 || c.ID == "C01"
			})
			if r.Status == 200 && !b2.Listed[f.Path].Matches(r.Body) {
				c.Violate(nil, "round %d (1: after restart): %s answered 200 with content that does not match the current index Packages%s (stale Packages%s on disk)", round, f.Path, cur, old)
			}
			if r.Stuck != "" {
				c.Violate(nil, "round %d: %s never answered: %s", round, f.Path, r.Stuck)
			}
			if !ok {
				c.Violate(nil, "round %d (1: after restart): %s is not served although the current index Packages%s lists it and the upstream is healthy (stale Packages%s on disk): %s", round, f.Path, cur, old, r)
			}
			c.Eval(fmt.Sprintf("stale old=%s cur=%s round=%d %d", old, cur, round, r.Status))
		}
		if round == 0 {
			p.Kill()
			p = c.StartCacher(cc)
		}
	}
}

// ------------------------------------------------------------------ C02

func checkC02(c *Ctx) {
	dur := time.Duration(c.N(9, 120)) * time.Second
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		c02Paused(c)
	}()
	defer wg.Wait()
	c.Parallel(c.N(4, 8), 4, func(i int) { c02Stress(c, c.Rng(fmt.Sprint("stress", i)), i, dur) })
	if c.Failed() {
		return
	}
	c.Parallel(c.N(4, 16), 4, func(i int) { c02Slow(c, c.Rng(fmt.Sprint("slow", i)), i) })
	c02Framings(c)
	if !c.Failed() {
		c02Sizes(c)
	}
}

// c02Paused has transfers that pause for long, but end well.
func c02Paused(c *Ctx) {
	pause := time.Duration(c.N(33, 100)) * time.Second
	o := NewOrigin()
	defer o.Close()
	gate := make(chan struct{})
	o.Handle(func(pp string, n int, r *http.Request) *Resp {
		b := blob(rand.New(rand.NewSource(7)), pp, 100000)
		if strings.Contains(pp, "mid") {
			return &Resp{Body: b, MidGate: gate, Chunked: strings.Contains(pp, "chunked")}
		}
		return &Resp{Body: b, Gate: gate}
	})
	p := c.StartCacher(c.DefaultConf(map[string]string{"u": o.URL}))
	defer p.Kill()
	var wg sync.WaitGroup
	for _, pp := range []string{"/pool/mid.deb", "/pool/mid-chunked.deb", "/pool/late.deb", "/dists/mid/InRelease", "/dists/late/Release"} {
		pp := pp
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := p.Get("u"+pp, o)
			if r.Stuck != "" || r.Err != nil || r.Status != 200 || !bytes.Equal(r.Body, blob(rand.New(rand.NewSource(7)), pp, 100000)) {
				c.Violate(map[string]interface{}{"pause": pause.String(), "reply": r.String()}, "%s, which the upstream sends completely after a pause of %v, is not served: %s", pp, pause, r)
				return
			}
			c.Eval("paused " + pp)
		}()
	}
	time.Sleep(pause)
	close(gate)
	wg.Wait()
}

// c02Framings has every legal way to send a file answered with that file.
func c02Framings(c *Ctx) {
	rng := c.Rng("framings")
	chunks := func(b []byte, n int, ext string) string {
		var s strings.Builder
		for len(b) > 0 {
			if n > len(b) {
				n = len(b)
			}
			fmt.Fprintf(&s, "%x%s\r\n%s\r\n", n, ext, b[:n])
			b = b[n:]
		}
		return s.String() + "0" + ext + "\r\n"
	}
	type framing struct {
		name string
		f    func(b []byte) string
	}
	cl := func(pre, post string) func(b []byte) string {
		return func(b []byte) string { return fmt.Sprintf("%s%d%s%s", pre, len(b), post, b) }
	}
	te := "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n"
	fs := []framing{
		{"length", cl("HTTP/1.1 200 OK\r\nContent-Length: ", "\r\n\r\n")},
		{"lower case", cl("HTTP/1.1 200 OK\r\ncontent-length: ", "\r\n\r\n")},
		{"no space", cl("HTTP/1.1 200 OK\r\nContent-Length:", "\r\n\r\n")},
		{"no reason", cl("HTTP/1.1 200\r\nContent-Length: ", "\r\n\r\n")},
		{"odd reason", cl("HTTP/1.1 200 404 Not Found\r\nContent-Length: ", "\r\n\r\n")},
		{"bare LF", cl("HTTP/1.1 200 OK\nContent-Length: ", "\n\n")},
		{"HTTP/1.0 length", cl("HTTP/1.0 200 OK\r\nContent-Length: ", "\r\n\r\n")},
		{"HTTP/1.0 until close", func(b []byte) string { return "HTTP/1.0 200 OK\r\n\r\n" + string(b) }},
		{"until close", func(b []byte) string { return "HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n" + string(b) }},
		{"early hints", cl("HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 103 Early Hints\r\nLink: </x>\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: ", "\r\n\r\n")},
		{"many headers", cl("HTTP/1.1 200 OK\r\n"+strings.Repeat("X-Y: "+strings.Repeat("z", 100)+"\r\n", 300)+"Content-Length: ", "\r\n\r\n")},
		{"ranges and validators", cl("HTTP/1.1 200 OK\r\nAccept-Ranges: bytes\r\nETag: \"x\"\r\nLast-Modified: Mon, 02 Jan 2006 15:04:05 GMT\r\nAge: 5\r\nCache-Control: no-store\r\nContent-Length: ", "\r\n\r\n")},
		{"chunked", func(b []byte) string { return te + "\r\n" + chunks(b, 4096, "") + "\r\n" }},
		{"small chunks", func(b []byte) string { return te + "\r\n" + chunks(b, 7, "") + "\r\n" }},
		{"chunk extensions", func(b []byte) string { return te + "\r\n" + chunks(b, 1000, ";a=b") + "\r\n" }},
		{"trailers", func(b []byte) string { return te + "Trailer: X-Sum\r\n\r\n" + chunks(b, 1000, "") + "X-Sum: 5\r\n\r\n" }},
		{"encoded on demand", nil},
		{"content type", cl("HTTP/1.1 200 OK\r\nContent-Type: text/html; charset=x\r\nContent-Disposition: attachment\r\nSet-Cookie: a=b\r\nContent-Length: ", "\r\n\r\n")},
	}
	o := NewOrigin()
	defer o.Close()
	var mu sync.Mutex
	bodies := map[string][]byte{}
	how := map[string]framing{}
	o.Handle(func(pp string, n int, r *http.Request) *Resp {
		mu.Lock()
		defer mu.Unlock()
		if f, ok := how[pp]; ok {
			if f.f == nil {
				// encoded for clients that say they can decode
				return &Resp{Body: bodies[pp], Gzip: strings.Contains(r.Header.Get("Accept-Encoding"), "gzip")}
			}
			return &Resp{Raw: []byte(f.f(bodies[pp]))}
		}
		return nil
	})
	p := c.StartCacher(c.DefaultConf(map[string]string{"u": o.URL}))
	defer p.Kill()
	for k, f := range fs {
		for j, size := range []int{0, 1, 3000, 200000} {
			pp := fmt.Sprintf("/pool/f%d-%d.deb", k, j)
			if j == 2 {
				pp = fmt.Sprintf("/dists/f%d/InRelease", k)
			}
			b := blob(rng, pp, size)
			if size < len(b) {
				b = b[:size]
			}
			mu.Lock()
			bodies[pp], how[pp] = b, f
			mu.Unlock()
			for _, when := range []string{"first", "again"} {
				r := p.Get("u"+pp, o)
				if r.Stuck != "" || r.Err != nil || r.Status != 200 || !bytes.Equal(r.Body, b) {
					c.Violate(map[string]interface{}{"framing": f.name, "size": len(b), "reply": r.String()}, "a file of %d bytes which the upstream sends completely (%s) is not served (%s request): %s", len(b), f.name, when, r)
					return
				}
			}
			c.Eval(fmt.Sprintf("framing %s size=%d", f.name, size))
		}
	}
}

func c02Stress(c *Ctx, rng *rand.Rand, i int, dur time.Duration) {
	o := NewOrigin()
	defer o.Close()
	const nfiles = 14
	var paths []string
	for j := 0; j < nfiles; j++ {
		switch j % 7 {
		case 0:
			paths = append(paths, fmt.Sprintf("dists/s%d/InRelease", j))
		case 1:
			paths = append(paths, fmt.Sprintf("dists/s%d/Release", j))
		case 2:
			paths = append(paths, fmt.Sprintf("dists/s%d/main/binary-x/Packages.gz", j))
		default:
			paths = append(paths, fmt.Sprintf("pool/f%d.deb", j))
		}
	}
	var mu sync.Mutex
	seed := rng.Int63()
	frng := rand.New(rand.NewSource(rng.Int63()))
	o.Handle(func(pp string, n int, r *http.Request) *Resp {
		mu.Lock()
		defer mu.Unlock()
		brng := rand.New(rand.NewSource(seed + int64(len(pp))*7919 + int64(n)*104729))
		size := []int{0, 1, 100, 5000, 70000, 300000}[brng.Intn(6)]
		var b []byte
		if strings.Contains(pp, "Packages.gz") {
			b = compress(".gz", []byte(fmt.Sprintf("Package: x\nVersion: %d\nDescription: %x\n\n", n, brng.Int63())))
		} else if strings.Contains(pp, "Release") {
			// not parseable lists are accepted as they are
			b = []byte(fmt.Sprintf("Origin: %s\nLabel: %d %x\n", pp, n, blob(brng, pp, size)))
		} else {
			b = blob(brng, fmt.Sprintf("%s v%d", pp, n), size)
		}
		resp := &Resp{Status: 200, Body: b}
		switch frng.Intn(12) {
		case 0:
			resp.Trunc = true
		case 1:
			resp.Trunc, resp.Chunked = true, true
		case 2:
			resp.Reset = true
		case 3:
			resp.Status = 503
		case 4, 5:
			resp.Slow = 4
		case 6:
			resp.Chunked = true
		case 7: // announces less than it sends
			if len(b) > 10 {
				resp.Raw = []byte(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n%s", len(b)+5, b))
			}
		}
		return resp
	})
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.CheckInterval, cc.CachePeriod, cc.MaxConns = 1, 0, 4
	// a nearly full cache: every insertion evicts
	if i%2 == 0 {
		must(os.MkdirAll(filepath.Join(cc.Dir, "cache/u/pre"), 0755))
		f, err := os.Create(filepath.Join(cc.Dir, "cache/u/pre/fill.cache"))
		must(err)
		must(f.Truncate(1<<30 - 200000))
		f.Close()
	}
	p := c.StartCacher(cc)
	defer func() { p.Kill() }()
	end := time.Now().Add(dur)
	rounds := 3
	for rd := 0; rd < rounds && !c.Failed(); rd++ {
		var wg sync.WaitGroup
		stop := time.Now().Add(time.Until(end) / time.Duration(rounds-rd))
		for w := 0; w < 12; w++ {
			wg.Add(1)
			wr := rand.New(rand.NewSource(rng.Int63()))
			go func() {
				defer wg.Done()
				for time.Now().Before(stop) && !c.Failed() {
					k := paths[wr.Intn(len(paths))]
					if wr.Intn(12) == 0 { // a client that goes away
						p.abortingGet("u/"+k, wr.Intn(2000))
						continue
					}
					r := p.Get("u/"+k, o)
					if !p.Alive() {
						return
					}
					if r.Stuck != "" {
						c.Violate(nil, "%s: never answered: %s", k, r.Stuck)
						return
					}
					if r.Err != nil || r.Status != 200 {
						c.Eval("")
						continue
					}
					if !o.Served("/"+k, sha(r.Body)) {
						c.Violate(map[string]interface{}{"size": len(r.Body), "head": fmt.Sprintf("%.120q", r.Body)},
							"the body of a 200 response for %s (%d bytes) is not a complete upstream body of that path", k, len(r.Body))
						return
					}
					c.Eval(k + sha(r.Body))
				}
			}()
		}
		wg.Wait()
		if !p.Alive() {
			c.Violate(tail(p.stderr.String(), 3000), "go-apt-cacher died")
			return
		}
		if rd < rounds-1 {
			p.Kill()
			p = c.StartCacher(cc)
		}
	}
	c.Count("upstream_requests", o.Hits(""))
}

// abortingGet starts a request and leaves after n bytes.
func (p *CacherProc) abortingGet(k string, n int) {
	conn, err := netDial(p.Addr)
	if err != nil {
		return
	}
	defer conn.Close()
	fmt.Fprintf(conn, "GET %s HTTP/1.1\r\nHost: x\r\n\r\n", escapePath(k))
	conn.SetReadDeadline(time.Now().Add(time.Duration(n%50) * time.Millisecond))
	buf := make([]byte, n+1)
	conn.Read(buf)
}

// c02Slow: a client reads a large file slowly while it is replaced.
func c02Slow(c *Ctx, rng *rand.Rand, i int) {
	o := NewOrigin()
	defer o.Close()
	name := []string{"dists/t/InRelease", "dists/t/Release"}[i%2]
	mk := func(v int) []byte {
		var b bytes.Buffer
		fmt.Fprintf(&b, "Origin: v%d\n", v)
		line := fmt.Sprintf(" version %d %s\n", v, strings.Repeat(fmt.Sprint(v%10), 200))
		b.WriteString("Description:\n")
		for b.Len() < 24<<20 {
			b.WriteString(line)
		}
		return b.Bytes()
	}
	bodies := [][]byte{mk(1), mk(2), mk(3)}
	o.SetTree(map[string][]byte{name: bodies[0]})
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.CheckInterval, cc.CachePeriod = 1, 1
	p := c.StartCacher(cc)
	defer p.Kill()
	if r := p.Get("u/"+name, o); r.Status != 200 {
		c.Count("not_200", 1)
		return
	}
	for v := 1; v < 3; v++ {
		resp, err := p.Client.Get("http://" + p.Addr + "/u/" + name)
		if err != nil {
			giveUp("%v", err)
		}
		buf := make([]byte, 100000)
		got := 0
		for got < len(buf) {
			n, err := resp.Body.Read(buf[got:])
			got += n
			if err != nil {
				break
			}
		}
		o.SetTree(map[string][]byte{name: bodies[v]})
		ok := waitFor(60*time.Second, func() bool {
			r := p.Do("HEAD", "u/"+name, nil, o)
			return o.Served("/"+name, sha(bodies[v])) && r.Status == 200 && func() bool {
				g := p.Do("GET", "u/"+name, map[string]string{"Range": "bytes=0-9"}, o)
				return bytes.HasPrefix(g.Body, []byte(fmt.Sprintf("Origin: v%d", v+1)))
			}()
		})
		rest, err := readAll(resp.Body)
		resp.Body.Close()
		body := append(buf[:got:got], rest...)
		if err == nil && resp.StatusCode == 200 && !o.Served("/"+name, sha(body)) {
			c.Violate(map[string]interface{}{"size": len(body), "replaced_meanwhile": ok}, "a client reading %s slowly while it was replaced got a body that is no single upstream version", name)
			return
		}
		if ok {
			c.Eval(fmt.Sprintf("slow %s %d %d", name, i, v))
		} else {
			c.Eval("")
		}
	}
}

// ------------------------------------------------------------------ C03

func spellings(k string) []string {
	return []string{"/u/" + k, "//u//" + strings.ReplaceAll(k, "/", "//"), "/./u/./" + k, "/u/x/../" + k, "/" + "%75/" + k}
}

func checkC03(c *Ctx) {
	c.Parallel(c.N(16, 120), 8, func(i int) { c03Burst(c, c.Rng(fmt.Sprint("burst", i)), i) })
	if c.Failed() {
		return
	}
	c.Parallel(c.N(16, 160), 4, func(i int) { c03Edge(c, c.Rng(fmt.Sprint("edge", i)), i) })
	if c.Failed() {
		return
	}
	c.Parallel(c.N(6, 40), 6, func(i int) { c03Down(c, c.Rng(fmt.Sprint("down", i)), i) })
	if c.Failed() {
		return
	}
	c.Parallel(c.N(4, 16), 4, func(i int) { c03Refresh(c, c.Rng(fmt.Sprint("refresh", i)), i) })
	if !c.Failed() {
		c03Many(c)
	}
}

func c03Burst(c *Ctx, rng *rand.Rand, i int) {
	o := NewOrigin()
	defer o.Close()
	fam := randSums(rng)
	s := &Suite{Name: "t", Exts: []string{".gz"}, RelSums: fam, PkgSums: fam, Marker: "v1", NoRelease: true}
	good := PkgFile{Path: "pool/good.deb", Data: blob(rng, "good", 3000)}
	bad := PkgFile{Path: "pool/bad.deb", Data: blob(rng, "bad", 3000)}
	bl := ListingOf(blob(rng, "bad", 3000), fam)
	bad.List = &bl
	s.Comps = []*Comp{{Section: "main", Arch: "amd64", Pkgs: []PkgFile{good, bad}}}
	b := (&Repo{Suites: []*Suite{s}, Extra: map[string][]byte{"pool/unlisted.deb": blob(rng, "u", 3000), "dists/t/Release": []byte("Origin: x\n")}}).Build()
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.MaxConns = []int{0, 1, 10}[i%3]
	p := c.StartCacher(cc)
	defer p.Kill()
	type tgt struct {
		path, fault string
		n           int
	}
	targets := []tgt{
		{"dists/t/InRelease", "", 12}, {"dists/t/main/binary-amd64/Packages.gz", "", 12},
		{"pool/good.deb", "", 16}, {"pool/unlisted.deb", "", 16}, {"pool/bad.deb", "mismatch", 10},
		{"pool/none.deb", "404", 10}, {"pool/trunc.deb", "trunc", 10}, {"pool/reset.deb", "reset", 10}, {"dists/t/Release", "", 8}, {"pool/empty.deb", "", 8},
	}
	b.Tree["pool/trunc.deb"] = blob(rng, "trunc", 3000)
	b.Tree["pool/empty.deb"] = []byte{}
	for ti, t := range targets {
		gate := make(chan struct{})
		tt := t
		o.Handle(func(pp string, n int, r *http.Request) *Resp {
			data, ok := b.Tree[strings.TrimPrefix(pp, "/")]
			resp := &Resp{Status: 200, Body: data, Gate: gate}
			if rng := n; rng >= 0 && tt.path == strings.TrimPrefix(pp, "/") {
				switch tt.fault {
				case "trunc":
					resp.Trunc = true
				case "reset":
					resp.Reset = true
				}
			}
			if !ok {
				resp.Status, resp.Body = 404, []byte("none")
				if tt.fault == "reset" {
					resp.Status = 200
				}
			}
			return resp
		})
		var wg sync.WaitGroup
		replies := make([]*Reply, t.n)
		sp := spellings(t.path)
		for j := 0; j < t.n; j++ {
			wg.Add(1)
			m := "GET"
			if rng.Intn(4) == 0 {
				m = "HEAD"
			}
			u := "http://" + p.Addr + sp[rng.Intn(len(sp))]
			go func(j int) {
				defer wg.Done()
				replies[j] = p.DoURL(m, u, t.path, nil, o)
				replies[j].Path = m
			}(j)
			if rng.Intn(3) == 0 {
				time.Sleep(time.Millisecond)
			}
		}
		if !waitFor(30*time.Second, func() bool { return o.Hits("/"+t.path) > 0 }) {
			close(gate)
			wg.Wait()
			giveUp("no upstream request for %s", t.path)
		}
		time.Sleep(time.Duration(30+rng.Intn(50)) * time.Millisecond)
		close(gate)
		wg.Wait()
		hits := o.Hits("/" + t.path)
		// A GET with a reset connection may be repeated by the HTTP client
		// on a re-used connection before any answer arrived.
		limit := 1
		if t.fault == "reset" {
			limit = 2
		}
		if _, mx := o.MaxPath(); mx > 1 {
			pp, _ := o.MaxPath()
			c.Violate(nil, "%d transfers of %s in progress at once", mx, pp)
			return
		}
		if hits > limit {
			c.Violate(map[string]interface{}{"clients": t.n, "fault": t.fault}, "%d clients waiting for %s (%s) caused %d upstream requests", t.n, t.path, t.fault, hits)
			return
		}
		for _, r := range replies {
			if r.Stuck != "" {
				c.Violate(nil, "%s: a waiting client was never answered: %s", t.path, r.Stuck)
				return
			}
			if t.fault == "" {
				if r.Err != nil || r.Status != 200 || (r.Path == "GET" && !bytes.Equal(r.Body, b.Tree[t.path])) {
					c.Violate(nil, "%s: a client waiting for a successful transfer got %v", t.path, r)
					return
				}
			} else if r.Err == nil && r.Status < 400 {
				c.Violate(nil, "%s: a client waiting for a failed transfer (%s) got %v", t.path, t.fault, r)
				return
			}
		}
		c.Eval(fmt.Sprintf("burst %s fault=%s max_conns=%d n=%d", t.path, t.fault, cc.MaxConns, t.n))
		if t.fault == "" {
			for j := 0; j < 3; j++ {
				r := p.DoURL([]string{"GET", "HEAD"}[j%2], "http://"+p.Addr+sp[j%len(sp)], t.path, nil, o)
				if r.Status != 200 {
					c.Violate(nil, "cached %s answered %v", t.path, r)
				}
			}
			if o.Hits("/"+t.path) != hits {
				c.Violate(nil, "cached and valid file %s was requested from the upstream again", t.path)
				return
			}
		}
		_ = ti
	}
}

// c03Down: everything cached is served with the upstream gone.
// c03Edge lets requests arrive around the moment a transfer ends, with
// delays injected into go-apt-cacher.  Whenever they come, one transfer
// must do: of a file as it is cached then, of a failure as it is remembered.
func c03Edge(c *Ctx, rng *rand.Rand, i int) {
	o := NewOrigin()
	defer o.Close()
	var l []PkgFile
	n := c.N(60, 150)
	for j := 0; j < n; j++ {
		l = append(l, PkgFile{Path: fmt.Sprintf("pool/listed%d.deb", j), Data: []byte(fmt.Sprint("content ", j))})
	}
	var ix bytes.Buffer
	writePackages(&ix, l, randSums(rng), map[string]Listing{})
	tree := map[string][]byte{"dists/t/Packages": ix.Bytes()}
	for j, f := range l {
		tree[f.Path] = f.Data
		tree[fmt.Sprintf("pool/free%d.deb", j)] = []byte(fmt.Sprint("free ", j))
		tree[fmt.Sprintf("dists/t%d/Packages", j)] = []byte(fmt.Sprintf("Package: x\nFilename: pool/other%d\nSize: 1\nMD5sum: %s\n\n", j, randHex(rng, 16)))
	}
	o.SetTree(tree)
	o.Handle(func(pp string, n int, r *http.Request) *Resp {
		if strings.HasPrefix(pp, "/fail") {
			return &Resp{Status: 404}
		}
		return nil
	})
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.MaxConns = []int{10, 0, 1, 2}[i%4]
	cc.Yield = uint64(rng.Int63())
	if i%8 == 7 {
		cc.Yield = 0
	}
	p := c.StartCacher(cc)
	defer p.Kill()
	p.Get("u/dists/t/Packages", o)
	kinds := []string{"pool/listed%d.deb", "pool/free%d.deb", "fail/%d", "dists/t%d/Packages"}
	for j := 0; j < n && !c.Failed(); j++ {
		k := fmt.Sprintf(kinds[(i+j)%len(kinds)], j)
		var wg sync.WaitGroup
		m := 6 + rng.Intn(10)
		span := []int{1, 3, 8}[rng.Intn(3)]
		var bad int32
		for w := 0; w < m; w++ {
			wg.Add(1)
			at := time.Duration(rng.Intn(span*1000)) * time.Microsecond
			go func() {
				defer wg.Done()
				time.Sleep(at)
				r := p.Get("u/"+k, o)
				if r.Stuck != "" {
					c.Violate(nil, "%s was never answered: %s", k, r.Stuck)
				}
				if d, ok := tree[k]; ok && (r.Status != 200 || !bytes.Equal(r.Body, d)) || !ok && r.Status != 404 {
					if atomic.AddInt32(&bad, 1) == 1 {
						c.Violate(nil, "%s with a healthy upstream, requested by %d clients around the moment its transfer ends: %s", k, m, r)
					}
				}
			}()
		}
		wg.Wait()
		if h := o.Hits("/" + k); h != 1 {
			c.Violate(map[string]interface{}{"clients": m, "arriving_within_ms": span, "delays": cc.Yield},
				"%s was transferred %d times for %d clients that arrived around the moment the first transfer ended", k, h, m)
			return
		}
		c.Count("bursts_at_the_end_of_a_transfer", 1)
		c.Eval(fmt.Sprintf("edge %s clients=%d span=%d limit=%d", kinds[(i+j)%len(kinds)], m, span, cc.MaxConns))
	}
	if pp, n := o.MaxPath(); n > 1 {
		c.Violate(nil, "%d transfers of %s in progress at once", n, pp)
	}
}

func c03Down(c *Ctx, rng *rand.Rand, i int) {
	o := NewOrigin()
	defer o.Close()
	g := GenOpts{Suites: []string{"t", "t-updates"}, Sections: []string{"main", "universe"}, Archs: []string{"amd64"}, Source: true, PkgsPer: 4, MaxSize: 2000,
		Exts: []string{"", ".gz", ".xz"}, SubRelease: true, I18n: true}
	b := GenRepo(rng, g).Build()
	o.SetTree(b.Tree)
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	if i%2 == 1 {
		cc.CheckInterval = 1 // refreshes keep failing below
	}
	p := c.StartCacher(cc)
	defer func() { p.Kill() }()
	keys := sortedKeys(b.Tree)
	sort.SliceStable(keys, func(x, y int) bool { return rankPath(keys[x]) < rankPath(keys[y]) })
	for _, k := range keys {
		if r := p.Get("u/"+k, o); r.Status != 200 || !bytes.Equal(r.Body, b.Tree[k]) {
			c.Violate(nil, "GET %s: %v", k, r)
			return
		}
	}
	hitsBefore := o.Hits("")
	if i%3 == 0 {
		o.Handle(func(string, int, *http.Request) *Resp { return &Resp{Status: 500} })
	} else {
		o.Close()
	}
	if cc.CheckInterval == 1 {
		time.Sleep(2500 * time.Millisecond)
	}
	rng.Shuffle(len(keys), func(x, y int) { keys[x], keys[y] = keys[y], keys[x] })
	for phase := 0; phase < 2; phase++ {
		for _, k := range keys {
			if _, listed := b.Listed[k]; phase == 1 && !listed && rankPath(k) != 0 {
				continue
			}
			h := o.Hits("/" + k)
			r := p.Get("u/"+k, o)
			if r.Status != 200 || !bytes.Equal(r.Body, b.Tree[k]) {
				c.Violate(nil, "phase %d (1: restarted), upstream down: cached file %s answered %v", phase, k, r)
				return
			}
			if rankPath(k) != 0 && o.Hits("/"+k) != h {
				c.Violate(nil, "cached and valid file %s was requested from the upstream again", k)
				return
			}
			c.Eval(fmt.Sprintf("down phase=%d interval=%d %s", phase, cc.CheckInterval, path.Base(k)))
		}
		if phase == 0 {
			p.Kill()
			p = c.StartCacher(cc)
		}
	}
	if cc.CheckInterval != 1 && o.Hits("") != hitsBefore {
		c.Violate(nil, "the upstream was contacted %d times although everything was cached", o.Hits("")-hitsBefore)
	}
}

// c03Refresh: slow refreshes and clients of the same path.
func c03Refresh(c *Ctx, rng *rand.Rand, i int) {
	o := NewOrigin()
	defer o.Close()
	var ver int64
	var mu sync.Mutex
	o.Handle(func(pp string, n int, r *http.Request) *Resp {
		mu.Lock()
		ver++
		v := ver
		mu.Unlock()
		st := 200
		if n > 0 && n%4 == 3 {
			st = 500
		}
		return &Resp{Status: st, Body: []byte(fmt.Sprintf("Origin: x\nLabel: %d\n", v)), Slow: 12, Gate: afterCh(time.Duration(200+100*(n%5)) * time.Millisecond)}
	})
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.CheckInterval, cc.CachePeriod = 1, 0
	p := c.StartCacher(cc)
	defer p.Kill()
	end := time.Now().Add(time.Duration(c.N(4, 20)) * time.Second)
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		wg.Add(1)
		wr := rand.New(rand.NewSource(rng.Int63()))
		go func() {
			defer wg.Done()
			for time.Now().Before(end) && !c.Failed() {
				k := []string{"dists/a/InRelease", "dists/a/Release", "dists/a/Release.gpg"}[wr.Intn(3)]
				r := p.Get("u/"+k, o)
				if r.Stuck != "" {
					c.Violate(nil, "%s never answered: %s", k, r.Stuck)
				}
				time.Sleep(time.Duration(wr.Intn(20)) * time.Millisecond)
			}
		}()
	}
	wg.Wait()
	if pp, n := o.MaxPath(); n > 1 {
		c.Violate(nil, "%d transfers of %s in progress at once during refreshes", n, pp)
	}
	if ver > 6 {
		c.Eval(fmt.Sprintf("refresh %d", i))
	} else {
		c.Eval("")
	}
	c.Count("refresh_transfers", int(ver))
}

func afterCh(d time.Duration) <-chan struct{} {
	ch := make(chan struct{})
	time.AfterFunc(d, func() { close(ch) })
	return ch
}

// ------------------------------------------------------------------ C04

// failure describes one way for a transfer to fail.
type failure struct {
	name   string
	status int // expected client status, 0 = any error status
	resp   func(body []byte) *Resp
}

func failures() []failure {
	var l []failure
	for _, s := range []int{400, 401, 403, 404, 405, 406, 408, 410, 416, 418, 421, 429, 451, 499, 500, 501, 502, 503, 504, 507, 599} {
		s := s
		l = append(l, failure{fmt.Sprint(s), s, func([]byte) *Resp { return &Resp{Status: s, Body: []byte("error page")} }})
	}
	l = append(l,
		failure{"trunc", 0, func(b []byte) *Resp { return &Resp{Status: 200, Body: b, Trunc: true} }},
		failure{"trunc-1", 0, func(b []byte) *Resp { return &Resp{Status: 200, Body: b, Trunc: true, TruncAt: len(b) - 1} }},
		failure{"trunc-chunked", 0, func(b []byte) *Resp { return &Resp{Status: 200, Body: b, Trunc: true, Chunked: true} }},
		failure{"trunc-in-chunk", 0, func(b []byte) *Resp {
			return &Resp{Raw: []byte(fmt.Sprintf("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n%x\r\n%s", len(b)+7, b))}
		}},
		failure{"trunc-large", 0, func(b []byte) *Resp {
			d := bytes.Repeat([]byte("large"), 700000)
			return &Resp{Status: 200, Body: d, Trunc: true, TruncAt: len(d) - 1}
		}},
		failure{"trunc-huge-chunked", 0, func(b []byte) *Resp {
			return &Resp{Status: 200, Body: bytes.Repeat([]byte("huge!"), 4000000), Trunc: true, Chunked: true}
		}},
		failure{"reset", 0, func(b []byte) *Resp { return &Resp{Reset: true, Body: b} }},
		failure{"garbage", 0, func(b []byte) *Resp { return &Resp{Raw: []byte("SSH-2.0-nothttp\r\n")} }},
		failure{"close", 0, func(b []byte) *Resp { return &Resp{Raw: []byte("HTTP/1.1 ")} }},
	)
	return l
}

func checkC04(c *Ctx) {
	fs := failures()
	kinds := []string{"plain", "listed", "index", "unlisted-index"}
	type job struct {
		f    failure
		kind string
	}
	var jobs []job
	for _, k := range kinds {
		for _, f := range fs {
			jobs = append(jobs, job{f, k})
		}
		if k == "listed" || k == "index" {
			jobs = append(jobs, job{failure{"mismatch", 0, func(b []byte) *Resp {
				d := append([]byte{}, b...)
				d[len(d)/2] ^= 1
				return &Resp{Status: 200, Body: d}
			}}, k})
			jobs = append(jobs, job{failure{"longer", 0, func(b []byte) *Resp {
				return &Resp{Status: 200, Body: append(append([]byte{}, b...), 'x')}
			}}, k})
			jobs = append(jobs, job{failure{"shorter", 0, func(b []byte) *Resp {
				return &Resp{Status: 200, Body: b[:len(b)-1], Chunked: true}
			}}, k})
		}
	}
	// with an endless period: exact counts
	workers := 8
	c.Parallel(workers, workers, func(w int) {
		o := NewOrigin()
		defer o.Close()
		cc := c.DefaultConf(map[string]string{"u": o.URL})
		if w%2 == 1 {
			cc.MaxConns = 1
		}
		p := c.StartCacher(cc)
		defer func() { p.Kill() }()
		for i := w; i < len(jobs) && !c.Failed(); i += workers {
			c04Endless(c, c.Rng(fmt.Sprint("endless", i)), o, p, i, jobs[i].f, jobs[i].kind)
			if !p.Alive() {
				c.Violate(tail(p.stderr.String(), 3000), "go-apt-cacher died on %s/%s", jobs[i].f.name, jobs[i].kind)
				return
			}
		}
	})
	if c.Failed() {
		return
	}
	// short period: remembered, then retried and recovered
	sel := jobs
	if !c.Thorough() {
		rng := c.Rng("sel")
		sel = append([]job{}, jobs...)
		rng.Shuffle(len(sel), func(a, b int) { sel[a], sel[b] = sel[b], sel[a] })
		if len(sel) > 60 {
			sel = sel[:60]
		}
	}
	c.Parallel(5, 5, func(w int) {
		o := NewOrigin()
		defer o.Close()
		period := []int{1, 2, 1, 3, 0}[w]
		cc := c.DefaultConf(map[string]string{"u": o.URL})
		cc.CachePeriod = period
		if period == 0 {
			cc.Yield = uint64(c.Seed)*7 + 1
		}
		p := c.StartCacher(cc)
		defer p.Kill()
		var wg sync.WaitGroup
		for i := w; i < len(sel); i += 5 {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				c.Guard("recover", func() {
					c04Recover(c, c.Rng(fmt.Sprint("recover", i)), o, p, i, period, sel[i].f, sel[i].kind)
				})
			}(i)
		}
		wg.Wait()
	})
	if c.Failed() {
		return
	}
	c.Parallel(c.N(2, 12), 4, func(i int) { c04Slow(c, c.Rng(fmt.Sprint("slow", i)), i) })
	if c.Failed() {
		return
	}
	c.Parallel(c.N(4, 12), 4, func(i int) { c04Timer(c, c.Rng(fmt.Sprint("timer", i)), i) })
	if !c.Failed() {
		c04Many(c)
	}
}

// c04Target sets up a path of the kind and returns it with its body.
func c04Target(c *Ctx, rng *rand.Rand, o *Origin, p *CacherProc, id int, kind string, set func(pp string, h func(n int) *Resp)) (string, []byte, bool) {
	dir := fmt.Sprintf("dists/s%d", id)
	var k string
	var body []byte
	switch kind {
	case "plain":
		k = fmt.Sprintf("pool/s%d/x.deb", id)
		body = blob(rng, k, 500+rng.Intn(4000))
	case "unlisted-index":
		k = dir + "/main/binary-amd64/Packages"
		body = []byte(fmt.Sprintf("Package: x\nDescription: %s\n\n", strings.Repeat("y", 500+rng.Intn(500))))
	default:
		fam := randSums(rng)
		cs := &c01Case{path: fmt.Sprintf("pool/s%d/x.deb", id)}
		ik, ext := "packages", []string{"", ".gz", ".xz"}[rng.Intn(3)]
		body = blob(rng, cs.path, 500+rng.Intn(4000))
		if kind == "index" {
			ik, ext = "inrelease", ""
			cs.path = dir + "/main/binary-amd64/Packages"
			body = []byte(fmt.Sprintf("Package: x\nDescription: %s\n\n", strings.Repeat("y", 500+rng.Intn(500))))
		}
		k = cs.path
		cs.l = ListingOf(body, fam)
		ip, idata := c01Index(ik, ext, dir, fam, []*c01Case{cs})
		set("/"+ip, func(int) *Resp { return &Resp{Status: 200, Body: idata} })
		if r := p.Get("u/"+ip, o); r.Status != 200 {
			c.Violate(nil, "healthy index %s answered %v", ip, r)
			return "", nil, false
		}
	}
	return k, body, true
}

func c04Handlers(o *Origin) func(pp string, h func(n int) *Resp) {
	var mu sync.Mutex
	hs := map[string]func(n int) *Resp{}
	o.Handle(func(pp string, n int, r *http.Request) *Resp {
		mu.Lock()
		h := hs[pp]
		mu.Unlock()
		if h == nil {
			return nil
		}
		return h(n)
	})
	return func(pp string, h func(n int) *Resp) { mu.Lock(); hs[pp] = h; mu.Unlock() }
}

func c04Endless(c *Ctx, rng *rand.Rand, o *Origin, p *CacherProc, i int, f failure, kind string) {
	set := c04Handlers(o)
	k, body, ok := c04Target(c, rng, o, p, i, kind, set)
	if !ok {
		return
	}
	set("/"+k, func(int) *Resp { return f.resp(body) })
	n := 3 + rng.Intn(4)
	limit := 1
	if f.resp(body).Reset || f.resp(body).Raw != nil {
		limit = 2 // net/http may repeat on a stale connection
	}
	what := fmt.Sprintf("%s file, upstream failure %s", kind, f.name)
	judge := func(r *Reply, when string) bool {
		switch {
		case r.Stuck != "":
			c.Violate(nil, "%s: %s request was not answered: %s", what, when, r.Stuck)
		case r.Err != nil:
			c.Violate(nil, "%s: %s request got no HTTP answer: %v", what, when, r.Err)
		case f.status != 0 && r.Status != f.status:
			c.Violate(nil, "%s: %s request was answered %d instead of the upstream's status", what, when, r.Status)
		case r.Status < 400:
			c.Violate(nil, "%s: %s request was answered %v, no error", what, when, r)
		default:
			return true
		}
		return false
	}
	// concurrent first requests
	var wg sync.WaitGroup
	rs := make([]*Reply, n)
	for j := range rs {
		wg.Add(1)
		go func(j int) { defer wg.Done(); rs[j] = p.Do([]string{"GET", "HEAD"}[j%2], "u/"+k, nil, o) }(j)
	}
	wg.Wait()
	for _, r := range rs {
		if !judge(r, "first") {
			return
		}
	}
	h := o.Hits("/" + k)
	if h > limit {
		c.Violate(nil, "%s: %d clients caused %d upstream requests within cache_period", what, n, h)
		return
	}
	// the upstream recovers, but the failure is remembered
	set("/"+k, func(int) *Resp { return &Resp{Status: 200, Body: body} })
	for j := 0; j < 3; j++ {
		r := p.Do([]string{"GET", "HEAD"}[j%2], "u/"+k, nil, o)
		if !judge(r, "repeated") {
			return
		}
	}
	if hh := o.Hits("/" + k); hh != h {
		c.Violate(nil, "%s: the upstream was contacted again within cache_period (%d requests)", what, hh)
		return
	}
	c.Eval(what)
}

func c04Recover(c *Ctx, rng *rand.Rand, o *Origin, p *CacherProc, i, period int, f failure, kind string) {
	// one handler table per origin; the jobs of a worker use distinct paths
	set := c04Shared(o)
	k, body, ok := c04Target(c, rng, o, p, i, kind, set)
	if !ok {
		return
	}
	what := fmt.Sprintf("%s file, upstream failure %s, cache_period %d", kind, f.name, period)
	set("/"+k, func(int) *Resp { return f.resp(body) })
	P := int64(period) * int64(time.Second)
	var firstCall int64 = -1
	for round := 0; round < 2; round++ {
		// the failure may be remembered from the round before; wait for a fresh one
		h0 := o.Hits("/" + k)
		var r *Reply
		got := waitFor(90*time.Second, func() bool {
			r = p.Get("u/"+k, o)
			if r.Stuck != "" || r.Err != nil || r.Status < 400 {
				return true
			}
			firstCall = r.Call
			return o.Hits("/"+k) > h0
		})
		switch {
		case r.Stuck != "":
			c.Violate(nil, "%s: request was not answered: %s", what, r.Stuck)
			return
		case r.Err != nil || r.Status < 400:
			c.Violate(nil, "%s: request was answered %v, no error", what, r)
			return
		case !got:
			c.Violate(nil, "%s: the failure is still answered without contacting the upstream after 90 s", what)
			return
		}
		// within the period: no request at all
		h1 := o.Hits("/" + k)
		for j := 0; j < 4; j++ {
			r2 := p.Get("u/"+k, o)
			if r2.Ret-firstCall < P {
				if o.Hits("/"+k) != h1 && now()-firstCall < P {
					c.Violate(nil, "%s: the upstream was contacted again %v after the failure", what, time.Duration(r2.Ret-firstCall))
					return
				}
				c.Count("within_period", 1)
			} else {
				break
			}
			time.Sleep(time.Duration(rng.Int63n(P/6 + 1)))
		}
	}
	// recovery
	set("/"+k, func(int) *Resp { return &Resp{Status: 200, Body: body} })
	var r *Reply
	ok = waitFor(90*time.Second, func() bool { r = p.Get("u/"+k, o); return r.Status == 200 || r.Stuck != "" })
	if !ok || r.Status != 200 || !bytes.Equal(r.Body, body) {
		c.Violate(nil, "%s: not served 90 s after the upstream recovered: %v", what, r)
		return
	}
	c.Eval("recovered " + what)
}

var c04mu sync.Mutex
var c04tables = map[*Origin]func(string, func(int) *Resp){}

func c04Shared(o *Origin) func(string, func(int) *Resp) {
	c04mu.Lock()
	defer c04mu.Unlock()
	if s := c04tables[o]; s != nil {
		return s
	}
	s := c04Handlers(o)
	c04tables[o] = s
	return s
}

// c04Slow: a failure that takes longer than the period is remembered from
// when it is known.
func c04Slow(c *Ctx, rng *rand.Rand, i int) {
	o := NewOrigin()
	defer o.Close()
	const period = 2
	set := c04Handlers(o)
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.CachePeriod = period
	p := c.StartCacher(cc)
	defer p.Kill()
	fs := failures()
	var wg sync.WaitGroup
	for j := 0; j < 12; j++ {
		wg.Add(1)
		f := fs[rng.Intn(len(fs))]
		if j%3 == 0 {
			f = fs[len(fs)-1-rng.Intn(6)]
		}
		seed := rng.Int63()
		go func(j int) {
			defer wg.Done()
			k := fmt.Sprintf("pool/slow%d.deb", j)
			body := blob(rand.New(rand.NewSource(seed)), k, 5000)
			gate := make(chan struct{})
			set("/"+k, func(n int) *Resp {
				r := f.resp(body)
				if n == 0 {
					r.Gate = gate
				}
				return r
			})
			got := make(chan *Reply, 1)
			go func() { got <- p.Get("u/"+k, o) }()
			if !waitFor(20*time.Second, func() bool { return o.Hits("/"+k) > 0 }) {
				close(gate)
				<-got
				return
			}
			time.Sleep((period*1000 + 300) * time.Millisecond)
			known := now() // not before
			close(gate)
			r := <-got
			what := fmt.Sprintf("upstream failure %s after %d.3 s, cache_period %d", f.name, period, period)
			if r.Stuck != "" || r.Err != nil || r.Status < 400 {
				c.Violate(nil, "%s: answered %v", what, r)
				return
			}
			n := 0
			h0 := o.Hits("/" + k) // Go's transport repeats a request on a reused connection that broke without an answer
			for {
				p.Get("u/"+k, o)
				if hh := o.Hits("/" + k); now()-known >= int64(period*time.Second) {
					break
				} else if hh != h0 {
					c.Violate(nil, "%s: the upstream was contacted again %v after the failure", what, time.Duration(now()-known))
					return
				}
				n++
				time.Sleep(150 * time.Millisecond)
			}
			if n > 2 {
				c.Eval("slow " + f.name)
			}
		}(j)
	}
	wg.Wait()
}

// c04Timer: the memory of a failure is not cut short by an earlier download.
func c04Timer(c *Ctx, rng *rand.Rand, i int) {
	o := NewOrigin()
	defer o.Close()
	const period = 4
	set := c04Handlers(o)
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.CachePeriod = period
	p := c.StartCacher(cc)
	defer p.Kill()
	k := "pool/x.deb"
	body := blob(rng, k, 1000)
	cs := &c01Case{path: k, l: ListingOf(blob(rng, k, 1000), allSums)}
	ip, idata := c01Index("packages", "", "dists/t", allSums, []*c01Case{cs})
	set("/"+ip, func(int) *Resp { return &Resp{Status: 200, Body: idata} })
	set("/"+k, func(int) *Resp { return &Resp{Status: 200, Body: body} })
	if r := p.Get("u/"+k, o); r.Status != 200 {
		c.Count("not_200", 1)
		return
	}
	t1 := now()
	if r := p.Get("u/"+ip, o); r.Status != 200 {
		c.Count("index_not_200", 1)
		return
	}
	time.Sleep(time.Duration(2500+rng.Intn(1000)) * time.Millisecond)
	r := p.Get("u/"+k, o) // does not match the index any more
	if r.Stuck != "" {
		c.Violate(nil, "mismatching file never answered: %s", r.Stuck)
		return
	}
	if r.Status < 400 {
		c.Violate(nil, "mismatching file answered %v", r)
		return
	}
	h := o.Hits("/" + k)
	// cross the end of the first download's period
	for now()-t1 < int64(period*time.Second)+int64(300*time.Millisecond) {
		time.Sleep(20 * time.Millisecond)
	}
	r2 := p.Get("u/"+k, o)
	hh := o.Hits("/" + k)
	if now()-r.Call < int64(period*time.Second) {
		if hh != h {
			c.Violate(map[string]interface{}{"failed_at_ms": r.Call / 1e6, "again_at_ms": r2.Call / 1e6}, "a failure was forgotten %v after it happened although cache_period is %d s", time.Duration(r2.Ret-r.Call), period)
			return
		}
		c.Eval(fmt.Sprintf("timer %d", i))
	} else {
		c.Eval("")
	}
}

// ------------------------------------------------------------------ C05

func checkC05(c *Ctx) {
	limits := []int{1, 2, 3, 5, 10, 0, 300}
	n := c.N(14, 84)
	c.Parallel(n, 6, func(i int) { c05Run(c, c.Rng(fmt.Sprint("case", i)), i, limits[i%len(limits)]) })
	c.Parallel(c.N(20, 80), 10, func(i int) { c05Churn(c, c.Rng(fmt.Sprint("churn", i)), i) })
	if c.Failed() {
		return
	}
	c.Parallel(c.N(4, 16), 4, func(i int) { c05Refresh(c, c.Rng(fmt.Sprint("refresh", i)), 1+i%3, i) })
}

// c05Refresh: the regular refreshes of Release files count as well.
// c05Churn lets a small number of clients come and go, so that the host is
// often left without any transfer just when the next one is wanted.
func c05Churn(c *Ctx, rng *rand.Rand, i int) {
	o := NewOrigin()
	defer o.Close()
	K := 1 + i%2
	o.Handle(func(pp string, k int, r *http.Request) *Resp {
		if len(pp)%5 == 0 {
			return &Resp{Status: 503, Body: []byte("later")}
		}
		return &Resp{Body: []byte("body of " + pp), Slow: 2}
	})
	cc := c.DefaultConf(map[string]string{"u": o.URL + "/x", "v": o.URL + "/y/"})
	cc.MaxConns = K
	cc.CachePeriod = 1
	if i%4 != 3 {
		cc.Yield = uint64(rng.Int63())
	}
	p := c.StartCacher(cc)
	defer p.Kill()
	clients := K + 1 + i%3
	end := time.Now().Add(time.Duration(c.N(3, 15)) * time.Second)
	var wg sync.WaitGroup
	var n, bad int32
	for j := 0; j < clients; j++ {
		r := rand.New(rand.NewSource(rng.Int63()))
		j := j
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; time.Now().Before(end) && atomic.LoadInt32(&bad) == 0 && k < 3000; k++ {
				q := fmt.Sprintf("pool/%d-%d%s", j, k, strings.Repeat("x", r.Intn(4)))
				rep := p.Get([]string{"u/", "v/"}[r.Intn(2)]+q, o)
				if rep.Stuck != "" || rep.Err != nil {
					atomic.StoreInt32(&bad, 1)
					c.Violate(nil, "max_conns=%d: %s: %v", K, q, rep)
					return
				}
				atomic.AddInt32(&n, 1)
				time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
			}
		}()
	}
	wg.Wait()
	if mx := o.Max(); mx > K {
		c.Violate(map[string]interface{}{"clients": clients, "requests": n, "delays": cc.Yield}, "max_conns=%d: %d transfers in progress to one host while clients come and go", K, mx)
		return
	}
	c.Count("churn_requests", int(n))
	c.Eval(fmt.Sprintf("churn K=%d clients=%d delays=%v", K, clients, cc.Yield != 0))
}

func c05Refresh(c *Ctx, rng *rand.Rand, K, i int) {
	o := NewOrigin()
	defer o.Close()
	cc := c.DefaultConf(map[string]string{"u": o.URL + "/x", "v": o.URL + "/y/"})
	cc.MaxConns = K
	cc.CheckInterval = 1
	cc.CachePeriod = 0
	p := c.StartCacher(cc)
	defer p.Kill()
	gate := make(chan struct{})
	o.Handle(func(pp string, k int, r *http.Request) *Resp {
		if strings.Contains(pp, "/pool/") {
			return &Resp{Body: []byte("body of " + pp), Gate: gate}
		}
		return &Resp{Body: []byte(fmt.Sprintf("Origin: %d\n", k))}
	})
	for j := 0; j < 6; j++ {
		k := fmt.Sprintf("%s/dists/t%d/%s", []string{"u", "v"}[j%2], j, []string{"Release", "InRelease"}[j/2%2])
		if r := p.Get(k, o); r.Status != 200 {
			c.Violate(nil, "max_conns=%d: %s is not served: %v", K, k, r)
			return
		}
	}
	var wg sync.WaitGroup
	for j := 0; j < K+2; j++ {
		k := fmt.Sprintf("%s/pool/%d", []string{"u", "v"}[j%2], j)
		wg.Add(1)
		go func() {
			defer wg.Done()
			if r := p.Get(k, o); r.Stuck != "" || r.Status != 200 {
				c.Violate(nil, "max_conns=%d, refreshes going on: %s: %v", K, k, r)
			}
		}()
	}
	time.Sleep(time.Duration(2200+rng.Intn(800)) * time.Millisecond)
	mx := o.Max()
	close(gate)
	wg.Wait()
	if o.Max() > mx {
		mx = o.Max()
	}
	if mx > K {
		c.Violate(nil, "max_conns=%d: %d transfers in progress to one host while Release files are re-checked", K, mx)
		return
	}
	// and the refreshes go on
	h := o.Hits("/x/dists/t0/Release")
	if !waitFor(60*time.Second, func() bool { return o.Hits("/x/dists/t0/Release") > h }) {
		c.Violate(nil, "max_conns=%d: Release is not re-checked any more", K)
		return
	}
	c.Eval(fmt.Sprintf("refresh K=%d", K))
}

func c05Run(c *Ctx, rng *rand.Rand, i, K int) {
	a, b := NewOrigin(), NewOrigin()
	defer a.Close()
	defer b.Close()
	cc := c.DefaultConf(map[string]string{"u": a.URL + "/x", "v": a.URL + "/y/", "w": b.URL})
	cc.MaxConns = K
	cc.CachePeriod = 0
	p := c.StartCacher(cc)
	defer p.Kill()
	seq := 0
	// burst starts n requests on both prefixes of host A, held by a gate
	burst := func(name string, n int) bool {
		gate := make(chan struct{})
		a.ResetMax()
		h0 := a.Hits("")
		a.Handle(func(pp string, k int, r *http.Request) *Resp {
			return &Resp{Status: 200, Body: []byte("body of " + pp), Gate: gate}
		})
		b.Handle(func(pp string, k int, r *http.Request) *Resp {
			return &Resp{Status: 200, Body: []byte("body of " + pp)}
		})
		want := K
		if K == 0 {
			want = n
		}
		var wg sync.WaitGroup
		bad := make(chan string, n)
		for j := 0; j < n; j++ {
			seq++
			k := fmt.Sprintf("%s/pool/%s-%d", []string{"u", "v"}[j%2], name, seq)
			if j%3 == 1 {
				// indices count as well
				k = fmt.Sprintf("%s/dists/%s-%d/%s", []string{"u", "v"}[j/3%2], name, seq, []string{"Packages", "Release", "Sources.gz", "InRelease", "Packages.xz", "Release.gpg"}[rng.Intn(6)])
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := p.Get(k, a)
				if r.Stuck != "" {
					bad <- fmt.Sprintf("%s: never answered: %s", k, r.Stuck)
				} else if r.Status != 200 {
					bad <- fmt.Sprintf("%s: %v", k, r)
				}
			}()
		}
		full := waitFor(25*time.Second, func() bool { return a.Inflight() >= want })
		time.Sleep(60 * time.Millisecond)
		// another host is not held up
		seq++
		done := make(chan *Reply, 1)
		ob := fmt.Sprintf("w/pool/%s-%d", name, seq)
		go func() { done <- p.Get(ob, b) }()
		select {
		case r := <-done:
			if r.Status != 200 {
				c.Violate(nil, "max_conns=%d, %s: request to another host answered %v", K, name, r)
			}
		case <-time.After(25 * time.Second):
			c.Violate(nil, "max_conns=%d, %s: a download from another host waits for the slots of this host", K, name)
		}
		mx := a.Max()
		close(gate)
		wg.Wait()
		mx2 := a.Max()
		if mx2 > mx {
			mx = mx2
		}
		if K > 0 && mx > K {
			c.Violate(nil, "max_conns=%d, %s: %d transfers in progress to one host", K, name, mx)
			return false
		}
		select {
		case s := <-bad:
			c.Violate(nil, "max_conns=%d, %s: %s", K, name, s)
			return false
		default:
		}
		if !full {
			c.Violate(map[string]interface{}{"upstream_requests": a.Hits("") - h0}, "max_conns=%d, %s: only %d transfers in progress although %d are requested (a slot was lost)", K, name, mx, n)
			return false
		}
		c.Max("max_inflight", mx)
		c.Eval(fmt.Sprintf("K=%d after=%s", K, name))
		return true
	}
	n := 3*K + 4
	if K == 0 {
		n = 40
	}
	if K > 50 {
		n = K + 30
	}
	if !burst("start", n) {
		return
	}
	// every kind of failure, more often than there are slots
	kinds := []string{"404", "503", "trunc", "reset", "garbage", "mismatch", "unstorable", "hugestatus", "204", "redirectloop", "abortclient", "mixed"}
	rng.Shuffle(len(kinds), func(x, y int) { kinds[x], kinds[y] = kinds[y], kinds[x] })
	if !c.Thorough() {
		kinds = kinds[:5]
	}
	for _, kd := range kinds {
		kd := kd
		a.ResetMax()
		a.Handle(func(pp string, k int, r *http.Request) *Resp {
			body := []byte(strings.Repeat("x", 5000))
			d := kd
			if d == "mixed" {
				d = []string{"404", "trunc", "reset", "garbage", "204"}[len(pp)%5]
			}
			switch d {
			case "404":
				return &Resp{Status: 404, Body: body}
			case "503":
				return &Resp{Status: 503, Body: body, Slow: 3}
			case "trunc":
				return &Resp{Status: 200, Body: body, Trunc: true, Chunked: len(pp)%2 == 0}
			case "reset":
				return &Resp{Reset: true}
			case "garbage":
				return &Resp{Raw: []byte("HTTP/1.1 BOGUS\r\n\r\n")}
			case "hugestatus":
				return &Resp{Status: 999, Body: body}
			case "204":
				return &Resp{Status: 204}
			case "redirectloop":
				return &Resp{Status: 302, Header: map[string]string{"Location": pp}}
			}
			return &Resp{Status: 200, Body: body, Slow: 2}
		})
		if kd == "mismatch" {
			// an index that lists everything below pool/mm wrongly
			var cs []*c01Case
			for j := 0; j < 2*K+3; j++ {
				cs = append(cs, &c01Case{path: fmt.Sprintf("pool/mm%d/%d", seq, j), l: Listing{Size: 5000, MD5: randHex(rng, 16)}})
			}
			ip, idata := c01Index("packages", "", "dists/mm"+fmt.Sprint(seq), Sums{MD5: true}, cs)
			prev := a.handler
			a.Handle(func(pp string, k int, r *http.Request) *Resp {
				if strings.HasSuffix(pp, ip) {
					return &Resp{Status: 200, Body: idata}
				}
				return prev(pp, k, r)
			})
			p.Get("u/"+ip, a)
		}
		var wg sync.WaitGroup
		m := 2*K + 3
		for j := 0; j < m; j++ {
			k := fmt.Sprintf("u/pool/%s-%d-%d", kd, seq, j)
			switch kd {
			case "mismatch":
				k = fmt.Sprintf("u/pool/mm%d/%d", seq, j)
			case "unstorable":
				k = "u/pool/" + strings.Repeat("n", 300) + fmt.Sprint(j)
			}
			wg.Add(1)
			go func(j int) {
				defer wg.Done()
				if kd == "abortclient" {
					p.abortingGet(k, j*10)
					return
				}
				if r := p.Get(k, a); r.Stuck != "" {
					c.Violate(nil, "max_conns=%d: request with upstream failure %s never answered: %s", K, kd, r.Stuck)
				}
			}(j)
		}
		wg.Wait()
		seq++
		if K > 0 && a.Max() > K {
			c.Violate(nil, "max_conns=%d, failures of kind %s: %d transfers in progress to one host", K, kd, a.Max())
			return
		}
		if c.Failed() || !p.Alive() {
			if !p.Alive() {
				c.Violate(tail(p.stderr.String(), 3000), "go-apt-cacher died")
			}
			return
		}
		if !burst(kd, n) {
			return
		}
	}
}
