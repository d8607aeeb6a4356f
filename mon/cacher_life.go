package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	register("C09", &checkDef{fn: checkC09, level: "exploration", minDistinct: 60,
		rule:  "a real go-apt-cacher is killed (SIGKILL at random instants, SIGKILL at the entry of its k-th file-system call under ptrace, SIGTERM) while clients fetch, or its directories are littered with damaged and malformed files, and it is started again on the same directories; with the upstream failing, every file some client had completely received and an index vouches for must be answered from disk without an upstream request, every 200 body must be one the upstream completely sent, and with a healthy upstream every listed file must be served correctly. Non-trivial: distinct (stop kind and point, files cached so far) and (kind of damage, place)",
		assum: []string{"only the process crashes, not the operating system", "files on disk stay readable for the process"}})
	register("C17", &checkDef{fn: checkC17, level: "exploration", minDistinct: 60,
		rule:  "a real go-apt-cacher runs under ptrace while its file-system calls fail: each single one in turn, or every writing one for a while (full disk), with ENOSPC, EIO, EACCES or EDQUOT, during first downloads and re-checks. It must keep running and answering; every 200 body must be complete and match its listing; what was cached before is still served during the failure without the upstream; afterwards everything is served, and after a restart nothing incomplete is. Non-trivial: distinct (call, error, place)",
		assum: []string{"reading from the disk does not fail", "failures while it starts up may end it"}})
	register("C10", &checkDef{fn: checkC10, level: "exploration", minDistinct: 40,
		rule:  "several suites and prefixes in front of upstreams that publish version after version (atomically, or Release first), with outages of every kind and restarts, check_interval 1; polling clients record what they see. Oracles: every new Release/InRelease/Release.gpg is picked up, then all listed indices and packages are served in the new version; no path goes back in real-time order; during outages the old versions are answered 200 and the upstream keeps being asked, not more often than check_interval. Non-trivial: distinct (release style, event, version) triples",
		assum: []string{"an update that is not picked up within 60 s at check_interval 1 s is considered not picked up"}})
}

// ------------------------------------------------------------------ C09

// traceCacher runs a cacher under the tracer.
func (c *Ctx) traceCacher(cc CacherConf, t *Tracer) *CacherProc {
	t.Started = make(chan struct{})
	addr := fmt.Sprintf("127.0.0.1:%d", freePort())
	conf := filepath.Join(cc.Dir, fmt.Sprintf("conf-%d.toml", atomic.AddInt64(&c.dirSeq, 1)))
	must(os.WriteFile(conf, []byte(cc.toml(addr)), 0644))
	p := &CacherProc{Conf: cc, Addr: addr, stderr: &lockedBuf{}, exited: make(chan struct{}), Client: newClient()}
	bin := filepath.Join(c.Bin, "plain", "go-apt-cacher")
	env := append(cleanEnv(), "TMPDIR="+cc.Dir, "HOME="+cc.Dir, "CANCELLATION_DELAY_SECONDS=0")
	go func() {
		p.exitErr = t.Run(c, []string{bin, "-f", conf}, env, cc.Dir)
		p.stderr.Write([]byte(t.Stderr))
		close(p.exited)
	}()
	select {
	case <-t.Started:
	case <-p.exited:
		giveUp("tracer: %v", p.exitErr)
	}
	return p
}

type c09Repo struct {
	b     *Built
	order []string // Release files, indices, items
}

func c09Gen(rng *rand.Rand, i int) c09Repo {
	fam := randSums(rng)
	exts := [][]string{{""}, {".gz"}, {".xz"}, {".bz2"}, {"", ".gz"}}[i%5]
	g := GenOpts{Suites: []string{"t"}, Sections: []string{"main"}, Archs: []string{"amd64"}, Source: i%2 == 0, PkgsPer: 4, MaxSize: 60000, Exts: exts, Sums: &fam}
	r := GenRepo(rng, g)
	switch i % 3 {
	case 0:
		r.Suites[0].NoInRel = true
	case 1:
		r.Suites[0].NoRelease = true
	}
	b := r.Build()
	order := sortedKeys(b.Tree)
	sort.SliceStable(order, func(x, y int) bool { return rankPath(order[x]) < rankPath(order[y]) })
	return c09Repo{b, order}
}

// c09After starts the cacher again and judges what it serves.
// got holds what clients completely received before the stop.
func c09After(c *Ctx, cc CacherConf, o *Origin, r c09Repo, got map[string]string, what string) {
	var failing int32 = 1
	o.Handle(func(pp string, n int, rq *http.Request) *Resp {
		if atomic.LoadInt32(&failing) != 0 {
			return &Resp{Status: 503}
		}
		return nil
	})
	cc.CachePeriod = 0
	p, err := c.TryStartCacher(cc)
	if err != nil {
		c.Violate(got, "%s: go-apt-cacher does not start again: %v", what, err)
		return
	}
	defer p.Kill()
	// what an index that was received vouches for
	vouched := map[string]bool{}
	relGot := false
	for _, rel := range r.b.Releases["t"] {
		if path.Base(rel) != "Release.gpg" && got[rel] != "" {
			relGot = true
		}
		vouched[rel] = true
	}
	if relGot {
		for ix := range r.b.Indices {
			vouched[ix] = true
		}
	}
	for ix, lists := range r.b.By {
		if got[ix] != "" {
			vouched[ix] = true // indices are kept as well
			for k := range lists {
				vouched[k] = true
			}
		}
	}
	for _, k := range r.order {
		before := o.Hits("/" + k)
		rep := p.Get("u/"+k, o)
		hits := o.Hits("/"+k) - before
		if rep.Stuck != "" {
			c.Violate(nil, "%s: after the restart %s was never answered: %s", what, k, rep.Stuck)
			return
		}
		if rep.Status == 200 && rep.Err == nil && !o.Served("/"+k, sha(rep.Body)) {
			c.Violate(map[string]interface{}{"size": len(rep.Body), "sha256": sha(rep.Body), "true_size": len(r.b.Tree[k])},
				"%s: after the restart %s was answered 200 with something the upstream never completely sent", what, k)
		}
		if l, ok := r.b.Listed[k]; ok && rep.Status == 200 && !l.Matches(rep.Body) {
			c.Violate(nil, "%s: after the restart %s was answered 200 with content its index does not list", what, k)
		}
		if got[k] != "" && vouched[k] {
			if rep.Status != 200 || hits != 0 {
				c.Violate(map[string]interface{}{"status": rep.Status, "upstream_hits": hits, "received_before": got},
					"%s: %s was completely cached and vouched for, but after the restart it was answered %d with %d upstream requests", what, k, rep.Status, hits)
			}
			c.Count("served_from_disk", 1)
		}
	}
	// the upstream is back: everything is served
	atomic.StoreInt32(&failing, 0)
	for _, k := range r.order {
		var rep *Reply
		ok := waitFor(60*time.Second, func() bool {
			rep = p.Get("u/"+k, o)
			return rep.Stuck != "" || rep.Status == 200
		})
		if !ok || rep.Stuck != "" || !bytes.Equal(rep.Body, r.b.Tree[k]) {
			c.Violate(nil, "%s: with a healthy upstream %s is not served correctly after the restart: %s", what, k, rep)
			return
		}
		c.Count("served_afterwards", 1)
	}
	if !p.Alive() {
		c.Violate(tail(p.stderr.String(), 3000), "%s: go-apt-cacher died after the restart", what)
	}
}

func checkC09(c *Ctx) {
	// measure how many file-system calls the scenario makes
	total := c09Traced(c, 0, 0, -1)
	c.Max("fs_calls_in_scenario", total)
	if total < 20 && !c.Failed() {
		giveUp("the traced scenario shows only %d file-system calls", total)
	}
	var points []int
	for k := 1; k <= total+total/8; k++ {
		points = append(points, k)
	}
	variants := c.N(1, 6)
	c.Parallel(len(points)*variants, 16, func(i int) {
		v, k := i/len(points), points[i%len(points)]
		c09Traced(c, v, i, k)
	})
	if c.Failed() {
		return
	}
	m := c.N(24, 200)
	c.Parallel(m, 8, func(i int) { c09Random(c, c.Rng(fmt.Sprint("rand", i)), i) })
	if c.Failed() {
		return
	}
	m = c.N(24, 240)
	c.Parallel(m, 8, func(i int) { c09Damage(c, c.Rng(fmt.Sprint("dam", i)), i) })
	if c.Failed() {
		return
	}
	few := ""
	defer func() {
		if few != "" && !c.Failed() {
			giveUp("%s", few)
		}
	}()
	for v := 0; v < 3; v++ {
		total := c09Refresh(c, v, -1)
		if c.Failed() {
			return
		}
		if total < 6 {
			few = fmt.Sprintf("a re-check shows only %d file-system calls", total)
			continue
		}
		c.Max("fs_calls_in_recheck", total)
		c.Parallel(total+2, 16, func(i int) { c09Refresh(c, v, i+1) })
		if c.Failed() {
			return
		}
	}
	c.Parallel(c.N(8, 32), 8, func(i int) { c01Stale(c, c.Rng(fmt.Sprint("stale", i)), i) })
	if !c.Failed() {
		c09Large(c)
	}
}

// c09Traced kills the cacher at its k-th file-system call (never if k < 0)
// and returns the number of calls seen.
func c09Traced(c *Ctx, variant, i, k int) int {
	rng := c.Rng(fmt.Sprint("traced", variant))
	r := c09Gen(rng, variant)
	o := NewOrigin()
	defer o.Close()
	o.SetTree(r.b.Tree)
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	var at string
	t := &Tracer{Root: cc.Dir, OnEnter: func(op *FSOp) Action {
		if k >= 0 && op.N == k {
			at = op.String()
			return Action{Kill: true}
		}
		return Action{}
	}}
	p := c.traceCacher(cc, t)
	defer func() {
		if p.Alive() {
			syscall.Kill(t.Pid, syscall.SIGKILL)
			<-p.exited
		}
	}()
	up := p.waitUp()
	got := map[string]string{}
	if up {
		for _, path := range r.order {
			rep := p.Get("u/"+path, o)
			if rep.Err == nil && rep.Status == 200 {
				got[path] = sha(rep.Body)
			}
			if !p.Alive() {
				break
			}
		}
	}
	if k < 0 {
		syscall.Kill(t.Pid, syscall.SIGKILL)
	} else if p.Alive() {
		// the call may come a little later
		waitFor(500*time.Millisecond, func() bool { return !p.Alive() })
		syscall.Kill(t.Pid, syscall.SIGKILL)
	}
	<-p.exited
	if p.exitErr != nil {
		giveUp("tracer: %v", p.exitErr)
	}
	if k < 0 && !up {
		c.Violate(t.Stderr, "go-apt-cacher does not start")
		return 0
	}
	if k >= 0 && !t.Killed {
		c.Count("kill_points_not_reached", 1)
	}
	c09After(c, cc, o, r, got, fmt.Sprintf("killed at file-system call %d (%s)", k, at))
	c.Eval(fmt.Sprintf("traced v%d k%d", variant, k))
	c.Count("fs_calls_observed", len(t.Ops))
	if i < 2 {
		c.Sample(map[string]interface{}{"killed_at": at, "received": len(got)})
	}
	return len(t.Ops)
}

// c09Refresh kills the cacher at its k-th file-system call while it replaces
// cached Release files (variant 0 and 1), or an item nothing vouched for when
// its download began (variant 2), and returns the number of calls seen.
func c09Refresh(c *Ctx, variant, k int) int {
	o := NewOrigin()
	defer o.Close()
	pk := []byte("Package: a\nVersion: 1\nArchitecture: all\nFilename: pool/a.deb\nSize: 3\nMD5sum: " + hexMD5([]byte("abc")) + "\n\n")
	rel := func(v int) []byte {
		return []byte(fmt.Sprintf("Suite: s\nVersion: %d\nMD5Sum:\n %s %d main/binary-all/Packages\n", v, hexMD5(pk), len(pk)))
	}
	var names []string
	tree := func(v int) map[string][]byte {
		t := map[string][]byte{"dists/s/main/binary-all/Packages": pk, "pool/a.deb": []byte("abc")}
		if variant == 1 {
			t["dists/s/InRelease"] = clearsign(rel(v))
		} else {
			t["dists/s/Release"] = rel(v)
			t["dists/s/Release.gpg"] = []byte(fmt.Sprintf("signature of %d", v))
		}
		return t
	}
	t1, t2 := tree(1), tree(2)
	names = sortedKeys(t1)
	o.SetTree(t1)
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.Plain = true
	p := c.StartCacher(cc)
	first := names
	if variant == 2 {
		first = []string{"pool/a.deb"}
	}
	for _, n := range first {
		if rep := p.Get("u/"+n, o); rep.Status != 200 {
			p.Kill()
			c.Violate(nil, "%s is not served: %s", n, rep)
			return 0
		}
	}
	p.Kill()
	if variant != 2 {
		o.SetTree(t2)
		cc.CheckInterval = 1
	}
	what := ""
	t := &Tracer{Root: cc.Dir, OnEnter: func(op *FSOp) Action {
		if k >= 0 && op.N == k {
			what = op.String()
			return Action{Kill: true}
		}
		return Action{}
	}}
	p = c.traceCacher(cc, t)
	seen := map[string]int{}
	if p.waitUp() {
		if variant == 2 {
			// the item is asked for again before its index
			for i := 0; i < 2; i++ {
				for _, n := range []string{"pool/a.deb", "dists/s/main/binary-all/Packages", "dists/s/Release", "dists/s/Release.gpg"} {
					if rep := p.Get("u/"+n, o); rep.Err == nil && rep.Status == 200 {
						seen[n] = 1
					}
				}
			}
		} else {
			waitFor(8*time.Second, func() bool {
				all := true
				for _, n := range names {
					rep := p.Get("u/"+n, o)
					if rep.Err == nil && rep.Status == 200 && !bytes.Equal(t1[n], t2[n]) {
						if bytes.Equal(rep.Body, t2[n]) {
							seen[n] = 2
						} else {
							all = false
						}
					}
				}
				return all || !p.Alive()
			})
		}
		waitFor(300*time.Millisecond, func() bool { return !p.Alive() })
	}
	if p.Alive() {
		syscall.Kill(t.Pid, syscall.SIGKILL)
	}
	<-p.exited
	if p.exitErr != nil {
		giveUp("tracer: %v", p.exitErr)
	}
	n := len(t.Ops)
	o.Handle(func(pp string, n int, rq *http.Request) *Resp { return &Resp{Status: 503} })
	cc.CheckInterval = 3600
	at := fmt.Sprintf("killed at file-system call %d (%s) while replacing a cached file", k, what)
	p, err := c.TryStartCacher(cc)
	if err != nil {
		c.Violate(nil, "%s: go-apt-cacher does not start again: %v", at, err)
		return n
	}
	defer p.Kill()
	for _, f := range names {
		if variant == 2 && (seen[f] == 0 && f != "pool/a.deb" || seen["dists/s/main/binary-all/Packages"] == 0) {
			continue // nothing vouches for it
		}
		rep := p.Get("u/"+f, o)
		old, new := bytes.Equal(rep.Body, t1[f]), bytes.Equal(rep.Body, t2[f])
		switch {
		case rep.Status != 200 || !old && !new:
			c.Violate(nil, "%s: %s was cached before, but after the restart the answer is %s", at, f, rep)
		case seen[f] == 2 && !new:
			c.Violate(nil, "%s: %s went back to its old version after the restart", at, f)
		}
	}
	c.Eval(fmt.Sprintf("replaced v%d k%d", variant, k))
	return n
}

func c09Random(c *Ctx, rng *rand.Rand, i int) {
	r := c09Gen(rng, i)
	o := NewOrigin()
	defer o.Close()
	o.SetTree(r.b.Tree)
	slow := 1 + rng.Intn(6)
	o.Handle(func(pp string, n int, rq *http.Request) *Resp {
		b, ok := r.b.Tree[strings.TrimPrefix(pp, "/")]
		if !ok {
			return nil
		}
		return &Resp{Body: b, Slow: slow}
	})
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.MaxConns = rng.Intn(3)
	got := map[string]string{}
	var mu sync.Mutex
	kills := 1 + rng.Intn(3)
	var how string
	for kk := 0; kk < kills; kk++ {
		p := c.StartCacher(cc)
		var wg sync.WaitGroup
		order := append([]string{}, r.order...)
		rng.Shuffle(len(order), func(x, y int) { order[x], order[y] = order[y], order[x] })
		for w := 0; w < 3; w++ {
			w := w
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j, k := range order {
					if j%3 != w {
						continue
					}
					rep := p.Get("u/"+k, o)
					if rep.Err == nil && rep.Status == 200 {
						mu.Lock()
						got[k] = sha(rep.Body)
						mu.Unlock()
					}
					if !p.Alive() {
						return
					}
				}
			}()
		}
		time.Sleep(time.Duration(rng.Intn(60*slow)) * time.Millisecond / 4)
		if rng.Intn(3) == 0 {
			how = "SIGTERM"
			if !p.Term(90 * time.Second) {
				p.Kill()
				wg.Wait()
				c.Count("did_not_stop", 1)
				return
			}
		} else {
			how = "SIGKILL"
			p.Kill()
		}
		wg.Wait()
		c.Count("stops", 1)
	}
	mu.Lock()
	defer mu.Unlock()
	c09After(c, cc, o, r, got, how+" at a random instant")
	c.Eval(fmt.Sprintf("%s %d files of %d, %d times", how, len(got), len(r.order), kills))
}

// ------------------------------------------------------------------ C17

func checkC17(c *Ctx) {
	total := 0
	for v := 0; v < 2; v++ {
		n := c17Run(c, v, -1, false, 0)
		if c.Failed() {
			return
		}
		if n < 20 {
			giveUp("the scenario shows only %d file-system calls", n)
		}
		total += n
	}
	c.Max("fs_calls_in_scenarios", total)
	type job struct {
		v, k int
		full bool
		e    int
	}
	var jobs []job
	for v := 0; v < c.N(2, 6); v++ {
		n := total/2 + total/16
		for k := 1; k <= n; k++ {
			if c.Thorough() {
				for e := 0; e < 4; e++ {
					jobs = append(jobs, job{v, k, false, e}, job{v, k, true, e})
				}
			} else {
				jobs = append(jobs, job{v, k, (k+v)%2 == 0, k / 2})
			}
		}
	}
	rng := c.Rng("order")
	rng.Shuffle(len(jobs), func(a, b int) { jobs[a], jobs[b] = jobs[b], jobs[a] })
	c.Parallel(len(jobs), 16, func(i int) { j := jobs[i]; c17Run(c, j.v, j.k, j.full, j.e) })
	if c.Failed() {
		return
	}
	for v := 0; v < 3; v++ {
		n := c17Update(c, v, -1, 0)
		if c.Failed() {
			return
		}
		c.Parallel(n+1, 16, func(i int) { c17Update(c, v, i+1, v+i) })
	}
}

// c17Update has all writing file-system calls fail from the k-th on while a
// new version is picked up. Unless the new Release file was stored, all of
// the old version must still be served. It returns the number of calls seen.
func c17Update(c *Ctx, variant, k, en int) int {
	errno := []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EACCES, syscall.EDQUOT}[en%4]
	o := NewOrigin()
	defer o.Close()
	rels := []string{"dists/s/Release", "dists/s/Release.gpg"}
	if variant == 1 {
		rels = []string{"dists/s/InRelease"}
	}
	const ix = "dists/s/main/binary-all/Packages"
	tree := func(v int) map[string][]byte {
		deb := []byte(fmt.Sprintf("version %d", v))
		pk := []byte("Package: a\nVersion: 1\nArchitecture: all\nFilename: pool/a.deb\nSize: 9\nMD5sum: " + hexMD5(deb) + "\n\n" +
			"Package: b\nVersion: 1\nArchitecture: all\nFilename: pool/b.deb\nSize: 4\nSHA256: " + hexSHA256([]byte("same")) + "\n\n")
		rel := []byte(fmt.Sprintf("Suite: s\nVersion: %d\nMD5Sum:\n %s %d main/binary-all/Packages\n", v, hexMD5(pk), len(pk)))
		if variant == 2 {
			pk = compress(".gz", pk)
			rel = []byte(fmt.Sprintf("Suite: s\nVersion: %d\nSHA256:\n %s %d main/binary-all/Packages.gz\n", v, hexSHA256(pk), len(pk)))
		}
		t := map[string][]byte{"pool/a.deb": deb, "pool/b.deb": []byte("same")}
		if variant == 2 {
			t[ix+".gz"] = pk
		} else {
			t[ix] = pk
		}
		if variant == 1 {
			t[rels[0]] = clearsign(rel)
		} else {
			t[rels[0]], t[rels[1]] = rel, []byte(fmt.Sprintf("signature of %d", v))
		}
		return t
	}
	t1, t2 := tree(1), tree(2)
	o.SetTree(t1)
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.CachePeriod, cc.CheckInterval = 0, 1
	var on int32
	var mu sync.Mutex
	base, n := 0, 0
	var hit []string
	t := &Tracer{Root: cc.Dir, OnEnter: func(op *FSOp) Action {
		if atomic.LoadInt32(&on) == 0 || op.N == 0 {
			return Action{}
		}
		mu.Lock()
		defer mu.Unlock()
		if base == 0 {
			base = op.N
		}
		n = op.N - base + 1
		if k < 0 || n < k || op.Name == "unlink" || op.Name == "unlinkat" {
			return Action{}
		}
		hit = append(hit, op.String())
		return Action{Errno: errno}
	}}
	p := c.traceCacher(cc, t)
	defer func() {
		if p.Alive() {
			syscall.Kill(t.Pid, syscall.SIGKILL)
			<-p.exited
		}
	}()
	if !p.waitUp() {
		giveUp("go-apt-cacher does not start: %s", tail(t.Stderr, 400))
	}
	where := func() string {
		mu.Lock()
		defer mu.Unlock()
		if len(hit) == 0 {
			return "update without failing calls"
		}
		return fmt.Sprintf("update, %s and later calls fail with %v", hit[0], errno)
	}
	names := sortedKeys(t1)
	sort.SliceStable(names, func(a, b int) bool { return rankPath(names[a]) < rankPath(names[b]) })
	ask := func(f string) (*Reply, int) {
		rep := p.Get("u/"+f, o)
		switch {
		case !p.Alive():
			c.Violate(tail(p.stderr.String(), 2000), "%s: go-apt-cacher ended", where())
		case rep.Stuck != "" || rep.Err != nil:
			c.Violate(nil, "%s: no answer for %s: %s", where(), f, rep)
		case rep.Status != 200:
			return rep, 0
		case bytes.Equal(t1[f], t2[f]) && bytes.Equal(rep.Body, t1[f]):
			return rep, 3
		case bytes.Equal(rep.Body, t1[f]):
			return rep, 1
		case bytes.Equal(rep.Body, t2[f]):
			return rep, 2
		default:
			c.Violate(nil, "%s: %s is answered 200 with wrong content", where(), f)
		}
		return nil, 0
	}
	for _, f := range names {
		if rep, v := ask(f); rep == nil || v == 0 {
			if rep != nil {
				c.Violate(nil, "%s is not served: %s", f, rep)
			}
			return 0
		}
	}
	atomic.StoreInt32(&on, 1)
	o.SetTree(t2)
	for end := time.Now().Add(2300 * time.Millisecond); time.Now().Before(end); time.Sleep(100 * time.Millisecond) {
		ans := map[string]int{}
		for _, f := range append(names, rels...) {
			rep, v := ask(f)
			if rep == nil {
				return 0
			}
			ans[f] = v // that of the Release files asked for last
			if v == 0 && (f == rels[0] || f == "pool/b.deb" || hasStr(rels, f)) {
				c.Violate(nil, "%s: %s was cached and is still valid, but the answer is %s", where(), f, rep)
				return 0
			}
		}
		if ans[rels[0]] == 1 {
			for _, f := range names {
				if ans[f] == 0 {
					c.Violate(ans, "%s: the new Release file was not stored, and yet the old %s is not served any more", where(), f)
					return 0
				}
			}
			c.Count("rounds_with_the_old_version", 1)
		}
	}
	mu.Lock()
	calls := n
	mu.Unlock()
	atomic.StoreInt32(&on, 0)
	for _, f := range names {
		var rep *Reply
		v := 0
		if !waitFor(30*time.Second, func() bool { rep, v = ask(f); return rep == nil || v >= 2 }) {
			c.Violate(nil, "%s: with a healthy disk again, the new %s is not served: %s", where(), f, rep)
			return calls
		}
		if rep == nil {
			return calls
		}
	}
	if len(hit) > 0 {
		c.Count("failed_calls", len(hit))
		c.Eval(fmt.Sprintf("update %d %d %v", variant, k, errno))
	}
	return calls
}

// c17Run has the k-th file-system call fail, or all writing ones from the
// k-th on, and judges all answers. It returns the number of calls seen.
func c17Run(c *Ctx, variant, k int, full bool, en int) int {
	errno := []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EACCES, syscall.EDQUOT}[en%4]
	rng := c.Rng(fmt.Sprint("repo", variant))
	r := c09Gen(rng, variant)
	o := NewOrigin()
	defer o.Close()
	o.SetTree(r.b.Tree)
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.CachePeriod = 0
	cc.CheckInterval = 1
	var up, stop int32
	var base int64
	var mu sync.Mutex
	var hit []string
	n := 0
	t := &Tracer{Root: cc.Dir, OnEnter: func(op *FSOp) Action {
		if atomic.LoadInt32(&up) == 0 || atomic.LoadInt32(&stop) != 0 || op.N == 0 {
			return Action{}
		}
		mu.Lock()
		defer mu.Unlock()
		if base == 0 {
			base = int64(op.N)
		}
		n = op.N - int(base) + 1
		if k < 0 || n < k || n > k && !full {
			return Action{}
		}
		if op.Name == "unlink" || op.Name == "unlinkat" || op.Name == "rmdir" {
			if full {
				return Action{} // a full disk does not prevent that
			}
		}
		hit = append(hit, op.String())
		return Action{Errno: errno}
	}}
	p := c.traceCacher(cc, t)
	defer func() {
		if p.Alive() {
			syscall.Kill(t.Pid, syscall.SIGKILL)
			<-p.exited
		}
	}()
	if !p.waitUp() {
		giveUp("go-apt-cacher does not start: %s", tail(t.Stderr, 400))
	}
	atomic.StoreInt32(&up, 1)
	where := func() string {
		mu.Lock()
		defer mu.Unlock()
		if len(hit) == 0 {
			return "no failing call"
		}
		return fmt.Sprintf("%s fails with %v (%d failures)", hit[0], errno, len(hit))
	}
	got := map[string]string{}
	ask := func(k string) *Reply {
		rep := p.Get("u/"+k, o)
		switch {
		case !p.Alive():
			c.Violate(tail(p.stderr.String(), 2000), "%s: go-apt-cacher ended", where())
		case rep.Stuck != "":
			c.Violate(nil, "%s: %s was never answered: %s", where(), k, rep.Stuck)
		case rep.Err != nil:
			c.Violate(fmt.Sprint(rep.Err), "%s: the answer for %s is broken off", where(), k)
		case rep.Status == 200 && !bytes.Equal(rep.Body, r.b.Tree[k]):
			c.Violate(map[string]interface{}{"bytes": len(rep.Body), "want": len(r.b.Tree[k])}, "%s: %s is answered 200 with wrong content", where(), k)
		case rep.Status == 200:
			got[k] = sha(rep.Body)
			c.Count("served", 1)
			return rep
		case rep.Status < 400:
			c.Violate(nil, "%s: %s is answered %d", where(), k, rep.Status)
		default:
			c.Count("refused", 1)
			return rep
		}
		return nil
	}
	for _, k := range r.order {
		if ask(k) == nil {
			return 0
		}
	}
	// a second pass: what was cached is served, whatever fails now
	for _, f := range r.order {
		had := got[f] != ""
		before := o.Hits("/" + f)
		rep := ask(f)
		if rep == nil {
			return 0
		}
		if _, rechecked := relFile(r, f); had && !rechecked && (rep.Status != 200 || o.Hits("/"+f) != before) {
			c.Violate(map[string]interface{}{"status": rep.Status, "fetches": o.Hits("/"+f) - before}, "%s: %s had been cached and served, but is not served from the cache", where(), f)
		} else if had && rechecked && rep.Status != 200 {
			c.Violate(nil, "%s: %s had been cached and served, but is answered %d", where(), f, rep.Status)
		}
	}
	// a re-check passes
	time.Sleep(1100 * time.Millisecond)
	for _, f := range r.order {
		had := got[f] != ""
		rep := ask(f)
		if rep == nil {
			return 0
		}
		if had && rep.Status != 200 {
			c.Violate(nil, "%s: %s had been cached and served, but is answered %d after a re-check", where(), f, rep.Status)
		}
	}
	mu.Lock()
	calls := n
	mu.Unlock()
	atomic.StoreInt32(&stop, 1)
	for _, f := range r.order {
		var rep *Reply
		if !waitFor(30*time.Second, func() bool { rep = ask(f); return rep == nil || rep.Status == 200 }) {
			c.Violate(nil, "%s: %s is still refused with a healthy disk: %s", where(), f, rep)
			return calls
		}
		if rep == nil {
			return calls
		}
	}
	syscall.Kill(t.Pid, syscall.SIGKILL)
	<-p.exited
	cc.CheckInterval = 3600
	c09After(c, cc, o, r, got, where())
	mu.Lock()
	defer mu.Unlock()
	if len(hit) > 0 {
		c.Count("failed_calls", len(hit))
		c.Eval(fmt.Sprintf("%d %d %v %v", variant, k, full, errno))
		if k < 4 {
			c.Sample(hit[0] + " -> " + errno.Error())
		}
	}
	return calls
}

// relFile tells whether f is re-checked at check_interval.
func relFile(r c09Repo, f string) (string, bool) {
	for s, l := range r.b.Releases {
		for _, rel := range l {
			if rel == f {
				return s, true
			}
		}
	}
	return "", false
}

// c09Damage litters the directories.
func c09Damage(c *Ctx, rng *rand.Rand, i int) {
	r := c09Gen(rng, i)
	o := NewOrigin()
	defer o.Close()
	o.SetTree(r.b.Tree)
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.CachePeriod = 0
	p := c.StartCacher(cc)
	for _, k := range r.order {
		p.Get("u/"+k, o)
	}
	p.Kill()
	var did []string
	put := func(rel string, data []byte) {
		fp := filepath.Join(cc.Dir, rel)
		if os.MkdirAll(filepath.Dir(fp), 0755) == nil && os.WriteFile(fp, data, 0644) == nil {
			did = append(did, fmt.Sprintf("%s (%d bytes)", rel, len(data)))
		}
	}
	hurtRelease := i%6 == 5
	garb := func() []byte {
		switch rng.Intn(10) {
		case 0:
			return nil
		case 1:
			return []byte("\x1f\x8b\x08\x00garbage")
		case 2:
			return bytes.Repeat([]byte("x"), 3<<20)
		case 3:
			return []byte("Package: x\nFilename: pool/a\nSize: many\nMD5sum: zz\n\n")
		case 4:
			return []byte("MD5Sum:\n aa\n bb cc\nSHA256:\n  \n")
		case 5:
			return []byte("no colon at all\n\n : \n\t\n")
		case 6:
			return []byte("-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA1\n\nOrigin: x")
		case 7:
			d := compress(".gz", []byte("Package: a\nFilename: f\nSize: 1\n\n"))
			return d[:len(d)-5]
		case 8:
			return compress(".xz", []byte("Filename: ../../x\nSize: 1\nMD5sum: 00\n\n"))
		}
		b := make([]byte, rng.Intn(4000))
		rng.Read(b)
		return b
	}
	// existing files
	for _, k := range r.order {
		rank := rankPath(k)
		if rank == 0 && !hurtRelease || rng.Intn(3) == 0 {
			continue
		}
		sub := "cache"
		if rank < 2 {
			sub = "meta"
		}
		fp := filepath.Join(cc.Dir, sub, "u", k+".cache")
		data, err := os.ReadFile(fp)
		if err != nil {
			continue
		}
		if rng.Intn(2) == 0 && len(data) > 0 {
			put(filepath.Join(sub, "u", k+".cache"), data[:rng.Intn(len(data))])
		} else {
			put(filepath.Join(sub, "u", k+".cache"), garb())
		}
	}
	// foreign files
	names := []string{"foo.cache", ".cache", "Release.cache", "InRelease.cache", "u.cache", "Packages.gz.cache", "zz/dists/t/Release.cache", "zz/Packages.xz.cache",
		"u/Packages.cache", "u/dists/old/Release.cache", "u/dists/old/InRelease.cache", "u/dists/old/main/binary-x/Packages.bz2.cache", "u/x/Sources.xz.cache", "u/x/Index.gz.cache",
		"u/x/Packages.lzma.cache", "u/x/Packages.lz.cache", "u/.cache", "u/.../Release.cache", "_tmp123456", "u/_tmp99.cache", "_tmp1.cache", "u/a b/Release.cache", "u/\xff\xfe/Packages.cache",
		"u/" + strings.Repeat("d/", 60) + "Release.cache", "u/" + strings.Repeat("n", 240) + ".cache", "readme.txt", "u/pool/plain"}
	for _, n := range names {
		if rng.Intn(2) == 0 {
			put(filepath.Join("meta", n), garb())
		}
		if rng.Intn(3) == 0 {
			put(filepath.Join("cache", n), garb())
		}
	}
	for _, n := range []string{"u/dir.cache", "dir.cache", "u/pool/Packages.cache"} {
		if rng.Intn(2) == 0 {
			if os.MkdirAll(filepath.Join(cc.Dir, "meta", n), 0755) == nil {
				did = append(did, "directory meta/"+n)
			}
		}
	}
	if rng.Intn(2) == 0 {
		os.Symlink("/nonexistent/x", filepath.Join(cc.Dir, "meta", "dangling.cache"))
		os.Symlink(filepath.Join(cc.Dir, "cache"), filepath.Join(cc.Dir, "cache", "loop.cache"))
		syscall.Mkfifo(filepath.Join(cc.Dir, "meta", "fifo.cache"), 0644)
		did = append(did, "symlinks and a fifo")
	}
	p, err := c.TryStartCacher(cc)
	if err != nil {
		c.Violate(did, "go-apt-cacher does not start on damaged or malformed files: %v", err)
		return
	}
	defer p.Kill()
	for _, d := range did {
		c.Eval("damage " + strings.SplitN(d, " (", 2)[0])
	}
	if i < 2 {
		c.Sample(did)
	}
	for _, k := range r.order {
		if _, listed := r.b.Listed[k]; !listed || hurtRelease {
			rep := p.Get("u/"+k, o)
			if rep.Stuck != "" || rep.Err != nil {
				c.Violate(did, "restart on damaged files: %s got no answer: %s", k, rep)
				return
			}
			continue
		}
		var rep *Reply
		ok := waitFor(30*time.Second, func() bool {
			rep = p.Get("u/"+k, o)
			if rep.Status == 200 && rep.Err == nil && !bytes.Equal(rep.Body, r.b.Tree[k]) && rankPath(k) == 1 {
				c.Violate(did, "restart on damaged files: the listed index %s was answered 200 with damaged content (%s)", k, rep)
				return true
			}
			return rep.Stuck != "" || rep.Status == 200
		})
		if c.Failed() {
			return
		}
		if !ok || !bytes.Equal(rep.Body, r.b.Tree[k]) {
			c.Violate(did, "restart on damaged files: the listed path %s is not served correctly although the upstream is healthy: %s", k, rep)
			return
		}
		c.Count("repaired_or_intact", 1)
	}
	if !p.Alive() {
		c.Violate(tail(p.stderr.String(), 3000), "go-apt-cacher died on damaged files")
	}
}

// ------------------------------------------------------------------ C10

type c10Suite struct {
	prefix string
	o      *Origin
	repos  []*Repo
	built  []*Built
	vers   map[string]map[string][]int // path -> sha -> versions
	g      GenOpts
	style  string

	mu    sync.Mutex
	floor map[string]int // path -> least version a client may still see
}

func (s *c10Suite) extend(rng *rand.Rand, n int) { s.extendTo(rng, n, nil) }

// extendForced adds a version in which the given items are all changed.
func (s *c10Suite) extendForced(rng *rand.Rand, changed map[string]bool) {
	s.extendTo(rng, len(s.built)+1, changed)
}

func (s *c10Suite) extendTo(rng *rand.Rand, n int, changed map[string]bool) {
	for len(s.built) < n {
		var r *Repo
		if len(s.repos) == 0 {
			r = GenRepo(rng, s.g)
			for _, su := range r.Suites {
				switch s.style {
				case "inrelease":
					su.NoRelease = true
				case "release":
					su.NoInRel = true
				}
			}
		} else {
			r = s.repos[len(s.repos)-1].Mutate(rng, s.g)
			for _, su := range r.Suites {
				for _, cp := range su.Comps {
					for j, pk := range cp.Pkgs {
						if changed[pk.Path] {
							cp.Pkgs[j].Data = append([]byte(fmt.Sprintf("forced %d ", rng.Int63())), pk.Data...)
						}
					}
				}
			}
		}
		s.repos = append(s.repos, r)
		b := r.Build()
		s.built = append(s.built, b)
		v := len(s.built) - 1
		for k, d := range b.Tree {
			if s.vers[k] == nil {
				s.vers[k] = map[string][]int{}
			}
			s.vers[k][sha(d)] = append(s.vers[k][sha(d)], v)
		}
	}
}

// see judges one observation; floorAt is the floor when the request was sent.
func (s *c10Suite) see(c *Ctx, k string, rep *Reply, floorAt int) int {
	if rep.Status != 200 || rep.Err != nil {
		return -1
	}
	vs := s.vers[k][sha(rep.Body)]
	if len(vs) == 0 {
		c.Violate(nil, "%s/%s answered 200 with a body of no version", s.prefix, k)
		return -1
	}
	v := -1
	for _, x := range vs {
		if x >= floorAt {
			v = x
			break
		}
	}
	if v < 0 {
		c.Violate(map[string]interface{}{"versions_of_body": vs, "seen_before": floorAt, "style": s.style},
			"%s/%s went back: version %d had been answered before, then one with versions %v", s.prefix, k, floorAt, vs)
		return vs[len(vs)-1]
	}
	s.mu.Lock()
	if s.floor[k] < v {
		s.floor[k] = v
	}
	s.mu.Unlock()
	return v
}

func (s *c10Suite) get(c *Ctx, p *CacherProc, k string) (*Reply, int) {
	s.mu.Lock()
	f := s.floor[k]
	s.mu.Unlock()
	rep := p.Get(s.prefix+"/"+k, s.o)
	if rep.Stuck != "" {
		c.Violate(nil, "%s/%s was never answered: %s", s.prefix, k, rep.Stuck)
	}
	return rep, s.see(c, k, rep, f)
}

// c10Late picks up version v while transfers of files of it are held up,
// and lets these end when version v+1 is in force.
func c10Late(c *Ctx, rng *rand.Rand, s *c10Suite, v int, locked func(func()), proc func() *CacherProc) bool {
	before, old, b := s.built[v-1], s.built[v], s.built[v+1]
	gate := make(chan struct{})
	var once sync.Once
	open := func() { once.Do(func() { close(gate) }) }
	hold := map[string]bool{}
	for k := range b.Tree {
		if len(hold) < 4 && rankPath(k) == 2 && old.Tree[k] != nil && !bytes.Equal(old.Tree[k], b.Tree[k]) && !bytes.Equal(old.Tree[k], before.Tree[k]) {
			hold[k] = true
		}
	}
	mid := rng.Intn(2) == 0
	s.o.Handle(func(pp string, n int, r *http.Request) *Resp {
		k := strings.TrimPrefix(pp, "/")
		if !hold[k] {
			return nil
		}
		select {
		case <-gate:
			return nil
		default:
		}
		if mid {
			return &Resp{Body: old.Tree[k], MidGate: gate}
		}
		return &Resp{Body: old.Tree[k], Gate: gate}
	})
	defer s.o.Handle(nil)
	var wg sync.WaitGroup
	defer wg.Wait()
	defer open()
	pick := func(b *Built, v int) bool {
		for _, rank := range []int{0, 1} {
			for _, k := range sortedKeys(b.Tree) {
				if rankPath(k) != rank || rank == 0 && strings.Contains(k, "binary-") {
					continue
				}
				ok := waitFor(60*time.Second, func() bool {
					var rep *Reply
					locked(func() { rep, _ = s.get(c, proc(), k) })
					return c.Failed() || bytes.Equal(rep.Body, b.Tree[k])
				})
				if c.Failed() {
					return false
				}
				if !ok {
					c.Violate(map[string]interface{}{"style": s.style}, "version %d of %s/%s was not picked up within 60 s while other downloads are slow", v, s.prefix, k)
					return false
				}
			}
		}
		return true
	}
	s.o.SetTree(old.Tree)
	if !pick(old, v) {
		return false
	}
	h0 := s.o.Inflight()
	for k := range hold {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			locked(func() { s.get(c, proc(), k) })
		}()
	}
	if waitFor(5*time.Second, func() bool { return s.o.Inflight() >= h0+len(hold) || s.o.Inflight() >= len(hold) }) {
		c.Count("late_answers", len(hold))
	}
	s.o.SetTree(b.Tree)
	return pick(b, v+1)
}

func checkC10(c *Ctx) {
	few := "" // judged by the other parts first
	defer func() {
		if few != "" && !c.Failed() {
			giveUp("%s", few)
		}
	}()
	for v := 0; v < 3; v++ {
		total := c09Refresh(c, v, -1)
		if c.Failed() {
			return
		}
		if total < 6 {
			few = fmt.Sprintf("a re-check shows only %d file-system calls", total)
			continue
		}
		c.Max("fs_calls_in_recheck", total)
		c.Parallel(total+2, 16, func(i int) { c09Refresh(c, v, i+1) })
		if c.Failed() {
			return
		}
	}
	c.Parallel(c.N(8, 32), 8, func(i int) { c01Stale(c, c.Rng(fmt.Sprint("stale", i)), i) })
	if c.Failed() {
		return
	}
	c.Parallel(c.N(10, 40), 10, func(i int) { c10Odd(c, i) })
	if c.Failed() {
		return
	}
	n := c.N(8, 24)
	c.Parallel(n, 8, func(i int) { c10Run(c, c.Rng(fmt.Sprint("run", i)), i) })
}

// c10Odd has releases that list nothing, or cannot be understood, between
// proper ones: all of them are picked up.
func c10Odd(c *Ctx, i int) {
	o := NewOrigin()
	defer o.Close()
	file := "dists/s/Release"
	if i/5%2 == 1 {
		file = "dists/s/InRelease"
	}
	kinds := []string{"empty", "lists nothing", "garbage", "page", "signed nothing"}
	kind := kinds[i%5]
	good := func(v int) map[string][]byte {
		deb := []byte(fmt.Sprintf("content %d", v))
		pk := []byte(fmt.Sprintf("Package: a\nVersion: %d\nArchitecture: all\nFilename: pool/a.deb\nSize: %d\nSHA256: %s\n\n", v, len(deb), hexSHA256(deb)))
		rel := []byte(fmt.Sprintf("Suite: s\nVersion: %d\nSHA256:\n %s %d main/binary-all/Packages\n", v, hexSHA256(pk), len(pk)))
		if strings.Contains(file, "InRelease") {
			rel = clearsign(rel)
		}
		return map[string][]byte{file: rel, "dists/s/main/binary-all/Packages": pk, "pool/a.deb": deb}
	}
	odd := func(v int) map[string][]byte {
		var b []byte
		switch kind {
		case "lists nothing":
			b = []byte(fmt.Sprintf("Suite: s\nVersion: %d\n", v))
		case "garbage":
			b = blob(rand.New(rand.NewSource(int64(v))), "garbage", 500+v)
		case "page":
			b = []byte(fmt.Sprintf("<html>\n<body>coming soon %d</body>\n</html>\n", v))
		case "signed nothing":
			b = clearsign([]byte(fmt.Sprintf("Suite: s\nVersion: %d\n", v)))
		}
		t := map[string][]byte{file: b}
		if v > 1 {
			t["dists/s/main/binary-all/Packages"], t["pool/a.deb"] = good(v - 1)["dists/s/main/binary-all/Packages"], good(v - 1)["pool/a.deb"]
		}
		return t
	}
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.CheckInterval, cc.CachePeriod = 1, 1
	steps := []map[string][]byte{odd(1), good(2), odd(3), good(4)}
	o.SetTree(steps[0])
	p := c.StartCacher(cc)
	defer func() { p.Kill() }()
	for v, t := range steps {
		o.SetTree(t)
		var rep *Reply
		ok := waitFor(60*time.Second, func() bool {
			rep = p.Get("u/"+file, o)
			return rep.Stuck != "" || rep.Status == 200 && bytes.Equal(rep.Body, t[file])
		})
		if rep.Stuck != "" || !ok {
			c.Violate(map[string]interface{}{"kind": kind, "step": v, "reply": rep.String()}, "%s: step %d (0 and 2: %s; 1 and 3: a proper release) is not picked up", file, v, kind)
			return
		}
		// as clients do: the index before what it lists
		for _, k := range []string{"dists/s/main/binary-all/Packages", "pool/a.deb"} {
			if v%2 == 0 {
				break
			}
			d := t[k]
			ok := waitFor(60*time.Second, func() bool {
				rep = p.Get("u/"+k, o)
				return rep.Stuck != "" || rep.Status == 200 && bytes.Equal(rep.Body, d)
			})
			if rep.Stuck != "" || !ok {
				c.Violate(map[string]interface{}{"kind": kind, "step": v, "reply": rep.String()}, "%s of the proper release after one that is odd (%s) is not served", k, kind)
				return
			}
		}
		if v == i/3%3 {
			p.Kill()
			p = c.StartCacher(cc)
		}
	}
	c.Count("odd_releases", 2)
	c.Eval(fmt.Sprintf("odd %s %s", kind, file))
}

func c10Run(c *Ctx, rng *rand.Rand, i int) {
	styles := []string{"inrelease", "release", "both"}
	var suites []*c10Suite
	mapping := map[string]string{}
	for j := 0; j < 2; j++ {
		s := &c10Suite{prefix: fmt.Sprintf("p%d", j), o: NewOrigin(), vers: map[string]map[string][]int{}, floor: map[string]int{}, style: styles[(i+j)%3]}
		defer s.o.Close()
		fam := randSums(rng)
		s.g = GenOpts{Suites: []string{"t"}, Sections: []string{"main"}, Archs: []string{"amd64"}, Source: true, PkgsPer: 3, MaxSize: 3000,
			Exts: [][]string{{".gz"}, {"", ".gz", ".xz"}, {".gz", ".xz"}, {".bz2", ".xz"}, {"", ".gz"}}[rng.Intn(5)], Sums: &fam}
		if i%4 == 3 {
			s.g.Suites = []string{"t", "u/sec"}
		}
		s.extend(rng, 1)
		s.o.SetTree(s.built[0].Tree)
		suites = append(suites, s)
		mapping[s.prefix] = s.o.URL
	}
	cc := c.DefaultConf(mapping)
	cc.CheckInterval, cc.CachePeriod = 1, 1
	p := c.StartCacher(cc)
	var pmu sync.RWMutex // held for writing while the process is replaced
	defer func() { p.Kill() }()

	// polling clients
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for _, s := range suites {
		s := s
		seed := rng.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			keys := sortedKeys(s.built[0].Tree)
			for {
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(r.Intn(20)) * time.Millisecond):
				}
				pmu.RLock()
				s.get(c, p, keys[r.Intn(len(keys))])
				pmu.RUnlock()
				c.Count("polls", 1)
			}
		}()
	}
	defer wg.Wait()
	defer close(stop)

	locked := func(f func()) { pmu.RLock(); defer pmu.RUnlock(); f() }
	// settle waits until everything of version v is served.
	settle := func(s *c10Suite, v int, event string) bool {
		b := s.built[v]
		var rels []string
		for _, su := range s.g.Suites {
			rels = append(rels, b.Releases[su]...)
		}
		if i%2 == 1 && v == 0 {
			// Release before InRelease
			for a, z := 0, len(rels)-1; a < z; a, z = a+1, z-1 {
				rels[a], rels[z] = rels[z], rels[a]
			}
		}
		start := time.Now()
		for _, rel := range rels {
			ok := waitFor(60*time.Second, func() bool {
				var rep *Reply
				locked(func() { rep, _ = s.get(c, p, rel) })
				return c.Failed() || bytes.Equal(rep.Body, b.Tree[rel])
			})
			if c.Failed() {
				return false
			}
			if !ok {
				c.Violate(map[string]interface{}{"style": s.style, "upstream_requests": s.o.Hits("/" + rel), "stderr": tail(p.stderr.String(), 1500)},
					"%s: version %d of %s/%s was not picked up within 60 s", event, v, s.prefix, rel)
				return false
			}
			c.Eval(fmt.Sprintf("%s %s v%d %s", s.style, event, v, path.Base(rel)))
		}
		c.Max("slowest_pickup_ms", int(time.Since(start)/time.Millisecond))
		// indices first, then what they list
		keys := sortedKeys(b.Tree)
		sort.SliceStable(keys, func(x, y int) bool { return rankPath(keys[x]) < rankPath(keys[y]) })
		for _, k := range keys {
			if rankPath(k) == 0 && !strings.Contains(k, "binary-") {
				continue
			}
			ok := waitFor(60*time.Second, func() bool {
				var rep *Reply
				locked(func() { rep, _ = s.get(c, p, k) })
				return c.Failed() || rep.Status == 200 && bytes.Equal(rep.Body, b.Tree[k])
			})
			if c.Failed() {
				return false
			}
			if !ok {
				c.Violate(map[string]interface{}{"style": s.style}, "%s: version %d was picked up, but %s/%s is not served in that version within 60 s", event, v, s.prefix, k)
				return false
			}
			c.Count("files_in_new_version", 1)
		}
		return true
	}
	for _, s := range suites {
		if !settle(s, 0, "first") {
			return
		}
	}
	events := []string{"publish", "outage", "midpublish", "restart", "late-answer", "partial-outage", "kill-after-pickup"}
	rng.Shuffle(len(events), func(x, y int) { events[x], events[y] = events[y], events[x] })
	if !c.Thorough() {
		events = events[:5]
	} else {
		events = append(events, events...)
	}
	for _, ev := range events {
		for _, s := range suites {
			s := s
			v := len(s.built)
			// versions become visible to the polling clients only when published
			pmu.Lock()
			s.extend(rng, v+1)
			pmu.Unlock()
			old, b := s.built[v-1], s.built[v]
			switch ev {
			case "publish":
				s.o.SetTree(b.Tree)
			case "late-answer":
				// downloads begin while the old release is in force, and
				// end with old content after the new one was picked up
				changed := map[string]bool{}
				for k := range b.Tree {
					changed[k] = rankPath(k) == 2 && !bytes.Equal(old.Tree[k], b.Tree[k])
				}
				pmu.Lock()
				s.extendForced(rng, changed)
				pmu.Unlock()
				if !c10Late(c, rng, s, v, locked, func() *CacherProc { return p }) {
					return
				}
				v++
			case "restart", "kill-after-pickup":
				s.o.SetTree(b.Tree)
				if ev == "kill-after-pickup" {
					for _, rel := range b.Releases["t"] {
						waitFor(60*time.Second, func() bool {
							var rep *Reply
							locked(func() { rep, _ = s.get(c, p, rel) })
							return bytes.Equal(rep.Body, b.Tree[rel])
						})
					}
					// some of the indices are fetched, the others stay old
					for _, k := range sortedKeys(b.Tree) {
						if b.Indices[k] && rng.Intn(2) == 0 {
							locked(func() { s.get(c, p, k) })
						}
					}
				}
				pmu.Lock()
				p.Kill()
				p2, err := c.TryStartCacher(cc)
				if err != nil {
					pmu.Unlock()
					c.Violate(nil, "go-apt-cacher does not start again: %v", err)
					return
				}
				p = p2
				pmu.Unlock()
			case "midpublish":
				// Release files first, the rest later
				t := map[string][]byte{}
				for k, d := range old.Tree {
					t[k] = d
				}
				for _, rels := range b.Releases {
					for _, rel := range rels {
						t[rel] = b.Tree[rel]
					}
				}
				s.o.SetTree(t)
				time.Sleep(time.Duration(500+rng.Intn(2000)) * time.Millisecond)
				s.o.SetTree(b.Tree)
			case "outage", "partial-outage":
				kind := rng.Intn(7)
				part := ev == "partial-outage"
				h := func(pp string, n int, r *http.Request) *Resp {
					if part && rankPath(pp) != 0 {
						return nil
					}
					d := old.Tree[strings.TrimPrefix(pp, "/")]
					switch kind {
					case 0:
						return &Resp{Status: 500}
					case 1:
						return &Resp{Reset: true}
					case 2:
						return &Resp{Body: d, Trunc: true}
					case 3:
						return &Resp{Status: 404}
					case 4:
						return &Resp{Status: 403}
					case 5:
						return &Resp{Body: d, Trunc: true, Chunked: true}
					}
					return &Resp{Raw: []byte("HTTP/1.1 nonsense\r\n\r\n")}
				}
				s.o.Handle(h)
				s.o.SetTree(b.Tree)
				rel := old.Releases["t"][0]
				h0, t0 := s.o.Hits("/"+rel), time.Now()
				cached := map[string]bool{}
				for k := range old.Tree {
					cached[k] = true
				}
				rounds := 0
				for time.Since(t0) < 3*time.Second || s.o.Hits("/"+rel) < h0+2 {
					if time.Since(t0) > 60*time.Second {
						c.Violate(map[string]interface{}{"style": s.style}, "during an outage %s/%s was asked for only %d times in 60 s at check_interval 1", s.prefix, rel, s.o.Hits("/"+rel)-h0)
						return
					}
					for k := range cached {
						var rep *Reply
						locked(func() { rep, _ = s.get(c, p, k) })
						// the first answers may still belong to a check that began before
						if rep.Status != 200 || !bytes.Equal(rep.Body, old.Tree[k]) {
							c.Violate(map[string]interface{}{"style": s.style, "outage": kind, "reply": rep.String()},
								"during an upstream outage the cached %s/%s is not served in the old version", s.prefix, k)
							return
						}
						c.Count("served_during_outage", 1)
					}
					rounds++
					time.Sleep(50 * time.Millisecond)
				}
				el := time.Since(t0)
				// (HTTP clients repeat requests on connections found reset)
				if got, max := s.o.Hits("/"+rel)-h0, int(el/time.Second)+2; got > max && kind != 1 {
					c.Violate(nil, "%s/%s was checked %d times in %v at check_interval 1", s.prefix, rel, got, el)
				}
				s.o.Handle(nil)
			}
			if !settle(s, v, ev) {
				return
			}
		}
	}
	if !p.Alive() {
		c.Violate(tail(p.stderr.String(), 3000), "go-apt-cacher died")
	}
	if i < 2 {
		c.Sample(map[string]interface{}{"events": events, "styles": []string{suites[0].style, suites[1].style}})
	}
}
