package main

import (
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/cybozu-go/aptutil/apt"
	"github.com/cybozu-go/aptutil/mirror"
)

func init() {
	register("M12", &checkDef{fn: checkM12, level: "exploration", minDistinct: 60,
		rule:  "for every kind of file (Release, InRelease, Release.gpg, Release.gz, package index, other index, by-hash path, package, source file) and fault (500, 502, 503, 504, reset, closed without an answer, cut short with and without length, cut at 0, garbage instead of HTTP, connection refused) the first one to three attempts fail, then the upstream is well: the update must succeed with exactly the expected tree. Random faults over all files at once; permanent faults must end the run with an error after at least two and a bounded number of attempts, leaving what was published; 4xx answers must be asked for exactly once, with the documented consequence. Non-trivial: distinct (file kind, fault, number of failures, limit, outcome)",
		assum: []string{"attempts that the HTTP transport repeats by itself on dead idle connections are not counted against the bound", "a limit of 40 requests for one path counts as bounded"}})
	register("M13", &checkDef{fn: checkM13, level: "exploration", minDistinct: 12, raceIsViolation: true,
		rule:  "go-apt-mirror built with the race detector updates several mirrors with several suites, by-hash, reuse, retries, faults, failures and signals, again and again, with limits 0, 1, 2 and 10; mirror.Storage is used by many goroutines at once in all its operations; race reports with a frame in aptutil refute, as does a run that does not end although the upstream owes nothing, or concurrent stores of one path that do not have exactly one winner. Non-trivial: distinct (limit, kind of run, exit status)",
		assum: []string{"the race detector sees only accesses that were executed"}})
}

// ------------------------------------------------------------------ M12

type m12Fault struct {
	name string
	f    func(d []byte) *Resp
}

func m12Faults() []m12Fault {
	var l []m12Fault
	for _, st := range []int{500, 502, 503, 504} {
		st := st
		l = append(l, m12Fault{fmt.Sprint(st), func(d []byte) *Resp { return &Resp{Status: st, Body: d} }})
	}
	l = append(l,
		m12Fault{"reset", func(d []byte) *Resp { return &Resp{Reset: true} }},
		m12Fault{"closed", func(d []byte) *Resp { return &Resp{Raw: []byte{}} }},
		m12Fault{"garbage", func(d []byte) *Resp { return &Resp{Raw: []byte("hello\r\n\r\n")} }},
		m12Fault{"half header", func(d []byte) *Resp { return &Resp{Raw: []byte("HTTP/1.1 200 OK\r\nContent-Le")} }},
		m12Fault{"cut", func(d []byte) *Resp { return &Resp{Body: d, Trunc: true} }},
		m12Fault{"cut by one", func(d []byte) *Resp {
			return &Resp{Body: d, Trunc: true, TruncAt: len(d) - 1}
		}},
		m12Fault{"cut at 0", func(d []byte) *Resp {
			return &Resp{Raw: []byte(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n", len(d)+1))}
		}},
		m12Fault{"chunked cut", func(d []byte) *Resp { return &Resp{Body: d, Trunc: true, Chunked: true} }},
		m12Fault{"all but the end of a chunked body", func(d []byte) *Resp {
			return &Resp{Raw: []byte(fmt.Sprintf("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n%x\r\n%s\r\n", len(d)+1, string(d)+"x"))}
		}},
	)
	return l
}

var m12Classes = []string{"Release", "InRelease", "Release.gpg", "Release.gz", "index", "otherindex", "by-hash", "item", "source"}

// m12Scene makes a repository that has all the kinds of files.
func (c *Ctx) m12Scene(rng *rand.Rand, i int, byhash bool) *scene {
	fam := randSums(rng)
	g := GenOpts{Suites: []string{"t"}, Sections: []string{"main"}, Archs: []string{"amd64"}, PkgsPer: 3, MaxSize: 3000,
		Exts: [][]string{{""}, {".gz"}, {".xz"}, {"", ".gz"}}[i%4], Sums: &fam, ByHash: byhash, Source: true, I18n: true}
	s := c.newScene(rng, g)
	s.repo.Suites[0].RelExts = []string{".gz"}
	s.setRepo(s.repo)
	s.mc.MaxConns = []int{10, 1, 0, 2}[(i/3)%4]
	return s
}

// m12Path picks a file of a class.
func (s *scene) m12Path(rng *rand.Rand, old map[string]string, class string) string {
	switch class {
	case "source":
		for _, p := range sortedKeys(s.b.Tree) {
			if old[p] != s.want[p] && s.want[p] != "" && strings.HasSuffix(p, ".dsc") && len(s.b.Tree[p]) > 1 {
				return p
			}
		}
		return ""
	case "Release.gz":
		p := path.Join(suiteDir(s.repo.Suites[0].Name), class)
		if old[p] != s.want[p] {
			return p
		}
		return ""
	case "by-hash":
		return s.pick(rng, old, "index")
	case "item":
		for n := 0; n < 10; n++ {
			if p := s.pick(rng, old, "item"); !strings.Contains(p, "/src") {
				return p
			}
		}
	}
	return s.pick(rng, old, class)
}

func checkM12(c *Ctx) {
	faults := m12Faults()
	type job func(i int)
	var jobs []job
	perm := c.Rng("perm")
	// permanent failures first: they take longest
	permF := []int{0, 2, 4, 8, 11, 12}
	for k, cl := range m12Classes {
		k, cl := k, cl
		for v := 0; v < c.N(1, 6); v++ {
			f := faults[permF[(k+v+perm.Intn(6))%len(permF)]]
			if c.Thorough() {
				f = faults[permF[v]]
			}
			jobs = append(jobs, func(i int) { m12Permanent(c, c.Rng(fmt.Sprint("perm", cl, f.name)), k+v, cl, f) })
		}
	}
	jobs = append(jobs, func(i int) { m12Refused(c, c.Rng("refused-ever"), false) }, func(i int) { m12Refused(c, c.Rng("refused"), true) })
	for v := 0; v < c.N(16, 120); v++ {
		v := v
		jobs = append(jobs, func(i int) { m12Chaos(c, c.Rng(fmt.Sprint("chaos", v)), v) })
	}
	for fi, f := range faults {
		for k, cl := range m12Classes {
			fi, f, k, cl := fi, f, k, cl
			n := 1
			switch perm.Intn(10) {
			case 0:
				n = 3
			case 1, 2:
				n = 2
			}
			for v := 0; v < c.N(1, 3); v++ {
				n := n
				if c.Thorough() {
					n = v + 1
				}
				jobs = append(jobs, func(i int) {
					m12Transient(c, c.Rng(fmt.Sprint("tr", cl, f.name, n)), fi+k, cl, f, n)
				})
			}
		}
	}
	for _, st := range []int{400, 401, 403, 404, 406, 410, 418, 429, 451, 499} {
		for k, cl := range m12Classes {
			st, k, cl := st, k, cl
			if cl == "by-hash" {
				continue
			}
			jobs = append(jobs, func(i int) { m12Client(c, c.Rng(fmt.Sprint("4xx", cl, st)), k, cl, st) })
		}
	}
	c.Parallel(len(jobs), 64, func(i int) { jobs[i](i) })
}

// m12Script fails the first n attempts for a path.
func (s *scene) m12Script(p, class string, n int, f m12Fault) *int32 {
	var tries int32
	sum := sha(s.b.Tree[p])
	s.o.Handle(func(pp string, _ int, r *http.Request) *Resp {
		d := s.b.Tree[strings.TrimPrefix(pp, "/")]
		if class == "by-hash" {
			// the plain path is stale, and the hash path fails
			if pp == "/"+p {
				return &Resp{Body: append([]byte("stale"), d...)}
			}
			if !strings.Contains(pp, "/by-hash/") || sha(d) != sum {
				return nil
			}
		} else if pp != "/"+p {
			return nil
		}
		if int(atomic.AddInt32(&tries, 1)) <= n {
			return f.f(d)
		}
		return nil
	})
	return &tries
}

func m12Transient(c *Ctx, rng *rand.Rand, i int, class string, f m12Fault, n int) {
	s, p, old := m12Start(c, rng, i, class)
	if s == nil {
		return
	}
	defer s.o.Close()
	tries := s.m12Script(p, class, n, f)
	r := c.RunMirror(s.mc, nil, s.o)
	what := fmt.Sprintf("%s fails %d times (%s)", class, n, f.name)
	wit := map[string]interface{}{"path": p, "run": r.String(), "requests": atomic.LoadInt32(tries), "max_conns": s.mc.MaxConns, "config": s.mc.toml()}
	if r.Code != 0 || r.Stuck != "" {
		c.Violate(wit, "%s: the update does not survive: %s", what, r.String())
		return
	}
	if t := atomic.LoadInt32(tries); int(t) <= n || t > 40 {
		c.Violate(wit, "%s: %d requests", what, t)
		return
	}
	if !c.expectPublished(s.mc.Dir, "m", s.want, what) {
		return
	}
	if bad := tidy(s.mc.Dir, "m"); bad != "" {
		c.Violate(wit, "%s: left in the mirror directory: %s", what, bad)
		return
	}
	if bad := snapshotTidy(s.mc.Dir, "m"); bad != "" {
		c.Violate(wit, "%s: left next to the tree: %s", what, bad)
		return
	}
	c.Count("transient_failures_survived", n)
	c.Eval(fmt.Sprintf("%s %s x%d conns=%d update=%v", class, f.name, n, s.mc.MaxConns, old != nil))
}

// m12Start prepares a first run or an update that has to transfer a file.
func m12Start(c *Ctx, rng *rand.Rand, i int, class string) (*scene, string, map[string]string) {
	for try := 0; try < 30; try++ {
		s := c.m12Scene(rng, i, class == "by-hash" || i%3 == 1)
		var old map[string]string
		if i%2 == 1 {
			if !c.expectRun(s, "first run") {
				s.o.Close()
				return nil, "", nil
			}
			old = s.want
			s.mutate(rng)
		}
		if p := s.m12Path(rng, old, class); p != "" {
			return s, p, old
		}
		s.o.Close()
	}
	giveUp("no file of class %s to transfer", class)
	return nil, "", nil
}

func m12Permanent(c *Ctx, rng *rand.Rand, i int, class string, f m12Fault) {
	s, p, old := m12Start(c, rng, i, class)
	if s == nil {
		return
	}
	defer s.o.Close()
	tries := s.m12Script(p, class, 1<<30, f)
	if class != "by-hash" && s.g.ByHash {
		// whichever way it is asked for
		sum := sha(s.b.Tree[p])
		s.o.Handle(func(pp string, _ int, r *http.Request) *Resp {
			d, ok := s.b.Tree[strings.TrimPrefix(pp, "/")]
			if !ok || sha(d) != sum {
				return nil
			}
			if pp == "/"+p {
				atomic.AddInt32(tries, 1)
			}
			return f.f(d)
		})
	}
	mp := c.StartMirror(s.mc)
	// about 31 s of pauses are normal
	mp.Stop = func(el time.Duration) bool { return atomic.LoadInt32(tries) > 60 || el > 240*time.Second }
	r := mp.Result(s.o)
	t := atomic.LoadInt32(tries)
	what := fmt.Sprintf("%s fails for good (%s)", class, f.name)
	wit := map[string]interface{}{"path": p, "run": r.String(), "requests": t, "max_conns": s.mc.MaxConns}
	if t < 2 || t > 40 || r.Stuck != "" {
		c.Violate(wit, "%s: %d attempts, %s", what, t, r.String())
		return
	}
	c.Max("attempts_before_giving_up", int(t))
	c.m03Judge(s, what, old == nil, old, r, true)
	c.Eval(fmt.Sprintf("%s %s for good", class, f.name))
}

// m12Chaos: every file may fail at its first and second attempt.
func m12Chaos(c *Ctx, rng *rand.Rand, i int) {
	s := c.m12Scene(rng, i, i%2 == 0)
	defer s.o.Close()
	if i%3 == 1 && !c.expectRun(s, "first run") {
		return
	} else if i%3 == 1 {
		s.mutate(rng)
	}
	faults := m12Faults()
	seed := rng.Int63()
	prob := 1 + rng.Intn(9)
	var nf int32
	s.o.Handle(func(pp string, n int, r *http.Request) *Resp {
		d, ok := s.b.Tree[strings.TrimPrefix(pp, "/")]
		if !ok || n > 1 {
			return nil
		}
		h := int64(0)
		for _, ch := range pp {
			h = h*131 + int64(ch)
		}
		x := rand.New(rand.NewSource(seed ^ h ^ int64(n)*7919))
		if x.Intn(10) >= prob || n == 1 && x.Intn(3) > 0 {
			return nil
		}
		atomic.AddInt32(&nf, 1)
		f := faults[x.Intn(len(faults))]
		if len(d) < 2 {
			f = faults[x.Intn(7)]
		}
		return f.f(d)
	})
	hits0 := map[string]int{}
	for _, h := range s.o.Log() {
		hits0[h.Path]++
	}
	r := c.RunMirror(s.mc, nil, s.o)
	wit := map[string]interface{}{"faults": nf, "run": r.String(), "max_conns": s.mc.MaxConns}
	if r.Code != 0 || r.Stuck != "" {
		c.Violate(wit, "%d transient failures of all kinds: the update fails: %s", nf, r.String())
		return
	}
	if !c.expectPublished(s.mc.Dir, "m", s.want, fmt.Sprintf("%d transient failures", nf)) {
		return
	}
	if bad := tidy(s.mc.Dir, "m") + snapshotTidy(s.mc.Dir, "m"); bad != "" {
		c.Violate(wit, "after %d transient failures: left: %s", nf, bad)
		return
	}
	hits := map[string]int{}
	for _, h := range s.o.Log() {
		hits[h.Path]++
		if hits[h.Path]-hits0[h.Path] > 12 {
			c.Violate(wit, "%s was requested over and over", h.Path)
			return
		}
	}
	c.Count("transient_failures_survived", int(nf))
	c.Eval(fmt.Sprintf("chaos %d: %d faults", i, nf))
}

// m12Refused: nobody listens at first, or ever.
func m12Refused(c *Ctx, rng *rand.Rand, later bool) {
	s := c.m12Scene(rng, rng.Intn(12), false)
	defer s.o.Close()
	port := freePort()
	s.def.URL = fmt.Sprintf("http://127.0.0.1:%d/", port)
	s.mc.Mirrors["m"] = s.def
	s.mc.MaxConns = 10
	if later {
		m := c.StartMirror(s.mc)
		time.Sleep(1500 * time.Millisecond)
		ln, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		if err != nil {
			giveUp("port taken: %v", err)
		}
		srv := &http.Server{Handler: s.o}
		go srv.Serve(ln)
		defer srv.Close()
		r := m.Result(s.o)
		if r.Code != 0 || !c.expectPublished(s.mc.Dir, "m", s.want, "upstream refused connections for 1.5 s") {
			c.Violate(map[string]interface{}{"run": r.String()}, "the upstream refused connections for 1.5 s: the update does not survive: %s", r.String())
		}
		c.Eval("refused at first")
		return
	}
	r := c.RunMirror(s.mc, nil, s.o)
	s.def.URL = s.o.URL
	s.mc.Mirrors["m"] = s.def // m03Judge ends with a healthy run
	c.m03Judge(s, "connections are refused", true, nil, r, true)
	c.Eval("refused for good")
}

// m12Client: the upstream answers 4xx.
func m12Client(c *Ctx, rng *rand.Rand, i int, class string, status int) {
	s, p, old := m12Start(c, rng, i+status, class)
	if s == nil {
		return
	}
	defer s.o.Close()
	s.o.Handle(func(pp string, n int, r *http.Request) *Resp {
		if pp == "/"+p {
			return &Resp{Status: status, Body: []byte("client error\n")}
		}
		return nil
	})
	h0 := s.o.Hits("/" + p)
	r := c.RunMirror(s.mc, nil, s.o)
	n := s.o.Hits("/"+p) - h0
	what := fmt.Sprintf("%s is answered with %d", class, status)
	wit := map[string]interface{}{"path": p, "run": r.String(), "requests": n}
	if n != 1 {
		c.Violate(wit, "%s: %d requests", what, n)
		return
	}
	c.Eval(fmt.Sprintf("%s %d update=%v", class, status, old != nil))
	skip := false
	switch class {
	case "Release", "InRelease", "Release.gpg", "Release.gz":
		skip = true
	case "index", "otherindex":
		skip = status == 404
	}
	if !skip {
		c.m03Judge(s, what, old == nil, old, r, true)
		return
	}
	if r.Code != 0 || r.Stuck != "" {
		c.Violate(wit, "%s: the update fails: %s", what, r.String())
		return
	}
	// the same without that file; a package index may have other variants
	tree := map[string][]byte{}
	for q, d := range s.b.Tree {
		if q != p {
			tree[q] = d
		}
	}
	b := *s.b
	b.Tree = tree
	want := mirrorWants(s.repo, &b, s.def)
	t, _, ok, err := published(s.mc.Dir, "m")
	if err != nil || !ok {
		c.Violate(wit, "%s: nothing usable is published", what)
		return
	}
	if d := treeDiff(files(t), want); d != "" {
		c.Violate(map[string]interface{}{"diff": d, "run": r.String()}, "%s: the published tree is not the rest of the repository: %s", what, head(d, 300))
	}
}

// ------------------------------------------------------------------ M13

func checkM13(c *Ctx) {
	n := c.N(16, 80)
	var jobs []func()
	for i := 0; i < n; i++ {
		i := i
		jobs = append(jobs, func() { m13Run(c, c.Rng(fmt.Sprint("run", i)), i) })
	}
	for i := 0; i < c.N(24, 200); i++ {
		i := i
		jobs = append(jobs, func() { m13Storage(c, c.Rng(fmt.Sprint("api", i)), i) })
	}
	c.Parallel(len(jobs), 6, func(i int) { jobs[i]() })
}

func m13Run(c *Ctx, rng *rand.Rand, i int) {
	var org []*Origin
	var sc []*scene
	limit := []int{10, 1, 2, 0}[i%4]
	conf := MirrorConf{Dir: c.Dir("m13"), MaxConns: limit, Mirrors: map[string]MirrDef{}, LogLevel: []string{"debug", "error"}[i%2]}
	for k := 0; k < 3; k++ {
		fam := randSums(rng)
		g := GenOpts{Suites: []string{"t", "u", "v"}[:1+k], Sections: []string{"main", "extra"}, Archs: []string{"amd64"}, PkgsPer: 4, MaxSize: 2000,
			Exts: [][]string{{""}, {".gz", ""}, {".xz"}}[(i+k)%3], Sums: &fam, ByHash: (i+k)%2 == 0, Source: k == 1, I18n: true, SubRelease: k == 2}
		if k == 0 && i%3 == 0 {
			g = GenOpts{Suites: []string{"f/", "g/"}, PkgsPer: 8, MaxSize: 2000, Exts: []string{"", ".gz"}, Sums: &fam, ByHash: i%2 == 0}
		}
		s := c.newScene(rng, g)
		defer s.o.Close()
		s.id = fmt.Sprintf("m%d", k)
		s.mc.Dir = conf.Dir
		conf.Mirrors[s.id] = s.def
		sc = append(sc, s)
		org = append(org, s.o)
	}
	for v := 0; v < c.N(4, 8) && !c.Failed(); v++ {
		kind := []string{"plain", "transient", "failing", "signal", "stale", "missing", "reuse"}[(i+v*3)%7]
		for _, s := range sc {
			if v > 0 && kind != "reuse" {
				s.mutate(rng)
			}
			s := s
			var cnt int32
			s.o.Handle(func(pp string, n int, r *http.Request) *Resp {
				d, ok := s.o.Tree()[strings.TrimPrefix(pp, "/")]
				x := atomic.AddInt32(&cnt, 1)
				if x%5 == 0 {
					time.Sleep(time.Duration(x%7) * time.Millisecond)
				}
				if !ok || len(d) < 2 {
					return nil
				}
				switch kind {
				case "transient":
					if x%9 == 3 && n%3 == 0 {
						return &Resp{Status: 500}
					}
					if x%9 == 5 && n%3 == 0 {
						return &Resp{Body: d, Trunc: true}
					}
				case "failing":
					if x%17 == 16 && s.b.Items[strings.TrimPrefix(pp, "/")] {
						return &Resp{Status: 403}
					}
				case "stale":
					if s.g.ByHash && s.b.Indices[strings.TrimPrefix(pp, "/")] {
						return &Resp{Body: append([]byte("stale"), d...)}
					}
				case "missing":
					if _, base, _ := splitIndex(pp); x%6 == 0 && (strings.HasPrefix(base, "Translation") || base == "InRelease") {
						return &Resp{Status: 404}
					}
				}
				return nil
			})
		}
		p := c.StartMirror(conf)
		if kind == "signal" {
			time.Sleep(time.Duration(rng.Intn(150)) * time.Millisecond)
			p.cmd.Process.Signal([]os.Signal{syscall.SIGTERM, syscall.SIGINT}[rng.Intn(2)])
		}
		r := p.Result(org...)
		wit := map[string]interface{}{"limit": limit, "kind": kind, "run": r.String()}
		if r.Stuck != "" {
			c.Violate(wit, "max_conns=%d, %s: go-apt-mirror does not end", limit, kind)
			return
		}
		if r.Code != 0 && r.Code != 1 && kind != "signal" {
			c.Violate(wit, "max_conns=%d, %s: go-apt-mirror ended with status %d", limit, kind, r.Code)
			return
		}
		if r.Code != 0 && kind != "failing" && kind != "signal" {
			c.Violate(wit, "max_conns=%d, %s: go-apt-mirror failed", limit, kind)
			return
		}
		if r.Code == 0 && kind != "missing" {
			for _, s := range sc {
				if !c.expectPublished(conf.Dir, s.id, s.want, kind) {
					return
				}
			}
		}
		c.Eval(fmt.Sprintf("limit=%d %s exit=%d by-hash=%v", limit, kind, r.Code, sc[1].g.ByHash))
		c.Count("runs", 1)
		if i == 0 {
			c.Sample(wit)
		}
	}
	for _, o := range org {
		c.Count("transfers", o.Hits(""))
	}
}

// m13Storage uses one mirror.Storage from many goroutines.
func m13Storage(c *Ctx, rng *rand.Rand, i int) {
	dir := c.Dir("m13api")
	st, err := mirror.NewStorage(dir, "p")
	must(err)
	type file struct {
		fi   *apt.FileInfo
		data []byte
		wins int32
	}
	var fs []*file
	for k := 0; k < 40; k++ {
		p := fmt.Sprintf("d%d/f%d", k%3, k/2) // two contents for every path
		data := blob(rng, fmt.Sprint(p, k), rng.Intn(300))
		fi, err := apt.CopyWithFileInfo(discard{}, strings.NewReader(string(data)), p)
		must(err)
		fs = append(fs, &file{fi: fi, data: data})
	}
	byhash := i%2 == 1
	wins := make([]int32, len(fs))
	var bad atomic.Value
	var wg sync.WaitGroup
	var ops int64
	for w := 0; w < 8; w++ {
		wg.Add(1)
		r := rand.New(rand.NewSource(rng.Int63()))
		go func() {
			defer wg.Done()
			for _, k := range r.Perm(len(fs)) {
				f := fs[k]
				tf, err := st.TempFile()
				if err != nil {
					bad.Store("TempFile: " + err.Error())
					return
				}
				tf.Write(f.data)
				tf.Close()
				if byhash {
					if err := st.StoreLinkWithHash(f.fi, tf.Name()); err != nil {
						bad.Store("StoreLinkWithHash: " + err.Error())
					}
				} else if st.StoreLink(f.fi, tf.Name()) == nil {
					atomic.AddInt32(&wins[k], 1)
				}
				os.Remove(tf.Name())
				g := fs[r.Intn(len(fs))]
				if fi, fp := st.Lookup(g.fi, byhash); fi != nil {
					if !g.fi.Same(fi) {
						bad.Store("Lookup returns the information of another file")
					}
					_ = fp
				}
				if f, err := st.Open(g.fi.Path()); err == nil {
					f.Close()
				}
				if r.Intn(20) == 0 {
					if err := st.Save(); err != nil && !os.IsNotExist(err) && !strings.Contains(err.Error(), "no such file") {
						bad.Store("Save: " + err.Error())
					}
				}
				atomic.AddInt64(&ops, 5)
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Minute):
		c.Violate(nil, "mirror.Storage: operations of 8 goroutines do not end")
		return
	}
	if s, ok := bad.Load().(string); ok {
		c.Violate(nil, "mirror.Storage used by 8 goroutines: %s", s)
		return
	}
	if !byhash {
		per := map[string]int{}
		for k, f := range fs {
			per[f.fi.Path()] += int(wins[k])
		}
		for p, n := range per {
			if n != 1 {
				c.Violate(map[string]interface{}{"path": p}, "mirror.Storage: %d of 16 concurrent StoreLink calls for one path succeeded", n)
				return
			}
		}
	}
	must(st.Save())
	st2, err := mirror.NewStorage(dir, "p")
	must(err)
	if err := st2.Load(); err != nil {
		c.Violate(nil, "mirror.Storage: what was saved cannot be loaded: %v", err)
		return
	}
	for k, f := range fs {
		fi, fp := st2.Lookup(f.fi, byhash)
		if !byhash && (fi != nil) != (wins[k] == 1) || byhash && fi == nil {
			c.Violate(map[string]interface{}{"path": f.fi.Path()}, "mirror.Storage: after saving and loading Lookup does not tell what was stored (stored %d, found %v)", wins[k], fi != nil)
			return
		}
		if fi == nil {
			continue
		}
		d, err := os.ReadFile(fp)
		if err != nil || string(d) != string(f.data) {
			c.Violate(map[string]interface{}{"path": f.fi.Path(), "file": fp}, "mirror.Storage: the file of a stored path has other content (%v)", err)
			return
		}
	}
	m, _ := filepath.Glob(filepath.Join(dir, "_tmp*"))
	if len(m) > 0 {
		c.Violate(m, "mirror.Storage: temporary files stay")
	}
	c.Count("storage_operations", int(ops))
	c.Eval(fmt.Sprintf("storage %d %v %s", i, byhash, path.Base(dir)))
}

type discard struct{}

func (discard) Write(b []byte) (int, error) { return len(b), nil }
