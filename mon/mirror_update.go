package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	register("M01", &checkDef{fn: checkM01, level: "exploration", minDistinct: 60,
		rule:  "go-apt-mirror under a ptrace tracer, first runs, updates, failing updates and updates of an upstream that changes half-way, for flat, sectioned, by-hash, multi-suite and source repositories: at the entry and exit of every mutating file-system call (and when killed at one) the tree clients see through the mirror path is read and must be nothing (before the first success), the old version or the new version, complete, and never go back. Non-trivial: distinct (kind of repository, kind of run, system call, state seen)",
		assum: []string{"a reader that resolved the link before the switch and reads on afterwards is out of scope", "upstream changes during an update are judged for repositories with InRelease only, where one file pins the version"}})
	register("M02", &checkDef{fn: checkM02, level: "exploration", minDistinct: 10,
		rule:  "the trace of file-system calls of real updates is replayed by a monitor of unflushed data (by inode) and unflushed directory entries (by directory); at the switch nothing in the new tree, its metadata, or its entry in the mirror directory may be unflushed, and at a successful end the switch itself must be flushed. Runs with an I/O error injected into single fsync calls are judged the same way. Non-trivial: distinct (kind of repository, kind of run, injected fsync class, outcome)",
		assum: []string{"flushing is judged by fsync/fdatasync/sync calls and their results, not by what a disk does", "file modes are not part of the data"}})
	register("M03", &checkDef{fn: checkM03, level: "exploration", minDistinct: 40,
		rule:  "updates and first runs with one persistent upstream fault (wrong content, wrong size, missing, forbidden, server errors, truncated, damaged or inconsistent indices and Release files), with one failing file-system call (EIO/ENOSPC at every class of call), and with SIGTERM/SIGINT while requests are held; judged by exit status, the published tree (exactly the old version, or the new one when the status is 0), and a following run on a healthy upstream. Non-trivial: distinct (fault, first run or update, kind of repository)",
		assum: []string{"an error injected into a call that a retry repeats or whose result does not matter may end in success, but only with the complete new version"}})
	register("M14", &checkDef{fn: checkM14, level: "exploration", minDistinct: 40,
		rule:  "go-apt-mirror is killed with SIGKILL at the entry of chosen file-system calls (first runs, updates, runs of two mirrors, repeated kills), while requests are held and at random moments; afterwards the published trees must be complete old or new versions, and the next run must succeed, publish the current version and leave nothing but the lock file, the links and what they point to. Non-trivial: distinct (kind of repository, kind of run, system call and target class at which the process died)",
		assum: []string{"SIGKILL of the process stands for a crash; loss of unflushed data is M02's"}})
}

// ------------------------------------------------------------------ M01

// sampler watches the published tree of a mirror.
type sampler struct {
	c     *Ctx
	s     *scene
	ok    map[string]string // digest -> name of the version
	order map[string]int    // "" (nothing) = 0
	last  int
	kind  string
	n     int
	seen  map[string]int
}

func newSampler(c *Ctx, s *scene, kind string, versions ...map[string]string) *sampler {
	sm := &sampler{c: c, s: s, ok: map[string]string{}, order: map[string]int{}, kind: kind, last: -1, seen: map[string]int{}}
	for i, v := range versions {
		if v == nil {
			sm.order["nothing"] = i
			continue
		}
		d := digest(v)
		sm.ok[d] = fmt.Sprintf("version %d", i)
		sm.order[sm.ok[d]] = i
	}
	return sm
}

func (sm *sampler) sample(at string) string {
	tree, target, ok, err := published(sm.s.mc.Dir, sm.s.id)
	sm.n++
	st := "nothing"
	if ok {
		if err != nil {
			sm.c.Violate(map[string]interface{}{"at": at, "error": err.Error(), "run": sm.kind}, "%s: at %s the mirror path does not resolve to a readable tree: %v", sm.kind, opClass(at), err)
			return ""
		}
		st = sm.ok[digest(files(tree))]
		if st == "" {
			sm.c.Violate(map[string]interface{}{"at": at, "target": target, "diff": treeDiff(files(tree), sm.s.want), "run": sm.kind},
				"%s: at %s the tree at the mirror path is no complete version (compared with the upstream's: %s)", sm.kind, opClass(at), head(treeDiff(files(tree), sm.s.want), 300))
			return ""
		}
	}
	o, known := sm.order[st]
	if !known || o < sm.last {
		sm.c.Violate(map[string]interface{}{"at": at, "run": sm.kind, "state": st}, "%s: at %s clients see %s", sm.kind, opClass(at), st)
		return ""
	}
	sm.last = o
	sm.seen[st]++
	return st
}

func opClass(s string) string { return head(s, 160) }

// className replaces variable parts of a path.
func className(dir, p string) string {
	rel, err := filepath.Rel(dir, p)
	if err != nil || strings.HasPrefix(rel, "..") {
		return "outside"
	}
	parts := strings.Split(rel, "/")
	switch {
	case rel == ".":
		return "root"
	case strings.HasPrefix(parts[0], ".lock"):
		return "lock"
	case !strings.HasPrefix(parts[0], "."):
		return "link"
	case len(parts) == 1:
		return "snapshot"
	case strings.HasPrefix(parts[1], "_tmp"):
		return "temp"
	case len(parts) == 2 && parts[1] == "info.json":
		return "info"
	case len(parts) == 2:
		return "tree"
	case strings.Contains(rel, "/by-hash/"):
		return "byhash"
	case strings.Contains(parts[len(parts)-1], "Release"):
		return "release"
	case parts[2] == "dists":
		return "index"
	}
	return "item"
}

func kindOf(g GenOpts) string {
	k := strings.Join(g.Suites, "+") + strings.Join(g.Exts, ",")
	if g.ByHash {
		k += " by-hash"
	}
	if g.Source {
		k += " source"
	}
	return k
}

func checkM01(c *Ctx) {
	n := c.N(10, 60)
	c.Parallel(n, 8, func(i int) { m01Run(c, c.Rng(fmt.Sprint("run", i)), i) })
	m := c.N(72, 600)
	c.Parallel(m, 12, func(i int) { m01Kill(c, c.Rng(fmt.Sprint("kill", i)), i) })
	k := c.N(12, 100)
	c.Parallel(k, 8, func(i int) { m01Switch(c, c.Rng(fmt.Sprint("switch", i)), i) })
}

func (c *Ctx) m01Traced(s *scene, kind string, g GenOpts, versions ...map[string]string) (*sampler, *Tracer) {
	sm := newSampler(c, s, kind, versions...)
	t := &Tracer{Root: s.mc.Dir}
	see := func(when string, op *FSOp) {
		if c.Failed() {
			return
		}
		if st := sm.sample(when + " " + op.String()); st != "" {
			c.Eval(fmt.Sprintf("%s %s %s %s %s", kindOf(g), kind, op.Name, className(s.mc.Dir, op.Path), st))
		}
	}
	t.OnEnter = func(op *FSOp) Action {
		if op.N > 0 && op.Name != "write" {
			see("before", op)
		}
		return Action{}
	}
	t.OnExit = func(op *FSOp) {
		if op.Name != "chmod" {
			see("after", op)
		}
	}
	c.traceMirror(s.mc, t)
	sm.sample("the end")
	c.Count("file_system_calls", len(t.Ops))
	c.Count("samples_of_the_published_tree", sm.n)
	return sm, t
}

func m01Run(c *Ctx, rng *rand.Rand, i int) {
	g := sceneOpts(rng, i)
	s := c.newScene(rng, g)
	defer s.o.Close()
	_, t := c.m01Traced(s, "first run", g, nil, s.want)
	if t.ExitCode != 0 {
		c.Violate(t.Stderr, "first run failed on a healthy repository")
	}
	for v := 0; v < c.N(2, 4) && !c.Failed(); v++ {
		old := s.want
		s.mutate(rng)
		// an update that fails
		bad := ""
		for p := range s.b.Items {
			if _, had := old[p]; s.want[p] != "" && (!had || old[p] != s.want[p]) {
				bad = p
			}
		}
		if bad != "" {
			s.o.Handle(func(pp string, n int, r *http.Request) *Resp {
				if pp == "/"+bad {
					return &Resp{Body: []byte("wrong")}
				}
				return nil
			})
			_, t := c.m01Traced(s, "failing update", g, old)
			s.o.Handle(nil)
			if t.ExitCode == 0 && !c.Failed() {
				c.Violate(map[string]interface{}{"file": bad}, "an update with a wrong file succeeded")
			}
		}
		if c.Failed() {
			return
		}
		sm, t := c.m01Traced(s, "update", g, old, s.want)
		if t.ExitCode != 0 {
			c.Violate(t.Stderr, "an update failed on a healthy repository")
		}
		if i < 2 && v == 0 {
			c.Sample(map[string]interface{}{"repository": kindOf(g), "calls": len(t.Ops), "states_seen": sm.seen})
		}
	}
}

// m01Kill kills a first run or an update and looks at what is left.
func m01Kill(c *Ctx, rng *rand.Rand, i int) {
	g := sceneOpts(rng, i/2)
	s := c.newScene(rng, g)
	defer s.o.Close()
	kind := "killed first run"
	var old map[string]string
	if i%2 == 1 {
		kind = "killed update"
		if !c.expectRun(s, "first run") {
			return
		}
		old = s.want
		s.mutate(rng)
	}
	sm := newSampler(c, s, kind, old, s.want)
	k := killPoint(rng, i)
	t := &Tracer{Root: s.mc.Dir}
	at := ""
	t.OnEnter = func(op *FSOp) Action {
		if k.hit(s, op) {
			at = op.Name + " " + className(s.mc.Dir, op.Path)
			return Action{Kill: true}
		}
		return Action{}
	}
	c.traceMirror(s.mc, t)
	st := sm.sample("kill at " + at)
	if t.Killed {
		c.Eval(fmt.Sprintf("%s killed at %s %s", kind, at, st))
		c.Count("kills", 1)
	}
}

// killer decides where a process is killed.
type killer struct {
	n     int    // at the n-th mutating call, or
	class string // at the n-th call "name class"
	cnt   int
}

func killPoint(rng *rand.Rand, i int) *killer {
	classes := []string{"symlink outside", "symlink link", "rename link", "fsync root", "unlink snapshot", "rmdir snapshot", "unlink temp",
		"unlink item", "open info", "write info", "fsync info", "fsync tree", "mkdir snapshot", "open lock", "link item", "link release", "fsync snapshot", "unlink info"}
	if i%3 == 0 {
		return &killer{class: classes[(i/3)%len(classes)], n: 1 + rng.Intn(2)}
	}
	return &killer{n: 1 + rng.Intn(260)}
}

func (k *killer) hit(s *scene, op *FSOp) bool {
	if k.class == "" {
		return op.N == k.n
	}
	cl := className(s.mc.Dir, op.Path)
	if op.Name+" "+cl == k.class || op.Path2 != "" && op.Name+" "+className(s.mc.Dir, op.Path2) == k.class {
		k.cnt++
		return k.cnt == k.n
	}
	return false
}

// m01Switch changes the upstream during an update; InRelease alone pins the
// version.
func m01Switch(c *Ctx, rng *rand.Rand, i int) {
	fam := randSums(rng)
	g := GenOpts{Suites: []string{"t"}, Sections: []string{"main"}, Archs: []string{"amd64"}, PkgsPer: 3, MaxSize: 4000,
		Exts: []string{".gz"}, Sums: &fam, ByHash: i%3 == 1, I18n: i%4 == 2}
	s := c.newScene(rng, g)
	defer s.o.Close()
	for _, su := range s.repo.Suites {
		su.NoRelease, su.NoGPG = true, true
	}
	s.setRepo(s.repo)
	v0 := s.want
	var old map[string]string
	if i%2 == 0 {
		if !c.expectRun(s, "first run") {
			return
		}
		old = v0
		s.mutate(rng)
	}
	v1, b1 := s.want, s.b
	next := s.repo.Mutate(rng, g)
	b2 := next.Build()
	v2 := mirrorWants(next, b2, s.def)
	at := 5 + rng.Intn(12)
	var cnt int32
	keep := rng.Intn(2) == 0 // old pool files stay upstream
	merged := map[string][]byte{}
	for p, d := range b2.Tree {
		merged[p] = d
	}
	if keep {
		for p, d := range b1.Tree {
			if _, ok := merged[p]; !ok {
				merged[p] = d
			}
		}
	}
	s.o.Handle(func(pp string, n int, r *http.Request) *Resp {
		if int(atomic.AddInt32(&cnt, 1)) == at {
			s.o.SetTree(merged)
		}
		return nil
	})
	sm := newSampler(c, s, "upstream changes during an update", old, v1, v2)
	t := &Tracer{Root: s.mc.Dir}
	t.OnExit = func(op *FSOp) {
		if op.Name == "rename" || op.Name == "symlink" || op.Name == "rmdir" {
			sm.sample("after " + op.String())
		}
	}
	c.traceMirror(s.mc, t)
	st := sm.sample("the end")
	if t.ExitCode != 0 && st != "version 0" && st != "nothing" && !c.Failed() {
		c.Violate(map[string]interface{}{"state": st, "stderr": t.Stderr}, "a failed update was published")
	}
	c.Eval(fmt.Sprintf("switch at %d exit %d %s", at, t.ExitCode, st))
	c.Count("updates_during_upstream_changes", 1)
}

// ------------------------------------------------------------------ M02

// flushMon replays file-system calls and knows what is not flushed.
type flushMon struct {
	root    string
	seq     int
	data    map[uint64]int            // inode -> time of its last write
	entries map[string]map[string]int // directory -> names added
	enter   map[*FSOp]int
	nosync  map[string]bool // opened O_SYNC
	check   func(op *FSOp, newTarget string)
	files   int
	dirs    int
	fsyncs  int
}

func newFlushMon(root string) *flushMon {
	return &flushMon{root: root, data: map[uint64]int{}, entries: map[string]map[string]int{}, enter: map[*FSOp]int{}, nosync: map[string]bool{}}
}

func inode(p string) uint64 {
	st, err := os.Stat(p)
	if err != nil {
		return 0
	}
	return st.Sys().(*syscall.Stat_t).Ino
}

func (f *flushMon) add(p string) {
	d := filepath.Dir(p)
	if f.entries[d] == nil {
		f.entries[d] = map[string]int{}
	}
	f.entries[d][filepath.Base(p)] = f.seq
}

func (f *flushMon) onEnter(op *FSOp) {
	f.seq++
	f.enter[op] = f.seq
	if f.check != nil {
		switch {
		case op.Name == "rename" && !strings.Contains(strings.TrimPrefix(op.Path2, f.root+"/"), "/"):
			if t, err := os.Readlink(op.Path); err == nil {
				f.check(op, t)
			}
		case op.Name == "symlink" && !strings.HasSuffix(op.Path2, ".tmp") && !strings.Contains(strings.TrimPrefix(op.Path2, f.root+"/"), "/"):
			f.check(op, op.Path)
		}
	}
}

func (f *flushMon) onExit(op *FSOp) {
	f.seq++
	start := f.enter[op]
	delete(f.enter, op)
	if op.Ret < 0 {
		return
	}
	switch op.Name {
	case "open":
		if op.Flags&syscall.O_CREAT != 0 {
			f.add(op.Path)
		}
		if op.Flags&syscall.O_SYNC == syscall.O_SYNC || op.Flags&syscall.O_DSYNC != 0 {
			f.nosync[op.Path] = true
		}
	case "write", "truncate":
		if !f.nosync[op.Path] {
			if i := inode(op.Path); i != 0 {
				f.data[i] = f.seq
			}
		}
	case "mkdir":
		f.add(op.Path)
		delete(f.entries, op.Path)
	case "link", "symlink":
		f.add(op.Path2)
	case "rename":
		f.add(op.Path2)
		if e := f.entries[filepath.Dir(op.Path)]; e != nil {
			delete(e, filepath.Base(op.Path))
		}
		// unflushed entries move along with a directory
		for d, e := range f.entries {
			if under(op.Path, d) {
				f.entries[op.Path2+d[len(op.Path):]] = e
				delete(f.entries, d)
			}
		}
	case "unlink", "rmdir":
		if e := f.entries[filepath.Dir(op.Path)]; e != nil {
			delete(e, filepath.Base(op.Path))
		}
		if op.Name == "rmdir" {
			delete(f.entries, op.Path)
		}
	case "fsync":
		f.fsyncs++
		if e, ok := f.entries[op.Path]; ok {
			for n, s := range e {
				if s < start {
					delete(e, n)
				}
			}
		}
		if i := inode(op.Path); i != 0 && f.data[i] < start {
			delete(f.data, i)
		}
	case "sync":
		f.fsyncs++
		for i, s := range f.data {
			if s < start {
				delete(f.data, i)
			}
		}
		for _, e := range f.entries {
			for n, s := range e {
				if s < start {
					delete(e, n)
				}
			}
		}
	}
}

// unflushed lists what of the tree at target is not flushed.
func (f *flushMon) unflushed(target string, link string) []string {
	var bad []string
	if !filepath.IsAbs(target) {
		target = filepath.Join(f.root, target)
	}
	rel, err := filepath.Rel(f.root, target)
	if err != nil || strings.HasPrefix(rel, "..") {
		return []string{"the new link points to " + target}
	}
	snap := filepath.Join(f.root, strings.Split(rel, "/")[0])
	filepath.Walk(snap, func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if st.IsDir() {
			f.dirs++
			for n := range f.entries[p] {
				if !strings.HasPrefix(n, "_tmp") {
					bad = append(bad, "entry "+n+" of directory "+p)
				}
			}
			return nil
		}
		if p != filepath.Join(snap, "info.json") && !under(target, p) {
			return nil
		}
		f.files++
		if _, dirty := f.data[st.Sys().(*syscall.Stat_t).Ino]; dirty {
			bad = append(bad, "data of "+p)
		}
		return nil
	})
	for _, n := range []string{filepath.Base(snap), filepath.Base(link)} {
		if _, p := f.entries[f.root][n]; p {
			bad = append(bad, "entry "+n+" of the mirror directory")
		}
	}
	return bad
}

func checkM02(c *Ctx) {
	n := c.N(12, 60)
	c.Parallel(n, 8, func(i int) { m02Run(c, c.Rng(fmt.Sprint("run", i)), i, nil, nil) })
	classes := []string{"temp", "info", "snapshot", "tree", "root", "index", "item", "byhash", "release"}
	m := c.N(90, 600)
	c.Parallel(m, 12, func(i int) {
		k := &killer{class: "fsync " + classes[i%len(classes)], n: 1 + (i/len(classes))%6}
		m02Run(c, c.Rng(fmt.Sprint("inj", i)), i/2, k, []syscall.Errno{syscall.EIO, syscall.ENOSPC})
	})
}

func m02Run(c *Ctx, rng *rand.Rand, i int, inj *killer, errs []syscall.Errno) {
	g := sceneOpts(rng, i)
	s := c.newScene(rng, g)
	defer s.o.Close()
	if inj == nil && i%4 == 2 {
		// a large file
		cp := s.repo.Suites[0].Comps[0]
		cp.Pkgs = append(cp.Pkgs, PkgFile{Path: path.Join(path.Dir(cp.Pkgs[0].Path), "large_1.deb"), Data: bigBlob(rng, "large", 10<<20)})
		s.setRepo(s.repo)
	}
	two := i%5 == 4
	if two {
		s.mc.Mirrors = map[string]MirrDef{"m": s.def, "m2": s.def}
	}
	run := func(kind string, inj *killer) bool {
		f := newFlushMon(s.mc.Dir)
		switches := map[string]string{}
		f.check = func(op *FSOp, target string) {
			link := op.Path2
			if bad := f.unflushed(target, op.Path); len(bad) > 0 {
				c.Violate(map[string]interface{}{"run": kind, "switch": op.String(), "not flushed": bad}, "%s (%s): the mirror path is switched while not flushed: %s", kind, kindOf(g), head(strings.Join(bad, "; "), 400))
			}
			switches[filepath.Base(link)] = target
		}
		t := &Tracer{Root: s.mc.Dir}
		injected := ""
		t.OnEnter = func(op *FSOp) Action {
			if op.N > 0 {
				f.onEnter(op)
			}
			if inj != nil && injected == "" && inj.hit(s, op) {
				injected = inj.class
				return Action{Errno: errs[rng.Intn(len(errs))]}
			}
			return Action{}
		}
		t.OnExit = f.onExit
		c.traceMirror(s.mc, t)
		if inj == nil && t.ExitCode != 0 {
			c.Violate(t.Stderr, "%s failed on a healthy repository", kind)
			return false
		}
		if t.ExitCode == 0 {
			if len(switches) == 0 {
				c.Violate(nil, "%s ended successfully but no switch of the mirror path was seen", kind)
			}
			for l := range switches {
				if _, p := f.entries[s.mc.Dir][l]; p {
					c.Violate(map[string]interface{}{"run": kind}, "%s (%s): the switch itself is not flushed at the successful end", kind, kindOf(g))
				}
			}
		}
		c.Count("switches", len(switches))
		c.Count("files_checked_at_a_switch", f.files)
		c.Count("directories_checked_at_a_switch", f.dirs)
		c.Count("flushes", f.fsyncs)
		if injected != "" {
			c.Count("injected_fsync_errors", 1)
			kind += " with error in " + injected
		}
		c.Eval(fmt.Sprintf("%s %s exit %v", kindOf(g), kind, t.ExitCode == 0))
		if inj == nil && i < 2 {
			c.Sample(map[string]interface{}{"repository": kindOf(g), "run": kind, "calls": len(t.Ops), "flushes": f.fsyncs, "files": f.files, "directories": f.dirs})
		}
		return !c.Failed()
	}
	if inj != nil {
		if i%2 == 1 {
			if !c.expectRun(s, "first run") {
				return
			}
			s.mutate(rng)
		}
		run("run", inj)
		return
	}
	if !run("first run", nil) {
		return
	}
	for v := 0; v < 2 && !c.Failed(); v++ {
		s.mutate(rng)
		if v == 1 {
			// a transient failure on the way
			var failed int32
			s.o.Handle(func(pp string, n int, r *http.Request) *Resp {
				if strings.Contains(pp, "pool") && atomic.CompareAndSwapInt32(&failed, 0, 1) {
					return &Resp{Body: s.o.Tree()[strings.TrimPrefix(pp, "/")], Trunc: true}
				}
				return nil
			})
		}
		if v == 0 && s.g.ByHash {
			// what is listed is to be had by hash only
			s.o.Handle(func(pp string, n int, r *http.Request) *Resp {
				if p := strings.TrimPrefix(pp, "/"); s.b.Indices[p] {
					return &Resp{Body: append([]byte("stale "), s.o.Tree()[p]...)}
				}
				return nil
			})
		}
		run([]string{"update", "update with a retry"}[v], nil)
		s.o.Handle(nil)
	}
}

// ------------------------------------------------------------------ M03

func checkM03(c *Ctx) {
	faults := m03Faults()
	type job func()
	var jobs []job
	// slow ones (retries up to the end) first
	for pass := 0; pass < 2; pass++ {
		for fi, f := range faults {
			f := f
			if f.slow != (pass == 0) {
				continue
			}
			for first := 0; first < 2; first++ {
				if f.slow && !c.Thorough() && first != fi%2 {
					continue
				}
				for rep := 0; rep < c.N(1, 6); rep++ {
					first, seed := first, fmt.Sprint("fault", fi, first, rep)
					kind := fi + first + rep
					jobs = append(jobs, func() { m03Fault(c, c.Rng(seed), f, first == 0, kind) })
				}
			}
		}
	}
	ops := []string{"open temp", "write temp", "fsync temp", "chmod temp", "mkdir tree", "mkdir index", "mkdir item", "link item", "link index", "link release", "link byhash",
		"open info", "write info", "fsync info", "fsync snapshot", "fsync tree", "symlink link", "fsync root", "rename link", "mkdir snapshot", "unlink temp", "unlink item", "open lock"}
	for i := 0; i < c.N(len(ops)*2, len(ops)*20); i++ {
		i := i
		jobs = append(jobs, func() { m03Errno(c, c.Rng(fmt.Sprint("errno", i)), ops[i%len(ops)], i) })
	}
	for i := 0; i < c.N(8, 40); i++ {
		i := i
		jobs = append(jobs, func() { m03Signal(c, c.Rng(fmt.Sprint("sig", i)), i) })
	}
	c.Parallel(len(jobs), 24, func(i int) { jobs[i]() })
}

type m03F struct {
	name  string
	slow  bool
	apply func(rng *rand.Rand, s *scene, old map[string]string) bool // false: not applicable
}

// serve answers path with what f makes of its true content.
func (s *scene) serve(p string, f func(d []byte) *Resp) {
	s.o.Handle(func(pp string, n int, r *http.Request) *Resp {
		if pp == "/"+p {
			return f(s.o.Tree()[p])
		}
		return nil
	})
}

// pick finds a path that the run has to transfer, of a class.
func (s *scene) pick(rng *rand.Rand, old map[string]string, class string) string {
	var l []string
	for _, p := range sortedKeys(s.b.Tree) {
		sum, ok := s.want[p]
		if !ok || old[p] == sum || strings.Contains(p, "by-hash") || len(s.b.Tree[p]) < 2 {
			continue
		}
		_, base, _ := splitIndex(p)
		cl := "item"
		switch {
		case s.b.Indices[p] && (base == "Packages" || base == "Sources"):
			cl = "index"
		case s.b.Indices[p]:
			cl = "otherindex"
		case strings.HasPrefix(base, "Release") || strings.HasPrefix(base, "InRelease"):
			cl = base
		}
		if cl == class {
			l = append(l, p)
		}
	}
	if len(l) == 0 {
		return ""
	}
	return l[rng.Intn(len(l))]
}

func flip(rng *rand.Rand, d []byte) []byte {
	x := append([]byte{}, d...)
	if len(x) == 0 {
		return []byte("x")
	}
	x[rng.Intn(len(x))] ^= 1
	return x
}

func m03Faults() []m03F {
	var l []m03F
	add := func(name string, slow bool, class string, f func(rng *rand.Rand, d []byte) *Resp) {
		l = append(l, m03F{name, slow, func(rng *rand.Rand, s *scene, old map[string]string) bool {
			p := s.pick(rng, old, class)
			if p == "" {
				return false
			}
			s.serve(p, func(d []byte) *Resp { return f(rand.New(rand.NewSource(int64(len(d)))), d) })
			if s.g.ByHash && s.b.Indices[p] {
				// the by-hash paths are as bad
				h := sha(s.b.Tree[p])
				s.o.Handle(func(pp string, n int, r *http.Request) *Resp {
					d, ok := s.o.Tree()[strings.TrimPrefix(pp, "/")]
					if ok && sha(d) == h {
						return f(rand.New(rand.NewSource(int64(len(d)))), d)
					}
					return nil
				})
			}
			return true
		}})
	}
	for _, cl := range []string{"item", "index", "otherindex"} {
		add(cl+" with one bit wrong", false, cl, func(rng *rand.Rand, d []byte) *Resp { return &Resp{Body: flip(rng, d)} })
		add(cl+" with a byte too many", false, cl, func(rng *rand.Rand, d []byte) *Resp { return &Resp{Body: append(append([]byte{}, d...), 'x')} })
		add(cl+" short", false, cl, func(rng *rand.Rand, d []byte) *Resp { return &Resp{Body: d[:len(d)/2]} })
		add(cl+" forbidden", false, cl, func(rng *rand.Rand, d []byte) *Resp { return &Resp{Status: 403, Body: d} })
		add(cl+" partial content", false, cl, func(rng *rand.Rand, d []byte) *Resp { return &Resp{Status: 206, Body: d} })
	}
	add("item missing", false, "item", func(rng *rand.Rand, d []byte) *Resp { return &Resp{Status: 404} })
	add("item gone", false, "item", func(rng *rand.Rand, d []byte) *Resp { return &Resp{Status: 410, Body: d} })
	for _, cl := range []string{"item", "index", "InRelease", "Release"} {
		add(cl+" with server errors", true, cl, func(rng *rand.Rand, d []byte) *Resp { return &Resp{Status: 503, Body: d} })
		add(cl+" truncated", true, cl, func(rng *rand.Rand, d []byte) *Resp { return &Resp{Body: d, Trunc: true} })
	}
	add("item reset", true, "item", func(rng *rand.Rand, d []byte) *Resp { return &Resp{Reset: true} })
	add("item truncated, chunked", true, "item", func(rng *rand.Rand, d []byte) *Resp { return &Resp{Body: d, Trunc: true, Chunked: true} })
	for _, cl := range []string{"InRelease", "Release"} {
		add(cl+" partial content", false, cl, func(rng *rand.Rand, d []byte) *Resp { return &Resp{Status: 206, Body: d} })
		add(cl+" cut at a line, partial content", false, cl, func(rng *rand.Rand, d []byte) *Resp {
			return &Resp{Status: 206, Body: d[:bytes.LastIndexByte(d[:len(d)-1], '\n')+1]}
		})
		add(cl+" garbage", false, cl, func(rng *rand.Rand, d []byte) *Resp { return &Resp{Body: []byte("<html>\nno release\n</html>\n")} })
		add(cl+" with a bad line", false, cl, func(rng *rand.Rand, d []byte) *Resp {
			return &Resp{Body: []byte(strings.Replace(string(d), "\n ", "\n zz 12 ", 1))}
		})
	}
	l = append(l, m03F{"all Release files missing", false, func(rng *rand.Rand, s *scene, old map[string]string) bool {
		s.o.Handle(func(pp string, n int, r *http.Request) *Resp {
			if strings.Contains(pp, "Release") {
				return &Resp{Status: 404}
			}
			return nil
		})
		return true
	}})
	l = append(l, m03F{"Release and InRelease disagree", false, func(rng *rand.Rand, s *scene, old map[string]string) bool {
		if s.g.ByHash || len(s.b.SuiteIndices) == 0 {
			return false
		}
		su := s.repo.Suites[rng.Intn(len(s.repo.Suites))]
		p := s.b.SuiteIndices[su.Name][0]
		d := s.b.Tree[p]
		l := ListingOf(append(append([]byte{}, d...), '\n'), allSums)
		l.Size = uint64(len(d))
		fam := su.RelSums
		if !fam.MD5 {
			l.MD5 = ""
		}
		if !fam.SHA1 {
			l.SHA1 = ""
		}
		if !fam.SHA256 {
			l.SHA256 = ""
		}
		if _, base, _ := splitIndex(p); base == "Sources" {
			return false
		}
		su.InRelOverride = map[string]Listing{p: l}
		b := s.repo.Build()
		su.InRelOverride = nil
		s.o.SetTree(b.Tree)
		return true
	}})
	l = append(l, m03F{"index cannot be parsed", false, func(rng *rand.Rand, s *scene, old map[string]string) bool {
		// consistent checksums, but no package index
		var su *Suite
		for _, x := range s.repo.Suites {
			su = x
		}
		r := &Repo{Extra: s.repo.Extra}
		for _, x := range s.repo.Suites {
			y := *x
			if x == su {
				y.Comps = nil
				for _, cp := range x.Comps {
					z := *cp
					if z.Arch != "source" {
						z.Pkgs = append([]PkgFile{}, z.Pkgs...)
						z.Pkgs = append(z.Pkgs, PkgFile{Path: "pool/bad.deb", Data: []byte("x"), List: &Listing{Size: 1, MD5: "zz"}})
					}
					y.Comps = append(y.Comps, &z)
				}
			}
			r.Suites = append(r.Suites, &y)
		}
		s.o.SetTree(r.Build().Tree)
		return true
	}})
	return l
}

// m03Fault runs with a persistent upstream fault.
func m03Fault(c *Ctx, rng *rand.Rand, f m03F, first bool, kind int) {
	var s *scene
	var old map[string]string
	applied := false
	for try := 0; try < 12 && !applied; try++ {
		if s != nil {
			s.o.Close()
		}
		g := sceneOpts(rng, kind+try)
		g.I18n = !isFlatName(g.Suites[0])
		s = c.newScene(rng, g)
		old = nil
		if !first {
			if !c.expectRun(s, "first run") {
				s.o.Close()
				return
			}
			old = s.want
			s.mutate(rng)
		}
		applied = f.apply(rng, s, old)
	}
	defer s.o.Close()
	if !applied {
		c.Count("fault_not_applicable", 1)
		return
	}
	c.m03Judge(s, f.name, first, old, c.RunMirror(s.mc, nil, s.o), true)
}

// m03Judge looks at a run that must not succeed (mustFail), or that may
// succeed only completely.
func (c *Ctx) m03Judge(s *scene, name string, first bool, old map[string]string, r RunResult, mustFail bool) {
	when := "update"
	if first {
		when = "first run"
	}
	what := fmt.Sprintf("%s, %s", name, when)
	wit := map[string]interface{}{"fault": name, "run": r.String(), "repository": kindOf(s.g)}
	if r.Stuck != "" {
		c.Violate(wit, "%s: go-apt-mirror does not end: %s", what, r.Stuck)
		return
	}
	if r.Code == 0 && mustFail {
		c.Violate(wit, "%s: go-apt-mirror reports success", what)
		return
	}
	t, _, ok, err := published(s.mc.Dir, s.id)
	switch {
	case err != nil:
		c.Violate(wit, "%s: the mirror path is broken afterwards: %v", what, err)
		return
	case !ok && (!first || r.Code == 0):
		c.Violate(wit, "%s: nothing is published afterwards (exit status %d)", what, r.Code)
		return
	case ok:
		d := digest(files(t))
		isOld := old != nil && d == digest(old)
		isNew := d == digest(s.want)
		if mustFail && !isOld {
			c.Violate(wit, "%s: the published tree changed or something was published: %s", what, head(treeDiff(files(t), old), 300))
			return
		}
		if !isOld && !isNew {
			c.Violate(wit, "%s: an incomplete tree is published: %s", what, head(treeDiff(files(t), s.want), 300))
			return
		}
		if r.Code == 0 && !isNew {
			c.Violate(wit, "%s: exit status 0, but the new version is not published", what)
			return
		}
	}
	c.Eval(fmt.Sprintf("%s %s exit=%d", what, kindOf(s.g), r.Code))
	c.Count("runs_with_faults", 1)
	// the upstream is well again
	s.o.Handle(nil)
	s.o.SetTree(s.b.Tree)
	c.expectRun(s, "healthy run after: "+what)
}

// m03Errno lets one file-system call fail.
func m03Errno(c *Ctx, rng *rand.Rand, op string, i int) {
	g := sceneOpts(rng, i)
	if strings.Contains(op, "byhash") {
		g.ByHash = true
	}
	s := c.newScene(rng, g)
	defer s.o.Close()
	first := rng.Intn(3) == 0 || op == "open lock"
	var old map[string]string
	if !first {
		if !c.expectRun(s, "first run") {
			return
		}
		old = s.want
		s.mutate(rng)
	}
	e := []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES}[rng.Intn(3)]
	k := &killer{class: op, n: 1 + rng.Intn(4)}
	all := rng.Intn(3) == 0 // every such call fails
	injected := 0
	t := &Tracer{Root: s.mc.Dir}
	t.OnEnter = func(o *FSOp) Action {
		if k.hit(s, o) || all && injected > 0 && o.Name+" "+className(s.mc.Dir, o.Path) == op {
			injected++
			return Action{Errno: e}
		}
		return Action{}
	}
	c.traceMirror(s.mc, t)
	if injected == 0 {
		c.Count("injection_point_not_reached", 1)
	} else {
		c.Count("injected_errors", injected)
	}
	c.m03Judge(s, fmt.Sprintf("%s fails with %v", op, e), first, old, RunResult{Code: t.ExitCode, Stderr: t.Stderr}, false)
}

// m03Signal interrupts a run while a request is held.
func m03Signal(c *Ctx, rng *rand.Rand, i int) {
	g := sceneOpts(rng, i)
	s := c.newScene(rng, g)
	defer s.o.Close()
	first := i%2 == 0
	var old map[string]string
	if !first {
		if !c.expectRun(s, "first run") {
			return
		}
		old = s.want
		s.mutate(rng)
	}
	class := []string{"item", "index", "InRelease"}[i/2%3]
	p := s.pick(rng, old, class)
	if p == "" {
		class = "Release"
		p = s.pick(rng, old, class)
	}
	gate := make(chan struct{})
	var once sync.Once
	held := make(chan struct{})
	mid := rng.Intn(2) == 0
	s.serve(p, func(d []byte) *Resp {
		once.Do(func() { close(held) })
		if mid {
			return &Resp{Body: d, MidGate: gate}
		}
		return &Resp{Body: d, Gate: gate}
	})
	sig := []os.Signal{syscall.SIGTERM, syscall.SIGINT}[i%2]
	m := c.StartMirror(s.mc)
	select {
	case <-held:
	case <-m.exited:
	case <-time.After(60 * time.Second):
		giveUp("the held request does not come")
	}
	time.Sleep(time.Duration(rng.Intn(30)) * time.Millisecond)
	m.cmd.Process.Signal(sig)
	var r RunResult
	select {
	case <-m.exited:
		r = m.Result()
	case <-time.After(100 * time.Second):
		m.cmd.Process.Kill()
		c.Violate(nil, "go-apt-mirror still runs 100 s after %v", sig)
		return
	}
	close(gate)
	c.m03Judge(s, fmt.Sprintf("%v while %s is held", sig, class), first, old, r, true)
}

// ------------------------------------------------------------------ M14

func checkM14(c *Ctx) {
	n := c.N(240, 2400)
	c.Parallel(n, 14, func(i int) {
		if i%40 == 7 {
			m14Quick(c, c.Rng(fmt.Sprint("quick", i)), i)
		} else if i%11 == 10 {
			m14Random(c, c.Rng(fmt.Sprint("rnd", i)), i)
		} else {
			m14Run(c, c.Rng(fmt.Sprint("run", i)), i)
		}
	})
}

// m14Quick kills several runs within a second.
func m14Quick(c *Ctx, rng *rand.Rand, i int) {
	g := sceneOpts(rng, rng.Intn(20))
	g.PkgsPer = 1
	s := c.newScene(rng, g)
	defer s.o.Close()
	if i%2 == 1 && !c.expectRun(s, "first run") {
		return
	}
	s.mutate(rng)
	// at the beginning of a second
	time.Sleep(time.Until(time.Now().Truncate(time.Second).Add(time.Second)))
	kills, begin := 0, time.Now()
	for time.Since(begin) < 800*time.Millisecond && kills < 12 {
		t := &Tracer{Root: s.mc.Dir}
		n := 0
		t.OnEnter = func(op *FSOp) Action {
			// the first file in the new snapshot
			if !strings.HasPrefix(op.Name, "open") || op.Flags&syscall.O_CREAT == 0 {
				return Action{}
			}
			if rel, err := filepath.Rel(s.mc.Dir, op.Path); err == nil && strings.HasPrefix(rel, ".m.") && strings.Contains(rel, "/") {
				n++
			}
			return Action{Kill: n > 0}
		}
		c.traceMirror(s.mc, t)
		if !t.Killed {
			if t.ExitCode != 0 {
				c.Violate(t.Stderr, "a run fails after %d runs that were killed within a second", kills)
				return
			}
			break
		}
		kills++
	}
	c.Count("kills", kills)
	c.Max("kills_within_a_second", kills)
	if c.m14After(s, s, false, fmt.Sprintf("the first download, %d times within a second", kills), []string{"m"}) {
		c.Eval(fmt.Sprintf("%d kills within a second, %s", kills, kindOf(g)))
	}
}

func m14Run(c *Ctx, rng *rand.Rand, i int) {
	g := sceneOpts(rng, rng.Intn(20))
	s := c.newScene(rng, g)
	defer s.o.Close()
	var links []string
	two := i%4 == 3
	s2 := s
	if two {
		g2 := sceneOpts(rng, rng.Intn(20))
		s2 = c.newScene(rng, g2)
		defer s2.o.Close()
		s2.id = "n"
		s2.mc.Dir = s.mc.Dir
		s.mc.Mirrors["n"] = s2.def
		s2.mc = s.mc
		links = []string{"m", "n"}
	} else {
		links = []string{"m"}
	}
	var old, old2 map[string]string
	kind := "first run"
	if i%2 == 1 {
		kind = "update"
		if !c.expectRun(s, "first run") || two && !c.expectPublished(s2.mc.Dir, s2.id, s2.want, "first run") {
			return
		}
		old, old2 = s.want, s2.want
		s.mutate(rng)
		if two {
			s2.mutate(rng)
		}
	}
	kills := 1
	if i%5 == 0 {
		kills = 2 + rng.Intn(2)
	}
	for j := 0; j < kills; j++ {
		k := killPoint(rng, i+j*7)
		// a temporary link is left, and its mirror is not the next to run
		tmpLink := two && i%8 == 3 && j == kills-1
		if tmpLink {
			k = &killer{class: "rename link", n: 1 + rng.Intn(2)}
		}
		t := &Tracer{Root: s.mc.Dir}
		at := ""
		t.OnEnter = func(op *FSOp) Action {
			if k.hit(s, op) {
				at = op.Name + " " + className(s.mc.Dir, op.Path)
				return Action{Kill: true}
			}
			return Action{}
		}
		c.traceMirror(s.mc, t)
		if t.Killed {
			c.Eval(fmt.Sprintf("%s %s kill %d at %s", kindOf(g), kind, j, at))
			c.Count("kills", 1)
		}
		if !t.Killed && t.ExitCode != 0 {
			c.Violate(t.Stderr, "%s: go-apt-mirror failed after %d kills", kind, j)
			return
		}
		if two && j == kills-1 && (tmpLink || rng.Intn(2) == 0) && t.Killed && old != nil {
			// first a run for the other mirror only
			r := c.RunMirror(s2.mc, []string{"n"}, s.o, s2.o)
			if r.Code != 0 {
				c.Violate(map[string]interface{}{"killed at": at, "run": r.String()}, "after a kill at %s a run for another mirror fails", at)
				return
			}
			if bad := tidy(s.mc.Dir, links...); bad != "" {
				c.Violate(map[string]interface{}{"killed at": at, "left": bad}, "after a kill at %s a run for another mirror leaves: %s", at, bad)
				return
			}
			tr, _, ok, err := published(s.mc.Dir, "m")
			if d := digest(files(tr)); err != nil || !ok || d != digest(old) && d != digest(s.want) {
				c.Violate(map[string]interface{}{"killed at": at, "error": fmt.Sprint(err)}, "after a kill at %s and a run for another mirror the first mirror's tree is no complete version", at)
				return
			}
		}
		if rng.Intn(4) == 0 {
			// meanwhile there is a new upstream version
			s.mutate(rng)
		}
		_ = old2
		if !c.m14After(s, s2, two, at, links) {
			return
		}
	}
}

func (c *Ctx) m14After(s, s2 *scene, two bool, at string, links []string) bool {
	what := "run after a kill at " + at
	r := c.RunMirror(s.mc, nil, s.o)
	if r.Code != 0 || r.Stuck != "" {
		c.Violate(map[string]interface{}{"killed at": at, "run": r.String(), "directory": dirNames(s.mc.Dir)}, "%s fails", what)
		return false
	}
	if !c.expectPublished(s.mc.Dir, s.id, s.want, what) || two && !c.expectPublished(s2.mc.Dir, s2.id, s2.want, what) {
		return false
	}
	if bad := tidy(s.mc.Dir, links...); bad != "" {
		c.Violate(map[string]interface{}{"killed at": at, "left": bad}, "%s leaves: %s", what, bad)
		return false
	}
	for _, l := range links {
		if bad := snapshotTidy(s.mc.Dir, l); bad != "" {
			c.Violate(map[string]interface{}{"killed at": at, "left": bad}, "%s leaves in the new directory: %s", what, bad)
			return false
		}
	}
	c.Count("reruns", 1)
	return true
}

// snapshotTidy looks for temporary files next to a published tree.
func snapshotTidy(dir, id string) string {
	p, err := filepath.EvalSymlinks(filepath.Join(dir, id))
	if err != nil {
		return err.Error()
	}
	var bad []string
	for _, n := range dirNames(filepath.Dir(p)) {
		if n != "info.json" && n != path.Base(p) {
			bad = append(bad, n)
		}
	}
	return strings.Join(bad, " ")
}

// m14Random kills at a random time, some requests held.
func m14Random(c *Ctx, rng *rand.Rand, i int) {
	g := sceneOpts(rng, rng.Intn(20))
	s := c.newScene(rng, g)
	defer s.o.Close()
	for j := 0; j < 3 && !c.Failed(); j++ {
		gate := make(chan struct{})
		h := rng.Intn(12)
		var n0 int32
		s.o.Handle(func(pp string, n int, r *http.Request) *Resp {
			if int(atomic.AddInt32(&n0, 1)) > h {
				return &Resp{Body: s.o.Tree()[strings.TrimPrefix(pp, "/")], MidGate: gate}
			}
			return nil
		})
		p := c.StartMirror(s.mc)
		time.Sleep(time.Duration(rng.Intn(250)) * time.Millisecond)
		p.cmd.Process.Kill()
		<-p.exited
		close(gate)
		s.o.Handle(nil)
		c.Eval(fmt.Sprintf("random kill after %d requests", atomic.LoadInt32(&n0)))
		c.Count("random_kills", 1)
		if !c.m14After(s, s, false, "a random moment", []string{"m"}) {
			return
		}
		s.mutate(rng)
	}
}
