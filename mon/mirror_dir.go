package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	register("M08", &checkDef{fn: checkM08, level: "exploration", minDistinct: 20,
		rule:  "mirror directories prepared with several mirrors, unconfigured ones, operator links of all depths (to links, whole snapshots, trees, parts of trees, absolute and relative, to the outside), stale snapshots and junk; after successful, partial, failing and rejected runs the directory must hold exactly the lock file, the links and what they resolve into, with unchanged data behind every operator link, and nothing outside may change. A failing run whose other downloads answer during the clean-up is staged with the tracer. Non-trivial: distinct (kind of run, set of links and junk)",
		assum: []string{"runs interrupted by signals leave their data to the next run (M14)", "operator links are not dangling"}})
	register("M09", &checkDef{fn: checkM09, level: "exploration", minDistinct: 10,
		rule:  "while one go-apt-mirror is held at different stages by its upstream, others are started on the same directory (other mirrors, other configuration files, the directory reached by a link): they must fail, ask no upstream, and change nothing; after the holder ends, fails, is terminated or killed, a run proceeds. Stampedes of processes are checked for overlapping updates in the origins' logs. Non-trivial: distinct (stage of the holder, kind of intruder, end of the holder)",
		assum: []string{"flock(2) semantics of the local file system"}})
	register("M10", &checkDef{fn: checkM10, level: "exploration", minDistinct: 15,
		rule:  "updates with many files at limits 0, 1, 2, 3, 5, 10 while the origin holds all answers of a phase (Release files, indices, items), with failed, cut, erroneous, missing and wrong answers in between (retries, by-hash fallback): the largest number of requests in progress must not exceed the limit, must cover everything with limit 0, and every run must end. Non-trivial: distinct (limit, phase, fault, largest number in progress)",
		assum: []string{"a transfer counts as over just before its last byte is sent"}})
	register("M11", &checkDef{fn: checkM11, level: "exploration", minDistinct: 40,
		rule:  "hostile file names (.., absolute, dots, control files, other mirrors, odd characters, very long, names of directories) in Packages, Sources (Directory and file names) and Release, with and without by-hash, all answered with matching content: every creating, linking, renaming, removing or mode-changing system call of the traced process must stay in this mirror's own snapshot (or be its link or the lock), and a neighbour mirror, the control files and everything around must be unchanged. Non-trivial: distinct (name, place, by-hash, exit status)",
		assum: []string{"upstream data cannot create symbolic links, so lexical paths decide"}})
	register("M15", &checkDef{fn: checkM15, level: "exploration", minDistinct: 15,
		rule:  "several mirrors with different upstreams that use the same paths for different content: runs naming one, several, repeated, unknown, invalid or no mirrors; origins' logs, published trees (contents and inodes), links and reuse afterwards are compared with the expectation. Non-trivial: distinct (arguments, configuration, outcome)",
		assum: []string{"when one of several mirrors fails the others may stay unchanged; then they are only checked for completeness"}})
	register("M16", &checkDef{fn: checkM16, level: "exploration", minDistinct: 15,
		rule:  "published trees after first runs, updates, retries, by-hash fallback, failed and killed runs, and with several umasks are walked: regular files with mode 0644, directories with 0755 less the umask, nothing temporary; all files are read through net/http.FileServer at the mirror path and must have the listed content. Non-trivial: distinct (umask, kind of run, kind of repository)",
		assum: nil})
}

// ------------------------------------------------------------------ M08

func checkM08(c *Ctx) {
	n := c.N(160, 800)
	c.Parallel(n, 12, func(i int) { m08Run(c, c.Rng(fmt.Sprint("run", i)), i) })
	c.Parallel(c.N(4, 20), 4, func(i int) { m08Late(c, c.Rng(fmt.Sprint("late", i)), i) })
}

func mustWrite(p string, d string) {
	must(os.MkdirAll(filepath.Dir(p), 0755))
	must(os.WriteFile(p, []byte(d), 0644))
}

func m08Run(c *Ctx, rng *rand.Rand, i int) {
	top := c.Dir("m08")
	real := filepath.Join(top, "real")
	must(os.Mkdir(real, 0755))
	outside := filepath.Join(top, "outside")
	mustWrite(filepath.Join(outside, "a/b.txt"), "outside")
	mustWrite(filepath.Join(outside, "c.txt"), "outside too")
	mustWrite(filepath.Join(top, "sibling.txt"), "sibling")
	dir := real
	via := rng.Intn(4) == 0
	if via {
		dir = filepath.Join(top, "via")
		must(os.Symlink("real", dir))
	}
	ids := []string{"m", "n", "gone"}
	var sc []*scene
	for k, id := range ids {
		g := sceneOpts(rng, i+k)
		g.MaxSize = 500
		s := c.newScene(rng, g)
		defer s.o.Close()
		s.id = id
		sc = append(sc, s)
	}
	conf := MirrorConf{Dir: dir, MaxConns: 10, Mirrors: map[string]MirrDef{}}
	for _, s := range sc {
		conf.Mirrors[s.id] = s.def
	}
	org := []*Origin{sc[0].o, sc[1].o, sc[2].o}
	if r := c.RunMirror(conf, nil, org...); r.Code != 0 {
		c.Violate(map[string]interface{}{"run": r.String()}, "first run of three mirrors failed")
		return
	}
	delete(conf.Mirrors, "gone")
	links := []string{"m", "n", "gone"}
	snap := map[string]string{}
	for _, id := range ids {
		t, err := filepath.EvalSymlinks(filepath.Join(dir, id))
		must(err)
		snap[id] = filepath.Base(filepath.Dir(t))
	}
	// operator links
	sub := func(id string) string {
		var dirs []string
		t := filepath.Join(real, snap[id], id)
		filepath.Walk(t, func(p string, st os.FileInfo, err error) error {
			if err == nil && p != t {
				rel, _ := filepath.Rel(t, p)
				dirs = append(dirs, rel)
			}
			return nil
		})
		return dirs[rng.Intn(len(dirs))]
	}
	kindSet := ""
	for _, l := range []string{"snap", "tree", "deep", "alias", "abs", "ext", "chain", "self", "web.tmp"} {
		if rng.Intn(3) > 0 {
			continue
		}
		id := ids[rng.Intn(3)]
		var t string
		switch l {
		case "snap":
			t = snap[id]
		case "tree", "web.tmp":
			t = filepath.Join(snap[id], id)
		case "deep":
			t = filepath.Join(snap[id], id, sub(id))
		case "alias":
			t = id
		case "abs":
			t = filepath.Join(dir, snap[id], id)
		case "ext":
			t = filepath.Join("../outside", []string{"", "a"}[rng.Intn(2)])
		case "chain":
			must(os.Symlink(filepath.Join(snap[id], id), filepath.Join(real, "chain0")))
			links = append(links, "chain0")
			t = "chain0/" + sub(id)
		case "self":
			t = "."
		}
		must(os.Symlink(t, filepath.Join(real, l)))
		links = append(links, l)
		kindSet += " " + l
	}
	// junk
	junk := ""
	for _, j := range []string{"README", ".m.20010101_000000", "dir", "linkin", ".lock2", "m.old", "outside", ".n.x", "m.tmp", "n.tmp"} {
		if rng.Intn(2) == 0 {
			continue
		}
		junk += " " + j
		p := filepath.Join(real, j)
		switch j {
		case "README", ".lock2", "m.old":
			mustWrite(p, "junk")
		case ".m.20010101_000000", ".n.x":
			mustWrite(filepath.Join(p, "m/dists/t/Release"), "old")
			mustWrite(filepath.Join(p, "_tmp123"), "old")
			mustWrite(filepath.Join(p, "info.json"), "{}")
		case "dir":
			mustWrite(filepath.Join(p, "x/y"), "junk")
		case "linkin":
			must(os.Mkdir(p, 0755))
			must(os.Symlink(outside, filepath.Join(p, "out")))
			must(os.Symlink("../"+snap["n"], filepath.Join(p, "in")))
		case "outside":
			mustWrite(filepath.Join(p, "z"), "junk")
		case "m.tmp", "n.tmp":
			// as a run killed between making and renaming its link leaves it
			old := "." + j[:1] + ".20010102_000000"
			mustWrite(filepath.Join(real, old, j[:1], "dists/t/Release"), "old")
			mustWrite(filepath.Join(real, old, "info.json"), "{}")
			must(os.Symlink(filepath.Join(old, j[:1]), p))
		}
	}
	before := map[string]string{} // operator link -> digest
	follows := map[string]string{}
	for _, l := range links {
		t, err := filepath.EvalSymlinks(filepath.Join(dir, l))
		must(err)
		follows[l] = t
		if l == "self" {
			continue
		}
		tr, err := readTree(t)
		must(err)
		before[l] = digest(files(tr))
	}
	outD := func() string {
		t, err := readTree(top)
		must(err)
		m := map[string]string{}
		for p, s := range files(t) {
			if !under("real", p) {
				m[p] = s
			}
		}
		return digest(m)
	}
	out0 := outD()
	inoN, _, _, _ := published(dir, "n")
	kind := []string{"update of all", "update of one", "failing update", "unknown mirror", "failing update of one"}[i%5]
	for _, s := range sc[:2] {
		s.mutate(rng)
	}
	var args []string
	switch kind {
	case "update of one", "failing update of one":
		args = []string{"m"}
	case "unknown mirror":
		args = []string{"m", "nosuch"}
	}
	if strings.HasPrefix(kind, "failing") {
		old, _, _, _ := published(dir, "m")
		cl := "item"
		p := ""
		for {
			if p = sc[0].pick(rng, files(old), cl); p == "" {
				p = sc[0].pick(rng, files(old), "index")
			}
			if p != "" {
				break
			}
			sc[0].mutate(rng)
		}
		h := sha(sc[0].b.Tree[p])
		sc[0].o.Handle(func(pp string, n int, r *http.Request) *Resp {
			if d, ok := sc[0].o.Tree()[strings.TrimPrefix(pp, "/")]; ok && sha(d) == h {
				return &Resp{Body: append([]byte("bad"), d...)}
			}
			return nil
		})
	}
	r := c.RunMirror(conf, args, org...)
	wit := map[string]interface{}{"run": r.String(), "kind": kind, "links": links, "junk": junk, "directory": dirNames(real)}
	mustFail := kind == "unknown mirror" || strings.HasPrefix(kind, "failing")
	if (r.Code != 0) != mustFail || r.Stuck != "" {
		c.Violate(wit, "%s: unexpected outcome %s", kind, r.String())
		return
	}
	if bad := tidy(dir, links...); bad != "" {
		wit["bad"] = bad
		c.Violate(wit, "%s: the mirror directory is not as it should be: %s", kind, bad)
		return
	}
	if out0 != outD() {
		c.Violate(wit, "%s: something outside of the mirror directory changed", kind)
		return
	}
	updated := map[string]bool{}
	switch kind {
	case "update of all":
		updated = map[string]bool{"m": true, "n": true}
	case "update of one":
		updated = map[string]bool{"m": true}
	}
	for _, l := range links {
		if l == "self" {
			continue
		}
		t, err := filepath.EvalSymlinks(filepath.Join(dir, l))
		if err != nil {
			c.Violate(wit, "%s: link %s is broken: %v", kind, l, err)
			return
		}
		if updated[l] || l == "alias" && t != follows[l] {
			continue
		}
		if kind == "failing update" && l == "n" {
			continue // may or may not have been updated
		}
		tr, err := readTree(t)
		if err != nil || digest(files(tr)) != before[l] || t != follows[l] {
			c.Violate(wit, "%s: what link %s pointed to is gone or changed (%v)", kind, l, err)
			return
		}
	}
	for _, s := range sc[:2] {
		if updated[s.id] && !c.expectPublished(dir, s.id, s.want, kind) {
			return
		}
	}
	if kind == "update of one" {
		now, _, _, _ := published(dir, "n")
		for p, e := range now {
			if inoN[p].Ino != e.Ino {
				c.Violate(wit, "a mirror that was not named was rebuilt")
				return
			}
		}
	}
	if bad := snapshotTidy(dir, "m"); bad != "" {
		c.Violate(wit, "%s: next to the published tree: %s", kind, bad)
		return
	}
	c.Count("directories_audited", 1)
	c.Eval(fmt.Sprintf("%s;%s;%s;%v", kind, kindSet, junk, via))
	if i < 2 {
		c.Sample(wit)
	}
}

// m08Late: Release and InRelease disagree, and the answer for another
// variant comes while the failed update is being removed.
func m08Late(c *Ctx, rng *rand.Rand, i int) {
	g := sceneOpts(rng, 0)
	s := c.newScene(rng, g)
	defer s.o.Close()
	if i%2 == 1 && !c.expectRun(s, "first run") {
		return
	}
	su := s.repo.Suites[0]
	p := s.b.SuiteIndices[su.Name][0]
	l := ListingOf(blob(rng, "x", 30), su.RelSums)
	su.InRelOverride = map[string]Listing{p: l}
	su.RelExts = []string{".gz"}
	s.o.SetTree(s.repo.Build().Tree)
	su.InRelOverride = nil
	gate, gone := make(chan struct{}), make(chan struct{})
	var once, onceGone sync.Once
	open := func() { once.Do(func() { close(gate) }) }
	defer open()
	s.o.Handle(func(pp string, n int, r *http.Request) *Resp {
		if d, ok := s.o.Tree()[strings.TrimPrefix(pp, "/")]; ok && strings.Contains(path.Base(pp), "Release") && !strings.HasSuffix(pp, "Release.gz") {
			return &Resp{Body: d, Gate: gate}
		}
		return nil
	})
	// the thread that is about to make the temporary file of the early
	// answer waits until the directory is about to go
	n, held := 0, 0
	t := &Tracer{Root: s.mc.Dir}
	t.OnEnter = func(op *FSOp) Action {
		if op.Name == "open" && op.N > 0 && held == 0 && strings.HasPrefix(filepath.Base(op.Path), "_tmp") {
			held++
			open()
			return Action{Until: gone, HoldFor: 1200 * time.Millisecond}
		}
		if op.Name == "rmdir" && className(s.mc.Dir, op.Path) == "snapshot" {
			n++
			if n == 2 {
				onceGone.Do(func() { close(gone) })
				return Action{HoldFor: 300 * time.Millisecond}
			}
		}
		return Action{}
	}
	done := make(chan struct{})
	go func() {
		// never hold longer than needed
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			open()
		}
	}()
	c.traceMirror(s.mc, t)
	close(done)
	if t.ExitCode == 0 {
		c.Violate(t.Stderr, "Release and InRelease disagree, but the update succeeded")
		return
	}
	var links []string
	if i%2 == 1 {
		links = []string{"m"}
	}
	if bad := tidy(s.mc.Dir, links...); bad != "" {
		c.Violate(map[string]interface{}{"left": bad, "stderr": t.Stderr}, "an update that failed while another Release variant was on its way leaves: %s", bad)
	}
	c.Eval(fmt.Sprint("late answer ", i%2))
}

// ------------------------------------------------------------------ M09

func checkM09(c *Ctx) {
	n := c.N(24, 150)
	c.Parallel(n, 12, func(i int) { m09Run(c, c.Rng(fmt.Sprint("run", i)), i) })
	c.Parallel(c.N(4, 20), 2, func(i int) { m09Stampede(c, c.Rng(fmt.Sprint("st", i)), i) })
	c.Parallel(c.N(14, 70), 7, func(i int) { m09Traced(c, c.Rng(fmt.Sprint("traced", i)), i) })
	c.Parallel(c.N(12, 60), 6, func(i int) { m09Late(c, c.Rng(fmt.Sprint("late", i)), i) })
}

// m09Late has a process come so far as to open the lock file, or even less,
// while another one holds the lock, and go on only after that one has ended
// and a third one is at work.
func m09Late(c *Ctx, rng *rand.Rand, i int) {
	at := []string{"open", "flock", "flock"}[i%3]
	end := []string{"success", "kill", "failure", "loser"}[i/3%4]
	s := c.newScene(rng, sceneOpts(rng, i))
	defer s.o.Close()
	s2 := c.newScene(rng, sceneOpts(rng, i+1))
	defer s2.o.Close()
	if !c.expectRun(s, "first run") {
		return
	}
	s.mutate(rng)
	nextSecond()
	var mu sync.Mutex
	var gate chan struct{}
	setGate := func(g chan struct{}) { mu.Lock(); gate = g; mu.Unlock() }
	s.o.Handle(func(pp string, n int, r *http.Request) *Resp {
		mu.Lock()
		g := gate
		mu.Unlock()
		if d, ok := s.o.Tree()[strings.TrimPrefix(pp, "/")]; ok && g != nil && strings.Contains(filepath.Base(pp), "Release") {
			return &Resp{Body: d, Gate: g}
		}
		return nil
	})
	// start begins an update and waits until it is held by the upstream.
	start := func() (*MirrorProc, chan struct{}) {
		g := make(chan struct{})
		setGate(g)
		h := s.o.Hits("")
		p := c.StartMirror(s.mc)
		if !waitFor(60*time.Second, func() bool { return s.o.Inflight() > 0 && s.o.Hits("") > h && s.o.Quiet(100*time.Millisecond) || s.o.Inflight() > 0 && s.o.Hits("")-h >= 7 }) {
			select {
			case <-p.exited:
				giveUp("the holder ended: %s", p.stderr.String())
			default:
			}
			// gated requests never get quiet; what counts is that one is held
			if s.o.Inflight() == 0 {
				giveUp("the holder does not get where it should")
			}
		}
		setGate(nil)
		return p, g
	}
	a, gateA := start()
	defer func() { a.cmd.Process.Kill() }()
	reached, release := make(chan struct{}), make(chan struct{})
	var once, onceRel sync.Once
	free := func() { onceRel.Do(func() { close(release) }) }
	defer free()
	t := &Tracer{Root: s.mc.Dir}
	t.OnEnter = func(op *FSOp) Action {
		if op.Name != at || filepath.Base(op.Path) != ".lock" {
			return Action{}
		}
		first := false
		once.Do(func() { first = true; close(reached) })
		if first {
			return Action{Until: release, HoldFor: 200 * time.Second}
		}
		return Action{}
	}
	mcB, other := s.mc, i%2 == 0
	if other {
		mcB.Mirrors = map[string]MirrDef{"other": s2.def}
	}
	done := make(chan struct{})
	go func() {
		c.traceMirror(mcB, t)
		close(done)
	}()
	select {
	case <-reached:
	case <-done:
		c.Count("stage_not_reached", 1)
		close(gateA)
		return
	}
	switch end {
	case "kill":
		a.cmd.Process.Kill()
		<-a.exited
		close(gateA)
	case "failure":
		s.o.SetTree(map[string][]byte{})
		close(gateA)
		a.Result(s.o)
		s.o.SetTree(s.b.Tree)
	case "loser": // the one that did not get the lock ends first
		c.RunMirror(s.mc, nil, s.o)
		close(gateA)
		a.Result(s.o)
	default:
		close(gateA)
		a.Result(s.o)
	}
	s.mutate(rng)
	nextSecond()
	third, gateC := start()
	defer func() { third.cmd.Process.Kill() }()
	time.Sleep(200 * time.Millisecond)
	b0, err := readTree(s.mc.Dir)
	must(err)
	h1, h2 := s.o.Hits(""), s2.o.Hits("")
	free()
	wit := map[string]interface{}{"held before": at, "first holder ended by": end, "other mirror": other}
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Kill()
		<-done
	}
	wit["run"] = t.Stderr
	b1, err := readTree(s.mc.Dir)
	must(err)
	switch {
	case t.ExitCode == 0 || s.o.Hits("") != h1 || s2.o.Hits("") != h2 || t.ExitCode < 0:
		c.Violate(wit, "a process that was held up before %s of the lock file, while the lock went to another process (the first holder ended by %s), does not fail or contacts the upstream: exit status %d", at, end, t.ExitCode)
		return
	case treeDiff(stamps(b1), stamps(b0)) != "":
		c.Violate(wit, "a process that was held up before %s of the lock file changed the directory while another process holds the lock: %s", at, head(treeDiff(stamps(b1), stamps(b0)), 300))
		return
	}
	close(gateC)
	if r := third.Result(s.o); r.Code != 0 {
		wit["third"] = r.String()
		c.Violate(wit, "the update that held the lock failed after others tried to start")
		return
	}
	c.Count("late_contenders", 1)
	c.Eval(fmt.Sprintf("late %s holder ended by %s other=%v", at, end, other))
	c.expectPublished(s.mc.Dir, "m", s.want, "update with a late contender")
}

// m09Traced starts intruders while the holder stands before one particular
// system call.
func m09Traced(c *Ctx, rng *rand.Rand, i int) {
	stage := []string{"mkdir snapshot", "write info", "symlink link", "rename link", "unlink release", "rmdir snapshot", "second rmdir"}[i%7]
	s := c.newScene(rng, sceneOpts(rng, i))
	defer s.o.Close()
	if !c.expectRun(s, "first run") {
		return
	}
	if i%7 != 6 || i%2 == 0 {
		s.mutate(rng)
	}
	nextSecond()
	held, release := make(chan struct{}), make(chan struct{})
	var once, onceRel sync.Once
	free := func() { onceRel.Do(func() { close(release) }) }
	defer free()
	n := 0
	t := &Tracer{Root: s.mc.Dir}
	t.OnEnter = func(op *FSOp) Action {
		at := op.Name + " " + className(s.mc.Dir, op.Path)
		hit := at == stage || stage == "rename link" && strings.HasPrefix(op.Name, "rename") || stage == "symlink link" && strings.HasPrefix(op.Name, "symlink")
		if stage == "second rmdir" && op.Name == "rmdir" {
			n++
			hit = n == 2
		}
		if !hit {
			return Action{}
		}
		first := false
		once.Do(func() { first = true; close(held) })
		if first {
			return Action{Until: release, HoldFor: 100 * time.Second}
		}
		return Action{}
	}
	done := make(chan struct{})
	go func() {
		c.traceMirror(s.mc, t)
		close(done)
	}()
	select {
	case <-held:
	case <-done:
		c.Count("stage_not_reached", 1)
		return
	}
	for _, intr := range []string{"same", "named", "unknown"} {
		var args []string
		switch intr {
		case "named":
			args = []string{"m"}
		case "unknown":
			args = []string{"nosuch"}
		}
		b0, err := readTree(s.mc.Dir)
		must(err)
		h := s.o.Hits("")
		r := c.RunMirror(s.mc, args, s.o)
		b1, err := readTree(s.mc.Dir)
		must(err)
		select {
		case <-done:
			c.Count("hold_too_short", 1)
			return
		default:
		}
		wit := map[string]interface{}{"holder before": stage, "intruder": intr, "run": r.String()}
		if r.Code == 0 || r.Stuck != "" || s.o.Hits("") != h {
			c.Violate(wit, "a second go-apt-mirror does not fail, or contacts the upstream, while another one is at work (before %s)", stage)
			return
		}
		if d := treeDiff(stamps(b1), stamps(b0)); d != "" {
			c.Violate(wit, "a second go-apt-mirror changed the directory while another one is at work (before %s): %s", stage, head(d, 300))
			return
		}
		c.Count("intruders", 1)
		c.Eval(fmt.Sprintf("held before %s intruder %s", stage, intr))
	}
	free()
	<-done
	if t.ExitCode != 0 {
		c.Violate(t.Stderr, "the update that held the lock failed after others tried to start (before %s)", stage)
		return
	}
	c.expectPublished(s.mc.Dir, "m", s.want, "update while others tried to start")
}

func m09Run(c *Ctx, rng *rand.Rand, i int) {
	g := sceneOpts(rng, i)
	s := c.newScene(rng, g)
	defer s.o.Close()
	s2 := c.newScene(rng, sceneOpts(rng, i+1))
	defer s2.o.Close()
	first := i%2 == 0
	if !first && !c.expectRun(s, "first run") {
		return
	}
	old := map[string]string{}
	if !first {
		old = s.want
		s.mutate(rng)
	}
	if first && i%4 == 0 {
		// a lock file may be left from whoever
		must(os.WriteFile(filepath.Join(s.mc.Dir, ".lock"), nil, []os.FileMode{0644, 0444, 0600}[rng.Intn(3)]))
	}
	stage := []string{"InRelease", "index", "item"}[i%3]
	p := s.pick(rng, old, stage)
	if p == "" {
		stage = "Release"
		p = s.pick(rng, old, stage)
	}
	gate := make(chan struct{})
	var once, onceHeld sync.Once
	open := func() { once.Do(func() { close(gate) }) }
	defer open()
	held := make(chan struct{})
	s.serve(p, func(d []byte) *Resp {
		onceHeld.Do(func() { close(held) })
		return &Resp{Body: d, Gate: gate}
	})
	holder := c.StartMirror(s.mc)
	select {
	case <-held:
	case <-holder.exited:
		giveUp("the holder ended: %s", holder.stderr.String())
	case <-time.After(60 * time.Second):
		giveUp("the holder does not get where it should")
	}
	// settle: everything else is done
	last := -1
	waitFor(10*time.Second, func() bool {
		n := s.o.Hits("")
		same := n == last && s.o.Inflight() == 1
		last = n
		time.Sleep(40 * time.Millisecond)
		return same
	})
	names := []string{"same configuration", "other mirror", "by a link", "named mirror", "unknown mirror"}
	for k := 0; k < 2; k++ {
		intr := names[(i+k*2)%len(names)]
		mc := s.mc
		var args []string
		switch intr {
		case "other mirror":
			mc = s2.mc
			mc.Dir = s.mc.Dir
			mc.Mirrors = map[string]MirrDef{"other": s2.def}
		case "by a link":
			l := filepath.Join(c.Dir("links"), "l")
			must(os.Symlink(s.mc.Dir, l))
			mc.Dir = l
		case "named mirror":
			args = []string{"m"}
		case "unknown mirror":
			args = []string{"nosuch"}
		}
		// the holder is blocked: nobody else may change anything
		b0, err := readTree(s.mc.Dir)
		must(err)
		h1, h2 := s.o.Hits(""), s2.o.Hits("")
		r := c.RunMirror(mc, args, s.o, s2.o)
		b1, err := readTree(s.mc.Dir)
		must(err)
		wit := map[string]interface{}{"holder at": stage, "intruder": intr, "run": r.String()}
		if r.Code == 0 || r.Stuck != "" {
			c.Violate(wit, "a second go-apt-mirror (%s) does not fail while another one is updating (%s)", intr, stage)
			return
		}
		if s.o.Hits("") != h1 || s2.o.Hits("") != h2 {
			c.Violate(wit, "a second go-apt-mirror (%s) contacted the upstream while another one is updating (%s)", intr, stage)
			return
		}
		if d := treeDiff(stamps(b1), stamps(b0)); d != "" {
			c.Violate(wit, "a second go-apt-mirror (%s) changed the directory while another one is updating (%s): %s", intr, stage, head(d, 300))
			return
		}
		c.Count("intruders", 1)
		c.Eval(fmt.Sprintf("held at %s first=%v intruder %s", stage, first, intr))
	}
	end := []string{"success", "kill", "term", "failure"}[i%4]
	switch end {
	case "kill":
		holder.cmd.Process.Kill()
		<-holder.exited
		open()
	case "term":
		holder.cmd.Process.Signal(syscall.SIGTERM)
		if r := holder.Result(s.o); r.Code == 0 {
			c.Violate(map[string]interface{}{"run": r.String()}, "an interrupted update reports success")
		}
		open()
	case "failure":
		s.o.SetTree(map[string][]byte{})
		s.o.Handle(func(pp string, n int, r *http.Request) *Resp { return &Resp{Status: 403} })
		open()
		holder.Result(s.o)
	default:
		open()
		if r := holder.Result(s.o); r.Code != 0 {
			c.Violate(map[string]interface{}{"run": r.String(), "stage": stage}, "the update that held the lock failed after others tried to start")
			return
		}
		if !c.expectPublished(s.mc.Dir, "m", s.want, "update while others tried to start") {
			return
		}
	}
	s.o.Handle(nil)
	s.o.SetTree(s.b.Tree)
	c.Eval("holder ended by " + end)
	c.expectRun(s, "run after the holder of the lock ended by "+end)
	if i < 2 {
		c.Sample(map[string]interface{}{"holder at": stage, "ended by": end})
	}
}

// stamps maps paths to content, mode and inode.
func stamps(t map[string]pubEntry) map[string]string {
	m := map[string]string{}
	for p, e := range t {
		m[p] = fmt.Sprint(e.Sum, e.Mode, e.Ino)
	}
	return m
}

// m09Stampede starts many processes at once; each has its own upstream.
func m09Stampede(c *Ctx, rng *rand.Rand, i int) {
	const n = 8
	dir := c.Dir("stampede")
	var sc []*scene
	var ps []*MirrorProc
	if i%2 == 1 {
		must(os.WriteFile(filepath.Join(dir, ".lock"), nil, 0644))
	}
	for k := 0; k < n; k++ {
		g := sceneOpts(rng, k)
		s := c.newScene(rng, g)
		defer s.o.Close()
		s.mc.Dir = dir
		s.o.Handle(func(pp string, n int, r *http.Request) *Resp {
			time.Sleep(time.Duration(n+len(pp)%3) * time.Millisecond)
			return nil
		})
		sc = append(sc, s)
	}
	for _, s := range sc {
		ps = append(ps, c.StartMirror(s.mc))
	}
	okN := 0
	type span struct{ from, to int64 }
	var spans []span
	for k, p := range ps {
		r := p.Result(sc[k].o)
		if r.Stuck != "" {
			c.Violate(map[string]interface{}{"run": r.String()}, "one of several go-apt-mirror processes started at once does not end")
			return
		}
		l := sc[k].o.Log()
		if len(l) > 0 {
			sp := span{l[0].Start, 0}
			for _, h := range l {
				if h.End > sp.to {
					sp.to = h.End
				}
			}
			spans = append(spans, sp)
		}
		if r.Code == 0 {
			okN++
		} else if len(l) > 0 {
			c.Violate(map[string]interface{}{"run": r.String()}, "one of several go-apt-mirror processes got the lock and failed on a healthy upstream")
			return
		}
	}
	sort.Slice(spans, func(a, b int) bool { return spans[a].from < spans[b].from })
	for k := 1; k < len(spans); k++ {
		if spans[k].from < spans[k-1].to {
			c.Violate(fmt.Sprint(spans), "two go-apt-mirror processes were updating the same directory at once")
			return
		}
	}
	if okN == 0 && i%2 == 1 {
		c.Violate(nil, "none of several go-apt-mirror processes started at once got the lock")
		return
	}
	if okN > 0 {
		t, _, ok, err := published(dir, "m")
		fits := false
		for _, s := range sc {
			fits = fits || digest(files(t)) == digest(s.want)
		}
		if !ok || err != nil || !fits {
			c.Violate(fmt.Sprint(err), "after several processes were started at once no complete version is published")
			return
		}
	}
	c.Count("stampede_winners", okN)
	c.Eval(fmt.Sprintf("stampede %d: %d of %d", i%2, okN, n))
	// and a run afterwards proceeds
	s := sc[0]
	s.o.Handle(nil)
	c.expectRun(s, "run after several at once")
}

// ------------------------------------------------------------------ M10

func checkM10(c *Ctx) {
	limits := []int{1, 2, 3, 5, 10, 0, 300}
	faults := []string{"none", "500 once", "reset once", "cut once", "404 indices", "stale, by-hash", "held errors", "wrong item", "chunked cut once", "404 items", "by-hash 404", "large 500 once", "named twice"}
	var wg sync.WaitGroup
	for i, kind := range []string{"Release", "Packages", "pool/"} {
		i, kind := i, kind
		wg.Add(1)
		go func() {
			defer wg.Done()
			m10Paused(c, c.Rng(fmt.Sprint("paused", i)), kind)
		}()
	}
	defer wg.Wait()
	n := c.N(len(limits)*len(faults), len(limits)*len(faults)*6)
	c.Parallel(n, 20, func(i int) {
		m10Run(c, c.Rng(fmt.Sprint("run", i)), i, limits[i%len(limits)], faults[(i/len(limits))%len(faults)])
	})
}

// m10Paused has transfers that pause for long, but end well.
func m10Paused(c *Ctx, rng *rand.Rand, kind string) {
	pause := time.Duration(c.N(33, 100)) * time.Second
	fam := allSums
	s := c.newScene(rng, GenOpts{Suites: []string{"t"}, Sections: []string{"main"}, Archs: []string{"amd64"}, PkgsPer: 5, MaxSize: 3000, Exts: []string{"", ".gz"}, Sums: &fam})
	defer s.o.Close()
	gate := make(chan struct{})
	s.o.Handle(func(pp string, n int, r *http.Request) *Resp {
		d, ok := s.o.Tree()[strings.TrimPrefix(pp, "/")]
		if !ok || !strings.Contains(pp, kind) {
			return nil
		}
		if len(pp)%2 == 0 {
			return &Resp{Body: d, Gate: gate}
		}
		return &Resp{Body: d, MidGate: gate}
	})
	m := c.StartMirror(s.mc)
	time.Sleep(pause)
	close(gate)
	r := m.Result(s.o)
	wit := map[string]interface{}{"kind": kind, "pause": pause.String(), "run": r.String()}
	if r.Stuck != "" || r.Code != 0 {
		c.Violate(wit, "transfers of %s files that pause for %v: %s", kind, pause, r.String())
		return
	}
	if c.expectPublished(s.mc.Dir, s.id, s.want, fmt.Sprintf("transfers of %s files that pause for %v", kind, pause)) {
		c.Eval("paused " + kind)
	}
}

func m10Run(c *Ctx, rng *rand.Rand, i int, K int, fault string) {
	fam := allSums
	g := GenOpts{Suites: []string{"t", "u"}, Sections: []string{"main"}, Archs: []string{"amd64", "i386"}, PkgsPer: 5, MaxSize: 3000, Exts: []string{"", ".gz"}, Sums: &fam, Source: true,
		ByHash: strings.Contains(fault, "by-hash"), I18n: true}
	if K > 50 {
		g.PkgsPer = 45
	}
	s := c.newScene(rng, g)
	defer s.o.Close()
	s.mc.MaxConns = K
	phase := []string{"items", "indices", "releases"}[(i/7)%3]
	if strings.Contains(fault, "indices") || strings.Contains(fault, "by-hash") {
		phase = "indices"
	}
	if strings.Contains(fault, "item") {
		phase = "items"
	}
	if fault == "404 indices" {
		// variants that are listed, but not there
		for _, su := range s.repo.Suites {
			su.ListedExts = []string{"", ".gz", ".xz", ".bz2"}
		}
		s.setRepo(s.repo)
	}
	in := func(p string) bool {
		switch phase {
		case "items":
			return s.b.Items[p]
		case "indices":
			return s.b.Indices[p] || strings.Contains(p, "/by-hash/")
		}
		return strings.HasPrefix(path.Base(p), "Release") || strings.HasPrefix(path.Base(p), "InRelease")
	}
	total := 0
	for p := range s.want {
		if in(p) && !strings.Contains(p, "/by-hash/") && strings.Contains(p, "dists/u") == (phase == "nothing") {
			total++
		}
	}
	if phase == "items" {
		total = 0
		for p := range s.want {
			if in(p) {
				total++
			}
		}
	}
	if phase == "releases" {
		total = 7
	}
	gate := make(chan struct{})
	s.o.Handle(func(pp string, n int, r *http.Request) *Resp {
		p := strings.TrimPrefix(pp, "/")
		if !in(p) && !(phase == "releases" && strings.Contains(pp, "Release")) {
			return nil
		}
		d, ok := s.o.Tree()[p]
		if !ok {
			return &Resp{Status: 404, Body: []byte("no"), Gate: gate}
		}
		resp := &Resp{Body: d, Gate: gate}
		odd := len(pp)%2 == 0
		switch fault {
		case "500 once":
			if n == 0 && odd {
				return &Resp{Status: 500, Body: d, Gate: gate}
			}
		case "held errors":
			if n == 0 {
				return &Resp{Status: 503, Body: d, MidGate: gate}
			}
		case "large 500 once":
			// too much for the buffers of a connection nobody reads
			if n == 0 && odd {
				return &Resp{Status: 500, Body: make([]byte, 12<<20), Gate: gate}
			}
		case "reset once":
			if n == 0 && odd {
				return &Resp{Reset: true, Gate: gate}
			}
		case "cut once":
			if n == 0 && odd {
				return &Resp{Body: d, Trunc: true, Gate: gate}
			}
		case "chunked cut once":
			if n == 0 && odd {
				return &Resp{Body: d, Trunc: true, Chunked: true, Gate: gate}
			}
		case "stale, by-hash":
			if !strings.Contains(pp, "/by-hash/") {
				resp.Body = append([]byte("stale"), d...)
			}
		case "by-hash 404":
			if strings.Contains(pp, "/by-hash/SHA256") || strings.Contains(pp, "/by-hash/SHA1") {
				return &Resp{Status: 404, Body: []byte("no"), Gate: gate}
			}
			if !strings.Contains(pp, "/by-hash/") {
				resp.Body = append([]byte("stale"), d...)
			}
		case "wrong item":
			resp.Body = append([]byte("wrong"), d...)
		case "404 items":
			return &Resp{Status: 404, Body: []byte("no"), Gate: gate}
		}
		return resp
	})
	want := K
	if K == 0 || K > total {
		want = total
	}
	var args []string
	if fault == "named twice" {
		args = []string{s.id, s.id}
	}
	m := c.StartMirror(s.mc, args...)
	full := waitFor(25*time.Second, func() bool { return s.o.Inflight() >= want || !m.running() })
	time.Sleep(60 * time.Millisecond)
	atGate := s.o.Inflight()
	close(gate)
	r := m.Result(s.o)
	mx := s.o.Max()
	wit := map[string]interface{}{"limit": K, "phase": phase, "fault": fault, "largest": mx, "run": r.String()}
	if K > 0 && mx > K {
		c.Violate(wit, "max_conns=%d, %s, %s: %d transfers in progress", K, phase, fault, mx)
		return
	}
	if r.Stuck != "" {
		c.Violate(wit, "max_conns=%d, %s, %s: go-apt-mirror does not end", K, phase, fault)
		return
	}
	if K == 0 && !full {
		c.Violate(wit, "max_conns=0, %s, %s: only %d of %d transfers in progress, although there is no limit", phase, fault, atGate, total)
		return
	}
	mustFail := fault == "wrong item" || fault == "404 items"
	if (r.Code != 0) != mustFail {
		c.Violate(wit, "max_conns=%d, %s, %s: unexpected end: %s", K, phase, fault, r.String())
		return
	}
	if !mustFail && !c.expectPublished(s.mc.Dir, "m", s.want, fmt.Sprintf("max_conns=%d, %s, %s", K, phase, fault)) {
		return
	}
	c.Count("upstream_requests", s.o.Hits(""))
	c.Max("largest_in_progress", mx)
	c.Eval(fmt.Sprintf("limit %d %s %s largest %d", K, phase, fault, mx))
	if full {
		c.Count("runs_that_reached_the_limit", 1)
	}
	if i < 3 {
		c.Sample(wit)
	}
}

func (p *MirrorProc) running() bool {
	select {
	case <-p.exited:
		return false
	default:
		return true
	}
}

// ------------------------------------------------------------------ M11

var hostileNames = []string{
	"../evil.deb", "../../evil.deb", "../../../evil.deb", "../../../../evil.deb", "../../../../../../../../../../../../tmp/vmon-evil/evil.deb", "/evil.deb", "/tmp/vmon-evil/abs.deb", "//evil.deb", "a/../../../../evil.deb",
	"../info.json", "../../.lock", "../../n/pool/evil.deb", "../../n", "../../m", "../../m.tmp", "..", ".", "./", "...", "../", "../m/inside.deb", "../m/../info.json", "pool/../../info.json",
	"./././evil.deb", "pool//evil.deb", "pool/./evil.deb", "pool/x/../evil.deb", "-rf", "*", "~root", "pool\\..\\evil", "..\\..\\evil", "%2e%2e/evil.deb", "..%2fevil.deb", "..;/evil.deb",
	"pool/\x01evil", "pool/\x7f", "pool/\xff\xfe", "_tmp12345", "../_tmp12345", "dists", "dists/t", "pool", "dists/t/Release", "dists/t/by-hash/x", "info.json", ".lock", "m", "m.tmp",
	"../../.n.20200101_000000/n/x", "../../.hidden/x", strings.Repeat("n", 300), strings.Repeat("d/", 200) + "evil", "pool/evil.deb/", "pool/evil.deb/.", "pool/evil.deb/..",
	"../m2/evil", "../../mx/evil", ".../evil", "..evil", "../..evil/x", "a/..", "a/../..", "a/../../m/pool/x",
}

func checkM11(c *Ctx) {
	places := []string{"Packages", "Sources dir", "Sources file", "Release", "Packages alone", "flat Packages"}
	type job struct {
		name, place string
		bh          bool
	}
	var jobs []job
	for _, p := range places {
		for _, n := range hostileNames {
			if strings.Contains(p, "Sources file") && strings.Contains(n, " ") {
				continue
			}
			jobs = append(jobs, job{n, p, false}, job{n, p, true})
		}
	}
	rng := c.Rng("order")
	rng.Shuffle(len(jobs), func(a, b int) { jobs[a], jobs[b] = jobs[b], jobs[a] })
	n := c.N(260, len(jobs))
	if n > len(jobs) {
		n = len(jobs)
	}
	c.Parallel(n, 12, func(i int) { m11Run(c, c.Rng(fmt.Sprint("run", i)), i, jobs[i].name, jobs[i].place, jobs[i].bh) })
}

func m11Run(c *Ctx, rng *rand.Rand, i int, name, place string, byhash bool) {
	fam := allSums
	g := GenOpts{Suites: []string{"t"}, Sections: []string{"main"}, Archs: []string{"amd64"}, PkgsPer: 2, MaxSize: 300, Exts: []string{""}, Sums: &fam, Source: true, ByHash: byhash}
	if place == "flat Packages" {
		g.Suites, g.Source = []string{"f/"}, false
	}
	top := c.Dir("m11")
	mustWrite(filepath.Join(top, "evil.deb"), "original")
	mustWrite(filepath.Join(top, "outer", "evil.deb"), "original")
	s := c.newScene(rng, g)
	defer s.o.Close()
	s.mc.Dir = filepath.Join(top, "outer", "mirror")
	must(os.Mkdir(s.mc.Dir, 0755))
	n := c.newScene(rng, sceneOpts(rng, i))
	defer n.o.Close()
	s.mc.Mirrors = map[string]MirrDef{"m": s.def, "n": n.def}
	if r := c.RunMirror(s.mc, nil, s.o, n.o); r.Code != 0 {
		c.Violate(map[string]interface{}{"run": r.String()}, "first run failed")
		return
	}
	evil := []byte("EVIL " + name)
	f := PkgFile{Path: name, Data: nil}
	l := ListingOf(evil, fam)
	f.List = &l
	nr := s.repo.Mutate(rng, g)
	su := nr.Suites[0]
	switch place {
	case "Packages", "flat Packages":
		su.Comps[0].Pkgs = append(su.Comps[0].Pkgs, f)
	case "Packages alone":
		// every file of this mirror is hostile
		su.Comps[0].Pkgs = []PkgFile{f}
	case "Sources dir":
		for _, cp := range su.Comps {
			if cp.Arch == "source" {
				cp.Srcs = append(cp.Srcs, SrcPkg{Dir: name, Files: []PkgFile{{Path: "x.dsc", List: &l}}})
			}
		}
	case "Sources file":
		for _, cp := range su.Comps {
			if cp.Arch == "source" {
				cp.Srcs = append(cp.Srcs, SrcPkg{Dir: "pool/src", Files: []PkgFile{{Path: name, List: &l}}})
			}
		}
	case "Release":
		su.ExtraListed = map[string]Listing{name: l}
	}
	b := nr.Build()
	s.o.SetTree(b.Tree)
	s.o.Handle(func(pp string, k int, r *http.Request) *Resp {
		if _, ok := b.Tree[strings.TrimPrefix(pp, "/")]; ok || strings.Contains(path.Base(pp), "Release") && !strings.Contains(place, "Sources") {
			return nil
		}
		if strings.HasSuffix(pp, "Release.gz") || strings.HasSuffix(pp, "Release.bz2") {
			return nil
		}
		return &Resp{Body: evil}
	})
	around := func() string {
		t, err := readTree(top)
		must(err)
		m := map[string]string{}
		for p, st := range stamps(t) {
			if !under("outer/mirror", p) || p == "outer/mirror/.lock" || strings.HasPrefix(p, "outer/mirror/.n.") || p == "outer/mirror/n" {
				m[p] = st
			}
		}
		return digest(m)
	}
	a0 := around()
	oldTree, oldTarget, _, _ := published(s.mc.Dir, "m")
	old := stamps(oldTree)
	dir := s.mc.Dir
	var badOps []string
	nops := 0
	t := &Tracer{Root: ""}
	t.OnEnter = func(op *FSOp) Action {
		if op.N == 0 {
			return Action{}
		}
		nops++
		chk := func(p string, what string) {
			if p == "" || !filepath.IsAbs(p) || strings.HasPrefix(p, "/dev/") || strings.Contains(filepath.Base(p), "trace-stderr") || strings.HasPrefix(p, "/memfd:") {
				return
			}
			rel, err := filepath.Rel(dir, p)
			in := err == nil && rel != ".." && !strings.HasPrefix(rel, "../")
			part := strings.Split(rel, "/")
			snap := in && strings.HasPrefix(part[0], ".m.")
			fine := false
			switch op.Name {
			case "fsync", "sync":
				fine = true
			case "mkdir":
				fine = snap && (len(part) <= 2 || part[1] == "m") && (len(part) != 2 || part[1] == "m")
			case "link":
				// new names only in the tree (its root exists already)
				fine = snap && len(part) >= 2 && part[1] == "m"
				if what == "source" {
					fine = snap
				}
			case "symlink", "rename":
				fine = rel == "m" || rel == "m.tmp" || snap
			case "open", "write", "chmod", "truncate":
				fine = rel == ".lock" && op.Name == "open" || snap
			case "unlink", "rmdir":
				fine = snap || rel == "m.tmp"
			}
			if !fine {
				badOps = append(badOps, op.String())
			}
		}
		switch op.Name {
		case "symlink":
			chk(op.Path2, "")
		case "link":
			chk(op.Path, "source")
			chk(op.Path2, "")
		default:
			chk(op.Path, "")
			if op.Path2 != "" {
				chk(op.Path2, "")
			}
		}
		if len(badOps) > 0 {
			// whatever it is, it does not happen
			return Action{Errno: syscall.EPERM}
		}
		return Action{}
	}
	c.traceMirror(s.mc, t, "m")
	wit := map[string]interface{}{"name": head(name, 100), "place": place, "by-hash": byhash, "exit": t.ExitCode, "stderr": tail(t.Stderr, 500)}
	if len(badOps) > 0 {
		wit["calls"] = badOps
		c.Violate(wit, "%q in %s: go-apt-mirror touches something that is not its own: %s", head(name, 60), place, head(badOps[0], 300))
		return
	}
	if a0 != around() {
		c.Violate(wit, "%q in %s: something around the mirror changed", head(name, 60), place)
		return
	}
	if t.ExitCode == -1 {
		c.Violate(wit, "%q in %s: go-apt-mirror crashed", head(name, 60), place)
		return
	}
	now, target, ok, err := published(s.mc.Dir, "m")
	if err != nil || !ok {
		c.Violate(wit, "%q in %s: the mirror is gone", head(name, 60), place)
		return
	}
	if t.ExitCode != 0 && (target != oldTarget || treeDiff(stamps(now), old) != "") {
		c.Violate(wit, "%q in %s: the update failed but the published tree changed", head(name, 60), place)
		return
	}
	// the control file is still a control file
	var info map[string]json.RawMessage
	d, err := os.ReadFile(filepath.Join(filepath.Dir(target), "info.json"))
	if err != nil || json.Unmarshal(d, &info) != nil {
		c.Violate(wit, "%q in %s: info.json is damaged", head(name, 60), place)
		return
	}
	c.Count("system_calls_judged", nops)
	c.Eval(fmt.Sprintf("%q %s %v exit=%d", head(name, 60), place, byhash, t.ExitCode))
	// and the mirror still works with a well-behaved upstream
	if i%5 == 0 {
		s.o.Handle(nil)
		s.setRepo(s.repo)
		r := c.RunMirror(s.mc, []string{"m"}, s.o, n.o)
		if r.Code != 0 || !c.expectPublished(dir, "m", s.want, "update after hostile names") {
			c.Violate(map[string]interface{}{"run": r.String(), "name": name}, "%q in %s: the next update fails", head(name, 60), place)
		}
	}
}

// ------------------------------------------------------------------ M15

func checkM15(c *Ctx) {
	n := c.N(60, 500)
	c.Parallel(n, 10, func(i int) { m15Run(c, c.Rng(fmt.Sprint("run", i)), i) })
}

func m15Run(c *Ctx, rng *rand.Rand, i int) {
	ids := []string{"ubuntu", "ubuntu-ports", "a_1"}
	g := sceneOpts(rng, i)
	dir := c.Dir("m15")
	var sc []*scene
	var org []*Origin
	conf := MirrorConf{Dir: dir, MaxConns: []int{1, 3, 10}[rng.Intn(3)], Mirrors: map[string]MirrDef{}}
	seed := rng.Int63()
	for k, id := range ids {
		// the same paths, different contents
		s := &scene{g: g, id: id, o: NewOrigin()}
		defer s.o.Close()
		s.def = defOf(g, s.o.URL)
		r := GenRepo(rand.New(rand.NewSource(seed)), g)
		for _, su := range r.Suites {
			su.Marker += id
			for _, cp := range su.Comps {
				for x := range cp.Pkgs {
					if len(cp.Pkgs[x].Data) > 0 {
						cp.Pkgs[x].Data = append([]byte{}, cp.Pkgs[x].Data...)
						cp.Pkgs[x].Data[0] = byte('0' + k)
					}
				}
			}
		}
		s.setRepo(r)
		s.mc.Dir = dir
		conf.Mirrors[id] = s.def
		sc = append(sc, s)
		org = append(org, s.o)
	}
	if r := c.RunMirror(conf, nil, org...); r.Code != 0 {
		c.Violate(map[string]interface{}{"run": r.String()}, "a run without arguments failed")
		return
	}
	for _, s := range sc {
		if !c.expectPublished(dir, s.id, s.want, "run without arguments") {
			return
		}
	}
	for v := 0; v < 2 && !c.Failed(); v++ {
		snap := map[string]map[string]string{}
		targets := map[string]string{}
		hits := map[string]int{}
		for _, s := range sc {
			t, target, _, _ := published(dir, s.id)
			snap[s.id], targets[s.id] = stamps(t), target
			hits[s.id] = s.o.Hits("")
			s.mutate(rng)
		}
		kind := []string{"one", "two", "none", "unknown", "unknown first", "invalid id", "one of unreachable", "broken definition", "twice", "case", "empty name", "path name", "missing suites of a named one"}[(i+v*7)%13]
		mc := conf
		mc.Mirrors = map[string]MirrDef{}
		for k, d := range conf.Mirrors {
			mc.Mirrors[k] = d
		}
		named := map[string]bool{}
		var args []string
		mustFail := false
		perm := rng.Perm(3)
		x, y := ids[perm[0]], ids[perm[1]]
		switch kind {
		case "one":
			args = []string{x}
		case "two":
			args = []string{x, y}
		case "twice":
			args = []string{x, x}
		case "none":
			args, named = nil, map[string]bool{ids[0]: true, ids[1]: true, ids[2]: true}
		case "unknown":
			args, mustFail = []string{x, "nosuch"}, true
		case "unknown first":
			args, mustFail = []string{"nosuch", x}, true
		case "invalid id":
			mc.Mirrors["Bad"] = mc.Mirrors[x]
			args, mustFail = []string{x, "Bad"}, true
		case "broken definition":
			d := mc.Mirrors[y]
			d.Suites = []string{"t", "flat/"}
			mc.Mirrors[y] = d
			args, mustFail = []string{x, y}, true
		case "missing suites of a named one":
			d := mc.Mirrors[y]
			d.Suites = nil
			mc.Mirrors[y] = d
			args, mustFail = []string{y, x}, true
		case "one of unreachable":
			d := mc.Mirrors[y]
			d.URL = "http://127.0.0.1:1/"
			mc.Mirrors[y] = d
			args = []string{x}
		case "case":
			args, mustFail = []string{strings.ToUpper(x)}, true
		case "empty name":
			args, mustFail = []string{""}, true
		case "path name":
			args, mustFail = []string{"../" + x}, true
		}
		for _, a := range args {
			named[a] = true
		}
		logged := map[string]int{}
		for _, s := range sc {
			logged[s.id] = len(s.o.Log())
		}
		r := c.RunMirror(mc, args, org...)
		wit := map[string]interface{}{"arguments": args, "kind": kind, "run": r.String(), "repository": kindOf(g)}
		if (r.Code != 0) != mustFail || r.Stuck != "" {
			c.Violate(wit, "arguments %q (%s): unexpected end: %s", args, kind, r.String())
			return
		}
		for _, s := range sc {
			times := map[string]int{}
			for _, h := range s.o.Log()[logged[s.id]:] {
				times[h.Path]++
				if times[h.Path] > 1 {
					wit["path"] = h.Path
					c.Violate(wit, "arguments %q (%s): %s of mirror %s was requested %d times by one run", args, kind, h.Path, s.id, times[h.Path])
					return
				}
			}
			if !mustFail && named[s.id] {
				if !c.expectPublished(dir, s.id, s.want, fmt.Sprintf("arguments %q (%s): mirror %s", args, kind, s.id)) {
					return
				}
				continue
			}
			t, target, _, err := published(dir, s.id)
			if err != nil || target != targets[s.id] || treeDiff(stamps(t), snap[s.id]) != "" {
				c.Violate(wit, "arguments %q (%s): the tree of mirror %s changed", args, kind, s.id)
				return
			}
			if !named[s.id] && s.o.Hits("") != hits[s.id] {
				c.Violate(wit, "arguments %q (%s): the upstream of mirror %s was contacted", args, kind, s.id)
				return
			}
		}
		var links []string
		links = append(links, ids...)
		if bad := tidy(dir, links...); bad != "" {
			c.Violate(wit, "arguments %q (%s): left: %s", args, kind, bad)
			return
		}
		c.Eval(fmt.Sprintf("%s %s exit=%d", kind, kindOf(g), r.Code))
		c.Count("runs", 1)
		if i < 2 {
			c.Sample(wit)
		}
		// the others can still reuse what they have
		for _, s := range sc {
			if !mustFail && named[s.id] {
				continue
			}
			h0 := len(s.o.Log())
			r := c.RunMirror(conf, []string{s.id}, org...)
			if r.Code != 0 || !c.expectPublished(dir, s.id, s.want, "update of "+s.id+" afterwards") {
				c.Violate(map[string]interface{}{"run": r.String()}, "the update of %s after a run with arguments %q fails", s.id, args)
				return
			}
			nt, _, _, _ := published(dir, s.id)
			st := stamps(nt)
			_ = st
			for _, h := range s.o.Log()[h0:] {
				p := strings.TrimPrefix(h.Path, "/")
				if s.b.Items[p] {
					if was, ok := snap[s.id][p]; ok && strings.HasPrefix(was, s.want[p]) && s.want[p] != "" {
						c.Violate(map[string]interface{}{"path": p}, "mirror %s transfers unchanged %s again after a run with arguments %q", s.id, p, args)
						return
					}
				}
			}
		}
	}
}

// ------------------------------------------------------------------ M16

func checkM16(c *Ctx) {
	n := c.N(48, 300)
	c.Parallel(n, 10, func(i int) { m16Run(c, c.Rng(fmt.Sprint("run", i)), i) })
}

func m16Audit(c *Ctx, s *scene, umask os.FileMode, what string) bool {
	tree, target, ok, err := published(s.mc.Dir, s.id)
	if err != nil || !ok {
		c.Violate(fmt.Sprint(err), "%s: nothing published", what)
		return false
	}
	for p, e := range tree {
		switch {
		case e.Mode.IsDir():
			if e.Mode.Perm() != 0755&^umask || e.Mode&^(os.ModeDir|os.ModePerm) != 0 {
				c.Violate(map[string]interface{}{"path": p}, "%s: directory %s has mode %v (umask %03o)", what, p, e.Mode, umask)
				return false
			}
		case e.Mode.IsRegular():
			if e.Mode != 0644 && e.Mode != 0644&^umask {
				c.Violate(map[string]interface{}{"path": p}, "%s: file %s has mode %v (umask %03o)", what, p, e.Mode, umask)
				return false
			}
		default:
			c.Violate(map[string]interface{}{"path": p}, "%s: %s is neither file nor directory: %v", what, p, e.Mode)
			return false
		}
		if _, ok := s.want[p]; ok {
			continue // whatever it is called
		}
		if b := path.Base(p); strings.HasPrefix(b, "_tmp") || b == "info.json" || strings.HasSuffix(b, ".tmp") {
			c.Violate(map[string]interface{}{"path": p}, "%s: %s does not belong into a published tree", what, p)
			return false
		}
	}
	if st, err := os.Stat(filepath.Dir(target)); err != nil || st.Mode().Perm() != 0755&^umask {
		c.Violate(fmt.Sprint(st.Mode()), "%s: the directory of the published tree cannot be entered as it should", what)
		return false
	}
	// what a web server makes of it
	h := http.FileServer(http.Dir(filepath.Join(s.mc.Dir, s.id)))
	for p, sum := range s.want {
		w := &recorder{h: http.Header{}}
		r, err := http.NewRequest("GET", "http://x"+escapePath(p), nil)
		must(err)
		h.ServeHTTP(w, r)
		if w.code != 200 || sha(w.b) != sum {
			c.Violate(map[string]interface{}{"path": p, "status": w.code}, "%s: a web server does not serve %s as published", what, p)
			return false
		}
	}
	c.Count("entries_checked", len(tree))
	return true
}

type recorder struct {
	h    http.Header
	code int
	b    []byte
}

func (r *recorder) Header() http.Header { return r.h }
func (r *recorder) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *recorder) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.b = append(r.b, b...)
	return len(b), nil
}

func m16Run(c *Ctx, rng *rand.Rand, i int) {
	g := sceneOpts(rng, i)
	g.Source = i%3 == 0
	s := c.newScene(rng, g)
	defer s.o.Close()
	umask := []os.FileMode{0022, 0002, 0, 0027, 0077}[i%5]
	s.mc.Umask = int(umask) + 1
	check := func(kind string) bool {
		if !c.expectRun(s, kind) || !m16Audit(c, s, umask, fmt.Sprintf("%s (%s)", kind, kindOf(g))) {
			return false
		}
		c.Eval(fmt.Sprintf("umask %03o %s %s", umask, kind, kindOf(g)))
		return true
	}
	if !check("first run") {
		return
	}
	kinds := []string{"update", "retry", "by-hash fallback", "after a failure", "after a kill", "nothing new"}
	for v := 0; v < c.N(2, 5); v++ {
		kind := kinds[(i+v)%len(kinds)]
		if kind != "nothing new" {
			s.mutate(rng)
		}
		t, _, _, _ := published(s.mc.Dir, s.id)
		old := files(t)
		switch kind {
		case "retry":
			var k int32
			s.o.Handle(func(pp string, n int, r *http.Request) *Resp {
				d, ok := s.o.Tree()[strings.TrimPrefix(pp, "/")]
				if ok && len(d) > 1 && atomic.AddInt32(&k, 1)%5 == 0 && n == 0 {
					return &Resp{Body: d, Trunc: true}
				}
				return nil
			})
		case "by-hash fallback":
			if p := s.pick(rng, old, "index"); p != "" && g.ByHash {
				s.serve(p, func(d []byte) *Resp { return &Resp{Body: []byte("stale")} })
			}
		case "after a failure":
			if p := s.pick(rng, old, "item"); p != "" {
				s.serve(p, func(d []byte) *Resp { return &Resp{Body: []byte("stale")} })
				c.RunMirror(s.mc, nil, s.o)
				s.o.Handle(nil)
			}
		case "after a kill":
			k := killPoint(rng, 1)
			t := &Tracer{Root: s.mc.Dir, OnEnter: func(op *FSOp) Action { return Action{Kill: k.hit(s, op)} }}
			mc := s.mc
			c.traceMirror(mc, t)
		}
		if !check(kind) {
			return
		}
		s.o.Handle(nil)
	}
	if i < 2 {
		c.Sample(map[string]interface{}{"umask": fmt.Sprintf("%03o", umask), "repository": kindOf(g), "files": len(s.want)})
	}
}
