package main

import (
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
)

func init() {
	register("M04", &checkDef{fn: checkM04, level: "exploration", minDistinct: 40,
		rule:  "mirrors of generated repositories whose indices lie about single files (one checksum of several wrong, wrong size, right content withheld, stale or corrupt content by plain path or by hash, content wrong once and right later, a listing that keeps one checksum of the mirrored file and changes another, Release and InRelease with different checksum kinds): every file of the published tree is hashed and compared with every listing of it, and a run must fail exactly when a listed file cannot be had. Non-trivial: distinct (lie, checksum kinds, outcome). One known finding: two indices that contradict each other about the same pool file",
		assum: []string{"an index that is not available upstream is not published and lists nothing"}})
	register("M05", &checkDef{fn: checkM05, level: "exploration", minDistinct: 30,
		rule:  "random configurations (suites, nested suite names, flat layouts, section and architecture subsets with similar names, sources on/off) over random repositories (compressions, variants missing upstream, Release or InRelease only, compressed Release files, sub-Release files, translations, i18n/Index): the published tree must equal exactly the set computed from the repository model. Non-trivial: distinct (layout, configuration shape, compressions)",
		assum: []string{"sections that share their last path component with a configured one (updates/main and main) are not generated"}})
	register("M06", &checkDef{fn: checkM06, level: "exploration", minDistinct: 20,
		rule:  "chains of updates over changing repositories, after successful, failed and killed updates, with changing checksum kinds and by-hash support switched on and off: the origin's request log must hold exactly the Release files and the new or changed files, unchanged files must keep their inode, and the tree must equal one made from scratch. Non-trivial: distinct (kind of repository, step, numbers of reused and transferred files classes)",
		assum: []string{"two different indices with equal content in one by-hash directory are not generated"}})
	register("M07", &checkDef{fn: checkM07, level: "exploration", minDistinct: 20,
		rule:  "by-hash repositories with all plain paths fresh, some stale, some replaced, Release and InRelease of different versions, by-hash directories incomplete, and repositories without by-hash: published by-hash links, contents, modes, the versions kept, and the by-hash requests in the origin's log are compared with the model. Non-trivial: distinct (situation, checksum kinds, compressions, outcome)",
		assum: []string{"which of two listed versions the plain path holds is not prescribed"}})
}

// ------------------------------------------------------------------ M04

// m04Audit checks every published file against every listing in listed.
func m04Audit(dir, id string, listed map[string][]Listing) (n int, bad []string) {
	root, err := filepath.EvalSymlinks(filepath.Join(dir, id))
	if err != nil {
		return 0, []string{err.Error()}
	}
	for p, ls := range listed {
		d, err := os.ReadFile(filepath.Join(root, p))
		if os.IsNotExist(err) {
			continue
		}
		if err != nil {
			bad = append(bad, err.Error())
			continue
		}
		n++
		for _, l := range ls {
			if !l.Matches(d) {
				bad = append(bad, fmt.Sprintf("%s (%d bytes) does not match its listing %+v", p, len(d), l))
			}
		}
	}
	sort.Strings(bad)
	return n, bad
}

// listings collects what the published indices of a built repository list.
func listings(b *Built, d MirrDef, want map[string]string) map[string][]Listing {
	m := map[string][]Listing{}
	for p, l := range b.Listed {
		if !b.Items[p] {
			m[p] = append(m[p], l)
		}
	}
	for ix, lists := range b.By {
		if _, ok := want[ix]; !ok {
			continue
		}
		for p, l := range lists {
			if _, mirrored := want[p]; mirrored {
				m[p] = append(m[p], l)
			}
		}
	}
	return m
}

func famList(s Sums) []string {
	var l []string
	if s.MD5 {
		l = append(l, "MD5")
	}
	if s.SHA1 {
		l = append(l, "SHA1")
	}
	if s.SHA256 {
		l = append(l, "SHA256")
	}
	return l
}

func (l *Listing) get(fam string) *string {
	switch fam {
	case "MD5":
		return &l.MD5
	case "SHA1":
		return &l.SHA1
	}
	return &l.SHA256
}

func checkM04(c *Ctx) {
	lies := []string{"none", "item sum", "item size", "item sum, update", "index sum", "index sum in InRelease only", "index sum in Release only", "index sum in Release only, disjoint kinds",
		"half-true listing, update", "corrupt once", "corrupt plain path", "stale item", "same size, other content, update", "source sum", "source size"}
	n := c.N(len(lies)*24, len(lies)*60)
	c.Parallel(n, 24, func(i int) { m04Run(c, c.Rng(fmt.Sprint("run", i)), i, lies[i%len(lies)]) })
	m04Conflict(c)
	if !c.Failed() {
		m04Large(c)
	}
}

func wrongSum(l *Listing, fam string, rng *rand.Rand) {
	p := l.get(fam)
	other := blob(rng, "other", 50)
	*p = *ListingOfAll(other).get(fam)
}

// ListingOfAll is ListingOf with all checksums.
func ListingOfAll(d []byte) *Listing { l := ListingOf(d, allSums); return &l }

func m04Run(c *Ctx, rng *rand.Rand, i int, lie string) {
	g := sceneOpts(rng, i/15)
	g.I18n = !isFlatName(g.Suites[0])
	fams := []Sums{{true, false, false}, {false, true, false}, {false, false, true}, {true, true, false}, {true, false, true}, {false, true, true}, {true, true, true}}
	fam := fams[(i/15)%len(fams)]
	g.Sums = &fam
	if strings.HasPrefix(lie, "source") {
		g.Source = true
	}
	if strings.Contains(lie, "corrupt plain") {
		g.ByHash = true
	}
	if strings.Contains(lie, "Release only") {
		g.ByHash = false
	}
	s := c.newScene(rng, g)
	defer s.o.Close()
	kinds := famList(fam)
	kind := kinds[rng.Intn(len(kinds))]
	mustFail := false
	when := "first run"
	if strings.HasSuffix(lie, "update") || rng.Intn(2) == 0 && !strings.HasPrefix(lie, "none") {
		when = "update"
		if !c.expectRun(s, "first run") {
			return
		}
		if lie != "half-true listing, update" && lie != "same size, other content, update" {
			s.mutate(rng)
		}
	}
	old := map[string]string{}
	if when == "update" {
		t, _, _, _ := published(s.mc.Dir, s.id)
		old = files(t)
	}
	// the package (or source) file to lie about
	pickPkg := func() (*PkgFile, string) {
		var l []*PkgFile
		var ps []string
		for _, su := range s.repo.Suites {
			for _, cp := range su.Comps {
				for k := range cp.Pkgs {
					if len(cp.Pkgs[k].Data) > 1 {
						l = append(l, &cp.Pkgs[k])
						ps = append(ps, path.Clean(cp.Pkgs[k].Path))
					}
				}
			}
		}
		k := rng.Intn(len(l))
		return l[k], ps[k]
	}
	pickSrc := func() (*PkgFile, string) {
		for _, su := range s.repo.Suites {
			for _, cp := range su.Comps {
				for _, sp := range cp.Srcs {
					k := rng.Intn(len(sp.Files))
					return &sp.Files[k], path.Join(sp.Dir, sp.Files[k].Path)
				}
			}
		}
		panic("no sources")
	}
	pickIndex := func() (su *Suite, p string) {
		su = s.repo.Suites[rng.Intn(len(s.repo.Suites))]
		for {
			p = s.b.SuiteIndices[su.Name][rng.Intn(len(s.b.SuiteIndices[su.Name]))]
			if _, base, _ := splitIndex(p); base != "Sources" || g.Source {
				return su, p
			}
		}
	}
	desc := lie
	switch strings.TrimSuffix(lie, ", update") {
	case "none":
	case "item sum":
		f, _ := pickPkg()
		l := ListingOf(f.Data, fam)
		wrongSum(&l, kind, rng)
		f.List = &l
		mustFail = true
	case "item size":
		f, _ := pickPkg()
		l := ListingOf(f.Data, fam)
		l.Size += uint64(1 + rng.Intn(3))
		f.List = &l
		mustFail = true
	case "source sum":
		f, _ := pickSrc()
		l := ListingOf(f.Data, fam)
		wrongSum(&l, kind, rng)
		f.List = &l
		mustFail = true
	case "source size":
		f, _ := pickSrc()
		l := ListingOf(f.Data, fam)
		l.Size++
		f.List = &l
		mustFail = true
	case "index sum":
		su, p := pickIndex()
		l := ListingOf(s.b.Tree[p], fam)
		wrongSum(&l, kind, rng)
		su.RelOverride = map[string]Listing{p: l}
		su.InRelOverride = su.RelOverride
		mustFail = true
	case "index sum in InRelease only":
		su, p := pickIndex()
		l := ListingOf(s.b.Tree[p], fam)
		wrongSum(&l, kind, rng)
		su.InRelOverride = map[string]Listing{p: l}
		mustFail = true
	case "index sum in Release only":
		su, p := pickIndex()
		l := ListingOf(s.b.Tree[p], fam)
		wrongSum(&l, kind, rng)
		su.RelOverride = map[string]Listing{p: l}
		mustFail = true
	case "index sum in Release only, disjoint kinds":
		// Release has more kinds than InRelease, and the additional one is wrong
		su, p := pickIndex()
		l := ListingOf(s.b.Tree[p], fam)
		extra := "SHA256"
		for _, k := range []string{"MD5", "SHA1", "SHA256"} {
			if !hasStr(kinds, k) {
				extra = k
			}
		}
		*l.get(extra) = *ListingOfAll(blob(rng, "x", 20)).get(extra)
		if len(kinds) == 3 {
			s2 := Sums{true, true, false}
			su.InRelSums = &s2
		}
		if rng.Intn(2) == 0 {
			su.RelOverride = map[string]Listing{p: l}
		} else {
			su.RelOverride = nil
			su.InRelOverride = map[string]Listing{p: l}
			if len(kinds) == 3 {
				su.InRelSums = nil
				r := Sums{true, true, false}
				su.RelSums = r
			}
		}
		desc += " " + extra
		mustFail = true
	case "half-true listing":
		// one checksum of the mirrored file stays, another one changes
		f, _ := pickPkg()
		all := ListingOf(f.Data, fam)
		if len(kinds) == 1 {
			// listed with another kind than before, wrong
			for _, k := range []string{"SHA256", "MD5", "SHA1"} {
				if k != kind {
					*all.get(k) = *ListingOfAll(f.Data).get(k)
					wrongSum(&all, k, rng)
					desc += " new " + k
					break
				}
			}
		} else {
			wrongSum(&all, kind, rng)
		}
		f.List = &all
		mustFail = true
	case "same size, other content":
		f, _ := pickPkg()
		f.Data = flip(rng, f.Data)
	}
	s.setRepo(s.repo)
	b := s.b
	switch lie {
	case "corrupt once", "corrupt plain path", "stale item":
		class := "item"
		if lie == "corrupt plain path" {
			class = "index"
		}
		p := s.pick(rng, old, class)
		if p == "" {
			c.Count("nothing_to_damage", 1)
			return
		}
		prev := s.b.Tree[p]
		if lie == "stale item" {
			prev = append([]byte("old "), prev...)
		}
		form := rng.Intn(4)
		if form == 3 && len(prev) == 0 {
			form = 1
		}
		s.serve(p, func(d []byte) *Resp {
			if lie == "stale item" {
				return &Resp{Body: prev}
			}
			if lie == "corrupt once" && s.o.Hits("/"+p) > 1 {
				return &Resp{Body: d}
			}
			switch form {
			case 1: // longer
				return &Resp{Body: append(append([]byte{}, d...), "surplus surplus surplus"...)}
			case 2: // longer all over
				return &Resp{Body: append([]byte("longer and other"), d...)}
			case 3: // shorter
				return &Resp{Body: d[:len(d)/2]}
			}
			return &Resp{Body: flip(rand.New(rand.NewSource(1)), d)}
		})
		// content damaged once is not asked for again
		mustFail = lie != "corrupt plain path"
		if g.ByHash && class == "index" {
			mustFail = false
		}
	}
	if i%4 == 3 {
		// whatever is wrong comes with the second attempt only
		prev := s.o.handler
		h := uint64(rng.Int63())
		s.o.Handle(func(pp string, n int, rq *http.Request) *Resp {
			d, ok := s.o.Tree()[strings.TrimPrefix(pp, "/")]
			x := h
			for _, ch := range pp {
				x = x*1099511628211 ^ uint64(ch)
			}
			if ok && n == 0 && !strings.Contains(path.Base(pp), "Release") && x>>40%3 > 0 {
				if x>>50%2 == 0 || len(d) < 2 {
					return &Resp{Status: 503}
				}
				return &Resp{Body: d, Trunc: true}
			}
			if prev != nil {
				return prev(pp, n, rq)
			}
			return nil
		})
		desc += ", after transient failures"
	}
	r := c.RunMirror(s.mc, nil, s.o)
	wit := map[string]interface{}{"lie": desc, "kinds": fam.String(), "run": r.String(), "when": when, "repository": kindOf(g)}
	if r.Stuck != "" {
		c.Violate(wit, "%s (%s): go-apt-mirror does not end", desc, when)
		return
	}
	if r.Code == 0 {
		n, bad := m04Audit(s.mc.Dir, s.id, listings(b, s.def, s.want))
		c.Count("published_files_audited", n)
		if len(bad) > 0 {
			wit["bad"] = bad
			c.Violate(wit, "%s (%s, %v): a file is published that does not match its listing: %s", desc, when, kinds, head(bad[0], 300))
			return
		}
		if mustFail && lie != "corrupt once" {
			c.Violate(wit, "%s (%s, %v): go-apt-mirror succeeded although a listed file cannot be had", desc, when, kinds)
			return
		}
		c.expectPublished(s.mc.Dir, s.id, s.want, desc)
	} else if !mustFail {
		c.Violate(wit, "%s (%s, %v): go-apt-mirror failed although all listed files can be had", desc, when, kinds)
		return
	}
	if mustFail && when == "update" && r.Code != 0 {
		t, _, _, err := published(s.mc.Dir, s.id)
		if err != nil || digest(files(t)) != digest(old) {
			c.Violate(wit, "%s: the published tree changed although the update failed", desc)
		}
	}
	c.Eval(fmt.Sprintf("%s %s %s %s exit=%d", desc, when, fam, kindOf(g), r.Code))
	c.Count("runs", 1)
	if i < 2 {
		c.Sample(wit)
	}
}

// m04Conflict is the known finding: two suites list the same pool file with
// different checksums.
func m04Conflict(c *Ctx) {
	rng := c.Rng("conflict")
	fam := allSums
	g := GenOpts{Suites: []string{"t", "u"}, Sections: []string{"main"}, Archs: []string{"amd64"}, PkgsPer: 2, MaxSize: 500, Exts: []string{".gz"}, Sums: &fam}
	s := c.newScene(rng, g)
	defer s.o.Close()
	good, bad := blob(rng, "shared", 300), blob(rng, "shared", 300)
	for i, su := range s.repo.Suites {
		f := PkgFile{Path: "pool/shared.deb", Data: good}
		if i == 0 {
			l := ListingOf(bad, fam)
			f.List = &l
		}
		su.Comps[0].Pkgs = append(su.Comps[0].Pkgs, f)
	}
	s.setRepo(s.repo)
	r := c.RunMirror(s.mc, nil, s.o)
	if r.Code != 0 {
		c.Eval("contradicting indices refused")
		return
	}
	_, viol := m04Audit(s.mc.Dir, s.id, listings(s.b, s.def, s.want))
	if len(viol) > 0 {
		c.ViolateKeyed("contradicting-indices", viol, "two suites list pool/shared.deb with different checksums; the mirror is published, and the file matches only the listing of the suite configured last")
	}
	c.Eval("contradicting indices published")
}

// ------------------------------------------------------------------ M05

func checkM05(c *Ctx) {
	n := c.N(480, 1500)
	c.Parallel(n, 12, func(i int) { m05Run(c, c.Rng(fmt.Sprint("run", i)), i) })
	if !c.Failed() {
		m05Scale(c)
	}
}

func subset(rng *rand.Rand, l []string, min int) []string {
	for {
		var r []string
		for _, x := range l {
			if rng.Intn(2) == 0 {
				r = append(r, x)
			}
		}
		if len(r) >= min {
			return r
		}
	}
}

func m05Run(c *Ctx, rng *rand.Rand, i int) {
	fam := randSums(rng)
	extSets := [][]string{{""}, {".gz"}, {".xz"}, {".bz2"}, {"", ".gz"}, {".gz", ".xz"}, {"", ".gz", ".xz", ".bz2"}, {".gz", ".lzma"}, {"", ".xz", ".lz"}}
	g := GenOpts{PkgsPer: 2, MaxSize: 800, Exts: extSets[rng.Intn(len(extSets))], ByHash: rng.Intn(3) == 0, SubRelease: rng.Intn(2) == 0, I18n: rng.Intn(3) == 0, Source: rng.Intn(2) == 0}
	if rng.Intn(3) > 0 {
		g.Sums = &fam
	}
	layout := "sections"
	def := MirrDef{}
	switch rng.Intn(4) {
	case 0:
		layout = "flat"
		all := [][]string{{"/"}, {"./"}, {"sub/"}, {"a/b/"}, {"x/", "y/"}, {"one/", "one/two/"}}
		g.Suites = all[rng.Intn(len(all))]
		def.Suites = g.Suites
		g.I18n, g.SubRelease = false, false
		if len(g.Suites) > 1 && rng.Intn(3) == 0 {
			def.Suites = g.Suites[:1]
		}
	default:
		g.Suites = [][]string{{"t"}, {"t", "t-updates", "t-security"}, {"t/updates", "t"}, {"precise", "trusty"}, {"a.b-c"}}[rng.Intn(5)]
		g.Sections = [][]string{{"main"}, {"main", "restricted", "universe"}, {"main", "notmain", "main-x"}, {"free", "non-free", "contrib"}, {"main", "main2"}, {"updates/main", "security/main", "main/debug"}}[rng.Intn(6)]
		g.Archs = [][]string{{"amd64"}, {"amd64", "i386"}, {"arm", "armhf", "arm64"}, {"i386", "hurd-i386", "kfreebsd-i386"}}[rng.Intn(4)]
		def.Suites = subset(rng, g.Suites, 1)
		def.Sections = subset(rng, g.Sections, 1)
		def.Archs = subset(rng, g.Archs, 0)
		if def.Archs == nil {
			def.Archs = []string{}
		}
	}
	def.Source = rng.Intn(2) == 0
	s := &scene{g: g, id: "m", o: NewOrigin()}
	defer s.o.Close()
	def.URL = s.o.URL
	base := ""
	switch rng.Intn(4) {
	case 0:
		base = "debian"
		def.URL += "/debian"
	case 1:
		base = "a/b c"
		def.URL += "/a/b%20c/"
	case 2:
		def.URL += "/"
	}
	s.def = def
	s.mc = MirrorConf{Dir: c.Dir("mirror"), MaxConns: []int{0, 1, 3, 10}[rng.Intn(4)], Mirrors: map[string]MirrDef{"m": def}}
	r := GenRepo(rng, g)
	shape := ""
	for _, su := range r.Suites {
		switch rng.Intn(5) {
		case 0:
			su.NoRelease, su.NoGPG = true, true
			shape += "I"
		case 1:
			su.NoInRel = true
			shape += "R"
		case 2:
			su.NoInRel, su.NoGPG = true, true
			shape += "r"
		default:
			shape += "A"
		}
		if rng.Intn(3) == 0 {
			// variants that Release lists, but upstream does not have
			su.ListedExts = append(append([]string{}, su.Exts...), subset(rng, []string{".bz2x", ".lz", ".zst"}, 1)...)
			for _, e := range []string{"", ".gz", ".xz", ".bz2"} {
				if !hasStr(su.Exts, e) && rng.Intn(2) == 0 {
					su.ListedExts = append(su.ListedExts, e)
				}
			}
			shape += "m"
		}
		if rng.Intn(4) == 0 {
			su.RelExts = subset(rng, []string{".gz", ".bz2"}, 1)
			shape += "c"
		}
		if !isFlatName(su.Name) && !su.I18n && rng.Intn(4) == 0 {
			su.I18nIndex = true
			shape += "x"
		}
	}
	if !isFlatName(g.Suites[0]) && rng.Intn(2) == 0 {
		// files that several indices list
		sh := PkgFile{Path: "pool/shared_1_all.deb", Data: blob(rng, "shared", 300)}
		for _, su := range r.Suites {
			for _, cp := range su.Comps {
				if cp.Arch != "source" && rng.Intn(2) == 0 {
					cp.Pkgs = append(cp.Pkgs, sh)
				}
			}
		}
		shape += "s"
	}
	if rng.Intn(4) == 0 {
		// an empty index
		su := r.Suites[rng.Intn(len(r.Suites))]
		su.Comps[rng.Intn(len(su.Comps))].Pkgs = nil
		shape += "e"
	}
	s.setRepo(r)
	if base != "" {
		t := map[string][]byte{}
		for p, d := range s.b.Tree {
			t[base+"/"+p] = d
		}
		s.o.SetTree(t)
	}
	what := fmt.Sprintf("suites %v of %v, sections %v of %v, architectures %v of %v, source %v of %v, %v", def.Suites, g.Suites, def.Sections, g.Sections, def.Archs, g.Archs, def.Source, g.Source, g.Exts)
	if !c.expectRun(s, what) {
		return
	}
	c.Count("published_files_compared", len(s.want))
	c.Eval(fmt.Sprintf("%s %s src=%v/%v ext=%v n=%d/%d/%d byhash=%v base=%q", layout, shape, def.Source, g.Source, g.Exts, len(def.Suites), len(def.Sections), len(def.Archs), g.ByHash, base))
	if i < 3 {
		c.Sample(map[string]interface{}{"configuration": what, "files": len(s.want), "requests": s.o.Hits("")})
	}
}

// ------------------------------------------------------------------ M06

func checkM06(c *Ctx) {
	n := c.N(120, 300)
	c.Parallel(n, 12, func(i int) { m06Run(c, c.Rng(fmt.Sprint("run", i)), i) })
	if !c.Failed() {
		m06Scale(c)
	}
}

func m06Run(c *Ctx, rng *rand.Rand, i int) {
	g := sceneOpts(rng, i)
	g.I18n = !isFlatName(g.Suites[0]) && i%3 == 0
	g.PkgsPer = 5
	s := c.newScene(rng, g)
	defer s.o.Close()
	if !c.expectRun(s, "first run") {
		return
	}
	steps := c.N(3, 6)
	for v := 0; v < steps && !c.Failed(); v++ {
		oldTree, _, _, err := published(s.mc.Dir, s.id)
		must(err)
		old := files(oldTree)
		step := []string{"update", "nothing new", "update after a failed one", "other checksum kinds", "by-hash switched", "update after a killed one"}[(i+v*5)%6]
		switch step {
		case "nothing new":
		case "other checksum kinds":
			fam := randSums(rng)
			s.g.Sums = &fam
			nr := s.repo.Mutate(rng, s.g)
			for _, su := range nr.Suites {
				su.RelSums, su.PkgSums = fam, randSums(rng)
			}
			s.setRepo(nr)
		case "by-hash switched":
			nr := s.repo.Mutate(rng, s.g)
			for _, su := range nr.Suites {
				su.ByHash = !su.ByHash
				// as go-apt-mirror computes them all, the kinds may differ
			}
			s.g.ByHash = !s.g.ByHash
			s.setRepo(nr)
		case "update after a failed one":
			s.mutate(rng)
			p := s.pick(rng, old, "item")
			if p == "" {
				break
			}
			s.serve(p, func(d []byte) *Resp { return &Resp{Body: []byte("bad")} })
			if r := c.RunMirror(s.mc, nil, s.o); r.Code == 0 {
				c.Violate(map[string]interface{}{"run": r.String()}, "an update with a wrong file succeeded")
				return
			}
			s.o.Handle(nil)
		case "update after a killed one":
			s.mutate(rng)
			k := killPoint(rng, 1)
			t := &Tracer{Root: s.mc.Dir, OnEnter: func(op *FSOp) Action { return Action{Kill: k.hit(s, op)} }}
			c.traceMirror(s.mc, t)
			s.o.Settle()
			oldTree, _, _, err = published(s.mc.Dir, s.id)
			must(err)
			old = files(oldTree)
		default:
			s.mutate(rng)
		}
		before := len(s.o.Log())
		if !c.expectRun(s, step) {
			return
		}
		reqs := map[string]int{}
		for _, h := range s.o.Log()[before:] {
			reqs[strings.TrimPrefix(h.Path, "/")]++
		}
		tree, _, _, err := published(s.mc.Dir, s.id)
		must(err)
		reused, moved := 0, 0
		for p, sum := range s.want {
			_, base, _ := splitIndex(p)
			rel := (strings.HasPrefix(base, "Release") || strings.HasPrefix(base, "InRelease")) && !s.b.Indices[p]
			byhash := strings.Contains(p, "/by-hash/")
			same := old[p] == sum
			switch {
			case rel:
				delete(reqs, p)
			case byhash:
				if reqs[p] > 0 {
					c.Violate(map[string]interface{}{"path": p, "step": step}, "%s: by-hash path %s is requested though its plain path is right", step, p)
				}
			case same:
				if reqs[p] > 0 {
					c.Violate(map[string]interface{}{"path": p, "step": step, "repository": kindOf(s.g)}, "%s (%s): unchanged %s is transferred again", step, kindOf(s.g), p)
					return
				}
				if tree[p].Ino != oldTree[p].Ino {
					c.Violate(map[string]interface{}{"path": p, "step": step}, "%s: unchanged %s is not a hard link to the previous version", step, p)
					return
				}
				reused++
			default:
				if reqs[p] == 0 {
					// the same content under another name cannot do
					c.Violate(map[string]interface{}{"path": p, "step": step}, "%s: new or changed %s was not requested, but is published", step, p)
					return
				}
				if reqs[p] > 1 {
					c.Violate(map[string]interface{}{"path": p, "step": step, "requests": reqs[p]}, "%s: %s is transferred %d times", step, p, reqs[p])
					return
				}
				delete(reqs, p)
				moved++
			}
		}
		c.Count("files_reused", reused)
		c.Count("files_transferred", moved)
		c.Eval(fmt.Sprintf("%s %s reused=%v transferred=%v", kindOf(s.g), step, reused > 0, moved > 0))
		// from scratch
		if v == steps-1 && i%4 == 0 {
			s3 := *s
			s3.mc.Dir = c.Dir("scratch")
			if c.expectRun(&s3, "mirror from scratch") {
				t3, _, _, _ := published(s3.mc.Dir, s3.id)
				t, _, _, _ := published(s.mc.Dir, s.id)
				if d := treeDiff(files(t), files(t3)); d != "" {
					c.Violate(d, "updated mirror and mirror from scratch differ")
				}
			}
		}
	}
}

// ------------------------------------------------------------------ M07

func checkM07(c *Ctx) {
	kinds := []string{"fresh", "stale plain", "all stale", "stale plain, update", "two versions", "two versions, plain first", "two versions, update", "no by-hash, two versions", "no by-hash, stale", "by-hash incomplete", "by-hash only MD5", "no by-hash", "only InRelease declares"}
	n := c.N(len(kinds)*20, len(kinds)*40)
	c.Parallel(n, 12, func(i int) { m07Run(c, c.Rng(fmt.Sprint("run", i)), i, kinds[i%len(kinds)]) })
}

// nextVersion adds and removes packages, but changes none in place.
func (r *Repo) nextVersion(rng *rand.Rand, g GenOpts) *Repo {
	n := &Repo{Extra: r.Extra}
	for _, s := range r.Suites {
		ns := *s
		ns.Marker = fmt.Sprint(rng.Int63())
		ns.Comps = nil
		for _, c := range s.Comps {
			nc := *c
			if c.Arch != "source" {
				nc.Pkgs = nil
				for _, p := range c.Pkgs {
					if rng.Intn(4) > 0 {
						nc.Pkgs = append(nc.Pkgs, p)
					}
				}
				dir := suiteDir(s.Name)
				if !isFlatName(s.Name) {
					dir = "pool/next"
				}
				p := path.Join(dir, fmt.Sprintf("next%d_%s.deb", rng.Intn(1000000), c.Arch))
				nc.Pkgs = append(nc.Pkgs, PkgFile{Path: p, Data: blob(rng, p, rng.Intn(g.MaxSize+1))})
			}
			ns.Comps = append(ns.Comps, &nc)
		}
		n.Suites = append(n.Suites, &ns)
	}
	return n
}

// byHashOf lists the by-hash paths of data at index path p.
func byHashOf(p string, d []byte) []string {
	b := path.Join(path.Dir(p), "by-hash")
	return []string{path.Join(b, "SHA256", hexSHA256(d)), path.Join(b, "SHA1", hexSHA1(d)), path.Join(b, "MD5Sum", hexMD5(d))}
}

func m07Run(c *Ctx, rng *rand.Rand, i int, kind string) {
	fams := []Sums{{false, false, true}, {true, true, true}, {false, true, true}, {true, false, true}, {true, true, true}}
	fam := fams[(i/13)%len(fams)]
	if kind == "fresh" || kind == "no by-hash" || kind == "stale plain" {
		fam = randSums(rng)
	}
	if kind == "by-hash incomplete" || kind == "by-hash only MD5" {
		fam = allSums
	}
	g := GenOpts{Suites: []string{"t"}, Sections: []string{"main"}, Archs: []string{"amd64"}, PkgsPer: 3, MaxSize: 1500,
		Exts: [][]string{{".gz"}, {".xz"}, {"", ".gz"}, {".bz2"}, {""}}[rng.Intn(5)], Sums: &fam, ByHash: !strings.HasPrefix(kind, "no by-hash"), SubRelease: rng.Intn(2) == 0, I18n: rng.Intn(2) == 0}
	if rng.Intn(4) == 0 {
		g.Suites, g.SubRelease, g.I18n = []string{"f/"}, false, false
	}
	s := c.newScene(rng, g)
	defer s.o.Close()
	update := strings.HasSuffix(kind, "update")
	if update || rng.Intn(3) == 0 && kind != "only InRelease declares" {
		if !c.expectRun(s, "first run") {
			return
		}
		update = true
		if rng.Intn(3) > 0 {
			s.mutate(rng)
		}
	}
	before := len(s.o.Log())
	su := s.repo.Suites[0]
	changed := func(p string) bool { _, base, _ := splitIndex(p); return base == "Packages" }
	mustFail := false
	want := s.want
	alt := map[string]string{} // accepted other content of a path
	wantBy := map[string]bool{}
	desc := kind
	switch strings.TrimSuffix(kind, ", update") {
	case "fresh", "no by-hash":
	case "stale plain", "all stale", "no by-hash, stale", "by-hash incomplete", "by-hash only MD5":
		cur, cb := s.repo, s.b
		old := cur.Mutate(rng, g)
		for k := 0; k < 20; k++ {
			diff := false
			ob := old.Build()
			for _, p := range s.b.SuiteIndices[su.Name] {
				diff = diff || changed(p) && sha(ob.Tree[p]) != sha(cb.Tree[p])
			}
			if diff {
				break
			}
			old = cur.Mutate(rng, g)
		}
		ob := old.Build()
		tree := map[string][]byte{}
		for p, d := range cb.Tree {
			tree[p] = d
		}
		stale := 0
		prevTree, _, _, _ := published(s.mc.Dir, s.id)
		prev := files(prevTree)
		for _, p := range cb.SuiteIndices[su.Name] {
			od, ok := ob.Tree[p]
			if !ok || sha(od) == sha(cb.Tree[p]) || strings.Contains(kind, "stale plain") && rng.Intn(2) == 0 {
				continue
			}
			tree[p] = od
			bh := byHashOf(p, cb.Tree[p])
			switch kind {
			case "by-hash incomplete":
				for _, q := range bh[:1+rng.Intn(2)] {
					delete(tree, q)
				}
			case "by-hash only MD5":
				delete(tree, bh[0])
				delete(tree, bh[1])
			}
			if prev[p] != sha(cb.Tree[p]) {
				// it has to be transferred
				stale++
				if g.ByHash {
					for _, q := range bh {
						if _, ok := tree[q]; ok {
							wantBy[q] = true
						}
					}
				}
			}
		}
		mustFail = !g.ByHash && stale > 0
		if stale == 0 {
			desc += " (nothing stale)"
		}
		s.o.SetTree(tree)
	case "two versions", "two versions, plain first", "no by-hash, two versions":
		// Release lists another version than InRelease
		a := s.repo
		b := a.nextVersion(rng, g)
		ab, bb := a.Build(), b.Build()
		tree := map[string][]byte{}
		for p, d := range bb.Tree {
			tree[p] = d
		}
		for p, d := range ab.Tree {
			if _, ok := tree[p]; !ok {
				tree[p] = d
			}
		}
		if kind == "two versions, plain first" {
			for p := range ab.Indices {
				if d, ok := ab.Tree[p]; ok {
					tree[p] = d
				}
			}
		}
		dir := suiteDir(su.Name)
		tree[path.Join(dir, "Release")] = ab.Tree[path.Join(dir, "Release")]
		tree[path.Join(dir, "Release.gpg")] = ab.Tree[path.Join(dir, "Release.gpg")]
		tree[path.Join(dir, "InRelease")] = bb.Tree[path.Join(dir, "InRelease")]
		s.o.SetTree(tree)
		wa, wb := mirrorWants(a, ab, s.def), mirrorWants(b, bb, s.def)
		differ := false
		want = map[string]string{}
		for p, x := range wa {
			want[p] = x
		}
		for p, x := range wb {
			if y, ok := wa[p]; ok && y != x {
				alt[p] = x
				differ = differ || ab.Indices[p]
			} else {
				want[p] = x
			}
		}
		want[path.Join(dir, "Release")] = sha(tree[path.Join(dir, "Release")])
		want[path.Join(dir, "Release.gpg")] = sha(tree[path.Join(dir, "Release.gpg")])
		want[path.Join(dir, "InRelease")] = sha(tree[path.Join(dir, "InRelease")])
		delete(alt, path.Join(dir, "Release"))
		delete(alt, path.Join(dir, "Release.gpg"))
		delete(alt, path.Join(dir, "InRelease"))
		mustFail = !g.ByHash && differ
		if !differ {
			desc += " (no difference)"
		}
	case "only InRelease declares":
		// Release does not declare by-hash: no by-hash then
		dir := suiteDir(su.Name)
		tree := map[string][]byte{}
		for p, d := range s.b.Tree {
			if !strings.Contains(p, "/by-hash/") {
				tree[p] = d
			}
		}
		p := path.Join(dir, "Release")
		tree[p] = []byte(strings.Replace(string(tree[p]), "Acquire-By-Hash: yes\n", "", 1))
		s.o.SetTree(tree)
		w := map[string]string{}
		for q, x := range want {
			if !strings.Contains(q, "/by-hash/") {
				w[q] = x
			}
		}
		w[p] = sha(tree[p])
		want = w
	}
	r := c.RunMirror(s.mc, nil, s.o)
	wit := map[string]interface{}{"situation": desc, "kinds": fam.String(), "run": r.String(), "repository": kindOf(g), "update": update}
	if r.Stuck != "" {
		c.Violate(wit, "%s: go-apt-mirror does not end", desc)
		return
	}
	var asked []string
	for _, h := range s.o.Log()[before:] {
		if strings.Contains(h.Path, "/by-hash/") {
			asked = append(asked, strings.TrimPrefix(h.Path, "/"))
		}
	}
	wit["by-hash requests"] = asked
	c.Count("by_hash_requests", len(asked))
	c.Eval(fmt.Sprintf("%s %s %v flat=%v update=%v exit=%d asked=%v", desc, fam, g.Exts, isFlatName(g.Suites[0]), update, r.Code, len(asked) > 0))
	if (r.Code != 0) != mustFail {
		if mustFail {
			c.Violate(wit, "%s (%s): go-apt-mirror succeeded though an index cannot be had as listed", desc, kindOf(g))
		} else {
			c.Violate(wit, "%s (%s): go-apt-mirror failed though everything can be had", desc, kindOf(g))
		}
		return
	}
	if !g.ByHash && len(asked) > 0 || kind == "only InRelease declares" && len(asked) > 0 {
		c.Violate(wit, "%s: by-hash paths are requested without by-hash support", desc)
		return
	}
	if r.Code != 0 {
		return
	}
	tree, _, ok, err := published(s.mc.Dir, s.id)
	if err != nil || !ok {
		c.Violate(wit, "%s: nothing published", desc)
		return
	}
	got := files(tree)
	for p, x := range alt {
		if got[p] == x {
			got[p] = want[p] // either version is fine
		}
	}
	if d := treeDiff(got, want); d != "" {
		wit["diff"] = d
		c.Violate(wit, "%s (%s): the published tree is not as expected: %s", desc, kindOf(g), head(d, 300))
		return
	}
	for p, e := range tree {
		if strings.Contains(p, "/by-hash/") && e.Sum != "" && e.Mode != 0644 {
			c.Violate(wit, "%s: %s has mode %v", desc, p, e.Mode)
			return
		}
	}
	// by-hash content and names
	root, _ := filepath.EvalSymlinks(filepath.Join(s.mc.Dir, s.id))
	nb := 0
	for p, e := range tree {
		if e.Sum == "" || !strings.Contains(p, "/by-hash/") {
			continue
		}
		d, err := os.ReadFile(filepath.Join(root, p))
		must(err)
		nb++
		algo, name := path.Base(path.Dir(p)), path.Base(p)
		if algo == "MD5Sum" && name != hexMD5(d) || algo == "SHA1" && name != hexSHA1(d) || algo == "SHA256" && name != hexSHA256(d) {
			c.Violate(wit, "%s: %s does not hold what its name says", desc, p)
			return
		}
	}
	c.Count("by_hash_files_checked", nb)
	if len(wantBy) > 0 && len(asked) == 0 {
		c.Violate(wit, "%s: a stale index was not asked for by hash", desc)
	}
	if i < 3 {
		c.Sample(wit)
	}
}
