package main

import (
	"fmt"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
)

// pubEntry is one entry of a published tree.
type pubEntry struct {
	Sum  string // sha256 of a regular file
	Mode os.FileMode
	Ino  uint64
	Size int64
}

// readTree reads everything below root; symbolic links are not followed.
func readTree(root string) (map[string]pubEntry, error) {
	m := map[string]pubEntry{}
	err := filepath.Walk(root, func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(root, p)
		if err != nil {
			return err
		}
		e := pubEntry{Mode: st.Mode(), Size: st.Size()}
		if s, ok := st.Sys().(*syscall.Stat_t); ok {
			e.Ino = s.Ino
		}
		if st.Mode().IsRegular() {
			d, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			e.Sum = sha(d)
		} else if st.Mode()&os.ModeSymlink != 0 {
			t, err := os.Readlink(p)
			if err != nil {
				return err
			}
			e.Sum = "-> " + t
		}
		m[rel] = e
		return nil
	})
	return m, err
}

// files restricts a tree to path -> sha256 of its regular files (and links).
func files(t map[string]pubEntry) map[string]string {
	m := map[string]string{}
	for p, e := range t {
		if e.Sum != "" {
			m[p] = e.Sum
		}
	}
	return m
}

// published reads what clients see at the mirror path; ok is false when
// nothing is there.
func published(dir, id string) (tree map[string]pubEntry, target string, ok bool, err error) {
	p := filepath.Join(dir, id)
	if _, err := os.Lstat(p); os.IsNotExist(err) {
		return nil, "", false, nil
	}
	target, err = filepath.EvalSymlinks(p)
	if err != nil {
		return nil, "", true, err
	}
	tree, err = readTree(target)
	return tree, target, true, err
}

// digest names a set of files.
func digest(m map[string]string) string {
	var l []string
	for p, s := range m {
		l = append(l, p+"\x00"+s)
	}
	sort.Strings(l)
	return sha([]byte(strings.Join(l, "\n")))
}

// treeDiff describes the differences of two sets of files.
func treeDiff(got, want map[string]string) string {
	var l []string
	for p, s := range want {
		g, ok := got[p]
		switch {
		case !ok:
			l = append(l, "missing "+p)
		case g != s:
			l = append(l, "wrong content of "+p)
		}
	}
	for p := range got {
		if _, ok := want[p]; !ok {
			l = append(l, "unexpected "+p)
		}
	}
	sort.Strings(l)
	if len(l) > 12 {
		l = append(l[:12], fmt.Sprintf("and %d more", len(l)-12))
	}
	return strings.Join(l, "; ")
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

var supportedExt = map[string]bool{"": true, ".gz": true, ".bz2": true, ".xz": true}

// splitIndex splits an index path into directory, base name and compression.
func splitIndex(p string) (dir, base, ext string) {
	dir, base = path.Split(p)
	for _, e := range []string{".gz", ".bz2", ".xz", ".lzma", ".lz"} {
		if strings.HasSuffix(base, e) {
			return dir, strings.TrimSuffix(base, e), e
		}
	}
	return dir, base, ""
}

// mirrorWants computes, from the repository model and independently of
// aptutil, what a mirror of it contains: path -> sha256.
func mirrorWants(r *Repo, b *Built, d MirrDef) map[string]string {
	w := map[string]string{}
	put := func(p string) {
		if data, ok := b.Tree[p]; ok {
			w[p] = sha(data)
		}
	}
	for _, s := range r.Suites {
		if !hasStr(d.Suites, s.Name) {
			continue
		}
		dir := suiteDir(s.Name)
		for _, n := range []string{"Release", "InRelease"} {
			for _, e := range []string{"", ".gz", ".bz2"} {
				put(path.Join(dir, n+e))
			}
		}
		put(path.Join(dir, "Release.gpg"))
		for _, e := range b.SuiteIndices[s.Name] {
			idir, base, ext := splitIndex(e)
			if base == "Sources" && !d.Source {
				continue
			}
			data, ok := b.Tree[e]
			if !ok {
				continue
			}
			w[e] = sha(data)
			if s.ByHash {
				bh := path.Join(idir, "by-hash")
				w[path.Join(bh, "MD5Sum", hexMD5(data))] = sha(data)
				w[path.Join(bh, "SHA1", hexSHA1(data))] = sha(data)
				w[path.Join(bh, "SHA256", hexSHA256(data))] = sha(data)
			}
			if !supportedExt[ext] {
				continue
			}
			use := false
			switch {
			case isFlatName(s.Name):
				use = base == "Packages" || base == "Sources"
			case base == "Packages":
				for _, sec := range d.Sections {
					for _, a := range append([]string{"all"}, d.Archs...) {
						use = use || e == path.Join(dir, sec, "binary-"+a, "Packages"+ext)
					}
				}
			case base == "Sources":
				for _, sec := range d.Sections {
					use = use || e == path.Join(dir, sec, "source", "Sources"+ext)
				}
			}
			if base == "Index" {
				use = true
			}
			if use {
				for p := range b.By[e] {
					put(p)
				}
			}
		}
	}
	return w
}

// scene is a mirror of a generated repository.
type scene struct {
	g    GenOpts
	repo *Repo
	b    *Built
	def  MirrDef
	o    *Origin
	mc   MirrorConf
	id   string
	want map[string]string
}

// sceneOpts picks a kind of repository.
func sceneOpts(rng *rand.Rand, i int) GenOpts {
	fam := randSums(rng)
	g := GenOpts{Suites: []string{"t"}, Sections: []string{"main"}, Archs: []string{"amd64"}, PkgsPer: 3, MaxSize: 6000,
		Exts: [][]string{{""}, {".gz"}, {".xz"}, {"", ".gz"}, {".bz2"}}[i%5], Sums: &fam, ByHash: i%2 == 1}
	switch i % 4 {
	case 1:
		g.Suites = []string{"t", "t-updates"}
		g.PkgsPer = 2
	case 2:
		g.Suites = []string{"f/"}
		g.PkgsPer = 6
	case 3:
		g.Source = true
		g.SubRelease = true
	}
	return g
}

func defOf(g GenOpts, url string) MirrDef {
	d := MirrDef{URL: url, Suites: g.Suites, Source: g.Source}
	if !isFlatName(g.Suites[0]) {
		d.Sections, d.Archs = g.Sections, g.Archs
	}
	return d
}

// newScene makes a repository, an origin for it and a configuration.
func (c *Ctx) newScene(rng *rand.Rand, g GenOpts) *scene {
	s := &scene{g: g, id: "m", o: NewOrigin()}
	s.def = defOf(g, s.o.URL)
	s.mc = MirrorConf{Dir: c.Dir("mirror"), MaxConns: 10, Mirrors: map[string]MirrDef{s.id: s.def}}
	s.setRepo(GenRepo(rng, g))
	return s
}

func (s *scene) setRepo(r *Repo) {
	s.repo, s.b = r, r.Build()
	s.want = mirrorWants(s.repo, s.b, s.def)
	s.o.SetTree(s.b.Tree)
}

// mutate publishes another version upstream, different from the last one in
// at least one item.
func (s *scene) mutate(rng *rand.Rand) {
	old := digest(s.want)
	for try := 0; try < 50; try++ {
		s.setRepo(s.repo.Mutate(rng, s.g))
		if digest(s.want) != old {
			return
		}
	}
	panic("Mutate does not change anything")
}

// expectRun runs go-apt-mirror and expects success and the current version.
func (c *Ctx) expectRun(s *scene, what string, ids ...string) bool {
	r := c.RunMirror(s.mc, ids, s.o)
	if r.Code != 0 || r.Stuck != "" {
		c.Violate(map[string]interface{}{"run": r.String(), "config": s.mc.toml()}, "%s: go-apt-mirror failed on a healthy repository", what)
		return false
	}
	return c.expectPublished(s.mc.Dir, s.id, s.want, what)
}

// expectPublished compares the published tree with want.
func (c *Ctx) expectPublished(dir, id string, want map[string]string, what string) bool {
	t, _, ok, err := published(dir, id)
	if err != nil || !ok {
		c.Violate(fmt.Sprint(err), "%s: nothing usable is published at the mirror path", what)
		return false
	}
	if d := treeDiff(files(t), want); d != "" {
		c.Violate(map[string]interface{}{"diff": d}, "%s: the published tree is not the expected version: %s", what, head(d, 300))
		return false
	}
	return true
}

// dirNames lists a mirror directory.
func dirNames(dir string) []string {
	ents, err := os.ReadDir(dir)
	must(err)
	var l []string
	for _, e := range ents {
		l = append(l, e.Name())
	}
	return l
}

// tidy checks that a mirror directory holds nothing but the lock file, the
// given links and the directories they resolve into.
func tidy(dir string, links ...string) string {
	ok := map[string]bool{".lock": true}
	root, err := filepath.EvalSymlinks(dir)
	must(err)
	for _, l := range links {
		ok[l] = true
		p, err := filepath.EvalSymlinks(filepath.Join(dir, l))
		if err != nil {
			return err.Error()
		}
		if rel, err := filepath.Rel(root, p); err == nil {
			ok[strings.Split(rel, "/")[0]] = true
		}
	}
	var bad []string
	for _, n := range dirNames(dir) {
		if !ok[n] {
			bad = append(bad, n)
		}
		delete(ok, n)
	}
	delete(ok, ".lock") // no one says it has to stay
	for n := range ok {
		if n != ".." && n != "." {
			bad = append(bad, "no "+n)
		}
	}
	return strings.Join(bad, " ")
}

// traceMirror runs go-apt-mirror under the tracer to its end.
func (c *Ctx) traceMirror(mc MirrorConf, t *Tracer, ids ...string) {
	mc.Plain = true
	cmd := c.mirrorCmd(mc, ids...)
	if err := t.Run(c, cmd.Args, cmd.Env, cmd.Dir); err != nil {
		giveUp("tracer: %v", err)
	}
}
