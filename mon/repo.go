package main

import (
	"bytes"
	"compress/gzip"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os/exec"
	"path"
	"sort"
	"strings"
	"sync"

	"github.com/ulikunitz/xz"
)

// Sums selects checksum families.
type Sums struct{ MD5, SHA1, SHA256 bool }

func (s Sums) String() string {
	return fmt.Sprintf("%v%v%v", b2i(s.MD5), b2i(s.SHA1), b2i(s.SHA256))
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

var allSums = Sums{true, true, true}

// Listing is what an index says about a file.
type Listing struct {
	Size              uint64
	MD5, SHA1, SHA256 string // hex, "" if not listed
}

// ListingOf computes the listing of data restricted to families.
func ListingOf(data []byte, s Sums) Listing {
	l := Listing{Size: uint64(len(data))}
	if s.MD5 {
		l.MD5 = hexMD5(data)
	}
	if s.SHA1 {
		l.SHA1 = hexSHA1(data)
	}
	if s.SHA256 {
		l.SHA256 = hexSHA256(data)
	}
	return l
}

// Matches tells whether data satisfies the listing.
func (l Listing) Matches(data []byte) bool {
	return uint64(len(data)) == l.Size && (l.MD5 == "" || l.MD5 == hexMD5(data)) &&
		(l.SHA1 == "" || l.SHA1 == hexSHA1(data)) && (l.SHA256 == "" || l.SHA256 == hexSHA256(data))
}

// PkgFile is one downloadable item.
type PkgFile struct {
	Path string // relative to the repository root
	Data []byte
	List *Listing // overrides the true listing
}

// SrcPkg is a source package: files below Dir.
type SrcPkg struct {
	Dir   string
	Files []PkgFile // Path is the base name
}

// Comp is one component of a suite for one architecture.
type Comp struct {
	Section, Arch string
	Pkgs          []PkgFile
	Srcs          []SrcPkg // for Arch == "source"
}

// Suite is a suite of a repository.
type Suite struct {
	Name       string // "trusty", or "flat/" or "/"
	Comps      []*Comp
	Exts       []string // variants of each index present upstream: "", ".gz", ".xz", ".bz2"
	ListedExts []string // variants listed in Release (superset of Exts; default Exts)
	RelSums    Sums
	InRelSums  *Sums // default RelSums
	PkgSums    Sums
	ByHash     bool
	NoRelease  bool
	NoInRel    bool
	NoGPG      bool
	SubRelease bool // also put a small Release file next to each Packages
	I18n       bool
	I18nIndex  bool     // translations listed in i18n/Index instead of Release
	RelExts    []string // compressed variants of Release and InRelease
	Marker     string   // version tag
	// RelOverride replaces what Release/InRelease list for a path (relative to
	// the repository root).
	RelOverride   map[string]Listing
	InRelOverride map[string]Listing
	ExtraListed   map[string]Listing // additional lines, paths relative to suite dir as is
}

// Repo is a repository model.
type Repo struct {
	Suites []*Suite
	Extra  map[string][]byte // additional upstream files
}

// Built is a rendered repository.
type Built struct {
	Tree    map[string][]byte
	Listed  map[string]Listing // every listed path (root relative)
	Items   map[string]bool    // listed items (non-index)
	Indices map[string]bool    // index files listed in Release
	// per index: what it lists (paths root relative)
	By map[string]map[string]Listing
	// per suite: release file paths
	Releases map[string][]string
	// per suite: every file its Release lists (indices and the like)
	SuiteIndices map[string][]string
}

func isFlatName(s string) bool { return strings.HasSuffix(s, "/") }

func suiteDir(name string) string {
	if isFlatName(name) {
		d := strings.Trim(name, "/")
		if d == "" || d == "." {
			return ""
		}
		return path.Clean(d)
	}
	return path.Join("dists", name)
}

var (
	bzMu    sync.Mutex
	bzCache = map[string][]byte{}
	xzCache = map[string][]byte{}
)

func cmdOutput(cmd *exec.Cmd) ([]byte, error) {
	var b bytes.Buffer
	cmd.Stdout = &b
	if err := startCmd(cmd); err != nil {
		return nil, err
	}
	err := cmd.Wait()
	return b.Bytes(), err
}

func compress(ext string, data []byte) []byte {
	switch ext {
	case "":
		return data
	case ".gz":
		var b bytes.Buffer
		w := gzip.NewWriter(&b)
		w.Write(data)
		w.Close()
		return b.Bytes()
	case ".xz":
		k := sha(data)
		bzMu.Lock()
		v, ok := xzCache[k]
		bzMu.Unlock()
		if ok {
			return v
		}
		var b bytes.Buffer
		w, err := xz.WriterConfig{DictCap: 1 << 16}.NewWriter(&b)
		must(err)
		_, err = w.Write(data)
		must(err)
		must(w.Close())
		bzMu.Lock()
		xzCache[k] = b.Bytes()
		bzMu.Unlock()
		return b.Bytes()
	case ".bz2":
		k := sha(data)
		bzMu.Lock()
		v, ok := bzCache[k]
		bzMu.Unlock()
		if ok {
			return v
		}
		cmd := exec.Command("bzip2", "-c")
		cmd.Stdin = bytes.NewReader(data)
		out, err := cmdOutput(cmd)
		if err != nil {
			cmd = exec.Command("python3", "-c", "import bz2,sys;sys.stdout.buffer.write(bz2.compress(sys.stdin.buffer.read()))")
			cmd.Stdin = bytes.NewReader(data)
			out, err = cmdOutput(cmd)
			must(err)
		}
		bzMu.Lock()
		bzCache[k] = out
		bzMu.Unlock()
		return out
	}
	// unsupported compressions: opaque bytes
	return append([]byte("OPAQUE"+ext+"\x00"), data...)
}

func (f *PkgFile) listing(s Sums) Listing {
	if f.List != nil {
		return *f.List
	}
	return ListingOf(f.Data, s)
}

func writePackages(b *bytes.Buffer, pkgs []PkgFile, s Sums, out map[string]Listing) {
	for i, f := range pkgs {
		l := f.listing(s)
		fmt.Fprintf(b, "Package: %s\nVersion: 1.0-%d\nArchitecture: x\nDescription: pkg\n long text: with colon\n .\n more\n", strings.TrimSuffix(path.Base(f.Path), ".deb"), i)
		fmt.Fprintf(b, "Filename: %s\nSize: %d\n", f.Path, l.Size)
		if l.MD5 != "" {
			fmt.Fprintf(b, "MD5sum: %s\n", l.MD5)
		}
		if l.SHA1 != "" {
			fmt.Fprintf(b, "SHA1: %s\n", l.SHA1)
		}
		if l.SHA256 != "" {
			fmt.Fprintf(b, "SHA256: %s\n", l.SHA256)
		}
		b.WriteString("\n")
		out[path.Clean(f.Path)] = l
	}
}

func writeSources(b *bytes.Buffer, srcs []SrcPkg, s Sums, out map[string]Listing) {
	for _, sp := range srcs {
		fmt.Fprintf(b, "Package: %s\nDirectory: %s\n", path.Base(sp.Dir), sp.Dir)
		sec := func(name string, get func(Listing) string) {
			var body bytes.Buffer
			for i := range sp.Files {
				l := sp.Files[i].listing(s)
				if v := get(l); v != "" {
					fmt.Fprintf(&body, " %s %d %s\n", v, l.Size, sp.Files[i].Path)
				}
			}
			if body.Len() > 0 {
				fmt.Fprintf(b, "%s:\n%s", name, body.String())
			}
		}
		sec("Files", func(l Listing) string { return l.MD5 })
		sec("Checksums-Sha1", func(l Listing) string { return l.SHA1 })
		sec("Checksums-Sha256", func(l Listing) string { return l.SHA256 })
		b.WriteString("\n")
		for i := range sp.Files {
			out[path.Clean(path.Join(sp.Dir, sp.Files[i].Path))] = sp.Files[i].listing(s)
		}
	}
}

type relEntry struct {
	rel string
	l   Listing
}

func writeRelease(b *bytes.Buffer, s *Suite, entries []relEntry) {
	fmt.Fprintf(b, "Origin: Test\nLabel: Test\nSuite: %s\nCodename: %s\nDate: %s\n", s.Name, s.Name, s.Marker)
	if s.ByHash {
		b.WriteString("Acquire-By-Hash: yes\n")
	}
	b.WriteString("Components: main\n")
	sec := func(name string, get func(Listing) string) {
		var body bytes.Buffer
		for _, e := range entries {
			if v := get(e.l); v != "" {
				fmt.Fprintf(&body, " %s %16d %s\n", v, e.l.Size, e.rel)
			}
		}
		if body.Len() > 0 {
			fmt.Fprintf(b, "%s:\n%s", name, body.String())
		}
	}
	sec("MD5Sum", func(l Listing) string { return l.MD5 })
	sec("SHA1", func(l Listing) string { return l.SHA1 })
	sec("SHA256", func(l Listing) string { return l.SHA256 })
}

func clearsign(body []byte) []byte {
	var b bytes.Buffer
	b.WriteString("-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA256\n\n")
	b.Write(body)
	b.WriteString("-----BEGIN PGP SIGNATURE-----\nVersion: GnuPG v1\n\niQEcBAEBCAAGBQJX\n: bogus: line\n=abcd\n-----END PGP SIGNATURE-----\n")
	return b.Bytes()
}

// Build renders the repository.
func (r *Repo) Build() *Built {
	o := &Built{Tree: map[string][]byte{}, Listed: map[string]Listing{}, Items: map[string]bool{},
		Indices: map[string]bool{}, By: map[string]map[string]Listing{}, Releases: map[string][]string{}, SuiteIndices: map[string][]string{}}
	for k, v := range r.Extra {
		o.Tree[k] = v
	}
	for _, s := range r.Suites {
		dir := suiteDir(s.Name)
		var entries []relEntry
		files := map[string][]byte{} // root relative index path -> data
		index := func(p string) {
			o.Indices[p] = true
			o.SuiteIndices[s.Name] = append(o.SuiteIndices[s.Name], p)
		}
		addIndex := func(rel string, data []byte, lists map[string]Listing) {
			listed := s.ListedExts
			if listed == nil {
				listed = s.Exts
			}
			have := map[string]bool{}
			for _, e := range s.Exts {
				have[e] = true
			}
			for _, e := range listed {
				p := path.Join(dir, rel+e)
				cd := compress(e, data)
				entries = append(entries, relEntry{rel + e, ListingOf(cd, allSums)})
				index(p)
				o.By[p] = lists
				if have[e] {
					files[p] = cd
				}
			}
		}
		for _, c := range s.Comps {
			lists := map[string]Listing{}
			var b bytes.Buffer
			if c.Arch == "source" {
				writeSources(&b, c.Srcs, s.PkgSums, lists)
				for _, sp := range c.Srcs {
					for _, f := range sp.Files {
						if f.Data != nil {
							o.Tree[path.Join(sp.Dir, f.Path)] = f.Data
						}
					}
				}
				rel := path.Join(c.Section, "source", "Sources")
				if isFlatName(s.Name) {
					rel = "Sources"
				}
				addIndex(rel, b.Bytes(), lists)
			} else {
				writePackages(&b, c.Pkgs, s.PkgSums, lists)
				for _, f := range c.Pkgs {
					if f.Data != nil {
						o.Tree[path.Clean(f.Path)] = f.Data
					}
				}
				rel := path.Join(c.Section, "binary-"+c.Arch, "Packages")
				if isFlatName(s.Name) {
					rel = "Packages"
				}
				addIndex(rel, b.Bytes(), lists)
			}
			if s.SubRelease && !isFlatName(s.Name) {
				d := path.Join(c.Section, "binary-"+c.Arch)
				if c.Arch == "source" {
					d = path.Join(c.Section, "source")
				}
				data := []byte(fmt.Sprintf("Archive: %s\nComponent: %s\nArchitecture: %s\n", s.Name, c.Section, c.Arch))
				rel := path.Join(d, "Release")
				entries = append(entries, relEntry{rel, ListingOf(data, allSums)})
				files[path.Join(dir, rel)] = data
				index(path.Join(dir, rel))
			}
			for p, l := range lists {
				o.Items[p] = true
				o.Listed[p] = l
			}
		}
		if s.I18n {
			for _, lang := range []string{"en", "fr"} {
				data := []byte("Package: a\nDescription-" + lang + ": x " + s.Marker + "\n")
				rel := "main/i18n/Translation-" + lang
				entries = append(entries, relEntry{rel, ListingOf(data, allSums)})
				files[path.Join(dir, rel)] = data
				index(path.Join(dir, rel))
			}
		}
		if s.I18nIndex {
			var es []relEntry
			lists := map[string]Listing{}
			for _, lang := range []string{"de", "ja"} {
				data := []byte("Package: a\nDescription-" + lang + ": y " + s.Marker + "\n")
				p := path.Join(dir, "main/i18n/Translation-"+lang)
				o.Tree[p] = data
				l := ListingOf(data, Sums{SHA1: true})
				lists[p], o.Items[p], o.Listed[p] = l, true, l
				es = append(es, relEntry{"Translation-" + lang, l})
			}
			var b bytes.Buffer
			b.WriteString("SHA1:\n")
			for _, e := range es {
				fmt.Fprintf(&b, " %s %d %s\n", e.l.SHA1, e.l.Size, e.rel)
			}
			rel := "main/i18n/Index"
			entries = append(entries, relEntry{rel, ListingOf(b.Bytes(), allSums)})
			files[path.Join(dir, rel)] = b.Bytes()
			index(path.Join(dir, rel))
			o.By[path.Join(dir, rel)] = lists
		}
		for p, l := range s.ExtraListed {
			entries = append(entries, relEntry{p, l})
		}
		for p, d := range files {
			o.Tree[p] = d
		}
		restrict := func(l Listing, fam Sums) Listing {
			if !fam.MD5 {
				l.MD5 = ""
			}
			if !fam.SHA1 {
				l.SHA1 = ""
			}
			if !fam.SHA256 {
				l.SHA256 = ""
			}
			return l
		}
		render := func(fam Sums, over map[string]Listing) []byte {
			es := make([]relEntry, 0, len(entries))
			for _, e := range entries {
				l := restrict(e.l, fam)
				if ol, ok := over[path.Join(dir, e.rel)]; ok {
					l = ol
				}
				es = append(es, relEntry{e.rel, l})
				o.Listed[path.Join(dir, e.rel)] = l
			}
			// some repositories list the Release files themselves, with
			// checksums they cannot have
			if h := sha([]byte(s.Marker + s.Name)); h[0] < '6' {
				for i, n := range []string{"Release", "Release.gpg", "InRelease"} {
					if i == 0 || h[i] < '8' {
						es = append(es, relEntry{n, restrict(ListingOf([]byte(h+n), allSums), fam)})
					}
				}
			}
			var b bytes.Buffer
			writeRelease(&b, s, es)
			return b.Bytes()
		}
		inFam := s.RelSums
		if s.InRelSums != nil {
			inFam = *s.InRelSums
		}
		var rels []string
		if !s.NoInRel {
			p := path.Join(dir, "InRelease")
			o.Tree[p] = clearsign(render(inFam, s.InRelOverride))
			rels = append(rels, p)
		}
		if !s.NoRelease {
			p := path.Join(dir, "Release")
			o.Tree[p] = render(s.RelSums, s.RelOverride)
			rels = append(rels, p)
		}
		if !s.NoRelease && !s.NoGPG {
			p := path.Join(dir, "Release.gpg")
			o.Tree[p] = []byte("-----BEGIN PGP SIGNATURE-----\n" + hexMD5(o.Tree[path.Join(dir, "Release")]) + "\n-----END PGP SIGNATURE-----\n")
			rels = append(rels, p)
		}
		for _, e := range s.RelExts {
			for _, n := range []string{"Release", "InRelease"} {
				if d, ok := o.Tree[path.Join(dir, n)]; ok {
					o.Tree[path.Join(dir, n+e)] = compress(e, d)
				}
			}
		}
		o.Releases[s.Name] = rels
		if s.ByHash {
			for _, e := range entries {
				p := path.Join(dir, e.rel)
				d, ok := files[p]
				if !ok {
					continue
				}
				base := path.Join(path.Dir(p), "by-hash")
				o.Tree[path.Join(base, "MD5Sum", hexMD5(d))] = d
				o.Tree[path.Join(base, "SHA1", hexSHA1(d))] = d
				o.Tree[path.Join(base, "SHA256", hexSHA256(d))] = d
			}
		}
	}
	return o
}

// blob makes unique, self-describing content.
func blob(rng *rand.Rand, name string, size int) []byte {
	b := make([]byte, 0, size+64)
	b = append(b, "<"+name+" "+fmt.Sprint(rng.Int63())+">\n"...)
	for len(b) < size {
		var t [32]byte
		rng.Read(t[:])
		b = append(b, t[:]...)
	}
	return b
}

// GenOpts steers GenRepo.
type GenOpts struct {
	Suites     []string
	Sections   []string
	Archs      []string // without "all"
	Source     bool
	PkgsPer    int
	MaxSize    int
	Exts       []string
	ByHash     bool
	Sums       *Sums // nil = random subset
	SubRelease bool
	I18n       bool
}

func randSums(rng *rand.Rand) Sums {
	for {
		s := Sums{rng.Intn(2) == 0, rng.Intn(2) == 0, rng.Intn(2) == 0}
		if s.MD5 || s.SHA1 || s.SHA256 {
			return s
		}
	}
}

var weirdNames = []string{"g++_1", "lib~x_2", "a b_1", "x%20y_1", "q?m_1", "h#h_1", "c:olon_1", "pl+us_1", "at@_1", "ü_1", "semi;_1", "amp&_1", "eq=_1", "per%25_1", "br[0]_1", "tilde~_1", "com,ma_1", "d..ot_1", "...dots_1", "*_1", "'q_1", "pct%_1", ".cache_1", "_tmp1_1", "x.Release_1", "Packages_1", ".hidden.cache.cache_1"}

// GenRepo makes a random repository.
func GenRepo(rng *rand.Rand, g GenOpts) *Repo {
	r := &Repo{Extra: map[string][]byte{}}
	for _, sn := range g.Suites {
		s := &Suite{Name: sn, Exts: g.Exts, ByHash: g.ByHash, Marker: fmt.Sprint(rng.Int63()), SubRelease: g.SubRelease, I18n: g.I18n}
		if g.Sums != nil {
			s.RelSums, s.PkgSums = *g.Sums, *g.Sums
		} else {
			s.RelSums, s.PkgSums = randSums(rng), randSums(rng)
		}
		if isFlatName(sn) {
			c := &Comp{Section: "", Arch: "any"}
			c.Pkgs = genPkgs(rng, suiteDir(sn), "any", g)
			s.Comps = append(s.Comps, c)
			if g.Source {
				s.Comps = append(s.Comps, genSrc(rng, suiteDir(sn), "", g))
			}
		} else {
			for _, sec := range g.Sections {
				for _, a := range append([]string{"all"}, g.Archs...) {
					c := &Comp{Section: sec, Arch: a}
					c.Pkgs = genPkgs(rng, path.Join("pool", sn, sec), a, g)
					s.Comps = append(s.Comps, c)
				}
				if g.Source {
					s.Comps = append(s.Comps, genSrc(rng, path.Join("pool", sn, sec), sec, g))
				}
			}
		}
		r.Suites = append(r.Suites, s)
	}
	return r
}

func genPkgs(rng *rand.Rand, dir, arch string, g GenOpts) []PkgFile {
	var l []PkgFile
	seen := map[string]bool{}
	for i := 0; i < g.PkgsPer; i++ {
		name := fmt.Sprintf("pkg%d", rng.Intn(10000))
		if rng.Intn(4) == 0 {
			name = weirdNames[rng.Intn(len(weirdNames))]
		} else if rng.Intn(6) == 0 {
			// the suffix go-apt-cacher adds to the names of its files
			name = fmt.Sprintf("fonts.cache%d-data", rng.Intn(100))
		}
		p := path.Join(dir, name+"_"+arch+".deb")
		if seen[p] {
			continue
		}
		seen[p] = true
		size := rng.Intn(g.MaxSize + 1)
		if rng.Intn(12) == 0 {
			l = append(l, PkgFile{Path: p, Data: []byte{}})
			continue
		}
		l = append(l, PkgFile{Path: p, Data: blob(rng, p, size)})
	}
	return l
}

func genSrc(rng *rand.Rand, dir, sec string, g GenOpts) *Comp {
	c := &Comp{Section: sec, Arch: "source"}
	for i := 0; i < 1+g.PkgsPer/2; i++ {
		d := path.Join(dir, fmt.Sprintf("src%d-%d", i, rng.Intn(1000)))
		if rng.Intn(6) == 0 {
			d += ".cached"
		}
		sp := SrcPkg{Dir: d}
		for _, sfx := range []string{".dsc", ".orig.tar.gz", ".debian.tar.xz"} {
			n := path.Base(d) + sfx
			sp.Files = append(sp.Files, PkgFile{Path: n, Data: blob(rng, path.Join(d, n), rng.Intn(g.MaxSize+1))})
		}
		c.Srcs = append(c.Srcs, sp)
	}
	return c
}

// Mutate makes the next version: changes, adds and removes items.
func (r *Repo) Mutate(rng *rand.Rand, g GenOpts) *Repo {
	n := &Repo{Extra: r.Extra}
	for _, s := range r.Suites {
		ns := *s
		ns.Marker = fmt.Sprint(rng.Int63())
		ns.Comps = nil
		for _, c := range s.Comps {
			nc := &Comp{Section: c.Section, Arch: c.Arch}
			for _, p := range c.Pkgs {
				switch rng.Intn(6) {
				case 0: // removed
					continue
				case 1: // same path, new content, often the same size
					d := blob(rng, p.Path, rng.Intn(g.MaxSize+1))
					if rng.Intn(2) == 0 && len(p.Data) > 0 {
						d = append([]byte{}, p.Data...)
						d[len(d)-1] ^= 0x55
					}
					nc.Pkgs = append(nc.Pkgs, PkgFile{Path: p.Path, Data: d})
				default:
					nc.Pkgs = append(nc.Pkgs, p)
				}
			}
			if c.Arch != "source" && rng.Intn(2) == 0 {
				dir := "pool/new"
				if len(c.Pkgs) > 0 {
					dir = path.Dir(c.Pkgs[0].Path)
				} else if isFlatName(s.Name) {
					dir = suiteDir(s.Name)
				}
				p := path.Join(dir, fmt.Sprintf("new%d_%s.deb", rng.Intn(1000000), c.Arch))
				nc.Pkgs = append(nc.Pkgs, PkgFile{Path: p, Data: blob(rng, p, rng.Intn(g.MaxSize+1))})
			}
			for _, sp := range c.Srcs {
				if rng.Intn(4) == 0 {
					q := SrcPkg{Dir: sp.Dir}
					for _, f := range sp.Files {
						q.Files = append(q.Files, PkgFile{Path: f.Path, Data: blob(rng, f.Path, rng.Intn(g.MaxSize+1))})
					}
					sp = q
				}
				nc.Srcs = append(nc.Srcs, sp)
			}
			ns.Comps = append(ns.Comps, nc)
		}
		n.Suites = append(n.Suites, &ns)
	}
	return n
}

func sortedKeys(m map[string][]byte) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func mustHex(s string) []byte {
	b, err := hex.DecodeString(s)
	must(err)
	return b
}
